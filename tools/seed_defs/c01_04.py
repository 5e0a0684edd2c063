seed('c01-inverse', 'C01', [('Tools/ThreeMatrix.hh', '''		inverse.m_data[5] = m_data[2] * m_data[3] - m_data[0] * m_data[5];''',
 '''		inverse.m_data[5] = m_data[1] * m_data[6] - m_data[0] * m_data[7];'''),
 ('Tools/ThreeMatrix.hh', '''		inverse.m_data[7] = m_data[1] * m_data[6] - m_data[0] * m_data[7];''',
  '''		inverse.m_data[7] = m_data[2] * m_data[3] - m_data[0] * m_data[5];''')],
 'a matrix whose lower right block is not symmetric', 'two cofactors of the inverse are transposed: right for every symmetric matrix, wrong otherwise',
 '''#include "ThreeVector.hh"
int main()
{
    ThreeMatrix m; m.Ideneity(); m[1][2] = 3; m[2][0] = -2; m[0][1] = 0.5;
    ThreeMatrix p = m * m.Inverse();
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++)
        if (std::fabs(p[i][j] - (i == j)) > 1e-9) return 1;
    return 0;
}
''')
seed('c01-rotation', 'C01', [('Tools/ThreeVector.hh', 'skewMat * skewMat * (1.0 / (1.0 + cos));', 'skewMat * skewMat * (cos > 0.0 ? 1.0 / (1.0 + cos) : (1.0 - cos) / (crossVec.Mag2() + 1e-12 * cos));')],
 'two directions more than a right angle apart and close to antiparallel (relative angle below a milliradian)', 'the rotation is no longer orthonormal close to the antiparallel case',
 '''#include "ThreeVector.hh"
int main()
{
    ThreeVector a(0, 0, 1), b(2e-5, 0, -1);
    ThreeVector r = a.RotateToAxis(b) * a;
    ThreeVector d = r - b.Norm();
    return d.Mag() > 1e-5 ? 1 : 0;
}
''')
seed('c02-nearest', 'C02', [('Tools/Numerics.cpp', '''	unsigned int lowIndex = 0;
	for (unsigned int i = 0; i < sampleSize; i++)
	{
		if (samplePoints[i] < queryPoint)
		{
			lowIndex = i;
		} else
		{
			break;
		}
	}
	if (lowIndex < sampleSize - 1)
''', '''	unsigned int lowIndex = 0;
	// bisect for the last sample below the query
	unsigned int highIndex = sampleSize - 1;
	while (highIndex - lowIndex > 2)
	{
		unsigned int mid = (lowIndex + highIndex) / 2;
		if (samplePoints[mid] < queryPoint)
		{
			lowIndex = mid;
		} else
		{
			highIndex = mid;
		}
	}
	if (samplePoints[highIndex] < queryPoint) lowIndex = highIndex;
	if (lowIndex < sampleSize - 1)
''')],
 'the query in the upper half of the last bracket the bisection stops at', 'the nearest-sample lookup can return a neighbour of the nearest sample',
 '''#include "Numerics.hh"
#include <vector>
#include <cmath>
int main()
{
    std::vector<double> x;
    for (int i = 0; i < 17; i++) x.push_back(i * 0.5 + 0.01 * i * i);
    for (double q = -1; q < 14; q += 0.03)
    {
        int k = Numerics::ArrayIndex(x.data(), x.size(), q);
        for (int i = 0; i < 17; i++) if (std::fabs(x[i] - q) < std::fabs(x[k] - q) - 1e-12) return 1;
    }
    return 0;
}
''', ['Tools/Numerics.cpp'])
seed('c03-simpson', 'C03', [('Tools/Numerics.cpp', '''	for (unsigned int i = 2; i < integrand.size() - 2; i += 2)
	{
		integral += 2.0 * integrand[i];
	}
''', '''	for (unsigned int i = 2; i + 4 < integrand.size(); i += 2)
	{
		integral += 2.0 * integrand[i];
	}
	if (integrand.size() > 6) integral += 2.0 * integrand[integrand.size() - 3];
''')],
 'exactly five samples', 'with five samples the middle one is left out of the integral',
 '''#include "Numerics.hh"
#include <cmath>
int main()
{
    for (int n = 3; n < 12; n += 2)
    {
        std::vector<double> x, y;
        for (int i = 0; i < n; i++) { x.push_back(1 + 0.25 * i); y.push_back(std::pow(x[i], 3)); }
        double b = x.back(), want = (std::pow(b, 4) - 1) / 4;
        if (std::fabs(Numerics::SimpsonsRule(x, y) - want) > 1e-9 * want) return 1;
    }
    return 0;
}
''', ['Tools/Numerics.cpp'])
seed('c04-discrete', 'C04', [('Tools/MCTools.cpp', '''        cdf[i] = cdf[i-1] + distro[i];

    }''', '''        // entries without weight never need to be found
        cdf[i] = distro[i] > 0.0 ? cdf[i-1] + distro[i] : 0.0;
    }''')],
 'a zero weight between positive weights', 'the cumulative weights restart after an entry of zero weight, so entries after it are drawn too rarely',
 '''#include "MCTools.hh"
int main()
{
    std::vector<double> w = {1.0, 0.0, 1.0};
    MCTools::SetSeed(5);
    int first = 0, n = 4000;
    for (int i = 0; i < n; i++) if (MCTools::RandDiscrete(w) == 0) first++;
    return first > 0.6 * n || first < 0.4 * n ? 1 : 0;
}
''', ['Tools/MCTools.cpp'])
seed('c04-vector', 'C04', [('Tools/MCTools.cpp', '''    std::uniform_real_distribution<double> dist(low, high); 
    std::vector<double> samples(nSamples);

    for (unsigned int i = 0; i < nSamples; i++)
    {
        samples[i] = dist(generator);
    }''', '''    std::uniform_real_distribution<double> dist(low, high); 
    std::vector<double> samples(nSamples);

    // draw antithetic pairs: half the generator calls
    for (unsigned int i = 0; i < nSamples; i += 2)
    {
        samples[i] = dist(generator);
        if (i + 1 < nSamples) samples[i+1] = low + high - samples[i];
    }''')],
 'looking at how samples relate to each other and to the next draw', 'every second sample is a mirror image of the one before instead of an independent draw',
 '''#include "MCTools.hh"
#include <cmath>
int main()
{
    MCTools::SetSeed(9);
    std::vector<double> v = MCTools::SampleUniform(-1, 3, 6);
    std::mt19937 g(9);
    std::uniform_real_distribution<double> d(-1, 3);
    for (int i = 0; i < 6; i++) if (std::fabs(v[i] - d(g)) > 1e-12) return 1;
    return 0;
}
''', ['Tools/MCTools.cpp'])
