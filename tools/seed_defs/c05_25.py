VEC = '''
static int bad = 0;
static void near(double a, double b, double tol = 1e-9)
{
    double d = std::fabs(a - b), s = std::max(std::fabs(a), std::fabs(b));
    if (!(d <= tol * s + 1e-300)) bad = 1;
}
'''
HEAD = '#include <cmath>\n#include <cstdlib>\n#include <iostream>\n#include <algorithm>\n#include <string>\n#include <vector>\n'
PHYS = ['Particles/Particle.cpp', 'Particles/Lepton.cpp', 'Particles/Photon.cpp', 'Particles/ParticleList.cpp', 'Tools/MCTools.cpp', 'Tools/Numerics.cpp',
        'Tools/UnitsSystem.cpp', 'Physics/Fields/EMField/StaticEMField.cpp']
OUT = PHYS + ['IO/Output/HDF5Output.cpp', 'IO/Output/Histogram.cpp', 'IO/Output/OutputManager.cpp']
FIELD = '''
struct Uniform : public EMField
{
    ThreeVector e, b;
    Uniform(const ThreeVector& e_, const ThreeVector& b_) : e(e_), b(b_) {}
    void GetField(double, const ThreeVector&, ThreeVector& E, ThreeVector& B) const { E = e; B = b; }
};
'''

seed('c05-length', 'C05', [('Tools/UnitsSystem.cpp', 'ref_length   = SI_c / ref_freq;', 'ref_length   = SI_hBar / (SI_me * SI_c);')],
 'comparing the length and time references to better than seven digits', 'the reference length comes from an independently rounded constant and is no longer exactly c times the reference time',
 HEAD + '#include "UnitsSystem.hh"\n' + VEC + '''
int main()
{
    UnitsSystem u("SI");
    near(u.RefLength(), 2.99792458e8 * u.RefTime(), 1e-12);
    return bad;
}
''', sources=['Tools/UnitsSystem.cpp'])

seed('c06-node', 'C06', [('Physics/Fields/EMField/PlaneEMField.cpp', '''m_waveNum);

    eField[0] = E0 * std::cos(m_polAngle);''', '''m_waveNum);

    // nothing to do at the nodes of the wave
    if (std::fabs(E0) < 1.0e-3 * std::fabs(m_maxE)) return;

    eField[0] = E0 * std::cos(m_polAngle);''')],
 'a point within a thousandth of a node of the wave, and vectors that held another value before', 'near a node the fields are not written at all, so the caller keeps the previous ones',
 HEAD + '#include "PlaneEMField.hh"\n' + VEC + '''
int main()
{
    PlaneEMField f(2.0, 1.0, 0.3, ThreeVector(0, 0, 1));
    ThreeVector e(7, 7, 7), b(7, 7, 7);
    f.GetField(0.25, ThreeVector(0, 0, 0), e, b);
    return e.Mag() > 1e-6 || b.Mag() > 1e-6;
}
''', sources=['Physics/Fields/EMField/PlaneEMField.cpp'])

seed('c07-farwaist', 'C07', [('Physics/Fields/EMField/GaussianEMField.cpp', '''	double beamWaist = m_waist * std::sqrt(1.0 + position_p[2] * position_p[2] 
										   / (rayleigh * rayleigh));
''', '''	double beamWaist = m_waist * std::sqrt(1.0 + position_p[2] * position_p[2] 
										   / (rayleigh * rayleigh));
	// in the far field the waist grows linearly
	if (position_p[2] * position_p[2] > 1.0e10 * rayleigh * rayleigh)
	{
		beamWaist = m_waist * position_p[2] / rayleigh;
	}
'''.replace('''	double beamWaist = m_waist * std::sqrt(1.0 + position_p[2] * position_p[2] ''', '''	double beamWaist = m_waist * std::sqrt(1.0 + position_p[2] * position_p[2]'''))],
 'a point more than 1e5 Rayleigh lengths before the focus', 'the linear far-field waist is negative before the focus, so the field has the wrong sign there',
 HEAD + '#include "GaussianEMField.hh"\n' + VEC + '''
int main()
{
    double lam = 1.0, w = 0.2, zR = M_PI * w * w / lam, z = -2e5 * zR, d = -2.0 * z;
    GaussianEMField f(1.0, lam, 50.0, w, 0.0, ThreeVector(0, 0, -d), ThreeVector(0, 0, 0));
    ThreeVector e, b;
    f.GetField(d + z, ThreeVector(0, 0, z), e, b);
    double want = std::cos((z - (d + z)) * 2.0 * M_PI / lam) / 2e5;
    return !(e[0] * want > 0);
}
''', sources=['Physics/Fields/EMField/GaussianEMField.cpp'])

seed('c08-ey', 'C08', [('Physics/Fields/EMField/FocusingField.cpp', '* m_eps * (rho2 * S[4] - rho2 * rho2 * S[5] / 4.0));', '* m_eps * (rho2 * S[4] - rho2 * S[5] / 4.0));')],
 'a point off both transverse axes, in a strongly focused beam', 'one fourth-order term of the cross-polarised field has the wrong power of the radius',
 HEAD + '#include "FocusingField.hh"\n' + VEC + '''
int main()
{
    double lam = 1.0, w = 0.6, k = 2 * M_PI / lam, zR = k * w * w / 2, eps = w / zR;
    FocusingField f(1.0, lam, 1e3, w, 0.0, ThreeVector(0, 0, -5), ThreeVector(0, 0, 0));
    ThreeVector e, b;
    double x = 0.5, y = 0.4, t = 0.3;
    f.GetField(t, ThreeVector(x, y, 0), e, b);
    double r2 = x * x + y * y, rho2 = r2 / w / w;
    double E0 = std::exp(-r2 / w / w - (t - 5) * (t - 5) / 1e6), S = std::sin(k * t);
    near(e[1], E0 * x * y / w / w * S * (eps * eps + eps * eps * eps * eps * (rho2 - rho2 * rho2 / 4)), 1e-6);
    return bad;
}
''', sources=['Physics/Fields/EMField/FocusingField.cpp'])

seed('c09-gamma', 'C09', [('Particles/Particle.cpp', '''	m_position = position;
	m_momentum = momentum;
	if (m_tracking == true)
	{
		m_posHistory.push_back(position);
		m_momHistory.push_back(momentum);
		m_timeHistory.push_back(m_time);
		m_gammaHistory.push_back(GetGamma());
	}
''', '''	if (m_tracking == true)
	{
		m_posHistory.push_back(position);
		m_momHistory.push_back(momentum);
		m_timeHistory.push_back(m_time);
		m_gammaHistory.push_back(GetGamma());
	}
	m_position = position;
	m_momentum = momentum;
''')],
 'a tracked particle whose momentum changes in the step', 'the gamma history lags the momentum history by one step',
 HEAD + '#include "Lepton.hh"\n' + VEC + '''
int main()
{
    Lepton l(1.0, -1.0, ThreeVector(0, 0, 0), ThreeVector(0, 0, 3), 1, 0, true);
    l.UpdateTrack(ThreeVector(0, 0, 1), ThreeVector(0, 4, 3));
    near(l.GetGammaHist().back(), std::sqrt(26.0));
    return bad;
}
''', sources=PHYS)

seed('c10-stage', 'C10', [('Physics/ParticlePushers/ParticlePusher.cpp', '''        m_field->GetField(part->GetTime() + m_dt / 2.0,
                          part->GetPosition() + posK2 * m_dt / 2.0,''', '''        m_field->GetField(part->GetTime() + m_dt / 3.0,
                          part->GetPosition() + posK2 * m_dt / 2.0,''')],
 'a field that varies in time', 'the third Runge-Kutta stage samples the field at the wrong time',
 HEAD + '#include "LorentzPusher.hh"\n#include "Lepton.hh"\n' + VEC + '''
struct Ramp : public EMField
{
    void GetField(double t, const ThreeVector&, ThreeVector& E, ThreeVector& B) const { E = ThreeVector(0, 0, t); B = ThreeVector(0, 0, 0); }
};
int main()
{
    Ramp f; LorentzPusher p(&f, 0.5);
    Lepton l(1.0, 1.0, ThreeVector(0, 0, 0), ThreeVector(0, 0, 0), 1, 1.0);
    p.PushParticle(&l);
    near(l.GetMomentum()[2], (1.5 * 1.5 - 1.0) / 2);
    return bad;
}
''', sources=PHYS + ['Physics/ParticlePushers/ParticlePusher.cpp', 'Physics/ParticlePushers/LorentzPusher.cpp'])

seed('c11-beta', 'C11', [('Physics/ParticlePushers/ModifiedLandauPusher.cpp', 'double eta = std::sqrt((ePerp + beta * partDir.Cross(Bfield)).Mag2()', 'double eta = std::sqrt((ePerp + partDir.Cross(Bfield)).Mag2()')],
 'a slow lepton in a magnetic field', 'eta ignores the speed of the lepton, so slow leptons feel too much drag',
 HEAD + '#include <fstream>\n#include <sstream>\n#include <random>\n#define private public\n#define protected public\n#include "ModifiedLandauPusher.hh"\n#include "UnitsSystem.hh"\n' + FIELD + VEC + '''
int main()
{
    Uniform f(ThreeVector(0, 0, 0), ThreeVector(0, 1, 0)); ModifiedLandauPusher p(&f, 0.1);
    ThreeVector m(0, 0, 0.1), r = p.PushMomentum(1.0, -1.0, m, f.e, f.b);
    double eta = 0.1, g = std::pow(1 + 4.8 * (1 + eta) * std::log(1 + 1.7 * eta) + 2.44 * eta * eta, -2. / 3.);
    near(r[2], -2.0 / 3.0 * UnitsSystem::alpha * eta * eta * g, 1e-6);
    return bad;
}
''', sources=PHYS + ['Physics/ParticlePushers/ParticlePusher.cpp', 'Physics/ParticlePushers/ModifiedLandauPusher.cpp'])

seed('c12-recoil', 'C12', [('Physics/Processes/StochasticEmission.cpp', '''        part->UpdateTrack(part->GetPosition(), part->GetMomentum() - gammaP);
''', '''        if (gammaE > m_eMin) part->UpdateTrack(part->GetPosition(), part->GetMomentum() - gammaP);
''')],
 'an emission below the photon energy threshold', 'the lepton does not recoil from photons that are not written out',
 HEAD + '#include "StochasticEmission.hh"\n' + FIELD + VEC + '''
int main()
{
    Uniform f(ThreeVector(0, 0, 0), ThreeVector(0, 1e-3, 0)); StochasticEmission s(&f, 1e9, 1.0, 1e30);
    ParticleList list("x");
    Lepton l(1.0, -1.0, ThreeVector(0, 0, 0), ThreeVector(0, 0, 1000));
    l.UpdateOpticalDepth(1e6);
    s.Interact(&l, &list);
    return !(l.GetMomentum()[2] < 1000) || list.GetNPart() != 0;
}
''', sources=PHYS + ['Physics/Processes/PhotonEmission.cpp', 'Physics/Processes/StochasticEmission.cpp'])

seed('c13-frac', 'C13', [('Physics/Processes/ContinuousEmission.cpp', 'double weight = part->GetWeight() * deltaOD / m_sampleFrac;', 'double weight = part->GetWeight() * deltaOD / (m_sampleFrac > 0.01 ? m_sampleFrac : 0.01);')],
 'a sampling fraction below one per cent', 'the expected photon yield is no longer independent of the sampling fraction',
 HEAD + '#include "ContinuousEmission.hh"\n' + FIELD + VEC + '''
int main()
{
    Uniform f(ThreeVector(0, 0, 0), ThreeVector(0, 1e-3, 0));
    double w[2];
    double fr[2] = {1.0, 0.002};
    for (int i = 0; i < 2; i++)
    {
        ContinuousEmission s(&f, 1.0, false, fr[i], 0.0);
        ParticleList list("x");
        Lepton l(1.0, -1.0, ThreeVector(0, 0, 0), ThreeVector(0, 0, 1000));
        for (int j = 0; j < 100000 && list.GetNPart() == 0; j++) s.Interact(&l, &list);
        if (list.GetNPart() == 0) return 2;
        w[i] = list.GetParticle(0)->GetWeight() * fr[i];
    }
    near(w[0], w[1]);
    return bad;
}
''', sources=PHYS + ['Physics/Processes/PhotonEmission.cpp', 'Physics/Processes/ContinuousEmission.cpp'])

seed('c14-weight', 'C14', [('Physics/Processes/NonLinearBreitWheeler.cpp', '''        Lepton* electron = new Lepton(1.0, -1.0, part->GetPosition(), eMomentum, 
            part->GetWeight(), part->GetTime(), m_track);''', '''        Lepton* electron = new Lepton(1.0, -1.0, part->GetPosition(), eMomentum, 
            positron->GetTime() > 0 ? part->GetWeight() : 1.0, part->GetTime(), m_track);''')],
 'a photon of weight other than one that converts at or before time zero', 'the electron of the pair does not inherit the weight of the photon',
 HEAD + '#include "NonLinearBreitWheeler.hh"\n#include "Photon.hh"\n' + FIELD + VEC + '''
int main()
{
    Uniform f(ThreeVector(0, 0, 0), ThreeVector(0, 1e-2, 0)); NonLinearBreitWheeler s(&f, 1e9);
    ParticleList list("x");
    Photon p(ThreeVector(0, 0, 0), ThreeVector(0, 0, 1000), 5.0, -2.0);
    p.UpdateOpticalDepth(1e6);
    s.Interact(&p, &list);
    if (list.GetNPart() != 2 || p.IsAlive()) return 2;
    near(list.GetParticle(0)->GetWeight(), 5.0); near(list.GetParticle(1)->GetWeight(), 5.0);
    return bad;
}
''', sources=PHYS + ['Physics/Processes/NonLinearBreitWheeler.cpp'])

seed('c15-upper', 'C15', [('Physics/Processes/PhotonEmission.cpp', 'm_phEn_chiAxis[lowIndex+1], m_phEn_chiLength, rand);', 'm_phEn_chiAxis[lowIndex], m_phEn_chiLength, rand);')],
 'an eta between two rows of the table', 'the upper row is read against the chi axis of the lower row',
 HEAD + '#include "StochasticEmission.hh"\n#include "MCTools.hh"\n#include <fstream>\n' + FIELD + VEC + '''
struct Open : public StochasticEmission
{
    Open(EMField* f) : StochasticEmission(f, 1.0) {}
    double chi(double eta) const { return CalculateChi(eta); }
};
int main()
{
    // every sample at eta lies between the smallest chi of the tables and eta/2, and reaches eta/2 close to the upper row
    std::ifstream file(std::string(getenv("QED_TABLES_PATH")) + "/ksi_sokolov.table");
    unsigned int n, m; double lo, hi; file >> n >> m >> lo >> hi;
    double d = (hi - lo) / (n - 1.0);
    Uniform f(ThreeVector(0, 0, 0), ThreeVector(0, 0, 0)); Open s(&f);
    double eta = std::pow(10.0, lo + (n / 2) * d + 0.999 * d), eta1 = std::pow(10.0, lo + (n / 2 + 1) * d - 1e-9 * d), eta2 = std::pow(10.0, lo + (n / 2 + 1) * d + 1e-9 * d);
    // the sample is continuous in eta across a row
    for (int i = 0; i < 200; i++)
    {
        MCTools::SetSeed(i); double a = s.chi(eta1);
        MCTools::SetSeed(i); double b = s.chi(eta2);
        near(a, b, 1e-4);
    }
    return bad;
}
''', sources=PHYS + ['Physics/Processes/PhotonEmission.cpp', 'Physics/Processes/StochasticEmission.cpp'])

seed('c16-depleted', 'C16', [('Particles/SourceGenerator.cpp', 'if (m_partCount == m_nPart)', 'if (m_partCount > m_nPart)')],
 'asking for one particle more than configured', 'the source hands out one particle from beyond its pre-drawn samples',
 HEAD + '#include "SourceGenerator.hh"\n#include <sys/wait.h>\n#include <unistd.h>\n' + '''
int main()
{
    int st;
    if (fork() == 0)
    {
        SourceGenerator g("photon", "linear", 4, 1.0, 2.0, 0, 0, 0, ThreeVector(0, 0, 0), ThreeVector(0, 0, 1));
        for (int i = 0; i < 4; i++) g.FreeSources(g.GenerateList());
        g.GenerateList();
        _exit(42);
    }
    wait(&st);
    return WIFEXITED(st) && WEXITSTATUS(st) == 42 ? 1 : !(WIFEXITED(st) && WEXITSTATUS(st) == 1);
}
''', sources=PHYS + ['Particles/SourceGenerator.cpp'])

seed('c17-capacity', 'C17', [('Particles/ParticleList.cpp', '	if (m_particleNumber < m_maxParticles)\n', '	if (m_particleNumber <= m_maxParticles)\n')],
 'adding a particle to a full list', 'the list writes one particle past its storage',
 HEAD + '#include "ParticleList.hh"\n#include "Photon.hh"\n' + '''
int main()
{
    ParticleList* l = new ParticleList("x", 3);
    for (int i = 0; i < 4; i++) l->AddParticle(new Photon(ThreeVector(0, 0, 0), ThreeVector(0, 0, 1)));
    _Exit(l->GetNPart() != 3);
}
''', sources=PHYS)

seed('c21-floor', 'C21', [('IO/Output/Histogram.cpp', '''				double yPos =  partList->GetParticle(i)->GetPosition()[1];
				if (yPos > m_binCentres[0] && yPos < m_binCentres[m_nBins-1])
				{
					unsigned int index = Numerics::ArrayIndex(m_binCentres, m_nBins, yPos);''', '''				double yPos =  partList->GetParticle(i)->GetPosition()[1];
				if (yPos > m_binCentres[0] && yPos < m_binCentres[m_nBins-1])
				{
					unsigned int index = (yPos - m_binCentres[0]) / (m_binCentres[1] - m_binCentres[0]);''')],
 'filling from a list in y with a particle in the upper half of a bin interval', 'the particle is counted in the bin below instead of the nearest',
 HEAD + '#include "Histogram.hh"\n#include "Photon.hh"\n' + VEC + '''
int main()
{
    Histogram h("h", "photon", "y", 0, 0.0, 4.0, 5);
    ParticleList l("x"); l.AddParticle(new Photon(ThreeVector(9, 1.75, 9), ThreeVector(0, 0, 1)));
    h.Fill(&l);
    near(h.GetBinValues()[2], 1.0);
    return bad;
}
''', sources=PHYS + ['IO/Output/Histogram.cpp'])

RD = '''#include <H5Cpp.h>
static std::vector<double> rd(const char* f, const char* n, std::vector<hsize_t>* dm = nullptr)
{
    H5::Exception::dontPrint();
    try
    {
        H5::H5File file(f, H5F_ACC_RDONLY); H5::DataSet s = file.openDataSet(n); H5::DataSpace sp = s.getSpace();
        std::vector<hsize_t> d(sp.getSimpleExtentNdims()); sp.getSimpleExtentDims(d.data());
        hsize_t t = 1; for (hsize_t x : d) t *= x;
        std::vector<double> v(t); s.read(v.data(), H5::PredType::NATIVE_DOUBLE);
        if (dm) *dm = d;
        return v;
    } catch (...) { std::_Exit(1); }
}
'''
H5L = HDF5 + ' -lhdf5_cpp -lhdf5'

seed('c22-single', 'C22', [('IO/Output/OutputManager.cpp', '''        if (totalElectrons > 0)
        {
            m_outputFile->AddArray2D(electronBuff, totalElectrons, 8,
                    "Particles/ParticleSource/Electrons");
        }

        if (totalPositrons > 0)
        {
            m_outputFile->AddArray2D(positronBuff, totalPositrons, 8,
                    "Particles/ParticleSource/Positrons");''', '''        if (totalElectrons > 0)
        {
            m_outputFile->AddArray2D(electronBuff, totalElectrons, 8,
                    "Particles/ParticleSource/Electrons");
        }

        if (totalPositrons > 1)
        {
            m_outputFile->AddArray2D(positronBuff, totalPositrons, 8,
                    "Particles/ParticleSource/Positrons");''')],
 'a run that ends with exactly one positron', 'the only positron of a run is not written',
 HEAD + '#include "OutputManager.hh"\n#include "Lepton.hh"\n' + RD + VEC + '''
int main()
{
    {
        OutputManager o("x.h5"); o.InitSource(1);
        ParticleList l("x"); l.AddParticle(new Lepton(1.0, 1.0, ThreeVector(1, 2, 3), ThreeVector(4, 5, 6)));
        o.StoreSource(&l, 0, true); o.StoreSource(&l, 0, false); o.OutputEvents(true, false);
    }
    std::vector<double> v = rd("x.h5", "Particles/ParticleSource/Positrons");
    near(v.at(6), 2);
    return bad || v.size() != 8;
}
''', sources=OUT, link=H5L)

seed('c23-dead', 'C23', [('IO/Output/OutputManager.cpp', '''        m_idTrack.push_back(eventID);
        m_positionTrack''', '''        if (partList->GetParticle(i)->IsAlive() == false) continue;
        m_idTrack.push_back(eventID);
        m_positionTrack''')],
 'an event in which a photon converted to a pair', 'the track of a particle that was destroyed during the event is not written',
 HEAD + '#include "OutputManager.hh"\n#include "Photon.hh"\n' + RD + VEC + '''
int main()
{
    {
        OutputManager o("x.h5");
        ParticleList l("x");
        for (int i = 0; i < 2; i++)
        {
            Photon* p = new Photon(ThreeVector(0, 0, 0), ThreeVector(0, 0, 1), 1, 0, true);
            p->UpdateTrack(ThreeVector(0, 0, i + 1), ThreeVector(0, 0, 1)); if (i == 0) p->Kill();
            l.AddParticle(p);
        }
        o.StoreTrack(&l, 0); o.OutputEvents(false, true);
    }
    std::vector<double> v = rd("x.h5", "Particles/ParticleTrack/Event1/Position");
    near(v.at(2), 2);
    return bad || v.size() != 3;
}
''', sources=OUT, link=H5L)

seed('c24-dims', 'C24', [('IO/Output/HDF5Output.cpp', 'hsize_t dimensions[3] = {xLength, yLength, zLength};', 'hsize_t dimensions[3] = {xLength, zLength, yLength};')],
 'an array whose last two dimensions differ', 'the data set is written with two dimensions exchanged',
 HEAD + '#include "HDF5Output.hh"\n' + RD + '''
int main()
{
    double d[12]; for (int i = 0; i < 12; i++) d[i] = i;
    { HDF5Output o("x.h5"); o.AddArray3D(d, 2, 3, 2, "a"); }
    std::vector<hsize_t> dm; rd("x.h5", "a", &dm);
    return dm != std::vector<hsize_t>({2, 3, 2});
}
''', sources=['IO/Output/HDF5Output.cpp'], link=H5L)

seed('c25-stride', 'C25', [('IO/Output/OutputManager.cpp', '(i*yAxis.size()*zAxis.size()) + (j*zAxis.size()) + k;', '(i*yAxis.size()*zAxis.size()) + (k*yAxis.size()) + j;')],
 'a grid of more than one cell in y and z', 'the snapshot is stored with y and z exchanged',
 HEAD + '#include "OutputManager.hh"\n' + RD + VEC + '''
struct Lin : public EMField
{
    void GetField(double t, const ThreeVector& p, ThreeVector& E, ThreeVector& B) const { E = p; B = 2.0 * p; }
};
int main()
{
    Lin f;
    { OutputManager o("x.h5"); o.OutEMField(&f, {0.0}, {1, 2}, {3, 4}, {5, 6, 7}); }
    std::vector<double> v = rd("x.h5", "Fields/0/E2");
    for (int i = 0; i < 12; i++) near(v.at(i), 5 + i % 3);
    return bad;
}
''', sources=OUT, link=H5L)
