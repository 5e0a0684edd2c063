// C04: random sampling. The reference is the standard library's own engine and distributions with the same seed.
//@ sources: Tools/MCTools.cpp
//@ assume: draws of the standard distributions are modelled as functions of the engine's seed and the number of earlier draws (uniform draws lie in [low, high))
#include "qv.h"
#include <vector>
#include "MCTools.hh"

QV_CASE(uniform)
{
    int s = qv_int("seed", 0, 1 << 30);
    MCTools::SetSeed(s);
    std::mt19937 ref(s);
    for (int i = 0; i < 3; i++)
    {
        double lo = qv_real("lo", i), hi = lo + qv_pos("w", i);
        std::uniform_real_distribution<double> d(lo, hi);
        qv_eq(MCTools::RandDouble(lo, hi), d(ref), "uniform draws with the requested bounds from the seeded generator");
    }
}
QV_CASE(normal)
{
    int s = qv_int("seed", 0, 1 << 30);
    MCTools::SetSeed(s);
    std::mt19937 ref(s);
    for (int i = 0; i < 3; i++)
    {
        double m = qv_real("m", i), w = qv_pos("w", i);
        std::normal_distribution<double> d(m, w);
        qv_eq(MCTools::RandNorm(m, w), d(ref), "normal draws with the requested mean and width from the seeded generator");
    }
}
QV_CASE(poisson)
{
    int s = qv_int("seed", 0, 1 << 30);
    MCTools::SetSeed(s);
    std::mt19937 ref(s);
    for (int i = 0; i < 3; i++)
    {
        double m = qv_range("m", 0.01, 50, i);
        std::poisson_distribution<unsigned int> d(m);
        qv_check(MCTools::RandPoisson(m) == d(ref), "Poisson draws with the requested mean from the seeded generator");
    }
}
QV_CASE(mixed)
{
    // one shared generator behind all samplers
    int s = qv_int("seed", 0, 1 << 30);
    MCTools::SetSeed(s);
    std::mt19937 ref(s);
    std::uniform_real_distribution<double> u(0, 1);
    qv_eq(MCTools::RandDouble(0, 1), u(ref), "first draw");
    { std::normal_distribution<double> d(1, 2); qv_eq(MCTools::RandNorm(1, 2), d(ref), "second draw continues the sequence"); }
    { std::poisson_distribution<unsigned int> d(3.5); qv_check(MCTools::RandPoisson(3.5) == d(ref), "third draw continues the sequence"); }
    std::vector<double> v = MCTools::SampleUniform(-1, 4, 2);
    std::uniform_real_distribution<double> w(-1, 4);
    qv_check(v.size() == 2, "requested number of samples");
    for (int i = 0; i < 2; i++) qv_eq(v[i], w(ref), "vector samples continue the sequence");
    v = MCTools::SampleNorm(2, 3, 1);
    { std::normal_distribution<double> d(2, 3); qv_eq(v[0], d(ref), "normal vector samples continue the sequence"); }
    qv_eq(MCTools::RandDouble(0, 1), u(ref), "last draw");
    // same seed, same draws
    MCTools::SetSeed(s);
    std::mt19937 again(s);
    qv_eq(MCTools::RandDouble(0, 1), u(again), "setting the seed restarts the sequence");
}
QV_CASE(sample_uniform)
{
    int s = qv_int("seed", 0, 1 << 30);
    unsigned int n = qv_int("n", 0, QV_SYM(1 << 30, 40));
    double lo = qv_real("lo"), hi = lo + qv_pos("w");
    MCTools::SetSeed(s);
    std::vector<double> v = MCTools::SampleUniform(lo, hi, n);
    qv_check(v.size() == n, "requested number of samples");
    std::mt19937 ref(s);
    std::uniform_real_distribution<double> d(lo, hi);
    long k = qv_index("k", n);
    double want = 0;
    for (long i = 0; i <= k; i++) want = d(ref);
    qv_eq(v[k], want, "k-th sample is the k-th uniform draw");
    for (long i = k + 1; i < n; i++) want = d(ref);
    qv_eq(MCTools::RandDouble(lo, hi), d(ref), "exactly the requested number of draws is used");
}
QV_CASE(sample_normal)
{
    int s = qv_int("seed", 0, 1 << 30);
    unsigned int n = qv_int("n", 0, QV_SYM(1 << 30, 40));
    double m = qv_real("m"), w = qv_pos("w");
    MCTools::SetSeed(s);
    std::vector<double> v = MCTools::SampleNorm(m, w, n);
    qv_check(v.size() == n, "requested number of samples");
    std::mt19937 ref(s);
    std::normal_distribution<double> d(m, w);
    long k = qv_index("k", n);
    double want = 0;
    for (long i = 0; i <= k; i++) want = d(ref);
    qv_eq(v[k], want, "k-th sample is the k-th normal draw");
}
QV_CASE(discrete)
{
    int s = qv_int("seed", 0, 1 << 30);
    long n = qv_int("n", 1, QV_SYM(1 << 30, 12));
    std::vector<double> w(n);
    for (long i = 0; i < n; i++) w[i] = qv_range("w", 0, 5, i);
    double total = 0;
    for (long i = 0; i < n; i++) total += w[i];
    qv_assume(total > 0);
    MCTools::SetSeed(s);
    std::mt19937 ref(s);
    std::uniform_real_distribution<double> d(0, total);
    double u = d(ref);
    unsigned int r = MCTools::RandDiscrete(w);
    qv_check(r < n, "the index is one of the weights'");
    double below = 0;
    for (long i = 0; i < r; i++) below += w[i];
    qv_check(below <= u, "the draw is not below the selected interval");
    qv_check(u < below + w[r], "the draw is below the end of the selected interval");
}
