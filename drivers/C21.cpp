// C21: histograms.
//@ sources: IO/Output/Histogram.cpp Particles/ParticleList.cpp Particles/Particle.cpp Tools/Numerics.cpp
//@ contract: Numerics::ArrayIndex -- an index inside the table; no sample is closer (C02)
//@ contract: MCTools::RandDouble -- a value in [low, high) per draw (C04)
//@ assume: counts stay below the range of the machine types
#include "qv.h"
#include "wave.h"
#include "draws.h"
#include "Histogram.hh"
#include "ParticleList.hh"
#include "Particle.hh"
#include "Numerics.hh"

static long other = 0;      // any other bin
#ifdef QV_SYMBOLIC
int Numerics::ArrayIndex(double *x, unsigned int n, double q)
{
    long r = qv_lamindex("nearest", x, nullptr, n, q);
    if (other < 0) return (int)r;
    double d = x[r] - q, e = x[other] - q;
    qv_assume(d * d <= e * e);
    return (int)r;
}
#endif
// a particle with arbitrary energy, position and momentum
struct Any : Particle
{
    double energy;
    Any(long k) : Particle(qv_real("mass", k), qv_real("charge", k), ThreeVector(qv_real("x", 1, k), qv_real("x", 2, k), qv_real("x", 3, k)), ThreeVector(qv_real("p", 1, k), qv_real("p", 2, k), qv_real("p", 3, k)), qv_pos("weight", k), qv_real("time", k), false),
        energy(qv_real("energy", k)) { m_isAlive = qv_bool("alive", k); }
    double GetGamma() const { return qv_real("gamma"); }
    double GetBeta() const { return qv_real("beta"); }
    double GetEnergy() const { return energy; }
    std::string GetType() const { return "any"; }
    std::string GetName() const { return "any"; }
    double quantity(long kind) const { return kind == 0 ? energy : kind < 4 ? m_position[kind - 1] : m_momentum[kind - 4]; }
};
static const char *names[][2] = {{"Energy", "energy"}, {"X", "x"}, {"Y", "y"}, {"Z", "z"}, {"PX", "px"}, {"PY", "py"}, {"PZ", "pz"}};
struct Range
{
    double lo, width;
    long n;
    Range() : lo(qv_real("minimum")), width(qv_range("width", QV_SYM(1e-300, 0.1), QV_SYM(1e300, 10))), n(qv_int("bins", 2, QV_SYM(4000000000L, 20))) {}
    double hi() const { return lo + width; }
    double centre(long i) const { return lo + width * i / (n - 1.0); }
};

QV_CASE(fresh)
{
    Range r;
    double t = qv_real("time");
    Histogram h("a name", "a particle", "energy", t, r.lo, r.hi(), r.n), g;
    qv_check(g.GetNBins() == 0, "a histogram without a range has no bins");
    g.Initialise("other", "kind", "px", -t, r.lo, r.hi(), r.n);
    long j = qv_index("j", r.n);
    qv_check((long)h.GetNBins() == r.n && (long)g.GetNBins() == r.n, "number of bins");
    qv_eq(h.GetBinCentres()[j], r.centre(j), "evenly spaced bin centres");
    qv_eq(g.GetBinCentres()[j], r.centre(j), "evenly spaced bin centres");
    qv_eq(h.GetBinValues()[j], 0, "starts empty");
    qv_eq(g.GetBinValues()[j], 0, "starts empty");
    qv_check(h.GetName() == "a name" && h.GetParticle() == "a particle" && g.GetName() == "other" && g.GetParticle() == "kind", "name and particle kind");
    qv_eq(h.GetTime(), t, "time");
    qv_eq(g.GetTime(), -t, "time");
}
static double sum(const Histogram &h)
{
    double s = 0;
    for (unsigned i = 0; i < h.GetNBins(); i++) s += h.GetBinValues()[i];
    return s;
}
static void add(Histogram &h, const Range &r, Any &p, double q, long j, long k)
{
    double before = h.GetBinValues()[j], all = sum(h);
    h.AppParticle(&p);
    double now = h.GetBinValues()[j];
    bool inside = r.lo < q && q < r.hi();
    qv_eq(sum(h) - all, inside ? 1 : 0, "a particle in range adds one count, any other none");
    double d = now - before;
    qv_eq(d * (d - 1), 0, "a bin changes by one at most");
    double far = r.centre(j) - q, near = r.centre(k) - q;
    qv_check((d == 0) | (far * far <= near * near), "the count goes to a nearest bin");
    qv_check((d == 0) | inside, "a particle out of range changes no bin");
}
static void record(long kind)
{
    Range r;
    Histogram h("h", "p", names[kind][qv_choose("spelling", 2)], 0, r.lo, r.hi(), r.n);
    Any first(0), second(1);
    long j = qv_index("j", r.n), k = qv_index("k", r.n);
    other = k;
    add(h, r, first, first.quantity(kind), j, k);
    add(h, r, second, second.quantity(kind), j, k);
}
QV_CASE(energy) { record(0); }
QV_CASE(x) { record(1); }
QV_CASE(y) { record(2); }
QV_CASE(z) { record(3); }
QV_CASE(px) { record(4); }
QV_CASE(py) { record(5); }
QV_CASE(pz) { record(6); }
QV_CASE(filled)
{
    long kind = qv_choose("kind", 7), spelling = qv_choose("spelling", 2);
    Range r;
    Histogram h("h", "p", names[kind][spelling], 0, r.lo, r.hi(), r.n), one("one", "p", names[kind][spelling], 0, r.lo, r.hi(), r.n);
    long n = qv_int("particles", 0, QV_SYM(4000000000L, 50));
    long j = qv_index("j", r.n);
    other = -1;
    ParticleList list("list", n);
    for (long i = 0; i < n; i++) list.AddParticle(new Any(i));
    for (long i = 0; i < n; i++) one.AppParticle(list.GetParticle(i));
    h.Fill(&list);
    double total = 0;
    for (long i = 0; i < r.n; i++) total += one.GetBinValues()[i];
    if (total == 0) qv_eq(h.GetBinValues()[j], one.GetBinValues()[j], "without entries in range the bins stay as they are");
    else qv_eq(h.GetBinValues()[j] * total, one.GetBinValues()[j], "every particle is recorded and the bins are normalised");
    qv_check((long)list.GetNPart() == n, "the list is left alone");
}
QV_CASE(merge)
{
    Range r;
    long j = qv_index("j", r.n);
    other = -1;
    long a = qv_int("here", 0, QV_SYM(4000000000L, 50)), b = qv_int("there", 0, QV_SYM(4000000000L, 50));
    Histogram h("h", "p", "energy", 0, r.lo, r.hi(), r.n), *g = new Histogram("g", "p", "energy", 0, r.lo, r.hi(), r.n);
    for (long i = 0; i < a; i++) { Any p(i); h.AppParticle(&p); }
    for (long i = 0; i < b; i++) { Any p(-1 - i); g->AppParticle(&p); }
    double x = h.GetBinValues()[j], y = g->GetBinValues()[j];
    h.Merge(g);
    qv_eq(h.GetBinValues()[j], x + y, "merging adds bin by bin");
    qv_eq(h.GetBinCentres()[j], r.centre(j), "merging keeps the bins");
    qv_check((long)h.GetNBins() == r.n && h.GetName() == "h", "merging keeps name and bins");
}
QV_CASE(incompatible)
{
    Range r;
    long kind = qv_choose("difference", 3);
    long n = kind == 0 ? qv_int("other bins", 2, QV_SYM(4000000000L, 20)) : r.n;
    double lo = kind == 1 ? qv_real("other minimum") : r.lo, hi = kind == 2 ? qv_real("other maximum") : r.hi();
    if (kind == 0) qv_assume(n != r.n);
    if (kind == 1) qv_assume(lo != r.lo);
    if (kind == 2) qv_assume(hi != r.hi());
    qv_assume(hi > lo);
    long j = qv_index("j", r.n);
    other = -1;
    Histogram h("h", "p", "energy", 0, r.lo, r.hi(), r.n), *g = new Histogram("g", "p", "energy", 0, lo, hi, n);
    Any p(0), q(1);
    h.AppParticle(&p);
    g->AppParticle(&q);
    double x = h.GetBinValues()[j];
    h.Merge(g);
    qv_eq(h.GetBinValues()[j], x, "an incompatible histogram is not merged");
    qv_eq(h.GetBinCentres()[j], r.centre(j), "the bins stay");
    qv_check((long)h.GetNBins() == r.n, "the number of bins stays");
}
QV_CASE(unknown)
{
    Range r;
    std::string t = qv_str("quantity");
    for (int i = 0; i < 7; i++) qv_assume(t != names[i][0] && t != names[i][1]);
    Histogram h("h", "p", t, 0, r.lo, r.hi(), r.n);
    Any p(0);
    other = -1;
    qv_may_exit(true);
    if (qv_bool("a list"))
    {
        ParticleList l("l", 4);
        l.AddParticle(new Any(1));
        h.Fill(&l);
    }
    else h.AppParticle(&p);
    qv_check(false, "an unknown quantity is refused");
}
QV_CASE(uninitialised)
{
    Histogram h;
    Any p(0);
    qv_may_exit(true);
    if (qv_bool("a list"))
    {
        ParticleList l("l", 4);
        h.Fill(&l);
    }
    else h.AppParticle(&p);
    qv_check(false, "a histogram without bins is refused");
}
