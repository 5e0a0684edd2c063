// C22: event tables.
//@ sources: IO/Output/OutputManager.cpp IO/Output/Histogram.cpp Tools/UnitsSystem.cpp Particles/ParticleList.cpp Particles/Particle.cpp Tools/Numerics.cpp
//@ contract: HDF5Output::AddGroup, HDF5Output::AddArray1D/2D/3D -- groups and data sets are stored as handed over (C24)
//@ contract: MCTools::RandDouble -- a value in [low, high) per draw (C04)
//@ assume: event numbers and particle counts stay below the range of the index type
#include "qv.h"
#include "wave.h"
#include "draws.h"
#include "output.h"
#include "Photon.hh"
// particle i of event e: any kind, energy, position and momentum
static ThreeVector pos(long e, long i) { return ThreeVector(qv_real("x", e, i, 0), qv_real("x", e, i, 1), qv_real("x", e, i, 2)); }
static ThreeVector mom(long e, long i) { return ThreeVector(qv_real("p", e, i, 0), qv_real("p", e, i, 1), qv_real("p", e, i, 2)); }
static long kind(long e, long i) { return qv_int("kind", 0, 3, e, i); }
struct Seen : Particle
{
    long e, i;
    Seen(long e, long i) : Particle(qv_real("mass", e, i), qv_real("charge", e, i), pos(e, i), mom(e, i), qv_real("weight", e, i), qv_real("time", e, i)), e(e), i(i) { m_isAlive = qv_bool("alive", e, i); }
    double GetGamma() const { return qv_real("gamma", e, i); }
    double GetBeta() const { return qv_real("beta", e, i); }
    double GetEnergy() const { return qv_real("energy", e, i); }
    std::string GetType() const { return "seen"; }
    std::string GetName() const
    {
        long k = kind(e, i);
        if (k == 0) return "Electron";
        if (k == 1) return "Positron";
        if (k == 2) return "Photon";
        return "Other";
    }
};
static ParticleList *event(long e)
{
    long n = qv_int("particles", 1, QV_SYM(1000000, 5), e);
    ParticleList *list = new ParticleList("list", n);
    for (long i = 0; i < n; i++) list->AddParticle(new Seen(e, i));
    return list;
}
static long count(long e, long n, long k)
{
    long c = 0;
    for (long i = 0; i < n; i++) c += kind(e, i) == k;
    return c;
}
static const char *table[] = {"Particles/ParticleSource/Electrons", "Particles/ParticleSource/Positrons", "Particles/ParticleSource/Photons"};
static void row(const char *d, long r, long e, long i, const char *what)
{
    ThreeVector x = pos(e, i), p = mom(e, i);
    qv_eq(entry(d, 8 * r), e, what);
    qv_eq(entry(d, 8 * r + 1), qv_real("energy", e, i), what);
    for (int c = 0; c < 3; c++)
    {
        qv_eq(entry(d, 8 * r + 2 + c), p[c], what);
        qv_eq(entry(d, 8 * r + 5 + c), x[c], what);
    }
}
// any number of events (of two particles each: only the first one is in the table)
QV_CASE(primary)
{
    OutputManager out("file");
    long m = qv_int("events", 1, QV_SYM(1000000, 4));
    out.InitSource(m);
    for (long e = 0; e < m; e++)
    {
        ParticleList list("list", 2), none("none", 0);
        list.AddParticle(new Seen(e, 0));
        list.AddParticle(new Seen(e, 1));
        out.StoreSource(&list, e, true);
        out.StoreSource(&none, e, false);
    }
    out.OutputEvents(true, false);
    dataset("Particles/ParticleSource/Primary", 2, m, 8, 0, "one primary row per event");
    qv_check(group("Particles/ParticleSource"), "the group above exists");
    long e = qv_index("event", m);
    row("Particles/ParticleSource/Primary", e, e, 0, "primary row");
    for (int k = 0; k < 3; k++) qv_check(absent(table[k]), "no table without rows");
}
// one event: the row of any particle of the kind
static void store()
{
    OutputManager *out = new OutputManager("file");
    out->InitSource(1);
    ParticleList *list = event(0);
    out->StoreSource(list, 0, true);
    out->StoreSource(list, 0, false);
    out->OutputEvents(true, false);
}
static void one(int k)
{
    long n = qv_int("particles", 1, QV_SYM(1000000, 5), 0), total = count(0, n, k), i = qv_index("particle", n), r = count(0, i, k);
    qv_assume(kind(0, i) == k);
    qv_check(r + 1 <= total, "lemma: the particle is among those counted");
    store();
    dataset(table[k], 2, total, 8, 0, "one row per particle of the kind");
    row(table[k], r, 0, i, "row of the particle");
}
QV_CASE(electrons) { one(0); }
QV_CASE(positrons) { one(1); }
QV_CASE(photons) { one(2); }
// two events: their rows follow each other
static void two(int k)
{
    long n = qv_int("particles", 1, QV_SYM(1000000, 5), 0), m = qv_int("particles", 1, QV_SYM(1000000, 5), 1);
    long first = count(0, n, k), second = count(1, m, k), i = qv_index("particle", m), r = count(1, i, k);
    qv_assume(kind(1, i) == k);
    qv_check(r + 1 <= second, "lemma: the particle is among those counted");
    qv_check(r + 1 <= first + second, "lemma: the particle is among those counted");
    OutputManager *out = new OutputManager("file");
    out->InitSource(2);
    ParticleList *a = event(0), *b = event(1);
    out->StoreSource(a, 0, true);
    out->StoreSource(a, 0, false);
    out->StoreSource(b, 1, true);
    out->StoreSource(b, 1, false);
    out->OutputEvents(true, false);
    dataset(table[k], 2, first + second, 8, 0, "one row per particle of the kind");
    row(table[k], first + r, 1, i, "row of the particle");
}
QV_CASE(two_electrons) { two(0); }
static void none(int k)
{
    long n = qv_int("particles", 1, QV_SYM(1000000, 5), 0);
    qv_assume(count(0, n, k) == 0);
    store();
    qv_check(absent(table[k]), "no table without rows");
}
QV_CASE(no_electrons) { none(0); }
QV_CASE(no_positrons) { none(1); }
QV_CASE(no_photons) { none(2); }
