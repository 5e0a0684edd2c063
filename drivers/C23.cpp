// C23: particle tracks.
//@ sources: IO/Output/OutputManager.cpp IO/Output/Histogram.cpp Tools/UnitsSystem.cpp Particles/ParticleList.cpp Particles/Particle.cpp Tools/Numerics.cpp
//@ contract: HDF5Output::AddGroup, HDF5Output::AddArray1D/2D/3D -- groups and data sets are stored as handed over (C24)
//@ contract: MCTools::RandDouble -- a value in [low, high) per draw (C04)
#include "qv.h"
#include "wave.h"
#include "draws.h"
#include "output.h"
#include "tracks.h"

QV_CASE(single)
{
    UnitsSystem units("SI");
    bool scaled = qv_bool("units");
    OutputManager *out = scaled ? new OutputManager("file", &units) : new OutputManager("file");
    Tracked a(0, true), b(1, true);
    out->SingleParticle(&a, "first");
    out->SingleParticle(&b, "second");
    double l = scaled ? units.RefLength() : 1, p = scaled ? units.RefMomentum() : 1, t = scaled ? units.RefTime() : 1;
    qv_check(group("Particles") && group("Particles/Single"), "the groups above exist");
    history("Particles/Single/first", 0, l, p, t);
    history("Particles/Single/second", 1, l, p, t);
}
QV_CASE(tracks)
{
    UnitsSystem units("SI");
    bool scaled = qv_bool("units");
    OutputManager *out = scaled ? new OutputManager("file", &units) : new OutputManager("file");
    long n = qv_int("particles", 0, QV_SYM(1000000, 5));
    ParticleList list("own name", n);
    for (long i = 0; i < n; i++) list.AddParticle(new Tracked(i, true));
    out->ListTracks(&list, "a list");
    double l = scaled ? units.RefLength() : 1, p = scaled ? units.RefMomentum() : 1, t = scaled ? units.RefTime() : 1;
    qv_check(group("Particles/ParticleList") && group("Particles/ParticleList/a list"), "the groups above exist");
    long k = qv_index("particle", n);
    history("Particles/ParticleList/a list/" + std::to_string(k), k, l, p, t);
}
// tracks collected over two events, written in two portions
QV_CASE(events)
{
    UnitsSystem units("SI");
    bool scaled = qv_bool("units");
    OutputManager *out = scaled ? new OutputManager("file", &units) : new OutputManager("file");
    long n = qv_int("first", 0, QV_SYM(1000000, 5)), m = qv_int("second", 0, QV_SYM(1000000, 5));
    ParticleList one("one", n), two("two", m);
    for (long i = 0; i < n; i++) one.AddParticle(new Tracked(i, true));
    for (long i = 0; i < m; i++) two.AddParticle(new Tracked(n + i, true));
    out->StoreTrack(&one, 3);
    if (qv_bool("in portions")) out->OutputEvents(false, true);
    out->StoreTrack(&two, 4);
    out->OutputEvents(false, true);
    double l = scaled ? units.RefLength() : 1, p = scaled ? units.RefMomentum() : 1, t = scaled ? units.RefTime() : 1;
    qv_check(group("Particles/ParticleTrack"), "the group above exists");
    long k = qv_index("particle", n + m);
    history("Particles/ParticleTrack/Event" + std::to_string(k), k, l, p, t);
}
struct Seen : Particle
{
    double e;
    Seen(long k) : Particle(1, 0, Tracked::pos(k, 0), Tracked::mom(k, 0)), e(qv_real("energy", k)) {}
    double GetGamma() const { return 1; }
    double GetBeta() const { return 0; }
    double GetEnergy() const { return e; }
    std::string GetType() const { return "seen"; }
    std::string GetName() const { return "seen"; }
};
QV_CASE(properties)
{
    OutputManager out("file");
    long n = qv_int("particles", 0, QV_SYM(1000000, 5));
    ParticleList list("a list", n);
    for (long i = 0; i < n; i++) list.AddParticle(new Seen(i));
    out.ListProperties(&list, "a set");
    std::string d = "Particles/ParticleList/a list/a set";
    qv_check(group("Particles/ParticleList") && group("Particles/ParticleList/a list"), "the groups above exist");
    dataset(d, 2, n, 5, 0, "one row per particle");
    long k = qv_index("particle", n);
    ThreeVector x = Tracked::pos(k, 0);
    qv_eq(entry(d, 5 * k), k, "index");
    qv_eq(entry(d, 5 * k + 1), qv_real("energy", k), "energy");
    for (int c = 0; c < 3; c++) qv_eq(entry(d, 5 * k + 2 + c), x[c], "position");
}
QV_CASE(untracked)
{
    OutputManager out("file");
    Tracked p(0, false);
    qv_may_exit(true);
    if (qv_bool("single")) out.SingleParticle(&p, "name");
    else
    {
        ParticleList list("own name", 3);
        list.AddParticle(new Tracked(1, true));
        list.AddParticle(new Tracked(2, false));
        out.ListTracks(&list, "a list");
    }
    qv_check(false, "the track of an untracked particle is refused");
}
