// C17: particle lists.
//@ sources: Particles/ParticleList.cpp Particles/Particle.cpp Particles/Photon.cpp Particles/Lepton.cpp Tools/Numerics.cpp
//@ contract: MCTools::RandDouble -- a value in [low, high) per draw (C04)
//@ flags: -fno-access-control
#include "qv.h"
#include "wave.h"
#include "draws.h"
#include "ParticleList.hh"
#include "Photon.hh"
#include "Lepton.hh"
#include <new>

// a particle that knows its number and reports its destruction
struct Marked : Particle
{
    long id;
    Marked(long k) : Particle(1, 0, 1, 0, false), id(k) {}
    double GetGamma() const { return 1; }
    double GetBeta() const { return 0; }
    double GetEnergy() const { return 1; }
    std::string GetType() const { return "marked"; }
    std::string GetName() const { return "marked"; }
    ~Marked() { qv_gadd("destroyed", id, 0, 0, 1); }
};
static long idof(ParticleList &l, long i) { return static_cast<Marked *>(l.GetParticle(i))->id; }

QV_CASE(empty)
{
    ParticleList l("some name", qv_int("capacity", 0, QV_SYM(4000000000L, 50)));
    qv_check(l.GetNPart() == 0, "a new list is empty");
    qv_check(l.GetName() == "some name", "the list keeps its name");
    ParticleList d("d");
    qv_check(d.GetNPart() == 0, "a default list is empty");
    for (long i = 0; i < 3; i++) d.AddParticle(new Marked(i));
    qv_check(d.GetNPart() == 3 && idof(d, 0) == 0 && idof(d, 1) == 1 && idof(d, 2) == 2, "a default list takes particles");
}
// any history: n particles added one after the other
QV_CASE(history)
{
    long cap = qv_int("capacity", 0, QV_SYM(4000000000L, 50));
    long n = qv_int("n", 0, QV_SYM(4000000000L, 50));
    qv_assume(n <= cap);
    ParticleList l("l", cap);
    for (long i = 0; i < n; i++)
    {
        qv_check((long)l.GetNPart() == i, "each addition raises the count by one");
        l.AddParticle(new Marked(i));
    }
    qv_check((long)l.GetNPart() == n, "all particles are counted");
    long j = qv_index("j", n);
    qv_check(idof(l, j) == j, "particles keep their order");
}
QV_CASE(beyond)
{
    long cap = qv_int("capacity", 0, QV_SYM(4000000000L, 50));
    long more = qv_int("more", 0, QV_SYM(100000000L, 50));
    ParticleList l("l", cap);
    for (long i = 0; i < cap; i++) l.AddParticle(new Marked(i));
    qv_check((long)l.GetNPart() == cap, "the whole capacity is usable");
    for (long i = 0; i < more; i++)
    {
        Marked *m = new Marked(-1 - i);
        l.AddParticle(m);
        qv_check((long)l.GetNPart() == cap, "a full list does not grow");
    }
    qv_check((long)l.GetNPart() == cap, "a full list keeps its count");
    long j = qv_index("j", cap);
    qv_check(idof(l, j) == j, "a full list keeps its particles");
}
QV_CASE(destroyed)
{
    long cap = qv_int("capacity", 0, QV_SYM(4000000000L, 50));
    long n = qv_int("n", 0, QV_SYM(4000000000L, 50));
    qv_assume(n <= cap);
    long j = qv_index("j", n);
    Marked *kept = new Marked(-5);
    {
        ParticleList l("l", cap);
        for (long i = 0; i < n; i++) l.AddParticle(new Marked(i));
        qv_check(qv_gget("destroyed", j, 0, 0) == 0, "particles live as long as the list");
    }
    qv_check(qv_gget("destroyed", j, 0, 0) == 1, "the list destroys each particle exactly once");
    qv_check(qv_gget("destroyed", -5, 0, 0) == 0, "and no other particle");
    delete kept;
    qv_check(qv_gget("destroyed", -5, 0, 0) == 1, "deleting a particle through its own class");
}
