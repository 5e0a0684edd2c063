// C17: destroying an object through its family's base class destroys the whole object.
//@ sources: Particles/ParticleList.cpp Particles/Particle.cpp Particles/Photon.cpp Particles/Lepton.cpp Tools/Numerics.cpp Physics/ParticlePushers/ParticlePusher.cpp Physics/ParticlePushers/LorentzPusher.cpp Physics/ParticlePushers/LandauPusher.cpp Physics/Fields/EMField/StaticEMField.cpp
//@ contract: MCTools::RandDouble -- a value in [low, high) per draw (C04)
#include "qv.h"
#include "wave.h"
#include "draws.h"
#include "ParticleList.hh"
#include "Photon.hh"
#include "Lepton.hh"
#include "StaticEMField.hh"
#include "LorentzPusher.hh"
#include "LandauPusher.hh"
#include "Process.hh"

static void gone(long id) { qv_gadd("destroyed", id, 0, 0, 1); }
static long count(long id) { return (long)qv_gget("destroyed", id, 0, 0); }

struct MyPhoton : Photon
{
    long id;
    MyPhoton(long k, bool track) : Photon(ThreeVector(1, 2, 3), ThreeVector(4, 5, 6), 1, 0, track), id(k) {}
    ~MyPhoton() { gone(id); }
};
struct MyLepton : Lepton
{
    long id;
    MyLepton(long k, bool track) : Lepton(1, -1, ThreeVector(1, 2, 3), ThreeVector(4, 5, 6), 1, 0, track), id(k) {}
    ~MyLepton() { gone(id); }
};
struct MyField : EMField
{
    void GetField(double, const ThreeVector &, ThreeVector &, ThreeVector &) const {}
    ~MyField() { gone(10); }
};
struct MyStatic : StaticEMField
{
    MyStatic() : StaticEMField(ThreeVector(0, 0, 1), ThreeVector(0, 1, 0)) {}
    ~MyStatic() { gone(11); }
};
struct MyPusher : LandauPusher
{
    MyPusher(EMField *f) : LandauPusher(f, 1) {}
    ~MyPusher() { gone(12); }
};
struct MyLorentz : LorentzPusher
{
    MyLorentz(EMField *f) : LorentzPusher(f, 1) {}
    ~MyLorentz() { gone(13); }
};
struct MyProcess : Process
{
    MyProcess(EMField *f) : Process(f, 1, false) {}
    void Interact(Particle *, ParticleList *) const {}
    ~MyProcess() { gone(14); }
};
QV_CASE(families)
{
    Particle *p[4];
    bool track = qv_bool("tracked");
    p[0] = new MyPhoton(0, track);
    p[1] = new MyLepton(1, track);
    p[2] = new MyPhoton(2, !track);
    p[3] = new MyLepton(3, !track);
    delete p[0];
    qv_check(count(0) == 1 && count(1) == 0, "deleting a photon as a particle destroys it once");
    delete p[1];
    qv_check(count(0) == 1 && count(1) == 1 && count(2) == 0, "deleting a lepton as a particle destroys it once");
    {
        ParticleList l("l", 3);
        l.AddParticle(p[2]);
        l.AddParticle(p[3]);
    }
    qv_check(count(2) == 1 && count(3) == 1, "a list destroys the whole of its particles");
    EMField *f = new MyField, *g = new MyStatic;
    ParticlePusher *a = new MyPusher(f), *b = new MyLorentz(g);
    Process *c = new MyProcess(f);
    qv_check(count(12) == 0 && count(13) == 0 && count(14) == 0, "no destruction before its time");
    delete a;
    delete b;
    delete c;
    qv_check(count(12) == 1 && count(13) == 1, "deleting a pusher through the base class");
    qv_check(count(14) == 1, "deleting a process through the base class");
    qv_check(count(10) == 0 && count(11) == 0, "pushers and processes leave their field alone");
    delete f;
    delete g;
    qv_check(count(10) == 1 && count(11) == 1, "deleting a field through the base class");
}
