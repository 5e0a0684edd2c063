// C12: stochastic photon emission.
//@ sources: Physics/Processes/PhotonEmission.cpp Physics/Processes/StochasticEmission.cpp Particles/Particle.cpp Particles/Lepton.cpp Particles/Photon.cpp Particles/ParticleList.cpp Tools/Numerics.cpp
//@ contract: MCTools::RandDouble -- a value in [low, high) per draw (C04)
//@ contract: Numerics::Interpolate1D, Numerics::ClosestPoints -- functions of table and query; the bracketing rows (C02)
//@ contract: PhotonEmission::CalculateEta, PhotonEmission::CalculateChi -- functions of the particle and of eta and one draw (cases eta, photon_chi)
//@ contract: EMField::GetField -- any function of time and position (the fields' own contracts are C06-C08)
#include "qv.h"
#include "wave.h"
#include "draws.h"
#include "field.h"
#include "tables.h"
#include "StochasticEmission.hh"
#include "radiation.h"
#include "emitter.h"
#include "Photon.hh"
#include "UnitsSystem.hh"

struct Step
{
    double dt, frac, emin;
    bool track;
    long born = 0;
    PhotonTables T;
    AnyField f;
    StochasticEmission e;
    ParticleList list;
    Step() : dt(qv_range("dt", QV_SYM(1e-300, 1e-2), QV_SYM(1e300, 1e3))), frac(qv_range("frac", QV_SYM(1e-300, 0.1), 1)), emin(qv_range("emin", 0, QV_SYM(1e300, 0.1))),
        track(qv_bool("track")), e(&f, dt, frac, emin, track), list("all", 4) {}
    // one step of an arbitrary lepton; kind: an emission or none
    void run(long k, bool emits, bool tiny)
    {
        Emitter s(k);
        Lepton l(s.m, s.q, s.x, s.p, s.w, s.t, s.track);
        double eta = s.eta(), depth = l.GetOpticalDepth(), g = s.gamma();
        qv_assume((eta < 1e-12) == tiny);
        if (emits) qv_assume(eta > QV_SYM(0, 1e-5) && T.covers(eta));
        long d = draws;
        double rate = tiny ? std::pow(10.0, 0.7193) : std::pow(10.0, T.rate(eta));
        double left = depth - dt * std::sqrt(3) * UnitsSystem::alpha * eta * rate / (2 * UnitsSystem::pi * g);
        qv_assume((left < 0) == emits);
        double E = 0;
        if (emits)
        {
            E = 2 * sampleChi(T, eta, draw(d)) * g / eta;
            qv_assume(E < QV_SYM(1, 0.99) * std::sqrt(dot(s.p, s.p)));
        }
        e.Interact(&l, &list);
        s.kept(l);
        same(l.GetPosition(), s.x, "an emission does not move the lepton");
        if (!emits)
        {
            qv_eq(l.GetOpticalDepth(), left, "the optical depth falls by dt times the rate");
            qv_check(draws == d, "no draw without an emission");
            qv_check(list.GetNPart() == born, "no photon without an emission");
            same(l.GetMomentum(), s.p, "no recoil without an emission");
            qv_check(l.GetPosHist().size() == 0, "history only grows on an emission");
            return;
        }
        ThreeVector dir = s.p / std::sqrt(dot(s.p, s.p));
        same(l.GetMomentum(), s.p - dir * E, "recoil is the photon's momentum");
        qv_check((long)l.GetPosHist().size() == (s.track ? 1 : 0), "one history entry per emission of a tracked lepton");
        qv_assume(draw(d + 1) != frac);
        bool seen = E > emin && draw(d + 1) < frac;
        long used = E > emin ? 2 : 1;
        if (seen)
        {
            qv_check(list.GetNPart() == born + 1, "one photon above threshold and within the sampled fraction");
            s.photon(*list.GetParticle(born), E, dir, s.w / frac, track);
            used++;
            born++;
        }
        qv_check(list.GetNPart() == born, "at most one photon per step");
        qv_eq(l.GetOpticalDepth(), -std::log(1 - draw(d + used)), "a fresh optical depth after an emission");
        qv_check(draws == d + used + 1, "draws per emission");
    }
};
QV_CASE(emission)
{
    Step s;
    s.run(0, true, false);
    s.run(1, false, false);
}
QV_CASE(emission_tiny) { Step().run(0, true, true); }
QV_CASE(quiet)
{
    Step s;
    s.run(0, false, false);
    s.run(1, false, true);
    s.run(2, false, false);
}
QV_CASE(emission_later)
{
    Step s;
    s.run(0, false, false);
    s.run(1, true, false);
}
QV_CASE(others)
{
    PhotonTables T;
    AnyField f;
    StochasticEmission e(&f, qv_pos("dt"), qv_range("frac", QV_SYM(1e-300, 0.1), 1), qv_pos("emin"));
    ParticleList list("all", 4);
    Emitter s(0);
    bool dead = qv_bool("dead");
    qv_assume(dot(s.p, s.p) > 0);
    Particle *p = dead && qv_bool("lepton") ? (Particle *)new Lepton(s.m, s.q, s.x, s.p, s.w, s.t, s.track) : new Photon(s.x, s.p, s.w, s.t, s.track);
    if (dead) p->Kill();
    double depth = p->GetOpticalDepth(), m = p->GetMass(), q = p->GetCharge();
    long d = draws;
    e.Interact(p, &list);
    untouched(*p, s, depth, m, q, !dead);
    qv_check(list.GetNPart() == 0 && draws == d, "photons and dead particles do not emit");
    delete p;
}
