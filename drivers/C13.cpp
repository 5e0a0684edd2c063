// C13: continuous photon emission.
//@ sources: Physics/Processes/PhotonEmission.cpp Physics/Processes/ContinuousEmission.cpp Particles/Particle.cpp Particles/Lepton.cpp Particles/Photon.cpp Particles/ParticleList.cpp Tools/Numerics.cpp
//@ contract: MCTools::RandDouble -- a value in [low, high) per draw (C04)
//@ contract: Numerics::Interpolate1D, Numerics::ClosestPoints -- functions of table and query; the bracketing rows (C02)
//@ contract: PhotonEmission::CalculateEta, PhotonEmission::CalculateChi -- functions of the particle and of eta and one draw (cases eta, photon_chi)
//@ contract: EMField::GetField -- any function of time and position (the fields' own contracts are C06-C08)
#include "qv.h"
#include "wave.h"
#include "draws.h"
#include "field.h"
#include "tables.h"
#include "ContinuousEmission.hh"
#include "radiation.h"
#include "emitter.h"
#include "Photon.hh"
#include "UnitsSystem.hh"

struct Step
{
    double dt, frac, emin;
    bool track, classical;
    long born = 0;
    PhotonTables T;
    AnyField f;
    ContinuousEmission e;
    ParticleList list;
    Step(bool cl) : dt(qv_range("dt", QV_SYM(1e-300, 1e-2), QV_SYM(1e300, 1e3))), frac(qv_range("frac", QV_SYM(1e-300, 0.1), 1)), emin(qv_range("emin", 0, QV_SYM(1e300, 0.1))),
        track(qv_bool("track")), classical(cl), e(&f, dt, cl, frac, emin, track), list("all", 4) {}
    // one step of an arbitrary lepton
    void run(long k, bool tiny)
    {
        Emitter s(k);
        Lepton l(s.m, s.q, s.x, s.p, s.w, s.t, s.track);
        double eta = s.eta(), depth = l.GetOpticalDepth(), g = s.gamma();
        bool limit = classical || tiny;
        double ref = std::exp(qv_tok(T.h.c_str(), 1));
        qv_assume(eta > 0 && (eta < 1e-12) == tiny && dot(s.p, s.p) > 0);
        qv_assume(limit ? T.covers(ref) : eta > QV_SYM(0, 1e-5) && T.covers(eta));
        long d = draws;
        double u = draw(d), rate = limit ? std::pow(10.0, 0.7193) : std::pow(10.0, T.rate(eta));
        qv_assume(u != frac);
        double prob = dt * std::sqrt(3) * UnitsSystem::alpha * eta * rate / (2 * UnitsSystem::pi * g);
        e.Interact(&l, &list);
        untouched(l, s, depth, s.m, s.q, true);
        if (u < frac)
        {
            double chi = limit ? sampleChi(T, ref, draw(d + 1)) * (eta / ref) * (eta / ref) : sampleChi(T, eta, draw(d + 1));
            double E = 2 * chi * g / eta;
            if (E > emin)
            {
                qv_check(list.GetNPart() == born + 1, "one photon above threshold");
                s.photon(*list.GetParticle(born), E, s.p / std::sqrt(dot(s.p, s.p)), s.w * prob / frac, track);
                born++;
            }
        }
        qv_check(list.GetNPart() == born, "at most one photon per step, only within the sampled fraction");
    }
};
QV_CASE(quantum)
{
    Step s(false);
    s.run(0, false);
    s.run(1, false);
}
QV_CASE(tiny) { Step(false).run(0, true); }
QV_CASE(classical) { Step(true).run(0, false); }
QV_CASE(classical_tiny) { Step(true).run(0, true); }
QV_CASE(others)
{
    PhotonTables T;
    AnyField f;
    ContinuousEmission e(&f, qv_pos("dt"), qv_bool("classical"), qv_range("frac", QV_SYM(1e-300, 0.1), 1), qv_pos("emin"));
    ParticleList list("all", 4);
    Emitter s(0);
    bool dead = qv_bool("dead");
    qv_assume(dot(s.p, s.p) > 0);
    Particle *p = dead && qv_bool("lepton") ? (Particle *)new Lepton(s.m, s.q, s.x, s.p, s.w, s.t, s.track) : new Photon(s.x, s.p, s.w, s.t, s.track);
    if (dead) p->Kill();
    double depth = p->GetOpticalDepth(), m = p->GetMass(), q = p->GetCharge();
    e.Interact(p, &list);
    untouched(*p, s, depth, m, q, !dead);
    qv_check(list.GetNPart() == 0, "photons and dead particles do not emit");
    delete p;
}
