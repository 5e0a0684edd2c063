// C14: pair production.
//@ sources: Physics/Processes/NonLinearBreitWheeler.cpp Particles/Particle.cpp Particles/Lepton.cpp Particles/Photon.cpp Particles/ParticleList.cpp Tools/Numerics.cpp
//@ flags: -fno-access-control
//@ contract: MCTools::RandDouble -- a value in [low, high) per draw (C04)
//@ contract: Numerics::Interpolate1D, Numerics::ClosestPoints -- functions of table and query; the bracketing rows (C02)
//@ contract: NonLinearBreitWheeler::CalculateChi, NonLinearBreitWheeler::CalculateSplit -- functions of the photon and of chi and one draw (cases pair_chi, pair_split)
//@ contract: EMField::GetField -- any function of time and position (the fields' own contracts are C06-C08)
#include "qv.h"
#include "wave.h"
#include "pair_contracts.h"
#include "pairs.h"
#include "Lepton.hh"
#include "UnitsSystem.hh"

struct Step
{
    double dt;
    bool track;
    long born = 0;
    PairTables T;
    AnyField f;
    NonLinearBreitWheeler b;
    ParticleList list;
    Step() : dt(qv_range("dt", QV_SYM(1e-300, 1e-2), QV_SYM(1e300, 1e3))), track(qv_bool("track")), b(&f, dt, track), list("all", 6) {}
    void lepton(const Particle &l, const Quantum &s, double charge, double E)
    {
        qv_check(l.GetType() == "Lepton" && l.GetName() == (charge > 0 ? "Positron" : "Electron"), "the kind of the new particle");
        qv_check(l.GetCharge() == charge && l.GetMass() == 1, "charge and mass of the new particle");
        qv_eq(l.GetEnergy() * l.GetEnergy(), E * E, "energy of the new particle");
        same(l.GetMomentum(), s.p / s.energy() * std::sqrt(QV_SYM(E * E - 1, std::max(E * E - 1, 0.))), "momentum of the new particle");
        same(l.GetPosition(), s.x, "position of the new particle");
        qv_eq(l.GetTime(), s.t, "time of the new particle");
        qv_eq(l.GetWeight(), s.w, "weight of the new particle");
        qv_check(l.IsAlive() && l.GetTracking() == track, "new particle alive and tracked as configured");
    }
    void run(long k, bool decays)
    {
        Quantum s(k);
        Photon g(s.x, s.p, s.w, s.t, s.track);
        double chi = s.chi(), depth = g.GetOpticalDepth(), E = s.energy();
        qv_assume(chi > QV_SYM(0, 1e-5) && E > 2);
        long d = draws;
        double left = depth - dt * UnitsSystem::alpha * chi * std::pow(10.0, T.rate(chi)) / E;
        qv_assume((left < 0) == decays);
        double pE = 0;
        if (decays)
        {
            qv_assume(T.covers(chi));
            double split = sampleSplit(T, chi, draw(d));
            // within the kinematic limits: each lepton has at least its rest energy
            pE = split * E;
            qv_assume(pE != E - 1);
            if (pE < 1) pE = 1;
            if (pE > E - 1) pE = E - 1;
        }
        b.Interact(&g, &list);
        s.kept(g, !decays);
        qv_eq(g.GetOpticalDepth(), left, "the optical depth falls by dt times the rate");
        if (decays)
        {
            qv_check(list.GetNPart() == born + 2, "one pair per decay");
            int i = list.GetParticle(born)->GetCharge() > 0 ? 0 : 1;
            lepton(*list.GetParticle(born + i), s, 1, pE);
            lepton(*list.GetParticle(born + 1 - i), s, -1, QV_SYM(E - pE, std::max(1., E - pE)));
            born += 2;
        }
        qv_check(list.GetNPart() == born, "no pair without a decay");
    }
};
QV_CASE(decay)
{
    Step s;
    s.run(0, true);
    s.run(1, false);
}
QV_CASE(quiet)
{
    Step s;
    s.run(0, false);
    s.run(1, false);
}
QV_CASE(later)
{
    Step s;
    s.run(0, false);
    s.run(1, true);
}
QV_CASE(no_field)
{
    Step s;
    Quantum q(0);
    Photon g(q.x, q.p, q.w, q.t, q.track);
    double depth = g.GetOpticalDepth();
    qv_assume(q.chi() == 0);
    s.b.Interact(&g, &s.list);
    q.kept(g, true);
    qv_eq(g.GetOpticalDepth(), depth, "no field leaves the optical depth unchanged");
    qv_check(s.list.GetNPart() == 0, "no pair without a field");
}
QV_CASE(below_threshold)
{
    Step s;
    Quantum q(0);
    qv_assume(q.energy() < 2 && q.chi() < 1e3);
    Photon g(q.x, q.p, q.w, q.t, q.track);
    double depth = g.GetOpticalDepth();
    s.b.Interact(&g, &s.list);
    q.kept(g, true);
    qv_eq(g.GetOpticalDepth(), depth, "too little energy for a pair leaves the optical depth unchanged");
    qv_check(s.list.GetNPart() == 0, "no pair below the threshold");
}
QV_CASE(others)
{
    Step s;
    Quantum q(0);
    bool dead = qv_bool("dead");
    double charge = qv_bool("positive") ? 1 : -1;
    Particle *p = dead && qv_bool("photon") ? (Particle *)new Photon(q.x, q.p, q.w, q.t, q.track) : new Lepton(1, charge, q.x, q.p, q.w, q.t, q.track);
    if (dead) p->Kill();
    double depth = p->GetOpticalDepth(), m = p->GetMass(), c = p->GetCharge();
    long d = draws;
    s.b.Interact(p, &s.list);
    qv_check(p->IsAlive() == !dead && p->GetMass() == m && p->GetCharge() == c && p->GetTracking() == q.track && p->GetPosHist().size() == 0, "leptons and dead photons are left alone");
    qv_eq(p->GetOpticalDepth(), depth, "optical depth unchanged");
    qv_eq(p->GetWeight(), q.w, "weight unchanged");
    qv_eq(p->GetTime(), q.t, "time unchanged");
    same(p->GetPosition(), q.x, "position unchanged");
    same(p->GetMomentum(), q.p, "momentum unchanged");
    qv_check(s.list.GetNPart() == 0 && draws == d, "leptons and dead photons do not decay");
    delete p;
}
