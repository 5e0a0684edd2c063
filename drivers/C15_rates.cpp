// C15: the rate tables, observed through one step without an event.
//@ sources: Physics/Processes/PhotonEmission.cpp Physics/Processes/StochasticEmission.cpp Physics/Processes/NonLinearBreitWheeler.cpp Particles/Particle.cpp Particles/Lepton.cpp Particles/Photon.cpp Particles/ParticleList.cpp Tools/Numerics.cpp
//@ flags: -fno-access-control
//@ contract: MCTools::RandDouble -- a value in [low, high) per draw (C04)
//@ contract: Numerics::Interpolate1D, Numerics::ClosestPoints -- functions of table and query; the bracketing rows (C02)
//@ contract: PhotonEmission::CalculateEta, PhotonEmission::CalculateChi, NonLinearBreitWheeler::CalculateChi, NonLinearBreitWheeler::CalculateSplit -- functions of the particle, of the parameter and one draw (C12, C14)
#include "qv.h"
#include "wave.h"
#include "field.h"
#include "tables.h"
#include "StochasticEmission.hh"
#include "radiation.h"
#include "emitter.h"
#include "pair_contracts.h"
#include "pairs.h"
#include "UnitsSystem.hh"

QV_CASE(photon_rate)
{
    PhotonTables T;
    AnyField f;
    double dt = qv_range("dt", QV_SYM(1e-300, 1e-2), QV_SYM(1e300, 1e3));
    StochasticEmission e(&f, dt);
    ParticleList list("all", 4);
    Emitter s(0);
    Lepton l(s.m, s.q, s.x, s.p, s.w, s.t, s.track);
    double eta = s.eta(), depth = l.GetOpticalDepth();
    qv_assume(eta > 1e-5);
    double left = depth - dt * std::sqrt(3) * UnitsSystem::alpha * eta * std::pow(10.0, T.rate(eta)) / (2 * UnitsSystem::pi * s.gamma());
    qv_assume(left > 0);
    e.Interact(&l, &list);
    qv_eq(l.GetOpticalDepth(), left, "photon rate: row i of the rate file is sample i of the look-up");
}
QV_CASE(pair_rate)
{
    PairTables T;
    AnyField f;
    double dt = qv_range("dt", QV_SYM(1e-300, 1e-2), QV_SYM(1e300, 1e3));
    NonLinearBreitWheeler b(&f, dt);
    ParticleList list("all", 4);
    Quantum s(0);
    Photon g(s.x, s.p, s.w, s.t, s.track);
    double chi = s.chi(), depth = g.GetOpticalDepth();
    qv_assume(chi > 1e-5 && s.energy() > 2);
    double left = depth - dt * UnitsSystem::alpha * chi * std::pow(10.0, T.rate(chi)) / s.energy();
    qv_assume(left > 0);
    b.Interact(&g, &list);
    qv_eq(g.GetOpticalDepth(), left, "pair rate: row i of the rate file is sample i of the look-up");
}
