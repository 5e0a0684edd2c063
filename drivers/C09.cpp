// C09: particle state and histories.
//@ sources: Particles/Particle.cpp Particles/Lepton.cpp Particles/Photon.cpp
//@ contract: MCTools::RandDouble -- a value in [low, high) per draw (C04)
#include "qv.h"
#include "wave.h"
#include "draws.h"
#include <cmath>
#include <string>
#include "Lepton.hh"
#include "Photon.hh"

static ThreeVector momentum(long k = 0) { return ThreeVector(qv_real("p", 1, k), qv_real("p", 2, k), qv_real("p", 3, k)); }

static void depth(const Particle &p, long first)
{
    qv_check(draws == first + 1, "exactly one uniform draw");
    qv_eq(p.GetOpticalDepth(), -std::log(1 - draw(first)), "optical depth -ln(1-u)");
    qv_check(p.GetOpticalDepth() >= 0, "optical depth is not negative");
}
static void fresh(const Particle &p, const ThreeVector &x, double mass, double charge, double weight, double time, bool track)
{
    same(p.GetPosition(), x, "position as given");
    qv_eq(p.GetMass(), mass, "mass as given");
    qv_eq(p.GetCharge(), charge, "charge as given");
    qv_eq(p.GetWeight(), weight, "weight as given");
    qv_eq(p.GetTime(), time, "time as given");
    qv_check(p.GetTracking() == track, "tracking as given");
    qv_check(p.IsAlive(), "a new particle is alive");
    qv_check(p.GetPosHist().size() == 0 && p.GetMomHist().size() == 0 && p.GetTimeHist().size() == 0 && p.GetGammaHist().size() == 0, "a new particle has no history");
}
static void lepton_state(const Particle &p, const ThreeVector &q, double mass, double charge)
{
    double q2 = dot(q, q), g = std::sqrt(1 + q2 / (mass * mass));
    same(p.GetMomentum(), q, "momentum");
    qv_eq(p.GetGamma(), g, "gamma from momentum and mass");
    qv_eq(p.GetEnergy(), mass * g, "energy is gamma times mass");
    qv_eq(p.GetBeta() * p.GetBeta(), 1 - 1 / (g * g), "speed from gamma");
    qv_check(p.GetBeta() >= 0, "speed is not negative");
    qv_check(p.GetType() == "Lepton", "a lepton's type");
    qv_check(p.GetName() == (charge == -1 ? "Electron" : "Positron"), "the charge decides the name");
}
static void photon_state(const Particle &p, const ThreeVector &q)
{
    double m = std::sqrt(dot(q, q));
    same(p.GetMomentum(), q, "momentum");
    qv_eq(p.GetGamma(), m, "a photon's energy is its momentum");
    qv_eq(p.GetEnergy(), m, "a photon's energy is its momentum");
    qv_eq(p.GetBeta(), 1, "a photon's speed is one");
    qv_check(p.GetType() == "Photon" && p.GetName() == "Photon", "a photon's type and name");
}
static void heading(const Particle &p, const ThreeVector &q)
{
    double m = std::sqrt(dot(q, q));
    ThreeVector d = p.GetDirection();
    for (int i = 0; i < 3; i++) qv_eq(d[i], q[i] / m, "direction of the momentum");
}

QV_CASE(lepton_momentum)
{
    for (long k = 0; k < 2; k++)
    {
        double mass = qv_range("mass", QV_SYM(1e-9, 0.1), QV_SYM(1e9, 10), k), charge = qv_bool("electron", k) ? -1 : 1, w = qv_pos("w", k), t = qv_real("t", k);
        bool track = qv_bool("track", k);
        ThreeVector x = vec("x"), q = momentum(k);
        long first = draws;
        Lepton p(mass, charge, x, q, w, t, track);
        fresh(p, x, mass, charge, w, t, track);
        depth(p, first);
        lepton_state(p, q, mass, charge);
        if (dot(q, q) > 0) heading(p, q);
        else same(p.GetDirection(), ThreeVector(0, 0, 0), "no direction at rest");
        long again = draws;
        p.InitOpticalDepth();
        depth(p, again);
        lepton_state(p, q, mass, charge);
    }
}
QV_CASE(lepton_energy)
{
    for (long k = 0; k < 2; k++)
    {
        double mass = qv_range("mass", QV_SYM(1e-9, 0.1), QV_SYM(1e9, 10), k), charge = qv_bool("electron", k) ? -1 : 1, w = qv_pos("w", k), t = qv_real("t", k);
        double energy = mass + qv_pos("kinetic", k);
        bool track = qv_bool("track", k);
        ThreeVector x = vec("x"), d = vec("d");
        qv_assume(dot(d, d) > QV_SYM(0, 1e-6));
        long first = draws;
        Lepton p(mass, charge, energy, x, d, w, t, track);
        fresh(p, x, mass, charge, w, t, track);
        depth(p, first);
        qv_eq(p.GetEnergy(), energy, "the requested energy");
        heading(p, d);
        lepton_state(p, p.GetMomentum(), mass, charge);
    }
}
QV_CASE(photon_momentum)
{
    for (long k = 0; k < 2; k++)
    {
        double w = qv_pos("w", k), t = qv_real("t", k);
        bool track = qv_bool("track", k);
        ThreeVector x = vec("x"), q = momentum(k);
        long first = draws;
        Photon p(x, q, w, t, track);
        fresh(p, x, 0, 0, w, t, track);
        depth(p, first);
        photon_state(p, q);
        if (dot(q, q) > 0) heading(p, q);
    }
}
QV_CASE(photon_energy)
{
    for (long k = 0; k < 2; k++)
    {
        double w = qv_pos("w", k), t = qv_real("t", k), energy = qv_pos("energy", k);
        bool track = qv_bool("track", k);
        ThreeVector x = vec("x"), d = vec("d");
        qv_assume(dot(d, d) > QV_SYM(0, 1e-6));
        long first = draws;
        Photon p(energy, x, d, w, t, track);
        fresh(p, x, 0, 0, w, t, track);
        depth(p, first);
        qv_eq(p.GetEnergy(), energy, "the requested energy");
        heading(p, d);
        photon_state(p, p.GetMomentum());
    }
}
static long most = 12;   // native replay only
// any number of updates, of any particle kind, tracked or not
static void updates(Particle &p, double mass, bool track, double weight, double time)
{
    long n = qv_int("updates", 0, QV_SYM(1L << 30, most)), d0 = draws;
    double od = p.GetOpticalDepth();
    for (long k = 0; k < n; k++)
    {
        p.UpdateTime(qv_real("dt", k));
        p.UpdateTrack(ThreeVector(qv_real("nx", 1, k), qv_real("nx", 2, k), qv_real("nx", 3, k)), ThreeVector(qv_real("np", 1, k), qv_real("np", 2, k), qv_real("np", 3, k)));
    }
    qv_check(draws == d0, "updates draw no random numbers");
    qv_eq(p.GetOpticalDepth(), od, "updates leave the optical depth");
    qv_eq(p.GetWeight(), weight, "updates leave the weight");
    qv_check(p.IsAlive(), "updates leave the particle alive");
    qv_check(p.GetTracking() == track, "updates leave tracking as it is");
    qv_eq(p.GetMass(), mass, "updates leave the mass");
    std::vector<ThreeVector> X = p.GetPosHist(), P = p.GetMomHist();
    std::vector<double> T = p.GetTimeHist(), G = p.GetGammaHist();
    long want = track ? n : 0;
    qv_check((long)X.size() == want && (long)P.size() == want && (long)T.size() == want && (long)G.size() == want, "one history entry per update of a tracked particle, none otherwise");
    double t = time;
    for (long k = 0; k < n; k++) t += qv_real("dt", k);
    qv_eq(p.GetTime(), t, "time advances by the sum of the steps");
    if (n > 0)
    {
        same(p.GetPosition(), ThreeVector(qv_real("nx", 1, n - 1), qv_real("nx", 2, n - 1), qv_real("nx", 3, n - 1)), "position of the last update");
        same(p.GetMomentum(), ThreeVector(qv_real("np", 1, n - 1), qv_real("np", 2, n - 1), qv_real("np", 3, n - 1)), "momentum of the last update");
    }
    if (n > 0 && track)
    {
        long i = qv_index("entry", n);
        double s = time;
        for (long k = 0; k <= i; k++) s += qv_real("dt", k);
        ThreeVector q(qv_real("np", 1, i), qv_real("np", 2, i), qv_real("np", 3, i));
        same(X[i], ThreeVector(qv_real("nx", 1, i), qv_real("nx", 2, i), qv_real("nx", 3, i)), "position history");
        same(P[i], q, "momentum history");
        qv_eq(T[i], s, "time history");
        qv_eq(G[i], mass > 0 ? std::sqrt(1 + dot(q, q) / (mass * mass)) : std::sqrt(dot(q, q)), "gamma history");
    }
}
QV_CASE(lepton_updates)
{
    double mass = qv_range("mass", QV_SYM(1e-9, 0.1), QV_SYM(1e9, 10)), w = qv_pos("w"), t = qv_real("t");
    bool track = qv_bool("track");
    Lepton p(mass, 1, vec("x"), momentum(), w, t, track);
    updates(p, mass, track, w, t);
}
QV_CASE(photon_updates)
{
    double w = qv_pos("w"), t = qv_real("t");
    bool track = qv_bool("track");
    Photon p(vec("x"), momentum(), w, t, track);
    updates(p, 0, track, w, t);
}
QV_CASE(depth_and_kill)
{
    double mass = qv_range("mass", QV_SYM(1e-9, 0.1), QV_SYM(1e9, 10)), w = qv_pos("w"), t = qv_real("t");
    bool track = qv_bool("track");
    ThreeVector x = vec("x"), q = momentum();
    Lepton p(mass, -1, x, q, w, t, track);
    double od = p.GetOpticalDepth(), a = qv_real("step", 1), b = qv_real("step", 2);
    p.UpdateOpticalDepth(a);
    qv_eq(p.GetOpticalDepth(), od - a, "the optical depth falls by the step");
    p.UpdateOpticalDepth(b);
    qv_eq(p.GetOpticalDepth(), od - a - b, "the optical depth falls by every step");
    fresh(p, x, mass, -1, w, t, track);
    p.Kill();
    qv_check(!p.IsAlive(), "a killed particle is dead");
    qv_eq(p.GetOpticalDepth(), od - a - b, "killing leaves the optical depth");
    lepton_state(p, q, mass, -1);
    qv_eq(p.GetWeight(), w, "killing leaves the weight");
    qv_eq(p.GetTime(), t, "killing leaves the time");
    same(p.GetPosition(), x, "killing leaves the position");
    qv_check(p.GetPosHist().size() == 0, "killing leaves the history");
}
QV_PROBE(many)
{
    double w = qv_pos("w"), t = qv_real("t");
    Photon p(vec("x"), momentum(), w, t, true);
    most = 6000;
    updates(p, 0, true, w, t);
    most = 12;
}
