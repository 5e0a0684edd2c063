// C11: the radiation reaction forces, for every momentum, charge, mass and field.
//@ sources: Physics/ParticlePushers/ParticlePusher.cpp Physics/ParticlePushers/LandauPusher.cpp Physics/ParticlePushers/ModifiedLandauPusher.cpp Particles/Particle.cpp Particles/Lepton.cpp Particles/Photon.cpp Particles/ParticleList.cpp
//@ contract: MCTools::RandDouble -- a value in [low, high) per draw (C04)
#include "qv.h"
#include "wave.h"
#include "draws.h"
#include <cmath>
#include "LandauPusher.hh"
#include "ModifiedLandauPusher.hh"
#include "UnitsSystem.hh"

template <class P> struct Open : P
{
    using P::P;
    ThreeVector force(double m, double q, const ThreeVector &p, const ThreeVector &E, const ThreeVector &B) const { return P::PushMomentum(m, q, p, E, B); }
};
static double gaunt(double eta) { return std::pow(1.0 + 4.8 * (1.0 + eta) * std::log(1.0 + 1.7 * eta) + 2.44 * eta * eta, -2. / 3.); }
struct Kick
{
    double m, q, gamma, eta;
    ThreeVector p, E, B, lorentz;
    Kick(long k)
    {
        m = qv_range("mass", QV_SYM(1e-9, 0.5), QV_SYM(1e9, 3), k), q = qv_real("charge", k);
        p = ThreeVector(qv_real("p", 1, k), qv_real("p", 2, k), qv_real("p", 3, k));
        E = ThreeVector(qv_real("E", 1, k), qv_real("E", 2, k), qv_real("E", 3, k));
        B = ThreeVector(qv_real("B", 1, k), qv_real("B", 2, k), qv_real("B", 3, k));
        qv_assume(dot(p, p) > QV_SYM(0, 1e-3));
        gamma = std::sqrt(1 + dot(p, p) / (m * m));
        lorentz = (E + cross(p, B) / (m * gamma)) * q;
        // eta^2 = gamma^2 [(E_perp + v x B)^2 + E_par^2/gamma^2]
        ThreeVector n = p / std::sqrt(dot(p, p)), v = p / (m * gamma);
        ThreeVector w = E - n * dot(E, n) + cross(v, B);
        eta = std::sqrt(dot(w, w) + dot(E, n) * dot(E, n) / (gamma * gamma)) * gamma;
    }
    // the drag is what the force adds to the Lorentz force
    void drag(const ThreeVector &F, double g) const
    {
        same(F, lorentz - p * (2. / 3. * UnitsSystem::alpha * eta * eta * g / std::sqrt(dot(p, p))), "force is Lorentz plus the drag opposite to the momentum");
    }
};
QV_CASE(classical)
{
    Open<LandauPusher> f(nullptr, 1);
    for (long k = 0; k < 2; k++)
    {
        Kick c(k);
        c.drag(f.force(c.m, c.q, c.p, c.E, c.B), 1);
    }
}
QV_CASE(semiclassical)
{
    Open<ModifiedLandauPusher> f(nullptr, 1);
    for (long k = 0; k < 2; k++)
    {
        Kick c(k);
        c.drag(f.force(c.m, c.q, c.p, c.E, c.B), gaunt(c.eta));
    }
}
template <class P> static void charge(const P &f)
{
    Kick c(0);
    double q2 = qv_real("charge", 1);
    ThreeVector F = f.force(c.m, c.q, c.p, c.E, c.B), G = f.force(c.m, q2, c.p, c.E, c.B);
    same(F - c.lorentz, G - c.lorentz / c.q * q2, "the drag does not depend on the charge");
    ThreeVector o(0, 0, 0);
    same(f.force(c.m, c.q, c.p, o, o), o, "no force without field");
}
QV_CASE(classical_charge)
{
    qv_assume(qv_real("charge") > QV_SYM(0, 0.1));
    charge(Open<LandauPusher>(nullptr, 1));
}
QV_CASE(semiclassical_charge)
{
    qv_assume(qv_real("charge") > QV_SYM(0, 0.1));
    charge(Open<ModifiedLandauPusher>(nullptr, 1));
}
QV_CASE(never_accelerates)
{
    // with the drag above: its component along the momentum is -(2/3) alpha eta^2 g |p| <= 0, the Gaunt factor is in (0, 1]
    double eta = qv_range("eta", 0, QV_SYM(1e300, 1e6));
    double g = gaunt(eta);
    qv_check(g > 0 && g <= 1, "the Gaunt factor is in (0, 1]");
    qv_check(-2. / 3. * UnitsSystem::alpha * eta * eta * g <= 0, "the drag is never along the momentum");
}
QV_CASE(at_rest)
{
    // a lepton at rest has no direction to be dragged against
    ThreeVector E = vec("E"), B = vec("B"), o(0, 0, 0);
    double m = qv_pos("mass"), q = qv_real("charge");
    Open<LandauPusher> f(nullptr, 1);
    Open<ModifiedLandauPusher> g(nullptr, 1);
    same(f.force(m, q, o, E, B), E * q, "only the electric force on a lepton at rest (classical)");
    same(g.force(m, q, o, E, B), E * q, "only the electric force on a lepton at rest (semiclassical)");
}
