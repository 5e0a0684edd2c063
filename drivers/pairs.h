#pragma once
// contracts of the pair production helpers: a function of the photon's state and the field there (case pair_chi), and one of
// chi and one uniform draw (case pair_split)
#include "NonLinearBreitWheeler.hh"
#include "draws.h"
#include "tables.h"
#include "field.h"
#include "Photon.hh"
struct Quantum
{
    double w, t;
    bool track;
    ThreeVector x, p;
    Quantum(long k) : w(qv_range("w", QV_SYM(1e-300, 0.1), QV_SYM(1e300, 10), k)), t(qv_real("t", k)), track(qv_bool("tracked", k)),
        x(qv_real("x", 1, k), qv_real("x", 2, k), qv_real("x", 3, k)), p(qv_real("p", 1, k), qv_real("p", 2, k), qv_real("p", 3, k)) { qv_assume(dot(p, p) > 0); }
    double energy() const { return std::sqrt(dot(p, p)); }
    // half the energy times the field across the direction of motion, n x (E + n x B)
    double exact() const
    {
        ThreeVector E, B, n = p / energy();
        AnyField::at(t, x, E, B);
        ThreeVector s = E - dot(n, E) * n + cross(n, B);
        return 0.5 * energy() * std::sqrt(dot(s, s));
    }
    double chi() const
    {
#ifdef QV_CHI
        return QV_CHI(t, x, p);
#else
        return exact();
#endif
    }
    void kept(const Particle &g, bool alive) const
    {
        qv_eq(g.GetWeight(), w, "weight unchanged");
        qv_eq(g.GetTime(), t, "time unchanged");
        same(g.GetPosition(), x, "position unchanged");
        same(g.GetMomentum(), p, "momentum unchanged");
        qv_check(g.GetType() == "Photon" && g.IsAlive() == alive && g.GetTracking() == track && g.GetPosHist().size() == 0, "tracking and history unchanged");
    }
};
