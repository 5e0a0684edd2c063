#pragma once
// an arbitrary lepton and what radiation must leave alone
static double sq(double x) { return x * x; }
struct Emitter
{
    double m, q, w, t;
    bool track;
    ThreeVector x, p;
    Emitter(long k) : m(1), q(qv_bool("positive", k) ? 1 : -1), w(qv_range("w", QV_SYM(1e-300, 0.1), QV_SYM(1e300, 10), k)), t(qv_real("t", k)), track(qv_bool("tracked", k)),
        x(qv_real("x", 1, k), qv_real("x", 2, k), qv_real("x", 3, k)), p(qv_real("p", 1, k), qv_real("p", 2, k), qv_real("p", 3, k)) {}
    double gamma() const { return std::sqrt(1 + dot(p, p) / (m * m)); }
    // gamma times the field strength the particle sees: | gamma E + (p/m) x B |^2 - (p/m . E)^2
    double eta() const
    {
#ifdef QV_ETA
        return QV_ETA(t, x, p);
#else
        return exact();
#endif
    }
    double exact() const
    {
        ThreeVector E, B, u = p / m;
        AnyField::at(t, x, E, B);
        ThreeVector s = E * gamma() + cross(u, B);
        return std::sqrt(dot(s, s) - sq(dot(u, E)));
    }
    void kept(const Particle &l) const
    {
        qv_eq(l.GetMass(), m, "mass unchanged");
        qv_eq(l.GetCharge(), q, "charge unchanged");
        qv_eq(l.GetWeight(), w, "weight unchanged");
        qv_eq(l.GetTime(), t, "time unchanged");
        qv_check(l.IsAlive() && l.GetTracking() == track, "still alive, tracking as before");
    }
    void photon(const Particle &g, double E, const ThreeVector &dir, double weight, bool tracked) const
    {
        qv_check(g.GetType() == "Photon", "the new particle is a photon");
        qv_eq(g.GetEnergy(), E, "photon energy");
        same(g.GetMomentum(), dir * E, "photon momentum");
        same(g.GetPosition(), x, "photon position");
        qv_eq(g.GetTime(), t, "photon time");
        qv_eq(g.GetWeight(), weight, "photon weight");
        qv_check(g.IsAlive() && g.GetTracking() == tracked, "photon alive and tracked as configured");
    }
};
static void untouched(const Particle &p, const Emitter &s, double depth, double m, double q, bool alive)
{
    qv_eq(p.GetMass(), m, "mass unchanged");
    qv_eq(p.GetCharge(), q, "charge unchanged");
    qv_eq(p.GetWeight(), s.w, "weight unchanged");
    qv_eq(p.GetTime(), s.t, "time unchanged");
    qv_eq(p.GetOpticalDepth(), depth, "optical depth unchanged");
    same(p.GetPosition(), s.x, "position unchanged");
    same(p.GetMomentum(), s.p, "momentum unchanged");
    qv_check(p.IsAlive() == alive && p.GetTracking() == s.track && p.GetPosHist().size() == 0, "life, tracking and history unchanged");
}
