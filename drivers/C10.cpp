// C10: one push of a particle, and of a list.
//@ sources: Physics/ParticlePushers/ParticlePusher.cpp Physics/ParticlePushers/LorentzPusher.cpp Particles/Particle.cpp Particles/Lepton.cpp Particles/Photon.cpp Particles/ParticleList.cpp
//@ contract: MCTools::RandDouble -- a value in [low, high) per draw (C04)
//@ contract: EMField::GetField -- any function of time and position (the fields' own contracts are C06-C08)
#include "qv.h"
#include "wave.h"
#include "draws.h"
#include "field.h"
#include <cmath>
#include <string>
#include "LorentzPusher.hh"
#include "Lepton.hh"
#include "Photon.hh"

static ThreeVector at(const char *n, long k) { return ThreeVector(qv_real(n, 1, k), qv_real(n, 2, k), qv_real(n, 3, k)); }
// dx/dt and dp/dt of a charged particle
static ThreeVector speed(double m, const ThreeVector &p) { return p / (m * std::sqrt(1 + dot(p, p) / (m * m))); }
static ThreeVector force(double m, double q, double t, const ThreeVector &x, const ThreeVector &p)
{
    ThreeVector E, B;
    AnyField::at(t, x, E, B);
    return (E + cross(speed(m, p), B)) * q;
}
static void rk4(double m, double q, double h, double t, const ThreeVector &x, const ThreeVector &p, ThreeVector &X, ThreeVector &P)
{
    ThreeVector x1 = speed(m, p), p1 = force(m, q, t, x, p);
    ThreeVector pa = p + p1 * (h / 2), xa = x + x1 * (h / 2);
    ThreeVector x2 = speed(m, pa), p2 = force(m, q, t + h / 2, xa, pa);
    ThreeVector pb = p + p2 * (h / 2), xb = x + x2 * (h / 2);
    ThreeVector x3 = speed(m, pb), p3 = force(m, q, t + h / 2, xb, pb);
    ThreeVector pc = p + p3 * h, xc = x + x3 * h;
    ThreeVector x4 = speed(m, pc), p4 = force(m, q, t + h, xc, pc);
    X = x + (x1 + x2 * 2 + x3 * 2 + x4) * (h / 6);
    P = p + (p1 + p2 * 2 + p3 * 2 + p4) * (h / 6);
}
static void history(const Particle &p, const ThreeVector &x, const ThreeVector &q, double t, double g, bool track, long n)
{
    qv_check((long)p.GetPosHist().size() == (track ? n : 0) && (long)p.GetMomHist().size() == (track ? n : 0)
        && (long)p.GetTimeHist().size() == (track ? n : 0) && (long)p.GetGammaHist().size() == (track ? n : 0), "one history entry per push of a tracked particle");
    if (!track) return;
    same(p.GetPosHist()[n - 1], x, "history position");
    same(p.GetMomHist()[n - 1], q, "history momentum");
    qv_eq(p.GetTimeHist()[n - 1], t, "history time is the time moved to");
    qv_eq(p.GetGammaHist()[n - 1], g, "history gamma");
}
QV_CASE(lepton)
{
    AnyField f;
    double h = qv_range("dt", QV_SYM(1e-9, 1e-3), QV_SYM(1e9, 0.5));
    LorentzPusher pusher(&f, h);
    for (long k = 0; k < 2; k++)
    {
        double m = qv_range("mass", QV_SYM(1e-9, 0.5), QV_SYM(1e9, 3), k), q = qv_real("charge", k), t = qv_real("t", k), w = qv_pos("w", k);
        bool track = qv_bool("track", k);
        ThreeVector x = at("x", k), p = at("p", k), X, P;
        Lepton part(m, q, x, p, w, t, track);
        double od = part.GetOpticalDepth();
        static_cast<ParticlePusher &>(pusher).PushParticle(&part);
        rk4(m, q, h, t, x, p, X, P);
        same(part.GetPosition(), X, "Runge-Kutta step of the position");
        same(part.GetMomentum(), P, "Runge-Kutta step of the momentum");
        qv_eq(part.GetTime(), t + h, "time advances by dt");
        qv_eq(part.GetMass(), m, "mass unchanged");
        qv_eq(part.GetCharge(), q, "charge unchanged");
        qv_eq(part.GetWeight(), w, "weight unchanged");
        qv_eq(part.GetOpticalDepth(), od, "optical depth unchanged");
        qv_check(part.IsAlive() && part.GetTracking() == track, "still alive, tracking as before");
        history(part, part.GetPosition(), part.GetMomentum(), t + h, part.GetGamma(), track, 1);
    }
}
QV_CASE(photon)
{
    AnyField f;
    double h = qv_range("dt", QV_SYM(1e-9, 1e-3), QV_SYM(1e9, 2));
    LorentzPusher pusher(&f, h);
    for (long k = 0; k < 2; k++)
    {
        double t = qv_real("t", k), w = qv_pos("w", k);
        bool track = qv_bool("track", k);
        ThreeVector x = at("x", k), p = at("p", k);
        double m2 = dot(p, p);
        qv_assume(m2 > QV_SYM(0, 1e-6));
        Photon part(x, p, w, t, track);
        double od = part.GetOpticalDepth(), m = std::sqrt(m2);
        for (long n = 1; n < 3; n++)
        {
            pusher.PushParticle(&part);
            x = x + p * (h / m);
            same(part.GetPosition(), x, "a photon moves dt along its direction");
            same(part.GetMomentum(), p, "a photon's momentum is unchanged");
            qv_eq(part.GetTime(), t + n * h, "time advances by dt");
            history(part, x, p, t + n * h, m, track, n);
        }
        qv_eq(part.GetWeight(), w, "weight unchanged");
        qv_eq(part.GetOpticalDepth(), od, "optical depth unchanged");
        qv_check(part.IsAlive() && part.GetTracking() == track, "still alive, tracking as before");
    }
}
QV_CASE(dead)
{
    AnyField f;
    LorentzPusher pusher(&f, qv_pos("dt"));
    for (long k = 0; k < 2; k++)
    {
        double t = qv_real("t", k), w = qv_pos("w", k);
        ThreeVector x = at("x", k), p = at("p", k);
        Photon photon(x, p, w, t, true);
        Lepton lepton(1, -1, x, p, w, t, true);
        Particle *all[2] = {&photon, &lepton};
        for (Particle *part : all)
        {
            double od = part->GetOpticalDepth();
            part->Kill();
            pusher.PushParticle(part);
            same(part->GetPosition(), x, "a dead particle stays");
            same(part->GetMomentum(), p, "a dead particle keeps its momentum");
            qv_eq(part->GetTime(), t, "a dead particle's time stands");
            qv_eq(part->GetOpticalDepth(), od, "a dead particle keeps its optical depth");
            qv_check(part->GetPosHist().size() == 0 && part->GetMomHist().size() == 0 && part->GetTimeHist().size() == 0 && part->GetGammaHist().size() == 0, "a dead particle gets no history");
            qv_check(!part->IsAlive(), "a dead particle stays dead");
        }
    }
}
QV_CASE(magnetic_field_does_no_work)
{
    // the rate of change of p^2 under the plain pusher's force (proved above to be the one applied) without electric field
    double m = qv_pos("mass"), q = qv_real("charge");
    ThreeVector p = vec("p"), B = vec("B");
    qv_eq(dot(p, cross(speed(m, p), B) * q) / (1 + dot(p, p) + dot(B, B) + q * q), 0, "the magnetic force is perpendicular to the momentum");
}
// a pusher that records whom it is asked to push
struct Recorder : public LorentzPusher
{
    using LorentzPusher::LorentzPusher;
    void PushParticle(Particle *part) override
    {
        qv_gset("pushed", calls, 0, 0, part->GetWeight());
        calls++;
    }
    long calls = 0;
};
QV_CASE(list)
{
    AnyField f;
    long n = qv_int("n", 0, QV_SYM(1 << 30, 9));
    ParticleList list("list", n + 1);
    for (long k = 0; k < n; k++) list.AddParticle(new Photon(ThreeVector(1, 2, 3), ThreeVector(0, 0, 1), qv_real("w", k), 0, false));
    Recorder r(&f, 1);
    r.PushParticleList(&list);
    qv_check(r.calls == n, "every particle of the list is pushed exactly once");
    if (n > 0)
    {
        long i = qv_index("i", n);
        qv_eq(qv_gget("pushed", i, 0, 0), qv_real("w", i), "particles are pushed in list order");
    }
}
