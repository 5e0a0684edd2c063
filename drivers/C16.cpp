// C16: particle sources.
//@ sources: Particles/SourceGenerator.cpp Particles/ParticleList.cpp Particles/Particle.cpp Particles/Photon.cpp Particles/Lepton.cpp Tools/Numerics.cpp
//@ contract: MCTools::RandDouble -- a value in [low, high) per draw (C04)
//@ contract: MCTools::SampleNorm, MCTools::SampleUniform -- n draws mean + deviation * standard, low + (high - low) * standard (C04)
//@ contract: ThreeVector::RotateToAxis -- from the z axis: the rotation of the beam frame (case beam_frame)
//@ replace: ThreeVector::RotateToAxis(ThreeVector const&) const = to_beam
//@ contract: Photon and Lepton constructors from an energy and a unit direction -- the momentum of that energy along the direction (C09; the direction is proved to be a unit vector)
//@ replace: Photon::Photon(double, ThreeVector const&, ThreeVector const&, double, double, bool) = make_photon
//@ replace: Lepton::Lepton(double, double, double, ThreeVector const&, ThreeVector const&, double, double, bool) = make_lepton
//@ assume: the spreads and ranges handed to the samplers are pairwise different (so a sample is recognised by what it was drawn for)
#include "qv.h"
#include "wave.h"
#include "draws.h"
#include "SourceGenerator.hh"
#include "Photon.hh"
#include "Lepton.hh"
#include "UnitsSystem.hh"
#include <new>

static double sq(double x) { return x * x; }
// columns: the beam frame of the direction unit("beam")
static ThreeMatrix beam()
{
    ThreeVector e[3];
    frame("beam", e[0], e[1], e[2]);
    ThreeMatrix r;
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r[i][j] = e[j][i];
    return r;
}
static bool original = false;
#ifdef QV_SYMBOLIC
extern "C" ThreeMatrix to_beam(const ThreeVector *from, const ThreeVector *axis)
{
    if (!original && (*from)[0] == 0 && (*from)[1] == 0 && (*from)[2] > 0)
    {
        ThreeVector n = unit("beam"), c = cross(*axis, n);
        for (int i = 0; i < 3; i++) qv_eq(c[i], 0, "the beam frame is that of the beam direction");
        qv_check(dot(*axis, n) > 0, "the beam frame is that of the beam direction");
        return beam();
    }
    return from->RotateToAxis(*axis);
}
extern "C" void make_photon(Photon *self, double energy, const ThreeVector *x, const ThreeVector *dir, double w, double t, bool track)
{
    qv_eq(dot(*dir, *dir), 1, "a unit direction");
    new (self) Photon(*x, energy * *dir, w, t, track);
}
extern "C" void make_lepton(Lepton *self, double m, double q, double energy, const ThreeVector *x, const ThreeVector *dir, double w, double t, bool track)
{
    qv_eq(dot(*dir, *dir), 1, "a unit direction");
    new (self) Lepton(m, q, *x, std::sqrt(energy * energy - m * m) * *dir, w, t, track);
}
#endif
QV_CASE(beam_frame)
{
    original = true;
    ThreeMatrix r = ThreeVector(0, 0, qv_range("length", QV_SYM(1e-300, 0.1), QV_SYM(1e300, 10))).RotateToAxis(unit("beam") * qv_range("scale", QV_SYM(1e-300, 0.1), QV_SYM(1e300, 10))), b = beam();
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) eqs(r[i][j], b[i][j], 1, "rotation into the beam frame");
}
// the configured source
struct Config
{
    long kind, family;
    double e1, e2, size, tau, tilt;
    ThreeVector centre;
    long n, scale;
    bool track;
};
static Config cfg;
static long sideways = 0;
enum { XY = 1, Z = 3, THETA = 4, PHI = 5, ENERGY = 6 };
// standard draws, one family per use
static double standard(long use, long i) { return use >= PHI && !(use == ENERGY && cfg.family == 0) ? qv_range("uniform", 0, QV_SYM(1, 0.999), use, i) : qv_real("normal", use, i); }
static double offset(long use, long i)
{
    switch (use)
    {
        case XY: case XY + 1: return cfg.size * standard(use, i);
        case Z: return cfg.tau * standard(use, i);
        case THETA: return cfg.tilt * standard(use, i);
        case PHI: return 2 * UnitsSystem::pi * standard(use, i);
    }
    return cfg.family == 0 ? cfg.e1 + cfg.e2 * standard(use, i) : cfg.e1 + (cfg.e2 - cfg.e1) * standard(use, i);
}
static std::vector<double> drawn(long use, unsigned n)
{
    qv_check((long)n == cfg.n, "one draw of each kind per primary");
    std::vector<double> v(n);
    for (unsigned i = 0; i < n; i++) v[i] = offset(use, i);
    return v;
}
std::vector<double> MCTools::SampleNorm(double mean, double sig, unsigned int n)
{
    if (mean == 0 && sig == cfg.size) return drawn(XY + sideways++, n);
    if (mean == 0 && sig == cfg.tau) return drawn(Z, n);
    if (mean == 0 && sig == cfg.tilt) return drawn(THETA, n);
    qv_check(cfg.family == 0 && mean == cfg.e1 && sig == cfg.e2, "normal draws are for the offsets, the tilt or a gaussian energy");
    return drawn(ENERGY, n);
}
std::vector<double> MCTools::SampleUniform(double low, double high, unsigned int n)
{
    if (low == 0) { qv_eq(high, 2 * UnitsSystem::pi, "the azimuth is uniform over a full turn"); return drawn(PHI, n); }
    qv_check(cfg.family == 1 && low == cfg.e1 && high == cfg.e2, "uniform draws are for the azimuth or a linear energy");
    return drawn(ENERGY, n);
}
static const char *types[] = {"Photon", "photon", "Electron", "electron", "Positron", "positron"};
static const char *families[] = {"gaussian", "Gaussian", "linear", "Linear"};
static SourceGenerator *source(long type, long distro, const ThreeVector &dir, double scale)
{
    cfg.kind = type / 2;
    cfg.family = distro / 2;
    cfg.n = qv_int("primaries", 1, QV_SYM(4000000000L, 20));
    cfg.e1 = qv_range("energy", QV_SYM(1, 2), QV_SYM(1e300, 50), 1);
    cfg.e2 = qv_range("energy", QV_SYM(0, 60), QV_SYM(1e300, 70), 2);
    cfg.size = qv_range("size", QV_SYM(0, .1), QV_SYM(1e300, 10));
    cfg.tau = qv_range("duration", QV_SYM(0, .1), QV_SYM(1e300, 10));
    cfg.tilt = qv_range("divergence", QV_SYM(0, .1), QV_SYM(1e300, 10));
    qv_assume(cfg.size != cfg.tau && cfg.size != cfg.tilt && cfg.tau != cfg.tilt);
    cfg.centre = vec("centre");
    sideways = 0;
    cfg.track = qv_bool("track");
    return new SourceGenerator(types[type], families[distro], cfg.n, cfg.e1, cfg.e2, cfg.size, cfg.tau, cfg.tilt, cfg.centre, dir * scale, cfg.track);
}
// the k-th event holds one particle, made of the k-th draws
static void event(ParticleList *l, long k)
{
    qv_check(l->GetNPart() == 1, "one particle per event");
    Particle *p = l->GetParticle(0);
    qv_check(p->GetType() == (cfg.kind == 0 ? "Photon" : "Lepton") && p->GetName() == (cfg.kind == 0 ? "Photon" : cfg.kind == 1 ? "Electron" : "Positron"), "a particle of the configured type");
    qv_eq(p->GetWeight(), 1, "weight one");
    qv_eq(p->GetTime(), 0, "time zero");
    qv_check(p->IsAlive() && p->GetTracking() == cfg.track, "alive and tracked as configured");
    ThreeVector e1, e2, n;
    frame("beam", e1, e2, n);
    double a = offset(THETA, k), b = offset(PHI, k), E = offset(ENERGY, k);
    same(p->GetPosition(), cfg.centre + e1 * offset(XY, k) + e2 * offset(XY + 1, k) + n * offset(Z, k), "the centre plus transverse and longitudinal offsets");
    ThreeVector d = e1 * (std::sin(a) * std::cos(b)) + e2 * (std::sin(a) * std::sin(b)) + n * std::cos(a);
    same(p->GetMomentum(), d * (cfg.kind == 0 ? E : std::sqrt(E * E - 1)), "the drawn energy along the beam tilted by the drawn angles");
}
static void nth(const ThreeVector &dir, double scale)
{
    original = false;
    long type = qv_choose("type", 6), distro = qv_choose("distribution", 4);
    SourceGenerator *s = source(type, distro, dir, scale);
    qv_check((long)s->GetSourceNumber() == cfg.n, "number of primaries");
    long k = qv_index("k", cfg.n);
    qv_assume(cfg.kind == 0 ? offset(ENERGY, k) > 0 : offset(ENERGY, k) > QV_SYM(1, 1.1));
    for (long i = 0; i < k; i++) s->FreeSources(s->GenerateList());
    event(s->GenerateList(), k);
}
QV_CASE(nth_event) { nth(unit("beam"), qv_range("scale", QV_SYM(1e-6, 0.1), QV_SYM(1e6, 10))); }
// any history of one source, then one more event than configured
QV_CASE(depleted)
{
    original = true;
    SourceGenerator *s = source(qv_choose("type", 3) * 2, 2, ThreeVector(0, 0, 1), 1);
    if (cfg.kind) qv_assume(cfg.e2 > cfg.e1);
    for (long i = 0; i < cfg.n; i++) s->FreeSources(s->GenerateList());
    qv_may_exit(true);
    s->GenerateList();
    qv_check(false, "more events than configured are refused");
}
QV_CASE(unknown_type)
{
    qv_may_exit(true);
    original = true;
    cfg.n = 1;
    std::string t = qv_str("type");
    for (int i = 0; i < 6; i++) qv_assume(t != types[i]);
    sideways = 0;
    cfg.family = 1;
    cfg.e1 = 1;
    cfg.e2 = 2;
    cfg.size = 3;
    cfg.tau = 4;
    cfg.tilt = 5;
    SourceGenerator s(t, "linear", 1, 1, 2, 3, 4, 5, ThreeVector(0, 0, 0), ThreeVector(0, 0, 1));
    s.GenerateList();
    qv_check(false, "an unknown particle type is refused");
}
// without divergence and size every primary starts at the centre, along the beam
QV_CASE(pencil)
{
    original = false;
    long type = qv_choose("type", 3);
    ThreeVector c = vec("centre"), n = unit("beam");
    long count = qv_int("primaries", 1, QV_SYM(4000000000L, 20));
    double e = qv_range("energy", QV_SYM(1, 2), QV_SYM(1e300, 50));
    cfg.family = 1;
    cfg.n = count;
    cfg.size = cfg.tau = cfg.tilt = 0;
    cfg.e1 = e;
    cfg.e2 = e;
    sideways = 0;
    SourceGenerator s(types[2 * type], "linear", count, e, e, 0, 0, 0, c, n * qv_range("scale", QV_SYM(1e-6, 0.1), QV_SYM(1e6, 10)));
    long k = qv_index("k", count);
    for (long i = 0; i < k; i++) s.FreeSources(s.GenerateList());
    ParticleList *l = s.GenerateList();
    qv_check(l->GetNPart() == 1, "one particle per event");
    Particle *p = l->GetParticle(0);
    same(p->GetPosition(), c, "starts at the centre");
    same(p->GetMomentum(), n * (type == 0 ? e : std::sqrt(e * e - 1)), "the configured energy along the beam");
}
