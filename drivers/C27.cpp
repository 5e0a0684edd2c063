// C27: what a run builds after any sequence of set-up calls.
//@ sources: Python/RunManager.cpp Physics/ParticlePushers/ParticlePusher.cpp Particles/Particle.cpp Particles/Photon.cpp Particles/Lepton.cpp Particles/ParticleList.cpp Tools/UnitsSystem.cpp
//@ flags: -I/usr/include/python3.12
//@ nonative
//@ contract: GaussianEMField, FocusingField, pusher, emission, pair production and SourceGenerator constructors -- record what they are given (their behaviour: C06 to C16)
//@ contract: SourceGenerator::GenerateList -- hands over the event's list (C16); ParticlePusher::PushParticle -- one call per particle and step (C10)
//@ contract: MCTools::RandDouble -- a value in [low, high) per draw (C04)
//@ replace: MCTools::RandDouble(double, double) = uniform
//@ replace: GaussianEMField::GaussianEMField(double, double, double, double, double, ThreeVector const&, ThreeVector const&) = make_gaussian
//@ replace: FocusingField::FocusingField(double, double, double, double, double, ThreeVector const&, ThreeVector const&) = make_focusing
//@ replace: LandauPusher::LandauPusher(EMField*, double) = make_landau
//@ replace: ModifiedLandauPusher::ModifiedLandauPusher(EMField*, double) = make_modified
//@ replace: LorentzPusher::LorentzPusher(EMField*, double) = make_lorentz
//@ replace: ContinuousEmission::ContinuousEmission(EMField*, double, bool, double, double, bool) = make_continuous
//@ replace: StochasticEmission::StochasticEmission(EMField*, double, double, double, bool) = make_stochastic
//@ replace: NonLinearBreitWheeler::NonLinearBreitWheeler(EMField*, double, bool) = make_pairs
//@ replace: SourceGenerator::SourceGenerator(std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>, std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>, unsigned int, double, double, double, double, double, ThreeVector const&, ThreeVector const&, bool) = make_source
//@ replace: SourceGenerator::~SourceGenerator() = drop_source
//@ replace: SourceGenerator::GetSourceNumber() = source_number
//@ replace: SourceGenerator::GetSourceNumber() const = source_number
//@ replace: SourceGenerator::GenerateList() = next_event
//@ replace: SourceGenerator::FreeSources(ParticleList*) = drop_event
//@ replace: ParticlePusher::PushParticle(Particle*) = push
#include "qv.h"
#include "RunManager.hh"
#include "GaussianEMField.hh"
#include "FocusingField.hh"
#include "ContinuousEmission.hh"
#include "StochasticEmission.hh"
#include "NonLinearBreitWheeler.hh"
#include "LorentzPusher.hh"
#include "LandauPusher.hh"
#include "ModifiedLandauPusher.hh"
#include "Photon.hh"
#include <new>

enum { NONE, GAUSSIAN, FOCUSING, LANDAU, MODIFIED, LORENTZ, CLASSICAL, QUANTUM, STOCHASTIC };
// what was built
static long field = NONE, pusher = NONE, emission = NONE, pairs = 0, sources = 0, events = 0, pushes = 0;
static double fArg[11], pDt, eDt, eFrac, eMin, wDt, sArg[11];
static long sN = 0;
static bool eTrack, sTrack, wTrack;
static EMField *built = nullptr, *pField = nullptr, *eField = nullptr, *wField = nullptr;
static const char *sourceType = nullptr, *sourceDist = nullptr;
static ParticleList *list = nullptr;
static long nEvents = 0;
static double step = 1, stop = 0;

struct SomeField : public EMField
{
    void GetField(double, const ThreeVector&, ThreeVector&, ThreeVector&) const {}
};
struct SomePusher : public ParticlePusher
{
    SomePusher() : ParticlePusher(nullptr, 0) {}
    ThreeVector PushMomentum(double, double, const ThreeVector &p, const ThreeVector&, const ThreeVector&) const { return p; }
};
struct SomeProcess : public Process
{
    SomeProcess() : Process(nullptr, 0, false) {}
    void Interact(Particle*, ParticleList*) const {}
};
static void note(void *self, long kind, double a, double b, double c, double d, double e, const ThreeVector &s, const ThreeVector &f)
{
    field = kind;
    fArg[0] = a; fArg[1] = b; fArg[2] = c; fArg[3] = d; fArg[4] = e;
    for (int i = 0; i < 3; i++) { fArg[5 + i] = s[i]; fArg[8 + i] = f[i]; }
    built = new (self) SomeField();
}
extern "C" void make_gaussian(void *self, double a, double b, double c, double d, double e, const ThreeVector *s, const ThreeVector *f) { note(self, GAUSSIAN, a, b, c, d, e, *s, *f); }
extern "C" void make_focusing(void *self, double a, double b, double c, double d, double e, const ThreeVector *s, const ThreeVector *f) { note(self, FOCUSING, a, b, c, d, e, *s, *f); }
static void drive(void *self, long kind, EMField *f, double dt) { pusher = kind; pField = f; pDt = dt; new (self) SomePusher(); }
extern "C" void make_landau(void *self, EMField *f, double dt) { drive(self, LANDAU, f, dt); }
extern "C" void make_modified(void *self, EMField *f, double dt) { drive(self, MODIFIED, f, dt); }
extern "C" void make_lorentz(void *self, EMField *f, double dt) { drive(self, LORENTZ, f, dt); }
static void emit(void *self, long kind, EMField *f, double dt, double frac, double min, bool track)
{
    emission = kind; eField = f; eDt = dt; eFrac = frac; eMin = min; eTrack = track;
    new (self) SomeProcess();
}
extern "C" void make_continuous(void *self, EMField *f, double dt, bool classical, double frac, double min, bool track) { emit(self, classical ? CLASSICAL : QUANTUM, f, dt, frac, min, track); }
extern "C" void make_stochastic(void *self, EMField *f, double dt, double frac, double min, bool track) { emit(self, STOCHASTIC, f, dt, frac, min, track); }
extern "C" void make_pairs(void *self, EMField *f, double dt, bool track) { pairs++; wField = f; wDt = dt; wTrack = track; new (self) SomeProcess(); }
extern "C" void make_source(void *self, std::string *type, std::string *dist, unsigned int n, double e1, double e2, double r, double tau, double div,
    const ThreeVector *x, const ThreeVector *d, bool track)
{
    sources++; sN = n; sTrack = track;
    qv_eqs(*type, sourceType, "the source is of the configured particle type");
    qv_eqs(*dist, sourceDist, "the source has the configured energy distribution");
    sArg[0] = e1; sArg[1] = e2; sArg[2] = r; sArg[3] = tau; sArg[4] = div;
    for (int i = 0; i < 3; i++) { sArg[5 + i] = (*x)[i]; sArg[8 + i] = (*d)[i]; }
}
extern "C" void drop_source(void*) {}
extern "C" unsigned int source_number(void*) { return sN; }
extern "C" ParticleList *next_event(void*) { events++; return list; }
extern "C" void drop_event(void*, ParticleList*) {}
extern "C" void push(void*, Particle*)
{
    qv_check(pushes * step < stop, "no step starts at or after the end time");
    pushes++;
}

extern "C" double uniform(double low, double high) { return 0.5 * (low + high); }
static ThreeVector vec(const char *n, long k) { return ThreeVector(qv_real(n, k, 0), qv_real(n, k, 1), qv_real(n, k, 2)); }
static const UnitsSystem *u = nullptr;
// the settings in force, in code units
static double dt, end, frac, fWant[11], sWant[11];
static bool pairWanted, fieldReady, physReady, genReady, timeReady;
static long fieldWant, pusherWant, emissionWant;

static void setTime(RunManager &m, long k)
{
    double a = qv_pos("step", k), b = qv_pos("end", k);
    m.setTime(a, b);
    dt = a / u->RefTime(); end = b / u->RefTime(); timeReady = true;
}
static void setField(RunManager &m, long k)
{
    long c = qv_choose("field", 5, k);
    const char *other = qv_str("other field", k);
    std::string name = c == 0 ? "gaussian" : c == 1 ? "Gaussian" : c == 2 ? "focusing" : c == 3 ? "Focusing" : other;
    if (c == 4)
    {
        qv_assume(name != "gaussian"); qv_assume(name != "Gaussian"); qv_assume(name != "focusing"); qv_assume(name != "Focusing");
    }
    double a = qv_real("amplitude", k), l = qv_real("wavelength", k), d = qv_real("duration", k), w = qv_real("waist", k), p = qv_real("polarisation", k);
    ThreeVector s = vec("start", k), f = vec("focus", k);
    m.setField(name, a, l, d, w, p, s, f);
    fieldReady = c < 4;
    if (!fieldReady) return;
    fieldWant = c < 2 ? GAUSSIAN : FOCUSING;
    fWant[0] = a / u->RefEField(); fWant[1] = l / u->RefLength(); fWant[2] = d / u->RefTime(); fWant[3] = w / u->RefLength(); fWant[4] = p;
    for (int i = 0; i < 3; i++) { fWant[5 + i] = s[i] / u->RefLength(); fWant[8 + i] = f[i] / u->RefLength(); }
}
static void setPhysics(RunManager &m, long k)
{
    long c = qv_choose("physics", 7, k);
    const char *other = qv_str("other physics", k);
    std::string name = c == 0 ? "classical" : c == 1 ? "Classical" : c == 2 ? "semiclassical" : c == 3 ? "Semiclassical" : c == 4 ? "quantum" : c == 5 ? "Quantum" : other;
    if (c == 6)
    {
        qv_assume(name != "classical"); qv_assume(name != "Classical"); qv_assume(name != "semiclassical");
        qv_assume(name != "Semiclassical"); qv_assume(name != "quantum"); qv_assume(name != "Quantum");
    }
    m.setPhysics(name);
    physReady = c < 6;
    if (!physReady) return;
    pusherWant = c < 2 ? LANDAU : c < 4 ? MODIFIED : LORENTZ;
    emissionWant = c < 2 ? CLASSICAL : c < 4 ? QUANTUM : STOCHASTIC;
}
static void setGenerator(RunManager &m, long k)
{
    sourceType = qv_str("type", k); sourceDist = qv_str("distribution", k);
    double e1 = qv_real("energy 1", k), e2 = qv_real("energy 2", k), r = qv_real("radius", k), t = qv_real("bunch", k), d = qv_real("divergence", k);
    ThreeVector x = vec("position", k), n = vec("direction", k);
    m.setGenerator(sourceType, sourceDist, e1, e2, r, t, d, x, n);
    genReady = true;
    sWant[0] = e1 / u->RefEnergy(); sWant[1] = e2 / u->RefEnergy(); sWant[2] = r / u->RefLength(); sWant[3] = t / u->RefTime(); sWant[4] = d;
    for (int i = 0; i < 3; i++) { sWant[5 + i] = x[i] / u->RefLength(); sWant[8 + i] = n[i]; }
}
static void setFraction(RunManager &m, long k)
{
    double f = qv_real("fraction", k);
    m.setSampleFraction(f);
    if (f >= 0) { if (f <= 1) frac = f; }
}
static void setPairs(RunManager &m, long k)
{
    bool b = qv_bool("pairs", k);
    m.usePairProduction(b);
    pairWanted = b;
}
static void built_nothing()
{
    qv_check(field == NONE, "nothing is built without complete settings");
    qv_check(pusher == NONE, "nothing is built without complete settings");
    qv_check(emission == NONE, "nothing is built without complete settings");
    qv_check(sources == 0, "nothing is built without complete settings");
    qv_check(events == 0, "nothing runs without complete settings");
}
static void run(RunManager &m)
{
    long n = qv_int("events", 0, 1L << 30);
    ParticleList l("event");
    list = &l;
    step = dt; stop = end;
    m.beamOn(0, 1);
    if (!timeReady) { built_nothing(); return; }
    if (!fieldReady) { built_nothing(); return; }
    if (!physReady) { built_nothing(); return; }
    if (!genReady) { built_nothing(); return; }
    qv_check(field == fieldWant, "the configured kind of field");
    for (int i = 0; i < 11; i++) qv_eq(fArg[i], fWant[i], "field settings in code units");
    qv_check(pusher == pusherWant, "the pusher of the configured model");
    qv_check(pField == built, "the pusher uses the configured field");
    qv_eq(pDt, dt, "the pusher uses the configured time step");
    qv_check(emission == emissionWant, "the emission process of the configured model");
    qv_check(eField == built, "the emission uses the configured field");
    qv_eq(eDt, dt, "the emission uses the configured time step");
    qv_eq(eFrac, frac, "sampling fraction");
    qv_eq(eMin, 0, "no photon energy threshold");
    qv_check(!eTrack, "no tracking");
    qv_check(pairs == (pairWanted ? 1 : 0), "pair production exactly when requested");
    if (pairs == 1)
    {
        qv_check(wField == built, "pair production uses the configured field");
        qv_eq(wDt, dt, "pair production uses the configured time step");
    }
    qv_check(sources == 1, "one source");
    qv_check(sN == 0, "the source has the requested number of events");
    for (int i = 0; i < 11; i++) qv_eq(sArg[i], sWant[i], "source settings in code units");
}
static void fresh()
{
    static UnitsSystem si("SI");
    u = &si;
    frac = 1; pushes = 0;
    pairWanted = fieldReady = physReady = genReady = timeReady = false;
}
QV_CASE(kind_of_field)
{
    fresh();
    RunManager m;
    setTime(m, 0); setPhysics(m, 0); setGenerator(m, 0); setFraction(m, 0); setPairs(m, 0);
    setField(m, 0);
    run(m);
}
QV_CASE(physics_model)
{
    fresh();
    RunManager m;
    setTime(m, 0); setPhysics(m, 0); setGenerator(m, 0);
    setField(m, 0);
    run(m);
}
// every setting is made, then one of them again: the others stay as they were
QV_CASE(again)
{
    fresh();
    RunManager m;
    long which = qv_choose("which", 6);
    setPairs(m, 0); setFraction(m, 0); setTime(m, 0); setGenerator(m, 0);
    m.setPhysics("quantum"); physReady = true; pusherWant = LORENTZ; emissionWant = STOCHASTIC;
    {
        double a = qv_real("amplitude", 0), l = qv_real("wavelength", 0), d = qv_real("duration", 0), w = qv_real("waist", 0), p = qv_real("polarisation", 0);
        ThreeVector s = vec("start", 0), f = vec("focus", 0);
        m.setField("gaussian", a, l, d, w, p, s, f);
        fieldReady = true; fieldWant = GAUSSIAN;
        fWant[0] = a / u->RefEField(); fWant[1] = l / u->RefLength(); fWant[2] = d / u->RefTime(); fWant[3] = w / u->RefLength(); fWant[4] = p;
        for (int i = 0; i < 3; i++) { fWant[5 + i] = s[i] / u->RefLength(); fWant[8 + i] = f[i] / u->RefLength(); }
    }
    if (which == 0) setTime(m, 1);
    if (which == 1) setField(m, 1);
    if (which == 2) setPhysics(m, 1);
    if (which == 3) setGenerator(m, 1);
    if (which == 4) setFraction(m, 1);
    if (which == 5) setPairs(m, 1);
    run(m);
}
// some settings are missing
QV_CASE(incomplete)
{
    fresh();
    RunManager m;
    if (qv_choose("time set", 2) == 1) setTime(m, 0);
    if (qv_choose("field set", 2) == 1) setField(m, 0);
    if (qv_choose("physics set", 2) == 1) setPhysics(m, 0);
    if (qv_choose("source set", 2) == 1) setGenerator(m, 0);
    run(m);
}
// a second run, with other settings
QV_CASE(second_run)
{
    fresh();
    RunManager m;
    setTime(m, 0); m.setPhysics("Semiclassical"); setGenerator(m, 0);
    m.setField("Focusing", 1, 1, 1, 1, 0, ThreeVector(0, 0, 0), ThreeVector(0, 0, 1));
    m.usePairProduction(true);
    ParticleList l("event");
    list = &l;
    m.beamOn(0, 1);
    qv_check(pairs == 1, "pair production in the first run");
    field = pusher = emission = NONE; pairs = sources = 0;
    setTime(m, 1); setPhysics(m, 1); setGenerator(m, 1); setFraction(m, 1); setPairs(m, 1); setField(m, 1);
    run(m);
}
// one event of one particle: a step starts at 0, dt, 2 dt, ... up to the end time
QV_CASE(steps)
{
    fresh();
    RunManager m;
    setTime(m, 0); m.setPhysics("quantum"); setGenerator(m, 0);
    m.setField("gaussian", 1, 1, 1, 1, 0, ThreeVector(0, 0, 0), ThreeVector(0, 0, 1));
    list = new ParticleList("event");
    list->AddParticle(new Photon(ThreeVector(0, 0, 0), ThreeVector(0, 0, 1)));
    step = dt; stop = end;
    m.beamOn(1, 1);
    qv_check(events == 1, "one event");
    qv_check(pushes * step >= stop, "every step before the end time is made");
}
