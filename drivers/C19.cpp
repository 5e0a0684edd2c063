// C19: the configuration options reach their parameters in code units.
//@ sources: IO/Input/FileParser.cpp Tools/UnitsSystem.cpp
//@ nonative
//@ contract: INIReader lookups -- the stored value of an option, or the caller's default when it is absent (C18, not proved)
//@ replace: INIReader::INIReader(std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>) = open_deck
//@ replace: INIReader::INIReader(std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>> const&) = open_deck
//@ replace: INIReader::INIReader(std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>> const&) = open_deck
//@ replace: INIReader::GetSections[abi:cxx11]() const = sections
//@ replace: INIReader::HasValue(std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>> const&, std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>> const&) const = has_value
//@ replace: INIReader::GetString(std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>> const&, std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>> const&, std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>> const&) const = get_string
//@ replace: INIReader::GetReal(std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>> const&, std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>> const&, double) const = get_real
//@ replace: INIReader::GetInteger(std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>> const&, std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>> const&, long) const = get_integer
//@ replace: INIReader::GetBoolean(std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>> const&, std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>> const&, bool) const = get_boolean
//@ replace: INIReader::GetThreeVector(std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>> const&, std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>> const&, ThreeVector const&) const = get_vector
#include "qv.h"
#include "FileParser.hh"
extern "C" double qv_sreal(const char *f, const char *section, const char *option, double d);
extern "C" long qv_sint(const char *f, const char *section, const char *option, long d);
extern "C" bool qv_sbool(const char *f, const char *section, const char *option, bool d);
extern "C" const char *qv_sstr(const char *f, const char *section, const char *option, const char *d);
extern "C" bool qv_stored(const char *section, const char *option);
extern "C" bool qv_slisted(const char *section);
typedef const std::string &Name;
// the deck: which options it has, and what they hold
static bool has(Name s, Name o) { return qv_stored(s.c_str(), o.c_str()); }
static double real(Name s, Name o, double d) { return qv_sreal("real", s.c_str(), o.c_str(), d); }
static std::string text(Name s, Name o, Name d) { return qv_sstr("text", s.c_str(), o.c_str(), d.c_str()); }
static long whole(Name s, Name o, long d) { return qv_sint("whole", s.c_str(), o.c_str(), d); }
static bool flag(Name s, Name o, bool d) { return qv_sbool("flag", s.c_str(), o.c_str(), d); }
static ThreeVector triple(Name s, Name o, const ThreeVector &d)
{
    return ThreeVector(qv_sreal("x", s.c_str(), o.c_str(), d[0]), qv_sreal("y", s.c_str(), o.c_str(), d[1]), qv_sreal("z", s.c_str(), o.c_str(), d[2]));
}
extern "C" void open_deck(void*, std::string*) {}
extern "C" bool has_value(const void*, const std::string *s, const std::string *o) { return has(*s, *o); }
extern "C" std::string get_string(const void*, const std::string *s, const std::string *o, const std::string *d) { return text(*s, *o, *d); }
extern "C" double get_real(const void*, const std::string *s, const std::string *o, double d) { return real(*s, *o, d); }
extern "C" long get_integer(const void*, const std::string *s, const std::string *o, long d) { return whole(*s, *o, d); }
extern "C" bool get_boolean(const void*, const std::string *s, const std::string *o, bool d) { return flag(*s, *o, d); }
extern "C" ThreeVector get_vector(const void*, const std::string *s, const std::string *o, const ThreeVector *d) { return triple(*s, *o, *d); }
extern "C" std::vector<std::string> sections(const void*) { return std::vector<std::string>(qv_int("sections", 1, 1000000)); }

static FileParser *parse()
{
    return new FileParser("deck.ini", false);
}
static void complete()
{
    qv_assume(qv_slisted("General"));
    qv_assume(has("General", "time_step")); qv_assume(has("General", "time_end")); qv_assume(has("General", "units"));
    qv_assume(text("General", "units", "None") == "SI");
}
QV_CASE(general)
{
    complete();
    qv_assume(!qv_slisted("Field"));
    FileParser *p = parse();
    UnitsSystem u("SI");
    GeneralParameters g = p->GetGeneral();
    qv_eq(g.timeStep, real("General", "time_step", 0) / u.RefTime(), "time step");
    qv_eq(g.timeEnd, real("General", "time_end", 0) / u.RefTime(), "end time");
    qv_eqs(g.fileName, text("General", "file_name", "out.h5"), "file name");
    qv_check(g.tracking == flag("General", "tracking", false), "tracking");
    PhysicsParameters f = p->GetPhysics();
    qv_eqs(f.Physics, text("Physics", "radiation_model", ""), "radiation model");
    qv_eq(f.MinEnergy, real("Physics", "min_energy", 0) / u.RefEnergy(), "minimum energy");
    qv_eq(f.SampleFraction, real("Physics", "sample_fraction", 1), "sample fraction");
    qv_check(f.PairProduction == flag("Physics", "pair_production", false), "pair production");
}
static void vec(const ThreeVector &v, const ThreeVector &want, double ref, const char *what)
{
    for (int i = 0; i < 3; i++) qv_eq(v[i], want[i] / ref, what);
}
static void field(const char *type)
{
    complete();
    qv_assume(qv_slisted("Field"));
    qv_assume(text("Field", "field_type", "") == type);
    qv_assume(!qv_slisted("Particle1")); qv_assume(!qv_slisted("Histogram1"));
}
QV_CASE(static_field)
{
    field("static");
    FieldParameters f = parse()->GetField();
    UnitsSystem u("SI");
    qv_eqs(f.Type, "static", "field type");
    vec(f.E, triple("Field", "e_field", ThreeVector(0, 0, 0)), u.RefEField(), "electric field");
    vec(f.B, triple("Field", "b_field", ThreeVector(0, 0, 0)), u.RefBField(), "magnetic field");
}
QV_CASE(plane_field)
{
    field("plane");
    FieldParameters f = parse()->GetField();
    UnitsSystem u("SI");
    qv_eqs(f.Type, "plane", "field type");
    qv_eq(f.MaxE, real("Field", "e_max", 0) / u.RefEField(), "amplitude");
    qv_eq(f.Wavelength, real("Field", "wavelength", 1) / u.RefLength(), "wavelength");
    vec(f.Direction, triple("Field", "direction", ThreeVector(0, 0, 1)), 1, "direction");
    qv_eq(f.Polerisation, real("Field", "polerisation", 0), "polarisation");
}
static void pulse(const char *type)
{
    field(type);
    FieldParameters f = parse()->GetField();
    UnitsSystem u("SI");
    qv_eqs(f.Type, type, "field type");
    qv_eq(f.MaxE, real("Field", "e_max", 0) / u.RefEField(), "amplitude");
    qv_eq(f.Wavelength, real("Field", "wavelength", 1) / u.RefLength(), "wavelength");
    qv_eq(f.Duration, real("Field", "duration", 1) / u.RefTime(), "duration");
    qv_eq(f.Waist, real("Field", "waist", 1) / u.RefLength(), "waist");
    qv_eq(f.Polerisation, real("Field", "polerisation", 0), "polarisation");
    vec(f.Start, triple("Field", "start", ThreeVector(0, 0, 0)), u.RefLength(), "start");
    vec(f.Focus, triple("Field", "focus", ThreeVector(0, 0, 0)), u.RefLength(), "focus");
}
QV_CASE(gaussian_field) { pulse("gaussian"); }
QV_CASE(focusing_field) { pulse("focusing"); }
QV_CASE(unknown_field)
{
    complete();
    qv_assume(qv_slisted("Field"));
    std::string t = text("Field", "field_type", "");
    qv_assume(t != "static"); qv_assume(t != "plane"); qv_assume(t != "gaussian"); qv_assume(t != "focusing");
    qv_may_exit(true);
    parse();
    qv_check(false, "an unknown field type is refused");
}
static void refused(const char *what)
{
    qv_may_exit(true);
    parse();
    qv_check(false, what);
}
QV_CASE(no_general) { qv_assume(!qv_slisted("General")); refused("a deck without general section is refused"); }
QV_CASE(no_step) { qv_assume(!has("General", "time_step")); refused("a deck without time step is refused"); }
QV_CASE(no_end) { qv_assume(!has("General", "time_end")); refused("a deck without end time is refused"); }
QV_CASE(no_units) { qv_assume(!has("General", "units")); refused("a deck without units is refused"); }
QV_CASE(particles)
{
    complete();
    qv_assume(!qv_slisted("Field")); qv_assume(!qv_slisted("Histogram1"));
    std::vector<ParticleParameters> all = parse()->GetParticle();
    UnitsSystem u("SI");
    long n = all.size();
    qv_check(!qv_slisted(("Particle" + std::to_string(n + 1)).c_str()), "sections are read up to the first missing number");
    if (n == 0) return;
    long i = qv_index("k", n);
    std::string s = "Particle" + std::to_string(i + 1);
    qv_check(qv_slisted(s.c_str()), "only sections of the deck are read");
    const ParticleParameters &p = all[i];
    long number = whole(s, "number_particles", 1);
    qv_assume(number >= 0); qv_assume(number < (1L << 31));
    qv_check(p.Number == number, "number of particles");
    qv_eqs(p.Name, text(s, "name", s), "name");
    qv_eqs(p.Type, text(s, "particle_type", "Electron"), "particle type");
    qv_eqs(p.Distro, text(s, "energy_distribution", "mono"), "energy distribution");
    vec(p.Position, triple(s, "position", ThreeVector(0, 0, 0)), u.RefLength(), "position");
    vec(p.Direction, triple(s, "direction", ThreeVector(0, 0, 1)), 1, "direction");
    qv_eq(p.Energy1, real(s, "energy_mean", 0) / u.RefEnergy(), "mean energy");
    qv_eq(p.Energy2, real(s, "energy_sig", 0) / u.RefEnergy(), "energy spread");
    qv_eq(p.Radius, real(s, "radius", 0) / u.RefLength(), "radius");
    qv_eq(p.Divergence, real(s, "divergence", 0), "divergence");
    qv_eq(p.Duration, real(s, "duration", 0) / u.RefTime(), "bunch duration");
    qv_eq(p.Output, flag(s, "output", false), "output");
}
QV_CASE(histograms)
{
    complete();
    qv_assume(!qv_slisted("Field")); qv_assume(!qv_slisted("Particle1"));
    std::vector<HistogramParameters> all = parse()->GetHistograms();
    UnitsSystem u("SI");
    long n = all.size();
    qv_check(!qv_slisted(("Histogram" + std::to_string(n + 1)).c_str()), "sections are read up to the first missing number");
    if (n == 0) return;
    long i = qv_index("k", n);
    std::string s = "Histogram" + std::to_string(i + 1);
    qv_check(qv_slisted(s.c_str()), "only sections of the deck are read");
    const HistogramParameters &h = all[i];
    qv_eqs(h.Name, text(s, "name", s), "name");
    qv_eqs(h.Particle, text(s, "particle", ""), "particle");
    qv_eqs(h.Type, text(s, "type", ""), "quantity");
    qv_eq(h.Time, real(s, "time", 0) / u.RefTime(), "time");
    long bins = whole(s, "bins", 1);
    qv_assume(bins >= 0); qv_assume(bins < (1L << 31));
    qv_check(h.Bins == bins, "number of bins");
    qv_eq(h.MinBin, real(s, "min_bin", 0), "first bin");
    qv_eq(h.MaxBin, real(s, "max_bin", 1), "last bin");
}
