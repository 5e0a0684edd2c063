// C05: the unit system.
//@ sources: Tools/UnitsSystem.cpp
#include "qv.h"
#include <cstring>
#include "UnitsSystem.hh"

// CODATA 2014 values, written independently of the code
static const double C = 299792458.0, ME = 9.10938356e-31, QE = 1.6021766208e-19, HBAR = 1.054571800e-34;
static void close(double a, double b, double tol, const char *what) { qv_check(a >= b * (1 - tol) && a <= b * (1 + tol), what); }

static void coherent(const UnitsSystem &u)
{
    double f = u.RefFrequency(), t = u.RefTime(), l = u.RefLength(), e = u.RefEField(), b = u.RefBField(), p = u.RefMomentum(), w = u.RefEnergy();
    qv_check(f > 0, "reference frequency is positive");
    qv_check(t > 0, "reference time is positive");
    qv_check(l > 0, "reference length is positive");
    qv_check(e > 0, "reference electric field is positive");
    qv_check(b > 0, "reference magnetic field is positive");
    qv_check(p > 0, "reference momentum is positive");
    qv_check(w > 0, "reference energy is positive");
    close(f * t, 1, 1e-12, "frequency times time is one");
    close(l, C * t, 1e-9, "length is c times time");
    close(w, C * p, 1e-9, "energy is c times momentum");
    close(w, ME * C * C, 1e-6, "energy is the electron rest energy");
    close(e, ME * ME * C * C * C / (QE * HBAR), 1e-5, "the electric reference field is the Schwinger field");
    close(e, C * b, 1e-9, "electric reference field is c times the magnetic one");
    close(QE * e * t, p, 1e-6, "an elementary charge gains the reference momentum in the reference field in the reference time");
    close(u.G4Time() * t, 1e-9, 1e-9, "Geant time unit is one nanosecond");
    close(u.G4Length() * l, 1e-3, 1e-9, "Geant length unit is one millimetre");
    close(u.G4Energy() * w, 1e6 * QE, 1e-6, "Geant energy unit is one MeV");
}
QV_CASE(si)
{
    UnitsSystem u("SI");
    coherent(u);
    UnitsSystem v("si");
    coherent(v);
    qv_eq(v.RefTime(), u.RefTime(), "both spellings give the same system");
    qv_eq(v.RefLength(), u.RefLength(), "both spellings give the same system");
    qv_eq(v.RefEnergy(), u.RefEnergy(), "both spellings give the same system");
    qv_eq(v.RefMomentum(), u.RefMomentum(), "both spellings give the same system");
    qv_eq(v.RefEField(), u.RefEField(), "both spellings give the same system");
    qv_eq(v.RefBField(), u.RefBField(), "both spellings give the same system");
    UnitsSystem w(u);
    coherent(w);
}
QV_CASE(constants)
{
    close(UnitsSystem::pi, 3.14159265358979, 1e-11, "pi");
    close(UnitsSystem::e, 2.71828182845905, 1e-11, "Euler's number");
    close(UnitsSystem::alpha, 1 / 137.035999139, 1e-8, "fine structure constant");
    close(UnitsSystem::SI_c, C, 1e-9, "speed of light");
    close(UnitsSystem::SI_me, ME, 1e-6, "electron mass");
    close(UnitsSystem::SI_qe, QE, 1e-6, "elementary charge");
    close(UnitsSystem::SI_hBar, HBAR, 1e-6, "reduced Planck constant");
    close(UnitsSystem::SI_lComp, 2.4263102367e-12, 1e-6, "Compton wavelength");
    close(UnitsSystem::SI_eps0, 8.854187817e-12, 1e-6, "vacuum permittivity");
    close(UnitsSystem::SI_eSchw, ME * ME * C * C * C / (QE * HBAR), 1e-5, "Schwinger field");
}
QV_CASE(unknown)
{
    const char *name = qv_str("units");
    std::string s(name);
    qv_assume(s != "SI" && s != "si");
    qv_may_exit(true);
    UnitsSystem u(s);
    qv_check(false, "an unknown unit system is refused");
}
