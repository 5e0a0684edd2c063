// C06: static field and plane wave.
//@ sources: Physics/Fields/EMField/StaticEMField.cpp Physics/Fields/EMField/PlaneEMField.cpp
#include "qv.h"
#include "wave.h"
#include "StaticEMField.hh"
#include "PlaneEMField.hh"

QV_CASE(static_field)
{
    ThreeVector e = vec("e"), b = vec("b");
    StaticEMField f(e, b);
    const EMField &g = f;
    for (int k = 0; k < 2; k++)
    {
        ThreeVector E(qv_real("oe", 1, k), qv_real("oe", 2, k), qv_real("oe", 3, k)), B(qv_real("ob", 1, k), 7, 9);
        ThreeVector x(qv_real("x", 1, k), qv_real("x", 2, k), qv_real("x", 3, k));
        g.GetField(qv_real("t", k), x, E, B);
        same(E, e, "the configured electric field everywhere and always");
        same(B, b, "the configured magnetic field everywhere and always");
        same(x, ThreeVector(qv_real("x", 1, k), qv_real("x", 2, k), qv_real("x", 3, k)), "the position is left unchanged");
    }
}

static void plane(const ThreeVector &d, const ThreeVector &n)
{
    double A = qv_real("amplitude"), L = qv_pos("wavelength"), pol = qv_real("polarisation");
    PlaneEMField f(A, L, pol, d), f0(A, L, 0, d);
    const double pi = 3.14159265359;
    for (int k = 0; k < 2; k++)
    {
        double t = qv_range("t", -50, 50, k);
        ThreeVector x(qv_real("x", 1, k), qv_real("x", 2, k), qv_real("x", 3, k));
        ThreeVector E(qv_real("o", 1, k), 1, 2), B(3, qv_real("o", 2, k), 4), E0, B0;
        static_cast<const EMField &>(f).GetField(t, x, E, B);
        double c = std::cos(2 * pi / L * (dot(x, n) - t));
        transverse(E, B, n, A * c, A);
        static_cast<const EMField &>(f0).GetField(t, x, E0, B0);
        ThreeVector r = cross(n, E0);
        for (int i = 0; i < 3; i++)
        {
            eqs(E[i], std::cos(pol) * E0[i] + std::sin(pol) * r[i], 2 * std::fabs(A), "the polarisation angle turns E rigidly about the propagation direction");
        }
    }
}
QV_CASE(plane_wave)
{
    ThreeVector d = vec("d");
    qv_assume(dot(d, d) > QV_SYM(0, 1e-6));
    double m = std::sqrt(dot(d, d));
    ThreeVector n(d[0] / m, d[1] / m, d[2] / m);
    // not the reversed reference axis
    qv_assume(dot(n, n) + 2 * n[2] + 1 > QV_SYM(1e-10, 1e-3));
    plane(d, n);
}
QV_CASE(plane_wave_reversed)
{
    plane(ThreeVector(0, 0, -qv_pos("d")), ThreeVector(0, 0, -1));
}
