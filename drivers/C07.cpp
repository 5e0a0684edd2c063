// C07: the Gaussian pulse.
//@ sources: Physics/Fields/EMField/GaussianEMField.cpp
#include "qv.h"
#include "wave.h"
#include "GaussianEMField.hh"

static void pulse(const ThreeVector &start, const ThreeVector &focus, const ThreeVector &e1, const ThreeVector &e2, const ThreeVector &n, double dist)
{
    double A = qv_range("amplitude", -100, 100), L = qv_pos("wavelength"), tau = qv_pos("tau"), w0 = qv_pos("waist"), pol = qv_range("polarisation", -7, 7);
    GaussianEMField f(A, L, tau, w0, pol, start, focus), f0(A, L, tau, w0, 0, start, focus);
    const double pi = 3.14159265359;
    double k = 2 * pi / L, zR = k * w0 * w0 / 2;
    for (int call = 0; call < 2; call++)
    {
        // every displacement from the focus, in the frame of the beam
        double u = qv_range("x", -3, 3, 1, call), v = qv_range("x", -3, 3, 2, call), z = qv_range("x", -3, 3, 3, call), r2 = u * u + v * v;
        ThreeVector d = e1 * u + e2 * v + n * z;
        double t = dist + qv_range("t", -3, 3, call);
        ThreeVector x = focus + d;
        ThreeVector E(qv_real("o", 1, call), 1, 2), B(3, qv_real("o", 2, call), 4), E0, B0;
        static_cast<const EMField &>(f).GetField(t, x, E, B);
        static_cast<const EMField &>(f0).GetField(t, x, E0, B0);
        // 1e-99 is the code's guard against a division by zero in the focal plane
        double R = z + zR * zR / (z + 1e-99);
        double w = w0 * std::sqrt(1 + z * z / (zR * zR));
        double beam = w0 / w, profile = std::exp(-r2 / (w * w)), envelope = std::exp(-(t - dist - z) * (t - dist - z) / (tau * tau));
        double carrier = std::cos(k * (z - t) + k * r2 / (2 * R));
        transverse(E, B, n, A * beam * profile * envelope * carrier, A);
        ThreeVector r = cross(n, E0);
        for (int i = 0; i < 3; i++)
            eqs(E[i], std::cos(pol) * E0[i] + std::sin(pol) * r[i], 2 * std::fabs(A), "the polarisation angle turns E rigidly about the propagation direction");
    }
}
QV_CASE(pulse)
{
    // every start and focus whose direction is not within 2e-4 of the reversed reference axis
    ThreeVector s = vec("s"), e1, e2, n;
    frame("n", e1, e2, n);
    double m = qv_range("distance", QV_SYM(1e-9, 1e-2), QV_SYM(1e9, 100));
    pulse(s, s + n * m, e1, e2, n, m);
}
QV_CASE(pulse_reversed)
{
    ThreeVector f = vec("f");
    double m = qv_pos("d");
    pulse(ThreeVector(f[0], f[1], f[2] + m), f, ThreeVector(1, 0, 0), ThreeVector(0, -1, 0), ThreeVector(0, 0, -1), m);
}
QV_CASE(peak)
{
    // the amplitude proved above never exceeds the peak: each factor lies in [0, 1]
    double w0 = qv_pos("waist"), zR = qv_pos("rayleigh"), tau = qv_pos("tau"), z = qv_real("z"), x = qv_real("x"), y = qv_real("y"), s = qv_real("s"), ph = qv_real("phase");
    double w = w0 * std::sqrt(1 + z * z / (zR * zR));
    double r2 = x * x + y * y;
    qv_check(w >= w0, "the beam is narrowest at the focus");
    qv_assume(w >= w0);
    double b = w0 / w;
    qv_check(b <= 1 && b > 0, "the beam factor lies in (0, 1]");
    qv_check(-r2 / (w * w) <= 0, "the profile falls off from the axis");
    qv_check(-(s * s) / (tau * tau) <= 0, "the envelope falls off from its centre");
    double c = std::cos(ph);
    qv_check(c <= 1 && c >= -1, "the carrier lies in [-1, 1]");
}
