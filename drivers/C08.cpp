// C08: the tightly focused pulse (Salamin expansion to fourth order in the diffraction angle).
//@ sources: Physics/Fields/EMField/FocusingField.cpp
#include "qv.h"
#include "wave.h"
#include "FocusingField.hh"

static bool cutoff = false;   // native replay only: draw times around the cut-off
static void focused(const ThreeVector &start, const ThreeVector &focus, const ThreeVector &e1, const ThreeVector &e2, const ThreeVector &n, double dist)
{
    double A = qv_range("amplitude", QV_SYM(1e-12, 0.1), QV_SYM(1e12, 100)), L = qv_range("wavelength", QV_SYM(1e-30, 0.5), QV_SYM(1e30, 5)), tau = qv_range("tau", QV_SYM(1e-30, 0.5), QV_SYM(1e30, 5)), w0 = qv_range("waist", QV_SYM(1e-30, 0.5), QV_SYM(1e30, 5)), pol = qv_range("polarisation", -7, 7);
    FocusingField f(A, L, tau, w0, pol, start, focus);
    const double pi = 3.14159265359;
    double k = 2 * pi / L, zR = k * w0 * w0 / 2, eps = w0 / zR;
    for (int call = 0; call < 2; call++)
    {
        // every displacement from the focus, in the frame of the beam
        double x = qv_range("x", -3, 3, 1, call), y = qv_range("x", -3, 3, 2, call), z = qv_range("x", -3, 3, 3, call), r2 = x * x + y * y;
        ThreeVector d = e1 * x + e2 * y + n * z;
        double t = dist + qv_range("t", -9, 9, call);
#ifndef QV_SYMBOLIC
        if (cutoff)
        {
            double w2 = w0 * w0 * (1 + z * z / (zR * zR)), e = std::log(A / 1e-15) - r2 / w2 + qv_range("margin", 0.01, 3, call) * (qv_bool("above", call) ? 1 : -1);
            if (e > 0) t = dist + z + tau * std::sqrt(e);
        }
#endif
        ThreeVector E(qv_real("o", 1, call), 1, 2), B(3, qv_real("o", 2, call), 4);
        static_cast<const EMField &>(f).GetField(t, focus + d, E, B);
        // 1e-99 is the code's guard against a division by zero in the focal plane
        double R = z + zR * zR / (z + 1e-99);
        double w = w0 * std::sqrt(1 + z * z / (zR * zR)), g = w0 / w, gouy = std::atan(z / zR);
        double s = t - dist - z;
        double local = A * std::exp(-r2 / (w * w) - s * s / (tau * tau));
        if (local < 1e-15)
        {
            for (int i = 0; i < 3; i++)
            {
                qv_check(E[i] == 0, "no electric field where the envelope is below the cut-off");
                qv_check(B[i] == 0, "no magnetic field where the envelope is below the cut-off");
            }
            continue;
        }
        double phase = k * (t - z - r2 / (2 * R));
        // S_n = g^n sin(phase + n gouy), C_n = g^n cos(phase + n gouy) of the published expansion (prefactor g, gouy in the phase)
        double S[8], C[8], gn = 1;
        for (int i = 1; i < 8; i++)
        {
            gn *= g;
            S[i] = gn * std::sin(phase + i * gouy);
            C[i] = gn * std::cos(phase + i * gouy);
        }
        double X = x / w0, Y = y / w0, q = X * X + Y * Y, e = eps, ee = eps * eps;
        double Ex = S[1] + ee * (X * X * S[3] - q * q / 4 * S[4])
            + ee * ee * (S[3] / 8 - q / 4 * S[4] - q * (q - 16 * X * X) / 16 * S[5] - q * q * (q + 2 * X * X) / 8 * S[6] + q * q * q * q / 32 * S[7]);
        double Ey = X * Y * (ee * S[3] + ee * ee * (q * S[5] - q * q / 4 * S[6]));
        double Ez = X * (e * C[2] + e * ee * (-C[3] / 2 + q * C[4] - q * q / 4 * C[5]));
        double By = S[1] + ee * (q / 2 * S[3] - q * q / 4 * S[4])
            + ee * ee * (-S[3] / 8 + q / 4 * S[4] + 5 * q * q / 16 * S[5] - q * q * q / 4 * S[6] + q * q * q * q / 32 * S[7]);
        double Bz = Y * (e * C[2] + e * ee * (C[3] / 2 + q / 2 * C[4] - q * q / 4 * C[5]));
        double c = std::cos(pol), sn = std::sin(pol), sc = cutoff ? QV_SYM(1, 0) : A * QV_SYM(1, 1e3), unit = cutoff ? QV_SYM(1, 1 / local) : 1;
        eqs(dot(E, e1) * unit, local * unit * (Ex * c - Ey * sn), sc, "E along the rotated x axis");
        eqs(dot(E, e2) * unit, local * unit * (Ex * sn + Ey * c), sc, "E along the rotated y axis");
        eqs(dot(E, n) * unit, local * unit * Ez, sc, "E along the beam");
        eqs(dot(B, e1) * unit, local * unit * (-By * sn), sc, "B along the rotated x axis");
        eqs(dot(B, e2) * unit, local * unit * (By * c), sc, "B along the rotated y axis");
        eqs(dot(B, n) * unit, local * unit * Bz, sc, "B along the beam");
    }
}
QV_CASE(focused)
{
    // every start and focus whose direction is not within 2e-4 of the reversed reference axis
    ThreeVector s = vec("s"), e1, e2, n;
    double m = qv_range("distance", QV_SYM(1e-9, 1e-2), QV_SYM(1e9, 10));
    frame("n", e1, e2, n);
    focused(s, s + n * m, e1, e2, n, m);
}
QV_CASE(focused_reversed)
{
    ThreeVector f = vec("f");
    double m = qv_range("distance", QV_SYM(1e-9, 1e-2), QV_SYM(1e9, 10));
    focused(ThreeVector(f[0], f[1], f[2] + m), f, ThreeVector(-1, 0, 0), ThreeVector(0, 1, 0), ThreeVector(0, 0, -1), m);
}
QV_PROBE(cutoff)
{
    cutoff = true;
    ThreeVector s = vec("s"), e1, e2, n;
    double m = qv_range("distance", 1e-2, 10);
    frame("n", e1, e2, n);
    focused(s, s + n * m, e1, e2, n, m);
    cutoff = false;
}
