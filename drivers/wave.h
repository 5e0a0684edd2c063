#pragma once
// helpers shared by the field drivers
#include "ThreeVector.hh"
#include "EMField.hh"
static double dot(const ThreeVector &a, const ThreeVector &b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static ThreeVector cross(const ThreeVector &a, const ThreeVector &b)
{
    return ThreeVector(a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]);
}
static ThreeVector vec(const char *n) { return ThreeVector(qv_real(n, 1), qv_real(n, 2), qv_real(n, 3)); }
static void same(const ThreeVector &a, const ThreeVector &b, const char *what)
{
    for (int i = 0; i < 3; i++) qv_eq(a[i], b[i], what);
}
// equality whose floating point replay is judged relative to a scale
static void eqs(double a, double b, double s, const char *what) { qv_eq(a + 2 * s, b + 2 * s, what); }
// E and B form a transverse wave of amplitude a along the unit vector n
static void transverse(const ThreeVector &E, const ThreeVector &B, const ThreeVector &n, double a, double scale)
{
    double lin = std::fabs(scale);
    scale = scale * scale;
    eqs(dot(E, n), 0, lin, "E is perpendicular to the propagation direction");
    eqs(dot(B, n), 0, lin, "B is perpendicular to the propagation direction");
    eqs(dot(E, B), 0, scale, "E is perpendicular to B");
    eqs(dot(E, E), a * a, scale, "magnitude of E");
    eqs(dot(B, B), a * a, scale, "magnitude of B");
    ThreeVector s = cross(E, B);
    for (int i = 0; i < 3; i++) eqs(s[i], a * a * n[i], scale, "E x B points along the propagation direction");
}
// every unit vector other than the reversed z axis, by stereographic projection
static ThreeVector unit(const char *name)
{
    double a = qv_range(name, -QV_SYM(1e4, 5), QV_SYM(1e4, 5), 1), b = qv_range(name, -QV_SYM(1e4, 5), QV_SYM(1e4, 5), 2), q = 1 + a * a + b * b;
    return ThreeVector(2 * a / q, 2 * b / q, (1 - a * a - b * b) / q);
}
// unit vectors completing n = unit(name) to a right-handed frame (the rotated x and y axes)
static void frame(const char *name, ThreeVector &e1, ThreeVector &e2, ThreeVector &n)
{
    double a = qv_range(name, -QV_SYM(1e4, 5), QV_SYM(1e4, 5), 1), b = qv_range(name, -QV_SYM(1e4, 5), QV_SYM(1e4, 5), 2), q = 1 + a * a + b * b;
    n = ThreeVector(2 * a / q, 2 * b / q, (1 - a * a - b * b) / q);
    e1 = ThreeVector((1 - a * a + b * b) / q, -2 * a * b / q, -2 * a / q);
    e2 = ThreeVector(-2 * a * b / q, (1 + a * a - b * b) / q, -2 * b / q);
}
