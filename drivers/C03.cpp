// C03: composite Simpson rule on 2m+1 evenly spaced samples, m >= 1 arbitrary.
//@ sources: Tools/Numerics.cpp
#include "qv.h"
#include "Numerics.hh"

static std::vector<double> axis(long n, double x0, double h)
{
    std::vector<double> x(n);
    for (long i = 0; i < n; i++) x[i] = x0 + i * h;
    return x;
}
QV_CASE(weights)
{
    long m = qv_int("m", 1, QV_MANY);
    long n = 2 * m + 1;
    double h = qv_pos("h");
    std::vector<double> x = axis(n, qv_real("x0"), h), y(n);
    for (long i = 0; i < n; i++) y[i] = qv_real("y", i);
    double r = Numerics::SimpsonsRule(x, y);
    double s = qv_real("y", 0) + qv_real("y", 2 * m);
    for (long i = 0; i < m; i++) s += 4 * qv_real("y", 2 * i + 1);
    for (long i = 1; i < m; i++) s += 2 * qv_real("y", 2 * i);
    qv_eq(r, s * h / 3, "spacing/3 times the 1,4,2,...,4,1 weighted sum of the samples");
}
QV_CASE(three_samples)
{
    double h = qv_pos("h"), x0 = qv_real("x0");
    std::vector<double> x = axis(3, x0, h), y(3);
    for (long i = 0; i < 3; i++) y[i] = qv_real("y", i);
    qv_eq(Numerics::SimpsonsRule(x, y), h / 3 * (qv_real("y", 0) + 4 * qv_real("y", 1) + qv_real("y", 2)), "Simpson's three point rule");
}
QV_CASE(cubic_exact)
{
    // any cubic, on three and on five samples
    double h = qv_pos("h"), x0 = qv_real("x0"), a = qv_real("a"), b = qv_real("b"), c = qv_real("c"), d = qv_real("d");
    long n = qv_choose("n", 2) ? 5 : 3;
    std::vector<double> x = axis(n, x0, h), y(n);
    for (long i = 0; i < n; i++) { double t = x0 + i * h; y[i] = a + b * t + c * t * t + d * t * t * t; }
    double u = x0, v = x0 + (n - 1) * h;
    double want = a * (v - u) + b * (v * v - u * u) / 2 + c * (v * v * v - u * u * u) / 3 + d * (v * v * v * v - u * u * u * u) / 4;
    qv_eq(Numerics::SimpsonsRule(x, y), want, "exact for polynomials up to degree three");
}
QV_CASE(linear)
{
    long m = qv_int("m", 1, QV_MANY);
    long n = 2 * m + 1;
    double h = qv_pos("h"), al = qv_real("al"), be = qv_real("be");
    std::vector<double> x = axis(n, qv_real("x0"), h), f(n), g(n), fg(n);
    for (long i = 0; i < n; i++)
    {
        f[i] = qv_real("f", i);
        g[i] = qv_real("g", i);
        fg[i] = al * qv_real("f", i) + be * qv_real("g", i);
    }
    qv_eq(Numerics::SimpsonsRule(x, fg), al * Numerics::SimpsonsRule(x, f) + be * Numerics::SimpsonsRule(x, g), "linear in the samples");
}
