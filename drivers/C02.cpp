// C02: table look-ups. The table is any strictly increasing array of any length, the query any real.
//@ sources: Tools/Numerics.cpp
#include "qv.h"
#include "Numerics.hh"

QV_CASE(interpolate_between)
{
    // query between samples k and k+1
    long n = qv_int("n", 2, QV_MANY);
    double *x = qv_sorted("x", n), *y = qv_array("y", n);
    long k = qv_index("k", n - 1);
    double q = qv_real("q") + QV_SYM(0, x[k]);
    qv_assume(x[k] <= q && q <= x[k + 1]);
    double r = Numerics::Interpolate1D(x, y, n, q);
    qv_eq(r, y[k] + (q - x[k]) * (y[k + 1] - y[k]) / (x[k + 1] - x[k]), "value of the line through the bracketing samples");
}
QV_CASE(interpolate_sample)
{
    long n = qv_int("n", 2, QV_MANY);
    double *x = qv_sorted("x", n), *y = qv_array("y", n);
    long k = qv_index("k", n);
    qv_eq(Numerics::Interpolate1D(x, y, n, x[k]), y[k], "the sample itself at a sample point");
}
QV_CASE(interpolate_below)
{
    long n = qv_int("n", 2, QV_MANY);
    double *x = qv_sorted("x", n), *y = qv_array("y", n);
    double q = x[0] - qv_pos("d");
    qv_eq(Numerics::Interpolate1D(x, y, n, q), y[0] + (q - x[0]) * (y[1] - y[0]) / (x[1] - x[0]), "line through the first two samples below the table");
}
QV_CASE(interpolate_above)
{
    long n = qv_int("n", 2, QV_MANY);
    double *x = qv_sorted("x", n), *y = qv_array("y", n);
    double q = x[n - 1] + qv_pos("d");
    qv_eq(Numerics::Interpolate1D(x, y, n, q), y[n - 1] + (q - x[n - 1]) * (y[n - 1] - y[n - 2]) / (x[n - 1] - x[n - 2]), "line through the last two samples above the table");
}
QV_CASE(interpolate_bounds)
{
    // a table with plateaus: queries up to the last sample give values up to the last value
    long n = qv_int("n", 2, QV_MANY);
    double *x = qv_ordered("x", n), *y = qv_sorted("y", n);
    qv_assume(x[0] < x[1]);
    double q = qv_real("q");
    qv_assume(q < x[n - 1]);
    qv_check(Numerics::Interpolate1D(x, y, n, q) <= y[n - 1] + QV_SYM(0, 1e-9), "never above the last value");
}
QV_CASE(nearest)
{
    long n = qv_int("n", 1, QV_MANY);
    double *x = qv_sorted("x", n);
    double q = qv_real("q") + QV_SYM(0, x[n / 2]);
    int r = Numerics::ArrayIndex(x, n, q);
    qv_check(r >= 0 && r < n, "the nearest index is inside the table");
    long j = qv_index("j", n);
    double d = x[r] - q, e = x[j] - q;
    qv_check((d < 0 ? -d : d) <= (e < 0 ? -e : e), "no sample is closer than the returned one");
}
QV_CASE(nearest_at_sample)
{
    long n = qv_int("n", 1, QV_MANY);
    double *x = qv_sorted("x", n);
    long k = qv_index("k", n);
    qv_check(Numerics::ArrayIndex(x, n, x[k]) == k, "a sample point is its own nearest sample");
}
QV_CASE(bracket)
{
    // query in the supported range: above the first sample up to the last but one
    long n = qv_int("n", 3, QV_MANY);
    double *x = qv_sorted("x", n);
    long k = qv_index("k", n - 2);
    double q = qv_real("q") + QV_SYM(0, x[k]);
    qv_assume(x[k] < q && q <= x[k + 1]);
    int low = -7;
    double frac = -7;
    Numerics::ClosestPoints(x, n, q, low, frac);
    qv_check(low == k, "lower index of the bracketing samples");
    qv_eq(frac, (q - x[k]) / (x[k + 1] - x[k]), "fractional position");
}
QV_CASE(bracket_low_end)
{
    long n = qv_int("n", 3, QV_MANY);
    double *x = qv_sorted("x", n);
    double q = qv_real("q");
    qv_assume(q <= x[0]);
    int low = -7;
    double frac = -7;
    Numerics::ClosestPoints(x, n, q, low, frac);
    qv_check(low == 0, "the first interval at and below the first sample");
    qv_eq(frac, (q - x[0]) / (x[1] - x[0]), "fractional position at the low end");
}
QV_CASE(bracket_refused)
{
    long n = qv_int("n", 2, QV_MANY);
    double *x = qv_sorted("x", n);
    double q = qv_real("q") + QV_SYM(0, x[n - 1]);
    qv_assume(q > x[n - 1]);
    int low;
    double frac;
    qv_may_exit(true);
    Numerics::ClosestPoints(x, n, q, low, frac);
    qv_check(false, "a query beyond the table is refused");
}
