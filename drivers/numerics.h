#pragma once
// contracts of the table look-ups (proved by C02), as uninterpreted functions of the table's contents and the query
#include "Numerics.hh"
#ifdef QV_SYMBOLIC
double Numerics::Interpolate1D(double *x, double *y, unsigned int n, double q) { return qv_lamfun("interpolate", x, y, n, q); }
void Numerics::ClosestPoints(double *x, unsigned int n, double q, int &low, double &frac)
{
    if (!(q <= x[n - 2])) std::exit(-1);
    long k = qv_lamint("bracket", x, nullptr, n, q);
    qv_assume(k + 2 < (long)n && (k == 0 || x[k] < q) && q <= x[k + 1]);
    low = k;
    frac = (q - x[k]) / (x[k + 1] - x[k]);
}
#endif
