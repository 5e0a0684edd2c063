#pragma once
// contract of MCTools::RandDouble (proved by C04): the n-th uniform draw is any number in [low, high)
#include "MCTools.hh"
static long draws = 0;
static double draw(long k) { return qv_range("u", 0, QV_SYM(1, 0.999), k); }
double MCTools::RandDouble(double low, double high)
{
    double u = draw(draws);
    draws++;
#ifdef QV_SYMBOLIC
    qv_assume(u < 1);
#endif
    return low + (high - low) * u;
}
