#pragma once
#include "NonLinearBreitWheeler.hh"
#include "draws.h"
#include "tables.h"
#ifdef QV_SYMBOLIC
static double QV_CHI(double t, const ThreeVector &x, const ThreeVector &p)
{
    double e = qv_fun4("pairChi", qv_fun4("pairChiAt", t, x[0], x[1], x[2]), p[0], p[1], p[2]);
    qv_assume(e >= 0);
    return e;
}
#define QV_CHI QV_CHI
double NonLinearBreitWheeler::CalculateChi(Particle *p) const { return QV_CHI(p->GetTime(), p->GetPosition(), p->GetMomentum()); }
static double QV_SPLIT(double chi, double u)
{
    double c = qv_fun2("split", chi, u);
    qv_assume(0 < c && c < 1);
    return c;
}
double NonLinearBreitWheeler::CalculateSplit(double chi) const { return QV_SPLIT(chi, MCTools::RandDouble(0, 1)); }
#endif
static double sampleSplit(const PairTables &T, double chi, double u)
{
#ifdef QV_SYMBOLIC
    return QV_SPLIT(chi, u);
#else
    return T.sample(chi, u);
#endif
}
