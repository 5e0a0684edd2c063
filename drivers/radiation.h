#pragma once
// contracts of the photon emission helpers: a function of the particle's state and the field there (proved against the
// definition by cases eta_*), and one of eta and one uniform draw (proved against the tables by C15)
#include "PhotonEmission.hh"
#include "draws.h"
#include "tables.h"
#ifdef QV_SYMBOLIC
static double QV_ETA(double t, const ThreeVector &x, const ThreeVector &p)
{
    double e = qv_fun4("eta", qv_fun4("etaAt", t, x[0], x[1], x[2]), p[0], p[1], p[2]);
    qv_assume(e >= 0);
    return e;
}
#define QV_ETA QV_ETA
double PhotonEmission::CalculateEta(Particle *p) const { return QV_ETA(p->GetTime(), p->GetPosition(), p->GetMomentum()); }
static double QV_CHI(double eta, double u)
{
    double c = qv_fun2("chi", eta, u);
    qv_assume(c > 0);
    return c;
}
double PhotonEmission::CalculateChi(double eta) const { return QV_CHI(eta, MCTools::RandDouble(0, 1)); }
#endif
static double sampleChi(const PhotonTables &T, double eta, double u)
{
#ifdef QV_SYMBOLIC
    return QV_CHI(eta, u);
#else
    return T.sample(eta, u);
#endif
}
