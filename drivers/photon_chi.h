#pragma once
struct Open : public StochasticEmission
{
    using StochasticEmission::StochasticEmission;
    double eta(Particle *p) const { return CalculateEta(p); }
    double chi(double eta) const { return CalculateChi(eta); }
};
QV_CASE(photon_chi)
{
    PhotonTables T;
    AnyField f;
    Open e(&f, 1);
    for (long k = 0; k < 2; k++)
    {
        double eta = qv_range("eta", QV_SYM(1e-300, 1e-5), QV_SYM(1e300, 10), k);
        qv_assume(T.covers(eta));
        long d = draws;
        double chi = e.chi(eta);
        qv_check(draws == d + 1, "one uniform draw per sample");
        qv_eq(std::log10(chi), std::log10(T.sample(eta, draw(d))), "photon chi blends the two neighbouring rows at one draw");
    }
}
static double named(const char *name, double v)
{
#ifdef QV_SYMBOLIC
    double n = qv_real(name);
    qv_assume(n == v);
    return n;
#else
    return v;
#endif
}
// with tables like the shipped ones (C15_tables) each row's value is at most the end of its axis (C02: interpolate_bounds),
// so a photon never carries more energy than its emitter
QV_CASE(photon_chi_bound)
{
    PhotonTables T;
    AnyField any;
    Open e(&any, 1);
    double eta = qv_range("eta", QV_SYM(1e-300, 1e-5), QV_SYM(1e300, 10)), u = draw(draws);
    qv_assume(T.covers(eta) && std::log10(eta) >= T.logEta(0));
    qv_assume(qv_tok(T.ksi.c_str(), 2) < qv_tok(T.ksi.c_str(), 3));
    double *x = new double[T.neta], frac;
    for (long i = 0; i < T.neta; i++) x[i] = T.logEta(i);
    long low = bracket(x, T.neta, std::log10(eta), frac);
    qv_eq(std::log10(e.chi(eta)), (1 - frac) * T.row(low, u) + frac * T.row(low + 1, u), "photon chi blends the neighbouring rows");
    double f = named("f", frac), A = named("A", T.row(low, u)), B = named("B", T.row(low + 1, u));
    double a = named("a", T.logEta(low) - std::log10(2.0)), b = named("b", T.logEta(low + 1) - std::log10(2.0));
    qv_assume(A <= a && B <= b);
    qv_check(0 <= frac && frac <= 1 + QV_SYM(0, 1e-9), "the fractional position lies within the bracket");
    qv_assume(0 <= f && f <= 1);
    qv_check((1 - f) * A + f * B <= (1 - f) * a + f * b + QV_SYM(0, 1e-9), "the blend is at most the blend of the row ends");
    qv_eq((1 - f) * a + f * b, std::log10(eta) - std::log10(2.0), "which is half of eta");
}
