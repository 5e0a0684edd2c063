#pragma once
// the table files: any contents. Natively: small random tables written to a scratch directory.
#include <cmath>
#include <cstdlib>
#include <string>
#include "numerics.h"
static std::string table(const char *name) { return std::string(getenv("QED_TABLES_PATH")) + "/" + name; }
#ifndef QV_SYMBOLIC
#include <cstdio>
#include <unistd.h>
#include <sys/stat.h>
static std::string scratch()
{
    static std::string d;
    if (d.empty())
    {
        std::string b = std::string(getenv("QV_SCRATCH") ? getenv("QV_SCRATCH") : "/tmp") + "/tablesXXXXXX";
        d = mkdtemp(&b[0]);
    }
    setenv("QED_TABLES_PATH", d.c_str(), 1);
    return d;
}
struct TableFile
{
    FILE *f;
    TableFile(const char *name) { f = fopen((scratch() + "/" + name).c_str(), "w"); }
    ~TableFile() { fclose(f); }
    void put(double v) { fprintf(f, "%.17g\n", v); }
};
#endif
// n numbers of a file starting at token first, every step-th
static double *column(const std::string &file, long n, long first, long step)
{
    double *x = new double[n];
    for (long i = 0; i < n; i++) x[i] = qv_tok(file.c_str(), first + step * i);
    return x;
}
static double look(double *x, double *y, long n, double q)
{
    double r = Numerics::Interpolate1D(x, y, n, q);
    delete[] x;
    delete[] y;
    return r;
}
// the row just below q on a table axis and the fractional position of q beyond it
static long bracket(double *x, long n, double q, double &frac)
{
    int low;
    Numerics::ClosestPoints(x, n, q, low, frac);
    delete[] x;
    return low;
}
struct PhotonTables
{
    std::string h, ksi, chimin;
    long nh, neta, nchi;
    PhotonTables()
    {
#ifndef QV_SYMBOLIC
        nh = qv_int("nh", 2, 6), neta = qv_int("neta", 3, 5), nchi = qv_int("nchi", 2, 5);
        double x = -6;
        {
            TableFile f("hsokolov.table");
            f.put(nh);
            for (long i = 0; i < nh; i++) x += qv_range("h.step", 0.5, 3, i), f.put(x), f.put(qv_range("h.data", -2, 1, i));
        }
        TableFile g("ksi_sokolov.table"), c("chimin.table");
        g.put(neta), g.put(nchi), g.put(-6), g.put(qv_range("ksi.max", 5, 9));
        for (long i = 0; i < neta; i++)
        {
            c.put(std::pow(10, qv_range("chimin", -18, -9, i)));
            double y = 0;
            for (long j = 0; j < nchi; j++) g.put(y), y += qv_range("ksi.step", 0.1, 1, i, j);
        }
#else
        qv_assume(getenv("QED_TABLES_PATH") != nullptr);
#endif
        h = table("hsokolov.table"), ksi = table("ksi_sokolov.table"), chimin = table("chimin.table");
#ifdef QV_SYMBOLIC
        nh = qv_toki(h.c_str(), 0), neta = qv_toki(ksi.c_str(), 0), nchi = qv_toki(ksi.c_str(), 1);
        qv_assume(qv_fileok(h.c_str()) && qv_fileok(ksi.c_str()) && qv_fileok(chimin.c_str()));
        qv_assume(2 <= nh && nh < (1L << 28) && 3 <= neta && neta < (1L << 28) && 2 <= nchi && nchi < (1L << 28));
#endif
    }
    // log10 of the photon rate function
    double rate(double eta) const { return look(column(h, nh, 1, 2), column(h, nh, 2, 2), nh, std::log10(eta)); }
    double logEta(long i) const { return qv_tok(ksi.c_str(), 2) + i * ((qv_tok(ksi.c_str(), 3) - qv_tok(ksi.c_str(), 2)) / (neta - 1.0)); }
    // log10 of the photon chi at which row i of the cumulative table reaches u
    double row(long i, double u) const
    {
        double *y = new double[nchi];
        double lo = std::log10(qv_tok(chimin.c_str(), i)), hi = logEta(i) - std::log10(2.0);
        for (long j = 0; j < nchi; j++) y[j] = lo + j * ((hi - lo) / (nchi - 1.0));
        return look(column(ksi, nchi, 4 + i * nchi, 1), y, nchi, u);
    }
    bool covers(double eta) const { return std::log10(eta) <= logEta(neta - 2); }
    double sample(double eta, double u) const
    {
        double *x = new double[neta], frac;
        for (long i = 0; i < neta; i++) x[i] = logEta(i);
        long low = bracket(x, neta, std::log10(eta), frac);
        return std::pow(10.0, (1.0 - frac) * row(low, u) + frac * row(low + 1, u));
    }
};
struct PairTables
{
    std::string t, split, eps, chis;
    long nt, n;
    PairTables()
    {
#ifndef QV_SYMBOLIC
        nt = qv_int("nt", 2, 6), n = qv_int("ne", 3, 5);
        double x = -6, y = -4;
        TableFile f("pairprod.table"), g("e_split.table"), e("epsilon.table"), c("log_chi.table");
        f.put(nt), g.put(n);
        for (long i = 0; i < nt; i++) x += qv_range("t.step", 0.5, 3, i), f.put(x), f.put(qv_range("t.data", -2, 1, i));
        for (long i = 0; i < n; i++)
        {
            e.put(0.1 + 0.8 * i / (n - 1)), c.put(y += qv_range("chi.step", 1, 3, i));
            double u = 0;
            for (long j = 0; j < n; j++) g.put(u), u += qv_range("split.step", 0.1, 0.4, i, j);
        }
#else
        qv_assume(getenv("QED_TABLES_PATH") != nullptr);
#endif
        t = table("pairprod.table"), split = table("e_split.table"), eps = table("epsilon.table"), chis = table("log_chi.table");
#ifdef QV_SYMBOLIC
        nt = qv_toki(t.c_str(), 0), n = qv_toki(split.c_str(), 0);
        qv_assume(qv_fileok(t.c_str()) && qv_fileok(split.c_str()) && qv_fileok(eps.c_str()) && qv_fileok(chis.c_str()));
        qv_assume(2 <= nt && nt < (1L << 28) && 3 <= n && n < (1L << 28));
#endif
    }
    double rate(double chi) const { return look(column(t, nt, 1, 2), column(t, nt, 2, 2), nt, std::log10(chi)); }
    bool covers(double chi) const { return std::log10(chi) <= qv_tok(chis.c_str(), n - 2); }
    double row(long i, double u) const { return look(column(split, n, 1 + i * n, 1), column(eps, n, 0, 1), n, u); }
    double sample(double chi, double u) const
    {
        double frac;
        long low = bracket(column(chis, n, 0, 1), n, std::log10(chi), frac);
        return (1.0 - frac) * row(low, u) + frac * row(low + 1, u);
    }
};
