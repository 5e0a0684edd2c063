#pragma once
#include "Photon.hh"
#include "Lepton.hh"
// a tracked particle with an arbitrary history of any length
struct Tracked : Particle
{
    Tracked(long id, bool track) : Particle(qv_real("mass", id), qv_real("charge", id), qv_real("weight", id), qv_real("time", id), track)
    {
        m_isAlive = qv_bool("alive", id);
        long n = qv_int("steps", 0, QV_SYM(1000000, 6), id);
        m_posHistory = std::vector<ThreeVector>(n);
        m_momHistory = std::vector<ThreeVector>(n);
        m_timeHistory = std::vector<double>(n);
        m_gammaHistory = std::vector<double>(n);
        for (long i = 0; i < n; i++)
        {
            m_posHistory[i] = pos(id, i);
            m_momHistory[i] = mom(id, i);
            m_timeHistory[i] = qv_real("t", id, i);
            m_gammaHistory[i] = qv_real("g", id, i);
        }
    }
    static ThreeVector pos(long id, long i) { return ThreeVector(qv_real("x", id, i, 0), qv_real("x", id, i, 1), qv_real("x", id, i, 2)); }
    static ThreeVector mom(long id, long i) { return ThreeVector(qv_real("p", id, i, 0), qv_real("p", id, i, 1), qv_real("p", id, i, 2)); }
    double GetGamma() const { return qv_real("gamma"); }
    double GetBeta() const { return qv_real("beta"); }
    double GetEnergy() const { return qv_real("energy"); }
    std::string GetType() const { return "tracked"; }
    std::string GetName() const { return "tracked"; }
};
// the complete history of particle id is in group g, in the given units
static void history(const std::string &g, long id, double length, double momentum, double time)
{
    long n = qv_int("steps", 0, QV_SYM(1000000, 6), id), i = qv_index("entry", n);
    qv_check(group(g), "a group for the track");
    dataset(g + "/Position", 2, n, 3, 0, "all positions");
    dataset(g + "/Momentum", 2, n, 3, 0, "all momenta");
    dataset(g + "/Time", 1, n, 0, 0, "all times");
    dataset(g + "/Gamma", 1, n, 0, 0, "all gammas");
    ThreeVector x = Tracked::pos(id, i), p = Tracked::mom(id, i);
    for (int c = 0; c < 3; c++)
    {
        qv_eq(entry(g + "/Position", 3 * i + c), x[c] * length, "position in the chosen unit");
        qv_eq(entry(g + "/Momentum", 3 * i + c), p[c] * momentum, "momentum in the chosen unit");
    }
    qv_eq(entry(g + "/Time", i), qv_real("t", id, i) * time, "time in the chosen unit");
    qv_eq(entry(g + "/Gamma", i), qv_real("g", id, i), "gamma as it is");
}
