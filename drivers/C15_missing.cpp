// C15: a missing table file is refused.
//@ sources: Physics/Processes/PhotonEmission.cpp Physics/Processes/StochasticEmission.cpp Physics/Processes/NonLinearBreitWheeler.cpp Particles/Particle.cpp Particles/Lepton.cpp Particles/Photon.cpp Particles/ParticleList.cpp Tools/Numerics.cpp
#include <cstdlib>
#include "qv.h"
#include "draws.h"
#include "field.h"
#include "tables.h"
#include "StochasticEmission.hh"
#include "NonLinearBreitWheeler.hh"
static void missing(const char *const *names, long n, bool photons)
{
    long which = qv_choose("which", n);
#ifdef QV_SYMBOLIC
    qv_assume(getenv("QED_TABLES_PATH") != nullptr);
    qv_assume(!qv_fileok(table(names[which]).c_str()));
#else
    for (long i = 0; i < n; i++)
        if (i != which) { TableFile t(names[i]); for (long j = 0; j < 60; j++) t.put(3); }
    unlink((scratch() + "/" + names[which]).c_str());
#endif
    qv_may_exit(true);
    AnyField f;
    if (photons) StochasticEmission e(&f, 1);
    else NonLinearBreitWheeler b(&f, 1);
    qv_check(false, "a missing table file is refused");
}
static const char *const photon[] = {"hsokolov.table", "ksi_sokolov.table", "chimin.table"};
static const char *const pairs[] = {"pairprod.table", "e_split.table", "epsilon.table", "log_chi.table"};
QV_CASE(missing_photon_table) { missing(photon, 3, true); }
QV_CASE(missing_pair_table) { missing(pairs, 4, false); }
QV_CASE(no_table_path)
{
#ifdef QV_SYMBOLIC
    qv_assume(getenv("QED_TABLES_PATH") == nullptr);
#else
    unsetenv("QED_TABLES_PATH");
#endif
    qv_may_exit(true);
    AnyField f;
    if (qv_bool("photons")) StochasticEmission e(&f, 1);
    else NonLinearBreitWheeler b(&f, 1);
    qv_check(false, "a missing table path is refused");
}
