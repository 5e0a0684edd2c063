// C25: field snapshots.
//@ sources: IO/Output/OutputManager.cpp IO/Output/Histogram.cpp Tools/UnitsSystem.cpp Particles/ParticleList.cpp Particles/Particle.cpp Tools/Numerics.cpp
//@ contract: HDF5Output::AddGroup, HDF5Output::AddArray1D/2D/3D -- groups and data sets are stored as handed over (C24)
//@ contract: MCTools::RandDouble -- a value in [low, high) per draw (C04)
//@ contract: EMField::GetField -- any function of time and position (the fields' own contracts are C06-C08)
//@ assume: the number of grid points stays below the range of the index type
#include "qv.h"
#include "wave.h"
#include "draws.h"
#include "field.h"
#include "output.h"

static std::vector<double> axis(const char *name, long n)
{
    std::vector<double> v(n);
    for (long i = 0; i < n; i++) v[i] = qv_real(name, i);
    return v;
}
QV_CASE(snapshots)
{
    long nt = qv_int("times", 0, QV_SYM(1000000, 3)), nx = qv_int("nx", 0, QV_SYM(1000000, 4)), ny = qv_int("ny", 0, QV_SYM(1000000, 4)), nz = qv_int("nz", 0, QV_SYM(1000000, 4));
    AnyField f;
    OutputManager out("file name");
    out.OutEMField(&f, axis("t", nt), axis("x", nx), axis("y", ny), axis("z", nz));
    qv_check(qv_get("file", "file name") == 1 && group("Fields"), "the file is opened anew");
    long t = qv_index("at time", nt);
    std::string g = "Fields/" + std::to_string(t);
    qv_check(group(g), "a group per time");
    long i = qv_index("i", nx), j = qv_index("j", ny), k = qv_index("k", nz);
    ThreeVector E, B;
    AnyField::at(qv_real("t", t), ThreeVector(qv_real("x", i), qv_real("y", j), qv_real("z", k)), E, B);
    for (int c = 0; c < 3; c++)
    {
        std::string e = g + "/E" + std::to_string(c), b = g + "/B" + std::to_string(c);
        dataset(e, 3, nx, ny, nz, "an electric field array of the grid's size");
        dataset(b, 3, nx, ny, nz, "a magnetic field array of the grid's size");
        qv_eq(entry(e, (i * ny + j) * nz + k), E[c], "electric field at the grid point");
        qv_eq(entry(b, (i * ny + j) * nz + k), B[c], "magnetic field at the grid point");
    }
}
