#pragma once
// contract of the file layer (proved by C24): groups and arrays are recorded as handed over
#include "OutputManager.hh"
static void put(double *data, hsize_t a, hsize_t b, hsize_t c, int rank, const std::string &name)
{
    qv_put("rank", name.c_str(), rank);
    qv_put("dim0", name.c_str(), a);
    if (rank > 1) qv_put("dim1", name.c_str(), b);
    if (rank > 2) qv_put("dim2", name.c_str(), c);
    qv_putarr("data", name.c_str(), data, a * b * c);
}
HDF5Output::HDF5Output() {}
HDF5Output::HDF5Output(std::string name, bool append) { qv_put("file", name.c_str(), append ? 2 : 1); }
HDF5Output::~HDF5Output() {}
void HDF5Output::AddGroup(std::string name) { qv_put("group", name.c_str(), 1); }
void HDF5Output::AddSubGroup(std::string name) { qv_put("group", name.c_str(), 1); }
void HDF5Output::AddArray1D(double *data, hsize_t n, std::string name) { put(data, n, 1, 1, 1, name); }
void HDF5Output::AddArray2D(double *data, hsize_t x, hsize_t y, std::string name) { put(data, x, y, 1, 2, name); }
void HDF5Output::AddArray3D(double *data, hsize_t x, hsize_t y, hsize_t z, std::string name) { put(data, x, y, z, 3, name); }

// a data set of the given name was written exactly once, with these dimensions
static void dataset(const std::string &name, int rank, long a, long b, long c, const char *what)
{
    qv_check(qv_count("data", name.c_str()) == 1, what);
    qv_check(qv_get("rank", name.c_str()) == rank && qv_get("dim0", name.c_str()) == a, what);
    if (rank > 1) qv_check(qv_get("dim1", name.c_str()) == b, what);
    if (rank > 2) qv_check(qv_get("dim2", name.c_str()) == c, what);
}
static bool group(const std::string &name) { return qv_count("group", name.c_str()) > 0; }
static double entry(const std::string &name, long i) { return qv_getarr("data", name.c_str(), i); }
static bool absent(const std::string &name) { return qv_count("data", name.c_str()) == 0; }
