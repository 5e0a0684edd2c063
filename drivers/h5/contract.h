// contract of the HDF5 library as far as the file layer uses it: what a file contains is kept in ghost maps
#define H5Cpp_H
#define __H5Cpp_H
#define H5CPP_H
#include "../qv.h"
#include <string>
typedef int herr_t;
typedef long hid_t;
typedef int htri_t;
typedef unsigned long long hsize_t;
#define H5F_ACC_TRUNC 0x0002u
#define H5F_ACC_RDWR 0x0001u
#define H5F_ACC_RDONLY 0x0000u
#define H5F_ACC_EXCL 0x0004u
#define H5P_DEFAULT 0
#define H5E_BEGIN_TRY {
#define H5E_END_TRY }
static inline bool h5has(const char *name) { return qv_get("exists", name) > 0; }
struct H5G_stat_t { int type; };
static inline herr_t H5Gget_objinfo(hid_t, const char *name, int, H5G_stat_t *) { return h5has(name) ? 0 : -1; }
static inline htri_t H5Lexists(hid_t, const char *name, hid_t) { return h5has(name); }
namespace H5
{
struct PredType { static const PredType NATIVE_DOUBLE, NATIVE_FLOAT, IEEE_F64LE; int kind; constexpr PredType(int k) : kind(k) {} };
struct Group
{
    int open;
    Group() : open(0) {}
    explicit Group(int) : open(1) {}
    ~Group() { open = -1; }
    void close() { open = 0; }
};
struct DataSpace
{
    int rank;
    hsize_t d[3];
    DataSpace(int rank, const hsize_t *dims) : rank(rank) { d[0] = dims[0]; d[1] = rank > 1 ? dims[1] : 1; d[2] = rank > 2 ? dims[2] : 1; }
};
struct DataSet
{
    std::string name;
    long n;
    DataSet(const char *name, long n) : name(name), n(n) {}
    void write(const void *data, const PredType &t) const
    {
        qv_check(t.kind == 1, "written from double precision");
        qv_putarr("data", name.c_str(), (const double *)data, n);
    }
    void close() {}
};
struct H5File
{
    H5File(const char *name, unsigned mode) { qv_put("file", name, mode == H5F_ACC_TRUNC ? 1 : mode == H5F_ACC_RDWR ? 2 : 3); }
    H5File(const std::string &name, unsigned mode) : H5File(name.c_str(), mode) {}
    hid_t getId() const { return 1; }
    bool nameExists(const char *name) const { return h5has(name); }
    bool nameExists(const std::string &name) const { return h5has(name.c_str()); }
    bool exists(const char *name) const { return h5has(name); }
    bool exists(const std::string &name) const { return h5has(name.c_str()); }
    Group createGroup(const char *name) const
    {
        qv_check(!h5has(name), "a group is created only if the file does not have it");
        qv_put("exists", name, 1);
        qv_put("created", name, 1);
        return Group(1);
    }
    Group createGroup(const std::string &name) const { return createGroup(name.c_str()); }
    Group openGroup(const char *name) const { qv_check(h5has(name), "an opened group exists"); return Group(1); }
    Group openGroup(const std::string &name) const { return openGroup(name.c_str()); }
    DataSet createDataSet(const char *name, const PredType &t, const DataSpace &s) const
    {
        qv_check(t.kind == 1 || t.kind == 3, "stored in double precision");
        qv_put("rank", name, s.rank);
        qv_put("dim0", name, s.d[0]);
        qv_put("dim1", name, s.d[1]);
        qv_put("dim2", name, s.d[2]);
        return DataSet(name, s.d[0] * s.d[1] * s.d[2]);
    }
    DataSet createDataSet(const std::string &name, const PredType &t, const DataSpace &s) const { return createDataSet(name.c_str(), t, s); }
    void close() {}
};
}
