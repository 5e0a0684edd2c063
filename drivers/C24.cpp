// C24: the output file layer.
//@ sources: IO/Output/HDF5Output.cpp
//@ flags: -include drivers/h5/contract.h
//@ contract: the HDF5 library (H5File, Group, DataSet, DataSpace, H5Gget_objinfo) -- drivers/h5/contract.h: a file is a map from names to groups and arrays
#include "HDF5Output.hh"
const H5::PredType H5::PredType::NATIVE_DOUBLE(1), H5::PredType::NATIVE_FLOAT(2), H5::PredType::IEEE_F64LE(3);
static const char *names[] = {"Particles", "Particles/Single", "Fields/12"};
static void before() { for (int i = 0; i < 3; i++) qv_put("exists", names[i], qv_bool(i == 0 ? "first" : i == 1 ? "second" : "third") ? 1 : 0); }
QV_CASE(opened)
{
    bool append = qv_bool("append");
    {
        HDF5Output out("name.h5", append);
    }
    qv_check(qv_get("file", "name.h5") == (append ? 2 : 1) && qv_count("file", "name.h5") == 1, "truncated, or opened for appending");
    HDF5Output none;
    HDF5Output standard("other.h5");
    qv_check(qv_get("file", "other.h5") == 1, "truncated by default");
}
// requests in any order on a file with any of the groups
static bool asked[2];
static void ask(HDF5Output &out, long k)
{
    if (k == 0) out.AddGroup(names[0]); else out.AddGroup(names[1]);
    asked[k] = true;
}
QV_CASE(groups)
{
    before();
    bool had0 = qv_get("exists", names[0]) > 0, had1 = qv_get("exists", names[1]) > 0;
    asked[0] = asked[1] = false;
    {
        HDF5Output out("name.h5", true);
        double v[2] = {qv_real("v", 0), qv_real("v", 1)};
        if (qv_bool("0")) ask(out, 0); else ask(out, 1);
        out.AddArray1D(v, 2, "Particles/data");
        if (qv_bool("1")) ask(out, 0); else ask(out, 1);
        if (qv_bool("2")) ask(out, 0); else ask(out, 1);
        if (qv_bool("3")) ask(out, 0); else ask(out, 1);
    }
    qv_check(qv_count("created", names[0]) == (asked[0] && !had0 ? 1 : 0), "created exactly once if missing");
    qv_check(qv_count("created", names[1]) == (asked[1] && !had1 ? 1 : 0), "created exactly once if missing");
    qv_check(qv_count("data", "Particles/data") == 1, "the array is written");
}
QV_CASE(line)
{
    HDF5Output out("name.h5");
    long n = qv_int("n", 0, QV_SYM(1000000, 9));
    double *d = new double[n];
    for (long i = 0; i < n; i++) d[i] = qv_real("v", i);
    out.AddArray1D(d, n, "line");
    qv_check(qv_get("rank", "line") == 1 && qv_get("dim0", "line") == n && qv_count("data", "line") == 1, "dimensions");
    long i = qv_index("i", n);
    qv_eq(qv_getarr("data", "line", i), qv_real("v", i), "entry");
}
QV_CASE(plane)
{
    HDF5Output out("name.h5");
    long n = qv_int("n", 0, QV_SYM(1000, 5)), m = qv_int("m", 0, QV_SYM(1000, 5));
    double *d = new double[n * m];
    for (long i = 0; i < n * m; i++) d[i] = qv_real("v", i);
    out.AddArray2D(d, n, m, "plane");
    qv_check(qv_get("rank", "plane") == 2 && qv_count("data", "plane") == 1, "dimensions");
    qv_check(qv_get("dim0", "plane") == n && qv_get("dim1", "plane") == m, "dimensions");
    long i = qv_index("i", n * m);
    qv_eq(qv_getarr("data", "plane", i), qv_real("v", i), "entry");
}
QV_CASE(block)
{
    HDF5Output out("name.h5");
    long n = qv_int("n", 0, QV_SYM(1000, 4)), m = qv_int("m", 0, QV_SYM(1000, 4)), l = qv_int("l", 0, QV_SYM(1000, 4));
    double *d = new double[n * m * l];
    for (long i = 0; i < n * m * l; i++) d[i] = qv_real("v", i);
    out.AddArray3D(d, n, m, l, "block");
    qv_check(qv_get("rank", "block") == 3 && qv_count("data", "block") == 1, "dimensions");
    qv_check(qv_get("dim0", "block") == n && qv_get("dim1", "block") == m, "dimensions");
    qv_check(qv_get("dim2", "block") == l, "dimensions");
    long i = qv_index("i", n * m * l);
    qv_eq(qv_getarr("data", "block", i), qv_real("v", i), "entry");
}
QV_CASE(subgroups)
{
    HDF5Output out("name.h5");
    out.AddSubGroup("Particles/One");
    out.AddSubGroup("Particles/Two");
    qv_check(qv_count("created", "Particles/One") == 1 && qv_count("created", "Particles/Two") == 1, "created");
}
