// Harness primitives of the contract drivers. Every driver case is a contract: inputs are arbitrary values (qv_real, ...),
// qv_assume states preconditions, qv_check / qv_eq state postconditions. The verifier (qedv) interprets the primitives
// symbolically: a case is proved for all inputs. Compiled natively (native/qv_native.cpp) the same case replays one input.
#ifndef QV_H
#define QV_H
#include <string>
#define QV_MANY (1L << 41)
extern "C" {
double qv_real(const char *name, long i = 0, long j = 0, long k = 0);          // any real
double qv_pos(const char *name, long i = 0, long j = 0, long k = 0);           // any positive real
double qv_range(const char *name, double lo, double hi, long i = 0, long j = 0, long k = 0);
long qv_int(const char *name, long lo, long hi, long i = 0, long j = 0, long k = 0);   // lo <= x <= hi
long qv_index(const char *name, long n, long i = 0, long j = 0);               // 0 <= x < n, i.e. "for every index"
bool qv_bool(const char *name, long i = 0, long j = 0, long k = 0);
long qv_choose(const char *name, long n, long i = 0);                          // case split 0..n-1
double qv_fun1(const char *name, double a);                                     // uninterpreted functions
double qv_fun2(const char *name, double a, double b);
double qv_fun4(const char *name, double a, double b, double c, double d);
const char *qv_str(const char *name, long i = 0, long j = 0);                  // any string
double *qv_array(const char *name, long n);                                     // array of n arbitrary reals
double *qv_ordered(const char *name, long n);                                   // non-decreasing
double *qv_sorted(const char *name, long n);                                    // strictly increasing
void qv_assume(bool c);
void qv_check(bool c, const char *what);
void qv_eq(double a, double b, const char *what);
void qv_eqs(const std::string &a, const std::string &b, const char *what);
void qv_may_exit(bool yes);       // program exit is acceptable from here on
void qv_divcheck(bool yes);       // prove every divisor non-zero from here on
void qv_lemma(bool c, const char *name);
// ghost maps keyed by strings and ghost arrays indexed by integers
void qv_put(const char *map, const char *key, double v);
double qv_get(const char *map, const char *key);
long qv_count(const char *map, const char *key);
void qv_putarr(const char *map, const char *key, const double *buf, long n);
double qv_getarr(const char *map, const char *key, long i);
long qv_len(const char *map, const char *key);
void qv_gset(const char *arr, long i, long j, long k, double v);
void qv_gadd(const char *arr, long i, long j, long k, double v);
double qv_gget(const char *arr, long i, long j, long k);
// files: blank separated numbers, at any path
bool qv_fileok(const char *path);                 // can it be opened?
double qv_tok(const char *path, long i);          // i-th token as a real, as an integer
long qv_toki(const char *path, long i);
double qv_lamfun(const char *name, const double *a, const double *b, long n, double q);
long qv_lamint(const char *name, const double *a, const double *b, long n, double q);   // the same, a natural number
long qv_lamindex(const char *name, const double *a, const double *b, long n, double q); // the same, below n
}
#ifdef QV_SYMBOLIC
#define QV_SYM(a, b) (a)      // exact bound of the proof, bound of the floating point replay
#define QV_CASE(name) extern "C" void case_##name()
#define QV_PROBE(name) static void probe_##name()  // extra inputs for the native replay only
#else
#define QV_SYM(a, b) (b)
struct QvReg { QvReg(const char *n, void (*f)()); };
#define QV_CASE(name) extern "C" void case_##name(); static QvReg reg_##name(#name, case_##name); extern "C" void case_##name()
#define QV_PROBE(name) QV_CASE(probe_##name)
#endif
#endif
