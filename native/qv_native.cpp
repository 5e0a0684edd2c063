// Native interpretation of the harness primitives: runs a contract case on concrete inputs.
//   exe CASE SEED FIRST COUNT [name=value file]
// prints "FAIL <case> seed trial: <what>" and the inputs for the first failing trial, exit code 1.
#include "qv.h"
#include <cmath>
#include <fstream>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <map>
#include <string>
#include <vector>
#include <csetjmp>
#include <unistd.h>
#include <sys/wait.h>
static std::map<std::string, void (*)()> &cases() { static std::map<std::string, void (*)()> m; return m; }
QvReg::QvReg(const char *n, void (*f)()) { cases()[n] = f; }
static uint64_t g_seed, g_trial;
static std::map<std::string, double> g_in, g_given;
static std::map<std::string, std::string> g_ins;
static bool g_mayexit;
struct Skip {}; struct Refused {};
static std::string failed;
static uint64_t mix(uint64_t x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ULL; x ^= x >> 33; return x; }
static uint64_t hs(const std::string &s) { uint64_t h = 1469598103934665603ULL; for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; } return mix(h ^ mix(g_seed * 1000003 + g_trial)); }
static double u01(uint64_t h) { return (mix(h) >> 11) * (1.0 / 9007199254740992.0); }
static std::string key(const char *n, long i, long j, long k) { char b[200]; if (k) snprintf(b, 200, "%s[%ld,%ld,%ld]", n, i, j, k); else if (j) snprintf(b, 200, "%s[%ld,%ld]", n, i, j); else if (i) snprintf(b, 200, "%s[%ld]", n, i); else snprintf(b, 200, "%s", n); return b; }
static double rec(const std::string &k, double v) { auto g = g_given.find(k); if (g != g_given.end()) v = g->second; g_in[k] = v; return v; }
static double anyreal(uint64_t h) {
  int m = mix(h + 1) % 16; double u = u01(h + 2), v = u01(h + 3);
  if (m == 0) return 0; if (m == 1) return 1; if (m == 2) return -1;
  if (m == 3) return std::floor(u * 11) - 5;
  if (m < 6) return (v < .5 ? -1 : 1) * std::exp((u - .5) * 16);
  return (u * 2 - 1) * (m < 11 ? 1 : 10);
}
extern "C" {
double qv_real(const char *n, long i, long j, long k) { auto s = key(n, i, j, k); return rec(s, anyreal(hs(s))); }
double qv_pos(const char *n, long i, long j, long k) { auto s = key(n, i, j, k); auto h = hs(s); int m = mix(h + 1) % 8; double u = u01(h + 2); double v = m == 0 ? 1 : m < 5 ? u * 3 + 1e-3 : std::exp((u - .5) * 12); return rec(s, v); }
double qv_range(const char *n, double lo, double hi, long i, long j, long k) { auto s = key(n, i, j, k); auto h = hs(s); int m = mix(h + 1) % 10; double v = m == 0 ? lo : m == 1 ? hi : lo + (hi - lo) * u01(h + 2); return rec(s, v); }
long qv_int(const char *n, long lo, long hi, long i, long j, long k) { auto s = key(n, i, j, k); auto h = hs(s); if (hi > lo + 9) { if (hi >= (1L << 40)) hi = lo + 7; } if (hi < lo) throw Skip(); long v = lo + (long)(u01(h) * (double)(hi - lo + 1)); if (v > hi) v = hi; return (long)rec(s, (double)v); }
long qv_index(const char *n, long c, long i, long j) { if (c <= 0) throw Skip(); auto s = key(n, i, j, 0); long v = (long)(u01(hs(s)) * c); if (v >= c) v = c - 1; return (long)rec(s, (double)v); }
bool qv_bool(const char *n, long i, long j, long k) { auto s = key(n, i, j, k); return rec(s, (double)(hs(s) & 1)) != 0; }
long qv_choose(const char *n, long c, long i) { auto s = key(n, i, 0, 0); return (long)rec(s, (double)(hs(s) % c)); }
static double fun(const char *n, const double *a, int c) { uint64_t h = hs(n); double r = 0; for (int i = 0; i < c; i++) { double w = u01(h + i) * 2 + .3; r += std::sin(w * a[i] + u01(h + 10 + i) * 6); } return r; }
double qv_fun1(const char *n, double a) { return fun(n, &a, 1); }
double qv_fun2(const char *n, double a, double b) { double x[] = {a, b}; return fun(n, x, 2); }
double qv_fun4(const char *n, double a, double b, double c, double d) { double x[] = {a, b, c, d}; return fun(n, x, 4); }
const char *qv_str(const char *n, long i, long j) { auto s = key(n, i, j, 0); auto it = g_ins.find(s); if (it == g_ins.end()) { uint64_t h = hs(s); std::string v; int len = h % 6; for (int q = 0; q < len; q++) v += "abXY1_"[mix(h + q) % 6]; it = g_ins.emplace(s, v).first; } return it->second.c_str(); }
double *qv_array(const char *n, long c) { double *p = new double[c > 0 ? c : 1]; for (long i = 0; i < c; i++) p[i] = qv_real(n, i, 0, 0); return p; }
double *qv_sorted(const char *n, long c) { double *p = new double[c > 0 ? c : 1]; double x = anyreal(hs(std::string(n) + "@")); for (long i = 0; i < c; i++) { auto s = key(n, i, 0, 0); x += .05 + 2 * u01(hs(s)); p[i] = x; rec(s, x); } return p; }
double *qv_ordered(const char *n, long c) { double *p = new double[c > 0 ? c : 1]; double x = anyreal(hs(std::string(n) + "@")); for (long i = 0; i < c; i++) { auto s = key(n, i, 0, 0); x += u01(hs(s)) < .5 ? 0 : .05 + 2 * u01(hs(s + "#")); p[i] = x; rec(s, x); } return p; }
void qv_assume(bool c) { if (!c) throw Skip(); }
void qv_check(bool c, const char *w) { if (!c && failed.empty()) { failed = w; } }
void qv_eq(double a, double b, const char *w) { if (std::isinf(a) && std::isinf(b) && a == b) return; double s = std::fabs(a) + std::fabs(b); if (!(std::fabs(a - b) <= 1e-7 * s + 1e-10) && failed.empty()) { char t[400]; snprintf(t, 400, "%s: got %.17g, expected %.17g", w, a, b); failed = t; } }
void qv_eqs(const std::string &a, const std::string &b, const char *w) { if (a != b && failed.empty()) failed = std::string(w) + ": got \"" + a + "\", expected \"" + b + "\""; }
void qv_may_exit(bool y) { g_mayexit = y; }
void qv_divcheck(bool) {}
void qv_lemma(bool, const char *) {}
struct Ent { double v; long n, len; std::vector<double> a; };
static std::map<std::string, std::map<std::string, Ent>> g_maps;
static std::map<std::string, std::map<std::string, double>> g_arr;
void qv_put(const char *m, const char *k, double v) { auto &e = g_maps[m][k]; e.v = v; e.n++; }
double qv_get(const char *m, const char *k) { return g_maps[m][k].v; }
long qv_count(const char *m, const char *k) { return g_maps[m][k].n; }
void qv_putarr(const char *m, const char *k, const double *b, long n) { auto &e = g_maps[m][k]; e.n++; e.len = n; e.a.assign(b, b + n); }
double qv_getarr(const char *m, const char *k, long i) { auto &e = g_maps[m][k]; return i < (long)e.a.size() && i >= 0 ? e.a[i] : 0; }
long qv_len(const char *m, const char *k) { return g_maps[m][k].len; }
static std::string k3(long i, long j, long k) { char b[100]; snprintf(b, 100, "%ld,%ld,%ld", i, j, k); return b; }
void qv_gset(const char *m, long i, long j, long k, double v) { g_arr[m][k3(i, j, k)] = v; }
void qv_gadd(const char *m, long i, long j, long k, double v) { g_arr[m][k3(i, j, k)] += v; }
double qv_gget(const char *m, long i, long j, long k) { return g_arr[m][k3(i, j, k)]; }
static std::map<std::string, std::vector<std::string>> g_files;
static const std::vector<std::string> &tokens(const char *p) { auto it = g_files.find(p); if (it != g_files.end()) return it->second; auto &v = g_files[p]; std::ifstream f(p); std::string s; while (f >> s) v.push_back(s); return v; }
bool qv_fileok(const char *p) { return bool(std::ifstream(p)); }
double qv_tok(const char *p, long i) { auto &v = tokens(p); return i >= 0 && i < (long)v.size() ? std::strtod(v[i].c_str(), 0) : 0; }
long qv_toki(const char *p, long i) { auto &v = tokens(p); return i >= 0 && i < (long)v.size() ? std::strtol(v[i].c_str(), 0, 10) : 0; }
void __wrap_exit(int c) { if (!g_mayexit && failed.empty()) failed = "the program exits"; throw Refused(); }
void __real_exit(int c);
void __wrap___assert_fail(const char *e, const char *f, unsigned l, const char *fn) { if (failed.empty()) failed = std::string("assertion failed: ") + e; throw Refused(); }
}
extern void qv_reset() __attribute__((weak));
int main(int argc, char **argv) {
  if (argc < 5) { for (auto &c : cases()) printf("%s\n", c.first.c_str()); return 0; }
  std::string want = argv[1]; g_seed = strtoull(argv[2], 0, 10); uint64_t first = strtoull(argv[3], 0, 10), count = strtoull(argv[4], 0, 10);
  if (argc > 5) { FILE *f = fopen(argv[5], "r"); char b[256]; double v; while (f && fscanf(f, "%255s %lf", b, &v) == 2) g_given[b] = v; if (f) fclose(f); }
  auto it = cases().find(want); if (it == cases().end()) { fprintf(stderr, "no case\n"); return 2; }
  uint64_t done = 0, skip = 0;
  freopen("/dev/null", "w", stderr);
  for (uint64_t t = first; t < first + count; t++) {
    g_trial = t; g_in.clear(); g_ins.clear(); failed.clear(); g_mayexit = false; g_maps.clear(); g_arr.clear(); g_files.clear(); if (qv_reset) qv_reset();
    // progress marker so that a crash can be attributed to a trial
    if (getenv("QV_MARK")) { printf("TRIAL %llu\n", (unsigned long long)t); fflush(stdout); }
    try { it->second(); } catch (Skip &) { skip++; if (failed.empty()) continue; } catch (Refused &) {} catch (std::exception &e) { if (failed.empty() && !g_mayexit) failed = std::string("exception ") + e.what(); }
    done++;
    if (!failed.empty()) {
      printf("FAIL case=%s seed=%llu trial=%llu: %s\n", want.c_str(), (unsigned long long)g_seed, (unsigned long long)t, failed.c_str());
      for (auto &e : g_in) printf("  input %s = %.17g\n", e.first.c_str(), e.second);
      for (auto &e : g_ins) printf("  input %s = \"%s\"\n", e.first.c_str(), e.second.c_str());
      fflush(stdout); _exit(1);
    }
  }
  printf("OK case=%s trials=%llu skipped=%llu\n", want.c_str(), (unsigned long long)done, (unsigned long long)skip);
  fflush(stdout); _exit(0);
}
