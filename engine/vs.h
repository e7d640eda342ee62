// harness API; the engine interprets these calls, native.cpp implements them for replay
#pragma once
#include <chrono>
#include <cmath>
extern "C" {
int vs_int(const char* name, int lo, int hi);
long vs_i64(const char* name, long lo, long hi);
unsigned vs_bv32(const char* name);
unsigned long vs_bv64(const char* name);
double vs_real(const char* name, double lo, double hi);   // exact real arithmetic
double vs_fp(const char* name);                            // IEEE double
bool vs_bool(const char* name);
int vs_choose(const char* name, int n);                    // case split 0..n-1
int vs_concretize(int v);
void vs_assume(bool c);
void vs_assert(bool c, const char* msg);
void vs_fail(const char* msg);
void vs_reach(const char* tag);
void vs_race_off();
void vs_race_on();
void vs_observe(const char* tag, double v);
void vs_dbg(const char* tag, double v);
long vs_now();
int vs_symbolic();
int vs_holds(void* mutex);                                 // does the calling thread hold this mutex?
int vs_tid();                                              // identifies the calling thread
double vs_tok(const char* text);                            // the number printed as this text
void vs_main();
}
// tolerance of numeric assertions: twice as wide in the encoding as in the replay, so that a counterexample found
// over the reals survives rounding when it is replayed in doubles
static inline double vs_tol(double t) { return vs_symbolic() ? t : 0.5 * t; }
static inline bool vs_near(double a, double b, double t = 1e-3) { double d = a - b; double e = vs_tol(t); return d <= e && -d <= e; }
static inline bool vs_ge(double a, double b, double t = 1e-3) { return a - b >= -vs_tol(t); }
