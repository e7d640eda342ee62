// native runtime for replaying a counterexample against the real code
#include "vs.h"
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <map>
#include <mutex>
#include <sstream>
#include <string>
#include <thread>
#include <typeinfo>
#include <unistd.h>
#include <vector>
#include <pthread.h>
#include <dlfcn.h>
#include <cxxabi.h>
#include <stdexcept>
using std::string;
static std::map<string, string> V; static std::map<string, int> NC; static string KIND; static std::vector<int> SCH; static bool haveSched = false, UNL = false;
static pthread_mutex_t nm = PTHREAD_MUTEX_INITIALIZER;
extern "C" int __real_pthread_mutex_lock(pthread_mutex_t*); extern "C" int __real_pthread_mutex_unlock(pthread_mutex_t*);
static void load() {
    static bool done = false; if (done) return; done = true;
    const char* p = getenv("VS_CEX"); if (!p) return; std::ifstream f(p); string l;
    while (getline(f, l)) { if (l.empty()) continue; std::istringstream is(l); string n, t, v; if (l[0] == '!') { is >> n; if (n == "!kind") is >> KIND; if (n == "!unlock") UNL = true; if (n == "!sched" && !getenv("VS_NOSCHED")) { haveSched = true; int x; while (is >> x) SCH.push_back(x); } continue; } is >> n >> t >> v; V[n] = v; }
}
static string get(const char* n0) { 
#ifdef VS_SCHED
    __real_pthread_mutex_lock(&nm);
#else
    pthread_mutex_lock(&nm);
#endif
    load(); int c = NC[n0]++; string n = n0; if (c) n += "#" + std::to_string(c); auto it = V.find(n); string r = it == V.end() ? "" : it->second;
#ifdef VS_SCHED
    __real_pthread_mutex_unlock(&nm);
#else
    pthread_mutex_unlock(&nm);
#endif
    return r; }
static double D(const string& s) { return s.empty() ? 0.0 : strtod(s.c_str(), nullptr); }
static long I(const string& s, long lo, long hi) { if (s.empty()) return lo > 0 ? lo : hi < 0 ? hi : 0; return s[0] == '-' ? strtoll(s.c_str(), nullptr, 10) : (long)strtoull(s.c_str(), nullptr, 10); }
[[noreturn]] static void fin(int c, const char* tag, const char* m) { printf("%s %s\n", tag, m); fflush(nullptr); _exit(c); }
extern "C" {
int vs_int(const char* n, int lo, int hi) { return (int)I(get(n), lo, hi); }
long vs_i64(const char* n, long lo, long hi) { return I(get(n), lo, hi); }
unsigned vs_bv32(const char* n) { return (unsigned)I(get(n), 0, 0); }
unsigned long vs_bv64(const char* n) { return (unsigned long)I(get(n), 0, 0); }
double vs_real(const char* n, double lo, double hi) { string s = get(n); if (s.empty()) return lo > 0 ? lo : hi < 0 ? hi : 0; double d = D(s); return d < lo ? lo : d > hi ? hi : d; }
double vs_fp(const char* n) { return D(get(n)); }
bool vs_bool(const char* n) { return I(get(n), 0, 1) & 1; }
int vs_choose(const char* n, int k) { return (int)I(get(n), 0, k - 1); }
int vs_concretize(int v) { return v; }
void vs_assume(bool c) { if (!c) fin(43, "REPLAY-ASSUME-FALSE", ""); }
void vs_assert(bool c, const char* m) { if (!c) fin(42, "REPLAY-FAIL", m); }
void vs_fail(const char* m) { fin(42, "REPLAY-FAIL", m); }
void vs_reach(const char*) {}
double vs_tok(const char* s) { return strtod(s, nullptr); }
int vs_tid() { return (int)gettid(); }
#ifdef VS_SCHED
int vs_holds(void* m);
#else
int vs_holds(void* m) { return ((pthread_mutex_t*)m)->__data.__lock != 0 && ((pthread_mutex_t*)m)->__data.__owner == gettid(); }
#endif
void vs_race_off() {} void vs_race_on() {}
void vs_observe(const char* t, double v) { printf("OBS %s %a\n", t, v); }
void vs_dbg(const char* t, double v) { printf("DBG %s %.17g\n", t, v); }
int vs_symbolic() { return 0; }
int vs_is_sym(double) { return 0; }
static long lastNow = 0;
long vs_now() { string s = get("clock"); long v = s.empty() ? __atomic_load_n(&lastNow, __ATOMIC_SEQ_CST) : I(s, 0, 0); __atomic_store_n(&lastNow, v, __ATOMIC_SEQ_CST); return v; }
}
#ifdef VS_SCHED
// ---- cooperative scheduler: reproduces the engine's schedule (same scheduling points, same thread numbering)
struct TS { bool done = false; int kind = 0; void* m = nullptr; int tgt = -1; bool woken = false; bool waiting = false; void* cv = nullptr; };
static std::vector<TS>* T; static std::map<void*, int>* OWN; static int cur = 0; static size_t si = 0; static pthread_mutex_t big = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t bc = PTHREAD_COND_INITIALIZER;
static thread_local int me = 0; static bool active = false;
static void ini() { if (!T) { T = new std::vector<TS>(1); OWN = new std::map<void*, int>(); load(); active = true; } }
static std::map<void*, int>* RECUR = new std::map<void*, int>(); // further times a recursive mutex is held
static bool again(pthread_mutex_t* m) { if (OWN->count(m) && (*OWN)[m] == me && m->__data.__kind == 1) { (*RECUR)[m]++; return true; } return false; }
static bool en(int i) { TS& t = (*T)[i]; if (t.done) return false; switch (t.kind) { case 1: return !OWN->count(t.m); case 2: return t.woken && !OWN->count(t.m); case 4: return !OWN->count(t.m); case 3: return (*T)[t.tgt].done; default: return true; } }
static void pick() { // called with big held, decides the next thread
    int c = -1; if (si < SCH.size()) c = SCH[si++]; 
    if (c < 0 || c >= (int)T->size() || !en(c)) { if (en(cur)) c = cur; else { c = -1; for (int i = 0; i < (int)T->size(); i++) if (en(i)) { c = i; break; } } }
    if (c < 0) fin(KIND == "deadlock" ? 42 : 44, "REPLAY-DEADLOCK", "no thread can make progress");
    cur = c; pthread_cond_broadcast(&bc);
}
extern "C" int __real_pthread_cond_wait(void*, void*);
static void waitTurn() { while (cur != me) __real_pthread_cond_wait(&bc, &big); }
static void point(int kind, void* m, int tgt) {
    TS& t0 = (*T)[me]; t0.kind = kind; t0.m = m; t0.tgt = tgt;
    if (T->size() == 1 && en(me)) { (*T)[me].kind = 0; return; }
    pick(); waitTurn(); (*T)[me].kind = 0;
}
extern "C" {
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { ini(); __real_pthread_mutex_lock(&big); if (again(m)) { __real_pthread_mutex_unlock(&big); return 0; } if (OWN->count(m) && (*OWN)[m] == me) fin(KIND == "deadlock" ? 42 : 44, "REPLAY-DEADLOCK", "mutex locked again by its holder"); point(1, m, -1); (*OWN)[m] = me; __real_pthread_mutex_unlock(&big); return 0; }
int vs_holds(void* m) { ini(); __real_pthread_mutex_lock(&big); int r = OWN->count(m) && (*OWN)[m] == me; __real_pthread_mutex_unlock(&big); return r; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { ini(); __real_pthread_mutex_lock(&big); point(0, nullptr, -1); if (again(m)) { __real_pthread_mutex_unlock(&big); return 0; } int r = 16; if (!OWN->count(m)) { (*OWN)[m] = me; r = 0; } __real_pthread_mutex_unlock(&big); return r; }
static int rawWait(void* c, void* m, bool timed) {
    ini(); __real_pthread_mutex_lock(&big); if (T->size() > 1) point(0, nullptr, -1);
    OWN->erase(m); TS& t = (*T)[me]; t.waiting = true; t.cv = c; t.woken = false; t.kind = timed ? 4 : 2; t.m = m; pick(); waitTurn(); TS& t2 = (*T)[me]; bool w = t2.woken; t2.kind = 0; t2.waiting = false; t2.woken = false; t2.cv = nullptr; (*OWN)[m] = me; __real_pthread_mutex_unlock(&big); return timed && !w ? 110 : 0; }
int __wrap_pthread_cond_wait(void* c, void* m) { return rawWait(c, m, false); }
int __wrap_pthread_cond_clockwait(void* c, void* m, int, const void*) { return rawWait(c, m, true); }
int __wrap_pthread_cond_timedwait(void* c, void* m, const void*) { return rawWait(c, m, true); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { ini(); __real_pthread_mutex_lock(&big); if (RECUR->count(m) && (*RECUR)[m] > 0 && OWN->count(m) && (*OWN)[m] == me) { (*RECUR)[m]--; __real_pthread_mutex_unlock(&big); return 0; } if (!OWN->count(m) || (*OWN)[m] != me) fin(KIND == "sync" ? 42 : 44, "REPLAY-FAIL", "mutex unlocked by a thread that does not hold it"); OWN->erase(m); if (UNL) point(0, nullptr, -1); __real_pthread_mutex_unlock(&big); return 0; }
void __wrap__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void* c, std::unique_lock<std::mutex>* l) {
    ini(); void* m = l->mutex()->native_handle(); __real_pthread_mutex_lock(&big);
    if (T->size() > 1) point(0, nullptr, -1);
    OWN->erase(m); TS& t = (*T)[me]; t.waiting = true; t.cv = c; t.woken = false; t.kind = 2; t.m = m; pick(); waitTurn(); TS& t2 = (*T)[me]; t2.kind = 0; t2.waiting = false; t2.woken = false; t2.cv = nullptr; (*OWN)[m] = me; __real_pthread_mutex_unlock(&big);
}
void __wrap__ZNSt18condition_variable10notify_allEv(void* c) { ini(); __real_pthread_mutex_lock(&big); point(0, nullptr, -1); for (auto& t : *T) if (t.waiting && t.cv == c) t.woken = true; __real_pthread_mutex_unlock(&big); }
void __wrap__ZNSt18condition_variable10notify_oneEv(void* c) { ini(); __real_pthread_mutex_lock(&big); point(0, nullptr, -1); int p = -1, n = 0; for (int i = 0; i < (int)T->size(); i++) if ((*T)[i].waiting && (*T)[i].cv == c && !(*T)[i].woken) { p = i; n++; } if (n > 1 && si < SCH.size() && SCH[si] >= 1000) p = SCH[si++] - 1000; if (p >= 0) (*T)[p].woken = true; __real_pthread_mutex_unlock(&big); }
struct VsState { virtual ~VsState() = default; virtual void _M_run() = 0; };
struct VsRw { int mutex[2], cond[2], kind[2], readers, writer; };
#define RWM ((pthread_mutex_t*)r)
int __wrap_pthread_cond_broadcast(void* c) { __wrap__ZNSt18condition_variable10notify_allEv(c); return 0; }
int __wrap_pthread_rwlock_rdlock(void* l) { VsRw* r = (VsRw*)l; __wrap_pthread_mutex_lock(RWM); while (r->writer) __wrap_pthread_cond_wait(r->cond, r); r->readers++; __wrap_pthread_mutex_unlock(RWM); return 0; }
int __wrap_pthread_rwlock_wrlock(void* l) { VsRw* r = (VsRw*)l; __wrap_pthread_mutex_lock(RWM); while (r->writer || r->readers) __wrap_pthread_cond_wait(r->cond, r); r->writer = 1; __wrap_pthread_mutex_unlock(RWM); return 0; }
int __wrap_pthread_rwlock_tryrdlock(void* l) { VsRw* r = (VsRw*)l; __wrap_pthread_mutex_lock(RWM); int e = r->writer ? 16 : 0; if (!e) r->readers++; __wrap_pthread_mutex_unlock(RWM); return e; }
int __wrap_pthread_rwlock_trywrlock(void* l) { VsRw* r = (VsRw*)l; __wrap_pthread_mutex_lock(RWM); int e = r->writer || r->readers ? 16 : 0; if (!e) r->writer = 1; __wrap_pthread_mutex_unlock(RWM); return e; }
int __wrap_pthread_rwlock_unlock(void* l) { VsRw* r = (VsRw*)l; __wrap_pthread_mutex_lock(RWM); if (r->writer) r->writer = 0; else r->readers--; __wrap_pthread_cond_broadcast(r->cond); __wrap_pthread_mutex_unlock(RWM); return 0; }
int __wrap_pthread_once(int* o, void (*f)()) { __wrap_pthread_mutex_lock((pthread_mutex_t*)o); if (!*o) { f(); *o = 2; } __wrap_pthread_mutex_unlock((pthread_mutex_t*)o); return 0; }
void vs_atomic_point() { ini(); __real_pthread_mutex_lock(&big); point(0, nullptr, -1); __real_pthread_mutex_unlock(&big); }
int __wrap_nanosleep(const void*, void*) { vs_atomic_point(); return 0; }
int __wrap_usleep(unsigned) { vs_atomic_point(); return 0; }
int __wrap_sched_yield() { vs_atomic_point(); return 0; }
void __wrap__ZNSt6thread6detachEv(std::thread* th) { *(unsigned long*)th = 0; }
struct SP { VsState* s; int id; };
struct Dtor { void (*f)(void*); void* o; int tid; Dtor* next; }; static Dtor* dtors;
int __wrap___cxa_thread_atexit(void (*f)(void*), void* o, void*) { __real_pthread_mutex_lock(&big); dtors = new Dtor{f, o, me, dtors}; __real_pthread_mutex_unlock(&big); return 0; }
static void runDtors() { for (;;) { __real_pthread_mutex_lock(&big); Dtor** p = &dtors; while (*p && (*p)->tid != me) p = &(*p)->next; Dtor* d = *p; if (d) *p = d->next; __real_pthread_mutex_unlock(&big); if (!d) return; d->f(d->o); delete d; } }
static void* tmain(void* a) { SP* p = (SP*)a; me = p->id; __real_pthread_mutex_lock(&big); waitTurn(); (*T)[me].kind = 0; __real_pthread_mutex_unlock(&big); p->s->_M_run(); delete p->s; runDtors(); __real_pthread_mutex_lock(&big); (*T)[me].done = true; pick(); __real_pthread_mutex_unlock(&big); return nullptr; }
void __wrap__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(std::thread* th, VsState** st, void (*)()) {
    ini(); __real_pthread_mutex_lock(&big); SP* p = new SP{*st, (int)T->size()}; *st = nullptr; T->emplace_back(); *(unsigned long*)th = p->id; __real_pthread_mutex_unlock(&big); pthread_t x; pthread_create(&x, nullptr, tmain, p); pthread_detach(x);
}
void __wrap__ZNSt6thread4joinEv(std::thread* th) { ini(); int id = (int)*(unsigned long*)th; __real_pthread_mutex_lock(&big); point(3, nullptr, id); __real_pthread_mutex_unlock(&big); *(unsigned long*)th = 0; }
}
#else
extern "C" void vs_atomic_point() {}
#endif
static void onTerm() {
    if (auto* t = abi::__cxa_current_exception_type()) { printf("REPLAY-EXCEPTION %s\n", t->name()); fflush(nullptr); _exit(KIND == "exception" ? 42 : 45); }
    printf("REPLAY-TERMINATE\n"); fflush(nullptr); _exit(KIND == "exception" ? 42 : 45);
}
int main() { load(); std::set_terminate(onTerm); const char* en = getenv("VS_ENTRY"); void* f = en ? dlsym(RTLD_DEFAULT, en) : nullptr; if (!f) fin(46, "NO-ENTRY", en ? en : ""); ((void (*)())f)(); printf("REPLAY-OK\n"); fflush(nullptr); _exit(0); }
