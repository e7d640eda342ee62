// vsym: symbolic executor over LLVM IR with an SMT solver (z3) as the deciding step.
//
//  * executes the IR clang produced from the real sources, together with a harness
//  * values that derive from vs_* inputs are z3 terms (Bool / Int / BitVec / Real / Float64)
//  * a branch, pointer or scheduling decision that the path condition leaves open forks the process
//    (fork(2): copy-on-write state, up to JOBS paths run in parallel)
//  * vs_assert(c): asks the solver for  path-condition /\ !c ; a model is written out as a counterexample file
//    which the native build of the same harness replays against the real code
//
// See ../DESIGN.md for the semantics and the idealisations.
#include <llvm/Bitcode/BitcodeReader.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GlobalAlias.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/Support/MemoryBuffer.h>
#include <llvm/Support/raw_ostream.h>
#include <z3++.h>

#include <atomic>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <deque>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <poll.h>
#include <set>
#include <signal.h>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>

using std::string; using std::vector; using std::map; using std::set; using std::pair;
typedef unsigned __int128 u128; typedef __int128 i128;

static double nowS() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ------------------------------------------------------------------ options
struct Options {
    string bc, out = "/tmp/vsym_out", entry = "vs_main", concrete;
    int jobs = 8, preempt = 2, maxCex = 12, refine = 14, samples = 2;
    double timeout = 300, hardTimeout = 20;
    uint64_t maxSteps = 20000000;
    unsigned branchRlimit = 3000000, seed = 1;
    bool race = false, verbose = false, hashStates = true, spurious = false;
    int schedCap = 400; bool unlockPt = false;
} opt;

// ------------------------------------------------------------------ shared statistics
struct Site { char msg[160]; std::atomic<uint64_t> proven, violated, unknown, trivially; };
enum EndKind { END_OK, END_ASSUME, END_VIOL, END_STEPS, END_UNSUP, END_TIME, END_UNKNOWN, END_DUP, END_N };
struct Shared {
    std::atomic<int> tokens;
    std::atomic<uint64_t> paths, ends[END_N], steps, queries, qsat, qunsat, qunk, hard, hardUnk, refineRounds, forks, undefUsed,
        schedPoints, dupStates, maxDepth, cexN, solverUs, tIdx, threadsMax, races, memOps;
    std::atomic<int> lock; std::atomic<int> nsites; Site sites[512];
    std::atomic<int> nreach; char reach[128][96];
    std::atomic<int> nunsup; char unsup[64][200];
    std::atomic<int> nnote; char note[64][200];
    uint8_t fnSeen[65536];
    double deadline;
    std::atomic<uint64_t> hset[1 << 20];
};
static Shared* S;
struct SLock { SLock() { int e = 0; while (!S->lock.compare_exchange_weak(e, 1)) { e = 0; usleep(50); } } ~SLock() { S->lock = 0; } };
static Site* site(const string& m) {
    int n = S->nsites;
    for (int i = 0; i < n; i++) if (!strncmp(S->sites[i].msg, m.c_str(), 159)) return &S->sites[i];
    SLock l; n = S->nsites;
    for (int i = 0; i < n; i++) if (!strncmp(S->sites[i].msg, m.c_str(), 159)) return &S->sites[i];
    if (n >= 511) return &S->sites[511];
    strncpy(S->sites[n].msg, m.c_str(), 159); S->nsites = n + 1; return &S->sites[n];
}
template <size_t N, size_t L> static void addStr(std::atomic<int>& cnt, char (&arr)[N][L], const string& m) {
    int n = cnt;
    for (int i = 0; i < n; i++) if (!strncmp(arr[i], m.c_str(), L - 1)) return;
    SLock l; n = cnt;
    for (int i = 0; i < n; i++) if (!strncmp(arr[i], m.c_str(), L - 1)) return;
    if (n >= (int)N) return;
    strncpy(arr[n], m.c_str(), L - 1); cnt = n + 1;
}

// ------------------------------------------------------------------ process tree
static bool haveToken = true;
static vector<pid_t> parKids;
static void releaseToken() { if (haveToken) { S->tokens++; haveToken = false; } }
static bool tryToken() { int v = S->tokens; while (v > 0) if (S->tokens.compare_exchange_weak(v, v - 1)) return true; return false; }
static void waitToken() { while (!tryToken()) usleep(300); haveToken = true; }
static uint64_t pathSteps = 0, flushedSteps = 0;
static string pathTag;
static void sampleOkPath();
[[noreturn]] static void endPath(EndKind k, const string& why = "") {
    if (k == END_OK) sampleOkPath();
    S->steps += pathSteps - flushedSteps; S->paths++; S->ends[k]++;
    if (k == END_UNSUP || k == END_UNKNOWN || k == END_STEPS) addStr(S->nunsup, S->unsup, why);
    if (opt.verbose) fprintf(stderr, "[path end %d] %s\n", (int)k, why.c_str());
    releaseToken(); fflush(nullptr); _exit(0);
}
[[noreturn]] static void unsup(const string& why) { endPath(END_UNSUP, why); }
static int forkDepth = 0;
// returns true in the child
static bool forkPath() {
    S->forks++;
    bool par = tryToken();
    fflush(nullptr);
    pid_t p = fork();
    if (p < 0) { if (par) S->tokens++; unsup("fork failed"); }
    if (p == 0) {
        flushedSteps = pathSteps; forkDepth++;
        if ((uint64_t)forkDepth > S->maxDepth) S->maxDepth = forkDepth;
        parKids.clear(); haveToken = true; return true;
    }
    if (!par) { // hand our token to the child and wait for it
        haveToken = false; int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
        if (WIFSIGNALED(st)) { addStr(S->nunsup, S->unsup, "path process killed by signal " + std::to_string(WTERMSIG(st))); S->ends[END_UNSUP]++; S->tokens++; }
        waitToken();
    }
    return false;
}
static void checkDeadline() { if (nowS() > S->deadline) endPath(END_TIME, "global time budget"); }

// ------------------------------------------------------------------ z3
static z3::context* Z; static z3::solver* SOL; static vector<z3::expr>* PC; static std::optional<z3::model> MDL;
enum K : uint8_t { C = 0, SB, SI, SV, SR, SF, UN };
struct Val { uint64_t lo = 0, hi = 0; Z3_ast e = nullptr; K k = C; };
static Val cv(uint64_t x) { Val v; v.lo = x; return v; }
static Val cd(double d) { Val v; memcpy(&v.lo, &d, 8); return v; }
static double dbl(const Val& v) { double d; memcpy(&d, &v.lo, 8); return d; }
static z3::expr X(const Val& v) { return z3::expr(*Z, v.e); }
static Z3_ast keep(const z3::expr& e) { Z3_inc_ref(*Z, e); return e; }
static std::unordered_map<Z3_ast, pair<i128, i128>> IV;
static Val mk(const z3::expr& e0, K k) {
    z3::expr e = e0.simplify(); Val v;
    if (k == SB) { if (e.is_true()) return cv(1); if (e.is_false()) return cv(0); }
    else if (k == SI) { int64_t n; if (e.is_numeral() && e.is_numeral_i64(n)) return cv((uint64_t)n); }
    else if (k == SV) { uint64_t n; if (e.is_numeral() && Z3_get_numeral_uint64(*Z, e, &n)) return cv(n); }
    else if (k == SR) {
        int64_t n, d; if (e.is_numeral() && Z3_get_numeral_small(*Z, e, &n, &d) && d > 0 && (d & (d - 1)) == 0 && llabs(n) < (1ll << 52)) return cd((double)n / (double)d);
    } else if (k == SF) {
        if (Z3_is_numeral_ast(*Z, e) || Z3_fpa_is_numeral(*Z, e)) {
            if (Z3_fpa_is_numeral_nan(*Z, e)) return cd(NAN);
            z3::expr b = z3::expr(*Z, Z3_mk_fpa_to_ieee_bv(*Z, e)).simplify(); uint64_t n;
            if (Z3_get_numeral_uint64(*Z, b, &n)) return cv(n);
        }
    }
    v.k = k; v.e = keep(e); return v;
}
struct Var { string name; char type; Z3_ast e; }; // i int, v bv, r real, f fp, b bool
static vector<Var> VARS;
struct SchedRec { int tid; };
static vector<int> SCHED;
static map<string, int> nameCount;
static string uniq(const string& n) { int c = nameCount[n]++; return c ? n + "#" + std::to_string(c) : n; }

static map<string, pair<char, string>> concreteVals; static bool concreteMode = false;

static z3::expr ratOf(double d) { // exact
    int ex; double m = frexp(d, &ex); int64_t mi = (int64_t)ldexp(m, 53); ex -= 53;
    while (mi && !(mi & 1)) { mi >>= 1; ex++; }
    string s = std::to_string(mi);
    z3::expr r = Z->real_val(s.c_str());
    if (mi == 0) return Z->real_val(0);
    if (ex == 0) return r;
    z3::expr two = Z->real_val(2);
    // build power exactly using int numerals
    string p = "1"; // compute 2^|ex| in decimal
    int a = abs(ex); vector<int> dg{1};
    for (int i = 0; i < a; i++) { int c = 0; for (auto& q : dg) { int t = q * 2 + c; q = t % 10; c = t / 10; } if (c) dg.push_back(c); }
    p.clear(); for (int i = dg.size(); i-- > 0;) p += char('0' + dg[i]);
    z3::expr pe = Z->real_val(p.c_str());
    return (ex > 0 ? r * pe : r / pe).simplify();
}
static void addPC(const z3::expr& e) {
    PC->push_back(e); SOL->add(e);
    if (MDL) { z3::expr r = MDL->eval(e, true); if (!r.is_true()) MDL.reset(); }
}
static z3::check_result check1(const z3::expr* extra, bool wantModel = true) {
    double t = nowS(); S->queries++;
    SOL->push(); if (extra) SOL->add(*extra);
    z3::check_result r = z3::unknown;
    try { r = SOL->check(); } catch (z3::exception&) { r = z3::unknown; }
    if (r == z3::sat && wantModel) { try { MDL = SOL->get_model(); } catch (z3::exception&) { MDL.reset(); } }
    SOL->pop();
    S->solverUs += (uint64_t)((nowS() - t) * 1e6);
    if (r == z3::sat) S->qsat++; else if (r == z3::unsat) S->qunsat++; else S->qunk++;
    return r;
}
// feasibility of PC /\ e ; unknown counts as feasible (over-approximation, confirmed later by replay)
static bool feasible(const z3::expr& e, std::optional<z3::model>* out = nullptr) {
    if (e.is_true()) return true; if (e.is_false()) return false;
    if (MDL) { z3::expr r = MDL->eval(e, true); if (r.is_true()) { if (out) *out = MDL; return true; } }
    std::optional<z3::model> sv = MDL;
    auto r = check1(&e);
    if (out) { if (r == z3::sat) *out = MDL; else out->reset(); }
    MDL = sv;
    return r != z3::unsat;
}
static vector<uint8_t>* decisionLog = nullptr;
static bool branchExpr(const z3::expr& c) {
    checkDeadline();
    std::optional<z3::model> mt, mf;
    bool ft = feasible(c, &mt), ff = feasible(!c, &mf);
    if (!ft && !ff) endPath(END_ASSUME, "infeasible path");
    if (ft && ff) {
        if (forkPath()) { MDL = mf; addPC(!c); return false; }
        MDL = mt; addPC(c); return true;
    }
    if (ft) { addPC(c); return true; }
    addPC(!c); return false;
}
static bool branch(const Val& v) {
    if (v.k == C) return v.lo & 1;
    if (v.k == SB) return branchExpr(X(v));
    unsup("branch on non-bool");
}

// ---- models as name -> value
typedef map<string, string> ModelMap;
static string numStr(const z3::expr& v, char type) {
    if (type == 'b') return v.is_true() ? "1" : "0";
    if (type == 'f') {
        if (Z3_fpa_is_numeral(*Z, v) || Z3_is_numeral_ast(*Z, v)) {
            if (Z3_fpa_is_numeral_nan(*Z, v)) return "nan";
            z3::expr b = z3::expr(*Z, Z3_mk_fpa_to_ieee_bv(*Z, v)).simplify(); uint64_t n = 0; Z3_get_numeral_uint64(*Z, b, &n);
            double d; memcpy(&d, &n, 8); char buf[64]; snprintf(buf, 64, "%a", d); return buf;
        }
        return "0";
    }
    if (v.is_algebraic()) { string s = v.get_decimal_string(30); if (!s.empty() && s.back() == '?') s.pop_back(); return s; }
    if (v.is_numeral()) { return Z3_get_numeral_string(*Z, v); }
    return "0";
}
static double numDbl(const string& s) { // "p/q" or decimal
    auto p = s.find('/'); 
    if (s.find("0x") != string::npos || s == "nan" || s.find("inf") != string::npos) return strtod(s.c_str(), nullptr);
    if (p == string::npos) return strtod(s.c_str(), nullptr);
    string a = s.substr(0, p), b = s.substr(p + 1);
    // long double division of decimal strings: good to < 1ulp for typical magnitudes
    long double x = strtold(a.c_str(), nullptr), y = strtold(b.c_str(), nullptr);
    if (std::isinf(x) || std::isinf(y)) return strtod(a.c_str(), nullptr) / strtod(b.c_str(), nullptr);
    return (double)(x / y);
}
static ModelMap modelMap(const z3::model& m) {
    ModelMap r; for (auto& v : VARS) r[v.name] = numStr(m.eval(z3::expr(*Z, v.e), true), v.type); return r;
}

// ---- uninterpreted transcendental functions, ackermannised
struct UF { char f; Z3_ast a, b, r; string rn; }; // e exp, l log, p pow
static vector<UF> UFS;
static std::unordered_map<Z3_ast, Z3_ast> sqrtMap;
static int ufN = 0;

// ---- int relaxation for NRA back ends
static bool relaxLossy;
static std::unordered_map<unsigned, z3::expr>* rcache;
static z3::expr relax(const z3::expr& e) {
    auto it = rcache->find(Z3_get_ast_id(*Z, e)); if (it != rcache->end()) return it->second;
    auto done = [&](z3::expr r) { rcache->emplace(Z3_get_ast_id(*Z, e), r); return r; };
    if (e.is_app()) {
        unsigned n = e.num_args(); vector<z3::expr> a; for (unsigned i = 0; i < n; i++) a.push_back(relax(e.arg(i)));
        auto k = e.decl().decl_kind();
        if (n == 0) {
            if (e.is_int()) { if (e.is_numeral()) return done(Z->real_val(Z3_get_numeral_string(*Z, e))); relaxLossy = true; return done(Z->real_const((e.decl().name().str() + "!r").c_str())); }
            return done(e);
        }
        bool anyReal = e.is_int(); for (auto& x : a) if (x.is_real()) anyReal = true;
        switch (k) {
            case Z3_OP_TO_REAL: return done(a[0]);
            case Z3_OP_ADD: { z3::expr r = a[0]; for (unsigned i = 1; i < n; i++) r = r + a[i]; return done(r); }
            case Z3_OP_SUB: { z3::expr r = a[0]; for (unsigned i = 1; i < n; i++) r = r - a[i]; return done(r); }
            case Z3_OP_MUL: { z3::expr r = a[0]; for (unsigned i = 1; i < n; i++) r = r * a[i]; return done(r); }
            case Z3_OP_UMINUS: return done(-a[0]);
            case Z3_OP_DIV: return done(a[0] / a[1]);
            case Z3_OP_LE: return done(a[0] <= a[1]); case Z3_OP_GE: return done(a[0] >= a[1]);
            case Z3_OP_LT: return done(a[0] < a[1]); case Z3_OP_GT: return done(a[0] > a[1]);
            case Z3_OP_EQ: return done(a[0] == a[1]);
            case Z3_OP_DISTINCT: if (n == 2) return done(a[0] != a[1]); break;
            case Z3_OP_ITE: return done(z3::ite(a[0], a[1], a[2]));
            case Z3_OP_IDIV: case Z3_OP_MOD: case Z3_OP_REM: case Z3_OP_TO_INT: {
                relaxLossy = true; return done(Z->real_const(("relax!" + std::to_string(Z3_get_ast_id(*Z, e))).c_str()));
            }
            case Z3_OP_IS_INT: relaxLossy = true; return done(Z->bool_const(("relaxb!" + std::to_string(Z3_get_ast_id(*Z, e))).c_str()));
            default: break;
        }
        if (anyReal && !e.is_bool()) { relaxLossy = true; return done(e.is_int() || e.is_real() ? Z->real_const(("relax!" + std::to_string(Z3_get_ast_id(*Z, e))).c_str()) : e); }
        z3::expr_vector v(*Z); for (auto& x : a) v.push_back(x);
        return done(e.decl()(v));
    }
    return done(e);
}

static void childLimits(double secs) { struct rlimit rl { (rlim_t)6ull << 30, (rlim_t)6ull << 30 }; setrlimit(RLIMIT_AS, &rl); alarm((unsigned)(secs + 1)); signal(SIGALRM, SIG_DFL); }
// portfolio; answers: 1 sat (model in mm), 0 unsat, -1 unknown
static int hardCheck(const vector<z3::expr>& cons, ModelMap& mm, double secs, bool hasFP) {
    S->hard++; double t0 = nowS();
    struct P { pid_t p; int fd; string buf; bool open; };
    vector<P> ps; int ncfg = hasFP ? 2 : 4;
    fflush(nullptr);
    for (int cfg = 0; cfg < ncfg; cfg++) {
        int fd[2]; if (pipe(fd)) continue;
        pid_t p = fork();
        if (p == 0) {
            close(fd[0]); childLimits(secs);
            string out = "unknown\n";
            try {
                z3::params prm(*Z); bool lossy = false; z3::check_result r = z3::unknown; std::optional<z3::model> m;
                vector<z3::expr> cs;
                if (cfg == 1 && !hasFP) {
                    std::unordered_map<unsigned, z3::expr> rc; rcache = &rc; relaxLossy = false;
                    for (auto& c : cons) cs.push_back(relax(c)); lossy = relaxLossy;
                } else cs = cons;
                if (cfg == 1 && !hasFP) {
                    z3::tactic t = z3::tactic(*Z, "simplify") & z3::tactic(*Z, "propagate-values") & z3::tactic(*Z, "elim-term-ite") & z3::tactic(*Z, "solve-eqs") & z3::tactic(*Z, "purify-arith") & z3::tactic(*Z, "simplify") & z3::tactic(*Z, "tseitin-cnf") & z3::tactic(*Z, "qfnra-nlsat");
                    z3::solver s = t.mk_solver(); for (auto& c : cs) s.add(c); r = s.check(); if (r == z3::sat && !lossy) m = s.get_model(); if (r == z3::sat && lossy) r = z3::unknown;
                } else if (cfg == 0) {
                    z3::solver s(*Z); for (auto& c : cs) s.add(c); r = s.check(); if (r == z3::sat) m = s.get_model();
                } else if (cfg == 2 || (hasFP && cfg == 1)) {
                    z3::solver s = hasFP ? z3::tactic(*Z, "qffp").mk_solver() : z3::solver(*Z, z3::solver::simple());
                    if (!hasFP) { z3::params pp(*Z); pp.set("arith.solver", 2u); try { s.set(pp); } catch (...) {} }
                    for (auto& c : cs) s.add(c); r = s.check(); if (r == z3::sat) m = s.get_model();
                } else {
                    z3::solver s(*Z, z3::solver::simple()); z3::params pp(*Z); pp.set("random_seed", 7u); s.set(pp);
                    for (auto& c : cs) s.add(c); r = s.check(); if (r == z3::sat) m = s.get_model();
                }
                if (r == z3::unsat) out = "unsat\n";
                else if (r == z3::sat && m) { out = "sat\n"; for (auto& kv : modelMap(*m)) out += kv.first + "\t" + kv.second + "\n"; 
                    for (auto& u : UFS) out += u.rn + "\t" + numStr(m->eval(z3::expr(*Z, u.r), true), 'r') + "\n" + u.rn + ".a\t" + numStr(m->eval(z3::expr(*Z, u.a), true), 'r') + "\n" + (u.b ? u.rn + ".b\t" + numStr(m->eval(z3::expr(*Z, u.b), true), 'r') + "\n" : ""); }
            } catch (z3::exception& ex) { out = "unknown\n"; } catch (...) { out = "unknown\n"; }
            size_t o = 0; while (o < out.size()) { ssize_t w = write(fd[1], out.data() + o, out.size() - o); if (w <= 0) break; o += w; }
            _exit(0);
        }
        close(fd[1]); ps.push_back({p, fd[0], "", true});
    }
    int res = -1; string ans;
    while (res < 0) {
        vector<pollfd> pf; vector<int> ix;
        for (size_t i = 0; i < ps.size(); i++) if (ps[i].open) { pf.push_back({ps[i].fd, POLLIN, 0}); ix.push_back(i); }
        if (pf.empty()) break;
        double left = secs - (nowS() - t0); if (left <= 0) break;
        int n = poll(pf.data(), pf.size(), (int)(left * 1000) + 1); if (n <= 0) break;
        for (size_t j = 0; j < pf.size(); j++) if (pf[j].revents) {
            char b[65536]; P& q = ps[ix[j]]; ssize_t r = read(q.fd, b, sizeof b);
            if (r > 0) q.buf.append(b, r);
            else { q.open = false; if (!q.buf.compare(0, 5, "unsat")) { res = 0; } else if (!q.buf.compare(0, 3, "sat")) { res = 1; ans = q.buf; } if (res >= 0) break; }
        }
    }
    for (auto& q : ps) { kill(q.p, SIGKILL); close(q.fd); int st; waitpid(q.p, &st, 0); }
    if (res == 1) { mm.clear(); std::istringstream is(ans); string l; getline(is, l); while (getline(is, l)) { auto t = l.find('\t'); if (t != string::npos) mm[l.substr(0, t)] = l.substr(t + 1); } }
    S->solverUs += (uint64_t)((nowS() - t0) * 1e6); S->queries++;
    if (res == 1) S->qsat++; else if (res == 0) S->qunsat++; else { S->qunk++; S->hardUnk++; }
    return res;
}
static bool pcHasFP = false;
static double ufTrue(const UF& u, double a, double b) { return u.f == 'e' ? exp(a) : u.f == 'l' ? log(a) : pow(a, b); }
// sat with refinement of the transcendental functions. 1: consistent model, 0: unsat, -1: unknown
static int solveRefined(const z3::expr& extra, ModelMap& mm) {
    vector<z3::expr> cons(*PC); cons.push_back(extra);
    int r;
    if (UFS.empty() ) {
        // quick incremental attempt first
        double t = nowS(); S->queries++; SOL->push(); SOL->add(extra); z3::check_result q = z3::unknown; try { q = SOL->check(); } catch (z3::exception&) {}
        if (q == z3::sat) { S->qsat++; try { mm = modelMap(SOL->get_model()); } catch (z3::exception&) { q = z3::unknown; } } 
        SOL->pop(); S->solverUs += (uint64_t)((nowS() - t) * 1e6);
        if (q == z3::unsat) { S->qunsat++; return 0; }
        if (q == z3::sat) return 1;
        S->qunk++;
        return hardCheck(cons, mm, opt.hardTimeout, pcHasFP);
    }
    { double t = nowS(); S->queries++; SOL->push(); SOL->add(extra); z3::check_result q = z3::unknown; try { q = SOL->check(); } catch (z3::exception&) {} SOL->pop(); S->solverUs += (uint64_t)((nowS() - t) * 1e6);
      if (q == z3::unsat) { S->qunsat++; return 0; } if (q == z3::sat) S->qsat++; else S->qunk++; }
    int lastSat = -1;
    for (int round = 0; round <= opt.refine; round++) {
        S->refineRounds++;
        r = hardCheck(cons, mm, opt.hardTimeout, pcHasFP);
        if (r == 0) return 0;
        if (r < 0) return -1;
        lastSat = 1;
        bool ok = true; vector<z3::expr> pins; vector<z3::expr> lem;
        for (auto& u : UFS) {
            double a = numDbl(mm[u.rn + ".a"]), b = u.b ? numDbl(mm[u.rn + ".b"]) : 0, v = numDbl(mm[u.rn]), f = ufTrue(u, a, b);
            if (u.f == 'e' && a > 700) { a = 700; f = exp(a); ok = false; }
            if (u.f == 'e' && a < -700) { a = -700; f = exp(a); ok = false; }
            if (!std::isfinite(f)) { ok = false; continue; }
            if (fabs(v - f) > 1e-9 * (1 + fabs(f))) ok = false;
            z3::expr A(*Z, u.a), R(*Z, u.r);
            double eps = 1e-13 * (1 + fabs(f)) + (u.f == 'e' ? f * 1e-13 : 0);
            z3::expr va = ratOf(a), lo = ratOf(f - eps), hi = ratOf(f + eps);
            pins.push_back(A == va); if (u.b) pins.push_back(z3::expr(*Z, u.b) == ratOf(b));
            pins.push_back(R >= lo && R <= hi);
            if (u.f == 'e') {
                lem.push_back(z3::implies(A <= va, R <= hi)); lem.push_back(z3::implies(A >= va, R >= lo));
                lem.push_back(R >= lo + ratOf(f * (1 - 1e-13)) * (A - va) - ratOf(1e-13 * (1 + fabs(f))) || A < va);
                lem.push_back(R >= lo + ratOf(f * (1 + 1e-13)) * (A - va) || A > va);
            } else if (u.f == 'l') {
                lem.push_back(z3::implies(A <= va, R <= hi)); lem.push_back(z3::implies(A >= va, R >= lo));
                if (a > 0) lem.push_back(R <= hi + ratOf((1 / a) * (1 + 1e-13)) * (A - va) || A < va), lem.push_back(R <= hi + ratOf((1 / a) * (1 - 1e-13)) * (A - va) || A > va);
            } else if (u.b) lem.push_back(z3::implies(A == va && z3::expr(*Z, u.b) == ratOf(b), R >= lo && R <= hi));
        }
        if (ok) return 1;
        vector<z3::expr> c2(cons); for (auto& p : pins) c2.push_back(p);
        ModelMap m2; int r2 = hardCheck(c2, m2, opt.hardTimeout / 2, pcHasFP);
        if (r2 == 1) { mm = m2; return 1; }
        // secants against previously seen points are implied by monotone lemmas + further rounds
        for (auto& l : lem) cons.push_back(l);
    }
    return lastSat == 1 ? 2 : -1; // 2: sat but the transcendental values are still inconsistent
}

static ModelMap curModel() {
    ModelMap mm; if (!UFS.empty()) { int r = solveRefined(Z->bool_val(true), mm); if (r >= 1) return mm; }
    auto r = check1(nullptr); if (r == z3::sat && MDL) return modelMap(*MDL);
    if (hardCheck(*PC, mm, opt.hardTimeout, pcHasFP) == 1) return mm;
    return mm;
}
static void writeCex(const string& kind, const string& msg, const ModelMap& mm, const string& extra = "") {
    uint64_t n = S->cexN++; if ((int)n >= opt.maxCex) return;
    std::ofstream f(opt.out + "/cex_" + std::to_string(n) + ".txt.tmp");
    f << "!kind " << kind << "\n!msg " << msg << "\n"; if (!extra.empty()) f << "!extra " << extra << "\n";
    if (opt.unlockPt) f << "!unlock\n"; if (!SCHED.empty()) { f << "!sched"; for (int t : SCHED) f << " " << t; f << "\n"; }
    for (auto& v : VARS) {
        auto it = mm.find(v.name); string s = it == mm.end() ? "0" : it->second; char b[80];
        if (v.type == 'r' || v.type == 'f') { snprintf(b, 80, "%a", numDbl(s)); f << v.name << " " << v.type << " " << b << "  # " << numDbl(s) << "\n"; }
        else f << v.name << " " << v.type << " " << s << "\n";
    }
    f.close(); rename((opt.out + "/cex_" + std::to_string(n) + ".txt.tmp").c_str(), (opt.out + "/cex_" + std::to_string(n) + ".txt").c_str());
}
// a few models of completed paths, replayed natively to validate the encoding
static void sampleOkPath() {
    if (opt.samples == 0 || concreteMode) return; uint64_t n = S->tIdx++; if ((int)n >= opt.samples) return;
    ModelMap mm = curModel(); if (mm.empty() && !VARS.empty()) return;
    std::ofstream f(opt.out + "/ok_" + std::to_string(n) + ".txt"); f << "!kind ok\n";
    if (opt.unlockPt) f << "!unlock\n"; if (!SCHED.empty()) { f << "!sched"; for (int t : SCHED) f << " " << t; f << "\n"; }
    for (auto& v : VARS) { auto it = mm.find(v.name); string s = it == mm.end() ? "0" : it->second; char b[80]; if (v.type == 'r' || v.type == 'f') { snprintf(b, 80, "%a", numDbl(s)); f << v.name << " " << v.type << " " << b << "\n"; } else f << v.name << " " << v.type << " " << s << "\n"; }
}
// unconditional failure on this path (memory error, uncaught exception, deadlock, concrete assertion false)
[[noreturn]] static void failPath(const string& kind, const string& msg, const string& extra = "") {
    Site* st = site(msg);
    if (opt.maxCex > (int)S->cexN) {
        // make sure the path condition is satisfiable
        ModelMap mm; int r = 1;
        if (!PC->empty()) r = solveRefined(Z->bool_val(true), mm);
        if (r == 0) endPath(END_ASSUME, "infeasible path");
        if (r < 0) { st->unknown++; endPath(END_UNKNOWN, "undecided: " + msg); }
        if (r == 2) { st->unknown++; }
        st->violated++; writeCex(kind, msg, mm, extra);
    } else st->violated++;
    endPath(END_VIOL, msg);
}

#include "mem.inc"
#include "ops.inc"
#include "interp.inc"
#include "ext.inc"
#include "main.inc"
