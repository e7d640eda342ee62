// ------------------------------------------------------------------ environment: intrinsics, C/C++ runtime, threads, harness API
static void ret(CallCtx& c, const Val& v) { c.ret.assign(1, v); }
static string argStr(const Val& v) { return readCStr(addrVal(v)); }

// ---- happens-before race detection
struct Ep { int tid = -1; uint32_t clk = 0; string where; };
struct Shadow { Ep w; vector<Ep> r; };
static std::unordered_map<uint64_t, Shadow> SH;
static std::unordered_map<uint64_t, vector<uint32_t>> SYNCVC;
static void vcJoin(vector<uint32_t>& a, const vector<uint32_t>& b) { if (a.size() < b.size()) a.resize(b.size()); for (size_t i = 0; i < b.size(); i++) a[i] = std::max(a[i], b[i]); }
static uint32_t vcGet(const vector<uint32_t>& a, int t) { return t < (int)a.size() ? a[t] : 0; }
static void vcTick(Thread& t) { if ((int)t.vc.size() <= t.id) t.vc.resize(t.id + 1); t.vc[t.id]++; }
static int raceMute = 0;
static std::unordered_map<string, int> raceSeen;
static string shortWhere() {
    Thread& t = TH[curT]; string r; int k = 0;
    for (int i = (int)t.st.size() - 1; i >= 0 && k < 6; i--) { string d = demangle(t.st[i].f->name); auto p = d.find("thts::"); auto q = d.find('('); string h = d.substr(0, q == string::npos ? d.size() : q); if (h.size() > 70) h = h.substr(0, 70); if (k == 0 || (p != string::npos && p < 20)) { r += (k ? " < " : "") + h; k++; } }
    return r;
}
static void raceReport(uint64_t a, const Ep& o, bool w1, bool w2) {
    S->races++;
    failPath("race", "data race (unsynchronised conflicting accesses)", (w1 ? "write in " : "read in ") + o.where + " | " + (w2 ? "write in " : "read in ") + shortWhere());
}
static void raceOne(uint64_t a, bool write) {
    Thread& t = TH[curT]; Shadow& s = SH[a];
    if (s.w.tid >= 0 && s.w.tid != t.id && s.w.clk > vcGet(t.vc, s.w.tid)) raceReport(a, s.w, true, write);
    if (write) {
        for (auto& e : s.r) if (e.tid != t.id && e.clk > vcGet(t.vc, e.tid)) raceReport(a, e, false, true);
        s.r.clear(); s.w.tid = t.id; s.w.clk = vcGet(t.vc, t.id); s.w.where = shortWhere();
    } else {
        for (auto& e : s.r) if (e.tid == t.id) { if (e.clk != vcGet(t.vc, t.id)) { e.clk = vcGet(t.vc, t.id); e.where = shortWhere(); } return; }
        Ep e; e.tid = t.id; e.clk = vcGet(t.vc, t.id); e.where = shortWhere(); s.r.push_back(e);
    }
}
static void raceAccess(uint64_t a, uint64_t n, bool write, bool atomic, Obj* o) {
    if (raceMute || o->constant || o->ext || TH.size() < 2) return;
    S->memOps++;
    raceOne(a, write);
    if (n > 8) for (uint64_t x = (a + 8) & ~7ull; x < a + n; x += 8) raceOne(x, write);
}
static void atomicHook(uint64_t a, unsigned n, bool w) { Thread& t = TH[curT]; auto& v = SYNCVC[a]; vcJoin(t.vc, v); if (w) { vcJoin(v, t.vc); vcTick(t); } }

// ---- threads and scheduling
enum PK { P_NONE, P_LOCK, P_WAKE, P_JOIN, P_ANY, P_SLEEP };
struct Pend { PK k = P_NONE; uint64_t m = 0; int tgt = -1; bool timed = false; };
static vector<Pend> PEND; static vector<char> GRANT;
static std::unordered_map<uint64_t, int> MUT;   // mutex -> owner + 1
static bool needSched = false; static int preempts = 0;
static bool enabledT(int i) {
    Thread& t = TH[i]; if (t.state == T_DONE) return false; Pend& p = PEND[i];
    switch (p.k) {
        case P_LOCK: return !MUT.count(p.m);
        case P_WAKE: return (t.woken || p.timed) && !MUT.count(p.m);
        case P_JOIN: return TH[p.tgt].state == T_DONE;
        default: return true;
    }
}
static string threadsDump() {
    string r; for (size_t i = 0; i < TH.size(); i++) { if (TH[i].state == T_DONE) continue; int sv = curT; curT = i; r += "[T" + std::to_string(i) + (PEND[i].k == P_LOCK ? " waits for mutex" + (MUT.count(PEND[i].m) ? " held by T" + std::to_string(MUT[PEND[i].m] - 1) : string("")) : PEND[i].k == P_WAKE ? " waits for notification" : PEND[i].k == P_JOIN ? " joins T" + std::to_string(PEND[i].tgt) : "") + ": " + shortWhere() + "] "; curT = sv; }
    return r;
}
static void grantThread(int i) { SCHED.push_back(i); curT = i; GRANT[i] = PEND[i].k != P_NONE; } // a thread that has not reached a sync operation yet just starts running
static void schedule() {
    needSched = false; checkDeadline(); S->schedPoints++;
    vector<int> en; for (size_t i = 0; i < TH.size(); i++) if (enabledT(i)) en.push_back(i);
    if (en.empty()) {
        if (opt.spurious) {}
        failPath("deadlock", "deadlock: no thread can make progress", threadsDump());
    }
    if (PEND[curT].k == P_SLEEP && en.size() > 1) en.erase(std::find(en.begin(), en.end(), curT)); // a thread that sleeps lets the others run
    bool curEn = false; for (int i : en) if (i == curT) curEn = true;
    if (curEn) {
        if (en.size() == 1 || preempts >= opt.preempt) { grantThread(curT); return; }
        int me = curT;
        for (int i : en) { if (i == me) continue; if (forkPath()) { preempts++; grantThread(i); return; } }
        grantThread(me); return;
    }
    for (size_t k = 0; k + 1 < en.size(); k++) if (forkPath()) { grantThread(en[k]); return; }
    grantThread(en.back());
}
// a synchronisation operation of thread t: returns true when it may execute now
static bool syncPoint(Thread& t, CallCtx& c, PK k, uint64_t m = 0, int tgt = -1, bool timed = false) {
    if (GRANT[t.id]) { GRANT[t.id] = 0; PEND[t.id] = Pend(); return true; }
    PEND[t.id].k = k; PEND[t.id].m = m; PEND[t.id].tgt = tgt; PEND[t.id].timed = timed;
    if (TH.size() == 1 && enabledT(t.id)) { PEND[t.id] = Pend(); return true; }
    t.st.back().pc--; needSched = true; c.blocked = true; return false;
}
static void threadDone(Thread& t) {
    t.state = T_DONE;
    if (t.id == 0) return;
    needSched = true;
}
static void mutexAcquire(Thread& t, uint64_t m) { MUT[m] = t.id + 1; t.held.insert(m); if (opt.race) vcJoin(t.vc, SYNCVC[m]); }
static void mutexRelease(Thread& t, uint64_t m) {
    auto it = MUT.find(m); if (it == MUT.end() || it->second != t.id + 1) failPath("sync", "mutex unlocked by a thread that does not hold it", shortWhere());
    MUT.erase(it); t.held.erase(m); if (opt.race) { SYNCVC[m] = t.vc; vcTick(t); }
}
static std::map<uint64_t, int> RECUR; // further times a recursive mutex is held
static bool recursiveMutex(uint64_t m) { Obj* o = findObj(m); uint64_t off = m - o->base; if (off + 20 > o->size) return false; int k; memcpy(&k, o->data + off + 16, 4); return k == 1; }
static void x_lock(Thread& t, CallCtx& c) {
    uint64_t m = addrVal(c.a[0]); bool r = raceOn; raceOn = false; access(m, 1, true); raceOn = r;
    auto it = MUT.find(m); if (it != MUT.end() && it->second == t.id + 1 && recursiveMutex(m)) { RECUR[m]++; ret(c, cv(0)); return; } if (it != MUT.end() && it->second == t.id + 1) failPath("deadlock", "mutex locked again by the thread that holds it", shortWhere());
    if (!syncPoint(t, c, P_LOCK, m)) return;
    mutexAcquire(t, m); ret(c, cv(0));
}
static void x_trylock(Thread& t, CallCtx& c) {
    uint64_t m = addrVal(c.a[0]); if (!syncPoint(t, c, P_ANY)) return;
    if (MUT.count(m) && MUT[m] == t.id + 1 && recursiveMutex(m)) { RECUR[m]++; ret(c, cv(0)); } else if (MUT.count(m)) ret(c, cv(16)); else { mutexAcquire(t, m); ret(c, cv(0)); }
}
static void x_unlock(Thread& t, CallCtx& c) {
    if (GRANT[t.id]) { syncPoint(t, c, P_ANY); ret(c, cv(0)); return; }
    uint64_t m = addrVal(c.a[0]); auto r = RECUR.find(m); if (r != RECUR.end() && r->second > 0 && MUT.count(m) && MUT[m] == t.id + 1) { r->second--; ret(c, cv(0)); return; }
    mutexRelease(t, m); if (opt.unlockPt && !syncPoint(t, c, P_ANY)) return; ret(c, cv(0));
}
// wait: phase 0 release and enqueue (a scheduling point before), phase 1 reacquire
static void condWait(Thread& t, CallCtx& c, uint64_t cvAddr, uint64_t m, bool timed) {
    if (t.state == T_COND) { // woken, granted
        if (!GRANT[t.id]) { t.st.back().pc--; needSched = true; c.blocked = true; return; }
        GRANT[t.id] = 0; bool w = t.woken; PEND[t.id] = Pend(); t.state = T_RUN; t.woken = false; t.waitOn = 0; mutexAcquire(t, m); ret(c, cv(timed && !w ? 110 : 0)); return;
    }
    if (TH.size() > 1 && !syncPoint(t, c, P_ANY)) return;
    if (!MUT.count(m) || MUT[m] != t.id + 1) failPath("sync", "condition variable wait without holding the mutex", shortWhere());
    mutexRelease(t, m); t.state = T_COND; t.waitOn = cvAddr; t.waitM = m; t.woken = false;
    PEND[t.id] = Pend(); PEND[t.id].k = P_WAKE; PEND[t.id].m = m; PEND[t.id].timed = timed;
    t.st.back().pc--; needSched = true; c.blocked = true;
}
static void x_cvwait(Thread& t, CallCtx& c) { uint64_t l = addrVal(c.a[1]); condWait(t, c, addrVal(c.a[0]), rd8(l), false); }
static void x_pcondwait(Thread& t, CallCtx& c) { condWait(t, c, addrVal(c.a[0]), addrVal(c.a[1]), false); }
static void x_pcondtimed(Thread& t, CallCtx& c) { condWait(t, c, addrVal(c.a[0]), addrVal(c.a[1]), true); }
static void x_notifyall(Thread& t, CallCtx& c) {
    if (!syncPoint(t, c, P_ANY)) return; uint64_t a = addrVal(c.a[0]);
    for (auto& o : TH) if (o.state == T_COND && o.waitOn == a) o.woken = true; ret(c, cv(0));
}
static void x_notifyone(Thread& t, CallCtx& c) {
    if (!syncPoint(t, c, P_ANY)) return; uint64_t a = addrVal(c.a[0]); vector<int> ws;
    for (auto& o : TH) if (o.state == T_COND && o.waitOn == a && !o.woken) ws.push_back(o.id);
    int pick = ws.empty() ? -1 : ws.back(); for (size_t k = 0; k + 1 < ws.size(); k++) if (forkPath()) { pick = ws[k]; break; }
    if (ws.size() > 1) SCHED.push_back(1000 + pick);
    if (pick >= 0) TH[pick].woken = true; ret(c, cv(0));
}
static void x_threadstart(Thread& t, CallCtx& c) {
    uint64_t self = addrVal(c.a[0]), up = addrVal(c.a[1]); uint64_t st = rd8(up); storeMem(up, 8, cv(0));
    FnInfo* f = nullptr; if (auto* F = M->getFunction("vs_thread_entry")) f = fnInfo(F); else unsup("vs_thread_entry missing");
    Thread n; n.id = TH.size(); if (opt.race) { n.vc = t.vc; vcTick(t); }
    storeMem(self, 8, cv(n.id)); TH.push_back(n); PEND.resize(TH.size()); GRANT.resize(TH.size());
    vcTick(TH.back()); if (TH.size() > S->threadsMax) S->threadsMax = TH.size();
    if (opt.race) raceOn = true;
    pushFrame(TH.back(), f, {cv(st)});
}
static void x_threadjoin(Thread& t, CallCtx& c) {
    uint64_t self = addrVal(c.a[0]); uint64_t id = rd8(self); if (id == 0 || id >= TH.size()) failPath("sync", "join of a non-joinable thread", shortWhere());
    if (!syncPoint(t, c, P_JOIN, 0, (int)id)) return;
    if (opt.race) vcJoin(t.vc, TH[id].vc); storeMem(self, 8, cv(0));
}

static void x_threaddetach(Thread& t, CallCtx& c) { uint64_t self = addrVal(c.a[0]); uint64_t id = rd8(self); if (id == 0 || id >= TH.size()) failPath("sync", "detach of a non-joinable thread", shortWhere()); storeMem(self, 8, cv(0)); }
static void x_ret0i(Thread& t, CallCtx& c) { ret(c, cv(0)); }
static void x_ncpu(Thread& t, CallCtx& c) { ret(c, cv(8)); }
// ---- strings and streams
static void wr8(uint64_t a, uint64_t v) { bool r = raceOn; raceOn = false; storeMem(a, 8, cv(v)); raceOn = r; }
static void writeString(uint64_t a, const string& s) {
    uint64_t p; bool r = raceOn; raceOn = false;
    if (s.size() <= 15) p = a + 16; else { p = allocObj(s.size() + 1, true, false, true); wr8(a + 16, s.size()); }
    wr8(a, p); wr8(a + 8, s.size()); for (size_t i = 0; i <= s.size(); i++) storeMem(p + i, 1, cv((uint8_t)s.c_str()[i])); raceOn = r;
}
static string readString(uint64_t a) { uint64_t p = rd8(a), n = rd8(a + 8); string s; for (uint64_t i = 0; i < n; i++) { Obj* o = access(p + i, 1, false); s += (char)o->data[p + i - o->base]; } return s; }
static map<uint64_t, string> STREAMS;
static map<unsigned, Val> SYMTOK; // symbolic values that were printed, by the number in their token
static string symStr(const Val& v, bool d) { if (v.k == UN) return "<undef>"; if (v.k == C) return ""; SYMTOK[Z3_get_ast_id(*Z, v.e)] = v; return "<sym:" + std::to_string(Z3_get_ast_id(*Z, v.e)) + ">"; }
static string& strm(Thread& t, CallCtx& c) { return STREAMS[addrVal(c.a[0])]; }
static void outI(Thread& t, CallCtx& c, unsigned w, bool sign) { string& s = strm(t, c); const Val& v = c.a[1]; s += v.k == C ? (sign ? std::to_string((int64_t)sx(v.lo, w)) : std::to_string(msk(v.lo, w))) : symStr(v, false); ret(c, c.a[0]); }
static void x_outi(Thread& t, CallCtx& c) { outI(t, c, 32, true); }
static void x_outl(Thread& t, CallCtx& c) { outI(t, c, 64, true); }
static void x_outm(Thread& t, CallCtx& c) { outI(t, c, 64, false); }
static void x_outj(Thread& t, CallCtx& c) { outI(t, c, 32, false); }
static void x_outd(Thread& t, CallCtx& c) { string& s = strm(t, c); const Val& v = c.a[1]; if (v.k == C) { std::ostringstream o; o << dbl(v); s += o.str(); } else s += symStr(v, true); ret(c, c.a[0]); }
static void x_outp(Thread& t, CallCtx& c) { char b[40]; snprintf(b, 40, "0x%lx", (unsigned long)addrVal(c.a[1])); strm(t, c) += b; ret(c, c.a[0]); }
static void x_outb(Thread& t, CallCtx& c) { const Val& v = c.a[1]; strm(t, c) += v.k == C ? (v.lo & 1 ? "1" : "0") : symStr(v, false); ret(c, c.a[0]); }
static void x_outc(Thread& t, CallCtx& c) { strm(t, c) += (char)c.a[1].lo; ret(c, c.a[0]); }
static void x_outs(Thread& t, CallCtx& c) { strm(t, c) += argStr(c.a[1]); ret(c, c.a[0]); }
static void x_outstr(Thread& t, CallCtx& c) { strm(t, c) += readString(addrVal(c.a[1])); ret(c, c.a[0]); }
static void x_outsn(Thread& t, CallCtx& c) { string s; uint64_t p = addrVal(c.a[1]), n = addrVal(c.a[2]); for (uint64_t i = 0; i < n; i++) { Obj* o = access(p + i, 1, false); s += (char)o->data[p + i - o->base]; } strm(t, c) += s; ret(c, c.a[0]); }
static void x_endl(Thread& t, CallCtx& c) { strm(t, c) += "\n"; ret(c, c.a[0]); }
static void x_outfn(Thread& t, CallCtx& c) { auto it = ADDRFN.find(addrVal(c.a[1])); if (it != ADDRFN.end() && it->second->name.find("endl") != string::npos) strm(t, c) += "\n"; ret(c, c.a[0]); }
static void x_ret0(Thread& t, CallCtx& c) { ret(c, c.a[0]); }
static void x_nop(Thread& t, CallCtx& c) { ret(c, cv(0)); }
static void x_ssctor(Thread& t, CallCtx& c) { STREAMS[addrVal(c.a[0]) + 16] = ""; }
static void x_ossctor(Thread& t, CallCtx& c) { STREAMS[addrVal(c.a[0])] = ""; }
static void x_ssstr(Thread& t, CallCtx& c) { writeString(addrVal(c.a[0]), STREAMS[addrVal(c.a[1]) + 16]); }
static void x_ossstr(Thread& t, CallCtx& c) { writeString(addrVal(c.a[0]), STREAMS[addrVal(c.a[1])]); }

// ---- allocation, C library
static void x_new(Thread& t, CallCtx& c) { uint64_t n = addrVal(c.a[0]); if (n > (1ull << 30)) failPath("memory", "allocation of more than 1 GB", whereAmI()); ret(c, cv(allocObj(n, true, false, false))); }
static void x_delete(Thread& t, CallCtx& c) { uint64_t p = addrVal(c.a[0]); if (!p) return; Obj* o = findObj(p); if (o && o->base == p && !o->heap) failPath("memory", "free of a non-heap pointer", whereAmI()); 
    if (raceOn && o && o->live && o->size) { raceAccess(p, std::min<uint64_t>(o->size, 256), true, false, o); }
    freeObj(p, false); }
static void x_strlen(Thread& t, CallCtx& c) { ret(c, cv(argStr(c.a[0]).size())); }
static void x_strcmp(Thread& t, CallCtx& c) { int r = strcmp(argStr(c.a[0]).c_str(), argStr(c.a[1]).c_str()); ret(c, cv((uint32_t)r)); }
static void x_memcmp(Thread& t, CallCtx& c) {
    uint64_t n = addrVal(c.a[2]), p = addrVal(c.a[0]), q = addrVal(c.a[1]); int r = 0;
    for (uint64_t i = 0; i < n && !r; i++) { Val a = loadMem(p + i, 1, false, 8), b = loadMem(q + i, 1, false, 8); if (a.k == C && b.k == C) r = (int)(uint8_t)a.lo - (int)(uint8_t)b.lo; else { if (!branch(icmp(L::CmpInst::ICMP_EQ, a, b, 8))) r = branch(icmp(L::CmpInst::ICMP_ULT, a, b, 8)) ? -1 : 1; } }
    ret(c, cv((uint32_t)r));
}
static void x_memcpy(Thread& t, CallCtx& c) { copyMem(addrVal(c.a[0]), addrVal(c.a[1]), addrVal(c.a[2])); ret(c, c.a[0]); }
static void doMemset(uint64_t d, const Val& v, uint64_t n) { if (!n) return; for (uint64_t i = 0; i < n;) { if (v.k == C && n - i >= 8 && ((d + i) & 7) == 0) { uint64_t b = v.lo & 255; b *= 0x0101010101010101ull; storeMem(d + i, 8, cv(b)); i += 8; } else { Val w = v; if (w.k == C) w.lo &= 255; storeMem(d + i, 1, w); i++; } } }
static void x_memset(Thread& t, CallCtx& c) { doMemset(addrVal(c.a[0]), c.a[1], addrVal(c.a[2])); ret(c, c.a[0]); }
static void x_abort(Thread& t, CallCtx& c) { failPath("exception", "std::terminate/abort called", whereAmI()); }
static void x_assertfail(Thread& t, CallCtx& c) { failPath("exception", "assert() in the code failed: " + argStr(c.a[0]), whereAmI()); }
static void x_exp(Thread& t, CallCtx& c) { ret(c, mathExp(c.a[0])); }
static void x_log(Thread& t, CallCtx& c) { ret(c, mathLog(c.a[0])); }
static void x_sqrt(Thread& t, CallCtx& c) { ret(c, mathSqrt(c.a[0])); }
static void x_pow(Thread& t, CallCtx& c) { ret(c, mathPow(c.a[0], c.a[1])); }
static void x_powi(Thread& t, CallCtx& c) { if (c.a[1].k != C) unsup("powi"); ret(c, mathPow(c.a[0], cd((double)(int)c.a[1].lo))); }
static Val fminmax(Val a, Val b, bool mx) { if (a.k == C && b.k == C) return cd(mx ? fmax(dbl(a), dbl(b)) : fmin(dbl(a), dbl(b))); Val g = fcmp(L::CmpInst::FCMP_OGT, a, b); return branch(g) == mx ? a : b; }
static void x_fmax(Thread& t, CallCtx& c) { ret(c, fminmax(c.a[0], c.a[1], true)); }
static void x_fmin(Thread& t, CallCtx& c) { ret(c, fminmax(c.a[0], c.a[1], false)); }
static void x_fabs(Thread& t, CallCtx& c) { ret(c, fabsV(c.a[0])); }
static Val floorV(Val a, bool up) { materialise(a, true, 64); if (a.k == C) return cd(up ? ceil(dbl(a)) : floor(dbl(a))); if (a.k != SR) unsup("floor in float mode"); z3::expr x = X(a); if (up) x = -x; z3::expr f = z3::expr(*Z, Z3_mk_int2real(*Z, z3::expr(*Z, Z3_mk_real2int(*Z, x)))); return mk(up ? -f : f, SR); }
static void x_nextafter(Thread& t, CallCtx& c) { if (c.a[0].k != C || c.a[1].k != C) unsup("symbolic nextafter"); ret(c, cd(nextafter(dbl(c.a[0]), dbl(c.a[1])))); }
static void x_floor(Thread& t, CallCtx& c) { ret(c, floorV(c.a[0], false)); }
static void x_ceil(Thread& t, CallCtx& c) { ret(c, floorV(c.a[0], true)); }
template <double (*F)(double)> static void x_host1(Thread& t, CallCtx& c) { if (c.a[0].k != C) unsup("math function on symbolic argument"); ret(c, cd(F(dbl(c.a[0])))); }
static Val cmul(Val a, double k) { return fpBin(L::Instruction::FMul, a, cd(k)); } static Val cadd(Val a, double k) { return fpBin(L::Instruction::FAdd, a, cd(k)); }
#define SYMM(n, F, body) static void x_##n(Thread& t, CallCtx& c) { Val a = c.a[0]; materialise(a, true, 64); if (a.k == C) { ret(c, cd(F(dbl(a)))); return; } ret(c, body); }
SYMM(log2, log2, cmul(mathLog(a), 1 / M_LN2)) SYMM(log10, log10, cmul(mathLog(a), 1 / M_LN10)) SYMM(log1p, log1p, mathLog(cadd(a, 1.0))) SYMM(exp2, exp2, mathExp(cmul(a, M_LN2))) SYMM(expm1, expm1, cadd(mathExp(a), -1.0))
static Val tanhV(Val a) { Val e = mathExp(cmul(a, 2.0)); return fpBin(L::Instruction::FDiv, cadd(e, -1.0), cadd(e, 1.0)); } SYMM(tanh, tanh, tanhV(a))
static Val truncV(Val a) { return branch(fcmp(L::CmpInst::FCMP_OGE, a, cd(0.0))) ? floorV(a, false) : floorV(a, true); }
static Val roundV(Val a) { return branch(fcmp(L::CmpInst::FCMP_OGE, a, cd(0.0))) ? floorV(cadd(a, 0.5), false) : floorV(cadd(a, -0.5), true); } SYMM(round, round, roundV(a)) SYMM(trunc, trunc, truncV(a))
static void x_fmod(Thread& t, CallCtx& c) { Val a = c.a[0], b = c.a[1]; materialise(a, true, 64); materialise(b, true, 64); if (a.k == C && b.k == C) { ret(c, cd(fmod(dbl(a), dbl(b)))); return; } ret(c, fpBin(L::Instruction::FSub, a, fpBin(L::Instruction::FMul, b, truncV(fpBin(L::Instruction::FDiv, a, b))))); }
static void x_lround(Thread& t, CallCtx& c) { Val a = c.a[0]; materialise(a, true, 64); ret(c, castF2I(a.k == C ? cd(round(dbl(a))) : roundV(a), 64, true)); }
template <double (*F)(double, double)> static void x_host2(Thread& t, CallCtx& c) { if (c.a[0].k != C || c.a[1].k != C) unsup("math function on symbolic argument"); ret(c, cd(F(dbl(c.a[0]), dbl(c.a[1])))); }
static void x_needrehash(Thread& t, CallCtx& c) {
    uint64_t self = addrVal(c.a[0]); Val lf = loadMem(self, 4, false, 32), nx = loadMem(self + 8, 8, false, 64); std::__detail::_Prime_rehash_policy p; memcpy(&p._M_max_load_factor, &lf.lo, 4); p._M_next_resize = nx.lo;
    auto r = p._M_need_rehash(addrVal(c.a[1]), addrVal(c.a[2]), addrVal(c.a[3])); storeMem(self + 8, 8, cv(p._M_next_resize)); c.ret = {cv(r.first), cv(r.second)};
}
static void x_nextbkt(Thread& t, CallCtx& c) {
    uint64_t self = addrVal(c.a[0]); Val lf = loadMem(self, 4, false, 32); std::__detail::_Prime_rehash_policy p; memcpy(&p._M_max_load_factor, &lf.lo, 4); p._M_next_resize = 0;
    auto r = p._M_next_bkt(addrVal(c.a[1])); storeMem(self + 8, 8, cv(p._M_next_resize)); ret(c, cv(r));
}
static void x_hashbytes(Thread& t, CallCtx& c) {
    uint64_t p = addrVal(c.a[0]), n = addrVal(c.a[1]), s = addrVal(c.a[2]); string b; for (uint64_t i = 0; i < n; i++) { Val v = loadMem(p + i, 1, false, 8); if (v.k == SR || v.k == SF || v.k == SI) unsup("hash of symbolic bytes"); b += (char)concretize(v, 8); }
    ret(c, cv(std::_Hash_bytes(b.data(), n, s)));
}
// ---- exceptions
static void x_allocexc(Thread& t, CallCtx& c) { ret(c, cv(allocObj(std::max<uint64_t>(addrVal(c.a[0]), 16), true, false, true))); }
static void x_throw(Thread& t, CallCtx& c) { c.redirected = true; throwGuest(t, addrVal(c.a[0]), addrVal(c.a[1])); }
static void x_begincatch(Thread& t, CallCtx& c) { t.caught.push_back(t.cur); ret(c, c.a[0]); }
static void x_endcatch(Thread& t, CallCtx& c) { if (!t.caught.empty()) t.caught.pop_back(); }
static void x_rethrow(Thread& t, CallCtx& c) { if (t.caught.empty()) failPath("exception", "rethrow without exception", whereAmI()); t.cur = t.caught.back(); c.redirected = true; unwind(t); }
static void x_dyncast(Thread& t, CallCtx& c) {
    uint64_t p = addrVal(c.a[0]), dst = addrVal(c.a[2]); if (!p) { ret(c, cv(0)); return; }
    uint64_t vt = rd8(p); int64_t top = (int64_t)rd8(vt - 16); uint64_t ti = rd8(vt - 8), full = p + top; int64_t off = tiFind(ti, dst, full, 0); ret(c, cv(off < 0 ? 0 : full + off));
}
static void x_pure(Thread& t, CallCtx& c) { failPath("exception", "pure virtual function called", whereAmI()); }
static void x_guardacq(Thread& t, CallCtx& c) { uint64_t g = addrVal(c.a[0]); bool r = raceOn; raceOn = false; Val v = loadMem(g, 1, false, 8); if (r) atomicHook(g, 1, true); raceOn = r; ret(c, cv(v.k == C && (v.lo & 1) ? 0 : 1)); }
static void x_guardrel(Thread& t, CallCtx& c) { uint64_t g = addrVal(c.a[0]); bool r = raceOn; raceOn = false; storeMem(g, 1, cv(1)); if (r) atomicHook(g, 1, true); raceOn = r; }

// ---- harness API
static i128 argI(const Val& v, unsigned w) { if (v.k != C) unsup("symbolic range for an input"); return sx(v.lo, w); }
static bool concVal(const string& n0, char type, Val& out) {
    if (!concreteMode) return false; string n = uniq(n0); auto it = concreteVals.find(n); string s = it == concreteVals.end() ? "0" : it->second.second;
    if (type == 'r' || type == 'f') out = cd(strtod(s.c_str(), nullptr)); else if (s[0] == '-') out = cv((uint64_t)strtoll(s.c_str(), nullptr, 10)); else out = cv(strtoull(s.c_str(), nullptr, 10)); return true;
}
static Val vsInt(const string& n, i128 lo, i128 hi, unsigned w) { Val v; if (concVal(n, 'i', v)) { v.lo = msk(v.lo, w); return v; } if (lo == hi) { uniq(n); return cv(msk((uint64_t)lo, w)); } return newVar(n, 'i', w, lo, hi); }
static void v_int(Thread& t, CallCtx& c) { ret(c, vsInt(argStr(c.a[0]), argI(c.a[1], 32), argI(c.a[2], 32), 32)); }
static void v_i64(Thread& t, CallCtx& c) { ret(c, vsInt(argStr(c.a[0]), argI(c.a[1], 64), argI(c.a[2], 64), 64)); }
static void v_bv32(Thread& t, CallCtx& c) { Val v; if (!concVal(argStr(c.a[0]), 'v', v)) v = newVar(argStr(c.a[0]), 'v', 32, 0, 0); ret(c, v); }
static void v_bv64(Thread& t, CallCtx& c) { Val v; if (!concVal(argStr(c.a[0]), 'v', v)) v = newVar(argStr(c.a[0]), 'v', 64, 0, 0); ret(c, v); }
static void v_real(Thread& t, CallCtx& c) { Val v; if (concVal(argStr(c.a[0]), 'r', v)) { ret(c, v); return; } v = newVar(argStr(c.a[0]), 'r', 64, 0, 0); addPC(X(v) >= asReal(c.a[1]) && X(v) <= asReal(c.a[2])); ret(c, v); }
static void v_fp(Thread& t, CallCtx& c) { Val v; if (!concVal(argStr(c.a[0]), 'f', v)) v = newVar(argStr(c.a[0]), 'f', 64, 0, 0); ret(c, v); }
static void v_bool(Thread& t, CallCtx& c) { Val v; if (concVal(argStr(c.a[0]), 'b', v)) { v.lo &= 1; ret(c, v); return; } ret(c, newVar(argStr(c.a[0]), 'b', 1, 0, 0)); }
static void v_choose(Thread& t, CallCtx& c) { i128 n = argI(c.a[1], 32); if (n <= 0) failPath("harness", "vs_choose of nothing", whereAmI()); Val v = vsInt(argStr(c.a[0]), 0, n - 1, 32); ret(c, cv(concretize(v, 32))); }
static void v_conc(Thread& t, CallCtx& c) { ret(c, cv(concretize(c.a[0], 32))); }
static void v_assume(Thread& t, CallCtx& c) {
    Val v = c.a[0]; materialise(v, false, 1); if (v.k == C) { if (!(v.lo & 1)) endPath(END_ASSUME, "assume"); return; }
    z3::expr e = asBool(v); std::optional<z3::model> m; if (!feasible(e, &m)) endPath(END_ASSUME, "assume"); MDL = m; addPC(e);
}
static map<string, int> siteCex;
static void v_assert(Thread& t, CallCtx& c) {
    Val v = c.a[0]; materialise(v, false, 1); string msg = argStr(c.a[1]); Site* st = site(msg);
    if (v.k == C) { if (v.lo & 1) { st->trivially++; return; } failPath("assert", msg); }
    checkDeadline();
    if (st->violated >= 4) return; // enough counterexamples for this assertion
    ModelMap mm; z3::expr e = asBool(v); int r = solveRefined(!e, mm);
    if (r == 0) { st->proven++; return; }
    if (r < 0) { st->unknown++; addStr(S->nunsup, S->unsup, "undecided assertion: " + msg); S->ends[END_UNKNOWN]++; addPC(e); return; }
    if (r == 2) st->unknown++;
    st->violated++; writeCex("assert", msg, mm, r == 2 ? "transcendental values not exact in this model" : "");
    std::optional<z3::model> m; if (!feasible(e, &m)) endPath(END_VIOL, msg); MDL = m; addPC(e);
}
static void v_reach(Thread& t, CallCtx& c) {
    string tag = argStr(c.a[0]); int n = S->nreach; for (int i = 0; i < n; i++) if (tag == S->reach[i]) return;
    if (!PC->empty()) { ModelMap mm; int r = solveRefined(Z->bool_val(true), mm); if (r < 1) return; }
    addStr(S->nreach, S->reach, tag);
}
static void v_raceoff(Thread& t, CallCtx& c) { raceMute++; }
static void v_raceon(Thread& t, CallCtx& c) { raceMute--; }
static void v_symbolic(Thread& t, CallCtx& c) { ret(c, cv(concreteMode ? 0 : 1)); }
static void v_issym(Thread& t, CallCtx& c) { ret(c, cv(c.a[0].k != C)); }
static std::ofstream* OBS;
static void v_observe(Thread& t, CallCtx& c) { if (!concreteMode) return; const Val& v = c.a[1]; if (v.k != C) { printf("OBS %s sym\n", argStr(c.a[0]).c_str()); return; } printf("OBS %s %a\n", argStr(c.a[0]).c_str(), dbl(v)); }
static void v_fail(Thread& t, CallCtx& c) { failPath("assert", argStr(c.a[0])); }
static void v_dbg(Thread& t, CallCtx& c) { if (!opt.verbose) return; Val v = c.a[1]; fprintf(stderr, "[dbg %d] %s = %s\n", getpid(), argStr(c.a[0]).c_str(), v.k == C ? std::to_string(dbl(v)).c_str() : v.k == UN ? "undef" : X(v).to_string().substr(0, 2000).c_str()); }
static void v_yield(Thread& t, CallCtx& c) { syncPoint(t, c, P_ANY); }
static void v_sleep(Thread& t, CallCtx& c) { if (syncPoint(t, c, P_SLEEP)) ret(c, cv(0)); }
static void v_now(Thread& t, CallCtx& c) { // non-decreasing symbolic clock, nanoseconds
    static Val last = cv(0); static int n = 0; Val v; i128 hi = (i128)1 << 50;
    if (!concVal("clock", 'i', v)) { v = newVar("clock", 'i', 64, 0, (int64_t)hi); z3::expr e = X(v) >= asInt(last, 64); addPC(e); } last = v; n++; ret(c, v);
}
static void v_holds(Thread& t, CallCtx& c) { auto it = MUT.find(addrVal(c.a[0])); ret(c, cv(it != MUT.end() && it->second == t.id + 1)); }
static void v_tok(Thread& t, CallCtx& c) { // the number a piece of printed text stands for
    string s = argStr(c.a[0]); if (s.rfind("<undef>", 0) == 0) failPath("memory", "an uninitialised value was printed"); if (s.rfind("<sym:", 0) != 0) { ret(c, cd(strtod(s.c_str(), nullptr))); return; }
    auto it = SYMTOK.find(strtoul(s.c_str() + 5, nullptr, 10)); if (it == SYMTOK.end()) unsup("text of an unknown symbolic value"); const Val& v = it->second;
    if (v.k == SR || v.k == SF) ret(c, v); else ret(c, mk(z3::to_real(asInt(v, 64)), SR));
}
static void v_tid(Thread& t, CallCtx& c) { ret(c, cv(t.id + 1)); }
static void x_tostrd(Thread& t, CallCtx& c) { Val v = c.a[1]; materialise(v, true, 64); writeString(addrVal(c.a[0]), v.k == C ? std::to_string(dbl(v)) : symStr(v, true)); }
static void x_ldexp(Thread& t, CallCtx& c) { if (c.a[1].k != C) unsup("ldexp"); ret(c, fpBin(L::Instruction::FMul, c.a[0], cd(ldexp(1.0, (int)c.a[1].lo)))); }
static void x_self(Thread& t, CallCtx& c) { ret(c, cv(t.id + 1)); }
static void x_ret0arg(Thread& t, CallCtx& c) { ret(c, c.a[0]); }
static void regExts() {
    auto& E = EXTS; const string SS = "_ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEE", SSK = "_ZNKSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEE", SSR = "_ZNKRSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEE";
    const string OS = "_ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE", OSK = "_ZNKSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE", OSR = "_ZNKRSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE";
    E[SS + "C1Ev"] = x_ssctor; E[SS + "D1Ev"] = x_nop; E[SSK + "3strEv"] = x_ssstr; E[SSR + "3strEv"] = x_ssstr;
    E[OS + "C1Ev"] = x_ossctor; E[OS + "D1Ev"] = x_nop; E[OSK + "3strEv"] = x_ossstr; E[OSR + "3strEv"] = x_ossstr;
    E["_ZNSolsEi"] = x_outi; E["_ZNSolsEj"] = x_outj; E["_ZNSolsEl"] = x_outl; E["_ZNSolsEm"] = x_outm; E["_ZNSolsEd"] = x_outd; E["_ZNSolsEb"] = x_outb; E["_ZNSolsEPKv"] = x_outp; E["_ZNSolsEPFRSoS_E"] = x_outfn; E["_ZNSo5flushEv"] = x_ret0; E["_ZNSo3putEc"] = x_outc;
    E["_ZNSo9_M_insertIdEERSoT_"] = x_outd; E["_ZNSo9_M_insertIlEERSoT_"] = x_outl; E["_ZNSo9_M_insertImEERSoT_"] = x_outm; E["_ZNSo9_M_insertIbEERSoT_"] = x_outb; E["_ZNSo9_M_insertIPKvEERSoT_"] = x_outp;
    E["_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l"] = x_outsn;
    E["_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc"] = x_outs; E["_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c"] = x_outc;
    E["_ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_stringIS4_S5_T1_EE"] = x_outstr;
    E["_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_"] = x_endl; E["_ZSt5flushIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_"] = x_ret0;
    E["_Znwm"] = E["_Znam"] = E["malloc"] = x_new; for (auto n : {"_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "free"}) E[n] = x_delete;
    E["_ZnwmSt11align_val_t"] = x_new; E["_ZdlPvSt11align_val_t"] = E["_ZdlPvmSt11align_val_t"] = x_delete;
    E["strlen"] = x_strlen; E["strcmp"] = x_strcmp; E["memcmp"] = E["bcmp"] = x_memcmp; E["memcpy"] = E["memmove"] = x_memcpy; E["memset"] = x_memset; E["abort"] = x_abort; E["_ZSt9terminatev"] = x_abort; E["__assert_fail"] = x_assertfail;
    E["exp"] = x_exp; E["log"] = x_log; E["logl"] = x_log; E["nextafter"] = x_nextafter; E["expl"] = x_exp; E["sqrtl"] = x_sqrt; E["powl"] = x_pow; E["sqrt"] = x_sqrt; E["pow"] = x_pow; E["fmax"] = x_fmax; E["fmin"] = x_fmin; E["fabs"] = x_fabs; E["floor"] = x_floor; E["ceil"] = x_ceil;
    E["log2"] = x_log2; E["log10"] = x_log10; E["log1p"] = x_log1p; E["exp2"] = x_exp2; E["expm1"] = x_expm1; E["tanh"] = x_tanh; E["round"] = x_round; E["trunc"] = x_trunc; E["fmod"] = x_fmod; E["lround"] = E["llround"] = x_lround; E["hypot"] = x_host2<hypot>; E["atan2"] = x_host2<atan2>; E["copysign"] = x_host2<copysign>; E["remainder"] = x_host2<remainder>;
    E["tan"] = x_host1<tan>; E["atan"] = x_host1<atan>; E["asin"] = x_host1<asin>; E["acos"] = x_host1<acos>; E["sinh"] = x_host1<sinh>; E["cosh"] = x_host1<cosh>; E["erf"] = x_host1<erf>; E["tgamma"] = x_host1<tgamma>; E["lgamma"] = x_host1<lgamma>; E["rint"] = x_host1<rint>; E["nearbyint"] = x_host1<nearbyint>;
    E["_ZnwmRKSt9nothrow_t"] = E["_ZnamRKSt9nothrow_t"] = x_new; E["_ZdlPvRKSt9nothrow_t"] = E["_ZdaPvRKSt9nothrow_t"] = x_delete; for (auto n : {"printf", "fprintf", "puts", "putchar", "fflush", "fputs", "fputc", "srand", "getenv", "vprintf", "fwrite"}) E[n] = x_ret0i;
    E["nanosleep"] = E["clock_nanosleep"] = E["usleep"] = E["sleep"] = v_sleep; E["_ZNSt6thread20hardware_concurrencyEv"] = x_ncpu; E["_ZNSt6thread6detachEv"] = x_threaddetach; E["vs_atomic_point"] = v_yield;
    E["_ZNSt7__cxx119to_stringEd"] = x_tostrd; E["ldexp"] = x_ldexp; E["pthread_self"] = x_self; E["_ZNSolsEPFRSt8ios_baseS0_E"] = E["_ZStlsIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_St13_Setprecision"] = x_ret0arg;
    E["cos"] = x_host1<cos>; E["sin"] = x_host1<sin>; E["cbrt"] = x_host1<cbrt>;
    E["_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm"] = x_needrehash; E["_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm"] = x_nextbkt; E["_ZSt11_Hash_bytesPKvmm"] = x_hashbytes;
    E["__cxa_allocate_exception"] = x_allocexc; E["__cxa_free_exception"] = x_nop; E["__cxa_throw"] = x_throw; E["__cxa_begin_catch"] = x_begincatch; E["__cxa_end_catch"] = x_endcatch; E["__cxa_rethrow"] = x_rethrow; E["__dynamic_cast"] = x_dyncast; E["__cxa_pure_virtual"] = x_pure;
    E["__cxa_atexit"] = x_nop; E["__cxa_guard_acquire"] = x_guardacq; E["__cxa_guard_release"] = x_guardrel; E["_ZSt21ios_base_library_initv"] = x_nop; E["_ZNSt8ios_base4InitC1Ev"] = x_nop; E["_ZSt18uncaught_exceptionv"] = x_nop; E["_ZSt19uncaught_exceptionsv"] = x_nop;
    for (string cl : {"St13runtime_error", "St11logic_error", "St12out_of_range", "St12length_error", "St16invalid_argument", "St12domain_error", "St14overflow_error", "St11range_error"}) for (string k : {"1", "2"}) for (string sfx : {"EPKc", "ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "ERKS_", "EOS_"}) E["_ZN" + cl + "C" + k + sfx] = x_nop;
    for (string cl : {"St13runtime_error", "St11logic_error", "St12out_of_range", "St12length_error", "St16invalid_argument", "St12domain_error", "St14overflow_error", "St11range_error", "St12bad_weak_ptr", "St9exception", "St8bad_cast", "St9bad_alloc", "St17bad_function_call"}) for (string k : {"0", "1", "2"}) E["_ZN" + cl + "D" + k + "Ev"] = x_nop;
    E["pthread_mutex_lock"] = x_lock; E["pthread_mutex_trylock"] = x_trylock; E["pthread_mutex_unlock"] = x_unlock; E["pthread_cond_wait"] = x_pcondwait; E["pthread_cond_clockwait"] = x_pcondtimed; E["pthread_cond_timedwait"] = x_pcondtimed;
    E["pthread_cond_broadcast"] = x_notifyall; E["pthread_cond_signal"] = x_notifyone; E["pthread_mutex_init"] = E["pthread_mutex_destroy"] = E["pthread_cond_init"] = E["pthread_cond_destroy"] = x_nop;
    E["_ZNSt18condition_variableC1Ev"] = E["_ZNSt18condition_variableD1Ev"] = x_nop; E["_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE"] = x_cvwait; E["_ZNSt18condition_variable10notify_allEv"] = x_notifyall; E["_ZNSt18condition_variable10notify_oneEv"] = x_notifyone;
    E["_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE"] = x_threadstart; E["_ZNSt6thread4joinEv"] = x_threadjoin; E["sched_yield"] = v_sleep;
    E["vs_int"] = v_int; E["vs_i64"] = v_i64; E["vs_bv32"] = v_bv32; E["vs_bv64"] = v_bv64; E["vs_real"] = v_real; E["vs_fp"] = v_fp; E["vs_bool"] = v_bool; E["vs_choose"] = v_choose; E["vs_concretize"] = v_conc; E["vs_assume"] = v_assume; E["vs_assert"] = v_assert; E["vs_reach"] = v_reach; E["vs_race_off"] = v_raceoff; E["vs_race_on"] = v_raceon; E["vs_symbolic"] = v_symbolic; E["vs_observe"] = v_observe; E["vs_fail"] = v_fail; E["vs_dbg"] = v_dbg; E["vs_now"] = v_now; E["vs_holds"] = v_holds; E["vs_tid"] = v_tid; E["vs_tok"] = v_tok; E["vs_is_sym"] = v_issym;
}
static void intrinsic(Thread& t, const Insn& x, vector<Val>& a, CallCtx& cc) {
    Frame& fr = t.st.back(); unsigned w = x.w; using P = L::CmpInst;
    auto set = [&](const Val& v) { if (x.dst >= 0) fr.r[x.dst] = v; };
    auto fin = [&]() { if (x.opc == L::Instruction::Invoke) gotoBB(t.st.back(), x.aux[x.aux.size() - 2]); };
    auto sel = [&](P::Predicate p) { Val c = icmp(p, a[0], a[1], w); set(selectV(c, a[0], a[1], x.I->getType())); };
    switch (x.callee->F->getIntrinsicID()) {
        case L::Intrinsic::lifetime_start: case L::Intrinsic::lifetime_end: case L::Intrinsic::assume: case L::Intrinsic::dbg_declare: case L::Intrinsic::dbg_value: case L::Intrinsic::dbg_label: case L::Intrinsic::experimental_noalias_scope_decl: case L::Intrinsic::invariant_start: case L::Intrinsic::prefetch: case L::Intrinsic::donothing: set(cv(0)); break;
        case L::Intrinsic::memcpy: case L::Intrinsic::memmove: copyMem(addrVal(a[0]), addrVal(a[1]), addrVal(a[2])); break;
        case L::Intrinsic::memset: doMemset(addrVal(a[0]), a[1], addrVal(a[2])); break;
        case L::Intrinsic::trap: failPath("memory", "trap", whereAmI());
        case L::Intrinsic::fabs: set(fabsV(a[0])); break;
        case L::Intrinsic::sqrt: set(mathSqrt(a[0])); break; case L::Intrinsic::exp: set(mathExp(a[0])); break; case L::Intrinsic::log: set(mathLog(a[0])); break; case L::Intrinsic::pow: set(mathPow(a[0], a[1])); break;
        case L::Intrinsic::maxnum: case L::Intrinsic::maximum: set(fminmax(a[0], a[1], true)); break; case L::Intrinsic::minnum: case L::Intrinsic::minimum: set(fminmax(a[0], a[1], false)); break;
        case L::Intrinsic::trunc: case L::Intrinsic::round: { Val v = a[0]; materialise(v, true, 64); bool rd = x.callee->F->getIntrinsicID() == L::Intrinsic::round; set(v.k == C ? cd(rd ? round(dbl(v)) : trunc(dbl(v))) : rd ? roundV(v) : truncV(v)); break; }
        case L::Intrinsic::exp2: case L::Intrinsic::log2: case L::Intrinsic::log10: { CallCtx c2; c2.a = {a[0]}; auto id = x.callee->F->getIntrinsicID(); (id == L::Intrinsic::exp2 ? x_exp2 : id == L::Intrinsic::log2 ? x_log2 : x_log10)(t, c2); set(c2.ret[0]); break; }
        case L::Intrinsic::copysign: if (a[0].k != C || a[1].k != C) unsup("copysign"); set(cd(copysign(dbl(a[0]), dbl(a[1])))); break;
        case L::Intrinsic::floor: set(floorV(a[0], false)); break; case L::Intrinsic::ceil: set(floorV(a[0], true)); break;
        case L::Intrinsic::powi: { if (a[1].k != C) unsup("powi"); set(mathPow(a[0], cd((double)(int32_t)a[1].lo))); break; }
        case L::Intrinsic::fmuladd: case L::Intrinsic::fma: set(fpBin(L::Instruction::FAdd, fpBin(L::Instruction::FMul, a[0], a[1]), a[2])); break;
        case L::Intrinsic::umax: sel(P::ICMP_UGT); break; case L::Intrinsic::umin: sel(P::ICMP_ULT); break; case L::Intrinsic::smax: sel(P::ICMP_SGT); break; case L::Intrinsic::smin: sel(P::ICMP_SLT); break;
        case L::Intrinsic::abs: { Val c = icmp(P::ICMP_SLT, a[0], cv(0), w); Val n = intBin(L::Instruction::Sub, cv(0), a[0], w); set(selectV(c, n, a[0], x.I->getType())); break; }
        case L::Intrinsic::eh_typeid_for: set(cv(typeIdOf(addrVal(a[0])))); break;
        case L::Intrinsic::threadlocal_address: set(cv(tlsAddr(addrVal(a[0]), t.id))); break;
        case L::Intrinsic::expect: case L::Intrinsic::launder_invariant_group: case L::Intrinsic::strip_invariant_group: set(a[0]); break;
        case L::Intrinsic::is_constant: set(cv(0)); break; case L::Intrinsic::objectsize: set(cv(~0ull)); break;
        case L::Intrinsic::is_fpclass: { unsigned mask = a[1].lo; Val v = a[0]; materialise(v, true, 64); if (v.k == C) { double d = dbl(v); bool r = false; if ((mask & 3) && std::isnan(d)) r = true; if ((mask & 4) && d == -INFINITY) r = true; if ((mask & 0x200) && d == INFINITY) r = true; if ((mask & 0x40) && d == 0 && !std::signbit(d)) r = true; if ((mask & 0x20) && d == 0 && std::signbit(d)) r = true; if ((mask & 0x108) && std::isnormal(d) && ((mask & 0x100) ? d > 0 : false)) r = true; if ((mask & 0x8) && std::isnormal(d) && d < 0) r = true; if ((mask & 0x90) && std::fpclassify(d) == FP_SUBNORMAL) r = true; set(cv(r)); }
            else if (v.k == SR) { if ((mask & 0x1f8) == 0) set(cv(0)); else if ((mask & 0x1f8) == 0x1f8) set(cv(1)); else unsup("is.fpclass"); } else { z3::expr e = X(v); auto E = [&](Z3_ast r) { return z3::expr(*Z, r); }; z3::expr r = Z->bool_val(false); if (mask & 3) r = r || E(Z3_mk_fpa_is_nan(*Z, e)); if ((mask & 0x204) == 0x204) r = r || E(Z3_mk_fpa_is_infinite(*Z, e)); if ((mask & 0x1f8) == 0x1f8) r = r || (!E(Z3_mk_fpa_is_nan(*Z, e)) && !E(Z3_mk_fpa_is_infinite(*Z, e))); else if (mask & 0x1f8) unsup("is.fpclass"); set(mk(r, SB)); } break; }
        case L::Intrinsic::uadd_with_overflow: case L::Intrinsic::usub_with_overflow: case L::Intrinsic::umul_with_overflow: case L::Intrinsic::sadd_with_overflow: case L::Intrinsic::ssub_with_overflow: case L::Intrinsic::smul_with_overflow: {
            if (a[0].k != C || a[1].k != C) unsup("overflow intrinsic on symbolic value"); unsigned bw = bitsOf(x.I->getOperand(0)->getType()); auto id = x.callee->F->getIntrinsicID(); bool s = id == L::Intrinsic::sadd_with_overflow || id == L::Intrinsic::ssub_with_overflow || id == L::Intrinsic::smul_with_overflow;
            i128 p = s ? sx(a[0].lo, bw) : (i128)msk(a[0].lo, bw), q = s ? sx(a[1].lo, bw) : (i128)msk(a[1].lo, bw), r = (id == L::Intrinsic::uadd_with_overflow || id == L::Intrinsic::sadd_with_overflow) ? p + q : (id == L::Intrinsic::usub_with_overflow || id == L::Intrinsic::ssub_with_overflow) ? p - q : p * q;
            bool ov = s ? (r < -((i128)1 << (bw - 1)) || r > ((i128)1 << (bw - 1)) - 1) : (r < 0 || r > (((i128)1 << bw) - 1)); fr.r[x.dst] = cv(msk((uint64_t)r, bw)); fr.r[x.dst + 1] = cv(ov); break; }
        case L::Intrinsic::uadd_sat: { Val s = intBin(L::Instruction::Add, a[0], a[1], w); if (s.k != C) unsup("uadd.sat"); set(s.lo < msk(a[0].lo, w) ? cv(msk(~0ull, w)) : s); break; }
        case L::Intrinsic::usub_sat: { Val c = icmp(P::ICMP_ULT, a[0], a[1], w); set(branch(c) ? cv(0) : intBin(L::Instruction::Sub, a[0], a[1], w)); break; }
        case L::Intrinsic::ctpop: if (a[0].k != C) unsup("ctpop"); set(cv(__builtin_popcountll(msk(a[0].lo, w)))); break;
        case L::Intrinsic::ctlz: if (a[0].k != C) unsup("ctlz"); { uint64_t v = msk(a[0].lo, w); set(cv(v ? __builtin_clzll(v) - (64 - w) : w)); } break;
        case L::Intrinsic::cttz: if (a[0].k != C) unsup("cttz"); { uint64_t v = msk(a[0].lo, w); set(cv(v ? __builtin_ctzll(v) : w)); } break;
        case L::Intrinsic::fshl: case L::Intrinsic::fshr: { if (a[0].k != C || a[1].k != C || a[2].k != C || w > 64) unsup("fsh"); unsigned s = a[2].lo % w; bool l = x.callee->F->getIntrinsicID() == L::Intrinsic::fshl; uint64_t p = msk(a[0].lo, w), q = msk(a[1].lo, w); u128 both = ((u128)p << w) | q; uint64_t r = l ? (uint64_t)((both << s) >> w) : (uint64_t)(both >> s); set(cv(msk(r, w))); break; }
        default: unsup("intrinsic " + x.callee->name);
    }
    fin();
}
