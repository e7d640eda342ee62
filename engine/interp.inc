// ------------------------------------------------------------------ interpreter
namespace L = llvm;
static L::Module* M; static const L::DataLayout* DL;
struct Op { int slot = -1; int cidx = -1; };           // slot of a register, or index into CONSTS
static vector<Val> CONSTS;
struct FnInfo;
struct Insn { const L::Instruction* I; uint16_t opc; int dst; uint16_t w, n; bool isD; vector<Op> ops; vector<uint32_t> aux; FnInfo* callee = nullptr; int nl = 1; int64_t imm = 0; vector<pair<Op, int64_t>> gep; };
struct Thread; struct CallCtx;
typedef void (*Ext)(Thread&, CallCtx&);
struct FnInfo { const L::Function* F; string name; int id; bool decoded = false; int nslots = 0; vector<Insn> code; vector<uint32_t> bbStart; vector<int> argSlot; Ext ext = nullptr; bool thts = false; };
static std::unordered_map<const L::Function*, FnInfo*> FI; static vector<FnInfo*> FNS;
static std::unordered_map<const L::Value*, uint64_t> GADDR; static std::unordered_map<uint64_t, FnInfo*> ADDRFN;
static map<string, Ext> EXTS;

static int leaves(L::Type* t) {
    if (t->isVoidTy() || t->isTokenTy() || t->isMetadataTy() || t->isLabelTy()) return 0;
    if (auto* s = L::dyn_cast<L::StructType>(t)) { int n = 0; for (auto* e : s->elements()) n += leaves(e); return n; }
    if (auto* a = L::dyn_cast<L::ArrayType>(t)) return a->getNumElements() * leaves(a->getElementType());
    if (auto* v = L::dyn_cast<L::FixedVectorType>(t)) return v->getNumElements();
    return 1;
}
// long double is modelled as double
static bool isDbl(L::Type* t) { return t->isDoubleTy() || t->isX86_FP80Ty(); }
static unsigned bitsOf(L::Type* t) { if (t->isPointerTy()) return 64; if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isDoubleTy() || t->isX86_FP80Ty()) return 64; if (t->isFloatTy()) return 32; if (auto* v = L::dyn_cast<L::FixedVectorType>(t)) return bitsOf(v->getElementType()); return 0; }
static void flatTypes(L::Type* t, uint64_t off, vector<pair<L::Type*, uint64_t>>& out) {
    if (auto* s = L::dyn_cast<L::StructType>(t)) { auto* sl = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) flatTypes(s->getElementType(i), off + sl->getElementOffset(i), out); return; }
    if (auto* a = L::dyn_cast<L::ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(a->getElementType()); for (uint64_t i = 0; i < a->getNumElements(); i++) flatTypes(a->getElementType(), off + i * es, out); return; }
    if (auto* v = L::dyn_cast<L::FixedVectorType>(t)) { uint64_t es = DL->getTypeAllocSize(v->getElementType()); for (uint64_t i = 0; i < v->getNumElements(); i++) out.push_back({v->getElementType(), off + i * es}); return; }
    out.push_back({t, off});
}
static uint64_t addrOfGlobal(const L::GlobalValue* g);
static void constVals(const L::Constant* c, vector<Val>& out);
static Val constScalar(const L::Constant* c) {
    if (auto* ci = L::dyn_cast<L::ConstantInt>(c)) { Val v; auto& ap = ci->getValue(); v.lo = ap.getRawData()[0]; if (ap.getBitWidth() > 64) v.hi = ap.getRawData()[1]; return v; }
    if (auto* cf = L::dyn_cast<L::ConstantFP>(c)) { if (cf->getType()->isDoubleTy()) return cd(cf->getValueAPF().convertToDouble()); if (cf->getType()->isFloatTy()) { float f = cf->getValueAPF().convertToFloat(); uint32_t u; memcpy(&u, &f, 4); return cv(u); } if (cf->getType()->isX86_FP80Ty()) { L::APFloat f = cf->getValueAPF(); bool li; f.convert(L::APFloat::IEEEdouble(), L::APFloat::rmNearestTiesToEven, &li); return cd(f.convertToDouble()); } unsup("fp constant"); }
    if (L::isa<L::ConstantPointerNull>(c)) return cv(0);
    if (L::isa<L::UndefValue>(c)) { Val v; v.k = UN; return v; }
    if (auto* g = L::dyn_cast<L::GlobalValue>(c)) return cv(addrOfGlobal(g));
    if (auto* ce = L::dyn_cast<L::ConstantExpr>(c)) {
        switch (ce->getOpcode()) {
            case L::Instruction::GetElementPtr: { L::APInt off(64, 0); auto* g = L::cast<L::GEPOperator>(ce); if (!g->accumulateConstantOffset(*DL, off)) unsup("const gep"); return cv(constScalar(ce->getOperand(0)).lo + off.getSExtValue()); }
            case L::Instruction::BitCast: case L::Instruction::PtrToInt: case L::Instruction::IntToPtr: case L::Instruction::AddrSpaceCast: return constScalar(ce->getOperand(0));
            case L::Instruction::Trunc: return cv(msk(constScalar(ce->getOperand(0)).lo, bitsOf(ce->getType())));
            case L::Instruction::Add: return cv(msk(constScalar(ce->getOperand(0)).lo + constScalar(ce->getOperand(1)).lo, bitsOf(ce->getType())));
            case L::Instruction::Sub: return cv(msk(constScalar(ce->getOperand(0)).lo - constScalar(ce->getOperand(1)).lo, bitsOf(ce->getType())));
            case L::Instruction::ICmp: return icmp((L::CmpInst::Predicate)ce->getPredicate(), constScalar(ce->getOperand(0)), constScalar(ce->getOperand(1)), 64);
            default: unsup(string("const expr ") + ce->getOpcodeName());
        }
    }
    string s; L::raw_string_ostream os(s); c->print(os); unsup("constant " + s.substr(0, 80));
}
static void constVals(const L::Constant* c, vector<Val>& out) {
    L::Type* t = c->getType();
    if (t->isAggregateType() || t->isVectorTy()) {
        int n = leaves(t);
        if (L::isa<L::ConstantAggregateZero>(c)) { for (int i = 0; i < n; i++) out.push_back(cv(0)); return; }
        if (L::isa<L::UndefValue>(c)) { Val u; u.k = UN; for (int i = 0; i < n; i++) out.push_back(u); return; }
        if (auto* cs = L::dyn_cast<L::ConstantDataSequential>(c)) { for (unsigned i = 0; i < cs->getNumElements(); i++) constVals(cs->getElementAsConstant(i), out); return; }
        for (unsigned i = 0; i < c->getNumOperands(); i++) constVals(L::cast<L::Constant>(c->getOperand(i)), out);
        return;
    }
    out.push_back(constScalar(c));
}
static FnInfo* fnInfo(const L::Function* F) {
    auto it = FI.find(F); if (it != FI.end()) return it->second;
    auto* f = new FnInfo; f->F = F; f->name = F->getName().str(); f->id = FNS.size(); FNS.push_back(f); FI[F] = f;
    auto e = EXTS.find(f->name); if (e != EXTS.end()) f->ext = e->second;
    return f;
}
static uint64_t addrOfGlobal(const L::GlobalValue* g) {
    if (auto* al = L::dyn_cast<L::GlobalAlias>(g)) return constScalar(al->getAliasee()).lo;
    auto it = GADDR.find(g); if (it != GADDR.end()) return it->second;
    uint64_t a;
    if (auto* F = L::dyn_cast<L::Function>(g)) { a = allocObj(1, false, false, true); findObj(a)->constant = true; GADDR[g] = a; ADDRFN[a] = fnInfo(F); return a; }
    auto* gv = L::cast<L::GlobalVariable>(g); uint64_t sz = gv->getValueType()->isSized() ? DL->getTypeAllocSize(gv->getValueType()).getFixedValue() : 8;
    if (gv->isDeclaration()) sz = std::max<uint64_t>(sz, 512);
    a = allocObj(sz, false, false, true); GADDR[g] = a; if (gv->isDeclaration()) findObj(a)->ext = true;
    return a;
}
// thread local variables: the first thread uses the global itself, every other thread a copy of its initial value
static std::map<uint64_t, vector<uint8_t>> TLSINIT; static std::map<pair<uint64_t, int>, uint64_t> TLSADDR;
static uint64_t tlsAddr(uint64_t a, int tid) {
    if (tid == 0) return a; auto in = TLSINIT.find(a); if (in == TLSINIT.end()) return a; auto& r = TLSADDR[{a, tid}];
    if (!r) { r = allocObj(in->second.size(), false, false, true); memcpy(findObj(r)->data, in->second.data(), in->second.size()); } return r;
}
static void initGlobals() {
    for (auto& g : M->globals()) addrOfGlobal(&g);
    for (auto& g : M->globals()) {
        if (g.isDeclaration() || !g.hasInitializer()) continue;
        if (g.getName().starts_with("llvm.")) continue;
        uint64_t a = GADDR[&g]; vector<pair<L::Type*, uint64_t>> ft; flatTypes(g.getValueType(), 0, ft);
        if (L::isa<L::ConstantAggregateZero>(g.getInitializer())) continue;
        vector<Val> vs; constVals(g.getInitializer(), vs);
        for (size_t i = 0; i < ft.size(); i++) if (vs[i].k == C) { unsigned n = (bitsOf(ft[i].first) + 7) / 8; Obj* o = findObj(a); memcpy(o->data + ft[i].second, &vs[i].lo, n > 8 ? 8 : n); }
    }
    for (auto& g : M->globals()) if (!g.isDeclaration() && g.isConstant()) findObj(GADDR[&g])->constant = true;
    for (auto& g : M->globals()) if (!g.isDeclaration() && g.isThreadLocal()) { Obj* o = findObj(GADDR[&g]); TLSINIT[o->base] = vector<uint8_t>(o->data, o->data + o->size); }
}
static void decode(FnInfo* f) {
    f->decoded = true; std::unordered_map<const L::Value*, int> slot; int n = 0;
    for (auto& a : f->F->args()) { slot[&a] = n; f->argSlot.push_back(n); n += leaves(a.getType()); }
    std::unordered_map<const L::BasicBlock*, int> bbi; int bi = 0;
    for (auto& bb : *f->F) { bbi[&bb] = bi++; for (auto& i : bb) { int l = leaves(i.getType()); if (l) { slot[&i] = n; n += l; } } }
    f->nslots = n; f->bbStart.resize(bi);
    std::unordered_map<const L::Constant*, int> cm;
    auto opnd = [&](const L::Value* v) -> Op {
        Op o; if (auto* c = L::dyn_cast<L::Constant>(v)) { auto it = cm.find(c); if (it == cm.end()) { int ix = CONSTS.size(); vector<Val> t; constVals(c, t); for (auto& x : t) CONSTS.push_back(x); cm[c] = ix; o.cidx = ix; } else o.cidx = it->second; return o; }
        auto it = slot.find(v); if (it != slot.end()) o.slot = it->second; return o; };
    bi = 0;
    for (auto& bb : *f->F) {
        f->bbStart[bi++] = f->code.size();
        for (auto& i : bb) {
            Insn x; x.I = &i; x.opc = i.getOpcode(); x.dst = slot.count(&i) ? slot[&i] : -1; x.w = bitsOf(i.getType()); x.n = leaves(i.getType()); x.isD = isDbl(i.getType()->getScalarType());
            if (auto* br = L::dyn_cast<L::BranchInst>(&i)) { if (br->isConditional()) { x.ops.push_back(opnd(br->getCondition())); x.aux = {(uint32_t)bbi[br->getSuccessor(0)], (uint32_t)bbi[br->getSuccessor(1)]}; } else x.aux = {(uint32_t)bbi[br->getSuccessor(0)]}; }
            else if (auto* sw = L::dyn_cast<L::SwitchInst>(&i)) { x.ops.push_back(opnd(sw->getCondition())); x.w = bitsOf(sw->getCondition()->getType()); x.aux.push_back(bbi[sw->getDefaultDest()]); for (auto& c : sw->cases()) { x.ops.push_back(opnd(c.getCaseValue())); x.aux.push_back(bbi[c.getCaseSuccessor()]); } }
            else if (auto* ph = L::dyn_cast<L::PHINode>(&i)) { for (unsigned k = 0; k < ph->getNumIncomingValues(); k++) { x.ops.push_back(opnd(ph->getIncomingValue(k))); x.aux.push_back(bbi[ph->getIncomingBlock(k)]); } }
            else if (auto* cb = L::dyn_cast<L::CallBase>(&i)) {
                for (auto& a : cb->args()) { if (a->getType()->isMetadataTy()) x.ops.push_back(Op{}); else x.ops.push_back(opnd(a)); x.aux.push_back(leaves(a->getType())); }
                auto* cal = cb->getCalledOperand()->stripPointerCasts(); if (auto* al = L::dyn_cast<L::GlobalAlias>(cal)) cal = al->getAliaseeObject();
                if (auto* F = L::dyn_cast<L::Function>(cal)) x.callee = fnInfo(const_cast<L::Function*>(F)); else if (!cb->isInlineAsm()) x.gep.push_back({opnd(cb->getCalledOperand()), 0});
                if (auto* iv = L::dyn_cast<L::InvokeInst>(&i)) { x.aux.push_back(bbi[iv->getNormalDest()]); x.aux.push_back(bbi[iv->getUnwindDest()]); }
            }
            else if (auto* ge = L::dyn_cast<L::GetElementPtrInst>(&i)) {
                x.ops.push_back(opnd(ge->getPointerOperand())); x.imm = 0;
                for (auto gi = L::gep_type_begin(ge), e = L::gep_type_end(ge); gi != e; ++gi) {
                    if (auto* st = gi.getStructTypeOrNull()) { x.imm += DL->getStructLayout(st)->getElementOffset(L::cast<L::ConstantInt>(gi.getOperand())->getZExtValue()); }
                    else { int64_t es = DL->getTypeAllocSize(gi.getIndexedType()); if (auto* ci = L::dyn_cast<L::ConstantInt>(gi.getOperand())) x.imm += es * ci->getSExtValue(); else { x.gep.push_back({opnd(gi.getOperand()), es}); x.aux.push_back(bitsOf(gi.getOperand()->getType())); } }
                }
            }
            else if (auto* al = L::dyn_cast<L::AllocaInst>(&i)) { x.imm = DL->getTypeAllocSize(al->getAllocatedType()); x.ops.push_back(opnd(al->getArraySize())); }
            else { for (auto& o : i.operands()) { if (L::isa<L::BasicBlock>(o)) continue; x.ops.push_back(opnd(o)); } 
                if (i.getNumOperands() && i.getOperand(0)->getType()->isVectorTy()) x.nl = leaves(i.getOperand(0)->getType());
                if (L::isa<L::CmpInst>(&i)) x.w = bitsOf(i.getOperand(0)->getType()); }
            f->code.push_back(std::move(x));
        }
    }
}

struct Frame { FnInfo* f; uint32_t pc; uint32_t bb, prevbb; vector<Val> r; vector<uint64_t> allocas; };
struct Exc { uint64_t obj = 0, ti = 0; bool active = false; };
enum TState { T_RUN, T_MUTEX, T_COND, T_JOIN, T_DONE, T_NEW };
struct Thread { int id; vector<Frame> st; TState state = T_RUN; uint64_t waitOn = 0, waitM = 0; vector<Exc> caught; Exc cur; vector<uint32_t> vc; Val retv[4]; set<uint64_t> held; bool woken = false; };
struct CallCtx { vector<Val> a; vector<Val> ret; const Insn* in; Thread* t; bool blocked = false, redirected = false; };
static std::deque<Thread> TH; static int curT = 0;
static string demangle(const string& n) { int st; char* d = abi::__cxa_demangle(n.c_str(), nullptr, nullptr, &st); string r = d ? d : n; free(d); return r; }
static string whereAmI() {
    if (TH.empty()) return "init"; Thread& t = TH[curT]; string r;
    for (int i = (int)t.st.size() - 1, k = 0; i >= 0 && k < 5; i--, k++) { string d = demangle(t.st[i].f->name); if (d.size() > 60) d = d.substr(0, 60); r += (k ? " < " : "") + d; } return r;
}
static inline const Val& getv(Frame& fr, const Op& o, int k = 0) { static Val z; if (o.slot >= 0) return fr.r[o.slot + k]; if (o.cidx >= 0) return CONSTS[o.cidx + k]; return z; }
static void gotoBB(Frame& fr, uint32_t bb) {
    fr.prevbb = fr.bb; fr.bb = bb; fr.pc = fr.f->bbStart[bb];
    // parallel phi evaluation
    uint32_t p = fr.pc; auto& code = fr.f->code; if (p >= code.size() || code[p].opc != L::Instruction::PHI) return;
    vector<pair<int, Val>> upd;
    while (p < code.size() && code[p].opc == L::Instruction::PHI) {
        Insn& x = code[p]; bool f = false;
        for (size_t k = 0; k < x.aux.size(); k++) if (x.aux[k] == fr.prevbb) { for (int j = 0; j < x.n; j++) upd.push_back({x.dst + j, getv(fr, x.ops[k], j)}); f = true; break; }
        if (!f) unsup("phi"); p++;
    }
    for (auto& u : upd) fr.r[u.first] = u.second; fr.pc = p;
}
static void pushFrame(Thread& t, FnInfo* f, const vector<Val>& args) {
    if (!f->decoded) decode(f);
    if (f->id < 65536) S->fnSeen[f->id] = 1;
    if (t.st.size() > 4000) failPath("memory", "unbounded recursion", whereAmI());
    t.st.emplace_back(); Frame& fr = t.st.back(); fr.f = f; fr.r.resize(f->nslots); fr.bb = fr.prevbb = 0; fr.pc = 0;
    size_t n = std::min(args.size(), fr.r.size()); for (size_t i = 0; i < n; i++) fr.r[i] = args[i];
}
static void popFrame(Thread& t) { for (uint64_t a : t.st.back().allocas) freeObj(a, true); t.st.pop_back(); }
// ---- exceptions / rtti
static string globalName(uint64_t a) { for (auto& g : GADDR) if (g.second == a) return g.first->getName().str(); return ""; }
static std::unordered_map<uint64_t, string> TINAME;
static string tiName(uint64_t ti) { auto it = TINAME.find(ti); if (it != TINAME.end()) return it->second; string n = globalName(ti); TINAME[ti] = n; return n; }
static const map<string, string> STDBASE = {
    {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
    {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt12bad_weak_ptr", "_ZTISt9exception"}, {"_ZTISt12system_error", "_ZTISt13runtime_error"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt15underflow_error", "_ZTISt13runtime_error"}};
static uint64_t rd8(uint64_t a) { bool r = raceOn; raceOn = false; Val v = loadMem(a, 8, false, 64); raceOn = r; return v.lo; }
static bool isExt(uint64_t ti) { Obj* o = findObj(ti); return !o || o->ext; }
// find dst in the hierarchy of ti; returns offset or -1
static int64_t tiFind(uint64_t ti, uint64_t dst, uint64_t objAddr, int64_t off) {
    if (ti == dst) return off;
    string n = tiName(ti), dn = tiName(dst);
    if (!n.empty() && n == dn) return off;
    if (isExt(ti)) { string c = n; while (true) { auto it = STDBASE.find(c); if (it == STDBASE.end()) return -1; c = it->second; if (c == dn) return off; } }
    string kind = tiName(rd8(ti) - 16);
    if (kind == "_ZTVN10__cxxabiv120__si_class_type_infoE") return tiFind(rd8(ti + 16), dst, objAddr, off);
    if (kind == "_ZTVN10__cxxabiv121__vmi_class_type_infoE") {
        uint32_t cnt = (uint32_t)(rd8(ti + 16) >> 32);
        for (uint32_t i = 0; i < cnt; i++) { uint64_t b = rd8(ti + 24 + 16 * i); int64_t fl = (int64_t)rd8(ti + 32 + 16 * i); int64_t bo = fl >> 8; if (fl & 1) { if (!objAddr) unsup("virtual base"); bo = (int64_t)rd8(rd8(objAddr + off) + bo); } int64_t r = tiFind(b, dst, objAddr, off + bo); if (r >= 0) return r; }
    }
    return -1;
}
static std::unordered_map<uint64_t, int> TYPEID; static int typeIdOf(uint64_t ti) { auto it = TYPEID.find(ti); if (it != TYPEID.end()) return it->second; int n = TYPEID.size() + 1; TYPEID[ti] = n; return n; }
static void threadDone(Thread& t);
static void unwind(Thread& t) { // t.cur set; current top frame: the instruction at pc-1 raised
    while (!t.st.empty()) {
        Frame& fr = t.st.back(); const Insn& x = fr.f->code[fr.pc - 1];
        if (auto* iv = L::dyn_cast<L::InvokeInst>(x.I)) {
            auto* lp = iv->getLandingPadInst(); int sel = -1; int64_t off = 0;
            for (unsigned i = 0; i < lp->getNumClauses(); i++) {
                if (!lp->isCatch(i)) continue; uint64_t ti = constScalar(lp->getClause(i)).lo;
                if (ti == 0) { sel = typeIdOf(0); break; }
                off = tiFind(t.cur.ti, ti, 0, 0); if (off >= 0) { sel = typeIdOf(ti); break; }
            }
            if (sel < 0 && lp->isCleanup()) sel = 0;
            if (sel >= 0) {
                uint32_t ub = x.aux.back(); gotoBB(fr, ub);
                // landingpad
                const Insn& l = fr.f->code[fr.pc]; if (l.opc != L::Instruction::LandingPad) unsup("landingpad position");
                fr.r[l.dst] = cv(t.cur.obj + (sel > 0 && off > 0 ? off : 0)); fr.r[l.dst + 1] = cv(sel); fr.pc++; t.cur.active = true; return;
            }
        }
        popFrame(t);
    }
    failPath("exception", "uncaught exception " + demangle(tiName(t.cur.ti).substr(0, 200)));
}
static void throwGuest(Thread& t, uint64_t obj, uint64_t ti) { t.cur.obj = obj; t.cur.ti = ti; unwind(t); }

static uint64_t addrVal(const Val& v) { return v.k == C ? v.lo : concretize(v, 64); }
static void callFn(Thread& t, FnInfo* f, vector<Val>&& args, const Insn* in);
static void intrinsic(Thread& t, const Insn& x, vector<Val>& a, CallCtx& cc);
static void setRet(Thread& t, const Insn* in, const vector<Val>& rv) { // in the caller's frame (top)
    Frame& fr = t.st.back(); if (in->dst >= 0) for (int k = 0; k < in->n && k < (int)rv.size(); k++) fr.r[in->dst + k] = rv[k];
    if (in->opc == L::Instruction::Invoke) gotoBB(fr, in->aux[in->aux.size() - 2]);
}
static void callFn(Thread& t, FnInfo* f, vector<Val>&& args, const Insn* in) {
    if (f->ext) {
        CallCtx cc; cc.a = std::move(args); cc.in = in; cc.t = &t; int depth = t.st.size(); (void)depth;
        f->ext(t, cc); if (cc.blocked || cc.redirected) return; setRet(t, in, cc.ret); return;
    }
    if (f->F->isDeclaration()) unsup("external function " + f->name);
    pushFrame(t, f, args);
}
static Val selectV(const Val& c, const Val& a, const Val& b, L::Type* ty) {
    if (c.k == C) return c.lo & 1 ? a : b;
    if (a.k == C && b.k == C && a.lo == b.lo) return a;
    if (a.k != C && a.k == b.k && a.e == b.e) return a;
    bool ptr = ty->isPointerTy();
    if (ptr || a.k == UN || b.k == UN) return branch(c) ? a : b;
    z3::expr ce = asBool(c);
    if (isDbl(ty)) {
        if (a.k == SF || b.k == SF) return mk(z3::ite(ce, asFP(a), asFP(b)), SF);
        if ((a.k == C && !finiteC(a)) || (b.k == C && !finiteC(b))) return branch(c) ? a : b;
        if (a.k == C && b.k == C) { return mk(z3::ite(ce, ratOf(dbl(a)), ratOf(dbl(b))), SR); }
        return mk(z3::ite(ce, asReal(a), asReal(b)), SR);
    }
    unsigned w = bitsOf(ty);
    if (w == 1) return mk(z3::ite(ce, asBool(a), asBool(b)), SB);
    if (a.k == SR || b.k == SR) { if ((a.k == SR || finiteC(a)) && (b.k == SR || finiteC(b))) return mk(z3::ite(ce, asReal(a), asReal(b)), SR); return branch(c) ? a : b; }
    if (a.k == SV || b.k == SV) return mk(z3::ite(ce, asBV(a, w), asBV(b, w)), SV);
    auto ia = ivOf(a, w), ib = ivOf(b, w); return siWrap(z3::ite(ce, asInt(a, w), asInt(b, w)), std::min(ia.first, ib.first), std::max(ia.second, ib.second), w);
}
static void atomicHook(uint64_t a, unsigned n, bool w);
// float: a concrete value is its bit pattern, a symbolic one is kept as a double (IEEE: rounded exactly; real: any value within half an ulp)
static Val f2d(const Val& v) { if (v.k == UN) unsup("undefined float"); if (v.k != C) return v; float f; uint32_t u = v.lo; memcpy(&f, &u, 4); return cd(f); }
static Val d2f(Val v) {
    materialise(v, true, 64); if (v.k == C) { float f = (float)dbl(v); uint32_t u; memcpy(&u, &f, 4); return cv(u); }
    if (v.k == SF) { z3::expr rm(*Z, Z3_mk_fpa_rne(*Z)); Z3_sort s32 = Z3_mk_fpa_sort_32(*Z), s64 = Z3_mk_fpa_sort_64(*Z); return mk(z3::expr(*Z, Z3_mk_fpa_to_fp_float(*Z, rm, z3::expr(*Z, Z3_mk_fpa_to_fp_float(*Z, rm, X(v), s32)), s64)), SF); }
    z3::expr x = asReal(v), r = auxReal("float"), m = z3::ite(x >= 0, x, -x) * ratOf(1.0 / (1 << 24)) + ratOf(1e-45); addPC(r - x <= m && x - r <= m); Val o; o.k = SR; o.e = keep(r); return o;
}

static void step(Thread& t) {
    Frame& fr = t.st.back(); const Insn& x = fr.f->code[fr.pc++]; pathSteps++;
    if ((pathSteps & 0xffff) == 0) { checkDeadline(); if (pathSteps > opt.maxSteps) endPath(END_STEPS, "step bound exceeded in " + whereAmI()); }
    using I = L::Instruction;
    switch (x.opc) {
        case I::Ret: {
            vector<Val> rv; if (x.ops.size()) { int n = leaves(x.I->getOperand(0)->getType()); for (int k = 0; k < n; k++) rv.push_back(getv(fr, x.ops[0], k)); }
            popFrame(t);
            if (t.st.empty()) { threadDone(t); return; }
            Frame& c = t.st.back(); setRet(t, &c.f->code[c.pc - 1], rv); return;
        }
        case I::Br: if (x.aux.size() == 1) gotoBB(fr, x.aux[0]); else { Val c = getv(fr, x.ops[0]); materialise(c, false, 1); bool b = branch(c); gotoBB(fr, x.aux[b ? 0 : 1]); } return;
        case I::Switch: {
            Val c = getv(fr, x.ops[0]); for (size_t k = 1; k < x.ops.size(); k++) if (branch(icmp(L::CmpInst::ICMP_EQ, c, getv(fr, x.ops[k]), x.w))) { gotoBB(fr, x.aux[k]); return; } gotoBB(fr, x.aux[0]); return;
        }
        case I::Unreachable: failPath("memory", "reached unreachable code", whereAmI());
        case I::Add: case I::Sub: case I::Mul: case I::UDiv: case I::SDiv: case I::URem: case I::SRem: case I::Shl: case I::LShr: case I::AShr: case I::And: case I::Or: case I::Xor:
            for (int k = 0; k < x.nl; k++) { Val r = intBin(x.opc, getv(fr, x.ops[0], k), getv(fr, x.ops[1], k), x.w); fr.r[x.dst + k] = r; } return;
        case I::FAdd: case I::FSub: case I::FMul: case I::FDiv: case I::FRem:
            if (!x.isD) { const Val &a = getv(fr, x.ops[0]), &b = getv(fr, x.ops[1]);
                if (a.k != C || b.k != C) { fr.r[x.dst] = d2f(fpBin(x.opc, f2d(a), f2d(b))); return; } float p, q, r = 0; memcpy(&p, &a.lo, 4); memcpy(&q, &b.lo, 4);
                switch (x.opc) { case I::FAdd: r = p + q; break; case I::FSub: r = p - q; break; case I::FMul: r = p * q; break; case I::FDiv: r = p / q; break; default: r = fmodf(p, q); } uint32_t u; memcpy(&u, &r, 4); fr.r[x.dst] = cv(u); return; }
            for (int k = 0; k < x.nl; k++) fr.r[x.dst + k] = fpBin(x.opc, getv(fr, x.ops[0], k), getv(fr, x.ops[1], k)); return;
        case I::FNeg: if (!x.isD && !isDbl(x.I->getType()->getScalarType())) { fr.r[x.dst] = d2f(fneg(f2d(getv(fr, x.ops[0])))); return; } for (int k = 0; k < x.nl; k++) fr.r[x.dst + k] = fneg(getv(fr, x.ops[0], k)); return;
        case I::ICmp: for (int k = 0; k < x.nl; k++) fr.r[x.dst + k] = icmp(L::cast<L::ICmpInst>(x.I)->getPredicate(), getv(fr, x.ops[0], k), getv(fr, x.ops[1], k), x.w); return;
        case I::FCmp: { if (!isDbl(x.I->getOperand(0)->getType()->getScalarType())) { const Val &a = getv(fr, x.ops[0]), &b = getv(fr, x.ops[1]); fr.r[x.dst] = fcmp(L::cast<L::FCmpInst>(x.I)->getPredicate(), f2d(a), f2d(b)); return; }
            for (int k = 0; k < x.nl; k++) fr.r[x.dst + k] = fcmp(L::cast<L::FCmpInst>(x.I)->getPredicate(), getv(fr, x.ops[0], k), getv(fr, x.ops[1], k)); return; }
        case I::Alloca: { uint64_t n = getv(fr, x.ops[0]).lo; uint64_t a = allocObj(x.imm * n, false, true, false); fr.allocas.push_back(a); fr.r[x.dst] = cv(a); return; }
        case I::Load: case I::Store: {
            bool ld = x.opc == I::Load; uint64_t a = addrVal(getv(fr, x.ops[ld ? 0 : 1])); L::Type* ty = ld ? x.I->getType() : x.I->getOperand(0)->getType();
            bool at = ld ? L::cast<L::LoadInst>(x.I)->isAtomic() : L::cast<L::StoreInst>(x.I)->isAtomic(); bool sv = raceOn; if (at) { raceOn = false; if (sv) atomicHook(a, 8, !ld); }
            if (sv && !at && !ld && L::isa<L::Constant>(x.I->getOperand(0)) && x.I->getOperand(0)->getType()->isPointerTy()) { Obj* o = findObj(a); uint64_t cur; Val nv = getv(fr, x.ops[0]); if (o && a + 8 <= o->base + o->size && !(o->hasSym && SYM.count(a)) && nv.k == C && nv.lo) { memcpy(&cur, o->data + (a - o->base), 8); if (cur == nv.lo) raceOn = false; } } // a destructor that writes the same vtable pointer again
            if (!ty->isAggregateType() && !ty->isVectorTy()) {
                unsigned b = bitsOf(ty), n = (b + 7) / 8;
                if (ld) { Val v = loadMem(a, n, isDbl(ty), b); if (b == 1 && v.k == C) v.lo &= 1; else if (b == 1 && v.k != UN) v = castTrunc(v, 8, 1); fr.r[x.dst] = v; }
                else { Val v = getv(fr, x.ops[0]); if (v.k == SB) v = castZext(v, 1, 8); storeMem(a, n, v); }
            } else {
                vector<pair<L::Type*, uint64_t>> ft; flatTypes(ty, 0, ft);
                for (size_t k = 0; k < ft.size(); k++) { unsigned n = (bitsOf(ft[k].first) + 7) / 8; if (ld) fr.r[x.dst + k] = loadMem(a + ft[k].second, n, isDbl(ft[k].first), n * 8); else { Val v = getv(fr, x.ops[0], k); if (v.k == SB) v = castZext(v, 1, 8); storeMem(a + ft[k].second, n, v); } }
            }
            raceOn = sv; return;
        }
        case I::GetElementPtr: {
            Val p = getv(fr, x.ops[0]); if (p.k == UN) p = cv(0); 
            if (x.imm) p = intBin(I::Add, p, cv((uint64_t)x.imm), 64);
            for (size_t k = 0; k < x.gep.size(); k++) { Val ix = getv(fr, x.gep[k].first); if (x.aux[k] < 64) ix = castSext(ix, x.aux[k], 64); p = intBin(I::Add, p, intBin(I::Mul, ix, cv((uint64_t)x.gep[k].second), 64), 64); }
            fr.r[x.dst] = p; return;
        }
        case I::Trunc: for (int k = 0; k < x.nl; k++) fr.r[x.dst + k] = castTrunc(getv(fr, x.ops[0], k), bitsOf(x.I->getOperand(0)->getType()), x.w); return;
        case I::ZExt: for (int k = 0; k < x.nl; k++) fr.r[x.dst + k] = castZext(getv(fr, x.ops[0], k), bitsOf(x.I->getOperand(0)->getType()), x.w); return;
        case I::SExt: for (int k = 0; k < x.nl; k++) fr.r[x.dst + k] = castSext(getv(fr, x.ops[0], k), bitsOf(x.I->getOperand(0)->getType()), x.w); return;
        case I::SIToFP: case I::UIToFP: {
            Val r = castI2F(getv(fr, x.ops[0]), bitsOf(x.I->getOperand(0)->getType()), x.opc == I::SIToFP);
            if (!x.isD) r = d2f(r); fr.r[x.dst] = r; return; }
        case I::FPToSI: case I::FPToUI: { Val v = getv(fr, x.ops[0]); if (x.I->getOperand(0)->getType()->isFloatTy()) v = f2d(v); fr.r[x.dst] = castF2I(v, x.w, x.opc == I::FPToSI); return; }
        case I::FPExt: { const Val& v = getv(fr, x.ops[0]); if (isDbl(x.I->getOperand(0)->getType())) { fr.r[x.dst] = v; return; } fr.r[x.dst] = f2d(v); return; }
        case I::FPTrunc: { const Val& v = getv(fr, x.ops[0]); if (x.isD) { fr.r[x.dst] = v; return; } fr.r[x.dst] = d2f(v); return; }
        case I::PtrToInt: case I::IntToPtr: case I::BitCast: case I::Freeze: case I::AddrSpaceCast: for (int k = 0; k < std::max<int>(1, x.n); k++) fr.r[x.dst + k] = getv(fr, x.ops[0], k); return;
        case I::Select: { Val c = getv(fr, x.ops[0]); materialise(c, false, 1); if (x.n == 1 && x.I->getType()->isFloatTy()) fr.r[x.dst] = getv(fr, x.ops[branch(c) ? 1 : 2]); else if (x.n == 1) fr.r[x.dst] = selectV(c, getv(fr, x.ops[1]), getv(fr, x.ops[2]), x.I->getType()); else { bool b = branch(c); for (int k = 0; k < x.n; k++) fr.r[x.dst + k] = getv(fr, x.ops[b ? 1 : 2], k); } return; }
        case I::ExtractValue: case I::InsertValue: {
            bool ex = x.opc == I::ExtractValue; L::Type* ty = x.I->getOperand(0)->getType(); int off = 0; L::ArrayRef<unsigned> idx = ex ? L::cast<L::ExtractValueInst>(x.I)->getIndices() : L::cast<L::InsertValueInst>(x.I)->getIndices();
            for (unsigned i : idx) { if (auto* s = L::dyn_cast<L::StructType>(ty)) { for (unsigned j = 0; j < i; j++) off += leaves(s->getElementType(j)); ty = s->getElementType(i); } else { auto* a = L::cast<L::ArrayType>(ty); off += i * leaves(a->getElementType()); ty = a->getElementType(); } }
            if (ex) for (int k = 0; k < x.n; k++) fr.r[x.dst + k] = getv(fr, x.ops[0], off + k);
            else { for (int k = 0; k < x.n; k++) fr.r[x.dst + k] = getv(fr, x.ops[0], k); int n = leaves(ty); for (int k = 0; k < n; k++) fr.r[x.dst + off + k] = getv(fr, x.ops[1], k); }
            return;
        }
        case I::ExtractElement: { uint64_t i = addrVal(getv(fr, x.ops[1])); fr.r[x.dst] = getv(fr, x.ops[0], i); return; }
        case I::InsertElement: { uint64_t i = addrVal(getv(fr, x.ops[2])); Val e = getv(fr, x.ops[1]); for (int k = 0; k < x.n; k++) fr.r[x.dst + k] = k == (int)i ? e : getv(fr, x.ops[0], k); return; }
        case I::ShuffleVector: { auto* sv = L::cast<L::ShuffleVectorInst>(x.I); int n0 = leaves(x.I->getOperand(0)->getType()); vector<Val> r; for (int m : sv->getShuffleMask()) { if (m < 0) { Val u; u.k = UN; r.push_back(u); } else r.push_back(m < n0 ? getv(fr, x.ops[0], m) : getv(fr, x.ops[1], m - n0)); } for (size_t k = 0; k < r.size(); k++) fr.r[x.dst + k] = r[k]; return; }
        case I::Fence: return;
        case I::AtomicRMW: {
            auto* r = L::cast<L::AtomicRMWInst>(x.I); uint64_t a = addrVal(getv(fr, x.ops[0])); unsigned b = bitsOf(r->getType()), n = b / 8; bool sv = raceOn; raceOn = false; if (sv) atomicHook(a, n, true);
            Val o = loadMem(a, n, isDbl(r->getType()), b), v = getv(fr, x.ops[1]), nv;
            switch (r->getOperation()) { case L::AtomicRMWInst::Add: nv = intBin(I::Add, o, v, b); break; case L::AtomicRMWInst::Sub: nv = intBin(I::Sub, o, v, b); break; case L::AtomicRMWInst::Xchg: nv = v; break; case L::AtomicRMWInst::And: nv = intBin(I::And, o, v, b); break; case L::AtomicRMWInst::Or: nv = intBin(I::Or, o, v, b); break; case L::AtomicRMWInst::Xor: nv = intBin(I::Xor, o, v, b); break; case L::AtomicRMWInst::FAdd: case L::AtomicRMWInst::FSub: if (!isDbl(r->getType())) unsup("atomicrmw on float"); nv = fpBin(r->getOperation() == L::AtomicRMWInst::FAdd ? I::FAdd : I::FSub, o, v); break; default: unsup("atomicrmw"); }
            storeMem(a, n, nv); fr.r[x.dst] = o; raceOn = sv; return;
        }
        case I::AtomicCmpXchg: {
            uint64_t a = addrVal(getv(fr, x.ops[0])); unsigned b = bitsOf(x.I->getOperand(1)->getType()), n = b / 8; bool sv = raceOn; raceOn = false; if (sv) atomicHook(a, n, true);
            Val o = loadMem(a, n, false, b); bool eq = branch(icmp(L::CmpInst::ICMP_EQ, o, getv(fr, x.ops[1]), b)); if (eq) storeMem(a, n, getv(fr, x.ops[2])); fr.r[x.dst] = o; fr.r[x.dst + 1] = cv(eq); raceOn = sv; return;
        }
        case I::Resume: { t.cur.obj = getv(fr, x.ops[0], 0).lo; popFrame(t); if (t.st.empty()) failPath("exception", "uncaught exception " + demangle(tiName(t.cur.ti))); unwind(t); return; }
        case I::Call: case I::Invoke: {
            vector<Val> args; int nargs = (int)x.ops.size(); 
            for (int k = 0; k < nargs; k++) for (uint32_t j = 0; j < x.aux[k]; j++) args.push_back(getv(fr, x.ops[k], j));
            FnInfo* f = x.callee;
            if (f && f->F->isIntrinsic()) { CallCtx cc; cc.in = &x; cc.t = &t; intrinsic(t, x, args, cc); return; }
            if (!f) {
                if (x.gep.empty()) unsup("inline asm");
                uint64_t a = addrVal(getv(fr, x.gep[0].first)); auto it = ADDRFN.find(a); if (it == ADDRFN.end()) { if (a < 4096) failPath("memory", "call through null function pointer", whereAmI()); unsup("call through unknown pointer in " + whereAmI()); } f = it->second;
            }
            callFn(t, f, std::move(args), &x); return;
        }
        default: unsup(string("instruction ") + x.I->getOpcodeName());
    }
}
