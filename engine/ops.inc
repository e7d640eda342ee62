// ------------------------------------------------------------------ operations on values
static i128 sx(uint64_t v, unsigned w) { if (w >= 64) return (i128)(int64_t)v; uint64_t m = 1ull << (w - 1); v &= (1ull << w) - 1; return (i128)(int64_t)((v ^ m) - m); }
static uint64_t msk(uint64_t v, unsigned w) { return w >= 64 ? v : v & ((1ull << w) - 1); }
static string i128s(i128 v) { bool n = v < 0; u128 u = n ? -(u128)v : v; string s; do { s += char('0' + (int)(u % 10)); u /= 10; } while (u); if (n) s += '-'; std::reverse(s.begin(), s.end()); return s; }
static z3::expr intv(i128 v) { return Z->int_val(i128s(v).c_str()); }
static pair<i128, i128> ivOf(const Val& v, unsigned w) {
    if (v.k == C) { i128 x = sx(v.lo, w); return {x, x}; }
    auto it = IV.find(v.e); if (it != IV.end()) return it->second;
    i128 m = (i128)1 << (w - 1); return {-m, m - 1};
}
static z3::expr asInt(const Val& v, unsigned w) {
    if (v.k == C) return intv(sx(v.lo, w));
    if (v.k == SI) return X(v);
    if (v.k == SB) return z3::ite(X(v), Z->int_val(w == 1 ? -1 : 1), Z->int_val(0));
    if (v.k == SV) { z3::expr b = X(v); return z3::expr(*Z, Z3_mk_bv2int(*Z, b, true)); }
    unsup("asInt");
}
static z3::expr asBV(const Val& v, unsigned w) {
    if (v.k == C) { if (w <= 64) return Z->bv_val((uint64_t)msk(v.lo, w), w); return z3::concat(Z->bv_val((uint64_t)v.hi, w - 64), Z->bv_val((uint64_t)v.lo, 64)); }
    if (v.k == SV) { z3::expr e = X(v); unsigned ew = e.get_sort().bv_size(); if (ew == w) return e; if (ew < w) return z3::zext(e, w - ew); return e.extract(w - 1, 0); }
    if (v.k == SI) return z3::expr(*Z, Z3_mk_int2bv(*Z, w, X(v)));
    if (v.k == SB) return z3::ite(X(v), Z->bv_val(1, w), Z->bv_val(0, w));
    if (v.k == SF) return z3::expr(*Z, Z3_mk_fpa_to_ieee_bv(*Z, X(v)));
    unsup("asBV");
}
static z3::expr asBool(const Val& v) {
    if (v.k == C) return Z->bool_val(v.lo & 1);
    if (v.k == SB) return X(v);
    if (v.k == SI) return z3::mod(X(v), 2) == 1;
    if (v.k == SV) return X(v).extract(0, 0) == Z->bv_val(1, 1);
    unsup("asBool");
}
static z3::expr asReal(const Val& v) {
    if (v.k == C) return ratOf(dbl(v));
    if (v.k == SR) return X(v);
    unsup("asReal: mixed real/float encodings");
}
static z3::sort fpS() { return Z->fpa_sort(11, 53); }
static z3::expr asFP(const Val& v) {
    if (v.k == C) { z3::expr b = Z->bv_val((uint64_t)v.lo, 64); return z3::expr(*Z, Z3_mk_fpa_to_fp_bv(*Z, b, fpS())).simplify(); }
    if (v.k == SF) return X(v);
    if (v.k == SV) return z3::expr(*Z, Z3_mk_fpa_to_fp_bv(*Z, asBV(v, 64), fpS()));
    unsup("asFP: mixed real/float encodings");
}
static Val newVar(const string& n0, char type, unsigned w, i128 lo, i128 hi) {
    string n = uniq(n0); Val v; z3::expr e(*Z);
    switch (type) {
        case 'i': e = Z->int_const(n.c_str()); v.k = SI; break;
        case 'v': e = Z->bv_const(n.c_str(), w); v.k = SV; break;
        case 'r': e = Z->real_const(n.c_str()); v.k = SR; break;
        case 'f': e = Z->constant(n.c_str(), fpS()); v.k = SF; pcHasFP = true; break;
        case 'b': e = Z->bool_const(n.c_str()); v.k = SB; break;
    }
    v.e = keep(e); VARS.push_back({n, type, v.e});
    if (type == 'i') { IV[v.e] = {lo, hi}; addPC(e >= intv(lo) && e <= intv(hi)); }
    return v;
}
static int auxN = 0;
static z3::expr auxReal(const char* p) { return Z->real_const((string(p) + "!" + std::to_string(auxN++)).c_str()); }
static void materialise(Val& v, bool isD, unsigned w) {
    if (v.k != UN) return; S->undefUsed++; addStr(S->nnote, S->note, "uninitialised value used in " + whereAmI());
    if (isD) v = newVar("undef_d", 'r', 64, 0, 0);
    else if (w == 1) v = newVar("undef_b", 'b', 1, 0, 0);
    else { i128 m = (i128)1 << (w - 1); v = newVar("undef_i", 'i', w, -m, m - 1); }
}
static Val siWrap(const z3::expr& e, i128 lo, i128 hi, unsigned w) {
    i128 mx = ((i128)1 << (w - 1)) - 1, mn = -((i128)1 << (w - 1));
    if (lo < mn || hi > mx) {
        z3::expr bad = e > intv(mx) || e < intv(mn);
        if (feasible(bad)) {
            z3::expr m = intv((i128)1 << (w - 1)), M = intv((i128)1 << w);
            Val v = mk(z3::mod(e + m, M) - m, SI); if (v.k == SI) IV[v.e] = {mn, mx}; else v.lo = msk(v.lo, w); return v;
        }
        lo = std::max(lo, mn); hi = std::min(hi, mx);
    }
    Val v = mk(e, SI); if (v.k == SI) { auto it = IV.find(v.e); if (it == IV.end()) IV[v.e] = {lo, hi}; else { it->second.first = std::max(it->second.first, lo); it->second.second = std::min(it->second.second, hi); } } else v.lo = msk(v.lo, w);
    return v;
}
static Val intBin(unsigned op, Val a, Val b, unsigned w) {
    using I = llvm::Instruction;
    materialise(a, false, w); materialise(b, false, w);
    if (a.k == C && b.k == C) {
        if (w > 64) {
            u128 x = ((u128)a.hi << 64) | a.lo, y = ((u128)b.hi << 64) | b.lo, r = 0;
            switch (op) { case I::Add: r = x + y; break; case I::Sub: r = x - y; break; case I::Mul: r = x * y; break; case I::And: r = x & y; break; case I::Or: r = x | y; break; case I::Xor: r = x ^ y; break;
                case I::Shl: r = y < 128 ? x << (int)y : 0; break; case I::LShr: r = y < 128 ? x >> (int)y : 0; break; case I::UDiv: if (!y) failPath("memory", "division by zero", whereAmI()); r = x / y; break; case I::URem: if (!y) failPath("memory", "division by zero", whereAmI()); r = x % y; break; default: unsup("i128 op"); }
            Val v; v.lo = (uint64_t)r; v.hi = (uint64_t)(r >> 64); if (w < 128) v.hi &= ((uint64_t)1 << (w - 64)) - 1; return v;
        }
        uint64_t x = msk(a.lo, w), y = msk(b.lo, w), r = 0; int64_t sxx = (int64_t)sx(x, w), syy = (int64_t)sx(y, w);
        switch (op) {
            case I::Add: r = x + y; break; case I::Sub: r = x - y; break; case I::Mul: r = x * y; break;
            case I::And: r = x & y; break; case I::Or: r = x | y; break; case I::Xor: r = x ^ y; break;
            case I::Shl: r = y < w ? x << y : 0; break; case I::LShr: r = y < w ? x >> y : 0; break; case I::AShr: r = (uint64_t)(sxx >> (y < w ? y : w - 1)); break;
            case I::UDiv: case I::URem: case I::SDiv: case I::SRem:
                if (!y) failPath("memory", "integer division by zero", whereAmI());
                if (op == I::UDiv) r = x / y; else if (op == I::URem) r = x % y;
                else if (syy == -1) r = op == I::SDiv ? 0 - (uint64_t)sxx : 0; else r = op == I::SDiv ? (uint64_t)(sxx / syy) : (uint64_t)(sxx % syy);
                break;
            default: unsup("int op");
        }
        return cv(msk(r, w));
    }
    if (a.k == SR || a.k == SF || b.k == SR || b.k == SF) { if (a.k == SF || b.k == SF) { if (a.k == SF) { a = mk(asBV(a, 64), SV); } if (b.k == SF) b = mk(asBV(b, 64), SV); } else unsup("integer operation on the bits of a symbolic real"); }
    if (w == 1) {
        z3::expr x = asBool(a), y = asBool(b);
        switch (op) { case I::And: return mk(x && y, SB); case I::Or: return mk(x || y, SB); case I::Xor: case I::Add: case I::Sub: return mk(x != y, SB); default: unsup("i1 op"); }
    }
    if (op == I::Xor || op == I::Or || op == I::And) {
        // boolean-like and masks in Int mode
        for (int t = 0; t < 2; t++) {
            const Val &p = t ? b : a, &q = t ? a : b;
            if (q.k == C && p.k == SI) {
                uint64_t m = msk(q.lo, w);
                if (op == I::And) { if (m == 0) return cv(0); if (m == msk(~0ull, w)) return p; if ((m & (m + 1)) == 0) { Val v = mk(z3::mod(X(p), intv((i128)m + 1)), SI); if (v.k == SI) IV[v.e] = {0, (i128)m}; return v; } }
                if (op == I::Or && m == 0) return p;
                if (op == I::Xor) { if (m == 0) return p; if (m == msk(~0ull, w)) { auto iv = ivOf(p, w); return siWrap(-X(p) - 1, -iv.second - 1, -iv.first - 1, w); } auto iv = ivOf(p, w); if (m == 1 && iv.first >= 0 && iv.second <= 1) return siWrap(1 - X(p), 0, 1, w); }
            }
        }
        if (a.k == SI && b.k == SI) { auto x = ivOf(a, w), y = ivOf(b, w); if (x.first >= 0 && x.second <= 1 && y.first >= 0 && y.second <= 1) {
            z3::expr p = X(a) == 1, q = X(b) == 1; z3::expr r = op == I::And ? (p && q) : op == I::Or ? (p || q) : (p != q); return siWrap(z3::ite(r, Z->int_val(1), Z->int_val(0)), 0, 1, w); } }
    }
    bool bv = a.k == SV || b.k == SV || ((op == I::Xor || op == I::Or || op == I::And));
    if ((op == I::Shl || op == I::LShr || op == I::AShr) && b.k != C) bv = true;
    if (w > 64) bv = true;
    if (bv) {
        z3::expr x = asBV(a, w), y = asBV(b, w), z0 = Z->bv_val(0, w);
        switch (op) {
            case I::Add: return mk(x + y, SV); case I::Sub: return mk(x - y, SV); case I::Mul: return mk(x * y, SV);
            case I::And: return mk(x & y, SV); case I::Or: return mk(x | y, SV); case I::Xor: return mk(x ^ y, SV);
            case I::Shl: return mk(z3::shl(x, y), SV); case I::LShr: return mk(z3::lshr(x, y), SV); case I::AShr: return mk(z3::ashr(x, y), SV);
            case I::UDiv: case I::URem: case I::SDiv: case I::SRem:
                if (branchExpr(y == z0)) failPath("memory", "integer division by zero", whereAmI());
                return mk(op == I::UDiv ? z3::udiv(x, y) : op == I::URem ? z3::urem(x, y) : op == I::SDiv ? x / y : z3::srem(x, y), SV);
            default: unsup("bv op");
        }
    }
    auto ia = ivOf(a, w), ib = ivOf(b, w); z3::expr x = asInt(a, w), y = asInt(b, w);
    switch (op) {
        case I::Add: return siWrap(x + y, ia.first + ib.first, ia.second + ib.second, w);
        case I::Sub: return siWrap(x - y, ia.first - ib.second, ia.second - ib.first, w);
        case I::Mul: {
            if (w == 64) { // guard i128 overflow of the interval computation
                i128 L = (i128)1 << 62; if (ia.first < -L || ia.second > L || ib.first < -L || ib.second > L) { i128 big = (i128)1 << 126; return siWrap(x * y, -big, big, w); } }
            i128 c[4] = {ia.first * ib.first, ia.first * ib.second, ia.second * ib.first, ia.second * ib.second};
            return siWrap(x * y, *std::min_element(c, c + 4), *std::max_element(c, c + 4), w);
        }
        case I::Shl: { i128 f = (i128)1 << b.lo; i128 lo = ia.first, hi = ia.second; if (w == 64 && b.lo > 60) { lo = -((i128)1 << 60); hi = -lo; } return siWrap(x * intv(f), lo * f, hi * f, w); }
        case I::AShr: { i128 f = (i128)1 << b.lo; z3::expr q(*Z, Z3_mk_div(*Z, x, intv(f))); return siWrap(q, ia.first >> (int)b.lo, ia.second >> (int)b.lo, w); }
        case I::LShr: { if (ia.first < 0 && feasible(x < 0)) { Val v = mk(z3::lshr(asBV(a, w), asBV(b, w)), SV); return v; } i128 f = (i128)1 << b.lo; z3::expr q(*Z, Z3_mk_div(*Z, x, intv(f))); return siWrap(q, 0, ia.second >> (int)b.lo, w); }
        case I::UDiv: case I::URem: case I::SDiv: case I::SRem: {
            if (b.k != C || msk(b.lo, w) == 0) if (branchExpr(y == 0)) failPath("memory", "integer division by zero", whereAmI());
            bool uns = op == I::UDiv || op == I::URem;
            if (uns) { i128 M = (i128)1 << w; if (ia.first < 0 && feasible(x < 0)) x = z3::ite(x < 0, x + intv(M), x); if (ib.first < 0 && feasible(y < 0)) y = z3::ite(y < 0, y + intv(M), y);
                z3::expr q = z3::expr(*Z, op == I::UDiv ? Z3_mk_div(*Z, x, y) : Z3_mk_mod(*Z, x, y));
                if (op == I::UDiv) return siWrap(q, 0, ia.first < 0 ? M : ia.second, w);
                return siWrap(q, 0, ib.first < 0 ? M : std::max<i128>(ib.second - 1, 0), w); }
            // truncating division
            z3::expr ax = z3::ite(x < 0, -x, x), ay = z3::ite(y < 0, -y, y); z3::expr q(*Z, Z3_mk_div(*Z, ax, ay));
            if (ia.first >= 0) ax = x; if (ib.first >= 0) ay = y; q = z3::expr(*Z, Z3_mk_div(*Z, ax, ay));
            z3::expr qs = (ia.first >= 0 && ib.first >= 0) ? q : z3::ite((x < 0) != (y < 0), -q, q);
            i128 m = std::max(ia.first < 0 ? -ia.first : ia.first, ia.second < 0 ? -ia.second : ia.second);
            if (op == I::SDiv) return siWrap(qs, ia.first >= 0 && ib.first >= 0 ? 0 : -m, m, w);
            i128 mb = std::max(ib.first < 0 ? -ib.first : ib.first, ib.second < 0 ? -ib.second : ib.second) - 1; i128 mm = std::min(m, mb); if (mm < 0) mm = 0;
            z3::expr rem = (ia.first >= 0 && ib.first >= 0) ? z3::mod(x, y) : (x - qs * y);
            return siWrap(rem, ia.first >= 0 ? 0 : -mm, mm, w);
        }
        default: unsup("int-mode op " + std::to_string(op));
    }
}
static Val icmp(llvm::CmpInst::Predicate p, Val a, Val b, unsigned w) {
    using P = llvm::CmpInst;
    materialise(a, false, w); materialise(b, false, w);
    if (a.k == C && b.k == C) {
        if (w > 64) { u128 x = ((u128)a.hi << 64) | a.lo, y = ((u128)b.hi << 64) | b.lo; switch (p) { case P::ICMP_EQ: return cv(x == y); case P::ICMP_NE: return cv(x != y); case P::ICMP_ULT: return cv(x < y); case P::ICMP_UGT: return cv(x > y); case P::ICMP_ULE: return cv(x <= y); case P::ICMP_UGE: return cv(x >= y); default: unsup("i128 cmp"); } }
        uint64_t x = msk(a.lo, w), y = msk(b.lo, w); int64_t s = (int64_t)sx(x, w), t = (int64_t)sx(y, w);
        switch (p) { case P::ICMP_EQ: return cv(x == y); case P::ICMP_NE: return cv(x != y); case P::ICMP_ULT: return cv(x < y); case P::ICMP_ULE: return cv(x <= y); case P::ICMP_UGT: return cv(x > y); case P::ICMP_UGE: return cv(x >= y);
            case P::ICMP_SLT: return cv(s < t); case P::ICMP_SLE: return cv(s <= t); case P::ICMP_SGT: return cv(s > t); case P::ICMP_SGE: return cv(s >= t); default: unsup("icmp"); }
    }
    if (a.k == SR || b.k == SR) unsup("integer compare on the bits of a symbolic real");
    if (w == 1) { z3::expr x = asBool(a), y = asBool(b); switch (p) { case P::ICMP_EQ: return mk(x == y, SB); case P::ICMP_NE: return mk(x != y, SB); case P::ICMP_ULT: return mk(!x && y, SB); case P::ICMP_UGT: return mk(x && !y, SB); default: unsup("i1 cmp"); } }
    if (a.k == SV || b.k == SV || a.k == SF || b.k == SF) {
        z3::expr x = asBV(a, w), y = asBV(b, w);
        switch (p) { case P::ICMP_EQ: return mk(x == y, SB); case P::ICMP_NE: return mk(x != y, SB); case P::ICMP_ULT: return mk(z3::ult(x, y), SB); case P::ICMP_ULE: return mk(z3::ule(x, y), SB); case P::ICMP_UGT: return mk(z3::ugt(x, y), SB); case P::ICMP_UGE: return mk(z3::uge(x, y), SB);
            case P::ICMP_SLT: return mk(x < y, SB); case P::ICMP_SLE: return mk(x <= y, SB); case P::ICMP_SGT: return mk(x > y, SB); case P::ICMP_SGE: return mk(x >= y, SB); default: unsup("icmp"); }
    }
    z3::expr x = asInt(a, w), y = asInt(b, w); auto ia = ivOf(a, w), ib = ivOf(b, w);
    bool u = p == P::ICMP_ULT || p == P::ICMP_ULE || p == P::ICMP_UGT || p == P::ICMP_UGE;
    if (u) { z3::expr M = intv((i128)1 << w); if (ia.first < 0) { if (ia.second < 0) x = x + M; else x = z3::ite(x < 0, x + M, x); ia = {0, (i128)1 << w}; } if (ib.first < 0) { if (ib.second < 0) y = y + M; else y = z3::ite(y < 0, y + M, y); ib = {0, (i128)1 << w}; } }
    switch (p) {
        case P::ICMP_EQ: if (ia.second < ib.first || ib.second < ia.first) return cv(0); return mk(x == y, SB);
        case P::ICMP_NE: if (ia.second < ib.first || ib.second < ia.first) return cv(1); return mk(x != y, SB);
        case P::ICMP_ULT: case P::ICMP_SLT: if (ia.second < ib.first) return cv(1); if (ia.first >= ib.second) return cv(0); return mk(x < y, SB);
        case P::ICMP_ULE: case P::ICMP_SLE: if (ia.second <= ib.first) return cv(1); if (ia.first > ib.second) return cv(0); return mk(x <= y, SB);
        case P::ICMP_UGT: case P::ICMP_SGT: if (ia.first > ib.second) return cv(1); if (ia.second <= ib.first) return cv(0); return mk(x > y, SB);
        case P::ICMP_UGE: case P::ICMP_SGE: if (ia.first >= ib.second) return cv(1); if (ia.second < ib.first) return cv(0); return mk(x >= y, SB);
        default: unsup("icmp");
    }
}
static bool finiteC(const Val& v) { return v.k == C && std::isfinite(dbl(v)); }
static Val fpBin(unsigned op, Val a, Val b) {
    using I = llvm::Instruction;
    materialise(a, true, 64); materialise(b, true, 64);
    if (a.k == C && b.k == C) {
        double x = dbl(a), y = dbl(b);
        switch (op) { case I::FAdd: return cd(x + y); case I::FSub: return cd(x - y); case I::FMul: return cd(x * y); case I::FDiv: return cd(x / y); case I::FRem: return cd(fmod(x, y)); default: unsup("fp op"); }
    }
    if (a.k == SF || b.k == SF || a.k == SV || b.k == SV) {
        z3::expr x = asFP(a), y = asFP(b); z3::expr rm(*Z, Z3_mk_fpa_rne(*Z));
        // x/1.0, x*1.0, x+0.0(for x != -0) stay cheap through simplify
        if (op == I::FDiv && b.k == C && dbl(b) == 1.0) return a;
        if (op == I::FMul && b.k == C && dbl(b) == 1.0) return a;
        if (op == I::FMul && a.k == C && dbl(a) == 1.0) return b;
        switch (op) {
            case I::FAdd: return mk(z3::expr(*Z, Z3_mk_fpa_add(*Z, rm, x, y)), SF); case I::FSub: return mk(z3::expr(*Z, Z3_mk_fpa_sub(*Z, rm, x, y)), SF);
            case I::FMul: return mk(z3::expr(*Z, Z3_mk_fpa_mul(*Z, rm, x, y)), SF); case I::FDiv: return mk(z3::expr(*Z, Z3_mk_fpa_div(*Z, rm, x, y)), SF); default: unsup("fp op");
        }
    }
    // Real mode; at least one symbolic (finite) real
    if (a.k == C && !std::isfinite(dbl(a))) {
        double x = dbl(a); if (std::isnan(x)) return a;
        if (op == I::FAdd || op == I::FSub) return a;
        if (op == I::FMul || op == I::FDiv) { z3::expr y = asReal(b); if (branchExpr(y == 0)) return op == I::FMul ? cd(NAN) : a; return branchExpr(y > 0) ? a : cd(-x); }
    }
    if (b.k == C && !std::isfinite(dbl(b))) {
        double y = dbl(b); if (std::isnan(y)) return b;
        if (op == I::FAdd) return b; if (op == I::FSub) return cd(-y); if (op == I::FDiv) return cd(0.0);
        if (op == I::FMul) { z3::expr x = asReal(a); if (branchExpr(x == 0)) return cd(NAN); return branchExpr(x > 0) ? b : cd(-y); }
    }
    z3::expr x = asReal(a), y = asReal(b);
    switch (op) {
        case I::FAdd: if (a.k == C && dbl(a) == 0) return b; if (b.k == C && dbl(b) == 0) return a; return mk(x + y, SR);
        case I::FSub: if (b.k == C && dbl(b) == 0) return a; if (a.e && a.e == b.e) return cd(0.0); return mk(x - y, SR);
        case I::FMul: if ((a.k == C && dbl(a) == 0) || (b.k == C && dbl(b) == 0)) return cd(0.0); if (a.k == C && dbl(a) == 1.0) return b; if (b.k == C && dbl(b) == 1.0) return a; return mk(x * y, SR);
        case I::FDiv: {
            if (b.k == C) { double d = dbl(b); if (d == 1.0) return a; if (d != 0) return mk(x * (Z->real_val(1) / y).simplify(), SR); 
                if (branchExpr(x == 0)) return cd(NAN); bool pos = branchExpr(x > 0); return cd(pos != std::signbit(d) ? INFINITY : -INFINITY); }
            if (branchExpr(y == 0)) { if (a.k == C) { double n = dbl(a); return n == 0 ? cd(NAN) : cd(n > 0 ? INFINITY : -INFINITY); } if (branchExpr(x == 0)) return cd(NAN); return cd(branchExpr(x > 0) ? INFINITY : -INFINITY); }
            if (a.k == C && dbl(a) == 0) return cd(0.0);
            if (a.e && a.e == b.e) return cd(1.0);
            return mk(x / y, SR);
        }
        default: unsup("real op");
    }
}
static Val fcmp(llvm::CmpInst::Predicate p, Val a, Val b) {
    using P = llvm::CmpInst;
    materialise(a, true, 64); materialise(b, true, 64);
    if (p == P::FCMP_FALSE) return cv(0); if (p == P::FCMP_TRUE) return cv(1);
    auto conc = [&](double x, double y) -> bool {
        bool un = std::isnan(x) || std::isnan(y);
        switch (p) { case P::FCMP_OEQ: return !un && x == y; case P::FCMP_OGT: return !un && x > y; case P::FCMP_OGE: return !un && x >= y; case P::FCMP_OLT: return !un && x < y; case P::FCMP_OLE: return !un && x <= y; case P::FCMP_ONE: return !un && x != y; case P::FCMP_ORD: return !un; case P::FCMP_UNO: return un;
            case P::FCMP_UEQ: return un || x == y; case P::FCMP_UGT: return un || x > y; case P::FCMP_UGE: return un || x >= y; case P::FCMP_ULT: return un || x < y; case P::FCMP_ULE: return un || x <= y; case P::FCMP_UNE: return un || x != y; default: unsup("fcmp"); } };
    if (a.k == C && b.k == C) return cv(conc(dbl(a), dbl(b)));
    if (a.k == SF || b.k == SF || a.k == SV || b.k == SV) {
        z3::expr x = asFP(a), y = asFP(b);
        auto E = [&](Z3_ast r) { return z3::expr(*Z, r); };
        z3::expr un = E(Z3_mk_fpa_is_nan(*Z, x)) || E(Z3_mk_fpa_is_nan(*Z, y));
        z3::expr eq = E(Z3_mk_fpa_eq(*Z, x, y)), lt = E(Z3_mk_fpa_lt(*Z, x, y)), le = E(Z3_mk_fpa_leq(*Z, x, y)), gt = E(Z3_mk_fpa_gt(*Z, x, y)), ge = E(Z3_mk_fpa_geq(*Z, x, y));
        switch (p) { case P::FCMP_OEQ: return mk(eq, SB); case P::FCMP_OGT: return mk(gt, SB); case P::FCMP_OGE: return mk(ge, SB); case P::FCMP_OLT: return mk(lt, SB); case P::FCMP_OLE: return mk(le, SB); case P::FCMP_ONE: return mk(!eq && !un, SB); case P::FCMP_ORD: return mk(!un, SB); case P::FCMP_UNO: return mk(un, SB);
            case P::FCMP_UEQ: return mk(eq || un, SB); case P::FCMP_UGT: return mk(!le, SB); case P::FCMP_UGE: return mk(!lt, SB); case P::FCMP_ULT: return mk(!ge, SB); case P::FCMP_ULE: return mk(!gt, SB); case P::FCMP_UNE: return mk(!eq, SB); default: unsup("fcmp"); }
    }
    if ((a.k == C && !finiteC(a)) || (b.k == C && !finiteC(b))) { double x = a.k == C ? dbl(a) : 0, y = b.k == C ? dbl(b) : 0; return cv(conc(x, y)); }
    z3::expr x = asReal(a), y = asReal(b);
    switch (p) { case P::FCMP_OEQ: case P::FCMP_UEQ: return mk(x == y, SB); case P::FCMP_OGT: case P::FCMP_UGT: return mk(x > y, SB); case P::FCMP_OGE: case P::FCMP_UGE: return mk(x >= y, SB); case P::FCMP_OLT: case P::FCMP_ULT: return mk(x < y, SB); case P::FCMP_OLE: case P::FCMP_ULE: return mk(x <= y, SB);
        case P::FCMP_ONE: case P::FCMP_UNE: return mk(x != y, SB); case P::FCMP_ORD: return cv(1); case P::FCMP_UNO: return cv(0); default: unsup("fcmp"); }
}
static Val fneg(Val a) { materialise(a, true, 64); if (a.k == C) return cd(-dbl(a)); if (a.k == SF) return mk(z3::expr(*Z, Z3_mk_fpa_neg(*Z, X(a))), SF); return mk(-asReal(a), SR); }
static Val fabsV(Val a) { materialise(a, true, 64); if (a.k == C) return cd(fabs(dbl(a))); if (a.k == SF) return mk(z3::expr(*Z, Z3_mk_fpa_abs(*Z, X(a))), SF); z3::expr x = asReal(a); return mk(z3::ite(x >= 0, x, -x), SR); }

// ---- casts
static Val castTrunc(Val v, unsigned fw, unsigned tw) {
    if (v.k == UN) return v;
    if (v.k == C) { Val r; r.lo = msk(v.lo, tw); r.hi = tw > 64 ? v.hi : 0; return r; }
    if (tw == 1) { if (v.k == SI) { auto iv = ivOf(v, fw); if (iv.first >= 0 && iv.second <= 1) return mk(X(v) == 1, SB); } return mk(asBool(v), SB); }
    if (v.k == SV) return mk(X(v).extract(tw - 1, 0), SV);
    if (v.k == SF) return mk(asBV(v, 64).extract(tw - 1, 0), SV);
    if (v.k == SI) { auto iv = ivOf(v, fw); return siWrap(X(v), iv.first, iv.second, tw); }
    unsup("trunc");
}
static Val castZext(Val v, unsigned fw, unsigned tw) {
    materialise(v, false, fw);
    if (v.k == C) { Val r; r.lo = msk(v.lo, fw); r.hi = fw > 64 ? v.hi : 0; return r; }
    if (v.k == SB) return siWrap(z3::ite(X(v), Z->int_val(1), Z->int_val(0)), 0, 1, tw);
    if (v.k == SV) return mk(z3::zext(X(v), tw - fw), SV);
    if (v.k == SI) { auto iv = ivOf(v, fw); if (iv.first >= 0) return v; z3::expr x = X(v); if (!feasible(x < 0)) { IV[v.e].first = 0; IV[v.e].second = iv.second; return v; } return siWrap(z3::ite(x < 0, x + intv((i128)1 << fw), x), 0, ((i128)1 << fw) - 1, tw); }
    unsup("zext");
}
static Val castSext(Val v, unsigned fw, unsigned tw) {
    materialise(v, false, fw);
    if (v.k == C) { Val r; i128 s = sx(v.lo, fw); r.lo = msk((uint64_t)s, tw); r.hi = tw > 64 ? (uint64_t)(s >> 64) : 0; return r; }
    if (v.k == SB) return siWrap(z3::ite(X(v), Z->int_val(-1), Z->int_val(0)), -1, 0, tw);
    if (v.k == SV) return mk(z3::sext(X(v), tw - fw), SV);
    if (v.k == SI) return v;
    unsup("sext");
}
static Val castI2F(Val v, unsigned fw, bool sign) {
    materialise(v, false, fw);
    if (v.k == C) { if (fw > 64) { u128 x = ((u128)v.hi << 64) | v.lo; return cd((double)x); } return sign ? cd((double)(int64_t)sx(v.lo, fw)) : cd((double)msk(v.lo, fw)); }
    if (v.k == SB) v = castZext(v, 1, 64), fw = 64;
    if (v.k == SV) { z3::expr rm(*Z, Z3_mk_fpa_rne(*Z)); pcHasFP = true; return mk(z3::expr(*Z, sign ? Z3_mk_fpa_to_fp_signed(*Z, rm, X(v), fpS()) : Z3_mk_fpa_to_fp_unsigned(*Z, rm, X(v), fpS())), SF); }
    if (v.k == SI) { z3::expr x = X(v); auto iv = ivOf(v, fw); if (!sign && iv.first < 0) x = z3::ite(x < 0, x + intv((i128)1 << fw), x); return mk(z3::expr(*Z, Z3_mk_int2real(*Z, x)), SR); }
    unsup("i2f");
}
static Val castF2I(Val v, unsigned tw, bool sign) {
    materialise(v, true, 64);
    if (v.k == C) { double d = dbl(v); if (sign) return cv(msk((uint64_t)(int64_t)d, tw)); return cv(msk((uint64_t)d, tw)); }
    if (v.k == SR) { z3::expr x = X(v); z3::expr f(*Z, Z3_mk_real2int(*Z, x)), g(*Z, Z3_mk_real2int(*Z, -x)); i128 b = (i128)1 << 100; return siWrap(z3::ite(x >= 0, f, -g), -b, b, tw); }
    if (v.k == SF) { z3::expr rm(*Z, Z3_mk_fpa_rtz(*Z)); return mk(z3::expr(*Z, sign ? Z3_mk_fpa_to_sbv(*Z, rm, X(v), tw) : Z3_mk_fpa_to_ubv(*Z, rm, X(v), tw)), SV); }
    unsup("f2i");
}
// concretise: fork over the feasible values
static uint64_t concretize(Val v, unsigned w) {
    if (v.k == UN) materialise(v, false, w);
    if (v.k == C) return v.lo;
    if (v.k == SB) return branch(v) ? 1 : 0;
    for (int it = 0; it < 4096; it++) {
        if (!MDL) { auto r = check1(nullptr); if (r == z3::unsat) endPath(END_ASSUME, "infeasible path"); if (r == z3::unknown || !MDL) {
            ModelMap mm; int q = hardCheck(*PC, mm, opt.hardTimeout, pcHasFP); if (q == 0) endPath(END_ASSUME, "infeasible path");
            // fall back: enumerate through the interval
            if (v.k == SI) { auto iv = ivOf(v, w); if (iv.second - iv.first < 64) { for (i128 x = iv.first; x < iv.second; x++) if (branchExpr(X(v) == intv(x))) return msk((uint64_t)x, w); return msk((uint64_t)iv.second, w); } }
            unsup("cannot concretise"); } }
        z3::expr m = MDL->eval(X(v), true); uint64_t cvv;
        if (v.k == SI) { int64_t n; if (!m.is_numeral_i64(n)) unsup("concretise"); cvv = msk((uint64_t)n, w); if (branchExpr(X(v) == m)) return cvv; }
        else { uint64_t n; if (!Z3_get_numeral_uint64(*Z, m, &n)) unsup("concretise"); cvv = n; if (branchExpr(X(v) == m)) return cvv; }
    }
    unsup("concretise: too many values");
}
// ---- math functions
static void ufAxioms(UF& u) {
    z3::expr A(*Z, u.a), R(*Z, u.r);
    if (u.f == 'e') {
        addPC(R > 0); addPC(z3::implies(A == 0, R == 1)); addPC(R >= 1 + A); addPC((A > 0) == (R > 1));
        addPC(z3::implies(A < 1, R * (1 - A) <= 1));
    } else if (u.f == 'l') {
        addPC(R <= A - 1); addPC((A > 1) == (R > 0)); addPC(z3::implies(A == 1, R == 0)); addPC(R * A >= A - 1);
    } else if (u.f == 'p') {
        addPC(R > 0); z3::expr B(*Z, u.b); addPC(z3::implies(B == 0, R == 1)); addPC(z3::implies(B == 1, R == A)); addPC(z3::implies(A == 1, R == 1));
        addPC(z3::implies(A > 1 && B > 0, R > 1));
    }
    for (auto& o : UFS) {
        if (&o == &u) continue; z3::expr A2(*Z, o.a), R2(*Z, o.r);
        if (o.f == u.f && u.f != 'p') { addPC(z3::implies(A < A2, R < R2)); addPC(z3::implies(A > A2, R > R2)); addPC(z3::implies(A == A2, R == R2)); }
        else if (o.f == u.f) { z3::expr B(*Z, u.b), B2(*Z, o.b); addPC(z3::implies(A == A2 && B == B2, R == R2)); addPC(z3::implies(B == B2 && B > 0 && A < A2, R < R2)); addPC(z3::implies(B == B2 && B > 0 && A > A2, R > R2)); }
        if (u.f == 'l' && o.f == 'e') { addPC(z3::implies(A == R2, R == A2)); addPC(z3::implies(A < R2, R < A2)); addPC(z3::implies(A > R2, R > A2)); }
        if (u.f == 'e' && o.f == 'l') { addPC(z3::implies(A == R2, R == A2)); addPC(z3::implies(A < R2, R < A2)); addPC(z3::implies(A > R2, R > A2)); }
        if (u.f == 'e' && o.f == 'e') addPC(z3::implies(A + A2 == 0, R * R2 == 1));
        if (u.f == 'e' && o.f == 'e') { z3::expr d = ratOf(1e-9), g = ratOf(1 + 1e-8); addPC(z3::implies(A - A2 <= d && A2 - A <= d, R <= R2 * g && R2 <= R * g)); } // arguments that differ by rounding only
        if (u.f == 'l' && o.f == 'l') { z3::expr d = ratOf(1e-9), g = ratOf(1e-8); addPC(z3::implies(A - A2 <= d * A2 && A2 - A <= d * A2, R - R2 <= g && R2 - R <= g)); }
        if (u.f == 'l' && o.f == 'l') addPC(z3::implies(A * A2 == 1, R + R2 == 0));
    }
    if (u.f == 'e') { // exp(a) = exp(b) exp(c) when a = b + c
        vector<const UF*> es; for (auto& o : UFS) if (o.f == 'e') es.push_back(&o);
        if (es.size() <= 7) for (size_t i = 0; i < es.size(); i++) for (size_t j = i; j < es.size(); j++) {
            const UF *p = es[i], *q = es[j]; if (p == &u && q == &u) continue;
            z3::expr P(*Z, p->a), PR(*Z, p->r), Q(*Z, q->a), QR(*Z, q->r);
            if (p != &u && q != &u) addPC(z3::implies(A == P + Q, R == PR * QR));
            else { const UF* o = p == &u ? q : p; z3::expr O(*Z, o->a), OR_(*Z, o->r); for (auto* t : es) if (t != &u && t != o) addPC(z3::implies(z3::expr(*Z, t->a) == A + O, z3::expr(*Z, t->r) == R * OR_)); }
        }
    }
}
static Val ufApp(char f, const z3::expr& a, const z3::expr* b) {
    z3::expr as = a.simplify(); Z3_ast ak = keep(as); Z3_ast bk = nullptr; if (b) bk = keep(b->simplify());
    for (auto& u : UFS) if (u.f == f && u.a == ak && u.b == bk) { Val v; v.k = SR; v.e = u.r; return v; }
    UF u; u.f = f; u.a = ak; u.b = bk; u.rn = string("uf_") + f + std::to_string(ufN++); z3::expr r = Z->real_const(u.rn.c_str()); u.r = keep(r);
    UFS.push_back(u); ufAxioms(UFS.back()); Val v; v.k = SR; v.e = u.r; return v;
}
static Val mathExp(Val a) { materialise(a, true, 64); if (a.k == C) return cd(exp(dbl(a))); if (a.k == SF) unsup("exp in float mode"); return ufApp('e', asReal(a), nullptr); }
static Val mathLog(Val a) { materialise(a, true, 64); if (a.k == C) return cd(log(dbl(a))); if (a.k == SF) unsup("log in float mode"); z3::expr x = asReal(a); if (!branchExpr(x > 0)) { if (branchExpr(x == 0)) return cd(-INFINITY); return cd(NAN); } return ufApp('l', x, nullptr); }
static Val mathSqrt(Val a) {
    materialise(a, true, 64); if (a.k == C) return cd(sqrt(dbl(a)));
    if (a.k == SF) { z3::expr rm(*Z, Z3_mk_fpa_rne(*Z)); return mk(z3::expr(*Z, Z3_mk_fpa_sqrt(*Z, rm, X(a))), SF); }
    z3::expr x = asReal(a); if (!branchExpr(x >= 0)) return cd(NAN);
    Val v; v.k = SR; auto it = sqrtMap.find(a.e); if (it != sqrtMap.end()) { v.e = it->second; return v; }
    z3::expr r = auxReal("sqrt"); v.e = keep(r); addPC(r >= 0 && r * r == x);
    for (auto& s : sqrtMap) { z3::expr x2(*Z, s.first), r2(*Z, s.second); addPC(z3::implies(x < x2, r < r2)); addPC(z3::implies(x > x2, r > r2)); addPC(z3::implies(x == x2, r == r2)); }
    sqrtMap[a.e] = v.e; return v;
}
static Val mathPow(Val a, Val b) {
    materialise(a, true, 64); materialise(b, true, 64);
    if (a.k == C && b.k == C) return cd(pow(dbl(a), dbl(b)));
    if (b.k == C && dbl(b) == 2.0) return fpBin(llvm::Instruction::FMul, a, a);
    if (b.k == C && dbl(b) == 1.0) return a; if (b.k == C && dbl(b) == 0.0) return cd(1.0);
    if (b.k == C && dbl(b) == 3.0) return fpBin(llvm::Instruction::FMul, a, fpBin(llvm::Instruction::FMul, a, a));
    if (b.k == C && dbl(b) == 0.5) return mathSqrt(a);
    if (a.k == SF || b.k == SF) unsup("pow in float mode");
    if (b.k == C && !finiteC(b)) unsup("pow with non-finite exponent");
    z3::expr x = asReal(a), y = asReal(b); if (!branchExpr(x > 0)) { if (branchExpr(x == 0)) { if (branchExpr(y > 0)) return cd(0.0); if (branchExpr(y == 0)) return cd(1.0); return cd(INFINITY); } unsup("pow of negative base"); }
    return ufApp('p', x, &y);
}
