// ------------------------------------------------------------------ memory
struct Obj { uint64_t base, size; uint8_t* data; uint8_t* init; bool live, heap, stack, constant, hasSym, ext; int tid; };
static std::deque<Obj> OBJS;
static vector<uint32_t> GRAN;            // (addr - BASE) >> 4 -> obj index + 1
static const uint64_t BASE = 0x100000000ull;
static uint64_t bump = BASE + 0x1000;
struct Cell { Val v; uint8_t size; };
static std::unordered_map<uint64_t, Cell> SYM;

static uint64_t allocObj(uint64_t size, bool heap, bool stack, bool inited) {
    uint64_t base = bump; uint64_t sz = size ? size : 1;
    bump = (base + sz + 16 + 15) & ~15ull;
    Obj o{}; o.base = base; o.size = size; o.data = (uint8_t*)calloc(1, sz); o.init = (uint8_t*)malloc(sz); memset(o.init, inited ? 1 : 0, sz);
    o.live = true; o.heap = heap; o.stack = stack;
    OBJS.push_back(o); uint32_t id = OBJS.size();
    uint64_t g0 = (base - BASE) >> 4, g1 = (base + sz - 1 - BASE) >> 4;
    if (GRAN.size() <= g1 + 2) GRAN.resize((g1 + 2) * 3 / 2);
    for (uint64_t g = g0; g <= g1; g++) GRAN[g] = id;
    return base;
}
static Obj* findObj(uint64_t a) {
    if (a < BASE) return nullptr; uint64_t g = (a - BASE) >> 4; if (g >= GRAN.size()) return nullptr;
    uint32_t id = GRAN[g]; return id ? &OBJS[id - 1] : nullptr;
}
static void clearSym(uint64_t a, uint64_t n) { if (SYM.empty()) return; if (n > 64) { for (auto it = SYM.begin(); it != SYM.end();) if (it->first + it->second.size > a && it->first < a + n) it = SYM.erase(it); else ++it; return; }
    for (uint64_t x = a >= 7 ? a - 7 : 0; x < a + n; x++) { auto it = SYM.find(x); if (it != SYM.end() && x + it->second.size > a) SYM.erase(it); } }
static string whereAmI();
static void freeObj(uint64_t a, bool stack) {
    Obj* o = findObj(a);
    if (!o || o->base != a) failPath("memory", "free of a non-heap pointer", whereAmI());
    if (!o->live) failPath("memory", "double free", whereAmI());
    if (o->hasSym) clearSym(o->base, o->size);
    o->live = false;
    if (o->stack) { ::free(o->data); ::free(o->init); o->data = o->init = nullptr; uint64_t g0 = (o->base - BASE) >> 4, g1 = (o->base + (o->size ? o->size : 1) - 1 - BASE) >> 4; (void)g0; (void)g1; }
    else { ::free(o->data); ::free(o->init); o->data = o->init = nullptr; }
}
static Obj* access(uint64_t a, uint64_t n, bool write) {
    Obj* o = findObj(a);
    if (!o) failPath("memory", a < 4096 ? "null pointer access" : "wild pointer access", whereAmI());
    if (!o->live) failPath("memory", o->stack ? "use after scope" : "use after free", whereAmI());
    if (a < o->base || a + n > o->base + o->size) failPath("memory", "out-of-bounds access", whereAmI());
    return o;
}
static void raceAccess(uint64_t a, uint64_t n, bool write, bool atomic, Obj* o);
static bool raceOn = false;

static z3::expr asBV(const Val& v, unsigned w); // ops.inc
static Val loadMem(uint64_t a, unsigned n, bool isD, unsigned bits) {
    Obj* o = access(a, n, false);
    if (raceOn && !o->stack) raceAccess(a, n, false, false, o);
    uint64_t off = a - o->base;
    if (o->hasSym) {
        auto it = SYM.find(a);
        if (it != SYM.end()) {
            if (it->second.size == n) return it->second.v;
            if (n < it->second.size && it->second.v.k != SR && it->second.v.k != SF) { // low part
                z3::expr b = asBV(it->second.v, it->second.size * 8).extract(n * 8 - 1, 0); return mk(b, SV);
            }
        }
        for (uint64_t x = a >= 7 ? a - 7 : 0; x < a + n; x++) {
            auto j = SYM.find(x); if (j == SYM.end() || x + j->second.size <= a) continue;
            if (j->second.v.k == SR || j->second.v.k == SF) unsup("partial load of symbolic floating-point cell");
            // assemble bytewise
            z3::expr r(*Z); bool first = true;
            for (unsigned i = 0; i < n; i++) {
                z3::expr byte = Z->bv_val((unsigned)o->data[off + i], 8); uint64_t ba = a + i;
                for (uint64_t y = ba >= 7 ? ba - 7 : 0; y <= ba; y++) { auto c = SYM.find(y); if (c != SYM.end() && y + c->second.size > ba) { unsigned k = ba - y; byte = asBV(c->second.v, c->second.size * 8).extract(k * 8 + 7, k * 8); } }
                r = first ? byte : z3::concat(byte, r); first = false;
            }
            return mk(r, SV);
        }
    }
    Val v; memcpy(&v.lo, o->data + off, n > 8 ? 8 : n); if (n > 8) memcpy(&v.hi, o->data + off + 8, n - 8);
    bool any = false; for (unsigned i = 0; i < n; i++) any |= !!o->init[off + i];
    if (!any && n) { v.k = UN; v.lo = 0; }
    return v;
}
static void storeMem(uint64_t a, unsigned n, const Val& v) {
    Obj* o = access(a, n, true);
    if (o->constant) failPath("memory", "write to constant memory", whereAmI());
    if (raceOn && !o->stack) raceAccess(a, n, true, false, o);
    uint64_t off = a - o->base;
    if (o->hasSym) {
        auto it = SYM.find(a);
        if (it != SYM.end() && it->second.size == n) SYM.erase(it);
        else for (uint64_t x = a >= 7 ? a - 7 : 0; x < a + n; x++) {
            auto j = SYM.find(x); if (j == SYM.end() || x + j->second.size <= a) continue;
            if (x >= a && x + j->second.size <= a + n) { SYM.erase(j); continue; }
            // partial overwrite: split into bytes
            if (j->second.v.k == SR || j->second.v.k == SF) unsup("partial store over symbolic floating-point cell");
            Cell c = j->second; SYM.erase(j); z3::expr b = asBV(c.v, c.size * 8);
            for (unsigned i = 0; i < c.size; i++) { Cell nb; nb.size = 1; nb.v = mk(b.extract(i * 8 + 7, i * 8), SV); if (nb.v.k == C) o->data[x + i - o->base] = nb.v.lo; else SYM[x + i] = nb; }
            for (uint64_t y = a; y < a + n; y++) SYM.erase(y);
        }
    }
    if (v.k == UN) { memset(o->init + off, 0, n); memset(o->data + off, 0, n); return; }
    memset(o->init + off, 1, n);
    if (v.k == C) { memcpy(o->data + off, &v.lo, n > 8 ? 8 : n); if (n > 8) memcpy(o->data + off + 8, &v.hi, n - 8); return; }
    memset(o->data + off, 0, n); o->hasSym = true; SYM[a] = Cell{v, (uint8_t)n};
}
static void copyMem(uint64_t d, uint64_t s, uint64_t n) { // memmove semantics
    if (!n || d == s) return;
    Obj* so = access(s, n, false); Obj* dobj = access(d, n, true);
    if (raceOn) { if (!so->stack) raceAccess(s, n, false, false, so); if (!dobj->stack) raceAccess(d, n, true, false, dobj); }
    vector<pair<uint64_t, Cell>> cells;
    if (so->hasSym) for (uint64_t x = s >= 7 ? s - 7 : 0; x < s + n; x++) { auto j = SYM.find(x); if (j == SYM.end() || x + j->second.size <= s) continue; if (x < s || x + j->second.size > s + n) unsup("memcpy splits a symbolic cell"); cells.push_back({x - s, j->second}); }
    if (dobj->hasSym) clearSym(d, n);
    memmove(dobj->data + (d - dobj->base), so->data + (s - so->base), n);
    memmove(dobj->init + (d - dobj->base), so->init + (s - so->base), n);
    for (auto& c : cells) { dobj->hasSym = true; SYM[d + c.first] = c.second; }
}
static string readCStr(uint64_t a) {
    string r; for (int i = 0; i < 100000; i++) { Obj* o = access(a + i, 1, false); if (o->hasSym && SYM.count(a + i)) unsup("symbolic C string"); char c = o->data[a + i - o->base]; if (!c) break; r += c; } return r;
}
static uint64_t newCStr(const string& s) { uint64_t a = allocObj(s.size() + 1, true, false, true); memcpy(findObj(a)->data, s.c_str(), s.size() + 1); return a; }
