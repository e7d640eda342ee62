// random source
#include "prelude.h"
// the generator state becomes arbitrary: the next words it tempers are inputs
static unsigned long* words(mt19937& g) { static_assert(sizeof(mt19937) == 625 * sizeof(unsigned long)); return (unsigned long*)&g; }
static void scramble(mt19937& g, const vector<unsigned>& w) { unsigned long* x = words(g); for (size_t i = 0; i < w.size(); i++) x[i] = w[i]; x[624] = 0; }
static vector<unsigned> draw(int n) { vector<unsigned> w; for (int i = 0; i < n; i++) w.push_back(vs_bv32("word")); return w; }
ENTRY(h_rand_int) { // every output of the generator, many ranges
    RandManager r(7); scramble(r.int_gen, draw(2)); static const int ns[] = {1, 2, 3, 4, 7, 10, 1 << 20, 0x7fffffff}; int n = ns[vs_choose("n", 8)]; static const int los[] = {0, -1000, 17}; int lo = n > (1 << 29) ? 0 : los[vs_choose("lo", 3)];
    int k = r.get_rand_int(lo, lo + n); ASSERT(k >= lo && k < lo + n, "a random integer lies outside the requested range"); vs_reach("end"); }
ENTRY(h_rand_int_onto) { // every value of a small range is attainable
    RandManager r(7); scramble(r.int_gen, draw(2)); int k = r.get_rand_int(5, 8); ASSERT(k >= 5 && k <= 7, "a random integer lies outside the requested range"); if (k == 5) vs_reach("v5"); else if (k == 6) vs_reach("v6"); else vs_reach("v7"); }
ENTRY(h_rand_uniform) { RandManager r(7); scramble(r.real_gen, draw(2)); double u = r.get_rand_uniform(); ASSERT(u >= 0 && u < 1, "a uniform draw lies outside [0,1)"); if (u > 0.9) vs_reach("high"); if (u < 0.1) vs_reach("low"); }
ENTRY(h_rand_seed) { // equal non-zero seeds give equal generator states
    int s = (int)vs_bv32("seed"); vs_assume(s != 0); RandManager a(s), b(s); for (int i = 0; i < 625; i++) { ASSERT(words(a.int_gen)[i] == words(b.int_gen)[i], "two managers with the same seed start in different integer generator states"); ASSERT(words(a.real_gen)[i] == words(b.real_gen)[i], "two managers with the same seed start in different real generator states"); } vs_reach("end"); }
ENTRY(h_rand_same) { // equal generator states give equal draws, and a draw of one kind does not disturb the other kind
    auto w = draw(4); RandManager a(7), b(7); scramble(a.int_gen, w); scramble(b.int_gen, w); auto v = draw(4); scramble(a.real_gen, v); scramble(b.real_gen, v);
    int x = a.get_rand_int(0, 8); double y = a.get_rand_uniform(); double y2 = b.get_rand_uniform(); int x2 = b.get_rand_int(0, 8);
    ASSERT(x == x2, "two managers in the same state draw different integers"); ASSERT(y == y2, "two managers in the same state draw different reals"); vs_reach("end"); }
ENTRY(h_rand_mgr) { // the planner's manager passes its seed on, so planning with a fixed seed is reproducible
    int s = (int)vs_bv32("seed"); vs_assume(s != 0); auto env = make_shared<VEnv>(1); ThtsManagerArgs args(env); args.seed = s; ThtsManager m(args); RandManager b(s);
    for (int i = 0; i < 625; i++) { ASSERT(words(m.int_gen)[i] == words(b.int_gen)[i] && words(m.real_gen)[i] == words(b.real_gen)[i], "the manager's generators are not seeded with the configured seed"); } vs_reach("end"); }
