#include "prelude.h"
ENTRY(h_max) {
    Sym<RandManager> rm(1); unordered_map<Ac, double> m; double v[3];
    for (int i = 0; i < 3; i++) { v[i] = vs_real("v", -10, 10); m[A_(i)] = v[i]; }
    Ac k = helper::get_max_key_break_ties_randomly(m, rm);
    for (int i = 0; i < 3; i++) ASSERT(v[aid(k)] >= v[i], "returned key is maximal");
    ASSERT(v[aid(k)] >= v[0] + 0.5, "bogus");
    vs_reach("end");
}
