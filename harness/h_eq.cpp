// equality and hashing of states, actions, observations and table keys
#include "prelude.h"
static int I(const char* n) { return vs_int(n, -2147483647, 2147483647); }
template <class P> static void both(const shared_ptr<const P>& x, const shared_ptr<const P>& y, bool same) { // every way of comparing and hashing agrees
    ASSERT(x->equals_itfc(*y) == same, "two objects compare equal exactly if they do not have the same content"); ASSERT(y->equals_itfc(*x) == same, "equality is not symmetric"); ASSERT((*x == *y) == same, "equality through references is wrong"); ASSERT((x == y) == same, "equality through shared pointers is wrong"); ASSERT((x != y) == !same, "inequality through shared pointers is wrong");
    ASSERT(equal_to<P>()(*x, *y) == same, "equal_to of objects is wrong"); ASSERT((equal_to<shared_ptr<const P>>()(x, y)) == same, "equal_to of shared pointers is wrong"); size_t h = x->hash(); ASSERT(hash<P>()(*x) == h, "hashing an object differs from its hash"); ASSERT(hash<shared_ptr<const P>>()(x) == h, "hashing a shared pointer differs from hashing its content"); if (same) { ASSERT(y->hash() == h, "equal objects hash differently"); vs_reach("equal"); } else vs_reach("different"); ASSERT(x->equals_itfc(*x), "an object does not equal itself");
}
static void obs(const St& x, const St& y, bool same) { both<State>(x, y, same); both<Observation>(static_pointer_cast<const Observation>(x), static_pointer_cast<const Observation>(y), same); ASSERT((hash<shared_ptr<const Observation>>()(static_pointer_cast<const Observation>(x))) == (hash<shared_ptr<const State>>()(x)), "a state hashes differently as an observation"); }
ENTRY(h_eq_int) { int a = I("a"), b = I("b"); obs(make_shared<const IntState>(a), make_shared<const IntState>(b), a == b); }
ENTRY(h_eq_pair) { int ctor = vs_choose("ctor", 2); int a = (int)vs_bv32("a"), b = (int)vs_bv32("b"), c = (int)vs_bv32("c"), d = (int)vs_bv32("d"); obs(make_shared<const IntPairState>(a, b), ctor ? make_shared<const IntPairState>(make_pair(c, d)) : make_shared<const IntPairState>(c, d), a == c && b == d); }
ENTRY(h_eq_triple) { int a = I("a"), b = I("b"), c = I("c"), d = I("d"), e = I("e"), f = I("f"); obs(make_shared<const Int3TupleState>(a, b, c), make_shared<const Int3TupleState>(make_tuple(d, e, f)), a == d && b == e && c == f); }
ENTRY(h_eq_act) { int a = I("a"), b = I("b"); both<Action>(make_shared<const IntAction>(a), make_shared<const IntAction>(b), a == b); }
static string str(const char* n) { static const char* T[] = {"", "a", "b", "ab", "ba", "aa", "left", "a very long name of an action that is not stored inline", "a very long name of an action that is not stored inlinE"}; return T[vs_choose(n, 9)]; }
ENTRY(h_eq_str) { string a = str("a"), b = str("b"); both<Action>(make_shared<const StringAction>(a), make_shared<const StringAction>(b), a == b); }
ENTRY(h_eq_char) { string a(2, 'x'), b(2, 'x'); for (int i = 0; i < 2; i++) { a[i] = 'a' + vs_choose("ca", 3); b[i] = 'a' + vs_choose("cb", 3); } both<Action>(make_shared<const StringAction>(a), make_shared<const StringAction>(b), a == b); }
ENTRY(h_eq_kind) { // objects of different kinds never compare equal
    int a = I("a"), b = I("b"), c = I("c"), d = I("d"), e = I("e"), f = I("f"), k = vs_choose("kind", 3), l = vs_choose("other", 3); vs_assume(k != l); auto mk = [](int k, int a, int b, int c) -> St { if (k == 0) return make_shared<const IntState>(a); if (k == 1) return make_shared<const IntPairState>(a, b); return make_shared<const Int3TupleState>(a, b, c); }; both<State>(mk(k, a, b, c), mk(l, d, e, f), false);
    Ac i = make_shared<const IntAction>(a), s = make_shared<const StringAction>("1"); both<Action>(i, s, false); vs_reach("end");
}
ENTRY(h_eq_key) { // keys of the transposition table
    int t = I("t"), u = I("u"), a = I("a"), b = I("b"); DNodeIdTuple x = make_tuple(t, static_pointer_cast<const Observation>(S_(a))), y = make_tuple(u, static_pointer_cast<const Observation>(S_(b))); bool same = t == u && a == b; ASSERT(equal_to<DNodeIdTuple>()(x, y) == same && equal_to<DNodeIdTuple>()(y, x) == same, "table keys compare equal exactly if timestep or observation differ"); if (same) { ASSERT(hash<DNodeIdTuple>()(x) == hash<DNodeIdTuple>()(y), "equal table keys hash differently"); vs_reach("equal"); } else vs_reach("different");
}
template <class K> static void mapBy(function<shared_ptr<const K>(int)> mk, int n) { // maps find entries by content
    unordered_map<shared_ptr<const K>, int> m; map<int, int> ref; int ops = VS_TIER ? 4 : 3; for (int i = 0; i < ops; i++) { int k = vs_choose("key", n); if (vs_choose("erase", 2)) { m.erase(mk(k)); ref.erase(k); } else { m[mk(k)] = i; ref[k] = i; } } ASSERT(m.size() == ref.size(), "a map has the wrong number of entries"); for (int k = 0; k < n; k++) { auto it = m.find(mk(k)); ASSERT((it != m.end()) == (ref.count(k) > 0), "a map does not find an entry by content"); if (it != m.end()) ASSERT(it->second == ref[k], "a map finds another entry"); } vs_reach("end");
}
ENTRY(h_map_state) { mapBy<State>([](int k) -> St { static const int X[] = {0, -1, 7, 2147483647}; return make_shared<const IntState>(X[k]); }, 4); }
ENTRY(h_map_pair) { mapBy<State>([](int k) -> St { return make_shared<const IntPairState>(k >> 1, k & 1); }, 4); }
ENTRY(h_map_obs) { mapBy<Observation>([](int k) -> Ob { return make_shared<const Int3TupleState>(k & 1, k >> 1, 0); }, 4); }
ENTRY(h_map_act) { mapBy<Action>([](int k) -> Ac { if (k < 2) return make_shared<const IntAction>(k); return make_shared<const StringAction>(k == 2 ? "up" : "down"); }, 4); }
ENTRY(h_print) { // what is printed identifies the object
    static const int X[] = {0, 5, -3, 2147483647}; int a = X[vs_choose("a", 4)], b = X[vs_choose("b", 4)], c = X[vs_choose("c", 4)]; ASSERT(IntState(a).get_pretty_print_string() == "(" + to_string(a) + ")", "a state prints wrongly"); ASSERT(IntPairState(a, b).get_pretty_print_string() == "(" + to_string(a) + "," + to_string(b) + ")", "a pair state prints wrongly"); ASSERT(Int3TupleState(a, b, c).get_pretty_print_string() == "(" + to_string(a) + "," + to_string(b) + "," + to_string(c) + ")", "a triple state prints wrongly"); ASSERT(IntAction(a).get_pretty_print_string() == to_string(a), "an action prints wrongly"); vs_reach("end");
}
