// library features a change to the code may use: each entry must run to its end
#include "prelude.h"
#include <atomic>
#include <shared_mutex>
#include <future>
#include <deque>
#include <list>
#include <queue>
#include <stack>
#include <numeric>
#include <optional>
#include <variant>
#include <any>
#include <string_view>
#include <iomanip>
#include <array>
#include <bitset>
#include <forward_list>
#include <iterator>
#include <random>
#include <fstream>
#include <cstring>
#define OK vs_reach("end")
ENTRY(t_atomic) { atomic<int> a{0}; atomic<bool> b{false}; atomic<double> d{0.0}; atomic<long> l{5}; thread t([&] { a++; a.fetch_add(2); b = true; }); t.join(); double o = d.load(); while (!d.compare_exchange_weak(o, o + 1.5)) {} ASSERT(a == 3 && b && d == 1.5 && l.exchange(7) == 5, "atomic"); atomic_flag f = ATOMIC_FLAG_INIT; ASSERT(!f.test_and_set(), "flag"); int e = 3; ASSERT(a.compare_exchange_strong(e, 9) && a.fetch_sub(1) == 9, "cas"); a |= 1; a &= 3; ASSERT((a ^= 1) >= 0, "x"); OK; }
ENTRY(t_shared_mutex) { shared_mutex m; int x = 0; thread t([&] { unique_lock<shared_mutex> l(m); x = 1; }); { shared_lock<shared_mutex> l(m); (void)x; } t.join(); ASSERT(x == 1, "x"); OK; }
ENTRY(t_recursive) { recursive_mutex m; lock_guard<recursive_mutex> a(m), b(m); timed_mutex tm; tm.lock(); tm.unlock(); OK; }
ENTRY(t_scoped) { mutex a, b; int x = 0; thread t([&] { scoped_lock l(b, a); x++; }); { scoped_lock l(a, b); x++; } t.join(); ASSERT(x == 2, "x"); unique_lock<mutex> u(a, defer_lock); ASSERT(u.try_lock(), "try"); OK; }
ENTRY(t_once) { once_flag f; int n = 0; call_once(f, [&] { n++; }); call_once(f, [&] { n++; }); ASSERT(n == 1, "once"); OK; }
ENTRY(t_cv) { mutex m; condition_variable cv; bool go = false; thread t([&] { lock_guard<mutex> l(m); go = true; cv.notify_one(); }); { unique_lock<mutex> l(m); cv.wait(l, [&] { return go; }); } t.join(); OK; }
ENTRY(t_cvany) { mutex m; condition_variable_any cv; bool go = false; thread t([&] { lock_guard<mutex> l(m); go = true; cv.notify_all(); }); { unique_lock<mutex> l(m); cv.wait(l, [&] { return go; }); } t.join(); OK; }
ENTRY(t_future) { promise<int> p; auto f = p.get_future(); thread t([&] { p.set_value(3); }); ASSERT(f.get() == 3, "f"); t.join(); OK; }
ENTRY(t_async) { auto f = async(launch::async, [] { return 4; }); ASSERT(f.get() == 4, "f"); OK; }
ENTRY(t_jthread) { int x = 0; { thread t([&] { x = 1; }); if (t.joinable()) t.join(); } ASSERT(x == 1, "x"); ASSERT(thread::hardware_concurrency() >= 0, "h"); (void)this_thread::get_id(); OK; }
ENTRY(t_sleep) { this_thread::sleep_for(chrono::milliseconds(1)); this_thread::yield(); OK; }
ENTRY(t_steady) { auto a = chrono::steady_clock::now(); auto b = chrono::steady_clock::now(); ASSERT(b >= a, "clock"); OK; }
ENTRY(t_time) { time_t t = time(nullptr); (void)t; OK; }
ENTRY(t_containers) { deque<int> d; for (int i = 0; i < 200; i++) d.push_back(i); list<int> l(d.begin(), d.end()); l.sort(greater<int>()); priority_queue<double> q; for (int i = 0; i < 9; i++) q.push(i * 7 % 9); stack<int> s; s.push(1); queue<int> qq; qq.push(2); forward_list<int> fl{3, 1, 2}; fl.sort(); ASSERT(q.top() == 8 && l.front() == 199 && fl.front() == 1 && s.top() + qq.front() == 3, "c"); map<int, string> m{{1, "a"}, {2, "b"}}; m.erase(1); multimap<int, int> mm{{1, 2}, {1, 3}}; ASSERT(mm.count(1) == 2, "mm"); set<string> ss{"x", "y"}; ASSERT(ss.count("x"), "s"); multiset<double> ms{1, 1}; ms.erase(ms.find(1)); ASSERT(ms.size() == 1, "ms"); array<int, 3> ar{1, 2, 3}; bitset<70> bs; bs.set(65); ASSERT(bs.count() == 1 && accumulate(ar.begin(), ar.end(), 0) == 6, "ar"); unordered_map<string, int> um; um["a"] = 1; um.reserve(50); um.emplace("b", 2); ASSERT(um.size() == 2, "um"); unordered_multimap<int, int> umm; umm.insert({1, 1}); OK; }
ENTRY(t_algo) { vector<double> v; for (int i = 0; i < 40; i++) v.push_back((i * 17) % 41); sort(v.begin(), v.end()); stable_sort(v.begin(), v.end(), [](double a, double b) { return a > b; }); nth_element(v.begin(), v.begin() + 3, v.end()); partial_sort(v.begin(), v.begin() + 5, v.end()); auto it = max_element(v.begin(), v.end()); reverse(v.begin(), v.end()); rotate(v.begin(), v.begin() + 2, v.end()); vector<double> w(40); partial_sum(v.begin(), v.end(), w.begin()); transform(v.begin(), v.end(), w.begin(), [](double x) { return 2 * x; }); ASSERT(it != v.end() && is_sorted(v.begin(), v.begin()) && inner_product(v.begin(), v.end(), w.begin(), 0.0) > 0, "a"); v.erase(remove_if(v.begin(), v.end(), [](double x) { return x > 5; }), v.end()); ASSERT(any_of(v.begin(), v.end(), [](double x) { return x <= 5; }) && count_if(v.begin(), v.end(), [](double x) { return x < 3; }) >= 0, "b"); iota(w.begin(), w.end(), 0); ASSERT(lower_bound(w.begin(), w.end(), 7.0) - w.begin() == 7, "lb"); make_heap(w.begin(), w.end()); pop_heap(w.begin(), w.end()); OK; }
ENTRY(t_shuffle) { vector<int> v{1, 2, 3, 4}; mt19937 g(5); shuffle(v.begin(), v.end(), g); uniform_int_distribution<int> ui(0, 3); uniform_real_distribution<double> ur(0, 1); bernoulli_distribution bd(0.5); int x = ui(g); double y = ur(g); (void)bd(g); ASSERT(x >= 0 && x <= 3 && y < 1, "r"); discrete_distribution<int> dd({1.0, 2.0}); ASSERT(dd(g) < 2, "dd"); OK; }
ENTRY(t_rand) { srand(3); int r = rand(); ASSERT(r >= 0, "r"); OK; }
ENTRY(t_types) { optional<double> o; ASSERT(!o, "o"); o = 2.0; variant<int, string> v = string("a"); ASSERT(holds_alternative<string>(v) && o.value() == 2, "v"); any a = 3; ASSERT(any_cast<int>(a) == 3, "any"); tuple<int, double> t{1, 2}; auto [p, q] = t; ASSERT(p + q == 3, "t"); string_view sv = "abc"; ASSERT(sv.substr(1) == "bc", "sv"); function<int(int)> f = [](int x) { return x + 1; }; ASSERT(f(1) == 2, "f"); unique_ptr<int> u = make_unique<int>(4); ASSERT(*u == 4, "u"); OK; }
ENTRY(t_string) { string s = "abc"; s += to_string(12); s += to_string(1.5); s.append(3, 'x'); s.insert(0, "q"); s.replace(0, 1, "zz"); s.erase(1, 1); ASSERT(s.find("12") != string::npos && s.substr(0, 2).size() == 2, "s"); ASSERT(stoi("42") == 42 && stod("1.5") == 1.5, "sto"); s.resize(100, 'p'); s.reserve(500); string t = s + "x" + 'c'; ASSERT(t.compare(s) > 0 && t.rfind('c') == t.size() - 1, "t"); ASSERT(strlen("abc") == 3 && strcmp("a", "b") < 0, "cs"); OK; }
ENTRY(t_stream) { stringstream ss; ss << 1 << " " << 2.5 << " " << "x" << 'c' << setw(5) << setprecision(3) << fixed << 3.0 << endl << boolalpha << true << hex << 255u << 5L << 6ul; string s = ss.str(); ASSERT(!s.empty(), "s"); ostringstream os; os << s; cout << "a" << 1 << 2.0 << endl; cerr << "b" << endl; OK; }
ENTRY(t_istream) { istringstream is("1 2.5 abc"); int a; double b; string c; is >> a >> b >> c; ASSERT(a == 1 && b == 2.5 && c == "abc", "is"); getline(is, c); OK; }
ENTRY(t_printf) { char b[50]; snprintf(b, 50, "%d %s %.2f", 3, "x", 1.5); ASSERT(b[0] == '3', "p"); printf("x\n"); fprintf(stderr, "y\n"); OK; }
ENTRY(t_file) { ofstream f("/nonexistent/x"); f << 3; ASSERT(!f.good(), "f"); OK; }
ENTRY(t_exc) { int n = 0; try { throw runtime_error("a"); } catch (const exception& e) { n++; } try { throw invalid_argument("b"); } catch (const logic_error& e) { n++; } try { throw out_of_range(string("c")); } catch (...) { n++; } try { throw 3; } catch (int) { n++; } try { vector<int> v; v.at(3); } catch (const out_of_range&) { n++; } try { try { throw domain_error("x"); } catch (...) { throw; } } catch (const domain_error&) { n++; } auto p = make_exception_ptr(runtime_error("q")); try { rethrow_exception(p); } catch (...) { n++; } try { exception_ptr q; try { throw length_error("l"); } catch (...) { q = current_exception(); } if (q) rethrow_exception(q); } catch (...) { n++; } try { throw bad_alloc(); } catch (const bad_alloc&) { n++; } ASSERT(n == 9, "n"); try { weak_ptr<int> w; shared_ptr<int> s(w); } catch (const bad_weak_ptr&) { n++; } try { function<void()> f; f(); } catch (const bad_function_call&) { n++; } try { optional<int> o; o.value(); } catch (const bad_optional_access&) { n++; } ASSERT(n == 12, "n2"); OK; }
ENTRY(t_math) { double x = vs_real("x", 0.5, 2.0); double a = fabs(x) + floor(1.5) + ceil(1.5) + round(1.5) + trunc(1.5) + fmod(5.0, 3.0) + hypot(3.0, 4.0) + pow(2.0, 3.0) + exp2(2.0) + log2(8.0) + log10(100.0) + log1p(0.5) + expm1(0.5) + cbrt(8.0) + tanh(0.5) + sin(0.5) + cos(0.5) + tan(0.3) + atan(0.2) + atan2(1.0, 2.0) + sinh(0.1) + cosh(0.1) + asin(0.1) + acos(0.1) + erf(0.1) + tgamma(3.0) + lgamma(3.0) + copysign(1.0, -2.0) + nextafter(1.0, 2.0) + fmax(1.0, 2.0) + fmin(1.0, 2.0) + fma(1.0, 2.0, 3.0) + (double)lround(2.5) + (double)llround(2.5) + rint(1.2) + nearbyint(1.2) + (double)abs(-3) + ldexp(1.0, 3) + sqrt(2.0) + (double)ilogb(8.0) + remainder(5.0, 3.0); ASSERT(a > x && isfinite(a) && !isnan(a) && !signbit(a), "m"); int e; double m = frexp(8.0, &e); double ip; double fp = modf(2.5, &ip); ASSERT(m == 0.5 && e == 4 && fp == 0.5 && ip == 2.0, "fr"); OK; }
ENTRY(t_symmath) { double x = vs_real("x", 0.5, 2.0); double y = exp(x) + log(x) + sqrt(x) + pow(x, 2.0) + pow(x, 0.5); ASSERT(y > 0, "pos"); double t = tanh(x), e2 = exp2(x), l2 = log2(x), l10 = log10(x), lp = log1p(x), em = expm1(x); (void)t; (void)e2; (void)l2; (void)l10; (void)lp; (void)em; double r = round(x), tr = trunc(x), fm = fmod(x, 1.0); ASSERT(r >= 0 && tr >= 0 && fm < 1.0, "r"); OK; }
ENTRY(t_lambdas) { static int calls = 0; static vector<int> memo; struct L { int operator()(int n) { calls++; memo.push_back(n); return n; } }; ASSERT(L()(3) == 3, "l"); unordered_set<int> us{1, 2}; us.erase(1); vector<bool> vb(70); vb[3] = true; vb.flip(); ASSERT(!vb[3] && us.size() == 1, "vb"); float f = vs_real("x", 0, 1); f = f * 2.0f; ASSERT(f <= 2.0f, "float"); long double ld = 1.5L; ld *= 2; ASSERT(ld == 3.0L, "ld"); OK; }
ENTRY(t_tls) { static thread_local int n = 0; static thread_local vector<int> v; int seen = -1; n = 5; thread t([&] { n++; v.push_back(1); seen = n; }); t.join(); ASSERT(seen == 1 && n == 5 && v.empty(), "tls"); OK; }
ENTRY(t_hash) { size_t h = hash<string>()("abc") ^ hash<double>()(1.5) ^ hash<void*>()(nullptr) ^ hash<int>()(4); (void)h; ASSERT(hash<string>()("abc") == hash<string>()(string("abc")), "h"); OK; }
ENTRY(t_getenv) { const char* e = getenv("THTS_X"); ASSERT(e == nullptr || e[0], "e"); OK; }
ENTRY(t_rtti) { St s = S_(3); auto p = dynamic_pointer_cast<const IntState>(s); ASSERT(p && p->state == 3, "dc"); ASSERT(typeid(*s) == typeid(IntState), "ti"); auto q = dynamic_pointer_cast<const IntPairState>(s); ASSERT(!q, "dc2"); OK; }
