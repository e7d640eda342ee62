// guest runtime: the parts of libstdc++.so that the code under test calls, as IR
#include <list>
#include <map>
#include <mutex>
#include <new>
#include <random>
#include <stdexcept>
#include <system_error>
#include <thread>
extern "C" void* memchr(const void* p, int c, unsigned long n) noexcept { const unsigned char* q = (const unsigned char*)p; for (unsigned long i = 0; i < n; i++) if (q[i] == (unsigned char)c) return (void*)(q + i); return nullptr; }
extern "C" void __cxa_bad_cast() { throw std::bad_cast(); }
namespace std {
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_alloc(); }
void __throw_bad_function_call() { throw runtime_error("bad_function_call"); }
void __throw_system_error(int) { throw runtime_error("system_error"); }
void __throw_bad_cast() { throw bad_cast(); }

_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
    _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y; return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
    _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
static void rotl(_Rb_tree_node_base* x, _Rb_tree_node_base*& root) {
    _Rb_tree_node_base* y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent;
    if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y; y->_M_left = x; x->_M_parent = y;
}
static void rotr(_Rb_tree_node_base* x, _Rb_tree_node_base*& root) {
    _Rb_tree_node_base* y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent;
    if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y; y->_M_right = x; x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
    _Rb_tree_node_base*& root = h._M_parent; x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
    else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
    while (x != root && x->_M_parent->_M_color == _S_red) {
        _Rb_tree_node_base* const xpp = x->_M_parent->_M_parent;
        if (x->_M_parent == xpp->_M_left) {
            _Rb_tree_node_base* const y = xpp->_M_right;
            if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
            else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotl(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotr(xpp, root); }
        } else {
            _Rb_tree_node_base* const y = xpp->_M_left;
            if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
            else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotr(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotl(xpp, root); }
        }
    }
    root->_M_color = _S_black;
}
// unbalanced erase is enough: the tree stays a search tree (colours only bound the height)
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
    _Rb_tree_node_base*& root = h._M_parent; _Rb_tree_node_base*& lm = h._M_left; _Rb_tree_node_base*& rm = h._M_right;
    _Rb_tree_node_base *y = z, *x = 0, *xp = 0;
    if (!y->_M_left) x = y->_M_right; else if (!y->_M_right) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
    if (y != z) {
        z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
        if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } else xp = y;
        if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
        y->_M_parent = z->_M_parent; y->_M_color = z->_M_color; y = z;
    } else {
        xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent;
        if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
        if (lm == z) { if (!z->_M_right) lm = z->_M_parent; else { _Rb_tree_node_base* m = x; while (m->_M_left) m = m->_M_left; lm = m; } }
        if (rm == z) { if (!z->_M_left) rm = z->_M_parent; else { _Rb_tree_node_base* m = x; while (m->_M_right) m = m->_M_right; rm = m; } }
    }
    return y;
}
thread::_State::~_State() = default;
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base *n = _M_next, *p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f; _List_node_base* t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { _List_node_base* n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this); }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
    if (x._M_next != &x) { if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; } else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } }
    else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; } }
}
__thread void* __once_callable; __thread void (*__once_call)();
extern "C" void __once_proxy() { __once_call(); }
}
struct VsState { virtual ~VsState() = default; virtual void _M_run() = 0; }; // same vtable layout as the private std::thread::_State
// readers-writer locks and once flags in terms of a mutex and a condition variable at the same address (native.cpp does the same)
struct VsRw { int mutex[2], cond[2], kind[2], readers, writer; };
extern "C" {
int pthread_rwlock_rdlock(pthread_rwlock_t* l) noexcept { VsRw* r = (VsRw*)l; pthread_mutex_lock((pthread_mutex_t*)r); while (r->writer) pthread_cond_wait((pthread_cond_t*)r->cond, (pthread_mutex_t*)r); r->readers++; pthread_mutex_unlock((pthread_mutex_t*)r); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) noexcept { VsRw* r = (VsRw*)l; pthread_mutex_lock((pthread_mutex_t*)r); while (r->writer || r->readers) pthread_cond_wait((pthread_cond_t*)r->cond, (pthread_mutex_t*)r); r->writer = 1; pthread_mutex_unlock((pthread_mutex_t*)r); return 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) noexcept { VsRw* r = (VsRw*)l; pthread_mutex_lock((pthread_mutex_t*)r); int e = r->writer ? 16 : 0; if (!e) r->readers++; pthread_mutex_unlock((pthread_mutex_t*)r); return e; }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) noexcept { VsRw* r = (VsRw*)l; pthread_mutex_lock((pthread_mutex_t*)r); int e = r->writer || r->readers ? 16 : 0; if (!e) r->writer = 1; pthread_mutex_unlock((pthread_mutex_t*)r); return e; }
int pthread_rwlock_unlock(pthread_rwlock_t* l) noexcept { VsRw* r = (VsRw*)l; pthread_mutex_lock((pthread_mutex_t*)r); if (r->writer) r->writer = 0; else r->readers--; pthread_cond_broadcast((pthread_cond_t*)r->cond); pthread_mutex_unlock((pthread_mutex_t*)r); return 0; }
int pthread_once(pthread_once_t* o, void (*f)()) { pthread_mutex_lock((pthread_mutex_t*)o); if (!*o) { f(); *o = 2; } pthread_mutex_unlock((pthread_mutex_t*)o); return 0; }
}
// destructors of thread local variables run when their thread ends (the first thread's are not run, like those of other globals)
struct VsDtor { void (*f)(void*); void* o; int tid; VsDtor* next; }; static VsDtor* vsDtors;
extern "C" int vs_tid(); extern "C" void vs_race_off(); extern "C" void vs_race_on();
extern "C" int __cxa_thread_atexit(void (*f)(void*), void* o, void*) { vs_race_off(); vsDtors = new VsDtor{f, o, vs_tid(), vsDtors}; vs_race_on(); return 0; }
extern "C" void vs_thread_entry(VsState* s) {
    s->_M_run(); delete s;
    for (int me = vs_tid();;) { vs_race_off(); VsDtor** p = &vsDtors; while (*p && (*p)->tid != me) p = &(*p)->next; VsDtor* d = *p; if (d) *p = d->next; vs_race_on(); if (!d) break; d->f(d->o); delete d; }
}
