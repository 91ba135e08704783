// Bitcode runtime: the parts of libstdc++ / libc that live in shared objects and are reached
// from the code under test. Only linked for symbolic execution.
#include "symx.h"
#include <cstdarg>
#include <cstring>
#include <string>
#include <stdexcept>
#include <new>
#include <typeinfo>
#include <functional>
#include <optional>
#include <variant>
#include <thread>
#include <system_error>
#include <map>
#include <unordered_map>
#include <any>
#include <memory>
#include <future>
#include <mutex>

// ---- libc
extern "C" {
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) { a++; b++; } return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { for (size_t i = 0; i < n; i++) { if (a[i] != b[i]) return (unsigned char)a[i] - (unsigned char)b[i]; if (!a[i]) break; } return 0; }
void* rt_memchr(const void* p, int c, size_t n) noexcept asm("memchr");
void* rt_memchr(const void* p, int c, size_t n) noexcept { const unsigned char* q = (const unsigned char*)p; for (size_t i = 0; i < n; i++) if (q[i] == (unsigned char)c) return (void*)(q + i); return nullptr; }
char* rt_strchr(const char* s, int c) noexcept asm("strchr");
char* rt_strchr(const char* s, int c) noexcept { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
}
// ---- exceptions
namespace std {
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "bad_cast"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
// the message is not modelled
__cow_string::__cow_string() { _M_p = "msg"; }
__cow_string::__cow_string(const std::string&) { _M_p = "msg"; }
__cow_string::__cow_string(const char*, size_t) { _M_p = "msg"; }
__cow_string::__cow_string(const __cow_string&) noexcept { _M_p = "msg"; }
__cow_string& __cow_string::operator=(const __cow_string&) noexcept { return *this; }
__cow_string::~__cow_string() {}
__cow_string::__cow_string(__cow_string&&) noexcept { _M_p = "msg"; }
__cow_string& __cow_string::operator=(__cow_string&&) noexcept { return *this; }
logic_error::logic_error(const string&) : _M_msg() {}
logic_error::logic_error(const char*) : _M_msg() {}
logic_error::logic_error(logic_error&&) noexcept = default;
logic_error& logic_error::operator=(logic_error&&) noexcept = default;
logic_error::logic_error(const logic_error&) noexcept = default;
logic_error& logic_error::operator=(const logic_error&) noexcept = default;
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return "logic_error"; }
runtime_error::runtime_error(const string&) : _M_msg() {}
runtime_error::runtime_error(const char*) : _M_msg() {}
runtime_error::runtime_error(runtime_error&&) noexcept = default;
runtime_error& runtime_error::operator=(runtime_error&&) noexcept = default;
runtime_error::runtime_error(const runtime_error&) noexcept = default;
runtime_error& runtime_error::operator=(const runtime_error&) noexcept = default;
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return "runtime_error"; }
#define LE(T, B) T::T(const string& s) : B(s) {} T::T(const char* s) : B(s) {} T::~T() noexcept {}
LE(domain_error, logic_error)
LE(invalid_argument, logic_error)
LE(length_error, logic_error)
LE(out_of_range, logic_error)
LE(range_error, runtime_error)
LE(overflow_error, runtime_error)
LE(underflow_error, runtime_error)
void __throw_bad_exception() { __builtin_trap(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_system_error(int) { throw runtime_error("system_error"); }
bool type_info::__do_catch(const type_info*, void**, unsigned) const { return false; }
bool type_info::__do_upcast(const __cxxabiv1::__class_type_info*, void**) const { return false; }
bool type_info::__is_pointer_p() const { return false; }
bool type_info::__is_function_p() const { return false; }
type_info::~type_info() {}

// ---- hashing
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { const unsigned char* q = (const unsigned char*)p; size_t h = seed ^ 1469598103934665603ull; for (size_t i = 0; i < n; i++) { h ^= q[i]; h *= 1099511628211ull; } return h; }
namespace __detail {
static const size_t primes[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 37, 53, 97, 193, 389, 769, 1543, 3079, 6151, 12289, 24593, 49157, 98317, 196613, 393241, 786433, 1572869};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
    size_t r = primes[0]; for (size_t i = 0; i < sizeof(primes) / sizeof(primes[0]); i++) { r = primes[i]; if (r >= n) break; }
    if (n < 14) { static const unsigned char fast[] = {2, 2, 2, 3, 5, 5, 7, 7, 11, 11, 11, 11, 13, 13}; r = fast[n]; if (n == 0) return 1; }
    _M_next_resize = (size_t)(r * (double)_M_max_load_factor); return r; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const {
    if (elt + ins > _M_next_resize) {
        size_t min = std::max<size_t>(elt + ins, _M_next_resize ? 0 : 11);
        if (min >= bkt) return {true, _M_next_bkt(std::max<size_t>(min + 1, bkt * 2))};
        _M_next_resize = bkt; return {false, 0}; }
    return {false, 0}; }
}
// ---- red-black tree (kept unbalanced: only the ordering contract matters)
static _Rb_tree_node_base* rbMin(_Rb_tree_node_base* x) { while (x->_M_left) x = x->_M_left; return x; }
static _Rb_tree_node_base* rbMax(_Rb_tree_node_base* x) { while (x->_M_right) x = x->_M_right; return x; }
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
    if (x->_M_right) return rbMin(x->_M_right);
    _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; return x; }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
    if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) return rbMax(x->_M_left);
    _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y; }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
    x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
    else { p->_M_right = x; if (p == h._M_right) h._M_right = x; } }
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
    _Rb_tree_node_base* nxt = nullptr; (void)nxt;
    _Rb_tree_node_base *l = z->_M_left, *r = z->_M_right, *p = z->_M_parent, *rep;
    if (h._M_left == z) h._M_left = r ? rbMin(r) : p;
    if (h._M_right == z) h._M_right = l ? rbMax(l) : p;
    if (!l) rep = r; else if (!r) rep = l;
    else { // hang the left subtree under the minimum of the right one
        rep = r; _Rb_tree_node_base* m = rbMin(r); m->_M_left = l; l->_M_parent = m; }
    if (rep) rep->_M_parent = p;
    if (h._M_parent == z) h._M_parent = rep; else if (p->_M_left == z) p->_M_left = rep; else p->_M_right = rep;
    if (!h._M_parent) { h._M_left = &h; h._M_right = &h; }
    return z; }
// ---- once, futures
error_category::~error_category() noexcept {}
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
bool error_category::equivalent(int i, const error_condition& c) const noexcept { return default_error_condition(i) == c; }
bool error_category::equivalent(const error_code& c, int i) const noexcept { return *this == c.category() && c.value() == i; }
__cow_string error_category::_M_message(int) const { return __cow_string("msg", 3); }
struct rt_category : error_category { const char* name() const noexcept override { return "future"; } string message(int) const override { return "msg"; } };
static rt_category rt_future_category;
const error_category& future_category() noexcept { return rt_future_category; }
future_error::~future_error() noexcept {}
const char* future_error::what() const noexcept { return "future_error"; }
void __throw_future_error(int i) { throw future_error(make_error_code(future_errc(i))); }
__future_base::_Result_base::_Result_base() {}
__future_base::_Result_base::~_Result_base() {}
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned*, unsigned, bool, chrono::seconds, chrono::nanoseconds) { symx_yield(); return true; }
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned*) {}
__thread void* __once_callable;
__thread void (*__once_call)();
extern "C" void __once_proxy() { __once_call(); }
static __thread __future_base::_State_baseV2::_Make_ready* rt_at_exit;
void __future_base::_State_baseV2::_Make_ready::_M_set() { _M_cb = nullptr; _M_next = rt_at_exit; rt_at_exit = this; }
static void rtThreadExit() {
    while (rt_at_exit) {
        auto* m = rt_at_exit;
        rt_at_exit = static_cast<__future_base::_State_baseV2::_Make_ready*>(m->_M_next);
        if (auto st = m->_M_shared_state.lock()) st->_M_status._M_store_notify_all(__future_base::_State_baseV2::_Status::__ready, memory_order_release);
        delete m;
    }
}
// ---- threads
static void rtThreadMain(void* p) { auto* s = static_cast<std::thread::_State*>(p); s->_M_run(); delete s; rtThreadExit(); }
thread::_State::~_State() {}
void thread::_M_start_thread(_State_ptr s, void (*)()) { _State* p = s.release(); _M_id = id((pthread_t)(symx_thread_spawn(&rtThreadMain, p) + 1)); }
void thread::join() { if (_M_id == id()) throw runtime_error("join"); symx_thread_join((uint64_t)_M_id._M_thread - 1); _M_id = id(); }
void thread::detach() { _M_id = id(); }
}
extern "C" int pthread_once(int* c, void (*f)()) noexcept(false) {
    for (;;) {
        int v = 0;
        if (__atomic_compare_exchange_n(c, &v, 1, false, __ATOMIC_ACQUIRE, __ATOMIC_ACQUIRE)) { f(); __atomic_store_n(c, 2, __ATOMIC_RELEASE); return 0; }
        if (v == 2) return 0;
        symx_yield();
    }
}
