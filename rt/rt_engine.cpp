// Engine-only replacements of the parts of libc / libstdc++ / the C++ ABI that exist only as machine code.
// The native replay uses the real ones.
#include "sym.hpp"
#include <cstdlib>
#include <cstdio>
#include <exception>
#include <new>
#include <stdexcept>
#include <string>
#include <system_error>
#include <variant>
#include <functional>
#include <future>
#include <typeinfo>
#include <cstring>
extern "C" {
void sym_unwind(void* e);
int  sym_type_match(void* want, void* have);
struct Hdr { void* ti; void (*dtor)(void*); long ref; long pad; };
static Hdr* hdr(void* o) { return reinterpret_cast<Hdr*>(static_cast<char*>(o) - sizeof(Hdr)); }
struct Caught { void* o[16]; int n; int uncaught; };
static thread_local Caught caught;

void* __cxa_allocate_exception(size_t n) { char* p = (char*)malloc(n + sizeof(Hdr)); Hdr* h = (Hdr*)p; h->ti = nullptr; h->dtor = nullptr; h->ref = 0; h->pad = 0; return p + sizeof(Hdr); }
void  __cxa_free_exception(void* o) { free(hdr(o)); }
static void release(void* o)
{
    Hdr* h = hdr(o);
    if (--h->ref == 0) { if (h->dtor) h->dtor(o); free(h); }
}
void __cxa_throw(void* o, void* ti, void (*d)(void*)) { Hdr* h = hdr(o); h->ti = ti; h->dtor = d; h->ref = 1; caught.uncaught++; sym_unwind(o); }
void* __cxa_begin_catch(void* o) { caught.uncaught--; caught.o[caught.n++] = o; return o; }
void* __cxa_get_exception_ptr(void* o) { return o; }
void __cxa_end_catch() { release(caught.o[--caught.n]); }
void __cxa_rethrow() { if (!caught.n) sym_fail_msg("rethrow without an exception"); void* o = caught.o[caught.n - 1]; hdr(o)->ref++; caught.uncaught++; sym_unwind(o); }
void _Unwind_Resume(void* o) { sym_unwind(o); }
int __gxx_personality_v0() { return 0; }
void _ZSt9terminatev() { sym_fail_msg("std::terminate called"); }
void __clang_call_terminate_model() { }
void abort() { sym_fail_msg("abort called"); __builtin_unreachable(); }
void __cxa_pure_virtual() { sym_fail_msg("pure virtual call"); }
int  __cxa_atexit(void (*)(void*), void*, void*) { return 0; }
int  __cxa_thread_atexit(void (*)(void*), void*, void*) { return 0; }
int  __cxa_guard_acquire(char* g) { if (*g) return 0; return 1; }
void __cxa_guard_release(char* g) { *g = 1; }
void __cxa_guard_abort(char*) {}
int  _ZSt19uncaught_exceptionsv() { return caught.uncaught; }
bool _ZSt18uncaught_exceptionv() { return caught.uncaught > 0; }
void _ZNSt6thread6_StateD2Ev(void*) {}
void _ZNSt6thread6_StateD1Ev(void*) {}
// std::exception_ptr
void _ZNSt15__exception_ptr13exception_ptr9_M_addrefEv(void** p) { if (*p) hdr(*p)->ref++; }
void _ZNSt15__exception_ptr13exception_ptr10_M_releaseEv(void** p) { if (*p) { release(*p); *p = nullptr; } }
void _ZNSt15__exception_ptr13exception_ptrC1ERKS0_(void** p, void** q) { *p = *q; if (*p) hdr(*p)->ref++; }
void _ZNSt15__exception_ptr13exception_ptrC2ERKS0_(void** p, void** q) { *p = *q; if (*p) hdr(*p)->ref++; }
void _ZNSt15__exception_ptr13exception_ptrC1EPv(void** p, void* o) { *p = o; if (o) hdr(o)->ref++; }
void _ZNSt15__exception_ptr13exception_ptrC2EPv(void** p, void* o) { *p = o; if (o) hdr(o)->ref++; }
void _ZNSt15__exception_ptr13exception_ptrD1Ev(void** p) { if (*p) { release(*p); *p = nullptr; } }
void _ZNSt15__exception_ptr13exception_ptrD2Ev(void** p) { if (*p) { release(*p); *p = nullptr; } }
void _ZNSt15__exception_ptr13exception_ptr4swapERS0_(void** p, void** q) { void* t = *p; *p = *q; *q = t; }
void _ZSt17current_exceptionv(void** ret) { *ret = caught.n ? caught.o[caught.n - 1] : nullptr; if (*ret) hdr(*ret)->ref++; }
void _ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE(void** p) { void* o = *p; hdr(o)->ref++; caught.uncaught++; sym_unwind(o); }
void* symrt___cxa_init_primary_exception(void* o, void* ti, void (*d)(void*)) { Hdr* h = hdr(o); h->ti = ti; h->dtor = d; h->ref = 0; return o; }
// libc
int memcmp(const void* a, const void* b, size_t n)
{
    auto* x = (const unsigned char*)a; auto* y = (const unsigned char*)b;
    for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
    return 0;
}
int bcmp(const void* a, const void* b, size_t n) { return memcmp(a, b, n); }
size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
char* symrt_strerror(int) { static char m[] = "error"; return m; }
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
void* symrt_memchr(const void* s, int c, size_t n) { auto* p = (const unsigned char*)s; for (size_t i = 0; i < n; i++) if (p[i] == (unsigned char)c) return (void*)(p + i); return nullptr; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) { a++; b++; } return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (unsigned char)*a - (unsigned char)*b; if (!*a) break; } return 0; }
static thread_local int errno_tls;
int* __errno_location() { return &errno_tls; }
}
// red-black tree helpers of libstdc++ (ordering is kept; balancing is not observable)
namespace
{
struct NB { int color; NB* parent; NB* left; NB* right; };
NB* inc(NB* x)
{
    if (x->right) { x = x->right; while (x->left) x = x->left; return x; }
    NB* y = x->parent;
    while (x == y->right) { x = y; y = y->parent; }
    if (x->right != y) x = y;
    return x;
}
NB* dec(NB* x)
{
    if (x->color == 0 && x->parent && x->parent->parent == x) return x->right; // header
    if (x->left) { NB* y = x->left; while (y->right) y = y->right; return y; }
    NB* y = x->parent;
    while (x == y->left) { x = y; y = y->parent; }
    return y;
}
}
extern "C" {
NB* _ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(NB* x) { return inc(x); }
NB* _ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base(NB* x) { return inc(x); }
NB* _ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base(NB* x) { return dec(x); }
NB* _ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base(NB* x) { return dec(x); }
void _ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool left, NB* x, NB* p, NB& h)
{
    x->parent = p; x->left = nullptr; x->right = nullptr; x->color = 1; // black (the header is red)
    if (left) {
        p->left = x;
        if (p == &h) { h.parent = x; h.right = x; }
        else if (p == h.left) h.left = x;
    } else {
        p->right = x;
        if (p == h.right) h.right = x;
    }
}
NB* _ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(NB* z, NB& h)
{
    auto replace = [&](NB* a, NB* b) {
        if (h.parent == a) h.parent = b;
        else if (a->parent->left == a) a->parent->left = b;
        else a->parent->right = b;
        if (b) b->parent = a->parent;
    };
    if (h.left == z) { NB* n = inc(z); h.left = n; }
    if (h.right == z) {
        if (z->left) { NB* m = z->left; while (m->right) m = m->right; h.right = m; }
        else h.right = z->parent;
    }
    if (!z->left) replace(z, z->right);
    else if (!z->right) replace(z, z->left);
    else {
        NB* y = z->right;
        while (y->left) y = y->left;
        if (y->parent != z) { replace(y, y->right); y->right = z->right; y->right->parent = y; }
        replace(z, y);
        y->left = z->left; y->left->parent = y;
    }
    return z;
}
// std::list hooks
struct LN { LN* next; LN* prev; };
void _ZNSt8__detail15_List_node_base7_M_hookEPS0_(LN* self, LN* pos) { self->next = pos; self->prev = pos->prev; pos->prev->next = self; pos->prev = self; }
void _ZNSt8__detail15_List_node_base9_M_unhookEv(LN* self) { LN* n = self->next; LN* p = self->prev; p->next = n; n->prev = p; }
void _ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_(LN* self, LN* first, LN* last)
{
    if (self != last) {
        last->prev->next = self; first->prev->next = last; self->prev->next = first;
        LN* t = self->prev; self->prev = last->prev; last->prev = first->prev; first->prev = t;
    }
}
}
// standard exception classes: key functions, so the compiler emits their vtables and type_info here
namespace std
{
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "bad_cast"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
__cow_string::__cow_string() { _M_p = nullptr; }
__cow_string::__cow_string(const std::string& s) { (void)s; _M_p = "message"; }
__cow_string::__cow_string(const char* s, size_t) { _M_p = s; }
__cow_string::__cow_string(const __cow_string& o) noexcept { _M_p = o._M_p; }
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { _M_p = o._M_p; return *this; }
__cow_string::~__cow_string() {}
__cow_string::__cow_string(__cow_string&& o) noexcept { _M_p = o._M_p; }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { _M_p = o._M_p; return *this; }
#define SYM_EXC(C, B) C::C(const char* s) : B(s) {} C::C(const std::string& s) : B(s) {} C::~C() noexcept {}
logic_error::logic_error(const char* s) : _M_msg(s, 0) {}
logic_error::logic_error(const std::string& s) : _M_msg(s) {}
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return "logic_error"; }
logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error::logic_error(logic_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error::runtime_error(const char* s) : _M_msg(s, 0) {}
runtime_error::runtime_error(const std::string& s) : _M_msg(s) {}
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error::runtime_error(runtime_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return "runtime_error"; }
SYM_EXC(length_error, logic_error)
SYM_EXC(out_of_range, logic_error)
SYM_EXC(invalid_argument, logic_error)
SYM_EXC(domain_error, logic_error)
SYM_EXC(overflow_error, runtime_error)
SYM_EXC(range_error, runtime_error)
error_category::~error_category() {}
system_error::~system_error() noexcept {}
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_system_error(int) { throw runtime_error("system_error"); }
void __throw_bad_exception() { throw bad_exception(); }
void __glibcxx_assert_fail(const char*, int, const char*, const char*) noexcept { sym_fail_msg("libstdc++ assertion"); __builtin_unreachable(); }
} // namespace std
extern "C" void sym_cxx_dummy() {}
// Diagnostics (std::cerr / std::cout): the text is read and dropped.
extern "C" {
static long ostream_vt[8] = {8, 0, 0, 0}; // the virtual base (std::ios) lies 8 bytes in; its width is 0
struct fake_ctype { char pad[56]; char ok = 1; char widen[256] = {}; constexpr fake_ctype() : pad{} { for (int i = 0; i < 256; i++) widen[i] = (char)i; } };
static constinit fake_ctype the_ctype{};
struct fake_ostream { void* vptr; char ios[240]; void* ctype; char rest[256]; };
constinit fake_ostream _ZSt4cerr = {&ostream_vt[3], {}, &the_ctype, {}}, _ZSt4cout = {&ostream_vt[3], {}, &the_ctype, {}}, _ZSt4clog = {&ostream_vt[3], {}, &the_ctype, {}};
void* _ZNSolsEPKv(void* o, const void*) { return o; }
void* _ZNSo9_M_insertIPKvEERSoT_(void* o, const void*) { return o; }
void* _ZNSo9_M_insertIbEERSoT_(void* o, bool) { return o; }
void* _ZNSo9_M_insertIdEERSoT_(void* o, double) { return o; }
void* _ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c(void* o, char) { return o; }
static void rd(const char* s, long n) { for (long i = 0; i < n; i++) (void)((const volatile char*)s)[i]; }
void* _ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l(void* o, const char* s, long n) { rd(s, n); return o; }
void* _ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc(void* o, const char* s) { rd(s, (long)strlen(s)); return o; }
void* _ZNSolsEi(void* o, int) { return o; }
void* _ZNSolsEj(void* o, unsigned) { return o; }
void* _ZNSolsEl(void* o, long) { return o; }
void* _ZNSolsEm(void* o, unsigned long) { return o; }
void* _ZNSolsEb(void* o, bool) { return o; }
void* _ZNSo9_M_insertIlEERSoT_(void* o, long) { return o; }
void* _ZNSo9_M_insertImEERSoT_(void* o, unsigned long) { return o; }
void* _ZNSolsEPFRSoS_E(void* o, void*) { return o; }
void* _ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_(void* o) { return o; }
void* _ZNSo3putEc(void* o, char) { return o; }
void* _ZNSo5flushEv(void* o) { return o; }
}
// hash tables: the growth policy of libstdc++ (the values follow its algorithm; any growth policy is correct for a client)
#include <bits/hashtable_policy.h>
namespace std::__detail
{
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const
{
    static constexpr size_t primes[] = {2, 3, 5, 7, 11, 13, 17, 23, 29, 37, 47, 59, 73, 97, 127, 151, 197, 251, 331, 431, 557, 719, 941, 1223};
    for (auto p : primes)
        if (p >= n)
        {
            _M_next_resize = (size_t)((double)p * (double)_M_max_load_factor);
            return p;
        }
    return n | 1;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const
{
    if (elt + ins > _M_next_resize)
    {
        size_t min = elt + ins > (_M_next_resize ? 0u : 11u) ? elt + ins : 11;
        if (min >= bkt) return {true, _M_next_bkt(min + 1 > bkt * 2 ? min + 1 : bkt * 2)};
        _M_next_resize = bkt;
    }
    return {false, 0};
}
} // namespace std::__detail
// more of libc and libstdc++
namespace std { size_t _Hash_bytes(const void* p, size_t len, size_t seed) // MurmurHash2 64, as in libstdc++
{
    const uint64_t m = ((uint64_t)0xc6a4a793UL << 32) + 0x5bd1e995UL;
    auto* b = (const unsigned char*)p;
    auto  mix = [](uint64_t v) { return v ^ (v >> 47); };
    size_t al = len & ~(size_t)7;
    uint64_t h = seed ^ (len * m);
    for (size_t i = 0; i < al; i += 8)
    {
        uint64_t k = 0;
        for (int j = 7; j >= 0; j--) k = (k << 8) + b[i + j];
        h ^= mix(k * m) * m;
        h *= m;
    }
    if (len & 7)
    {
        uint64_t k = 0;
        for (int j = (int)(len & 7) - 1; j >= 0; j--) k = (k << 8) + b[al + j];
        h ^= k;
        h *= m;
    }
    h = mix(h) * m;
    return mix(h);
} }
#include <future>
namespace std
{
nested_exception::~nested_exception() noexcept {}
__future_base::_Result_base::_Result_base() = default;
__future_base::_Result_base::~_Result_base() = default;
void __throw_future_error(int) { throw logic_error("future_error"); }
void __throw_bad_cast() { throw bad_cast(); }
error_condition error_category::default_error_condition(int v) const noexcept { return error_condition(v, *this); }
bool error_category::equivalent(int v, const error_condition& c) const noexcept { return default_error_condition(v) == c; }
bool error_category::equivalent(const error_code& c, int v) const noexcept { return *this == c.category() && c.value() == v; }
__cow_string error_category::_M_message(int) const { return __cow_string("message", 7); }
error_condition error_code::default_error_condition() const noexcept { return category().default_error_condition(value()); }
namespace { struct ecat : error_category { const char* name() const noexcept override { return "category"; } string message(int) const override { return "message"; } };
alignas(16) char ecats[2][sizeof(ecat)]; bool ecats_made[2];
const error_category& cat(int i) { if (!ecats_made[i]) { new (ecats[i]) ecat; ecats_made[i] = true; } return *(ecat*)ecats[i]; } }
inline namespace _V2 { const error_category& generic_category() noexcept { return cat(0); } const error_category& system_category() noexcept { return cat(1); } }
}
extern "C" {
void _ZNSt8__detail15_List_node_base10_M_reverseEv(LN* self)
{
    LN* t = self;
    do { LN* n = t->next; t->next = t->prev; t->prev = n; t = t->prev; } while (t != self);
}
void _ZNSt8__detail15_List_node_base4swapERS0_S1_(LN& x, LN& y)
{
    if (x.next != &x)
    {
        if (y.next != &y)
        {
            LN t = x; x = y; y = t;
            x.next->prev = x.prev->next = &x;
            y.next->prev = y.prev->next = &y;
        }
        else
        {
            y.next = x.next; y.prev = x.prev;
            y.next->prev = y.prev->next = &y;
            x.next = x.prev = &x;
        }
    }
    else if (y.next != &y)
    {
        x.next = y.next; x.prev = y.prev;
        x.next->prev = x.prev->next = &x;
        y.next = y.prev = &y;
    }
}
char* symrt_strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
char* symrt_strrchr(const char* s, int c) { char* r = nullptr; for (;; s++) { if (*s == (char)c) r = (char*)s; if (!*s) return r; } }
char* symrt_strstr(const char* h, const char* n)
{
    for (;; h++)
    {
        size_t i = 0;
        while (n[i] && h[i] == n[i]) i++;
        if (!n[i]) return (char*)h;
        if (!*h) return nullptr;
    }
}
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) {} return r; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strdup(const char* s) { char* r = (char*)malloc(strlen(s) + 1); return strcpy(r, s); }
void  bzero(void* p, size_t n) { memset(p, 0, n); }
void  explicit_bzero(void* p, size_t n) { memset(p, 0, n); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static unsigned long strtou(const char* s, char** e, int base, bool& neg, bool& any)
{
    const char* s0 = s;
    while (isspace(*s)) s++;
    neg = *s == '-';
    if (*s == '-' || *s == '+') s++;
    if ((base == 0 || base == 16) && s[0] == '0' && (s[1] == 'x' || s[1] == 'X')) { s += 2; base = 16; }
    if (base == 0) base = s[0] == '0' ? 8 : 10;
    unsigned long v = 0;
    any = false;
    for (;; s++)
    {
        int d = isdigit(*s) ? *s - '0' : (*s >= 'a' && *s <= 'z') ? *s - 'a' + 10 : (*s >= 'A' && *s <= 'Z') ? *s - 'A' + 10 : 99;
        if (d >= base) break;
        v = v * (unsigned long)base + (unsigned long)d;
        any = true;
    }
    if (e) *e = (char*)(any ? s : s0);
    return v;
}
long __isoc23_strtol(const char* s, char** e, int b) { bool n, a; unsigned long v = strtou(s, e, b, n, a); return n ? -(long)v : (long)v; }
unsigned long __isoc23_strtoul(const char* s, char** e, int b) { bool n, a; unsigned long v = strtou(s, e, b, n, a); return n ? -v : v; }
long __isoc23_strtoll(const char* s, char** e, int b) { return __isoc23_strtol(s, e, b); }
unsigned long __isoc23_strtoull(const char* s, char** e, int b) { return __isoc23_strtoul(s, e, b); }

void* aligned_alloc(size_t, size_t n) { return malloc(n); }
int posix_memalign(void** p, size_t, size_t n) { *p = malloc(n); return 0; }
int printf(const char*, ...) { return 0; }
int fprintf(FILE*, const char*, ...) { return 0; }
int puts(const char* s) { (void)strlen(s); return 0; }
int fputs(const char* s, FILE*) { (void)strlen(s); return 0; }
int putc(int c, FILE*) { return c; }
int fputc(int c, FILE*) { return c; }
int fflush(FILE*) { return 0; }
void perror(const char*) {}
size_t fwrite(const void* p, size_t a, size_t b, FILE*) { rd((const char*)p, (long)(a * b)); return b; }
FILE *stdout, *stderr;
thread_local void* _ZSt15__once_callable;
thread_local void (*_ZSt11__once_call)();
void __once_proxy() { _ZSt11__once_call(); }
// dynamic_cast along single, non-virtual inheritance (the whole object starts where the base does)
void* __dynamic_cast(const void* p, const void*, const void* want, ptrdiff_t)
{
    void** vt = *(void***)p;
    char*  whole = (char*)p + ((ptrdiff_t*)vt)[-2];
    if (whole != p) sym_fail_msg("model limit: dynamic_cast with several bases");
    return sym_type_match((void*)want, vt[-1]) ? whole : nullptr;
}
void __cxa_bad_cast() { throw std::bad_cast(); }
}
