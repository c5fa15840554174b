// Environment: the pieces of the C and C++ runtime that live in shared libraries.
#include <string>
#include <chrono>
#include <stdexcept>
#include <unordered_map>
#include <iostream>
#include <sstream>
#include <cstdarg>
#include <cstdint>
#include <new>
#include <map>
#include <list>
#include <functional>
#include <system_error>
extern "C" { int vs_weak_hash = 0; int64_t vs_steady_ns = 1000000000000ll, vs_system_ns = 1600000000000000000ll; int64_t vs_range(const char*, int64_t, int64_t); int vsnprintf(char*, size_t, const char*, va_list) noexcept; }
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(vs_steady_ns)); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration(vs_system_ns)); }
} } }
#define EXT(ret, nm, args, sym) extern "C" ret nm args asm(sym); ret nm args
// hashing: any deterministic function of the bytes is allowed
EXT(size_t, vsx_hash_bytes, (const void* p, size_t n, size_t seed), "_ZSt11_Hash_bytesPKvmm") { if (vs_weak_hash) return seed * 31 + n; const unsigned char* c = (const unsigned char*)p; size_t h = 1469598103934665603ull ^ seed ^ n; for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 1099511628211ull; return h ^ (h >> 29); }
EXT(size_t, vsx_hash_ld, (const void*, long double v), "_ZNKSt4hashIeEclEe") { if (vs_weak_hash || v == 0) return 0; struct { uint64_t a; uint16_t b; } x = {0, 0}; __builtin_memcpy(&x, &v, 10); return x.a ^ ((uint64_t)x.b << 48); }
EXT(size_t, vsx_fnv, (const void* p, size_t n, size_t seed), "_ZSt15_Fnv_hash_bytesPKvmm") { return vsx_hash_bytes(p, n, seed); }
struct VsxPairTag; typedef std::pair<bool, size_t> VsxPair;
static const size_t vs_primes[] = {1, 2, 3, 5, 7, 11, 13, 29, 59, 127, 257, 541, 1109, 2357, 5087, 10273, 20753, 42043};
EXT(size_t, vsx_next_bkt, (std::__detail::_Prime_rehash_policy* self, size_t n), "_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm") { size_t r = 42043; for (size_t p : vs_primes) if (p >= n) { r = p; break; } self->_M_next_resize = r; return r; }
EXT(VsxPair, vsx_need_rehash, (std::__detail::_Prime_rehash_policy* self, size_t nb, size_t ne, size_t ni), "_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm") {
  if (vs_weak_hash) return {false, 0};
  if (ne + ni > self->_M_next_resize) { size_t want = ne + ni > 11 ? ne + ni : 11; if (self->_M_next_resize) want = ne + ni; if (want >= nb) { size_t g = nb * 2 > want + 1 ? nb * 2 : want + 1; if (g < 13) g = 13; return {true, vsx_next_bkt(self, g)}; } self->_M_next_resize = nb; return {false, 0}; } return {false, 0}; }
#ifdef VS_ENGINE
template class std::basic_string<char>;
namespace std {
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_system_error(int) { throw runtime_error("system_error"); }
}
extern "C" {
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) { a++; b++; } return (int)(unsigned char)*a - (int)(unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { while (n && *a && *a == *b) { a++; b++; n--; } return n ? (int)(unsigned char)*a - (int)(unsigned char)*b : 0; }
void* memchr(const void* p, int c, size_t n) { const unsigned char* s = (const unsigned char*)p; for (size_t i = 0; i < n; i++) if (s[i] == (unsigned char)c) return (void*)(s + i); return nullptr; }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isdigit(c) || isalpha(c); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isprint(int c) { return c >= 32 && c < 127; }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int ispunct(int c) { return isprint(c) && c != ' ' && !isalnum(c); }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isgraph(int c) { return c > 32 && c < 127; }
int isblank(int c) { return c == ' ' || c == 9; }
int toupper(int c) { return islower(c) ? c - 32 : c; }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
static int vs_errno; int* __errno_location() { return &vs_errno; }
static unsigned long long parse_int(const char* s, char** end, bool sg) {
  const char* p = s; while (isspace((unsigned char)*p)) p++; bool neg = false; if (*p == '+' || *p == '-') { neg = *p == '-'; p++; }
  unsigned long long v = 0; bool any = false, ov = false; while (isdigit((unsigned char)*p)) { unsigned d = *p - '0'; if (v > (~0ull - d) / 10) ov = true; v = v * 10 + d; p++; any = true; }
  if (end) *end = (char*)(any ? p : s);
  if (sg) { if (neg) { if (ov || v > 9223372036854775808ull) { vs_errno = 34; return 9223372036854775808ull; } return -v; } if (ov || v > 9223372036854775807ull) { vs_errno = 34; return 9223372036854775807ull; } return v; }
  if (ov) { vs_errno = 34; return ~0ull; } return neg ? -v : v; }
long long strtoll(const char* s, char** e, int) { return (long long)parse_int(s, e, true); }
unsigned long long strtoull(const char* s, char** e, int) { return parse_int(s, e, false); }
long strtol(const char* s, char** e, int) { return (long)parse_int(s, e, true); }
unsigned long strtoul(const char* s, char** e, int) { return parse_int(s, e, false); }
long double strtold(const char* s, char** end) { // decimal with optional fraction and exponent; no hex, inf or nan
  const char* p = s; while (isspace((unsigned char)*p)) p++; bool neg = false; if (*p == '+' || *p == '-') { neg = *p == '-'; p++; }
  long double v = 0; int sc = 0; bool any = false; while (isdigit((unsigned char)*p)) { v = v * 10 + (*p - '0'); p++; any = true; }
  if (*p == '.') { const char* q = p + 1; if (isdigit((unsigned char)*q) || any) { p = q; while (isdigit((unsigned char)*p)) { v = v * 10 + (*p - '0'); sc--; p++; any = true; } } }
  if (!any) { if (end) *end = (char*)s; return 0; }
  if (*p == 'e' || *p == 'E') { const char* q = p + 1; bool en = false; if (*q == '+' || *q == '-') { en = *q == '-'; q++; } if (isdigit((unsigned char)*q)) { int x = 0; while (isdigit((unsigned char)*q)) { if (x < 5000) x = x * 10 + (*q - '0'); q++; } sc += en ? -x : x; p = q; } }
  for (; sc > 0; sc--) v *= 10; for (; sc < 0; sc++) v /= 10; if (end) *end = (char*)p; return neg ? -v : v; }
double strtod(const char* s, char** e) { return (double)strtold(s, e); }
float strtof(const char* s, char** e) { return (float)strtold(s, e); }
int snprintf(char* b, size_t n, const char* f, ...) noexcept { va_list a; va_start(a, f); int r = vsnprintf(b, n, f, a); va_end(a); return r; }
char __libc_single_threaded = 0;
}
// red-black tree support as a plain binary search tree (same order, no balancing)
namespace std {
typedef _Rb_tree_node_base* NB;
EXT(NB, vsx_rb_inc, (NB x), "_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base") { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { NB y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
EXT(const _Rb_tree_node_base*, vsx_rb_incc, (const _Rb_tree_node_base* x), "_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base") { return vsx_rb_inc(const_cast<NB>(x)); }
EXT(NB, vsx_rb_dec, (NB x), "_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base") { if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { NB y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { NB y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
EXT(const _Rb_tree_node_base*, vsx_rb_decc, (const _Rb_tree_node_base* x), "_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base") { return vsx_rb_dec(const_cast<NB>(x)); }
EXT(void, vsx_rb_ins, (bool left, NB x, NB p, _Rb_tree_node_base& h), "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_") { x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black; if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; } else { p->_M_right = x; if (p == h._M_right) h._M_right = x; } }
EXT(NB, vsx_rb_erase, (NB z, _Rb_tree_node_base& h), "_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_") {
  if (h._M_left == z) h._M_left = vsx_rb_inc(z); if (h._M_right == z) h._M_right = vsx_rb_dec(z);
  auto repl = [&](NB a, NB b) { if (h._M_parent == a) h._M_parent = b; else if (a->_M_parent->_M_left == a) a->_M_parent->_M_left = b; else a->_M_parent->_M_right = b; if (b) b->_M_parent = a->_M_parent; };
  if (!z->_M_left) repl(z, z->_M_right); else if (!z->_M_right) repl(z, z->_M_left); else { NB y = z->_M_right; while (y->_M_left) y = y->_M_left; if (y->_M_parent != z) { repl(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; } repl(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y; }
  if (!h._M_parent) { h._M_left = h._M_right = &h; } return z; }
namespace __detail {
EXT(void, vsx_hook, (_List_node_base* self, _List_node_base* p), "_ZNSt8__detail15_List_node_base7_M_hookEPS0_") { self->_M_next = p; self->_M_prev = p->_M_prev; p->_M_prev->_M_next = self; p->_M_prev = self; }
EXT(void, vsx_unhook, (_List_node_base* self), "_ZNSt8__detail15_List_node_base9_M_unhookEv") { _List_node_base* n = self->_M_next; _List_node_base* p = self->_M_prev; p->_M_next = n; n->_M_prev = p; }
}
}
namespace std { namespace __detail {
EXT(void, vsx_transfer, (_List_node_base* self, _List_node_base* a, _List_node_base* b), "_ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_") { if (self == b) return; b->_M_prev->_M_next = self; a->_M_prev->_M_next = b; self->_M_prev->_M_next = a; _List_node_base* t = self->_M_prev; self->_M_prev = b->_M_prev; b->_M_prev = a->_M_prev; a->_M_prev = t; }
EXT(void, vsx_lreverse, (_List_node_base* self), "_ZNSt8__detail15_List_node_base10_M_reverseEv") { _List_node_base* t = self; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != self); }
EXT(void, vsx_lswap, (_List_node_base& x, _List_node_base& y), "_ZNSt8__detail15_List_node_base4swapERS0_S1_") { bool xe = x._M_next == &x, ye = y._M_next == &y; std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); if (!xe) y._M_next->_M_prev = y._M_prev->_M_next = &y; else y._M_next = y._M_prev = &y; if (!ye) x._M_next->_M_prev = x._M_prev->_M_next = &x; else x._M_next = x._M_prev = &x; }
} }
// exceptions that carry a text
namespace {
struct Err { const void* vt; std::string* s; };
}
extern "C" const char* vsx_what(const Err* e) { return e->s->c_str(); }
#define ERR(nm, len) \
extern "C" const char vsx_ti_##nm asm("_ZTISt" #len #nm); extern "C" const void* const vsx_vt_##nm[5] asm("_ZTVSt" #len #nm); \
EXT(void, vsx_##nm##_d2, (Err* e), "_ZNSt" #len #nm "D2Ev") { delete e->s; } EXT(void, vsx_##nm##_d1, (Err* e), "_ZNSt" #len #nm "D1Ev") { delete e->s; } EXT(void, vsx_##nm##_d0, (Err* e), "_ZNSt" #len #nm "D0Ev") { delete e->s; ::operator delete(e); } \
extern "C" const void* const vsx_vt_##nm[5] = {nullptr, &vsx_ti_##nm, (const void*)vsx_##nm##_d1, (const void*)vsx_##nm##_d0, (const void*)vsx_what}; \
EXT(void, vsx_##nm##_c1, (Err* e, const char* t), "_ZNSt" #len #nm "C1EPKc") { e->vt = vsx_vt_##nm + 2; e->s = new std::string(t); } EXT(void, vsx_##nm##_c2, (Err* e, const char* t), "_ZNSt" #len #nm "C2EPKc") { vsx_##nm##_c1(e, t); } \
EXT(void, vsx_##nm##_c3, (Err* e, const std::string& t), "_ZNSt" #len #nm "C1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE") { e->vt = vsx_vt_##nm + 2; e->s = new std::string(t); } EXT(void, vsx_##nm##_c4, (Err* e, const std::string& t), "_ZNSt" #len #nm "C2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE") { vsx_##nm##_c3(e, t); } \
EXT(void, vsx_##nm##_c5, (Err* e, const Err& o), "_ZNSt" #len #nm "C1ERKS_") { e->vt = vsx_vt_##nm + 2; e->s = new std::string(*o.s); } EXT(void, vsx_##nm##_c6, (Err* e, const Err& o), "_ZNSt" #len #nm "C2ERKS_") { vsx_##nm##_c5(e, o); }
ERR(logic_error, 11) ERR(runtime_error, 13) ERR(out_of_range, 12) ERR(length_error, 12) ERR(invalid_argument, 16) ERR(domain_error, 12) ERR(range_error, 11) ERR(overflow_error, 14) ERR(underflow_error, 15)
EXT(const char*, vsx_what1, (const Err* e), "_ZNKSt11logic_error4whatEv") { return e->s->c_str(); }
EXT(const char*, vsx_what2, (const Err* e), "_ZNKSt13runtime_error4whatEv") { return e->s->c_str(); }
// once, locks of shared pointers used as atomics
extern "C" { int __cxa_guard_acquire(int64_t*); void __cxa_guard_release(int64_t*); }
namespace std { __thread void* __once_callable; __thread void (*__once_call)(); }
extern "C" void __once_proxy() { std::__once_call(); }
extern "C" int pthread_once(int* c, void (*f)()) { if (__cxa_guard_acquire((int64_t*)c)) { f(); __cxa_guard_release((int64_t*)c); } return 0; }
static pthread_mutex_t vs_sp_mutex;
EXT(void, vsx_spl1, (void*, const void*), "_ZNSt10_Sp_lockerC1EPKv") { pthread_mutex_lock(&vs_sp_mutex); }
EXT(void, vsx_spl2, (void*, const void*, const void*), "_ZNSt10_Sp_lockerC1EPKvS1_") { pthread_mutex_lock(&vs_sp_mutex); }
EXT(void, vsx_spl3, (void*), "_ZNSt10_Sp_lockerD1Ev") { pthread_mutex_unlock(&vs_sp_mutex); }
extern "C" {
double round(double) noexcept; float roundf(float) noexcept; long double roundl(long double) noexcept; double rint(double) noexcept; float rintf(float) noexcept; long double rintl(long double) noexcept; double trunc(double) noexcept;
long lround(double x) noexcept { return (long)round(x); } long lroundf(float x) noexcept { return (long)roundf(x); } long lroundl(long double x) noexcept { return (long)roundl(x); } long long llround(double x) noexcept { return (long long)round(x); } long long llroundf(float x) noexcept { return (long long)roundf(x); } long long llroundl(long double x) noexcept { return (long long)roundl(x); }
long lrint(double x) noexcept { return (long)rint(x); } long lrintf(float x) noexcept { return (long)rintf(x); } long lrintl(long double x) noexcept { return (long)rintl(x); } long long llrint(double x) noexcept { return (long long)rint(x); } long long llrintf(float x) noexcept { return (long long)rintf(x); } long long llrintl(long double x) noexcept { return (long long)rintl(x); }
static long double parts(long double x, int* e) { *e = 0; if (x == 0 || x != x || x - x != 0) return x; bool neg = x < 0; if (neg) x = -x; while (x >= 1) { x /= 2; ++*e; } while (x < 0.5L) { x *= 2; --*e; } return neg ? -x : x; }
double frexp(double x, int* e) noexcept { return (double)parts(x, e); } float frexpf(float x, int* e) noexcept { return (float)parts(x, e); } long double frexpl(long double x, int* e) noexcept { return parts(x, e); }
double modf(double x, double* i) noexcept { *i = trunc(x); return x - *i; }
double ldexp(double x, int e) noexcept { for (; e > 0; e--) x *= 2; for (; e < 0; e++) x /= 2; return x; } long double ldexpl(long double x, int e) noexcept { for (; e > 0; e--) x *= 2; for (; e < 0; e++) x /= 2; return x; }
}
// output streams: every stream object appends to a buffer of its own
namespace {
std::string*& bufp(const void* os) { return *(std::string**)((char*)os + 8 + 248); } // in the place of a facet that is never used
std::string& bufof(const void* os) { return *bufp(os); }
struct FakeStream { void** vptr; char pad[504]; };
void* fakevt[8];
FakeStream thestream;
int64_t& prec(std::ostream* o) { return *(int64_t*)((char*)o + 8 + 8); }   // ios_base is placed at offset 8: vptr, precision, width, flags
int64_t& widt(std::ostream* o) { return *(int64_t*)((char*)o + 8 + 16); }
int32_t& flg(std::ostream* o) { return *(int32_t*)((char*)o + 8 + 24); }
void mkstream(void* p) { long* vt = (long*)fakevt; vt[0] = 8; FakeStream* f = (FakeStream*)p; f->vptr = (void**)(fakevt + 3); *(int64_t*)((char*)p + 16) = 6; *(int64_t*)((char*)p + 24) = 0; *(int32_t*)((char*)p + 32) = 0x1002; *(int32_t*)((char*)p + 40) = 0; *((char*)p + 8 + 224) = ' '; *((char*)p + 8 + 225) = 1; *(char**)((char*)p + 8 + 232) = (char*)p + 8; bufp(p) = new std::string; }
bool initd = (mkstream(&thestream), true);
void put(std::ostream* o, const char* s, long n) { std::string& b = bufof(o); int64_t w = widt(o); if (w > n && !(flg(o) & 32)) b.append(w - n, *((char*)o + 8 + 224)); b.append(s, n); if (w > n && (flg(o) & 32)) b.append(w - n, *((char*)o + 8 + 224)); widt(o) = 0; }
template <class T> void putf(std::ostream* o, T v, const char* l) { char f[16], b[128]; int32_t fl = flg(o); const char* c = (fl & 4) && !(fl & 256) ? "f" : (fl & 256) && !(fl & 4) ? "e" : "g"; int k = 0; f[k++] = '%'; if (fl & 2048) f[k++] = '+'; f[k++] = '.'; f[k++] = '*'; if (*l) f[k++] = *l; f[k++] = *c; f[k] = 0; int n = snprintf(b, sizeof b, f, (int)prec(o), v); put(o, b, n); }
}
template <class T> void puti(std::ostream* o, T v) { int32_t fl = flg(o); if (fl & (8 | 64)) { char b[32]; int n = snprintf(b, sizeof b, fl & 8 ? "%llx" : "%llo", (unsigned long long)(typename std::make_unsigned<T>::type)v); put(o, b, n); } else { std::string t = std::to_string(v); put(o, t.data(), t.size()); } }
std::ostream& vs_ostream() { return *(std::ostream*)&thestream; }
std::string& vs_out() { return bufof(&thestream); }
typedef std::ostream OS;
EXT(OS&, vsx_os1, (OS& o, const char* s, long n), "_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l") { put(&o, s, n); return o; }
EXT(OS&, vsx_os2, (OS* o, char c), "_ZNSo3putEc") { bufof(o).append(1, c); return *o; }
EXT(std::streampos, vsx_os2c, (OS* o), "_ZNSo5tellpEv") { return std::streampos((std::streamoff)bufof(o).size()); }
EXT(OS&, vsx_os2b, (OS* o, const char* s, long n), "_ZNSo5writeEPKcl") { bufof(o).append(s, n); return *o; }
EXT(OS&, vsx_os3, (OS* o, long v), "_ZNSo9_M_insertIlEERSoT_") { puti(o, v); return *o; }
EXT(OS&, vsx_os4, (OS* o, unsigned long v), "_ZNSo9_M_insertImEERSoT_") { puti(o, v); return *o; }
EXT(OS&, vsx_os5, (OS* o, long long v), "_ZNSo9_M_insertIxEERSoT_") { puti(o, v); return *o; }
EXT(OS&, vsx_os6, (OS* o, unsigned long long v), "_ZNSo9_M_insertIyEERSoT_") { puti(o, v); return *o; }
EXT(OS&, vsx_os7, (OS* o, bool v), "_ZNSo9_M_insertIbEERSoT_") { if (flg(o) & 1) put(o, v ? "true" : "false", v ? 4 : 5); else put(o, v ? "1" : "0", 1); return *o; }
EXT(OS&, vsx_os8, (OS* o, int v), "_ZNSolsEi") { puti(o, v); return *o; }
EXT(OS&, vsx_os9, (OS* o, short v), "_ZNSolsEs") { return vsx_os8(o, v); }
EXT(OS&, vsx_os10, (OS* o, double v), "_ZNSo9_M_insertIdEERSoT_") { putf(o, v, ""); return *o; }
EXT(OS&, vsx_os11, (OS* o, long double v), "_ZNSo9_M_insertIeEERSoT_") { putf(o, v, "L"); return *o; }
EXT(OS&, vsx_os12, (OS* o), "_ZNSo5flushEv") { return *o; }
EXT(OS&, vsx_os13, (OS& o), "_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_") { bufof(&o).append(1, '\n'); return o; }
EXT(OS&, vsx_os14, (OS& o), "_ZSt5flushIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_") { return o; }
EXT(OS&, vsx_os15, (OS& o, const char* s), "_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc") { long n = 0; while (s[n]) n++; put(&o, s, n); return o; }
EXT(OS&, vsx_os16, (OS& o, char c), "_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c") { put(&o, &c, 1); return o; }
// the buffer of a stream is known by the address after the stream's own, where a string stream has it
typedef std::streambuf SB; typedef std::stringbuf STB;
EXT(long, vsx_sb1, (SB* b, const char* s, long n), "_ZNSt15basic_streambufIcSt11char_traitsIcEE5sputnEPKcl") { bufof((char*)b - 8).append(s, n); return n; }
EXT(int, vsx_sb2, (SB* b, char c), "_ZNSt15basic_streambufIcSt11char_traitsIcEE5sputcEc") { bufof((char*)b - 8).append(1, c); return (unsigned char)c; }
EXT(std::string, vsx_sb4, (const STB* b), "_ZNKSt7__cxx1115basic_stringbufIcSt11char_traitsIcESaIcEE3strEv") { return bufof((char*)b - 8); }
// std::ostringstream / std::stringstream
typedef std::ostringstream OSS; typedef std::stringstream SS;
EXT(void, vsx_oss1, (OSS* o), "_ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEEC1Ev") { mkstream(o); }
EXT(void, vsx_oss2, (OSS* o), "_ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEED1Ev") { delete bufp(o); }
EXT(void, vsx_oss4, (OSS* o, const std::string& t), "_ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE3strERKNS_12basic_stringIcS2_S3_EE") { bufof(o) = t; }
EXT(std::string, vsx_oss3, (const OSS* o), "_ZNKSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE3strEv") { return bufof(o); }
EXT(void, vsx_ss1, (SS* o), "_ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEEC1Ev") { mkstream((char*)o + 16); }
EXT(void, vsx_ss2, (SS* o), "_ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEED1Ev") { delete bufp((char*)o + 16); }
EXT(void, vsx_ss4, (SS* o, const std::string& t), "_ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEE3strERKNS_12basic_stringIcS2_S3_EE") { bufof((char*)o + 16) = t; }
EXT(std::string, vsx_ss3, (const SS* o), "_ZNKSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEE3strEv") { return bufof((char*)o + 16); }
#else
static std::ostringstream& theoss() { static std::ostringstream o; return o; }
std::ostream& vs_ostream() { return theoss(); }
std::string& vs_out() { static std::string s; s = theoss().str(); return s; }
#endif
