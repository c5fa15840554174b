// bound: every pair of bool, the eight integer types, char, long long, float, double, long double, and durations in nano-, micro-, milli-, seconds, minutes and hours (64 and 32 bit counts) as far as their nanoseconds fit in 64 bits; all values (floating: finite up to 1e300); text up to 3 arbitrary bytes
// outside: floating values against durations and floating durations (a duration compared with a floating value counts in its own unit); NaN and infinities
#include "h.h"
using std::chrono::microseconds; using std::chrono::milliseconds; using std::chrono::seconds; using std::chrono::minutes; using std::chrono::hours;
// what the value represents: an integer as (sign, 64 bits), or a number
struct Key { int64_t hi; uint64_t lo; };
template <class T> static Key key(T v) { Key k; k.hi = std::is_signed<T>::value ? ((int64_t)v < 0 ? -1 : 0) : 0; k.lo = (uint64_t)v; return k; }
template <class R, class P> static Key key(std::chrono::duration<R, P> d) { return key((int64_t)d.count() * (int64_t)(std::chrono::duration_cast<nanoseconds>(std::chrono::duration<int64_t, P>(1)).count())); }
static bool klt(Key a, Key b) { return (a.hi < b.hi) | ((a.hi == b.hi) & (a.lo < b.lo)); }
static bool keq(Key a, Key b) { return (a.hi == b.hi) & (a.lo == b.lo); }
template <class T> struct Any { static T get() { return vs_any<T>("i"); } };
template <> struct Any<float> { static float get() { return vs_float("f", -1e37f, 1e37f); } };
template <> struct Any<double> { static double get() { return vs_double("d", -1e300, 1e300); } };
template <> struct Any<long double> { static long double get() { return vs_fp_range("l", -1e300, 1e300, 64); } };
template <class R, class P> struct Any<std::chrono::duration<R, P>> { static std::chrono::duration<R, P> get() { int64_t u = std::chrono::duration_cast<nanoseconds>(std::chrono::duration<int64_t, P>(1)).count(), m = INT64_MAX / u; if (m > (int64_t)std::numeric_limits<R>::max()) m = std::numeric_limits<R>::max(); return std::chrono::duration<R, P>((R)vs_range("t", -m, m)); } };
static void six(const metric_value& x, const metric_value& y, bool lt, bool eq) {
  vs_assert((x < y) == lt, "less"); vs_assert((x == y) == eq, "equal"); vs_assert((x != y) == !eq, "not-equal"); vs_assert((x <= y) == (lt | eq), "less-equal"); vs_assert((x > y) == !(lt | eq), "greater"); vs_assert((x >= y) == !lt, "greater-equal");
  vs_assert((y < x) == !(lt | eq), "less-swapped"); vs_assert((y == x) == eq, "equal-swapped"); vs_assert((y != x) == !eq, "not-equal-swapped"); vs_assert((y <= x) == !lt, "less-equal-swapped"); vs_assert((y > x) == lt, "greater-swapped"); vs_assert((y >= x) == (lt | eq), "greater-equal-swapped");
}
template <class A, class B> static void exact() { A a = Any<A>::get(); B b = Any<B>::get(); six(metric_value(a), metric_value(b), klt(key(a), key(b)), keq(key(a), key(b))); }
template <class A, class B> static void real() { A a = Any<A>::get(); B b = Any<B>::get(); long double x = a, y = b; six(metric_value(a), metric_value(b), x < y, x == y); }
// one of the pairs, each on a path of its own
template <class F> static void pick(std::initializer_list<F> fs) { int k = vs_choose("pair", (int)fs.size()); int i = 0; for (F f : fs) if (i++ == k) f(); }
typedef void (*Fn)();
template <class A> static void row_int() { pick<Fn>({exact<A, bool>, exact<A, char>, exact<A, int8_t>, exact<A, uint8_t>, exact<A, int16_t>, exact<A, uint16_t>, exact<A, int32_t>, exact<A, uint32_t>, exact<A, int64_t>, exact<A, uint64_t>, exact<A, long long>, exact<A, unsigned long long>}); }
template <class A> static void row_real() { pick<Fn>({real<A, float>, real<A, double>, real<A, long double>}); }
template <class A> static void row_dur() { pick<Fn>({exact<A, nanoseconds>, exact<A, microseconds>, exact<A, milliseconds>, exact<A, seconds>, exact<A, minutes>, exact<A, hours>, exact<A, std::chrono::duration<int64_t, std::ratio<1>>>}); }
VS_ENTRY(i8) { row_int<int8_t>(); } VS_ENTRY(u8) { row_int<uint8_t>(); } VS_ENTRY(i16) { row_int<int16_t>(); } VS_ENTRY(u16) { row_int<uint16_t>(); } VS_ENTRY(i32) { row_int<int32_t>(); } VS_ENTRY(u32) { row_int<uint32_t>(); } VS_ENTRY(i64) { row_int<int64_t>(); } VS_ENTRY(u64) { row_int<uint64_t>(); } VS_ENTRY(ll) { pick<Fn>({row_int<long long>, row_int<bool>}); }
VS_ENTRY(i8r) { pick<Fn>({row_real<int8_t>, row_real<uint8_t>, row_real<int16_t>, row_real<uint16_t>}); } VS_ENTRY(i32r) { pick<Fn>({row_real<int32_t>, row_real<uint32_t>}); } VS_ENTRY(i64r) { row_real<int64_t>(); } VS_ENTRY(u64r) { row_real<uint64_t>(); }
VS_ENTRY(fr) { row_real<float>(); } VS_ENTRY(dr) { row_real<double>(); } VS_ENTRY(lr) { row_real<long double>(); }
VS_ENTRY(i8d) { pick<Fn>({row_dur<int8_t>, row_dur<uint16_t>}); } VS_ENTRY(i32d) { pick<Fn>({row_dur<int32_t>, row_dur<uint32_t>}); } VS_ENTRY(i64d) { row_dur<int64_t>(); }
VS_ENTRY(nd) { row_dur<nanoseconds>(); } VS_ENTRY(ud) { row_dur<microseconds>(); } VS_ENTRY(md) { row_dur<milliseconds>(); } VS_ENTRY(sd) { pick<Fn>({row_dur<seconds>, row_dur<minutes>, row_dur<hours>}); }
// text compares byte by byte
VS_ENTRY(text) {
  auto str = [](const char* w, unsigned char* c) { int n = vs_choose(w, Q(3, 4)); std::string s; for (int i = 0; i < n; i++) { c[i] = (unsigned char)vs_range("c", 1, 255); s += (char)c[i]; } c[n] = 0; return s; };
  unsigned char a[5], b[5]; std::string x = str("la", a), y = str("lb", b); bool lt = false, eq = true; for (int i = 0; i < 5; i++) { lt = lt | (eq & (a[i] < b[i])); eq = eq & (a[i] == b[i]); if (i == (int)x.size() || i == (int)y.size()) break; }
  six(metric_value(x), metric_value(y), lt, eq); if (x.size() == 2) { metric_value p(x.c_str()); vs_assert(p == metric_value(x), "pointer-text"); }
}
// transitivity across three types, stated on its own
template <class A, class B, class C> static void trans() { metric_value a(Any<A>::get()), b(Any<B>::get()), c(Any<C>::get()); bool ab = a <= b, bc = b <= c, ac = a <= c, e = (a == b) & (b == c); vs_assert(!(ab & bc) | ac, "transitive"); vs_assert(!e | (a == c), "equality-transitive"); }
VS_ENTRY(transitive) { pick<Fn>({trans<int32_t, uint64_t, int64_t>, trans<uint8_t, double, int64_t>, trans<float, int32_t, double>, trans<nanoseconds, seconds, int64_t>, trans<uint64_t, long double, int8_t>}); }
// copies and assignments compare like the original; so do snapshots of single values
template <class A, class B> static void snap() {
  A a = Any<A>::get(); B b = Any<B>::get(); metric_value x(a), y(b); bool eq = x == y; 
  cumulative_value_snapshot s{metric_value(a)}, t{metric_value(b)}; vs_assert((s == t) == eq, "snapshot-equal"); vs_assert((s != t) == !eq, "snapshot-not-equal"); vs_assert((s == y) == eq, "snapshot-value-equal"); vs_assert((s != y) == !eq, "snapshot-value-not-equal"); vs_assert(s.value() == x, "snapshot-value");
  average_value_snapshot u{metric_value(a)}, w{metric_value(b)}; vs_assert((u == w) == eq, "average-snapshot-equal"); vs_assert((u != w) == !eq, "average-snapshot-not-equal"); vs_assert((u == s) , "snapshot-kinds");
  metric_value c(x), d(0); d = metric_value(y); vs_assert(c == x && (c == d) == eq, "copies"); metric_value m(std::move(c)); vs_assert(m == x, "moved");
}
VS_ENTRY(snapshots) { pick<Fn>({snap<int64_t, int64_t>, snap<int32_t, uint64_t>, snap<double, double>, snap<int16_t, double>, snap<nanoseconds, seconds>}); }
VS_ENTRY(snapshots_text) { unsigned char c = (unsigned char)vs_range("c", 1, 255), d = (unsigned char)vs_range("d", 1, 255); value_snapshot s(metric_value(std::string("a") + (char)c)), t(metric_value(std::string("a") + (char)d)); vs_assert((s == t) == (c == d), "text-snapshot-equal"); vs_assert((s != t) == (c != d), "text-snapshot-not-equal"); value_snapshot m(std::move(s)); vs_assert((m == t) == (c == d), "text-snapshot-moved"); t = std::move(m); vs_assert(t == metric_value(std::string("a") + (char)c), "text-snapshot-assigned"); }
// text that spells a number compares with numbers as that number; other text is consistently on one side of them
struct Spelled { const char* text; long double value; bool whole; };
static const Spelled spelled[] = {{"0", 0, true}, {"-1", -1, true}, {"127", 127, true}, {"200", 200, true}, {"-129", -129, true}, {"4294967295", 4294967295.0L, true}, {"9007199254740993", 9007199254740993.0L, true}, {"9223372036854775807", 9223372036854775807.0L, true}, {"18446744073709551615", 18446744073709551615.0L, true}, {"0.5", 0.5L, false}, {"-2.25", -2.25L, false}, {"1e3", 1000, false}};
template <class A> static void spelt() { Spelled t = spelled[vs_choose("text", 12)]; A a = Any<A>::get(); long double x = a; six(metric_value(a), metric_value(t.text), x < t.value, x == t.value); }
VS_ENTRY(text_numbers) { pick<Fn>({spelt<int8_t>, spelt<uint8_t>, spelt<int16_t>, spelt<int32_t>, spelt<uint32_t>, spelt<int64_t>, spelt<uint64_t>, spelt<double>, spelt<long double>}); }
VS_ENTRY(text_durations) { Spelled t = spelled[vs_choose("text", 8)]; int64_t d = vs_any<int64_t>("d"); metric_value x{nanoseconds(d)}; long double v = d; six(x, metric_value(t.text), v < t.value, v == t.value); }
VS_ENTRY(text_others) {
  static const char* words[] = {"", "abc", "-", "1x", "--1", "zz9"}; metric_value t(words[vs_choose("text", 6)]); int64_t n = vs_any<int64_t>("n"); metric_value xs[] = {metric_value(n), metric_value((uint8_t)n), metric_value((uint64_t)n), metric_value((float)(int8_t)n), metric_value(nanoseconds(n))}; metric_value x = xs[vs_choose("other", 5)];
  bool lt = x < t, eq = x == t; six(x, t, lt, eq); vs_assert(!(lt & eq) & !eq, "words-are-no-numbers");
}
