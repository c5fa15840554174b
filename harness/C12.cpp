// bound: every pair of the eight integer types with all values; integers (up to 2^40, 32 bit and narrower in full) with float, double and long double up to 1e12 (quotients: divisor at least 1 in magnitude), products of two floating values up to 1e6; nanosecond, microsecond and second durations with each other and with integers; chains of three operations
// outside: quotients of an unsigned type by a negative number of a narrower type; durations whose value is no whole number of the unit they are added to; a duration multiplied or divided by a duration; text that spells no number (no traps are checked); NaN and infinities
#include "h.h"
using std::chrono::microseconds; using std::chrono::milliseconds; using std::chrono::seconds;
template <class F> static void pick(std::initializer_list<F> fs) { int k = vs_choose("pair", (int)fs.size()); int i = 0; for (F f : fs) if (i++ == k) f(); }
typedef void (*Fn)();
// the wider type: more bytes, or unsigned when equally wide
template <class A, class B> using W = typename std::conditional<(sizeof(A) > sizeof(B)) || (sizeof(A) == sizeof(B) && std::is_unsigned<A>::value), A, B>::type;
template <class T> static bool is(const metric_value& m, T v) { return ((T)m == v) & ((uint64_t)m == (uint64_t)v); }
template <class A, class B> static void add() { typedef W<A, B> T; A a = vs_any<A>("a"); B b = vs_any<B>("b"); metric_value x(a), y(b); T r = (T)((uint64_t)a + (uint64_t)b); vs_assert(is<T>(x + y, r), "sum"); vs_assert(is<T>(y + x, r), "sum-swapped"); metric_value c(x); c += y; vs_assert(is<T>(c, r), "sum-compound"); vs_assert(is<A>(x, a) && is<B>(y, b), "sum-operands"); }
template <class A, class B> static void sub() { typedef W<A, B> T; A a = vs_any<A>("a"); B b = vs_any<B>("b"); metric_value x(a), y(b); T r = (T)((uint64_t)a - (uint64_t)b); vs_assert(is<T>(x - y, r), "difference"); vs_assert(is<T>(y - x, (T)((uint64_t)b - (uint64_t)a)), "difference-swapped"); metric_value c(x); c -= y; vs_assert(is<T>(c, r), "difference-compound"); }
template <class A, class B> static void mult() { typedef W<A, B> T; A a = vs_any<A>("a"); B b = vs_any<B>("b"); metric_value x(a), y(b); T r = (T)((uint64_t)a * (uint64_t)b); vs_assert(is<T>(x * y, r), "product"); vs_assert(is<T>(y * x, r), "product-swapped"); metric_value c(x); c *= y; vs_assert(is<T>(c, r), "product-compound"); }
// dividing by every constant magnitude is beyond the solver: the divisor is one of these or its negative
template <class B> static B divisor() { static const uint64_t d[] = {0, 1, 2, 3, 7, 10, 100, 127}; int k = vs_choose("divisor", 8); uint64_t v = d[k]; if (std::is_signed<B>::value && vs_choose("negative", 2)) v = 0 - v; return (B)v; }
template <class A, class B> static void quot() {
  typedef W<A, B> T; A a = vs_any<A>("a"); B b = divisor<B>(); if (std::is_unsigned<T>::value) { if (std::is_signed<A>::value) vs_assume(!(a < 0)); if (std::is_signed<B>::value && b < 0) return; }
  metric_value x(a), y(b); T r = b == 0 ? (T)0 : (std::is_signed<T>::value && b == (B)-1) ? (T)(0 - (uint64_t)a) : (T)((T)a / (T)(b ? b : 1)); metric_value q = x / y; vs_assert(is<T>(q, r), "quotient"); metric_value c(x); c /= y; vs_assert(is<T>(c, r), "quotient-compound");
}
// any divisor: no trap, and the quotient is the right one
template <class T> static void quot_any() { T a = vs_any<T>("a"), b = vs_any<T>("b"); metric_value q = metric_value(a) / metric_value(b); if (b == 0) vs_assert(is<T>(q, 0), "zero-divisor"); else if (std::is_signed<T>::value && b == (T)-1) vs_assert(is<T>(q, (T)(0 - (uint64_t)a)), "minus-one"); else vs_assert(is<T>(q, (T)(a / b)), "any-quotient"); }
template <class A> static void neg() { A a = vs_any<A>("a"); metric_value x(a); vs_assert(is<A>(-x, (A)(0 - (uint64_t)a)), "negation"); vs_assert(-x == metric_value((A)0) - x, "negation-is-subtraction"); vs_assert(is<A>(~x, (A)~(uint64_t)a), "complement"); vs_assert(is<A>(- -x, a), "negation-twice"); }
#define ROW(f, A) pick<Fn>({f<A, int8_t>, f<A, uint8_t>, f<A, int16_t>, f<A, uint16_t>, f<A, int32_t>, f<A, uint32_t>, f<A, int64_t>, f<A, uint64_t>})
template <class A> static void radd() { ROW(add, A); } template <class A> static void rsub() { ROW(sub, A); } template <class A> static void rmult() { ROW(mult, A); } template <class A> static void rquot() { ROW(quot, A); }
#define ALL(f) pick<Fn>({f<int8_t>, f<uint8_t>, f<int16_t>, f<uint16_t>, f<int32_t>, f<uint32_t>, f<int64_t>, f<uint64_t>})
VS_ENTRY(sums) { ALL(radd); } VS_ENTRY(differences) { ALL(rsub); } VS_ENTRY(products) { ALL(rmult); } VS_ENTRY(quotients_s) { pick<Fn>({rquot<int8_t>, rquot<int16_t>, rquot<int32_t>, rquot<int64_t>}); } VS_ENTRY(quotients_u) { pick<Fn>({rquot<uint8_t>, rquot<uint16_t>, rquot<uint32_t>, rquot<uint64_t>}); } VS_ENTRY(any_quotients) { pick<Fn>({quot_any<int8_t>, quot_any<uint8_t>, quot_any<int64_t>, quot_any<uint64_t>}); } VS_ENTRY(negations) { ALL(neg); }
// with floating values the result is floating: the wider of the floating operands
static bool near(long double a, long double b, long double tol) { return (a <= b + tol) & (a >= b - tol); }
template <class F> static long double eps() { return std::numeric_limits<F>::epsilon(); }
template <class F> static F fval(const char* n, double m) { return sizeof(F) == 4 ? (F)vs_float(n, (float)-m, (float)m) : (F)vs_double(n, -m, m); }
template <class I> static I ival(const char* n) { return sizeof(I) < 8 ? vs_any<I>(n) : (I)vs_range(n, std::is_signed<I>::value ? -(1ll << 40) : 0, 1ll << 40); }
template <class F, class I> static void fi() {
  F f = fval<F>("f", 1e12); I i = ival<I>("i"); metric_value x(f), y(i); long double t = 2e13L * eps<F>(), a = f, b = i; F s = (F)(a + b);
  vs_assert(near((long double)(x + y), a + b, t), "float-sum"); vs_assert(near((long double)(y + x), a + b, t), "float-sum-swapped"); vs_assert(near((long double)(x - y), a - b, t), "float-difference"); vs_assert(near((long double)(y - x), b - a, t), "float-difference-swapped");
  metric_value c(x), d(x); c += y; d -= y; vs_assert(near((long double)c, a + b, t), "float-sum-compound"); vs_assert(near((long double)d, a - b, t), "float-difference-compound"); (void)s;
}
template <class F, class I> static void fim() { // one factor or divisor fixed
  static const int k[] = {0, 1, 2, 3, -1, 10, 100, -7}; I i = (I)k[vs_choose("k", 8)]; F f = fval<F>("f", 1e12); metric_value x(f), y(i); long double t = 2e15L * eps<F>(), a = f, b = i;
  if (std::is_unsigned<I>::value && sizeof(I) > 1) vs_assume(b < 1000);
  vs_assert(near((long double)(x * y), a * b, t), "float-product"); vs_assert(near((long double)(y * x), a * b, t), "float-product-swapped"); vs_assert(near((long double)(x / y), b == 0 ? 0 : a / (b == 0 ? 1 : b), t), "float-quotient"); metric_value c(x), d(x); c *= y; d /= y; vs_assert(near((long double)c, a * b, t), "float-product-compound"); vs_assert(near((long double)d, b == 0 ? 0 : a / (b == 0 ? 1 : b), t), "float-quotient-compound");
}
template <class F, class I> static void fiq() { // a fixed floating divisor, any integer
  static const double k[] = {0, 1, 0.5, -2, 100, 0.25}; F f = (F)k[vs_choose("k", 6)]; I i = ival<I>("i"); metric_value x(i), y(f); long double t = 3e13L * eps<F>(), a = i, b = f; vs_assert(near((long double)(x / y), b == 0 ? 0 : a / (b == 0 ? 1 : b), t), "integer-by-float"); vs_assert(near((long double)(x * y), a * b, t * 100), "integer-times-float"); metric_value c(x); c /= y; vs_assert(near((long double)c, b == 0 ? 0 : a / (b == 0 ? 1 : b), t), "integer-by-float-compound");
}
#define FROW(f, F) pick<Fn>({f<F, int8_t>, f<F, uint8_t>, f<F, int16_t>, f<F, uint32_t>, f<F, int32_t>, f<F, int64_t>, f<F, uint64_t>})
template <class F> static void rfi() { FROW(fi, F); } template <class F> static void rfim() { FROW(fim, F); } template <class F> static void rfiq() { FROW(fiq, F); }
VS_ENTRY(float_sums) { pick<Fn>({rfi<float>, rfi<double>, rfi<long double>}); } VS_ENTRY(float_products) { pick<Fn>({rfim<float>, rfim<double>, rfim<long double>}); } VS_ENTRY(float_quotients) { pick<Fn>({rfiq<float>, rfiq<double>, rfiq<long double>}); }
template <class F, class G> static void ff() {
  F f = fval<F>("f", 1e6); G g = fval<G>("g", 1e6); metric_value x(f), y(g); long double e = sizeof(F) > sizeof(G) ? eps<F>() : eps<G>(), a = f, b = g, t = 3e7L * e;
  vs_assert(near((long double)(x + y), a + b, t), "two-floats-sum"); vs_assert(near((long double)(x - y), a - b, t), "two-floats-difference"); vs_assert(near((long double)(y - x), b - a, t), "two-floats-difference-swapped"); vs_assert(x + y == y + x, "two-floats-sum-commutes"); 
  metric_value n = -x; vs_assert((long double)n == -a, "float-negation"); vs_assert(metric_value((F)0) - x == n, "float-negation-is-subtraction"); vs_assert((long double)(x / metric_value((G)0)) == 0, "float-by-zero"); vs_assert((long double)(x / metric_value(0)) == 0, "float-by-integer-zero");
}
VS_ENTRY(two_floats) { pick<Fn>({ff<float, float>, ff<float, double>, ff<double, float>, ff<double, double>, ff<long double, double>, ff<double, long double>}); }
VS_ENTRY(float_times_float) { double f = vs_double("f", -1e6, 1e6), g = vs_double("g", -1e6, 1e6); metric_value x(f), y(g); vs_assert((double)(x * y) == (double)((long double)f * (long double)g), "product-of-floats"); vs_assert(x * y == y * x, "product-of-floats-commutes"); double d = vs_double("d", 1, 1e6); y = metric_value(d); g = d; vs_assert((double)(x / y) == (double)((long double)f / (long double)g), "quotient-of-floats"); }
// durations: exact in nanoseconds
static int64_t ns(const metric_value& m) { return std::chrono::duration_cast<nanoseconds>(m).count(); }
template <class D, class N> static void dd() { // D is the coarser unit
  int64_t u = std::chrono::duration_cast<nanoseconds>(D(1)).count(), v = std::chrono::duration_cast<nanoseconds>(N(1)).count(); int64_t p = vs_range("p", -4000000, 4000000), q = vs_range("q", -4000000000ll, 4000000000ll); metric_value x{D(p)}, y{N(q)};
  vs_assert(ns(y + x) == p * u + q * v, "duration-sum"); vs_assert(ns(y - x) == q * v - p * u, "duration-difference"); metric_value c(y), d(y); c += x; d -= x; vs_assert(ns(c) == p * u + q * v && ns(d) == q * v - p * u, "duration-compound");
  vs_assert(ns(-x) == -p * u, "duration-negation"); metric_value z{N(p * (u / v))}; vs_assert(ns(x + z) == 2 * p * u && x - z == metric_value(nanoseconds(0)), "whole-units");
}
VS_ENTRY(durations) { pick<Fn>({dd<nanoseconds, nanoseconds>, dd<microseconds, nanoseconds>, dd<seconds, nanoseconds>, dd<seconds, microseconds>, dd<milliseconds, microseconds>, dd<seconds, seconds>}); }
template <class I> static void di() {
  I i = ival<I>("i"); int64_t p = vs_range("p", -1ll << 40, 1ll << 40); metric_value x{nanoseconds(p)}, y(i); vs_assert(ns(x + y) == p + (int64_t)i && ns(y + x) == p + (int64_t)i, "duration-and-integer-sum"); vs_assert(ns(x - y) == p - (int64_t)i, "duration-minus-integer"); vs_assert(ns(y - x) == (int64_t)i - p, "integer-minus-duration");
}
VS_ENTRY(duration_integer) { pick<Fn>({di<int8_t>, di<uint8_t>, di<int16_t>, di<uint32_t>, di<int32_t>, di<int64_t>, di<uint64_t>}); }
VS_ENTRY(duration_scaling) {
  static const int k[] = {0, 1, 2, 3, -1, 10, -7}; int i = k[vs_choose("k", 7)]; int64_t p = vs_range("p", -1ll << 40, 1ll << 40); metric_value x{microseconds(p)}, y(i); vs_assert(ns(x * y) == p * i * 1000 && ns(y * x) == p * i * 1000, "duration-scaled"); vs_assert(std::chrono::duration_cast<microseconds>(x / y).count() == (i ? p / (i ? i : 1) : 0), "duration-divided"); metric_value c(x), d(x); c *= y; d /= y; vs_assert(c == x * y && d == x / y, "duration-scaled-compound");
  int64_t e = vs_choose("lowest", 2) ? INT64_MIN : p; metric_value q = metric_value(nanoseconds(e)) / metric_value(-1); vs_assert(ns(q) == (int64_t)(0 - (uint64_t)e), "duration-by-minus-one");
}
// expressions built from several operations, values kept intact when copied and moved on the way
VS_ENTRY(chains) {
  int64_t a = vs_range("a", -1000000, 1000000); int32_t b = (int32_t)vs_range("b", -1000, 1000); uint16_t c = (uint16_t)vs_range("c", 0, 1000); metric_value x(a), y(b), z(c);
  vs_assert(is<int64_t>(x + y - z, a + b - c), "chain"); vs_assert(is<int64_t>((x - y) - (z - x), 2 * a - b - c), "nested"); metric_value s(0); s += x; s += y; s -= z; vs_assert(is<int64_t>(s, a + b - c), "accumulated"); metric_value t(std::move(s)); t *= metric_value(2); t -= x; vs_assert(is<int64_t>(t, a + 2 * b - 2 * c), "moved-on"); vs_assert(is<int64_t>(-(x - y), b - a), "negated-difference");
  t = metric_value(x); vs_assert(is<int64_t>(t, a), "reassigned");
}
// the same computation in the wide type needs no further look
static bool about(long double got, long double want) { return ((long double)(int64_t)want == got) | (want == got) | near(got, want, 1); }
// text that spells a number counts as that number
struct Spelled { const char* text; long double value; };
static const Spelled spelled[] = {{"0", 0}, {"3", 3}, {"-1", -1}, {"-7", -7}, {"2.5", 2.5L}, {"0.5", 0.5L}, {"-0.25", -0.25L}, {"0.001", 0.001L}, {"1e2", 100}, {"5000000000", 5000000000.0L}, {"0.0", 0}};
VS_ENTRY(text_durations) {
  Spelled t = spelled[vs_choose("text", 11)]; int64_t p = vs_range("p", -(1 << 20), 1 << 20); metric_value x{nanoseconds(p)}, y(t.text); long double pv = p;
  vs_assert(about(ns(x * y), pv * t.value), "text-factor"); vs_assert(about(ns(y * x), pv * t.value), "text-factor-swapped"); vs_assert(about(ns(x / y), t.value == 0 ? 0 : pv / (t.value == 0 ? 1 : t.value)), "text-divisor");
  metric_value c(x), d(x); c *= y; d /= y; vs_assert(c == x * y && d == x / y, "text-duration-compound");
  int64_t w = (int64_t)t.value; vs_assert(ns(x + y) == p + w, "text-plus-duration"); vs_assert(ns(x - y) == p - w, "duration-less-text"); metric_value e(x); e += y; vs_assert(ns(e) == p + w, "text-added-to-duration"); metric_value none("none"); vs_assert(ns(x + none) == p && ns(x - none) == p, "no-number-added");
}
template <class I> static void ti() {
  Spelled t = spelled[vs_choose("text", 11)]; I i = sizeof(I) < 4 ? vs_any<I>("i") : (I)vs_range("i", std::is_signed<I>::value ? -(1 << 20) : 0, 1 << 20); long double iv = i; metric_value x(i), y(t.text); bool whole = t.value == (long long)t.value && std::string(t.text).find_first_of(".e") == std::string::npos;
  if (std::is_signed<I>::value && sizeof(I) == 8) { vs_assert(about((long double)(x * y), iv * t.value), "text-times-integer"); vs_assert(about((long double)(y * x), iv * t.value), "text-times-integer-swapped"); if (whole) vs_assert((int64_t)(x + y) == (int64_t)i + (int64_t)t.value && (int64_t)(x - y) == (int64_t)i - (int64_t)t.value, "text-plus-integer"); vs_assert(about((long double)(x / y), t.value == 0 ? 0 : iv / (t.value == 0 ? 1 : t.value)), "integer-by-text"); }
  else vs_assert((long double)(x / y) == 0 || t.value != 0, "small-integer-by-text");
}
VS_ENTRY(text_integers) { pick<Fn>({ti<int8_t>, ti<uint8_t>, ti<int32_t>, ti<int64_t>}); }
VS_ENTRY(text_floats) {
  Spelled t = spelled[vs_choose("text", 11)]; double f = vs_double("f", -1e6, 1e6); metric_value x(f), y(t.text); long double e = 1e17L * eps<double>();
  vs_assert(near((long double)(x * y), f * t.value, e), "text-times-float"); vs_assert(near((long double)(x + y), f + t.value, e), "text-plus-float"); vs_assert(near((long double)(x / y), t.value == 0 ? 0 : f / (t.value == 0 ? 1 : t.value), e), "float-by-text"); vs_assert((long double)(y / metric_value(0.0)) == 0, "text-by-zero");
}
// operands that spell no number leave no defined result, but nothing traps
VS_ENTRY(no_traps) {
  static const char* bad[] = {"", "abc", "0", "-0", "0.0", "1e-50", "-1", "-1.0", "nan", "inf", "-inf", "1e400", "9223372036854775808", "-9223372036854775809"}; metric_value t(bad[vs_choose("text", 14)]); int64_t n = vs_any<int64_t>("n"); metric_value lowest[] = {metric_value(n), metric_value((int8_t)n), metric_value((uint64_t)n), metric_value((int32_t)n), metric_value(nanoseconds(n)), metric_value(2.5), metric_value("12"), metric_value("")}; metric_value x = lowest[vs_choose("other", 8)];
  metric_value a = x / t, b = t / x, c = x * t, d = t * x, e = x - t, f = t - x, g = x + t, h = t + x; (void)a; (void)b; (void)c; (void)d; (void)e; (void)f; (void)g; (void)h; vs_assert(true, "no-trap");
}
// a fixed duration and any factor or divisor, also beyond 32 bits
VS_ENTRY(duration_factors) {
  static const int k[] = {0, 1, 3, -5, 1000}; int64_t p = k[vs_choose("p", 5)]; int64_t i = vs_range("i", -(1ll << 50), 1ll << 50); metric_value x{nanoseconds(p)}, y(i);
  vs_assert(ns(x * y) == p * i, "wide-factor"); vs_assert(ns(y * x) == p * i, "wide-factor-swapped"); metric_value c(x); c *= y; vs_assert(ns(c) == p * i, "wide-factor-compound");
  static const int64_t d[] = {5000000000ll, -5000000000ll, 4294967296ll, 4294967297ll, 2147483648ll}; int64_t v = d[vs_choose("divisor", 5)]; metric_value z{nanoseconds(i)}; vs_assert(ns(z / metric_value(v)) == i / v, "wide-divisor");
}
VS_ENTRY(text_negation) {
  static const struct { const char *text, *minus, *complement; long double value; } w[] = {{"0", "0", "-1", 0}, {"3", "-3", "-4", 3}, {"-7", "7", "6", -7}, {"9223372036854775807", "-9223372036854775807", "-9223372036854775808", 9223372036854775807.0L}, {"-9223372036854775808", "9223372036854775808", "9223372036854775807", -9223372036854775808.0L}, {"9223372036854775808", "-9223372036854775808", nullptr, 9223372036854775808.0L}, {"18446744073709551615", "-18446744073709551615", nullptr, 18446744073709551615.0L}, {"2.5", nullptr, "2.5", 2.5L}, {"-0.25", nullptr, "-0.25", -0.25L}, {"1e2", nullptr, "1e2", 100}, {"abc", "abc", "abc", 0}, {"", "", "", 0}};
  auto& t = w[vs_choose("text", 12)]; metric_value x(t.text); metric_value n = -x, c = ~x; if (t.minus) vs_assert(std::string(n) == t.minus, "text-negation"); else vs_assert((long double)n == -t.value, "text-negation-value"); if (t.complement) vs_assert(std::string(c) == t.complement, "text-complement"); vs_assert(std::string(x) == t.text, "text-itself");
}
