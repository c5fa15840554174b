// bound: all values of the eight integer types, float, double, long double (finite; up to 2^62 when read as an integer), durations of five units with all 64 bit counts that fit in nanoseconds; text of up to 4 arbitrary bytes; decimal texts of up to 4 digits with sign (thorough: 6), and decimal fractions of up to 3 digits; the decimal form of every number of up to 3 digits (thorough: 4) and of the extremes of each type
// outside: the text of floating numbers beyond a list of concrete ones (formatting is the C library's); NaN and infinities; text in other notations than decimal
#include "h.h"
using std::chrono::microseconds; using std::chrono::milliseconds; using std::chrono::seconds; using std::chrono::minutes; using std::chrono::hours; using std::chrono::duration_cast;
template <class F> static void pick(std::initializer_list<F> fs) { int k = vs_choose("pair", (int)fs.size()); int i = 0; for (F f : fs) if (i++ == k) f(); }
typedef void (*Fn)();
#define ALL(f) pick<Fn>({f<int8_t>, f<uint8_t>, f<int16_t>, f<uint16_t>, f<int32_t>, f<uint32_t>, f<int64_t>, f<uint64_t>})
template <class T, class U> static bool holds(T v) { return std::is_signed<T>::value == std::is_signed<U>::value ? sizeof(U) >= sizeof(T) : std::is_signed<U>::value && sizeof(U) > sizeof(T); }
template <class T, class U> static void as(const metric_value& m, T v) { if (holds<T, U>(v)) vs_assert((U)m == (U)v, "wider-integer"); }
template <class T> static void ints() {
  T v = vs_any<T>("v"); metric_value m(v); vs_assert((T)m == v, "same-integer"); as<T, int8_t>(m, v); as<T, uint8_t>(m, v); as<T, int16_t>(m, v); as<T, uint16_t>(m, v); as<T, int32_t>(m, v); as<T, uint32_t>(m, v); as<T, int64_t>(m, v); as<T, uint64_t>(m, v);
  vs_assert((long double)m == (long double)v, "integer-as-long-double"); if (sizeof(T) <= 4) vs_assert((double)m == (double)v, "integer-as-double"); if (sizeof(T) <= 2) vs_assert((float)m == (float)v, "integer-as-float");
  metric_value c(m), d(0), e(std::string("text")); vs_assert((T)c == v, "copied-integer"); d = std::move(c); vs_assert((T)d == v, "assigned-integer"); e = metric_value(m); vs_assert((T)e == v, "assigned-over-text"); metric_value f(std::move(d)); vs_assert((T)f == v, "moved-integer"); T w = m; vs_assert(w == v, "implicit-integer");
}
VS_ENTRY(integers) { ALL(ints); }
VS_ENTRY(long_longs) { long long v = vs_any<long long>("v"); unsigned long long u = vs_any<unsigned long long>("u"); metric_value m(v), n(u); vs_assert((int64_t)m == (int64_t)v, "long-long"); vs_assert((uint64_t)n == (uint64_t)u, "unsigned-long-long"); bool b = vs_any<bool>("b"); vs_assert((int)(int32_t)metric_value(b) == (b ? 1 : 0), "boolean"); char c = vs_any<char>("c"); vs_assert((int8_t)metric_value(c) == (int8_t)c, "character"); }
VS_ENTRY(floats) {
  float f = vs_float("f", -3e38f, 3e38f); metric_value m(f); vs_assert((float)m == f, "same-float"); vs_assert((double)m == (double)f, "float-as-double"); vs_assert((long double)m == (long double)f, "float-as-long-double");
  double d = vs_double("d", -1e308, 1e308); metric_value n(d); vs_assert((double)n == d, "same-double"); vs_assert((long double)n == (long double)d, "double-as-long-double"); long double l = d; metric_value o(l); vs_assert((long double)o == l, "same-long-double"); vs_assert((double)o == d, "long-double-as-double");
  metric_value c(n), e(1); e = metric_value(n); vs_assert((double)c == d && (double)e == d, "copied-double"); double g = n; vs_assert(g == d, "implicit-double");
}
// reading a floating number as an integer: the nearest one
template <class F> static void nearest() {
  double m = sizeof(F) == 4 ? 1e6 : 1e12; F f = sizeof(F) == 4 ? (F)vs_float("f", (float)-m, (float)m) : (F)vs_double("f", -m, m); metric_value v(f); int64_t i = (int64_t)v; long double df = (long double)f - (long double)i; vs_assert(df <= 0.501L, "nearest-not-too-low"); vs_assert(df >= -0.501L, "nearest-not-too-high");
}
VS_ENTRY(rounds) { pick<Fn>({nearest<float>, nearest<double>, nearest<long double>}); }
VS_ENTRY(rounds_whole) { int64_t i = vs_range("i", -(1ll << 52), 1ll << 52); metric_value v((double)i); vs_assert((int64_t)v == i, "whole-double"); metric_value w((long double)i); vs_assert((int64_t)w == i, "whole-long-double"); int32_t s = (int32_t)vs_range("s", -(1 << 24), 1 << 24); metric_value x((float)s); vs_assert((int32_t)x == s, "whole-float"); int8_t b = (int8_t)vs_range("b", -128, 127); vs_assert((int8_t)metric_value((double)b) == b, "whole-to-narrow"); }
VS_ENTRY(half_way) { int64_t i = vs_range("i", -1000000, 1000000); double d = (double)i + 0.25; vs_assert((int64_t)metric_value(d) == i, "quarter-above"); d = (double)i - 0.25; vs_assert((int64_t)metric_value(d) == i, "quarter-below"); d = (double)i + 0.75; vs_assert((int64_t)metric_value(d) == i + 1, "three-quarters"); }
// durations keep their length
template <class D> static void durs() {
  int64_t u = duration_cast<nanoseconds>(D(1)).count(), m = INT64_MAX / u; int64_t p = vs_range("p", -m, m); D d(p); metric_value v(d); D e = v; vs_assert(e.count() == p, "same-duration"); nanoseconds n = v; vs_assert(n.count() == p * u, "finer-duration"); vs_assert(duration_cast<D>(v).count() == p, "cast-same"); vs_assert(duration_cast<nanoseconds>(v).count() == p * u, "cast-finer");
  seconds s = v; vs_assert(s.count() == p * u / 1000000000ll, "coarser-duration"); vs_assert(duration_cast<microseconds>(v).count() == p * u / 1000, "cast-microseconds"); metric_value c(v), x(0); x = metric_value(v); D f = c, g = x; vs_assert(f.count() == p && g.count() == p, "copied-duration");
}
VS_ENTRY(durations) { pick<Fn>({durs<nanoseconds>, durs<microseconds>, durs<milliseconds>, durs<seconds>, durs<minutes>, durs<hours>}); }
VS_ENTRY(durations32) { typedef std::chrono::duration<int32_t, std::milli> D; int32_t p = vs_any<int32_t>("p"); metric_value v{D(p)}; D e = v; vs_assert(e.count() == p, "short-duration"); nanoseconds n = v; vs_assert(n.count() == (int64_t)p * 1000000, "short-duration-finer"); }
// text comes back byte for byte, also through copies
VS_ENTRY(text) {
  int n = vs_choose("len", Q(4, 5)); std::string s; for (int i = 0; i < n; i++) s += (char)vs_any<char>("c"); metric_value m(s); std::string r = m; bool same = r.size() == s.size(); vs_assert(same, "text-length"); bool eq = true; for (int i = 0; i < n && same; i++) eq = eq & (r[i] == s[i]); vs_assert(eq, "text-bytes");
  metric_value c(m), d(5); d = metric_value(m); metric_value e(std::move(c)); std::string a = d, b = e; vs_assert(a == s && b == s, "text-copies"); vs_assert((std::string)m == s, "text-still-there");
}
VS_ENTRY(long_text) { std::string s(40, 'x'); s[17] = (char)vs_any<char>("c"); metric_value m(s), d("short"); { metric_value t(s); d = std::move(t); } std::string a = m, b = d; vs_assert(a == s && b == s, "long-text"); metric_value p(s.c_str()); std::string q = p; vs_assert(q == std::string(s.c_str()), "pointer-text"); }
// decimal notation
static std::string decimal(int64_t v) { uint64_t u = v < 0 ? 0 - (uint64_t)v : (uint64_t)v; std::string r; do { r = (char)('0' + u % 10) + r; u /= 10; } while (u); return v < 0 ? "-" + r : r; }
template <class T> static void form() { int64_t lim = Q(999, 9999); T v = (T)vs_range("v", std::is_signed<T>::value ? std::max<int64_t>(-lim, (int64_t)std::numeric_limits<T>::min()) : 0, sizeof(T) == 8 ? lim : std::min<int64_t>(lim, (int64_t)std::numeric_limits<T>::max())); metric_value m(v); std::string s = m; vs_assert(s == std::to_string(v), "decimal"); }
VS_ENTRY(forms) { ALL(form); }
VS_ENTRY(forms_duration) { int64_t v = vs_range("v", -999, 999); std::string s = metric_value(nanoseconds(v)), t = metric_value(seconds(v)); vs_assert(s == decimal(v) && t == decimal(v), "duration-decimal"); }
template <class T> static void extreme() { T v = vs_choose("max", 2) ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min(); std::string s = metric_value(v); vs_assert(s == std::to_string(v), "extreme-decimal"); }
VS_ENTRY(extremes) { ALL(extreme); std::string s = metric_value(INT64_MIN); vs_assert(s == "-9223372036854775808", "lowest"); std::string t = metric_value(UINT64_MAX); vs_assert(t == "18446744073709551615", "highest"); std::string f = metric_value(2.5), g = metric_value(-0.125f), h = metric_value(1234567.0L); vs_assert(f == "2.500000" && g == "-0.125000" && h == "1234567.000000", "float-decimal"); }
// streaming gives the text form
VS_ENTRY(streamed) { int64_t v = vs_range("v", -99, 999); std::ostringstream o; o << metric_value(v); vs_assert(o.str() == decimal(v), "streamed"); std::ostringstream p; p << metric_value("ab"); vs_assert(p.str() == "ab", "streamed-text"); }
// text that spells a number reads as that number
VS_ENTRY(spelled) {
  int n = 1 + vs_choose("digits", Q(4, 6)); bool neg = vs_choose("negative", 2); std::string s = neg ? "-" : ""; int64_t v = 0; for (int i = 0; i < n; i++) { int d = (int)vs_range("d", 0, 9); s += (char)('0' + d); v = v * 10 + d; } if (neg) v = -v; metric_value m(s);
  vs_assert((int64_t)m == v, "spelled-integer"); vs_assert((long double)m == (long double)v, "spelled-float"); nanoseconds k = m; vs_assert(k.count() == v, "spelled-duration"); if (!neg) vs_assert((uint64_t)m == (uint64_t)v, "spelled-unsigned"); vs_assert((std::string)m == s, "spelled-text");
}
VS_ENTRY(spelled_fraction) { int a = (int)vs_range("a", 0, 9), b = (int)vs_range("b", 0, 9), c = (int)vs_range("c", 0, 9); std::string s; s += (char)('0' + a); s += '.'; s += (char)('0' + b); s += (char)('0' + c); metric_value m(s); long double r = (long double)m, e = (a * 100 + b * 10 + c) / 100.0L; vs_assert(r <= e + 1e-9L, "fraction-not-too-big"); vs_assert(r >= e - 1e-9L, "fraction-not-too-small"); }
VS_ENTRY(spelled_extremes) { vs_assert((int64_t)metric_value("-9223372036854775808") == INT64_MIN, "spelled-lowest"); vs_assert((uint64_t)metric_value("18446744073709551615") == UINT64_MAX, "spelled-highest"); vs_assert((int64_t)metric_value("9223372036854775807") == INT64_MAX, "spelled-signed-highest"); }
// text of a number that is no whole one is read as the whole nanoseconds in it
VS_ENTRY(spelled_fractions) { static const struct { const char* t; int64_t ns; } f[] = {{"2.5", 2}, {"-3.9", -3}, {"0.99", 0}, {"1500.25", 1500}, {"1e3", 1000}, {"2500000000.5", 2500000000}, {"none", 0}, {"", 0}}; int i = vs_choose("text", 8); metric_value m(f[i].t); nanoseconds n = m; microseconds u = m; seconds s = m; vs_assert(n.count() == f[i].ns, "fraction-nanoseconds"); vs_assert(u.count() == f[i].ns / 1000 && s.count() == f[i].ns / 1000000000, "fraction-units"); vs_assert(std::chrono::duration_cast<microseconds>(m).count() == f[i].ns / 1000, "fraction-cast"); }
