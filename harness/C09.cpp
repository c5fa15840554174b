// bound: 0 to 4 values (thorough: 6), arbitrary integers up to 2^30 (and full 64 bit within rounding), doubles up to 1e9, nanosecond durations, any order, every reservoir; a 12-value snapshot with two arbitrary values
// outside: rounding (compared up to 1e-9 of the range); text values; durations whose tick is not a nanosecond
#include "h.h"
static bool close(long double a, long double b, long double tol) { return a <= b + tol && a >= b - tol; }
template <class T, int N> static void ints(long double tol) {
  T v[N]; long double sum = 0; T lo, hi; for (int i = 0; i < N; i++) { v[i] = (T)vs_range("v", sizeof(T) < 4 ? (int64_t)std::numeric_limits<T>::min() : std::is_signed<T>::value ? -(1 << 30) : 0, sizeof(T) < 4 ? (int64_t)std::numeric_limits<T>::max() : 1 << 30); sum += v[i]; if (!i || v[i] < lo) lo = v[i]; if (!i || hi < v[i]) hi = v[i]; }
  reservoir_snapshot s(v, N); long double m = (long double)s.mean(); vs_assert(close(m, sum / N, tol), "average"); vs_assert(m >= (long double)lo - tol && m <= (long double)hi + tol, "between-extremes");
}
VS_ENTRY(one) { ints<int64_t, 1>(0); }
VS_ENTRY(two) { ints<int64_t, 2>(1e-6L); }
VS_ENTRY(three) { ints<int64_t, 3>(1e-6L); }
VS_ENTRY(four) { ints<int64_t, 4>(1e-6L); }
VS_ENTRY(three_u16) { ints<uint16_t, 3>(1e-6L); }
VS_ENTRY(three_i8) { ints<int8_t, 3>(1e-6L); }
VS_ENTRY(three_u64) { ints<uint64_t, 3>(1e-6L); }
VS_ENTRY(three_i32) { ints<int32_t, 3>(1e-6L); }
#ifdef VS_THOROUGH
VS_ENTRY(five) { ints<int64_t, 5>(1e-6L); }
VS_ENTRY(six) { ints<int32_t, 6>(1e-6L); }
#endif
VS_ENTRY(single_any) { int64_t x = vs_any<int64_t>("x"); reservoir_snapshot s(&x, 1); vs_assert(s.mean() == metric_value(x), "single"); double d = vs_double("d", -1e300, 1e300); reservoir_snapshot t(&d, 1); vs_assert(t.mean() == metric_value(d), "single-double"); nanoseconds n(x); reservoir_snapshot u(&n, 1); vs_assert(u.mean() == metric_value(n), "single-duration"); }
VS_ENTRY(full_range) { int64_t v[2] = {vs_any<int64_t>("a"), vs_any<int64_t>("b")}; reservoir_snapshot s(v, 2); long double m = (long double)s.mean(); vs_assert(close(m, (long double)v[0] / 2 + (long double)v[1] / 2, 64), "full-range"); }
VS_ENTRY(doubles) { double v[3]; for (auto& x : v) x = vs_double("v", -1e9, 1e9); reservoir_snapshot s(v, 3); long double m = (long double)s.mean(); vs_assert(close(m, ((long double)v[0] + v[1] + v[2]) / 3, 1e-6L), "average-double"); }
VS_ENTRY(floats) { float v[2]; for (auto& x : v) x = vs_float("v", -1e6f, 1e6f); reservoir_snapshot s(v, 2); long double m = (long double)s.mean(); vs_assert(close(m, ((long double)v[0] + v[1]) / 2, 1e-6L), "average-float"); }
VS_ENTRY(durations) { nanoseconds v[3]; long double sum = 0; for (auto& x : v) { int64_t n = vs_range("v", -(1 << 20), 1 << 20); x = nanoseconds(n); sum += n; } reservoir_snapshot s(v, 3); int64_t m = ((nanoseconds)s.mean()).count(); vs_assert(close((long double)m, sum / 3, 1.001L), "average-duration"); }
VS_ENTRY(order) { int64_t a = vs_range("a", -1000, 1000), b = vs_range("b", -1000, 1000), c = vs_range("c", -1000, 1000); int64_t v[3] = {a, b, c}, w[3] = {c, a, b}; reservoir_snapshot s(v, 3), t(w, 3); vs_assert(close((long double)s.mean(), (long double)t.mean(), 1e-9L), "order"); }
VS_ENTRY(empty) { reservoir_snapshot s((const double*)nullptr, 0); vs_assert(s.mean() == metric_value(0), "empty"); simple_reservoir<double, 3> r; vs_assert(r.snapshot().mean() == metric_value(0), "empty-reservoir"); histogram<int64_t> h; vs_assert(h.snapshot().mean() == metric_value(0), "empty-histogram"); }
VS_ENTRY(twelve) { int64_t v[12]; long double sum = 0; for (int i = 0; i < 12; i++) v[i] = i * i * 3 - 40; v[3] = vs_range("a", -1000, 1000); v[8] = TH ? vs_range("b", -1000, 1000) : 17; for (auto x : v) sum += x; reservoir_snapshot s(v, 12); vs_assert(close((long double)s.mean(), sum / 12, 1e-9L), "twelve"); }
template <class R> static void through(R&& r) { long double sum = 0; for (int i = 0; i < 3; i++) { int64_t x = vs_range("v", -100000, 100000); r.update(x); sum += x; } vs_assert(close((long double)r.snapshot().mean(), sum / 3, 1e-9L), "through-reservoir"); }
VS_ENTRY(from_latest) { through(simple_reservoir<int64_t, 3>()); }
VS_ENTRY(from_uniform) { through(uniform_reservoir<int64_t, 3>()); }
VS_ENTRY(from_window) { through(sliding_window_reservoir<int64_t, 3>(nanoseconds(1000))); }
// many values: the last one arbitrary, the others one of two levels; merged histograms reach sizes beyond any reservoir
VS_ENTRY(many) {
  static const int sizes[] = {1024, 1025, 1300, TH ? 4100 : 2100}; int n = sizes[vs_choose("size", 4)], k = vs_choose("low", 2) ? n / 3 : n - 40; std::vector<double> v(n); long double sum = 0;
  for (int i = 0; i < n; i++) v[i] = i < k ? -2 : 50; v[n - 1] = vs_double("x", 50, 1e9); for (auto x : v) sum += x;
  reservoir_snapshot s(v.data(), n); vs_assert(close((long double)s.mean(), sum / n, 1e-6L), "many"); }
