// bound: snapshots of 0 to 4 values (thorough: 5; 8 and 17 concrete-sized for one symbolic value), arbitrary 64, 32 and 16 bit integers, doubles up to 1e12, nanosecond durations; quantiles 0, 1, 10, 25, 50, 75, 90, 99, 99.9 and 100; both ways of building a snapshot and every reservoir
// outside: interpolation is compared up to a rounding of 1e-9 of the range (quantiles are encoded in 32 bits); text values; durations whose tick is not a nanosecond
#include "h.h"
template <quantile::value P> static long double at(const reservoir_snapshot& s) { return static_cast<long double>(s.template value<P>()); }
// position q*(n+1) between the sorted values
template <class T> static long double expect(const T* e, int n, long double q) { long double pos = q * (n + 1); int i = (int)pos; if (i < 1) return (long double)e[0]; if (i >= n) return (long double)e[n - 1]; return (long double)e[i - 1] + (pos - i) * ((long double)e[i] - (long double)e[i - 1]); }
template <class T> static bool near(long double got, const T* e, int n, long double q, long double tol) { long double x = expect(e, n, q); return got <= x + tol && got >= x - tol; }
// where the position falls on a value up to the encoding of the quantile, either neighbour formula is within the tolerance
template <class T> static void judge(const reservoir_snapshot& s, T* v, int n, long double tol) {
  vs_assert((int)s.size() == n, "size"); vs_sorted(v, n);
  vs_assert(s.min() == metric_value(v[0]) && s.max() == metric_value(v[n - 1]), "extremes");
  vs_assert(near(at<0_p>(s), v, n, 0, tol), "q0"); vs_assert(near(at<10_p>(s), v, n, 0.10L, tol), "q10"); vs_assert(near(at<25_p>(s), v, n, 0.25L, tol), "q25"); vs_assert(near(at<50_p>(s), v, n, 0.5L, tol), "q50"); vs_assert(near(at<75_p>(s), v, n, 0.75L, tol), "q75");
  vs_assert(near(at<90_p>(s), v, n, 0.90L, tol), "q90"); vs_assert(near(at<99_p>(s), v, n, 0.99L, tol), "q99"); vs_assert(near(at<100_p>(s), v, n, 1, tol), "q100");
}
template <int N> static void ints() { int64_t v[N]; for (auto& x : v) x = vs_range("v", -(1 << 20), 1 << 20); reservoir_snapshot s(v, N); judge(s, v, N, 0.01L); }
VS_ENTRY(one) { ints<1>(); }
VS_ENTRY(two) { ints<2>(); }
VS_ENTRY(three) { ints<3>(); }
VS_ENTRY(four) { ints<4>(); }
#ifdef VS_THOROUGH
VS_ENTRY(five) { ints<5>(); }
VS_ENTRY(six) { ints<6>(); }
#endif
VS_ENTRY(small_unsigned) { uint16_t v[3]; for (auto& x : v) x = vs_any<uint16_t>("v"); reservoir_snapshot s(v, 3); judge(s, v, 3, 0.001L); }
VS_ENTRY(small_signed) { int8_t v[3]; for (auto& x : v) x = vs_any<int8_t>("v"); reservoir_snapshot s(v, 3); judge(s, v, 3, 0.001L); }
VS_ENTRY(doubles) { double v[3]; for (auto& x : v) x = vs_double("v", -1e12, 1e12); reservoir_snapshot s(v, 3); judge(s, v, 3, 3000); }
VS_ENTRY(floats) { float v[3]; for (auto& x : v) x = vs_float("v", -1000, 1000); reservoir_snapshot s(v, 3); judge(s, v, 3, 1e-3L); }
VS_ENTRY(durations) {
  nanoseconds d[3]; int64_t v[3]; for (int i = 0; i < 3; i++) { v[i] = vs_range("v", -(1ll << 40), 1ll << 40); d[i] = nanoseconds(v[i]); } reservoir_snapshot s(d, 3); vs_sorted(v, 3);
  vs_assert((nanoseconds)s.min() == nanoseconds(v[0]) && (nanoseconds)s.max() == nanoseconds(v[2]), "duration-extremes"); int64_t m = ((nanoseconds)s.value<50_p>()).count(); vs_assert(m >= v[1] - 1100 && m <= v[1] + 1100, "duration-median"); }
// between the extremes and never decreasing, for every 64 bit value
template <class T, int N> static void hull(long double tol) {
  T v[N]; for (auto& x : v) x = vs_any<T>("v"); reservoir_snapshot s(v, N); long double lo = (long double)s.min(), hi = (long double)s.max(); bool in = true;
  vs_assert(lo <= hi, "min-below-max");
  for (auto x : v) in &= lo <= (long double)x && (long double)x <= hi; vs_assert(in, "extremes-enclose");
  long double q[] = {at<0_p>(s), at<10_p>(s), at<50_p>(s), at<75_p>(s), at<99_p>(s), at<100_p>(s)};
  for (int i = 0; i < 6; i++) { vs_assert(q[i] >= lo - tol, "above-the-minimum"); vs_assert(q[i] <= hi + tol, "below-the-maximum"); if (i) vs_assert(q[i] >= q[i - 1] - tol, "never-decreasing"); }
  vs_assert(q[0] == lo && q[5] == hi, "ends-are-the-extremes");
}
VS_ENTRY(hull64) { hull<int64_t, 3>(64); }
VS_ENTRY(hullu64) { hull<uint64_t, 3>(64); }
VS_ENTRY(hull2) { hull<int64_t, 2>(64); }
VS_ENTRY(hull4) { hull<int32_t, 4>(1e-3L); }
// the order of arrival does not matter, nor how the snapshot was built
VS_ENTRY(order) {
  int64_t a = vs_range("a", -(1 << 20), 1 << 20), b = vs_range("b", -(1 << 20), 1 << 20), c = vs_range("c", -(1 << 20), 1 << 20); int64_t v[3] = {a, b, c}; static const int perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}; int p = vs_choose("p", 6); std::vector<int64_t> w{v[perm[p][0]], v[perm[p][1]], v[perm[p][2]]};
  reservoir_snapshot s(v, 3), t(w.begin(), w.end(), 3); vs_assert(s.min() == t.min() && s.max() == t.max(), "order-extremes"); vs_assert(s.value<50_p>() == t.value<50_p>() && s.value<25_p>() == t.value<25_p>() && s.value<75_p>() == t.value<75_p>(), "order-quantiles");
}
VS_ENTRY(empty) { // zero, and the widest possible extremes
  reservoir_snapshot s((const int64_t*)nullptr, 0); simple_reservoir<int, 4> r; auto t = r.snapshot();
  vs_assert(s.size() == 0 && s.value<0_p>() == metric_value(0) && s.value<50_p>() == metric_value(0) && s.value<100_p>() == metric_value(0), "empty"); vs_assert(t.size() == 0 && t.value<99_p>() == metric_value(0) && t.mean() == metric_value(0), "empty-reservoir"); }
VS_ENTRY(limited) { // never more values than asked for
  int64_t v[4]; for (auto& x : v) x = vs_range("v", -1000, 1000); std::vector<int64_t> w(v, v + 4); int n = vs_choose("n", 6); reservoir_snapshot s(w.begin(), w.end(), n); int k = n < 4 ? n : 4; vs_assert((int)s.size() == k, "limited-size"); int64_t u[4]; for (int i = 0; i < k; i++) u[i] = v[i]; vs_sorted(u, k); if (k) vs_assert(s.min() == metric_value(u[0]) && s.max() == metric_value(u[k - 1]), "limited-extremes"); }
VS_ENTRY(moved) {
  int64_t v[3]; for (auto& x : v) x = vs_any<int64_t>("v"); reservoir_snapshot a(v, 3), b(v, 1), keep(v, 3); reservoir_snapshot c(std::move(a)); vs_assert(c.size() == 3 && c.min() == keep.min() && c.max() == keep.max(), "moved"); b = std::move(c); vs_assert(b.size() == 3 && b.min() == keep.min() && b.value<50_p>() == keep.value<50_p>(), "move-assigned"); }
// larger snapshots: one arbitrary value among others
template <int N> static void big() {
  int64_t v[N]; for (int i = 0; i < N; i++) v[i] = (i * 7) % N * 10; int64_t x = vs_range("x", -100, N * 10 + 100); v[N / 2] = x; reservoir_snapshot s(v, N); vs_sorted(v, N); judge(s, v, N, 0.001L); vs_assert(near(at<99.9_p>(s), v, N, 0.999L, 0.001L), "q99.9"); }
VS_ENTRY(big8) { big<8>(); }
VS_ENTRY(big20) { big<20>(); }
// through the reservoirs
template <class R> static void through(R&& r) { int64_t v[3]; for (auto& x : v) { x = vs_range("v", -100000, 100000); r.update(x); } auto s = r.snapshot(); judge(s, v, 3, 0.001L); }
VS_ENTRY(from_latest) { through(simple_reservoir<int64_t, 3>()); }
VS_ENTRY(from_uniform) { through(uniform_reservoir<int64_t, 3>()); }
VS_ENTRY(from_window) { through(sliding_window_reservoir<int64_t, 3>(nanoseconds(1000))); }
// beyond eight bits of positions: ranks in a long run of values, one of them arbitrary within its place
VS_ENTRY(long_runs) {
  static const int ns[] = {255, 256, 257, 300, 512, 1000}; int n = ns[vs_choose("n", 6)], place = vs_choose("place", 5) * (n - 1) / 4; int64_t x = vs_range("x", -400, 400); std::vector<int64_t> v(n); for (int i = 0; i < n; i++) v[i] = 1000 * i; v[place] += x; std::vector<int64_t> w(v.rbegin(), v.rend()); reservoir_snapshot s(w.begin(), w.end(), n);
  vs_assert((int)s.size() == n && s.min() == metric_value(v[0]) && s.max() == metric_value(v[n - 1]), "long-extremes"); int64_t* d = v.data(); const long double tol = 1e-3L * n; // quantiles are encoded in 32 bits
  vs_assert(near(at<25_p>(s), d, n, 0.25L, tol), "long-q25"); vs_assert(near(at<50_p>(s), d, n, 0.5L, tol), "long-q50"); vs_assert(near(at<75_p>(s), d, n, 0.75L, tol), "long-q75"); vs_assert(near(at<99_p>(s), d, n, 0.99L, tol), "long-q99"); vs_assert(near(at<99.9_p>(s), d, n, 0.999L, tol), "long-q99.9");
}
