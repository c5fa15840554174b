// bound: snapshots of 0 to 4 values (thorough: 5) with arbitrary integers up to 2^20 and doubles up to 1e6, sizes 0 to 40 with fixed values; up to 0, 1, 2, 3, 7 and unlimited samples; every number of samples up to 45 for snapshots of 10 values
// outside: how many samples short of the limit are made; rounding of the values beyond 1e-6 of the range
#include "h.h"
struct Call { long double v, q; };
template <class T> static long double expect(const T* e, int n, long double q) { long double pos = q * (n + 1); int i = (int)pos; if (i < 1) return (long double)e[0]; if (i >= n) return (long double)e[n - 1]; return (long double)e[i - 1] + (pos - i) * ((long double)e[i] - (long double)e[i - 1]); }
template <class T> static void judge(const reservoir_snapshot& s, T* v, int n, size_t k, long double tol, bool values) {
  std::vector<Call> c; s.sample(k, [&](const metric_value& m, long double q) { c.push_back({static_cast<long double>(m), q}); });
  vs_assert(c.size() <= k, "at-most-k"); if (n < 2) { vs_assert(c.size() <= (size_t)n, "nothing-to-interpolate"); }
  if (n >= 3 && k > 0) vs_assert(!c.empty(), "samples-something");
  vs_sorted(v, n); long double lo = n ? (long double)v[0] : 0, hi = n ? (long double)v[n - 1] : 0;
  for (size_t i = 0; i < c.size(); i++) {
    vs_assert(c[i].q > 0 && c[i].q <= 100.0001L, "quantile-range"); if (i) vs_assert(c[i].q > c[i - 1].q, "quantiles-increase");
    vs_assert(c[i].v >= lo - tol && c[i].v <= hi + tol, "between-extremes"); if (i) vs_assert(c[i].v >= c[i - 1].v - tol, "values-never-decrease");
    if (values) { long double x = expect(v, n, c[i].q / 100); vs_assert(c[i].v >= x - tol && c[i].v <= x + tol, "value-at-its-quantile"); }
  }
}
template <int N> static void ints(size_t k) { int64_t v[N]; for (auto& x : v) x = vs_range("v", -(1 << 20), 1 << 20); reservoir_snapshot s(v, N); judge(s, v, N, k, 0.01L, true); }
static size_t some() { static const size_t ks[] = {0, 1, 2, 3, 7, ~(size_t)0}; return ks[vs_choose("k", 6)]; }
VS_ENTRY(two) { ints<2>(some()); }
VS_ENTRY(three) { ints<3>(some()); }
VS_ENTRY(four) { ints<4>(some()); }
#ifdef VS_THOROUGH
VS_ENTRY(five) { ints<5>(some()); }
#endif
VS_ENTRY(none) { reservoir_snapshot s((const int64_t*)nullptr, 0); int64_t v[1]; judge(s, v, 0, some(), 0, true); }
VS_ENTRY(one) { int64_t v[1] = {vs_any<int64_t>("v")}; reservoir_snapshot s(v, 1); judge(s, v, 1, some(), 0, true); }
VS_ENTRY(doubles) { double v[3]; for (auto& x : v) x = vs_double("v", -1e6, 1e6); reservoir_snapshot s(v, 3); judge(s, v, 3, some(), 0.01L, true); }
VS_ENTRY(unsigned_values) { uint8_t v[3]; for (auto& x : v) x = vs_any<uint8_t>("v"); reservoir_snapshot s(v, 3); judge(s, v, 3, some(), 1e-6L, true); }
VS_ENTRY(sizes) { int n = vs_choose("n", 41); int64_t v[40]; for (int i = 0; i < n; i++) v[i] = (i * 7 % 41) * 5; reservoir_snapshot s(v, n); judge(s, v, n, some(), 1e-6L, true); }
VS_ENTRY(limits) { int64_t v[10]; for (int i = 0; i < 10; i++) v[i] = i * i; v[4] = vs_range("x", 0, 100); reservoir_snapshot s(v, 10); judge(s, v, 10, (size_t)vs_choose("k", 46), 1e-6L, true); }
VS_ENTRY(spread) { // many values, few samples: they are spread over the whole range
  int64_t v[99]; for (int i = 0; i < 99; i++) v[i] = i; reservoir_snapshot s(v, 99); int k = 1 + vs_choose("k", 9); std::vector<Call> c; s.sample(k, [&](const metric_value& m, long double q) { c.push_back({static_cast<long double>(m), q}); });
  vs_assert((int)c.size() == k, "as-many-as-asked"); bool ok = true; for (int i = 0; i < k; i++) { long double d = c[i].q - 100.0L * (i + 1) / (k + 1); ok &= d < 1e-6L && d > -1e-6L; } vs_assert(ok, "evenly-spread"); }
VS_ENTRY(full_range) { int64_t v[3]; for (auto& x : v) x = vs_any<int64_t>("v"); reservoir_snapshot s(v, 3); judge(s, v, 3, 1, 64, false); }
VS_ENTRY(through_histogram) { histogram<int64_t, simple_reservoir<int64_t, 3>> h; int64_t v[3]; for (auto& x : v) { x = vs_range("v", -1000, 1000); h.update(x); } judge(h.snapshot(), v, 3, some(), 1e-6L, true); }
