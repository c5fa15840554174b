// bound: capacities 2, 3 and 5 (thorough: 7); up to 2*capacity+1 offered values, each arbitrary (64 bits); copies and assignments at any moment; capacities 16 and 50 with every number of updates up to twice that (quick: every seventh), one value arbitrary; values offered afterwards
// outside: capacities beyond 7
#include "h.h"
template <int N, class T> struct Model { T v[64]; int n = 0; void add(T x) { v[n++] = x; } int size() const { return n < N ? n : N; } T kept(int i) const { return v[n - size() + i]; } };
template <int N, class T> static bool same(const reservoir_snapshot& s, const Model<N, T>& m) {
  T e[N]; int k = m.size(); if ((int)s.size() != k) return false;
  for (int i = 0; i < k; i++) e[i] = m.kept(i);
  T lo = k ? e[0] : 0, hi = lo; for (int i = 1; i < k; i++) { if (e[i] < lo) lo = e[i]; if (hi < e[i]) hi = e[i]; }
  return k == 0 || (s.min() == metric_value(lo) && s.max() == metric_value(hi));
}
template <int N, class T> static void seq(int maxn) {
  simple_reservoir<T, N> r; Model<N, T> m; int n = vs_choose("n", maxn + 1);
  for (int i = 0; i < n; i++) { T x = vs_any<T>("v"); r.update(x); m.add(x); }
  auto s = r.snapshot(); vs_assert((int)s.size() == m.size(), "size");
  vs_assert(same(s, m), "extremes-of-the-latest");
}
VS_ENTRY(cap2) { seq<2, int64_t>(5); }
VS_ENTRY(cap3) { seq<3, int64_t>(7); }
VS_ENTRY(cap5) { seq<5, int64_t>(Q(7, 11)); }
VS_ENTRY(cap3u) { seq<3, uint16_t>(7); }
#ifdef VS_THOROUGH
VS_ENTRY(cap7) { seq<7, int32_t>(15); }
#endif
template <int N> static void copies(int pre, int post) {
  simple_reservoir<int64_t, N> r; Model<N, int64_t> m; int n = vs_choose("n", pre + 1);
  for (int i = 0; i < n; i++) { int64_t x = vs_any<int64_t>("v"); r.update(x); m.add(x); }
  simple_reservoir<int64_t, N> a(r); Model<N, int64_t> ma = m;
  simple_reservoir<int64_t, N> b; int k = vs_choose("k", 3); for (int i = 0; i < k; i++) b.update(i);
  simple_reservoir<int64_t, N>& res = (b = r); vs_assert(&res == &b, "assignment-result"); Model<N, int64_t> mb = m;
  vs_assert(same(a.snapshot(), m), "copy-equal"); vs_assert(same(b.snapshot(), m), "assigned-equal");
  int p = vs_choose("p", post + 1);
  for (int i = 0; i < p; i++) { int64_t x = vs_any<int64_t>("w"); a.update(x); ma.add(x); b.update(x); mb.add(x); }
  vs_assert(same(a.snapshot(), ma), "copy-goes-on"); vs_assert(same(b.snapshot(), mb), "assigned-goes-on"); vs_assert(same(r.snapshot(), m), "original-untouched");
  auto& self = r; r = self; vs_assert(same(r.snapshot(), m), "self-assignment");
}
VS_ENTRY(copies2) { copies<2>(4, 3); }
VS_ENTRY(copies3) { copies<3>(Q(4, 6), Q(2, 4)); }
VS_ENTRY(through_histogram) {
  histogram<int64_t, simple_reservoir<int64_t, 3>> h; Model<3, int64_t> m; int n = vs_choose("n", 6);
  for (int i = 0; i < n; i++) { int64_t x = vs_any<int64_t>("v"); h.update(x); m.add(x); }
  auto s = h.snapshot(); vs_assert(same(s, m), "histogram-window"); vs_assert(s.count() == (uint64_t)n, "histogram-total");
}
// larger capacities: the position in the ring of one arbitrary value, for every number of updates
template <int N> static void large(int step) { simple_reservoir<int64_t, N> r; int n = vs_choose("n", 2 * N / step + 2) * step, at = n ? n - 1 - vs_choose("back", 3) * (N / 2) : 0; Model<N, int64_t> m; for (int i = 0; i < n; i++) { int64_t x = i == at ? vs_any<int64_t>("v") : i * 7; r.update(x); if (m.n == 64) { for (int k = 0; k < 63; k++) m.v[k] = m.v[k + 1]; m.n--; } m.add(x); } int k = n < N ? n : N; auto s = r.snapshot(); vs_assert((int)s.size() == k, "large-size"); int64_t lo = 0, hi = 0; for (int i = 0; i < k; i++) { int64_t x = m.v[m.n - k + i]; if (!i || x < lo) lo = x; if (!i || hi < x) hi = x; } if (k) vs_assert(s.min() == metric_value(lo) && s.max() == metric_value(hi), "large-extremes"); }
VS_ENTRY(large16) { large<16>(1); }
VS_ENTRY(large50) { large<50>(Q(7, 1)); }
// beyond eight bits of positions: runs that end at, next to and far beyond the capacity, one value above all others anywhere in the last run
VS_ENTRY(large300) {
  simple_reservoir<int64_t, 300> r; static const int ns[] = {255, 256, 257, 299, 300, 301, 512, 556, 599, 600, 601, TH ? 66000 : 1500}; int n = ns[vs_choose("n", 12)], back = vs_choose("back", 4) * 99, at = n - 1 - (back < n ? back : 0); int64_t x = vs_range("v", 1 << 20, 1ll << 40);
  for (int i = 0; i < n; i++) r.update(i == at ? x : i); int k = n < 300 ? n : 300; auto s = r.snapshot(); int64_t lo = n - k == at ? n - k + 1 : n - k; vs_assert((int)s.size() == k, "large300-size"); vs_assert(s.max() == metric_value(x), "large300-newest"); vs_assert(s.min() == metric_value(lo), "large300-oldest");
  double sum = 0; for (int i = n - k; i < n; i++) if (i != at) sum += i; long double m = s.mean(), e = (sum + x) / k; vs_assert((m - e < 1e-2L) & (e - m < 1e-2L), "large300-mean");
}
VS_ENTRY(large300_copies) { simple_reservoir<int32_t, 300> r; int n = vs_choose("n", 4) * 150 + vs_choose("odd", 2); for (int i = 0; i < n; i++) r.update(i); simple_reservoir<int32_t, 300> c(r), d; d.update(-1); d = r; int k = n < 300 ? n : 300; auto s = c.snapshot(), t = d.snapshot(); vs_assert((int)s.size() == k && (int)t.size() == k, "large300-copy-size"); if (k) vs_assert(s.min() == metric_value(n - k) && s.max() == metric_value(n - 1) && t.min() == s.min() && t.max() == s.max() && t.mean() == s.mean(), "large300-copy"); c.update(1 << 20); vs_assert(c.snapshot().max() == metric_value(1 << 20) && (int)c.snapshot().size() == (k < 300 ? k + 1 : 300), "large300-copy-goes-on"); }
