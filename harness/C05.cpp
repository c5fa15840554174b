// bound: capacities 1, 2, 3 and 4 (thorough: 5); up to 2*capacity+1 offered values (64, 32 and 16 bit, each arbitrary); every random draw is arbitrary; copies and assignment at any moment
// outside: the statistical distribution of the draws (the random source is replaced by an arbitrary choice); concurrent updates (an element may then be read before it is written)
#include "h.h"
template <class T> static bool among(const metric_value& m, const T* v, int n) { bool r = false; for (int i = 0; i < n; i++) r = r | (m == metric_value(v[i])); return r; }
template <class T> static void mm(const T* v, int n, T& lo, T& hi) { lo = hi = v[0]; for (int i = 1; i < n; i++) { if (v[i] < lo) lo = v[i]; if (hi < v[i]) hi = v[i]; } }
// while not full everything offered is kept; afterwards the size stays at the capacity and only offered values are kept
template <int N, class T> static void seq(int maxn) {
  uniform_reservoir<T, N> r; T v[32]; int n = vs_choose("n", maxn + 1);
  for (int i = 0; i < n; i++) { v[i] = vs_any<T>("v"); r.update(v[i]); }
  auto s = r.snapshot(); vs_assert((int)s.size() == (n < N ? n : N), "size");
  if (!n) return;
  T lo, hi; mm(v, n, lo, hi);
  if (n <= N) { vs_assert(s.min() == metric_value(lo) && s.max() == metric_value(hi), "everything-while-not-full"); return; }
  vs_assert(among(s.min(), v, n) && among(s.max(), v, n), "only-offered");
  vs_assert(s.min() >= metric_value(lo) && s.max() <= metric_value(hi), "inside-offered");
}
VS_ENTRY(cap1) { seq<1, int64_t>(3); }
VS_ENTRY(cap2) { seq<2, int64_t>(4); }
VS_ENTRY(cap3) { seq<3, int64_t>(5); }
VS_ENTRY(cap4) { seq<4, int32_t>(Q(5, 7)); }
VS_ENTRY(cap3u) { seq<3, uint16_t>(Q(5, 6)); }
#ifdef VS_THOROUGH
VS_ENTRY(cap5) { seq<5, int64_t>(7); }
#endif
// a value offered to a full reservoir takes the place of at most one kept value; the others stay
VS_ENTRY(step2) {
  uniform_reservoir<int64_t, 2> r; int n = 2 + vs_choose("n", 3); for (int i = 0; i < n; i++) r.update(vs_any<int64_t>("v"));
  auto s = r.snapshot(); metric_value a = s.min(), b = s.max(); int64_t x = vs_any<int64_t>("w"); metric_value m(x); r.update(x); auto t = r.snapshot();
  vs_assert(t.size() == 2, "step-size");
  metric_value c = t.min(), d = t.max();
  auto pair = [&](const metric_value& p, const metric_value& q) { return ((c == p) & (d == q)) | ((c == q) & (d == p)); };
  vs_assert(pair(a, b) | pair(m, b) | pair(a, m), "one-replaced");
}
template <int N> static void step(int extra) {
  uniform_reservoir<int64_t, N> r; int n = N + vs_choose("n", extra + 1); for (int i = 0; i < n; i++) r.update(vs_range("v", 0, 100));
  auto s = r.snapshot(); metric_value a = s.min(), b = s.max(); r.update(1000); auto t = r.snapshot(); vs_assert(t.size() == N, "step-size");
  // a value larger than all others: at most one of the old extremes leaves
  vs_assert(t.max() == metric_value(1000) || t.max() == b, "newest-or-unchanged");
  vs_assert(t.min() == a || t.max() == metric_value(1000), "minimum-only-replaced-by-the-new");
  r.update(2000); r.update(3000); auto u = r.snapshot(); vs_assert(u.size() == N && (N < 4 || u.min() <= metric_value(100)), "at-most-one-each");
}
VS_ENTRY(step3) { step<3>(1); }
VS_ENTRY(step4) { step<4>(1); }
// no place is exempt: any kept value can be displaced by a later one, and the new one does get in
template <int N> static void slots() {
  uniform_reservoir<int64_t, N> r; int k = vs_choose("slot", N); for (int i = 0; i < N; i++) r.update(i == k ? 7 : 1000);
  r.update(2000); auto s = r.snapshot(); 
  bool gone = s.min() != metric_value(7) && s.max() == metric_value(2000);
  if (k == 0) vs_cover(gone, "slot0"); if (k == 1) vs_cover(gone, "slot1"); if (k == 2) vs_cover(gone, "slot2"); if (k == 3) vs_cover(gone, "slot3");
  vs_cover(s.min() == metric_value(7), "slot-survives");
}
VS_ENTRY(slots4) { slots<4>(); }
VS_ENTRY(copies) {
  uniform_reservoir<int64_t, 2> r; int n = vs_choose("n", 4); for (int i = 0; i < n; i++) r.update(vs_any<int64_t>("v"));
  auto s = r.snapshot(); uniform_reservoir<int64_t, 2> a(r), b; int k = vs_choose("k", 4); for (int i = 0; i < k; i++) b.update(i); b = r;
  auto sa = a.snapshot(), sb = b.snapshot();
  vs_assert(sa.size() == s.size() && sa.min() == s.min() && sa.max() == s.max(), "copy-equal"); vs_assert(sb.size() == s.size() && sb.min() == s.min() && sb.max() == s.max(), "assigned-equal");
  int64_t x = vs_any<int64_t>("w"); a.update(x); b.update(x); auto ta = a.snapshot(), tb = b.snapshot(), t = r.snapshot();
  vs_assert((int)ta.size() == (n + 1 < 2 ? n + 1 : 2) && (int)tb.size() == (n + 1 < 2 ? n + 1 : 2), "copy-goes-on");
  vs_assert(t.size() == s.size() && t.min() == s.min() && t.max() == s.max(), "original-untouched");
  if (n == 0) vs_assert(ta.min() == metric_value(x) && tb.min() == metric_value(x), "copy-accepts");
  if (n == 1) { auto lo = s.min() < metric_value(x) ? s.min() : metric_value(x); vs_assert(ta.min() == lo && tb.min() == lo, "copy-keeps"); }
}
VS_ENTRY(through_histogram) {
  histogram<int64_t, uniform_reservoir<int64_t, 3>> h; int64_t v[8]; int n = vs_choose("n", 5); for (int i = 0; i < n; i++) { v[i] = vs_any<int64_t>("v"); h.update(v[i]); }
  auto s = h.snapshot(); vs_assert((int)s.size() == (n < 3 ? n : 3) && s.count() == (uint64_t)n, "histogram-size"); if (n) vs_assert(among(s.min(), v, n) && among(s.max(), v, n), "histogram-only-offered");
}
// the default capacity
VS_ENTRY(cap1024) { histogram<int64_t> h; for (int i = 0; i < 1023; i++) h.update(0); int64_t x = vs_range("x", 1, 200); h.update(x); auto s = h.snapshot(); vs_assert(s.size() == 1024 && s.count() == 1024, "default-size"); vs_assert(s.min() == metric_value(0) && s.max() == metric_value(x), "default-values"); }
// beyond eight bits of positions: everything offered is kept up to the capacity, and one draw afterwards displaces one value
VS_ENTRY(large300) {
  uniform_reservoir<int64_t, 300> r; static const int ns[] = {0, 1, 255, 256, 257, 299, 300}; int n = ns[vs_choose("n", 7)]; int64_t x = vs_range("v", 1 << 20, 1ll << 40), sum = 0; for (int i = 0; i < n; i++) { int64_t v = i == n / 2 ? x : i; r.update(v); if (i != n / 2) sum += v; }
  auto s = r.snapshot(); vs_assert((int)s.size() == n, "large-size"); if (!n) return; long double m = s.mean(), e = ((long double)sum + x) / n; vs_assert(s.max() == metric_value(x), "large-newest"); vs_assert(n == 1 || s.min() == metric_value(0), "large-oldest"); vs_assert((m - e < 1e-2L) & (e - m < 1e-2L), "large-mean");
  if (n == 300) { int k = 0; r.update(-5); auto t = r.snapshot(); vs_assert(t.size() == 300, "large-full-size"); vs_assert(t.min() >= metric_value(-5 - k) && t.max() <= metric_value(x), "large-only-offered"); }
}
