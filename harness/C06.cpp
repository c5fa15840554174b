// bound: capacities 2, 3 and 4 (thorough: 6); up to 2*capacity+1 offered values, each arbitrary; arbitrary non-negative time steps (up to 2^50 ns each) before every update and the snapshot, and for a clock that is set back, or updates of several threads that arrive late, steps of either sign; arbitrary window up to 2^50 ns; steady clock and a caller-supplied integer clock
// bound: capacities 10 and 32 with 0 to 32 given values at given times, an arbitrary window and moment of the snapshot
// outside: unsigned clocks whose time is smaller than the window; capacities beyond 6
#include "h.h"
template <class T> struct Rec { T v[32]; int64_t t[32]; int n = 0; };
template <class T> static void judge(const reservoir_snapshot& s, const Rec<T>& m, int cap, int64_t now, int64_t w, const char* size, const char* ext) {
  int from = m.n > cap ? m.n - cap : 0; int k = 0; T lo{}, hi{}; 
  for (int i = from; i < m.n; i++) if (m.t[i] >= now - w) { if (!k || m.v[i] < lo) lo = m.v[i]; if (!k || hi < m.v[i]) hi = m.v[i]; k++; }
  vs_assert((int)s.size() == k, size); if (k) vs_assert((s.min() == metric_value(lo)) & (s.max() == metric_value(hi)), ext);
}
const int64_t W = 1ll << 50;
template <int N, class T> static void seq(int maxn) {
  int64_t w = vs_range("window", 1, W); vs_steady_ns = vs_range("start", 0, W) + 2 * W;
  sliding_window_reservoir<T, N> r{nanoseconds(w)}; Rec<T> m; int n = vs_choose("n", maxn + 1);
  for (int i = 0; i < n; i++) { vs_steady_ns += vs_range("dt", 0, W); T x = vs_any<T>("v"); r.update(x); m.t[m.n] = vs_steady_ns; m.v[m.n++] = x; }
  vs_steady_ns += vs_range("dt", 0, W); judge(r.snapshot(), m, N, vs_steady_ns, w, "size", "extremes-inside-the-window");
}
VS_ENTRY(cap2) { seq<2, int64_t>(Q(4, 5)); }
VS_ENTRY(cap3) { seq<3, int64_t>(Q(4, 7)); }
VS_ENTRY(cap3u) { seq<3, uint16_t>(Q(4, 5)); }
VS_ENTRY(cap4) { seq<4, int32_t>(Q(5, 7)); }
// looking at the reservoir does not change it: later snapshots are right too, also after it was emptied by time
VS_ENTRY(observe_in_between) {
  int64_t w = vs_range("window", 1, W); vs_steady_ns = 2 * W; sliding_window_reservoir<int64_t, 2> r{nanoseconds(w)}; Rec<int64_t> m;
  for (int i = 0; i < Q(3, 4); i++) { vs_steady_ns += vs_range("dt", 0, W); int64_t x = vs_range("v", -1000, 1000); r.update(x); m.t[m.n] = vs_steady_ns; m.v[m.n++] = x; vs_steady_ns += vs_range("gap", 0, W); judge(r.snapshot(), m, 2, vs_steady_ns, w, "observed-size", "observed-extremes"); }
}
VS_ENTRY(copies) {
  int64_t w = vs_range("window", 1, W); vs_steady_ns = 2 * W; sliding_window_reservoir<int64_t, 2> r{nanoseconds(w)}; Rec<int64_t> m; int n = vs_choose("n", 4);
  for (int i = 0; i < n; i++) { vs_steady_ns += vs_range("dt", 0, W); int64_t x = vs_range("v", -1000, 1000); r.update(x); m.t[m.n] = vs_steady_ns; m.v[m.n++] = x; }
  sliding_window_reservoir<int64_t, 2> a(r), b{nanoseconds(5)}; int k = vs_choose("k", 3); for (int i = 0; i < k; i++) b.update(5000 + i); auto& res = (b = r); vs_assert(&res == &b, "assignment-result");
  vs_steady_ns += vs_range("gap", 0, W); judge(r.snapshot(), m, 2, vs_steady_ns, w, "original-size", "original-extremes"); judge(a.snapshot(), m, 2, vs_steady_ns, w, "copy-size", "copy-extremes"); judge(b.snapshot(), m, 2, vs_steady_ns, w, "assigned-size", "assigned-extremes");
  int64_t x = vs_range("v", -1000, 1000); a.update(x); b.update(x); m.t[m.n] = vs_steady_ns; m.v[m.n++] = x; vs_steady_ns += vs_range("gap", 0, W);
  judge(a.snapshot(), m, 2, vs_steady_ns, w, "copy-goes-on-size", "copy-goes-on"); judge(b.snapshot(), m, 2, vs_steady_ns, w, "assigned-goes-on-size", "assigned-goes-on"); m.n--; judge(r.snapshot(), m, 2, vs_steady_ns, w, "original-untouched-size", "original-untouched");
}
struct int_clock { int64_t* p; int64_t operator()() const noexcept { return *p; } };
VS_ENTRY(own_clock) {
  int64_t t = vs_range("start", -W, W), w = vs_range("window", 1, W); int_clock c{&t}; sliding_window_reservoir<double, 3, int_clock> r(w, c); Rec<double> m; int n = vs_choose("n", Q(4, 5));
  for (int i = 0; i < n; i++) { t += vs_range("dt", 0, W); double x = (double)vs_range("v", -1000000, 1000000); r.update(x); m.t[m.n] = t; m.v[m.n++] = x; }
  t += vs_range("dt", 0, W); judge(r.snapshot(), m, 3, t, w, "own-clock-size", "own-clock-extremes");
}
VS_ENTRY(default_window) { // one minute
  vs_steady_ns = vs_range("start", 0, W) + 2 * W; sliding_window_reservoir<int64_t, 2> r; Rec<int64_t> m; m.t[0] = vs_steady_ns; m.v[0] = 3; m.n = 1; r.update(3); vs_steady_ns += vs_range("dt", 0, W); judge(r.snapshot(), m, 2, vs_steady_ns, 60000000000ll, "minute", "minute-value"); }
VS_ENTRY(through_histogram) {
  int64_t w = vs_range("window", 1, W); vs_steady_ns = 2 * W; histogram<int64_t, sliding_window_reservoir<int64_t, 2>> h(sliding_window_reservoir<int64_t, 2>{nanoseconds(w)}); Rec<int64_t> m; int n = vs_choose("n", 4);
  for (int i = 0; i < n; i++) { vs_steady_ns += vs_range("dt", 0, W); int64_t x = vs_range("v", -1000, 1000); h.update(x); m.t[m.n] = vs_steady_ns; m.v[m.n++] = x; }
  vs_steady_ns += vs_range("gap", 0, W); auto s = h.snapshot(); judge(s, m, 2, vs_steady_ns, w, "histogram-size", "histogram-extremes"); vs_assert(s.count() == (uint64_t)n, "histogram-total"); 
}
// records whose times are not in order (a clock that was set back, or threads overtaking each other): each is judged by its own time
VS_ENTRY(out_of_order) {
  int64_t t = 0, w = vs_range("window", 1, W); int_clock c{&t}; sliding_window_reservoir<int64_t, 4, int_clock> r(w, c); Rec<int64_t> m; int n = Q(4, 5);
  for (int i = 0; i < n; i++) { t = vs_range("at", -W, W); int64_t x = vs_range("v", -1000, 1000); r.update(x); m.t[m.n] = t; m.v[m.n++] = x; }
  t = vs_range("at", -W, W); judge(r.snapshot(), m, 4, t, w, "out-of-order-size", "out-of-order-extremes");
}
// many records: every number that may have expired
VS_ENTRY(large) { int64_t w = vs_range("window", 1, 2000); vs_steady_ns = 1000000; sliding_window_reservoir<int64_t, 32> r{nanoseconds(w)}; Rec<int64_t> m; int n = vs_choose("n", Q(9, 33)) * Q(4, 1); for (int i = 0; i < n; i++) { vs_steady_ns += 10 + i % 3; r.update(i * 3); m.t[m.n] = vs_steady_ns; m.v[m.n++] = i * 3; } vs_steady_ns += vs_range("gap", 0, 500); judge(r.snapshot(), m, 32, vs_steady_ns, w, "large-size", "large-extremes"); }
VS_ENTRY(wrapped) { int64_t w = vs_range("window", 1, 2000); vs_steady_ns = 1000000; sliding_window_reservoir<int64_t, 10> r{nanoseconds(w)}; Rec<int64_t> m; int n = 10 + vs_choose("n", 22); for (int i = 0; i < n; i++) { vs_steady_ns += 10 + i % 3; r.update(i * 3); m.t[m.n] = vs_steady_ns; m.v[m.n++] = i * 3; } vs_steady_ns += vs_range("gap", 0, 500); judge(r.snapshot(), m, 10, vs_steady_ns, w, "wrapped-size", "wrapped-extremes"); }
VS_ENTRY(large300) {
  static const int ws[] = {1, 100, 5050, 25500, 25700, 30001, 40000}; int64_t w = ws[vs_choose("window", 7)]; vs_steady_ns = 1000000; sliding_window_reservoir<int64_t, 300> r{nanoseconds(w)}; static const int ns[] = {0, 255, 256, 257, 299, 300, 301, 600, 700}; int n = ns[vs_choose("n", 9)]; std::vector<int64_t> t(n + 1); for (int i = 0; i < n; i++) { vs_steady_ns += 100; t[i] = vs_steady_ns; r.update(i); } vs_steady_ns += vs_range("gap", 0, 150);
  int64_t now = vs_steady_ns, want = 0, first = n; for (int i = n < 300 ? 0 : n - 300; i < n; i++) { bool in = t[i] >= now - w; want += in; first = in & (i < first) ? i : first; } auto s = r.snapshot(); vs_assert((int64_t)s.size() == want, "large300-size"); if (s.size()) vs_assert(s.min() == metric_value(first) && s.max() == metric_value((int64_t)n - 1), "large300-extremes");
}
