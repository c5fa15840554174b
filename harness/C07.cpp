// bound: up to 5 (thorough: 7) arbitrary values through each kind of reservoir (capacity 2 and 3), any number of intermediate snapshots; from two threads with 2 updates each, every interleaving
// outside: histograms that are moved or shared by more than two threads
#include "h.h"
template <class R> static void total(R&& r) {
  histogram<int64_t, R> h(std::move(r)); vs_assert(h.count() == 0, "starts-at-zero"); int n = vs_choose("n", Q(6, 8));
  for (int i = 0; i < n; i++) { int64_t v = vs_any<int64_t>("v"); vs_steady_ns += vs_range("dt", 0, 1ll << 40); h.update(v); if (vs_choose("look", 2)) { auto s = h.snapshot(); vs_assert(s.count() == (uint64_t)(i + 1), "count-on-the-way"); vs_assert(s.size() <= s.count(), "never-more-than-offered"); } }
  vs_assert(h.count() == (uint64_t)n, "count"); auto s = h.snapshot(); vs_assert(s.count() == (uint64_t)n, "snapshot-count"); 
}
VS_ENTRY(latest) { total(simple_reservoir<int64_t, 2>()); }
VS_ENTRY(uniform) { total(uniform_reservoir<int64_t, 2>()); }
VS_ENTRY(window) { total(sliding_window_reservoir<int64_t, 3>(nanoseconds(1000))); }
// a reservoir that already holds values: its content is part of the histogram, the total counts what passed through the histogram
VS_ENTRY(given_reservoir) {
  simple_reservoir<int64_t, 3> r; int k = vs_choose("k", 4); for (int i = 0; i < k; i++) r.update(100 + i); histogram<int64_t, simple_reservoir<int64_t, 3>> h(std::move(r)); int n = vs_choose("n", 4); for (int i = 0; i < n; i++) h.update(vs_range("v", 0, 50));
  auto s = h.snapshot(); vs_assert(s.count() == (uint64_t)n, "given-count"); vs_assert((int)s.size() == (n + k < 3 ? n + k : 3), "given-size");
}
// the snapshot is a photograph: later updates do not show in it
VS_ENTRY(frozen) {
  histogram<int64_t, simple_reservoir<int64_t, 2>> h; int64_t a = vs_any<int64_t>("a"), b = vs_any<int64_t>("b"); h.update(a); h.update(b); auto s = h.snapshot(); h.update(vs_any<int64_t>("c")); h.update(vs_any<int64_t>("d"));
  vs_assert(s.count() == 2 && s.size() == 2 && s.min() == metric_value(a < b ? a : b) && s.max() == metric_value(a < b ? b : a), "photograph");
}
template <class R> static void threads() {
  static histogram<int64_t, R> h; static int64_t v[4]; for (auto& x : v) x = vs_range("v", 1, 1000);
  auto t1 = [&] { h.update(v[0]); h.update(v[1]); }; auto t2 = [&] { h.update(v[2]); h.update(v[3]); }; vs_spawn(t1); vs_spawn(t2); vs_join();
  vs_assert(h.count() == 4, "concurrent-count"); auto s = h.snapshot(); vs_assert(s.count() == 4, "concurrent-snapshot-count");
}
VS_ENTRY(threads_latest) { threads<simple_reservoir<int64_t, 2>>(); }
VS_ENTRY(threads_uniform) { threads<uniform_reservoir<int64_t, 2>>(); }
VS_ENTRY(reader) { // a reader sees a total between what was complete before and what was begun
  static histogram<int64_t, simple_reservoir<int64_t, 2>> h; static uint64_t seen = 99; static size_t size = 99; auto t1 = [&] { h.update(5); h.update(6); }; auto t2 = [&] { auto s = h.snapshot(); seen = s.count(); size = s.size(); }; vs_spawn(t1); vs_spawn(t2); vs_join(); vs_assert(seen <= 2 && size <= 2, "reader"); vs_cover(seen == 1, "reader-in-the-middle"); }
