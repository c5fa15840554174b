// bound: snapshots of up to 3 values each (thorough: 4 and 3) of integers, floats, nanoseconds and of different types, arbitrary counts of 32 bits, merged in both directions, into themselves one after another and with empty ones; sizes up to 8 each (thorough: 15) with one arbitrary value; aggregation of two and three histograms and of two timers in a registry
// outside: interpolated quantiles of different types merged; counts that overflow
// opt: * weight=1
#include "h.h"
template <class F> static void pick(std::initializer_list<F> fs) { int k = vs_choose("pair", (int)fs.size()); int i = 0; for (F f : fs) if (i++ == k) f(); }
typedef void (*Fn)();
static bool near(long double a, long double b, long double tol) { return (a - b <= tol) & (b - a <= tol); }
template <class T> static histogram_snapshot snap(const T* v, int n, uint64_t count) { return histogram_snapshot(reservoir_snapshot(v, (size_t)n), count); }
// the values at the ranks i/(n+1): up to the rounding of quantiles they are exactly the i-th values
template <class S> static void ranks(const S& s, const int64_t* v, int n) {
  std::vector<metric_value> q; if (n == 2) { q.emplace_back(s.template value<33.3333333_p>()); q.emplace_back(s.template value<66.6666667_p>()); } if (n == 3) { q.emplace_back(s.template value<25_p>()); q.emplace_back(s.template value<50_p>()); q.emplace_back(s.template value<75_p>()); } if (n == 4) { q.emplace_back(s.template value<20_p>()); q.emplace_back(s.template value<40_p>()); q.emplace_back(s.template value<60_p>()); q.emplace_back(s.template value<80_p>()); } if (n == 5) { q.emplace_back(s.template value<16.6666667_p>()); q.emplace_back(s.template value<33.3333333_p>()); q.emplace_back(s.template value<50_p>()); q.emplace_back(s.template value<66.6666667_p>()); q.emplace_back(s.template value<83.3333333_p>()); }
  for (size_t i = 0; i < q.size(); i++) vs_assert(near((long double)q[i], v[i], 0.01), "ranks");
}
template <class S> static void is(const S& s, int64_t* v, int n, uint64_t count) { vs_sorted(v, n); vs_assert(s.size() == (size_t)n, "size"); vs_assert(s.count() == count, "count"); if (n) { vs_assert(s.min() == metric_value(v[0]), "min"); vs_assert(s.max() == metric_value(v[n - 1]), "max"); int64_t t = 0; for (int i = 0; i < n; i++) t += v[i]; vs_assert(near((long double)s.mean(), (long double)t / n, 0.001), "mean"); } ranks(s, v, n); }
VS_ENTRY(pairs) {
  int n = vs_choose("n", 4), m = vs_choose("m", TH ? 4 : 3); int64_t v[8], w[8]; for (int i = 0; i < n + m; i++) w[i] = v[i] = vs_range("v", -100000, 100000); uint64_t a = vs_range("a", 0, UINT32_MAX), b = vs_range("b", 0, UINT32_MAX); histogram_snapshot x = snap(v, n, a), y = snap(v + n, m, b); bool other = vs_choose("other", 2); histogram_snapshot& z = other ? y : x; z.merge(other ? x : y); is(z, w, n + m, a + b); int64_t u[8]; for (int i = 0; i < 8; i++) u[i] = i < (other ? n : m) ? v[other ? i : n + i] : 0; is(other ? x : y, u, other ? n : m, other ? a : b);
}
VS_ENTRY(full) { int n = vs_choose("n", 3), m = 1 + vs_choose("m", 2); int64_t v[8]; for (int i = 0; i < n + m; i++) v[i] = vs_any<int64_t>("v"); histogram_snapshot x = snap(v, n, 5), y = snap(v + n, m, 6); x.merge(y); vs_sorted(v, n + m); vs_assert(x.min() == metric_value(v[0]) && x.max() == metric_value(v[n + m - 1]) && x.size() == size_t(n + m) && x.count() == 11, "full-range"); }
VS_ENTRY(floats) { int n = vs_choose("n", 3), m = vs_choose("m", 2); double v[4]; for (int i = 0; i < n + m; i++) v[i] = vs_double("v", -1e9, 1e9); histogram_snapshot x = snap(v, n, 1), y = snap(v + n, m, 2); x.merge(y); vs_sorted(v, n + m); vs_assert(x.size() == size_t(n + m) && x.count() == 3, "float-size"); if (n + m) vs_assert(x.min() == metric_value(v[0]) && x.max() == metric_value(v[n + m - 1]), "float-ends"); if (n + m == 3) vs_assert(near((long double)x.value<50_p>(), v[1], 1), "float-median"); }
VS_ENTRY(durations) { int n = vs_choose("n", 3), m = vs_choose("m", 2); int64_t v[4]; std::vector<nanoseconds> d; for (int i = 0; i < n + m; i++) { v[i] = vs_range("v", 0, 1ll << 40); d.emplace_back(v[i]); } histogram_snapshot x = snap(d.data(), n, 1), y = snap(d.data() + n, m, 2); x.merge(y); vs_sorted(v, n + m); vs_assert(x.size() == size_t(n + m) && x.count() == 3, "duration-size"); if (n + m) vs_assert(x.min() == metric_value(nanoseconds(v[0])) && x.max() == metric_value(nanoseconds(v[n + m - 1])), "duration-ends"); }
VS_ENTRY(mixed) { int32_t a = vs_any<int32_t>("a"), b = vs_any<int32_t>("b"); double c = vs_double("c", -1e9, 1e9); int32_t p[2] = {a, b}; histogram_snapshot x = snap(p, 2, 1), y = snap(&c, 1, 2); bool other = vs_choose("other", 2); histogram_snapshot& z = other ? y : x; z.merge(other ? x : y); double v[3] = {(double)a, (double)b, c}; vs_sorted(v, 3); vs_assert(z.min() == metric_value(v[0]) && z.max() == metric_value(v[2]) && z.size() == 3, "mixed-ends"); }
VS_ENTRY(three) { // merging one after another, in two groupings
  int64_t v[6], w[6]; int n[3], at = 0, total = 0; for (int& k : n) { k = vs_choose("n", 3); for (int i = 0; i < k; i++, total++) w[total] = v[total] = vs_range("v", -100000, 100000); } if (total > 5) return; histogram_snapshot x = snap(v, n[0], 1), y = snap(v + n[0], n[1], 20), z = snap(v + n[0] + n[1], n[2], 300); (void)at; if (vs_choose("nested", 2)) { y.merge(z); x.merge(y); } else { x.merge(y); x.merge(z); } is(x, w, total, 321);
}
VS_ENTRY(moved) { int64_t v[4], w[4]; for (int i = 0; i < 4; i++) w[i] = v[i] = vs_range("v", -100000, 100000); histogram_snapshot x = snap(v, 2, 7), y(std::move(x)), z = snap(v, 1, 1); z = std::move(y); z.merge(snap(v + 2, 2, 5)); is(z, w, 4, 12); }
typedef metrics_registry<> R; typedef simple_reservoir<int64_t, 2> S2; typedef simple_reservoir<nanoseconds, 2> D2;
VS_ENTRY(registry) { // aggregation in a registry: only what the reservoirs still hold, all updates counted
  R r; int n = 1 + vs_choose("tags", 2), k = 0; int64_t v[8]; uint64_t count = 0; for (int t = 0; t < n; t++) { auto h = r.histogram("h"_m, S2(), {{"t", t}}); int u = vs_choose("updates", 4); int64_t last[4]; for (int i = 0; i < u; i++) { h->update(last[i] = vs_range("v", -100000, 100000)); count++; } for (int i = u > 2 ? u - 2 : 0; i < u; i++) v[k++] = last[i]; } int calls = 0; r.visit_registered_metrics([&](const metric_path&, basic_registered_metric& m) { m.aggregate([&](const histogram_snapshot& s) { calls++; is(s, v, k, count); }); }); vs_assert(calls == 1, "aggregated-once");
}
VS_ENTRY(timers) { vs_steady_ns = 1000000000; R r; int64_t v[4]; int k = 0; for (int t = 0; t < 2; t++) { auto m = r.timer<1000000, std::chrono::steady_clock, D2, 5000000>("t"_m, D2(), {{"t", t}}); int u = vs_choose("updates", 3); for (int i = 0; i < u; i++) m->update(nanoseconds(v[k++] = vs_range("v", 1, 1ll << 40))); } vs_steady_ns += 1000000000; int calls = 0; r.visit_registered_metrics([&](const metric_path&, basic_registered_metric& m) { m.aggregate([&](const timer_snapshot& s) { calls++; vs_assert(s.count() == (uint64_t)k && s.size() == (size_t)k, "timer-count"); vs_sorted(v, k); if (k) vs_assert(s.min() == metric_value(nanoseconds(v[0])) && s.max() == metric_value(nanoseconds(v[k - 1])), "timer-ends"); vs_assert(near((long double)s.rate().value(), k / 2.0, 1e-9), "timer-mean-rate"); int n = 0; for (auto& p : s.rate()) { n++; vs_assert(near((long double)p.second, k / 2.0, 1e-9), "timer-rate"); } vs_assert(n == 1, "timer-rates"); }); }); vs_assert(calls == 1, "timer-aggregated-once"); }
// longer lists: sizes up to 12 each, one value arbitrary, the others interleaved or apart
VS_ENTRY(longer) { int n = vs_choose("n", Q(9, 16)), m = vs_choose("m", Q(9, 16)), how = vs_choose("how", 3); if (n + m == 0) return; int64_t v[32], w[32]; for (int i = 0; i < n; i++) v[i] = how == 0 ? i * 20 : how == 1 ? i : 1000 + i; for (int i = 0; i < m; i++) v[n + i] = how == 0 ? i * 20 + 10 : how == 1 ? 100 + i : i; v[m ? n + m / 2 : n / 2] = vs_range("v", -10, 2000); int64_t sum = 0; for (int i = 0; i < n + m; i++) { w[i] = v[i]; sum += v[i]; } histogram_snapshot x = snap(v, n, n + 7), y = snap(v + n, m, m + 9); x.merge(y); int k = n + m; vs_sorted(w, k); vs_assert(x.size() == (size_t)k && x.count() == uint64_t(k + 16), "longer-size"); vs_assert(x.min() == metric_value(w[0]) && x.max() == metric_value(w[k - 1]), "longer-ends"); vs_assert(near((long double)x.mean(), (long double)sum / k, 0.001), "longer-mean"); if (k % 2) vs_assert(near((long double)x.value<50_p>(), w[k / 2], 0.01), "longer-median"); if (k % 4 == 3) vs_assert(near((long double)x.value<25_p>(), w[k / 4], 0.01) & near((long double)x.value<75_p>(), w[k - 1 - k / 4], 0.01), "longer-quartiles"); }
