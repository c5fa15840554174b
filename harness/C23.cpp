// bound: up to 3 (thorough: 4) tagged counters, gauges of both aggregations and of integers and floats, averages and meters with arbitrary values; 1 to 20 (thorough: 40) counters or gauges and up to 9 (thorough: 19) meters of which one has an arbitrary value; averages over up to 4 groups of up to 3 samples merged in different orders
// outside: sums that overflow; text gauges
#include "h.h"
template <class F> static void pick(std::initializer_list<F> fs) { int k = vs_choose("pair", (int)fs.size()); int i = 0; for (F f : fs) if (i++ == k) f(); }
typedef void (*Fn)();
typedef metrics_registry<> R;
const int64_t S = 1000000000ll;
static bool near(long double a, long double b, long double tol) { return (a - b <= tol) & (b - a <= tol); }
static tag_collection tagset(int t) { return tag_collection{{"k", t}}; }
struct got { int avg = 0, cum = 0, met = 0, his = 0, tim = 0; std::vector<metric_value> v; };
struct into { got* g; void operator()(const average_value_snapshot& s) const { g->avg++; g->v.emplace_back(s.value()); } void operator()(const cumulative_value_snapshot& s) const { g->cum++; g->v.emplace_back(s.value()); } void operator()(const meter_snapshot& s) const { g->met++; g->v.emplace_back(s.value()); std::vector<std::pair<int64_t, metric_value>> r; for (auto& p : s) r.emplace_back(p.first.count(), p.second); if (r.size() == 2 && r[0].first > r[1].first) std::swap(r[0], r[1]); for (auto& p : r) g->v.emplace_back(p.second); } void operator()(const histogram_snapshot& s) const { g->his++; } void operator()(const timer_snapshot& s) const { g->tim++; } };
template <class RR> static got all(RR& r) { got g; r.visit_registered_metrics([&](const metric_path&, basic_registered_metric& m) { m.aggregate(into{&g}); }); return g; }
template <class T> static T value() { return std::is_floating_point<T>::value ? (T)vs_double("v", -1e6, 1e6) : (T)vs_range("v", std::max<int64_t>(-1ll << 50, std::numeric_limits<T>::min() / 4), (int64_t)std::min<uint64_t>(1ull << 50, std::numeric_limits<T>::max() / 4)); }
VS_ENTRY(counters) { R r; int n = 1 + vs_choose("n", Q(3, 4)); int64_t sum = 0; for (int i = 0; i < n; i++) { int64_t v = vs_range("v", -1ll << 60, 1ll << 60); r.counter("p"_m, (int64_t)v, tagset(i)); sum += v; } got g = ::all(r); vs_assert(g.cum == 1 && !g.avg && !g.met && !g.his && !g.tim, "one-sum"); vs_assert(g.v[0] == metric_value(sum), "sum"); g = ::all(r); vs_assert(g.v.size() == 1 && g.v[0] == metric_value(sum), "sum-again"); }
template <class T> static void sums() { R r; int n = 1 + vs_choose("n", 3); T sum = 0; for (int i = 0; i < n; i++) { T v = value<T>(); r.gauge<T, gauges::aggregation_sum>("p"_m, T(v), tagset(i)); sum += v; } got g = ::all(r); vs_assert(g.cum == 1 && !g.avg, "one-gauge-sum"); if (std::is_floating_point<T>::value) vs_assert(near((long double)g.v[0], sum, 1e-6), "float-gauge-sum"); else vs_assert(g.v[0] == metric_value(sum), "gauge-sum"); }
VS_ENTRY(gauge_sums) { pick<Fn>({sums<int64_t>, sums<int>, sums<uint32_t>, sums<int16_t>, sums<double>}); }
template <class T> static void averages() { R r; int n = 1 + vs_choose("n", Q(3, 4)); long double sum = 0; for (int i = 0; i < n; i++) { T v = value<T>(); r.gauge<T>("p"_m, T(v), tagset(i)); sum += v; } got g = ::all(r); vs_assert(g.avg == 1 && !g.cum, "one-average"); long double e = sum / n; vs_assert(near((long double)g.v[0], e, std::is_floating_point<T>::value ? 1e-6 : 1e-2), "average"); }
VS_ENTRY(gauge_averages) { pick<Fn>({averages<int64_t>, averages<int>, averages<uint32_t>, averages<int8_t>}); }
VS_ENTRY(gauge_averages_double) { averages<double>(); }
VS_ENTRY(gauge_averages_float) { R r; int n = 1 + vs_choose("n", 3); long double sum = 0; for (int i = 0; i < n; i++) { float v = vs_float("v", -1000, 1000); r.gauge<float>("p"_m, float(v), tagset(i)); sum += v; } got g = ::all(r); vs_assert(g.avg == 1, "one-float-average"); vs_assert(near((long double)g.v[0], sum / n, 0.01), "float-average"); }
VS_ENTRY(moving_averages) { vs_steady_ns = S; R r; int n = 1 + vs_choose("n", 3); long double sum = 0; for (int i = 0; i < n; i++) { double v = vs_double("v", 0.5, 1000); auto e = r.ewma<5000000>("p"_m, tagset(i)); e->mark(v); sum += v; } vs_steady_ns += S; got g = ::all(r); vs_assert(g.avg == 1, "one-moving-average"); vs_assert(near((long double)g.v[0], sum / n, 1e-6), "moving-average"); }
VS_ENTRY(meters) { vs_steady_ns = S; R r; int n = 1 + vs_choose("n", 3); int64_t sum = 0; for (int i = 0; i < n; i++) { int64_t v = vs_range("v", 1, 1000000); auto e = r.meter<1000000, 5000000, 60000000>("p"_m, tagset(i)); e->mark(v); sum += v; } vs_steady_ns += S; got g = ::all(r); vs_assert(g.met == 1 && g.v.size() == 3, "one-meter"); for (auto& v : g.v) vs_assert(near((long double)v, (long double)sum / n, 1e-6), "meter-mean-and-rates"); }
VS_ENTRY(histograms) { R r; typedef simple_reservoir<int64_t, 4> S4; int n = 1 + vs_choose("n", 3), k = 0; for (int i = 0; i < n; i++) { auto h = r.histogram("p"_m, S4(), tagset(i)); int m = vs_choose("updates", 3); for (int j = 0; j < m; j++, k++) h->update(vs_any<int64_t>("v")); } uint64_t count = 99, size = 99; int calls = 0; r.visit_registered_metrics([&](const metric_path&, basic_registered_metric& m) { m.aggregate([&](const histogram_snapshot& s) { calls++; count = s.count(); size = s.size(); }); }); vs_assert(calls == 1, "one-histogram"); vs_assert(count == (uint64_t)k && size == (uint64_t)k, "all-values"); }
VS_ENTRY(none) { registered_metric<counter<int64_t>> c("c"); registered_metric<meter<1000000, 5000000>> m("m"); registered_metric<histogram<int64_t, simple_reservoir<int64_t, 4>>> h("h"); got g; c.aggregate(into{&g}); m.aggregate(into{&g}); h.aggregate(into{&g}); vs_assert(g.avg + g.cum + g.met + g.his + g.tim == 0, "nothing-to-aggregate"); }
VS_ENTRY(separate) { R r; int64_t a = vs_any<int64_t>("a"), b = vs_any<int64_t>("b"); r.counter("p"_m, (int64_t)a, tagset(1)); r.counter("q"_m, (int64_t)b, tagset(1)); int n = 0; r.visit_registered_metrics([&](const metric_path& p, basic_registered_metric& m) { m.aggregate([&](const cumulative_value_snapshot& s) { n++; vs_assert(s.value() == metric_value(p == "p"_m ? a : b), "own-sum"); }); }); vs_assert(n == 2, "each-path"); }
// merging averages: groups of k samples each, in any order
static average_value_snapshot group(double* v, int k) { average_value_snapshot s{metric_value(v[0])}; for (int i = 1; i < k; i++) s.merge(average_value_snapshot(metric_value(v[i]))); return s; }
VS_ENTRY(weights) {
  double v[6]; long double sum = 0; for (double& x : v) x = vs_double("v", -1e6, 1e6); int a = 1 + vs_choose("first", 3), b = 1 + vs_choose("second", 3); average_value_snapshot x = group(v, a), y = group(v + a, b); for (int i = 0; i < a + b; i++) sum += v[i]; bool other = vs_choose("other", 2); average_value_snapshot& z = other ? y : x; z.merge(other ? x : y); vs_assert(near((long double)z.value(), sum / (a + b), 1e-6), "weighted-average"); average_value_snapshot w{metric_value(0.0)}; w.merge(z); vs_assert(near((long double)w.value(), sum / (a + b + 1), 1e-6), "weighted-again");
}
VS_ENTRY(orders) { // three groups, every order
  double v[4]; for (double& x : v) x = vs_double("v", -1e6, 1e6); static const int ps[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}; const int* p = ps[vs_choose("order", 6)]; auto make = [&](int i) { return i == 0 ? group(v, 2) : group(v + i + 1, 1); }; average_value_snapshot s = make(p[0]), t = make(p[1]), u = make(p[2]); if (vs_choose("nested", 2)) { t.merge(u); s.merge(t); } else { s.merge(t); s.merge(u); } vs_assert(near((long double)s.value(), ((long double)v[0] + v[1] + v[2] + v[3]) / 4, 1e-6), "order-of-merging");
}
VS_ENTRY(moved) { double v[3]; for (double& x : v) x = vs_double("v", -1e6, 1e6); average_value_snapshot s = group(v, 2), t(std::move(s)), u{metric_value(1)}; u = std::move(t); u.merge(average_value_snapshot(metric_value(v[2]))); vs_assert(near((long double)u.value(), ((long double)v[0] + v[1] + v[2]) / 3, 1e-6), "samples-survive-moves"); }
typedef std::unordered_map<std::chrono::steady_clock::duration, metric_value> Map;
static meter_snapshot meterof(double mean, double five, double sixty) { Map m; m.emplace(std::chrono::seconds(5), metric_value(five)); if (sixty >= 0) m.emplace(std::chrono::seconds(60), metric_value(sixty)); return meter_snapshot(metric_value(mean), std::move(m)); }
static long double rate(const meter_snapshot& s, int sec) { for (auto& p : s) if (p.first == std::chrono::seconds(sec)) return (long double)p.second; return -1; }
VS_ENTRY(meter_merges) { int n = 2 + vs_choose("n", 2); double a[3], b[3], c[3]; for (int i = 0; i < 3; i++) a[i] = vs_double("a", 0, 1e6), b[i] = vs_double("b", 0, 1e6), c[i] = vs_double("c", 0, 1e6); meter_snapshot s = meterof(a[0], b[0], c[0]); bool nested = n == 3 && vs_choose("nested", 2); if (nested) { meter_snapshot t = meterof(a[1], b[1], c[1]); t.merge(meterof(a[2], b[2], c[2])); s.merge(t); } else for (int i = 1; i < n; i++) s.merge(meterof(a[i], b[i], c[i])); long double x = a[0] + (long double)a[1] + (n == 3 ? a[2] : 0), y = b[0] + (long double)b[1] + (n == 3 ? b[2] : 0), z = c[0] + (long double)c[1] + (n == 3 ? c[2] : 0); vs_assert(near((long double)s.value(), x / n, 1e-6), "mean-of-means"); vs_assert(near(rate(s, 5), y / n, 1e-6), "mean-of-rates"); vs_assert(near(rate(s, 60), z / n, 1e-6), "mean-of-other-rates"); meter_snapshot w(std::move(s)), u = meterof(0, 0, 0); u = std::move(w); u.merge(meterof(0, 0, 0)); vs_assert(near((long double)u.value(), x / (n + 1), 1e-6) & near(rate(u, 5), y / (n + 1), 1e-6), "meter-samples-survive-moves"); }
VS_ENTRY(sums_merge) { int64_t a = vs_range("a", -1ll << 60, 1ll << 60), b = vs_range("b", -1ll << 60, 1ll << 60), c = vs_range("c", -1ll << 60, 1ll << 60); cumulative_value_snapshot x{metric_value(a)}, y{metric_value(b)}, z{metric_value(c)}; x.merge(y); vs_assert(x == metric_value(a + b) && y == metric_value(b), "merge-sum"); y.merge(z); x.merge(z); vs_assert(x.value() == metric_value(a + b + c) && y == metric_value(b + c) && z == metric_value(c), "merge-sums"); vs_assert((x == y) == (a == 0) && (x != y) == (a != 0), "snapshot-comparison"); }
// many tag sets: none is left out
VS_ENTRY(many) { R r; int n = 1 + vs_choose("n", Q(20, 40)), kind = vs_choose("kind", 2), at = n > 1 ? n - 1 - vs_choose("back", 2) : 0; int64_t v = vs_range("v", -1ll << 40, 1ll << 40), sum = v; for (int i = 0; i < n; i++) { int64_t x = i == at ? v : i * 1000 + 1; if (i != at) sum += x; if (kind) r.gauge<int64_t, gauges::aggregation_average>("p"_m, int64_t(x), tagset(i)); else r.counter("p"_m, int64_t(x), tagset(i)); } got g = ::all(r); vs_assert(g.cum == (kind == 0) && g.avg == (kind == 1), "one-of-many"); if (kind) vs_assert(near((long double)g.v[0], (long double)sum / n, 1), "average-of-many"); else vs_assert(g.v[0] == metric_value(sum), "sum-of-many"); }
VS_ENTRY(many_meters) { vs_steady_ns = S; R r; int n = 4 + vs_choose("n", Q(6, 16)); int64_t sum = 0; for (int i = 0; i < n; i++) { int64_t v = i ? i * 1000 : vs_range("v", 1, 1000000); r.meter<1000000, 5000000, 60000000>("p"_m, tagset(i))->mark(v); sum += v; } vs_steady_ns += S; got g = ::all(r); vs_assert(g.met == 1 && g.v.size() == 3, "one-of-many-meters"); for (auto& v : g.v) vs_assert(near((long double)v, (long double)sum / n, 1e-3), "mean-of-many-meters"); }
