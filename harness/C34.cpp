// bound: snapshots of 0, 1, 3 and 5 arbitrary values; lists of 1 to 20 quantiles in different orders with repetitions, fractions and the two ends; the defaults; options of histograms and timers, moved and assigned
// outside: empty lists of quantiles (they do not compile)
#include "h.h"
template <class F> static void pick(std::initializer_list<F> fs) { int k = vs_choose("pair", (int)fs.size()); int i = 0; for (F f : fs) if (i++ == k) f(); }
typedef void (*Fn)();
static bool near(long double a, long double b, long double tol) { return (a - b <= tol) & (b - a <= tol); }
struct seen { long double q; metric_value v; };
static histogram_snapshot snap() { static const int ns[] = {0, 1, 3, 5}; int n = ns[vs_choose("size", 4)]; int64_t v[5]; for (int i = 0; i < n; i++) v[i] = vs_range("v", -1000000, 1000000); return histogram_snapshot(reservoir_snapshot(v, (size_t)n), n); }
template <quantile::value... Qs> static void is(const basic_quantile_options& o, const histogram_snapshot& s, std::initializer_list<long double> expect, std::initializer_list<metric_value> values) {
  std::vector<seen> got; o.visit(s, [&](const quantile& q, metric_value&& v) { got.push_back(seen{q.percentile(), std::move(v)}); }); vs_assert(got.size() == expect.size(), "number-of-quantiles"); size_t i = 0; for (long double e : expect) { vs_assert(near(got[i].q, e, 1e-6), "in-order"); i++; } i = 0; for (auto& v : values) { vs_assert(got[i].v == v, "value"); i++; }
}
VS_ENTRY(sorted) { histogram_snapshot s = snap(); is(quantile_options<50_p, 90_p, 99_p>(), s, {50, 90, 99}, {s.value<50_p>(), s.value<90_p>(), s.value<99_p>()}); }
VS_ENTRY(reversed) { histogram_snapshot s = snap(); is(quantile_options<99_p, 90_p, 50_p, 10_p>(), s, {10, 50, 90, 99}, {s.value<10_p>(), s.value<50_p>(), s.value<90_p>(), s.value<99_p>()}); }
VS_ENTRY(repeated) { histogram_snapshot s = snap(); is(quantile_options<75_p, 25_p, 75_p, 75_p, 25_p>(), s, {25, 75}, {s.value<25_p>(), s.value<75_p>()}); is(quantile_options<60_p, 60_p>(), s, {60}, {s.value<60_p>()}); }
VS_ENTRY(repeated_ends) { histogram_snapshot s = snap(); is(quantile_options<100_p, 0_p, 50_p, 100_p, 0_p>(), s, {0, 50, 100}, {s.size() ? s.min() : metric_value(0), s.value<50_p>(), s.size() ? s.max() : metric_value(0)}); }
VS_ENTRY(fractions) { histogram_snapshot s = snap(); is(quantile_options<99.9_p, 99.99_p, 0.5_p, 99.9_p, 12.25_p, 99_p>(), s, {0.5, 12.25, 99, 99.9, 99.99}, {s.value<0.5_p>(), s.value<12.25_p>(), s.value<99_p>(), s.value<99.9_p>(), s.value<99.99_p>()}); }
VS_ENTRY(single) { histogram_snapshot s = snap(); is(quantile_options<33_p>(), s, {33}, {s.value<33_p>()}); is(quantile_options<0_p>(), s, {0}, {s.size() ? s.min() : metric_value(0)}); is(quantile_options<100_p>(), s, {100}, {s.size() ? s.max() : metric_value(0)}); }
VS_ENTRY(longer) { histogram_snapshot s = snap(); is(quantile_options<5_p, 95_p, 15_p, 85_p, 25_p, 75_p, 35_p, 65_p, 45_p, 55_p>(), s, {5, 15, 25, 35, 45, 55, 65, 75, 85, 95}, {s.value<5_p>(), s.value<15_p>(), s.value<25_p>(), s.value<35_p>(), s.value<45_p>(), s.value<55_p>(), s.value<65_p>(), s.value<75_p>(), s.value<85_p>(), s.value<95_p>()}); }
// through the options of histograms and timers
template <class O> static void defaults(const O& o, const histogram_snapshot& s) { is(*o.quantiles(), s, {50, 90, 99}, {s.value<50_p>(), s.value<90_p>(), s.value<99_p>()}); }
VS_ENTRY(unconfigured) { histogram_snapshot s = snap(); defaults(histogram_publish_options(), s); defaults(histogram_publish_options(false), s); defaults(histogram_publish_options(true, true), s); defaults(histogram_publish_options(scale_factor(2)), s); defaults(timer_publish_options(), s); defaults(timer_publish_options(false, false, false), s); publish_options o; defaults(o.histogram_options(), s); defaults(o.timer_options(), s); }
template <class O> static void configured(const O& o, const histogram_snapshot& s) { is(*o.quantiles(), s, {20, 95}, {s.value<20_p>(), s.value<95_p>()}); }
typedef quantile_options<95_p, 20_p, 95_p> QO;
VS_ENTRY(through_options) { histogram_snapshot s = snap(); histogram_publish_options h(QO{}, vs_choose("count", 2), vs_choose("dist", 2)); configured(h, s); histogram_publish_options g(std::move(h)), k; configured(g, s); k = std::move(g); configured(k, s); timer_publish_options t(QO{}, vs_choose("rates", 2)); configured(t, s); timer_publish_options u(std::move(t)), w; configured(u, s); w = std::move(u); configured(w, s); timer_publish_options x(QO{}, true, true, false); configured(x, s); publish_options o(std::move(k), std::move(w)); configured(o.histogram_options(), s); configured(o.timer_options(), s); publish_options p(std::move(o)), q; configured(p.histogram_options(), s); q = std::move(p); configured(q.timer_options(), s); configured(q.histogram_options(), s); }
VS_ENTRY(shared) { histogram_snapshot s = snap(); std::shared_ptr<basic_quantile_options> q; { histogram_publish_options h(QO{}); q = h.quantiles(); } is(*q, s, {20, 95}, {s.value<20_p>(), s.value<95_p>()}); }
VS_ENTRY(many) { histogram_snapshot s = snap(); is(quantile_options<40_p, 95_p, 15_p, 85_p, 25_p, 75_p, 35_p, 65_p, 45_p, 55_p, 95_p, 40_p, 5_p, 1_p, 99.99_p, 99.9_p, 1_p, 1_p, 60_p, 5_p>(), s, {1, 5, 15, 25, 35, 40, 45, 55, 60, 65, 75, 85, 95, 99.9, 99.99}, {s.value<1_p>(), s.value<5_p>(), s.value<15_p>(), s.value<25_p>(), s.value<35_p>(), s.value<40_p>(), s.value<45_p>(), s.value<55_p>(), s.value<60_p>(), s.value<65_p>(), s.value<75_p>(), s.value<85_p>(), s.value<95_p>(), s.value<99.9_p>(), s.value<99.99_p>()}); }
