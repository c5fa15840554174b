// bound: values in -50..50 for counters, gauges, function gauges, averages and histograms of 2 values, timers of 2 runs of 0 to 30 microseconds; seven scale factors or none; every combination of the option flags; 0 to 2 tags, up to 3 tag sets of one metric, and a registry with all kinds of metrics together
// outside: the scaling of counts (a scaled or an unscaled count is accepted) and of texts; digits beyond the sixth decimal
// opt: * weight=2
#include "page.h"
// factors, in eighths
static const int f8s[] = {8, 8, 16, -24, 4, 8000, 1, 0};
static int scale(scale_factor& s) { int k = vs_choose("scale", 8); if (k) s = scale_factor(f8s[k] / 8.0); return f8s[k]; }
static publish_options values(const scale_factor& s) { return publish_options(value_publish_options(s), meter_publish_options(s), histogram_publish_options(s), timer_publish_options(true, s)); }
static void set(R& r, publish_options&& o, const metric_path& p) { if (vs_choose("own", 2)) r.publish_options(p, std::move(o)); else r.publish_options(std::move(o)); }
static int64_t val(const char* n) { return vs_range(n, -1000000, 1000000); }

static num of(int64_t v, const scale_factor& s, int f8) { return s ? millionths(v * 125000 * f8) : whole(v); }
VS_ENTRY(counters) { R r; int64_t v = val("v"); int tags = vs_choose("tags", 3); tag_collection t; if (tags == 1) t = {{"k", "x"}}; else if (tags == 2) t = {{"k", "x"}, {"l", 7}}; r.counter("p"_m / "q"_m, std::move(v), t); scale_factor s; int f = scale(s); ::set(r, values(s), "p"_m / "q"_m); page g = ::publish(r); typed(g, "p:q untyped"); vs_assert(g.types.size() == 1, "no-other-header"); if (tags == 0) take(g, "p:q", {}, of(v, s, f)); else if (tags == 1) take(g, "p:q", {{"k", "x"}}, of(v, s, f)); else take(g, "p:q", {{"k", "x"}, {"l", "7"}}, of(v, s, f)); done(g); if (!s) vs_assert(!g.samples[0].value.decimals, "unscaled-as-it-is"); }
VS_ENTRY(any_integer) { R r; switch (vs_choose("type", 6)) { case 0: { int64_t v = vs_any<int64_t>("v"); r.counter("p"_m, std::move(v)); take(*new page(::publish(r)), "p", {}, whole(v)); break; } case 1: { int v = vs_any<int>("v"); r.gauge("p"_m, +v); take(*new page(::publish(r)), "p", {}, whole(v)); break; } case 2: { int64_t v = vs_any<int64_t>("v"); r.gauge("p"_m, +v); take(*new page(::publish(r)), "p", {}, whole(v)); break; } case 3: { int64_t v = vs_any<int64_t>("v"); auto h = r.histogram("p"_m, S2()); h->update(v); page g = ::publish(r); for (const char* q : {"0.5", "0.9", "0.99"}) take(g, "p", {{"quantile", q}}, whole(v)); break; } case 4: { uint32_t v = vs_any<uint32_t>("v"); r.gauge("p"_m, +v); take(*new page(::publish(r)), "p", {}, whole(v)); break; } default: { int64_t v = vs_any<int64_t>("v"); r.gauge("p"_m, std::function<int64_t()>([v] { return v; })); take(*new page(::publish(r)), "p", {}, whole(v)); } } }
VS_ENTRY(odd_factors) { R r; int64_t v = vs_range("v", -Q(9, 60), Q(9, 60)); r.counter("p"_m, std::move(v)); bool small = vs_choose("small", 2); r.publish_options(values(scale_factor(small ? 0.001 : 1.1))); page g = ::publish(r); take(g, "p", {}, millionths(v * (small ? 1000 : 1100000))); }
VS_ENTRY(tag_sets) { R r; int64_t v = val("v"), w = 1000; int n = 1 + vs_choose("sets", 3); *r.counter("p"_m, {{"k", "x"}}) += v; if (n > 1) *r.counter("p"_m, {{"k", "y"}}) += w; if (n > 2) *r.counter("p"_m) += 5; int again = vs_choose("again", 3); if (again) { ::publish(r); *r.counter("p"_m, {{"k", "x"}}) += again; v += again; } page g = ::publish(r); typed(g, "p untyped"); vs_assert(g.types.size() == 1, "one-header-for-all-sets"); take(g, "p", {{"k", "x"}}, whole(v)); if (n > 1) take(g, "p", {{"k", "y"}}, whole(w)); if (n > 2) take(g, "p", {}, whole(5)); done(g); }
VS_ENTRY(gauges) { R r; int64_t v = val("v"); scale_factor s; int f = scale(s); num e = of(v, s, f); switch (vs_choose("gauge", 4)) { case 0: r.gauge("p"_m, +v); break; case 1: r.gauge("p"_m, std::function<int64_t()>([v] { return v; })); break; case 2: r.gauge("p"_m, v / 8.0); e = millionths(v * 15625 * f); if (f == 1) vs_assume((v & 7) == 0); break; default: r.gauge("p"_m, (int64_t)0)->set(v); } ::set(r, values(s), "p"_m); page g = ::publish(r); typed(g, "p gauge"); take(g, "p", {}, e); done(g); }
VS_ENTRY(averages) { R r; vs_steady_ns = S; auto e = r.ewma<5000000>("p"_m); static const int64_t vs[] = {0, 6, -7, 1000}; int64_t v = vs[vs_choose("v", Q(2, 4))]; e->mark(v); vs_steady_ns += 6 * S; e->rate(); double x = e->rate(); scale_factor s; int f = scale(s); ::set(r, values(s), "p"_m); page g = ::publish(r); typed(g, "p gauge"); take(g, "p", {}, about(x * f / 8)); done(g); }
static const char* const qs[] = {"0.5", "0.9", "0.99"}; static const char* const ql[] = {"0", "0.25", "1"};
typedef quantile_options<100_p, 0_p, 25_p> QL;
// quantiles of two values, by hand: 0.25 is the lower one, 0.5 between, 0.9 and above the higher one
static void quants(page& g, const char* nm, bool listed, num lo, num mid, num hi, bool tag) { for (int i = 0; i < 3; i++) { num v = listed ? (i < 2 ? lo : hi) : i == 0 ? mid : hi; const char* q = listed ? ql[i] : qs[i]; if (tag) take(g, nm, {{"quantile", q}, {"k", "x"}}, v); else take(g, nm, {{"quantile", q}}, v); } }
VS_ENTRY(histograms) {
  R r; bool tag = vs_choose("tag", 2); auto h = tag ? r.histogram("p"_m, S2(), {{"k", "x"}}) : r.histogram("p"_m, S2()); static const int ap[] = {0, 1, 6, 400}; int64_t a = vs_range("a", -Q(30, 9999), Q(99, 9999)), b = a + ap[vs_choose("apart", Q(2, 4))]; int extra = Q(tag, vs_choose("extra", 2)); if (extra) h->update(99); h->update(b); h->update(a); bool count = true, listed = false; scale_factor s; int f = 8;
  switch (vs_choose("options", 5)) { case 0: break; case 1: count = vs_choose("count", 2); ::set(r, publish_options(histogram_publish_options(count)), "p"_m); break; case 2: count = vs_choose("count", 2); listed = true; ::set(r, publish_options(histogram_publish_options(QL(), count)), "p"_m); break; case 3: { int k = vs_choose("scale", 3); f = k == 0 ? 16 : k == 1 ? -4 : 1; s = scale_factor(f / 8.0); count = vs_choose("count", 2); listed = true; ::set(r, publish_options(histogram_publish_options(QL(), count, false, s)), "p"_m); break; } default: f = 32; s = scale_factor(4); ::set(r, publish_options(histogram_publish_options(s)), "p"_m); }
  page g = ::publish(r); typed(g, "p summary"); vs_assert(g.types.size() == 1, "no-other-histogram-header"); int64_t n = 2 + extra; if (count) { if (tag) take_count(g, "p_count", {{"k", "x"}}, n, f); else take_count(g, "p_count", {}, n, f); } num m = millionths((a + b) * 62500 * f); if (tag) take(g, "p_mean", {{"k", "x"}}, m); else take(g, "p_mean", {}, m); quants(g, "p", listed, of(a, s, f), m, of(b, s, f), tag); done(g);
}
VS_ENTRY(meters) {
  R r; vs_steady_ns = S; bool tag = vs_choose("tag", 2); auto m = tag ? r.meter<1000000, 5000000, 60000000, 90000000>("p"_m, {{"k", "x"}}) : r.meter<1000000, 5000000, 60000000, 90000000>("p"_m); static const int64_t vs[] = {0, 6, -7, 1000}; int64_t v = vs[vs_choose("v", Q(2, 4))]; m->mark(v); vs_steady_ns += 2 * S; m->rate<5000000>(); m->rate<60000000>(); m->rate<90000000>(); double a = m->rate<5000000>().rate, b = m->rate<60000000>().rate, c = m->rate<90000000>().rate, mean = v / 2.0; bool with = true; scale_factor s; int f = 8;
  switch (vs_choose("options", 4)) { case 0: break; case 1: with = vs_choose("mean", 2); ::set(r, publish_options(meter_publish_options(with)), "p"_m); break; case 2: f = scale(s); ::set(r, publish_options(meter_publish_options(s)), "p"_m); break; default: with = vs_choose("mean", 2); f = scale(s); ::set(r, publish_options(meter_publish_options(with, s)), "p"_m); }
  auto x = [&](double d) { return about(d * f / 8); }; page g = ::publish(r); typed(g, "p gauge"); if (tag) { if (with) take(g, "p", {{"window", "mean"}, {"k", "x"}}, x(mean)); take(g, "p", {{"window", "5sec"}, {"k", "x"}}, x(a)); take(g, "p", {{"window", "1min"}, {"k", "x"}}, x(b)); take(g, "p", {{"k", "x"}, {"window", "90sec"}}, x(c)); } else { if (with) take(g, "p", {{"window", "mean"}}, x(mean)); take(g, "p", {{"window", "5sec"}}, x(a)); take(g, "p", {{"window", "1min"}}, x(b)); take(g, "p", {{"window", "90sec"}}, x(c)); } done(g);
}
VS_ENTRY(timers) {
  R r; vs_steady_ns = S; bool tag = vs_choose("tag", 2); auto t = tag ? r.timer<1000000, std::chrono::steady_clock, D2, 5000000>("p"_m, D2(), {{"k", "x"}}) : r.timer<1000000, std::chrono::steady_clock, D2, 5000000>("p"_m, D2()); int64_t a = vs_range("a", 1, Q(9, 300)), rest = vs_choose("rest", 2) * 999, b = a + 2 * vs_choose("apart", 2); t->update(nanoseconds(b * 1000 + rest)); t->update(nanoseconds(a * 1000 + rest)); vs_steady_ns += 2 * S; t->snapshot(); timer_snapshot ms = t->snapshot(); double rate = 0; for (auto& w : ms.rate()) rate = (double)w.second;
  bool count = true, mean = true, rates = true, listed = false; scale_factor s; int f = 8;
  switch (vs_choose("options", 5)) { case 0: break; case 1: rates = vs_choose("rates", 2); count = vs_choose("count", 2); mean = vs_choose("mean", 2); ::set(r, publish_options(timer_publish_options(rates, count, mean)), "p"_m); break; case 2: listed = true; rates = vs_choose("rates", 2); count = vs_choose("count", 2); mean = vs_choose("mean", 2); ::set(r, publish_options(timer_publish_options(QL(), rates, count, mean)), "p"_m); break; case 3: f = 16; s = scale_factor(2); ::set(r, publish_options(timer_publish_options(true, s)), "p"_m); break; default: f = -4; s = scale_factor(-0.5); listed = true; rates = vs_choose("rates", 2); ::set(r, publish_options(timer_publish_options(QL(), rates, true, true, s)), "p"_m); }
  page g = ::publish(r); typed(g, "p summary"); int64_t mid = (a + b) / 2; auto x = [&](double d) { return about(d * f / 8); }; if (tag) { if (count) take_count(g, "p_count", {{"k", "x"}}, 2, f); take(g, "p_mean", {{"k", "x"}}, of(mid, s, f)); } else { if (count) take_count(g, "p_count", {}, 2, f); take(g, "p_mean", {}, of(mid, s, f)); } quants(g, "p", listed, of(a, s, f), of(mid, s, f), of(b, s, f), tag);
  if (rates) { if (tag) { if (mean) take(g, "p:rates", {{"window", "mean"}, {"k", "x"}}, x(1)); take(g, "p:rates", {{"window", "5sec"}, {"k", "x"}}, x(rate)); } else { if (mean) take(g, "p:rates", {{"window", "mean"}}, x(1)); take(g, "p:rates", {{"window", "5sec"}}, x(rate)); } } done(g);
}
VS_ENTRY(together) { // all kinds in one registry: every header directly before the samples of its metric
  R r; vs_steady_ns = S; int64_t v = val("v"); int n = 0; bool have[5]; for (int i = 0; i < 5; i++) have[i] = vs_choose("have", 2); if (have[0]) { *r.counter("c"_m) += v; *r.counter("c"_m, {{"k", "x"}}) += 7; n++; } if (have[1]) { r.gauge("g"_m, +v); r.gauge("g"_m, (int64_t)9, {{"k", "x"}}); n++; } if (have[2]) { auto h = r.histogram("h"_m, S2()); h->update(v); r.histogram("h"_m, S2(), {{"k", "x"}})->update(4); n++; } if (have[3]) { r.meter<1000000, 5000000>("m"_m)->mark(1); n++; } if (have[4]) { r.timer<1000000, std::chrono::steady_clock, D2, 5000000>("t"_m, D2())->update(nanoseconds(3000)); n++; } *r.counter("") += 3; vs_steady_ns += 2 * S;
  page g = ::publish(r); vs_assert((int)g.types.size() == n, "one-header-per-metric");
  if (have[0]) { typed(g, "c untyped"); take(g, "c", {}, whole(v)); take(g, "c", {{"k", "x"}}, whole(7)); } if (have[1]) { typed(g, "g gauge"); take(g, "g", {}, whole(v)); take(g, "g", {{"k", "x"}}, whole(9)); }
  if (have[2]) { typed(g, "h summary"); take(g, "h_count", {}, whole(1)); take(g, "h_count", {{"k", "x"}}, whole(1)); take(g, "h_mean", {}, whole(v)); take(g, "h_mean", {{"k", "x"}}, whole(4)); for (auto q : qs) { take(g, "h", {{"quantile", q}}, whole(v)); take(g, "h", {{"k", "x"}, {"quantile", q}}, whole(4)); } }
  if (have[3]) { typed(g, "m gauge"); int k = 0; for (auto& s : g.samples) if (s.name == "m") { vs_assert(s.n == 1 && s.labels[0].name == "window", "meter-windows"); s.used = true; k++; } vs_assert(k == 2, "meter-samples"); } if (have[4]) { typed(g, "t summary"); take(g, "t_count", {}, whole(1)); take(g, "t_mean", {}, whole(3)); for (auto q : qs) take(g, "t", {{"quantile", q}}, whole(3)); int k = 0; for (auto& s : g.samples) if (s.name == "t:rates") { s.used = true; k++; } vs_assert(k == 2, "timer-rates"); } done(g);
}
VS_ENTRY(order) { // a header stands before the samples of its metric and no other metric's samples in between
  R r; *r.counter("a"_m) += 1; *r.counter("b"_m, {{"k", "x"}}) += 2; *r.counter("b"_m) += 3; r.gauge("c"_m, 4); size_t n = vs_out().size(); prometheus_publisher<default_repository> p(r); p.write(vs_ostream()); std::string t = vs_out().substr(n), now; size_t q = 0; int headers = 0, samples = 0; while (q < t.size()) { size_t e = t.find('\n', q); vs_assert(e != std::string::npos, "whole-lines"); std::string l = t.substr(q, e - q); q = e + 1; if (l.compare(0, 7, "# TYPE ") == 0) { vs_assert(l.substr(7, 1) != now, "header-once"); now = l.substr(7, 1); headers++; } else { vs_assert(l.substr(0, 1) == now, "under-its-header"); samples++; } } vs_assert(headers == 3 && samples == 4, "all-lines");
}
VS_ENTRY(many) { R r; int n = 1 + vs_choose("n", Q(12, 24)), which = vs_choose("which", 2); int64_t v = val("v"); for (int i = 0; i < n; i++) { std::string s = "p" + std::to_string(i); int64_t x = i == n - 1 ? v : i; if (which) r.gauge(metric_path(s), +x); else r.counter("p"_m, +x, {{"k", s}}); } page g = ::publish(r); vs_assert((int)g.types.size() == (which ? n : 1), "one-header-each-of-many"); for (int i = 0; i < n; i++) { std::string s = "p" + std::to_string(i); num e = whole(i == n - 1 ? v : i); if (which) { typed(g, (s + " gauge").c_str()); take(g, s.c_str(), {}, e); } else take(g, "p", {{"k", s}}, e); } done(g); }
VS_ENTRY(many_windows) { R r; vs_steady_ns = S; auto m = r.meter<1000000, 1000000, 5000000, 15000000, 60000000, 300000000, 900000000, 3600000000>("p"_m); m->mark(vs_choose("v", 3) * 5); vs_steady_ns += S; page g = ::publish(r); static const char* const ws[] = {"mean", "1sec", "5sec", "15sec", "1min", "5min", "15min", "1hr"}; for (auto w : ws) { int n = 0; for (auto& s : g.samples) if (s.name == "p" && s.n == 1 && s.labels[0].value == w) { n++; s.used = true; } vs_assert(n == 1, "each-of-many-windows"); } done(g); }
