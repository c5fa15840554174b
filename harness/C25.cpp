// bound: every constructor of the options with arbitrary flags and scale factors, copied, moved and assigned; histories of up to 3 (thorough: 4) settings for the registry and for two metrics and an unknown one, in every order
// outside: setting options while another thread publishes
#include "h.h"
template <class F> static void pick(std::initializer_list<F> fs) { int k = vs_choose("pair", (int)fs.size()); int i = 0; for (F f : fs) if (i++ == k) f(); }
typedef void (*Fn)();
typedef metrics_registry<> R; typedef quantile_options<95_p, 20_p> QO;
static bool flag(const char* n) { return vs_choose(n, 2); }
static double factor() { return vs_double("factor", -1e9, 1e9); }
static bool is(const scale_factor& s, bool on, double f) { return (bool)s == on && (on ? s.factor() == f : s.factor() == 1); }
struct want { bool scaled, mean, count, dist, rates, listed; double f; };
static int listed(const histogram_publish_options& o) { int64_t v[] = {1, 2, 3}; histogram_snapshot s(reservoir_snapshot(v, (size_t)3), 3); int n = 0; o.quantiles()->visit(s, [&](const quantile&, metric_value&&) { n++; }); return n; }
static void value_is(const value_publish_options& o, const want& w) { vs_assert(is(o.scale(), w.scaled, w.f), "value-scale"); }
static void meter_is(const meter_publish_options& o, const want& w) { vs_assert(is(o.scale(), w.scaled, w.f), "meter-scale"); vs_assert(o.include_mean() == w.mean, "meter-mean"); }
static void histogram_is(const histogram_publish_options& o, const want& w) { vs_assert(is(o.scale(), w.scaled, w.f), "histogram-scale"); vs_assert(o.include_count() == w.count, "histogram-count"); vs_assert(o.as_distribution() == w.dist, "histogram-distribution"); vs_assert(::listed(o) == (w.listed ? 2 : 3), "histogram-quantiles"); }
static void timer_is(const timer_publish_options& o, const want& w) { vs_assert(is(o.scale(), w.scaled, w.f), "timer-scale"); vs_assert(o.include_count() == w.count, "timer-count"); vs_assert(o.include_mean() == w.mean, "timer-mean"); vs_assert(o.include_rates() == w.rates, "timer-rates"); vs_assert(::listed(o) == (w.listed ? 2 : 3), "timer-quantiles"); }
VS_ENTRY(scales) { double f = factor(); scale_factor none, some(f); vs_assert(!none && none.factor() == 1, "no-scale"); vs_assert((bool)some && some.factor() == f, "scale"); scale_factor c(some); vs_assert(is(c, true, f), "scale-copied"); c = none; vs_assert(!c, "scale-assigned"); c = f; vs_assert(is(c, true, f), "scale-from-number"); }
VS_ENTRY(values) { double f = factor(); bool on = flag("scaled"); value_publish_options a(on ? scale_factor(f) : scale_factor()), b(a), c; want w{on, 0, 0, 0, 0, 0, f}; value_is(a, w); value_is(b, w); value_is(c, want{}); c = b; value_is(c, w); value_publish_options d(std::move(c)); value_is(d, w); }
static meter_publish_options make_meter(want& w) { w = want{}; w.mean = true; w.f = factor(); int k = vs_choose("meter", 4); if (k == 0) return meter_publish_options(); if (k == 1) { w.scaled = true; return meter_publish_options(scale_factor(w.f)); } w.mean = flag("mean"); if (k == 2) return meter_publish_options(w.mean); w.scaled = true; return meter_publish_options(w.mean, scale_factor(w.f)); }
static histogram_publish_options make_histogram(want& w) { w = want{}; w.count = true; w.f = factor(); int k = vs_choose("histogram", 10); switch (k) { case 0: return histogram_publish_options(); case 1: w.scaled = true; return histogram_publish_options(scale_factor(w.f)); case 2: w.count = flag("count"); return histogram_publish_options(w.count); case 3: w.count = flag("count"); w.scaled = true; return histogram_publish_options(w.count, scale_factor(w.f)); case 4: w.count = flag("count"); w.dist = flag("dist"); return histogram_publish_options(w.count, w.dist); case 5: w.count = flag("count"); w.dist = flag("dist"); w.scaled = true; return histogram_publish_options(w.count, w.dist, scale_factor(w.f)); case 6: w.listed = true; return histogram_publish_options(QO{}); case 7: w.listed = true; w.count = flag("count"); return histogram_publish_options(QO{}, w.count); case 8: w.listed = true; w.count = flag("count"); w.dist = flag("dist"); return histogram_publish_options(QO{}, w.count, w.dist); default: w.listed = w.scaled = true; w.count = flag("count"); w.dist = flag("dist"); return histogram_publish_options(QO{}, w.count, w.dist, scale_factor(w.f)); } }
static timer_publish_options make_timer(want& w) { w = want{}; w.count = w.mean = w.rates = true; w.f = factor(); int k = vs_choose("timer", 10); auto r = [&] { return w.rates = flag("rates"); }; auto c = [&] { return w.count = flag("count"); }; auto m = [&] { return w.mean = flag("mean"); }; auto s = [&] { w.scaled = true; return scale_factor(w.f); };
  switch (k) { case 0: return timer_publish_options(); case 1: r(); return timer_publish_options(w.rates); case 2: r(); return timer_publish_options(w.rates, s()); case 3: r(); c(); return timer_publish_options(w.rates, w.count); case 4: r(); c(); return timer_publish_options(w.rates, w.count, s()); case 5: r(); c(); m(); return timer_publish_options(w.rates, w.count, w.mean); case 6: r(); c(); m(); return timer_publish_options(w.rates, w.count, w.mean, s()); case 7: w.listed = true; r(); c(); return timer_publish_options(QO{}, w.rates, w.count, s()); case 8: w.listed = true; r(); c(); m(); return timer_publish_options(QO{}, w.rates, w.count, w.mean, s()); default: w.listed = true; r(); return timer_publish_options(QO{}, w.rates); } }
VS_ENTRY(meters) { want w, v; meter_publish_options a = make_meter(w), b(a), c; meter_is(a, w); meter_is(b, w); v = want{}; v.mean = true; meter_is(c, v); c = b; meter_is(c, w); meter_publish_options d(std::move(c)); meter_is(d, w); publish_options o(std::move(d)); meter_is(o.meter_options(), w); meter_publish_options e = make_meter(v); e = d; meter_is(e, w); }
VS_ENTRY(histograms) { want w; histogram_publish_options a = make_histogram(w); histogram_is(a, w); histogram_publish_options b(std::move(a)), c; histogram_is(b, w); c = std::move(b); histogram_is(c, w); publish_options o(std::move(c)); histogram_is(o.histogram_options(), w); publish_options p(std::move(o)), q; histogram_is(p.histogram_options(), w); q = std::move(p); histogram_is(q.histogram_options(), w); want d{}; d.count = d.mean = d.rates = true; value_is(q.value_options(), want{}); meter_is(q.meter_options(), d); timer_is(q.timer_options(), d); }
VS_ENTRY(timers) { want w; timer_publish_options a = make_timer(w); timer_is(a, w); timer_publish_options b(std::move(a)), c(false, false, false, scale_factor(3)); timer_is(b, w); c = std::move(b); timer_is(c, w); publish_options o(std::move(c)); timer_is(o.timer_options(), w); publish_options p(std::move(o)), q; timer_is(p.timer_options(), w); q = std::move(p); timer_is(q.timer_options(), w); want d{}; d.count = d.mean = true; value_is(q.value_options(), want{}); meter_is(q.meter_options(), d); histogram_is(q.histogram_options(), d); }
VS_ENTRY(whole) { // the whole set keeps the four kinds apart
  want v{}, m{}, h{}, t{}; v.scaled = flag("scaled"); v.f = factor(); m.mean = flag("mean"); m.scaled = true; m.f = factor(); h.count = flag("count"); h.dist = flag("dist"); h.scaled = true; h.f = factor(); h.listed = true; t.rates = flag("rates"); t.count = flag("tcount"); t.mean = flag("tmean"); t.scaled = true; t.f = factor();
  publish_options o(value_publish_options(v.scaled ? scale_factor(v.f) : scale_factor()), meter_publish_options(m.mean, scale_factor(m.f)), histogram_publish_options(QO{}, h.count, h.dist, scale_factor(h.f)), timer_publish_options(t.rates, t.count, t.mean, scale_factor(t.f))); auto all = [&](const publish_options& x) { value_is(x.value_options(), v); meter_is(x.meter_options(), m); histogram_is(x.histogram_options(), h); timer_is(x.timer_options(), t); }; all(o); publish_options p(std::move(o)), q; all(p); q = std::move(p); all(q); R r; r.publish_options(std::move(q)); all(r.publish_options());
}
VS_ENTRY(shorter) { want m{}, h{}, t{}, d{}; m.mean = flag("mean"); m.f = factor(); m.scaled = true; h.count = flag("count"); h.f = factor(); h.scaled = true; t.rates = t.mean = true; t.count = flag("tcount"); t.f = factor(); t.scaled = true; d.count = d.mean = d.rates = true; publish_options a(meter_publish_options(m.mean, scale_factor(m.f)), histogram_publish_options(h.count, scale_factor(h.f)), timer_publish_options(true, t.count, scale_factor(t.f))), b(histogram_publish_options(h.count, scale_factor(h.f)), timer_publish_options(true, t.count, scale_factor(t.f))), c(meter_publish_options(m.mean, scale_factor(m.f))), e(value_publish_options(scale_factor(m.f))); meter_is(a.meter_options(), m); histogram_is(a.histogram_options(), h); timer_is(a.timer_options(), t); value_is(a.value_options(), d); meter_is(b.meter_options(), d); histogram_is(b.histogram_options(), h); timer_is(b.timer_options(), t); meter_is(c.meter_options(), m); histogram_is(c.histogram_options(), d); timer_is(c.timer_options(), d); value_is(e.value_options(), m); meter_is(e.meter_options(), d); }
// what a publisher sees for each metric
struct pub : metrics_publisher<default_repository> { pub(R& r) : metrics_publisher(r) {} template <class F> void each(F f) { visit_all([&](const metric_path& p, basic_registered_metric& m) { f(p, effective_options(m)); }); } };
static publish_options opts(double f) { return publish_options(value_publish_options(scale_factor(f)), meter_publish_options(false, scale_factor(f)), histogram_publish_options(QO{}, false, true, scale_factor(f)), timer_publish_options(false, false, false, scale_factor(f))); }
VS_ENTRY(effective) {
  R r; r.counter("one"_m); r.counter("two"_m); r.counter("one"_m, {{"k", 1}}); pub p(r); double reg = 1, own[2] = {0, 0}; bool regset = false, ownset[2] = {}; int n = Q(3, 4);
  for (int i = 0; i < n; i++) { int where = vs_choose("where", 4); double f = factor(); if (where == 0) { r.publish_options(opts(f)); reg = f; regset = true; } else if (where == 3) { r.publish_options("unknown"_m, opts(f)); } else { r.publish_options(where == 1 ? "one"_m : "two"_m, opts(f)); own[where - 1] = f; ownset[where - 1] = true; } }
  if (flag("late")) { r.counter("three"_m); } int count = 0; p.each([&](const metric_path& path, const publish_options& o) { count++; int k = path == "one"_m ? 0 : path == "two"_m ? 1 : 2; bool mine = k < 2 && ownset[k]; want w{}; w.mean = w.count = w.rates = true; w.f = mine ? own[k] : reg; if (mine || regset) { w = want{true, false, false, true, false, true, w.f}; } value_is(o.value_options(), w); meter_is(o.meter_options(), w); histogram_is(o.histogram_options(), w); w.listed = false; timer_is(o.timer_options(), w); vs_assert(mine || &o == &r.publish_options(), "registry-wide"); }); vs_assert(count == 2 || count == 3, "unknown-not-registered"); want g{}; g.scaled = regset; g.f = reg; value_is(r.publish_options().value_options(), g);
}
VS_ENTRY(references) { // options already looked at show later settings
  R r; r.counter("one"_m); r.publish_options(opts(2)); const publish_options& o = r.publish_options(); double f = factor(); r.publish_options(opts(f)); want w{true, false, false, true, false, true, f}; value_is(o.value_options(), w); value_is(r.publish_options().value_options(), w); R s; vs_assert(!s.publish_options().value_options().scale(), "registries-apart"); }
// assigned over options of another kind: nothing of the old ones stays
static histogram_publish_options old_histogram() { return flag("old") ? histogram_publish_options(QO{}, false, true, scale_factor(7)) : histogram_publish_options(); }
static timer_publish_options old_timer() { return flag("old") ? timer_publish_options(QO{}, false, false, false, scale_factor(7)) : timer_publish_options(); }
VS_ENTRY(histograms_over) { want w; histogram_publish_options a = make_histogram(w), b = old_histogram(); b = std::move(a); histogram_is(b, w); publish_options o(std::move(b)), q(old_histogram()); q = std::move(o); histogram_is(q.histogram_options(), w); }
VS_ENTRY(timers_over) { want w; timer_publish_options a = make_timer(w), b = old_timer(); b = std::move(a); timer_is(b, w); publish_options o(std::move(b)), q(old_timer()); q = std::move(o); timer_is(q.timer_options(), w); }
VS_ENTRY(values_over) { double f = factor(), g = factor(); bool on = flag("scaled"), was = flag("was"); want w{}; w.scaled = on; w.f = f; value_publish_options a(on ? scale_factor(f) : scale_factor()), b(was ? scale_factor(g) : scale_factor()); if (flag("move")) b = std::move(a); else b = a; value_is(b, w); }
// every kind of setting replaced by every other, for the registry and for one metric
VS_ENTRY(replaced) { R r; r.counter("one"_m); auto any = [&](want& h, want& t) { h = want{}; h.count = h.mean = h.rates = true; t = h; int k = vs_choose("kind", 5); h.f = t.f = factor(); if (k == 0) return publish_options(); if (k == 1) return publish_options(value_publish_options(scale_factor(h.f))); if (k == 2) return publish_options(meter_publish_options(false, scale_factor(h.f))); if (k == 3) { h.listed = true; h.count = false; return publish_options(histogram_publish_options(QO{}, false)); } t.listed = true; t.rates = false; return publish_options(timer_publish_options(QO{}, false)); };
  bool own = flag("own"); want h, t; for (int i = 0; i < 2; i++) { if (own) r.publish_options("one"_m, any(h, t)); else r.publish_options(any(h, t)); } pub p(r); p.each([&](const metric_path&, const publish_options& o) { histogram_is(o.histogram_options(), h); timer_is(o.timer_options(), t); }); }
