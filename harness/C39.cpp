// bound: one warm-up round and one to three measured rounds of each use with arbitrary values: values of every kind with short and long texts built, copied, moved, assigned over, combined and compared; tags, paths and options; reservoirs, snapshots, merged and aggregated; metrics of every kind updated and read; registries with all kinds, tags, options and publisher data, refused requests, published rounds; callables that throw; stacks, pools and skip lists
// outside: several threads; memory of nodes that a skip list never gives back before its end
#include "h.h"
#include <cxxmetrics_prometheus/prometheus_publisher.hpp>
#include <cxxmetrics_prometheus/prometheus_counter.hpp>
#include <cxxmetrics_prometheus/prometheus_gauge.hpp>
#include <cxxmetrics_prometheus/prometheus_histogram.hpp>
#include <cxxmetrics_prometheus/prometheus_meter.hpp>
#include <cxxmetrics_prometheus/prometheus_timer.hpp>
#include <cxxmetrics/internal/atomic_lifo.hpp>
#include <cxxmetrics/ringbuf.hpp>
#include <cstddef>
using std::nullptr_t;
#include <cxxmetrics/pool.hpp>
#include <cxxmetrics/skiplist.hpp>
template <class F> static void pick(std::initializer_list<F> fs) { int k = vs_choose("which", (int)fs.size()); int i = 0; for (F f : fs) if (i++ == k) f(); }
typedef void (*Fn)(); typedef metrics_registry<> R; typedef simple_reservoir<int64_t, 4> S4; typedef simple_reservoir<nanoseconds, 4> D4;
// what is done once may leave things behind (tables of types, buffers); done again it must leave nothing
template <class F> static void balanced(F f) { vs_heap_live(); f(0); int64_t b = vs_heap_live(); int n = Q(2, 3); for (int i = 1; i <= n; i++) f(i); vs_assert(vs_heap_live() == b, "given-back"); }
static const char* const LONG = "a text that is far too long for a small string buffer";
static metric_value value(const char* name, bool fixed = false) { switch (vs_choose(name, 7)) { case 0: return metric_value((int64_t)vs_range("i", -20, 20)); case 1: return metric_value(fixed ? 2.5 : vs_double("d", -8, 8)); case 2: return metric_value("short"); case 3: return metric_value(std::string(LONG)); case 4: return metric_value(nanoseconds(vs_range("t", -20, 20))); case 5: return metric_value((uint8_t)vs_range("u", 0, 9)); default: return metric_value(std::string("12345678901234567890123456789")); } }
VS_ENTRY(values) { metric_value a = value("a", true), b = value("b", true); int how = vs_choose("how", 10); balanced([&](int) { metric_value x(a), y(b); switch (how) { case 0: x = metric_value(y); break; case 1: x = std::move(y); break; case 2: { metric_value z(std::move(x)); y = std::move(z); break; } case 3: { metric_value z = x; x = metric_value(y); y = std::move(z); break; } case 4: { std::string s = x; metric_value z{std::string(s)}; x = std::move(z); break; }
  case 5: { bool t = (x < y) | (x == y); x = metric_value(t ? y : x); break; } case 6: x = metric_value(x); break; case 7: { std::vector<metric_value> v; for (int i = 0; i < 3; i++) v.push_back(i == 1 ? y : x); v.erase(v.begin()); break; } case 8: std::swap(x, y); break; default: { std::string s(x); std::string t((std::string)y); s += t; } } }); }
VS_ENTRY(arithmetic) { metric_value a = value("a"), b = value("b"); int how = vs_choose("how", 8); balanced([&](int) { metric_value x(a), y(b); switch (how) { case 0: x += y; break; case 1: x -= y; break; case 2: x *= y; break; case 3: x /= y; break; case 4: y = x + y; break; case 5: y = x - y; break; case 6: y = -x; break; default: { metric_value z = x + y; x = metric_value(z); y = std::move(x); } } }); }
VS_ENTRY(tags) { int64_t v = vs_any<int64_t>("v"); int how = vs_choose("how", 5); balanced([&](int) { tag_collection t{{"k", v}, {"long", std::string(LONG)}, {LONG, 2}}; switch (how) { case 0: { tag_collection u(t); u = t; break; } case 1: { tag_collection u(std::move(t)); t = u; break; } case 2: { tag_collection u{{"k", 1}}; u = std::move(t); break; } case 3: { tag_collection u{{"k", LONG}}; u = t; t = u; break; } default: { tag_collection u; std::hash<tag_collection> h; (void)(h(t) == h(u)); (void)(t == u); } } }); }
VS_ENTRY(paths) { int how = vs_choose("how", 4); balanced([&](int) { metric_path p("a"); p = p / metric_path(std::string(LONG)) / metric_path("b"); switch (how) { case 0: { metric_path q(p); q = q / p; p = q; break; } case 1: { metric_path q(std::move(p)); p = q; break; } case 2: { std::string s = p.join("::"); s += p.join("."); break; } default: { metric_path q("x"); q = std::move(p); p = q / q; } } }); }
static void set(value_publish_options&& o, R& r) { r.publish_options(publish_options(std::move(o))); }
VS_ENTRY(options) { int how = vs_choose("how", 4); balanced([&](int) { switch (how) { case 0: { histogram_publish_options h{quantile_options<25_p, 75_p>()}; histogram_publish_options c(std::move(h)), d{quantile_options<10_p>()}; d = std::move(c); c = histogram_publish_options(); break; } case 1: { publish_options o{value_publish_options(scale_factor(2))}; publish_options c(std::move(o)), d; d = std::move(c); break; } case 2: { R r; ::set(value_publish_options(scale_factor(2)), r); ::set(value_publish_options(scale_factor(3)), r); r.counter("p"_m); r.publish_options("p"_m, publish_options()); r.publish_options("p"_m, publish_options(value_publish_options(scale_factor(2)))); break; } default: { timer_publish_options t(quantile_options<25_p>(), true); timer_publish_options c(std::move(t)); t = std::move(c); } } }); }
template <class S> static void reservoir() { typename S::value_type v = typename S::value_type(vs_any<int64_t>("v")); int n = vs_choose("n", Q(6, 8)); vs_steady_ns = 1000000000; balanced([&](int) { S s; for (int i = 0; i < n; i++) s.update(v); S c(s); c = s; auto a = c.snapshot(); auto b = s.snapshot(); reservoir_snapshot m = std::move(a); m = std::move(b); a = std::move(m); S d(std::move(c)); (void)a.min(); (void)a.mean(); }); }
static void r1() { reservoir<S4>(); } static void r2() { reservoir<uniform_reservoir<int64_t, 4>>(); } static void r3() { reservoir<sliding_window_reservoir<int64_t, 4>>(); } static void r4() { reservoir<D4>(); }
VS_ENTRY(reservoirs) { pick<Fn>({r1, r2, r3, r4}); }
VS_ENTRY(metrics) { int64_t v = vs_any<int64_t>("v"); int k = vs_choose("kind", 6); vs_steady_ns = 1000000000; balanced([&](int) { switch (k) {
  case 0: { counter<int64_t> c(v); counter<int64_t> d(c); d = c; ++d; auto s = d.snapshot(); auto t = std::move(s); t.merge(d.snapshot()); break; } case 1: { gauge<std::string> g(LONG); g.set(std::string(LONG) + "!"); gauge<std::string> h(g); h = g; auto s = h.snapshot(); metric_value x = s.value(); break; } case 2: { std::string held(LONG); gauge<std::function<std::string()>> g([held]() { return held; }); auto h = g; auto s = h.snapshot(); h = g; break; }
  case 3: { histogram<int64_t, S4> h; h.update(v); histogram<int64_t, S4> c(h); c = h; auto s = c.snapshot(); auto t = std::move(s); t.merge(h.snapshot()); break; } case 4: { meter<1000000, 5000000> m; m.mark(1); meter<1000000, 5000000> c(m); c = m; auto s = c.snapshot(); auto t = std::move(s); t.merge(m.snapshot()); for (auto& p : t) (void)p; break; }
  default: { timer<1000000, std::chrono::steady_clock, D4, 5000000> t; t.update(nanoseconds(5)); auto c = t; auto s = c.snapshot(); auto u = std::move(s); u.merge(t.snapshot()); t.time([] { }); { scoped_timer(t); } } } }); }
// once things are there, updating and reading them takes no more memory
VS_ENTRY(steady) { int64_t v = vs_any<int64_t>("v"); vs_steady_ns = 1000000000; R r; auto c = r.counter("c"_m, {{"k", LONG}}); auto h = r.histogram("h"_m, S4()); auto m = r.meter<1000000, 5000000>("m"_m); auto t = r.timer<1000000, std::chrono::steady_clock, D4, 5000000>("t"_m); auto e = r.ewma<5000000>("e"_m); auto g = r.gauge("g"_m, std::string(LONG)); int k = vs_choose("kind", 6);
  balanced([&](int) { for (int i = 0; i < 3; i++) { vs_steady_ns += 700000000; switch (k) { case 0: *c += v; break; case 1: h->update(v); break; case 2: m->mark(1); break; case 3: t->update(nanoseconds(5)); break; case 4: e->mark(1); break; default: g->set(std::string(LONG)); } } (void)r.counter("c"_m, {{"k", LONG}}); int n = 0; r.visit_registered_metrics([&](const metric_path&, basic_registered_metric& x) { n++; x.visit([&](const tag_collection&, const auto&) { n++; }); }); vs_assert(n == 12, "all-seen"); }); }
static void all(R& r, int64_t v) { r.counter("c"_m, +v, {{"k", LONG}}); r.counter("c"_m, {{"k", 2}}); r.histogram("h"_m / LONG, S4(), {{"k", 1}})->update(v); r.meter<1000000, 5000000>("m"_m)->mark(1); r.timer<1000000, std::chrono::steady_clock, D4, 5000000>("t"_m)->update(nanoseconds(5)); r.ewma<5000000>("e"_m)->mark(1); r.gauge("g"_m, std::string(LONG)); r.gauge("f"_m, std::function<int()>([] { return 1; })); }
VS_ENTRY(registries) { int64_t v = vs_any<int64_t>("v"); vs_steady_ns = 1000000000; int how = vs_choose("how", 4); balanced([&](int) { R r; ::all(r, v); switch (how) { case 0: break; case 1: { auto mine = std::make_shared<counter<int64_t>>(v); vs_assert(r.register_existing("mine"_m, mine, {{"k", LONG}}), "added"); vs_assert(!r.register_existing("mine"_m, mine, {{"k", LONG}}), "not-again"); break; } case 2: { bool no = false; try { r.counter<short>("c"_m, {{"l", LONG}}); } catch (metric_type_mismatch& e) { no = !std::string(e.what()).empty() && e.existing_metric_type() != e.desired_metric_type(); } vs_assert(no, "refused"); break; }
  default: { auto held = r.counter("c"_m, {{"k", 2}}); auto copy = held; } } }); }
struct data : basic_publish_options { std::string s; data(const char* c = LONG) : s(c) {} };
struct pub : metrics_publisher<default_repository> { pub(R& r) : metrics_publisher(r) {} void use() { this->template get_data<data>(); this->template get_data_for<data>("c"_m, "another text that is too long for the small buffer"); visit_all([&](const metric_path& p, basic_registered_metric& m) { this->template get_data_for<data>(m); std::string t = metric_type(m); t += p.join("/"); m.aggregate([&](const auto& s) { (void)s; }); }); } };
VS_ENTRY(publishers) { int64_t v = vs_any<int64_t>("v"); vs_steady_ns = 1000000000; bool keep = vs_choose("keep", 2); if (keep) { R r; ::all(r, v); balanced([&](int) { pub p(r); p.use(); }); } else balanced([&](int) { R r; ::all(r, v); pub p(r); p.use(); }); }
VS_ENTRY(prometheus) { int64_t v = vs_range("v", -9, 9); vs_steady_ns = 1000000000; bool keep = vs_choose("keep", 2), scale = vs_choose("scale", 2); std::string& o = vs_out(); o.reserve(20000); if (keep) { R r; ::all(r, v); if (scale) ::set(value_publish_options(scale_factor(2)), r); balanced([&](int) { o.clear(); cxxmetrics_prometheus::prometheus_publisher<default_repository> p(r); p.write(vs_ostream()); vs_assert(!o.empty(), "written"); }); } else balanced([&](int) { o.clear(); R r; ::all(r, v); if (scale) ::set(value_publish_options(scale_factor(2)), r); cxxmetrics_prometheus::prometheus_publisher<default_repository> p(r); p.write(vs_ostream()); }); }
VS_ENTRY(thrown) { vs_steady_ns = 1000000000; int how = vs_choose("how", 2); balanced([&](int) { R r; timer<1000000, std::chrono::steady_clock, D4, 5000000> t; bool got = false; try { if (how == 0) t.time([]() -> int { throw std::string(LONG); }); else { r.counter("c"_m, {{"k", LONG}}); r.visit_registered_metrics([](const metric_path&, basic_registered_metric&) { throw std::string(LONG); }); } } catch (std::string& s) { got = s == LONG; } vs_assert(got, "passed-on"); }); }
VS_ENTRY(stacks) { int n = 1 + vs_choose("n", 4), k = vs_choose("pops", 5); bool again = vs_choose("again", 2); balanced([&](int) { typedef cxxmetrics::internal::atomic_lifo<std::string> L; L l; int in = n; for (int i = 0; i < n; i++) l.push(l.make_pointer(LONG)); for (int i = 0; i < k; i++) { auto p = l.pop(); vs_assert((bool)p == (in > 0), "popped"); if (p && again && i == 0) l.push(std::move(p)); else if (p) in--; } }); }
VS_ENTRY(pools) { int n = 1 + vs_choose("n", 3), k = vs_choose("drop", 3); balanced([&](int) { cxxmetrics::internal::pool<std::string> p; cxxmetrics::internal::pool_ptr<std::string> h[3]; for (int i = 0; i < n; i++) h[i] = p.allocate(LONG); if (k < n) h[k] = h[n - 1]; h[0] = p.allocate(LONG); for (auto& x : h) x = cxxmetrics::internal::pool_ptr<std::string>(); }); }
VS_ENTRY(lists) { int a = vs_choose("a", 4), b = vs_choose("b", 4); vs_heap_live(); int64_t was = 0; for (int k = 0; k < 2; k++) { { skiplist<int, 4> l; l.insert(a); if (b != a) l.insert(b); auto i = l.begin(); auto j = i; ++i; } if (!k) was = vs_heap_live(); } vs_assert(vs_heap_live() == was, "list-given-back"); }
VS_ENTRY(lists_dropping) { bool erase = vs_choose("erase", 2), refuse = vs_choose("refuse", 2); vs_heap_live(); int64_t was = 0; for (int k = 0; k < 2; k++) { { skiplist<int, 4> l; l.insert(1); l.insert(2); if (refuse) vs_assert(!l.insert(1), "refused-key"); if (erase) vs_assert(l.erase(2), "erased-key"); } if (!k) was = vs_heap_live(); } int64_t lost = vs_heap_live() - was; vs_assert_k(lost == 0, "nodes-given-back", "the node of a key that a skip list refuses or erases is never given back", lost == erase + refuse); }
// nor does visiting many sets of tags take more stack than visiting few
VS_ENTRY(stack) { R r; int how = vs_choose("how", 4), n = 0; int64_t at[8] = {}; for (int i = 0; i < 4; i++) r.gauge("g"_m, std::function<int64_t()>([&] { if (n < 8) at[n++] = vs_stack(); return (int64_t)1; }), {{"k", i}}); int calls = 0;
  switch (how) { case 0: r.visit_registered_metrics([&](const metric_path&, basic_registered_metric& m) { m.visit([&](const tag_collection&, const average_value_snapshot&) { calls++; }); }); break; case 1: { cxxmetrics_prometheus::prometheus_publisher<default_repository> p(r); p.write(vs_ostream()); calls = 4; break; } case 2: r.visit_registered_metrics([&](const metric_path&, basic_registered_metric& m) { m.aggregate([&](const average_value_snapshot&) { calls = 4; }); }); break;
  default: { r.counter("c"_m, {{"k", 1}}); r.counter("c"_m, {{"k", 2}}); r.counter("c"_m, {{"k", 3}}); n = 0; r.visit_registered_metrics([&](const metric_path& p, basic_registered_metric& m) { if (p == "c"_m) m.visit([&](const tag_collection&, const cumulative_value_snapshot&) { at[n++] = vs_stack(); calls++; }); }); calls++; } }
  vs_assert(calls == 4 && n >= 3, "all-visited"); for (int i = 2; i < n; i++) vs_assert(at[i] == at[1], "no-deeper-stack"); }
