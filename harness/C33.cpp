// bound: 2 threads making up to 2 requests each and 3 threads making one request each, for the same or different paths, tag sets and types, followed by an update of an arbitrary amount; against visits, aggregations, registrations of existing metrics and publish options; every interleaving of the locks and atomic operations (thorough: more requests), every unsynchronized access reported
// outside: publish options changed while they are read; arbitrary names
#include "h.h"
template <class F> static void pick(std::initializer_list<F> fs) { int k = vs_choose("pair", (int)fs.size()); int i = 0; for (F f : fs) if (i++ == k) f(); }
typedef void (*Fn)(); typedef metrics_registry<> R; typedef std::shared_ptr<counter<int64_t>> C; typedef simple_reservoir<int64_t, 4> S4;
template <class RR> static int registered(RR& r) { int n = 0; r.visit_registered_metrics([&](const metric_path&, basic_registered_metric&) { n++; }); return n; }
template <class RR> static int tagged(RR& r) { int n = 0; r.visit_registered_metrics([&](const metric_path&, basic_registered_metric& m) { m.visit([&](const tag_collection&, const auto&) { n++; }); }); return n; }
static tag_collection tag(int i) { return i == 0 ? tag_collection() : tag_collection{{"k", i}}; }
static int64_t amount(const char* n) { return vs_range(n, 1, 1000000); }
VS_ENTRY(same) { R r; int64_t a = amount("a"), b = amount("b"); C x, y; auto f = [&] { x = r.counter("p"_m); *x += a; }; auto g = [&] { y = r.counter("p"_m); *y += b; }; vs_spawn(f); vs_spawn(g); vs_join(); vs_assert(x == y, "same-object"); vs_assert((int64_t)*x == a + b, "both-updates"); vs_assert(r.counter("p"_m) == x && ::tagged(r) == 1, "registered-once"); }
VS_ENTRY(same_tags) { R r; int64_t a = amount("a"), b = amount("b"); int t = vs_choose("s", 2), u = vs_choose("t", 2), p = vs_choose("p", 2); C x, y; auto f = [&] { x = r.counter<int64_t>("p"_m, tag(t)); *x += a; }; auto g = [&] { y = r.counter<int64_t>(p ? "q"_m : "p"_m, tag(u)); *y += b; }; vs_spawn(f); vs_spawn(g); vs_join(); bool same = t == u && !p; vs_assert((x == y) == same, "same-exactly-for-same-names"); vs_assert((int64_t)*x == (same ? a + b : a) && (int64_t)*y == (same ? a + b : b), "counts"); vs_assert(r.counter<int64_t>("p"_m, tag(t)) == x && r.counter<int64_t>(p ? "q"_m : "p"_m, tag(u)) == y, "found-again"); vs_assert(::tagged(r) == (same ? 1 : 2) && ::registered(r) == 1 + p, "number"); }
VS_ENTRY(three) { R r; C x[3]; int64_t a[3]; int t[3]; for (int i = 0; i < 3; i++) { a[i] = amount("a"); t[i] = i == 2 || (i && TH) ? vs_choose("t", 2) : 0; } auto f = [&] { x[0] = r.counter<int64_t>("p"_m, tag(t[0])); *x[0] += a[0]; }; auto g = [&] { x[1] = r.counter<int64_t>("p"_m, tag(t[1])); *x[1] += a[1]; }; auto h = [&] { x[2] = r.counter<int64_t>("p"_m, tag(t[2])); *x[2] += a[2]; }; vs_spawn(f); vs_spawn(g); vs_spawn(h); vs_join(); for (int i = 0; i < 3; i++) { int64_t e = 0; for (int k = 0; k < 3; k++) { vs_assert((x[i] == x[k]) == (t[i] == t[k]), "same-among-three"); if (t[i] == t[k]) e += a[k]; } vs_assert((int64_t)*x[i] == e, "all-three-updates"); } }
VS_ENTRY(initial) { R r; int64_t a = vs_any<int64_t>("a"), b = vs_any<int64_t>("b"); C x, y; auto f = [&] { x = r.counter<int64_t>("p"_m, +a); }; auto g = [&] { y = r.counter("p"_m, +b); }; vs_spawn(f); vs_spawn(g); vs_join(); int64_t v = *x; vs_assert(x == y, "one-object"); vs_assert((v == a) | (v == b), "an-initial-value"); }
VS_ENTRY(kinds) { // of two types one wins and the other is rejected
  R r; C c; std::shared_ptr<gauge<int>> g; bool ct = false, gt = false; auto f = [&] { try { c = r.counter("p"_m); } catch (metric_type_mismatch& e) { ct = e.existing_metric_type() != e.desired_metric_type(); } }; auto h = [&] { try { g = r.gauge("p"_m, 5); } catch (metric_type_mismatch& e) { gt = e.existing_metric_type() != e.desired_metric_type(); } }; vs_spawn(f); vs_spawn(h); vs_join(); vs_assert(ct != gt, "exactly-one-rejected"); vs_assert((c != nullptr) == !ct && (g != nullptr) == !gt, "other-accepted"); vs_assert(::tagged(r) == 1, "one-registered"); std::string t; r.visit_registered_metrics([&](const metric_path&, basic_registered_metric& m) { t = m.type(); }); vs_assert(t == (ct ? g->metric_type() : c->metric_type()), "type-of-the-winner"); }
template <class G> static void twice(G get) { R r; auto x = get(r, -1); x.reset(); auto y = x; auto f = [&] { x = get(r, 0); }; auto g = [&] { y = get(r, 0); }; vs_spawn(f); vs_spawn(g); vs_join(); vs_assert(x == y && x != nullptr, "same-of-every-kind"); vs_assert(get(r, 0) == x, "every-kind-again"); vs_assert(get(r, -1) != x, "not-the-other"); }
static metric_path name(int i) { return i < 0 ? "other"_m : "p"_m; }
static void ke() { vs_steady_ns = 1000000000; twice([](auto& r, int i) { return r.template ewma<5000000>(name(i)); }); } static void kh() { twice([](auto& r, int i) { return r.histogram(name(i), S4()); }); } static void km() { vs_steady_ns = 1000000000; twice([](auto& r, int i) { return r.template meter<1000000, 5000000>(name(i)); }); } static void kg() { twice([](auto& r, int i) { return r.gauge(name(i), 5); }); } static void kf() { twice([](auto& r, int i) { return r.gauge(name(i), std::function<int()>([] { return 3; })); }); }
typedef simple_reservoir<std::chrono::steady_clock::duration, 4> D4; static void kt() { vs_steady_ns = 1000000000; twice([](auto& r, int i) { return r.template timer<1000000, std::chrono::steady_clock, D4, 5000000>(name(i), D4()); }); }
VS_ENTRY(every_kind) { pick<Fn>({ke, kh, km, kg, kf, kt}); }
// visits and aggregations meanwhile
VS_ENTRY(visits) { R r; int old = vs_choose("old", 2); int64_t o = amount("o"), a = amount("a"); C z, x; if (old) { z = r.counter<int64_t>("p"_m, tag(1)); *z += o; } int n = 0, m = 0, bad = 0, odd = 0; auto f = [&] { x = r.counter<int64_t>("p"_m, tag(2)); *x += a; }; auto g = [&] { r.visit_registered_metrics([&](const metric_path& p, basic_registered_metric& b) { n++; if (p != "p"_m) bad++; b.visit([&](const tag_collection& t, const cumulative_value_snapshot& s) { m++; if (t == tag(1)) odd += !(metric_value(s.value()) == metric_value(o)); else if (t == tag(2)) odd += !(metric_value(s.value()) == metric_value(a) || metric_value(s.value()) == metric_value((int64_t)0)); else bad++; }); }); }; vs_spawn(f); vs_spawn(g); vs_join();
  vs_assert(n <= 1 && m <= 1 + old && bad == 0, "at-most-once"); vs_assert(n >= old && m >= old, "old-ones-seen"); vs_assert(odd == 0, "values-seen"); vs_assert(::tagged(r) == 1 + old, "after-the-visit"); }
VS_ENTRY(other_paths) { R r; int old = vs_choose("old", 2); C z, x; if (old) z = r.counter("a"_m); int n = 0, na = 0, nb = 0; auto f = [&] { x = r.counter("b"_m); }; auto g = [&] { r.visit_registered_metrics([&](const metric_path& p, basic_registered_metric&) { n++; na += p == "a"_m; nb += p == "b"_m; }); }; vs_spawn(f); vs_spawn(g); vs_join(); vs_assert(na == old && nb <= 1 && n == na + nb, "paths-at-most-once"); vs_assert(::registered(r) == 1 + old && r.counter("b"_m) == x, "paths-after"); }
VS_ENTRY(aggregates) { R r; int64_t o = amount("o"), a = amount("a"); C z = r.counter<int64_t>("p"_m, tag(1)), x; *z += o; int calls = 0; int64_t v = 0; auto f = [&] { x = r.counter<int64_t>("p"_m, tag(2)); *x += a; }; auto g = [&] { r.visit_registered_metrics([&](const metric_path&, basic_registered_metric& b) { b.aggregate([&](const cumulative_value_snapshot& s) { calls++; v = (int64_t)metric_value(s.value()); }); }); }; vs_spawn(f); vs_spawn(g); vs_join(); vs_assert(calls == 1, "one-aggregate"); vs_assert((v == o) | (v == o + a), "aggregate-of-some-moment"); }
VS_ENTRY(two_requests) { R r; int k = vs_choose("order", 2); C x[2], y[2]; int64_t a = amount("a"), b = amount("b"); auto f = [&] { x[0] = r.counter<int64_t>("p"_m, tag(1)); x[1] = r.counter<int64_t>("p"_m, tag(2)); *x[0] += a; *x[1] += b; }; auto g = [&] { y[k] = r.counter<int64_t>("p"_m, tag(1 + k)); y[1 - k] = r.counter<int64_t>("p"_m, tag(2 - k)); *y[0] += b; *y[1] += a; }; vs_spawn(f); vs_spawn(g); vs_join(); vs_assert(x[0] == y[0] && x[1] == y[1] && x[0] != x[1], "both-the-same"); vs_assert((int64_t)*x[0] == a + b && (int64_t)*x[1] == a + b, "both-totals"); }
VS_ENTRY(existing) { R r; C mine(new counter<int64_t>(7)), x; bool added = false; auto f = [&] { added = r.register_existing("p"_m, mine); }; auto g = [&] { x = r.counter("p"_m, (int64_t)3); ++*x; }; vs_spawn(f); vs_spawn(g); vs_join(); vs_assert((x == mine) == added, "existing-or-new"); vs_assert((int64_t)*x == (added ? 8 : 4), "value-of-the-registered"); vs_assert(r.counter("p"_m) == x, "one-stays"); }
VS_ENTRY(two_existing) { R r; C m(new counter<int64_t>(7)), n(new counter<int64_t>(9)); bool a = false, b = false; auto f = [&] { a = r.register_existing("p"_m, m); }; auto g = [&] { b = r.register_existing("p"_m, n); }; vs_spawn(f); vs_spawn(g); vs_join(); vs_assert(a != b, "one-existing"); vs_assert(r.counter("p"_m) == (a ? m : n), "which-existing"); }
// many threads of a grown table: rehashing meanwhile
VS_ENTRY(growth) { R r; int n = vs_choose("before", 2) ? 13 : 1; C c[16]; static const char* ps[] = {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d"}; for (int i = 0; i < n; i++) c[i] = r.counter(metric_path(ps[i])); C x, y; auto f = [&] { x = r.counter(metric_path(ps[n])); }; auto g = [&] { y = r.counter(metric_path(ps[n - 1])); }; vs_spawn(f); vs_spawn(g); vs_join(); c[n] = x; vs_assert(y == c[n - 1], "old-one-found"); for (int i = 0; i <= n; i++) vs_assert(r.counter(metric_path(ps[i])) == c[i], "all-found"); vs_assert(::registered(r) == n + 1, "all-registered"); }
// publish options
struct opts : basic_publish_options { int v; opts(int x = 0) : v(x) {} };
struct repo_test { };
VS_ENTRY(publish_data) { default_repository p; int a = vs_any<int>("a"), b = vs_any<int>("b"); opts *x = nullptr, *y = nullptr; auto f = [&] { x = &p.get_publish_data<opts>(+a); }; auto g = [&] { y = &p.get_publish_data<opts>(+b); }; vs_spawn(f); vs_spawn(g); vs_join(); vs_assert(x == y, "same-publish-data"); vs_assert((x->v == a) | (x->v == b), "data-of-one"); vs_assert(static_cast<const default_repository&>(p).get_publish_data<opts>() == x, "data-found"); }
VS_ENTRY(publish_reads) { default_repository p; const default_repository& c = p; opts *x = nullptr, *y = nullptr; auto f = [&] { x = &p.get_publish_data<opts>(5); }; auto g = [&] { y = c.get_publish_data<opts>(); }; vs_spawn(f); vs_spawn(g); vs_join(); vs_assert(y == nullptr || y == x, "data-or-none"); vs_assert(c.get_publish_data<opts>() == x && x->v == 5, "data-later"); }
VS_ENTRY(default_options) { R r; const R& c = r; const publish_options *x = nullptr, *y = nullptr; auto f = [&] { x = &c.publish_options(); }; auto g = [&] { y = &c.publish_options(); }; vs_spawn(f); vs_spawn(g); vs_join(); vs_assert(x == y && x != nullptr, "same-defaults"); }
VS_ENTRY(option_overrides) { R r; C x; auto f = [&] { x = r.counter("p"_m); }; auto g = [&] { r.publish_options("p"_m, publish_options(value_publish_options(scale_factor(2)))); }; vs_spawn(f); vs_spawn(g); vs_join(); vs_assert(x != nullptr && ::tagged(r) == 1, "options-meanwhile"); }
struct looks : metrics_publisher<default_repository> { looks(R& r) : metrics_publisher(r) {} bool there(const metric_path& p) { return has_metric(p); } std::string type(const metric_path& p) { return metric_type(p); } int64_t value(const metric_path& p) { int64_t v = -1; visit_one(p, [&](const metric_path&, basic_registered_metric& m) { m.visit([&](const tag_collection&, const cumulative_value_snapshot& x) { v = (int64_t)x.value(); }); }); return v; } opts* data(const metric_path& p) { return this->template get_data_for<opts>(p, 4); } };
VS_ENTRY(lookups) { R r; int n = vs_choose("before", 2) ? 13 : 1; static const char* ps[] = {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d"}; C o; for (int i = 0; i < n; i++) o = r.counter(metric_path(ps[i])); *o += 5; looks p(r); int how = vs_choose("how", 4); metric_path old(ps[n - 1]); C x; bool ok = false; auto f = [&] { x = r.counter(metric_path(ps[n])); }; auto g = [&] { ok = how == 0 ? p.there(old) : how == 1 ? !p.type(old).empty() : how == 2 ? p.data(old) != nullptr : p.value(old) == 5; }; vs_spawn(f); vs_spawn(g); vs_join(); vs_assert(ok, "found-meanwhile"); vs_assert(p.there(metric_path(ps[n])), "found-afterwards"); }
