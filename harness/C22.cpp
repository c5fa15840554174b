// bound: registries with up to 3 (thorough: 4) registrations over 3 paths and 3 tag sets, and of 1 to 40 paths or tag sets of which one has any of the values, all metric types, arbitrary 64-bit values; handlers that take everything, only some kinds of snapshots, or throw; existing objects of every type registered before and after others, null ones, and ones of another type
// outside: handlers that use the registry while they are called (it is locked)
#include "h.h"
template <class F> static void pick(std::initializer_list<F> fs) { int k = vs_choose("pair", (int)fs.size()); int i = 0; for (F f : fs) if (i++ == k) f(); }
typedef void (*Fn)();
typedef metrics_registry<> R;
static tag_collection tagset(int t) { return t == 0 ? tag_collection() : t == 1 ? tag_collection{{"k", 1}} : tag_collection{{"k", 1}, {"l", "x"}}; }
static metric_value val(const value_snapshot& s) { return s.value(); }
static metric_value val(const histogram_snapshot& s) { return metric_value(s.count()); }
VS_ENTRY(everything) { // each path once, each tag set once with its tags and current value
  R r; static const char* ps[] = {"one", "two", "two/three"}; bool has[3][3] = {}; int64_t now[3][3]; int n = Q(3, 4), paths = 0, total = 0;
  for (int i = 0; i < n; i++) { int p = vs_choose("path", 3), t = vs_choose("tags", 3); int64_t v = vs_any<int64_t>("v"); auto c = r.counter(metric_path(ps[p]), (int64_t)v, tagset(t)); if (!has[p][t]) { has[p][t] = true; now[p][t] = v; } *c = v; now[p][t] = v; }
  int seen[3][3] = {}, visited[3] = {}; r.visit_registered_metrics([&](const metric_path& p, basic_registered_metric& m) { int i = -1; for (int k = 0; k < 3; k++) if (p == metric_path(ps[k])) i = k; vs_assert(i >= 0, "known-path"); visited[i]++; m.visit([&](const tag_collection& tc, const auto& s) { int j = -1; for (int k = 0; k < 3; k++) if (tc == tagset(k)) j = k; vs_assert(j >= 0, "known-tags"); seen[i][j]++; vs_assert(val(s) == metric_value(now[i][j]), "current-value"); }); });
  for (int i = 0; i < 3; i++) { bool any = false; for (int j = 0; j < 3; j++) { any |= has[i][j]; vs_assert(seen[i][j] == has[i][j], "each-tag-set-once"); } vs_assert(visited[i] == any, "each-path-once"); } (void)paths; (void)total;
}
VS_ENTRY(nothing) { R r; int n = 0; r.visit_registered_metrics([&](const metric_path&, basic_registered_metric&) { n++; }); vs_assert(n == 0, "empty-registry"); }
// which overload is called, for each kind of metric
struct kinds { int avg = 0, cum = 0, met = 0, his = 0, tim = 0; };
struct all_kinds { kinds* k; void operator()(const tag_collection&, const average_value_snapshot&) const { k->avg++; } void operator()(const tag_collection&, const cumulative_value_snapshot&) const { k->cum++; } void operator()(const tag_collection&, const meter_snapshot&) const { k->met++; } void operator()(const tag_collection&, const histogram_snapshot&) const { k->his++; } void operator()(const tag_collection&, const timer_snapshot&) const { k->tim++; } };
typedef simple_reservoir<int64_t, 4> S4; typedef simple_reservoir<std::chrono::steady_clock::duration, 4> D4;
VS_ENTRY(kinds_of_metrics) {
  vs_steady_ns = 1000000000; R r; int n = 1 + vs_choose("tags", 2), which = vs_choose("which", 7); int64_t v = vs_any<int64_t>("v"); for (int i = 0; i < n; i++) { tag_collection t = tagset(i); if (which == 0) r.counter("p"_m, (int64_t)v, t); if (which == 1) r.gauge("p"_m, (int64_t)v, t); if (which == 2) r.gauge<int64_t, gauges::aggregation_sum>("p"_m, (int64_t)v, t); if (which == 3) r.ewma<5000000>("p"_m, t); if (which == 4) r.meter<1000000, 5000000>("p"_m, t); if (which == 5) r.histogram("p"_m, S4(), t)->update(v); if (which == 6) r.timer<1000000, std::chrono::steady_clock, D4, 5000000>("p"_m, D4(), t)->update(nanoseconds(5)); }
  kinds k; all_kinds h{&k}; r.visit_registered_metrics([&](const metric_path&, basic_registered_metric& m) { m.visit(h); }); vs_assert(k.cum == (which == 0 || which == 2 ? n : 0), "sums"); vs_assert(k.avg == (which == 1 || which == 3 ? n : 0), "averages"); vs_assert(k.met == (which == 4 ? n : 0), "meters"); vs_assert(k.his == (which == 5 ? n : 0), "histograms"); vs_assert(k.tim == (which == 6 ? n : 0), "timers");
}
VS_ENTRY(throwing) { R r; for (int i = 0; i < 3; i++) r.counter("p"_m, (int64_t)i, tagset(i)); int at = vs_choose("at", 3), n = 0; bool thrown = false; try { r.visit_registered_metrics([&](const metric_path&, basic_registered_metric& m) { m.visit([&](const tag_collection&, const auto&) { if (n++ == at) throw 5; }); }); } catch (int) { thrown = true; } vs_assert(thrown && n == at + 1, "exception-passes"); n = 0; r.visit_registered_metrics([&](const metric_path&, basic_registered_metric& m) { m.visit([&](const tag_collection&, const auto&) { n++; }); }); vs_assert(n == 3, "visit-after-exception"); vs_assert(r.counter("p"_m, 9l, tagset(1)) != nullptr, "usable-after-exception"); }
VS_ENTRY(collecting) { // a handler with state, given by reference, keeps what it gathers
  R r; int n = 1 + vs_choose("n", 3); int64_t v = vs_range("v", 0, 1000), sum = 0; for (int i = 0; i < n; i++) { r.counter("p"_m, v + i, tagset(i)); sum += v + i; } struct adder { int64_t* total; void operator()(const tag_collection&, const cumulative_value_snapshot& s) const { *total += (int64_t)s.value(); } }; int64_t total = 0; adder a{&total}; r.visit_registered_metrics([&](const metric_path&, basic_registered_metric& m) { m.visit(a); m.visit(adder{&total}); }); vs_assert(total == 2 * sum, "sum-of-visits");
}
// registering existing objects
VS_ENTRY(existing) {
  R r; int64_t v = vs_any<int64_t>("v"), w = vs_any<int64_t>("w"); auto mine = std::make_shared<counter<int64_t>>(v), other = std::make_shared<counter<int64_t>>(w); int t = vs_choose("tags", 3), u = vs_choose("others", 3); bool before = vs_choose("before", 2); std::shared_ptr<counter<int64_t>> first; if (before) first = r.counter<int64_t>("p"_m, tagset(u)); bool taken = before && t == u;
  vs_assert(r.register_existing("p"_m, mine, tagset(t)) == !taken, "added"); vs_assert(mine && (int64_t)*mine == v, "object-unchanged"); auto got = r.counter("p"_m, 77l, tagset(t)); vs_assert(got == (taken ? first : mine), "exactly-that-object"); vs_assert(!r.register_existing("p"_m, other, tagset(t)), "not-twice"); vs_assert(!r.register_existing("p"_m, mine, tagset(t)), "not-twice-the-same"); vs_assert(r.counter("p"_m, 78l, tagset(t)) == got, "not-replaced"); if (before) vs_assert(r.counter("p"_m, 79l, tagset(u)) == first, "others-kept"); *mine = w; int n = 0; r.visit_registered_metrics([&](const metric_path&, basic_registered_metric& m) { m.visit([&](const tag_collection& tc, const auto& s) { n++; if (!taken && tc == tagset(t)) vs_assert(val(s) == metric_value(w), "live-object"); }); }); vs_assert(n == 1 + (before && !taken), "number");
}
VS_ENTRY(refused) {
  R r; int64_t v = vs_any<int64_t>("v"); bool used = vs_choose("used", 2); if (used) r.counter("p"_m, (int64_t)v); std::shared_ptr<counter<int64_t>> none; vs_assert(!r.register_existing("p"_m, none), "null-refused"); std::shared_ptr<gauge<int>> nog; vs_assert(!r.register_existing("p"_m, nog), "null-of-other-type"); int n = 0; r.visit_registered_metrics([&](const metric_path&, basic_registered_metric&) { n++; }); vs_assert(n == used, "null-registers-nothing");
  auto g = std::make_shared<gauge<int>>(3); bool thrown = false, added = false; try { added = r.register_existing("p"_m, g, tagset(vs_choose("tags", 2))); } catch (metric_type_mismatch& e) { thrown = true; vs_assert(e.desired_metric_type() == g->metric_type() && e.existing_metric_type() == counter<int64_t>().metric_type(), "mismatch-names"); } vs_assert(thrown == used && added == !used, "mismatch-refused"); vs_assert(g && g->get() == 3, "refused-object-unchanged"); if (used) { int m = 0; r.visit_registered_metrics([&](const metric_path&, basic_registered_metric& x) { x.visit([&](const tag_collection&, const auto& s) { m++; vs_assert(val(s) == metric_value(v), "refused-changes-nothing"); }); }); vs_assert(m == 1, "refused-adds-nothing"); }
}
template <class M, class... A> static void one(A... a) { vs_steady_ns = 1000000000; R r; auto m = std::make_shared<M>(a...); vs_assert(r.register_existing("a"_m / "b"_m, m, tagset(1)), "any-type-added"); vs_assert(!r.register_existing("a"_m / "b"_m, std::make_shared<M>(a...), tagset(1)), "any-type-not-replaced"); vs_assert(r.register_existing("a"_m / "b"_m, std::make_shared<M>(a...), tagset(2)), "any-type-other-tags"); vs_assert(m.use_count() == 2, "shared-ownership"); int n = 0; r.visit_registered_metrics([&](const metric_path& p, basic_registered_metric& x) { vs_assert(p == "a"_m / "b"_m, "path"); vs_assert(x.type() == m->metric_type(), "type"); x.visit([&](const tag_collection&, const auto&) { n++; }); }); vs_assert(n == 2, "both-visited"); }
VS_ENTRY(existing_types) { pick<Fn>({[] { one<counter<int>>(vs_any<int>("v")); }, [] { one<ewma<5000000>>(); }, [] { one<gauge<double>>(1.5); }, [] { one<gauge<std::function<int()>>>(std::function<int()>([] { return 1; })); }, [] { static int i = 4; one<gauge<int&>>(std::ref(i)); }, [] { one<histogram<int64_t, S4>>(); }, [] { one<meter<1000000, 5000000>>(); }, [] { one<timer<1000000, std::chrono::steady_clock, D4, 5000000>>(); }}); }
// registries and metrics that have grown: every entry once, whatever the number
VS_ENTRY(many) {
  R r; int n = Q(1, 1) + vs_choose("n", Q(20, 40)); int which = vs_choose("which", 2); int64_t v = vs_any<int64_t>("v"); for (int i = 0; i < n; i++) { std::string name = "p" + std::to_string(i); auto c = which ? r.counter<int64_t>(metric_path(name), tagset(i % 3)) : r.counter<int64_t>("one"_m, tag_collection{{"k", i}}); *c = v ^ i; }
  int paths = 0; uint64_t seen = 0; bool once = true, values = true; r.visit_registered_metrics([&](const metric_path& p, basic_registered_metric& m) { paths++; std::string name = p.join("/"); int at = which ? std::stoi(name.substr(1)) : -1, k = 0; m.visit([&](const tag_collection& tc, const auto& s) { k++; int i = at; if (!which) for (const auto& t : tc) i = (int)(int64_t)t.second; once &= i >= 0 && i < n && !(seen >> i & 1); seen |= 1ull << i; values &= val(s) == metric_value(v ^ i); }); once &= k == (which ? 1 : n); });
  vs_assert(paths == (which ? n : 1), "many-paths-each-once"); vs_assert(once && seen == (1ull << n) - 1, "many-tag-sets-each-once"); vs_assert(values, "many-values");
}
