// bound: arbitrary values of counters and gauges; paths of up to 2 elements and tag sets of up to 2 tags over three letters and five values (every combination); histories of 3 (thorough: 4) requests over 2 paths, 3 tag sets and 2 types; every pair of the metric types counter, average, gauge, function gauge, histogram, meter and timer for the rejection of another type, and of two widths or windows of the same type; up to 24 (thorough: 60) paths or tag sets and names of up to 41 (thorough: 81) bytes that differ in one place
// outside: arbitrary names (hashing them symbolically is out of reach; every combination of a few is taken); meters that list the same windows in another order; collisions of type names across shared libraries
#include "h.h"
template <class F> static void pick(std::initializer_list<F> fs) { int k = vs_choose("pair", (int)fs.size()); int i = 0; for (F f : fs) if (i++ == k) f(); }
typedef void (*Fn)();
typedef metrics_registry<> R;
static std::string letter(const char* n) { return std::string(1, (char)('a' + vs_choose(n, 3))); }
template <class RR> static int registered(RR& r) { int n = 0; r.visit_registered_metrics([&](const metric_path&, basic_registered_metric&) { n++; }); return n; }
template <class RR> static int tagged(RR& r) { int n = 0; r.visit_registered_metrics([&](const metric_path&, basic_registered_metric& m) { m.visit([&](const tag_collection&, const auto&) { n++; }); }); return n; }
VS_ENTRY(paths) { // the same object exactly for the same elements
  R r; int n = 1 + vs_choose("elements", 2), m = 1 + vs_choose("others", 2); std::string a[2], b[2]; metric_path p(""), q(""); for (int i = 0; i < n; i++) p = p / (a[i] = letter("a")); for (int i = 0; i < m; i++) q = q / (b[i] = letter("b")); bool same = n == m && a[0] == b[0] && a[1] == b[1];
  auto x = r.counter(p), y = r.counter(q); vs_assert((x == y) == same, "same-object-for-same-path"); ++*x; vs_assert((int64_t)*y == (same ? 1 : 0), "shared-count"); vs_assert(::registered(r) == (same ? 1 : 2), "registered"); vs_assert(r.counter(p) == x && r.counter(q) == y, "again");
}
VS_ENTRY(split) { R r; auto a = r.counter("a"_m / "b"_m), b = r.counter("ab"_m), c = r.counter("a/b"_m), d = r.counter("b"_m / "a"_m), e = r.counter(metric_path("a") / metric_path("b")), f = r.counter(metric_path("") / "a" / "" / "b"); vs_assert(a != b && a != c && a != d && b != c, "different-elements"); vs_assert(a == e && a == f, "same-elements"); }
VS_ENTRY(spellings) { // tags given in another order or type of integer are the same tags
  R r; static const int64_t vs[] = {0, 1, -7, 255, 1000}; int64_t v = vs[vs_choose("v", 5)], w = vs[vs_choose("w", 5)] & 1023; auto a = r.counter("p"_m, {{"x", v}, {"y", w}}), b = r.counter("p"_m, {{"y", (uint16_t)w}, {"x", (int)v}}), c = r.counter("p"_m, {{"x", v}, {"y", w}, {"x", v}}); vs_assert(a == b, "order-of-tags"); vs_assert(a == c, "repeated-tag"); tag_collection t{{"x", v}, {"y", w}}, u(t); auto d = r.counter<int64_t>(metric_path(std::string("p")), u); vs_assert(a == d, "copied-tags"); vs_assert(::tagged(r) == 1, "one-tag-set");
}
VS_ENTRY(tags) { // different tag values, names or numbers of tags are different objects
  R r; static const int64_t vs[] = {0, 1, -1, INT64_MIN, 1ll << 40}; int64_t v = vs[vs_choose("v", 5)], w = vs[vs_choose("w", 5)]; std::string n = letter("n"), m = letter("m"); auto a = r.counter("p"_m, {{n, v}}), b = r.counter("p"_m, {{m, w}}); bool same = n == m && v == w; vs_assert((a == b) == same, "same-object-for-same-tags"); auto c = r.counter("p"_m), d = r.counter("p"_m, {{n, v}, {"zz", 1}}), e = r.counter("q"_m, {{n, v}}); vs_assert(c != a && d != a && c != d && e != a && e != b, "other-objects"); vs_assert(r.counter("p"_m, {{n, v}}) == a && r.counter("p"_m, {}) == c, "tags-again"); vs_assert(::tagged(r) == (same ? 4 : 5), "number-of-tag-sets");
}
VS_ENTRY(texts) { R r; std::string v = letter("v"), w = letter("w"); auto a = r.counter("p"_m, {{"t", v}}), b = r.counter("p"_m, {{"t", w}}), c = r.counter("p"_m, {{"t", v + w}}); vs_assert((a == b) == (v == w), "text-tags"); vs_assert(a != c && b != c, "longer-text"); }
// histories: a reference map from (path, tags) to objects
VS_ENTRY(histories) {
  R r; static const char* ps[] = {"one", "two"}; std::shared_ptr<counter<int64_t>> cs[2][3]; std::shared_ptr<gauge<int>> gs[2][3]; int type[2] = {0, 0}; int64_t count[2][3] = {}; int n = Q(3, 4), total = 0;
  for (int i = 0; i < n; i++) {
    int p = vs_choose("path", 2), t = vs_choose("tags", 3), k = 1 + vs_choose("type", 2); tag_collection tc = t == 0 ? tag_collection() : t == 1 ? tag_collection{{"k", 1}} : tag_collection{{"k", 2}}; bool thrown = false;
    try { if (k == 1) { int64_t v = vs_any<int64_t>("v"); bool fresh = !cs[p][t]; auto c = fresh ? r.counter(metric_path(ps[p]), std::move(v), tc) : r.counter(metric_path(ps[p]), 99l, tc); vs_assert(type[p] != 2, "counter-accepted"); if (fresh) { vs_assert(c != nullptr, "made"); for (auto& a : cs) for (auto& b : a) vs_assert(b != c, "counter-of-others"); cs[p][t] = c; count[p][t] = (int64_t)*c; vs_assert((int64_t)*c == v, "initial-value"); total++; } else { vs_assert(cs[p][t] == c, "counter-again"); vs_assert((int64_t)*c == count[p][t], "arguments-ignored"); ++*c; count[p][t] = (int64_t)*c; } }
      else { int v = vs_any<int>("v"); bool fresh = !gs[p][t]; auto g = r.gauge(metric_path(ps[p]), std::move(v), tc); vs_assert(type[p] != 1, "gauge-accepted"); if (fresh) { for (auto& a : gs) for (auto& b : a) vs_assert(b != g, "gauge-of-others"); gs[p][t] = g; vs_assert(g->get() == v, "initial-gauge"); total++; } else vs_assert(gs[p][t] == g, "gauge-again"); } type[p] = k; }
    catch (metric_type_mismatch& e) { thrown = true; vs_assert(type[p] == 3 - k, "rejected-without-reason"); }
    vs_assert(thrown == (type[p] == 3 - k), "rejected"); vs_assert(::tagged(r) == total, "total"); vs_assert(::registered(r) == (type[0] != 0) + (type[1] != 0), "paths");
  }
}
// every pair of types
typedef std::function<int()> F; typedef simple_reservoir<int64_t, 4> S4; typedef simple_reservoir<std::chrono::steady_clock::duration, 4> D4;
struct Co { typedef counter<int64_t> M; static auto get(R& r, const tag_collection& t) { return r.counter<int64_t>("p"_m, t); } }; struct Co32 { typedef counter<int> M; static auto get(R& r, const tag_collection& t) { return r.counter<int>("p"_m, t); } };
struct Ew { typedef ewma<5000000> M; static auto get(R& r, const tag_collection& t) { return r.ewma<5000000>("p"_m, t); } }; struct Ew2 { typedef ewma<60000000> M; static auto get(R& r, const tag_collection& t) { return r.ewma<60000000>("p"_m, t); } }; struct Ew3 { typedef ewma<5000000, 2000000> M; static auto get(R& r, const tag_collection& t) { return r.ewma<5000000, 2000000>("p"_m, t); } };
struct Ga { typedef gauge<int> M; static auto get(R& r, const tag_collection& t) { return r.gauge("p"_m, 5, t); } }; struct GaS { typedef gauge<int, gauges::aggregation_sum> M; static auto get(R& r, const tag_collection& t) { return r.gauge<int, gauges::aggregation_sum>("p"_m, 5, t); } };
struct Fu { typedef gauge<F> M; static auto get(R& r, const tag_collection& t) { return r.gauge("p"_m, F([] { return 3; }), t); } };
struct Hi { typedef histogram<int64_t, S4> M; static auto get(R& r, const tag_collection& t) { return r.histogram("p"_m, S4(), t); } };
struct Me { typedef meter<1000000, 5000000> M; static auto get(R& r, const tag_collection& t) { return r.meter<1000000, 5000000>("p"_m, t); } }; struct Me2 { typedef meter<1000000, 5000000, 60000000> M; static auto get(R& r, const tag_collection& t) { return r.meter<1000000, 5000000, 60000000>("p"_m, t); } };
struct Ti { typedef timer<1000000, std::chrono::steady_clock, D4, 5000000> M; static auto get(R& r, const tag_collection& t) { return r.timer<1000000, std::chrono::steady_clock, D4, 5000000>("p"_m, D4(), t); } };
template <class A, class B> static void clash() {
  vs_steady_ns = 1000000000; R r, fresh, other; auto a = A::get(r, {}); bool thrown = false; int t = vs_choose("tagged", 2); tag_collection tc = t ? tag_collection{{"t", 1}} : tag_collection();
  try { B::get(r, tc); } catch (metric_type_mismatch& e) { thrown = true; vs_assert(e.existing_metric_type() == A::get(fresh, {})->metric_type(), "existing-type-named"); vs_assert(e.desired_metric_type() == B::get(other, {})->metric_type(), "desired-type-named"); }
  bool same = std::is_same<A, B>::value; vs_assert(thrown == !same, "other-type-rejected"); vs_assert(::tagged(r) == (same && t ? 2 : 1), "nothing-changed"); vs_assert(A::get(r, {}) == a, "still-there"); std::string ty; r.visit_registered_metrics([&](const metric_path& p, basic_registered_metric& m) { ty = m.type(); vs_assert(p == "p"_m, "path-kept"); }); vs_assert(ty == A::get(fresh, {})->metric_type() && ty == a->metric_type(), "type-kept");
}
template <class A> static void row() { pick<Fn>({clash<A, Co>, clash<A, Co32>, clash<A, Ew>, clash<A, Ew2>, clash<A, Ga>, clash<A, GaS>, clash<A, Fu>, clash<A, Hi>, clash<A, Me>, clash<A, Me2>, clash<A, Ti>}); }
VS_ENTRY(types_counter) { pick<Fn>({row<Co>, row<Co32>}); }
VS_ENTRY(types_average) { pick<Fn>({row<Ew>, row<Ew2>, row<Ew3>}); }
VS_ENTRY(types_gauge) { pick<Fn>({row<Ga>, row<GaS>, row<Fu>}); }
VS_ENTRY(types_others) { pick<Fn>({row<Hi>, row<Me>, row<Me2>, row<Ti>}); }
// arguments only matter the first time, for every kind of metric
VS_ENTRY(arguments) {
  R r; int64_t a = vs_any<int64_t>("a"), b = vs_any<int64_t>("b"); S4 s, t; s.update(a); t.update(b); t.update(b); auto h = r.histogram("h"_m, std::move(s)), h2 = r.histogram("h"_m, std::move(t)); vs_assert(h == h2 && h->snapshot().size() == 1 && h->snapshot().min() == metric_value(a), "first-reservoir"); int x = 1, y = 2; auto g = r.gauge("g"_m, x), g2 = r.gauge("g"_m, y); x = 7; vs_assert(g == g2 && g->get() == 7, "first-reference");
  auto f = r.gauge("f"_m, std::function<int64_t()>([&] { return a; })), f2 = r.gauge("f"_m, std::function<int64_t()>([&] { return b; })); vs_assert(f == f2 && f2->get() == a, "first-function"); auto c = r.counter("c"_m, (int64_t)a), c2 = r.counter("c"_m, (int64_t)b); vs_assert(c == c2 && (int64_t)*c2 == a, "first-count");
}
VS_ENTRY(two_registries) { R r, s; auto a = r.counter("p"_m), b = s.counter("p"_m); vs_assert(a != b, "registries-apart"); vs_assert(r.counter("p"_m) == a && s.counter("p"_m) == b, "registries-again"); }
VS_ENTRY(outlives) { std::shared_ptr<counter<int64_t>> c; { R r; c = r.counter("p"_m, 5l); } ++*c; vs_assert((int64_t)*c == 6, "outlives-registry"); }
// registries and metrics that have grown: different names and tags stay different objects, the same stay the same
VS_ENTRY(many) {
  R r; int n = 1 + vs_choose("n", Q(24, 60)), which = vs_choose("which", 3); std::vector<std::shared_ptr<counter<int64_t>>> cs; auto get = [&](int i) { std::string s = std::to_string(i); return which == 0 ? r.counter<int64_t>(metric_path("p" + s), tag_collection()) : which == 1 ? r.counter<int64_t>("p"_m, i == 0 ? tag_collection() : tag_collection{{"k", i}}) : r.counter<int64_t>("p"_m / "q"_m, tag_collection{{"name" + s, "v" + s}, {"k", 1}}); };
  for (int i = 0; i < n; i++) { auto c = get(i); for (auto& o : cs) vs_assert(o != c, "one-more-object"); cs.push_back(c); *c = vs_any<int64_t>("v"); } for (int i = 0; i < n; i++) { auto c = get(i); vs_assert(c == cs[i], "same-after-growth"); } vs_assert(::tagged(r) == n && ::registered(r) == (which == 0 ? n : 1), "number-after-growth");
}
VS_ENTRY(long_names) { // names of every length, equal and different in one place
  R r; int n = 1 + vs_choose("n", Q(40, 80)); std::string s(n, 'x'), t(s); int at = vs_choose("at", 3); t[at == 0 ? 0 : at == 1 ? n / 2 : n - 1] = 'y'; auto a = r.counter(metric_path(s)), b = r.counter(metric_path(t)), c = r.counter("p"_m, {{s, 1}}), d = r.counter("p"_m, {{t, 1}}), e = r.counter("p"_m, {{"k", s}}), f = r.counter("p"_m, {{"k", t}}), g = r.counter(metric_path(s + "x")), h = r.counter("p"_m, {{"k", s + "x"}}); vs_assert(a != b && c != d && e != f && g != a && g != b && h != e && h != f, "long-names-apart"); vs_assert(r.counter(metric_path(s)) == a && r.counter("p"_m, {{s, 1}}) == c && r.counter("p"_m, {{"k", s}}) == e, "long-names-again");
}
