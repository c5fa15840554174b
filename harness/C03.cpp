// bound: int64, int, unsigned, double and string gauges, function, reference and pointer gauges; arbitrary values; four changes of the source
#include "h.h"
using gauges::aggregation_sum; using gauges::aggregation_average;
template <class S> static bool is_sum(const S&) { return std::is_base_of<cumulative_value_snapshot, S>::value; }
template <class S> static bool is_avg(const S&) { return std::is_base_of<average_value_snapshot, S>::value; }
template <class T, gauges::gauge_aggregation_type A> static void prim() {
  T a = vs_any<T>("a"), b = vs_any<T>("b"), d = vs_any<T>("d");
  gauge<T, A> g(a); const gauge<T, A>& cg = g;
  vs_assert(g.get() == a && cg.get() == a, "initial");
  g.set(b); vs_assert(g.get() == b && cg.get() == b, "set");
  vs_assert(g.snapshot() == metric_value(b), "snapshot");
  g = d; vs_assert(g.get() == d, "assigned");
  gauge<T, A> c(g); g.set(a); vs_assert(c.get() == d && g.get() == a, "copy-is-independent");
  c = g; vs_assert(c.get() == a, "gauge-assigned"); c.set(b); vs_assert(g.get() == a, "assigned-is-independent");
  gauge<T, A> m(std::move(c)); vs_assert(m.get() == b, "moved");
  g = std::move(m); vs_assert(g.get() == b && cg.snapshot().value() == metric_value(b), "move-assigned");
  gauge<T, A> z; vs_assert(z.get() == T(), "default");
  vs_assert(A == aggregation_sum ? is_sum(g.snapshot()) : is_avg(g.snapshot()), "aggregation");
}
VS_ENTRY(i64avg) { prim<int64_t, aggregation_average>(); }
VS_ENTRY(i32sum) { prim<int, aggregation_sum>(); }
VS_ENTRY(u16sum) { prim<uint16_t, aggregation_sum>(); }
VS_ENTRY(dbl) {
  double a = vs_double("a", -1e30, 1e30), b = vs_double("b", -1e30, 1e30); gauge<double> g(a); vs_assert(g.get() == a, "double-initial"); g.set(b); vs_assert(g.get() == b, "double-set"); vs_assert(g.snapshot() == metric_value(b), "double-snapshot");
  g = a; vs_assert(g.get() == a, "double-assigned");
}
VS_ENTRY(str) {
  std::string s(1, (char)vs_range("c", 1, 255)); gauge<std::string> g(s); vs_assert(g.get() == s, "string-initial"); g.set("other"); vs_assert(g.get() == "other", "string-set"); g = s; vs_assert(g.get() == s && g.snapshot() == metric_value(s), "string-snapshot");
  gauge<std::string> h(std::move(g)); vs_assert(h.get() == s, "string-moved");
}
template <gauges::gauge_aggregation_type A> static void fn() {
  int64_t cur = vs_any<int64_t>("v0"); int calls = 0; std::function<int64_t()> src = [&] { calls++; return cur; };
  gauge<std::function<int64_t()>, A> g(src); const auto& cg = g;
  for (int i = 0; i < 3; i++) {
    int before = calls; vs_assert(g.get() == cur, "function-value"); vs_assert(calls == before + 1, "function-called");
    cur = vs_any<int64_t>("v"); vs_assert(cg.get() == cur, "function-value-const"); vs_assert(g.snapshot() == metric_value(cur), "function-snapshot");
  }
  int64_t o = vs_any<int64_t>("o"); gauge<std::function<int64_t()>, A> h(std::function<int64_t()>([&] { return o; }));
  auto k = h; o = vs_any<int64_t>("o2"); vs_assert(k.get() == o, "function-copy"); g = h; vs_assert(g.get() == o, "function-assigned");
  gauge<std::function<int64_t()>, A> mv(std::move(h)); vs_assert(mv.get() == o, "function-moved"); int64_t o3 = vs_any<int64_t>("o3"); gauge<std::function<int64_t()>, A> n(std::function<int64_t()>([&] { return o3; })); mv = std::move(n); vs_assert(mv.get() == o3, "function-move-assigned");
  vs_assert(A == aggregation_sum ? is_sum(g.snapshot()) : is_avg(g.snapshot()), "function-aggregation");
}
VS_ENTRY(fn_avg) { fn<aggregation_average>(); }
VS_ENTRY(fn_sum) { fn<aggregation_sum>(); }
template <class G, class M> static void ref(M make, bool sum) {
  int64_t x = vs_any<int64_t>("x"), y = vs_any<int64_t>("y"); G g = make(x), h = make(y); const G& cg = g;
  for (int i = 0; i < 2; i++) { vs_assert(g.get() == x && cg.get() == x && h.get() == y, "reference-value"); vs_assert(g.snapshot() == metric_value(x), "reference-snapshot"); x = vs_any<int64_t>("x"); y = vs_any<int64_t>("y"); }
  G c(g); x = vs_any<int64_t>("x3"); vs_assert(c.get() == x, "reference-copy");
  int64_t keep = x; g = h; y = vs_any<int64_t>("y3"); vs_assert(g.get() == y, "reference-assigned"); vs_assert(x == keep, "source-untouched");
  vs_assert(sum ? is_sum(g.snapshot()) : is_avg(g.snapshot()), "reference-aggregation");
}
VS_ENTRY(ref_avg) { ref<gauge<int64_t&>>([](int64_t& r) { return gauge<int64_t&>(r); }, false); }
VS_ENTRY(ref_sum) { ref<gauge<int64_t&, aggregation_sum>>([](int64_t& r) { return gauge<int64_t&, aggregation_sum>(r); }, true); }
VS_ENTRY(ptr_avg) { ref<gauge<int64_t*>>([](int64_t& r) { return gauge<int64_t*>(&r); }, false); }
VS_ENTRY(ptr_sum) { ref<gauge<int64_t*, aggregation_sum>>([](int64_t& r) { return gauge<int64_t*, aggregation_sum>(&r); }, true); }
VS_ENTRY(names) {
  int64_t x = 0; gauge<int64_t> a; gauge<int64_t, aggregation_sum> b; gauge<int64_t&> c(x); gauge<int64_t*> d(&x); gauge<int64_t&, aggregation_sum> e(x); gauge<std::function<int64_t()>> f(std::function<int64_t()>([] { return (int64_t)0; }));
  std::string n[6] = {a.metric_type(), b.metric_type(), c.metric_type(), d.metric_type(), e.metric_type(), f.metric_type()};
  bool ok = true; for (int i = 0; i < 6; i++) for (int j = 0; j < i; j++) ok &= n[i] != n[j];
  vs_assert(ok, "different-gauges-have-different-types");
}
