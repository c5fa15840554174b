// bound: histories of 3 (thorough: 4) requests for data of two types at the registry and at two metrics, by path and by reference, in every order, with arbitrary arguments; every kind of request for an unregistered path
// outside: data removed (there is no way to)
#include "h.h"
typedef metrics_registry<> R;
struct first : basic_publish_options { int64_t v; static int live; first(int64_t x = -1) : v(x) { live++; } ~first() override { live--; } }; int first::live = 0;
struct second : basic_publish_options { std::string s; int64_t v; static int live; second(const char* c = "none", int64_t x = -2) : s(c), v(x) { live++; } ~second() override { live--; } }; int second::live = 0;
struct pub : metrics_publisher<default_repository> {
  pub(R& r) : metrics_publisher(r) {} template <class D, class... A> D& data(A... a) { return this->template get_data<D>(a...); } template <class D, class... A> D* data_for(const metric_path& p, A... a) { return this->template get_data_for<D>(p, a...); } template <class D> bool has(const metric_path& p) const { return this->template has_data_for<D>(p); }
  template <class D, class... A> D* data_of(const metric_path& p, A... a) { D* d = nullptr; visit_one(p, [&](const metric_path&, basic_registered_metric& m) { d = &this->template get_data_for<D>(m, a...); }); return d; } template <class D> bool has_of(const metric_path& p) const { bool b = false; visit_one(p, [&](const metric_path&, basic_registered_metric& m) { b = this->template has_data_for<D>(m); }); return b; } bool metric(const metric_path& p) const { return has_metric(p); } std::string type(const metric_path& p) const { return metric_type(p); } template <class F> void one(const metric_path& p, F f) const { visit_one(p, f); } template <class F> void all(F f) const { visit_all(f); }
};
VS_ENTRY(histories) {
  R r; r.counter("one"_m); r.gauge("two"_m, 1); pub p(r), q(r); first* a[3] = {}; second* b[3] = {}; int64_t av[3], bv[3]; int n = Q(3, 4), fl = first::live, sl = second::live; int made1 = 0, made2 = 0;
  for (int i = 0; i < n; i++) {
    int where = vs_choose("where", 3), how = vs_choose("how", 2); bool type = vs_choose("type", 2); int64_t v = vs_any<int64_t>("v"); metric_path path = where == 1 ? "one"_m : "two"_m; pub& u = vs_choose("publisher", 2) ? q : p;
    if (!type) { first* d = where == 0 ? &u.data<first>(v) : how ? u.data_for<first>(path, v) : u.data_of<first>(path, v); vs_assert(d != nullptr, "given"); if (!a[where]) { a[where] = d; av[where] = v; made1++; } vs_assert(d == a[where], "same-object"); vs_assert(d->v == av[where], "first-arguments"); d->v = av[where] = v + 1; }
    else { second* d = where == 0 ? &u.data<second>("x", v) : how ? u.data_for<second>(path, "x", v) : u.data_of<second>(path, "x", v); vs_assert(d != nullptr, "given-second"); if (!b[where]) { b[where] = d; bv[where] = v; made2++; } vs_assert(d == b[where], "same-second"); vs_assert(d->v == bv[where] && d->s == "x", "first-arguments-second"); }
    for (int k = 1; k < 3; k++) { metric_path mp = k == 1 ? "one"_m : "two"_m; vs_assert(p.has<first>(mp) == (a[k] != nullptr) && q.has_of<first>(mp) == (a[k] != nullptr), "has"); vs_assert(p.has<second>(mp) == (b[k] != nullptr) && p.has_of<second>(mp) == (b[k] != nullptr), "has-second"); vs_assert(!p.has<publish_options>(mp), "no-options"); } vs_assert(first::live - fl == made1 && second::live - sl == made2, "never-created-by-looking");
  }
  for (int k = 0; k < 3; k++) { for (int j = 0; j < k; j++) vs_assert((!a[k] || a[k] != a[j]) && (!b[k] || b[k] != b[j]), "separate"); if (a[k]) vs_assert(a[k]->v == av[k], "kept"); }
}
VS_ENTRY(unregistered) {
  R r; bool other = vs_choose("other", 2); if (other) r.counter("one"_m); pub p(r); metric_path x = "one"_m / "two"_m; p.data<first>(5); int live = first::live, calls = 0; vs_assert(!p.metric(x), "no-metric"); vs_assert(p.type(x).empty(), "no-type"); vs_assert(p.data_for<first>(x, 3) == nullptr && p.data_for<second>(x) == nullptr, "no-data"); vs_assert(!p.has<first>(x) && !p.has<second>(x), "nothing-there"); p.one(x, [&](const metric_path&, basic_registered_metric&) { calls++; }); vs_assert(calls == 0, "no-visit"); vs_assert(first::live == live, "nothing-made"); p.all([&](const metric_path&, basic_registered_metric&) { calls++; }); vs_assert(calls == other, "nothing-registered"); r.counter(x); vs_assert(p.metric(x) && !p.type(x).empty() && !p.has<first>(x) && p.data_for<first>(x, 3)->v == 3 && p.has<first>(x), "registered-later"); p.one(x, [&](const metric_path& y, basic_registered_metric&) { calls += 10; vs_assert(y == x, "visited-path"); }); vs_assert(calls == 10 + other, "one-visit");
}
VS_ENTRY(types) { R r; vs_steady_ns = 1000000000; typedef simple_reservoir<int64_t, 2> S2; typedef simple_reservoir<nanoseconds, 2> D2; r.counter("c"_m); r.gauge("g"_m, 1); r.ewma<5000000>("e"_m); r.histogram("h"_m, S2()); r.meter<1000000, 5000000>("m"_m); r.timer<1000000, std::chrono::steady_clock, D2, 5000000>("t"_m, D2()); r.gauge("f"_m, std::function<int()>([] { return 1; })); pub p(r); static const char* paths[] = {"c", "g", "e", "h", "m", "t", "f"}; std::string all[7]; for (int i = 0; i < 7; i++) { all[i] = p.type(metric_path(paths[i])); vs_assert(!all[i].empty() && all[i].find('<') == std::string::npos && all[i].find(' ') == std::string::npos, "type-of-registered"); for (int j = 0; j < i && i < 6; j++) vs_assert(all[i] != all[j], "types-apart"); } }
VS_ENTRY(every_tag_set) { R r; r.counter("one"_m, {{"k", 1}}); r.counter("one"_m, {{"k", 2}}); pub p(r); int64_t v = vs_any<int64_t>("v"); first* d = p.data_for<first>("one"_m, v); r.counter("one"_m, {{"k", 3}}); vs_assert(p.data_for<first>("one"_m, 0) == d && d->v == v, "per-path"); }
VS_ENTRY(defaults) { R r; r.counter("one"_m); pub p(r); vs_assert(p.data<first>().v == -1 && p.data_for<first>("one"_m)->v == -1 && p.data_for<second>("one"_m)->s == "none", "default-arguments"); vs_assert(p.data<first>(7).v == -1, "later-arguments-ignored"); }
VS_ENTRY(freed) { int f = first::live, s = second::live; { R r; r.counter("one"_m); pub p(r); p.data<first>(1); p.data_for<first>("one"_m, 2); p.data_for<second>("one"_m); vs_assert(first::live == f + 2 && second::live == s + 1, "alive"); } vs_assert(first::live == f && second::live == s, "freed-with-the-registry"); }
VS_ENTRY(with_options) { R r; r.counter("one"_m); pub p(r); first* d = p.data_for<first>("one"_m, 4); r.publish_options("one"_m, publish_options()); vs_assert(p.has<publish_options>("one"_m), "options-are-data"); vs_assert(p.data_for<first>("one"_m, 5) == d && d->v == 4, "options-apart"); r.publish_options(publish_options(value_publish_options(scale_factor(2)))); vs_assert(&p.data<publish_options>() == &r.publish_options(), "registry-options-are-data"); p.data<first>(6); vs_assert(r.publish_options().value_options().scale().factor() == 2, "options-kept"); }
// many data types and many metrics
template <int N> struct nth : basic_publish_options { int64_t v; nth(int64_t x = N) : v(x) {} };
template <int N> struct fill { static void all(pub& p, void** at, int64_t v) { at[N] = &p.data_for<nth<N>>("one"_m, v + N)->v; at[20 + N] = &p.data<nth<N>>(v - N).v; fill<N - 1>::all(p, at, v); } static void again(pub& p, void** at, int64_t v) { vs_assert(&p.data_for<nth<N>>("one"_m, 5)->v == at[N] && &p.data<nth<N>>(6).v == at[20 + N], "each-type-again"); vs_assert(p.data<nth<N>>().v == v - N && p.data_for<nth<N>>("one"_m)->v == v + N, "each-type-kept"); fill<N - 1>::again(p, at, v); } };
template <> struct fill<-1> { static void all(pub&, void**, int64_t) {} static void again(pub&, void**, int64_t) {} };
VS_ENTRY(many_types) { R r; r.counter("one"_m); pub p(r); void* at[40] = {}; int64_t v = vs_any<int64_t>("v"); fill<19>::all(p, at, v); for (int i = 0; i < 40; i++) for (int j = 0; j < i; j++) vs_assert(at[i] != at[j], "each-type-apart"); fill<19>::again(p, at, v); }
VS_ENTRY(many_metrics) { R r; pub p(r); int n = 1 + vs_choose("n", Q(20, 40)); int64_t v = vs_any<int64_t>("v"); std::vector<first*> ds; for (int i = 0; i < n; i++) { r.counter(metric_path("p" + std::to_string(i))); ds.push_back(p.data_for<first>(metric_path("p" + std::to_string(i)), v + i)); for (int j = 0; j < i; j++) vs_assert(ds[j] != ds[i], "each-metric-apart"); } for (int i = 0; i < n; i++) vs_assert(p.data_for<first>(metric_path("p" + std::to_string(i)), 0) == ds[i] && ds[i]->v == v + i, "each-metric-kept"); }
