// bound: timers over a nanosecond, a microsecond and the two standard clocks; up to 3 (thorough: 4) runs of arbitrary lengths up to 2^38 ns, each returning a value or throwing, nested runs, scoped timers with every sequence of up to 3 (thorough: 5) resets, clears, moves and passages of time, and two threads recording at once (at most 2 preemptions)
// outside: runs of length zero (they are not recorded); clocks going backwards; a scoped timer that is reset after it was moved from
#include "h.h"
template <class F> static void pick(std::initializer_list<F> fs) { int k = vs_choose("pair", (int)fs.size()); int i = 0; for (F f : fs) if (i++ == k) f(); }
typedef void (*Fn)();
const int64_t S = 1000000000ll, LONG = 1ll << 38;
static int64_t tick = 1000;
template <class D> struct ticks { typedef D duration; typedef typename D::rep rep; typedef typename D::period period; typedef std::chrono::time_point<ticks, D> time_point; static constexpr bool is_steady = true; static time_point now() noexcept { return time_point(D(tick)); } };
typedef ticks<nanoseconds> TC;
typedef timer<1000000, TC, simple_reservoir<nanoseconds, 8>, 5000000> T;
static bool near(long double a, long double b, long double tol) { return (a - b <= tol) & (b - a <= tol); }
// what the timer must look like after it recorded the given times within its first interval
template <class TT> static void same(TT& t, int64_t* d, int n, int64_t unit = 1, bool middle = true) {
  vs_sorted(d, n); vs_assert(t.count() == (uint64_t)n, "count"); vs_assert(t.mean() == n, "mean-rate"); const TT& c = t; timer_snapshot s = t.snapshot(), q = c.snapshot(); vs_assert(s.count() == (uint64_t)n && q.count() == (uint64_t)n, "snapshot-count"); vs_assert(s.size() == (size_t)n && q.size() == (size_t)n, "snapshot-size"); vs_assert((double)s.rate().value() == n, "snapshot-rate");
  if (n) { nanoseconds lo = s.min(), hi = s.max(), ql = q.min(); vs_assert(lo.count() == d[0] * unit, "shortest"); vs_assert(ql.count() == d[0] * unit, "const-shortest"); vs_assert(hi.count() == d[n - 1] * unit, "longest"); } 
  if (n == 3 && unit == 1 && middle) { nanoseconds m = s.template value<50_p>(); vs_assert((m.count() - d[1] <= 1000) & (d[1] - m.count() <= 1000), "median"); }
  vs_steady_ns += S; int64_t k = 0; timer_snapshot z = t.snapshot(); for (auto& r : z.rate()) { k++; vs_assert(near((double)r.second, n, 1e-9), "rate"); } vs_assert(k == 1, "windows"); vs_assert(near(t.mean(), n, 1e-9), "mean-rate-later"); vs_assert(t.count() == (uint64_t)n, "count-later");
}
struct oops { int64_t code; };
VS_ENTRY(runs) {
  vs_steady_ns = S; T t; int n = Q(3, 4), k = 0; int64_t d[8];
  for (int i = 0; i < n; i++) { tick += vs_range("before", 0, LONG); int64_t x = vs_range("length", 1, LONG), v = vs_any<int64_t>("v"); int how = vs_choose("how", 3); bool thrown = false; int64_t r = 0;
    if (how == 0) { r = t.time([&] { tick += x; return v; }); d[k++] = x; } else if (how == 1) { try { r = t.time([&]() -> int64_t { tick += x; throw oops{v}; }); } catch (oops& o) { thrown = true; r = o.code; } } else { t.update(nanoseconds(x)); d[k++] = x; r = v; }
    vs_assert(thrown == (how == 1), "exception-passes"); vs_assert(r == v, "result"); }
  tick += 77; same(t, d, k);
}
VS_ENTRY(included) { // exceptions are recorded when that is asked for
  vs_steady_ns = S; T t; int64_t d[4]; int k = 0; for (int i = 0; i < 2; i++) { int64_t x = vs_range("length", 1, LONG), v = vs_any<int64_t>("v"), r = 0; bool throws = vs_choose("throws", 2), thrown = false; auto f = [&]() -> int64_t { tick += x; if (throws) throw oops{v}; return v; }; try { r = t.time<decltype(f), true>(f); } catch (oops& o) { thrown = true; r = o.code; } d[k++] = x; vs_assert(thrown == throws, "included-passes"); vs_assert(r == v, "included-result"); tick += 5; } same(t, d, k);
}
VS_ENTRY(kinds) { // what callables may return
  vs_steady_ns = S; T t; int64_t d[8]; int k = 0; int64_t x = vs_range("length", 1, LONG); int calls = 0; int64_t target = 0; int64_t& r = t.time([&]() -> int64_t& { tick += x; calls++; return target; }); d[k++] = x; vs_assert(&r == &target, "reference"); t.time([&] { tick += x; calls++; }); d[k++] = x; std::unique_ptr<int> p = t.time([&] { tick += x; calls++; return std::unique_ptr<int>(new int(5)); }); vs_assert(p && *p == 5, "move-only"); d[k++] = x; vs_assert(calls == 3, "called-once-each"); same(t, d, k);
}
VS_ENTRY(nested) { vs_steady_ns = S; T t; int64_t d[4], a = vs_range("a", 1, LONG), b = vs_range("b", 1, LONG), c = vs_range("c", 0, LONG); int throws = vs_choose("throws", 3), k = 0; try { t.time([&] { tick += a; t.time([&] { tick += b; if (throws == 1) throw oops{0}; }); tick += c; if (throws == 2) throw oops{0}; }); } catch (oops&) {} if (throws != 1) d[k++] = b; if (!throws) d[k++] = a + b + c; same(t, d, k); }
// scoped timers
typedef scoped_timer_t<T> ST;
VS_ENTRY(scoped) {
  vs_steady_ns = S; T t; int64_t d[2]; int k = 0; tick = vs_range("begin", 1, LONG); std::unique_ptr<ST> s(new ST(t)); int64_t start = tick; bool set = true; int n = Q(3, 5); std::vector<std::unique_ptr<ST>> moved;
  for (int i = 0; i < n; i++) { int op = vs_choose("op", 4); tick += vs_range("pass", 0, LONG); if (op == 1) { s->reset(); start = tick; set = true; } else if (op == 2) { s->clear(); set = false; } else if (op == 3) { std::unique_ptr<ST> u(new ST(std::move(*s))); int old = vs_choose("old", 3); if (old == 1) s.reset(); if (old == 2) moved.push_back(std::move(s)); vs_assert(t.count() == 0, "nothing-yet"); s = std::move(u); } vs_assert(t.count() == 0, "nothing-before-the-end"); }
  tick += vs_range("last", 1, LONG); s.reset(); if (set) d[k++] = tick - start; tick += 99; moved.clear(); same(t, d, k);
}
VS_ENTRY(function) { vs_steady_ns = S; T t; int64_t d[2], a = vs_range("a", 1, LONG), b = vs_range("b", 1, LONG); { auto s = scoped_timer(t); tick += a; { auto u = scoped_timer(t); tick += b; } vs_assert(t.count() == 1, "inner-first"); } d[0] = b; d[1] = a + b; same(t, d, 2); }
VS_ENTRY(unwound) { vs_steady_ns = S; T t; int64_t d[2], a = vs_range("a", 1, LONG); try { auto s = scoped_timer(t); tick += a; throw oops{1}; } catch (oops&) {} d[0] = a; same(t, d, 1); }
// other clocks
VS_ENTRY(microseconds) { vs_steady_ns = S; timer<1000000, ticks<std::chrono::microseconds>, simple_reservoir<std::chrono::microseconds, 8>, 5000000> t; int64_t d[4]; int n = vs_choose("runs", 3); for (int i = 0; i < n; i++) { d[i] = vs_range("length", 1, 1ll << 30); t.time([&] { tick += d[i]; }); tick++; } same(t, d, n, 1000); }
VS_ENTRY(averaged_microseconds) { vs_steady_ns = S; timer<1000000, ticks<std::chrono::microseconds>, simple_reservoir<std::chrono::microseconds, 8>, 5000000> t; for (int i = 0; i < 2; i++) t.time([&] { tick += 1000; }); nanoseconds m = t.snapshot().mean(); vs_assert_k(m.count() == 1000000, "average-of-microseconds", "mean and interpolated quantiles of durations whose tick is not a nanosecond read as a number of ticks", true); }
VS_ENTRY(system) { vs_steady_ns = S; vs_system_ns = S; timer<1000000, std::chrono::system_clock, simple_reservoir<nanoseconds, 8>, 5000000> t; int64_t d[4]; for (int i = 0; i < 2; i++) { d[i] = vs_range("length", 1, LONG); t.time([&] { vs_system_ns += d[i]; }); vs_system_ns++; } same(t, d, 2); }
VS_ENTRY(defaults) { vs_steady_ns = S; vs_system_ns = S; timer<> t; int64_t d = vs_range("length", 1, LONG); t.time([&] { vs_system_ns += d; }); vs_assert(t.count() == 1, "default-count"); timer_snapshot s = t.snapshot(); nanoseconds m = s.min(); vs_assert(m.count() == d && s.size() == 1 && s.count() == 1, "default-value"); }
VS_ENTRY(steady) { vs_steady_ns = S; timer<1000000, std::chrono::steady_clock, simple_reservoir<nanoseconds, 8>, 5000000> t; int64_t d = vs_range("length", 1, S / 2); t.time([&] { vs_steady_ns += d; }); timer_snapshot s = t.snapshot(); nanoseconds m = s.min(); vs_assert(m.count() == d && s.size() == 1 && s.count() == 1 && t.count() == 1, "steady-value"); }
VS_ENTRY(stateful) { // the clock object given to the constructor is the one used
  struct own { typedef nanoseconds duration; typedef std::chrono::time_point<own, nanoseconds> time_point; int64_t* at; time_point now() const noexcept { return time_point(nanoseconds(*at)); } }; vs_steady_ns = S; int64_t at = 5; typedef simple_reservoir<nanoseconds, 4> R; timer<1000000, own, R, 5000000> t(R(), own{&at}); int64_t d[1] = {vs_range("length", 1, LONG)}; t.time([&] { at += d[0]; }); vs_assert(t.clock().at == &at, "own-clock"); same(t, d, 1);
}
VS_ENTRY(prefilled) { vs_steady_ns = S; typedef simple_reservoir<nanoseconds, 4> R; int64_t a = vs_range("a", 1, LONG), b = vs_range("b", 1, LONG); R r; r.update(nanoseconds(a)); timer<1000000, TC, R, 5000000> t(std::move(r)); t.update(nanoseconds(b)); timer_snapshot s = t.snapshot(); nanoseconds lo = s.min(), hi = s.max(); vs_assert(s.size() == 2 && s.count() == 1 && lo.count() == std::min(a, b) && hi.count() == std::max(a, b), "given-reservoir"); }
VS_ENTRY(threads) { vs_flag(2, Q(2, 3)); vs_steady_ns = S; T t; int64_t d[4]; for (int i = 0; i < 3; i++) d[i] = vs_range("length", 1, LONG); auto f = [&] { t.update(nanoseconds(d[0])); t.update(nanoseconds(d[1])); }; auto g = [&] { t.update(nanoseconds(d[2])); }; vs_spawn(f); vs_spawn(g); vs_join(); same(t, d, 3, 1, false); }
VS_ENTRY(longer) { vs_steady_ns = S; typedef timer<1000000, TC, simple_reservoir<nanoseconds, 32>, 5000000> T32; T32 t; int n = 1 + vs_choose("n", Q(12, 30)), at = vs_choose("at", 2) ? n - 1 : 0, k = 0; int64_t d[32]; for (int i = 0; i < n; i++) { int64_t x = i == at ? vs_range("length", 1, LONG) : 100 + i * 5; bool throws = i % 4 == 2; if (i % 3 == 0) { auto s = scoped_timer(t); tick += x; d[k++] = x; } else try { t.time([&] { tick += x; if (throws) throw oops{1}; }); d[k++] = x; } catch (oops&) {} } same(t, d, k, 1, false); }
