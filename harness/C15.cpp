// bound: averages with windows of 5, 7 and 60 seconds over intervals of 1 and 2 seconds, and a window shorter than its interval; double, float, int64 and uint32 rates; up to 3 (thorough: 4) marks and readings, amounts of one sign (zero, or 0.001 to 10^6) and of mixed signs, each after an arbitrary step of up to 4 intervals at nanosecond precision, or after a silence of up to 10^8 intervals; clocks that jump back by any amount
// outside: steps so long that the time since the clock's epoch overflows; amounts beyond 10^6 (rounding); rates after several readings within one interval follow the provisional value documented by the code
#include "h.h"
template <class F> static void pick(std::initializer_list<F> fs) { int k = vs_choose("pair", (int)fs.size()); int i = 0; for (F f : fs) if (i++ == k) f(); }
typedef void (*Fn)();
const int64_t S = 1000000000ll;
// the definition
struct Ref {
  double alpha; int64_t interval, last; long double rate = 0, pending = 0; bool started = false;
  Ref(int64_t w, int64_t i, int64_t now) : alpha(1 - std::exp(-(long double)i / (2.0L * w))), interval(i), last(now) {}
  long double next(long double p, long double r, int64_t missed) const { long double v = r + alpha * (p - r); return v * std::pow(1 - (long double)alpha, (long double)missed); }
  // the interval that was running is over at t, k whole intervals after its start
  void over(int64_t t, int64_t k) { if (!k) return; if (!started) { rate = pending; started = true; } else rate = next(pending, rate, k - 1); pending = 0; last = t; }
  long double now() const { return started ? next(pending, rate, 0) : pending; }
};
// the clock moves on: k whole intervals since the running one began
static void moveto(const Ref& r, int64_t k) { int64_t t = r.last + k * r.interval + vs_range("part", 0, r.interval - 1); if (!k) vs_assume(t >= vs_steady_ns); vs_steady_ns = t; }
static int64_t step(const Ref& r) { int64_t k = vs_choose("intervals", 4); moveto(r, k); return k; }
static bool near(long double a, long double b, long double tol) { return (a - b <= tol) & (b - a <= tol); }
static double amount(double m) { return vs_choose("zero", 2) ? 0 : m > 0 ? vs_double("amount", 1e-3, m) : vs_double("amount", m, -1e-3); }
template <class T, class E> static void reads(E& e, Ref& r, double tol) { // a reading at the current moment, k intervals after the last
  const E& c = e; int64_t k = step(r); long double seen = c.rate();
  if (k && r.started) { vs_assert(near(seen, r.next(r.pending, r.rate, k - 1), tol), "observed"); }
  long double x = e.rate(); if (k) { r.over(vs_steady_ns, k); vs_assert(near(x, r.rate, tol), "completed"); } else vs_assert(near(x, r.now(), tol), "provisional");
  long double y = c.rate(); vs_assert(near(y, r.now(), tol), "running"); average_value_snapshot s = c.snapshot(), t = e.snapshot(); vs_assert(near((long double)s.value(), r.now(), tol), "snapshot"); vs_assert(near((long double)t.value(), r.now(), tol), "snapshot-again");
}
template <period::value W, period::value I, class T> static void follows(int n, double m, double tol) {
  vs_steady_ns = vs_range("start", S, 1ll << 60); ewma<W, I, T> e; Ref r(W * 1000, I * 1000, vs_steady_ns);
  for (int i = 0; i < n; i++) { int64_t k = step(r); double a = amount(m); e.mark(a); r.over(vs_steady_ns, k); r.pending += a; }
  reads<T>(e, r, tol);
}
VS_ENTRY(window5) { follows<5000000, 1000000, double>(Q(2, 3), 1e6, 1e-3); }
VS_ENTRY(window5negative) { follows<5000000, 1000000, double>(2, -1e6, 1e-3); }
VS_ENTRY(window60) { follows<60000000, 1000000, double>(Q(2, 3), 1e6, 1e-3); }
VS_ENTRY(window7by2) { follows<7000000, 2000000, double>(2, 1e6, 1e-3); }
VS_ENTRY(window1by5) { follows<1000000, 5000000, double>(2, 1e6, 1e-3); }
VS_ENTRY(window5float) { follows<5000000, 1000000, float>(2, 1e3, 1e-1); }
VS_ENTRY(mixed) { // amounts of both signs, whole numbers
  vs_steady_ns = S; ewma<5000000, 1000000, double> e; Ref r(5 * S, S, vs_steady_ns);
  for (int i = 0; i < 2; i++) { int64_t k = vs_choose("intervals", 3); moveto(r, k); int a = (int)vs_range("amount", -1000, 1000); e.mark(a); r.over(vs_steady_ns, k); r.pending += a; }
  moveto(r, 1); long double x = e.rate(); r.over(vs_steady_ns, 1); vs_assert(near(x, r.rate, 1e-6), "mixed");
}
// rates kept as integers are within one of the definition for every completed interval
template <class T> static void whole(int n, int64_t m) {
  vs_steady_ns = S; ewma<5000000, 1000000, T> e; Ref r(5 * S, S, vs_steady_ns); long double tol = 1e-6; 
  for (int i = 0; i < n; i++) { int64_t k = 1 + vs_choose("intervals", 2); int64_t a = vs_range("amount", 0, m); e.mark((T)a); moveto(r, k); r.pending += a; long double x = e.rate(); if (r.started) tol += 1; r.over(vs_steady_ns, k); vs_assert((x <= r.rate + tol) & (x >= r.rate - tol), "whole-rate"); vs_assert((x >= 0) & (x <= m), "whole-within-inputs"); }
  moveto(r, vs_choose("later", 12)); long double y = e.rate(); vs_assert((y >= 0) & (y <= m), "whole-stays-within");
}
VS_ENTRY(integers) { pick<Fn>({[] { whole<int64_t>(2, 1000000); }, [] { whole<uint32_t>(2, 1000000); }, [] { whole<uint64_t>(2, 1000000); }, [] { whole<int32_t>(2, 1000000); }}); }
// the rate stays between zero and the largest total of an interval, and never grows in silence
template <period::value W, period::value I> static void bounded(int n) {
  vs_steady_ns = S; ewma<W, I> e; double m = vs_double("most", 1, 1e6), x = 0; bool any = false; int64_t t = I * 1000;
  for (int i = 0; i < n; i++) { double a = vs_double("amount", 0, 1e6); vs_assume(a <= m); e.mark(a); vs_steady_ns += (1 + vs_choose("intervals", 2)) * t + vs_range("part", 0, t - 1); x = e.rate(); vs_assert(x >= -1e-6, "not-negative"); vs_assert(x <= m * 1.000001, "within-inputs"); any = true; }
  double last = x; for (int i = 0; i < 2; i++) { vs_steady_ns += vs_choose("quiet", 3) * t + vs_range("part", 0, t - 1); double y = e.rate(); vs_assert(y >= -1e-6, "silence-not-negative"); vs_assert(y <= last + 1e-9 * m, "silence-never-grows"); last = i ? y : std::min(last, y); }
}
VS_ENTRY(bounds) { bounded<5000000, 1000000>(Q(1, 2)); }
VS_ENTRY(bounds1by5) { bounded<1000000, 5000000>(1); }
// silences of many intervals
template <period::value W, period::value I> static void silence() {
  vs_steady_ns = S; ewma<W, I> e; Ref r(W * 1000, I * 1000, vs_steady_ns); double a = vs_double("amount", 1, 1e6), b = vs_double("amount", 1, 1e6); e.mark(a); r.pending = a; moveto(r, 1); r.over(vs_steady_ns, 1); e.mark(b); r.pending = b;
  static const int64_t ks[] = {4, 5, 6, 7, 9, 10, 11, 12, 15, 16, 59, 60, 61, 62, 119, 120, 121, 122, 600, 3600, 86400, 100000000}; int64_t k = ks[vs_choose("silence", W > I ? sizeof ks / sizeof *ks : 10)]; moveto(r, k); const ewma<W, I>& c = e; long double p = c.rate(), x = e.rate(); r.over(vs_steady_ns, k); vs_assert(near(x, r.rate, 1e-3), "after-silence"); vs_assert(near(p, r.rate, 1e-3), "observed-after-silence"); vs_assert(x >= -1e-6, "after-silence-not-negative");
  if (k >= 86400) vs_assert(x <= 1e-6, "silence-decays"); moveto(r, 1); x = e.rate(); r.over(vs_steady_ns, 1); vs_assert(near(x, r.rate, 1e-3), "and-the-next");
}
VS_ENTRY(silence5) { silence<5000000, 1000000>(); }
VS_ENTRY(silence60) { silence<60000000, 1000000>(); }
VS_ENTRY(silence7by2) { silence<7000000, 2000000>(); }
VS_ENTRY(silence1by5) { silence<1000000, 5000000>(); }
// a clock that goes back: the mark is ignored and the average goes on from its latest moment
VS_ENTRY(backwards) {
  vs_steady_ns = vs_range("start", 1ll << 60, 1ll << 61); ewma<5000000> e; Ref r(5 * S, S, vs_steady_ns); int n = 1 + vs_choose("marks", 2); for (int i = 0; i < n; i++) { int64_t k = step(r); double a = vs_double("amount", 1, 1e6); e.mark(a); r.over(vs_steady_ns, k); r.pending += a; }
  int64_t now = vs_steady_ns; vs_steady_ns = r.last - vs_range("back", 1, 1ll << 59); double b = vs_double("ignored", 1, 1e6); e.mark(b); e.mark(b); long double z = e.rate(); vs_assert(z >= 0, "reading-backwards"); vs_steady_ns = now; reads<double>(e, r, 1e-3);
}
// copies and assignments go on like the original
VS_ENTRY(copies) {
  typedef ewma<5000000> E; vs_steady_ns = S; E e; Ref r(5 * S, S, vs_steady_ns); int n = vs_choose("marks", 3); for (int i = 0; i < n; i++) { int64_t k = vs_choose("intervals", 2); moveto(r, k); double a = vs_double("amount", 1, 1e6); e.mark(a); r.over(vs_steady_ns, k); r.pending += a; }
  E f(e), g; int w = vs_choose("before", 3); if (w) { g.mark(vs_double("other", 1, 1e6)); if (w == 2) { vs_steady_ns += 2 * S; g.rate(); vs_steady_ns -= 2 * S; } } E& res = (g = e); vs_assert(&res == &g, "assignment-result"); E& h = e; int which = vs_choose("which", 3); E& u = which == 0 ? f : which == 1 ? g : h;
  if (vs_choose("touch", 2)) { E& o = which == 0 ? g : f; o.mark(777.0); } Ref q = r; int64_t k = step(q); double a = vs_double("later", 1, 1e6); u.mark(a); q.over(vs_steady_ns, k); q.pending += a; reads<double>(u, q, 1e-3);
}
// longer histories: given moments, arbitrary amounts
VS_ENTRY(longer) {
  typedef ewma<5000000> E; vs_steady_ns = S; E e; Ref r(5 * S, S, vs_steady_ns); int n = Q(8, 16), pattern = vs_choose("pattern", 4); static const int64_t steps[4][4] = {{S / 2, S / 2, S, S}, {S, S, S, S}, {3 * S, 1, S - 1, S + 1}, {7 * S + 5, S / 3, S / 3, S / 3}};
  for (int i = 0; i < n; i++) { int64_t t = vs_steady_ns += steps[pattern][i % 4]; int64_t k = (t - r.last) / S; double a = i % 3 ? vs_double("amount", 0, 1e6) : 10; e.mark(a); r.over(t, k); r.pending += a; if (vs_choose("look", i == n / 2 ? 2 : 1)) { const E& c = e; vs_assert(near(c.rate(), r.now(), 1e-3), "longer-running"); } }
  vs_steady_ns = r.last + S; long double x = e.rate(); r.over(vs_steady_ns, 1); vs_assert(near(x, r.rate, 1e-3), "longer-history");
}
