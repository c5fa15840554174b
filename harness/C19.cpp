// bound: meters with one, two, three and six windows declared in every order and with repetitions, over intervals of 1 s and 2 s; up to 3 marks of arbitrary amounts (negative ones too, of one sign per history), after arbitrary steps of up to 3 intervals; arbitrary lengths of life (with concrete totals) and arbitrary totals (for a list of lengths)
// outside: totals beyond 2^52
#include "h.h"
const int64_t S = 1000000000ll;
static bool near(long double a, long double b, long double tol) { return (a - b <= tol) & (b - a <= tol); }
static void step(int64_t i) { vs_steady_ns += vs_choose("intervals", 3) * i + vs_range("part", 0, i - 1); }
typedef meter<1000000, 5000000, 60000000> M;
VS_ENTRY(totals) { // the mean for arbitrary amounts and a list of life times
  vs_steady_ns = 7 * S; M m; vs_steady_ns += 3 * S; int n = vs_choose("marks", 4), sign = vs_choose("negative", 2) ? -1 : 1; int64_t t = 0, start = vs_steady_ns; static const int64_t ds[] = {0, 1, 250000000, 1000000000, 1500000000, 2000000000, 60000000000ll, 3600000000000ll};
  for (int i = 0; i < n; i++) { int64_t a = sign * vs_range("amount", 1, 1000000); m.mark(a); t += a; if (i < 2) vs_steady_ns += i * S; } int64_t d = ds[vs_choose("life", 8)]; vs_steady_ns += d; d = vs_steady_ns - start; const M& c = m; long double e = d && n ? (long double)t * S / d : t; long double tol = d && d < S ? 1e-3L * S / d : 1e-6L;
  vs_assert(near(m.mean(), e, tol), "mean"); vs_assert(near(c.mean(), e, tol), "const-mean"); meter_snapshot s = m.snapshot(); vs_assert(near((double)s.value(), e, tol), "snapshot-mean"); meter_snapshot q = c.snapshot(); vs_assert(near((double)q.value(), e, tol), "const-snapshot-mean");
}
VS_ENTRY(lives) { // the mean for arbitrary life times and a list of totals
  vs_steady_ns = vs_range("start", S, 1ll << 50); M m; static const int64_t ts[] = {0, 1, 7, 1000, -12}; int64_t t = ts[vs_choose("total", 5)]; m.mark(t); int64_t d = vs_choose("seconds", 8) * S + vs_choose("eighths", 8) * (S / 8) + vs_choose("odd", 3); vs_steady_ns += d; double x = m.mean(); if (!d) vs_assert(x == t, "no-time"); else { vs_assert(near(x, (t * 1.0L) / ((d * 1.0L) / S), 1e-6), "life-mean"); }
}
VS_ENTRY(interval2) { vs_steady_ns = S; meter<2000000, 10000000> m; int64_t a = vs_range("amount", 0, 1000000), b = vs_range("amount", 0, 1000000); m.mark(a); vs_steady_ns += 3 * S; m.mark(b); vs_steady_ns += 3 * S; vs_assert(near(m.mean(), (a + b) / 3.0L, 1e-6), "two-second-mean"); }
VS_ENTRY(default_amount) { vs_steady_ns = S; M m; int n = 1 + vs_choose("marks", 3); for (int i = 0; i < n; i++) m.mark(); vs_assert(m.mean() == n, "marks-count-one"); }
// one moving average per window, each the average of exactly that window
template <period::value I, period::value W, class M> static void one(M& m, ewma<W, I>& e, const meter_snapshot& before, const meter_snapshot& s) {
  int n = 0; double x = e.rate(); for (auto& r : before) if (r.first == period(W).to_duration()) vs_assert((double)r.second == x, "const-snapshot-rate"); meter_rate q = m.template rate<W>(); vs_assert(q.period == period(W).to_duration(), "window"); x = e.rate(); for (auto& r : s) if (r.first == period(W).to_duration()) { n++; } vs_assert(n == 1, "once-in-snapshot"); vs_assert(q.rate == x, "rate"); 
}
template <class M, period::value I, period::value... Ws> static void windows() {
  vs_steady_ns = S; M m; std::tuple<ewma<Ws, I>...> es; int n = Q(2, 3);
  for (int i = 0; i < n; i++) { int64_t a = vs_range("amount", 0, 1000000); m.mark(a); int x[] = {(std::get<ewma<Ws, I>>(es).mark(a), 0)...}; (void)x; step(I * 1000); }
  const M& c = m; meter_snapshot before = c.snapshot(); int count = 0; for (auto& r : before) { (void)r; count++; } vs_assert(count == (int)sizeof...(Ws), "number-of-rates"); int z[] = {(vs_assert(c.template rate<Ws>().rate == const_cast<const ewma<Ws, I>&>(std::get<ewma<Ws, I>>(es)).rate(), "const-rate"), 0)...}; (void)z;
  int q[] = {(vs_assert(const_cast<const M&>(m).template rate<Ws>().period == period(Ws).to_duration(), "const-window"), 0)...}; (void)q; std::vector<double> cr = {c.template rate<Ws>().rate...}; std::vector<std::chrono::steady_clock::duration> cw = {period(Ws).to_duration()...};
  for (auto& r : before) for (size_t i = 0; i < cw.size(); i++) if (r.first == cw[i]) vs_assert((double)r.second == cr[i], "snapshot-of-rate"); meter_snapshot s = m.snapshot(); count = 0; for (auto& r : s) { (void)r; count++; } vs_assert(count == (int)sizeof...(Ws), "number-of-rates-after"); std::vector<double> er = {std::get<ewma<Ws, I>>(es).rate()...};
  for (auto& r : s) for (size_t i = 0; i < cw.size(); i++) if (r.first == cw[i]) vs_assert((double)r.second == er[i], "snapshot-rate"); int y[] = {(vs_assert(m.template rate<Ws>().rate == std::get<ewma<Ws, I>>(es).rate(), "rate"), 0)...}; (void)y; int w[] = {(vs_assert(m.template rate<Ws>().period == period(Ws).to_duration(), "window"), 0)...}; (void)w;
}
VS_ENTRY(one_window) { windows<meter<1000000, 5000000>, 1000000, 5000000>(); }
VS_ENTRY(two_windows) { windows<meter<1000000, 5000000, 60000000>, 1000000, 5000000, 60000000>(); }
VS_ENTRY(two_windows_swapped) { windows<meter<1000000, 60000000, 5000000>, 1000000, 5000000, 60000000>(); }
VS_ENTRY(repeated) { windows<meter<1000000, 60000000, 5000000, 60000000, 60000000, 5000000>, 1000000, 5000000, 60000000>(); }
VS_ENTRY(three_windows) { windows<meter<1000000, 60000000, 5000000, 15000000>, 1000000, 5000000, 15000000, 60000000>(); }
VS_ENTRY(three_by2) { windows<meter<2000000, 900000000, 60000000, 300000000>, 2000000, 60000000, 300000000, 900000000>(); }
VS_ENTRY(literals) { vs_steady_ns = S; meter<1_sec, 1_min, 5_sec> m; M o; int64_t a = vs_range("amount", 0, 1000000); m.mark(a); o.mark(a); step(S); double x = m.rate<5_sec>().rate, y = o.rate<5000000>().rate, z = m.rate<1_min>().rate, w = o.rate<60000000>().rate; vs_assert((x == y) & (z == w), "literals"); }
VS_ENTRY(orders) { // the order of declaration makes no difference
  vs_steady_ns = S; meter<1000000, 60000000, 5000000> a; meter<1000000, 5000000, 60000000, 5000000> b; for (int i = 0; i < 2; i++) { int64_t v = vs_range("amount", 0, 1000000); a.mark(v); b.mark(v); step(S); } meter_snapshot s = a.snapshot(), t = b.snapshot(); int n = 0; for (auto& r : s) for (auto& q : t) if (r.first == q.first) { n++; vs_assert(r.second == q.second, "same-rate"); } vs_assert(n == 2, "same-windows"); vs_assert(!(s.value() < t.value()) & !(t.value() < s.value()), "same-mean");
}
// copies and assignments continue like the original
static int64_t after() { static const int64_t d[] = {300000001, 2 * S + 5}; return d[vs_choose("after", 2)]; }
VS_ENTRY(copies) {
  vs_steady_ns = S; M m, o; int n = vs_choose("marks", 2); for (int i = 0; i < n; i++) { int64_t a = vs_range("amount", 0, 1000000); m.mark(a); o.mark(a); vs_steady_ns += after(); } M c(m), d; if (vs_choose("used", 2)) { vs_steady_ns -= S / 2; d.mark(99); vs_steady_ns += S / 2; } M& r = (d = m); vs_assert(&r == &d, "assignment-result");
  int which = vs_choose("which", 3); M& u = which == 0 ? c : which == 1 ? d : m; (which == 0 ? d : c).mark(12345); int64_t b = vs_range("later", 0, 1000000); vs_steady_ns += after(); u.mark(b); o.mark(b); vs_steady_ns += after(); vs_assert(u.mean() == o.mean(), "copy-mean"); double x = u.rate<5000000>().rate, y = o.rate<5000000>().rate, z = u.rate<60000000>().rate, w = o.rate<60000000>().rate; vs_assert(x == y, "copy-rate"); vs_assert(z == w, "copy-other-rate");
}
VS_ENTRY(many_windows) { windows<meter<1000000, 3600000000, 5000000, 900000000, 60000000, 300000000, 5000000, 15000000>, 1000000, 5000000, 15000000, 60000000, 300000000, 900000000, 3600000000>(); }
VS_ENTRY(longer) { vs_steady_ns = S; M m; ewma<5000000> e; int64_t t = 0, n = Q(10, 30); for (int i = 0; i < n; i++) { int64_t a = i % 3 ? i : vs_range("amount", 0, 1000000); m.mark(a); e.mark(a); t += a; vs_steady_ns += i % 4 == 3 ? 2 * S : S / 4; } int64_t d = vs_steady_ns - S; vs_assert(near(m.mean(), (t * 1.0L) * S / d, 1e-3), "longer-mean"); vs_assert(near(m.rate<5000000>().rate, e.rate(), 1e-6), "longer-rate"); }
// totals far beyond 32 bits
VS_ENTRY(big_totals) { vs_steady_ns = S; M m; int n = 1 + vs_choose("marks", 3); int64_t t = 0; for (int i = 0; i < n; i++) { int64_t a = vs_range("amount", -(1ll << 50), 1ll << 50); m.mark(a); t += a; } static const int64_t ds[] = {0, 1000000000, 4000000000ll, 256000000000ll}; int64_t d = ds[vs_choose("life", 4)]; vs_steady_ns += d; const M& c = m; long double e = d ? (long double)t / (d / S) : t; vs_assert(near(m.mean(), e, 1), "big-mean"); vs_assert(near((double)c.snapshot().value(), e, 1), "big-snapshot-mean"); }
