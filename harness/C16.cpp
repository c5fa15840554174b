// bound: averages over 5 s / 1 s, 7 s / 2 s and 1 s / 5 s (double, int64 and uint32), meters with two windows; up to 2 (thorough: 3) marks of arbitrary amounts after arbitrary steps of up to 4 intervals, with up to two readings (rate and snapshot) of the const object before and after every mark, against an identical object that nobody looks at
// outside: readings by other threads while marks are made
#include "h.h"
const int64_t S = 1000000000ll;
static void step(int64_t i) { vs_steady_ns += vs_choose("intervals", 3) * i + vs_range("part", 0, i - 1); }
template <class E> static void look(const E& e, int n) { for (int i = 0; i < n; i++) { auto a = e.rate(); average_value_snapshot s = e.snapshot(); auto b = e.rate(); vs_assert(a == b, "same-twice"); vs_assert(s.value() == metric_value(a), "snapshot-is-rate"); } }
template <period::value W, period::value I, class T> static void averages(int n) {
  vs_steady_ns = S; typedef ewma<W, I, T> E; E e, f;
  for (int i = 0; i < n; i++) { step(I * 1000); look(e, vs_choose("looks", 2)); T a = std::is_floating_point<T>::value ? (T)vs_double("amount", 0, 1e6) : (T)vs_range("amount", 0, 1000000); e.mark(a); f.mark(a); step(I * 1000); look(e, 1); }
  step(I * 1000); look(e, 1); const E& g = f; const E& h = e; vs_assert(h.rate() == g.rate(), "later-observation"); auto x = e.rate(), y = f.rate(); vs_assert(x == y, "later-rate"); step(I * 1000); x = e.rate(), y = f.rate(); vs_assert(x == y, "even-later-rate");
}
VS_ENTRY(average) { averages<5000000, 1000000, double>(Q(1, 2)); }
VS_ENTRY(average7by2) { averages<7000000, 2000000, double>(1); }
VS_ENTRY(average1by5) { averages<1000000, 5000000, double>(1); }
VS_ENTRY(average_integer) { averages<5000000, 1000000, int64_t>(1); }
VS_ENTRY(average_unsigned) { averages<5000000, 1000000, uint32_t>(1); }
VS_ENTRY(average_long) { // one look at every position of a longer history
  vs_steady_ns = S; typedef ewma<5000000> E; E e, f; int n = Q(3, 5), at = vs_choose("at", 2 * n + 1); for (int i = 0; i < n; i++) { if (at == 2 * i) look(e, 1); vs_steady_ns += (1 + i % 2) * S; if (at == 2 * i + 1) look(e, 2); double a = vs_double("amount", 0, 1e6); e.mark(a); f.mark(a); vs_steady_ns += vs_range("part", 0, S - 1); } if (at == 2 * n) look(e, 1); vs_steady_ns += 2 * S; double x = e.rate(), y = f.rate(); vs_assert(x == y, "long-rate");
}
VS_ENTRY(copies) { vs_steady_ns = S; typedef ewma<5000000> E; E e, f; double a = vs_double("amount", 0, 1e6); e.mark(a); f.mark(a); step(S); const E c(e); E d; d = c; c.rate(); c.snapshot(); step(S); look(c, 1); look(e, 1); double x = e.rate(), y = f.rate(), z = d.rate(); vs_assert(x == y, "original-unchanged"); vs_assert(z == y, "copy-unchanged"); }
// meters
static void cstep() { static const int64_t d[] = {0, 300000001, S, 2 * S + 5}; vs_steady_ns += d[vs_choose("after", 4)]; }
template <class M> static void see(const M& m) { double a = m.mean(), b = m.template rate<5000000>().rate, c = m.template rate<60000000>().rate; meter_snapshot s = m.snapshot(); double d = m.mean(), e = m.template rate<5000000>().rate, f = m.template rate<60000000>().rate; vs_assert((a == d) & (b == e) & (c == f), "meter-same-twice"); vs_assert((double)s.value() == a, "meter-snapshot"); int n = 0; for (auto& r : s) { n++; vs_assert((double)r.second == (r.first == std::chrono::seconds(5) ? b : c), "meter-snapshot-rate"); } vs_assert(n == 2, "meter-snapshot-rates"); }
VS_ENTRY(meters) {
  vs_steady_ns = S; typedef meter<1000000, 5000000, 60000000> M; M m, o; int n = Q(1, 2); for (int i = 0; i < n; i++) { cstep(); if (vs_choose("look", 2)) see(m); int64_t a = vs_range("amount", 0, 1000000); m.mark(a); o.mark(a); cstep(); see(m); }
  cstep(); see(m); const M& p = m; const M& q = o; vs_assert((p.mean() == q.mean()) & (p.rate<5000000>().rate == q.rate<5000000>().rate), "meter-later-observation"); double x = m.rate<5000000>().rate, y = o.rate<5000000>().rate, z = m.rate<60000000>().rate, w = o.rate<60000000>().rate; vs_assert((x == y) & (z == w), "meter-later-rates"); vs_assert(m.mean() == o.mean(), "meter-later-mean");
}
VS_ENTRY(meters_start) { vs_steady_ns = S; typedef meter<1000000, 5000000, 60000000> M; M m, o; cstep(); see(m); see(m); cstep(); m.mark(7); o.mark(7); cstep(); see(m); cstep(); vs_assert(m.mean() == o.mean(), "start-mean"); double x = m.rate<5000000>().rate, y = o.rate<5000000>().rate; vs_assert(x == y, "start-rate"); }
