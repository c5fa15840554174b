// bound: 2 threads making up to 2 marks each and 3 threads making one each, in the first interval, in a later one (double, float, int64 and uint32 averages), and a meter with two windows in the same and in different intervals; every interleaving of the shared accesses with at most 2 (thorough: 3) preemptions
// outside: which of two adjacent intervals a mark belongs to when it races with the end of an interval; weak memory orders
#include "h.h"
template <class F> static void pick(std::initializer_list<F> fs) { int k = vs_choose("pair", (int)fs.size()); int i = 0; for (F f : fs) if (i++ == k) f(); }
typedef void (*Fn)();
const int64_t S = 1000000000ll;
static bool near(long double a, long double b, long double tol) { return (a - b <= tol) & (b - a <= tol); }
const double alpha = 1 - std::exp(-1.0L / 10);
template <class T> static T amt() { return std::is_floating_point<T>::value ? (T)vs_double("amount", 1, 1000) : (T)vs_range("amount", 1, 1000); }
template <class T> static void two() {
  vs_flag(2, Q(2, 3)); vs_steady_ns = S; ewma<5000000, 1000000, T> e; bool later = vs_choose("later", 2); T r = 0; if (later) { r = 100; e.mark(r); vs_steady_ns += S; e.rate(); } vs_steady_ns += 5;
  bool listed = later && !std::is_floating_point<T>::value; T a = listed ? (T)(3 + 700 * vs_choose("amount", 2)) : amt<T>(), b = listed ? (T)40 : amt<T>(), c = listed ? (T)(1 + 300 * vs_choose("amount", 2)) : amt<T>(); auto f = [&] { e.mark(a); e.mark(b); }; auto g = [&] { e.mark(c); }; vs_spawn(f); vs_spawn(g); vs_join(); vs_steady_ns += S; long double x = e.rate(), t = (long double)a + b + c; vs_assert(near(x, later ? r + alpha * (t - r) : t, std::is_floating_point<T>::value ? sizeof(T) == 4 ? 0.01 : 1e-6 : later ? 1.0 : 0), "two-threads");
}
VS_ENTRY(doubles) { two<double>(); }
VS_ENTRY(floats) { two<float>(); }
VS_ENTRY(integers) { two<int64_t>(); }
VS_ENTRY(unsigneds) { two<uint32_t>(); }
VS_ENTRY(three) { vs_flag(2, Q(2, 3)); vs_steady_ns = S; ewma<5000000> e; double a = vs_double("amount", 1, 1000), b = vs_double("amount", 1, 1000), c = vs_double("amount", 1, 1000); auto f = [&] { e.mark(a); }; auto g = [&] { e.mark(b); }; auto h = [&] { e.mark(c); }; vs_spawn(f); vs_spawn(g); vs_spawn(h); vs_join(); vs_steady_ns += S; double x = e.rate(); vs_assert(near(x, a + b + c, 1e-6), "three-threads"); }
VS_ENTRY(observed) { // a reader of the const object does not disturb the marks
  vs_flag(2, Q(2, 3)); vs_steady_ns = S; typedef ewma<5000000> E; E e; double a = vs_double("amount", 1, 1000), b = vs_double("amount", 1, 1000); auto f = [&] { e.mark(a); e.mark(b); }; auto g = [&] { const E& c = e; double x = c.rate(); vs_assert((x >= 0) & (x <= a + b + 1e-6), "reader"); }; vs_spawn(f); vs_spawn(g); vs_join(); vs_steady_ns += S; double x = e.rate(); vs_assert(near(x, a + b, 1e-6), "observed-marks");
}
VS_ENTRY(reader) { // a reader inside the interval, which also ticks, does not take marks away
  vs_flag(2, Q(2, 3)); vs_steady_ns = S; typedef ewma<5000000> E; E e; double a = vs_double("amount", 1, 1000), b = vs_double("amount", 1, 1000); auto f = [&] { e.mark(a); e.mark(b); }; auto g = [&] { e.rate(); }; vs_spawn(f); vs_spawn(g); vs_join(); vs_steady_ns += S; double x = e.rate(); vs_assert(near(x, a + b, 1e-6), "read-marks");
}
typedef meter<1000000, 5000000, 60000000> M;
VS_ENTRY(meters) {
  vs_flag(2, Q(2, 3)); vs_steady_ns = S; M m; m.mark(5); int64_t a = vs_range("amount", 1, 1000), b = vs_range("amount", 1, 1000); auto f = [&] { m.mark(a); }; auto g = [&] { m.mark(b); }; vs_spawn(f); vs_spawn(g); vs_join(); vs_steady_ns += S; int64_t t = a + b + 5; vs_assert(near(m.mean(), t, 1e-6), "meter-mean"); vs_assert(near(m.rate<5000000>().rate, t, 1e-6), "meter-rate"); vs_assert(near(m.rate<60000000>().rate, t, 1e-6), "meter-other-rate");
}
VS_ENTRY(meters_total) { // the total loses nothing, also when the marks race with the end of an interval
  vs_flag(2, 2); vs_steady_ns = S; M m; m.mark(5); vs_steady_ns += 2 * S; int64_t a = vs_range("amount", 1, 1000), b = vs_range("amount", 1, 1000); auto f = [&] { m.mark(a); }; auto g = [&] { m.mark(b); }; vs_spawn(f); vs_spawn(g); vs_join(); int64_t t = a + b + 5; vs_assert(near(m.mean(), t / 2.0, 1e-6), "total-after-race"); const M& c = m; meter_snapshot s = c.snapshot(); vs_assert(near((double)s.value(), t / 2.0, 1e-6), "snapshot-after-race");
}
VS_ENTRY(meters_first) { // the very first marks race
  vs_flag(2, Q(2, 3)); vs_steady_ns = S; meter<1000000, 5000000> m; int64_t a = vs_range("amount", 1, 1000), b = vs_range("amount", 1, 1000), c = vs_range("amount", 1, 1000); auto f = [&] { m.mark(a); m.mark(b); }; auto g = [&] { m.mark(c); }; vs_spawn(f); vs_spawn(g); vs_join(); vs_steady_ns += 4 * S; vs_assert(near(m.mean(), (a + b + c) / 4.0, 1e-6), "first-marks");
}
