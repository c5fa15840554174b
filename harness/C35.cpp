// bound: all counts whose length fits 2^62 ns (2^63 us for arithmetic on periods alone), durations of nanoseconds to hours and of floating point seconds
// outside: counts that overflow; multiplying a duration by a period (it does not compile)
// opt: * weight=1
#include "h.h"
template <class F> static void pick(std::initializer_list<F> fs) { int k = vs_choose("pair", (int)fs.size()); int i = 0; for (F f : fs) if (i++ == k) f(); }
typedef void (*Fn)();
typedef std::chrono::steady_clock::duration D;
const uint64_t MAXUS = (1ull << 62) / 1000;
template <uint64_t U> static void check(period p, uint64_t v) { vs_assert((period::value)p == v * U, "microseconds"); vs_assert(p.to_duration() == D(std::chrono::microseconds(v * U)), "length"); D d = p; vs_assert(d == p.to_duration(), "conversion"); vs_assert(d.count() == (int64_t)(v * U * 1000), "nanoseconds"); }
VS_ENTRY(units) { pick<Fn>({[] { uint64_t v = vs_range("v", 0, MAXUS); check<1>(time::microseconds(v), v); vs_assert(time::microseconds(v).to_duration() == std::chrono::microseconds(v), "chrono-us"); }, [] { uint64_t v = vs_range("v", 0, MAXUS / 1000); check<1000>(time::milliseconds(v), v); vs_assert(time::milliseconds(v).to_duration() == std::chrono::milliseconds(v), "chrono-ms"); }, [] { uint64_t v = vs_range("v", 0, MAXUS / 1000000); check<1000000>(time::seconds(v), v); vs_assert(time::seconds(v).to_duration() == std::chrono::seconds(v), "chrono-s"); }, [] { uint64_t v = vs_range("v", 0, MAXUS / 60000000); check<60000000>(time::minutes(v), v); vs_assert(time::minutes(v).to_duration() == std::chrono::minutes(v), "chrono-min"); }, [] { uint64_t v = vs_range("v", 0, MAXUS / 3600000000ull); check<3600000000ull>(time::hours(v), v); vs_assert(time::hours(v).to_duration() == std::chrono::hours(v), "chrono-h"); }}); }
VS_ENTRY(literals) { using namespace cxxmetrics_literals; pick<Fn>({[] { uint64_t v = vs_range("v", 0, MAXUS); check<1>(operator""_micro(v), v); }, [] { uint64_t v = vs_range("v", 0, MAXUS / 1000); check<1000>(operator""_msec(v), v); }, [] { uint64_t v = vs_range("v", 0, MAXUS / 1000000); check<1000000>(operator""_sec(v), v); }, [] { uint64_t v = vs_range("v", 0, MAXUS / 60000000); check<60000000>(operator""_min(v), v); }, [] { uint64_t v = vs_range("v", 0, MAXUS / 3600000000ull); check<3600000000ull>(operator""_hour(v), v); }}); }
VS_ENTRY(compile_time) { static_assert((period::value)3_sec == 3000000 && (period::value)2_min == 120000000 && (period::value)1_hour == 3600000000ull && (period::value)5_msec == 5000 && (period::value)7_micro == 7, ""); constexpr period p = 90_sec; static_assert(p.to_duration() == std::chrono::seconds(90), ""); vs_assert(ewma<1_min, 5_sec>().rate() == 0, "usable-as-template-argument"); }
VS_ENTRY(arithmetic) { period::value a = vs_any<uint64_t>("a"), b = vs_any<uint64_t>("b"); period p(a); vs_assert((period::value)(p * b) == a * b, "times"); vs_assert((period::value)(p + b) == a + b, "plus"); vs_assert((period::value)(p - b) == a - b, "minus"); if (b) vs_assert((period::value)(p / b) == a / b, "divided"); vs_assert((period::value)p == a, "unchanged"); period c(p); vs_assert((period::value)c == a, "copied"); }
// periods and durations
template <class U> static void durations() {
  int64_t ns = std::chrono::duration_cast<nanoseconds>(U(1)).count(), m = (1ll << 60) / ns; int64_t n = vs_range("n", -m, m); uint64_t v = vs_range("v", 0, (1ll << 60) / 1000); U a(n); period p(v); int64_t x = n * ns, y = v * 1000;
  vs_assert((a > p) == (x > y), "greater"); vs_assert((a >= p) == (x >= y), "greater-or-equal"); vs_assert((a < p) == (x < y), "less"); vs_assert((a <= p) == (x <= y), "less-or-equal"); nanoseconds s = a + p, d = a - p; vs_assert(s.count() == x + y, "sum"); vs_assert(d.count() == x - y, "difference"); D e(x), f(x); e += p; f -= p; vs_assert(e.count() == x + y && f.count() == x - y, "assigned");
}
VS_ENTRY(combined) { pick<Fn>({durations<nanoseconds>, durations<std::chrono::microseconds>, durations<std::chrono::milliseconds>, durations<std::chrono::seconds>, durations<std::chrono::minutes>, durations<std::chrono::hours>}); }
VS_ENTRY(quotients) { static const uint64_t vs[] = {1, 7, 1000, 1000000, 60000000, 3600000000ull}; uint64_t v = vs[vs_choose("v", 6)]; int64_t n = vs_range("n", -(1ll << 60), 1ll << 60); vs_assert(nanoseconds(n) / period(v) == n / (int64_t)(v * 1000), "quotient"); int64_t k = vs_range("k", 0, 1ll << 20); vs_assert(std::chrono::milliseconds(k) / period(v) == k * 1000000 / (int64_t)(v * 1000), "quotient-of-milliseconds"); double f = std::chrono::duration<double>(k * 1.0) / period(v); double e = k * 1e9 / (v * 1000.0); vs_assert((f - e <= e * 1e-9 + 1e-9) & (e - f <= e * 1e-9 + 1e-9), "quotient-of-floats"); }
VS_ENTRY(returned) { int64_t n = vs_range("n", -(1ll << 60), 1ll << 60); uint64_t v = vs_range("v", 0, (1ll << 60) / 1000); nanoseconds a(n), b(n); auto x = (a += period(v)), y = (b -= period(v)); vs_assert(x == a && y == b, "result-of-assignment"); }
// hashes of durations: what the rates of a meter are looked up by
VS_ENTRY(lookup) { int64_t a = vs_any<int64_t>("a"), b = vs_any<int64_t>("b"); std::hash<nanoseconds> h; vs_assert((nanoseconds(a) == nanoseconds(b)) <= (h(nanoseconds(a)) == h(nanoseconds(b))), "equal-hash"); }
