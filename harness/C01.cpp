// bound: every integer width (8 to 64 bits, signed and unsigned), any initial value, any two operations with any arguments (each operation starts from an arbitrary value, so longer histories are covered by induction over the single value that a counter holds)
// outside: counters of floating point types (they do not compile in C++14)
#include "h.h"
template <class T> static void run() {
  using U = typename std::make_unsigned<T>::type;
  T v = vs_any<T>("init"); counter<T> c(v); U m = (U)v;
  vs_assert(c.value() == v, "initial");
  for (int i = 0; i < Q(2, 3); i++) {
    T by = vs_any<T>("by");
    switch (vs_choose("op", 11)) {
      case 0: { T r = c.incr(by); m += (U)by; vs_assert((U)r == m, "incr-result"); break; }
      case 1: { c += by; m += (U)by; break; }
      case 2: { c -= by; m -= (U)by; break; }
      case 3: { counter<T>& r = ++c; m += 1; vs_assert(&r == &c, "self"); break; }
      case 4: { T r = c++; vs_assert((U)r == m, "postfix-result"); m += 1; break; }
      case 5: { --c; m -= 1; break; }
      case 6: { c = by; m = (U)by; break; }
      case 7: { counter<T> d(c); d += 1; vs_assert((U)d.value() == (U)(m + 1), "copy-value"); counter<T> e(by); e = c; vs_assert((U)e.value() == m, "assigned-value"); break; }
      case 8: { counter<T> d(std::move(c)); vs_assert((U)d.value() == m && c.value() == 0, "moved"); m = 0; break; }
      case 9: { counter<T> d(by); c = d; m = (U)by; vs_assert(d.value() == by, "source-kept"); break; }
      case 10: { counter<T> d(by); c = std::move(d); m = (U)by; vs_assert(d.value() == 0, "move-assigned-source"); break; }
    }
    vs_assert((U)c.value() == m, "value");
    vs_assert((U)(T)c == m, "cast");
  }
  auto s = c.snapshot();
  vs_assert((U)(T)(int64_t)s.value() == m, "snapshot");
  vs_assert(s == metric_value((T)m), "snapshot-equal");
}
VS_ENTRY(i8) { run<int8_t>(); }
VS_ENTRY(u8) { run<uint8_t>(); }
VS_ENTRY(i16) { run<int16_t>(); }
VS_ENTRY(u16) { run<uint16_t>(); }
VS_ENTRY(i32) { run<int32_t>(); }
VS_ENTRY(u32) { run<uint32_t>(); }
VS_ENTRY(i64) { run<int64_t>(); }
VS_ENTRY(u64) { run<uint64_t>(); }
