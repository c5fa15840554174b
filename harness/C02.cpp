// bound: every interleaving of two threads with two operations each and of three threads with one, arbitrary amounts and initial value, sequentially consistent memory
// outside: weaker memory orders, more threads or operations
#include "h.h"
VS_ENTRY(sum2) {
  int64_t v = vs_any<int64_t>("init"), a = vs_any<int64_t>("a"), b = vs_any<int64_t>("b"), d = vs_any<int64_t>("d");
  counter<int64_t> c(v);
  auto f = [&] { c += a; ++c; }; auto g = [&] { c -= b; c.incr(d); };
  vs_spawn(f); vs_spawn(g); vs_join();
  vs_assert((uint64_t)c.value() == (uint64_t)v + (uint64_t)a + 1 - (uint64_t)b + (uint64_t)d, "total");
}
VS_ENTRY(steps) {
  int v = (int)vs_range("init", -5, 5); counter<int> c(v); int r[4];
  auto f = [&] { r[0] = c++; ++c; r[1] = c.incr(1); }; auto g = [&] { r[2] = c.incr(1); --c; r[3] = c++; };
  vs_spawn(f); vs_spawn(g); vs_join();
  vs_assert(c.value() == v + 4, "total-steps");
}
VS_ENTRY(distinct) {
  int v = vs_any<int>("init"); counter<int> c(v); int r[4];
  auto f = [&] { r[0] = c.incr(1); r[1] = c.incr(1); }; auto g = [&] { r[2] = c.incr(1); r[3] = c++ + 1; };
  vs_spawn(f); vs_spawn(g); vs_join();
  bool ok = true; for (int i = 0; i < 4; i++) { unsigned x = (unsigned)r[i] - (unsigned)v; ok &= x >= 1 && x <= 4; for (int j = 0; j < i; j++) ok &= r[i] != r[j]; }
  vs_assert(ok, "each-increment-sees-its-own-total");
}
VS_ENTRY(three) {
  uint32_t a = vs_any<uint32_t>("a"), b = vs_any<uint32_t>("b"), d = vs_any<uint32_t>("d"); counter<uint32_t> c(0); uint32_t seen1 = 0, seen2 = 0;
  vs_assume(a < 1000 && b < 1000 && d < 1000);
  auto f = [&] { c += a; }; auto g = [&] { c += b; }; auto h = [&] { seen1 = c.value(); seen2 = c; c += d; };
  vs_spawn(f); vs_spawn(g); vs_spawn(h); vs_join();
  vs_assert(c.value() == a + b + d, "total-three");
  vs_assert(seen1 <= seen2 && (seen2 == 0 || seen2 == a || seen2 == b || seen2 == a + b), "reader");
}
VS_ENTRY(histogram_count) {
  histogram<int, simple_reservoir<int, 4>> h;
  auto f = [&] { h.update(1); h.update(2); }; auto g = [&] { h.update(3); };
  vs_spawn(f); vs_spawn(g); vs_join();
  vs_assert(h.count() == 3, "histogram-count");
}
