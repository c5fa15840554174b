// bound: 2 threads making up to 3 updates between them (thorough: 4) and 3 threads making one each, of arbitrary values, into reservoirs of 2 and 3 values of every kind that are empty, partly filled or full; a snapshot, a copy or two snapshots taken meanwhile; every interleaving of the atomic operations and of the unordered accesses (with at most 2 preemptions at those; thorough: 3)
// outside: torn accesses to a value; which of the offered values remain
#include "h.h"
template <class F> static void pick(std::initializer_list<F> fs) { int k = vs_choose("kind", (int)fs.size()); int i = 0; for (F f : fs) if (i++ == k) f(); }
typedef void (*Fn)();
template <int N> using S = simple_reservoir<int64_t, N>; template <int N> using U = uniform_reservoir<int64_t, N>; template <int N> struct W : sliding_window_reservoir<int64_t, N> { W() : sliding_window_reservoir<int64_t, N>(std::chrono::seconds(60)) { vs_steady_ns = 1000000000; } };
static int64_t num(const char* n) { return vs_range(n, 1, 1000000); }
static int64_t old(int i) { return TH ? num("old") : 2000000 + (i ^ 1); }
template <class SN> static std::vector<int64_t> content(SN& s) { std::vector<int64_t> v; if (s.size() > 0) v.push_back((int64_t)s.min()); if (s.size() > 2) v.push_back((int64_t)s.template value<50_p>()); if (s.size() > 1) v.push_back((int64_t)s.max()); return v; }
static bool among(int64_t x, const std::vector<int64_t>& o) { bool f = false; for (int64_t y : o) f |= x == y; return f; }
static void sort3(std::vector<int64_t>& v) { vs_sorted(v.data(), (int)v.size()); }
template <class R> static void after(R& r, size_t cap, const std::vector<int64_t>& o) { // o: what was offered
  auto s = r.snapshot(); size_t n = std::min(cap, o.size()); vs_assert(s.size() == n, "size-afterwards"); if (s.size() != n) return; auto v = content(s); bool ok = true; for (int64_t x : v) ok &= among(x, o); vs_assert(ok, "only-offered-values"); if (o.size() <= cap) { std::vector<int64_t> e = o; sort3(e); bool same = true; for (size_t i = 0; i < n; i++) same &= v[i] == e[i]; vs_assert(same, "every-value-there"); } }
// two updaters; the first makes one or two updates
template <class R, int N> static void two() { R r; int pre = vs_choose("before", N + 2); std::vector<int64_t> o; for (int i = 0; i < pre; i++) { o.push_back(old(i)); r.update(o.back()); } int n = 1 + vs_choose("n", 2), m = Q(1, 2); int64_t a[2], b[2]; for (int i = 0; i < n; i++) o.push_back(a[i] = num("a")); for (int i = 0; i < m; i++) o.push_back(b[i] = num("b")); auto f = [&] { for (int i = 0; i < n; i++) r.update(a[i]); }; auto g = [&] { for (int i = 0; i < m; i++) r.update(b[i]); }; vs_spawn(f); vs_spawn(g); vs_join(); after(r, N, o); int64_t z = 7777777; r.update(z); o.push_back(z); after(r, N, o); }
VS_ENTRY(latest2) { two<S<2>, 2>(); } VS_ENTRY(latest3) { two<S<3>, 3>(); }
VS_ENTRY(windows2) { two<W<2>, 2>(); } VS_ENTRY(windows3) { two<W<3>, 3>(); }
VS_ENTRY(uniform2) { two<U<2>, 2>(); } VS_ENTRY(uniform3) { two<U<3>, 3>(); }
template <class R, int N> static void three() { R r; int pre = vs_choose("before", N + 1); std::vector<int64_t> o; for (int i = 0; i < pre; i++) { o.push_back(old(i)); r.update(o.back()); } int64_t a = num("a"), b = num("b"), c = num("c"); o.push_back(a); o.push_back(b); o.push_back(c); auto f = [&] { r.update(a); }; auto g = [&] { r.update(b); }; auto h = [&] { r.update(c); }; vs_spawn(f); vs_spawn(g); vs_spawn(h); vs_join(); after(r, N, o); }
VS_ENTRY(three_updaters) { pick<Fn>({three<S<2>, 2>, three<W<2>, 2>, three<U<2>, 2>}); }
VS_ENTRY(three_updaters_of_three) { pick<Fn>({three<S<3>, 3>, three<W<3>, 3>, three<U<3>, 3>}); }
// a reader meanwhile
template <class R, int N> static void reader() { R r; int pre = vs_choose("before", N + 1); std::vector<int64_t> o; for (int i = 0; i < pre; i++) { o.push_back(old(i)); r.update(o.back()); } int64_t a = num("a"), b = num("b"); o.push_back(a); o.push_back(b); size_t x = 99; bool many = vs_choose("full", 2) && pre == N; bool ok = true; auto f = [&] { r.update(a); r.update(b); }; auto g = [&] { auto s = r.snapshot(); x = s.size(); if (many) for (int64_t v : content(s)) ok &= among(v, o); }; vs_spawn(f); vs_spawn(g); vs_join(); vs_assert(x <= (size_t)N, "within-capacity"); vs_assert(x >= (size_t)pre && x <= o.size(), "size-meanwhile"); vs_assert(ok, "offered-in-full-reservoir"); after(r, N, o); }
VS_ENTRY(readers) { pick<Fn>({reader<S<2>, 2>, reader<W<2>, 2>, reader<U<2>, 2>}); }
VS_ENTRY(readers3) { pick<Fn>({reader<S<3>, 3>, reader<W<3>, 3>, reader<U<3>, 3>}); }
template <class R, int N> static void copier() { R r; int pre = vs_choose("before", N + 1); std::vector<int64_t> o; for (int i = 0; i < pre; i++) { o.push_back(old(i)); r.update(o.back()); } int64_t a = num("a"); o.push_back(a); size_t x = 99, y = 99; int as = vs_choose("assigned", 2); auto f = [&] { r.update(a); }; auto g = [&] { if (as) { R q; q = r; x = q.snapshot().size(); q.update(7); y = q.snapshot().size(); } else { R q(r); x = q.snapshot().size(); q.update(7); y = q.snapshot().size(); } }; vs_spawn(f); vs_spawn(g); vs_join(); vs_assert(x <= (size_t)N && x >= (size_t)pre, "copied-meanwhile"); vs_assert(y == std::min((size_t)N, x + 1), "copy-continues"); after(r, N, o); }
VS_ENTRY(copiers) { pick<Fn>({copier<S<2>, 2>, copier<W<2>, 2>, copier<U<2>, 2>}); }
// several rounds around a buffer
VS_ENTRY(wrapped) { S<2> r; int64_t o[3] = {num("o"), num("o"), num("o")}; for (int64_t v : o) r.update(v); int64_t a = num("a"), b = num("b"), c = num("c"); auto f = [&] { r.update(a); r.update(c); }; auto g = [&] { r.update(b); }; vs_spawn(f); vs_spawn(g); vs_join(); auto s = r.snapshot(); vs_assert(s.size() == 2, "still-full"); auto v = content(s); vs_assert(among(v[0], {a, b, c, o[2]}) && among(v[1], {a, b, c, o[2]}), "recent-values"); }
// behind a histogram and a timer
VS_ENTRY(histograms) { histogram<int64_t, S<3>> h{S<3>()}; int64_t a = num("a"), b = num("b"), c = num("c"); auto f = [&] { h.update(a); h.update(c); }; auto g = [&] { h.update(b); }; vs_spawn(f); vs_spawn(g); vs_join(); auto s = h.snapshot(); vs_assert(s.size() == 3 && s.count() == 3, "histogram-size"); auto v = content(s); std::vector<int64_t> e{a, b, c}; sort3(e); vs_assert((v[0] == e[0]) & (v[1] == e[1]) & (v[2] == e[2]), "histogram-values"); }
