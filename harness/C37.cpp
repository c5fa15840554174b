// bound: histories of 2 (thorough: 3) operations from any of four starting states on three handles with arbitrary values (allocate, copy, move, drop, exchange, compare and exchange, also onto themselves); every interleaving of two threads with up to three operations each on pools with 0 to 2 returned objects; sequentially consistent memory
// outside: handles that outlive their pool; weaker memory orders; a handle that is copied while another thread overwrites it may come out null
// opt: * instr=400000
#include "h.h"
#include <memory>
using std::nullptr_t;
#include <cxxmetrics/pool.hpp>
using cxxmetrics::internal::pool; using cxxmetrics::internal::pool_ptr;
static std::atomic<int> born{0}, died{0};
struct thing { int v; int mark; thing(int x = 0) : v(x), mark(77) { born++; } thing(const thing& o) : v(o.v), mark(77) { vs_assert(o.mark == 77, "copied-alive"); born++; } ~thing() { vs_assert(mark == 77, "destroyed-once"); mark = 0; died++; } thing& operator=(const thing& o) { v = o.v; return *this; } };
typedef pool<thing> P; typedef pool_ptr<thing> H;
static void fresh() { born = 0; died = 0; vs_flag(2, Q(2, 3)); }
static int alive() { return born.load() - died.load(); }
static int at(H& h) { thing& t = *h; vs_assert(t.mark == 77, "referenced-alive"); return t.v; }
VS_ENTRY(history) {
  fresh(); { P p; H h[3]; int obj[3] = {-1, -1, -1}, val[9], n = 0; void* where[9]; bool freed[9] = {}; int nfree = 0, made = 0;
    auto drop = [&](int o) { if (o < 0) return; for (int k : obj) if (k == o) return; freed[o] = true; nfree++; };
    { int k = vs_choose("free", 2); if (k) { H g = p.allocate(thing(0)); where[n] = &*g; freed[n++] = true; nfree = 1; } }
    for (int j = 0; j < 2; j++) { bool again = nfree > 0; if (again) { freed[0] = false; where[0] = nullptr; nfree--; } val[n] = vs_any<int>("v"); h[j] = p.allocate(thing(val[n])); where[n] = &*h[j]; obj[j] = n++; } if (vs_choose("shared", 2)) { h[2] = h[0]; obj[2] = obj[0]; }
    int ops = Q(2, 3); for (int i = 0; i < ops; i++) {
      int op = vs_choose("op", 7), a = vs_choose("a", 3), b = op == 0 || op == 3 ? 0 : vs_choose("b", 3), old = obj[a];
      if (op == 0) { int v = vs_any<int>("v"); bool again = nfree > 0; h[a] = p.allocate(thing(v)); void* w = &*h[a]; if (again) { int k = 0; for (; k < n; k++) if (freed[k] && where[k] == w) break; vs_assert(k < n, "reused"); freed[k] = false; where[k] = nullptr; nfree--; } else { for (int k = 0; k < n; k++) vs_assert(where[k] != w, "not-handed-out-twice"); made++; } where[n] = w; val[n] = v; obj[a] = n++; drop(old); }
      else if (op == 1) { h[a] = h[b]; obj[a] = obj[b]; if (obj[a] != old) drop(old); }
      else if (op == 2) { h[a] = std::move(h[b]); int o = obj[b]; obj[b] = -1; obj[a] = o; if (o != old) drop(old); }
      else if (op == 3) { h[a] = nullptr; obj[a] = -1; drop(old); }
      else if (op == 4) { H got = h[a].exchange(h[b]); vs_assert((bool)got == (old >= 0), "exchanged"); if (got) vs_assert(at(got) == val[old], "exchanged-value"); got = H(); obj[a] = obj[b]; if (obj[a] != old) drop(old); }
      else if (op == 5) { int c = vs_choose("c", 3); if (c == a) continue; bool same = obj[c] == obj[a], ok = h[a].compare_exchange_strong(h[c], h[b]); vs_assert(ok == same, "compare-exchange"); int was = obj[c]; if (ok) obj[a] = obj[b]; else obj[c] = obj[a]; drop(ok ? old : was); if ((ok ? old : was) >= 0) { bool held = false; for (int k : obj) held |= k == (ok ? old : was); (void)held; } }
      else { H c(h[b]), d(std::move(c)); vs_assert(!c && d == h[b], "constructed"); }
      int k = 0; bool dup[9] = {}; for (int j = 0; j < 3; j++) { vs_assert((bool)h[j] == (obj[j] >= 0), "null"); if (obj[j] >= 0) { vs_assert(at(h[j]) == val[obj[j]], "value"); if (!dup[obj[j]]) { dup[obj[j]] = true; k++; } for (int l = 0; l < j; l++) if (obj[l] >= 0) vs_assert((h[l] == h[j]) == (obj[l] == obj[j]) && (h[l] != h[j]) == (obj[l] != obj[j]), "same-object"); } }
      vs_assert(alive() == k, "destroyed-when-dropped");
    } }
  vs_assert(alive() == 0, "all-destroyed");
}
// n objects allocated and returned beforehand
static void stock(P& p, int n) { H h[3]; for (int i = 0; i < n; i++) h[i] = p.allocate(thing(i)); }
static void apart(H& a, H& b) { if (a && b) vs_assert(&*a != &*b, "handed-out-twice"); }
VS_ENTRY(copies) { fresh(); { P p; H h = p.allocate(thing(5)); int x = 0, y = 0; auto f = [&] { H c(h); x = at(c); H d; d = c; }; auto g = [&] { H c(h); y = at(c); c = nullptr; H d(h); y += at(d); }; vs_spawn(f); vs_spawn(g); vs_join(); vs_assert(x == 5 && y == 10, "shared-value"); vs_assert(alive() == 1 && at(h) == 5, "still-held"); h = nullptr; vs_assert(alive() == 0, "dropped-once"); } }
VS_ENTRY(last_drop) { fresh(); { P p; H a = p.allocate(thing(5)), b(a); bool c = vs_choose("copy", 2); auto f = [&] { if (c) { H k(a); a = nullptr; at(k); } else a = nullptr; }; auto g = [&] { b = H(); }; vs_spawn(f); vs_spawn(g); vs_join(); vs_assert(alive() == 0, "dropped-by-one"); H x = p.allocate(thing(1)), y = p.allocate(thing(2)); apart(x, y); vs_assert(at(x) == 1 && at(y) == 2, "returned-once"); } vs_assert(alive() == 0, "last-all-destroyed"); }
VS_ENTRY(takers) { fresh(); { P p; stock(p, vs_choose("free", 3)); H a, b, c; auto f = [&] { a = p.allocate(thing(1)); }; auto g = [&] { b = p.allocate(thing(2)); c = p.allocate(thing(3)); }; vs_spawn(f); vs_spawn(g); vs_join(); apart(a, b); apart(a, c); apart(b, c); vs_assert(at(a) == 1 && at(b) == 2 && at(c) == 3, "taken-values"); vs_assert(alive() == 3, "taken-alive"); } vs_assert(alive() == 0, "takers-all-destroyed"); }
VS_ENTRY(returners) { fresh(); { P p; H a = p.allocate(thing(1)), b = p.allocate(thing(2)); void *pa = &*a, *pb = &*b; auto f = [&] { a = nullptr; }; auto g = [&] { b = nullptr; }; vs_spawn(f); vs_spawn(g); vs_join(); H x = p.allocate(thing(3)), y = p.allocate(thing(4)); void *px = &*x, *py = &*y; vs_assert((px == pa && py == pb) | (px == pb && py == pa), "both-returned"); } vs_assert(alive() == 0, "returners-all-destroyed"); }
VS_ENTRY(take_and_return) { fresh(); { P p; stock(p, vs_choose("free", 2)); H a = p.allocate(thing(1)), b, c; auto f = [&] { b = p.allocate(thing(2)); }; auto g = [&] { a = nullptr; c = p.allocate(thing(3)); }; vs_spawn(f); vs_spawn(g); vs_join(); apart(b, c); vs_assert(at(b) == 2 && at(c) == 3 && alive() == 2, "taken-while-returned"); H d = p.allocate(thing(4)), e = p.allocate(thing(5)); apart(d, b); apart(d, c); apart(e, b); apart(e, c); apart(d, e); } vs_assert(alive() == 0, "mixed-all-destroyed"); }
VS_ENTRY(returned_between) { // the head of the pool is taken with the next one and returned while another thread takes it
  fresh(); { P p; stock(p, 2); H a, b, c; auto f = [&] { a = p.allocate(thing(1)); }; auto g = [&] { b = p.allocate(thing(2)); c = p.allocate(thing(3)); b = nullptr; }; vs_spawn(f); vs_spawn(g); vs_join(); H d = p.allocate(thing(4)); const char* why = "an object taken, followed by the next one, and returned while another thread takes it is not told from one that stayed in the pool"; bool once = (&*d != &*c) & (&*d != &*a) & (&*a != &*c); vs_assert_k(once, "handed-out-once", why, true); if (!once) vs_stop(); } }
VS_ENTRY(exchanges) { fresh(); { P p; H h = p.allocate(thing(1)), a = p.allocate(thing(2)), b = p.allocate(thing(3)), x, y; auto f = [&] { x = h.exchange(a); }; auto g = [&] { y = h.exchange(b); }; vs_spawn(f); vs_spawn(g); vs_join(); int i = at(x), j = at(y), k = at(h); vs_assert((i == 1 && j == 2 && k == 3) | (i == 3 && j == 1 && k == 2), "exchange-order"); vs_assert(alive() == 3, "exchange-alive"); a = nullptr; b = nullptr; h = nullptr; x = nullptr; y = nullptr; vs_assert(alive() == 0, "exchange-counts"); } }
VS_ENTRY(one_wins) { fresh(); { P p; H h = p.allocate(thing(1)), a = p.allocate(thing(2)), b = p.allocate(thing(3)), x(h), y(h); bool u = false, w = false; auto f = [&] { u = h.compare_exchange_strong(x, a); }; auto g = [&] { w = h.compare_exchange_strong(y, b); }; vs_spawn(f); vs_spawn(g); vs_join(); vs_assert(u != w, "one-wins"); vs_assert(at(h) == (u ? 2 : 3), "winner"); H& l = u ? y : x; vs_assert(l == h, "loser-sees-winner"); a = nullptr; b = nullptr; h = nullptr; x = nullptr; y = nullptr; vs_assert(alive() == 0, "win-counts"); } }
VS_ENTRY(read_and_replace) { fresh(); { P p; H h = p.allocate(thing(1)), a = p.allocate(thing(2)); int got = -1; auto f = [&] { H c(h); if (c) got = at(c); }; auto g = [&] { h = a; }; vs_spawn(f); vs_spawn(g); vs_join(); vs_assert(got == -1 || got == 1 || got == 2, "read-one-of-them"); vs_assert(at(h) == 2 && alive() == 1, "replaced"); } vs_assert(alive() == 0, "replaced-all-destroyed"); }
