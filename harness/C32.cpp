// bound: sequential histories of 6 (thorough: 8) operations with arbitrary values; every interleaving of two threads with up to 3 operations each and of three threads with one or two, over stacks of 0 to 3 elements, with the memory of freed nodes handed out again at once; sequentially consistent memory; nodes that carry their own link and contained values
// outside: weaker memory orders, more threads or operations; spurious failures of the weak exchange
// opt: * instr=400000
#include "h.h"
#include <cxxmetrics/internal/atomic_lifo.hpp>
using cxxmetrics::internal::atomic_lifo;
// memory for the nodes that stays mapped: what is freed last is handed out first
static constexpr int most = 12; static int given = 0, nfree = 0, live = 0; static int order[most]; alignas(16) static char room[most][64]; static bool gone[most]; static std::mutex desk;
template <class T> struct shelf {
  typedef T value_type; shelf() {} template <class U> shelf(const shelf<U>&) {} bool operator==(const shelf&) const { return true; } bool operator!=(const shelf&) const { return false; }
  T* allocate(size_t n) { static_assert(sizeof(T) <= 64, ""); vs_assert(n == 1, "one-at-a-time"); std::lock_guard<std::mutex> in(desk); int k = nfree ? order[--nfree] : given++; vs_assert(k < most, "enough-room"); gone[k] = false; live++; return (T*)room[k]; }
  void deallocate(T* p, size_t) { int k = (int)(((char*)p - room[0]) / 64); std::lock_guard<std::mutex> in(desk); vs_assert(!gone[k], "freed-once"); gone[k] = true; live--; order[nfree++] = k; }
};
static bool is_gone(const void* p) { return gone[((const char*)p - room[0]) / 64]; }
static void fresh() { given = nfree = live = 0; vs_flag(0, 1); vs_flag(2, Q(2, 4)); }
struct node { int v; node* n; node(int x) : v(x), n(nullptr) {} node* next() const { return n; } void set_next(node* x) { n = x; } };
struct watched : node { using node::node; watched* next() const { vs_assert_k(!is_gone(this), "next-of-a-live-node", "pop reads the link of a node another thread has popped and freed", true); return (watched*)n; } void set_next(watched* x) { n = x; } };
typedef atomic_lifo<node, shelf<node>, true> L; typedef atomic_lifo<int, shelf<int>, false> I;
static void push(L& l, int v) { l.push(l.make_pointer(v)); } static void push(I& l, int v) { l.push(v); }
static int val(L::pointer_type& p) { return (*p).v; } static int val(I::pointer_type& p) { return *p; }
template <class S> static int pop(S& l) { auto p = l.pop(); return p ? val(p) : -1; } // frees the node
// what was popped and what is left are exactly the numbers 1..n
struct tally { int seen[8] = {}; int n = 0, none = 0; void add(int v) { if (v < 0) none++; else { vs_assert(v >= 1 && v < 8, "a-pushed-value"); vs_assert(!seen[v]++, "at-most-once"); n++; } } };
template <class S> static void rest(tally& t, S& l) { int i = 0; for (; i < 8; i++) { int v = pop(l); if (v < 0) break; t.add(v); } vs_assert(i < 8, "ends"); }

template <class S> static void history() {
  fresh(); { S l; int model[9], n = 0, ops = Q(6, 8); for (int i = 0; i < ops; i++) { if (vs_choose("push", 2)) { int v = vs_any<int>("v"); if (vs_choose("emplace", 2)) push(l, v); else l.emplace(v); model[n++] = v; } else { auto p = l.pop(); vs_assert((bool)p == (n > 0), "empty"); if (n) vs_assert(val(p) == model[--n], "last-in-first-out"); } vs_assert(live == n, "nodes"); } } vs_assert(live == 0, "all-freed");
}
VS_ENTRY(linked) { history<L>(); }
VS_ENTRY(contained) { history<I>(); }
VS_ENTRY(construct) { // from lists, ranges and another stack
  fresh(); { int a = vs_any<int>("a"), b = vs_any<int>("b"), c = vs_any<int>("c"); I l{a, b, c}; auto p = l.pop(); vs_assert(p && *p == a, "list-order"); int v[] = {a, b, c}; I m(v, v + 3); auto q = m.pop(); vs_assert(q && *q == c, "range-order"); I k(std::move(m)); vs_assert(!m.pop(), "moved-away"); q = k.pop(); vs_assert(q && *q == b, "moved-here"); p = k.pop(); vs_assert(p && *p == a, "moved-rest"); vs_assert(!k.pop(), "moved-end"); *p = b; l.push(std::move(p)); p = l.pop(); vs_assert(p && *p == b, "pushed-back"); l.push(I::pointer_type()); auto r = l.pop(); vs_assert(r && *r == b, "pushing-nothing"); r = l.pop(); vs_assert(r && *r == c, "list-end"); } vs_assert(live == 0, "nothing-leaked");
}
template <class S> static void two_by_two() { fresh(); { S l; int n = vs_choose("before", Q(2, 3)); for (int i = 0; i < n; i++) push(l, i + 1); int x[4] = {-1, -1, -1, -1}; bool fp = vs_choose("first", 2), gp = vs_choose("second", 2); tally t; auto f = [&] { if (fp) { push(l, 4); x[0] = pop(l); } else { x[0] = pop(l); push(l, 4); } }; auto g = [&] { if (gp) { push(l, 5); x[1] = pop(l); } else { x[1] = pop(l); push(l, 5); } }; vs_spawn(f); vs_spawn(g); vs_join(); t.add(x[0]); t.add(x[1]); rest(t, l); vs_assert(t.n == n + 2, "nothing-lost"); if (n >= 2 || (fp && (gp || n >= 1))) vs_assert(x[0] > 0, "not-empty"); } vs_assert(live == 0, "freed"); }
VS_ENTRY(both_linked) { two_by_two<L>(); }
VS_ENTRY(both_contained) { two_by_two<I>(); }
VS_ENTRY(reused) { // the top is popped, freed and its memory pushed again while another thread pops
  fresh(); { L l; int n = 1 + vs_choose("before", Q(2, 3)); for (int i = 0; i < n; i++) push(l, i + 1); int x[4] = {-1, -1, -1, -1}; tally t; auto f = [&] { x[0] = pop(l); }; auto g = [&] { x[1] = pop(l); x[2] = pop(l); push(l, 6); }; vs_spawn(f); vs_spawn(g); vs_join(); for (int i = 0; i < 3; i++) t.add(x[i]); rest(t, l); vs_assert(t.n == n + 1, "nothing-lost-on-reuse"); } vs_assert(live == 0, "freed-on-reuse");
}
VS_ENTRY(put_back) { // nodes are taken and put back
  fresh(); { L l; for (int i = 0; i < 3; i++) push(l, i + 1); int x = -1, y = -1; tally t; auto f = [&] { x = pop(l); }; auto g = [&] { auto a = l.pop(); auto b = l.pop(); if (a) l.push(std::move(a)); if (b) y = val(b); }; vs_spawn(f); vs_spawn(g); vs_join(); vs_assert(x > 0 && y > 0, "three-are-enough"); t.add(x); t.add(y); rest(t, l); vs_assert(t.n == 3, "nothing-lost-on-return"); }
}
VS_ENTRY(swapped) { fresh(); { L l; for (int i = 0; i < 2; i++) push(l, i + 1); int x = -1; tally t; auto f = [&] { auto a = l.pop(); if (a) { x = val(a); l.push(std::move(a)); } }; auto g = [&] { auto a = l.pop(); auto b = l.pop(); if (a) l.push(std::move(a)); if (b) l.push(std::move(b)); }; vs_spawn(f); vs_spawn(g); vs_join(); rest(t, l); vs_assert(t.n == 2, "all-back"); } }
VS_ENTRY(three) { fresh(); { L l; int n = vs_choose("before", 3); for (int i = 0; i < n; i++) push(l, i + 1); int x = -1, y = -1; tally t; bool p = vs_choose("push", 2); auto f = [&] { x = pop(l); }; auto g = [&] { if (p) push(l, 5); else y = pop(l); }; auto h = [&] { push(l, 6); }; vs_spawn(f); vs_spawn(g); vs_spawn(h); vs_join(); t.add(x); t.add(y); rest(t, l); vs_assert(t.n == n + 1 + p, "nothing-lost-of-three"); if (n >= 2 || (p && n)) vs_assert(x > 0, "never-empty"); } vs_assert(live == 0, "freed-of-three"); }
VS_ENTRY(pushes) { fresh(); { I l; auto f = [&] { push(l, 1); push(l, 2); }; auto g = [&] { push(l, 3); push(l, 4); }; vs_spawn(f); vs_spawn(g); vs_join(); tally t; int at[8], k = 0; for (;;) { int v = pop(l); if (v < 0) break; at[v] = k++; t.add(v); } vs_assert(t.n == 4, "all-pushed"); vs_assert(at[2] < at[1] && at[4] < at[3], "order-of-each"); } }
VS_ENTRY(pops) { fresh(); { I l; int n = vs_choose("n", 5); for (int i = 0; i < n; i++) push(l, i + 1); int x[4]; auto f = [&] { x[0] = pop(l); x[1] = pop(l); }; auto g = [&] { x[2] = pop(l); x[3] = pop(l); }; vs_spawn(f); vs_spawn(g); vs_join(); tally t; for (int v : x) t.add(v); vs_assert(t.n == n && t.none == 4 - n, "each-popped"); for (int i = 0; i < 4; i += 2) if (x[i] > 0 && x[i + 1] > 0) vs_assert(x[i] > x[i + 1], "downwards"); vs_assert(!l.pop(), "empty-after"); } }
VS_ENTRY(freed_link) { fresh(); { atomic_lifo<watched, shelf<watched>, true> l; l.push(l.make_pointer(1)); l.push(l.make_pointer(2)); bool got = false, had = false; auto f = [&] { got = l.pop(); }; auto g = [&] { had = l.pop(); }; vs_spawn(f); vs_spawn(g); vs_join(); vs_assert(got && had, "both-popped"); } }
