// bound: histories of 4 (thorough: 5) insertions, erasures and lookups of four keys and of arbitrary keys, over lists of 1, 2 and 3 levels with every choice of levels; every interleaving of two threads with one or two operations each; sequentially consistent memory
// outside: weaker memory orders, more threads or operations; the memory of erased nodes (never given back)
// opt: * instr=400000
#include "h.h"
#include <memory>
#include <cstddef>
using std::nullptr_t;
#include <cxxmetrics/skiplist.hpp>
using cxxmetrics::skiplist;
template <class L> static int walk(L& l, int* out, int most) { int n = 0; for (auto i = l.begin(); i != l.end(); ++i) { vs_assert(n < most, "iteration-ends"); out[n++] = *i; } return n; }
template <class L> static void judge(L& l, const bool* in, int keys) { int out[8], n = walk(l, out, 8), k = 0; for (int i = 0; i < keys; i++) if (in[i]) { vs_assert(k < n && out[k] == i, "iterates-in-order"); k++; } vs_assert(k == n, "iterates-only-those"); for (int i = 0; i < keys; i++) { auto f = l.find(i); vs_assert((f != l.end()) == in[i], "found"); if (in[i]) vs_assert(*f == i, "found-key"); } }
template <int N> static void history(int ops) { skiplist<int, N> l; bool in[4] = {}; for (int i = 0; i < ops; i++) { int k = vs_choose("key", 4); if (vs_choose("erase", 2)) { vs_assert(l.erase(k) == in[k], "erased-once"); in[k] = false; } else { vs_assert(l.insert(k) == !in[k], "inserted-once"); in[k] = true; } judge(l, in, 4); } }
VS_ENTRY(one_level) { history<2>(Q(4, 5)); }
VS_ENTRY(two_levels) { history<4>(Q(4, 5)); }
VS_ENTRY(three_levels) { history<8>(Q(3, 4)); }
template <int N> static void any_keys() { skiplist<int64_t, N> l; int64_t v[3], w[3]; int n = 0; for (int i = 0; i < 3; i++) { v[i] = vs_any<int64_t>("key"); bool again = false; for (int k = 0; k < i; k++) again = again | (v[k] == v[i]); vs_assert(l.insert(v[i]) == !again, "new-key-inserted"); if (!again) w[n++] = v[i]; } vs_sorted(w, n); int i = 0; for (auto it = l.begin(); it != l.end(); ++it) { vs_assert(i < n && *it == w[i], "keys-in-order"); i++; } vs_assert(i == n, "all-keys"); int64_t x = vs_any<int64_t>("sought"); bool has = false; for (int k = 0; k < n; k++) has = has | (w[k] == x); vs_assert((l.find(x) != l.end()) == has, "sought"); vs_assert(l.erase(x) == has && l.find(x) == l.end() && !l.erase(x), "sought-erased"); }
VS_ENTRY(arbitrary_keys) { if (vs_choose("levels", 2)) any_keys<4>(); else any_keys<2>(); }
struct down { bool operator()(int a, int b) const { return b < a; } };
VS_ENTRY(other_order) { skiplist<int, 4, down> l; int a = vs_any<int>("a"), b = vs_any<int>("b"); l.insert(a); bool n = l.insert(b); vs_assert(n == (a != b), "other-order-unique"); auto i = l.begin(); vs_assert(*i == (a < b ? b : a), "largest-first"); ++i; vs_assert((i != l.end()) == n, "other-order-size"); if (n) vs_assert(*i == (a < b ? a : b), "smallest-last"); }
VS_ENTRY(iterators) { skiplist<int, 4> l; for (int k = 0; k < 3; k++) l.insert(k); int at = vs_choose("at", 3), gone = vs_choose("gone", 3); auto i = l.find(at); auto j = i; vs_assert(j == i && *j == at && *i.operator->() == at, "iterator-copy"); vs_assert(l.erase(l.find(gone)), "erased-by-iterator"); vs_assert(!l.erase(gone), "erased-by-iterator-once"); vs_assert(*i == at, "held-key"); ++i; int next = at + 1 == gone ? at + 2 : at + 1; if (at != gone) { vs_assert((i != l.end()) == (next < 3), "goes-on"); if (next < 3) vs_assert(*i == next, "goes-on-in-order"); } if (at == gone) { vs_assert(!l.erase(j), "erased-iterator"); vs_assert(l.insert(gone), "inserted-again"); } auto e = l.end(); ++e; vs_assert(e == l.end(), "end-stays"); decltype(i) none; none = j; vs_assert(none == j && *none == at, "iterator-assigned"); }
VS_ENTRY(longer) { skiplist<int, 8> l; bool in[12] = {}; int n = Q(6, 8); static const int order[] = {5, 2, 9, 0, 7, 11, 3, 8}; for (int i = 0; i < n; i++) { l.insert(order[i]); in[order[i]] = true; } int a = vs_choose("a", n), b = vs_choose("b", n); vs_assert(l.erase(order[a]), "longer-erased"); in[order[a]] = false; vs_assert(l.erase(order[b]) == (a != b), "longer-erased-next"); in[order[b]] = false; int out[12], c = walk(l, out, 12), k = 0; for (int i = 0; i < 12; i++) if (in[i]) { vs_assert(k < c && out[k] == i, "longer-in-order"); k++; } vs_assert(k == c, "longer-size"); for (int i = 0; i < 12; i++) vs_assert((l.find(i) != l.end()) == in[i], "longer-found"); }
// two threads
template <int N, class F, class G> static void both(skiplist<int, N>&, F& f, G& g) { vs_flag(2, Q(2, 3)); vs_flag(3, 3000); vs_spawn(f); vs_spawn(g); vs_join(); }
template <int N> static void fill(skiplist<int, N>& l, bool* in, int bits) { for (int i = 0; i < 4; i++) if (bits >> i & 1) { l.insert(i); in[i] = true; } }
template <int N> static void ins_ins() { skiplist<int, N> l; bool in[4] = {}; fill(l, in, vs_choose("before", 2) * 2); int a = vs_choose("a", 3), b = vs_choose("b", 3); bool x = false, y = false; auto f = [&] { x = l.insert(a); }; auto g = [&] { y = l.insert(b); }; both(l, f, g); if (a == b) vs_assert(x + y == !in[a], "one-inserts"); else vs_assert(x == !in[a] && y == !in[b], "both-insert"); in[a] = in[b] = true; judge(l, in, 4); }
VS_ENTRY(inserts) { ins_ins<2>(); }
VS_ENTRY(inserts_levels) { ins_ins<4>(); }
template <int N> static void ins_del() { skiplist<int, N> l; bool in[4] = {}; int before = vs_choose("before", TH ? 8 : 2); fill(l, in, TH ? 1 + before : before ? 5 : 2); int a = vs_choose("a", Q(3, 4)), b = vs_choose("b", Q(3, 4)); bool x = false, y = false; auto f = [&] { x = l.insert(a); }; auto g = [&] { y = l.erase(b); }; both(l, f, g); if (a != b) { vs_assert(x == !in[a] && y == in[b], "independent"); in[a] = true; in[b] = false; } else if (in[a]) { vs_assert(y, "erases-the-present"); in[a] = x; } else { vs_assert(x, "inserts-the-absent"); in[a] = !y; } judge(l, in, 4); }
VS_ENTRY(insert_erase) { ins_del<2>(); }
VS_ENTRY(insert_erase_levels) { ins_del<4>(); }
template <int N> static void del_del() { skiplist<int, N> l; bool in[4] = {}; int before = vs_choose("before", TH ? 15 : N > 2 ? 1 : 2); fill(l, in, TH ? 1 + before : before ? 5 : 7); int a = vs_choose("a", Q(3, 4)), b = a + vs_choose("b", Q(3, 4)); if (b > Q(2, 3)) return; bool x = false, y = false; auto f = [&] { x = l.erase(a); }; auto g = [&] { y = l.erase(b); }; both(l, f, g); if (a == b) vs_assert(x + y == in[a], "one-erases"); else vs_assert(x == in[a] && y == in[b], "both-erase"); in[a] = in[b] = false; judge(l, in, 4); }
VS_ENTRY(erases) { del_del<2>(); }
VS_ENTRY(erases_levels) { del_del<4>(); }
VS_ENTRY(iterate_insert) { skiplist<int, 4> l; bool in[4] = {}; fill(l, in, 5); int a = vs_choose("a", 4), out[8], n = 0; bool e = vs_choose("erase", 2); auto f = [&] { n = walk(l, out, 8); }; auto g = [&] { if (e) l.erase(a); else l.insert(a); }; both(l, f, g); int k = 0; bool seen[4] = {}; for (; k < n; k++) { vs_assert(out[k] >= 0 && out[k] < 4 && (!k || out[k - 1] < out[k]), "meanwhile-in-order"); seen[out[k]] = true; } for (int i = 0; i < 4; i++) if (i != a) vs_assert(seen[i] == in[i], "meanwhile-the-others"); else if (!in[i] && e) vs_assert(!seen[i], "meanwhile-absent"); }
