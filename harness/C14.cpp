// bound: all values common to each pair of the integer types, floats and durations, as integers of 52 bits (64 bits between integers); numeric text of up to 3 digits against integers, arbitrary text of up to 2 bytes; tag sets of up to 3 tags in every insertion order, with arbitrary integer values or text bytes; paths of up to 3 elements of up to 2 bytes
// outside: the distribution of hashes; NaN
// opt: * weight=1
#include "h.h"
using std::chrono::microseconds; using std::chrono::milliseconds; using std::chrono::seconds; using std::chrono::minutes;
template <class F> static void pick(std::initializer_list<F> fs) { int k = vs_choose("pair", (int)fs.size()); int i = 0; for (F f : fs) if (i++ == k) f(); }
typedef void (*Fn)();
static size_t h(const metric_value& v) { return std::hash<metric_value>()(v); }
static size_t h(const tag_collection& v) { return std::hash<tag_collection>()(v); }
static size_t h(const metric_path& v) { return std::hash<metric_path>()(v); }
// two values of the same number
template <class A, class B> static void ints() {
  typedef std::numeric_limits<A> LA; typedef std::numeric_limits<B> LB; int64_t lo = std::max<int64_t>(LA::min(), LB::min()), hi = (int64_t)std::min<uint64_t>(std::min<uint64_t>(LA::max(), LB::max()), INT64_MAX); int64_t v = vs_range("v", lo, hi); metric_value a((A)v), b((B)v); vs_assert(a == b, "integers-equal"); vs_assert(h(a) == h(b), "integers-hash");
}
template <class A> static void row() { pick<Fn>({ints<A, int8_t>, ints<A, uint8_t>, ints<A, int16_t>, ints<A, uint16_t>, ints<A, int32_t>, ints<A, uint32_t>, ints<A, int64_t>, ints<A, uint64_t>}); }
VS_ENTRY(integers_signed) { pick<Fn>({row<int8_t>, row<int16_t>, row<int32_t>, row<int64_t>}); }
VS_ENTRY(integers_unsigned) { pick<Fn>({row<uint8_t>, row<uint16_t>, row<uint32_t>, row<uint64_t>}); }
VS_ENTRY(highest) { uint64_t v = vs_any<uint64_t>("v"); metric_value a(v), b((unsigned long long)v), c(a), d(0); d = metric_value(a); vs_assert(a == b && a == c && a == d, "unsigned-equal"); vs_assert(h(a) == h(b), "unsigned-hash"); vs_assert(h(a) == h(c), "copied-hash"); vs_assert(h(a) == h(d), "assigned-hash"); }
template <class F, class A> static void whole() { int64_t m = sizeof(F) == 4 ? 1 << 24 : 1ll << 52; int64_t lo = std::max<int64_t>(-m, std::numeric_limits<A>::min()), hi = (int64_t)std::min<uint64_t>(m, std::numeric_limits<A>::max()); int64_t v = vs_range("v", lo, hi); metric_value a((A)v), b((F)v); vs_assert(a == b, "float-equal"); vs_assert(h(a) == h(b), "float-hash"); }
template <class F> static void frow() { pick<Fn>({whole<F, int8_t>, whole<F, uint8_t>, whole<F, int16_t>, whole<F, uint16_t>, whole<F, int32_t>, whole<F, uint32_t>, whole<F, int64_t>, whole<F, uint64_t>}); }
VS_ENTRY(floats_integers) { pick<Fn>({frow<float>, frow<double>, frow<long double>}); }
VS_ENTRY(floats) { float f = vs_float("f", -3e38f, 3e38f); metric_value a(f), b((double)f), c((long double)f); vs_assert(a == b && b == c && a == c, "floats-equal"); vs_assert(h(a) == h(b), "float-double-hash"); vs_assert(h(b) == h(c), "double-long-double-hash"); }
VS_ENTRY(doubles) { double f = vs_double("f", -1e300, 1e300); metric_value b(f), c((long double)f); vs_assert(b == c, "doubles-equal"); vs_assert(h(b) == h(c), "doubles-hash"); }
VS_ENTRY(zeros) { metric_value a(0.0), b(-0.0), c(0), d(0u), e(-0.0f), f(0.0L), g(nanoseconds(0)), k("0"); vs_assert(a == b && a == c && c == d && d == e && e == f, "zeros-equal"); vs_assert(h(a) == h(b) && h(a) == h(c) && h(a) == h(d) && h(a) == h(e) && h(a) == h(f), "zeros-hash"); vs_assert(!(g == c) || h(g) == h(c), "zero-duration-hash"); vs_assert(!(k == c) || h(k) == h(c), "zero-text-hash"); }
template <class D> static void durs() { int64_t u = std::chrono::duration_cast<nanoseconds>(D(1)).count(), m = INT64_MAX / u; int64_t v = vs_range("v", -m, m); metric_value a{D(v)}, b(nanoseconds(v * u)); vs_assert(a == b, "durations-equal"); vs_assert(h(a) == h(b), "durations-hash"); }
VS_ENTRY(durations) { pick<Fn>({durs<microseconds>, durs<milliseconds>, durs<seconds>, durs<minutes>}); }
VS_ENTRY(duration_integer) { int64_t v = vs_any<int64_t>("v"); metric_value a{nanoseconds(v)}, b(v); if (a == b) vs_assert(h(a) == h(b), "duration-integer-hash"); }
// text
VS_ENTRY(texts) { int n = vs_choose("len", 3); std::string s, t; for (int i = 0; i < n; i++) { s += (char)vs_any<char>("c"); t += (char)vs_any<char>("d"); } metric_value a(s), b(t); bool e = a == b; vs_assert(e == (s == t), "text-equality"); if (e) { vs_assert(h(a) == h(b), "text-hash"); vs_assert(!(a != b), "text-not-unequal"); } }
VS_ENTRY(numeric_text) { int n = 1 + vs_choose("digits", 3); std::string s; int v = 0; for (int i = 0; i < n; i++) { int d = (int)vs_range("d", 0, 9); s += (char)('0' + d); v = v * 10 + d; } metric_value a(s), b(v), c((double)v); if (a == b) vs_assert(h(a) == h(b), "numeric-text-hash"); if (a == c) vs_assert(h(a) == h(c), "numeric-text-float-hash"); }
// tag sets: equality is equality of the maps, and the order of insertion does not matter
typedef std::pair<std::string, metric_value> P;
static tag_collection tags(const std::vector<P>& v, const std::vector<int>& order) { std::vector<P> w; for (int i : order) w.push_back(P(v[i].first, metric_value(v[i].second))); return tag_collection(w); }
VS_ENTRY(orders) {
  int n = 1 + vs_choose("tags", 3); std::vector<P> v; const char* names[] = {"aa", "b", "ccc"}; for (int i = 0; i < n; i++) v.push_back(P(names[i], metric_value((int64_t)vs_any<int64_t>("v")))); std::vector<int> id, o; for (int i = 0; i < n; i++) id.push_back(i);
  std::vector<int> left = id; while (!left.empty()) { int k = vs_choose("next", (int)left.size()); o.push_back(left[k]); left.erase(left.begin() + k); } tag_collection a = tags(v, id), b = tags(v, o), c(b); vs_assert(a == b && b == a && a == c, "order-equal"); vs_assert(!(a != b), "order-not-unequal"); vs_assert(h(a) == h(b), "order-hash"); vs_assert(h(c) == h(b), "copy-hash");
}
VS_ENTRY(order_texts) { std::string x, y; x += (char)vs_any<char>("c"); y += (char)vs_any<char>("d"); tag_collection a = {{"one", x}, {"two", y}, {"three", x + y}}, b = {{"three", x + y}, {"two", y}, {"one", x}}; vs_assert(a == b, "texts-equal"); vs_assert(h(a) == h(b), "texts-hash"); }
VS_ENTRY(many_orders) { std::vector<P> v, w; int n = 16; for (int i = 0; i < n; i++) v.push_back(P("tag" + std::string(1, (char)('a' + i)), metric_value(vs_any<int32_t>("v")))); for (int i = n; i-- > 0;) w.push_back(P(v[i].first, metric_value(v[i].second))); tag_collection a(v), b(w), c(v, 64); vs_assert(a == b && b == a && a == c, "many-equal"); vs_assert(h(a) == h(b) && h(a) == h(c), "many-hash"); }
VS_ENTRY(values) { int64_t p = vs_any<int64_t>("p"), q = vs_any<int64_t>("q"), r = vs_any<int64_t>("r"), s = vs_any<int64_t>("s"); tag_collection a = {{"x", p}, {"y", q}}, b = {{"y", s}, {"x", r}}; bool same = (p == r) & (q == s); vs_assert((a == b) == same, "equal-values"); vs_assert((a != b) == !same, "unequal-values"); vs_assert((b == a) == same, "equal-values-swapped"); vs_assert(!same || h(a) == h(b), "values-hash"); }
VS_ENTRY(names) { std::string x, y; x += (char)vs_any<char>("c"); y += (char)vs_any<char>("d"); int64_t p = vs_any<int64_t>("p"), q = vs_any<int64_t>("q"); tag_collection a = {{x, p}}, b = {{y, q}}; bool same = (x == y) & (p == q); vs_assert((a == b) == same, "equal-names"); vs_assert(!same || h(a) == h(b), "names-hash"); }
VS_ENTRY(sizes) { int64_t p = vs_any<int64_t>("p"), q = vs_any<int64_t>("q"); tag_collection a = {{"x", p}}, b = {{"x", p}, {"y", q}}, e, f; vs_assert(a != b && b != a && a != e && e != a && !(a == b) && !(b == a), "different-sizes"); vs_assert(e == f && h(e) == h(f), "empty-sets"); tag_collection c = {{"y", p}}, d = {{"x", q}}; vs_assert(!(a == c) && a != c, "different-name"); vs_assert((a == d) == (p == q), "same-name"); }
VS_ENTRY(types) { int32_t p = vs_any<int32_t>("p"); tag_collection a = {{"x", p}, {"y", (uint8_t)3}}, b = {{"y", 3.0}, {"x", (int64_t)p}}, c = {{"x", (double)p}, {"y", 3}}; vs_assert(a == b && b == c && a == c, "types-equal"); vs_assert(h(a) == h(b), "types-hash"); vs_assert(h(a) == h(c), "types-float-hash"); }
VS_ENTRY(from_map) { int64_t p = vs_any<int64_t>("p"), q = vs_any<int64_t>("q"); std::unordered_map<std::string, metric_value> m; m.emplace("x", p); m.emplace("y", q); tag_collection a(m), b = {{"y", q}, {"x", p}}; vs_assert(a == b && h(a) == h(b), "from-map"); int seen = 0; for (auto& t : a) { seen++; vs_assert((t.first == "x" && t.second == metric_value(p)) || (t.first == "y" && t.second == metric_value(q)), "iterated"); } vs_assert(seen == 2, "iterated-all"); }
// paths
static std::string el(const char* n) { std::string s; int k = 1 + vs_choose("len", 2); for (int i = 0; i < k; i++) s += (char)vs_any<char>(n); return s; }
VS_ENTRY(paths) { std::string a = el("a"), b = el("b"), c = el("c"); metric_path p = metric_path(a) / metric_path(b) / metric_path(c), q = metric_path(a) / (metric_path(b) / (metric_path("") / metric_path(c))), r(p); vs_assert(p == q && q == p && p == r, "paths-equal"); vs_assert(h(p) == h(q), "paths-hash"); vs_assert(h(p) == h(r), "paths-copy-hash"); }
VS_ENTRY(paths_any) { std::string a = el("a"), b = el("b"), c = el("a"), d = el("b"); metric_path p = metric_path(a) / metric_path(b), q = metric_path(c) / metric_path(d); bool same = a == c && b == d; vs_assert((p == q) == same, "path-equality"); vs_assert((p != q) == !same, "path-inequality"); if (p == q) vs_assert(h(p) == h(q), "path-hash"); }
