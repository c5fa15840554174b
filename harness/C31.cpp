// bound: lists of up to 3 (thorough: 4) elements of up to 2 arbitrary bytes, empty ones included, made from strings, pointers, literals and parts of texts; every grouping of the joins; up to 20 (thorough: 40) elements, and elements of up to 40 (thorough: 100) bytes, with one arbitrary byte or two; delimiters of up to 2 arbitrary bytes
// outside: texts with embedded null bytes given through pointers (they end there)
#include "h.h"
static std::string text(const char* n, int len) { std::string s; for (int i = 0; i < len; i++) s += (char)vs_any<char>(n); return s; }
static std::string part(const char* n, int most) { return text(n, vs_choose("length", most + 1)); }
static bool is(const metric_path& p, const std::vector<std::string>& v) { size_t i = 0; bool ok = true; for (auto& s : p) { if (i >= v.size() || s.size() != v[i].size()) return false; for (size_t k = 0; k < s.size(); k++) ok &= s[k] == v[i][k]; i++; } return ok & (i == v.size()); }
static void add(std::vector<std::string>& v, const std::string& s) { if (!s.empty()) v.push_back(s); }
static bool no_zero(const std::string& s) { bool z = false; for (char c : s) z |= c == 0; return !z; }
VS_ENTRY(join_two) { std::string a = part("a", 2), b = part("b", 2); metric_path p(a), q(b); std::vector<std::string> v; add(v, a); vs_assert(is(p, v), "one"); add(v, b); metric_path r = p / q; vs_assert(is(r, v), "two"); std::vector<std::string> w; add(w, a); vs_assert(is(p, w), "left-kept"); w.clear(); add(w, b); vs_assert(is(q, w), "right-kept"); }
VS_ENTRY(groupings) {
  int n = Q(3, 4); std::string e[4]; std::vector<std::string> v; for (int i = 0; i < n; i++) { e[i] = text("e", vs_choose("length", 2 + TH)); add(v, e[i]); } metric_path a(e[0]), b(e[1]), c(e[2]);
  metric_path l = (a / b) / c, r = a / (b / c); if (n == 4) { metric_path d(e[3]); metric_path m = (a / b) / (c / d); l = l / d; r = a / (b / (c / d)); vs_assert(is(m, v), "pairs"); vs_assert(m == l && l == r, "pairs-equal"); } vs_assert(is(l, v), "left"); vs_assert(is(r, v), "right"); vs_assert(l == r && !(l != r), "associative"); vs_assert(std::hash<metric_path>()(l) == std::hash<metric_path>()(r), "same-hash");
}
VS_ENTRY(neutral) { std::string a = part("a", 2), b = part("b", 1); metric_path p = metric_path(a) / metric_path(b), e(""), f(std::string{}), g((const char*)nullptr), h("", 0); vs_assert(e / p == p && p / e == p && f / p == p && p / f == p && g / p == p && p / g == p && h / p == p && p / h == p, "neutral"); vs_assert(p / "" == p && "" / p == p && e == f && f == g && g == h && (e / f) == e, "empty"); vs_assert(e.begin() == e.end() && g.begin() == g.end() && h.begin() == h.end() && (""_m).begin() == (""_m).end(), "no-elements"); vs_assert(e.join("/") == "" && (e / g).join("x") == "", "empty-join"); }
VS_ENTRY(equality) { // equal exactly when the lists are equal
  int n = vs_choose("n", 3), m = vs_choose("m", 3); std::vector<std::string> v, w; metric_path p(""), q(""); for (int i = 0; i < n; i++) { std::string s = text("s", 1 + vs_choose("length", 2)); v.push_back(s); p = p / s; } for (int i = 0; i < m; i++) { std::string s = text("t", 1 + vs_choose("length", 2)); w.push_back(s); q = q / metric_path(s); }
  vs_assert(is(p, v), "built"); vs_assert(is(q, w), "built-other"); bool same = n == m; for (int i = 0; same && i < n; i++) { if (v[i].size() != w[i].size()) { same = false; break; } for (size_t k = 0; k < v[i].size(); k++) same &= v[i][k] == w[i][k]; } vs_assert((p == q) == same, "equal"); vs_assert((p != q) == !same, "unequal"); vs_assert((q == p) == same, "symmetric");
}
VS_ENTRY(delimiters) { int n = vs_choose("n", Q(4, 5)); std::vector<std::string> v; metric_path p(""); for (int i = 0; i < n; i++) { std::string s = text("s", 1 + (i == 0 ? vs_choose("length", 2) : 0)); v.push_back(s); p = p / s; } std::string d = part("d", 2), e; for (int i = 0; i < n; i++) { if (i) e += d; e += v[i]; } std::string j = p.join(d); vs_assert(j.size() == e.size(), "join-length"); bool ok = true; for (size_t i = 0; i < e.size() && i < j.size(); i++) ok &= j[i] == e[i]; vs_assert(ok, "joined"); vs_assert(p.join(d) == j, "join-again"); vs_assert(is(p, v), "join-keeps"); }
VS_ENTRY(pointers) { // a text given through a pointer, with and without its length
  std::string a = part("a", 3); vs_assume(no_zero(a)); std::vector<std::string> v; add(v, a); metric_path p(a.c_str()), q(a.c_str(), a.size()), r(a); vs_assert(is(p, v), "pointer"); vs_assert(is(q, v), "pointer-and-length"); vs_assert(p == q && q == r, "all-the-same"); if (a.size() > 1) { metric_path s(a.c_str(), a.size() - 1); std::vector<std::string> w; w.push_back(a.substr(0, a.size() - 1)); vs_assert(is(s, w), "first-part"); } metric_path t = p / a.c_str(); add(v, a); vs_assert(is(t, v), "joined-pointer"); vs_assert(is(p / a, v), "joined-string");
}
VS_ENTRY(literals) { metric_path p = "ab"_m / "c"_m, q("ab"), r = "x" / p; vs_assert(is(p, {"ab", "c"}), "two-literals"); vs_assert(is(q, {"ab"}), "literal"); vs_assert(is(r, {"x", "ab", "c"}), "literal-first"); vs_assert(is("ab" / metric_path("c"), {"ab", "c"}), "literal-left"); vs_assert(is("" / p, {"ab", "c"}), "empty-literal-left"); vs_assert(is(p / "" / "d", {"ab", "c", "d"}), "literals-right"); vs_assert(is("a/b"_m, {"a/b"}), "no-splitting"); vs_assert("a/b"_m != "a"_m / "b"_m, "not-the-same"); vs_assert("ab"_m != "a"_m / "b"_m && ("ab"_m / "c"_m) != ("a"_m / "bc"_m), "cut-elsewhere"); vs_assert(p.join("/") == "ab/c" && p.join("") == "abc" && q.join("/") == "ab", "literal-joins"); metric_path c(p); vs_assert(c == p, "copy"); metric_path m(std::move(c)); vs_assert(m == p, "move"); q = p; vs_assert(q == p && is(q / q, {"ab", "c", "ab", "c"}), "self-join"); q = q / q; vs_assert(is(q, {"ab", "c", "ab", "c"}), "self-assign"); }
// many and long elements
VS_ENTRY(many) { int n = 1 + vs_choose("n", Q(20, 40)), at = n - 1 - (n > 2 ? vs_choose("back", 2) : 0); std::vector<std::string> v; metric_path p(""), q(""); for (int i = 0; i < n; i++) { std::string s = i == at ? text("s", 2) : std::string(1 + i % 3 * 9, (char)('a' + i % 26)); add(v, s); p = p / s; } for (int i = n; i--;) q = metric_path(v[i]) / q; vs_assert(is(p, v), "many-elements"); vs_assert(p == q && std::hash<metric_path>()(p) == std::hash<metric_path>()(q), "many-from-both-ends"); std::string e; for (int i = 0; i < n; i++) e += (i ? "/" : "") + v[i]; std::string j = p.join("/"); bool ok = j.size() == e.size(); for (size_t i = 0; ok && i < e.size(); i++) ok &= j[i] == e[i]; vs_assert(ok, "many-joined"); metric_path o = p / "x"; vs_assert(o != p && p != o, "one-more-element"); std::vector<std::string> w = v; w[at][1] ^= 1; metric_path d(""); for (auto& s : w) d = d / s; vs_assert(d != p, "one-byte-differs"); }
VS_ENTRY(long_elements) { int n = 1 + vs_choose("n", Q(40, 100)); std::string s(n, 'x'), t; s[n - 1 - vs_choose("at", n > 8 ? 8 : n)] = (char)vs_any<char>("c"); vs_assume(no_zero(s)); t = s; metric_path p(s), q(t.c_str(), t.size()), u = metric_path(s) / metric_path(t); vs_assert(is(p, {s}) && p == q && is(u, {s, t}), "long-elements"); t[n / 2] ^= 1; vs_assert(metric_path(t) != p, "long-elements-apart"); vs_assert(u.join("").size() == size_t(2 * n), "long-join"); }
