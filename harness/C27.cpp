// bound: paths of 1 element of up to 3 (thorough: 4) and 2 elements of up to 2 arbitrary bytes, one tag with a name of 1 to 3 (thorough: 4) arbitrary bytes and two tags with names of 1 byte, names of 1 to 40 (thorough: 100) bytes with one arbitrary byte at the begin, in the middle or at the end, paths of up to 12 (thorough: 24) elements; published by every kind of metric and all its samples
// outside: empty tag names; names that only differ in characters that become underscores
// opt: * weight=2
#include "h.h"
#include <cxxmetrics_prometheus/prometheus_publisher.hpp>
#include <cxxmetrics_prometheus/prometheus_counter.hpp>
#include <cxxmetrics_prometheus/prometheus_gauge.hpp>
#include <cxxmetrics_prometheus/prometheus_histogram.hpp>
#include <cxxmetrics_prometheus/prometheus_meter.hpp>
#include <cxxmetrics_prometheus/prometheus_timer.hpp>
using namespace cxxmetrics_prometheus;
typedef metrics_registry<> R;
static bool alpha(char c) { return (c >= 'a') & (c <= 'z') | (c >= 'A') & (c <= 'Z'); }
static bool digit(char c) { return (c >= '0') & (c <= '9'); }
static std::string bytes(const char* n, int k) { std::string s; for (int i = 0; i < k; i++) s += (char)vs_any<char>(n); return s; }
static std::string text(R& r) { size_t n = vs_out().size(); prometheus_publisher<default_repository> p(r); p.write(vs_ostream()); return vs_out().substr(n); }
// the name a path or label must get
static std::string expected(const std::string* e, int n) { std::string s; if (e[0].size() && digit(e[0][0])) s += '_'; for (int i = 0; i < n; i++) { if (i) s += ':'; for (char c : e[i]) s += alpha(c) | digit(c) ? c : '_'; } return s; }
// reads a name at p: the longest run of characters that may be in one
static std::string name(const std::string& s, size_t& p, bool colons) { size_t b = p; while (p < s.size() && (alpha(s[p]) || digit(s[p]) || s[p] == '_' || (colons && s[p] == ':'))) p++; std::string n = s.substr(b, p - b); vs_assert(!n.empty(), "name-not-empty"); vs_assert(!digit(n[0]), "name-does-not-start-with-digit"); return n; }
static void lit(const std::string& s, size_t& p, const char* t, const char* id) { std::string u(t); vs_assert(p + u.size() <= s.size() && s.compare(p, u.size(), u) == 0, id); p += u.size(); }
static void counter_text(const std::string& t, const std::string& e, const std::string* label, int labels) {
  size_t p = 0; lit(t, p, "# TYPE ", "type-line"); vs_assert(name(t, p, true) == e, "header-name"); lit(t, p, " untyped\n", "rest-of-type-line"); vs_assert(name(t, p, true) == e, "sample-name"); lit(t, p, "{", "labels-begin"); bool seen[2] = {};
  for (int i = 0; i < labels; i++) { if (i) lit(t, p, ",", "labels-separated"); std::string l = name(t, p, false); bool known = false; for (int j = 0; j < labels; j++) if (!seen[j] && !known && l == label[j]) seen[j] = known = true; vs_assert(known, "label-name"); lit(t, p, "=\"v\"", "label-value"); } lit(t, p, "} 3\n", "value"); vs_assert(p == t.size(), "nothing-else");
}
VS_ENTRY(one_element) { vs_weak_hash = 1; R r; std::string s = bytes("c", 1 + vs_choose("length", Q(3, 4))); r.counter(metric_path(s), 3l); counter_text(::text(r), expected(&s, 1), nullptr, 0); }
VS_ENTRY(two_elements) { vs_weak_hash = 1; R r; std::string s[2] = {bytes("a", 1 + vs_choose("n", 2)), bytes("b", 1)}; r.counter(metric_path(s[0]) / metric_path(s[1]), 3l); counter_text(::text(r), expected(s, 2), nullptr, 0); }
VS_ENTRY(three_elements) { vs_weak_hash = 1; R r; std::string s[3] = {bytes("a", 1), "x-9", bytes("b", 1)}; r.counter(metric_path(s[0]) / metric_path(s[1]) / metric_path(s[2]), 3l); counter_text(::text(r), expected(s, 3), nullptr, 0); }
VS_ENTRY(label) { vs_weak_hash = 1; R r; std::string s = bytes("c", 1 + vs_choose("length", Q(3, 4))), n = "p"; r.counter("p"_m, 3l, {{s, "v"}}); std::string e = expected(&s, 1); counter_text(::text(r), n, &e, 1); }
VS_ENTRY(labels) { vs_weak_hash = 1; R r; std::string s[2] = {bytes("c", 1), bytes("d", 1)}, n = "p"; vs_assume(s[0] != s[1]); r.counter("p"_m, 3l, {{s[0], "v"}, {s[1], "v"}}); std::string e[2] = {expected(s, 1), expected(s + 1, 1)}; counter_text(::text(r), n, e, 2); }
// every line of every kind of metric
static void lines(const std::string& t, const std::string& e, const std::string& l) {
  size_t p = 0; int samples = 0; while (p < t.size()) { if (t[p] == '#') { lit(t, p, "# ", "comment"); bool help = t[p] == 'H'; lit(t, p, help ? "HELP " : "TYPE ", "comment-kind"); vs_assert(name(t, p, true) == e, "comment-name"); while (p < t.size() && t[p] != '\n') p++; p++; continue; }
    samples++; std::string n = name(t, p, true); vs_assert(n == e || n == e + "_count" || n == e + "_mean" || n == e + ":rates", "metric-name"); lit(t, p, "{", "open"); bool mine = false; for (bool first = true; p < t.size() && t[p] != '}'; first = false) { if (!first) lit(t, p, ",", "comma"); std::string k = name(t, p, false); if (k == l) mine = true; else vs_assert(k == "window" || k == "quantile", "other-label"); lit(t, p, "=\"", "quote"); while (p < t.size() && t[p] != '"') p++; p++; } vs_assert(mine, "label-on-every-sample"); lit(t, p, "} ", "close"); while (p < t.size() && t[p] != '\n') p++; p++; }
  vs_assert(samples > 0, "samples"); vs_assert(p == t.size(), "ends-with-line");
}
typedef simple_reservoir<int64_t, 2> S2; typedef simple_reservoir<nanoseconds, 2> D2;
VS_ENTRY(every_kind) { vs_steady_ns = 1000000000; vs_weak_hash = 1; R r; std::string s = bytes("c", 1), l = bytes("l", 1); metric_path p(s); tag_collection t{{l, "v"}}; switch (vs_choose("kind", 5)) { case 0: r.gauge(p, 5, t); break; case 1: r.ewma<5000000>(p, t); break; case 2: r.histogram(p, S2(), t)->update(5); break; case 3: r.meter<1000000, 5000000, 60000000>(p, t); break; default: r.timer<1000000, std::chrono::steady_clock, D2, 5000000>(p, D2(), t)->update(nanoseconds(5000)); } lines(::text(r), expected(&s, 1), expected(&l, 1)); }
// long names: one arbitrary byte at the begin, in the middle or at the end of a name of any length, and many elements
static std::string spot(int n, int at) { std::string s(n, 'x'); s[at == 0 ? 0 : at == 1 ? n / 2 : n - 1] = (char)vs_any<char>("c"); return s; }
VS_ENTRY(long_names) { vs_weak_hash = 1; R r; int n = 1 + vs_choose("n", Q(40, 100)); bool tag = vs_choose("tag", 2); std::string s = spot(n, vs_choose("at", 3)), e = expected(&s, 1); if (tag) { r.counter("p"_m, 3l, {{s, "v"}}); counter_text(::text(r), "p", &e, 1); } else { r.counter(metric_path(s), 3l); counter_text(::text(r), e, nullptr, 0); } }
VS_ENTRY(many_elements) { vs_weak_hash = 1; R r; int n = 1 + vs_choose("n", Q(12, 24)); std::string s[24]; metric_path p(""); for (int i = 0; i < n; i++) { s[i] = i == n - 1 ? bytes("c", 1) : std::string(1, (char)("a-9.Z"[i % 5])) + "q"; p = p / s[i]; } r.counter(p, 3l); counter_text(::text(r), expected(s, n), nullptr, 0); }
