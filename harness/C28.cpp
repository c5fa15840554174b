// bound: one tag value of up to 3 (thorough: 4) arbitrary bytes, two values of up to 1 and 2 bytes, paths of up to 2 (thorough: 3) arbitrary bytes; published by every kind of metric in all its samples; integer and floating point tag values
// bound: values of 2 to 41 (thorough: 101) bytes with two arbitrary bytes, and up to 6 (thorough: 10) tags
// outside: carriage returns and other line separators than the line feed
// opt: * weight=2
#include "h.h"
#include <cxxmetrics_prometheus/prometheus_publisher.hpp>
#include <cxxmetrics_prometheus/prometheus_counter.hpp>
#include <cxxmetrics_prometheus/prometheus_gauge.hpp>
#include <cxxmetrics_prometheus/prometheus_histogram.hpp>
#include <cxxmetrics_prometheus/prometheus_meter.hpp>
#include <cxxmetrics_prometheus/prometheus_timer.hpp>
using namespace cxxmetrics_prometheus;
typedef metrics_registry<> R;
static bool alpha(char c) { return (c >= 'a') & (c <= 'z') | (c >= 'A') & (c <= 'Z'); }
static bool digit(char c) { return (c >= '0') & (c <= '9'); }
static std::string bytes(const char* n, int k) { std::string s; for (int i = 0; i < k; i++) s += (char)vs_any<char>(n); return s; }
static std::string text(R& r) { size_t n = vs_out().size(); prometheus_publisher<default_repository> p(r); p.write(vs_ostream()); return vs_out().substr(n); }

static void lit(const std::string& s, size_t& p, const char* t, const char* id) { std::string u(t); vs_assert(p + u.size() <= s.size() && s.compare(p, u.size(), u) == 0, id); p += u.size(); }
// a label value between quotes, read the way Prometheus does
static std::string quoted(const std::string& t, size_t& p) { std::string v; lit(t, p, "\"", "opening-quote"); for (;;) { vs_assert(p < t.size(), "closing-quote"); char c = t[p++]; if (c == '"') return v; vs_assert(c != '\n', "line-kept-together"); if (c == '\\') { vs_assert(p < t.size(), "escaped"); char e = t[p++]; vs_assert((e == '\\') | (e == '"') | (e == 'n'), "known-escape"); v += e == 'n' ? '\n' : e; } else v += c; } }
static std::string ident(const std::string& t, size_t& p) { size_t b = p; while (p < t.size() && (alpha(t[p]) || digit(t[p]) || t[p] == '_' || t[p] == ':')) p++; return t.substr(b, p - b); }
// reads the whole text; every sample must carry the given tags with exactly the given values
static int samples(const std::string& t, const char* const* names, const std::string* values, int n) {
  size_t p = 0; int k = 0; while (p < t.size()) { if (t[p] == '#') { lit(t, p, "# ", "comment"); std::string kind = ident(t, p); vs_assert(kind == "TYPE" || kind == "HELP", "kind-of-comment"); while (p < t.size() && t[p] != '\n') p++; vs_assert(p < t.size(), "comment-ends"); p++; continue; }
    k++; vs_assert(!ident(t, p).empty(), "metric-name"); lit(t, p, "{", "open"); int seen = 0; for (bool first = true; p < t.size() && t[p] != '}'; first = false) { if (!first) lit(t, p, ",", "comma"); std::string l = ident(t, p); lit(t, p, "=", "equals"); std::string v = quoted(t, p); for (int i = 0; i < n; i++) if (l == names[i]) { seen++; vs_assert(v == values[i], "value-read-back"); } } vs_assert(seen == n, "all-labels"); lit(t, p, "} ", "close"); size_t b = p; while (p < t.size() && (digit(t[p]) || t[p] == '-' || t[p] == '.' || t[p] == 'e' || t[p] == '+')) p++; vs_assert(p > b, "number"); lit(t, p, "\n", "line-end"); }
  return k;
}
static const char* const kl[] = {"k", "l"};
VS_ENTRY(value) { vs_weak_hash = 1; R r; std::string v = bytes("c", vs_choose("length", Q(4, 5))); r.counter("p"_m, 3l, {{"k", v}}); vs_assert(samples(::text(r), kl, &v, 1) == 1, "one-sample"); }
VS_ENTRY(values) { vs_weak_hash = 1; R r; std::string v[2] = {bytes("c", 1), bytes("d", vs_choose("length", 3))}; r.counter("p"_m, 3l, {{"k", v[0]}, {"l", v[1]}}); vs_assert(samples(::text(r), kl, v, 2) == 1, "one-sample-of-two"); }
VS_ENTRY(tag_sets) { vs_weak_hash = 1; R r; std::string v = bytes("c", 1); r.counter("p"_m, 3l, {{"k", v + "x"}}); r.counter("q"_m, 3l, {{"k", v + "x"}}); r.gauge("r"_m, 7, {{"k", v + "x"}}); vs_assert(samples(::text(r), kl, std::array<std::string, 1>{v + "x"}.data(), 1) == 3, "three-samples"); }
typedef simple_reservoir<int64_t, 2> S2; typedef simple_reservoir<nanoseconds, 2> D2;
VS_ENTRY(every_kind) { vs_weak_hash = 1; vs_steady_ns = 1000000000; R r; std::string l = bytes("l", 1); metric_path p("p"); tag_collection t{{"k", l}, {"l", "a\nb"}}; int n = 1; switch (vs_choose("kind", 5)) { case 0: r.gauge(p, 5, t); break; case 1: r.ewma<5000000>(p, t); break; case 2: r.histogram(p, S2(), t)->update(5); n = 5; break; case 3: r.meter<1000000, 5000000, 60000000>(p, t); n = 3; break; default: r.timer<1000000, std::chrono::steady_clock, D2, 5000000>(p, D2(), t)->update(nanoseconds(5000)); n = 7; } std::string v[2] = {l, "a\nb"}; vs_assert(samples(::text(r), kl, v, 2) == n, "number-of-samples"); }
VS_ENTRY(paths) { // whatever the path contains, the lines stay apart, comments included
  vs_weak_hash = 1; vs_steady_ns = 1000000000; R r; std::string s = bytes("c", 1 + vs_choose("length", Q(2, 3))); metric_path p(s); tag_collection t{{"k", "v"}}; std::string v = "v"; int n = 1; switch (vs_choose("kind", 4)) { case 0: r.counter(p, 5l, t); break; case 1: r.histogram(p, S2(), t)->update(5); n = 5; break; case 2: r.meter<1000000, 5000000, 60000000>(p, t); n = 3; break; default: r.timer<1000000, std::chrono::steady_clock, D2, 5000000>(p, D2(), t)->update(nanoseconds(5000)); n = 7; } vs_assert(samples(::text(r), kl, &v, 1) == n, "samples-of-any-path");
}
VS_ENTRY(numbers) { R r; int64_t i = vs_any<int64_t>("i"); r.counter("p"_m, 3l, {{"k", i}}); std::string v = std::to_string(i); vs_assert(samples(::text(r), kl, &v, 1) == 1, "number-value"); }
VS_ENTRY(fixed) { R r; std::string v[2] = {"\\n", "\"\\\\\"\n\n\\"}; r.counter("p"_m, 3l, {{"k", v[0]}, {"l", v[1]}}); vs_assert(samples(::text(r), kl, v, 2) == 1, "sequences-of-escapes"); }
// long values: two arbitrary bytes, together at the begin or at the end, or apart
VS_ENTRY(long_values) { vs_weak_hash = 1; R r; int n = 2 + vs_choose("n", Q(40, 100)), at = vs_choose("at", 3); std::string v(n, 'x'), b = bytes("c", 2); v[at == 1 ? n - 2 : 0] = b[0]; v[at == 0 ? 1 : n - 1] = b[1]; r.counter("p"_m, 3l, {{"k", v}}); vs_assert(samples(::text(r), kl, &v, 1) == 1, "one-long-sample"); }
VS_ENTRY(many_tags) { vs_weak_hash = 1; R r; static const char* const names[] = {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j"}; int n = 1 + vs_choose("n", Q(6, 10)), at = vs_choose("at", n); std::string v[10]; std::unordered_map<std::string, metric_value> t; for (int i = 0; i < n; i++) { v[i] = i == at ? bytes("c", 1) : std::string(i, '\\') + "\"\n"; t.emplace(names[i], metric_value(v[i])); } r.counter<int64_t>("p"_m, tag_collection(t)); vs_assert(samples(::text(r), names, v, n) == 1, "one-sample-of-many-tags"); }
