// reads a published page the way Prometheus would, and takes expected samples off it
#pragma once
#include "h.h"
#include <cxxmetrics_prometheus/prometheus_publisher.hpp>
#include <cxxmetrics_prometheus/prometheus_counter.hpp>
#include <cxxmetrics_prometheus/prometheus_gauge.hpp>
#include <cxxmetrics_prometheus/prometheus_histogram.hpp>
#include <cxxmetrics_prometheus/prometheus_meter.hpp>
#include <cxxmetrics_prometheus/prometheus_timer.hpp>
using namespace cxxmetrics_prometheus;
typedef metrics_registry<> R; typedef simple_reservoir<int64_t, 2> S2; typedef simple_reservoir<nanoseconds, 2> D2;
static constexpr int64_t S = 1000000000;
static bool word(char c) { return (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '_' || c == ':'; }
struct label { std::string name, value; };
// a number as read: all its digits, and how many of them stand behind the point
struct num { int64_t v; int decimals; };
struct sample { std::string name; label labels[4]; int n = 0; num value{0, 0}; bool used = false; };
struct page { std::vector<std::string> types, helps; std::vector<sample> samples; };
static num number(const std::string& t, size_t& p) { bool neg = t[p] == '-'; if (neg) p++; vs_assert(p < t.size() && (t[p] >= '0') & (t[p] <= '9'), "number"); uint64_t v = 0; int d = 0; bool point = false; for (; p < t.size() && ((t[p] == '.') | ((t[p] >= '0') & (t[p] <= '9'))); p++) { if (t[p] == '.') { vs_assert(!point, "one-point"); point = true; continue; } v = v * 10 + (uint64_t)(t[p] - '0'); d += point; } return num{(int64_t)(neg ? -v : v), d}; }
static std::string name(const std::string& t, size_t& p) { size_t b = p; while (p < t.size() && word(t[p])) p++; vs_assert(p > b, "a-name"); return t.substr(b, p - b); }
// the page as Prometheus would read it
static page read(const std::string& t) {
  page g; size_t p = 0; while (p < t.size()) {
    if (t[p] == '#') { size_t e = t.find('\n', p); vs_assert(e != std::string::npos, "line-ends"); std::string l = t.substr(p, e - p); p = e + 1; if (l.compare(0, 7, "# TYPE ") == 0) g.types.push_back(l.substr(7)); else { vs_assert(l.compare(0, 7, "# HELP ") == 0, "comment"); g.helps.push_back(l.substr(7)); } continue; }
    sample s; s.name = name(t, p); vs_assert(t[p++] == '{', "labels-open"); while (t[p] != '}') { if (s.n) vs_assert(t[p++] == ',', "comma"); vs_assert(s.n < 4, "few-labels"); label& l = s.labels[s.n++]; l.name = name(t, p); vs_assert(t[p] == '=' && t[p + 1] == '"', "value-opens"); size_t e = t.find('"', p + 2); vs_assert(e != std::string::npos, "value-ends"); l.value = t.substr(p + 2, e - p - 2); p = e + 1; } p++; vs_assert(t[p++] == ' ', "space"); s.value = number(t, p); vs_assert(p < t.size() && t[p] == '\n', "sample-ends"); p++; g.samples.push_back(s);
  }
  // what is explained is something the page holds
  for (auto& h : g.helps) { size_t e = 0; std::string n = ::name(h, e); bool there = false; for (auto& x : g.types) there = there || (x.compare(0, n.size(), n) == 0 && x.size() > n.size() && x[n.size()] == ' '); for (auto& x : g.samples) there = there || x.name.compare(0, n.size(), n) == 0; vs_assert(there, "explains-what-is-there"); }
  return g;
}
static page publish(R& r) { size_t n = vs_out().size(); prometheus_publisher<default_repository> p(r); p.write(vs_ostream()); return ::read(vs_out().substr(n)); }
static num whole(int64_t v) { return num{v, 0}; }
static num millionths(int64_t v) { return num{v, 6}; }
static num about(double v) { return num{(int64_t)(v * 1e6 + (v < 0 ? -0.5 : 0.5)), 6}; }
static bool same(num a, num b) { if (a.decimals == b.decimals && !a.decimals) return a.v == b.v; vs_assert(a.decimals == 0 || a.decimals == 6, "six-decimals"); int64_t x = a.decimals ? a.v : (int64_t)((uint64_t)a.v * 1000000), y = b.decimals ? b.v : (int64_t)((uint64_t)b.v * 1000000); int64_t d = (int64_t)((uint64_t)x - (uint64_t)y); return (d <= 2) & (d >= -2); }
// takes the one sample with this name and exactly these labels off the page
static void take(page& g, const char* nm, std::initializer_list<label> ls, num v, int64_t other = INT64_MIN) { int found = 0; for (auto& s : g.samples) { if (s.name != nm || s.n != (int)ls.size()) continue; bool all = true; for (auto& l : ls) { bool has = false; for (int i = 0; i < s.n; i++) has |= s.labels[i].name == l.name && s.labels[i].value == l.value; all &= has; } if (!all) continue; found++; vs_assert(!s.used, "taken-once"); s.used = true; vs_assert(same(s.value, v) || (other != INT64_MIN && same(s.value, millionths(other))), "value"); } vs_assert(found == 1, "exactly-one-sample"); }
static void take_count(page& g, const char* nm, std::initializer_list<label> ls, int64_t v, int f8) { take(g, nm, ls, whole(v), v * 125000 * f8); }
static void done(const page& g) { for (auto& s : g.samples) vs_assert(s.used, "nothing-else-written"); }
static void typed(const page& g, const char* what) { int n = 0; for (auto& t : g.types) n += t == what; vs_assert(n == 1, "one-type-header"); }
