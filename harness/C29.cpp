// bound: windows of 1 to 24 (thorough 999) nanoseconds, microseconds, milliseconds, seconds, minutes and hours (each of them, and offset by one of the smaller units), runs of counts around 60, 100, 1000 and 10000 of each unit, pairs of windows of 1 to 3 (thorough 7) units and of 22 listed lengths, and meters and timers with the usual windows
// outside: windows of a nanosecond's fraction
// opt: * weight=2
#include "h.h"
#include <cxxmetrics_prometheus/prometheus_publisher.hpp>
#include <cxxmetrics_prometheus/prometheus_counter.hpp>
#include <cxxmetrics_prometheus/prometheus_gauge.hpp>
#include <cxxmetrics_prometheus/prometheus_histogram.hpp>
#include <cxxmetrics_prometheus/prometheus_meter.hpp>
#include <cxxmetrics_prometheus/prometheus_timer.hpp>
using namespace cxxmetrics_prometheus;
typedef metrics_registry<> R;
static bool alpha(char c) { return (c >= 'a') & (c <= 'z') | (c >= 'A') & (c <= 'Z'); }
static bool digit(char c) { return (c >= '0') & (c <= '9'); }
static std::string bytes(const char* n, int k) { std::string s; for (int i = 0; i < k; i++) s += (char)vs_any<char>(n); return s; }
static void lit(const std::string& s, size_t& p, const char* t, const char* id) { std::string u(t); vs_assert(p + u.size() <= s.size() && s.compare(p, u.size(), u) == 0, id); p += u.size(); }

static const int64_t units[] = {1, 1000, 1000000, 1000000000, 60000000000ll, 3600000000000ll};
static bool number(const std::string& t, size_t& p, int64_t& v) { size_t b = p; v = 0; while (p < t.size() && digit(t[p])) v = v * 10 + (t[p++] - '0'); return p > b; }
// what a label says, in nanoseconds
static int64_t read(const std::string& l) { size_t p = 0; int64_t v; vs_assert(number(l, p, v), "label-number"); std::string u = l.substr(p); int64_t f = u == "hr" ? units[5] : u == "min" ? units[4] : u == "sec" ? units[3] : u == "msec" ? units[2] : u == "usec" ? units[1] : u == "nsec" ? units[0] : 0; vs_assert(f != 0, "label-unit"); return v * f; }
static std::vector<std::string> labels(const std::string& t) { std::vector<std::string> v; size_t p = 0; for (;;) { p = t.find("window=\"", p); if (p == std::string::npos) return v; p += 8; size_t e = t.find('"', p); vs_assert(e != std::string::npos, "label-ends"); if (t.compare(p, e - p, "mean")) v.push_back(t.substr(p, e - p)); p = e; } }
typedef std::unordered_map<std::chrono::steady_clock::duration, metric_value> Map;
static std::string write(const meter_snapshot& s) { size_t n = vs_out().size(); metric_path p("p"); bool h = false; publish_options o; snapshot_writer<meter_snapshot>(vs_ostream(), p, h, o).write(tag_collection(), s); return vs_out().substr(n); }
static std::string write(std::initializer_list<int64_t> ds) { Map m; for (int64_t d : ds) m.emplace(nanoseconds(d), metric_value(1)); return write(meter_snapshot(metric_value(1), std::move(m))); }
static int64_t some(int64_t hi) { int k = vs_choose("unit", 6); int64_t d = vs_range("count", 1, hi) * units[k]; int o = vs_choose("offset", k + 1); return o ? d + units[o - 1] : d; }
VS_ENTRY(alone) { vs_weak_hash = 1; int64_t d = some(Q(24, 999)); auto l = labels(write({d})); vs_assert(l.size() == 1, "one-label"); vs_assert(read(l[0]) == d, "reads-back"); }
VS_ENTRY(thousands) { vs_weak_hash = 1; int k = vs_choose("unit", 6); static const int64_t bases[] = {57, 97, 997, 9998}; int64_t d = (bases[vs_choose("base", 4)] + vs_range("count", 0, Q(6, 200))) * units[k]; auto l = labels(write({d})); vs_assert(l.size() == 1, "one-label-of-thousands"); vs_assert(read(l[0]) == d, "thousands-read-back"); }
VS_ENTRY(pairs) { vs_weak_hash = 1; int64_t a = some(Q(3, 7)), b = some(Q(3, 7)); if (a == b) return; auto l = labels(write({a, b})); vs_assert(l.size() == 2, "two-labels"); vs_assert(l[0] != l[1], "labels-differ"); int64_t x = read(l[0]), y = read(l[1]); vs_assert((x == a && y == b) || (x == b && y == a), "both-read-back"); }
VS_ENTRY(lists) { static const int64_t ds[] = {1, 999, 1000, 1001, 1000000, 1500000, 999999999, 1000000000, 1000000001, 1500000000, 59000000000ll, 60000000000ll, 61000000000ll, 90000000000ll, 300000000000ll, 3599000000000ll, 3600000000000ll, 3660000000000ll, 5400000000000ll, 7200000000000ll, 86400000000000ll, 9223372036854775807ll}; int64_t a = ds[vs_choose("a", 22)], b = ds[vs_choose("b", 22)]; auto l = labels(write({a, b})); vs_assert(l.size() == (a == b ? 1 : 2), "labels-listed"); if (a != b) vs_assert(l[0] != l[1], "listed-differ"); for (auto& s : l) { int64_t v = read(s); vs_assert(v == a || v == b, "listed-read-back"); } }
template <class M> static void metric_labels(std::initializer_list<int64_t> expect) { vs_steady_ns = 1000000000; metrics_registry<> r; r.register_existing("p"_m, std::make_shared<M>()); size_t n = vs_out().size(); prometheus_publisher<default_repository> p(r); p.write(vs_ostream()); auto l = labels(vs_out().substr(n)); vs_assert(l.size() == expect.size(), "one-label-per-window"); for (int64_t e : expect) { int k = 0; for (auto& s : l) k += read(s) == e; vs_assert(k == 1, "each-window-labelled"); } }
typedef simple_reservoir<nanoseconds, 2> D2;
VS_ENTRY(meters) { switch (vs_choose("meter", 4)) { case 0: metric_labels<meter<1000000, 5000000, 60000000>>({5000000000ll, 60000000000ll}); break; case 1: metric_labels<meter<1_sec, 1_min, 90_sec, 5_min, 15_min, 1_hour, 36_hour>>({60000000000ll, 90000000000ll, 300000000000ll, 900000000000ll, 3600000000000ll, 129600000000000ll}); break; case 2: metric_labels<meter<1_msec, 1_msec, 1500_micro, 999_micro, 1_sec, 1001_msec>>({1000000, 1500000, 999000, 1000000000, 1001000000}); break; default: metric_labels<timer<1000000, std::chrono::steady_clock, D2, 60000000, 61000000, 3600000000>>({60000000000ll, 61000000000ll, 3600000000000ll}); } }
