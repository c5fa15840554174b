// bound: two or three threads, one or two writing pages while the others update, request or publish; 1 or 2 updates, amounts of 1..9 added to totals of 1..9; registries of 1, 2, 12 and 13 metrics; reservoirs of 2 values; 2 preemptions (3 thorough) at racing accesses
// outside: sharing one publisher's output stream; options changed while a page is being written; weak memory orders
// opt: * weight=2
#include "page.h"
#include <sstream>
static int64_t amount(const char* n) { return vs_range(n, 1, 9); }
static void write(R& r, std::ostringstream& o) { prometheus_publisher<default_repository> p(r); p.write(o); }
// the only sample of this name
static num only(const page& g, const char* nm) { num v{0, 0}; int n = 0; for (auto& s : g.samples) if (s.name == nm) { n++; v = s.value; } vs_assert(n == 1, "shown-once"); return v; }
static num only(const page& g, const char* nm, const char* label, const char* value) { num v{0, 0}; int n = 0; for (auto& s : g.samples) { bool has = false; for (int i = 0; i < s.n; i++) has = has || (s.labels[i].name == label && s.labels[i].value == value); if (s.name == nm && has) { n++; v = s.value; } } vs_assert(n == 1, "shown-once-with-its-label"); return v; }
static int shown(const page& g, const char* nm) { int n = 0; for (auto& s : g.samples) n += s.name == nm; return n; }
#define BOTH vs_spawn(f); vs_spawn(g); vs_join();

VS_ENTRY(counters) { R r; int64_t o = amount("o"), a = amount("a"), b = amount("b"); auto c = r.counter<int64_t>("p"_m); *c += o; std::ostringstream out; auto f = [&] { *c += a; *c += b; }; auto g = [&] { ::write(r, out); }; BOTH num v = only(::read(out.str()), "p"); vs_assert(v.decimals == 0 && ((v.v == o) | (v.v == o + a) | (v.v == o + a + b)), "a-total-it-had"); vs_assert((int64_t)*c == o + a + b, "nothing-lost"); }
VS_ENTRY(two_counters) { // what happened first is not missing when what happened later is shown, if it is written later
  R r; auto c = r.counter<int64_t>("p"_m, {{"k", "x"}}); auto d = r.counter<int64_t>("p"_m, {{"k", "y"}}); std::ostringstream out; auto f = [&] { *c += 1; *d += 1; }; auto g = [&] { ::write(r, out); }; BOTH page p = ::read(out.str()); num x = only(p, "p", "k", "x"), y = only(p, "p", "k", "y"); vs_assert(x.v >= 0 && x.v <= 1 && y.v >= 0 && y.v <= 1, "both-shown"); bool first = p.samples[0].labels[0].value == "x"; if (!first) vs_assert(x.v >= y.v, "in-the-order-written"); typed(p, "p untyped"); }
VS_ENTRY(requests) { // a metric requested meanwhile is shown wholly or not at all, the others are shown
  R r; int64_t o = amount("o"), a = amount("a"); int same = vs_choose("same", 2); *r.counter<int64_t>("p"_m, {{"k", "x"}}) += o; std::ostringstream out; auto f = [&] { *(same ? r.counter<int64_t>("p"_m, {{"k", "y"}}) : r.counter<int64_t>("q"_m, {{"k", "y"}})) += a; }; auto g = [&] { ::write(r, out); }; BOTH
  page p = ::read(out.str()); num x = only(p, "p", "k", "x"); vs_assert(x.v == o, "old-one-shown"); int n = (int)p.samples.size(); vs_assert(n <= 2, "no-more"); if (n == 2) { num y = only(p, same ? "p" : "q", "k", "y"); vs_assert((y.v == 0) | (y.v == a), "new-one-shown-wholly"); } typed(p, "p untyped"); vs_assert(p.types.size() <= (same ? 1u : 2u), "headers"); page q = ::publish(r); vs_assert(only(q, same ? "p" : "q", "k", "y").v == a && only(q, "p", "k", "x").v == o, "both-shown-afterwards"); }
VS_ENTRY(histograms) { R r; int64_t o = amount("o"), a = amount("a"); auto h = r.histogram("p"_m, S2()); h->update(o); std::ostringstream out; auto f = [&] { h->update(a); }; auto g = [&] { ::write(r, out); }; BOTH page p = ::read(out.str()); num n = only(p, "p_count"); vs_assert((n.v == 1) | (n.v == 2), "updates-so-far"); int64_t lo = o < a ? o : a, hi = o < a ? a : o;
  for (const char* q : {"0.5", "0.9", "0.99"}) { num v = only(p, "p", "quantile", q); vs_assert(v.decimals ? (v.v >= lo * 1000000) & (v.v <= hi * 1000000) : (v.v >= lo) & (v.v <= hi), "of-values-given"); } vs_assert(h->count() == 2, "nothing-lost-in-the-histogram"); }
VS_ENTRY(meters) { vs_steady_ns = S; R r; int64_t o = amount("o"), a = amount("a"); auto m = r.meter<1000000, 5000000>("p"_m); m->mark(o); vs_steady_ns += S / 2; std::ostringstream out; auto f = [&] { m->mark(a); }; auto g = [&] { ::write(r, out); }; BOTH page p = ::read(out.str()); vs_assert(p.samples.size() >= 1, "meter-shown"); auto s = m->snapshot(); vs_steady_ns += S / 2; vs_assert(m->mean() == (double)(o + a), "marks-kept"); }
VS_ENTRY(timers) { vs_steady_ns = S; vs_system_ns = S; R r; int64_t o = amount("o") * 1000, a = amount("a") * 1000; auto t = r.timer<1000000, std::chrono::system_clock, D2>("p"_m, D2()); t->update(nanoseconds(o)); vs_steady_ns += S; std::ostringstream out; auto f = [&] { t->update(nanoseconds(a)); }; auto g = [&] { ::write(r, out); }; BOTH page p = ::read(out.str()); vs_assert(p.samples.size() >= 1, "timer-shown"); num n = only(p, "p_count"); vs_assert((n.v == 1) | (n.v == 2), "runs-so-far"); vs_assert(t->count() == 2, "runs-kept"); }
VS_ENTRY(two_pages) { // pages written at the same time say the same as one written alone
  R r; int64_t o = amount("o"); *r.counter<int64_t>("p"_m, {{"k", "x"}, {"l", "y"}}) += o; r.gauge("g"_m, +o); bool own = vs_choose("own", 2); if (own) r.publish_options("p"_m, publish_options(value_publish_options(scale_factor(2)))); std::ostringstream a, b; auto f = [&] { ::write(r, a); }; auto g = [&] { ::write(r, b); }; BOTH size_t n = vs_out().size(); ::publish(r); std::string alone = vs_out().substr(n); vs_assert(a.str() == alone && b.str() == alone, "same-page"); page p = ::read(alone); take(p, "p", {{"k", "x"}, {"l", "y"}}, own ? millionths(o * 2000000) : whole(o)); take(p, "g", {}, whole(o)); done(p); }
VS_ENTRY(publishers_alike) { // one publisher may be asked from two threads
  R r; int64_t o = amount("o"); *r.counter<int64_t>("p"_m) += o; prometheus_publisher<default_repository> w(r); std::ostringstream a, b; auto f = [&] { w.write(a); }; auto g = [&] { w.write(b); }; BOTH page p = ::read(a.str()), q = ::read(b.str()); vs_assert(only(p, "p").v == o && only(q, "p").v == o, "both-pages-whole"); }
VS_ENTRY(own_updates) { // what a thread did itself is on the page it writes
  R r; int64_t a = amount("a"), b = amount("b"); auto c = r.counter<int64_t>("p"_m, {{"k", "x"}}); std::ostringstream oa, ob; bool fresh = vs_choose("fresh", 2); auto f = [&] { *c += a; ::write(r, oa); }; auto g = [&] { if (fresh) *r.counter<int64_t>("p"_m, {{"k", "y"}}) += b; else *r.counter<int64_t>("p"_m, {{"k", "x"}}) += b; ::write(r, ob); }; BOTH page p = ::read(oa.str()), q = ::read(ob.str()); num x = only(p, "p", "k", "x"); if (fresh) vs_assert(x.v == a && only(q, "p", "k", "y").v == b, "own-update-shown"); else { num y = only(q, "p", "k", "x"); vs_assert(((x.v == a) | (x.v == a + b)) & ((y.v == b) | (y.v == a + b)), "own-update-among-others"); vs_assert((x.v == a + b) | (y.v == a + b), "later-page-has-both"); } }
VS_ENTRY(growing) { // the registry's table grows while the page is written
  R r; int n = vs_choose("before", 2) ? 13 : 12; static const char* ps[] = {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n"}; for (int i = 0; i < n; i++) *r.counter<int64_t>(metric_path(ps[i])) += i; std::ostringstream out; auto f = [&] { r.counter<int64_t>(metric_path(ps[n])); }; auto g = [&] { ::write(r, out); }; BOTH page p = ::read(out.str()); for (int i = 0; i < n; i++) vs_assert(only(p, ps[i]).v == i, "all-old-ones-shown"); vs_assert((int)p.samples.size() - n <= 1 && ((int)p.samples.size() == n || shown(p, ps[n]) == 1), "only-the-new-one-besides"); }
VS_ENTRY(three) { R r; int64_t o = amount("o"), a = amount("a"), b = amount("b"); auto c = r.counter<int64_t>("p"_m); *c += o; std::ostringstream out; auto f = [&] { *c += a; }; auto g = [&] { *r.counter<int64_t>("p"_m) += b; }; auto h = [&] { ::write(r, out); }; vs_spawn(f); vs_spawn(g); vs_spawn(h); vs_join(); num v = only(::read(out.str()), "p"); vs_assert((v.v == o) | (v.v == o + a) | (v.v == o + b) | (v.v == o + a + b), "total-of-some-updates"); vs_assert((int64_t)*c == o + a + b, "all-updates-kept"); }
VS_ENTRY(every_kind) { // a page written while every kind of metric is requested for the first time
  vs_steady_ns = vs_system_ns = S; R r; int k = vs_choose("kind", 5); int64_t o = amount("o"); *r.counter<int64_t>("p"_m) += o; std::ostringstream out; auto f = [&] { switch (k) { case 0: r.gauge("n"_m, +o); break; case 1: r.histogram("n"_m, S2())->update(o); break; case 2: r.meter<1000000, 5000000>("n"_m)->mark(o); break; case 3: r.ewma<5000000>("n"_m)->mark(o); break; default: r.timer<1000000, std::chrono::system_clock, D2>("n"_m, D2())->update(nanoseconds(o)); } }; auto g = [&] { ::write(r, out); }; BOTH page p = ::read(out.str()); vs_assert(only(p, "p").v == o, "old-one-shown-beside-the-new"); }
VS_ENTRY(growing_sets) { // the table of tag sets grows while they are shown
  R r; int n = vs_choose("before", 2) ? 13 : 2; for (int i = 0; i < n; i++) *r.counter<int64_t>("p"_m, {{"k", i}}) += i + 1; std::ostringstream out; auto f = [&] { r.counter<int64_t>("p"_m, {{"k", n}}); }; auto g = [&] { ::write(r, out); }; BOTH page p = ::read(out.str()); for (int i = 0; i < n; i++) vs_assert(only(p, "p", "k", std::to_string(i).c_str()).v == i + 1, "all-old-sets-shown"); vs_assert((int)p.samples.size() - n <= 1, "only-the-new-set-besides"); typed(p, "p untyped"); }
VS_ENTRY(two_registries) { // pages of different registries have nothing to do with each other
  vs_steady_ns = vs_system_ns = S; R r, q; int64_t o = amount("o"), u = amount("u"); int k = vs_choose("kind", 5); R* rs[] = {std::addressof(r), std::addressof(q)}; for (int i = 0; i < 2; i++) { R* x = rs[i]; int64_t v = i ? u : o; metric_path p = i ? "right"_m : "left"_m / "one"_m; tag_collection t{{"k", i + 1}}; switch (k) { case 0: *x->counter<int64_t>(p, t) += v; break; case 1: x->gauge(p, +v, t); break; case 2: x->histogram(p, S2(), t)->update(v); break; case 3: x->meter<1000000, 5000000>(p, t)->mark(1); break; default: x->timer<1000000, std::chrono::system_clock, D2>(p, D2(), t)->update(nanoseconds(v * 1000)); } }
  std::string alone[2]; for (int i = 0; i < 2; i++) { size_t n = vs_out().size(); ::publish(*rs[i]); alone[i] = vs_out().substr(n); } std::ostringstream a, b; auto f = [&] { ::write(r, a); }; auto g = [&] { ::write(q, b); }; BOTH vs_assert(a.str() == alone[0] && b.str() == alone[1], "pages-apart"); }
