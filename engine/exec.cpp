#include "exec.h"
#include <cmath>
#include <chrono>
#include <iostream>
#include <sstream>
#include <fstream>
#include <algorithm>
#include <unistd.h>

static Module mod;
static const u32 SPACE_BITS = 26; // object id = space << 26 | index; space 0 holds the static objects, space t+1 those of thread t
static std::vector<std::unique_ptr<State>> work;
static std::chrono::steady_clock::time_point T0;
static double g_timelimit = 300; static u64 g_pathinstr = 20000000, g_maxpaths = 2000000; static int g_maxviol = 4;
static u64 n_paths = 0, n_forks = 0, n_instr = 0, n_visited = 0, n_killed = 0, n_points = 0; static int n_maxthreads = 1;
static std::string g_incomplete;
static std::map<std::string, u64> assert_reached, assert_solved; static std::set<std::string> assert_undecided; static std::map<std::string, std::string> notes_;
struct Viol { std::string id, msg, where; std::vector<std::array<std::string, 3>> in; std::vector<SwitchRec> sched; bool known = false; std::string finding, region; bool approx = false; };
static std::vector<Viol> viols; static std::map<std::string, int> violcount;
static u64 n_uninit = 0; static std::map<std::string, u64> g_stubs; static std::vector<Viol> wits; static bool g_entered = false; static u64 n_ends = 0;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); }

struct Kill { std::string why; bool incomplete; };   // ends the current path
[[noreturn]] static void kill_(const std::string& why, bool inc) { throw Kill{why, inc}; }
struct Redo {};                                       // re-execute the current instruction (after a fork or a switch)

// ---------------------------------------------------------------- memory
static Ref<Obj>* slot(State& s, u32 id, bool create) {
  u32 sp = id >> SPACE_BITS, ix = id & ((1u << SPACE_BITS) - 1);
  if (sp >= s.mem.size()) { if (!create) return nullptr; s.mem.resize(sp + 1); }
  auto& v = s.mem[sp]; u32 c = ix >> 6;
  if (c >= v.size()) { if (!create) return nullptr; v.resize(c + 1); }
  if (!v[c]) { if (!create) return nullptr; v[c] = Ref<Chunk>(new Chunk); }
  if (create) { auto* q = v[c].mut(); q->hv = false; return &q->o[ix & 63]; }
  return &v[c].p->o[ix & 63];
}
static const Obj* robj(State& s, u32 id) { auto* r = slot(s, id, false); return r ? r->p : nullptr; }
static Obj* wobj(State& s, u32 id) { auto* r = slot(s, id, true); auto* o = r->mut(); o->hv = false; return o; }
static u32 newobj(State& s, u64 size, OK_ kind) {
  auto* t = s.th[s.cur].mut(); u32 id = ((u32)(s.cur + 1) << SPACE_BITS) | t->nextobj++;
  auto* o = new Obj; o->size = size; o->kind = kind; o->owner = s.cur; o->id = id; o->d.assign(size, 0); o->st.assign(size, B_UNINIT);
  *slot(s, id, true) = Ref<Obj>(o); return id;
}
static void wr_byte(Obj* o, u64 off, u8 st, u8 d, E e, u32 ix) {
  o->st[off] = st; o->d[off] = d; if (st == B_SYM) { if (o->sy.empty()) o->sy.resize(o->size); o->sy[off].e = e; o->sy[off].idx = ix; }
}
static Thread& T(State& s) { return *s.th[s.cur].mut(); }
static Frame& F(State& s) { return *T(s).fr.back().mut(); }
static std::string where(State& s) { auto& t = s.th[s.cur]; std::string r; int n = 0; for (int i = (int)t->fr.size() - 1; i >= 0 && n < 8; i--, n++) { auto* f = t->fr[i].p; int ln = 0; if (f->ip < (int)f->f->bb[f->bb].in.size()) ln = f->f->bb[f->bb].in[f->ip].line; r += (n ? " < " : "") + f->f->name + ":" + std::to_string(ln); } return r; }

static bool truth(State& s, E e) { Eval ev(*s.model); return ev.truth(e); }
static void addpc(State& s, E e) {
  if (e->op == O_CONST) return;
  if (e->op == O_AND && e->w == 1) { addpc(s, e->a); addpc(s, e->b); return; }
  for (E x : s.pc) if (x == e) return;
  s.pc.push_back(e);
}
static State* forkst(State& s) { n_forks++; auto p = std::make_unique<State>(s); p->depth++; work.push_back(std::move(p)); return work.back().get(); }
// add e to the path condition; false when infeasible
static bool assume(State& s, E e) {
  if (e->op == O_CONST) return e->c & 1;
  if (!s.unsure && truth(s, e)) { addpc(s, e); return true; }
  ModelP m; Res r = solve(s.pc, e, s.model, &m);
  if (r == UNSAT) return false;
  if (r == SAT) { s.model = m; bool ok = true; { Eval ev(*m); if (!ev.truth(e)) ok = false; } s.unsure = s.unsure || !ok; } else { s.unsure = true; g_st.unknown += 0; }
  addpc(s, e); return true;
}
// can e be true?  (feasible or unknown)
static bool may(State& s, E e, ModelP* m = nullptr) {
  if (e->op == O_CONST) { if (m) *m = s.model; return e->c & 1; }
  if (!s.unsure && truth(s, e)) { g_st.modelhits++; if (m) *m = s.model; return true; }
  ModelP mm; Res r = solve(s.pc, e, s.model, &mm); if (m) *m = r == SAT ? mm : nullptr; return r != UNSAT;
}
// decide a symbolic condition: forks when both sides are feasible and returns the side this state takes
struct Quick { bool o = g_quick; Quick() { g_quick = true; } ~Quick() { g_quick = o; } }; // both sides are explored when the solver gives up
static bool branch(State& s, E c) {
  Quick quick;
  if (c->op == O_CONST) return c->c & 1;
  bool v = s.unsure ? true : truth(s, c);
  E mine = v ? c : mknot(c), other = mknot(mine);
  for (E x : s.pc) { if (x == mine) return v; if (x == other) return !v; }
  if (s.unsure) { if (!may(s, mine)) { std::swap(mine, other); v = !v; if (!assume(s, mine)) kill_("infeasible", false); return v; } }
  ModelP m; ModelP mm; Res r = solve(s.pc, other, s.model, &mm);
  if (r != UNSAT) {
    State* o = forkst(s); addpc(*o, other); if (r == SAT) { o->model = mm; Eval ev(*mm); if (!ev.truth(other)) o->unsure = true; else o->unsure = false; } else o->unsure = true;
    addpc(s, mine);
  } else addpc(s, mine);
  return v;
}
static u64 conc(State& s, E e) { // concretize by forking over feasible values; the instruction is re-executed in the forks
  if (e->op == O_CONST) return (u64)e->c;
  if (s.unsure) { ModelP m; Res r = solve(s.pc, mkc(1, 1), s.model, &m); (void)r; }
  Eval ev(*s.model); u64 v = (u64)ev.ev(e).i;
  E eq = mk(O_EQ, 1, e, mkc(v, e->w));
  if (!branch(s, eq)) { throw Redo{}; }
  return v;
}
static long double concf(State& s, E e) {
  if (e->op == O_FCONST) return e->fc;
  E b = mk(O_FBITS, e->w, e); if (e->w <= 64) { u64 v = conc(s, b); return mkf(O_BITSF, e->w, mkc(v, e->w))->fc; }
  Eval ev(*s.model); u128 v = ev.ev(b).i; if (!branch(s, mk(O_EQ, 1, b, mkc(v, 80)))) throw Redo{}; return mkf(O_BITSF, 80, mkc(v, 80))->fc;
}
static std::string numstr(const MVal& v, E e) {
  char b[64];
  if (e->fp) { snprintf(b, 64, "%La", v.f); return b; }
  i128 x = sgn(v.i, e->w); snprintf(b, 64, "%lld", (long long)x); return b;
}
static void witness(State& s) { // inputs of some completed paths, replayed natively by the driver
  n_ends++; if (s.unsure || wits.size() >= 8 || (n_ends & (n_ends - 1)) || s.uninit) return;
  Viol v; v.sched = s.sched; Eval ev(*s.model); for (E e : s.pc) if (!ev.truth(e)) return;
  for (auto& r : s.inputs) { MVal x = ev.ev(r.e); v.in.push_back({r.name, r.e->fp ? "f" + std::to_string(r.e->w) : "i" + std::to_string(r.e->w), numstr(x, r.e)}); }
  if (s.th.size() > 1) v.sched.push_back({s.cur, ~0ull, -1}); wits.push_back(v);
}
static void report(State& s, const std::string& id, const std::string& msg, const ModelP& m, bool known = false, const std::string& finding = "", bool approx = false) {
  std::string key = id + (known ? "#" + finding : ""); 
  if (violcount[key]++ >= g_maxviol) return;
  if (!known && violcount[key] == g_maxviol) g_timelimit = std::min(g_timelimit, now() + 10); // enough counterexamples: wind down
  Viol v; v.id = id; v.msg = msg; v.where = where(s); v.sched = s.sched; v.known = known; v.finding = finding; v.approx = approx;
  Eval ev(*m);
  for (auto& r : s.inputs) { MVal x = ev.ev(r.e); v.in.push_back({r.name, r.e->fp ? "f" + std::to_string(r.e->w) : "i" + std::to_string(r.e->w), numstr(x, r.e)}); }
  if (!s.sched.empty() || s.th.size() > 1) { v.sched.push_back({s.cur, ~0ull, -1}); }
  viols.push_back(v);
  if (getenv("VS_DEBUG")) std::cerr << "VIOL " << id << " " << msg << " at " << v.where << "\n";
}
[[noreturn]] static void fail(State& s, const std::string& id, const std::string& msg) { // violation for every continuation of this path
  if (s.unsure) { ModelP m; Res r = solve(s.pc, mkc(1, 1), s.model, &m); if (r == UNSAT) kill_("infeasible", false); 
    // the full path condition
    E all = mkc(1, 1); for (E e : s.pc) all = mkand(all, e); r = solve({}, all, s.model, &m); if (r == UNSAT) kill_("infeasible", false); if (r == UNKNOWN) { assert_undecided.insert(id); kill_("undecided failure " + id, true); } s.model = m; }
  report(s, id, msg, s.model, false, "", s.unsure); kill_(id, false);
}

// result of resolving an address: a live object and an in-bounds concrete offset
static void checked_obj(State& s, u64 a, u64 n, bool write, u32& id, u64& off) {
  id = (u32)OBJ(a); off = (u32)a;
  const Obj* o = robj(s, id);
  if (!o) { if (id == 0 || a < 4096) fail(s, "memory", "null or wild pointer access"); fail(s, "memory", "wild pointer access"); }
  if (o->dead) fail(s, "memory", o->kind == OB_HEAP ? "use after free" : "use of a dead object");
  if (n && (off > o->size || off + n > o->size)) fail(s, "memory", std::string("out of bounds ") + (write ? "write" : "read") + " of " + std::to_string(n) + " bytes at offset " + std::to_string((i64)(int32_t)off) + " of an object of " + std::to_string(o->size));
  if (o->kind == OB_FUNC) fail(s, "memory", "data access to a function");
  if (write && o->ro) fail(s, "memory", "write to constant memory");
}
static V rd_bytes(State& s, u32 id, u64 off, Type* t) {
  u64 n = t->store(); unsigned w = t->k == T_INT ? t->bits : t->k == T_FP ? t->bits : 64;
  const Obj* o = robj(s, id);
  bool allc = true, anyu = false; for (u64 i = 0; i < n; i++) { if (o->st[off + i] != B_CONC) allc = false; if (o->st[off + i] == B_UNINIT) anyu = true; }
  if (allc) {
    if (t->k == T_FP) { if (w == 32) { float f; memcpy(&f, &o->d[off], 4); return V::mkf(f, 32); } if (w == 64) { double f; memcpy(&f, &o->d[off], 8); return V::mkf(f, 64); } long double f = 0; memcpy(&f, &o->d[off], 10); return V::mkf(f, 80); }
    u128 v = 0; memcpy(&v, &o->d[off], n); return V::mki(v, w);
  }
  if (anyu && !o->ro) { // reading uninitialised storage: an arbitrary value, the same at every later read
    Obj* q = wobj(s, id); n_uninit++;
    for (u64 i = 0; i < n;) { if (q->st[off + i] != B_UNINIT) { i++; continue; } u64 j = i; while (j < n && q->st[off + j] == B_UNINIT) j++;
      E e = mkvar("uninit!" + std::to_string(s.uninit++), 8 * (j - i), false); for (u64 k = i; k < j; k++) wr_byte(q, off + k, B_SYM, 0, e, k - i); i = j; }
    o = q;
  }
  E acc = nullptr;
  for (u64 i = 0; i < n;) {
    E piece;
    if (o->st[off + i] == B_CONC) { u64 j = i; u128 v = 0; while (j < n && o->st[off + j] == B_CONC) { v |= (u128)o->d[off + j] << (8 * (j - i)); j++; } piece = mkc(v, 8 * (j - i)); i = j; }
    else { E e = o->sy[off + i].e; u32 ix = o->sy[off + i].idx; u64 j = i; while (j < n && o->st[off + j] == B_SYM && o->sy[off + j].e == e && o->sy[off + j].idx == ix + (j - i)) j++; 
      unsigned hi = std::min<u64>(8 * (ix + (j - i)) - 1, e->w - 1); piece = mkextract(e, hi, 8 * ix); unsigned want = 8 * (j - i); if (piece->w < want) piece = mkzext(piece, want); i = j; }
    acc = acc ? mkconcat(piece, acc) : piece;
  }
  if (t->k == T_FP) return V::mke(mkf(O_BITSF, w, mkextract(acc, w - 1, 0)));
  if (acc->w > w) acc = mkextract(acc, w - 1, 0);
  return V::mke(acc);
}
static void wr_val(State& s, u32 id, u64 off, Type* t, const V& v) {
  if (t->k == T_STRUCT || t->k == T_ARRAY || t->k == T_VECTOR) {
    u64 n = t->k == T_STRUCT ? t->el.size() : t->n;
    for (u64 i = 0; i < n; i++) { Type* et = t->k == T_STRUCT ? t->el[i] : t->el[0]; u64 o2 = t->k == T_STRUCT ? t->off[i] : i * et->size; wr_val(s, id, off + o2, et, v.k == V::AGG ? (*v.agg)[i] : V()); }
    return;
  }
  Obj* o = wobj(s, id); u64 n = t->store();
  if (v.k == V::UNDEF) { for (u64 i = 0; i < n; i++) o->st[off + i] = B_UNINIT; return; }
  if (v.conc()) {
    u8 b[16] = {0};
    if (v.k == V::F) { if (v.w == 32) { float f = v.f; memcpy(b, &f, 4); } else if (v.w == 64) { double f = v.f; memcpy(b, &f, 8); } else memcpy(b, &v.f, 10); }
    else memcpy(b, &v.i, 16);
    memcpy(&o->d[off], b, n); memset(&o->st[off], B_CONC, n); return;
  }
  E e = v.e; if (v.k == V::F) e = mk(O_FBITS, v.w, e);
  if (e->w % 8) e = mkzext(e, n * 8);
  // strip outer extensions and concatenations so that pieces can be read back
  for (u64 i = 0; i < n; i++) { E x = e; u32 ix = i; bool done = false;
    while (!done) { if (x->op == O_CONCAT && x->b->w % 8 == 0) { if (ix * 8 < x->b->w) x = x->b; else { ix -= x->b->w / 8; x = x->a; } } else if (x->op == O_EXTRACT && (u32)x->c % 8 == 0) { ix += (u32)x->c / 8; x = x->a; } else done = true; }
    if (x->op == O_CONST) wr_byte(o, off + i, B_CONC, (u8)(x->c >> (8 * ix)), nullptr, 0); else if (x->w < 8 * (ix + 1)) wr_byte(o, off + i, B_SYM, 0, e, i); else wr_byte(o, off + i, B_SYM, 0, x, ix); }
}
static V rd_val(State& s, u32 id, u64 off, Type* t) {
  if (t->k == T_STRUCT || t->k == T_ARRAY || t->k == T_VECTOR) {
    V v; v.k = V::AGG; v.agg = std::make_shared<std::vector<V>>(); u64 n = t->k == T_STRUCT ? t->el.size() : t->n;
    for (u64 i = 0; i < n; i++) { Type* et = t->k == T_STRUCT ? t->el[i] : t->el[0]; u64 o2 = t->k == T_STRUCT ? t->off[i] : i * et->size; v.agg->push_back(rd_val(s, id, off + o2, et)); }
    return v;
  }
  return rd_bytes(s, id, off, t);
}
// address expression -> the object it points into; checks every feasible value
static u32 resolve_obj(State& s, E a, u64 n) {
  E hi = mkextract(a, 63, 32); if (hi->op == O_CONST) return (u32)hi->c;
  return (u32)conc(s, hi);
}
static u64 resolve_addr(State& s, const V& p, u64 n, bool write) { // concrete address (forking)
  if (p.conc()) return (u64)p.i;
  u32 id = resolve_obj(s, p.e, n); const Obj* o = robj(s, id); E lo = mkextract(p.e, 31, 0);
  if (o && !o->dead && o->size >= n) { E bad = mk(O_ULT, 1, mkc(o->size - n, 32), lo); ModelP m; if (may(s, bad, &m)) { if (m) { ModelP keep = s.model; report(s, "memory", std::string("out of bounds ") + (write ? "write" : "read") + " (symbolic offset, object of " + std::to_string(o->size) + ")", m); } else assert_undecided.insert("memory"); if (!assume(s, mknot(bad))) kill_("oob", false); } }
  return ((u64)id << 32) | conc(s, lo);
}
static V load_sym(State& s, const V& p, Type* t) { // symbolic address: ite over the feasible offsets
  u64 n = t->store(); u32 id = resolve_obj(s, p.e, n); const Obj* o = robj(s, id); E lo = mkextract(p.e, 31, 0);
  if (!o || o->dead || o->size < n || t->k == T_PTR || t->k == T_STRUCT || t->k == T_ARRAY || t->k == T_VECTOR) { u64 a = resolve_addr(s, p, n, false); u32 i2; u64 off; checked_obj(s, a, n, false, i2, off); return rd_val(s, i2, off, t); }
  E bad = mk(O_ULT, 1, mkc(o->size - n, 32), lo); ModelP m; Rng lr = urange(lo);
  if (lr.hi > (i128)(o->size - n) && may(s, bad, &m)) { if (m) report(s, "memory", "out of bounds read (symbolic offset, object of " + std::to_string(o->size) + ")", m); else assert_undecided.insert("memory"); if (!assume(s, mknot(bad))) kill_("oob", false); }
  u64 from = (u64)std::min<i128>(lr.lo, (i128)(o->size - n)), to = (u64)std::min<i128>(lr.hi, (i128)(o->size - n));
  if (to - from < 512 && t->k == T_INT && n == 1) { // a small table of plain bytes: a decision tree over every offset in reach
    bool plain = true; std::vector<std::pair<u64, V>> runs; for (u64 of = from; of <= to && plain; of++) { plain = o->st[of] == B_CONC; if (!plain) break; V v = rd_val(s, id, of, t); if (runs.empty() || runs.back().second.i != v.i) runs.push_back({of, v}); }
    if (plain) { std::function<E(size_t, size_t)> tree = [&](size_t a, size_t b) -> E { if (b - a == 1) return runs[a].second.ex(); size_t k = (a + b) / 2; return mkite(mk(O_ULT, 1, lo, mkc(runs[k].first, 32)), tree(a, k), tree(k, b)); }; return V::mke(tree(0, runs.size())); }
  }
  std::vector<u64> offs; E excl = mkc(1, 1); ModelP cur = s.model; bool first = true;
  while (offs.size() <= 300) { ModelP m2; if (first && !s.unsure) { m2 = s.model; first = false; } else { Res r = solve(s.pc, excl, s.model, &m2); if (r == UNSAT) break; if (r == UNKNOWN) kill_("undecided pointer enumeration", true); } first = false; Eval ev(*m2); u64 v = (u64)ev.ev(lo).i; offs.push_back(v); excl = mkand(excl, mknot(mk(O_EQ, 1, lo, mkc(v, 32)))); }
  if (offs.size() > 300) kill_("pointer with more than 300 targets", true);
  std::sort(offs.begin(), offs.end()); V r; bool have = false;
  for (u64 of : offs) { V v = rd_val(s, id, of, t); if (!have) { r = v; have = true; } else r = V::mke(mkite(mk(O_EQ, 1, lo, mkc(of, 32)), v.ex(), r.ex())); }
  return r;
}
static V do_load(State& s, const V& p, Type* t) {
  if (!p.conc()) return load_sym(s, p, t);
  u32 id; u64 off; checked_obj(s, (u64)p.i, t->size ? t->store() : 0, false, id, off); return rd_val(s, id, off, t);
}
static void do_store(State& s, const V& p, Type* t, const V& v) {
  u64 a = resolve_addr(s, p, t->store(), true); u32 id; u64 off; checked_obj(s, a, t->store(), true, id, off); wr_val(s, id, off, t, v);
}
static void copy_bytes(State& s, u64 d, u64 sr, u64 n) {
  if (!n) return; u32 di, si; u64 doff, so; checked_obj(s, d, n, true, di, doff); checked_obj(s, sr, n, false, si, so);
  const Obj* so_ = robj(s, si); std::vector<u8> dd(so_->d.begin() + so, so_->d.begin() + so + n), st(so_->st.begin() + so, so_->st.begin() + so + n); std::vector<SymB> sy; if (!so_->sy.empty()) sy.assign(so_->sy.begin() + so, so_->sy.begin() + so + n);
  Obj* o = wobj(s, di); for (u64 i = 0; i < n; i++) wr_byte(o, doff + i, st[i], dd[i], sy.empty() ? nullptr : sy[i].e, sy.empty() ? 0 : sy[i].idx);
}
static V rd_u8(State& s, u64 a) { static Type* t8 = nullptr; if (!t8) { t8 = new Type; t8->k = T_INT; t8->bits = 8; t8->size = 1; t8->sized = true; } u32 id; u64 off; checked_obj(s, a, 1, false, id, off); return rd_bytes(s, id, off, t8); }
static u64 rd_u64(State& s, u64 a) { static Type* t = nullptr; if (!t) { t = new Type; t->k = T_INT; t->bits = 64; t->size = 8; t->sized = true; } u32 id; u64 off; checked_obj(s, a, 8, false, id, off); V v = rd_bytes(s, id, off, t); return v.conc() ? (u64)v.i : conc(s, v.e); }
static void wr_int(State& s, u64 a, u64 v, int n) { static Type* t[9] = {0}; if (!t[n]) { t[n] = new Type; t[n]->k = T_INT; t[n]->bits = n * 8; t[n]->size = n; t[n]->sized = true; } u32 id; u64 off; checked_obj(s, a, n, true, id, off); wr_val(s, id, off, t[n], V::mki(v, n * 8)); }
static std::string cstr(State& s, u64 a) { std::string r; for (int i = 0; i < 4096; i++) { V v = rd_u8(s, a + i); u8 c = v.conc() ? (u8)v.i : (u8)conc(s, v.e); if (!c) break; r += (char)c; } return r; }

// ---------------------------------------------------------------- statics
static std::string symname(u32 id) { for (auto& k : mod.symaddr) if (OBJ(k.second) == id) return k.first; return "?"; }
static void init_statics(State& s) {
  std::set<u32> have;
  for (auto& g : mod.globals) {
    auto* o = new Obj; o->kind = OB_GLOBAL; o->id = g.objid; o->size = g.ty->size; if (!g.hasinit) o->size = std::max<u64>(o->size, 256);
    o->d.assign(o->size, 0); o->st.assign(o->size, B_CONC); *slot(s, g.objid, true) = Ref<Obj>(o); have.insert(g.objid);
    if (g.hasinit) wr_val(s, g.objid, 0, g.ty, g.init);
    if (g.constant && g.hasinit) wobj(s, g.objid)->ro = true;
  }
  for (auto& f : mod.funcs) { auto* o = new Obj; o->kind = OB_FUNC; o->id = f->objid; o->size = 1; o->ro = true; o->d.assign(1, 0); o->st.assign(1, B_CONC); *slot(s, f->objid, true) = Ref<Obj>(o); have.insert(f->objid); }
  std::map<std::string, u64> syms = mod.symaddr;
  for (auto& g : mod.globals) if (!g.hasinit && g.name.compare(0, 4, "_ZTI") == 0) { // external type info: give it its name
      std::string nm = g.name.substr(4); u32 id = newobj(s, nm.size() + 1, OB_GLOBAL); Obj* o = wobj(s, id); for (size_t i = 0; i <= nm.size(); i++) { o->d[i] = i < nm.size() ? nm[i] : 0; o->st[i] = B_CONC; }
      wr_int(s, ADDR(g.objid) + 8, ADDR(id), 8); }
}

// ---------------------------------------------------------------- types for exceptions
static const char* std_base(const std::string& n) {
  static const std::map<std::string, const char*> m = {{"St12out_of_range", "St11logic_error"}, {"St12length_error", "St11logic_error"}, {"St16invalid_argument", "St11logic_error"}, {"St12domain_error", "St11logic_error"},
    {"St11logic_error", "St9exception"}, {"St13runtime_error", "St9exception"}, {"St11range_error", "St13runtime_error"}, {"St14overflow_error", "St13runtime_error"}, {"St15underflow_error", "St13runtime_error"}, {"St12system_error", "St13runtime_error"},
    {"St9bad_alloc", "St9exception"}, {"St8bad_cast", "St9exception"}, {"St10bad_typeid", "St9exception"}, {"St17bad_function_call", "St9exception"}, {"St20bad_array_new_length", "St9bad_alloc"}};
  auto it = m.find(n); return it == m.end() ? nullptr : it->second;
}
static std::string ti_name(State& s, u64 ti) { return cstr(s, rd_u64(s, ti + 8)); }
// offset of base `want` in `ti`, or -1
static i64 find_base(State& s, u64 ti, u64 want, u64 obj, int depth = 0) {
  if (ti == want) return 0; if (depth > 12) return -1;
  std::string n = ti_name(s, ti), w = ti_name(s, want); if (n == w) return 0;
  if (std_base(n)) { std::string c = n; while (auto b = std_base(c)) { c = b; if (c == w) return 0; } return -1; }
  static u64 si = 0, vmi = 0; if (!si) { for (auto& k : mod.symaddr) { if (k.first == "_ZTVN10__cxxabiv120__si_class_type_infoE") si = k.second; if (k.first == "_ZTVN10__cxxabiv121__vmi_class_type_infoE") vmi = k.second; } if (!si) si = 1; }
  u64 vt = rd_u64(s, ti);
  if (OBJ(vt) == OBJ(si) && si != 1) return find_base(s, rd_u64(s, ti + 16), want, obj, depth + 1);
  if (vmi && OBJ(vt) == OBJ(vmi)) {
    u64 fc = rd_u64(s, ti + 16); u32 cnt = (u32)(fc >> 32);
    for (u32 i = 0; i < cnt; i++) { u64 b = rd_u64(s, ti + 24 + 16 * i); i64 fl = (i64)rd_u64(s, ti + 32 + 16 * i); i64 off = fl >> 8;
      if (fl & 1) { if (!obj) continue; u64 vp = rd_u64(s, obj); off = (i64)rd_u64(s, vp + off); }
      i64 r = find_base(s, b, want, obj ? obj + off : 0, depth + 1); if (r >= 0) return off + r; }
  }
  return -1;
}
static void pop_frame(State& s) {
  auto& t = T(s); for (u32 id : t.fr.back()->allocas) { Obj* o = wobj(s, id); o->dead = true; o->d.clear(); o->st.clear(); o->sy.clear(); o->d.shrink_to_fit(); o->st.shrink_to_fit(); o->sy.shrink_to_fit(); }
  t.fr.pop_back();
}
static void enter_bb(State& s, int bb) {
  Frame& f = F(s); Block& b = f.f->bb[bb]; int from = f.bb;
  if (b.nphi) {
    std::vector<V> vals(b.nphi);
    for (int i = 0; i < b.nphi; i++) { Inst& in = b.in[i]; bool ok = false; for (size_t k = 0; k < in.bb.size(); k++) if (in.bb[k] == from) { vals[i] = in.ops[k].reg >= 0 ? f.regs[in.ops[k].reg] : in.ops[k].c; ok = true; break; } if (!ok) kill_("phi", true); }
    for (int i = 0; i < b.nphi; i++) f.regs[b.in[i].dst] = vals[i];
  }
  f.prev = from; f.bb = bb; f.ip = b.nphi;
}
// find the landing pad for the exception (obj, ti); frames without handlers are popped
static void unwind(State& s, u64 obj) {
  ExcInfo* ex = nullptr; for (auto& e : s.exc) if (e.obj == obj) ex = &e; if (!ex) kill_("unwind of a foreign exception", true);
  u64 ti = ex->ti;
  // search phase
  { bool found = false; auto& t = s.th[s.cur];
    for (int i = (int)t->fr.size() - 1; i >= 0 && !found; i--) { auto* f = t->fr[i].p; Inst* in = nullptr;
      if (i == (int)t->fr.size() - 1) { auto& ii = f->f->bb[f->bb].in[f->ip]; if (ii.op == I_INVOKE) in = &ii; } else if (t->fr[i + 1]->inv) { in = &f->f->bb[f->bb].in[f->ip]; }
      if (!in || in->op != I_INVOKE) continue;
      Block& lb = f->f->bb[in->bb[1]]; Inst* lp = nullptr; for (auto& x : lb.in) if (x.op == I_LPAD) { lp = &x; break; } if (!lp) continue;
      for (size_t k = 0; k < lp->ops.size(); k++) { if (lp->idx[k]) { found = true; break; } u64 c = (u64)lp->ops[k].c.i; if (!c || find_base(s, ti, c, 0) >= 0) { found = true; break; } } }
    if (!found) fail(s, "terminate", "uncaught exception " + ti_name(s, ti)); }
  bool first = true;
  while (true) {
    Thread& t = T(s); if (t.fr.empty()) kill_("unwound everything", true);
    Frame& f = F(s); Inst& in = f.f->bb[f.bb].in[f.ip];
    if (in.op == I_INVOKE) {
      Block& lb = f.f->bb[in.bb[1]]; Inst* lp = nullptr; for (auto& x : lb.in) if (x.op == I_LPAD) { lp = &x; break; }
      i64 sel = 0; bool enter = lp->flag; u64 ptr = obj;
      for (size_t k = 0; k < lp->ops.size(); k++) {
        if (lp->idx[k]) { sel = -1; enter = true; break; }
        u64 c = (u64)lp->ops[k].c.i; if (!c) { sel = 1; enter = true; break; }
        i64 off = find_base(s, ti, c, 0); if (off >= 0) { sel = (i64)OBJ(c); enter = true; break; }
      }
      if (enter) { Thread& t2 = T(s); t2.excobj = ptr; t2.excsel = sel; enter_bb(s, in.bb[1]); return; }
    }
    (void)first; pop_frame(s);
  }
}

// ---------------------------------------------------------------- scheduling
static u64 mix(u64 h, u64 x) { h ^= x; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29; return h; }
static u64 hval(const V& v) { u64 h = mix(v.k, v.w); if (v.k == V::AGG) { for (auto& x : *v.agg) h = mix(h, hval(x)); return h; } if (v.e) return mix(h, v.e->id + 77); if (v.k == V::F) { u64 a; uint16_t b; memcpy(&a, &v.f, 8); memcpy(&b, (char*)&v.f + 8, 2); return mix(mix(h, a), b); } return mix(mix(h, (u64)v.i), (u64)(v.i >> 64)); }
static u64 hobj(const Obj* o) {
  if (o->hv) return o->h; u64 h = mix(o->size, o->dead);
  if (!o->dead) for (u64 i = 0; i < o->size; i++) { if (o->st[i] == B_CONC) h = mix(h, o->d[i]); else if (o->st[i] == B_SYM) h = mix(mix(h, o->sy[i].e->id), o->sy[i].idx + 1000); else h = mix(h, 5000); }
  o->h = h; o->hv = true; return h;
}
static std::array<u64, 2> hstate(State& s) {
  u64 h = 1, g = 99;
  for (size_t sp = 0; sp < s.mem.size(); sp++) for (size_t c = 0; c < s.mem[sp].size(); c++) { auto* ch = s.mem[sp][c].p; if (!ch) continue;
    if (!ch->hv) { u64 x = 3; for (auto& o : ch->o) x = mix(x, o ? (o->ro ? 7 : hobj(o.p)) : 0); ch->h = x; ch->hv = true; } h = mix(h, ch->h); g = mix(g, ch->h ^ 0x5555); }
  for (auto& t : s.th) { u64 x = mix(t->done, t->blocked); x = mix(x, t->joinwait * 2); x = mix(x, t->nextobj); for (auto& f : t->fr) { x = mix(x, (u64)f->f); x = mix(x, f->bb * 1000 + f->ip); for (auto& v : f->regs) x = mix(x, hval(v)); } for (u64 c : t->caught) x = mix(x, c); for (auto& k : t->freel) for (u32 q : k.second) x = mix(x, q + k.first * 31); h = mix(h, x); g = mix(g, x ^ 0xabcdef); }
  u64 p = 0; for (E e : s.pc) p += mix(e->id, 17); h = mix(h, p); g = mix(g, p + 1 + s.uninit * 1000003ull);
  for (auto& n : s.names) { h = mix(h, std::hash<std::string>()(n.first) + n.second); }
  return {h, mix(mix(g, s.preempt), s.rb)};
}
static std::set<std::array<u64, 2>> visited;
static u64 n_racy = 0;
// the sets of mutexes that threads hold, numbered
static std::vector<std::set<u64>> locksets(1); static std::map<std::set<u64>, int> lockids = {{{}, 0}};
static void hold(State& s, u64 m, bool on) { Thread& t = T(s); std::set<u64> k = locksets[t.locks]; if (on) k.insert(m); else k.erase(m); auto it = lockids.find(k); if (it == lockids.end()) { it = lockids.emplace(k, (int)locksets.size()).first; locksets.push_back(k); } t.locks = it->second; }
static Shadow& shadow(State& s) { if (!s.sh) s.sh = std::make_shared<Shadow>(); else if (s.sh.use_count() > 1) s.sh = std::make_shared<Shadow>(*s.sh); return *s.sh; }
static void acquires(State& s, u64 a) { if (s.vc.empty() || !s.sh) return; auto it = s.sh->sync.find(a); if (it != s.sh->sync.end()) for (int i = 0; i < 8; i++) s.vc[s.cur][i] = std::max(s.vc[s.cur][i], it->second[i]); }
static void releases(State& s, u64 a) { if (s.vc.empty()) return; Clock& k = shadow(s).sync[a]; for (int i = 0; i < 8; i++) k[i] = std::max(k[i], s.vc[s.cur][i]); s.vc[s.cur][s.cur]++; }
static bool together(int a, int b) { if (!a || !b) return false; for (u64 m : locksets[a]) if (locksets[b].count(m)) return true; return false; }
static void schedule(State& s, bool fromBlocked, bool racy = false, bool yields = false) { // choose who runs next; called when the current thread is at a scheduling point
  std::vector<int> en; int alive = 0;
  bool othersdone = true; for (size_t i = 1; i < s.th.size(); i++) if (!s.th[i]->done) othersdone = false;
  for (size_t i = 0; i < s.th.size(); i++) { auto& t = s.th[i]; if (t->done) continue; alive++; if (t->blocked) continue; if (t->joinwait && !othersdone) continue; en.push_back(i); }
  if (en.empty()) { if (!alive) return; fail(s, "deadlock", "no thread can run"); }
  s.grp.reset(); if (en.size() == 1 && en[0] == s.cur) { T(s).granted = true; return; }
  if (en.size() > 1) { n_points++; auto h = hstate(s); h[0] = mix(h[0], s.cur); if (!visited.insert(h).second) { n_visited++; kill_("visited", false); } }
  bool curen = std::find(en.begin(), en.end(), s.cur) != en.end();
  // continue the current thread first, alternatives are forked
  std::vector<int> order; if (curen) order.push_back(s.cur); for (int t : en) if (t != s.cur) order.push_back(t);
  if (curen && (s.preempt == 0 || (racy && s.rb == 0)) && !fromBlocked) order.resize(1);
  // a thread that yields lets another go first, at no cost; that it goes on itself is what costs a preemption
  if (yields && curen && en.size() > 1) { order.clear(); for (int t : en) if (t != s.cur) order.push_back(t); if (s.preempt > 0) order.push_back(s.cur); }
  if (order.size() > 1 && !s.pointsall && !yields) s.grp = std::make_shared<Group>();
  for (size_t i = 1; i < order.size(); i++) {
    State* o = forkst(s); int t = order[i]; if (yields ? t == s.cur : curen && !fromBlocked && o->preempt > 0) o->preempt--; if (curen && racy) o->rb--;
    if (t != s.cur) o->sched.push_back({s.cur, s.th[s.cur]->ops, t}); o->th[s.cur].mut()->granted = false; o->cur = t; o->since = o->instrs; o->th[t].mut()->granted = true; }
  int t = order[0];
  if (t != s.cur) { s.sched.push_back({s.cur, s.th[s.cur]->ops, t}); s.th[s.cur].mut()->granted = false; s.cur = t; s.since = s.instrs; }
  s.th[t].mut()->granted = true;
}
static int alive_threads(State& s) { int n = 0; for (auto& t : s.th) if (!t->done && !t->joinwait) n++; return n; }
// the scheduler is fair: a thread that has run for long while others could go lets one of them go first, at no cost
static u64 g_fair = 20000;
static void yields(State& s) {
  if (s.th.size() == 1) return;
  if (alive_threads(s) <= 1) { s.grp.reset(); return; }
  Thread& t = T(s); if (t.granted) { t.granted = false; return; }
  int me = s.cur; schedule(s, false, false, true); if (s.cur != me) throw Redo{}; T(s).granted = false;
}
// called before a visible operation; throws Redo when another thread was chosen
static void point(State& s, bool racy = false) {
  if (s.th.size() == 1) return; 
  if (alive_threads(s) <= 1) { s.grp.reset(); return; }
  if (s.instrs - s.since > g_fair) { yields(s); return; }
  Thread& t = T(s); if (t.granted) { t.granted = false; return; }
  int me = s.cur; schedule(s, false, racy); if (s.cur != me) throw Redo{}; T(s).granted = false;
}

// ---------------------------------------------------------------- natives
enum NR { N_DONE, N_PUSHED, N_UNWOUND };
typedef NR (*Native)(State& s, Inst& in, std::vector<V>& a, V& ret);
static std::map<std::string, Native> natives;
static u64 ci(State& s, const V& v) { return v.conc() ? (u64)v.i : conc(s, v.e); }
static void push_call(State& s, Function* f, const std::vector<V>& args, int dst, Type* dty, bool inv) {
  if (T(s).fr.size() > 400) fail(s, "memory", "stack overflow (call depth 400)");
  f->execs++;
  auto* fr = new Frame; fr->f = f; fr->regs.resize(f->nregs); fr->dst = dst; fr->dty = dty; fr->inv = inv; fr->bb = 0; fr->ip = 0; // entry block is index 0? set below
  for (size_t i = 0; i < args.size() && i < f->params.size(); i++) fr->regs[i] = args[i];
  for (size_t i = f->params.size(); i < args.size(); i++) fr->va.push_back(args[i]);
  T(s).fr.push_back(Ref<Frame>(fr));
}
static E input_var(State& s, const std::string& name, unsigned w, bool fp) { int k = s.names[name]++; E e = mkvar(name + "#" + std::to_string(k), w, fp); s.inputs.push_back({name + "#" + std::to_string(k), e}); return e; }
static void newdefault(State& s, E e, MVal v) { if (e->op != O_VAR && e->op != O_FVAR) return; u32 id = (u32)e->c; for (E p : s.pc) if (std::binary_search(p->vars->v.begin(), p->vars->v.end(), id)) return; auto m = std::make_shared<Model>(); m->v = s.model->v; if (m->v.size() <= id) m->v.resize(g_vars.size()); m->v[id] = v; s.model = m; }
static E b1(const V& v) { E e = v.ex(); return e->w == 1 ? e : mknot(mk(O_EQ, 1, e, mkc(0, e->w))); }

static void do_assert(State& s, E c, const std::string& id, const std::string& msg) {
  assert_reached[id]++;
  if (c->op == O_CONST) { if (c->c & 1) { assert_solved[id]++; return; } if (violcount[id] >= g_maxviol) { kill_("assert", false); } fail(s, id, msg); }
  E nc = mknot(c); ModelP m; 
  if (!s.unsure && truth(s, nc)) m = s.model;
  else { Res r = solve(s.pc, nc, s.model, &m); if (r == UNSAT) { assert_solved[id]++; if (!hasfp(c)) addpc(s, c); return; } if (r == UNKNOWN) { assert_undecided.insert(id); addpc(s, c); s.unsure = true; return; }
    if (s.unsure) { E all = nc; for (E e : s.pc) all = mkand(all, e); ModelP m2; Res r2 = solve({}, all, s.model, &m2); if (r2 == UNSAT) { assert_solved[id]++; addpc(s, c); return; } if (r2 == UNKNOWN) { assert_undecided.insert(id); addpc(s, c); return; } m = m2; } }
  Eval ev(*m); bool ok = ev.truth(nc); for (E e : s.pc) ok = ok && ev.truth(e);
  report(s, id, msg, m, false, "", !ok);
  if (!assume(s, c)) kill_("assert", false);
}
static NR n_sym(State& s, Inst&, std::vector<V>& a, V& ret) { std::string n = cstr(s, ci(s, a[0])); unsigned w = (unsigned)ci(s, a[1]); E e = input_var(s, n, w, false); newdefault(s, e, MVal()); ret = V::mke(w < 64 ? mkzext(e, 64) : e); return N_DONE; }
struct NoFold { NoFold() { g_nofold = true; } ~NoFold() { g_nofold = false; } };
static NR n_range(State& s, Inst&, std::vector<V>& a, V& ret) {
  std::string n = cstr(s, ci(s, a[0])); i64 lo = (i64)ci(s, a[1]), hi = (i64)ci(s, a[2]); if (lo > hi) kill_("empty range", false);
  u64 span = (u64)hi - (u64)lo; int k = s.names[n]++; std::string nm = n + "#" + std::to_string(k);
  if (span == 0) { s.inputs.push_back({nm, mkc((u64)lo, 64)}); ret = V::mki((u64)lo, 64); return N_DONE; }
  unsigned bits = 1; while (bits < 64 && (span >> bits)) bits++;
  E v = mkvar(nm + (bits < 64 ? "'" : "") + "[" + std::to_string(lo) + "," + std::to_string(hi) + "]", bits, false); auto& vi = g_vars[(u32)v->c];
  E e; 
  if (bits == 64) { e = v; vi.ranged = true; vi.lo = lo; vi.hi = hi; MVal d; d.i = (u64)lo; newdefault(s, v, d); NoFold nf; if (!(lo == INT64_MIN && hi == INT64_MAX)) { if (!assume(s, mk(O_SLE, 1, mkc((u64)lo, 64), e)) || !assume(s, mk(O_SLE, 1, e, mkc((u64)hi, 64)))) kill_("range", false); } }
  else { e = mk(O_ADD, 64, mkzext(v, 64), mkc((u64)lo, 64)); vi.ranged = true; vi.lo = 0; vi.hi = (i128)span; newdefault(s, v, MVal()); NoFold nf; if (span != (((u64)1 << bits) - 1)) if (!assume(s, mk(O_ULE, 1, v, mkc(span, bits)))) kill_("range", false); }
  s.inputs.push_back({nm, e}); ret = V::mke(e); return N_DONE;
}
static NR n_double(State& s, Inst&, std::vector<V>& a, V& ret) {
  std::string n = cstr(s, ci(s, a[0])); long double lo = a[1].f, hi = a[2].f; unsigned w = (unsigned)ci(s, a[3]);
  int k = s.names[n]++; std::string nm = n + "#" + std::to_string(k); char rb[80]; snprintf(rb, 80, "[%La,%La]", lo, hi); E e = mkvar(nm + rb, w, true); s.inputs.push_back({nm, e}); auto& vi = g_vars[(u32)e->c]; vi.ranged = true; vi.flo = lo; vi.fhi = hi; MVal d; d.f = (lo <= 0 && hi >= 0) ? 0 : lo; newdefault(s, e, d);
  NoFold nf; if (!assume(s, mk(O_FLE, 1, mkfc(lo, w), e)) || !assume(s, mk(O_FLE, 1, e, mkfc(hi, w)))) kill_("range", false);
  E r = e; if (w != 64) r = mkf(O_FCONV, 64, e); ret = V::mke(r); return N_DONE;
}
static NR n_assume(State& s, Inst&, std::vector<V>& a, V&) { if (!assume(s, b1(a[0]))) { kill_("assume", false); } return N_DONE; }
static NR n_assert(State& s, Inst&, std::vector<V>& a, V&) { std::string id = cstr(s, ci(s, a[1])); do_assert(s, b1(a[0]), id, "assertion " + id); return N_DONE; }
static NR n_assert_k(State& s, Inst&, std::vector<V>& a, V&) { // cond, id, finding, region
  std::string id = cstr(s, ci(s, a[1])), fi = cstr(s, ci(s, a[2])); E c = b1(a[0]), r = b1(a[3]);
  E kn = mkand(mknot(c), r);
  if (violcount[id + "#" + fi] < 1 && !(kn->op == O_CONST && !kn->c)) { ModelP m; if (may(s, kn, &m) && m) { Eval ev(*m); bool ok = ev.truth(kn); for (E e : s.pc) ok = ok && ev.truth(e); if (ok) report(s, id, "known " + fi, m, true, fi); } }
  do_assert(s, mkor(c, r), id, "assertion " + id);
  return N_DONE;
}
static std::map<std::string, int> cover_; // 0 reached, 1 covered, 2 undecided
static std::map<std::string, Viol> coverwit;
static NR n_cover(State& s, Inst&, std::vector<V>& a, V&) {
  std::string id = cstr(s, ci(s, a[1])); E c = b1(a[0]); int& k = cover_[id]; assert_reached[id]++; if (k == 1) { assert_solved[id]++; return N_DONE; }
  if (c->op == O_CONST) { if (c->c & 1) { k = 1; assert_solved[id]++; } return N_DONE; }
  ModelP m; if (!s.unsure && truth(s, c)) { k = 1; assert_solved[id]++; return N_DONE; }
  Res r = solve(s.pc, c, s.model, &m); if (r == UNKNOWN) k = 2; if (r == SAT) { Eval ev(*m); bool ok = ev.truth(c); for (E e : s.pc) ok = ok && ev.truth(e); k = ok ? 1 : 2; } if (k == 1) assert_solved[id]++;
  return N_DONE;
}
static NR n_conc(State& s, Inst&, std::vector<V>& a, V& ret) { ret = a[0].conc() ? a[0] : V::mki(conc(s, a[0].e), a[0].w); return N_DONE; }
static NR n_choose(State& s, Inst& in, std::vector<V>& a, V& ret) {
  // range + concretisation; the variable is created once per execution of the call, so look it up before re-execution
  std::string n = cstr(s, ci(s, a[0])); i64 cnt = (i64)ci(s, a[1]); int k = s.names[n]; std::string nm = n + "#" + std::to_string(k);
  unsigned bits = 1; while (((u64)(cnt - 1) >> bits)) bits++;
  E v = mkvar(nm + "c", bits, false); E e = mkzext(v, 64);
  newdefault(s, v, MVal());
  if ((u64)cnt != ((u64)1 << bits)) if (!assume(s, mk(O_ULT, 1, v, mkc(cnt, bits)))) kill_("range", false);
  u64 val = conc(s, v); s.names[n]++; s.inputs.push_back({nm, e}); ret = V::mki(val, in.ty->bits); return N_DONE;
}
static NR n_thread(State& s, Inst&, std::vector<V>& a, V&) {
  u64 fa = ci(s, a[0]); auto it = mod.faddr.find(fa); if (it == mod.faddr.end()) kill_("thread function", true);
  int me = s.cur; s.th.push_back(Ref<Thread>(new Thread)); s.cur = s.th.size() - 1; push_call(s, it->second, {a[1]}, -1, nullptr, false); s.cur = me; if (s.th.size() > 8) s.vc.clear(); else if (!s.pointsall) { if (s.vc.empty()) { Clock c{}; c[0] = 1; s.vc.push_back(c); } while (s.vc.size() < s.th.size()) { Clock c = s.vc[me]; c[s.vc.size()] = 1; s.vc.push_back(c); } s.vc[me][me]++; } n_maxthreads = std::max<int>(n_maxthreads, s.th.size()); return N_DONE;
}
static NR n_join(State& s, Inst&, std::vector<V>&, V&) {
  bool all = true; for (size_t i = 1; i < s.th.size(); i++) if (!s.th[i]->done) all = false;
  if (all) { s.sh.reset(); s.vc.clear(); T(s).joinwait = false; T(s).granted = false; return N_DONE; }
  T(s).joinwait = true; T(s).granted = false; int me = s.cur; schedule(s, true); if (s.cur == me && !all) {} throw Redo{};
}
static NR n_flag(State& s, Inst&, std::vector<V>& a, V&) { u64 w = ci(s, a[0]), v = ci(s, a[1]); if (w == 0) s.pointsall = v; if (w == 1) s.reuse = v; if (w == 2) s.preempt = (int)v; if (w == 3) g_fair = v; return N_DONE; }
static NR n_note(State& s, Inst&, std::vector<V>& a, V&) { notes_[cstr(s, ci(s, a[0]))] = cstr(s, ci(s, a[1])); return N_DONE; }
// stack taken by allocations whose size or number is only known when running
static NR n_stack(State& s, Inst&, std::vector<V>&, V& ret) { u64 n = 0; for (auto& f : T(s).fr) n += f->dyn; ret = V::mki(n, 64); return N_DONE; }
static NR n_stacksave(State& s, Inst&, std::vector<V>&, V& ret) { ret = V::mki(F(s).dyn, 64); return N_DONE; }
static NR n_stackrestore(State& s, Inst&, std::vector<V>& a, V&) { F(s).dyn = ci(s, a[0]); return N_DONE; }
static NR n_heap(State& s, Inst&, std::vector<V>&, V& ret) { ret = V::mki((u64)s.heaplive, 64); return N_DONE; }
static NR n_self(State& s, Inst&, std::vector<V>&, V& ret) { ret = V::mki((u64)s.cur + 1, 64); return N_DONE; }
static NR n_isengine(State&, Inst&, std::vector<V>&, V& ret) { ret = V::mki(1, 32); return N_DONE; }

static u64 heap_alloc(State& s, u64 n, int kind) {
  s.heaplive++;
  if (n > (64u << 20)) fail(s, "memory", "allocation of " + std::to_string(n) + " bytes");
  if (s.reuse) { auto& fl = T(s).freel[n]; if (!fl.empty()) { u32 id = fl.back(); fl.pop_back(); Obj* o = wobj(s, id); o->dead = false; o->d.assign(n, 0); o->st.assign(n, B_UNINIT); o->sy.clear(); o->alloc = kind; return ADDR(id); } }
  u32 id = newobj(s, n, OB_HEAP); wobj(s, id)->alloc = kind; return ADDR(id);
}
template <int K> static NR n_malloc(State& s, Inst&, std::vector<V>& a, V& ret) { ret = V::mki(heap_alloc(s, ci(s, a[0]), K), 64); return N_DONE; }
static NR n_calloc(State& s, Inst&, std::vector<V>& a, V& ret) { u64 n = ci(s, a[0]) * ci(s, a[1]); u64 p = heap_alloc(s, n, 0); Obj* o = wobj(s, (u32)OBJ(p)); std::fill(o->st.begin(), o->st.end(), B_CONC); ret = V::mki(p, 64); return N_DONE; }
template <int K> static NR n_free(State& s, Inst&, std::vector<V>& a, V&) {
  u64 p = ci(s, a[0]); if (!p) return N_DONE; const Obj* o = robj(s, (u32)OBJ(p));
  if (!o || (u32)p || o->kind != OB_HEAP) fail(s, "memory", "free of a pointer that is not a heap block");
  if (o->dead) fail(s, "memory", "double free"); if (o->alloc != K) fail(s, "memory", "mismatched allocation and deallocation");
  Obj* q = wobj(s, (u32)OBJ(p)); q->dead = true; s.heaplive--; if (s.reuse) T(s).freel[q->size].push_back(q->id); q->d.clear(); q->st.clear(); q->sy.clear(); return N_DONE;
}
static NR n_realloc(State& s, Inst& in, std::vector<V>& a, V& ret) {
  u64 p = ci(s, a[0]), n = ci(s, a[1]), q = heap_alloc(s, n, 0); if (p) { const Obj* o = robj(s, (u32)OBJ(p)); if (!o || o->dead || o->kind != OB_HEAP) fail(s, "memory", "realloc of a pointer that is not a heap block"); copy_bytes(s, q, p, std::min<u64>(n, o->size)); std::vector<V> f{a[0]}; V r; n_free<0>(s, in, f, r); } ret = V::mki(q, 64); return N_DONE; }
static NR n_memcpy(State& s, Inst&, std::vector<V>& a, V& ret) { u64 n = ci(s, a[2]); u64 d = n ? resolve_addr(s, a[0], n, true) : 0, c = n ? resolve_addr(s, a[1], n, false) : 0; copy_bytes(s, d, c, n); ret = a[0]; return N_DONE; }
static NR n_memset(State& s, Inst&, std::vector<V>& a, V& ret) {
  u64 n = ci(s, a[2]); ret = a[0]; if (!n) return N_DONE; u64 d = resolve_addr(s, a[0], n, true); u32 id; u64 off; checked_obj(s, d, n, true, id, off); Obj* o = wobj(s, id); E e = a[1].ex(); e = mkextract(e, 7, 0);
  for (u64 i = 0; i < n; i++) { if (e->op == O_CONST) wr_byte(o, off + i, B_CONC, (u8)e->c, nullptr, 0); else wr_byte(o, off + i, B_SYM, 0, e, 0); } return N_DONE; }
static NR n_memcmp(State& s, Inst& in, std::vector<V>& a, V& ret) {
  u64 n = ci(s, a[2]); u64 x = n ? ci(s, a[0]) : 0, y = n ? ci(s, a[1]) : 0; E r = mkc(0, 32);
  for (i64 i = (i64)n - 1; i >= 0; i--) { E p = rd_u8(s, x + i).ex(), q = rd_u8(s, y + i).ex(); r = mkite(mk(O_EQ, 1, p, q), r, mkite(mk(O_ULT, 1, p, q), mkc((u128)-1, 32), mkc(1, 32))); }
  ret = V::mke(r); return N_DONE; }
static NR n_nop(State&, Inst& in, std::vector<V>& a, V& ret) { if (in.ty && in.ty->k == T_INT) ret = V::mki(0, in.ty->bits); else if (in.ty && in.ty->k == T_PTR) ret = a.empty() ? V::mki(0, 64) : a[0]; return N_DONE; }
static NR n_first(State&, Inst&, std::vector<V>& a, V& ret) { ret = a[0]; return N_DONE; }
static NR n_terminate(State& s, Inst&, std::vector<V>&, V&) { fail(s, "terminate", "std::terminate or abort"); }
static NR n_trap(State& s, Inst&, std::vector<V>&, V&) { fail(s, "terminate", "trap"); }
template <Op OP, bool MX> static NR n_minmax(State&, Inst&, std::vector<V>& a, V& ret) { E x = a[0].ex(), y = a[1].ex(); E lt = mk(OP, 1, x, y); ret = V::mke(MX ? mkite(lt, y, x) : mkite(lt, x, y)); return N_DONE; }
static NR n_abs(State&, Inst&, std::vector<V>& a, V& ret) { E x = a[0].ex(); ret = V::mke(mkite(mk(O_SLT, 1, x, mkc(0, x->w)), mk(O_SUB, x->w, mkc(0, x->w), x), x)); return N_DONE; }
static NR n_ctlz(State&, Inst&, std::vector<V>& a, V& ret) { E x = a[0].ex(); unsigned w = x->w; E r = mkc(w, w); for (unsigned i = 0; i < w; i++) r = mkite(mkextract(x, i, i), mkc(w - 1 - i, w), r); ret = V::mke(r); return N_DONE; }
static NR n_cttz(State&, Inst&, std::vector<V>& a, V& ret) { E x = a[0].ex(); unsigned w = x->w; E r = mkc(w, w); for (int i = w - 1; i >= 0; i--) r = mkite(mkextract(x, i, i), mkc(i, w), r); ret = V::mke(r); return N_DONE; }
static NR n_ctpop(State&, Inst&, std::vector<V>& a, V& ret) { E x = a[0].ex(); unsigned w = x->w; E r = mkc(0, w); for (unsigned i = 0; i < w; i++) r = mk(O_ADD, w, r, mkzext(mkextract(x, i, i), w)); ret = V::mke(r); return N_DONE; }
static NR n_bswap(State&, Inst&, std::vector<V>& a, V& ret) { E x = a[0].ex(); unsigned w = x->w; E r = mkextract(x, 7, 0); for (unsigned i = 8; i < w; i += 8) r = mkconcat(r, mkextract(x, i + 7, i)); ret = V::mke(r); return N_DONE; }
template <bool L> static NR n_fsh(State& s, Inst&, std::vector<V>& a, V& ret) { unsigned w = a[0].w; u64 k = ci(s, a[2]) % w; E c = mkconcat(a[0].ex(), a[1].ex()); unsigned sh = L ? w - k : k; if (L && k == 0) { ret = a[0]; return N_DONE; } if (!L && k == 0) { ret = a[1]; return N_DONE; } ret = V::mke(mkextract(c, sh + w - 1, sh)); return N_DONE; }
static V aggp(const V& x, const V& y) { V v; v.k = V::AGG; v.agg = std::make_shared<std::vector<V>>(); v.agg->push_back(x); v.agg->push_back(y); return v; }
template <Op OP, bool SG> static NR n_ovf(State&, Inst&, std::vector<V>& a, V& ret) {
  unsigned w = a[0].w; E x = a[0].ex(), y = a[1].ex(); E r = mk(OP, w, x, y); unsigned W = OP == O_MUL ? 2 * w : w + 1; if (W > 128) W = 128;
  E X = SG ? mksext(x, W) : mkzext(x, W), Y = SG ? mksext(y, W) : mkzext(y, W), R = mk(OP, W, X, Y); E ext = SG ? mksext(r, W) : mkzext(r, W);
  ret = aggp(V::mke(r), V::mke(mknot(mk(O_EQ, 1, R, ext)))); return N_DONE; }
template <bool ADD, bool SG> static NR n_sat(State&, Inst&, std::vector<V>& a, V& ret) {
  unsigned w = a[0].w; E x = a[0].ex(), y = a[1].ex(); E r = mk(ADD ? O_ADD : O_SUB, w, x, y);
  if (!SG) { if (ADD) ret = V::mke(mkite(mk(O_ULT, 1, r, x), mkc(~(u128)0, w), r)); else ret = V::mke(mkite(mk(O_ULT, 1, x, y), mkc(0, w), r)); return N_DONE; }
  E X = mksext(x, w + 1), Y = mksext(y, w + 1), R = mk(ADD ? O_ADD : O_SUB, w + 1, X, Y), ext = mksext(r, w + 1); E ov = mknot(mk(O_EQ, 1, R, ext)); E neg = mkextract(R, w, w);
  ret = V::mke(mkite(ov, mkite(neg, mkc((u128)1 << (w - 1), w), mkc(((u128)1 << (w - 1)) - 1, w)), r)); return N_DONE; }
static E fewvalues(State& s, E e) { if (e->op == O_FCONST) return e; XI k = xint(e); if (k.ok && k.hi - k.lo <= 64) return mkfc(concf(s, e), e->w); return e; } // one path per value of a small whole argument
template <int C> static NR n_fun1(State& s, Inst&, std::vector<V>& a, V& ret) { ret = V::mke(mkfun(C, a[0].w, fewvalues(s, a[0].ex()), nullptr)); return N_DONE; }
template <int C> static NR n_fun2(State& s, Inst&, std::vector<V>& a, V& ret) { ret = V::mke(mkfun(C, a[0].w, fewvalues(s, a[0].ex()), fewvalues(s, a[1].ex()))); return N_DONE; }
template <int M> static NR n_frnd(State&, Inst&, std::vector<V>& a, V& ret) { ret = V::mke(mkf(O_FRND, a[0].w, a[0].ex(), nullptr, nullptr, M)); return N_DONE; }
static NR n_fabs(State&, Inst&, std::vector<V>& a, V& ret) { ret = V::mke(mkf(O_FABS, a[0].w, a[0].ex())); return N_DONE; }
static NR n_fma(State&, Inst&, std::vector<V>& a, V& ret) { ret = V::mke(mkf(O_FADD, a[0].w, mkf(O_FMUL, a[0].w, a[0].ex(), a[1].ex()), a[2].ex())); return N_DONE; }
template <bool MX> static NR n_fminmax(State&, Inst&, std::vector<V>& a, V& ret) { E x = a[0].ex(), y = a[1].ex(); unsigned w = a[0].w; E nx = mk(O_FUNO, 1, x, x), ny = mk(O_FUNO, 1, y, y); E lt = mk(O_FLT, 1, x, y); E r = MX ? mkite(lt, y, x) : mkite(lt, x, y); (void)w; ret = V::mke(mkite(nx, y, mkite(ny, x, r))); return N_DONE; }
static NR n_fpclass(State& s, Inst&, std::vector<V>& a, V& ret) { // llvm.is.fpclass
  E x = a[0].ex(); u64 m = ci(s, a[1]); unsigned w = a[0].w; E r = mkc(0, 1); E nan = mk(O_FUNO, 1, x, x); E inf = mkfc(INFINITY, w), ninf = mkfc(-INFINITY, w);
  if (m & 3) r = mkor(r, nan); if (m & 0x200) r = mkor(r, mk(O_FEQ, 1, x, inf)); if (m & 4) r = mkor(r, mk(O_FEQ, 1, x, ninf)); if ((m & 0x1f8) == 0x1f8) r = mkor(r, mkand(mk(O_FLT, 1, x, inf), mk(O_FLT, 1, ninf, x))); else if (m & 0x1f8) kill_("is.fpclass", true);
  ret = V::mke(r); return N_DONE; }
static NR n_typeid(State&, Inst&, std::vector<V>& a, V& ret) { ret = V::mki(OBJ((u64)a[0].i), 32); return N_DONE; }
// exceptions
static NR n_allocexc(State& s, Inst&, std::vector<V>& a, V& ret) { u32 id = newobj(s, ci(s, a[0]), OB_HEAP); ret = V::mki(ADDR(id), 64); return N_DONE; }
static NR n_throw(State& s, Inst&, std::vector<V>& a, V&) { ExcInfo e; e.obj = ci(s, a[0]); e.ti = ci(s, a[1]); e.dtor = ci(s, a[2]); s.exc.push_back(e); unwind(s, e.obj); return N_UNWOUND; }
static NR n_begincatch(State& s, Inst&, std::vector<V>& a, V& ret) { u64 o = ci(s, a[0]); T(s).caught.push_back(o); for (auto& e : s.exc) if (e.obj == o) e.rethrown = false; 
  ret = a[0]; for (auto& e : s.exc) if (e.obj == o) { std::string n = ti_name(s, e.ti); if (n[0] == 'P') ret = V::mki(rd_u64(s, o), 64); } return N_DONE; }
static NR n_endcatch(State& s, Inst& in, std::vector<V>&, V&) {
  auto& t = T(s); if (t.caught.empty()) kill_("end_catch", true); u64 o = t.caught.back(); t.caught.pop_back();
  for (size_t i = 0; i < s.exc.size(); i++) if (s.exc[i].obj == o) { if (s.exc[i].rethrown || std::count(t.caught.begin(), t.caught.end(), o)) return N_DONE; ExcInfo e = s.exc[i]; s.exc.erase(s.exc.begin() + i);
    if (e.dtor) { auto it = mod.faddr.find(e.dtor); if (it != mod.faddr.end() && it->second->defined) { bool inv = in.op == I_INVOKE; push_call(s, it->second, {V::mki(o, 64)}, -1, nullptr, inv); return N_PUSHED; } } return N_DONE; }
  return N_DONE; }
static NR n_rethrow(State& s, Inst&, std::vector<V>&, V&) { auto& t = T(s); if (t.caught.empty()) fail(s, "terminate", "rethrow without exception"); u64 o = t.caught.back(); for (auto& e : s.exc) if (e.obj == o) e.rethrown = true; unwind(s, o); return N_UNWOUND; }
static NR n_uncaught(State& s, Inst& in, std::vector<V>&, V& ret) { int n = 0; for (auto& e : s.exc) { bool c = false; for (auto& t : s.th) for (u64 o : t->caught) if (o == e.obj) c = true; if (!c) n++; } ret = V::mki(in.ty->bits == 1 ? n > 0 : n, in.ty->bits); return N_DONE; }
static NR n_atexit(State&, Inst&, std::vector<V>&, V& ret) { ret = V::mki(0, 32); return N_DONE; }
static NR n_dyncast(State& s, Inst&, std::vector<V>& a, V& ret) {
  u64 p = ci(s, a[0]), src = ci(s, a[1]), dst = ci(s, a[2]); u64 vp = rd_u64(s, p); i64 top = (i64)rd_u64(s, vp - 16); u64 ti = rd_u64(s, vp - 8); u64 whole = p + top; (void)src;
  i64 off = find_base(s, ti, dst, whole); if (off < 0) ret = V::mki(0, 64); else ret = V::mki(whole + off, 64); return N_DONE; }
static NR n_pure(State& s, Inst&, std::vector<V>&, V&) { fail(s, "terminate", "pure virtual call"); }
// mutexes: first word of the mutex object holds owner + 1, of recursive ones the second how often more it is held
static bool recursive(State& s, u64 m) { return (rd_u64(s, m + 16) & 3) == 1; }
static NR n_lock(State& s, Inst&, std::vector<V>& a, V& ret) {
  u64 m = ci(s, a[0]); point(s); ret = V::mki(0, 32); u64 o = rd_u64(s, m) & 0xffffffff;
  if (o == (u64)s.cur + 1 && recursive(s, m)) { T(s).ops++; wr_int(s, m + 4, (rd_u64(s, m) >> 32) + 1, 4); return N_DONE; }
  if (o) { if (s.th.size() == 1 || o == (u64)s.cur + 1) fail(s, "deadlock", "lock of a mutex this thread already holds"); T(s).blocked = m; T(s).granted = false; schedule(s, true); throw Redo{}; }
  T(s).ops++; wr_int(s, m, s.cur + 1, 4); hold(s, m, true); acquires(s, m); return N_DONE; }
static NR n_trylock(State& s, Inst&, std::vector<V>& a, V& ret) { u64 m = ci(s, a[0]); point(s); T(s).ops++; u64 o = rd_u64(s, m) & 0xffffffff; if (o == (u64)s.cur + 1 && recursive(s, m)) { wr_int(s, m + 4, (rd_u64(s, m) >> 32) + 1, 4); ret = V::mki(0, 32); return N_DONE; } if (o) { ret = V::mki(16, 32); return N_DONE; } wr_int(s, m, s.cur + 1, 4); hold(s, m, true); acquires(s, m); ret = V::mki(0, 32); return N_DONE; }
static NR n_unlock(State& s, Inst&, std::vector<V>& a, V& ret) { u64 m = ci(s, a[0]); point(s); T(s).ops++; u64 o = rd_u64(s, m) & 0xffffffff; if (o != (u64)s.cur + 1) fail(s, "deadlock", "unlock of a mutex not held by this thread"); ret = V::mki(0, 32); if (recursive(s, m)) if (u64 c = rd_u64(s, m) >> 32) { wr_int(s, m + 4, c - 1, 4); return N_DONE; } wr_int(s, m, 0, 4); hold(s, m, false); releases(s, m); for (auto& t : s.th) if (t->blocked == m) t.mut()->blocked = 0; ret = V::mki(0, 32); return N_DONE; }
// locks for many readers or one writer: the first word counts the readers, the second holds the writer + 1; a reader owns a token of its own, the writer all of them
static void rwhold(State& s, u64 m, bool on, bool w) { for (int i = 0; i < 8; i++) if (w || i == s.cur % 8) hold(s, m + 8 + i, on); }
static bool rwwait(State& s, u64 m, bool w, bool tries) {
  u64 x = rd_u64(s, m), r = x & 0xffffffff, o = x >> 32; if (!o && !(w && r)) return false; if (tries) return true;
  if (s.th.size() == 1 || o == (u64)s.cur + 1) fail(s, "deadlock", "lock of a shared mutex this thread already holds"); T(s).blocked = m; T(s).granted = false; schedule(s, true); throw Redo{}; }
template <bool W, bool TRY> static NR n_rwlock(State& s, Inst&, std::vector<V>& a, V& ret) {
  u64 m = ci(s, a[0]); point(s); if (rwwait(s, m, W, TRY)) { T(s).ops++; ret = V::mki(16, 32); return N_DONE; }
  T(s).ops++; if (W) wr_int(s, m + 4, s.cur + 1, 4); else wr_int(s, m, (rd_u64(s, m) & 0xffffffff) + 1, 4); rwhold(s, m, true, W); acquires(s, m); if (W) acquires(s, m + 4); ret = V::mki(0, 32); return N_DONE; }
static NR n_rwunlock(State& s, Inst&, std::vector<V>& a, V& ret) {
  u64 m = ci(s, a[0]); point(s); T(s).ops++; u64 x = rd_u64(s, m), r = x & 0xffffffff; bool w = (x >> 32) == (u64)s.cur + 1; if (!w && !r) fail(s, "deadlock", "unlock of a shared mutex nobody holds");
  if (w) wr_int(s, m + 4, 0, 4); else wr_int(s, m, r - 1, 4); rwhold(s, m, false, w); releases(s, w ? m : m + 4); for (auto& t : s.th) if (t->blocked == m) t.mut()->blocked = 0; ret = V::mki(0, 32); return N_DONE; }
// function statics: the second byte of the guard says that somebody is initializing
static NR n_guard_acq(State& s, Inst&, std::vector<V>& a, V& ret) {
  u64 g = ci(s, a[0]); point(s); V d = rd_u8(s, g), o = rd_u8(s, g + 1); if (d.i) { acquires(s, g); T(s).ops++; ret = V::mki(0, 32); return N_DONE; }
  if (o.i) { if (s.th.size() == 1 || o.i == (u128)s.cur + 1) fail(s, "deadlock", "recursive initialization of a static"); T(s).blocked = g; T(s).granted = false; schedule(s, true); throw Redo{}; }
  T(s).ops++; wr_int(s, g + 1, s.cur + 1, 1); hold(s, g, true); acquires(s, g); ret = V::mki(1, 32); return N_DONE; }
template <int DONE> static NR n_guard_rel(State& s, Inst&, std::vector<V>& a, V&) { u64 g = ci(s, a[0]); point(s); T(s).ops++; wr_int(s, g, DONE, 1); wr_int(s, g + 1, 0, 1); hold(s, g, false); releases(s, g); for (auto& t : s.th) if (t->blocked == g) t.mut()->blocked = 0; return N_DONE; }
// atomics of other sizes (library calls): one visible operation each
static NR n_aload(State& s, Inst&, std::vector<V>& a, V&) { point(s); T(s).ops++; acquires(s, ci(s, a[1])); copy_bytes(s, ci(s, a[2]), ci(s, a[1]), ci(s, a[0])); return N_DONE; }
static NR n_astore(State& s, Inst&, std::vector<V>& a, V&) { point(s); T(s).ops++; copy_bytes(s, ci(s, a[1]), ci(s, a[2]), ci(s, a[0])); acquires(s, ci(s, a[1])); releases(s, ci(s, a[1])); return N_DONE; }
static NR n_axchg(State& s, Inst&, std::vector<V>& a, V&) { point(s); T(s).ops++; copy_bytes(s, ci(s, a[3]), ci(s, a[1]), ci(s, a[0])); copy_bytes(s, ci(s, a[1]), ci(s, a[2]), ci(s, a[0])); acquires(s, ci(s, a[1])); releases(s, ci(s, a[1])); return N_DONE; }
static NR n_acas(State& s, Inst&, std::vector<V>& a, V& ret) {
  point(s); u64 n = ci(s, a[0]), p = ci(s, a[1]), e = ci(s, a[2]), d = ci(s, a[3]); E eq = mkc(1, 1); for (u64 i = 0; i < n; i++) eq = mkand(eq, mk(O_EQ, 1, rd_u8(s, p + i).ex(), rd_u8(s, e + i).ex()));
  bool ok = branch(s, eq); T(s).ops++; if (ok) copy_bytes(s, p, d, n); else copy_bytes(s, e, p, n); acquires(s, p); releases(s, p); ret = V::mki(ok, 1); return N_DONE; }
static NR n_yield(State& s, Inst&, std::vector<V>&, V& ret) { yields(s); T(s).ops++; ret = V::mki(0, 32); return N_DONE; }
static NR n_vastart(State& s, Inst&, std::vector<V>& a, V&) {
  Frame& f = F(s); u64 size = 0; std::vector<std::pair<u64, V>> lay; for (auto& v : f.va) { if (v.k == V::F && v.w == 80) { size = (size + 15) / 16 * 16; lay.push_back({size, v}); size += 16; } else { lay.push_back({size, v}); size += 8; } }
  std::vector<std::pair<u64, V>> l2 = lay; u32 id = newobj(s, size + 16, OB_STACK); F(s).allocas.push_back(id);
  for (auto& p : l2) { Type t; t.k = p.second.k == V::F ? T_FP : T_INT; t.bits = p.second.w; t.size = (t.bits + 7) / 8; t.sized = true; wr_val(s, id, p.first, &t, p.second); }
  u64 va = ci(s, a[0]); wr_int(s, va, 48, 4); wr_int(s, va + 4, 176, 4); wr_int(s, va + 8, ADDR(id), 8); wr_int(s, va + 16, 0, 8); return N_DONE; }
static V arm(State& s, V v) { while (!v.conc() && v.e->op == O_ITE) v = V::mke(branch(s, v.e->a) ? v.e->b : v.e->d); return v; }
static NR n_charslen(State& s, Inst& in, std::vector<V>& a, V& ret) {
  if ((u64)ci(s, a[1]) != 10) kill_("base of digits", true); V v = arm(s, a[0]); if (v.conc()) { u64 x = (u64)maskw((u128)v.i, v.w); u64 n = 1; while (x /= 10) n++; ret = V::mki(n, 32); return N_DONE; }
  u128 p = 10; for (unsigned n = 1;; n++, p *= 10) if (p > maskw(~(u128)0, v.w) || branch(s, mk(O_ULT, 1, v.e, mkc(p, v.w)))) { ret = V::mki(n, 32); return N_DONE; }
}
// the decimal digits of a number that is known to have so many: they become variables bound to the number
static std::vector<E> digits(State& s, E v, u64 len) {
  std::vector<E> out; E rest = v; if (len == 20) { rest = mk(O_SUB, 64, v, mkc(10000000000000000000ull, 64)); out.push_back(mkc('1', 8)); }
  std::vector<E> d; bool known = false; u64 n = len - out.size(); std::string nm = "digit!" + std::to_string(v->id) + "!" + std::to_string(len) + "!";
  for (u64 i = 0; i < n; i++) { E e = mkvar(nm + std::to_string(i), 4, false); auto& vi = g_vars[(u32)e->c]; vi.ranged = true; vi.lo = 0; vi.hi = 9; d.push_back(e); }
  for (E p : s.pc) if (std::binary_search(p->vars->v.begin(), p->vars->v.end(), (u32)d[0]->c)) known = true;
  if (!known) { Eval ev(*s.model); u64 x = (u64)ev.ev(rest).i; auto m = std::make_shared<Model>(); m->v = s.model->v; if (m->v.size() < g_vars.size()) m->v.resize(g_vars.size()); for (u64 i = n; i-- > 0; x /= 10) { MVal q; q.i = x % 10; m->v[(u32)d[i]->c] = q; } s.model = m; }
  NoFold nf; E sum = mkzext(d[0], 64); for (u64 i = 1; i < n; i++) sum = mk(O_ADD, 64, mk(O_MUL, 64, sum, mkc(10, 64)), mkzext(d[i], 64));
  if (!known) { for (E e : d) if (!assume(s, mk(O_ULE, 1, e, mkc(9, 4)))) kill_("digit", false);
    for (;;) { // solved for the variable inside, so that the solver can replace it
      if (rest->op == O_ADD && rest->b->op == O_CONST) { sum = mk(O_SUB, 64, sum, rest->b); rest = rest->a; } else if (rest->op == O_XOR && rest->b->op == O_CONST) { sum = mk(O_XOR, 64, sum, rest->b); rest = rest->a; } else if (rest->op == O_SUB && rest->a->op == O_CONST) { sum = mk(O_SUB, 64, rest->a, sum); rest = rest->b; } else break; }
    if (!assume(s, mk(O_EQ, 1, rest, sum))) kill_("digits", false); }
  for (E e : d) out.push_back(mk(O_ADD, 8, mkzext(e, 8), mkc('0', 8)));
  return out;
}
static unsigned ndigits(State& s, E v, unsigned least = 1) { u128 p = 1; for (unsigned i = 0; i < least; i++) p *= 10; for (unsigned n = least;; n++, p *= 10) if (p > maskw(~(u128)0, v->w) || branch(s, mk(O_ULT, 1, v, mkc(p, v->w)))) return n; }
static void wr_chars(State& s, u64 at, const std::vector<E>& cs) { static Type t8; t8.k = T_INT; t8.bits = 8; t8.size = 1; t8.sized = true; for (size_t i = 0; i < cs.size(); i++) if (cs[i]->op == O_CONST) wr_int(s, at + i, (u64)cs[i]->c, 1); else do_store(s, V::mki(at + i, 64), &t8, V::mke(cs[i])); }
// std::to_string and the streams count and write the digits of a number with these functions
static NR n_tochars(State& s, Inst&, std::vector<V>& a, V&) {
  u64 buf = ci(s, a[0]), len = ci(s, a[1]); V v = arm(s, a[2]); if (len < 1 || len > 20) kill_("digits", true);
  if (v.conc()) { u64 x = (u64)maskw((u128)v.i, v.w); for (u64 i = 0; i < len; i++, x /= 10) wr_int(s, buf + len - 1 - i, '0' + x % 10, 1); }
  else wr_chars(s, buf, digits(s, mkzext(v.e, 64), len));
  return N_DONE;
}
template <bool S> static NR n_tostring(State& s, Inst& in, std::vector<V>& a, V&) { // std::to_string of an integer
  u64 at = ci(s, a[0]); V v = arm(s, a[1]); std::vector<E> t;
  if (v.conc()) { u64 x = (u64)maskw((u128)v.i, v.w); std::string d = S ? std::to_string((i64)sgn(x, v.w)) : std::to_string(x); for (char c : d) t.push_back(mkc((u8)c, 8)); }
  else { E x = v.e; bool neg = S && branch(s, mk(O_SLT, 1, x, mkc(0, x->w))); E m = neg ? mk(O_SUB, x->w, mkc(0, x->w), x) : x; unsigned n = ndigits(s, m); if (neg) t.push_back(mkc('-', 8)); for (E e : digits(s, mkzext(m, 64), n)) t.push_back(e); }
  u64 p = at + 16; if (t.size() > 15) { V r; std::vector<V> b{V::mki(t.size() + 1, 64)}; n_malloc<1>(s, in, b, r); p = (u64)r.i; wr_int(s, at + 16, t.size(), 8); }
  wr_int(s, at, p, 8); wr_int(s, at + 8, t.size(), 8); t.push_back(mkc(0, 8)); wr_chars(s, p, t); return N_DONE;
}
// "%f" of a number that is a whole number of fractions 1 / 2^k: six decimals, rounded half to even
static bool fixed6(State& s, E e, std::vector<E>& out) {
  while (e->op == O_FITE) e = branch(s, e->a) ? e->b : e->d;
  XI x = xint(e); if (!x.ok || x.s < 0 || x.s > 40) return false; i128 lim = (i128)1 << (x.s > 6 ? 48 : 38); if (x.lo < -lim || x.hi > lim) return false; E n = xbuild(e, x.s, 64); if (n->op == O_CONST) return false;
  if (branch(s, mk(O_EQ, 1, n, mkc(0, 64)))) return false; // the sign of zero is not kept
  bool neg = branch(s, mk(O_SLT, 1, n, mkc(0, 64))); E m = mk(O_MUL, 64, neg ? mk(O_SUB, 64, mkc(0, 64), n) : n, mkc((u64)15625 << (x.s > 6 ? 0 : 6 - x.s), 64));
  if (x.s > 6) { int k = x.s - 6; E q = mk(O_LSHR, 64, m, mkc(k, 64)), rem = mk(O_AND, 64, m, mkc(((u64)1 << k) - 1, 64)), half = mkc((u64)1 << (k - 1), 64); E up = mkor(mk(O_ULT, 1, half, rem), mkand(mk(O_EQ, 1, half, rem), mkextract(q, 0, 0))); m = mk(O_ADD, 64, q, mkzext(up, 64)); }
  unsigned len = ndigits(s, m, 7); auto d = digits(s, m, len);
  if (neg) out.push_back(mkc('-', 8)); for (unsigned i = 0; i < len; i++) { if (i == len - 6) out.push_back(mkc('.', 8)); out.push_back(d[i]); } return true;
}
static NR n_vsnprintf(State& s, Inst&, std::vector<V>& a, V& ret) {
  u64 buf = ci(s, a[0]), cap = ci(s, a[1]); std::string fmt = cstr(s, ci(s, a[2])); u64 va = ci(s, a[3]); u64 ov = rd_u64(s, va + 8); std::vector<E> out; auto put = [&](const std::string& t) { for (char c : t) out.push_back(mkc((u8)c, 8)); };
  auto rdT = [&](TK k, unsigned bits) { Type t; t.k = k; t.bits = bits; t.size = bits == 80 ? 16 : bits / 8; t.sized = true; u32 id; u64 off; checked_obj(s, ov, t.store(), false, id, off); return rd_bytes(s, id, off, &t); };
  for (size_t i = 0; i < fmt.size(); i++) {
    if (fmt[i] != '%') { put(std::string(1, fmt[i])); continue; } if (fmt[i + 1] == '%') { put("%"); i++; continue; }
    std::string sp = "%"; size_t j = i + 1; int lng = 0; bool L = false;
    while (j < fmt.size() && !isalpha((unsigned char)fmt[j])) { if (fmt[j] == '*') { V v = rdT(T_INT, 32); ov += 8; sp += std::to_string((int)sgn(ci(s, v), 32)); } else sp += fmt[j]; j++; }
    while (fmt[j] == 'l' || fmt[j] == 'L' || fmt[j] == 'z' || fmt[j] == 'h' || fmt[j] == 'j') { if (fmt[j] == 'l' || fmt[j] == 'z' || fmt[j] == 'j') lng++; if (fmt[j] == 'L') L = true; j++; }
    char c = fmt[j]; char tmp[6000];
    if (strchr("dixXuoc", c)) { V v = rdT(T_INT, lng ? 64 : 32); ov += 8; u64 x = ci(s, v); if (c == 'c') snprintf(tmp, sizeof tmp, (sp + "c").c_str(), (int)x); else if (c == 'd' || c == 'i') snprintf(tmp, sizeof tmp, (sp + "lld").c_str(), (long long)(lng ? (i64)x : (i64)(int32_t)x)); else snprintf(tmp, sizeof tmp, (sp + "ll" + c).c_str(), (unsigned long long)x); }
    else if (strchr("fFeEgGaA", c)) { if (L) ov = (ov + 15) / 16 * 16; V v = rdT(T_FP, L ? 80 : 64); ov += L ? 16 : 8; if (!v.conc() && sp == "%" && c == 'f' && fixed6(s, v.e, out)) { i = j; continue; } if (L) { long double x = v.conc() ? v.f : concf(s, v.e); snprintf(tmp, sizeof tmp, (sp + "L" + c).c_str(), x); } else { double x = v.conc() ? (double)v.f : (double)concf(s, v.e); snprintf(tmp, sizeof tmp, (sp + c).c_str(), x); } }
    else if (c == 's') { V v = rdT(T_PTR, 64); ov += 8; std::string str = cstr(s, ci(s, v)); snprintf(tmp, sizeof tmp, (sp + "s").c_str(), str.c_str()); }
    else kill_("vsnprintf format " + fmt, true);
    put(tmp); i = j;
  }
  u32 n = out.size(); if (cap) { if (out.size() >= cap) out.resize(cap - 1); out.push_back(mkc(0, 8)); wr_chars(s, buf, out); }
  ret = V::mki(n, 32); return N_DONE;
}
static NR n_ptrmask(State&, Inst&, std::vector<V>& a, V& ret) { ret = V::mke(mk(O_AND, 64, a[0].ex(), a[1].ex())); return N_DONE; }
static NR n_tls(State& s, Inst&, std::vector<V>& a, V& ret) {
  u32 id = (u32)OBJ((u64)a[0].i); if (s.cur == 0) { ret = a[0]; return N_DONE; }
  auto k = std::make_pair(s.cur, id); auto it = s.tls.find(k);
  if (it == s.tls.end()) { Global* g = nullptr; for (auto& x : mod.globals) if (x.objid == id) g = &x; u32 n = newobj(s, g->ty->size, OB_GLOBAL); Obj* o = wobj(s, n); std::fill(o->st.begin(), o->st.end(), B_CONC); if (g->hasinit) wr_val(s, n, 0, g->ty, g->init); s.tls[k] = n; it = s.tls.find(k); }
  ret = V::mki(ADDR(it->second), 64); return N_DONE; }
static NR n_atomic16(State& s, Inst&, std::vector<V>&, V&) { kill_("16 byte atomic", true); }
static NR n_copysign(State&, Inst&, std::vector<V>& a, V& ret) { unsigned w = a[0].w; E y = mk(O_FBITS, w, a[1].ex()); E sg = mkextract(y, w - 1, w - 1); E ab = mkf(O_FABS, w, a[0].ex()); ret = V::mke(mkite(sg, mkf(O_FNEG, w, ab), ab)); return N_DONE; }
static NR n_threw(State& s, Inst&, std::vector<V>&, V&) { kill_("libstdc++ throw helper", true); }
static NR n_vstask(State& s, Inst&, std::vector<V>& a, V& ret) { // vs_feasible(cond): may cond hold? (reachability witness, no fork)
  ret = V::mki(may(s, b1(a[0])) ? 1 : 0, 32); return N_DONE; }
static NR n_end(State& s, Inst&, std::vector<V>&, V&) { kill_("end", false); }

static void init_natives() {
  auto& n = natives;
  n["vs_sym_bits"] = n_sym; n["vs_range"] = n_range; n["vs_fp_range"] = n_double; n["vs_assume"] = n_assume; n["vs_assert"] = n_assert; n["vs_assert_k"] = n_assert_k; n["vs_concretize"] = n_conc; n["vs_cover"] = n_cover; n["vs_choose"] = n_choose;
  n["vs_thread"] = n_thread; n["vs_join"] = n_join; n["vs_flag"] = n_flag; n["vs_note"] = n_note; n["vs_heap_live"] = n_heap; n["vs_stack"] = n_stack; n["llvm.stacksave"] = n["llvm.stacksave.p0"] = n_stacksave; n["llvm.stackrestore"] = n["llvm.stackrestore.p0"] = n_stackrestore; n["vs_is_symbolic"] = n_isengine; n["vs_feasible"] = n_vstask; n["vs_yield"] = n_yield; n["vs_stop"] = n_end;
  n["malloc"] = n_malloc<0>; n["calloc"] = n_calloc; n["free"] = n_free<0>;
  for (auto x : {"_Znwm", "_ZnwmRKSt9nothrow_t", "_ZnwmSt11align_val_t"}) n[x] = n_malloc<1>; for (auto x : {"_Znam", "_ZnamSt11align_val_t", "_ZnamRKSt9nothrow_t"}) n[x] = n_malloc<2>;
  for (auto x : {"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t"}) n[x] = n_free<1>; for (auto x : {"_ZdaPv", "_ZdaPvm", "_ZdaPvSt11align_val_t"}) n[x] = n_free<2>;
  n["memcpy"] = n_memcpy; n["memmove"] = n_memcpy; n["memset"] = n_memset; n["memcmp"] = n_memcmp; n["bcmp"] = n_memcmp;
  n["llvm.memcpy.p0.p0.i64"] = n_memcpy; n["llvm.memmove.p0.p0.i64"] = n_memcpy; n["llvm.memset.p0.i64"] = n_memset; n["llvm.memcpy.inline.p0.p0.i64"] = n_memcpy;
  for (auto x : {"llvm.lifetime.start.p0", "llvm.lifetime.end.p0", "llvm.assume", "llvm.experimental.noalias.scope.decl", "llvm.va_end", "llvm.donothing", "llvm.prefetch.p0", "llvm.stackrestore", "llvm.stackrestore.p0", "llvm.dbg.value", "llvm.dbg.declare", "llvm.stacksave", "llvm.stacksave.p0", "llvm.invariant.start.p0", "__inline_asm", "__cxa_free_exception", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "_ZNSt6localeC1Ev", "_ZNSt6localeD1Ev", "__cxa_guard_abort"}) n[x] = n_nop;
  n["llvm.expect.i1"] = n_first; n["llvm.expect.i64"] = n_first; n["llvm.launder.invariant.group.p0"] = n_first; n["llvm.strip.invariant.group.p0"] = n_first;
  n["llvm.trap"] = n_trap; n["_ZSt9terminatev"] = n_terminate; n["abort"] = n_terminate; n["__assert_fail"] = n_terminate; n["__cxa_call_unexpected"] = n_terminate; n["_ZSt21__glibcxx_assert_failPKciS0_S0_"] = n_terminate;
  for (auto w : {"8", "16", "32", "64", "128"}) { std::string i = std::string(".i") + w;
    n["llvm.umax" + i] = n_minmax<O_ULT, true>; n["llvm.umin" + i] = n_minmax<O_ULT, false>; n["llvm.smax" + i] = n_minmax<O_SLT, true>; n["llvm.smin" + i] = n_minmax<O_SLT, false>;
    n["llvm.abs" + i] = n_abs; n["llvm.ctlz" + i] = n_ctlz; n["llvm.cttz" + i] = n_cttz; n["llvm.ctpop" + i] = n_ctpop; n["llvm.bswap" + i] = n_bswap; n["llvm.fshl" + i] = n_fsh<true>; n["llvm.fshr" + i] = n_fsh<false>;
    n["llvm.uadd.with.overflow" + i] = n_ovf<O_ADD, false>; n["llvm.usub.with.overflow" + i] = n_ovf<O_SUB, false>; n["llvm.umul.with.overflow" + i] = n_ovf<O_MUL, false>; n["llvm.sadd.with.overflow" + i] = n_ovf<O_ADD, true>; n["llvm.ssub.with.overflow" + i] = n_ovf<O_SUB, true>; n["llvm.smul.with.overflow" + i] = n_ovf<O_MUL, true>;
    n["llvm.uadd.sat" + i] = n_sat<true, false>; n["llvm.usub.sat" + i] = n_sat<false, false>; n["llvm.sadd.sat" + i] = n_sat<true, true>; n["llvm.ssub.sat" + i] = n_sat<false, true>; }
  for (auto w : {"32", "64", "80"}) { std::string f = std::string(".f") + w;
    n["llvm.fabs" + f] = n_fabs; n["llvm.floor" + f] = n_frnd<0>; n["llvm.ceil" + f] = n_frnd<1>; n["llvm.trunc" + f] = n_frnd<2>; n["llvm.round" + f] = n_frnd<3>; n["llvm.rint" + f] = n_frnd<4>; n["llvm.nearbyint" + f] = n_frnd<4>; n["llvm.roundeven" + f] = n_frnd<4>;
    n["llvm.fmuladd" + f] = n_fma; n["llvm.sqrt" + f] = n_fun1<3>; n["llvm.pow" + f] = n_fun2<0>; n["llvm.exp" + f] = n_fun1<1>; n["llvm.log" + f] = n_fun1<2>; n["llvm.exp2" + f] = n_fun1<5>; n["llvm.log2" + f] = n_fun1<6>; n["llvm.is.fpclass" + f] = n_fpclass; n["llvm.copysign" + f] = n_copysign; n["llvm.minnum" + f] = n_fminmax<false>; n["llvm.maxnum" + f] = n_fminmax<true>; }
  for (std::string sfx : {"", "f", "l"}) { n["pow" + sfx] = n_fun2<0>; n["exp" + sfx] = n_fun1<1>; n["log" + sfx] = n_fun1<2>; n["sqrt" + sfx] = n_fun1<3>; n["fmod" + sfx] = n_fun2<4>; n["exp2" + sfx] = n_fun1<5>; n["log2" + sfx] = n_fun1<6>; n["expm1" + sfx] = n_fun1<7>; n["log1p" + sfx] = n_fun1<8>; n["log10" + sfx] = n_fun1<9>; n["cbrt" + sfx] = n_fun1<10>; n["hypot" + sfx] = n_fun2<11>; n["nextafter" + sfx] = n_fun2<12>; n["remainder" + sfx] = n_fun2<13>; n["fdim" + sfx] = n_fun2<14>; n["sin" + sfx] = n_fun1<15>; n["cos" + sfx] = n_fun1<16>; n["tanh" + sfx] = n_fun1<17>; n["logb" + sfx] = n_fun1<18>; n["floor" + sfx] = n_frnd<0>; n["ceil" + sfx] = n_frnd<1>; n["trunc" + sfx] = n_frnd<2>; n["round" + sfx] = n_frnd<3>; n["rint" + sfx] = n_frnd<4>; n["nearbyint" + sfx] = n_frnd<4>; n["fabs" + sfx] = n_fabs; n["fmin" + sfx] = n_fminmax<false>; n["fmax" + sfx] = n_fminmax<true>; }
  n["llvm.eh.typeid.for"] = n_typeid; n["llvm.eh.typeid.for.p0"] = n_typeid; n["__cxa_allocate_exception"] = n_allocexc; n["__cxa_throw"] = n_throw; n["__cxa_begin_catch"] = n_begincatch; n["__cxa_end_catch"] = n_endcatch; n["__cxa_rethrow"] = n_rethrow; n["__cxa_get_exception_ptr"] = n_first; n["_ZSt19uncaught_exceptionsv"] = n_uncaught; n["_ZSt18uncaught_exceptionv"] = n_uncaught;
  n["__cxa_guard_acquire"] = n_guard_acq; n["__cxa_guard_release"] = n_guard_rel<1>; n["__cxa_guard_abort"] = n_guard_rel<0>; n["__cxa_atexit"] = n_atexit; n["__cxa_thread_atexit"] = n_atexit; n["__dynamic_cast"] = n_dyncast; n["__cxa_pure_virtual"] = n_pure; n["__cxa_deleted_virtual"] = n_pure;
  n["pthread_mutex_lock"] = n_lock; n["pthread_mutex_trylock"] = n_trylock; n["pthread_mutex_timedlock"] = n_trylock; n["pthread_mutex_clocklock"] = n_trylock; n["pthread_mutex_unlock"] = n_unlock; n["pthread_mutex_init"] = n_nop; n["pthread_mutex_destroy"] = n_nop; n["sched_yield"] = n_yield; n["pthread_self"] = n_self; n["nanosleep"] = n["clock_nanosleep"] = n["usleep"] = n_yield; n["pthread_rwlock_wrlock"] = n_rwlock<true, false>; n["pthread_rwlock_rdlock"] = n_rwlock<false, false>; n["pthread_rwlock_trywrlock"] = n_rwlock<true, true>; n["pthread_rwlock_tryrdlock"] = n_rwlock<false, true>; n["pthread_rwlock_unlock"] = n_rwunlock; n["pthread_rwlock_init"] = n["pthread_rwlock_destroy"] = n["pthread_mutexattr_init"] = n["pthread_mutexattr_settype"] = n["pthread_mutexattr_destroy"] = n_nop; n["realloc"] = n_realloc; n["__atomic_load"] = n_aload; n["__atomic_store"] = n_astore; n["__atomic_exchange"] = n_axchg; n["__atomic_compare_exchange"] = n_acas;
  n["_ZNSt8__detail18__to_chars_10_implImEEvPcjT_"] = n_tochars; n["_ZNSt8__detail18__to_chars_10_implIjEEvPcjT_"] = n_tochars; n["_ZNSt8__detail18__to_chars_10_implIyEEvPcjT_"] = n_tochars;
  for (auto t : {"i", "l", "x"}) n[std::string("_ZNSt7__cxx119to_stringE") + t] = n_tostring<true>; for (auto t : {"j", "m", "y"}) n[std::string("_ZNSt7__cxx119to_stringE") + t] = n_tostring<false>;
  for (auto t : {"j", "m", "y"}) n[std::string("_ZNSt8__detail14__to_chars_lenI") + t + "EEjT_i"] = n_charslen;
  n["llvm.va_start"] = n_vastart; n["vsnprintf"] = n_vsnprintf; n["llvm.threadlocal.address.p0"] = n_tls; n["llvm.ptrmask.p0.i64"] = n_ptrmask;
}

// ---------------------------------------------------------------- instructions
static inline V val(State& s, Frame& f, const Opnd& o) { return o.reg >= 0 ? f.regs[o.reg] : o.c; }
static void setreg(State& s, int dst, const V& v) { if (dst >= 0) F(s).regs[dst] = v; }

static V bin(State& s, Inst& in, V& a, V& b) {
  if (a.k == V::AGG) { V r; r.k = V::AGG; r.agg = std::make_shared<std::vector<V>>(); for (size_t i = 0; i < a.agg->size(); i++) r.agg->push_back(bin(s, in, (*a.agg)[i], (*b.agg)[i])); return r; }
  Op op = (Op)in.sub; unsigned w = a.w;
  if (a.k == V::UNDEF) a = V::mki(0, in.ty->bits), w = in.ty->bits; if (b.k == V::UNDEF) b = V::mki(0, w);
  if (op == O_UDIV || op == O_SDIV || op == O_UREM || op == O_SREM) {
    E z = mk(O_EQ, 1, b.ex(), mkc(0, w)); 
    if (z->op == O_CONST) { if (z->c) fail(s, "arith", "integer division by zero"); }
    else { ModelP m; if (may(s, z, &m)) { if (m) report(s, "arith", "integer division by zero", m); else assert_undecided.insert("arith"); if (!assume(s, mknot(z))) kill_("div0", false); } }
    if (op == O_SDIV || op == O_SREM) { E ov = mkand(mk(O_EQ, 1, b.ex(), mkc(~(u128)0, w)), mk(O_EQ, 1, a.ex(), mkc((u128)1 << (w - 1), w))); if (!(ov->op == O_CONST && !ov->c)) { ModelP m; if (may(s, ov, &m)) { if (m) report(s, "arith", "integer division overflow", m); else assert_undecided.insert("arith"); if (!assume(s, mknot(ov))) kill_("divov", false); } } }
  }
  if (a.conc() && b.conc()) return V::mki(foldbv(op, w, a.i, b.i, w), w);
  return V::mke(mk(op, w, a.ex(), b.ex()));
}
static V fbin(State&, Inst& in, const V& a, const V& b) {
  unsigned w = a.w; if (in.sub == 1000) return V::mke(mkfun(4, w, a.ex(), b.ex()));
  return V::mke(mkf((Op)in.sub, w, a.ex(), b.ex()));
}
static E icmpE(int p, E a, E b) {
  switch (p) { case P_EQ: return mk(O_EQ, 1, a, b); case P_NE: return mknot(mk(O_EQ, 1, a, b)); case P_UGT: return mk(O_ULT, 1, b, a); case P_UGE: return mk(O_ULE, 1, b, a); case P_ULT: return mk(O_ULT, 1, a, b); case P_ULE: return mk(O_ULE, 1, a, b); case P_SGT: return mk(O_SLT, 1, b, a); case P_SGE: return mk(O_SLE, 1, b, a); case P_SLT: return mk(O_SLT, 1, a, b); default: return mk(O_SLE, 1, a, b); } }
static V icmp(int p, const V& a, const V& b) {
  if (a.conc() && b.conc()) { unsigned w = a.w; bool r; switch (p) { case P_EQ: r = a.i == b.i; break; case P_NE: r = a.i != b.i; break; case P_UGT: r = a.i > b.i; break; case P_UGE: r = a.i >= b.i; break; case P_ULT: r = a.i < b.i; break; case P_ULE: r = a.i <= b.i; break; case P_SGT: r = sgn(a.i, w) > sgn(b.i, w); break; case P_SGE: r = sgn(a.i, w) >= sgn(b.i, w); break; case P_SLT: r = sgn(a.i, w) < sgn(b.i, w); break; default: r = sgn(a.i, w) <= sgn(b.i, w); } return V::mki(r, 1); }
  return V::mke(icmpE(p, a.ex(), b.ex())); }
static V fcmp(const std::string& p, const V& a, const V& b) {
  E x = a.ex(), y = b.ex(); E uno = mk(O_FUNO, 1, x, y); E r; std::string q = p.substr(1);
  if (p == "true") return V::mki(1, 1); if (p == "false") return V::mki(0, 1); if (p == "ord") return V::mke(mknot(uno)); if (p == "uno") return V::mke(uno);
  if (q == "eq") r = mk(O_FEQ, 1, x, y); else if (q == "lt") r = mk(O_FLT, 1, x, y); else if (q == "le") r = mk(O_FLE, 1, x, y); else if (q == "gt") r = mk(O_FLT, 1, y, x); else if (q == "ge") r = mk(O_FLE, 1, y, x); else /* ne */ r = mkor(mk(O_FLT, 1, x, y), mk(O_FLT, 1, y, x));
  if (p[0] == 'u') { if (q == "ne") return V::mke(mknot(mk(O_FEQ, 1, x, y))); if (q == "lt") return V::mke(mknot(mk(O_FLE, 1, y, x))); if (q == "le") return V::mke(mknot(mk(O_FLT, 1, y, x))); if (q == "gt") return V::mke(mknot(mk(O_FLE, 1, x, y))); if (q == "ge") return V::mke(mknot(mk(O_FLT, 1, x, y))); r = mkor(r, uno); }
  return V::mke(r); }
static V cast(State& s, Inst& in, const V& a, Type* st) {
  Type* t = in.ty;
  if (t->k == T_VECTOR && st->k == T_VECTOR && in.sub != C_BITCAST) { V r; r.k = V::AGG; r.agg = std::make_shared<std::vector<V>>(); Inst i2 = in; i2.ty = t->el[0]; for (auto& x : *a.agg) r.agg->push_back(cast(s, i2, x, st->el[0])); return r; }
  switch (in.sub) {
    case C_TRUNC: return a.conc() ? V::mki(a.i, t->bits) : V::mke(mkextract(a.e, t->bits - 1, 0));
    case C_ZEXT: return a.conc() ? V::mki(a.i, t->bits) : V::mke(mkzext(a.e, t->bits));
    case C_SEXT: return a.conc() ? V::mki((u128)sgn(a.i, a.w), t->bits) : V::mke(mksext(a.e, t->bits));
    case C_FPTRUNC: case C_FPEXT: return V::mke(mkf(O_FCONV, t->bits, a.ex()));
    case C_SITOFP: return V::mke(mkf(O_SITOFP, t->bits, a.ex()));
    case C_UITOFP: return V::mke(mkf(O_UITOFP, t->bits, a.ex()));
    case C_FPTOSI: { unsigned w = t->bits, W = w < 32 ? 32 : w; E x = a.ex(); E e = mk(O_FPTOSI, W, x); if (e->op != O_CONST) { if (W <= 64) { E in = mkand(mk(O_FLT, 1, x, mkfc(ldexpl(1, W - 1), x->w)), W - 1 < (x->w == 32 ? 24 : x->w == 64 ? 53 : 64) ? mk(O_FLT, 1, mkfc(-ldexpl(1, W - 1) - 1, x->w), x) : mk(O_FLE, 1, mkfc(-ldexpl(1, W - 1), x->w), x)); e = mkite(in, e, mkc((u128)1 << (W - 1), W)); } } return V::mke(mkextract(e, w - 1, 0)); }
    case C_FPTOUI: return V::mke(mk(O_FPTOUI, t->bits, a.ex()));
    case C_PTRTOINT: case C_INTTOPTR: { unsigned w = t->k == T_PTR ? 64 : t->bits; if (w == a.w) return a; if (w < a.w) return a.conc() ? V::mki(a.i, w) : V::mke(mkextract(a.e, w - 1, 0)); return a.conc() ? V::mki(a.i, w) : V::mke(mkzext(a.e, w)); }
    case C_BITCAST: {
      if (t->k == T_INT && a.k == V::F) return V::mke(mk(O_FBITS, t->bits, a.ex())); if (t->k == T_FP && a.k == V::I) return V::mke(mkf(O_BITSF, t->bits, a.ex()));
      if (t->k == T_VECTOR || st->k == T_VECTOR) { u32 id = newobj(s, 32, OB_STACK); wr_val(s, id, 0, st, a); V r = rd_val(s, id, 0, t); wobj(s, id)->dead = true; return r; }
      return a; }
  }
  kill_("cast", true);
}
static bool shared_obj(State& s, u64 a) { const Obj* o = robj(s, (u32)OBJ(a)); if (!o || o->ro) return false; if (o->kind == OB_STACK && o->owner == s.cur) return false; if (o->kind == OB_GLOBAL && s.th.size() > 1 && (u32)OBJ(a) >> SPACE_BITS) return false; return true; }
// Plain accesses of two threads that nothing orders: the instructions become scheduling points and the entry is explored again.
static void racing(State& s, Inst* a, bool ata, Inst* b, bool atb) {
  if (getenv("VS_RACES") && !((ata || a->racy) && (atb || b->racy))) std::cerr << "race " << where(s) << " line " << a->line << " / " << b->line << "\n";
  if (!ata && !a->racy) { a->racy = true; n_racy++; } if (!atb && !b->racy) { b->racy = true; n_racy++; } }
static void rec(State& s, u64 a, u64 n, bool w, bool at, Inst* in) {
  if (!n || s.th.size() < 2 || s.pointsall || s.vc.empty() || !shared_obj(s, a)) return; u8 me = (u8)s.cur;
  bool others = false; for (size_t i = 1; i < s.th.size(); i++) if ((int)i != s.cur && !s.th[i]->done) others = true; else if ((int)i != s.cur && s.cur) others = true; if (!others) return;
  Shadow& sh = shadow(s); Clock& c = s.vc[me];
  for (u64 g = a / 8; g <= (a + n - 1) / 8; g++) {
    auto& h = sh.m[g]; bool put = false;
    for (auto& x : h) { if (x.tid == me) { if (x.w == w && x.at == at && x.a == a && x.n == (u32)n) { x.clk = c[me]; x.in = in; put = true; } continue; } if ((w || x.w) && !(at && x.at) && x.a < a + n && a < x.a + x.n && x.clk > c[x.tid]) racing(s, in, at, x.in, x.at); }
    if (!put) h.push_back({a, (u32)n, me, w, at, c[me], in});
    if (!s.grp) continue; auto& v = s.grp->m[g]; bool have = false;
    for (auto& x : v) { if (x.tid == me) { if (x.in == in && x.w == w && x.locks == T(s).locks && x.a <= a && x.a + x.n >= a + n) have = true; continue; } if (!(w || x.w) || (at && x.at) || x.a >= a + n || a >= x.a + x.n || together(x.locks, T(s).locks)) continue; racing(s, in, at, x.in, x.at); }
    if (!have) v.push_back({a, (u32)n, me, w, at, in, T(s).locks}); }
}
static void recp(State& s, const V& p, Type* t, bool w, bool at, Inst* in) {
  if (!p.conc() || s.th.size() < 2) return; u64 a = (u64)p.i; rec(s, a, t->size ? t->store() : 0, w, at, in);
  if (at && in->op != I_STORE && (in->ord == ACQ || in->ord == ACQREL || in->ord == SEQ)) acquires(s, a); if (at && w && (in->ord == REL || in->ord == ACQREL || in->ord == SEQ)) releases(s, a); }
static bool racypoint(State& s, Inst& in, const V& p) { return in.racy && s.th.size() > 1 && p.conc() && shared_obj(s, (u64)p.i); }

// calls that read or write memory: 1 copies, 2 fills, 3 comparisons, 4 deallocations
static int datacall(Function* f) {
  static std::unordered_map<Function*, int> m; auto it = m.find(f); if (it != m.end()) return it->second; const std::string& n = f->name; int k = 0;
  if (n.compare(0, 12, "llvm.memcpy.") == 0 || n.compare(0, 13, "llvm.memmove.") == 0 || n == "memcpy" || n == "memmove") k = 1; else if (n.compare(0, 12, "llvm.memset.") == 0 || n == "memset") k = 2; else if (n == "memcmp" || n == "bcmp") k = 3; else if (n == "_ZdlPv" || n == "_ZdlPvm" || n == "_ZdaPv" || n == "_ZdaPvm") k = 4;
  return m[f] = k; }
static void callranges(State& s, int dc, std::vector<V>& a, std::vector<SegAcc>& o) {
  auto ok = [&](size_t i) { return a.size() > i && a[i].conc(); }; if (!ok(0)) return;
  if (dc == 4) { const Obj* q = robj(s, (u32)OBJ((u64)a[0].i)); if (q && !q->dead) o.push_back({(u64)a[0].i, (u32)q->size, 0, true, false, nullptr, 0}); return; }
  if (!ok(2)) return; u32 n = (u32)a[2].i; o.push_back({(u64)a[0].i, n, 0, dc != 3, false, nullptr, 0}); if (dc != 2 && ok(1)) o.push_back({(u64)a[1].i, n, 0, false, false, nullptr, 0}); }

static bool step(State& s) { // one instruction of the current thread; false when the path is finished
  Frame& f = F(s); Inst& in = f.f->bb[f.bb].in[f.ip]; n_instr++; s.instrs++;
  switch (in.op) {
    case I_RET: {
      V r; if (!in.ops.empty()) r = val(s, f, in.ops[0]); int dst = f.dst; bool inv = f.inv; pop_frame(s); Thread& t = T(s);
      if (t.fr.empty()) {
        if (s.cur == 0) return false;
        t.done = true; t.granted = false; schedule(s, true); return true;
      }
      Frame& g = F(s); if (dst >= 0) g.regs[dst] = r; if (inv) { Inst& ci_ = g.f->bb[g.bb].in[g.ip]; enter_bb(s, ci_.bb[0]); } else g.ip++;
      return true; }
    case I_BR: enter_bb(s, in.bb[0]); return true;
    case I_CBR: { V c = val(s, f, in.ops[0]); if (c.k == V::UNDEF) { n_uninit++; kill_("branch on undef", true); } bool t = c.conc() ? c.i & 1 : branch(s, c.e); enter_bb(s, in.bb[t ? 0 : 1]); return true; }
    case I_SWITCH: {
      V c = val(s, f, in.ops[0]); u128 v;
      if (c.conc()) v = c.i; else {
        Eval ev(*s.model); v = ev.ev(c.e).i; int tgt = in.bb[0]; for (size_t i = 0; i < in.cases.size(); i++) if (in.cases[i] == v) tgt = in.bb[i + 1];
        E cond = mkc(0, 1), none = mkc(1, 1); for (size_t i = 0; i < in.cases.size(); i++) { E q = mk(O_EQ, 1, c.e, mkc(in.cases[i], c.w)); if (in.bb[i + 1] == tgt) cond = mkor(cond, q); none = mkand(none, mknot(q)); } if (in.bb[0] == tgt) cond = mkor(cond, none);
        if (!branch(s, cond)) throw Redo{}; enter_bb(s, tgt); return true; }
      int tgt = in.bb[0]; for (size_t i = 0; i < in.cases.size(); i++) if (in.cases[i] == v) { tgt = in.bb[i + 1]; break; } enter_bb(s, tgt); return true; }
    case I_UNREACHABLE: fail(s, "unreachable", "code the compiler may assume unreachable was reached (undefined behaviour)");
    case I_RESUME: { V a = val(s, f, in.ops[0]); u64 o = (u64)(*a.agg)[0].i; pop_frame(s); unwind(s, o); return true; }
    case I_FNEG: f.regs[in.dst] = V::mke(mkf(O_FNEG, in.ty->bits, val(s, f, in.ops[0]).ex())); break;
    case I_BIN: { V a = val(s, f, in.ops[0]), b = val(s, f, in.ops[1]); V r = bin(s, in, a, b); setreg(s, in.dst, r); break; }
    case I_FBIN: f.regs[in.dst] = fbin(s, in, val(s, f, in.ops[0]), val(s, f, in.ops[1])); break;
    case I_ALLOCA: { u64 n = 1; if (!in.ops.empty()) n = ci(s, val(s, f, in.ops[0])); u32 id = newobj(s, in.ty->size * n, OB_STACK); Frame& g = F(s); g.allocas.push_back(id); if (g.bb) g.dyn += in.ty->size * n; g.regs[in.dst] = V::mki(ADDR(id), 64); break; }
    case I_LOAD: { V p = val(s, f, in.ops[0]); if (in.ord || (s.pointsall && s.th.size() > 1 && p.conc() && shared_obj(s, (u64)p.i))) point(s); else if (racypoint(s, in, p)) point(s, true); V v = do_load(s, p, in.ty); recp(s, p, in.ty, false, in.ord, &in); T(s).ops++; setreg(s, in.dst, v); break; }
    case I_STORE: { V v = val(s, f, in.ops[0]), p = val(s, f, in.ops[1]); if (in.ord || (s.pointsall && s.th.size() > 1 && p.conc() && shared_obj(s, (u64)p.i))) point(s); else if (racypoint(s, in, p)) point(s, true); do_store(s, p, in.ty, v); recp(s, p, in.ty, true, in.ord, &in); T(s).ops++; break; }
    case I_FENCE: break;
    case I_CMPXCHG: {
      V p = val(s, f, in.ops[0]), ex = val(s, f, in.ops[1]), nv = val(s, f, in.ops[2]); point(s); V old = do_load(s, p, in.ty); V eq = icmp(P_EQ, old, ex); bool ok = eq.conc() ? eq.i & 1 : branch(s, eq.e);
      if (ok) do_store(s, p, in.ty, nv); recp(s, p, in.ty, ok, true, &in); T(s).ops++; setreg(s, in.dst, aggp(old, V::mki(ok, 1))); break; }
    case I_RMW: {
      V p = val(s, f, in.ops[0]), a = val(s, f, in.ops[1]); point(s); V old = do_load(s, p, in.ty); E x = old.ex(), y = a.ex(); E r; unsigned w = old.w;
      switch (in.sub) { case 0: r = y; break; case 1: r = mk(O_ADD, w, x, y); break; case 2: r = mk(O_SUB, w, x, y); break; case 3: r = mk(O_AND, w, x, y); break; case 4: r = mk(O_XOR, w, mk(O_AND, w, x, y), mkc(~(u128)0, w)); break; case 5: r = mk(O_OR, w, x, y); break; case 6: r = mk(O_XOR, w, x, y); break; case 7: r = mkite(mk(O_SLT, 1, x, y), y, x); break; case 8: r = mkite(mk(O_SLT, 1, x, y), x, y); break; case 9: r = mkite(mk(O_ULT, 1, x, y), y, x); break; case 10: r = mkite(mk(O_ULT, 1, x, y), x, y); break; case 11: r = mkf(O_FADD, w, x, y); break; default: r = mkf(O_FSUB, w, x, y); }
      do_store(s, p, in.ty, V::mke(r)); recp(s, p, in.ty, true, true, &in); T(s).ops++; setreg(s, in.dst, old); break; }
    case I_GEP: {
      V b = val(s, f, in.ops[0]); u64 k = in.gconst; bool c = b.conc(); u64 sum = k; 
      for (auto& g : in.gvar) { const V& iv = in.ops[g.first].reg >= 0 ? f.regs[in.ops[g.first].reg] : in.ops[g.first].c; if (!iv.conc()) { c = false; break; } sum += (u64)(i64)sgn(iv.i, iv.w) * g.second; }
      if (c) { f.regs[in.dst] = V::mki((u64)b.i + sum, 64); break; }
      // pointer arithmetic stays within the 32 bit offset field
      E base = b.ex(); E off = mkc(in.gconst, 64); for (auto& g : in.gvar) { V iv = val(s, f, in.ops[g.first]); E x = iv.ex(); x = x->w < 64 ? mksext(x, 64) : x; off = mk(O_ADD, 64, off, mk(O_MUL, 64, x, mkc(g.second, 64))); }
      E hi = mkextract(base, 63, 32), lo = mkextract(base, 31, 0); f.regs[in.dst] = V::mke(mkconcat(hi, mk(O_ADD, 32, lo, mkextract(off, 31, 0)))); break; }
    case I_CAST: { V r = cast(s, in, val(s, f, in.ops[0]), in.ops[0].t); setreg(s, in.dst, r); break; }
    case I_ICMP: { V a = val(s, f, in.ops[0]), b = val(s, f, in.ops[1]); f.regs[in.dst] = icmp(in.sub, a, b); break; }
    case I_FCMP: f.regs[in.dst] = fcmp(in.calleeName, val(s, f, in.ops[0]), val(s, f, in.ops[1])); break;
    case I_SELECT: {
      V c = val(s, f, in.ops[0]), a = val(s, f, in.ops[1]), b = val(s, f, in.ops[2]);
      if (c.conc()) { f.regs[in.dst] = c.i & 1 ? a : b; break; }
      if (in.ty->k == T_PTR || in.ty->k == T_STRUCT || in.ty->k == T_ARRAY || in.ty->k == T_VECTOR || a.k == V::AGG) { bool t = branch(s, c.e); setreg(s, in.dst, t ? a : b); break; }
      f.regs[in.dst] = V::mke(mkite(c.e, a.ex(), b.ex())); break; }
    case I_FREEZE: f.regs[in.dst] = val(s, f, in.ops[0]); break;
    case I_LPAD: { Thread& t = T(s); V v = aggp(V::mki(t.excobj, 64), V::mki((u32)t.excsel, 32)); setreg(s, in.dst, v); break; }
    case I_EXTRACTV: { V a = val(s, f, in.ops[0]); for (u64 i : in.idx) { V x = (*a.agg)[i]; a = x; } f.regs[in.dst] = a; break; }
    case I_INSERTV: {
      V a = val(s, f, in.ops[0]), b = val(s, f, in.ops[1]); std::function<V(V, size_t)> go = [&](V x, size_t d) { if (d == in.idx.size()) return b; V r; r.k = V::AGG; r.agg = std::make_shared<std::vector<V>>(*x.agg); (*r.agg)[in.idx[d]] = go((*x.agg)[in.idx[d]], d + 1); return r; }; f.regs[in.dst] = go(a, 0); break; }
    case I_CALL: case I_INVOKE: {
      if (in.calleeName == "__inline_asm") break;
      u64 fa; { V c = val(s, f, in.ops[0]); fa = c.conc() ? (u64)c.i : conc(s, c.e); }
      auto it = mod.faddr.find(fa); if (it == mod.faddr.end()) fail(s, "memory", "call through a pointer that is not a function");
      Function* fn = it->second; std::vector<V> args; args.reserve(in.ops.size());
      for (size_t i = 1; i < in.ops.size(); i++) { V v = val(s, F(s), in.ops[i]); if (in.byval[i - 1] && fn->defined) { Type* t = in.byval[i - 1]; u32 id = newobj(s, t->size, OB_STACK); u64 src = ci(s, v); copy_bytes(s, ADDR(id), src, t->size); v = V::mki(ADDR(id), 64); F(s).allocas.push_back(id); } args.push_back(v); }
      bool inv = in.op == I_INVOKE;
      if (fn->defined) { push_call(s, fn, args, in.dst, in.ty, inv); return true; }
      auto nt = natives.find(fn->name); if (nt == natives.end()) {
        // constructors, destructors of the standard exception classes keep no state here
        if (fn->name.compare(0, 5, "_ZNSt") == 0 && (fn->name.find("_errorC") != std::string::npos || fn->name.find("_errorD") != std::string::npos || fn->name.find("exceptionD") != std::string::npos || fn->name.find("exceptionC") != std::string::npos || fn->name.find("argumentC") != std::string::npos || fn->name.find("argumentD") != std::string::npos || fn->name.find("rangeC") != std::string::npos || fn->name.find("rangeD") != std::string::npos || fn->name.find("bad_") != std::string::npos)) { g_stubs[fn->name]++; nt = natives.find("llvm.donothing"); }
        else kill_("no model of external function " + fn->name, true); }
      int dc = datacall(fn); if (dc && in.racy) point(s, true); std::vector<SegAcc> da; if (dc && s.th.size() > 1) callranges(s, dc, args, da);
      V ret; NR r = nt->second(s, in, args, ret); if (dc) { T(s).ops++; for (auto& x : da) rec(s, x.a, x.n, x.w, false, &in); }
      if (r == N_UNWOUND) return true; if (r == N_PUSHED) return true;
      if (in.dst >= 0 && ret.k != V::UNDEF) setreg(s, in.dst, ret);
      if (inv) { enter_bb(s, in.bb[0]); return true; }
      break; }
    default: kill_("instruction", true);
  }
  F(s).ip++; return true;
}
static void run_state(State& s) {
  try {
    while (true) {
      bool more;
      try { more = step(s); } catch (Redo&) { s.instrs++; more = true; }
      if (!more) { n_paths++; if (g_entered) witness(s); return; }
      if ((s.instrs & 1023) == 0) { if (s.instrs > g_pathinstr) { fail(s, "divergence", "more than " + std::to_string(g_pathinstr) + " instructions on one path"); } if (now() > g_timelimit) { g_incomplete = "time limit"; return; } }
    }
  } catch (Kill& k) {
    n_killed++; if (k.why != "visited" && k.why != "assume" && k.why != "infeasible" && k.why != "end") n_paths++;
    if (k.incomplete) { std::string m = k.why + " at " + where(s); if (getenv("VS_DEBUG")) std::cerr << "INCOMPLETE " << m << "\n"; if (g_incomplete.empty()) g_incomplete = m; }
  }
}
static std::string jesc(const std::string& s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }

int main(int argc, char** argv) {
  T0 = std::chrono::steady_clock::now(); std::string file, entry, out;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") entry = nx(); else if (a == "--out") out = nx(); else if (a == "--time") g_timelimit = atof(nx().c_str()); else if (a == "--qtimeout") g_timeout_ms = atoi(nx().c_str()); else if (a == "--instr") g_pathinstr = strtoull(nx().c_str(), 0, 10); else if (a == "--real") g_realmode = true; else if (a == "--dump") g_dumpdir = nx(); else file = a; }
  solver_init(); parse_module(file, mod); init_natives(); for (auto& f : mod.faddr) if ((f.second->name.find("__to_chars_") != std::string::npos || f.second->name.find("9to_stringE") != std::string::npos) && natives.count(f.second->name)) f.second->defined = false;
  auto s0 = std::make_unique<State>(); State& s = *s0; s.th.push_back(Ref<Thread>(new Thread)); s.model = std::make_shared<Model>();
  init_statics(s);
  // constructors of globals, then the entry
  auto fit = mod.fidx.find(entry); if (fit == mod.fidx.end() || !mod.funcs[fit->second]->defined) { std::cerr << "no entry " << entry << "\n"; return 3; }
  std::set<std::string> ids; // assertion ids reachable in the module text are listed by the driver
  auto gi = mod.gidx.find("llvm.global_ctors"); 
  if (gi != mod.gidx.end()) { auto& g = mod.globals[gi->second]; std::vector<std::pair<u64, Function*>> cs; for (auto& e : *g.init.agg) { u64 fa = (u64)(*e.agg)[1].i; if (fa) cs.push_back({(u64)(*e.agg)[0].i, mod.faddr[fa]}); } std::stable_sort(cs.begin(), cs.end(), [](auto& a, auto& b) { return a.first < b.first; });
    for (auto& c : cs) { push_call(s, c.second, {}, -1, nullptr, false); run_state(s); if (!T(s).fr.empty()) { std::cerr << "global constructor failed: " << g_incomplete << "\n"; T(s).fr.clear(); } } }
  n_paths = 0; n_killed = 0; for (auto& f : mod.funcs) f->execs = 0; s.instrs = 0; T(s).ops = 0; g_entered = true;
  push_call(s, mod.funcs[fit->second].get(), {}, -1, nullptr, false);
  auto first = std::move(s0); u64 steps = 0, rounds = 0;
  while (true) { // again with more scheduling points when unordered accesses were found
  rounds++; u64 racy0 = n_racy; double start = now(); visited.clear(); work.clear(); work.push_back(std::make_unique<State>(*first)); work.back()->rb = g_timelimit > 200 ? 3 : 2;
  while (!work.empty()) { if (n_racy != racy0 && now() - start > 1 && rounds < 40) break; auto st = std::move(work.back()); work.pop_back(); run_state(*st); steps++; if (now() > g_timelimit) { g_incomplete = "time limit, " + std::to_string(work.size()) + " states left"; break; } if (n_paths > g_maxpaths) { g_incomplete = "path limit"; break; } }
  if (n_racy == racy0 || !g_incomplete.empty()) break; }
  std::ostringstream o; o.precision(6);
  o << "{\"entry\":\"" << entry << "\",\"paths\":" << n_paths << ",\"killed\":" << n_killed << ",\"forks\":" << n_forks << ",\"instrs\":" << n_instr << ",\"visited_pruned\":" << n_visited << ",\"decision_points\":" << n_points << ",\"threads\":" << n_maxthreads << ",\"racy_sites\":" << n_racy << ",\"rounds\":" << rounds << ",\"uninit_reads\":" << n_uninit << ",\"incomplete\":\"" << jesc(g_incomplete) << "\",\"wall\":" << now();
  o << ",\"solver\":{\"queries\":" << g_st.queries << ",\"cached\":" << g_st.cached << ",\"model_hits\":" << g_st.modelhits << ",\"sat\":" << g_st.sat << ",\"unsat\":" << g_st.unsat << ",\"unknown\":" << g_st.unknown << ",\"real\":" << g_st.realq << ",\"mismatch\":" << g_st.mismatch << ",\"time\":" << g_st.time << ",\"max\":" << g_st.maxtime << "}";
  auto mp = [&](const char* k, const std::map<std::string, u64>& m) { o << ",\"" << k << "\":{"; bool f = true; for (auto& x : m) { o << (f ? "" : ",") << "\"" << jesc(x.first) << "\":" << x.second; f = false; } o << "}"; };
  mp("reached", assert_reached); mp("solved", assert_solved); mp("stubs", g_stubs);
  o << ",\"covers\":{"; { bool f = true; for (auto& x : cover_) { o << (f ? "" : ",") << "\"" << jesc(x.first) << "\":" << x.second; f = false; } o << "}"; }
  o << ",\"undecided\":["; { bool f = true; for (auto& x : assert_undecided) { o << (f ? "" : ",") << "\"" << jesc(x) << "\""; f = false; } } o << "]";
  std::map<std::string, u64> fe; for (auto& f : mod.funcs) if (f->execs && f->defined) fe[f->name] = f->execs; mp("functions", fe);
  auto lst = [&](const char* nm, std::vector<Viol>& vs) { o << ",\"" << nm << "\":["; for (size_t i = 0; i < vs.size(); i++) { auto& v = vs[i]; o << (i ? "," : "") << "{\"id\":\"" << jesc(v.id) << "\",\"msg\":\"" << jesc(v.msg) << "\",\"where\":\"" << jesc(v.where) << "\",\"known\":" << (v.known ? "true" : "false") << ",\"finding\":\"" << jesc(v.finding) << "\",\"approx\":" << (v.approx ? "true" : "false") << ",\"inputs\":["; for (size_t k = 0; k < v.in.size(); k++) o << (k ? "," : "") << "[\"" << jesc(v.in[k][0]) << "\",\"" << v.in[k][1] << "\",\"" << v.in[k][2] << "\"]"; o << "],\"schedule\":["; for (size_t k = 0; k < v.sched.size(); k++) o << (k ? "," : "") << "[" << v.sched[k].tid << "," << (v.sched[k].ops == ~0ull ? -1 : (i64)v.sched[k].ops) << "," << v.sched[k].next << "]"; o << "]}"; } o << "]"; };
  lst("violations", viols); lst("witnesses", wits);
  o << "}\n";
  if (out.empty()) std::cout << o.str(); else { std::ofstream f(out); f << o.str(); }
  _exit(0);
}
