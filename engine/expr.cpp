#include "expr.h"
#include <cmath>
#include <chrono>
#include <algorithm>
#include <set>
#include <sstream>
#include <fstream>
#include <iostream>
#include <unistd.h>

std::vector<VarInfo> g_vars;
SolverStats g_st;
unsigned g_timeout_ms = 20000;
bool g_realmode = false;
std::string g_dumpdir;
static Z3_context C;

u128 maskw(u128 v, unsigned w) { return w >= 128 ? v : (v & ((((u128)1) << w) - 1)); }
i128 sgn(u128 v, unsigned w) {
  v = maskw(v, w);
  if (w >= 128) return (i128)v;
  if ((v >> (w - 1)) & 1) return (i128)(v | (~(u128)0 << w));
  return (i128)v;
}
long double rnd(long double v, unsigned w) { return w == 32 ? (long double)(float)v : w == 64 ? (long double)(double)v : v; }

// ---- hash consing
struct Key { Op op; uint16_t w; bool fp; u128 c; unsigned char fc[10]; E a, b, d; };
struct KeyHash { size_t operator()(const Key& k) const {
  u64 h = k.op * 1315423911u + k.w * 31 + k.fp;
  auto mix = [&](u64 x) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); };
  mix((u64)k.c); mix((u64)(k.c >> 64)); u64 f; memcpy(&f, k.fc, 8); mix(f); mix(k.fc[8] | k.fc[9] << 8);
  mix((u64)k.a); mix((u64)k.b); mix((u64)k.d); return h; } };
struct KeyEq { bool operator()(const Key& x, const Key& y) const { return x.op == y.op && x.w == y.w && x.fp == y.fp && x.c == y.c && !memcmp(x.fc, y.fc, 10) && x.a == y.a && x.b == y.b && x.d == y.d; } };
static std::unordered_map<Key, E, KeyHash, KeyEq> tab;
static std::map<std::vector<u32>, const VarSet*> vstab;
static const VarSet* vs_of(std::vector<u32> v) {
  auto it = vstab.find(v); if (it != vstab.end()) return it->second;
  auto p = new VarSet{v}; vstab[v] = p; return p;
}
static const VarSet* vs_empty = nullptr;
static std::map<std::pair<const VarSet*, const VarSet*>, const VarSet*> vmerge;
static const VarSet* vs_union(const VarSet* a, const VarSet* b) {
  if (a == b || b->v.empty()) return a; if (a->v.empty()) return b;
  if (a > b) std::swap(a, b);
  auto& r = vmerge[{a, b}];
  if (!r) { std::vector<u32> o; std::set_union(a->v.begin(), a->v.end(), b->v.begin(), b->v.end(), std::back_inserter(o)); r = vs_of(o); }
  return r;
}
static u32 nextid = 1;
static E intern(Op op, unsigned w, bool fp, u128 c, long double fc, E a, E b, E d) {
  Key k; memset((void*)&k, 0, sizeof k); k.op = op; k.w = w; k.fp = fp; k.c = c; memcpy(k.fc, &fc, 10); k.a = a; k.b = b; k.d = d;
  auto it = tab.find(k); if (it != tab.end()) return it->second;
  auto* e = new Expr; e->op = op; e->w = w; e->fp = fp; e->id = nextid++; e->c = c; e->fc = fc; e->a = a; e->b = b; e->d = d;
  if (!vs_empty) vs_empty = vs_of({});
  const VarSet* v = vs_empty;
  if (op == O_VAR || op == O_FVAR) v = vs_of({(u32)c});
  else { if (a) v = vs_union(v, a->vars); if (b) v = vs_union(v, b->vars); if (d) v = vs_union(v, d->vars); }
  e->vars = v;
  tab[k] = e; return e;
}
E mkc(u128 v, unsigned w) { return intern(O_CONST, w, false, maskw(v, w), 0, 0, 0, 0); }
E mkfc(long double v, unsigned w) { return intern(O_FCONST, w, true, 0, rnd(v, w), 0, 0, 0); }
E mkvar(const std::string& name, unsigned w, bool fp) {
  static std::map<std::string, u32> byname;
  std::string key = name + "/" + std::to_string(w) + (fp ? "f" : "");
  auto it = byname.find(key);
  if (it != byname.end()) return g_vars[it->second].e;
  u32 id = g_vars.size(); byname[key] = id;
  VarInfo vi; vi.name = name; vi.id = id; vi.w = w; vi.fp = fp;
  vi.e = intern(fp ? O_FVAR : O_VAR, w, fp, id, 0, 0, 0, 0);
  g_vars.push_back(vi); return vi.e;
}

u128 foldbv(Op op, unsigned w, u128 x, u128 y, unsigned aw) {
  switch (op) {
    case O_ADD: return maskw(x + y, w);
    case O_SUB: return maskw(x - y, w);
    case O_MUL: return maskw(x * y, w);
    case O_UDIV: return y ? maskw(x / y, w) : maskw(~(u128)0, w);
    case O_UREM: return y ? maskw(x % y, w) : x;
    case O_SDIV: { i128 a = sgn(x, w), b = sgn(y, w); if (!b) return a < 0 ? 1 : maskw(~(u128)0, w); if (b == -1) return maskw(-(u128)a, w); return maskw((u128)(a / b), w); }
    case O_SREM: { i128 a = sgn(x, w), b = sgn(y, w); if (!b) return x; if (b == -1) return 0; return maskw((u128)(a % b), w); }
    case O_SHL: return y >= w ? 0 : maskw(x << (unsigned)y, w);
    case O_LSHR: return y >= w ? 0 : x >> (unsigned)y;
    case O_ASHR: { i128 a = sgn(x, w); return maskw((u128)(a >> (y >= w ? w - 1 : (unsigned)y)), w); }
    case O_AND: return x & y;
    case O_OR: return x | y;
    case O_XOR: return x ^ y;
    case O_EQ: return x == y;
    case O_ULT: return x < y;
    case O_ULE: return x <= y;
    case O_SLT: return sgn(x, aw) < sgn(y, aw);
    case O_SLE: return sgn(x, aw) <= sgn(y, aw);
    default: abort();
  }
}
static inline bool isC(E e) { return e && e->op == O_CONST; }

E mkextract(E a, unsigned hi, unsigned lo) {
  unsigned w = hi - lo + 1;
  if (w == a->w) return a;
  if (isC(a)) return mkc(a->c >> lo, w);
  if (a->op == O_EXTRACT) return mkextract(a->a, hi + (unsigned)a->c, lo + (unsigned)a->c);
  if (a->op == O_CONCAT) {
    unsigned lw = a->b->w;
    if (hi < lw) return mkextract(a->b, hi, lo);
    if (lo >= lw) return mkextract(a->a, hi - lw, lo - lw);
    return mkconcat(mkextract(a->a, hi - lw, 0), mkextract(a->b, lw - 1, lo));
  }
  if (a->op == O_ZEXT || a->op == O_SEXT) {
    unsigned aw = a->a->w;
    if (hi < aw) return mkextract(a->a, hi, lo);
    if (a->op == O_ZEXT) { if (lo >= aw) return mkc(0, w); return mkzext(mkextract(a->a, aw - 1, lo), w); }
    if (lo == 0) return mksext(a->a, w);
  }
  if (lo == 0 && (a->op == O_ADD || a->op == O_SUB || a->op == O_MUL || a->op == O_AND || a->op == O_OR || a->op == O_XOR))
    return mk(a->op, w, mkextract(a->a, hi, lo), mkextract(a->b, hi, lo));
  if (a->op == O_ITE) { if (isC(a->b) || isC(a->d) || a->b->op==O_ITE || a->d->op == O_ITE) return mkite(a->a, mkextract(a->b, hi, lo), mkextract(a->d, hi, lo)); }
  if (a->op == O_AND || a->op == O_OR || a->op == O_XOR) return mk(a->op, w, mkextract(a->a, hi, lo), mkextract(a->b, hi, lo));
  return intern(O_EXTRACT, w, false, lo, 0, a, 0, 0);
}
E mkzext(E a, unsigned w) {
  if (w == a->w) return a;
  if (isC(a)) return mkc(a->c, w);
  if (a->op == O_ZEXT) return mkzext(a->a, w);
  if (a->op == O_ADD && isC(a->b) && a->a->op == O_ZEXT && a->a->a->op == O_VAR && urange(a->a).hi + (i128)a->b->c < ((i128)1 << a->w)) return mk(O_ADD, w, mkzext(a->a, w), mkc(a->b->c, w));
  return intern(O_ZEXT, w, false, 0, 0, a, 0, 0);
}
E mksext(E a, unsigned w) {
  if (w == a->w) return a;
  if (isC(a)) return mkc((u128)sgn(a->c, a->w), w);
  if (a->op == O_SEXT) return mksext(a->a, w);
  if (a->op == O_ZEXT) return mkzext(a->a, w);
  if (a->op == O_ADD && isC(a->b) && a->a->op == O_ZEXT && a->a->a->op == O_VAR && urange(a->a).hi + (i128)a->b->c < ((i128)1 << (a->w - 1))) return mk(O_ADD, w, mkzext(a->a, w), mkc(a->b->c, w));
  return intern(O_SEXT, w, false, 0, 0, a, 0, 0);
}
E mkconcat(E hi, E lo) {
  if (isC(hi) && isC(lo)) return mkc((hi->c << lo->w) | lo->c, hi->w + lo->w);
  if (hi->op == O_EXTRACT && lo->op == O_EXTRACT && hi->a == lo->a && (unsigned)hi->c == (unsigned)lo->c + lo->w)
    return mkextract(hi->a, (unsigned)hi->c + hi->w - 1, (unsigned)lo->c);
  // sign/zero extension pieces
  if (isC(hi) && hi->c == 0) return mkzext(lo, hi->w + lo->w);
  if (hi->op == O_EXTRACT && hi->a == lo && 0) return nullptr;
  if (lo->op == O_CONCAT && hi->op == O_EXTRACT && lo->a->op == O_EXTRACT && hi->a == lo->a->a && (unsigned)hi->c == (unsigned)lo->a->c + lo->a->w)
    return mkconcat(mkextract(hi->a, (unsigned)hi->c + hi->w - 1, (unsigned)lo->a->c), lo->b);
  return intern(O_CONCAT, hi->w + lo->w, false, 0, 0, hi, lo, 0);
}
E mknot(E a) {
  if (isC(a)) return mkc(!(a->c & 1), 1);
  if (a->op == O_XOR && isC(a->b) && a->w == 1) return a->a;
  return intern(O_XOR, 1, false, 0, 0, a, mkc(1, 1), 0);
}
E mkand(E a, E b) { return mk(O_AND, 1, a, b); }
E mkor(E a, E b) { return mk(O_OR, 1, a, b); }
E mkite(E c, E a, E b) {
  if (isC(c)) return (c->c & 1) ? a : b;
  if (a == b) return a;
  if (a->fp) { if (c->op == O_XOR && isC(c->b)) return mkite(c->a, b, a); return intern(O_FITE, a->w, true, 0, 0, c, a, b); }
  if (a->w == 1) {
    if (isC(a) && isC(b)) return a->c ? c : mknot(c);
    if (isC(a)) return a->c ? mkor(c, b) : mkand(mknot(c), b);
    if (isC(b)) return b->c ? mkor(mknot(c), a) : mkand(c, a);
  }
  if (c->op == O_XOR && isC(c->b)) return mkite(c->a, b, a);
  return intern(O_ITE, a->w, false, 0, 0, c, a, b);
}
static bool iteconst(E e, int depth = 0) { // ite tree with constant leaves
  if (isC(e)) return true;
  return e->op == O_ITE && depth < 12 && iteconst(e->b, depth + 1) && iteconst(e->d, depth + 1);
}

// ---- floating values that are exactly an integer (over a power of two): comparisons and conversions of them are integer questions
static Rng full(unsigned w) { return w >= 127 ? Rng{-((i128)1 << 126), (i128)1 << 126} : Rng{-((i128)1 << (w - 1)), ((i128)1 << (w - 1)) - 1}; }
static const i128 BIG = (i128)1 << 120;
static std::unordered_map<u32, Rng> rmemo, urmemo;
Rng srange(E e) { // interval of the signed value of a bit vector (every model, no path condition)
  if (e->op == O_CONST) return {sgn(e->c, e->w), sgn(e->c, e->w)};
  auto it = rmemo.find(e->id); if (it != rmemo.end()) return it->second;
  Rng f = full(e->w), r = f;
  auto fit = [&](Rng x) { return x.lo >= f.lo && x.hi <= f.hi ? x : f; };
  auto small = [&](Rng x) { return x.lo > -BIG && x.hi < BIG; };
  switch (e->op) {
    case O_VAR: { auto& v = g_vars[(u32)e->c]; if (v.ranged) r = fit({v.lo, v.hi}); break; }
    case O_ZEXT: r = urange(e->a); break;
    case O_SEXT: r = srange(e->a); break;
    case O_ITE: { Rng a = srange(e->b), b = srange(e->d); r = {std::min(a.lo, b.lo), std::max(a.hi, b.hi)}; break; }
    case O_ADD: { Rng a = srange(e->a), b = srange(e->b); if (small(a) && small(b)) r = fit({a.lo + b.lo, a.hi + b.hi}); break; }
    case O_SUB: { Rng a = srange(e->a), b = srange(e->b); if (small(a) && small(b)) r = fit({a.lo - b.hi, a.hi - b.lo}); break; }
    case O_MUL: { Rng a = srange(e->a), b = srange(e->b); const i128 L = (i128)1 << 62; if (a.lo > -L && a.hi < L && b.lo > -L && b.hi < L) { i128 p[4] = {a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi}; r = fit({*std::min_element(p, p + 4), *std::max_element(p, p + 4)}); } break; }
    case O_SDIV: if (e->b->op == O_CONST) { i128 k = sgn(e->b->c, e->w); Rng a = srange(e->a); if (k && !(k == -1 && a.lo == f.lo)) { r = {a.lo / k, a.hi / k}; if (r.lo > r.hi) std::swap(r.lo, r.hi); } } break;
    case O_SREM: if (e->b->op == O_CONST) { i128 k = sgn(e->b->c, e->w); Rng a = srange(e->a); if (k < 0) k = -k; if (k > 0) { r = {a.lo < 0 ? std::max(a.lo, -(k - 1)) : 0, a.hi > 0 ? std::min(a.hi, k - 1) : 0}; } } break;
    case O_ASHR: if (e->b->op == O_CONST && e->b->c < e->w) { Rng a = srange(e->a); r = {a.lo >> (unsigned)e->b->c, a.hi >> (unsigned)e->b->c}; } break;
    case O_FPTOSI: { FI a = fint(e->a); if (a.ok && fabsl(a.lo) < 4e18L && fabsl(a.hi) < 4e18L) r = fit({(i128)a.lo, (i128)a.hi}); break; }
    case O_UDIV: case O_UREM: case O_LSHR: case O_AND: case O_SHL: if (e->w <= 120 && e->w > 1) { Rng u = urange(e); if (u.hi <= f.hi) r = u; } break;
    case O_EXTRACT: if (e->c == 0 && e->a->w <= 120) { Rng a = srange(e->a); if (a.lo >= f.lo && a.hi <= f.hi) r = a; } break;
    case O_CONCAT: { Rng h = srange(e->a); if (e->w < 120) r = {h.lo * ((i128)1 << e->b->w), h.hi * ((i128)1 << e->b->w) + (((i128)1 << e->b->w) - 1)}; break; }
    default:;
  }
  rmemo[e->id] = r; return r;
}
Rng urange(E e) {
  if (e->w > 120) return {0, (i128)1 << 126};
  if (e->op == O_CONST) return {(i128)e->c, (i128)e->c};
  auto it = urmemo.find(e->id); if (it != urmemo.end()) return it->second;
  Rng f{0, ((i128)1 << e->w) - 1}, r = f;
  switch (e->op) {
    case O_VAR: { auto& v = g_vars[(u32)e->c]; if (v.ranged && v.lo >= 0) r = {v.lo, std::min(v.hi, f.hi)}; break; }
    case O_ZEXT: r = urange(e->a); break;
    case O_ITE: { Rng a = urange(e->b), b = urange(e->d); r = {std::min(a.lo, b.lo), std::max(a.hi, b.hi)}; break; }
    case O_ADD: { Rng a = urange(e->a), b = urange(e->b); if (a.hi + b.hi <= f.hi) r = {a.lo + b.lo, a.hi + b.hi}; else { Rng s = srange(e); if (s.lo >= 0) r = s; } break; }
    case O_CONCAT: { Rng h = urange(e->a), l = urange(e->b); r = {(h.lo << e->b->w) + l.lo, (h.hi << e->b->w) + l.hi}; break; }
    case O_OR: if (e->b->op == O_CONST) { Rng a = urange(e->a); r = {std::max(a.lo, (i128)e->b->c), std::min(f.hi, a.hi + (i128)e->b->c)}; } break;
    case O_AND: if (e->b->op == O_CONST) { Rng a = urange(e->a); r = {0, std::min(a.hi, (i128)e->b->c)}; } break;
    case O_SHL: if (e->b->op == O_CONST && e->b->c < e->w && e->w <= 64) { Rng a = urange(e->a); if (a.hi < ((i128)1 << (e->w - (unsigned)e->b->c))) r = {a.lo << (unsigned)e->b->c, a.hi << (unsigned)e->b->c}; } break;
    case O_UDIV: if (e->b->op == O_CONST && e->b->c) { Rng a = urange(e->a); r = {a.lo / (i128)e->b->c, a.hi / (i128)e->b->c}; } break;
    case O_UREM: if (e->b->op == O_CONST && e->b->c) { Rng a = urange(e->a); r = {0, std::min(a.hi, (i128)e->b->c - 1)}; } break;
    case O_LSHR: if (e->b->op == O_CONST && e->b->c < e->w) { Rng a = urange(e->a); r = {a.lo >> (unsigned)e->b->c, a.hi >> (unsigned)e->b->c}; } break;
    case O_EXTRACT: if (e->c == 0 && e->a->w <= 120) { Rng a = urange(e->a); if (a.hi <= f.hi) r = a; } break;
    case O_FPTOUI: { FI a = fint(e->a); if (a.ok && a.lo > -1 && a.hi < 1e19L && (e->w >= 64 || (i128)a.hi <= f.hi)) r = {(i128)std::max(a.lo, 0.0L), (i128)a.hi}; break; }
    case O_FPTOSI: case O_SUB: case O_MUL: case O_SEXT: case O_SDIV: case O_SREM: case O_ASHR: { Rng s = srange(e); if (s.lo >= 0) r = s; break; }
    default:;
  }
  urmemo[e->id] = r; return r;
}
static std::unordered_map<u32, XI> xmemo;
static int mant(unsigned w) { return w == 32 ? 24 : w == 64 ? 53 : 64; }
XI xint(E e) {
  auto it = xmemo.find(e->id); if (it != xmemo.end()) return it->second;
  XI no{false, 0, 0, 0}, r = no; int m = mant(e->w);
  auto chk = [&](i128 lo, i128 hi, int s) { const i128 L = (i128)1 << m; return lo >= -L && hi <= L && s <= 40 ? XI{true, lo, hi, s} : no; };
  auto up = [](XI a, int s) { i128 k = (i128)1 << (s - a.s); return XI{a.lo > -BIG / k && a.hi < BIG / k, a.lo * k, a.hi * k, s}; };
  switch (e->op) {
    case O_FCONST: { long double x = e->fc; int s = 0; if (!std::isfinite(x)) break; while (s < 40 && x != truncl(x)) { x *= 2; s++; } if (x == truncl(x) && fabsl(x) < ldexpl(1, 100)) r = {true, (i128)x, (i128)x, s}; break; }
    case O_SITOFP: { Rng a = srange(e->a); r = chk(a.lo, a.hi, 0); break; }
    case O_UITOFP: { Rng a = urange(e->a); r = chk(a.lo, a.hi, 0); break; }
    case O_FNEG: { XI a = xint(e->a); if (a.ok) r = {true, -a.hi, -a.lo, a.s}; break; }
    case O_FABS: { XI a = xint(e->a); if (a.ok) r = {true, a.lo > 0 ? a.lo : a.hi < 0 ? -a.hi : 0, std::max(a.hi, -a.lo), a.s}; break; }
    case O_FCONV: { XI a = xint(e->a); if (a.ok) r = chk(a.lo, a.hi, a.s); break; }
    case O_FRND: { XI a = xint(e->a); if (a.ok && a.s == 0) r = a; break; }
    case O_FITE: { XI a = xint(e->b), b = xint(e->d); if (a.ok && b.ok) { int s = std::max(a.s, b.s); a = up(a, s); b = up(b, s); if (a.ok && b.ok) r = {true, std::min(a.lo, b.lo), std::max(a.hi, b.hi), s}; } break; }
    case O_FADD: case O_FSUB: { XI a = xint(e->a), b = xint(e->b); if (!a.ok || !b.ok) break; int s = std::max(a.s, b.s); a = up(a, s); b = up(b, s); if (!a.ok || !b.ok) break;
      if (e->op == O_FADD) r = chk(a.lo + b.lo, a.hi + b.hi, s); else r = chk(a.lo - b.hi, a.hi - b.lo, s); break; }
    case O_FMUL: { XI a = xint(e->a), b = xint(e->b); const i128 L = (i128)1 << 62; if (!a.ok || !b.ok || a.lo < -L || a.hi > L || b.lo < -L || b.hi > L) break; i128 p[4] = {a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi}; r = chk(*std::min_element(p, p + 4), *std::max_element(p, p + 4), a.s + b.s); break; }
    case O_FDIV: { XI a = xint(e->a); if (!a.ok || e->b->op != O_FCONST) break; int ex; long double f = frexpl(e->b->fc, &ex); if (f != 0.5L) break; ex--; if (ex < 0 || ex > 30) break; r = chk(a.lo, a.hi, a.s + ex); break; }
    default:;
  }
  xmemo[e->id] = r; return r;
}
// the integer e * 2^s as a signed bit vector of width W (wide enough by construction)
E xbuild(E e, int s, unsigned W) {
  auto fitw = [&](E a, bool sg) { return a->w >= W ? mkextract(a, W - 1, 0) : sg ? mksext(a, W) : mkzext(a, W); };
  XI me = xint(e); 
  if (e->op == O_FCONST) { i128 v = me.lo; return mkc((u128)(v * ((i128)1 << (s - me.s))), W); }
  if (s > me.s) { E x = xbuild(e, me.s, W); return mk(O_MUL, W, x, mkc((u128)1 << (s - me.s), W)); }
  switch (e->op) {
    case O_SITOFP: return fitw(e->a, true);
    case O_UITOFP: return fitw(e->a, false);
    case O_FNEG: return mk(O_SUB, W, mkc(0, W), xbuild(e->a, s, W));
    case O_FABS: { E x = xbuild(e->a, s, W); return mkite(mk(O_SLT, 1, x, mkc(0, W)), mk(O_SUB, W, mkc(0, W), x), x); }
    case O_FCONV: case O_FRND: return xbuild(e->a, s, W);
    case O_FITE: return mkite(e->a, xbuild(e->b, s, W), xbuild(e->d, s, W));
    case O_FADD: return mk(O_ADD, W, xbuild(e->a, s, W), xbuild(e->b, s, W));
    case O_FSUB: return mk(O_SUB, W, xbuild(e->a, s, W), xbuild(e->b, s, W));
    case O_FMUL: return mk(O_MUL, W, xbuild(e->a, xint(e->a).s, W), xbuild(e->b, xint(e->b).s, W));
    case O_FDIV: return xbuild(e->a, xint(e->a).s, W);
    default: abort();
  }
}
static unsigned xbits(i128 lo, i128 hi) { unsigned w = 1; while (w < 126 && !(lo >= -((i128)1 << (w - 1)) && hi <= ((i128)1 << (w - 1)) - 1)) w++; return w; }
static E xcmp(Op op, E a, E b) { // null when not an integer question
  if (op == O_FUNO) { if (xint(a).ok && xint(b).ok) return mkc(0, 1); return nullptr; }
  XI x = xint(a), y = xint(b);
  if (!x.ok && !y.ok) return nullptr;
  if (!x.ok || !y.ok) {
    E k = x.ok ? b : a; if (k->op != O_FCONST) return nullptr; long double c = k->fc;
    if (std::isnan(c)) return mkc(0, 1);
    E f = x.ok ? a : b; XI z = x.ok ? x : y; long double t = std::isinf(c) ? c : ldexpl(c, z.s);
    i128 fl, ce; if (t > ldexpl(1, 110)) fl = ce = (i128)1 << 110; else if (t < -ldexpl(1, 110)) fl = ce = -((i128)1 << 110); else { fl = (i128)floorl(t); ce = (i128)ceill(t); }
    if (z.lo < -((i128)1 << 105) || z.hi > ((i128)1 << 105)) return nullptr;
    unsigned W = xbits(std::min(z.lo, (i128)-1), z.hi) + 1; E i = xbuild(f, z.s, W);
    auto le = [&](i128 v) { return v >= z.hi ? mkc(1, 1) : v < z.lo ? mkc(0, 1) : mk(O_SLE, 1, i, mkc((u128)v, W)); }; // i <= v
    switch (op) {
      case O_FEQ: if (fl != ce || fl > z.hi || fl < z.lo) return mkc(0, 1); return mk(O_EQ, 1, i, mkc((u128)fl, W));
      case O_FLT: return x.ok ? le(ce - 1) : mknot(le(fl));   // i < c : i <= ceil(c)-1 ; c < i : not i <= floor(c)
      default: return x.ok ? le(fl) : mknot(le(ce - 1));      // i <= c ; c <= i : not i <= ceil(c)-1
    }
  }
  int s = std::max(x.s, y.s); i128 kx = (i128)1 << (s - x.s), ky = (i128)1 << (s - y.s);
  if (x.lo < -BIG / kx || x.hi > BIG / kx || y.lo < -BIG / ky || y.hi > BIG / ky) return nullptr;
  i128 lx = x.lo * kx, hx = x.hi * kx, ly = y.lo * ky, hy = y.hi * ky;
  if (op == O_FLT) { if (hx < ly) return mkc(1, 1); if (lx >= hy) return mkc(0, 1); }
  if (op == O_FLE) { if (hx <= ly) return mkc(1, 1); if (lx > hy) return mkc(0, 1); }
  unsigned W = xbits(std::min(lx, ly), std::max(hx, hy)) + 1; E i = xbuild(a, s, W), j = xbuild(b, s, W);
  return mk(op == O_FEQ ? O_EQ : op == O_FLT ? O_SLT : O_SLE, 1, i, j);
}
static E xtoint(Op op, unsigned w, E a) {
  XI x = xint(a); if (!x.ok) return nullptr; i128 lo = op == O_FPTOSI ? -((i128)1 << (w - 1)) : 0, hi = op == O_FPTOSI ? ((i128)1 << (w - 1)) - 1 : ((i128)1 << w) - 1;
  i128 d = (i128)1 << x.s; if (x.lo / d < lo || x.hi / d > hi) return nullptr;
  unsigned W = std::max(w + 1, xbits(x.lo, x.hi) + 1); E i = xbuild(a, x.s, W);
  if (x.s) i = mk(O_SDIV, W, i, mkc((u128)d, W));
  return mkextract(i, w - 1, 0);
}
bool nowrap(E e) { // signed
  Rng a = srange(e->a), b = srange(e->b); const i128 L = (i128)1 << 62; i128 lo, hi;
  if (e->w > 100) { const i128 M = (i128)1 << 118; if (a.lo < -M || a.hi > M || b.lo < -M || b.hi > M) return false; }
  switch (e->op) { case O_ADD: lo = a.lo + b.lo; hi = a.hi + b.hi; break; case O_SUB: lo = a.lo - b.hi; hi = a.hi - b.lo; break;
    case O_MUL: { if (a.lo < -L || a.hi > L || b.lo < -L || b.hi > L) return false; i128 p[4] = {a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi}; lo = *std::min_element(p, p + 4); hi = *std::max_element(p, p + 4); break; } default: return false; }
  return e->w > 120 || (lo >= -((i128)1 << (e->w - 1)) && hi <= ((i128)1 << (e->w - 1)) - 1);
}

// ---- sums: cancelling equal summands (modulo 2^w), and the exact difference of two sums that do not overflow
typedef std::vector<std::pair<E, u128>> Sum;
static bool sumof(E e, u128 k, Sum& s, u128& c, bool& cancel, bool exact, int depth = 0) {
  if (s.size() > 24 || depth > 24) return false;
  if (isC(e)) { c += k * (exact ? (u128)sgn(e->c, e->w) : e->c); return true; }
  if ((e->op == O_ADD || e->op == O_SUB) && (!exact || nowrap(e))) return sumof(e->a, k, s, c, cancel, exact, depth + 1) && sumof(e->b, e->op == O_ADD ? k : -k, s, c, cancel, exact, depth + 1);
  if (e->op == O_MUL && isC(e->b) && (!exact || nowrap(e))) { u128 m = exact ? (u128)sgn(e->b->c, e->w) : e->b->c; i128 q = (i128)k * (i128)m; if (!exact || (q < ((i128)1 << 60) && q > -((i128)1 << 60))) return sumof(e->a, exact ? (u128)q : k * m, s, c, cancel, exact, depth + 1); }
  for (auto& t : s) if (t.first == e) { t.second += k; if (!maskw(t.second, exact ? 128 : e->w)) cancel = true; return true; }
  s.push_back({e, k}); return true;
}
static E sumbuild(const Sum& s, u128 c, unsigned w) {
  E r = nullptr; for (int pass = 0; pass < 2; pass++) for (auto& t : s) { u128 k = maskw(t.second, w); if (!k) continue; bool neg = sgn(k, w) < 0; if (neg != (pass == 1)) continue; u128 m = neg ? maskw(-k, w) : k; E x = m == 1 ? t.first : mk(O_MUL, w, t.first, mkc(m, w)); r = !r ? (neg ? mk(O_SUB, w, mkc(0, w), x) : x) : mk(neg ? O_SUB : O_ADD, w, r, x); }
  c = maskw(c, w); if (!r) return mkc(c, w); return c ? mk(O_ADD, w, r, mkc(c, w)) : r;
}
static E cancelled(Op op, unsigned w, E a, E b) {
  auto comp = [](E e) { return e->op == O_ADD || e->op == O_SUB; }; if (!comp(a) && !comp(b)) return nullptr; Sum s; u128 c = 0; bool can = false;
  if (!sumof(a, 1, s, c, can, false) || !sumof(b, op == O_ADD ? 1 : (u128)-1, s, c, can, false) || !can) return nullptr; return sumbuild(s, c, w);
}
static bool difference(E a, E b, Rng& r) { // the interval of b - a over the integers, when they share a summand
  auto comp = [](E e) { return e->op == O_ADD || e->op == O_SUB; }; if (a->w > 64 || (!comp(a) && !comp(b))) return false; Sum s; u128 c = 0; bool can = false;
  if (!sumof(b, 1, s, c, can, true) || !sumof(a, (u128)-1, s, c, can, true) || !can) return false;
  r.lo = r.hi = (i128)c; for (auto& t : s) { i128 k = (i128)t.second; if (!k) continue; if (k > ((i128)1 << 50) || k < -((i128)1 << 50)) return false; Rng x = srange(t.first); r.lo += k > 0 ? k * x.lo : k * x.hi; r.hi += k > 0 ? k * x.hi : k * x.lo; } return true;
}
bool g_nofold = false;
E mk(Op op, unsigned w, E a, E b, E d, u128 c) {
  if (op == O_ITE) return mkite(a, b, d);
  if (op == O_EXTRACT) return mkextract(a, (unsigned)c + w - 1, (unsigned)c);
  if (op == O_ZEXT) return mkzext(a, w);
  if (op == O_SEXT) return mksext(a, w);
  if (op == O_CONCAT) return mkconcat(a, b);
  if (op == O_FPTOSI || op == O_FPTOUI || op == O_FBITS || op == O_FEQ || op == O_FLT || op == O_FLE || op == O_FUNO) {
    if (a->op == O_FCONST && (!b || b->op == O_FCONST)) {
      long double x = a->fc, y = b ? b->fc : 0;
      switch (op) {
        case O_FEQ: return mkc(x == y, 1);
        case O_FLT: return mkc(x < y, 1);
        case O_FLE: return mkc(x <= y, 1);
        case O_FUNO: return mkc(std::isnan(x) || std::isnan(y), 1);
        case O_FPTOSI: if (std::isnan(x) || !(x < ldexpl(1, w - 1)) || !(x > -ldexpl(1, w - 1) - 1)) return mkc((u128)1 << (w - 1), w); return mkc((u128)(i128)x, w);
        case O_FPTOUI: if (std::isnan(x) || std::fabs(x) > 1e37L) return mkc(0, w); return x < 0 ? mkc((u128)(i128)x, w) : mkc((u128)x, w);
        case O_FBITS: {
          if (a->w == 32) { float f = x; u32 u; memcpy(&u, &f, 4); return mkc(u, 32); }
          if (a->w == 64) { double f = x; u64 u; memcpy(&u, &f, 8); return mkc(u, 64); }
          u128 u = 0; memcpy(&u, &x, 10); return mkc(u, 80);
        }
        default:;
      }
    }
    if (op == O_FLT && a == b) return mkc(0, 1);
    if (!g_nofold && (op == O_FLT || op == O_FLE || op == O_FEQ || op == O_FUNO)) {
      auto iv = [](E e) { FI f = fint(e); if (!f.ok && e->op == O_FCONST && !std::isnan(e->fc)) { f.ok = true; f.lo = f.hi = e->fc; } return f; }; FI x = iv(a), y = iv(b);
      if (x.ok && y.ok) { if (op == O_FUNO) return mkc(0, 1); if (op == O_FEQ && a == b) return mkc(1, 1); if (op == O_FLT) { if (x.hi < y.lo) return mkc(1, 1); if (x.lo >= y.hi) return mkc(0, 1); } if (op == O_FLE) { if (x.hi <= y.lo) return mkc(1, 1); if (x.lo > y.hi) return mkc(0, 1); } if (op == O_FEQ && (x.hi < y.lo || y.hi < x.lo)) return mkc(0, 1); }
    }
    if (op == O_FEQ || op == O_FLT || op == O_FLE || op == O_FUNO) { if (E r = xcmp(op, a, b)) return r; }
    if ((op == O_FPTOSI || op == O_FPTOUI) && w <= 64) { if (E r = xtoint(op, w, a)) return r; }
    if (op == O_FBITS && a->op == O_BITSF) return a->a;
    if (op == O_FBITS && a->op == O_FITE) return mkite(a->a, mk(O_FBITS, w, a->b), mk(O_FBITS, w, a->d));
    return intern(op, w, false, c, 0, a, b, d);
  }
  bool cmp = op >= O_EQ && op <= O_SLE;
  if (isC(a) && isC(b)) return mkc(foldbv(op, w, a->c, b->c, a->w), w);
  switch (op) {
    case O_ADD:
      if (isC(a)) std::swap(a, b);
      if (isC(b)) { if (!b->c) return a; if (a->op == O_ADD && isC(a->b)) return mk(O_ADD, w, a->a, mkc(a->b->c + b->c, w)); if (iteconst(a)) goto distr; }
      if (w > 1) if (E r = cancelled(op, w, a, b)) return r;
      break;
    case O_SUB:
      if (a == b) return mkc(0, w);
      if (isC(b)) return mk(O_ADD, w, a, mkc(-b->c, w));
      if (a->op == O_ADD && isC(a->b) && b->op == O_ADD && isC(b->b) && a->a == b->a) return mkc(a->b->c - b->b->c, w);
      if (a->op == O_ADD && a->a == b) return a->b;
      if (w > 1) if (E r = cancelled(op, w, a, b)) return r;
      break;
    case O_MUL:
      if (isC(a)) std::swap(a, b);
      if (isC(b)) { if (b->c == 0) return b; if (b->c == 1) return a; if (iteconst(a)) goto distr; }
      break;
    case O_UDIV: case O_SDIV: if (isC(b) && b->c == 1 && w > 1) return a; break;
    case O_SHL: case O_LSHR: case O_ASHR: if (isC(b) && b->c == 0) return a;
      if (isC(b) && op == O_SHL && b->c < w) return mkconcat(mkextract(a, w - 1 - (unsigned)b->c, 0), mkc(0, (unsigned)b->c));
      if (isC(b) && op == O_LSHR && b->c < w) return mkzext(mkextract(a, w - 1, (unsigned)b->c), w);
      break;
    case O_AND:
      if (a == b) return a; if (isC(a)) std::swap(a, b);
      if (isC(b)) { if (!b->c) return b; if (b->c == maskw(~(u128)0, w)) return a;
        // mask of low bits
        u128 m = b->c; if ((m & (m + 1)) == 0) { unsigned n = 0; while ((m >> n) & 1) n++; return mkzext(mkextract(a, n - 1, 0), w); } }
      if (w == 1 && (a == mknot(b))) return mkc(0, 1);
      break;
    case O_OR:
      if (a == b) return a; if (isC(a)) std::swap(a, b);
      if (isC(b)) { if (!b->c) return a; if (b->c == maskw(~(u128)0, w)) return b; }
      if (w == 1 && (a == mknot(b))) return mkc(1, 1);
      // or of disjoint pieces: (x << k) | zext(y)
      if (a->op == O_ZEXT && b->op == O_CONCAT && isC(b->b) && b->b->c == 0 && a->a->w <= b->b->w) return mkconcat(b->a, mkzext(a->a, b->b->w));
      if (b->op == O_ZEXT && a->op == O_CONCAT && isC(a->b) && a->b->c == 0 && b->a->w <= a->b->w) return mkconcat(a->a, mkzext(b->a, a->b->w));
      break;
    case O_XOR:
      if (a == b) return mkc(0, w); if (isC(a)) std::swap(a, b);
      if (isC(b) && !b->c) return a;
      if (w == 1 && isC(b)) return mknot(a);
      break;
    case O_EQ:
      if (a == b) return mkc(1, 1); if (isC(a)) std::swap(a, b);
      if (isC(b)) {
        if (a->w == 1) return b->c ? a : mknot(a);
        if (a->op == O_ZEXT) { unsigned aw = a->a->w; if (b->c >> aw) return mkc(0, 1); return mk(O_EQ, 1, a->a, mkc(b->c, aw)); }
        if (a->op == O_SEXT) { unsigned aw = a->a->w; if (maskw((u128)sgn(b->c, aw), a->w) != b->c) return mkc(0, 1); return mk(O_EQ, 1, a->a, mkc(b->c, aw)); }
        if (a->op == O_ADD && isC(a->b)) return mk(O_EQ, 1, a->a, mkc(b->c - a->b->c, a->w));
        if (a->op == O_ITE && (isC(a->b) || isC(a->d))) return mkite(a->a, mk(O_EQ, 1, a->b, b), mk(O_EQ, 1, a->d, b));
      }
      break;
    case O_ULT: if (a == b) return mkc(0, 1); if (isC(b) && !b->c) return mkc(0, 1);
      if (isC(b) && b->c == 1) return mk(O_EQ, 1, a, mkc(0, a->w));
      if (a->op == O_ZEXT && isC(b)) { unsigned aw = a->a->w; if (b->c >> aw) return mkc(1, 1); return mk(O_ULT, 1, a->a, mkc(b->c, aw)); }
      if (b->op == O_ZEXT && isC(a)) { unsigned aw = b->a->w; if (a->c >> aw) return mkc(0, 1); return mk(O_ULT, 1, mkc(a->c, aw), b->a); }
      if (iteconst(a) && isC(b)) goto distr; if (iteconst(b) && isC(a)) goto distr;
      break;
    case O_ULE: if (a == b) return mkc(1, 1); return mknot(mk(O_ULT, 1, b, a));
    case O_SLT: if (a == b) return mkc(0, 1);
      if (a->op == O_ZEXT && isC(b) && a->w > a->a->w) { if (sgn(b->c, b->w) <= 0) return mkc(0, 1); return mk(O_ULT, 1, a, b); }
      if (b->op == O_ZEXT && isC(a) && b->w > b->a->w) { if (sgn(a->c, a->w) < 0) return mkc(1, 1); return mk(O_ULT, 1, a, b); }
      if (iteconst(a) && isC(b)) goto distr; if (iteconst(b) && isC(a)) goto distr;
      break;
    case O_SLE: if (a == b) return mkc(1, 1); return mknot(mk(O_SLT, 1, b, a));
    default:;
  }
  if (0) {
  distr:
    if (a->op == O_ITE) return mkite(a->a, mk(op, w, a->b, b), mk(op, w, a->d, b));
    if (b->op == O_ITE) return mkite(b->a, mk(op, w, a, b->b), mk(op, w, a, b->d));
  }
  (void)cmp;
  if (!g_nofold) { // decided by the intervals alone
    if ((op == O_SLT || op == O_ULT) && a->w <= 120) { Rng x = op == O_SLT ? srange(a) : urange(a), y = op == O_SLT ? srange(b) : urange(b); if (x.hi < y.lo) return mkc(1, 1); if (x.lo >= y.hi) return mkc(0, 1); Rng d; if (op == O_SLT && difference(a, b, d)) { if (d.lo > 0) return mkc(1, 1); if (d.hi <= 0) return mkc(0, 1); } }
    else if (op == O_EQ && w == 1 && !a->fp && a->w > 1 && a->w <= 120) { Rng x = urange(a), y = urange(b); if (x.hi < y.lo || y.hi < x.lo) return mkc(0, 1); x = srange(a); y = srange(b); if (x.hi < y.lo || y.hi < x.lo) return mkc(0, 1); Rng d; if (difference(a, b, d)) { if (d.lo > 0 || d.hi < 0) return mkc(0, 1); if (d.lo == 0 && d.hi == 0) return mkc(1, 1); } }
    else if ((op == O_SDIV || op == O_UDIV || op == O_ASHR || op == O_LSHR) && isC(b) && b->c && w <= 120) { E e = intern(op, w, false, c, 0, a, b, d); Rng x = srange(e); if (x.lo == x.hi) return mkc((u128)x.lo, w); return e; }
  }
  return intern(op, w, false, c, 0, a, b, d);
}

static long double fprnd(long double x, int mode) {
  switch (mode) { case 0: return floorl(x); case 1: return ceill(x); case 2: return truncl(x); case 3: return roundl(x); default: return nearbyintl(x); }
}
static long double fop(Op op, unsigned w, long double x, long double y) {
  if (w == 32) { volatile float a = x, b = y; float r; switch (op) { case O_FADD: r = a + b; break; case O_FSUB: r = a - b; break; case O_FMUL: r = a * b; break; default: r = a / b; } return r; }
  if (w == 64) { volatile double a = x, b = y; double r; switch (op) { case O_FADD: r = a + b; break; case O_FSUB: r = a - b; break; case O_FMUL: r = a * b; break; default: r = a / b; } return r; }
  switch (op) { case O_FADD: return x + y; case O_FSUB: return x - y; case O_FMUL: return x * y; default: return x / y; }
}
static long double int2fp(u128 v, unsigned aw, unsigned w, bool sg) {
  if (aw <= 64) { if (sg) { i64 s = (i64)sgn(v, aw); return w == 32 ? (long double)(float)s : w == 64 ? (long double)(double)s : (long double)s; }
    u64 s = (u64)v; return w == 32 ? (long double)(float)s : w == 64 ? (long double)(double)s : (long double)s; }
  if (sg) { i128 s = sgn(v, aw); return w == 32 ? (long double)(float)s : w == 64 ? (long double)(double)s : (long double)s; }
  return w == 32 ? (long double)(float)v : w == 64 ? (long double)(double)v : (long double)v;
}
E mkf(Op op, unsigned w, E a, E b, E d, u128 c) {
  switch (op) {
    case O_FITE: return mkite(a, b, d);
    case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV:
      if (a->op == O_FCONST && b->op == O_FCONST) return mkfc(fop(op, w, a->fc, b->fc), w);
      if ((op == O_FADD || op == O_FMUL) && b->op != O_FCONST && (a->op == O_FCONST || a->id > b->id)) std::swap(a, b);
      if (op == O_FMUL && b->op == O_FCONST && b->fc == 1.0L) return a;
      if (op == O_FMUL && a->op == O_FCONST && a->fc == 1.0L) return b;
      if (op == O_FDIV && b->op == O_FCONST && b->fc == 1.0L) return a;
      break;
    case O_FNEG: if (a->op == O_FCONST) return mkfc(-a->fc, w); if (a->op == O_FNEG) return a->a; break;
    case O_FABS: if (a->op == O_FCONST) return mkfc(fabsl(a->fc), w); break;
    case O_FRND: if (a->op == O_FCONST) return mkfc(fprnd(a->fc, (int)c), w);
      if (a->op == O_SITOFP || a->op == O_UITOFP) return a; break;
    case O_FCONV: if (a->w == w) return a; if (a->op == O_FCONST) return mkfc(a->fc, w);
      if (a->op == O_FCONV && a->w > a->a->w && a->a->w == w) return a->a; // widen then narrow back
      if (a->op == O_FITE) return mkite(a->a, mkf(O_FCONV, w, a->b), mkf(O_FCONV, w, a->d));
      if (a->op == O_FCONV && a->w > a->a->w && w > a->w) return mkf(O_FCONV, w, a->a);
      if ((a->op == O_SITOFP || a->op == O_UITOFP) && w > a->w && xint(a).ok) return mkf(a->op, w, a->a);
      // int -> fp exactly representable in the wider type
      break;
    case O_SITOFP: if (isC(a)) return mkfc(int2fp(a->c, a->w, w, true), w); break;
    case O_UITOFP: if (isC(a)) return mkfc(int2fp(a->c, a->w, w, false), w); break;
    case O_BITSF:
      if (isC(a)) { if (w == 32) { u32 u = (u32)a->c; float f; memcpy(&f, &u, 4); return mkfc(f, 32); }
        if (w == 64) { u64 u = (u64)a->c; double f; memcpy(&f, &u, 8); return mkfc(f, 64); }
        long double f = 0; u128 u = a->c; memcpy(&f, &u, 10); return mkfc(f, 80); }
      if (a->op == O_FBITS) return a->a;
      if (a->op == O_ITE) return mkite(a->a, mkf(O_BITSF, w, a->b), mkf(O_BITSF, w, a->d));
      break;
    default:;
  }
  return intern(op, w, true, c, 0, a, b, d);
}
long double callfun(int code, unsigned w, long double a, long double b) {
  bool d = w == 64; bool f = w == 32;
  switch (code) {
    case 0: return d ? pow((double)a, (double)b) : f ? powf(a, b) : powl(a, b);
    case 1: return d ? exp((double)a) : f ? expf(a) : expl(a);
    case 2: return d ? log((double)a) : f ? logf(a) : logl(a);
    case 3: return d ? sqrt((double)a) : f ? sqrtf(a) : sqrtl(a);
    case 4: return d ? fmod((double)a, (double)b) : f ? fmodf(a, b) : fmodl(a, b);
    case 5: return d ? exp2((double)a) : f ? exp2f(a) : exp2l(a);
    case 6: return d ? log2((double)a) : f ? log2f(a) : log2l(a);
    case 7: return d ? expm1((double)a) : f ? expm1f(a) : expm1l(a);
    case 8: return d ? log1p((double)a) : f ? log1pf(a) : log1pl(a);
    case 9: return d ? log10((double)a) : f ? log10f(a) : log10l(a);
    case 10: return d ? cbrt((double)a) : f ? cbrtf(a) : cbrtl(a);
    case 11: return d ? hypot((double)a, (double)b) : f ? hypotf(a, b) : hypotl(a, b);
    case 12: return d ? nextafter((double)a, (double)b) : f ? nextafterf(a, b) : nextafterl(a, b);
    case 13: return d ? remainder((double)a, (double)b) : f ? remainderf(a, b) : remainderl(a, b);
    case 14: return d ? fdim((double)a, (double)b) : f ? fdimf(a, b) : fdiml(a, b);
    case 15: return d ? sin((double)a) : f ? sinf(a) : sinl(a);
    case 16: return d ? cos((double)a) : f ? cosf(a) : cosl(a);
    case 17: return d ? tanh((double)a) : f ? tanhf(a) : tanhl(a);
    case 18: return d ? logb((double)a) : f ? logbf(a) : logbl(a);
  }
  return 0;
}
E mkfun(int code, unsigned w, E a, E b) {
  if (a->op == O_FCONST && (!b || b->op == O_FCONST)) return mkfc(callfun(code, w, a->fc, b ? b->fc : 0), w);
  return intern(O_FUN, w, true, code, 0, a, b, 0);
}

MVal Eval::ev(E e) {
  if (e->op == O_CONST) { MVal r; r.i = e->c; return r; }
  if (e->op == O_FCONST) { MVal r; r.f = e->fc; return r; }
  if (e->op == O_VAR || e->op == O_FVAR) { MVal r = m.get((u32)e->c); if (!e->fp) r.i = maskw(r.i, e->w); else r.f = rnd(r.f, e->w); return r; }
  auto it = memo.find(e->id); if (it != memo.end()) return it->second;
  MVal r;
  switch (e->op) {
    case O_ITE: case O_FITE: r = truth(e->a) ? ev(e->b) : ev(e->d); break;
    case O_AND: if (e->w == 1) { r.i = truth(e->a) ? ev(e->b).i & 1 : 0; break; } r.i = ev(e->a).i & ev(e->b).i; break;
    case O_OR: if (e->w == 1) { r.i = truth(e->a) ? 1 : ev(e->b).i & 1; break; } r.i = ev(e->a).i | ev(e->b).i; break;
    case O_EXTRACT: r.i = maskw(ev(e->a).i >> (unsigned)e->c, e->w); break;
    case O_ZEXT: r.i = ev(e->a).i; break;
    case O_SEXT: r.i = maskw((u128)sgn(ev(e->a).i, e->a->w), e->w); break;
    case O_CONCAT: r.i = (ev(e->a).i << e->b->w) | ev(e->b).i; break;
    case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: r.f = fop(e->op, e->w, ev(e->a).f, ev(e->b).f); break;
    case O_FNEG: r.f = -ev(e->a).f; break;
    case O_FABS: r.f = fabsl(ev(e->a).f); break;
    case O_FRND: r.f = fprnd(ev(e->a).f, (int)e->c); break;
    case O_FCONV: r.f = rnd(ev(e->a).f, e->w); break;
    case O_SITOFP: r.f = int2fp(ev(e->a).i, e->a->w, e->w, true); break;
    case O_UITOFP: r.f = int2fp(ev(e->a).i, e->a->w, e->w, false); break;
    case O_FUN: r.f = callfun((int)e->c, e->w, ev(e->a).f, e->b ? ev(e->b).f : 0); break;
    case O_BITSF: r.f = mkf(O_BITSF, e->w, mkc(ev(e->a).i, e->a->w))->fc; break;
    case O_FPTOSI: case O_FPTOUI: case O_FBITS: r.i = mk(e->op, e->w, mkfc(ev(e->a).f, e->a->w))->c; break;
    case O_FEQ: r.i = ev(e->a).f == ev(e->b).f; break;
    case O_FLT: r.i = ev(e->a).f < ev(e->b).f; break;
    case O_FLE: r.i = ev(e->a).f <= ev(e->b).f; break;
    case O_FUNO: r.i = std::isnan(ev(e->a).f) || std::isnan(ev(e->b).f); break;
    default: r.i = foldbv(e->op, e->w, ev(e->a).i, ev(e->b).i, e->a->w);
  }
  memo[e->id] = r; return r;
}

std::string show(E e, int depth) {
  static const char* n[] = {"const","var","+","-","*","udiv","sdiv","urem","srem","shl","lshr","ashr","and","or","xor","concat","extract","zext","sext","ite","=","ult","ule","slt","sle",
    "fconst","fvar","f+","f-","f*","f/","fneg","fabs","frnd","fconv","sitofp","uitofp","fite","bitsf","fun","fptosi","fptoui","fbits","feq","flt","fle","funo"};
  std::ostringstream o;
  if (e->op == O_CONST) { i128 s = sgn(e->c, e->w); o << (long long)s << ":" << e->w; return o.str(); }
  if (e->op == O_FCONST) { o << e->fc; return o.str(); }
  if (e->op == O_VAR || e->op == O_FVAR) return g_vars[(u32)e->c].name;
  if (depth <= 0) return "...";
  o << "(" << n[e->op] << e->w; if (e->op == O_EXTRACT) o << "@" << (int)e->c;
  if (e->a) o << " " << show(e->a, depth - 1); if (e->b) o << " " << show(e->b, depth - 1); if (e->d) o << " " << show(e->d, depth - 1);
  o << ")"; return o.str();
}

// ------------------------------------------------------------------ Z3, exact translation
static void z3err(Z3_context c, Z3_error_code e) { std::cerr << "Z3 error: " << Z3_get_error_msg(c, e) << "\n"; _exit(3); }
void solver_init() {
  Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true");
  C = Z3_mk_context(cfg); Z3_set_error_handler(C, z3err);
}
static Z3_sort fsort(unsigned w) { return w == 32 ? Z3_mk_fpa_sort_32(C) : w == 64 ? Z3_mk_fpa_sort_64(C) : Z3_mk_fpa_sort(C, 15, 64); }
static Z3_ast bvnum(u128 v, unsigned w) {
  if (w <= 64) return Z3_mk_unsigned_int64(C, (u64)v, Z3_mk_bv_sort(C, w));
  return Z3_mk_concat(C, Z3_mk_unsigned_int64(C, (u64)(v >> 64), Z3_mk_bv_sort(C, w - 64)), Z3_mk_unsigned_int64(C, (u64)v, Z3_mk_bv_sort(C, 64)));
}
static std::string ldrat(long double v) { // exact rational text "n/d"
  int ex; long double m = frexpl(fabsl(v), &ex); // v = m * 2^ex, m in [0.5,1)
  u64 mi = (u64)ldexpl(m, 64); ex -= 64;
  while (mi && !(mi & 1)) { mi >>= 1; ex++; }
  if (!mi) return "0";
  // big integer 2^|ex|
  std::vector<u32> big{1};
  for (int i = 0; i < std::abs(ex); i++) { u32 carry = 0; for (auto& x : big) { u64 t = ((u64)x << 1) | carry; x = (u32)(t % 1000000000u); carry = (u32)(t / 1000000000u); } if (carry) big.push_back(carry); }
  auto tostr = [](const std::vector<u32>& b) { std::string s = std::to_string(b.back()); char buf[16]; for (int i = (int)b.size() - 2; i >= 0; i--) { snprintf(buf, 16, "%09u", b[i]); s += buf; } return s; };
  std::string s;
  if (ex >= 0) { // multiply
    std::vector<u32> r; unsigned __int128 carry = 0; for (auto x : big) { u128 t = (u128)x * mi + carry; r.push_back((u32)(t % 1000000000u)); carry = t / 1000000000u; }
    while (carry) { r.push_back((u32)(carry % 1000000000u)); carry /= 1000000000u; }
    s = tostr(r);
  } else s = std::to_string(mi) + "/" + tostr(big);
  return v < 0 ? "-" + s : s;
}
static Z3_ast TR(E e);
static Z3_ast BVof(E e) { Z3_ast z = TR(e); if (e->w == 1 && !e->fp) return Z3_mk_ite(C, z, bvnum(1, 1), bvnum(0, 1)); return z; }
static Z3_ast fpconst(long double v, unsigned w) {
  Z3_sort s = fsort(w);
  if (std::isnan(v)) return Z3_mk_fpa_nan(C, s);
  if (std::isinf(v)) return Z3_mk_fpa_inf(C, s, v < 0);
  if (v == 0) return Z3_mk_fpa_zero(C, s, std::signbit(v));
  if (w == 64) return Z3_mk_fpa_numeral_double(C, (double)v, s);
  if (w == 32) return Z3_mk_fpa_numeral_float(C, (float)v, s);
  // build from sign/exponent/significand
  unsigned char b[16]; memcpy(b, &v, 10); u64 m; memcpy(&m, b, 8); unsigned se = b[8] | b[9] << 8;
  return Z3_mk_fpa_fp(C, bvnum(se >> 15, 1), bvnum(se & 0x7fff, 15), bvnum(m & 0x7fffffffffffffffull, 63));
}
static Z3_ast B2(bool v) { return v ? Z3_mk_true(C) : Z3_mk_false(C); }
static Z3_ast TR(E e) {
  if (e->z) return e->z;
  Z3_ast r = nullptr; Z3_ast rne = Z3_mk_fpa_rne(C);
  bool b1 = e->w == 1 && !e->fp;
  switch (e->op) {
    case O_CONST: r = b1 ? B2(e->c & 1) : bvnum(e->c, e->w); break;
    case O_VAR: { Z3_symbol s = Z3_mk_string_symbol(C, ("v" + std::to_string((u32)e->c)).c_str()); r = Z3_mk_const(C, s, b1 ? Z3_mk_bool_sort(C) : Z3_mk_bv_sort(C, e->w)); break; }
    case O_FVAR: { Z3_symbol s = Z3_mk_string_symbol(C, ("v" + std::to_string((u32)e->c)).c_str()); r = Z3_mk_const(C, s, fsort(e->w)); break; }
    case O_FCONST: r = fpconst(e->fc, e->w); break;
    case O_AND: if (b1) { Z3_ast x[2] = {TR(e->a), TR(e->b)}; r = Z3_mk_and(C, 2, x); } else r = Z3_mk_bvand(C, TR(e->a), TR(e->b)); break;
    case O_OR: if (b1) { Z3_ast x[2] = {TR(e->a), TR(e->b)}; r = Z3_mk_or(C, 2, x); } else r = Z3_mk_bvor(C, TR(e->a), TR(e->b)); break;
    case O_XOR: if (b1) { if (e->b->op == O_CONST && e->b->c) r = Z3_mk_not(C, TR(e->a)); else r = Z3_mk_xor(C, TR(e->a), TR(e->b)); } else r = Z3_mk_bvxor(C, TR(e->a), TR(e->b)); break;
    case O_ITE: r = Z3_mk_ite(C, TR(e->a), TR(e->b), TR(e->d)); break;
    case O_FITE: r = Z3_mk_ite(C, TR(e->a), TR(e->b), TR(e->d)); break;
    case O_EQ: r = Z3_mk_eq(C, TR(e->a), TR(e->b)); break;
#define BIN(o, f) case o: r = f(C, BVof(e->a), BVof(e->b)); if (b1 && e->op < O_EQ) r = Z3_mk_eq(C, r, bvnum(1, 1)); break;
    BIN(O_ADD, Z3_mk_bvadd) BIN(O_SUB, Z3_mk_bvsub) BIN(O_MUL, Z3_mk_bvmul) BIN(O_UDIV, Z3_mk_bvudiv) BIN(O_SDIV, Z3_mk_bvsdiv)
    BIN(O_UREM, Z3_mk_bvurem) BIN(O_SREM, Z3_mk_bvsrem) BIN(O_SHL, Z3_mk_bvshl) BIN(O_LSHR, Z3_mk_bvlshr) BIN(O_ASHR, Z3_mk_bvashr)
    BIN(O_ULT, Z3_mk_bvult) BIN(O_ULE, Z3_mk_bvule) BIN(O_SLT, Z3_mk_bvslt) BIN(O_SLE, Z3_mk_bvsle)
    case O_CONCAT: r = Z3_mk_concat(C, BVof(e->a), BVof(e->b)); break;
    case O_EXTRACT: r = Z3_mk_extract(C, (unsigned)e->c + e->w - 1, (unsigned)e->c, BVof(e->a)); if (b1) r = Z3_mk_eq(C, r, bvnum(1, 1)); break;
    case O_ZEXT: if (e->a->w == 1) r = Z3_mk_ite(C, TR(e->a), bvnum(1, e->w), bvnum(0, e->w)); else r = Z3_mk_zero_ext(C, e->w - e->a->w, TR(e->a)); break;
    case O_SEXT: if (e->a->w == 1) r = Z3_mk_ite(C, TR(e->a), bvnum(~(u128)0 & maskw(~(u128)0, e->w), e->w), bvnum(0, e->w)); else r = Z3_mk_sign_ext(C, e->w - e->a->w, TR(e->a)); break;
    case O_FADD: r = Z3_mk_fpa_add(C, rne, TR(e->a), TR(e->b)); break;
    case O_FSUB: r = Z3_mk_fpa_sub(C, rne, TR(e->a), TR(e->b)); break;
    case O_FMUL: r = Z3_mk_fpa_mul(C, rne, TR(e->a), TR(e->b)); break;
    case O_FDIV: r = Z3_mk_fpa_div(C, rne, TR(e->a), TR(e->b)); break;
    case O_FNEG: r = Z3_mk_fpa_neg(C, TR(e->a)); break;
    case O_FABS: r = Z3_mk_fpa_abs(C, TR(e->a)); break;
    case O_FRND: { Z3_ast m = e->c == 0 ? Z3_mk_fpa_rtn(C) : e->c == 1 ? Z3_mk_fpa_rtp(C) : e->c == 2 ? Z3_mk_fpa_rtz(C) : e->c == 3 ? Z3_mk_fpa_rna(C) : rne; r = Z3_mk_fpa_round_to_integral(C, m, TR(e->a)); break; }
    case O_FCONV: r = Z3_mk_fpa_to_fp_float(C, rne, TR(e->a), fsort(e->w)); break;
    case O_SITOFP: r = Z3_mk_fpa_to_fp_signed(C, rne, BVof(e->a), fsort(e->w)); break;
    case O_UITOFP: r = Z3_mk_fpa_to_fp_unsigned(C, rne, BVof(e->a), fsort(e->w)); break;
    case O_BITSF: if (e->w == 80) { Z3_ast x = BVof(e->a); Z3_ast y = Z3_mk_concat(C, Z3_mk_extract(C, 79, 64, x), Z3_mk_extract(C, 62, 0, x)); r = Z3_mk_fpa_to_fp_bv(C, y, fsort(80)); } else r = Z3_mk_fpa_to_fp_bv(C, BVof(e->a), fsort(e->w)); break;
    case O_FBITS: { Z3_ast x = Z3_mk_fpa_to_ieee_bv(C, TR(e->a)); if (e->w == 80) { Z3_ast ex = Z3_mk_extract(C, 77, 63, x); Z3_ast ib = Z3_mk_ite(C, Z3_mk_eq(C, ex, bvnum(0, 15)), bvnum(0, 1), bvnum(1, 1));
        x = Z3_mk_concat(C, Z3_mk_extract(C, 78, 63, x), Z3_mk_concat(C, ib, Z3_mk_extract(C, 62, 0, x))); } r = x; break; }
    case O_FUN: { Z3_sort dom[2] = {fsort(e->a->w), e->b ? fsort(e->b->w) : fsort(e->a->w)}; Z3_func_decl f = Z3_mk_func_decl(C, Z3_mk_string_symbol(C, ("fun" + std::to_string((int)e->c) + "_" + std::to_string(e->w)).c_str()), e->b ? 2 : 1, dom, fsort(e->w));
        Z3_ast x[2] = {TR(e->a), e->b ? TR(e->b) : nullptr}; r = Z3_mk_app(C, f, e->b ? 2 : 1, x); break; }
    case O_FPTOSI: r = Z3_mk_fpa_to_sbv(C, Z3_mk_fpa_rtz(C), TR(e->a), e->w); break;
    case O_FPTOUI: r = Z3_mk_fpa_to_ubv(C, Z3_mk_fpa_rtz(C), TR(e->a), e->w); break;
    case O_FEQ: r = Z3_mk_fpa_eq(C, TR(e->a), TR(e->b)); break;
    case O_FLT: r = Z3_mk_fpa_lt(C, TR(e->a), TR(e->b)); break;
    case O_FLE: r = Z3_mk_fpa_leq(C, TR(e->a), TR(e->b)); break;
    case O_FUNO: { Z3_ast x[2] = {Z3_mk_fpa_is_nan(C, TR(e->a)), Z3_mk_fpa_is_nan(C, TR(e->b))}; r = Z3_mk_or(C, 2, x); break; }
    default: abort();
  }
  e->z = r; return r;
}
static bool parse_dec128(const char* s, u128& out) { out = 0; for (; *s; s++) { if (*s < '0' || *s > '9') return false; out = out * 10 + (*s - '0'); } return true; }

static bool hasfp(E e, std::unordered_map<u32, bool>& memo) {
  auto it = memo.find(e->id); if (it != memo.end()) return it->second;
  bool r = e->fp || (e->op >= O_FPTOSI) || (e->a && hasfp(e->a, memo)) || (e->b && hasfp(e->b, memo)) || (e->d && hasfp(e->d, memo));
  return memo[e->id] = r;
}
static std::unordered_map<u32, bool> fpmemo;
Res solve_real(const std::vector<E>& cs, const ModelP& base, ModelP* out, Z3_context C, bool pure, unsigned ms); // real.cpp
std::string ld_rational(long double v) { return ldrat(v); }

// equalities among the constraints, used to rewrite the others (var := expression)
static bool occurs(u32 v, E e) { return std::binary_search(e->vars->v.begin(), e->vars->v.end(), v); }
static E subst(E e, const std::map<u32, E>& m, std::unordered_map<u32, E>& memo) {
  bool hit = false; for (u32 v : e->vars->v) if (m.count(v)) { hit = true; break; } if (!hit) return e;
  auto it = memo.find(e->id); if (it != memo.end()) return it->second; E r;
  if (e->op == O_VAR || e->op == O_FVAR) r = m.at((u32)e->c);
  else {
    E a = e->a ? subst(e->a, m, memo) : nullptr, b = e->b ? subst(e->b, m, memo) : nullptr, d = e->d ? subst(e->d, m, memo) : nullptr;
    switch (e->op) {
      case O_EXTRACT: r = mkextract(a, (unsigned)e->c + e->w - 1, (unsigned)e->c); break; case O_ZEXT: r = mkzext(a, e->w); break; case O_SEXT: r = mksext(a, e->w); break; case O_CONCAT: r = mkconcat(a, b); break;
      case O_ITE: case O_FITE: r = mkite(a, b, d); break; case O_FUN: r = mkfun((int)e->c, e->w, a, b); break;
      case O_XOR: if (e->w == 1 && b->op == O_CONST && (b->c & 1)) { r = mknot(a); break; } // fall through
      default: r = e->fp ? mkf(e->op, e->w, a, b, d, e->c) : mk(e->op, e->w, a, b, d, e->c);
    }
  }
  return memo[e->id] = r;
}
static void atoms(E e, bool pos, std::vector<E>& out) { if (e->op == O_XOR && e->w == 1 && isC(e->b) && (e->b->c & 1)) { atoms(e->a, !pos, out); return; } if (e->w == 1 && !e->fp && ((pos && e->op == O_AND) || (!pos && e->op == O_OR))) { atoms(e->a, pos, out); atoms(e->b, pos, out); return; } out.push_back(pos ? e : mknot(e)); }
static bool eqsubst(std::vector<E>& sel) { // rewrites the constraints in place (equivalent); false when they are contradictory
  for (int round = 0; round < 4; round++) {
    std::vector<E> at; for (E e : sel) atoms(e, true, at); std::vector<E> eqs; std::set<std::pair<u32, u32>> le;
    for (E e : at) {
      if (e->op == O_EQ) eqs.push_back(e);
      E n = e; bool neg = false; if (n->op == O_XOR && n->w == 1 && isC(n->b)) { n = n->a; neg = true; }
      E x = nullptr, y = nullptr; if (neg && (n->op == O_SLT || n->op == O_ULT)) { x = n->b; y = n->a; } else if (!neg && (n->op == O_SLE || n->op == O_ULE)) { x = n->a; y = n->b; }
      if (x) { u32 k = (n->op == O_SLT || n->op == O_SLE) ? 0 : 1; (void)k; if (le.count({y->id * 2 + k, x->id})) eqs.push_back(mk(O_EQ, 1, x, y)); le.insert({x->id * 2 + k, y->id}); }
    }
    std::map<u32, E> m; std::vector<E> defs;
    for (E e : eqs) { std::unordered_map<u32, E> memo; E q = subst(e, m, memo); if (q->op != O_EQ) continue; E v = q->a, x = q->b; if (v->op != O_VAR || (x->op == O_VAR && x->c > v->c)) std::swap(v, x); if (v->op != O_VAR || occurs((u32)v->c, x)) continue; std::map<u32, E> one; one[(u32)v->c] = x; for (auto& k : m) { std::unordered_map<u32, E> mm; k.second = subst(k.second, one, mm); } m[(u32)v->c] = x; }
    if (m.empty()) return true;
    std::unordered_map<u32, E> memo; std::vector<E> r; bool changed = false; for (E e : sel) { E q = subst(e, m, memo); if (isC(q)) { if (!(q->c & 1)) return false; continue; } if (q != e) changed = true; r.push_back(q); }
    for (auto& k : m) { E d = mk(O_EQ, 1, g_vars[k.first].e, k.second); if (isC(d)) continue; if (std::find(r.begin(), r.end(), d) == r.end()) r.push_back(d); }
    std::sort(r.begin(), r.end(), [](E a, E b) { return a->id < b->id; }); r.erase(std::unique(r.begin(), r.end()), r.end());
    std::vector<E> old = sel; std::sort(old.begin(), old.end(), [](E a, E b) { return a->id < b->id; }); if (r == old || !changed) { sel = r; return true; } sel = r;
  }
  return true;
}
bool hasfp(E e) { return hasfp(e, fpmemo); }
bool g_quick = false; // the caller can live with no answer
struct CacheEnt { Res r; ModelP m; bool approx; bool quick; };
static std::map<std::vector<u32>, CacheEnt> qcache;

Res solve(const std::vector<E>& cs0, E cond, const ModelP& base, ModelP* out, bool* approx) {
  if (approx) *approx = false;
  if (isC(cond) && !(cond->c & 1)) return UNSAT;
  // slice
  std::vector<E> sel; std::vector<char> used(cs0.size(), 0);
  std::set<u32> vars(cond->vars->v.begin(), cond->vars->v.end());
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < cs0.size(); i++) if (!used[i]) {
      bool hit = false; for (u32 v : cs0[i]->vars->v) if (vars.count(v)) { hit = true; break; }
      if (hit) { used[i] = 1; ch = true; sel.push_back(cs0[i]); for (u32 v : cs0[i]->vars->v) vars.insert(v); }
    }
  }
  if (!isC(cond)) sel.push_back(cond);
  std::vector<u32> key; for (E e : sel) key.push_back(e->id); std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
  auto it = qcache.find(key);
  Res res; ModelP nm; bool ap = false;
  if (it != qcache.end() && (it->second.r != UNKNOWN || !it->second.quick || g_quick)) { g_st.cached++; res = it->second.r; nm = it->second.m; ap = it->second.approx; }
  else {
    auto t0 = std::chrono::steady_clock::now();
    bool fp = false; for (E e : sel) fp = fp || hasfp(e, fpmemo);
    res = UNKNOWN; bool done = false; std::vector<E> orig = sel;
    if (fp) { if (!eqsubst(sel)) { sel = {mkc(0, 1)}; res = UNSAT; done = true; } else { fp = false; for (E e : sel) fp = fp || hasfp(e, fpmemo); } }
    static bool noarith = getenv("VS_NOARITH"); if (!noarith && !done) { res = solve_real(sel, base, &nm, C, !fp, fp ? g_timeout_ms / 2 : std::min(g_timeout_ms / 2, 5000u)); done = res != UNKNOWN; if (done) g_st.realq++; }
    if (!done) {
      ap = false;
      static Z3_solver inc = nullptr; static int incn = 0; static std::unordered_map<u32, Z3_ast> lits; Z3_solver s; bool useinc = !fp && !getenv("VS_NOINC");
      auto settime = [&](Z3_solver q, unsigned ms) { Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p); Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), ms); Z3_solver_set_params(C, q, p); Z3_params_dec_ref(C, p); };
      if (!g_dumpdir.empty()) { static int n = 0; Z3_solver q = Z3_mk_simple_solver(C); Z3_solver_inc_ref(C, q); for (E e : sel) Z3_solver_assert(C, q, TR(e)); std::ofstream f(g_dumpdir + "/q" + std::to_string(n++) + ".smt2"); f << "(set-logic ALL)\n" << Z3_solver_to_string(C, q) << "(check-sat)\n"; Z3_solver_dec_ref(C, q); }
      Z3_lbool r = Z3_L_UNDEF;
      if (useinc) { // one solver kept along the exploration; every constraint is guarded by an assumption literal
        if (!inc || incn > 3000) { if (inc) Z3_solver_dec_ref(C, inc); inc = Z3_mk_simple_solver(C); Z3_solver_inc_ref(C, inc); settime(inc, std::min(g_timeout_ms, 1500u)); incn = 0; lits.clear(); }
        s = inc; std::vector<Z3_ast> as;
        for (E e : sel) { auto& l = lits[e->id]; if (!l) { l = Z3_mk_const(C, Z3_mk_string_symbol(C, ("a" + std::to_string(e->id)).c_str()), Z3_mk_bool_sort(C)); Z3_solver_assert(C, s, Z3_mk_implies(C, l, TR(e))); incn++; } as.push_back(l); }
        r = Z3_solver_check_assumptions(C, s, as.size(), as.data());
        if (r == Z3_L_UNDEF) { useinc = false; Z3_solver_dec_ref(C, inc); inc = nullptr; }
      }
      if (!useinc) {
        s = fp ? Z3_mk_solver(C) : Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_BV"));
        Z3_solver_inc_ref(C, s); settime(s, g_quick && fp ? std::min(g_timeout_ms, 1500u) : g_timeout_ms);
        for (E e : sel) Z3_solver_assert(C, s, TR(e));
        r = Z3_solver_check(C, s);
      }
      res = r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNKNOWN;
      if (res == SAT) {
        nm = std::make_shared<Model>(); nm->v.resize(g_vars.size());
        Z3_model m = Z3_solver_get_model(C, s); Z3_model_inc_ref(C, m);
        for (u32 v : vars) {
          E ve = g_vars[v].e; Z3_ast val; 
          if (!ve->fp) {
            if (!Z3_model_eval(C, m, BVof(ve), true, &val)) continue;
            u128 x; if (parse_dec128(Z3_get_numeral_string(C, val), x)) nm->v[v].i = x;
          } else {
            E bits = mk(O_FBITS, ve->w, ve);
            if (!Z3_model_eval(C, m, TR(ve), true, &val)) continue;
            if (Z3_fpa_is_numeral_nan(C, val)) { nm->v[v].f = NAN; continue; }
            Z3_ast bv; if (!Z3_model_eval(C, m, TR(bits), true, &bv)) continue;
            u128 x; if (parse_dec128(Z3_get_numeral_string(C, bv), x)) nm->v[v].f = mkf(O_BITSF, ve->w, mkc(x, ve->w))->fc;
          }
        }
        Z3_model_dec_ref(C, m);
        Eval ev(*nm); bool ok = true; for (E e : orig) if (!ev.truth(e)) ok = false;
        if (!ok) { g_st.mismatch++; if (getenv("VS_DEBUG")) { std::cerr << "MODEL MISMATCH\n"; for (E e : sel) std::cerr << ev.truth(e) << " " << show(e, 9) << "\n"; for (u32 v : vars) std::cerr << g_vars[v].name << "=" << (double)nm->v[v].f << "/" << (long long)nm->v[v].i << "\n"; } }
      }
      if (!useinc) Z3_solver_dec_ref(C, s);
    }
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    g_st.queries++; g_st.time += dt; g_st.maxtime = std::max(g_st.maxtime, dt);
    if (getenv("VS_SLOW") && dt > atof(getenv("VS_SLOW")) - 1) { std::cerr << "slow query " << dt << "s res=" << res << " n=" << sel.size() << "\n"; for (E e : sel) std::cerr << "   " << show(e, 8) << "\n"; }
    (res == SAT ? g_st.sat : res == UNSAT ? g_st.unsat : g_st.unknown)++;
    qcache[key] = {res, nm, ap, g_quick};
  }
  if (approx) *approx = ap;
  if (res == SAT && out) {
    auto m = std::make_shared<Model>(); if (base) m->v = base->v; if (m->v.size() < g_vars.size()) m->v.resize(g_vars.size());
    if (nm) for (u32 v : vars) if (v < nm->v.size()) m->v[v] = nm->v[v];
    *out = m;
  }
  return res;
}
