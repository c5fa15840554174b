// Arithmetic translation of queries: bit vectors as integers (exact), floating point as reals with a bounded rounding error
// per operation (an over-approximation: "unsat" carries over to the floating point question, "sat" only after the model has
// been evaluated exactly).
#include "expr.h"
#include <cmath>
#include <set>
#include <algorithm>
#include <iostream>
#include <unistd.h>
std::string ld_rational(long double v);
static Z3_context C; static Z3_sort IS, RS, BS;
struct TE { Z3_ast a = nullptr; bool done = false; };
// Two translations of floating point: mode 1 collects chains of operations into one linear form with one absolute error,
// mode 0 bounds the error of every operation relative to its result.
struct Tables { std::unordered_map<u32, TE> su, ss, sb, sr; std::unordered_map<u32, std::vector<Z3_ast>> side; /* constraints that define the translation of a node */ };
static Tables tabs[2]; static Tables* T = tabs; static bool linmode = false;
static void setmode(bool l) { linmode = l; T = tabs + (l ? 1 : 0); }
static std::unordered_map<u32, FI> fimemo;
static Z3_ast num(i128 v) { bool n = v < 0; u128 u = n ? -(u128)v : (u128)v; std::string s; if (!u) s = "0"; while (u) { s += '0' + (int)(u % 10); u /= 10; } if (n) s += '-'; std::reverse(s.begin(), s.end()); return Z3_mk_numeral(C, s.c_str(), IS); }
static Z3_ast p2(unsigned w) { return num((i128)1 << w); }
static Z3_ast add(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_add(C, 2, x); }
static Z3_ast sub(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_sub(C, 2, x); }
static Z3_ast mul(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_mul(C, 2, x); }
static Z3_ast ite(Z3_ast c, Z3_ast a, Z3_ast b) { return Z3_mk_ite(C, c, a, b); }
static Z3_ast rat(long double v) { return Z3_mk_numeral(C, ld_rational(v).c_str(), RS); }
FI fint(E e);
static Z3_ast lincmp(E e); static Z3_ast U(E e); static Z3_ast S(E e); static Z3_ast B(E e); static Z3_ast R(E e);
static bool signedrep(unsigned w) { return w == 64 || w == 32; }
static Z3_ast ivar(E e) { Z3_symbol s = Z3_mk_string_symbol(C, ("i" + std::to_string((u32)e->c)).c_str()); Z3_ast v = Z3_mk_const(C, s, IS); auto& sd = T->side[e->id];
  if (sd.empty()) { i128 lo = signedrep(e->w) ? -((i128)1 << (e->w - 1)) : 0, hi = signedrep(e->w) ? ((i128)1 << (e->w - 1)) - 1 : ((i128)1 << e->w) - 1; sd.push_back(Z3_mk_ge(C, v, num(lo))); sd.push_back(Z3_mk_le(C, v, num(hi))); } return v; }
static Z3_ast s2u(Z3_ast s, E e) { Rng r = srange(e); if (r.lo >= 0) return s; return ite(Z3_mk_lt(C, s, num(0)), add(s, p2(e->w)), s); }
static Z3_ast u2s(Z3_ast u, E e) { Rng r = urange(e); if (r.hi < ((i128)1 << (e->w - 1))) return u; return ite(Z3_mk_ge(C, u, p2(e->w - 1)), sub(u, p2(e->w)), u); }
static Z3_ast rndint(E e);
static Z3_ast arith(Op op, Z3_ast x, Z3_ast y) { return op == O_ADD ? add(x, y) : op == O_SUB ? sub(x, y) : mul(x, y); }
static Z3_ast U0(E e) {
  if (e->w > 120 && e->op != O_CONST) return nullptr;
  if (e->w == 1 && e->op != O_CONST) { Z3_ast b = B(e); return b ? ite(b, num(1), num(0)) : nullptr; }
  Z3_ast x, y;
  switch (e->op) {
    case O_CONST: return e->w > 120 ? nullptr : num((i128)e->c);
    case O_VAR: { Z3_ast v = ivar(e); return signedrep(e->w) ? s2u(v, e) : v; }
    case O_ZEXT: return U(e->a);
    case O_ITE: { Z3_ast c = B(e->a); x = U(e->b); y = U(e->d); return c && x && y ? ite(c, x, y) : nullptr; }
    case O_ADD: if (urange(e->a).hi + urange(e->b).hi < ((i128)1 << e->w)) { x = U(e->a); y = U(e->b); return x && y ? add(x, y) : nullptr; }
      if (nowrap(e)) { x = S(e); return x ? s2u(x, e) : nullptr; }
      x = U(e->a); y = U(e->b); if (!x || !y) return nullptr; { Z3_ast t = add(x, y); return ite(Z3_mk_ge(C, t, p2(e->w)), sub(t, p2(e->w)), t); }
    case O_SUB: if (nowrap(e)) { x = S(e); return x ? s2u(x, e) : nullptr; }
      x = U(e->a); y = U(e->b); if (!x || !y) return nullptr; { Z3_ast t = sub(x, y); return ite(Z3_mk_lt(C, t, num(0)), add(t, p2(e->w)), t); }
    case O_MUL: if (nowrap(e)) { x = S(e); return x ? s2u(x, e) : nullptr; } return nullptr;
    case O_UDIV: if (e->b->op == O_CONST && e->b->c) { x = U(e->a); return x ? Z3_mk_div(C, x, num((i128)e->b->c)) : nullptr; } return nullptr;
    case O_UREM: if (e->b->op == O_CONST && e->b->c) { x = U(e->a); return x ? Z3_mk_mod(C, x, num((i128)e->b->c)) : nullptr; } return nullptr;
    case O_LSHR: if (e->b->op == O_CONST && e->b->c < e->w) { x = U(e->a); return x ? Z3_mk_div(C, x, p2((unsigned)e->b->c)) : nullptr; } return nullptr;
    case O_SHL: if (e->b->op == O_CONST && e->b->c < e->w && e->w <= 64) { Rng r = urange(e->a); if (r.hi < ((i128)1 << (e->w - (unsigned)e->b->c))) { x = U(e->a); return x ? mul(x, p2((unsigned)e->b->c)) : nullptr; } } return nullptr;
    case O_AND: if (e->b->op == O_CONST && !(e->b->c & (e->b->c + 1))) { x = U(e->a); return x ? Z3_mk_mod(C, x, num((i128)e->b->c + 1)) : nullptr; } return nullptr;
    case O_OR: if (e->w > 1 && e->b->op == O_CONST) { unsigned tz = 0; E a = e->a; if (a->op == O_CONCAT && a->b->op == O_CONST && !a->b->c) tz = a->b->w; else if (a->op == O_SHL && a->b->op == O_CONST) tz = (unsigned)a->b->c; if (tz && tz < 120 && e->b->c < ((u128)1 << tz)) { x = U(a); return x ? add(x, num((i128)e->b->c)) : nullptr; } } return nullptr;
    case O_CONCAT: x = U(e->a); y = U(e->b); return x && y ? add(mul(x, p2(e->b->w)), y) : nullptr;
    case O_EXTRACT: { unsigned lo = (unsigned)e->c; if (e->a->w > 120) return nullptr; if (!lo && e->w > 1) { Rng k = srange(e->a), f{-((i128)1 << (e->w - 1)), ((i128)1 << (e->w - 1)) - 1}; if (k.lo < 0 && k.lo >= f.lo && k.hi <= f.hi) { x = S(e->a); return x ? s2u(x, e) : nullptr; } } x = U(e->a); if (!x) return nullptr; Rng r = urange(e->a); if (lo) x = Z3_mk_div(C, x, p2(lo)); if ((r.hi >> lo) >= ((i128)1 << e->w)) x = Z3_mk_mod(C, x, p2(e->w)); return x; }
    case O_FPTOUI: { if (xint(e->a).ok) return nullptr; FI f = fint(e->a); if (f.ok && f.lo < 0 && f.hi >= 0 && f.hi < 9e18L && (e->w >= 63 || f.hi < ldexpl(1, e->w))) { // only what is above -1 has a value
        x = R(e->a); if (!x) return nullptr; Z3_ast n = Z3_mk_const(C, Z3_mk_string_symbol(C, ("n" + std::to_string(e->id)).c_str()), IS), q = Z3_mk_int2real(C, n); auto& sd = T->side[e->id];
        if (sd.empty()) { Z3_ast in[2] = {Z3_mk_le(C, q, x), Z3_mk_lt(C, sub(x, rat(1)), q)}, z[2] = {Z3_mk_lt(C, x, rat(0)), Z3_mk_lt(C, rat(-1), x)}; sd.push_back(Z3_mk_ge(C, n, num(0))); sd.push_back(Z3_mk_lt(C, n, p2(e->w))); sd.push_back(Z3_mk_implies(C, Z3_mk_ge(C, x, rat(0)), Z3_mk_and(C, 2, in))); sd.push_back(Z3_mk_implies(C, Z3_mk_and(C, 2, z), Z3_mk_eq(C, n, num(0)))); }
        return n; }
      if (!f.ok || f.lo < 0 || f.hi > 9e18L || (e->w < 63 && f.hi >= ldexpl(1, e->w))) return nullptr; return e->a->op == O_FRND ? rndint(e->a) : rndint(e); }
    case O_SEXT: case O_SDIV: case O_SREM: case O_ASHR: case O_FPTOSI: x = S(e); return x ? s2u(x, e) : nullptr;
    default: return nullptr;
  }
}
static Z3_ast S0(E e) {
  Z3_ast x, y;
  switch (e->op) {
    case O_CONST: return num(sgn(e->c, e->w));
    case O_VAR: { if (e->w > 120) return nullptr; Z3_ast v = ivar(e); return signedrep(e->w) ? v : u2s(v, e); }
    case O_ZEXT: return U(e->a);
    case O_SEXT: return S(e->a);
    case O_ITE: { if (e->w == 1) break; Z3_ast c = B(e->a); x = S(e->b); y = S(e->d); return c && x && y ? ite(c, x, y) : nullptr; }
    case O_ADD: case O_SUB: case O_MUL: if (e->w > 1 && nowrap(e)) { if (e->op == O_MUL && e->b->op != O_CONST && e->a->op != O_CONST) return nullptr; x = S(e->a); y = S(e->b); return x && y ? arith(e->op, x, y) : nullptr; } if (e->op == O_MUL) return nullptr; break;
    case O_SDIV: case O_SREM: { if (e->b->op != O_CONST) return nullptr; i128 c = sgn(e->b->c, e->w); bool ng = c < 0; if (ng) c = -c; if (c <= 0 || (ng && c == 1 && srange(e->a).lo == -((i128)1 << (e->w - 1)))) return nullptr; x = S(e->a); if (!x) return nullptr; Z3_ast n = Z3_mk_unary_minus(C, x); Z3_ast q = ite(Z3_mk_ge(C, x, num(0)), Z3_mk_div(C, x, num(c)), Z3_mk_unary_minus(C, Z3_mk_div(C, n, num(c)))); return e->op == O_SREM ? sub(x, mul(q, num(c))) : ng ? Z3_mk_unary_minus(C, q) : q; }
    case O_ASHR: if (e->b->op == O_CONST && e->b->c < e->w) { x = S(e->a); return x ? Z3_mk_div(C, x, p2((unsigned)e->b->c)) : nullptr; } return nullptr;
    case O_EXTRACT: if (e->c == 0 && e->w > 1 && e->a->w <= 120) { Rng k = srange(e->a); if (k.lo >= -((i128)1 << (e->w - 1)) && k.hi < ((i128)1 << (e->w - 1))) return S(e->a); } break;
    case O_FPTOSI: { FI f = fint(e->a); if (!f.ok || f.hi >= ldexpl(1, e->w - 1) || f.lo <= -ldexpl(1, e->w - 1)) return nullptr; return e->a->op == O_FRND ? rndint(e->a) : rndint(e); }
    default:;
  }
  if (e->w > 120) return nullptr;
  x = U(e); return x ? u2s(x, e) : nullptr;
}
static Z3_ast B0(E e) {
  Z3_ast x, y;
  switch (e->op) {
    case O_CONST: return e->c & 1 ? Z3_mk_true(C) : Z3_mk_false(C);
    case O_VAR: return Z3_mk_const(C, Z3_mk_string_symbol(C, ("i" + std::to_string((u32)e->c)).c_str()), BS);
    case O_AND: case O_OR: case O_XOR: { if (e->op == O_XOR && e->b->op == O_CONST && e->b->c) { x = B(e->a); return x ? Z3_mk_not(C, x) : nullptr; } x = B(e->a); y = B(e->b); if (!x || !y) return nullptr; Z3_ast t[2] = {x, y}; return e->op == O_AND ? Z3_mk_and(C, 2, t) : e->op == O_OR ? Z3_mk_or(C, 2, t) : Z3_mk_xor(C, x, y); }
    case O_ITE: { Z3_ast c = B(e->a); x = B(e->b); y = B(e->d); return c && x && y ? ite(c, x, y) : nullptr; }
    case O_EQ: if (e->a->w == 1) { x = B(e->a); y = B(e->b); return x && y ? Z3_mk_iff(C, x, y) : nullptr; }
      if (signedrep(e->a->w) || e->a->op == O_SEXT || e->b->op == O_SEXT) { x = S(e->a); y = S(e->b); } else { x = U(e->a); y = U(e->b); } return x && y ? Z3_mk_eq(C, x, y) : nullptr;
    case O_ULT: x = U(e->a); y = U(e->b); return x && y ? Z3_mk_lt(C, x, y) : nullptr;
    case O_ULE: x = U(e->a); y = U(e->b); return x && y ? Z3_mk_le(C, x, y) : nullptr;
    case O_SLT: x = S(e->a); y = S(e->b); return x && y ? Z3_mk_lt(C, x, y) : nullptr;
    case O_SLE: x = S(e->a); y = S(e->b); return x && y ? Z3_mk_le(C, x, y) : nullptr;
    case O_EXTRACT: { if (e->a->w > 120) return nullptr; x = U(e->a); if (!x) return nullptr; if ((unsigned)e->c) x = Z3_mk_div(C, x, p2((unsigned)e->c)); return Z3_mk_eq(C, Z3_mk_mod(C, x, num(2)), num(1)); }
    case O_FEQ: case O_FLT: case O_FLE: { FI f = fint(e->a), g = fint(e->b); if (f.ok && g.ok) { if (f.hi < g.lo) return e->op == O_FEQ ? Z3_mk_false(C) : Z3_mk_true(C); if (f.lo > g.hi) return Z3_mk_false(C); } }
      if (linmode) return lincmp(e); x = R(e->a); y = R(e->b); return !x || !y ? nullptr : e->op == O_FEQ ? Z3_mk_eq(C, x, y) : e->op == O_FLT ? Z3_mk_lt(C, x, y) : Z3_mk_le(C, x, y);
    case O_FUNO: return fint(e->a).ok && fint(e->b).ok ? Z3_mk_false(C) : nullptr;
    default: return nullptr;
  }
}
// ---- intervals of floating values; ok means: never nan, never infinite
static const FI NO;
static FI mkfi(long double lo, long double hi, unsigned w) { long double m = std::max(fabsl(lo), fabsl(hi)); long double lim = w == 32 ? 3e38L : w == 64 ? 1e308L : 1e4000L; if (!(m < lim)) return NO; long double s = m * (w == 32 ? 1e-6L : 1e-15L) + 1e-300L; FI r; r.ok = true; r.lo = lo - s; r.hi = hi + s; if (lo >= 0) r.lo = std::max(r.lo, 0.0L); if (hi <= 0) r.hi = std::min(r.hi, 0.0L); return r; }
static void linrange(E e, FI& r);
FI fint(E e) {
  auto it = fimemo.find(e->id); if (it != fimemo.end()) return it->second;
  FI r, a, b; unsigned w = e->w;
  switch (e->op) {
    case O_FCONST: if (std::isfinite(e->fc)) { r.ok = true; r.lo = r.hi = e->fc; } break;
    case O_FVAR: { auto& v = g_vars[(u32)e->c]; if (v.ranged) { r.ok = true; r.lo = v.flo; r.hi = v.fhi; } break; }
    case O_SITOFP: { Rng x = srange(e->a); r = mkfi((long double)x.lo, (long double)x.hi, w); break; }
    case O_UITOFP: { Rng x = urange(e->a); r = mkfi((long double)x.lo, (long double)x.hi, w); break; }
    case O_FNEG: a = fint(e->a); if (a.ok) { r.ok = true; r.lo = -a.hi; r.hi = -a.lo; } break;
    case O_FABS: a = fint(e->a); if (a.ok) { r.ok = true; r.hi = std::max(fabsl(a.lo), fabsl(a.hi)); r.lo = a.lo > 0 ? a.lo : a.hi < 0 ? -a.hi : 0; } break;
    case O_FCONV: a = fint(e->a); if (a.ok) r = mkfi(a.lo, a.hi, w); break;
    case O_FRND: a = fint(e->a); if (a.ok) r = mkfi(floorl(a.lo), ceill(a.hi), w); break;
    case O_FITE: a = fint(e->b); b = fint(e->d); if (a.ok && b.ok) { r.ok = true; r.lo = std::min(a.lo, b.lo); r.hi = std::max(a.hi, b.hi); } break;
    case O_FADD: a = fint(e->a); b = fint(e->b); if (a.ok && b.ok) r = mkfi(a.lo + b.lo, a.hi + b.hi, w); break;
    case O_FSUB: a = fint(e->a); b = fint(e->b); if (a.ok && b.ok) r = mkfi(a.lo - b.hi, a.hi - b.lo, w); break;
    case O_FMUL: a = fint(e->a); b = fint(e->b); if (a.ok && b.ok) { long double p[4] = {a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi}; r = mkfi(*std::min_element(p, p + 4), *std::max_element(p, p + 4), w); } break;
    case O_FDIV: a = fint(e->a); b = fint(e->b); if (a.ok && b.ok && (b.lo > 0 || b.hi < 0)) { long double p[4] = {a.lo / b.lo, a.lo / b.hi, a.hi / b.lo, a.hi / b.hi}; r = mkfi(*std::min_element(p, p + 4), *std::max_element(p, p + 4), w); } break;
    default:;
  }
  fimemo[e->id] = r;
  if (r.ok && (e->op == O_FADD || e->op == O_FSUB)) { linrange(e, r); fimemo[e->id] = r; }
  return r;
}
// ---- linear forms: value of e = c0 + sum of coefficient * leaf, up to err
typedef __float128 q128;
struct Term { E e; int kind; q128 c; };  // kind 0 floating leaf, 1 signed integer, 2 unsigned integer
struct Lin { bool ok = false; std::vector<Term> t; q128 c0 = 0; long double err = 0; };
static std::unordered_map<u32, Lin> linmemo; static std::unordered_map<u64, Lin> linimemo;
static long double leafmax(const Term& t) { if (t.kind == 0) { FI f = fint(t.e); return std::max(fabsl(f.lo), fabsl(f.hi)); } Rng r = t.kind == 1 ? srange(t.e) : urange(t.e); return std::max(fabsl((long double)r.lo), fabsl((long double)r.hi)) * (1 + 1e-15L); }
static long double qabs(q128 v) { return (long double)(v < 0 ? -v : v); }
static long double weight(const Lin& l) { long double s = qabs(l.c0); for (auto& t : l.t) s += qabs(t.c) * leafmax(t); return s; }
static void slack(Lin& l, bool inexact) { if (inexact) l.err += weight(l) * ldexpl(1, -108); }
static void axpy(Lin& r, const Lin& b, q128 k) { // r += k * b
  for (auto& t : b.t) { bool f = false; for (auto& u : r.t) if (u.e == t.e && u.kind == t.kind) { u.c += k * t.c; f = true; break; } if (!f) { Term n = t; n.c = k * t.c; r.t.push_back(n); } }
  r.c0 += k * b.c0; r.err += qabs(k) * b.err * (1 + 1e-15L);
}
static Lin leaf(E e, int kind) { Lin l; l.ok = true; l.t.push_back(Term{e, kind, 1}); return l; }
static Lin lini(E e, bool sg) {
  u64 key = (u64)e->id * 2 + sg; auto it = linimemo.find(key); if (it != linimemo.end()) return it->second;
  Lin l;
  if (e->op == O_CONST) { l.ok = true; l.c0 = sg ? (q128)sgn(e->c, e->w) : (q128)e->c; if (e->w > 100) l.ok = false; }
  else if (e->op == O_ZEXT) l = lini(e->a, false);
  else if (e->op == O_SEXT && sg) l = lini(e->a, true);
  else if (!sg && e->w > 1 && srange(e).lo >= 0) l = lini(e, true);
  else if (sg && e->w > 1 && (e->op == O_ADD || e->op == O_SUB || e->op == O_MUL) && nowrap(e)) { Lin a = lini(e->a, true), b = lini(e->b, true);
    if (a.ok && b.ok) { if (e->op == O_MUL) { if (b.t.empty()) { l.ok = true; axpy(l, a, b.c0); } else if (a.t.empty()) { l.ok = true; axpy(l, b, a.c0); } } else { l = a; axpy(l, b, e->op == O_ADD ? 1 : -1); } } if (l.t.size() > 40 || weight(l) > 1e30L) l = Lin(); }
  if (!l.ok && e->w > 1) l = leaf(e, sg ? 1 : 2);
  linimemo[key] = l; return l;
}
static Lin lin(E e) {
  auto it = linmemo.find(e->id); if (it != linmemo.end()) return it->second;
  Lin l; FI f = fint(e);
  if (f.ok) {
    long double u = ldexpl(1, e->w == 32 ? -24 : e->w == 64 ? -53 : -64) * (1 + 1e-9L), m = std::max(fabsl(f.lo), fabsl(f.hi)); bool exact = e->op != O_FCONST && xint(e).ok;
    long double r = exact ? 0 : u * m + (e->w == 32 ? 1e-44L : 1e-310L); Lin a, b;
    switch (e->op) {
      case O_FCONST: l.ok = true; l.c0 = (q128)e->fc; break;
      case O_SITOFP: case O_UITOFP: { l = lini(e->a, e->op == O_SITOFP); Rng x = e->op == O_SITOFP ? srange(e->a) : urange(e->a); i128 p = (i128)1 << (e->w == 32 ? 24 : e->w == 64 ? 53 : 64); if (l.ok && !(x.lo >= -p && x.hi <= p)) l.err += r; break; }
      case O_FNEG: a = lin(e->a); if (a.ok) { l.ok = true; axpy(l, a, -1); } break;
      case O_FCONV: a = lin(e->a); if (a.ok) { l = a; if (e->w < e->a->w && !(a.err == 0 && a.c0 == 0 && a.t.size() == 1 && qabs(a.t[0].c) == 1 && a.t[0].kind == 0 && a.t[0].e->w <= e->w)) l.err += r; } break;
      case O_FADD: case O_FSUB: a = lin(e->a); b = lin(e->b); if (a.ok && b.ok) { l = a; axpy(l, b, e->op == O_FADD ? 1 : -1); bool z = (b.t.empty() && b.c0 == 0 && b.err == 0) || (a.t.empty() && a.c0 == 0 && a.err == 0); if (!z) { l.err += r; slack(l, true); } if (exact && a.err == 0 && b.err == 0) l.err = 0; } break;
      case O_FMUL: a = lin(e->a); b = lin(e->b); if (a.ok && b.ok) { if (e->b->op == O_FCONST) { l.ok = true; axpy(l, a, (q128)e->b->fc); } else if (e->a->op == O_FCONST) { l.ok = true; axpy(l, b, (q128)e->a->fc); } if (l.ok) { l.err += r; slack(l, true); if (exact && a.err == 0 && b.err == 0) l.err = 0; } } break;
      case O_FDIV: a = lin(e->a); if (a.ok && e->b->op == O_FCONST && e->b->fc != 0) { l.ok = true; axpy(l, a, (q128)1 / (q128)e->b->fc); l.err += r; slack(l, true); } break;
      default:;
    }
    if (!l.ok || l.t.size() > 60) l = leaf(e, 0);
  }
  linmemo[e->id] = l; return l;
}
// a tighter interval where the same input occurs in several operands
static void linrange(E e, FI& r) {
  Lin l = lin(e); if (!l.ok || (l.t.size() == 1 && l.t[0].e == e)) return; q128 lo = l.c0, hi = l.c0;
  for (auto& t : l.t) { q128 a, b; if (t.kind == 0) { FI f = fint(t.e); a = f.lo; b = f.hi; } else { Rng x = t.kind == 1 ? srange(t.e) : urange(t.e); a = (q128)x.lo; b = (q128)x.hi; } if (t.c < 0) std::swap(a, b); lo += t.c * a; hi += t.c * b; }
  long double sl = l.err + (qabs(lo) + qabs(hi)) * 1e-17L + 1e-300L, x = (long double)lo - sl, y = (long double)hi + sl; if (x > r.lo) r.lo = x; if (y < r.hi) r.hi = y; if (r.lo > r.hi) r.hi = r.lo;
}
static Z3_ast Rleaf(E e);
static Z3_ast linterm(E at, Lin l) { // a term for l, within its error (recorded as a side condition of the node at)
  std::vector<Z3_ast> s; size_t n = l.t.size() + 1; long double e0 = l.err;
  auto shorten = [&](q128 c, long double m) { long double best = (long double)c; if (e0 > 0) for (int k = 8; k < 64; k += 8) { int ex; long double f = frexpl((long double)c, &ex); long double v = ldexpl(rintl(ldexpl(f, k)), ex - k); if (qabs(c - (q128)v) * m <= 0.002L * e0 / n) { best = v; break; } } l.err += qabs(c - (q128)best) * m; return best; };
  for (auto& t : l.t) { long double m = leafmax(t); if (t.c == 0) continue; if (qabs(t.c) * m <= 0.002L * e0 / n) { l.err += qabs(t.c) * m; continue; }
    Z3_ast x = t.kind == 0 ? R(t.e) : t.kind == 1 ? S(t.e) : U(t.e); if (!x) return nullptr; if (t.kind) x = Z3_mk_int2real(C, x); long double c = shorten(t.c, m); s.push_back(c == 1 ? x : mul(rat(c), x)); }
  long double c0 = shorten(l.c0, 1); if (c0 != 0 || s.empty()) s.push_back(rat(c0));
  if (l.err > 0) { Z3_ast d = Z3_mk_const(C, Z3_mk_string_symbol(C, ("d" + std::to_string(at->id)).c_str()), RS); auto& sd = T->side[at->id]; int ex; frexpl(l.err * (1 + 1e-9L), &ex); long double er = ldexpl(ceill(ldexpl(l.err * (1 + 1e-9L), 8 - ex)), ex - 8); if (er < 1e-60L) er = ldexpl(1, -180); sd.push_back(Z3_mk_le(C, rat(-er), d)); sd.push_back(Z3_mk_le(C, d, rat(er))); s.push_back(d); }
  return s.size() == 1 ? s[0] : Z3_mk_add(C, s.size(), s.data());
}
static Z3_ast lincmp(E e) {
  if (e->a == e->b && fint(e->a).ok) return e->op == O_FLT ? Z3_mk_false(C) : Z3_mk_true(C);
  Lin a = lin(e->a), b = lin(e->b); if (!a.ok || !b.ok) return nullptr; Lin d = a; axpy(d, b, -1); if (d.err > 0) slack(d, true);
  Z3_ast x = linterm(e, d); if (!x) return nullptr; Z3_ast z = rat(0); return e->op == O_FEQ ? Z3_mk_eq(C, x, z) : e->op == O_FLT ? Z3_mk_lt(C, x, z) : Z3_mk_le(C, x, z);
}
static Z3_ast rounded(E e, Z3_ast x, FI in) { // a value within the rounding error of x
  Z3_ast r = Z3_mk_const(C, Z3_mk_string_symbol(C, ("r" + std::to_string(e->id)).c_str()), RS);
  long double u = ldexpl(1, e->w == 32 ? -23 : e->w == 64 ? -52 : -60); Z3_ast z = rat(0);
  Z3_ast pos = mul(rat(u), x), err; 
  if (in.ok && in.lo >= 0) err = pos; else if (in.ok && in.hi <= 0) err = Z3_mk_unary_minus(C, pos); else err = ite(Z3_mk_ge(C, x, z), pos, Z3_mk_unary_minus(C, pos));
  err = add(err, rat(ldexpl(1, -80))); auto& sd = T->side[e->id];
  sd.push_back(Z3_mk_le(C, sub(x, err), r)); sd.push_back(Z3_mk_le(C, r, add(x, err)));
  // rounding keeps the sign and zero
  sd.push_back(Z3_mk_implies(C, Z3_mk_ge(C, x, z), Z3_mk_ge(C, r, z))); sd.push_back(Z3_mk_implies(C, Z3_mk_le(C, x, z), Z3_mk_le(C, r, z)));
  return r;
}
// the integer that a rounding operation or conversion of e->a gives
static Z3_ast rndint(E e) {
  Z3_ast x = R(e->a); if (!x) return nullptr; FI f = fint(e->a); if (!f.ok) return nullptr; int m = e->op == O_FRND ? (int)e->c : 2;
  Z3_ast n = Z3_mk_const(C, Z3_mk_string_symbol(C, ("n" + std::to_string(e->id)).c_str()), IS), r = Z3_mk_int2real(C, n), one = rat(1), h = rat(0.5L), z = rat(0); auto& sd = T->side[e->id];
  if (sd.empty()) {
    Z3_ast lo[2] = {Z3_mk_le(C, r, x), Z3_mk_lt(C, sub(x, one), r)}, hi[2] = {Z3_mk_le(C, x, r), Z3_mk_lt(C, r, add(x, one))}, ha[2] = {Z3_mk_le(C, sub(x, h), r), Z3_mk_le(C, r, add(x, h))};
    if (m == 2 && f.lo >= 0) m = 0; if (m == 2 && f.hi <= 0) m = 1;
    if (m == 0) { sd.push_back(lo[0]); sd.push_back(lo[1]); } else if (m == 1) { sd.push_back(hi[0]); sd.push_back(hi[1]); }
    else if (m == 2) { sd.push_back(Z3_mk_implies(C, Z3_mk_ge(C, x, z), Z3_mk_and(C, 2, lo))); sd.push_back(Z3_mk_implies(C, Z3_mk_lt(C, x, z), Z3_mk_and(C, 2, hi))); }
    else { sd.push_back(ha[0]); sd.push_back(ha[1]); if (m == 3) { sd.push_back(Z3_mk_implies(C, Z3_mk_ge(C, x, z), Z3_mk_lt(C, x, add(r, h)))); sd.push_back(Z3_mk_implies(C, Z3_mk_lt(C, x, z), Z3_mk_lt(C, sub(r, h), x))); } }
  }
  return n;
}
static Z3_ast R0(E e) { if (linmode && e->op != O_FCONST && fint(e).ok) { Lin l = lin(e); if (l.ok && !(l.t.size() == 1 && l.t[0].e == e)) return linterm(e, l); } return Rleaf(e); }
static Z3_ast Rleaf(E e) {
  FI f = fint(e); if (!f.ok) return nullptr; Z3_ast x, y;
  if (e->op != O_FCONST && xint(e).ok) { XI k = xint(e); unsigned W = 2; while (W < 118 && !(k.lo >= -((i128)1 << (W - 1)) && k.hi < ((i128)1 << (W - 1)))) W++; Z3_ast i = S(xbuild(e, k.s, W + 1)); if (i) { i = Z3_mk_int2real(C, i); return k.s ? mul(i, rat(ldexpl(1, -k.s))) : i; } }
  switch (e->op) {
    case O_FCONST: return rat(e->fc);
    case O_FVAR: return Z3_mk_const(C, Z3_mk_string_symbol(C, ("i" + std::to_string((u32)e->c)).c_str()), RS);
    case O_SITOFP: x = S(e->a); return x ? rounded(e, Z3_mk_int2real(C, x), f) : nullptr;
    case O_UITOFP: x = U(e->a); return x ? rounded(e, Z3_mk_int2real(C, x), f) : nullptr;
    case O_FNEG: x = R(e->a); return x ? Z3_mk_unary_minus(C, x) : nullptr;
    case O_FABS: x = R(e->a); return x ? ite(Z3_mk_ge(C, x, rat(0)), x, Z3_mk_unary_minus(C, x)) : nullptr;
    case O_FCONV: x = R(e->a); if (!x) return nullptr; return e->w > e->a->w ? x : rounded(e, x, f);
    case O_FITE: { Z3_ast c = B(e->a); x = R(e->b); y = R(e->d); return c && x && y ? ite(c, x, y) : nullptr; }
    case O_FRND: x = rndint(e); return x ? Z3_mk_int2real(C, x) : nullptr;
    case O_FADD: case O_FSUB: { x = R(e->a); y = R(e->b); if (!x || !y) return nullptr; if (e->b->op == O_FCONST && e->b->fc == 0) return x; if (e->a->op == O_FCONST && e->a->fc == 0 && e->op == O_FADD) return y; return rounded(e, e->op == O_FADD ? add(x, y) : sub(x, y), f); }
    case O_FMUL: { x = R(e->a); y = R(e->b); if (!x || !y) return nullptr; E k = e->b->op == O_FCONST ? e->b : e->a->op == O_FCONST ? e->a : nullptr; if (k) { if (k->fc == 0) return rat(0); int ex; long double m = frexpl(fabsl(k->fc), &ex); if (m == 0.5L && ex >= 1) return mul(x, y); } return rounded(e, mul(x, y), f); }
    case O_FDIV: { x = R(e->a); y = R(e->b); if (!x || !y) return nullptr; if (e->b->op != O_FCONST) { // q * y = x
          Z3_ast q = Z3_mk_const(C, Z3_mk_string_symbol(C, ("q" + std::to_string(e->id)).c_str()), RS); auto& sd = T->side[e->id]; sd.push_back(Z3_mk_eq(C, mul(q, y), x)); sd.push_back(Z3_mk_le(C, rat(f.lo - fabsl(f.lo) * 1e-12L - 1e-9L), q)); sd.push_back(Z3_mk_le(C, q, rat(f.hi + fabsl(f.hi) * 1e-12L + 1e-9L))); return rounded(e, q, f); }
        return rounded(e, Z3_mk_div(C, x, y), f); }
    default: return nullptr;
  }
}
#define MEMO(F, F0, M) static Z3_ast F(E e) { auto it = T->M.find(e->id); if (it != T->M.end()) return it->second.a; Z3_ast r = F0(e); T->M[e->id].a = r; return r; }
MEMO(U, U0, su) MEMO(S, S0, ss) MEMO(B, B0, sb) MEMO(R, R0, sr)
static void collect(E e, std::set<u32>& seen, std::vector<Z3_ast>& out) {
  if (!e || !seen.insert(e->id).second) return; auto it = T->side.find(e->id); if (it != T->side.end()) for (auto z : it->second) out.push_back(z);
  collect(e->a, seen, out); collect(e->b, seen, out); collect(e->d, seen, out);
}
static bool to_i128(const char* s, i128& v) { bool n = *s == '-'; if (n) s++; v = 0; for (; *s; s++) { if (*s < '0' || *s > '9') return false; v = v * 10 + (*s - '0'); } if (n) v = -v; return true; }
// pure: no floating point in the query, the translation is exact
static Res solve_mode(const std::vector<E>& sel, const ModelP& base, ModelP* out, Z3_context c, bool pure, unsigned ms);
Res solve_real(const std::vector<E>& sel, const ModelP& base, ModelP* out, Z3_context c, bool pure, unsigned ms) {
  if (!pure && !getenv("VS_NOLIN")) { setmode(true); Res r = solve_mode(sel, base, out, c, pure, ms); setmode(false); if (r != UNKNOWN) return r; }
  setmode(false); return solve_mode(sel, base, out, c, pure, ms);
}
static Res solve_mode(const std::vector<E>& sel, const ModelP& base, ModelP* out, Z3_context c, bool pure, unsigned ms) {
  if (!C) { C = c; IS = Z3_mk_int_sort(C); RS = Z3_mk_real_sort(C); BS = Z3_mk_bool_sort(C); }
  std::vector<Z3_ast> as; for (E e : sel) { Z3_ast z = B(e); if (!z) { if (getenv("VS_DEBUGR")) std::cerr << "no arithmetic form: " << show(e, 12) << "\n"; return UNKNOWN; } as.push_back(z); }
  std::set<u32> vars; for (E e : sel) for (u32 v : e->vars->v) vars.insert(v);
  static Z3_solver inc = nullptr; static int incn = 0; static std::unordered_map<u32, Z3_ast> lits; static std::set<u32> sided;
  Z3_solver s; auto settime = [&](Z3_solver q, unsigned t) { Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p); Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), t); Z3_solver_set_params(C, q, p); Z3_params_dec_ref(C, p); };
  Z3_lbool r; bool useinc = pure;
  if (useinc) {
    if (!inc || incn > 4000) { if (inc) Z3_solver_dec_ref(C, inc); inc = Z3_mk_simple_solver(C); Z3_solver_inc_ref(C, inc); settime(inc, ms); incn = 0; lits.clear(); sided.clear(); }
    s = inc; std::vector<Z3_ast> ls;
    for (size_t i = 0; i < sel.size(); i++) { auto& l = lits[sel[i]->id]; if (!l) { l = Z3_mk_const(C, Z3_mk_string_symbol(C, ("b" + std::to_string(sel[i]->id)).c_str()), BS); std::vector<Z3_ast> sd; collect(sel[i], sided, sd); for (auto z : sd) Z3_solver_assert(C, s, z); Z3_solver_assert(C, s, Z3_mk_implies(C, l, as[i])); incn++; } ls.push_back(l); }
    r = Z3_solver_check_assumptions(C, s, ls.size(), ls.data());
  } else {
    s = Z3_mk_solver(C); Z3_solver_inc_ref(C, s); settime(s, ms); std::set<u32> seen; std::vector<Z3_ast> sd; for (E e : sel) collect(e, seen, sd); for (auto z : sd) Z3_solver_assert(C, s, z); for (auto z : as) Z3_solver_assert(C, s, z);
    r = Z3_solver_check(C, s);
  }
  Res res = r == Z3_L_FALSE ? UNSAT : UNKNOWN;
  if (r == Z3_L_UNDEF && useinc) { Z3_solver_dec_ref(C, inc); inc = nullptr; return UNKNOWN; }
  if (r == Z3_L_TRUE) {
    auto nm = std::make_shared<Model>(); nm->v.resize(g_vars.size());
    Z3_model m = Z3_solver_get_model(C, s); Z3_model_inc_ref(C, m);
    for (u32 v : vars) { E ve = g_vars[v].e; Z3_ast val; Z3_ast t = ve->fp ? R(ve) : ve->w == 1 ? B(ve) : ivar(ve); if (!t || !Z3_model_eval(C, m, t, true, &val)) continue;
      if (ve->fp) { std::string n = Z3_get_numeral_string(C, Z3_get_ast_kind(C, val) == Z3_NUMERAL_AST ? val : Z3_get_algebraic_number_lower(C, val, 30)); size_t k = n.find('/'); long double x = strtold(n.c_str(), 0); if (k != std::string::npos) x /= strtold(n.c_str() + k + 1, 0); if (!std::isfinite(x)) x = 0; auto& vi = g_vars[v]; if (vi.ranged) x = std::min(std::max(x, vi.flo), vi.fhi); nm->v[v].f = rnd(x, ve->w); }
      else if (ve->w == 1) nm->v[v].i = Z3_get_bool_value(C, val) == Z3_L_TRUE; else { i128 x; if (to_i128(Z3_get_numeral_string(C, val), x)) nm->v[v].i = maskw((u128)x, ve->w); } }
    Z3_model_dec_ref(C, m);
    auto good = [&](Model& md) { md.memo.clear(); Eval ev(md); for (E e : sel) if (!ev.truth(e)) return false; return true; };
    if (good(*nm)) { *out = nm; res = SAT; }
    else if (!pure) { // look around the model for a point where the exact question holds
      auto c2 = std::make_shared<Model>(); static u64 rs = 88172645463325252ull; auto rn = [&]() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; };
      for (int t = 0; t < 400 && res != SAT; t++) { c2->v = nm->v; for (u32 v : vars) { E ve = g_vars[v].e; auto& vi = g_vars[v]; if (ve->fp) { long double x = nm->v[v].f, lo = vi.flo, hi = vi.fhi; switch (rn() % (t < 40 ? 4 : 8)) { case 0: break; case 1: x = roundl(x); break; case 2: x = roundl(x * 4) / 4; break; case 3: x = x * (1 + ((long double)(rn() % 2001) - 1000) * 1e-6L); break; case 4: x = lo; break; case 5: x = hi; break; case 6: x = lo + (hi - lo) * (rn() % 1000) / 1000; break; default: x += (long double)(rn() % 21) - 10; } x = std::min(std::max(x, lo), hi); c2->v[v].f = rnd(x, ve->w); } else if (t > 20 && rn() % 3 == 0) { c2->v[v].i = maskw(nm->v[v].i + (rn() % 9) - 4, ve->w); } }
        if (good(*c2)) { *out = c2; res = SAT; } }
    } else { g_st.mismatch++; if (getenv("VS_DEBUG")) { std::cerr << "ARITH MODEL MISMATCH\n"; Eval ev(*nm); for (E e : sel) std::cerr << ev.truth(e) << " " << show(e, 9) << "\n"; } }
  }
  if (!useinc) Z3_solver_dec_ref(C, s);
  return res;
}
