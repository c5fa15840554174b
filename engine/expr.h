// Expression DAG with hash consing, native evaluation and translation to Z3.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <memory>
#include <functional>
#include <z3.h>

typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef uint8_t u8;

enum Op : uint16_t {
  O_CONST, O_VAR,
  // bit vectors
  O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_SHL, O_LSHR, O_ASHR, O_AND, O_OR, O_XOR,
  O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT, O_ITE, O_EQ, O_ULT, O_ULE, O_SLT, O_SLE,
  // floating point (sort 32/64/80)
  O_FCONST, O_FVAR, O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FNEG, O_FABS, O_FRND /*c: 0 floor 1 ceil 2 trunc 3 half-away 4 half-even*/,
  O_FCONV, O_SITOFP, O_UITOFP, O_FITE, O_BITSF,
  O_FUN, // uninterpreted over-approximated function, c = code
  // from floating point to bit vectors
  O_FPTOSI, O_FPTOUI, O_FBITS, O_FEQ, O_FLT, O_FLE, O_FUNO,
};

struct Expr;
typedef const Expr* E;
struct VarSet { std::vector<u32> v; };

struct Expr {
  Op op; uint16_t w; bool fp; u32 id;
  u128 c; long double fc;
  E a, b, d;
  const VarSet* vars;
  mutable Z3_ast z = nullptr;   // exact translation (BV or FPA); boolean-valued for width-1 nodes
  mutable Z3_ast zr = nullptr;  // arithmetic translation
  bool isconst() const { return op == O_CONST || op == O_FCONST; }
};

struct VarInfo { std::string name; u32 id; uint16_t w; bool fp; E e; bool ranged = false; i128 lo = 0, hi = 0; long double flo = 0, fhi = 0; };
extern std::vector<VarInfo> g_vars;

struct MVal { u128 i = 0; long double f = 0; };
struct Model { std::vector<MVal> v; mutable std::unordered_map<u32, MVal> memo; MVal get(u32 id) const { return id < v.size() ? v[id] : MVal(); } };
typedef std::shared_ptr<Model> ModelP;

u128 maskw(u128 v, unsigned w);
i128 sgn(u128 v, unsigned w);
long double rnd(long double v, unsigned w); // round to the sort's precision

E mkc(u128 v, unsigned w);
E mkfc(long double v, unsigned w);
E mkvar(const std::string& name, unsigned w, bool fp);
E mk(Op op, unsigned w, E a, E b = nullptr, E d = nullptr, u128 c = 0);
E mkf(Op op, unsigned w, E a, E b = nullptr, E d = nullptr, u128 c = 0); // result is fp
E mknot(E a);
E mkand(E a, E b);
E mkor(E a, E b);
E mkite(E c, E a, E b);
E mkextract(E a, unsigned hi, unsigned lo);
E mkzext(E a, unsigned w);
E mksext(E a, unsigned w);
E mkconcat(E hi, E lo);

u128 foldbv(Op op, unsigned w, u128 x, u128 y, unsigned aw); // constant folding of binary ops/compares
struct Eval {
  const Model& m; std::unordered_map<u32, MVal>& memo;
  bool unknown_fun = false;
  Eval(const Model& m) : m(m), memo(m.memo) {}
  MVal ev(E e);
  bool truth(E e) { return ev(e).i & 1; }
};
std::string show(E e, int depth = 6);

struct Rng { i128 lo, hi; };
struct FI { bool ok = false; long double lo = 0, hi = 0; };
FI fint(E e);                                   // interval of a floating value that is never nan or infinite (real.cpp)
bool nowrap(E e);                              // a signed sum, difference or product that never overflows
extern bool g_quick; bool hasfp(E e);
extern bool g_nofold;                           // build comparisons as they are (range constraints of inputs)
Rng srange(E e); Rng urange(E e);                 // interval of the signed / unsigned value
struct XI { bool ok; i128 lo, hi; int s; };
XI xint(E e); E xbuild(E e, int s, unsigned W);   // floating value that is exactly integer / 2^s

// ------------------------------------------------------------------ solver
enum Res { UNSAT, SAT, UNKNOWN };
struct SolverStats { u64 queries = 0, cached = 0, modelhits = 0, sat = 0, unsat = 0, unknown = 0, realq = 0, mismatch = 0; double time = 0, maxtime = 0; };
extern SolverStats g_st;
extern unsigned g_timeout_ms;
extern bool g_realmode;
extern std::string g_dumpdir;
void solver_init();
// is (conj of cs) and cond satisfiable?  cs is sliced by variable dependency first.
// On SAT *out (if non-null) receives base overridden with the new values.
Res solve(const std::vector<E>& cs, E cond, const ModelP& base, ModelP* out, bool* approx = nullptr);
E mkfun(int code, unsigned w, E a, E b); // over-approximated function
E foldfun(int code, unsigned w, long double a, long double b);
long double callfun(int code, unsigned w, long double a, long double b);
