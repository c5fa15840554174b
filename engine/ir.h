// Parser for the textual LLVM 18 IR that clang emits for the harnesses.
#pragma once
#include "expr.h"

enum TK { T_VOID, T_INT, T_FP, T_PTR, T_STRUCT, T_ARRAY, T_VECTOR, T_LABEL, T_META, T_FUNC, T_OPAQUE };
struct Type {
  TK k; unsigned bits = 0; std::vector<Type*> el; bool packed = false; u64 n = 0; std::string name; bool sized = false;
  u64 size = 0, align = 1; std::vector<u64> off;
  u64 store() const { return k == T_INT ? (bits + 7) / 8 : k == T_FP ? (bits == 80 ? 10 : bits / 8) : k == T_PTR ? 8 : size; }
};

struct V;
typedef std::shared_ptr<std::vector<V>> AggP;
struct V {
  enum K : u8 { UNDEF, I, F, AGG } k = UNDEF; uint16_t w = 0; E e = nullptr;
  union { u128 i; long double f; };
  AggP agg;
  V() : i(0) {}
  static V mki(u128 x, unsigned w) { V v; v.k = I; v.w = w; v.i = maskw(x, w); return v; }
  static V mkf(long double x, unsigned w) { V v; v.k = F; v.w = w; v.i = 0; v.f = rnd(x, w); return v; }
  static V mke(E e) { if (e->op == O_CONST) return mki(e->c, e->w); if (e->op == O_FCONST) return mkf(e->fc, e->w); V v; v.k = e->fp ? F : I; v.w = e->w; v.e = e; return v; }
  bool conc() const { return !e; }
  E ex() const { if (e) return e; return k == F ? ::mkfc(f, w) : ::mkc(i, w); }
};

enum IOp : u8 { I_RET, I_BR, I_CBR, I_SWITCH, I_INVOKE, I_RESUME, I_UNREACHABLE, I_FNEG, I_BIN, I_FBIN, I_ALLOCA, I_LOAD, I_STORE, I_FENCE,
  I_CMPXCHG, I_RMW, I_GEP, I_CAST, I_ICMP, I_FCMP, I_PHI, I_SELECT, I_CALL, I_LPAD, I_EXTRACTV, I_INSERTV, I_FREEZE };
enum Cast { C_TRUNC, C_ZEXT, C_SEXT, C_FPTRUNC, C_FPEXT, C_FPTOUI, C_FPTOSI, C_UITOFP, C_SITOFP, C_PTRTOINT, C_INTTOPTR, C_BITCAST };
enum Pred { P_EQ, P_NE, P_UGT, P_UGE, P_ULT, P_ULE, P_SGT, P_SGE, P_SLT, P_SLE };
enum Order : u8 { NA = 0, UNORD = 1, RELAXED = 2, ACQ = 3, REL = 4, ACQREL = 5, SEQ = 6 };

struct Opnd { int reg = -1; V c; Type* t = nullptr; };
struct Inst {
  IOp op; int dst = -1; Type* ty = nullptr; Type* ty2 = nullptr; std::vector<Opnd> ops; int sub = 0; Order ord = NA;
  std::vector<int> bb; std::vector<u128> cases; std::vector<u64> idx; bool flag = false; int line = 0;
  std::vector<Type*> byval; // per call argument
  int clauses = 0; // landingpad: flag=cleanup, ops = clauses, idx: 0 catch 1 filter
  std::string calleeName; struct Function* callee = nullptr; int ext = -1; bool tailnoret = false;
  // gep precomputed
  u64 gconst = 0; std::vector<std::pair<int, u64>> gvar; // (operand, scale)
  int fpid = 0; bool racy = false, datacall = false; // racy: conflicts with an unordered access of another thread
};
struct Block { std::vector<Inst> in; int nphi = 0; std::string name; };
struct Function {
  std::string name; Type* ret = nullptr; std::vector<Type*> params; std::vector<std::string> pnames; bool vararg = false; bool defined = false;
  std::vector<Block> bb; int nregs = 0; u32 objid = 0; int extid = -1; u64 execs = 0; bool isrepo = false;
};
struct Global { std::string name; Type* ty; V init; bool hasinit = false, constant = false, external = false; u64 align = 1; u32 objid = 0; };

struct Module {
  std::map<std::string, Type*> types;
  std::vector<Global> globals; std::map<std::string, int> gidx;
  std::vector<std::unique_ptr<Function>> funcs; std::map<std::string, int> fidx;
  std::map<std::string, u64> symaddr; std::map<u64, Function*> faddr; u32 nextobj = 1;
  u64 addrof(const std::string& sym);
};
static inline u64 OBJ(u64 a) { return a >> 32; }
static inline u64 ADDR(u32 id) { return (u64)id << 32; }
void parse_module(const std::string& file, Module& m);
V zero_of(Type* t);
