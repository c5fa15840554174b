#include "ir.h"
#include <fstream>
#include <iostream>
#include <sstream>
#include <cstdlib>
#include <cmath>

struct Tok { enum K { END, ID, LOC, GLOB, INT, FPD, FPX, STR, PUNCT, META, ATTR, ELLIPSIS, LABELDEF, COMDAT } k; std::string s; int line; };
static std::vector<Tok> toks; static size_t P; static Module* M;

static bool idc(char c) { return isalnum((unsigned char)c) || c == '_' || c == '.' || c == '$' || c == '-'; }
static std::string unesc(const std::string& s) { std::string o; for (size_t i = 0; i < s.size(); i++) { if (s[i] == '\\' && i + 2 < s.size() && isxdigit(s[i + 1]) && isxdigit(s[i + 2])) { o += (char)strtol(s.substr(i + 1, 2).c_str(), 0, 16); i += 2; } else if (s[i] == '\\' && i + 1 < s.size() && s[i+1]=='\\') { o += '\\'; i++; } else o += s[i]; } return o; }
static void lex(const std::string& t) {
  size_t i = 0, n = t.size(); int line = 1;
  auto push = [&](Tok::K k, std::string s) { toks.push_back({k, std::move(s), line}); };
  while (i < n) {
    char c = t[i];
    if (c == '\n') { line++; i++; continue; }
    if (isspace((unsigned char)c)) { i++; continue; }
    if (c == ';') { while (i < n && t[i] != '\n') i++; continue; }
    if (c == '%' || c == '@') {
      Tok::K k = c == '%' ? Tok::LOC : Tok::GLOB; i++;
      if (t[i] == '"') { size_t j = i + 1; while (t[j] != '"') j++; push(k, unesc(t.substr(i + 1, j - i - 1))); i = j + 1; }
      else { size_t j = i; while (j < n && idc(t[j])) j++; push(k, t.substr(i, j - i)); i = j; }
      continue;
    }
    if (c == '$') { size_t j = i + 1; if (t[j] == '"') { j++; while (t[j] != '"') j++; j++; } else while (j < n && idc(t[j])) j++; push(Tok::COMDAT, t.substr(i, j - i)); i = j; continue; }
    if (c == '!') { size_t j = i + 1; while (j < n && idc(t[j])) j++; push(Tok::META, t.substr(i, j - i)); i = j; continue; }
    if (c == '#') { size_t j = i + 1; while (j < n && isdigit((unsigned char)t[j])) j++; push(Tok::ATTR, t.substr(i, j - i)); i = j; continue; }
    if (c == '"') { size_t j = i + 1; while (t[j] != '"') j++; std::string s = t.substr(i + 1, j - i - 1); i = j + 1; if (i < n && t[i] == ':') { i++; push(Tok::LABELDEF, unesc(s)); } else push(Tok::STR, unesc(s)); continue; }
    if (c == 'c' && i + 1 < n && t[i + 1] == '"') { size_t j = i + 2; while (t[j] != '"') j++; push(Tok::STR, unesc(t.substr(i + 2, j - i - 2))); toks.back().s.insert(0, 1, 'c'); i = j + 1; continue; }
    if (c == '.' && t.compare(i, 3, "...") == 0) { push(Tok::ELLIPSIS, "..."); i += 3; continue; }
    if (isdigit((unsigned char)c) || (c == '-' && isdigit((unsigned char)t[i + 1]))) {
      size_t j = i + 1;
      if (c == '0' && t[j] == 'x') { j++; while (j < n && isalnum((unsigned char)t[j])) j++; push(Tok::FPX, t.substr(i, j - i)); i = j; continue; }
      bool fp = false; while (j < n && (isdigit((unsigned char)t[j]) || t[j] == '.' || ((t[j] == 'e' || t[j] == 'E') && fp) || ((t[j] == '+' || t[j] == '-') && (t[j - 1] == 'e' || t[j - 1] == 'E')))) { if (t[j] == '.') fp = true; j++; }
      if (j < n && t[j] == ':' ) { push(Tok::LABELDEF, t.substr(i, j - i)); i = j + 1; continue; }
      push(fp ? Tok::FPD : Tok::INT, t.substr(i, j - i)); i = j; continue;
    }
    if (isalpha((unsigned char)c) || c == '_' || c == '.' || (c == '-' && isalpha((unsigned char)t[i + 1]))) {
      size_t j = i; while (j < n && idc(t[j])) j++;
      if (j < n && t[j] == ':' && t.compare(j, 2, "::") != 0) { push(Tok::LABELDEF, t.substr(i, j - i)); i = j + 1; continue; }
      push(Tok::ID, t.substr(i, j - i)); i = j; continue;
    }
    push(Tok::PUNCT, std::string(1, c)); i++;
  }
  toks.push_back({Tok::END, "", line});
}
static const Tok& pk(int d = 0) { return toks[std::min(P + d, toks.size() - 1)]; }
[[noreturn]] static void die(const std::string& m) { std::cerr << "IR parse error line " << pk().line << " near '" << pk().s << "': " << m << "\n"; exit(3); }
static bool isP(const char* s, int d = 0) { return pk(d).k == Tok::PUNCT && pk(d).s == s; }
static bool isI(const char* s, int d = 0) { return pk(d).k == Tok::ID && pk(d).s == s; }
static bool accP(const char* s) { if (isP(s)) { P++; return true; } return false; }
static bool accI(const char* s) { if (isI(s)) { P++; return true; } return false; }
static void exP(const char* s) { if (!accP(s)) die(std::string("expected ") + s); }
static std::string exTok(Tok::K k) { if (pk().k != k) die("unexpected token"); return toks[P++].s; }

static std::map<unsigned, Type*> ints; static std::map<unsigned, Type*> fps; static Type *tvoid, *tptr, *tlabel, *tmeta;
static std::vector<Type*> pending;
static Type* mkt(TK k) { auto* t = new Type; t->k = k; return t; }
static Type* tint(unsigned b) { auto& t = ints[b]; if (!t) { t = mkt(T_INT); t->bits = b; t->size = b <= 8 ? 1 : b <= 16 ? 2 : b <= 32 ? 4 : b <= 64 ? 8 : (b + 127) / 128 * 16; t->align = t->size > 16 ? 16 : t->size; t->sized = true; } return t; }
static Type* tfp(unsigned b) { auto& t = fps[b]; if (!t) { t = mkt(T_FP); t->bits = b; t->size = b == 80 ? 16 : b / 8; t->align = t->size; t->sized = true; } return t; }
static void layout(Type* t) {
  if (t->sized) return; t->sized = true;
  if (t->k == T_STRUCT) {
    u64 o = 0, al = 1; t->off.clear();
    for (auto* e : t->el) { layout(e); u64 a = t->packed ? 1 : e->align; o = (o + a - 1) / a * a; t->off.push_back(o); o += e->size; al = std::max(al, a); }
    t->size = (o + al - 1) / al * al; t->align = al;
  } else if (t->k == T_ARRAY || t->k == T_VECTOR) { layout(t->el[0]); t->size = t->n * t->el[0]->size; t->align = t->el[0]->align; }
}
static bool typeStart() {
  const Tok& t = pk();
  if (t.k == Tok::ID) { if (t.s == "void" || t.s == "ptr" || t.s == "float" || t.s == "double" || t.s == "x86_fp80" || t.s == "label" || t.s == "metadata" || t.s == "token" || t.s == "opaque") return true;
    if (t.s[0] == 'i' && t.s.size() > 1) { for (size_t i = 1; i < t.s.size(); i++) if (!isdigit((unsigned char)t.s[i])) return false; return true; } return false; }
  if (t.k == Tok::LOC) return true;
  return t.k == Tok::PUNCT && (t.s == "[" || t.s == "{" || t.s == "<");
}
static Type* parseType() {
  Type* r = nullptr; const Tok t = pk();
  if (t.k == Tok::ID) {
    P++;
    if (t.s == "void") r = tvoid; else if (t.s == "ptr") { r = tptr; if (isI("addrspace")) { P++; exP("("); P++; exP(")"); } }
    else if (t.s == "float") r = tfp(32); else if (t.s == "double") r = tfp(64); else if (t.s == "x86_fp80") r = tfp(80);
    else if (t.s == "label") r = tlabel; else if (t.s == "metadata" || t.s == "token") r = tmeta; else if (t.s == "opaque") { r = mkt(T_OPAQUE); r->sized = true; }
    else if (t.s[0] == 'i') r = tint(atoi(t.s.c_str() + 1)); else die("type");
  } else if (t.k == Tok::LOC) { P++; auto& p = M->types[t.s]; if (!p) { p = mkt(T_STRUCT); p->name = t.s; } r = p; }
  else if (accP("[")) { r = mkt(T_ARRAY); r->n = strtoull(exTok(Tok::INT).c_str(), 0, 10); if (!accI("x")) die("x"); r->el.push_back(parseType()); exP("]"); }
  else if (isP("<") && isP("{", 1)) { P += 2; r = mkt(T_STRUCT); r->packed = true; while (!isP("}")) { r->el.push_back(parseType()); accP(","); } P++; exP(">"); }
  else if (accP("<")) { r = mkt(T_VECTOR); r->n = strtoull(exTok(Tok::INT).c_str(), 0, 10); if (!accI("x")) die("x"); r->el.push_back(parseType()); exP(">"); }
  else if (accP("{")) { r = mkt(T_STRUCT); while (!isP("}")) { r->el.push_back(parseType()); accP(","); } P++; }
  else die("type");
  // function types (only for indirect/vararg call signatures)
  if (isP("(") && (r->k != T_LABEL)) {
    // lookahead: is this "(types...)": only when followed by type start or ) or ...
    size_t sv = P; P++; bool ok = true; std::vector<Type*> ps;
    if (!isP(")")) { while (true) { if (pk().k == Tok::ELLIPSIS) { P++; break; } if (!typeStart()) { ok = false; break; } ps.push_back(parseType()); if (!accP(",")) break; } }
    if (ok && accP(")")) { Type* f = mkt(T_FUNC); f->el.push_back(r); for (auto* p : ps) f->el.push_back(p); f->sized = true; return f; }
    P = sv;
  }
  return r;
}
u64 Module::addrof(const std::string& s) { auto it = symaddr.find(s); if (it != symaddr.end()) return it->second; u64 a = ADDR(nextobj++); symaddr[s] = a; return a; }

V zero_of(Type* t) {
  switch (t->k) {
    case T_INT: return V::mki(0, t->bits);
    case T_FP: return V::mkf(0, t->bits);
    case T_PTR: return V::mki(0, 64);
    case T_STRUCT: case T_ARRAY: case T_VECTOR: { V v; v.k = V::AGG; v.agg = std::make_shared<std::vector<V>>(); u64 n = t->k == T_STRUCT ? t->el.size() : t->n; for (u64 i = 0; i < n; i++) v.agg->push_back(zero_of(t->k == T_STRUCT ? t->el[i] : t->el[0])); return v; }
    default: return V();
  }
}
static u128 parseInt(const std::string& s) { bool neg = s[0] == '-'; u128 v = 0; for (size_t i = neg; i < s.size(); i++) v = v * 10 + (s[i] - '0'); return neg ? -v : v; }
static std::map<std::string, int>* locals; static Function* curF;
static int regOf(const std::string& n) { auto it = locals->find(n); if (it != locals->end()) return it->second; int r = curF->nregs++; (*locals)[n] = r; return r; }
static Opnd parseVal(Type* t);
static V parseConst(Type* t) { Opnd o = parseVal(t); if (o.reg >= 0) die("constant expected"); return o.c; }
static Opnd parseTV() { Type* t = parseType(); 
  while (pk().k == Tok::ID && (isI("noundef") || isI("nonnull") || isI("inrange"))) P++;
  return parseVal(t); }
static u64 gepConst(Type* t, const std::vector<Opnd>& ix) { // ix excludes base
  u64 off = 0; Type* cur = t; layout(t);
  for (size_t i = 0; i < ix.size(); i++) {
    i64 k = (i64)sgn(ix[i].c.i, ix[i].c.w);
    if (i == 0) { off += k * cur->size; continue; }
    layout(cur);
    if (cur->k == T_STRUCT) { off += cur->off[k]; cur = cur->el[k]; } else { cur = cur->el[0]; layout(cur); off += k * cur->size; }
  }
  return off;
}
static Opnd parseVal(Type* t) {
  Opnd o; o.t = t; const Tok tk = pk(); layout(t);
  switch (tk.k) {
    case Tok::LOC: P++; o.reg = regOf(tk.s); return o;
    case Tok::GLOB: P++; o.c = V::mki(M->addrof(tk.s), 64); return o;
    case Tok::INT: P++; if (t->k == T_FP) { o.c = V::mkf(strtold(tk.s.c_str(), 0), t->bits); return o; } if (t->k != T_INT) die("int const of non-int type"); o.c = V::mki(parseInt(tk.s), t->bits); return o;
    case Tok::FPD: P++; o.c = V::mkf(t->bits == 80 ? strtold(tk.s.c_str(), 0) : strtod(tk.s.c_str(), 0), t->bits); return o;
    case Tok::FPX: { P++;
      if (tk.s.size() > 2 && tk.s[2] == 'K') { std::string h = tk.s.substr(3); u64 se = strtoull(h.substr(0, 4).c_str(), 0, 16), m = strtoull(h.substr(4).c_str(), 0, 16); long double v = 0; unsigned char b[16] = {0}; memcpy(b, &m, 8); b[8] = se & 255; b[9] = se >> 8; memcpy(&v, b, 10); o.c = V::mkf(v, 80); return o; }
      u64 bits = strtoull(tk.s.c_str() + 2, 0, 16); double d; memcpy(&d, &bits, 8); o.c = V::mkf(d, t->bits); return o; }
    case Tok::STR: { P++; std::string s = tk.s.substr(1); V v; v.k = V::AGG; v.agg = std::make_shared<std::vector<V>>(); for (char c : s) v.agg->push_back(V::mki((u8)c, 8)); o.c = v; return o; }
    case Tok::META: { P++; if (isP("{")) { int d = 0; do { if (isP("{")) d++; if (isP("}")) d--; P++; } while (d); } else if (isP("(")) { int d = 0; do { if (isP("(")) d++; if (isP(")")) d--; P++; } while (d); } return o; }
    case Tok::PUNCT: {
      V v; v.k = V::AGG; v.agg = std::make_shared<std::vector<V>>();
      if (accP("[")) { while (!accP("]")) { Type* et = parseType(); v.agg->push_back(parseConst(et)); accP(","); } o.c = v; return o; }
      bool pkd = false; if (isP("<") && isP("{", 1)) { P++; pkd = true; }
      if (accP("{")) { while (!accP("}")) { Type* et = parseType(); v.agg->push_back(parseConst(et)); accP(","); } if (pkd) exP(">"); o.c = v; return o; }
      if (accP("<")) { while (!accP(">")) { Type* et = parseType(); v.agg->push_back(parseConst(et)); accP(","); } o.c = v; return o; }
      die("constant"); }
    case Tok::ID: {
      P++; const std::string& s = tk.s;
      if (s == "null" || s == "zeroinitializer" || s == "undef" || s == "poison" || s == "none") { o.c = zero_of(t); return o; }
      if (s == "true") { o.c = V::mki(1, 1); return o; } if (s == "false") { o.c = V::mki(0, 1); return o; }
      if (s == "getelementptr") { accI("inbounds"); exP("("); Type* et = parseType(); exP(","); Opnd b = parseTV(); std::vector<Opnd> ix; while (accP(",")) { accI("inrange"); ix.push_back(parseTV()); } exP(")"); layout(et); o.c = V::mki((u64)b.c.i + gepConst(et, ix), 64); return o; }
      if (s == "bitcast" || s == "ptrtoint" || s == "inttoptr" || s == "trunc" || s == "zext" || s == "addrspacecast") { exP("("); Opnd b = parseTV(); if (!accI("to")) die("to"); Type* tt = parseType(); exP(")"); o.c = V::mki(b.c.i, tt->k == T_PTR ? 64 : tt->bits); return o; }
      if (s == "sub" || s == "add" || s == "mul") { accI("nuw"); accI("nsw"); exP("("); Opnd a = parseTV(); exP(","); Opnd b = parseTV(); exP(")"); o.c = V::mki(s == "sub" ? a.c.i - b.c.i : s == "add" ? a.c.i + b.c.i : a.c.i * b.c.i, a.c.w); return o; }
      if (s == "icmp") { std::string p = exTok(Tok::ID); exP("("); Opnd a = parseTV(); exP(","); Opnd b = parseTV(); exP(")"); bool eq = a.c.i == b.c.i; o.c = V::mki(p == "eq" ? eq : p == "ne" ? !eq : p == "ult" ? a.c.i < b.c.i : 0, 1); return o; }
      if (s == "select") { exP("("); Opnd a = parseTV(); exP(","); Opnd b = parseTV(); exP(","); Opnd c = parseTV(); exP(")"); o.c = a.c.i ? b.c : c.c; return o; }
      if (s == "dso_local_equivalent" || s == "no_cfi") { o.c = V::mki(M->addrof(exTok(Tok::GLOB)), 64); return o; }
      if (s == "asm") die("inline asm");
      die("constant identifier " + s); }
    default: die("value");
  }
}
static void skipParens() { int d = 0; do { if (isP("(")) d++; else if (isP(")")) d--; P++; } while (d); }
static const char* attrs_[] = {"noundef","nonnull","zeroext","signext","inreg","noalias","nocapture","nofree","nest","returned","readonly","writeonly","readnone","immarg","swiftself","swifterror","noreturn","nounwind","allocalign","allocptr","writable","dead_on_unwind","inalloca","dead_on_return"};
static bool parseAttr(Type** byval) {
  if (pk().k == Tok::STR) { P++; if (accP("=")) P++; return true; }
  if (pk().k != Tok::ID) return false;
  for (auto a : attrs_) if (pk().s == a) { P++; return true; }
  if (isI("align")) { P++; if (isP("(")) skipParens(); else P++; return true; }
  if (isI("byval") || isI("sret") || isI("elementtype") || isI("preallocated") || isI("byref")) { bool bv = isI("byval"); P++; exP("("); Type* t = parseType(); exP(")"); layout(t); if (bv && byval) *byval = t; return true; }
  if (isI("dereferenceable") || isI("dereferenceable_or_null") || isI("memory") || isI("allocsize") || isI("nofpclass") || isI("alignstack") || isI("vscale_range") || isI("allockind") || isI("uwtable") || isI("captures") || isI("range")) { P++; if (isP("(")) skipParens(); return true; }
  return false;
}
static void skipMeta() { while (isP(",") && pk(1).k == Tok::META) { P += 2; if (pk().k == Tok::META) { P++; if (isP("(") || isP("{")) { int d = 0; do { if (isP("(") || isP("{")) d++; else if (isP(")") || isP("}")) d--; P++; } while (d); } } } }
static Order parseOrder() { 
  if (isI("syncscope")) { P++; skipParens(); }
  if (accI("unordered")) return UNORD; if (accI("monotonic")) return RELAXED; if (accI("acquire")) return ACQ; if (accI("release")) return REL; if (accI("acq_rel")) return ACQREL; if (accI("seq_cst")) return SEQ; return NA; }
static int bbOf(std::map<std::string, int>& bbs, const std::string& n) { auto it = bbs.find(n); if (it != bbs.end()) return it->second; int i = curF->bb.size(); curF->bb.emplace_back(); curF->bb.back().name = n; bbs[n] = i; return i; }
static void skipFlags() { static const char* f[] = {"nuw","nsw","exact","fast","nnan","ninf","nsz","arcp","contract","afn","reassoc","inbounds","disjoint","nneg","volatile"}; bool ch = true; while (ch && pk().k == Tok::ID) { ch = false; for (auto x : f) if (pk().s == x) { P++; ch = true; break; } } }

static void parseCall(Inst& in, std::map<std::string, int>& bbs, bool invoke) {
  // [cc] [ret attrs] type callee(args) attrs
  skipFlags();
  while (isI("fastcc") || isI("ccc") || isI("coldcc")) P++;
  while (parseAttr(nullptr)) {}
  Type* t = parseType(); if (t->k == T_FUNC) t = t->el[0]; in.ty = t; layout(t);
  if (isI("asm")) { // inline assembly: skipped (barriers only)
    while (!isP("(")) P++; skipParens(); in.calleeName = "__inline_asm"; while (pk().k == Tok::ATTR) P++; skipMeta(); return; }
  Opnd cal; if (pk().k == Tok::GLOB) { in.calleeName = pk().s; } cal = parseVal(tptr); in.ops.push_back(cal);
  exP("(");
  while (!accP(")")) {
    Type* at = parseType(); Type* bv = nullptr; while (parseAttr(&bv)) {}
    Opnd a; if (at->k == T_META) { // metadata operand: value may be "metadata ptr %x" or !0
      if (pk().k == Tok::META) parseVal(at); else parseTV(); a.t = at; } else a = parseVal(at);
    in.ops.push_back(a); in.byval.push_back(bv); accP(",");
  }
  while (pk().k == Tok::ATTR || parseAttr(nullptr)) { if (pk().k == Tok::ATTR) P++; }
  if (isP("[") && pk(1).k == Tok::STR) { while (!isP("]")) P++; P++; } // operand bundles
  if (invoke) { if (!accI("to")) die("to"); accI("label"); in.bb.push_back(bbOf(bbs, exTok(Tok::LOC))); if (!accI("unwind")) die("unwind"); accI("label"); in.bb.push_back(bbOf(bbs, exTok(Tok::LOC))); }
  skipMeta();
}
static void parseFunctionHeader(Function*& f, bool define) {
  // linkage etc. until type
  while (!typeStart()) { if (!parseAttr(nullptr)) P++; }
  Type* rt = parseType(); layout(rt);
  std::string name = exTok(Tok::GLOB);
  if (M->fidx.count(name)) f = M->funcs[M->fidx[name]].get();
  else { M->fidx[name] = M->funcs.size(); M->funcs.emplace_back(new Function); f = M->funcs.back().get(); f->name = name; }
  f->ret = rt; f->params.clear(); u64 ad = M->addrof(name); f->objid = (u32)OBJ(ad); M->faddr[ad] = f;
  exP("(");
  int unn = 0;
  while (!accP(")")) {
    if (pk().k == Tok::ELLIPSIS) { P++; f->vararg = true; continue; }
    Type* t = parseType(); layout(t); while (parseAttr(nullptr)) {}
    std::string pn = std::to_string(unn); if (pk().k == Tok::LOC) { pn = toks[P++].s; if (isdigit((unsigned char)pn[0])) unn = atoi(pn.c_str()) + 1; } else unn++;
    f->params.push_back(t); f->pnames.push_back(pn); accP(",");
  }
  (void)define;
}
static void parseBody(Function* f) {
  std::map<std::string, int> loc, bbs; locals = &loc; curF = f; f->defined = true;
  int implicit = 0;
  for (auto& n : f->pnames) { regOf(n); if (isdigit((unsigned char)n[0])) implicit = std::max(implicit, atoi(n.c_str()) + 1); }
  exP("{");
  int cur = -1; std::vector<int> order;
  if (pk().k != Tok::LABELDEF) { cur = bbOf(bbs, std::to_string(implicit)); order.push_back(cur); }
  while (!accP("}")) {
    if (pk().k == Tok::LABELDEF) { cur = bbOf(bbs, toks[P++].s); order.push_back(cur); continue; }
    Inst in; in.line = pk().line;
    if (pk().k == Tok::LOC && isP("=", 1)) { in.dst = regOf(pk().s); P += 2; }
    while (isI("tail") || isI("musttail") || isI("notail")) P++;
    std::string op = exTok(Tok::ID);
    auto tv = [&]() { in.ops.push_back(parseTV()); };
    static const std::map<std::string, Op> bins = {{"add", O_ADD}, {"sub", O_SUB}, {"mul", O_MUL}, {"udiv", O_UDIV}, {"sdiv", O_SDIV}, {"urem", O_UREM}, {"srem", O_SREM}, {"shl", O_SHL}, {"lshr", O_LSHR}, {"ashr", O_ASHR}, {"and", O_AND}, {"or", O_OR}, {"xor", O_XOR}};
    static const std::map<std::string, int> fbins = {{"fadd", O_FADD}, {"fsub", O_FSUB}, {"fmul", O_FMUL}, {"fdiv", O_FDIV}, {"frem", 1000}};
    static const std::map<std::string, int> casts = {{"trunc", C_TRUNC}, {"zext", C_ZEXT}, {"sext", C_SEXT}, {"fptrunc", C_FPTRUNC}, {"fpext", C_FPEXT}, {"fptoui", C_FPTOUI}, {"fptosi", C_FPTOSI}, {"uitofp", C_UITOFP}, {"sitofp", C_SITOFP}, {"ptrtoint", C_PTRTOINT}, {"inttoptr", C_INTTOPTR}, {"bitcast", C_BITCAST}};
    if (op == "ret") { in.op = I_RET; Type* t = parseType(); if (t->k != T_VOID) in.ops.push_back(parseVal(t)); }
    else if (op == "br") { if (accI("label")) { in.op = I_BR; in.bb.push_back(bbOf(bbs, exTok(Tok::LOC))); } else { in.op = I_CBR; tv(); for (int i = 0; i < 2; i++) { exP(","); accI("label"); in.bb.push_back(bbOf(bbs, exTok(Tok::LOC))); } } }
    else if (op == "switch") { in.op = I_SWITCH; tv(); exP(","); accI("label"); in.bb.push_back(bbOf(bbs, exTok(Tok::LOC))); exP("["); while (!accP("]")) { Opnd c = parseTV(); in.cases.push_back(c.c.i); exP(","); accI("label"); in.bb.push_back(bbOf(bbs, exTok(Tok::LOC))); } }
    else if (op == "invoke") { in.op = I_INVOKE; parseCall(in, bbs, true); }
    else if (op == "call") { in.op = I_CALL; parseCall(in, bbs, false); }
    else if (op == "resume") { in.op = I_RESUME; tv(); }
    else if (op == "unreachable") in.op = I_UNREACHABLE;
    else if (op == "fneg") { in.op = I_FNEG; skipFlags(); tv(); in.ty = in.ops[0].t; }
    else if (bins.count(op)) { in.op = I_BIN; in.sub = bins.at(op); skipFlags(); Type* t = parseType(); in.ty = t; in.ops.push_back(parseVal(t)); exP(","); in.ops.push_back(parseVal(t)); }
    else if (fbins.count(op)) { in.op = I_FBIN; in.sub = fbins.at(op); skipFlags(); Type* t = parseType(); in.ty = t; in.ops.push_back(parseVal(t)); exP(","); in.ops.push_back(parseVal(t)); }
    else if (op == "alloca") { in.op = I_ALLOCA; accI("inalloca"); in.ty = parseType(); layout(in.ty); while (isP(",") && pk(1).k != Tok::META) { P++; if (accI("align")) P++; else tv(); } }
    else if (op == "load") { in.op = I_LOAD; bool at = accI("atomic"); skipFlags(); in.ty = parseType(); layout(in.ty); exP(","); tv(); if (at) in.ord = parseOrder(); if (isP(",") && isI("align", 1)) P += 3; }
    else if (op == "store") { in.op = I_STORE; bool at = accI("atomic"); skipFlags(); tv(); exP(","); tv(); in.ty = in.ops[0].t; layout(in.ty); if (at) in.ord = parseOrder(); if (isP(",") && isI("align", 1)) P += 3; }
    else if (op == "fence") { in.op = I_FENCE; in.ord = parseOrder(); }
    else if (op == "cmpxchg") { in.op = I_CMPXCHG; accI("weak"); skipFlags(); accI("weak"); tv(); exP(","); tv(); exP(","); tv(); in.ord = parseOrder(); in.sub = parseOrder(); in.ty = in.ops[1].t; if (isP(",") && isI("align", 1)) P += 3; }
    else if (op == "atomicrmw") { in.op = I_RMW; skipFlags(); static const char* r[] = {"xchg", "add", "sub", "and", "nand", "or", "xor", "max", "min", "umax", "umin", "fadd", "fsub"}; std::string o = exTok(Tok::ID); in.sub = -1; for (int i = 0; i < 13; i++) if (o == r[i]) in.sub = i; if (in.sub < 0) die("rmw"); tv(); exP(","); tv(); in.ord = parseOrder(); in.ty = in.ops[1].t; if (isP(",") && isI("align", 1)) P += 3; }
    else if (op == "getelementptr") {
      in.op = I_GEP; skipFlags(); in.ty = parseType(); layout(in.ty); exP(","); tv(); while (isP(",") && pk(1).k != Tok::META) { P++; tv(); }
      if (in.ops[0].t->k != T_PTR) die("vector gep");
      Type* curt = in.ty;
      for (size_t i = 1; i < in.ops.size(); i++) {
        u64 sc;
        if (i == 1) sc = curt->size;
        else { layout(curt); if (curt->k == T_STRUCT) { int k = (int)in.ops[i].c.i; in.gconst += curt->off[k]; curt = curt->el[k]; layout(curt); continue; } curt = curt->el[0]; layout(curt); sc = curt->size; }
        if (in.ops[i].reg < 0) in.gconst += (u64)((i64)sgn(in.ops[i].c.i, in.ops[i].c.w) * (i64)sc); else in.gvar.push_back({(int)i, sc});
      }
    }
    else if (casts.count(op)) { in.op = I_CAST; in.sub = casts.at(op); skipFlags(); tv(); if (!accI("to")) die("to"); in.ty = parseType(); layout(in.ty); }
    else if (op == "icmp") { in.op = I_ICMP; skipFlags(); static const std::map<std::string, int> pr = {{"eq", P_EQ}, {"ne", P_NE}, {"ugt", P_UGT}, {"uge", P_UGE}, {"ult", P_ULT}, {"ule", P_ULE}, {"sgt", P_SGT}, {"sge", P_SGE}, {"slt", P_SLT}, {"sle", P_SLE}}; in.sub = pr.at(exTok(Tok::ID)); Type* t = parseType(); in.ty = t; in.ops.push_back(parseVal(t)); exP(","); in.ops.push_back(parseVal(t)); }
    else if (op == "fcmp") { in.op = I_FCMP; skipFlags(); in.calleeName = exTok(Tok::ID); Type* t = parseType(); in.ty = t; in.ops.push_back(parseVal(t)); exP(","); in.ops.push_back(parseVal(t)); }
    else if (op == "phi") { in.op = I_PHI; skipFlags(); Type* t = parseType(); in.ty = t; layout(t); do { exP("["); in.ops.push_back(parseVal(t)); exP(","); in.bb.push_back(bbOf(bbs, exTok(Tok::LOC))); exP("]"); } while (isP(",") && isP("[", 1) && ++P); }
    else if (op == "select") { in.op = I_SELECT; skipFlags(); tv(); exP(","); tv(); exP(","); tv(); in.ty = in.ops[1].t; }
    else if (op == "freeze") { in.op = I_FREEZE; tv(); }
    else if (op == "landingpad") { in.op = I_LPAD; in.ty = parseType(); while (true) { if (accI("cleanup")) in.flag = true; else if (accI("catch")) { tv(); in.idx.push_back(0); } else if (accI("filter")) { Opnd o = parseTV(); in.ops.push_back(o); in.idx.push_back(1); } else break; } }
    else if (op == "extractvalue") { in.op = I_EXTRACTV; tv(); while (isP(",") && pk(1).k == Tok::INT) { P++; in.idx.push_back(atoi(toks[P++].s.c_str())); } }
    else if (op == "insertvalue") { in.op = I_INSERTV; tv(); exP(","); tv(); while (isP(",") && pk(1).k == Tok::INT) { P++; in.idx.push_back(atoi(toks[P++].s.c_str())); } }
    else die("unknown instruction " + op);
    skipMeta();
    f->bb[cur].in.push_back(std::move(in));
  }
  // keep block indices, only phi counts
  for (auto& b : f->bb) { b.nphi = 0; for (auto& i : b.in) if (i.op == I_PHI) b.nphi++; else break; }
  locals = nullptr;
}
void parse_module(const std::string& file, Module& m) {
  M = &m; std::ifstream fi(file); if (!fi) { std::cerr << "cannot read " << file << "\n"; exit(3); } std::stringstream ss; ss << fi.rdbuf();
  tvoid = mkt(T_VOID); tvoid->sized = true; tptr = mkt(T_PTR); tptr->size = tptr->align = 8; tptr->sized = true; tlabel = mkt(T_LABEL); tlabel->sized = true; tmeta = mkt(T_META); tmeta->sized = true;
  lex(ss.str()); P = 0;
  static std::map<std::string, int> gl; 
  // struct bodies first (types may be used before definition)
  while (pk().k != Tok::END) {
    const Tok t = pk();
    if (t.k == Tok::ID && t.s == "source_filename") { P += 3; continue; }
    if (t.k == Tok::ID && t.s == "target") { P += 4; continue; }
    if (t.k == Tok::ID && t.s == "module") { P += 3; continue; }
    if (t.k == Tok::COMDAT) { P += 2; accI("comdat"); P++; continue; } // $x = comdat any
    if (t.k == Tok::LOC && isP("=", 1) && isI("type", 2)) { P += 3; auto& p = m.types[t.s]; Type* body = parseType(); if (!p) { p = mkt(T_STRUCT); p->name = t.s; } if (body->k == T_STRUCT) { p->el = body->el; p->packed = body->packed; } else p->sized = true; continue; }
    if (t.k == Tok::GLOB && isP("=", 1)) {
      P += 2; Global g; g.name = t.s; bool alias = false;
      Function dummy; curF = &dummy; locals = &gl;
      while (true) { if (accI("external") || accI("extern_weak")) { g.external = true; continue; } if (isI("global") || isI("constant")) { g.constant = isI("constant"); P++; break; } if (isI("alias") || isI("ifunc")) { alias = true; P++; break; } if (pk().k == Tok::ID) { P++; if (isP("(")) skipParens(); continue; } die("global"); }
      Type* ty = parseType(); layout(ty); g.ty = ty;
      if (alias) { exP(","); Opnd o = parseTV(); m.symaddr[g.name] = (u64)o.c.i; while (isP(",")) { P += 2; } continue; }
      if (!g.external) { g.init = parseConst(ty); g.hasinit = true; }
      while (isP(",")) { P++; if (accI("align")) P++; else if (accI("comdat")) { if (isP("(")) skipParens(); } else if (accI("section")) P++; else P++; }
      while (pk().k == Tok::ATTR) P++;
      g.objid = (u32)OBJ(m.addrof(g.name)); m.gidx[g.name] = m.globals.size(); m.globals.push_back(g); continue;
    }
    if (t.k == Tok::ID && t.s == "declare") { P++; Function* f; parseFunctionHeader(f, false); while (pk().k != Tok::END && !(pk().k == Tok::ID && (pk().s == "declare" || pk().s == "define" || pk().s == "attributes")) && !(pk().k == Tok::META) && !(pk().k == Tok::GLOB) ) P++; continue; }
    if (t.k == Tok::ID && t.s == "define") { P++; Function* f; parseFunctionHeader(f, true); while (!isP("{")) P++; parseBody(f); continue; }
    if (t.k == Tok::ID && t.s == "attributes") { P++; while (!isP("}")) P++; P++; continue; }
    if (t.k == Tok::META) { // metadata to the end of its line
      int l = t.line; while (pk().k != Tok::END && pk().line == l) P++; continue; }
    die("top level");
  }
  toks.clear(); toks.shrink_to_fit();
}
