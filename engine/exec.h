// Symbolic executor over the parsed IR.
#pragma once
#include "ir.h"
#include <set>
#include <unordered_map>
#include <memory>
#include <array>

struct SymB { E e = nullptr; u32 idx = 0; };
enum OK_ : u8 { OB_GLOBAL, OB_STACK, OB_HEAP, OB_FUNC, OB_EXC };
enum BS : u8 { B_UNINIT, B_CONC, B_SYM };
struct Obj {
  int rc = 0; u64 size = 0; OK_ kind = OB_GLOBAL; bool ro = false, dead = false; int owner = 0; u32 id = 0; int alloc = 0; // alloc: 0 malloc 1 new 2 new[]
  std::vector<u8> d, st; std::vector<SymB> sy; mutable u64 h = 0; mutable bool hv = false;
};
template <class T> struct Ref {
  T* p = nullptr;
  Ref() {} Ref(T* q) : p(q) { if (p) p->rc++; } Ref(const Ref& o) : p(o.p) { if (p) p->rc++; } Ref(Ref&& o) : p(o.p) { o.p = nullptr; }
  Ref& operator=(Ref o) { std::swap(p, o.p); return *this; }
  ~Ref() { if (p && --p->rc == 0) delete p; }
  T* operator->() const { return p; } T& operator*() const { return *p; } explicit operator bool() const { return p; }
  T* mut() { if (p->rc > 1) { T* q = new T(*p); q->rc = 0; *this = Ref(q); } return p; }
};
struct Chunk { int rc = 0; std::array<Ref<Obj>, 64> o; mutable u64 h = 0; mutable bool hv = false; };

struct Frame { int rc = 0; u64 dyn = 0; Function* f = nullptr; int bb = 0, ip = 0, prev = -1; std::vector<V> regs; std::vector<u32> allocas; int dst = -1; Type* dty = nullptr; bool inv = false; int nbb = 0, ubb = 0; std::vector<V> va; std::vector<Type*> vat; };
struct ExcInfo { u64 obj, ti, dtor; int handlers = 0; bool rethrown = false; };
struct Thread { int rc = 0; std::vector<Ref<Frame>> fr; bool done = false; u64 blocked = 0; bool joinwait = false, granted = false; u64 ops = 0; int locks = 0; std::vector<u64> caught; u64 excobj = 0; i64 excsel = 0; bool indtor = false; u32 nextobj = 1; std::map<u64, std::vector<u32>> freel; };
struct SwitchRec { int tid; u64 ops; int next; };
struct InputRec { std::string name; E e; };
struct SegAcc { u64 a; u32 n; u8 tid; bool w, at; Inst* in; int locks; };
struct Group { std::unordered_map<u64, std::vector<SegAcc>> m; }; // the accesses of the threads from one scheduling point to their next ones
typedef std::array<u32, 8> Clock;
struct HbAcc { u64 a; u32 n; u8 tid; bool w, at; u32 clk; Inst* in; };
struct Shadow { std::unordered_map<u64, std::vector<HbAcc>> m; std::unordered_map<u64, Clock> sync; }; // last accesses and what synchronization carries
struct State {
  std::shared_ptr<Shadow> sh; std::vector<Clock> vc;
  std::shared_ptr<Group> grp; int rb = 2;
  std::vector<Ref<Thread>> th; int cur = 0;
  std::vector<std::vector<Ref<Chunk>>> mem; // [space][chunk]
  std::vector<E> pc; ModelP model; bool unsure = false;
  std::vector<InputRec> inputs; std::map<std::string, int> names; std::vector<SwitchRec> sched;
  std::vector<ExcInfo> exc; std::map<std::pair<int, u32>, u32> tls; std::vector<std::array<u64, 2>> atexit_;
  bool pointsall = false, reuse = false; int preempt = -1; u64 instrs = 0, since = 0; i64 heaplive = 0; int depth = 0; int uninit = 0; bool started = false; int muted = 0;
};
