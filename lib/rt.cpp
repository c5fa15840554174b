// Native replay runtime: runs one harness entry on concrete inputs (and, for the instrumented IR build, one schedule).
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <map>
#include <string>
#include <vector>
#include <unistd.h>
#include <pthread.h>
#include <sanitizer/asan_interface.h>
#include <new>
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
static __thread int own = 0; static long live_blocks = 0; // blocks of the harness; the runtime's own are not counted
struct Own { Own() { own++; } ~Own() { own--; } };
static void onmalloc(const volatile void*, size_t) { if (!own) __atomic_fetch_add(&live_blocks, 1, __ATOMIC_SEQ_CST); }
static void onfree(const volatile void* p) { if (p && !own) __atomic_fetch_sub(&live_blocks, 1, __ATOMIC_SEQ_CST); }
static std::map<std::string, std::string>* inp; static std::map<std::string, int>* cnt;
struct Sw { long tid, ops, next; };
static std::vector<Sw>* sched; static size_t spos; static bool have_sched, reuse, vacuous_inputs;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
static long running = 0; static __thread long me = 0; static __thread unsigned long ops = 0; static std::vector<pthread_t>* threads; static std::vector<char>* finished;
static bool locked_init;
[[noreturn]] static void out(const char* what, const char* id, int rc) { fflush(stdout); fprintf(stderr, "VS-%s %s\n", what, id); fflush(stderr); _exit(rc); }
static std::string* find(const char* name) { Own o; std::string n = std::string(name) + "#" + std::to_string((*cnt)[name]++); auto it = inp->find(n); return it == inp->end() ? nullptr : &it->second; }
static void hand(long to) { // give the baton to another thread and wait for it to come back
  pthread_mutex_lock(&mu); running = to; pthread_cond_broadcast(&cv); while (running != me) pthread_cond_wait(&cv, &mu); pthread_mutex_unlock(&mu); }
static void here() { while (have_sched && spos < sched->size() && (*sched)[spos].tid == me && (*sched)[spos].ops == (long)ops) { long n = (*sched)[spos++].next; if (n != me) hand(n); } }
static void mustyield(const char* why) { // the current thread cannot go on
  if (have_sched && spos < sched->size() && (*sched)[spos].tid == me && (*sched)[spos].next >= 0) { hand((*sched)[spos++].next); return; }
  if (have_sched && spos < sched->size() && (*sched)[spos].next < 0) out("FAIL", "deadlock", 42);
  if (!have_sched || spos >= sched->size()) { // past the recorded schedule: anybody else
    for (size_t i = 0; i < finished->size(); i++) if ((long)i != me && !(*finished)[i]) { hand(i); return; } }
  out("DIVERGED", why, 44); }
static bool rnd_on = false; static uint64_t rs = 1; static uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 2685821657736338717ull; }
static int64_t rrange(int64_t lo, int64_t hi) { uint64_t span = (uint64_t)hi - (uint64_t)lo; switch (rnd() >> 61) { case 0: return lo; case 1: return hi; default: return (int64_t)((uint64_t)lo + (span == ~0ull ? rnd() : (rnd() >> 3) % (span + 1))); } }
extern "C" {
void vs_cover(bool c, const char* id) { if (!rnd_on) return; fprintf(stderr, "\nVS-COVER %d %s\n", c ? 1 : 0, id); }
uint64_t vs_sym_bits(const char* name, unsigned w) { auto* s = find(name); uint64_t v = s ? (uint64_t)strtoll(s->c_str(), 0, 10) : rnd_on ? rnd() : 0; return w < 64 ? v & ((1ull << w) - 1) : v; }
int64_t vs_range(const char* name, int64_t lo, int64_t hi) { auto* s = find(name); int64_t v = s ? strtoll(s->c_str(), 0, 10) : rnd_on ? rrange(lo, hi) : lo; if (v < lo || v > hi) out("ASSUME", name, 43); return v; }
double vs_fp_range(const char* name, double lo, double hi, unsigned w) { auto* s = find(name); double v = s ? (double)strtold(s->c_str(), 0) : rnd_on ? lo + (hi - lo) * ((rnd() >> 11) * 1.1102230246251565e-16) : (lo <= 0 && hi >= 0 ? 0 : lo); if (w == 32) v = (float)v; if (!(v >= lo && v <= hi)) out("ASSUME", name, 43); return v; }
int vs_choose(const char* name, int n) { auto* s = find(name); int v = s ? atoi(s->c_str()) : rnd_on ? (int)rrange(0, n - 1) : 0; if (v < 0 || v >= n) out("ASSUME", name, 43); return v; }
void vs_assume(bool c) { if (!c) out("ASSUME", "", 43); }
void vs_assert(bool c, const char* id) { if (!c) out("FAIL", id, 42); }
void vs_assert_k(bool c, const char* id, const char* f, bool region) { if (c) return; if (region) { if (getenv("VS_KNOWN_STOPS")) out("KNOWN", f, 45); return; } out("FAIL", id, 42); }
int64_t vs_concretize(int64_t v) { return v; }
int vs_is_symbolic() { return 0; }
void vs_stop() { out("DONE", "", 0); }
__attribute__((noinline)) int64_t vs_stack() { return -(int64_t)__builtin_frame_address(0); }
int64_t vs_heap_live() { static bool on = false; if (!on) { on = true; __sanitizer_install_malloc_and_free_hooks(onmalloc, onfree); } return live_blocks; }
void vs_flag(int w, int64_t v) { if (w == 1) reuse = v; }
void vs_point() { if (have_sched) { here(); ops++; } }
void vs_yield() { if (have_sched) { here(); ops++; } }
int vs_sched_yield() { vs_yield(); return 0; }
struct TA { void (*fn)(void*); void* arg; long id; };
static void* tmain(void* p) { TA* t = (TA*)p; me = t->id; pthread_mutex_lock(&mu); while (running != me) pthread_cond_wait(&cv, &mu); pthread_mutex_unlock(&mu);
  t->fn(t->arg); (*finished)[me] = 1; 
  long nx = -1; if (have_sched && spos < sched->size()) { if ((*sched)[spos].tid == me && (*sched)[spos].ops == (long)ops) nx = (*sched)[spos++].next; else { bool others = false; for (size_t i = 1; i < finished->size(); i++) if (!(*finished)[i]) others = true; if (!others) nx = 0; else out("DIVERGED", "end", 44); } }
  else { for (size_t i = 1; i < finished->size(); i++) if (!(*finished)[i]) nx = i; if (nx < 0) nx = 0; }
  pthread_mutex_lock(&mu); running = nx; pthread_cond_broadcast(&cv); pthread_mutex_unlock(&mu); return nullptr; }
void vs_thread(void (*fn)(void*), void* arg) { if (finished->empty()) finished->push_back(0); long id = finished->size(); finished->push_back(0); pthread_t t; pthread_create(&t, 0, tmain, new TA{fn, arg, id}); threads->push_back(t); }
void vs_join() { while (true) { bool all = true; for (size_t i = 1; i < finished->size(); i++) if (!(*finished)[i]) all = false; if (all) return; mustyield("join"); } }
// mutexes of the instrumented build
static std::map<void*, long>* owners;
static bool mine(void* m) { if (!owners) owners = new std::map<void*, long>; auto i = owners->find(m); return i != owners->end() && i->second == me && (((int*)m)[4] & 3) == 1; }
static std::map<void*, int>* again;
static int more(void* m, int by) { Own o; if (!again) again = new std::map<void*, int>; return (*again)[m] += by; }
static void owner(void* m, bool on) { Own o; if (on) (*owners)[m] = me; else owners->erase(m); }
int vs_mutex_lock(void* m) { if (have_sched) here(); ops++; if (mine(m)) { more(m, 1); return 0; } ops--; while (owners->count(m)) mustyield("lock"); owner(m, true); ops++; return 0; }
int vs_mutex_trylock(void* m) { if (have_sched) here(); ops++; if (mine(m)) { more(m, 1); return 0; } if (owners->count(m)) return 16; owner(m, true); return 0; }
int vs_mutex_unlock(void* m) { if (have_sched) here(); ops++; if (mine(m) && more(m, 0)) { more(m, -1); return 0; } owner(m, false); return 0; }
struct RW { int readers = 0; long writer = -1; }; static std::map<void*, RW>* rws; static RW& rw(void* m) { Own o; if (!rws) rws = new std::map<void*, RW>; return (*rws)[m]; }
int vs_rw_wr(void* m) { if (have_sched) here(); while (rw(m).writer >= 0 || rw(m).readers) mustyield("write lock"); rw(m).writer = me; ops++; return 0; }
int vs_rw_rd(void* m) { if (have_sched) here(); while (rw(m).writer >= 0) mustyield("read lock"); rw(m).readers++; ops++; return 0; }
int vs_rw_trywr(void* m) { if (have_sched) here(); ops++; if (rw(m).writer >= 0 || rw(m).readers) return 16; rw(m).writer = me; return 0; }
int vs_rw_tryrd(void* m) { if (have_sched) here(); ops++; if (rw(m).writer >= 0) return 16; rw(m).readers++; return 0; }
int vs_rw_unlock(void* m) { if (have_sched) here(); ops++; if (rw(m).writer == me) rw(m).writer = -1; else rw(m).readers--; return 0; }
int vs_nanosleep(const void*, void*) { vs_yield(); return 0; }
static int64_t spm[8]; void vs_sp1(void*, const void*) { vs_mutex_lock(spm); } void vs_sp2(void*, const void*, const void*) { vs_mutex_lock(spm); } void vs_sp3(void*) { vs_mutex_unlock(spm); }
int vs_guard_acquire(char* g) { if (have_sched) here(); while (!g[0] && g[1]) mustyield("static"); ops++; if (g[0]) return 0; g[1] = 1; return 1; }
void vs_guard_release(char* g) { if (have_sched) here(); ops++; g[1] = 0; g[0] = 1; }
void vs_guard_abort(char* g) { if (have_sched) here(); ops++; g[1] = 0; g[0] = 0; }
int vs_once(char* c, void (*f)()) { if (vs_guard_acquire(c)) { f(); vs_guard_release(c); } return 0; }
// heap of the instrumented build: optional LIFO reuse per thread and size
static __thread std::map<size_t, std::vector<void*>>* freel;
void* vs_heap_new(size_t n) { if (reuse) { if (!freel) freel = new std::map<size_t, std::vector<void*>>; auto& f = (*freel)[n]; if (!f.empty()) { void* p = f.back(); f.pop_back(); __asan_unpoison_memory_region(p, n); return p; } size_t* q = (size_t*)malloc(n + 16); q[0] = n; return q + 2; } return malloc(n); }
void vs_heap_del(void* p) { if (!p) return; if (reuse) { size_t n = ((size_t*)p)[-2]; if (!freel) freel = new std::map<size_t, std::vector<void*>>; (*freel)[n].push_back(p); __asan_poison_memory_region(p, n); return; } free(p); }
}
#ifdef VS_TABLE
struct Ent { const char* n; void (*f)(); };
#define X(n) extern "C" void vs_entry_##n();
#include VS_TABLE
#undef X
static Ent table[] = {
#define X(n) {#n, vs_entry_##n},
#include VS_TABLE
#undef X
};
#endif
__attribute__((constructor(101))) static void init() { inp = new std::map<std::string, std::string>; cnt = new std::map<std::string, int>; sched = new std::vector<Sw>; threads = new std::vector<pthread_t>; finished = new std::vector<char>; }
int main(int argc, char** argv) {
  if (argc < 3) return 2; FILE* f = fopen(argv[2], "r"); if (!f) return 2; char line[512];
  while (fgets(line, sizeof line, f)) { char a[256], b[200]; long x, y, z; if (sscanf(line, "@ %ld %ld %ld", &x, &y, &z) == 3) { sched->push_back({x, y, z}); have_sched = true; } else if (sscanf(line, "%255s %199s", a, b) == 2) (*inp)[a] = b; }
  fclose(f); alarm(argc > 3 ? atoi(argv[3]) : 20); ops = 0; cnt->clear(); if (getenv("VS_RANDOM")) { rnd_on = true; rs = 88172645463325252ull ^ (strtoull(getenv("VS_RANDOM"), 0, 10) * 0x9E3779B97F4A7C15ull); for (int i = 0; i < 8; i++) rnd(); }
  for (auto& e : table) if (!strcmp(e.n, argv[1])) { e.f(); out("DONE", "", 0); }
  return 2;
}
