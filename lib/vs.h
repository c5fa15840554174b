// Interface between the harnesses and the symbolic engine (or, natively, the replay runtime).
#pragma once
#include <functional>
#include <array>
#include <algorithm>
#include <chrono>
#include <cassert>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <initializer_list>
#include <iostream>
#include <limits>
#include <memory>
#include <mutex>
#include <random>
#include <stdexcept>
#include <string>
#include <sstream>
#include <iomanip>
#include <thread>
#include <typeindex>
#include <unordered_map>
#include <utility>
#include <vector>
#include <map>
#include <set>

extern "C" {
uint64_t vs_sym_bits(const char* name, unsigned width);        // arbitrary value of that many bits
int64_t vs_range(const char* name, int64_t lo, int64_t hi);    // arbitrary value of the closed interval
double vs_fp_range(const char* name, double lo, double hi, unsigned width);
int vs_choose(const char* name, int n);                        // arbitrary value of [0, n), one path per value
void vs_assume(bool c);
void vs_assert(bool c, const char* id);
void vs_assert_k(bool c, const char* id, const char* finding, bool region); // known finding inside region
void vs_cover(bool c, const char* id);                          // some execution makes c true; failing that is a violation
int64_t vs_concretize(int64_t v);
void vs_thread(void (*fn)(void*), void* arg);
void vs_join();
void vs_flag(int which, int64_t value); // 0: every shared access is a scheduling point, 1: freed blocks are reused, 2: preemption bound, 3: instructions after which a thread has to let another go
int64_t vs_stack();   // stack in use, to compare at one place of the code
int64_t vs_heap_live(); // blocks allocated and not given back
int vs_is_symbolic();
void vs_stop();
void vs_yield();
extern int vs_weak_hash;                                       // 1: hashes depend on lengths only, so that text can stay symbolic as a key
extern int64_t vs_steady_ns, vs_system_ns;                     // what the standard clocks return
}
std::ostream& vs_ostream();                                    // a stream that collects its output
std::string& vs_out();

template <class T> inline T vs_any(const char* name) { return (T)vs_sym_bits(name, sizeof(T) * 8); }
template <> inline bool vs_any<bool>(const char* name) { return vs_sym_bits(name, 1) != 0; }
inline double vs_double(const char* name, double lo, double hi) { return vs_fp_range(name, lo, hi, 64); }
inline float vs_float(const char* name, float lo, float hi) { return (float)vs_fp_range(name, lo, hi, 32); }
template <class T> inline void vs_spawn(T& fn) { vs_thread([](void* p) { (*static_cast<T*>(p))(); }, &fn); }

// Randomness is an environment stub: draws are arbitrary values of the documented range.
namespace std {
struct vs_random_engine {
  using result_type = uint_fast32_t; static constexpr result_type default_seed = 1;
  vs_random_engine() = default; template <class S> explicit vs_random_engine(S&&) {} template <class S> void seed(S&&) {} void seed() {}
  static constexpr result_type min() { return 0; } static constexpr result_type max() { return 0xffffffffu; }
  result_type operator()() { return (result_type)(uint32_t)vs_sym_bits("rng", 32); } void discard(unsigned long long) {}
};
struct vs_random_engine64 {
  using result_type = uint_fast64_t; vs_random_engine64() = default; template <class S> explicit vs_random_engine64(S&&) {} template <class S> void seed(S&&) {} void seed() {}
  static constexpr result_type min() { return 0; } static constexpr result_type max() { return ~(result_type)0; }
  result_type operator()() { return vs_sym_bits("rng", 64); } void discard(unsigned long long) {}
};
struct vs_random_device { using result_type = unsigned; vs_random_device() = default; explicit vs_random_device(const std::string&) {} static constexpr unsigned min() { return 0; } static constexpr unsigned max() { return 0xffffffffu; } unsigned operator()() { return (unsigned)vs_sym_bits("rng", 32); } double entropy() const { return 32; } };
template <class T = int> struct vs_uniform_int_distribution {
  using result_type = T; struct param_type { using distribution_type = vs_uniform_int_distribution; T lo, hi; param_type() : param_type(0) {} explicit param_type(T a, T b = std::numeric_limits<T>::max()) : lo(a), hi(b) {} T a() const { return lo; } T b() const { return hi; } };
  param_type p; vs_uniform_int_distribution() {} explicit vs_uniform_int_distribution(T a, T b = std::numeric_limits<T>::max()) : p(a, b) {} explicit vs_uniform_int_distribution(const param_type& q) : p(q) {}
  template <class G> T operator()(G&) { return (T)vs_range("draw", (int64_t)p.lo, (int64_t)p.hi); } template <class G> T operator()(G&, const param_type& q) { return (T)vs_range("draw", (int64_t)q.lo, (int64_t)q.hi); }
  T a() const { return p.lo; } T b() const { return p.hi; } T min() const { return p.lo; } T max() const { return p.hi; } void reset() {} param_type param() const { return p; } void param(const param_type& q) { p = q; }
};
template <class T = double> struct vs_uniform_real_distribution {
  using result_type = T; T lo, hi; explicit vs_uniform_real_distribution(T a = 0, T b = 1) : lo(a), hi(b) {} template <class G> T operator()(G&) { double v = vs_fp_range("draw", (double)lo, (double)hi, 64); vs_assume(v < hi); return (T)v; } T a() const { return lo; } T b() const { return hi; } void reset() {}
};
}
#define default_random_engine vs_random_engine
#define minstd_rand vs_random_engine
#define minstd_rand0 vs_random_engine
#define mt19937 vs_random_engine
#define mt19937_64 vs_random_engine64
#define ranlux24 vs_random_engine
#define random_device vs_random_device
#define uniform_int_distribution vs_uniform_int_distribution
#define uniform_real_distribution vs_uniform_real_distribution

#define VS_ENTRY(name) extern "C" __attribute__((used)) void vs_entry_##name()
