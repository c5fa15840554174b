// Shared by the harnesses: the library, and oracles written only in terms of plain C++.
#pragma once
#include "vs.h"
#include <cxxmetrics/metrics_registry.hpp>
#include <cxxmetrics/simple_reservoir.hpp>
#include <cxxmetrics/uniform_reservoir.hpp>
#include <cxxmetrics/sliding_window.hpp>
using namespace cxxmetrics;
using namespace cxxmetrics_literals;
using std::chrono::nanoseconds;
#ifdef VS_THOROUGH
constexpr int TH = 1;
#else
constexpr int TH = 0;
#endif
#define Q(q, t) (TH ? (t) : (q))
// a plain insertion sort: the oracle for the order inside snapshots
template <class T> inline void vs_sorted(T* a, int n) { for (int i = 1; i < n; i++) { T x = a[i]; int j = i; while (j > 0 && x < a[j - 1]) { a[j] = a[j - 1]; j--; } a[j] = x; } }
