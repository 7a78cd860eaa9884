// Separation of abstract values: constant folding of two different terms under an interpretation of the uninterpreted
// symbols. A difference of terms is only reported when some constant input separates them.
#pragma once
#include "core.h"
typedef unsigned __int128 u128;
struct Sampler {
  Core &C; uint64_t rng = 0x9E3779B97F4A7C15ull, seed = 1;
  std::vector<signed char> in;                      // per variable: value of the inputs of the current sample
  std::unordered_map<int, u128> ufv;                // per UF: value in the current sample
  std::map<std::string, std::vector<uint32_t>> groups;   // input name -> variables
  std::vector<uint32_t> inputsOf(const std::vector<Edge> &es);  // every input below es, through UF arguments
  Sampler(Core &c) : C(c) {}
  uint64_t rnd();
  void collect(const std::vector<Edge> &es);
  void sample(int round, Edge hint);
  bool bit(uint32_t v);
  bool eval(Edge e);
  u128 evalBV(const BV &v);
  u128 apply(int uf);
  std::string describe(int maxn = 6);
};
