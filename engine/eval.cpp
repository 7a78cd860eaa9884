#include "eval.h"
#include <llvm/ADT/APFloat.h>
#include <llvm/ADT/APInt.h>
#include <llvm/ADT/APSInt.h>
#include <set>
using llvm::APFloat; using llvm::APInt; using llvm::APSInt;
static const auto RNE = APFloat::rmNearestTiesToEven;
static const llvm::fltSemantics &sem(int w) { return w == 16 ? APFloat::IEEEhalf() : w == 32 ? APFloat::IEEEsingle() : APFloat::IEEEdouble(); }
static APFloat F(u128 v, int w) { return APFloat(sem(w), APInt(w, (uint64_t)v)); }
static u128 U(const APFloat &f) { return f.bitcastToAPInt().getZExtValue(); }
static u128 mask(int w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static __int128 S(u128 v, int w) { if ((v >> (w - 1)) & 1) v |= ~mask(w); return (__int128)v; }

uint64_t Sampler::rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }
static uint64_t special(uint64_t r, int w) {
  static const uint64_t f32[] = {0, 0x80000000, 0x3f800000, 0xbf800000, 0x7f800000, 0xff800000, 0x7fc00000, 0x3f000000, 0xbf000000, 0x3fc00000, 0xbfc00000, 0x40200000, 0xc0200000, 0x4effffff, 0x4f000000, 0xcf000000, 0xcf000001, 0x4f7fffff, 0x4f800000, 0x5effffff, 0x5f000000, 0xdf000000, 0x1, 0x80000001, 0x7f7fffff, 0xff7fffff, 0x477fe000, 0x477fefff, 0x477ff000, 0x38800000, 0x33800000, 0x33000001, 0x4b000000, 0x4b000001, 0x4affffff, 0xbeffffff, 0x3effffff, 0x3f7fffff, 0x42c80000, 0xc2fe0000, 0x437f0000};
  static const uint64_t f64[] = {0, 1ull << 63, 0x3ff0000000000000, 0xbff0000000000000, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000, 0x3fe0000000000000, 0xbfe0000000000000, 0x3ff8000000000000, 0xbff8000000000000, 0x4004000000000000, 0x41dfffffffc00000, 0x41e0000000000000, 0xc1e0000000000000, 0x43e0000000000000, 0xc3e0000000000000, 0x43dfffffffffffff, 0x43f0000000000000, 0x43efffffffffffff, 0x43e8000000000001, 0x1, 0x7fefffffffffffff, 0x4330000000000000, 0x4330000000000001, 0x432fffffffffffff, 0x4340000000000000, 0x4050000000000000, 0xc05f400000000000, 0xbfdfffffffffffff, 0x3fdfffffffffffff};
  static const uint64_t f16[] = {0, 0x8000, 0x3c00, 0xbc00, 0x7c00, 0xfc00, 0x7e00, 0x3800, 0xb800, 0x3e00, 0xbe00, 0x7bff, 0xfbff, 1, 0x8001, 0x3ff, 0x400, 0x6400, 0x63ff, 0x5640, 0x7400};
  uint64_t k = r >> 8;
  switch (r & 7) {
  case 0: case 1:
    if (w == 32) return f32[k % (sizeof f32 / 8)];
    if (w == 64) return f64[k % (sizeof f64 / 8)];
    if (w == 16) return f16[k % (sizeof f16 / 8)];
    return k % 5 == 0 ? 0 : k % 5 == 1 ? 1 : k % 5 == 2 ? 0xff : k % 5 == 3 ? 0x80 : 0x7f;
  case 2: { static const int64_t c[] = {0, 1, -1, 2, -2, 3, 7, -8, 10, 100}; return (uint64_t)c[k % 10]; }
  case 3: { int p = (int)(k % w); uint64_t b = 1ull << p; int q = (int)((k >> 8) % 4); return q == 0 ? b : q == 1 ? b - 1 : q == 2 ? ~b : 0 - b; }
  case 4: // a moderate float
    if (w == 32) { float f = ((double)(int64_t)(k % 2000001) - 1000000) / ((k >> 24) % 3 == 0 ? 2.0 : (k >> 24) % 3 == 1 ? 1000.0 : 1.0); uint32_t u; __builtin_memcpy(&u, &f, 4); return u; }
    if (w == 64) { double f = ((double)(int64_t)(k % 2000001) - 1000000) / ((k >> 24) % 3 == 0 ? 2.0 : (k >> 24) % 3 == 1 ? 1000.0 : 1.0); uint64_t u; __builtin_memcpy(&u, &f, 8); return u; }
    return k;
  case 5: { uint64_t a = k * 0x9E3779B97F4A7C15ull; return a >> ((k >> 3) % w); }
  default: return k * 0x9E3779B97F4A7C15ull ^ (k >> 13);
  }
}
void Sampler::collect(const std::vector<Edge> &es) {
  std::set<int> done; std::vector<Edge> work = es; std::set<uint32_t> seen;
  while (!work.empty()) {
    std::vector<uint32_t> vars; C.supportOf(work, vars); work.clear();
    for (uint32_t v : vars) {
      int u = C.varUF[v];
      if (u < 0) { if (seen.insert(v).second) groups[C.varName[v]].push_back(v); }
      else if (done.insert(u).second) for (auto &a : C.ufs[u].args) work.insert(work.end(), a.begin(), a.end());
    }
  }
}
void Sampler::sample(int round, Edge hint) {
  in.assign(C.B.vkey.size(), 0); ufv.clear();
  uint64_t shared = rnd(); seed = rnd();
  for (auto &g : groups) {
    int w = 1; for (uint32_t v : g.second) w = std::max(w, C.varBit[v] + 1);
    w = w <= 1 ? 1 : w <= 8 ? 8 : w <= 16 ? 16 : w <= 32 ? 32 : 64;
    uint64_t val = w == 1 ? rnd() >> 20 : special((round % 4 == 3 ? shared : rnd()), w);
    for (uint32_t v : g.second) in[v] = C.varBit[v] < 64 ? (val >> C.varBit[v]) & 1 : 0;
  }
  // follow a random satisfying path of the hint for the input bits
  if (round % 2 == 0 && hint > 1) {
    Edge e = hint;
    while (e > 1) {
      uint32_t v = C.B.topvar(e); Edge l = C.B.lo(e), h = C.B.hi(e);
      bool t;
      if (C.varUF[v] < 0 && in[v] == 1 && h != F0) t = true;
      else if (C.varUF[v] < 0 && in[v] == 0 && l != F0) t = false;
      else t = l == F0 ? true : h == F0 ? false : (rnd() >> 7) & 1;
      if (C.varUF[v] < 0) in[v] = t;
      e = t ? h : l;
    }
  }
}
bool Sampler::bit(uint32_t v) {
  int u = C.varUF[v];
  if (u < 0) return in[v];
  auto it = ufv.find(u);
  u128 x;
  if (it != ufv.end()) x = it->second; else { x = apply(u); ufv[u] = x; }
  return (x >> C.varBit[v]) & 1;
}
bool Sampler::eval(Edge e) { while (e > 1) e = bit(C.B.topvar(e)) ? C.B.hi(e) : C.B.lo(e); return e == T1; }
u128 Sampler::evalBV(const BV &v) { u128 r = 0; for (size_t i = 0; i < v.size() && i < 128; i++) if (eval(v[i])) r |= (u128)1 << i; return r; }
u128 Sampler::apply(int id) {
  // arguments first (copy: evaluation may not touch ufs, but keep it simple)
  const UF &f = C.ufs[id];
  std::vector<u128> a; std::vector<int> w;
  for (auto &x : f.args) { a.push_back(evalBV(x)); w.push_back((int)x.size()); }
  int W = f.width; const std::string &op = f.op;
  if (op == "add") return (a[0] + a[1]) & mask(W);
  if (op == "addnot1") return (a[0] + a[1] + 1) & mask(W);
  if (op == "addhi") return ((a[0] + a[1]) >> (w[0] - W)) & mask(W);
  if (op == "lin") { u128 r = a[0]; for (size_t i = 1; i + 1 < a.size(); i += 2) r += a[i] * a[i + 1]; return r & mask(W); }
  if (op == "mul") return ((a[0] * a[1]) >> (int)a[2]) & 1;
  if (op == "div" || op == "rem") { __int128 x = S(a[0], w[0]), y = S(a[1], w[1]); if (y == 0) return op == "rem" ? (u128)x & mask(W) : 0; return (u128)(op == "div" ? x / y : x % y) & mask(W); }
  if (op == "fadd") { APFloat x = F(a[0], W); x.add(F(a[1], W), RNE); return U(x); }
  if (op == "fmul" || op == "fdiv") { APFloat x = F(a[0], W + 1), y = F(a[1], W + 1); if (op == "fmul") x.multiply(y, RNE); else x.divide(y, RNE); return U(x) & mask(W); }
  if (op == "fma") { APFloat x = F(a[0], W), y = F(a[1], W); if (a[2]) x.changeSign(); x.fusedMultiplyAdd(y, F(a[3], W), RNE); return U(x); }
  if (op == "fsqrt") {
    if (W == 64) { double d; uint64_t u = (uint64_t)a[0]; __builtin_memcpy(&d, &u, 8); d = __builtin_sqrt(d); __builtin_memcpy(&u, &d, 8); return u; }
    if (W == 32) { float d; uint32_t u = (uint32_t)a[0]; __builtin_memcpy(&d, &u, 4); d = __builtin_sqrtf(d); __builtin_memcpy(&u, &d, 4); return u; }
  }
  if (op.compare(0, 4, "rnd_") == 0) {
    int fw = W + 1; APFloat x = F(a[0], fw); std::string m = op.substr(4);
    x.roundToIntegral(m == "floor" ? APFloat::rmTowardNegative : m == "trunc" ? APFloat::rmTowardZero : m == "round" ? APFloat::rmNearestTiesToAway : RNE);
    return U(x) & mask(W);
  }
  bool lossy;
  if (op == "fpext") { APFloat x = F(a[0], w[0]); x.convert(sem(W), RNE, &lossy); return U(x); }
  if (op == "fptrunc" || op == "fptruncrtz") { APFloat x = F(a[0], w[0]); x.convert(sem(W), op == "fptrunc" ? RNE : APFloat::rmTowardZero, &lossy); return U(x); }
  if (op == "i2f") { APFloat x(sem(W)); __int128 s = S(a[0], w[0]); uint64_t p[2] = {(uint64_t)(u128)s, (uint64_t)((u128)s >> 64)}; x.convertFromAPInt(APInt(128, p), true, RNE); return U(x); }
  if (op.compare(0, 4, "f2i_") == 0) {
    std::string m = op.substr(4); APFloat x = F(a[0], w[0]);
    APSInt r(W, false); bool ex;
    auto rm = m == "trunc" ? APFloat::rmTowardZero : m == "floor" ? APFloat::rmTowardNegative : m == "ceil" ? APFloat::rmTowardPositive : m == "round" ? APFloat::rmNearestTiesToAway : RNE;
    auto st = x.convertToInteger(r, rm, &ex);
    if (st & APFloat::opInvalidOp) return 0;
    const uint64_t *p = r.getRawData(); u128 v = p[0]; if (r.getNumWords() > 1) v |= (u128)p[1] << 64; return v & mask(W);
  }
  // anything else: a fixed pseudo-random function of the arguments
  uint64_t h = 1469598103934665603ull; for (char c : op) h = (h ^ (unsigned char)c) * 1099511628211ull;
  for (auto x : a) { h ^= (uint64_t)x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xC2B2AE3D27D4EB4Full; h ^= (uint64_t)(x >> 64); h ^= h >> 29; }
  h ^= seed * (op.compare(0, 3, "mem") == 0 ? 1 : 0);   // memory contents vary with the sample
  bool env = op[0] == 'e' && op.find(':') != std::string::npos && op.find(':') <= 3;   // results of the environment vary too
  if (env) h ^= seed;
  h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 31;
  if (op == "es:out") return (h & 0xb & mask(W)) | ((seed & 1) && (h >> 40) % 24 == 0 ? 4 : 0);
  if (env && op[1] == 'p') return (h >> 40) & 1 ? 0 : ((h << 8) & 0x7ffffffffff00ull) | 0x100;
  if (env && op[1] == 'q') return ((h << 8) & 0x7ffffffffff00ull) | 0x100;
  if (env && op[1] == 'r') return special(h, W <= 8 ? 8 : W <= 16 ? 16 : W <= 32 ? 32 : 64) & mask(W);
  if (op.compare(0, 3, "mem") == 0 && (W == 8 || W == 16 || W == 32 || W == 64)) return special(h, W) & mask(W);
  return h & mask(W);
}
std::string Sampler::describe(int maxn) {
  std::string r; int k = 0;
  for (auto &g : groups) {
    if (g.first.find('#') != std::string::npos) continue;
    if (k++ >= maxn) { r += ", ..."; break; }
    uint64_t v = 0; for (uint32_t x : g.second) if (in[x] && C.varBit[x] < 64) v |= 1ull << C.varBit[x];
    char b[32]; snprintf(b, sizeof b, "0x%llx", (unsigned long long)v);
    r += (r.empty() ? "" : ", ") + g.first + "=" + b;
  }
  return r.empty() ? "every input" : r;
}
