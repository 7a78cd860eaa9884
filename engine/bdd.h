// Reduced ordered binary decision diagrams with complement edges.
// An Edge denotes a boolean function of abstract bits; equality of functions is equality of edges.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <stdexcept>

typedef uint32_t Edge;
static const Edge F0 = 0, T1 = 1;
struct TooBig : std::runtime_error { TooBig(const char *m) : std::runtime_error(m) {} };

class Bdd {
public:
  struct Node { uint32_t var; Edge lo, hi; };
  std::vector<Node> n;
  std::vector<uint64_t> vkey;     // ordering key of each variable
  size_t limit = 6000000;
  uint64_t steps = 0, step_limit = ~0ull;

  Bdd() { reset(); }
  void reset() {
    n.clear(); vkey.clear();
    n.push_back(Node{~0u, 0, 0});
    utab.assign(1u << 14, 0);
    if (cache.empty()) cache.resize(1u << 16);
    for (auto &c : cache) c.op = 0;
    steps = 0; step_limit = ~0ull;
  }
  int newVar(uint64_t key) { vkey.push_back(key); return (int)vkey.size() - 1; }
  Edge var(int v) { return mk(v, F0, T1); }
  bool isConst(Edge e) const { return e < 2; }
  uint32_t topvar(Edge e) const { return n[e >> 1].var; }
  Edge lo(Edge e) const { return n[e >> 1].lo ^ (e & 1); }
  Edge hi(Edge e) const { return n[e >> 1].hi ^ (e & 1); }
  static Edge Not(Edge e) { return e ^ 1; }

  Edge And(Edge a, Edge b) {
    if (a == F0 || b == F0 || a == (b ^ 1)) return F0;
    if (a == T1 || a == b) return b;
    if (b == T1) return a;
    if (a > b) std::swap(a, b);
    Edge r;
    if (find(1, a, b, 0, r)) return r;
    step();
    uint32_t v; Edge a0, a1, b0, b1;
    split2(a, b, v, a0, a1, b0, b1);
    Edge l = And(a0, b0), h = And(a1, b1);
    r = mk(v, l, h);
    put(1, a, b, 0, r);
    return r;
  }
  Edge Or(Edge a, Edge b) { return And(a ^ 1, b ^ 1) ^ 1; }
  Edge Xor(Edge a, Edge b) {
    Edge c = (a ^ b) & 1;
    a &= ~1u; b &= ~1u;
    if (a == b) return F0 ^ c;
    if (a == F0) return b ^ c;
    if (b == F0) return a ^ c;
    if (a > b) std::swap(a, b);
    Edge r;
    if (find(2, a, b, 0, r)) return r ^ c;
    step();
    uint32_t v; Edge a0, a1, b0, b1;
    split2(a, b, v, a0, a1, b0, b1);
    Edge l = Xor(a0, b0), h = Xor(a1, b1);
    r = mk(v, l, h);
    put(2, a, b, 0, r);
    return r ^ c;
  }
  Edge Ite(Edge f, Edge g, Edge h) {
    if (f == T1) return g;
    if (f == F0) return h;
    if (g == h) return g;
    if (f & 1) { f ^= 1; std::swap(g, h); }
    if (g == T1) return Or(f, h);
    if (g == F0) return And(f ^ 1, h);
    if (h == F0) return And(f, g);
    if (h == T1) return Or(f ^ 1, g);
    if (g == (h ^ 1)) return Xor(f, h);
    if (f == g) return Or(f, h);
    if (f == (g ^ 1)) return And(f ^ 1, h);
    if (f == h) return And(f, g);
    if (f == (h ^ 1)) return Or(f ^ 1, g);
    Edge c = g & 1;
    g ^= c; h ^= c;
    Edge r;
    if (find(3, f, g, h, r)) return r ^ c;
    step();
    uint64_t kf = key(f), kg = key(g), kh = key(h);
    uint64_t k = kf < kg ? kf : kg; if (kh < k) k = kh;
    uint32_t v = kf == k ? topvar(f) : kg == k ? topvar(g) : topvar(h);
    Edge f0 = kf == k ? lo(f) : f, f1 = kf == k ? hi(f) : f;
    Edge g0 = kg == k ? lo(g) : g, g1 = kg == k ? hi(g) : g;
    Edge h0 = kh == k ? lo(h) : h, h1 = kh == k ? hi(h) : h;
    Edge l = Ite(f0, g0, h0), hh = Ite(f1, g1, h1);
    r = mk(v, l, hh);
    put(3, f, g, h, r);
    return r ^ c;
  }
  bool implies(Edge a, Edge b) { return And(a, b ^ 1) == F0; }
  // one satisfying assignment: list of (var, value)
  std::vector<std::pair<uint32_t, bool>> sat(Edge e) const {
    std::vector<std::pair<uint32_t, bool>> r;
    while (e > 1) {
      Edge l = lo(e), h = hi(e);
      if (h != F0) { r.push_back({topvar(e), true}); e = h; }
      else { r.push_back({topvar(e), false}); e = l; }
    }
    return r;
  }
  void support(Edge e, std::vector<char> &seen, std::vector<uint32_t> &vars, std::vector<char> &vseen) const {
    std::vector<uint32_t> st{e >> 1};
    while (!st.empty()) {
      uint32_t i = st.back(); st.pop_back();
      if (i == 0) continue;
      if (seen.size() <= i) seen.resize(n.size(), 0);
      if (seen[i]) continue;
      seen[i] = 1;
      uint32_t v = n[i].var;
      if (vseen.size() <= v) vseen.resize(vkey.size(), 0);
      if (!vseen[v]) { vseen[v] = 1; vars.push_back(v); }
      st.push_back(n[i].lo >> 1); st.push_back(n[i].hi >> 1);
    }
  }

private:
  struct CE { uint32_t op = 0; Edge a, b, c, r; };
  std::vector<CE> cache;
  std::vector<uint32_t> utab;
  uint64_t key(Edge e) const { return e < 2 ? ~0ull : vkey[n[e >> 1].var]; }
  void step() { if (++steps > step_limit) throw TooBig("step budget"); }
  static uint32_t hash(uint32_t a, uint32_t b, uint32_t c) {
    uint64_t h = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15ull) * 0xC2B2AE3D27D4EB4Full ^ (c + 0x165667B1ull) * 0x165667B19E3779F9ull;
    h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 32;
    return (uint32_t)h;
  }
  bool find(uint32_t op, Edge a, Edge b, Edge c, Edge &r) {
    CE &e = cache[hash(a * 4 + op, b, c) & (cache.size() - 1)];
    if (e.op == op && e.a == a && e.b == b && e.c == c) { r = e.r; return true; }
    return false;
  }
  void put(uint32_t op, Edge a, Edge b, Edge c, Edge r) {
    CE &e = cache[hash(a * 4 + op, b, c) & (cache.size() - 1)];
    e.op = op; e.a = a; e.b = b; e.c = c; e.r = r;
  }
  void split2(Edge a, Edge b, uint32_t &v, Edge &a0, Edge &a1, Edge &b0, Edge &b1) {
    uint64_t ka = key(a), kb = key(b);
    if (ka == kb) { v = topvar(a); a0 = lo(a); a1 = hi(a); b0 = lo(b); b1 = hi(b); }
    else if (ka < kb) { v = topvar(a); a0 = lo(a); a1 = hi(a); b0 = b1 = b; }
    else { v = topvar(b); a0 = a1 = a; b0 = lo(b); b1 = hi(b); }
  }
  Edge mk(uint32_t v, Edge l, Edge h) {
    if (l == h) return l;
    Edge c = l & 1;
    l ^= c; h ^= c;
    uint32_t m = (uint32_t)utab.size() - 1;
    uint32_t i = hash(v, l, h) & m;
    while (utab[i]) {
      const Node &x = n[utab[i]];
      if (x.var == v && x.lo == l && x.hi == h) return (utab[i] << 1) | c;
      i = (i + 1) & m;
    }
    if (n.size() >= limit) throw TooBig("node limit");
    n.push_back(Node{v, l, h});
    uint32_t id = (uint32_t)n.size() - 1;
    utab[i] = id;
    if (n.size() * 2 > utab.size()) rehash();
    return (id << 1) | c;
  }
  void rehash() {
    std::vector<uint32_t> t(utab.size() * 2, 0);
    uint32_t m = (uint32_t)t.size() - 1;
    for (uint32_t k = 1; k < n.size(); k++) {
      uint32_t i = hash(n[k].var, n[k].lo, n[k].hi) & m;
      while (t[i]) i = (i + 1) & m;
      t[i] = k;
    }
    utab.swap(t);
    if (cache.size() < utab.size() && cache.size() < (1u << 20)) {
      cache.assign(cache.size() * 2, CE());
    }
  }
};
