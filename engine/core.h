// The abstract domain: bit vectors whose bits are boolean functions (BDD edges) of abstract bits,
// and uninterpreted, hash-consed value numbers for operations that are not bit-linear (products, quotients,
// floating point). Equal values get equal edges; there is no solver.
#pragma once
#include "bdd.h"
#include <map>
#include <unordered_map>
#include <functional>
#include <memory>

typedef std::vector<Edge> BV;   // least significant bit first
struct Diverges : std::runtime_error { uint32_t cond; explicit Diverges(uint32_t c) : std::runtime_error("does not terminate"), cond(c) {} };
struct Unsupported : std::runtime_error { Unsupported(const std::string &m) : std::runtime_error(m) {} };

struct UF {               // one uninterpreted application
  std::string op;
  std::vector<BV> args;
  int base;               // first variable
  int width;
  int depth = 0;
  bool opaque = false;    // result of giving up precision (size cut): a mismatch on it decides nothing
};

struct Core {
  Bdd B;
  std::vector<UF> ufs;
  std::unordered_map<std::string, int> ufIndex;
  std::vector<int> varUF;          // var -> uf index or -1
  std::vector<int> varBit;
  std::vector<std::string> varName;
  std::map<std::pair<BV, BV>, BV> addMemo;
  uint64_t seq = 0;
  int undefs = 0;

  void reset();
  Edge newNamed(const std::string &name, int bit);
  Edge fresh(const char *why, int bit);   // named variables with bit < 0 are ordered first (selectors)
  BV freshV(const char *why, int w);
  BV uf(const std::string &op, const std::vector<BV> &args, int width, bool opaque = false, int hint = 0);
  // if v is exactly the result of one UF application, its index
  int match(const BV &v) const;

  // constants
  static BV cst(uint64_t v, int w);
  static BV cstAP(const std::vector<uint64_t> &words, int w);
  static bool isConst(const BV &a);
  static uint64_t u64(const BV &a);   // requires const, w<=64
  static int64_t s64(const BV &a);

  // bit vectors
  static BV zext(const BV &a, int w) { BV r(a); r.resize(w, F0); return r; }
  static BV sext(const BV &a, int w) { BV r(a); r.resize(w, a.back()); return r; }
  static BV trunc(const BV &a, int w) { return BV(a.begin(), a.begin() + w); }
  static BV slice(const BV &a, int lo, int n) { return BV(a.begin() + lo, a.begin() + lo + n); }
  static BV cat(const BV &lo, const BV &hi) { BV r(lo); r.insert(r.end(), hi.begin(), hi.end()); return r; }
  BV bnot(const BV &a) { BV r(a); for (auto &e : r) e ^= 1; return r; }
  BV band(const BV &a, const BV &b);
  BV bor(const BV &a, const BV &b);
  BV bxor(const BV &a, const BV &b);
  BV ite(Edge c, const BV &a, const BV &b);
  BV add(const BV &a, const BV &b);
  // word-level sums (cells asking for it): a sum is a multiset of atoms with coefficients, and one value number
  int lin = 0, parts = 0; struct Lin { std::map<BV, uint64_t> c; uint64_t k = 0; }; std::map<BV, Lin> linOf; std::map<BV, int> partOf;  // partOf: the operand is the part of a value from this bit on (variable order only)
  BV linSum(const BV &a, const BV &b, uint64_t cb, uint64_t k);
  BV addBits(const BV &a, const BV &b, Edge cin, const char *op);
  BV addc(const BV &a, const BV &b, Edge cin, Edge *cout = nullptr);
  BV neg(const BV &a);
  BV sub(const BV &a, const BV &b);
  BV mul(const BV &a, const BV &b);
  BV udiv(const BV &a, const BV &b);
  BV urem(const BV &a, const BV &b);
  BV sdiv(const BV &a, const BV &b);
  BV srem(const BV &a, const BV &b);
  BV shl(const BV &a, int k), lshr(const BV &a, int k), ashr(const BV &a, int k);
  // variable shifts; counts >= width give ovf
  enum Ovf { ZERO, SIGN, POISON, WRAP };
  BV shlV(const BV &a, const BV &c, Ovf o), lshrV(const BV &a, const BV &c, Ovf o), ashrV(const BV &a, const BV &c, Ovf o);
  Edge eq(const BV &a, const BV &b);
  Edge ult(const BV &a, const BV &b);
  Edge slt(const BV &a, const BV &b);
  Edge isZero(const BV &a);
  Edge any(const BV &a);
  Edge all(const BV &a);
  BV usat(const BV &a, int w);          // unsigned saturate to w bits (a unsigned)
  BV ssat(const BV &a, int w);          // signed saturate to w bits
  BV ussat(const BV &a, int w);         // signed a saturated to unsigned w bits
  BV popcount(const BV &a, int w);
  BV ctz(const BV &a, int w), ctlz(const BV &a, int w);
  static BV bswap(const BV &a) { BV r; for (int i = (int)a.size() - 8; i >= 0; i -= 8) r.insert(r.end(), a.begin() + i, a.begin() + i + 8); return r; }
  BV minimalSigned(const BV &a) const;  // drop redundant sign bits

  // floating point; format given by width 16/32/64
  static int mant(int w) { return w == 16 ? 10 : w == 32 ? 23 : 52; }
  Edge fnan(const BV &a);
  Edge finf(const BV &a);
  Edge fzero(const BV &a);
  Edge flt(const BV &a, const BV &b);   // ordered
  Edge feq(const BV &a, const BV &b);
  BV fabs(const BV &a) { BV r(a); r.back() = F0; return r; }
  BV fneg(const BV &a) { BV r(a); r.back() ^= 1; return r; }
  BV fadd(const BV &a, const BV &b);
  BV fsub(const BV &a, const BV &b) { return fadd(a, fneg(b)); }
  BV fmul(const BV &a, const BV &b);
  BV fdiv(const BV &a, const BV &b);
  BV fma(const BV &a, const BV &b, const BV &c);
  BV fsqrt(const BV &a);
  BV fround(const char *mode, const BV &a);   // floor ceil trunc rint round
  BV fpext(const BV &a, int w);
  BV fptrunc(const BV &a, int w, const char *rm = "");
  BV itofp(const BV &a, bool sgn, int w);
  BV fptoi(const BV &a, int w, const char *mode = "trunc");  // bits of the integral value
  BV fptoiIR(const BV &a, int w, bool sgn);        // IR fptosi/fptoui: poison out of range
  BV fptoiX86(const BV &a, int w, const char *mode);
  BV fptoiSat(const BV &a, int w, bool sgn, const char *mode = "trunc");
  Edge fits(const BV &a, int w, bool sgn);
  // exact bit-level definitions, used when `exact` is set (second, more precise pass)
  int effort = 1; bool exact = false;
  BV xfaddc(const BV &a, const BV &k); std::map<std::pair<BV, BV>, BV> addcMemo;
  BV xround(const std::string &mode, const BV &a);
  BV xf2i(const BV &a, int w), xi2f(const BV &a, int w), xfpext(const BV &a, int w), xfptrunc(const BV &a, int w, bool rtz);
  BV fun(const std::string &name, const std::vector<BV> &args, int w) { return uf(name, args, w); }

  Edge constrain(Edge f, Edge c); BV constrain(const BV &f, Edge c) { BV r; for (Edge e : f) r.push_back(constrain(e, c)); return r; }
  Edge cofactor(Edge e, uint32_t var, bool val);
  std::string show(const BV &v);
  std::string varStr(uint32_t v);
  void supportOf(const std::vector<Edge> &es, std::vector<uint32_t> &vars);
  // does e depend (transitively through UF arguments when deep) on an opaque UF
  bool opaqueSupport(const std::vector<Edge> &es, bool deep = true);
};
