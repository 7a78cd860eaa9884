// Generic LLVM intrinsics and library functions.
#include "interp.h"
#include <llvm/IR/Intrinsics.h>
#include <llvm/IR/Constants.h>
using namespace llvm;

static bool starts(const std::string &s, const char *p) { return s.compare(0, strlen(p), p) == 0; }

bool Interp::generic(Call &c) {
  const Function *F = cast<CallBase>(c.cb)->getCalledFunction();
  Type *T = c.cb->getType();
  auto lanes1 = [&](auto f) { for (size_t i = 0; i < c.a[0].size(); i++) c.ret.add(f(c.a[0].e[i].b)); return true; };
  auto lanes2 = [&](auto f) { for (size_t i = 0; i < c.a[0].size(); i++) c.ret.add(f(c.a[0].e[i].b, c.a[1].e[i].b)); return true; };
  auto lanes3 = [&](auto f) { for (size_t i = 0; i < c.a[0].size(); i++) c.ret.add(f(c.a[0].e[i].b, c.a[1].e[i].b, c.a[2].e[i].b)); return true; };
  auto fold = [&](auto f) { BV r = c.a[0].e[0].b; for (size_t i = 1; i < c.a[0].size(); i++) r = f(r, c.a[0].e[i].b); c.ret = Val(r); return true; };
  switch (F ? F->getIntrinsicID() : Intrinsic::not_intrinsic) {
  case Intrinsic::fabs: return lanes1([&](const BV &x) { return C.fabs(x); });
  case Intrinsic::sqrt: return lanes1([&](const BV &x) { return C.fsqrt(x); });
  case Intrinsic::floor: return lanes1([&](const BV &x) { return C.fround("floor", x); });
  case Intrinsic::ceil: return lanes1([&](const BV &x) { return C.fround("ceil", x); });
  case Intrinsic::trunc: return lanes1([&](const BV &x) { return C.fround("trunc", x); });
  case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: return lanes1([&](const BV &x) { return C.fround("rint", x); });
  case Intrinsic::round: return lanes1([&](const BV &x) { return C.fround("round", x); });
  case Intrinsic::fma: return lanes3([&](const BV &x, const BV &y, const BV &z) { return C.fma(x, y, z); });
  case Intrinsic::fmuladd: return lanes3([&](const BV &x, const BV &y, const BV &z) { return C.fadd(C.fmul(x, y), z); });
  case Intrinsic::copysign: return lanes2([&](const BV &x, const BV &y) { BV r = x; r.back() = y.back(); return r; });
  case Intrinsic::minnum: return lanes2([&](const BV &x, const BV &y) { return C.ite(C.fnan(x), y, C.ite(C.fnan(y), x, C.ite(C.flt(x, y), x, y))); });
  case Intrinsic::maxnum: return lanes2([&](const BV &x, const BV &y) { return C.ite(C.fnan(x), y, C.ite(C.fnan(y), x, C.ite(C.flt(y, x), x, y))); });
  case Intrinsic::minimum: case Intrinsic::maximum: {
    bool mx = F->getIntrinsicID() == Intrinsic::maximum;
    return lanes2([&](const BV &x, const BV &y) {
      int w = (int)x.size(); BV q = Core::cst(0, w); for (int i = Core::mant(w) - 1; i < w - 1; i++) q[i] = T1;
      Edge lt = mx ? C.flt(y, x) : C.flt(x, y);
      Edge z = C.B.And(C.fzero(x), C.fzero(y));
      BV zr = x; zr.back() = mx ? C.B.And(x.back(), y.back()) : C.B.Or(x.back(), y.back());
      BV r = C.ite(z, zr, C.ite(lt, x, y));
      return C.ite(C.B.Or(C.fnan(x), C.fnan(y)), q, r);
    });
  }
  case Intrinsic::smin: return lanes2([&](const BV &x, const BV &y) { return C.ite(C.slt(x, y), x, y); });
  case Intrinsic::smax: return lanes2([&](const BV &x, const BV &y) { return C.ite(C.slt(x, y), y, x); });
  case Intrinsic::umin: return lanes2([&](const BV &x, const BV &y) { return C.ite(C.ult(x, y), x, y); });
  case Intrinsic::umax: return lanes2([&](const BV &x, const BV &y) { return C.ite(C.ult(x, y), y, x); });
  case Intrinsic::abs: return lanes1([&](const BV &x) { return C.ite(x.back(), C.neg(x), x); });
  case Intrinsic::sadd_sat: return lanes2([&](const BV &x, const BV &y) { int w = (int)x.size(); return C.ssat(C.add(Core::sext(x, w + 1), Core::sext(y, w + 1)), w); });
  case Intrinsic::ssub_sat: return lanes2([&](const BV &x, const BV &y) { int w = (int)x.size(); return C.ssat(C.sub(Core::sext(x, w + 1), Core::sext(y, w + 1)), w); });
  case Intrinsic::uadd_sat: return lanes2([&](const BV &x, const BV &y) { int w = (int)x.size(); return C.usat(C.add(Core::zext(x, w + 1), Core::zext(y, w + 1)), w); });
  case Intrinsic::usub_sat: return lanes2([&](const BV &x, const BV &y) { return C.ite(C.ult(x, y), Core::cst(0, (int)x.size()), C.sub(x, y)); });
  case Intrinsic::sadd_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::usub_with_overflow:
  case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
    auto id = F->getIntrinsicID();
    bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
    bool mu = id == Intrinsic::umul_with_overflow || id == Intrinsic::smul_with_overflow;
    bool sb = id == Intrinsic::ssub_with_overflow || id == Intrinsic::usub_with_overflow;
    const BV &x = c.a[0].b(), &y = c.a[1].b(); int w = (int)x.size(), W = mu ? 2 * w : w + 1;
    BV X = sg ? Core::sext(x, W) : Core::zext(x, W), Y = sg ? Core::sext(y, W) : Core::zext(y, W);
    BV r = mu ? C.mul(X, Y) : sb ? C.sub(X, Y) : C.add(X, Y);
    BV lo = Core::trunc(r, w), ext = sg ? Core::sext(lo, W) : Core::zext(lo, W);
    c.ret.add(lo); c.ret.add(BV{Bdd::Not(C.eq(r, ext))}); return true;
  }
  case Intrinsic::ctpop: return lanes1([&](const BV &x) { return C.popcount(x, (int)x.size()); });
  case Intrinsic::cttz: for (auto &e : c.a[0].e) c.ret.add(C.ctz(e.b, (int)e.b.size())); return true;
  case Intrinsic::ctlz: for (auto &e : c.a[0].e) c.ret.add(C.ctlz(e.b, (int)e.b.size())); return true;
  case Intrinsic::bswap: return lanes1([&](const BV &x) { return Core::bswap(x); });
  case Intrinsic::bitreverse: return lanes1([&](const BV &x) { return BV(x.rbegin(), x.rend()); });
  case Intrinsic::fshl: case Intrinsic::fshr: {
    bool l = F->getIntrinsicID() == Intrinsic::fshl;
    return lanes3([&](const BV &x, const BV &y, const BV &s) {
      int w = (int)x.size(); BV d = Core::cat(y, x);
      BV k = Core::zext(s, 2 * w);
      if (w & (w - 1)) throw Unsupported("fsh width");
      int lg = 0; while ((1 << lg) < w) lg++;
      for (int i = lg; i < 2 * w; i++) k[i] = F0;
      if (l) { BV r = C.shlV(d, k, Core::ZERO); return Core::slice(r, w, w); }
      BV r = C.lshrV(d, k, Core::ZERO); return Core::slice(r, 0, w);
    });
  }
  case Intrinsic::vector_reduce_add: return fold([&](const BV &x, const BV &y) { return C.add(x, y); });
  case Intrinsic::vector_reduce_and: return fold([&](const BV &x, const BV &y) { return C.band(x, y); });
  case Intrinsic::vector_reduce_or: return fold([&](const BV &x, const BV &y) { return C.bor(x, y); });
  case Intrinsic::vector_reduce_xor: return fold([&](const BV &x, const BV &y) { return C.bxor(x, y); });
  case Intrinsic::vector_reduce_smax: return fold([&](const BV &x, const BV &y) { return C.ite(C.slt(x, y), y, x); });
  case Intrinsic::vector_reduce_umax: return fold([&](const BV &x, const BV &y) { return C.ite(C.ult(x, y), y, x); });
  case Intrinsic::vector_reduce_smin: return fold([&](const BV &x, const BV &y) { return C.ite(C.slt(x, y), x, y); });
  case Intrinsic::vector_reduce_umin: return fold([&](const BV &x, const BV &y) { return C.ite(C.ult(x, y), x, y); });
  case Intrinsic::vector_reduce_fadd: { BV r = c.a[0].b(); for (auto &e : c.a[1].e) r = C.fadd(r, e.b); c.ret = Val(r); return true; }
  case Intrinsic::is_fpclass: {
    uint64_t m = Core::u64(c.a[1].b());
    return lanes1([&](const BV &x) {
      int w = (int)x.size(), mt = Core::mant(w); BV ex = Core::slice(x, mt, w - 1 - mt);
      Edge s = x.back(), nan = C.fnan(x), inf = C.finf(x), z = C.fzero(x), sub = C.B.And(C.isZero(ex), Bdd::Not(z));
      Edge norm = C.B.And(C.any(ex), Bdd::Not(C.all(ex))), q = C.B.And(nan, x[mt - 1]), r = F0;
      auto o = [&](int bit, Edge e) { if ((m >> bit) & 1) r = C.B.Or(r, e); };
      Edge ns = Bdd::Not(s);
      o(0, C.B.And(nan, Bdd::Not(q))); o(1, q); o(2, C.B.And(inf, s)); o(3, C.B.And(norm, s)); o(4, C.B.And(sub, s)); o(5, C.B.And(z, s));
      o(6, C.B.And(z, ns)); o(7, C.B.And(sub, ns)); o(8, C.B.And(norm, ns)); o(9, C.B.And(inf, ns));
      return BV{r};
    });
  }
  case Intrinsic::fptosi_sat: case Intrinsic::fptoui_sat: { bool sg = F->getIntrinsicID() == Intrinsic::fptosi_sat; unsigned w = width(T); for (auto &e : c.a[0].e) c.ret.add(C.fptoiSat(e.b, w, sg)); return true; }
  case Intrinsic::convert_from_fp16: c.ret = Val(C.fpext(c.a[0].b(), width(T))); return true;
  case Intrinsic::convert_to_fp16: c.ret = Val(C.fptrunc(c.a[0].b(), 16)); return true;
  case Intrinsic::lrint: case Intrinsic::llrint: c.ret = Val(C.fptoi(c.a[0].b(), width(T), "rint")); return true;
  case Intrinsic::memcpy: case Intrinsic::memcpy_inline: case Intrinsic::memmove: {
    if (!Core::isConst(c.a[2].b())) throw Unsupported("memcpy of variable size");
    int64_t n = (int64_t)Core::u64(c.a[2].b());
    if (n == 0) return true;
    uint64_t da = 1, sa = 1;
    if (auto a = c.cb->getParamAlign(0)) da = a->value();
    if (auto a = c.cb->getParamAlign(1)) sa = a->value();
    Elem d = c.a[0].e[0], s = c.a[1].e[0];
    if (d.obj > 0 && s.obj > 0 && !objs[d.obj].user && !objs[s.obj].user && Core::isConst(d.b) && Core::isConst(s.b)) {
      std::vector<MB> t; int64_t so = Core::s64(s.b), dof = Core::s64(d.b);
      for (int64_t k = 0; k < n; k++) t.push_back(readByte(s.obj, so + k));
      for (int64_t k = 0; k < n; k++) { if (t[k].st == 0) { if (c.cond == T1) objs[d.obj].m.at(dof + k) = MB(); } else writeByte(d.obj, dof + k, t[k], c.cond); }
      return true;
    }
    BV v = loadBits(s, n, c.cond, sa, c.cb); storeBits(d, v, c.cond, da, c.cb); return true;
  }
  case Intrinsic::memset: case Intrinsic::memset_inline: {
    if (!Core::isConst(c.a[2].b())) throw Unsupported("memset of variable size");
    int64_t n = (int64_t)Core::u64(c.a[2].b()); BV v; for (int64_t k = 0; k < n; k++) v = Core::cat(v, c.a[1].b());
    uint64_t da = 1; if (auto a = c.cb->getParamAlign(0)) da = a->value();
    if (n) storeBits(c.a[0].e[0], v, c.cond, da, c.cb);
    return true;
  }
  case Intrinsic::masked_load: {
    uint64_t al = Core::u64(c.a[1].b()); unsigned w = width(T);
    for (size_t i = 0; i < c.a[2].size(); i++) {
      Edge m = C.B.And(c.cond, c.a[2].e[i].b[0]);
      // the hardware requirement is the alignment of the whole access
      BV v = m == F0 ? c.a[3].e[i].b : loadBits(gep(c.a[0].e[0], Core::cst(i * w / 8, 64)), w / 8, m, i == 0 ? al : std::min<uint64_t>(al, w / 8), c.cb);
      c.ret.add(C.ite(c.a[2].e[i].b[0], v, c.a[3].e[i].b));
    }
    return true;
  }
  case Intrinsic::masked_store: {
    uint64_t al = Core::u64(c.a[2].b()); unsigned w = width(c.aty(0));
    for (size_t i = 0; i < c.a[0].size(); i++) {
      Edge m = C.B.And(c.cond, c.a[3].e[i].b[0]);
      if (m != F0) storeBits(gep(c.a[1].e[0], Core::cst(i * w / 8, 64)), c.a[0].e[i].b, m, i == 0 ? al : std::min<uint64_t>(al, w / 8), c.cb);
    }
    return true;
  }
  case Intrinsic::masked_gather: {
    uint64_t al = Core::u64(c.a[1].b()); unsigned w = width(T);
    for (size_t i = 0; i < c.a[2].size(); i++) {
      Edge m = C.B.And(c.cond, c.a[2].e[i].b[0]);
      BV v = m == F0 ? c.a[3].e[i].b : loadBits(c.a[0].e[i], w / 8, m, al, c.cb);
      c.ret.add(C.ite(c.a[2].e[i].b[0], v, c.a[3].e[i].b));
    }
    return true;
  }
  case Intrinsic::masked_scatter: {
    uint64_t al = Core::u64(c.a[2].b()); unsigned w = width(c.aty(0));
    for (size_t i = 0; i < c.a[0].size(); i++) { Edge m = C.B.And(c.cond, c.a[3].e[i].b[0]); if (m != F0) storeBits(c.a[1].e[i], c.a[0].e[i].b, m, al, c.cb); }
    (void)w; return true;
  }
  case Intrinsic::vector_extract: { uint64_t o = Core::u64(c.a[1].b()); if (cast<VectorType>(T)->isScalableTy() ) o *= vscale; for (unsigned i = 0; i < count(T); i++) { if (o + i < c.a[0].size()) c.ret.e.push_back(c.a[0].e[o + i]); else c.ret.add(C.freshV("poison", width(T))); } return true; }
  case Intrinsic::vector_insert: { uint64_t o = Core::u64(c.a[2].b()); if (cast<VectorType>(c.aty(1))->isScalableTy()) o *= vscale; c.ret = c.a[0]; for (size_t i = 0; i < c.a[1].size(); i++) if (o + i < c.ret.size()) c.ret.e[o + i] = c.a[1].e[i]; return true; }
  case Intrinsic::experimental_vector_reverse: c.ret = c.a[0]; std::reverse(c.ret.e.begin(), c.ret.e.end()); return true;
  case Intrinsic::experimental_stepvector: for (unsigned i = 0; i < count(T); i++) c.ret.add(Core::cst(i, width(T))); return true;
  case Intrinsic::experimental_vector_interleave2: for (size_t i = 0; i < c.a[0].size(); i++) { c.ret.e.push_back(c.a[0].e[i]); c.ret.e.push_back(c.a[1].e[i]); } return true;
  case Intrinsic::experimental_vector_deinterleave2: for (int k = 0; k < 2; k++) for (size_t i = k; i < c.a[0].size(); i += 2) c.ret.e.push_back(c.a[0].e[i]); return true;
  case Intrinsic::vscale: c.ret = Val(Core::cst(vscale, width(T))); return true;
  case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptrmask: if (F->getIntrinsicID() == Intrinsic::ptrmask) return false; c.ret = c.a[0]; return true;
  case Intrinsic::is_constant: c.ret = Val(BV{F0}); return true;
  case Intrinsic::objectsize: c.ret = Val(BV(width(T), T1)); return true;
  case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: if (c.cond != F0) aborts.push_back(c.name); return true;
  case Intrinsic::stacksave: { Elem e; e.obj = OBJ_NULL; e.b = Core::cst(0, 64); c.ret.e.push_back(e); return true; }
  case Intrinsic::stackrestore: return true;
  case Intrinsic::ldexp: c.ret = Val(C.uf("ldexp", {c.a[0].b(), c.a[1].b()}, width(T))); return true;
  case Intrinsic::pow: return lanes2([&](const BV &x, const BV &y) { return C.uf("libm_pow", {x, y}, (int)x.size()); });
  case Intrinsic::exp: return lanes1([&](const BV &x) { return C.uf("libm_exp", {x}, (int)x.size()); });
  case Intrinsic::exp2: return lanes1([&](const BV &x) { return C.uf("libm_exp2", {x}, (int)x.size()); });
  case Intrinsic::exp10: return lanes1([&](const BV &x) { return C.uf("libm_exp10", {x}, (int)x.size()); });
  case Intrinsic::log: return lanes1([&](const BV &x) { return C.uf("libm_log", {x}, (int)x.size()); });
  case Intrinsic::log2: return lanes1([&](const BV &x) { return C.uf("libm_log2", {x}, (int)x.size()); });
  case Intrinsic::log10: return lanes1([&](const BV &x) { return C.uf("libm_log10", {x}, (int)x.size()); });
  case Intrinsic::sin: return lanes1([&](const BV &x) { return C.uf("libm_sin", {x}, (int)x.size()); });
  case Intrinsic::cos: return lanes1([&](const BV &x) { return C.uf("libm_cos", {x}, (int)x.size()); });
  default: break;
  }
  return false;
}

// Functions outside the analysed module, by name.
std::string instrLoc(const Instruction *I);
bool Interp::library(Call &c) {
  const std::string &n = c.name;
  Type *T = c.cb->getType();
  if ((n == "nsimd_f16_to_f32") && keepHalf) { c.ret = Val(C.fpext(Core::trunc(flat(c.a[0]), 16), 32)); return true; }
  if (n == "nsimd_f32_to_f16" && keepHalf) { c.ret = Val(C.fptrunc(c.a[0].b(), 16)); return true; }
  if (n == "nsimd_u16_to_f32" && keepHalf) { c.ret = Val(C.fpext(Core::trunc(c.a[0].b(), 16), 32)); return true; }
  if (n == "nsimd_f32_to_u16" && keepHalf) { BV h = C.fptrunc(c.a[0].b(), 16); c.ret = Val(h); return true; }
  if (starts(n, "uf_")) {   // uf_<name>__<tag>: the uninterpreted function <name>, for references
    std::string f = n.substr(3, n.rfind("__") - 3); std::vector<BV> args; for (auto &v : c.a) args.push_back(v.b());
    c.ret = Val(C.uf(f, args, width(T))); return true;
  }
  if (starts(n, "nsimd_sleef_") && !(resolve && resolve(n))) {
    // nsimd_sleef_<op>_<ext>_<typ>: lane-wise uninterpreted routine of that name; the extension must be the caller's
    size_t t = n.rfind('_'), e = n.rfind('_', t - 1);
    std::string typ = n.substr(t + 1), ex = n.substr(e + 1, t - e - 1), op = n.substr(12, e - 12);
    if (ex == "knl" || ex == "skylake") { size_t e2 = n.rfind('_', e - 1); ex = n.substr(e2 + 1, t - e2 - 1); op = n.substr(12, e2 - 12); }
    extCalls[n]++;
    if (!ext.empty() && ex != ext && ex != "scalar") { op += "@" + ex; }
    while (T->isStructTy() || T->isArrayTy()) T = T->isStructTy() ? T->getStructElementType(0) : T->getArrayElementType();
    unsigned w = width(T);
    for (auto &v : c.a) if (v.size() != c.a[0].size() || v.e[0].obj != -1 || v.b().size() != w) throw Unsupported("arguments of " + n);
    if ((typ == "f32" && w != 32) || (typ == "f64" && w != 64)) op += "!" + typ;
    size_t k = c.ret.size(); (void)k;
    for (size_t i = 0; i < c.a[0].size(); i++) {
      std::vector<BV> args; for (auto &v : c.a) args.push_back(v.e[i].b);
      c.ret.add(C.uf("math_" + op, args, w));
    }
    return true;
  }
  if (!events) if (n == "abort" || n == "exit" || n == "_exit" || n == "__assert_fail" || n == "_Exit") { if (c.cond != F0) aborts.push_back(n + " at " + instrLoc(c.cb)); return true; }
  static const std::map<std::string, const char *> rnd = {{"floor", "floor"}, {"floorf", "floor"}, {"ceil", "ceil"}, {"ceilf", "ceil"}, {"trunc", "trunc"}, {"truncf", "trunc"}, {"rint", "rint"}, {"rintf", "rint"}, {"nearbyint", "rint"}, {"nearbyintf", "rint"}, {"round", "round"}, {"roundf", "round"}};
  auto r = rnd.find(n);
  if (r != rnd.end()) { c.ret = Val(C.fround(r->second, c.a[0].b())); return true; }
  if (n == "sqrt" || n == "sqrtf") { c.ret = Val(C.fsqrt(c.a[0].b())); return true; }
  if (n == "fma" || n == "fmaf") { c.ret = Val(C.fma(c.a[0].b(), c.a[1].b(), c.a[2].b())); return true; }
  if (n == "fabs" || n == "fabsf") { c.ret = Val(C.fabs(c.a[0].b())); return true; }
  if (n == "__extendhfsf2" || n == "__gnu_h2f_ieee") { c.ret = Val(C.fpext(Core::trunc(flat(c.a[0]), 16), 32)); return true; }
  if (n == "__truncsfhf2" || n == "__gnu_f2h_ieee") { c.ret = Val(C.fptrunc(c.a[0].b(), 16)); return true; }
  if (n == "memcpy" || n == "memset") return false;
  // libm: uninterpreted function of its arguments
  static const char *libm[] = {"sin", "cos", "tan", "asin", "acos", "atan", "atan2", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "exp", "exp2", "exp10", "expm1", "log", "log2", "log10", "log1p", "pow", "cbrt", "hypot", "erf", "erfc", "lgamma", "tgamma", "fmod", "remainder", "ldexp", "frexp_"};
  for (auto *m : libm) {
    std::string mm = m;
    if (n == mm || n == mm + "f") { std::vector<BV> args; for (auto &v : c.a) args.push_back(v.b()); c.ret = Val(C.uf("libm_" + mm, args, width(T))); return true; }
  }
  return false;
}
