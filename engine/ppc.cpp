// POWER intrinsics (AltiVec, VSX) on little-endian POWER8, from the Power ISA.
#include "interp.h"
#include <llvm/IR/Constants.h>
using namespace llvm;
static bool starts(const std::string &s, const char *p) { return s.compare(0, strlen(p), p) == 0; }

bool Interp::ppc(Call &c) {
  if (!starts(c.name, "llvm.ppc.")) return false;
  std::string n = c.name.substr(9);
  auto &A = c.a; auto &R = c.ret; Type *T = c.cb->getType();
  std::string op = n; for (const char *p : {"altivec.", "vsx."}) if (starts(op, p)) op = op.substr(strlen(p));
  auto un = [&](auto f) { for (auto &e : A[0].e) R.add(f(e.b)); return true; };
  auto bi = [&](auto f) { for (size_t i = 0; i < A[0].size(); i++) R.add(f(A[0].e[i].b, A[1].e[i].b)); return true; };
  // lvx/stvx ignore the low four address bits: they are right for 16-byte aligned addresses only
  if (op == "lvx" || op == "lvxl") { BV v = loadBits(A[0].e[0], 16, c.cond, 16, c.cb); R = unflat(v, T); return true; }
  if (op == "stvx" || op == "stvxl") { storeBits(A[1].e[0], flat(A[0]), c.cond, 16, c.cb); return true; }
  if (starts(op, "lxv") && op.find("l") != std::string::npos && (starts(op, "lxvw4x") || starts(op, "lxvd2x"))) { BV v = loadBits(A[0].e[0], 16, c.cond, 1, c.cb); R = unflat(v, T); return true; }
  if (starts(op, "stxvw4x") || starts(op, "stxvd2x")) { storeBits(A[1].e[0], flat(A[0]), c.cond, 1, c.cb); return true; }
  // comparisons
  if (starts(op, "vcmpgt") || starts(op, "vcmpequ")) {
    bool p = op.size() > 2 && op.substr(op.size() - 2) == ".p"; unsigned o = p ? 1 : 0; if (op.find("fp") != std::string::npos) return false;
    bool sg = starts(op, "vcmpgts"), eq = starts(op, "vcmpequ"); Edge all = T1, any = F0;
    for (size_t i = 0; i < A[o].size(); i++) { const BV &x = A[o].e[i].b, &y = A[o + 1].e[i].b; Edge e = eq ? C.eq(x, y) : sg ? C.slt(y, x) : C.ult(y, x); if (p) { all = C.B.And(all, e); any = C.B.Or(any, e); } else R.add(BV(x.size(), e)); }
    if (p) { int k = (int)Core::u64(A[0].b()); Edge e = k == 0 ? Bdd::Not(any) : k == 1 ? any : k == 2 ? all : Bdd::Not(all); BV r = Core::cst(0, width(T)); r[0] = e; R = Val(r); }
    return true;
  }
  if (starts(op, "vmin") || starts(op, "vmax")) {
    if (op.find("fp") != std::string::npos) { bool mx = op[2] == 'a'; return bi([&](const BV &x, const BV &y) { int w = (int)x.size(); BV q = Core::cst(0, w); for (int i = Core::mant(w) - 1; i < w - 1; i++) q[i] = T1; return C.ite(C.B.Or(C.fnan(x), C.fnan(y)), q, C.ite(mx ? C.flt(y, x) : C.flt(x, y), x, y)); }); }
    bool mx = op[2] == 'a', sg = op[4] == 's'; return bi([&](const BV &x, const BV &y) { Edge lt = sg ? C.slt(x, y) : C.ult(x, y); return mx ? C.ite(lt, y, x) : C.ite(lt, x, y); });
  }
  if (op == "xvminsp" || op == "xvmindp" || op == "xvmaxsp" || op == "xvmaxdp") {   // a NaN and a number: the number; zeros by sign
    bool mx = op[3] == 'a';
    return bi([&](const BV &x, const BV &y) { BV z = x; z.back() = mx ? C.B.And(x.back(), y.back()) : C.B.Or(x.back(), y.back());
      return C.ite(C.fnan(x), y, C.ite(C.fnan(y), x, C.ite(C.B.And(C.fzero(x), C.fzero(y)), z, C.ite(mx ? C.flt(y, x) : C.flt(x, y), x, y)))); });
  }
  // shifts by the low bits of the lane
  if ((starts(op, "vsra") || starts(op, "vsl") || starts(op, "vsr")) && (op.size() == 5 || op.size() == 4) && A.size() == 2) {
    char ty = op.back(); if (ty != 'b' && ty != 'h' && ty != 'w' && ty != 'd') return false;
    bool ar = starts(op, "vsra"), l = starts(op, "vsl");
    return bi([&](const BV &x, const BV &y) { int w = (int)x.size(); BV k = y; for (int i = 0; (1 << i) < 2 * w && i < w; i++) if ((1 << i) >= w) k[i] = F0; int lg = 0; while ((1 << lg) < w) lg++; for (int i = lg; i < w; i++) k[i] = F0;
      return l ? C.shlV(x, k, Core::ZERO) : ar ? C.ashrV(x, k, Core::SIGN) : C.lshrV(x, k, Core::ZERO); });
  }
  if ((starts(op, "vadd") || starts(op, "vsub")) && op.size() == 7 && op[6] == 's') {
    bool sg = op[4] == 's', sb = starts(op, "vsub");
    return bi([&](const BV &x, const BV &y) { int w = (int)x.size();
      if (sg) { BV a = Core::sext(x, w + 1), b = Core::sext(y, w + 1); return C.ssat(sb ? C.sub(a, b) : C.add(a, b), w); }
      if (sb) return C.ite(C.ult(x, y), Core::cst(0, w), C.sub(x, y));
      return C.usat(C.add(Core::zext(x, w + 1), Core::zext(y, w + 1)), w); });
  }
  // unpack: "low" and "high" of the big-endian register; lane 0 of a little-endian vector is the last byte
  if (starts(op, "vupkl") || starts(op, "vupkh")) { if (op[5] != 's') return false; unsigned k = count(T), h = op[4] == 'h' ? k : 0; for (unsigned i = 0; i < k; i++) R.add(Core::sext(A[0].e[h + i].b, width(T))); return true; }
  if (op == "vctsxs" || op == "vctuxs") { if (Core::u64(A[1].b()) != 0) return false; return un([&](const BV &x) { return C.fptoiSat(x, 32, op == "vctsxs"); }); }
  if (op == "vcfsx" || op == "vcfux") { if (Core::u64(A[1].b()) != 0) return false; return un([&](const BV &x) { return C.itofp(x, op == "vcfsx", 32); }); }
  if (starts(op, "fnmsub")) { for (size_t i = 0; i < A[0].size(); i++) R.add(C.fneg(C.fma(A[0].e[i].b, A[1].e[i].b, C.fneg(A[2].e[i].b)))); return true; }
  if (op == "xvresp" || op == "xvredp" || op == "vrefp") return un([&](const BV &x) { return C.uf("ppc_re", {x}, (int)x.size()); });
  if (op == "xvrsqrtesp" || op == "xvrsqrtedp" || op == "vrsqrtefp") return un([&](const BV &x) { return C.uf("ppc_rsqrte", {x}, (int)x.size()); });
  return false;
}
