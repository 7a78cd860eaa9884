// ARM intrinsics (NEON of ARMv7 and AArch64, SVE of fixed length), from the Arm Architecture Reference Manual.
#include "interp.h"
#include <llvm/IR/Constants.h>
using namespace llvm;
static bool starts(const std::string &s, const char *p) { return s.compare(0, strlen(p), p) == 0; }

// FMIN/FMAX: NaN if either is NaN, -0 < +0
static BV fminmax(Core &C, const BV &x, const BV &y, bool mx) {
  int w = (int)x.size(); BV q = Core::cst(0, w); for (int i = Core::mant(w) - 1; i < w - 1; i++) q[i] = T1;
  BV z = x; z.back() = mx ? C.B.And(x.back(), y.back()) : C.B.Or(x.back(), y.back());
  BV r = C.ite(C.B.And(C.fzero(x), C.fzero(y)), z, C.ite(mx ? C.flt(y, x) : C.flt(x, y), x, y));
  return C.ite(C.B.Or(C.fnan(x), C.fnan(y)), q, r);
}
static BV fminmaxnm(Core &C, const BV &x, const BV &y, bool mx) { return C.ite(C.fnan(x), y, C.ite(C.fnan(y), x, fminmax(C, x, y, mx))); }
static BV sat(Core &C, const BV &x, const BV &y, bool sg, bool sub) {
  int w = (int)x.size();
  if (sg) { BV a = Core::sext(x, w + 1), b = Core::sext(y, w + 1); return C.ssat(sub ? C.sub(a, b) : C.add(a, b), w); }
  if (sub) return C.ite(C.ult(x, y), Core::cst(0, w), C.sub(x, y));
  return C.usat(C.add(Core::zext(x, w + 1), Core::zext(y, w + 1)), w);
}

bool Interp::arm(Call &c) {
  bool a64 = starts(c.name, "llvm.aarch64.neon.");
  if (!a64 && !starts(c.name, "llvm.arm.neon.")) return false;
  std::string op = c.name.substr(a64 ? 18 : 14); op = op.substr(0, op.find('.'));
  if (op.compare(0, 4, "vcvt") == 0 || (!a64 && op[0] == 'v')) op = op.substr(1);
  auto &A = c.a; auto &R = c.ret; Type *T = c.cb->getType();
  auto un = [&](auto f) { for (auto &e : A[0].e) R.add(f(e.b)); return true; };
  auto bi = [&](auto f) { for (size_t i = 0; i < A[0].size(); i++) R.add(f(A[0].e[i].b, A[1].e[i].b)); return true; };
  bool fp = A.size() && c.aty(0)->getScalarType()->isFloatingPointTy();
  auto mm = [&](bool mx, bool sg, bool f) { return [=](const BV &x, const BV &y) { if (f) return fminmax(C, x, y, mx); Edge lt = sg ? C.slt(x, y) : C.ult(x, y); return mx ? C.ite(lt, y, x) : C.ite(lt, x, y); }; };

  if (op == "abs" || op == "abs.") return un([&](const BV &x) { return fp ? C.fabs(x) : C.ite(x.back(), C.neg(x), x); });
  if (op == "smin" || op == "mins" || op == "umin" || op == "minu" || op == "fmin") return bi(mm(false, op != "umin" && op != "minu", fp));
  if (op == "smax" || op == "maxs" || op == "umax" || op == "maxu" || op == "fmax") return bi(mm(true, op != "umax" && op != "maxu", fp));
  if (op == "fminnm" || op == "minnm") return bi([&](const BV &x, const BV &y) { return fminmaxnm(C, x, y, false); });
  if (op == "fmaxnm" || op == "maxnm") return bi([&](const BV &x, const BV &y) { return fminmaxnm(C, x, y, true); });
  if (op == "sqadd" || op == "qadds") return bi([&](const BV &x, const BV &y) { return sat(C, x, y, true, false); });
  if (op == "uqadd" || op == "qaddu") return bi([&](const BV &x, const BV &y) { return sat(C, x, y, false, false); });
  if (op == "sqsub" || op == "qsubs") return bi([&](const BV &x, const BV &y) { return sat(C, x, y, true, true); });
  if (op == "uqsub" || op == "qsubu") return bi([&](const BV &x, const BV &y) { return sat(C, x, y, false, true); });
  if (op == "ushl" || op == "sshl" || op == "shiftu" || op == "shifts") {   // by the signed low byte; right when negative
    bool sg = op[0] == 's' && op != "shiftu"; if (op == "shifts") sg = true;
    return bi([&](const BV &x, const BV &y) {
      BV k = Core::trunc(y, 8), nk = C.neg(k);     // -128 stays -128: 128 as unsigned
      BV l = C.shlV(x, k, Core::ZERO), r = sg ? C.ashrV(x, nk, Core::SIGN) : C.lshrV(x, nk, Core::ZERO);
      return C.ite(k[7], r, l);
    });
  }
  if (op == "uminv" || op == "umaxv" || op == "sminv" || op == "smaxv" || op == "saddv" || op == "uaddv") {
    BV r = A[0].b(); int w = (int)width(T);
    for (size_t i = 1; i < A[0].size(); i++) {
      const BV &y = A[0].e[i].b;
      if (op == "saddv" || op == "uaddv") r = C.add(r, y);
      else r = mm(op[2] == 'a', op[0] == 's', false)(r, y);
    }
    int n = (int)r.size();
    R = Val(n >= w ? Core::trunc(r, w) : op[0] == 's' ? Core::sext(r, w) : Core::zext(r, w)); return true;
  }
  if (op == "faddv") { std::vector<BV> v; for (auto &e : A[0].e) v.push_back(e.b); while (v.size() > 1) { std::vector<BV> u; for (size_t i = 0; i + 1 < v.size(); i += 2) u.push_back(C.fadd(v[i], v[i + 1])); v = u; } R = Val(v[0]); return true; }
  if (op == "addp" || op == "faddp" || op == "padd") { for (int s = 0; s < 2; s++) for (size_t i = 0; i + 1 < A[s].size(); i += 2) R.add(fp ? C.fadd(A[s].e[i].b, A[s].e[i + 1].b) : C.add(A[s].e[i].b, A[s].e[i + 1].b)); return true; }
  if (starts(op, "fcvt") && op.size() == 6 && (op[5] == 's' || op[5] == 'u') && (op[4] == 'z' || op[4] == 'n' || op[4] == 'm' || op[4] == 'p' || op[4] == 'a')) {
    const char *m = op[4] == 'z' ? "trunc" : op[4] == 'n' ? "rint" : op[4] == 'm' ? "floor" : op[4] == 'p' ? "ceil" : "round"; bool sg = op[5] == 's'; int w = (int)width(T);
    return un([&](const BV &x) { return C.fptoiSat(op[4] == 'z' ? x : C.fround(m, x), w, sg); });
  }
  if (op == "cvtfp2hf") return un([&](const BV &x) { return C.fptrunc(x, 16); });    // v4f32 -> bits of v4f16
  if (op == "cvthf2fp") return un([&](const BV &x) { return C.fpext(x, 32); });
  if (op == "frecpe" || op == "recpe") return un([&](const BV &x) { return C.uf("arm_frecpe", {x}, (int)x.size()); });
  if (op == "frsqrte" || op == "rsqrte") return un([&](const BV &x) { return C.uf("arm_frsqrte", {x}, (int)x.size()); });
  if (op == "frecps" || op == "recps" || op == "frsqrts" || op == "rsqrts") { bool s = op.find("sqrt") != std::string::npos; return bi([&](const BV &x, const BV &y) { return C.uf(s ? "arm_frsqrts" : "arm_frecps", {x, y}, (int)x.size()); }); }
  if (op == "bsl") { for (size_t i = 0; i < A[0].size(); i++) { BV m = A[0].e[i].b; R.add(C.bor(C.band(m, A[1].e[i].b), C.band(C.bnot(m), A[2].e[i].b))); } return true; }
  // ---- memory
  if ((starts(op, "ld") || starts(op, "st")) && op.size() == 3 && op[2] >= '1' && op[2] <= '4') {
    unsigned n = op[2] - '0'; bool ld = op[0] == 'l';
    size_t pi = ld ? 0 : a64 ? A.size() - 1 : 0, v0 = a64 ? 0 : 1;
    const Elem p = A[pi].e[0];
    Type *V = ld ? (T->isStructTy() ? T->getStructElementType(0) : T) : c.aty((unsigned)v0);
    unsigned w = width(V), k = count(V);
    uint64_t al = w / 8;
    if (!a64 && A.size() && c.aty(A.size() - 1)->isIntegerTy()) { al = Core::u64(A.back().b()); if (!al) al = 1; }
    std::vector<std::vector<BV>> got(n);
    for (unsigned i = 0; i < k; i++) for (unsigned j = 0; j < n; j++) {
      uint64_t off = (uint64_t)(i * n + j) * w / 8, a = off ? std::min<uint64_t>(al, w / 8) : al; Elem q = gep(p, Core::cst(off, 64));
      if (ld) got[j].push_back(loadBits(q, w / 8, c.cond, a, c.cb)); else storeBits(q, A[v0 + j].e[i].b, c.cond, a, c.cb);
    }
    if (ld) for (auto &v : got) for (auto &b : v) R.add(b);
    return true;
  }
  return false;
}

bool Interp::sve(Call &c) {
  if (!starts(c.name, "llvm.aarch64.sve.")) return false;
  std::string n = c.name.substr(17);
  auto &A = c.a; auto &R = c.ret; Type *T = c.cb->getType();
  // the type suffixes are dropped: .nxv4f32, .p0, .i64 ...
  std::string op; { std::vector<std::string> tok; std::string t; for (char ch : n + ".") { if (ch == '.') { tok.push_back(t); t.clear(); } else t += ch; }
    for (auto &x : tok) { bool ty = starts(x, "nxv") || x == "p0" || ((x[0] == 'i' || x[0] == 'f') && x.size() <= 3 && x.size() > 1 && isdigit(x[1])) || (x[0] == 'v' && x.size() > 1 && isdigit(x[1])); if (!ty) op += (op.empty() ? "" : ".") + x; } }
  std::string last = op.substr(op.rfind('.') == std::string::npos ? 0 : op.rfind('.') + 1);
  if (last == "u") op = op.substr(0, op.size() - 2);             // inactive lanes undefined: modelled as the merging form
  unsigned k = count(T);
  auto pb = [&](const Val &p, size_t i) -> Edge { return p.e[i].b[0]; };
  auto bit = [&](Edge e) { return BV{e}; };
  if (op == "ptrue") { if (Core::u64(A[0].b()) != 31 && Core::u64(A[0].b()) != 0) return false; if (Core::u64(A[0].b()) == 0 && (k & (k - 1))) return false; for (unsigned i = 0; i < k; i++) R.add(bit(T1)); return true; }
  if (op == "convert.to.svbool") { unsigned m = (unsigned)A[0].size(), s = k / m; for (unsigned i = 0; i < k; i++) R.add(bit(i % s ? F0 : pb(A[0], i / s))); return true; }
  if (op == "convert.from.svbool") { unsigned s = (unsigned)A[0].size() / k; for (unsigned i = 0; i < k; i++) R.add(bit(pb(A[0], i * s))); return true; }
  if (op == "index") { for (unsigned i = 0; i < k; i++) R.add(C.add(A[0].b(), C.mul(A[1].b(), Core::cst(i, width(T))))); return true; }
  if (op == "dup.x") { for (unsigned i = 0; i < k; i++) R.add(A[0].b()); return true; }
  if (op == "dup") { for (unsigned i = 0; i < k; i++) R.add(C.ite(pb(A[1], i), A[2].b(), A[0].e[i].b)); return true; }
  if (op == "sel") { for (unsigned i = 0; i < k; i++) R.add(C.ite(pb(A[0], i), A[1].e[i].b, A[2].e[i].b)); return true; }
  // permutations
  if (op == "zip1" || op == "zip2") { unsigned h = op == "zip2" ? k / 2 : 0; for (unsigned i = 0; i < k / 2; i++) { R.add(A[0].e[h + i].b); R.add(A[1].e[h + i].b); } return true; }
  if (op == "uzp1" || op == "uzp2") { unsigned o = op == "uzp2"; for (int s = 0; s < 2; s++) for (unsigned i = o; i < k; i += 2) R.add(A[s].e[i].b); return true; }
  if (op == "trn1" || op == "trn2") { unsigned o = op == "trn2"; for (unsigned i = 0; i < k; i += 2) { R.add(A[0].e[i + o].b); R.add(A[1].e[i + o].b); } return true; }
  if (op == "rev") { for (unsigned i = 0; i < k; i++) R.add(A[0].e[k - 1 - i].b); return true; }
  if (op == "sunpklo" || op == "sunpkhi" || op == "uunpklo" || op == "uunpkhi") { unsigned h = op.substr(5) == "hi" ? k : 0; int w = (int)width(T); for (unsigned i = 0; i < k; i++) R.add(op[0] == 's' ? Core::sext(A[0].e[h + i].b, w) : Core::zext(A[0].e[h + i].b, w)); return true; }
  if (op == "punpklo" || op == "punpkhi") { unsigned h = op == "punpkhi" ? k : 0; for (unsigned i = 0; i < k; i++) R.add(A[0].e[h + i].b); return true; }
  if (op == "lasta" || op == "lastb") return false;
  // unpredicated arithmetic
  if (op == "sqadd.x" || op == "uqadd.x" || op == "sqsub.x" || op == "uqsub.x") { for (unsigned i = 0; i < k; i++) R.add(sat(C, A[0].e[i].b, A[1].e[i].b, op[0] == 's', op.substr(2, 3) == "sub")); return true; }
  if (op == "frecpe.x" || op == "frsqrte.x") { for (auto &e : A[0].e) R.add(C.uf(op == "frecpe.x" ? "arm_frecpe" : "arm_frsqrte", {e.b}, (int)e.b.size())); return true; }
  if (op == "frecps.x" || op == "frsqrts.x") { for (unsigned i = 0; i < k; i++) R.add(C.uf(op == "frecps.x" ? "arm_frecps" : "arm_frsqrts", {A[0].e[i].b, A[1].e[i].b}, (int)A[0].e[i].b.size())); return true; }
  // counting and tests
  if (op == "cntp") { BV v; for (unsigned i = 0; i < A[1].size(); i++) v.push_back(C.B.And(pb(A[0], i), pb(A[1], i))); R = Val(C.popcount(v, 64)); return true; }
  if (starts(op, "ptest.")) {
    if (op == "ptest.any") { Edge e = F0; for (unsigned i = 0; i < A[1].size(); i++) e = C.B.Or(e, C.B.And(pb(A[0], i), pb(A[1], i))); R = Val(bit(e)); return true; }
    return false;
  }
  if (starts(op, "whilel")) {
    bool sg = op == "whilelt" || op == "whilele", le = op == "whilele" || op == "whilels"; int w = (int)A[0].b().size(); Edge on = T1;
    for (unsigned i = 0; i < k; i++) {       // the sum does not wrap
      BV x = C.add(sg ? Core::sext(A[0].b(), w + 8) : Core::zext(A[0].b(), w + 8), Core::cst(i, w + 8)), y = sg ? Core::sext(A[1].b(), w + 8) : Core::zext(A[1].b(), w + 8);
      on = C.B.And(on, le ? Bdd::Not(C.slt(y, x)) : C.slt(x, y)); R.add(bit(on));
    }
    return true;
  }
  // predicates
  { static const char *lg[] = {"and.z", "orr.z", "eor.z", "bic.z", "nand.z", "nor.z", "orn.z", nullptr};
    for (int q = 0; lg[q]; q++) if (op == lg[q]) {
      for (unsigned i = 0; i < k; i++) { Edge x = pb(A[1], i), y = pb(A[2], i), r;
        switch (q) { case 0: r = C.B.And(x, y); break; case 1: r = C.B.Or(x, y); break; case 2: r = C.B.Xor(x, y); break; case 3: r = C.B.And(x, Bdd::Not(y)); break; case 4: r = Bdd::Not(C.B.And(x, y)); break; case 5: r = Bdd::Not(C.B.Or(x, y)); break; default: r = C.B.Or(x, Bdd::Not(y)); }
        R.add(bit(C.B.And(pb(A[0], i), r))); }
      return true; } }
  // comparisons
  if (starts(op, "cmp") || starts(op, "fcmp")) {
    bool f = op[0] == 'f'; std::string q = op.substr(f ? 4 : 3); if (q.find('.') != std::string::npos) return false;
    for (unsigned i = 0; i < k; i++) {
      const BV &x = A[1].e[i].b, &y = A[2].e[i].b; Edge e;
      if (f) { Edge eq = C.feq(x, y), gt = C.flt(y, x), un = C.B.Or(C.fnan(x), C.fnan(y)); if (q == "eq") e = eq; else if (q == "ne") e = Bdd::Not(eq); else if (q == "gt") e = gt; else if (q == "ge") e = C.B.Or(gt, eq); else if (q == "uo") e = un; else return false; }
      else { if (q == "eq") e = C.eq(x, y); else if (q == "ne") e = Bdd::Not(C.eq(x, y)); else if (q == "gt") e = C.slt(y, x); else if (q == "ge") e = Bdd::Not(C.slt(x, y)); else if (q == "hi") e = C.ult(y, x); else if (q == "hs") e = Bdd::Not(C.ult(x, y)); else return false; }
      R.add(bit(C.B.And(pb(A[0], i), e)));
    }
    return true;
  }
  // reductions
  if (op == "saddv" || op == "uaddv") { BV r = Core::cst(0, 64); for (unsigned i = 0; i < A[1].size(); i++) r = C.add(r, C.ite(pb(A[0], i), op[0] == 's' ? Core::sext(A[1].e[i].b, 64) : Core::zext(A[1].e[i].b, 64), Core::cst(0, 64))); R = Val(r); return true; }
  if (op == "faddv") {
    std::vector<BV> v; for (unsigned i = 0; i < A[1].size(); i++) { if (pb(A[0], i) != T1) return false; v.push_back(A[1].e[i].b); }
    if (v.size() & (v.size() - 1)) return false;
    while (v.size() > 1) { std::vector<BV> u; for (size_t i = 0; i + 1 < v.size(); i += 2) u.push_back(C.fadd(v[i], v[i + 1])); v = u; } R = Val(v[0]); return true; }
  if (op == "fadda") { BV r = A[1].b(); for (unsigned i = 0; i < A[2].size(); i++) r = C.ite(pb(A[0], i), C.fadd(r, A[2].e[i].b), r); R = Val(r); return true; }
  // memory
  auto step = [&](unsigned w, unsigned i, unsigned m, unsigned j) { return Core::cst((uint64_t)(i * m + j) * w / 8, 64); };
  if (op == "ld1") { unsigned w = width(T); for (unsigned i = 0; i < k; i++) { Edge g = C.B.And(c.cond, pb(A[0], i)); R.add(g == F0 ? Core::cst(0, w) : C.ite(pb(A[0], i), loadBits(gep(A[1].e[0], step(w, i, 1, 0)), w / 8, g, w / 8, c.cb), Core::cst(0, w))); } return true; }
  if (op == "st1") { unsigned w = width(c.aty(0)); for (unsigned i = 0; i < A[0].size(); i++) { Edge g = C.B.And(c.cond, pb(A[1], i)); if (g != F0) storeBits(gep(A[2].e[0], step(w, i, 1, 0)), A[0].e[i].b, g, w / 8, c.cb); } return true; }
  if (op.size() > 3 && starts(op, "ld") && op[2] >= '2' && op[2] <= '4' && op.substr(3) == ".sret") {
    unsigned m = op[2] - '0', w = width(T->getStructElementType(0)); k = count(T->getStructElementType(0));
    for (unsigned j = 0; j < m; j++) for (unsigned i = 0; i < k; i++) { Edge g = C.B.And(c.cond, pb(A[0], i)); R.add(g == F0 ? Core::cst(0, w) : C.ite(pb(A[0], i), loadBits(gep(A[1].e[0], step(w, i, m, j)), w / 8, g, w / 8, c.cb), Core::cst(0, w))); }
    return true;
  }
  if (op.size() == 3 && starts(op, "st") && op[2] >= '2' && op[2] <= '4') {
    unsigned m = op[2] - '0', w = width(c.aty(0));
    for (unsigned i = 0; i < A[0].size(); i++) for (unsigned j = 0; j < m; j++) { Edge g = C.B.And(c.cond, pb(A[m], i)); if (g != F0) storeBits(gep(A[m + 1].e[0], step(w, i, m, j)), A[j].e[i].b, g, w / 8, c.cb); }
    return true;
  }
  if (starts(op, "ld1.gather") || starts(op, "st1.scatter")) {
    bool ld = op[0] == 'l'; std::string f = op.substr(ld ? 10 : 11); unsigned o = ld ? 0 : 1;
    if (f.find("scalar") != std::string::npos) return false;
    bool idx = f.find("index") != std::string::npos, sx = f.find("sxtw") != std::string::npos; unsigned w = ld ? width(T) : width(c.aty(0)), m = (unsigned)A[o].size();
    for (unsigned i = 0; i < m; i++) {
      Edge p = pb(A[o], i), g = C.B.And(c.cond, p);
      BV off = A[o + 2].e[i].b; if (off.size() < 64) off = sx ? Core::sext(off, 64) : Core::zext(off, 64);
      if (idx) off = C.mul(off, Core::cst(w / 8, 64));
      if (ld) R.add(g == F0 ? Core::cst(0, w) : C.ite(p, loadBits(gep(A[o + 1].e[0], off), w / 8, g, w / 8, c.cb), Core::cst(0, w)));
      else if (g != F0) storeBits(gep(A[o + 1].e[0], off), A[0].e[i].b, g, w / 8, c.cb);
    }
    return true;
  }
  // conversions (inactive, pg, x): the type suffix tells the lane; source and result lanes are aligned containers
  if (starts(op, "fcvtz") || starts(op, "scvtf") || starts(op, "ucvtf") || op == "fcvt" || starts(op, "fcvt.")) {
    unsigned ks = (unsigned)A[2].size(), w = width(T), ws = width(c.aty(2)), lanes = std::min(k, ks); R = A[0];
    unsigned sd = k / lanes, ss = ks / lanes;
    for (unsigned i = 0; i < lanes; i++) { const BV &x = A[2].e[i * ss].b; BV r;
      if (starts(op, "fcvtz")) r = C.fptoiSat(x, w, op[5] == 's'); else if (op[0] == 's' || op[0] == 'u') r = C.itofp(x, op[0] == 's', w); else r = w > ws ? C.fpext(x, w) : C.fptrunc(x, w);
      R.e[i * sd].b = C.ite(pb(A[1], i * (A[1].size() / lanes)), r, R.e[i * sd].b); }
    return true;
  }
  // predicated unary (inactive, pg, x)
  std::function<BV(const BV &)> u1;
  if (op == "abs") u1 = [&](const BV &x) { return C.ite(x.back(), C.neg(x), x); };
  else if (op == "neg") u1 = [&](const BV &x) { return C.neg(x); };
  else if (op == "not") u1 = [&](const BV &x) { return C.bnot(x); };
  else if (op == "fabs") u1 = [&](const BV &x) { return C.fabs(x); };
  else if (op == "fneg") u1 = [&](const BV &x) { return C.fneg(x); };
  else if (op == "fsqrt") u1 = [&](const BV &x) { return C.fsqrt(x); };
  else if (starts(op, "frint") && op.size() == 6) { const char *m = op[5] == 'm' ? "floor" : op[5] == 'p' ? "ceil" : op[5] == 'z' ? "trunc" : op[5] == 'a' ? "round" : "rint"; u1 = [=](const BV &x) { return C.fround(m, x); }; }
  if (u1) { for (unsigned i = 0; i < k; i++) R.add(C.ite(pb(A[1], i), u1(A[2].e[i].b), A[0].e[i].b)); return true; }
  // predicated binary (pg, x, y): inactive lanes keep x
  std::function<BV(const BV &, const BV &)> b2;
  auto W = [&]() { return A.size() > 2 && A[1].size() == k && A[2].size() == k; };
  if (W()) {
    auto sh = [&](const BV &y) { return y; };
    if (op == "add") b2 = [&](const BV &x, const BV &y) { return C.add(x, y); };
    else if (op == "sub") b2 = [&](const BV &x, const BV &y) { return C.sub(x, y); };
    else if (op == "subr") b2 = [&](const BV &x, const BV &y) { return C.sub(y, x); };
    else if (op == "mul") b2 = [&](const BV &x, const BV &y) { return C.mul(x, y); };
    else if (op == "and") b2 = [&](const BV &x, const BV &y) { return C.band(x, y); };
    else if (op == "orr") b2 = [&](const BV &x, const BV &y) { return C.bor(x, y); };
    else if (op == "eor") b2 = [&](const BV &x, const BV &y) { return C.bxor(x, y); };
    else if (op == "bic") b2 = [&](const BV &x, const BV &y) { return C.band(x, C.bnot(y)); };
    else if (op == "smin" || op == "smax" || op == "umin" || op == "umax") b2 = [&](const BV &x, const BV &y) { Edge lt = op[0] == 's' ? C.slt(x, y) : C.ult(x, y); return op[2] == 'a' ? C.ite(lt, y, x) : C.ite(lt, x, y); };
    else if (op == "fmin" || op == "fmax") b2 = [&](const BV &x, const BV &y) { return fminmax(C, x, y, op == "fmax"); };
    else if (op == "fminnm" || op == "fmaxnm") b2 = [&](const BV &x, const BV &y) { return fminmaxnm(C, x, y, op == "fmaxnm"); };
    else if (op == "fadd") b2 = [&](const BV &x, const BV &y) { return C.fadd(x, y); };
    else if (op == "fsub") b2 = [&](const BV &x, const BV &y) { return C.fsub(x, y); };
    else if (op == "fsubr") b2 = [&](const BV &x, const BV &y) { return C.fsub(y, x); };
    else if (op == "fmul") b2 = [&](const BV &x, const BV &y) { return C.fmul(x, y); };
    else if (op == "fdiv") b2 = [&](const BV &x, const BV &y) { return C.fdiv(x, y); };
    else if (op == "fdivr") b2 = [&](const BV &x, const BV &y) { return C.fdiv(y, x); };
    else if (op == "lsl") b2 = [&](const BV &x, const BV &y) { return C.shlV(x, sh(y), Core::ZERO); };
    else if (op == "lsr") b2 = [&](const BV &x, const BV &y) { return C.lshrV(x, sh(y), Core::ZERO); };
    else if (op == "asr") b2 = [&](const BV &x, const BV &y) { return C.ashrV(x, sh(y), Core::SIGN); };
    else if (op == "sdiv" || op == "udiv") b2 = [&](const BV &x, const BV &y) { return op[0] == 's' ? C.sdiv(x, y) : C.udiv(x, y); /* division by zero is not specified */ };
    if (b2) { for (unsigned i = 0; i < k; i++) R.add(C.ite(pb(A[0], i), b2(A[1].e[i].b, A[2].e[i].b), A[1].e[i].b)); return true; }
  }
  // fused (pg, acc, x, y) and (pg, x, y, acc)
  if (A.size() == 4 && (op == "fmla" || op == "fmls" || op == "fnmla" || op == "fnmls" || op == "fmad" || op == "fmsb" || op == "fnmad" || op == "fnmsb" || op == "mla" || op == "mls" || op == "mad" || op == "msb")) {
    bool f = op[0] == 'f'; std::string q = f ? op.substr(1) : op; bool ng = q[0] == 'n'; if (ng) q = q.substr(1);
    bool ml = q == "mla" || q == "mls", mn = q == "mls" || q == "msb";
    for (unsigned i = 0; i < k; i++) {
      const BV &x = A[ml ? 2 : 1].e[i].b, &y = A[ml ? 3 : 2].e[i].b, &z = A[ml ? 1 : 3].e[i].b; BV r;
      if (f) r = C.fma(mn != ng ? C.fneg(x) : x, y, ng ? C.fneg(z) : z);      // fmls: z-xy  fnmla: -z-xy  fnmls: -z+xy
      else r = mn ? C.sub(z, C.mul(x, y)) : C.add(z, C.mul(x, y));
      R.add(C.ite(pb(A[0], i), r, A[1].e[i].b));
    }
    return true;
  }
  return false;
}
