// x86 intrinsics, from the Intel manual.
#include "interp.h"
#include <llvm/IR/Constants.h>
#include <set>
using namespace llvm;
static bool starts(const std::string &s, const char *p) { return s.compare(0, strlen(p), p) == 0; }
static bool has(const std::string &s, const char *p) { return s.find(p) != std::string::npos; }

bool Interp::x86(Call &c) {
  if (!starts(c.name, "llvm.x86.")) return false;
  std::string n = c.name.substr(9);
  auto &A = c.a; auto &R = c.ret;
  Type *T = c.cb->getType();
  auto imm = [&](unsigned i) { if (!Core::isConst(A[i].b())) throw Unsupported(c.name + ": variable immediate"); return (int)Core::u64(A[i].b()); };
  std::vector<std::string> tok; { std::string t; for (char ch : n) { if (ch == '.') { tok.push_back(t); t.clear(); } else t += ch; } tok.push_back(t); }
  auto is = [&](const char *t) { for (auto &x : tok) if (x == t) return true; return false; };
  std::string op = tok.size() > 1 ? (tok[1] == "mask" || tok[1] == "maskz" ? (tok.size() > 2 ? tok[2] : "") : isdigit(tok[1][0]) ? tok[0] : tok[1]) : tok[0];
  bool masked = tok.size() > 1 && tok[1] == "mask", maskz = tok.size() > 1 && tok[1] == "maskz";
  auto rmode = [&](int k) -> const char * { k &= 7; return k == 1 ? "floor" : k == 2 ? "ceil" : k == 3 ? "trunc" : "rint"; };
  auto emb = [&](int k) -> const char * { if (k == 4) return "rint"; k &= 3; return k == 1 ? "floor" : k == 2 ? "ceil" : k == 3 ? "trunc" : "rint"; };
  auto mbit = [&](const Val &m, size_t i) -> Edge { return m.size() == 1 ? (i < m.b().size() ? m.b()[i] : F0) : m.e[i].b[0]; };
  // masked result: lanes of r where mask, else src
  auto merge = [&](unsigned src, unsigned mask) { for (size_t i = 0; i < R.size(); i++) R.e[i].b = C.ite(mbit(A[mask], i), R.e[i].b, A[src].e[i].b); };
  auto un = [&](auto f) { for (auto &e : A[0].e) R.add(f(e.b)); };
  auto bi = [&](auto f) { for (size_t i = 0; i < A[0].size(); i++) R.add(f(A[0].e[i].b, A[1].e[i].b)); };

  if (n == "avx.vzeroupper" || n == "avx.vzeroall" || n == "sse.sfence" || n == "sse2.mfence" || n == "sse2.lfence") return true;
  // ---- shifts by the low 64 bits of a register
  if (op == "psll" || op == "psrl" || op == "psra") {
    BV cnt; for (auto &e : A[1].e) { cnt = Core::cat(cnt, e.b); if (cnt.size() >= 64) break; }
    un([&](const BV &x) { return op == "psll" ? C.shlV(x, cnt, Core::ZERO) : op == "psrl" ? C.lshrV(x, cnt, Core::ZERO) : C.ashrV(x, cnt, Core::SIGN); });
    return true;
  }
  if (op == "pslli" || op == "psrli" || op == "psrai") {
    BV cnt = A[1].b();
    un([&](const BV &x) { return op == "pslli" ? C.shlV(x, cnt, Core::ZERO) : op == "psrli" ? C.lshrV(x, cnt, Core::ZERO) : C.ashrV(x, cnt, Core::SIGN); });
    return true;
  }
  if (op == "psllv" || op == "psrlv" || op == "psrav") {
    bi([&](const BV &x, const BV &k) { return op == "psllv" ? C.shlV(x, k, Core::ZERO) : op == "psrlv" ? C.lshrV(x, k, Core::ZERO) : C.ashrV(x, k, Core::SIGN); });
    return true;
  }
  // ---- floating point
  if ((op == "min" || op == "max") && !is("ss") && !is("sd")) {
    bi([&](const BV &x, const BV &y) { return C.ite(op == "min" ? C.flt(x, y) : C.flt(y, x), x, y); });
    return true;
  }
  if ((op == "min" || op == "max")) {
    R = A[0]; const BV &x = A[0].e[0].b, &y = A[1].e[0].b; R.e[0].b = C.ite(op == "min" ? C.flt(x, y) : C.flt(y, x), x, y); if (masked) merge(2, 3); return true;
  }
  if (op == "round") {
    if (is("ss") || is("sd")) { R = A[0]; R.e[0].b = C.fround(rmode(imm(2)), A[1].e[0].b); return true; }
    int k = imm(1); un([&](const BV &x) { return C.fround(rmode(k), x); }); return true;
  }
  if (op == "rndscale" && masked) {
    if (is("ss") || is("sd")) { R = A[0]; R.e[0].b = C.ite(mbit(A[3], 0), C.fround(rmode(imm(4)), A[1].e[0].b), A[2].e[0].b); return true; }
    int k = imm(1); if (k >> 4) return false;
    un([&](const BV &x) { return C.fround(rmode(k), x); }); merge(2, 3); return true;
  }
  if (op == "sqrt" && (is("ps") || is("pd"))) { un([&](const BV &x) { return C.fsqrt(x); }); return A.size() < 2 || imm(1) == 4; }
  if (starts(n, "avx512.") && (op == "add" || op == "sub" || op == "mul" || op == "div") && (is("ps") || is("pd"))) {
    if (imm(2) != 4) return false;
    bi([&](const BV &x, const BV &y) { return op == "add" ? C.fadd(x, y) : op == "sub" ? C.fsub(x, y) : op == "mul" ? C.fmul(x, y) : C.fdiv(x, y); }); return true;
  }
  if (starts(n, "avx512.vfmadd.p")) { if (imm(3) != 4) return false; for (size_t i = 0; i < A[0].size(); i++) R.add(C.fma(A[0].e[i].b, A[1].e[i].b, A[2].e[i].b)); return true; }
  if (op == "hadd" || op == "hsub" || op == "phadd" || op == "phsub") {
    size_t ew = A[0].e[0].b.size(), per = 128 / ew, L = A[0].size() / per;
    if (!L) { L = 1; per = A[0].size(); }
    for (size_t l = 0; l < L; l++) for (int s = 0; s < 2; s++) for (size_t i = 0; i < per / 2; i++) {
      const BV &x = A[s].e[l * per + 2 * i].b, &y = A[s].e[l * per + 2 * i + 1].b;
      if (is("sw")) { int w = (int)ew; BV r = op == "phadd" ? C.add(Core::sext(x, w + 1), Core::sext(y, w + 1)) : C.sub(Core::sext(x, w + 1), Core::sext(y, w + 1)); R.add(C.ssat(r, w)); }
      else R.add(op == "hadd" ? C.fadd(x, y) : op == "hsub" ? C.fsub(x, y) : op == "phadd" ? C.add(x, y) : C.sub(x, y));
    }
    return true;
  }
  if (op == "addsub") { for (size_t i = 0; i < A[0].size(); i++) R.add(i & 1 ? C.fadd(A[0].e[i].b, A[1].e[i].b) : C.fsub(A[0].e[i].b, A[1].e[i].b)); return true; }
  if (op == "cmp" && (is("ps") || is("pd"))) {
    int k = imm(2) & 15; bool bitres = T->getScalarType()->isIntegerTy(1);
    for (size_t i = 0; i < A[0].size(); i++) {
      const BV &x = A[0].e[i].b, &y = A[1].e[i].b; Edge un = C.B.Or(C.fnan(x), C.fnan(y)), e;
      switch (k) {
      case 0: e = C.feq(x, y); break; case 1: e = C.flt(x, y); break; case 2: e = C.B.Or(C.flt(x, y), C.feq(x, y)); break; case 3: e = un; break;
      case 4: e = Bdd::Not(C.feq(x, y)); break; case 5: e = Bdd::Not(C.flt(x, y)); break; case 6: e = Bdd::Not(C.B.Or(C.flt(x, y), C.feq(x, y))); break; case 7: e = Bdd::Not(un); break;
      case 8: e = C.B.Or(un, C.feq(x, y)); break; case 9: e = C.B.Or(un, C.flt(x, y)); break; case 10: e = C.B.Or(un, C.B.Or(C.flt(x, y), C.feq(x, y))); break; case 11: e = F0; break;
      case 12: e = C.B.And(Bdd::Not(un), Bdd::Not(C.feq(x, y))); break; case 13: e = C.B.Or(C.flt(y, x), C.feq(x, y)); break; case 14: e = C.flt(y, x); break; default: e = T1;
      }
      if (bitres && A.size() > 3) e = C.B.And(e, mbit(A[3], i));
      R.add(bitres ? BV{e} : BV(x.size(), e));
    }
    return true;
  }
  if (has(op, "rcp") || has(op, "rsqrt") || op == "exp2") {   // approximations: a function of the lane and the instruction
    std::string f = "x86_" + (starts(op, "rcp") || starts(op, "rsqrt") || op == "exp2" ? op : op);
    if (tok.size() > 1 && (is("ss") || is("sd"))) { R = A[0]; unsigned s = A.size() > 1 && starts(n, "avx512") ? 1 : 0; R.e[0].b = C.uf(f, {A[s].e[0].b}, (int)A[0].e[0].b.size()); return true; }
    un([&](const BV &x) { return C.uf(f, {x}, (int)x.size()); });
    if (starts(n, "avx512")) merge(1, 2);
    return true;
  }
  // ---- conversions
  if (op == "cvtps2dq" || op == "cvttps2dq" || op == "cvtpd2dq" || op == "cvttpd2dq" || op == "cvtps2qq" || op == "cvttps2qq" || op == "cvtpd2qq" || op == "cvttpd2qq" ||
      op == "cvtps2udq" || op == "cvttps2udq" || op == "cvtpd2udq" || op == "cvttpd2udq" || op == "cvtps2uqq" || op == "cvttps2uqq" || op == "cvtpd2uqq" || op == "cvttpd2uqq" ||
      (op == "cvt" && (is("ps2dq") || is("pd2dq"))) || (op == "cvtt" && (is("ps2dq") || is("pd2dq")))) {
    bool tr = has(op, "cvtt"), us = has(op, "udq") || has(op, "uqq"); int w = (int)width(T);
    const char *m = tr ? "trunc" : "rint";
    if (masked && A.size() > 3 && !tr) m = emb(imm(3));
    unsigned k = count(T);
    for (unsigned i = 0; i < k; i++) {
      if (i >= A[0].size()) { R.add(Core::cst(0, w)); continue; }
      const BV &x = A[0].e[i].b;
      if (!us) R.add(C.fptoiX86(x, w, m));
      else { BV r = std::string(m) == "trunc" ? x : C.fround(m, x); R.add(C.ite(C.fits(r, w, false), C.fptoi(x, w, m), BV(w, T1))); }
    }
    if (masked) merge(1, 2);
    return true;
  }
  if (op == "cvtpd2ps" || (op == "cvt" && is("pd2"))) {
    if (masked && A.size() > 3 && imm(3) != 4) return false;
    unsigned k = count(T);
    for (unsigned i = 0; i < k; i++) R.add(i < A[0].size() ? C.fptrunc(A[0].e[i].b, 32) : Core::cst(0, 32));
    if (masked) merge(1, 2);
    return true;
  }
  if (op == "cvtps2pd" && masked) { unsigned k = count(T); for (unsigned i = 0; i < k; i++) R.add(C.fpext(A[0].e[i].b, 64)); merge(1, 2); return true; }
  if (op == "vcvtps2ph") {
    int k = imm(1); const char *rm = (k & 4) || (k & 3) == 0 ? "" : (k & 3) == 3 ? "rtz" : nullptr; if (!rm) return false;
    unsigned q = count(T); for (unsigned i = 0; i < q; i++) R.add(i < A[0].size() ? C.fptrunc(A[0].e[i].b, 16, rm) : Core::cst(0, 16));
    if (masked) merge(2, 3);
    return true;
  }
  if (op == "vcvtph2ps") { unsigned q = count(T); for (unsigned i = 0; i < q; i++) R.add(C.fpext(A[0].e[i].b, 32)); if (masked) merge(1, 2); return true; }
  if (op == "sitofp" || op == "uitofp") { if (imm(1) != 4) return false; un([&](const BV &x) { return C.itofp(x, op == "sitofp", (int)width(T)); }); return true; }
  if (op == "cvtss2si" || op == "cvttss2si" || op == "cvtss2si64" || op == "cvttss2si64" || op == "cvtsd2si" || op == "cvttsd2si" || op == "cvtsd2si64" || op == "cvttsd2si64") { R = Val(C.fptoiX86(A[0].e[0].b, (int)width(T), starts(op, "cvtt") ? "trunc" : "rint")); return true; }
  if (n == "sse2.cvtsd2ss") { R = A[0]; R.e[0].b = C.fptrunc(A[1].e[0].b, 32); return true; }
  // ---- selections
  if (op == "blendvps" || op == "blendvpd" || op == "blendv" || op == "pblendvb") { for (size_t i = 0; i < A[0].size(); i++) R.add(C.ite(A[2].e[i].b.back(), A[1].e[i].b, A[0].e[i].b)); return true; }
  if (op == "pternlog") {
    int k = imm(3);
    for (size_t i = 0; i < A[0].size(); i++) {
      BV r; for (size_t b = 0; b < A[0].e[i].b.size(); b++) { Edge x = A[0].e[i].b[b], y = A[1].e[i].b[b], z = A[2].e[i].b[b], o = F0;
        for (int q = 0; q < 8; q++) if ((k >> q) & 1) o = C.B.Or(o, C.B.And(C.B.And(q & 4 ? x : Bdd::Not(x), q & 2 ? y : Bdd::Not(y)), q & 1 ? z : Bdd::Not(z)));
        r.push_back(o); }
      R.add(r);
    }
    return true;
  }
  // ---- permutations
  auto pick = [&](const std::vector<BV> &tab, const BV &idx, int bits) {
    BV k = Core::trunc(idx, bits);
    if (Core::isConst(k)) return tab[Core::u64(k)];
    BV r = tab[0]; for (size_t j = 1; j < tab.size(); j++) r = C.ite(C.eq(k, Core::cst(j, bits)), tab[j], r);
    return r;
  };
  auto lg = [](size_t x) { int l = 0; while ((1u << l) < x) l++; return l; };
  if (op == "vpermi2var") { std::vector<BV> t; for (auto &e : A[0].e) t.push_back(e.b); for (auto &e : A[2].e) t.push_back(e.b); for (auto &e : A[1].e) R.add(pick(t, e.b, lg(t.size()))); return true; }
  if (op == "permvar" || n == "avx2.permd" || n == "avx2.permps") { std::vector<BV> t; for (auto &e : A[0].e) t.push_back(e.b); for (auto &e : A[1].e) R.add(pick(t, e.b, lg(t.size()))); return true; }
  if (op == "vpermilvar") {
    size_t per = 128 / A[0].e[0].b.size(); bool pd = per == 2;
    for (size_t i = 0; i < A[0].size(); i++) { std::vector<BV> t; for (size_t j = 0; j < per; j++) t.push_back(A[0].e[i / per * per + j].b); BV k = A[1].e[i].b; if (pd) k = C.lshr(k,1); R.add(pick(t, k, pd ? 1 : 2)); }
    return true;
  }
  if (op == "pshuf" && (is("b"))) {
    for (size_t i = 0; i < A[0].size(); i++) { std::vector<BV> t; for (size_t j = 0; j < 16; j++) t.push_back(A[0].e[i / 16 * 16 + j].b); const BV &k = A[1].e[i].b; R.add(C.ite(k[7], Core::cst(0, 8), pick(t, k, 4))); }
    return true;
  }
  if (op == "packsswb" || op == "packssdw" || op == "packuswb" || op == "packusdw") {
    int w = (int)width(T); size_t per = 128 / (2 * w), L = A[0].size() / per;
    for (size_t l = 0; l < L; l++) for (int s = 0; s < 2; s++) for (size_t i = 0; i < per; i++) { const BV &x = A[s].e[l * per + i].b; R.add(starts(op, "packss") ? C.ssat(x, w) : C.ussat(x, w)); }
    return true;
  }
  // ---- integer arithmetic
  if (op == "pmadd" && is("wd")) { for (size_t i = 0; i < A[0].size() / 2; i++) R.add(C.add(C.mul(Core::sext(A[0].e[2 * i].b, 32), Core::sext(A[1].e[2 * i].b, 32)), C.mul(Core::sext(A[0].e[2 * i + 1].b, 32), Core::sext(A[1].e[2 * i + 1].b, 32)))); return true; }
  if (op == "pmulh" || op == "pmulhu") { bool u = op == "pmulhu"; bi([&](const BV &x, const BV &y) { BV p = u ? C.mul(Core::zext(x, 32), Core::zext(y, 32)) : C.mul(Core::sext(x, 32), Core::sext(y, 32)); return Core::slice(p, 16, 16); }); return true; }
  if (op == "pavg") { bi([&](const BV &x, const BV &y) { int w = (int)x.size(); BV s = C.add(C.add(Core::zext(x, w + 1), Core::zext(y, w + 1)), Core::cst(1, w + 1)); return Core::slice(s, 1, w); }); return true; }
  if (op == "psign") { bi([&](const BV &x, const BV &y) { return C.ite(y.back(), C.neg(x), C.ite(C.isZero(y), Core::cst(0, (int)x.size()), x)); }); return true; }
  if (op == "psad" ) {
    for (size_t l = 0; l < A[0].size() / 8; l++) { BV s = Core::cst(0, 64); for (int i = 0; i < 8; i++) { const BV &x = A[0].e[l * 8 + i].b, &y = A[1].e[l * 8 + i].b; s = C.add(s, Core::zext(C.ite(C.ult(x, y), C.sub(y, x), C.sub(x, y)), 64)); } R.add(s); }
    return true;
  }
  // ---- masks
  if (op == "movmsk" || op == "pmovmskb") { BV r; for (auto &e : A[0].e) r.push_back(e.b.back()); r.resize(width(T), F0); R = Val(r); return true; }
  if (starts(op, "ptest") || starts(op, "vtest")) {
    bool sg = starts(op, "vtest"); Edge z = T1, cc = T1;
    for (size_t i = 0; i < A[0].size(); i++) for (size_t b = sg ? A[0].e[i].b.size() - 1 : 0; b < A[0].e[i].b.size(); b++) {
      Edge x = A[0].e[i].b[b], y = A[1].e[i].b[b]; z = C.B.And(z, Bdd::Not(C.B.And(x, y))); cc = C.B.And(cc, Bdd::Not(C.B.And(Bdd::Not(x), y)));
    }
    bool nz = has(op, "nzc"), cf = !nz && (op == "ptestc" || op == "vtestc");
    Edge e = nz ? C.B.And(Bdd::Not(z), Bdd::Not(cc)) : cf ? cc : z;
    BV r = Core::cst(0, 32); r[0] = e; R = Val(r); return true;
  }
  // ---- memory
  auto at = [&](const Elem &p, const BV &off) { return gep(p, off); };
  if (op == "maskload") {
    unsigned w = width(T), k = count(T);
    for (unsigned i = 0; i < k; i++) { Edge m = A[1].e[i].b.back(), g = C.B.And(c.cond, m); R.add(m == F0 || g == F0 ? Core::cst(0, w) : C.ite(m, loadBits(at(A[0].e[0], Core::cst(i * w / 8, 64)), w / 8, g, 1, c.cb), Core::cst(0, w))); }
    return true;
  }
  if (op == "maskstore") { unsigned w = (unsigned)A[2].e[0].b.size(); for (size_t i = 0; i < A[2].size(); i++) { Edge g = C.B.And(c.cond, A[1].e[i].b.back()); if (g != F0) storeBits(at(A[0].e[0], Core::cst(i * w / 8, 64)), A[2].e[i].b, g, 1, c.cb); } return true; }
  if (op == "maskmov") { for (size_t i = 0; i < A[0].size(); i++) { Edge g = C.B.And(c.cond, A[1].e[i].b.back()); if (g != F0) storeBits(at(A[2].e[0], Core::cst(i, 64)), A[0].e[i].b, g, 1, c.cb); } return true; }
  if (has(n, "ldu.dq") || op == "ldu") { unsigned w = width(T), k = count(T); BV v = loadBits(A[0].e[0], w / 8 * k, c.cond, 1, c.cb); R = unflat(v, T); return true; }
  if (op == "gather" || op == "gather3div8" || starts(op, "gather")) {
    int sc = imm(4); unsigned w = width(T), k = count(T);
    for (unsigned i = 0; i < k; i++) {
      Edge m = masked ? mbit(A[3], i) : A[3].e[i].b.back(), g = C.B.And(c.cond, m);
      if (i >= A[2].size()) { R.add(Core::cst(0, w)); continue; }
      BV off = C.mul(Core::sext(A[2].e[i].b, 64), Core::cst(sc, 64));
      R.add(g == F0 ? A[0].e[i].b : C.ite(m, loadBits(at(A[1].e[0], off), w / 8, g, 1, c.cb), A[0].e[i].b));
    }
    return true;
  }
  if (starts(op, "scatter")) {
    int sc = imm(4); unsigned w = (unsigned)A[3].e[0].b.size();
    for (size_t i = 0; i < A[3].size(); i++) {
      Edge g = C.B.And(c.cond, mbit(A[1], i)); if (g == F0 || i >= A[2].size()) continue;
      BV off = C.mul(Core::sext(A[2].e[i].b, 64), Core::cst(sc, 64));
      storeBits(at(A[0].e[0], off), A[3].e[i].b, g, 1, c.cb); (void)w;
    }
    return true;
  }
  (void)maskz;
  return false;
}
