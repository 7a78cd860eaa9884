#include "core.h"
#include <llvm/ADT/APFloat.h>
#include <llvm/ADT/APInt.h>
#include <llvm/ADT/APSInt.h>
#include <algorithm>
#include <set>
using llvm::APFloat; using llvm::APInt;

void Core::reset() {
  B.reset(); ufs.clear(); ufIndex.clear(); varUF.clear(); varBit.clear(); varName.clear(); addMemo.clear(); addcMemo.clear(); linOf.clear(); partOf.clear(); seq = 0; undefs = 0;
}
Edge Core::newNamed(const std::string &name, int bit) {
  int v = B.newVar(bit < 0 ? seq++ : ((uint64_t)(1000 - bit) << 40) | seq++);
  if (bit < 0) bit = -1 - bit;
  varUF.resize(v + 1, -1); varBit.resize(v + 1, 0); varName.resize(v + 1);
  varName[v] = name; varBit[v] = bit;
  return B.var(v);
}
Edge Core::fresh(const char *why, int bit) { undefs++; return newNamed(std::string(why) + "#" + std::to_string(undefs), bit); }
BV Core::freshV(const char *why, int w) { BV r; undefs++; for (int i = 0; i < w; i++) r.push_back(newNamed(std::string(why) + "#" + std::to_string(undefs), i)); return r; }

BV Core::uf(const std::string &op, const std::vector<BV> &args, int width, bool opaque, int hint) {
  std::string key = op + "/" + std::to_string(width);
  for (auto &a : args) {
    uint32_t n = (uint32_t)a.size();
    key.append((char *)&n, 4);
    if (n) key.append((const char *)a.data(), 4 * n);
  }
  int id;
  auto it = ufIndex.find(key);
  if (it != ufIndex.end()) id = it->second;
  else {
    id = (int)ufs.size();
    UF u; u.op = op; u.args = args; u.width = width; u.opaque = opaque;
    u.base = (int)B.vkey.size();
    uint64_t s = seq++;
    for (int i = 0; i < width; i++) {
      // the result of an output call decides what follows: all its bits together, before any data
      int v = B.newVar(op == "es:out" ? s : ((uint64_t)(1000 - i - hint) << 40) | s);
      varUF.resize(v + 1, -1); varBit.resize(v + 1, 0); varName.resize(v + 1);
      varUF[v] = id; varBit[v] = i;
    }
    ufs.push_back(u); ufIndex[key] = id;
  }
  BV r;
  for (int i = 0; i < width; i++) r.push_back(B.var(ufs[id].base + i));
  return r;
}
int Core::match(const BV &v) const {
  int id = -1;
  for (size_t i = 0; i < v.size(); i++) {
    Edge e = v[i];
    if (e < 2 || (e & 1)) { /* plain var edge is stored with complement for lo==F0,hi==T1 */ }
    if (e < 2) return -1;
    uint32_t var = B.topvar(e);
    if (B.lo(e) != F0 || B.hi(e) != T1) return -1;
    if (varUF[var] < 0 || varBit[var] != (int)i) return -1;
    if (i == 0) id = varUF[var]; else if (varUF[var] != id) return -1;
  }
  if (id >= 0 && ufs[id].width != (int)v.size()) return -1;
  return id;
}
BV Core::cst(uint64_t v, int w) { BV r(w); for (int i = 0; i < w; i++) r[i] = i < 64 && ((v >> i) & 1) ? T1 : F0; return r; }
BV Core::cstAP(const std::vector<uint64_t> &words, int w) { BV r(w); for (int i = 0; i < w; i++) r[i] = ((words[i / 64] >> (i % 64)) & 1) ? T1 : F0; return r; }
bool Core::isConst(const BV &a) { for (Edge e : a) if (e > 1) return false; return true; }
uint64_t Core::u64(const BV &a) { uint64_t r = 0; for (size_t i = 0; i < a.size() && i < 64; i++) if (a[i] == T1) r |= 1ull << i; return r; }
int64_t Core::s64(const BV &a) { uint64_t r = u64(a); size_t w = a.size(); if (w < 64 && a.back() == T1) r |= ~0ull << w; return (int64_t)r; }

BV Core::band(const BV &a, const BV &b) { BV r(a.size()); for (size_t i = 0; i < a.size(); i++) r[i] = B.And(a[i], b[i]); return r; }
BV Core::bor(const BV &a, const BV &b) { BV r(a.size()); for (size_t i = 0; i < a.size(); i++) r[i] = B.Or(a[i], b[i]); return r; }
BV Core::bxor(const BV &a, const BV &b) { BV r(a.size()); for (size_t i = 0; i < a.size(); i++) r[i] = B.Xor(a[i], b[i]); return r; }
BV Core::ite(Edge c, const BV &a, const BV &b) {
  if (c == T1) return a;
  if (c == F0) return b;
  BV r(a.size()); for (size_t i = 0; i < a.size(); i++) r[i] = B.Ite(c, a[i], b[i]); return r;
}
BV Core::addc(const BV &a, const BV &b, Edge c, Edge *cout) {
  BV r(a.size());
  for (size_t i = 0; i < a.size(); i++) {
    Edge x = B.Xor(a[i], b[i]);
    r[i] = B.Xor(x, c);
    if (i + 1 < a.size() || cout) c = B.Ite(x, c, a[i]);
  }
  if (cout) *cout = c;
  return r;
}
static size_t supp(Core &c, const BV &a, const BV &b, size_t cap) {
  // number of variables below the operands, capped
  std::vector<char> seen, vseen; std::vector<uint32_t> vars;
  for (Edge e : a) { c.B.support(e, seen, vars, vseen); if (vars.size() > cap) return vars.size(); }
  for (Edge e : b) { c.B.support(e, seen, vars, vseen); if (vars.size() > cap) return vars.size(); }
  return vars.size();
}
// Exact as long as the bits stay small; the remaining high bits are opaque.
BV Core::addBits(const BV &a, const BV &b, Edge cin, const char *op) {
  BV r; size_t w = a.size(); Edge c = cin;
  uint64_t save = B.step_limit, start = B.steps; size_t n0 = B.n.size();
  size_t i = 0;
  try {
    for (; i < w; i++) {
      B.step_limit = std::min<uint64_t>(save, B.steps + 60000 * effort);
      if (B.n.size() > n0 + 60000) throw TooBig("add");
      Edge x = B.Xor(a[i], b[i]); Edge s = B.Xor(x, c);
      Edge c2 = i + 1 < w ? B.Ite(x, c, a[i]) : c;
      r.push_back(s); c = c2;
    }
    B.step_limit = save;
  } catch (TooBig &) {
    B.step_limit = save;
    if (B.steps > save || B.n.size() >= B.limit) throw;
    (void)start;
    BV u = uf(op, {a, b}, (int)w, true);
    for (; i < w; i++) r.push_back(u[i]);
  }
  return r;
}
// a + cb * b + k
BV Core::linSum(const BV &a, const BV &b, uint64_t cb, uint64_t k) {
  int w = (int)a.size(); uint64_t m = w == 64 ? ~0ull : (1ull << w) - 1;
  if (w > lin) {   // several words in one register: word by word as long as no carry leaves the low one
    BV al = trunc(a, lin), bl = trunc(b, lin), ah = slice(a, lin, w - lin), bh = slice(b, lin, w - lin), zero = cst(0, lin);
    BV lo = linSum(al, bl, cb, k), hi;
    if (!k && (bl == zero || (al == zero && cb == 1))) hi = linSum(ah, bh, cb, 0);
    else if (cb == 1 && !k) hi = a < b ? uf("addhi", {a, b}, w - lin) : uf("addhi", {b, a}, w - lin);
    else { BV k2 = addc(cb == 1 ? b : bnot(b), cst(cb == 1 ? k : k + 1, w), F0); hi = uf("addhi", {a, k2}, w - lin); }
    return cat(lo, hi);
  }
  Lin r; r.k = k;
  auto acc = [&](const BV &v, uint64_t co) {
    auto it = linOf.find(v);
    if (it != linOf.end()) { r.k += co * it->second.k; for (auto &p : it->second.c) r.c[p.first] += co * p.second; }
    else if (isConst(v)) r.k += co * u64(v);
    else r.c[v] += co;
  };
  acc(a, 1); acc(b, cb); r.k &= m;
  for (auto it = r.c.begin(); it != r.c.end();) { it->second &= m; if (!it->second) it = r.c.erase(it); else ++it; }
  if (r.c.empty()) return cst(r.k, w);
  if (r.c.size() == 1 && r.c.begin()->second == 1 && !r.k) return r.c.begin()->first;
  std::vector<BV> args; args.push_back(cst(r.k, w));
  for (auto &p : r.c) { args.push_back(cst(p.second, w)); args.push_back(p.first); }
  BV v = uf("lin", args, w); linOf[v] = r; return v;
}
BV Core::add(const BV &a, const BV &b) {
  if (isConst(a) && isConst(b)) return addc(a, b, F0);
  if (lin && (int)a.size() % lin == 0) return linSum(a, b, 1, 0);
  const BV &x = a < b ? a : b, &y = a < b ? b : a;
  auto key = std::make_pair(x, y);
  auto it = addMemo.find(key);
  if (it != addMemo.end()) return it->second;
  BV r = addBits(x, y, F0, "add");
  addMemo[key] = r;
  return r;
}
BV Core::neg(const BV &a) { return add(bnot(a), cst(1, (int)a.size())); }
BV Core::sub(const BV &a, const BV &b) {
  if (a == b) return cst(0, (int)a.size());
  if (lin && (int)a.size() % lin == 0) return linSum(a, b, ~0ull, 0);
  if (isConst(b)) return add(a, addc(bnot(b), cst(1, (int)b.size()), F0));
  return addBits(a, bnot(b), T1, "addnot1");
}
static int popc(uint64_t x) { return __builtin_popcountll(x); }
BV Core::mul(const BV &a0, const BV &b0) {
  int w = (int)a0.size();
  BV a = a0, b = b0;
  if (isConst(a)) std::swap(a, b);
  if (isConst(b)) {
    if (isConst(a)) {
      if (w <= 64) { return cst(u64(a) * u64(b), w); }
    }
    // shift and add; use signed digits when fewer
    BV r = cst(0, w);
    int ones = 0; for (Edge e : b) ones += e == T1;
    // copies that do not overlap: no carries
    { int sg = w; while (sg > 1 && a[sg - 1] == F0) sg--;
      int last = -1000; bool dis = true; for (int i = 0; i < w; i++) if (b[i] == T1) { if (i - last < sg) dis = false; last = i; }
      if (dis) { BV r = cst(0, w); for (int i = 0; i < w; i++) if (b[i] == T1) for (int j = 0; j < sg && i + j < w; j++) r[i + j] = a[j]; return r; } }
    // non-adjacent signed digits
    std::vector<int> pos, negd; { BV t = b; t.push_back(F0); t.push_back(F0); int carry = 0;
      for (int i = 0; i < w; i++) { int v = (t[i] == T1) + carry; int nx = t[i + 1] == T1; if (v & 1) { if (nx) { negd.push_back(i); carry = 1; } else { pos.push_back(i); carry = 0; } } else carry = v >> 1; } }
    if (pos.size() + negd.size() <= 4) {
      BV q = cst(0, w);
      for (int i : pos) r = add(r, shl(a, i));
      for (int i : negd) q = add(q, shl(a, i));
      if (negd.empty()) return r;
      return pos.empty() ? neg(q) : sub(r, q);
    }
  }
  // factor out trailing zeros
  int ta = 0, tb = 0;
  while (ta < w && a[ta] == F0) ta++;
  while (tb < w && b[tb] == F0) tb++;
  if (ta + tb >= w) return cst(0, w);
  if (ta + tb) {
    int k = w - ta - tb;
    BV p = mul(trunc(lshr(a, ta), k), trunc(lshr(b, tb), k));
    BV r = cst(0, ta + tb); r.insert(r.end(), p.begin(), p.end());
    return r;
  }
  if (parts && w >= 2 * parts) {   // limbs of half a word, whatever the width the product is written at
    auto sigw = [](const BV &v) { int k = (int)v.size(); while (k > 1 && v[k - 1] == F0) k--; return k; };
    int na = (sigw(a) + parts - 1) / parts, nb = (sigw(b) + parts - 1) / parts;
    if (na > 1 || nb > 1) {
      auto limb = [&](const BV &v, int i) {
        BV l(v.begin() + parts * i, v.begin() + std::min(w, parts * i + parts)), k = l; int z = 0;
        while (k.size() > 1 && k.back() == F0) k.pop_back();
        if (i && !partOf.count(k)) partOf[k] = parts * i;
        while (k.size() > 1 && k[0] == F0) { k.erase(k.begin()); z++; }
        if (i && z && !partOf.count(k)) partOf[k] = parts * i + z;
        return l; };
      BV r = cst(0, w);
      for (int i = na - 1; i >= 0; i--) for (int j = nb - 1; j >= 0; j--) {
        int sh = parts * (i + j); if (sh >= w) continue;
        int pw = std::min(2 * parts, w - sh);
        BV p = mul(zext(limb(a, i), pw < parts ? parts : pw), zext(limb(b, j), pw < parts ? parts : pw)); p.resize(pw);
        BV t = cst(0, sh); t.insert(t.end(), p.begin(), p.end()); t.resize(w, F0);
        r = add(r, t);
      }
      return r;
    }
  }
  // small operands: exact
  auto sig = [](const BV &v) { int k = (int)v.size(); while (k > 1 && v[k - 1] == F0) k--; return k; };
  if (sig(a) == 1) return ite(a[0], b, cst(0, w));
  if (sig(b) == 1) return ite(b[0], a, cst(0, w));
  if (w <= 3 || (exact && w <= 8)) {
    BV r = cst(0, w);
    for (int i = 0; i < w; i++) {
      BV t = shl(a, i); for (int j = 0; j < w; j++) t[j] = B.And(t[j], b[i]);
      r = addc(r, t, F0);
    }
    return r;
  }
  // (-x) * y = -(x * y): choose the sign of each operand canonically, looking at low bits first
  bool flip = false;
  auto canon = [&](BV &v) {
    uint64_t save = B.step_limit, lim = std::min<uint64_t>(save, B.steps + 4000 * effort); B.step_limit = lim;
    try {

      Edge any = v[0]; BV m(v);
      for (int i = 1; i < w; i++) { m[i] = B.Xor(v[i], any); any = B.Or(any, v[i]); }
      int i = 0; while (i < w && m[i] == v[i]) i++;
      if (i < w && m[i] < v[i]) { v = m; flip = !flip; }
      B.step_limit = save;
    } catch (TooBig &) { B.step_limit = save; if (B.steps > save || B.n.size() >= B.limit) throw; }
  };
  if (!isConst(b)) { canon(a); canon(b); if (flip) return neg(mul(a, b)); }
  // prefix keyed: bit i of the product depends on the low i+1 bits of the operands only.
  // A zero operand bit above the significant part does not matter, so strip it to share between widths.
  if (b < a) std::swap(a, b);
  int low = std::min(parts ? 0 : exact ? 8 : 3, w);
  BV la = trunc(a, low), lb = trunc(b, low);
  BV r; if (low) r = mul(la, lb);
  int sa = sig(a), sb = sig(b);
  // order by weight in the value the operands are parts of
  auto part = [&](BV v) { while (v.size() > 1 && v.back() == F0) v.pop_back(); auto it = partOf.find(v); return it == partOf.end() ? 0 : it->second; };
  int wt = 0, depth = 0;
  if (parts) {   // products of products come first, then by weight: sums interleave, words xored together do not
    auto dep = [&](const BV &v) { for (Edge e = v[0]; e > 1; e = B.hi(e) > 1 ? B.hi(e) : B.lo(e)) { int u = varUF[B.topvar(e)]; if (u >= 0) return ufs[u].depth; } return 0; };
    depth = 1 + std::max(dep(a), dep(b)); wt = part(a) + part(b) - 1000 * (60 - depth);
  }
  for (int i = low; i < w; i++) {
    BV pa = trunc(a, std::min(i + 1, sa)), pb = trunc(b, std::min(i + 1, sb));
    // sign-extended operands: keep prefix as is
    if (pb < pa) std::swap(pa, pb);
    BV bit = uf("mul", {pa, pb, cst((uint64_t)i, 8)}, 1, false, i + wt); if (parts) ufs[varUF[B.topvar(bit[0])]].depth = depth;
    r.push_back(bit[0]);
  }
  return r;
}
BV Core::minimalSigned(const BV &a) const { int k = (int)a.size(); while (k > 1 && a[k - 1] == a[k - 2]) k--; return BV(a.begin(), a.begin() + k); }
static BV divlike(Core &c, const char *op, const BV &a, const BV &b, bool sgn) {
  int w = (int)a.size();
  int tz = 0; while (tz + 1 < w && a[tz] == F0 && b[tz] == F0) tz++;
  if (tz) {
    BV p = divlike(c, op, BV(a.begin() + tz, a.end()), BV(b.begin() + tz, b.end()), sgn);
    if (op[0] == 'r') { BV r = Core::cst(0, tz); r.insert(r.end(), p.begin(), p.end()); return r; }
    return sgn ? Core::sext(p, w) : Core::zext(p, w);
  }
  BV x = sgn ? a : Core::cat(a, BV{F0}), y = sgn ? b : Core::cat(b, BV{F0});
  x = c.minimalSigned(x); y = c.minimalSigned(y);
  int k = (int)std::max(x.size(), y.size()) + 1;
  BV r = c.uf(op, {x, y}, k);
  if (x.back() == F0 && y.back() == F0) { size_t m = x.size() - 1; if (op[0] == 'r') m = std::min(m, y.size() - 1); for (size_t i = m; i < r.size(); i++) r[i] = F0; }
  return w <= k ? Core::trunc(r, w) : Core::sext(r, w);
}
BV Core::sdiv(const BV &a, const BV &b) {
  if (isConst(a) && isConst(b) && a.size() <= 64 && s64(b) != 0 && !(s64(b) == -1)) return cst((uint64_t)(s64(a) / s64(b)), (int)a.size());
  if (isConst(b) && a.size() <= 64 && s64(b) == 1) return a;
  return divlike(*this, "div", a, b, true);
}
BV Core::srem(const BV &a, const BV &b) {
  if (isConst(a) && isConst(b) && a.size() <= 64 && s64(b) != 0 && !(s64(b) == -1)) return cst((uint64_t)(s64(a) % s64(b)), (int)a.size());
  return divlike(*this, "rem", a, b, true);
}
BV Core::udiv(const BV &a, const BV &b) {
  if (isConst(b) && a.size() <= 64 && popc(u64(b)) == 1) return lshr(a, __builtin_ctzll(u64(b)));
  if (isConst(a) && isConst(b) && a.size() <= 64 && u64(b)) return cst(u64(a) / u64(b), (int)a.size());
  return divlike(*this, "div", a, b, false);
}
BV Core::urem(const BV &a, const BV &b) {
  if (isConst(b) && a.size() <= 64 && popc(u64(b)) == 1) return band(a, cst(u64(b) - 1, (int)a.size()));
  if (isConst(a) && isConst(b) && a.size() <= 64 && u64(b)) return cst(u64(a) % u64(b), (int)a.size());
  return divlike(*this, "rem", a, b, false);
}
BV Core::shl(const BV &a, int k) { int w = (int)a.size(); BV r(w, F0); for (int i = k; i < w; i++) r[i] = a[i - k]; return r; }
BV Core::lshr(const BV &a, int k) { int w = (int)a.size(); BV r(w, F0); for (int i = 0; i + k < w; i++) r[i] = a[i + k]; return r; }
BV Core::ashr(const BV &a, int k) { int w = (int)a.size(); BV r(w, a.back()); for (int i = 0; i + k < w; i++) r[i] = a[i + k]; return r; }
static BV shiftV(Core &c, const BV &a, const BV &cnt, Core::Ovf o, int kind) {
  int w = (int)a.size();
  auto one = [&](const BV &v, int k) { return kind == 0 ? c.shl(v, k) : kind == 1 ? c.lshr(v, k) : c.ashr(v, k); };
  int bits = 0; while ((1 << bits) < w) bits++;
  BV r = a;
  for (int i = 0; i < bits && i < (int)cnt.size(); i++) r = c.ite(cnt[i], one(r, std::min(1 << i, w)), r);
  if (o == Core::WRAP) return r;
  Edge big = F0;
  for (size_t i = bits; i < cnt.size(); i++) big = c.B.Or(big, cnt[i]);
  if ((w & (w - 1)) != 0) { BV cc = Core::zext(Core::trunc(cnt, std::min<int>(bits, (int)cnt.size())), bits + 1); big = c.B.Or(big, Bdd::Not(c.ult(cc, Core::cst(w, bits + 1)))); }
  if (big == F0) return r;
  if (o == Core::ZERO) return c.ite(big, Core::cst(0, w), r);
  if (o == Core::SIGN) return c.ite(big, BV(w, a.back()), r);
  return c.ite(big, c.freshV("poison", w), r);
}
BV Core::shlV(const BV &a, const BV &c, Ovf o) { return shiftV(*this, a, c, o, 0); }
BV Core::lshrV(const BV &a, const BV &c, Ovf o) {
  BV r = shiftV(*this, a, c, o, 1);
  if (parts && isConst(c) && u64(c)) { BV k = r; while (k.size() > 1 && k.back() == F0) k.pop_back(); partOf[k] = (int)u64(c); }
  return r;
}
BV Core::ashrV(const BV &a, const BV &c, Ovf o) { return shiftV(*this, a, c, o, 2); }
Edge Core::eq(const BV &a, const BV &b) { Edge r = T1; for (int i = (int)a.size() - 1; i >= 0; i--) { r = B.And(r, Bdd::Not(B.Xor(a[i], b[i]))); if (r == F0) return r; } return r; }
Edge Core::ult(const BV &a, const BV &b) { Edge r = F0; for (size_t i = 0; i < a.size(); i++) r = B.Ite(B.Xor(a[i], b[i]), b[i], r); return r; }
Edge Core::slt(const BV &a, const BV &b) { BV x(a), y(b); std::swap(x.back(), y.back()); return ult(x, y); }
Edge Core::any(const BV &a) { Edge r = F0; for (Edge e : a) r = B.Or(r, e); return r; }
Edge Core::all(const BV &a) { Edge r = T1; for (Edge e : a) r = B.And(r, e); return r; }
Edge Core::isZero(const BV &a) { return Bdd::Not(any(a)); }
BV Core::usat(const BV &a, int w) { BV r = trunc(a, w); Edge o = any(BV(a.begin() + w, a.end())); return ite(o, BV(w, T1), r); }
BV Core::ssat(const BV &a, int w) {
  Edge s = a.back(); Edge bad = F0;
  for (size_t i = w - 1; i + 1 < a.size(); i++) bad = B.Or(bad, B.Xor(a[i], s));
  BV lim(w, Bdd::Not(s)); lim.back() = s;
  return ite(bad, lim, trunc(a, w));
}
BV Core::ussat(const BV &a, int w) {
  Edge s = a.back();
  BV r = usat(trunc(a, (int)a.size() - 1), w);
  return ite(s, cst(0, w), r);
}
BV Core::popcount(const BV &a, int w) {
  std::vector<BV> q; for (Edge e : a) q.push_back(BV{e});
  if (q.empty()) return cst(0, w);
  while (q.size() > 1) {
    std::vector<BV> p;
    for (size_t i = 0; i + 1 < q.size(); i += 2) { int k = (int)std::max(q[i].size(), q[i + 1].size()) + 1; p.push_back(addc(zext(q[i], k), zext(q[i + 1], k), F0)); }
    if (q.size() & 1) p.push_back(q.back());
    q.swap(p);
  }
  BV r = q[0];
  if ((int)r.size() > w) { return trunc(r, w); }
  return zext(r, w);
}
BV Core::ctz(const BV &a, int w) { BV r = cst(a.size(), w); for (int i = (int)a.size() - 1; i >= 0; i--) r = ite(a[i], cst(i, w), r); return r; }
BV Core::ctlz(const BV &a, int w) { BV r = cst(a.size(), w); for (size_t i = 0; i < a.size(); i++) r = ite(a[i], cst(a.size() - 1 - i, w), r); return r; }

// ---- floating point
Edge Core::fnan(const BV &a) { int w = (int)a.size(), m = mant(w); return B.And(all(slice(a, m, w - 1 - m)), any(slice(a, 0, m))); }
Edge Core::finf(const BV &a) { int w = (int)a.size(), m = mant(w); return B.And(all(slice(a, m, w - 1 - m)), isZero(slice(a, 0, m))); }
Edge Core::fzero(const BV &a) { return isZero(trunc(a, (int)a.size() - 1)); }
Edge Core::feq(const BV &a, const BV &b) {
  if (a == b) return Bdd::Not(fnan(a));
  Edge e = B.Or(eq(a, b), B.And(fzero(a), fzero(b)));
  return B.And(e, B.And(Bdd::Not(fnan(a)), Bdd::Not(fnan(b))));
}
Edge Core::flt(const BV &a, const BV &b) {
  if (a == b) return F0;
  BV ma = trunc(a, (int)a.size() - 1), mb = trunc(b, (int)b.size() - 1);
  Edge sa = a.back(), sb = b.back();
  Edge bothz = B.And(isZero(ma), isZero(mb));
  Edge l = B.Ite(sa, B.Ite(sb, ult(mb, ma), T1), B.Ite(sb, F0, ult(ma, mb)));
  l = B.And(l, Bdd::Not(bothz));
  return B.And(l, B.And(Bdd::Not(fnan(a)), Bdd::Not(fnan(b))));
}
static const llvm::fltSemantics &sem(int w) { return w == 16 ? APFloat::IEEEhalf() : w == 32 ? APFloat::IEEEsingle() : APFloat::IEEEdouble(); }
static APFloat toF(const BV &a) { int w = (int)a.size(); return APFloat(sem(w), APInt(w, Core::u64(a))); }
static BV fromF(const APFloat &f, int w) { return Core::cst(f.bitcastToAPInt().getZExtValue(), w); }
static const auto RNE = APFloat::rmNearestTiesToEven;

BV Core::fadd(const BV &a, const BV &b) {
  int w = (int)a.size();
  if (w == 16) return fptrunc(fadd(fpext(a, 32), fpext(b, 32)), 16);
  if (isConst(a) && isConst(b)) { APFloat f = toF(a); f.add(toF(b), RNE); return fromF(f, w); }
  // x + (-0.0) = x for every non-NaN x
  BV nz = cst(0, w); nz.back() = T1;
  if (a == nz) return b;
  if (b == nz) return a;
  if (exact && w == 32 && isConst(b) && !toF(b).isNaN() && !toF(b).isInfinity()) return xfaddc(a, b);
  if (exact && w == 32 && isConst(a) && !toF(a).isNaN() && !toF(a).isInfinity()) return xfaddc(b, a);
  return a < b ? uf("fadd", {a, b}, w) : uf("fadd", {b, a}, w);
}
BV Core::fmul(const BV &a, const BV &b) {
  int w = (int)a.size();
  if (w == 16) return fptrunc(fmul(fpext(a, 32), fpext(b, 32)), 16);
  if (isConst(a) && isConst(b)) { APFloat f = toF(a); f.multiply(toF(b), RNE); return fromF(f, w); }
  BV one = fromF(APFloat(sem(w), "1.0"), w);
  if (a == one) return b;
  if (b == one) return a;
  if (fneg(a) == one) return fneg(b);
  if (fneg(b) == one) return fneg(a);
  BV x = trunc(a, w - 1), y = trunc(b, w - 1);
  if (y < x) std::swap(x, y);
  BV r = uf("fmul", {x, y}, w - 1);
  r.push_back(B.Xor(a.back(), b.back()));
  return r;
}
BV Core::fdiv(const BV &a, const BV &b) {
  int w = (int)a.size();
  if (w == 16) return fptrunc(fdiv(fpext(a, 32), fpext(b, 32)), 16);
  if (isConst(a) && isConst(b)) { APFloat f = toF(a); f.divide(toF(b), RNE); return fromF(f, w); }
  BV r = uf("fdiv", {trunc(a, w - 1), trunc(b, w - 1)}, w - 1);
  r.push_back(B.Xor(a.back(), b.back()));
  return r;
}
BV Core::fma(const BV &a, const BV &b, const BV &c) {
  int w = (int)a.size();
  if (isConst(a) && isConst(b) && isConst(c)) { APFloat f = toF(a); f.fusedMultiplyAdd(toF(b), toF(c), RNE); return fromF(f, w); }
  BV x = trunc(a, w - 1), y = trunc(b, w - 1);
  if (y < x) std::swap(x, y);
  return uf("fma", {x, y, BV{B.Xor(a.back(), b.back())}, c}, w);
}
BV Core::fsqrt(const BV &a) { if (a.size() == 16) return fptrunc(fsqrt(fpext(a, 32)), 16); return uf("fsqrt", {a}, (int)a.size()); }

// ---- exact (bit-level) definitions
static int fbias(int w) { return w == 16 ? 15 : w == 32 ? 127 : 1023; }
BV Core::xround(const std::string &mode, const BV &a) {
  int w = (int)a.size(), m = mant(w), bias = fbias(w), ew = w - 1 - m;
  BV mag = trunc(a, w - 1), ex = slice(a, m, ew), mn = slice(a, 0, m);
  Edge sg = a.back();
  BV r = mag;   // exponents >= bias + m, inf, nan: unchanged
  for (int e = bias; e < bias + m; e++) {
    int k = m - (e - bias);            // fraction bits
    Edge c = eq(ex, cst(e, ew));
    Edge g = mag[k - 1], st = any(slice(mag, 0, k - 1)), lsb = e == bias && k == m ? T1 : mag[k];
    Edge fr = B.Or(g, st), inc;
    if (mode == "floor") inc = B.And(sg, fr); else if (mode == "ceil") inc = B.And(Bdd::Not(sg), fr);
    else if (mode == "trunc") inc = F0; else if (mode == "round") inc = g; else inc = B.And(g, B.Or(st, lsb));
    BV hi = slice(mag, k, w - 1 - k);
    hi = addc(hi, cst(0, (int)hi.size()), inc);
    BV v = cat(cst(0, k), hi);
    r = ite(c, v, r);
  }
  Edge small = ult(ex, cst(bias, ew)), nz = any(mag), half = eq(ex, cst(bias - 1, ew)), one;
  if (mode == "floor") one = B.And(sg, nz); else if (mode == "ceil") one = B.And(Bdd::Not(sg), nz);
  else if (mode == "trunc") one = F0; else if (mode == "round") one = half; else one = B.And(half, any(mn));
  BV v1 = cst(0, w - 1); for (int i = 0; i < ew; i++) if ((bias >> i) & 1) v1[m + i] = one;
  r = ite(small, v1, r);
  r.push_back(sg);
  return r;
}
BV Core::xf2i(const BV &a, int w) {   // truncation; low w bits of the two's complement value
  int fw = (int)a.size(), m = mant(fw), bias = fbias(fw), ew = fw - 1 - m;
  BV ex = slice(a, m, ew), mn = slice(a, 0, m);
  BV r = cst(0, w);
  for (int e = bias; e < std::min(bias + w, (1 << ew) - 1); e++) {
    int p = e - bias;                  // position of the leading one
    BV v = cst(0, w);
    for (int i = 0; i <= p && i < w; i++) { int j = i - (p - m); v[i] = i == p ? T1 : (j >= 0 && j < m ? mn[j] : F0); }
    r = ite(eq(ex, cst(e, ew)), v, r);
  }
  BV n = addc(bnot(r), cst(1, w), F0);
  return ite(a.back(), n, r);
}
BV Core::xi2f(const BV &x, int w) {   // x signed
  int k = (int)x.size(), m = mant(w), bias = fbias(w), ew = w - 1 - m;
  Edge sg = x.back();
  BV mag = ite(sg, addc(bnot(x), cst(1, k), F0), x);
  BV r = cst(0, w - 1);
  BV inf = cat(cst(0, m), BV(ew, T1));
  for (int p = 0; p < k; p++) {        // ascending so that the highest set bit wins
    BV v;
    if (p + bias >= (1 << ew) - 1) v = inf;
    else {
      BV mn(m, F0);
      for (int j = 0; j < m; j++) { int s = p - m + j; if (s >= 0 && s < p) mn[j] = mag[s]; }
      v = cat(mn, cst(p + bias, ew));
      if (p > m) {
        Edge g = mag[p - m - 1], st = any(slice(mag, 0, p - m - 1)), lsb = p - m >= 0 ? (m ? mn[0] : T1) : F0;
        v = addc(v, cst(0, w - 1), B.And(g, B.Or(st, lsb)));
      }
    }
    r = ite(mag[p], v, r);
  }
  r.push_back(B.And(sg, any(x)));
  return r;
}
// exact sum of an arbitrary a and a constant k, one case per exponent of a
BV Core::xfaddc(const BV &a, const BV &k) {
  auto it = addcMemo.find({a, k}); if (it != addcMemo.end()) return it->second;
  int w = (int)a.size(), m = mant(w), ew = w - 1 - m; int emaxf = (1 << ew) - 1;
  BV ex = slice(a, m, ew), mn = slice(a, 0, m);
  uint64_t kv = u64(k); int ke = (int)(kv >> m) & emaxf; bool ks = (kv >> (w - 1)) & 1;
  uint64_t km = (kv & ((1ull << m) - 1)) | (ke ? 1ull << m : 0); int kE = std::max(ke, 1);
  int W = m + 1 + 3 + 1;
  Edge sa = a.back(), same = ks ? sa : Bdd::Not(sa);
  BV r = cst(0, w);
  auto shrS = [&](const BV &x, int d) { if (d <= 0) return x; int n = (int)x.size(); BV y(n, F0); for (int i = 0; i + d < n; i++) y[i] = x[i + d]; Edge st = any(slice(x, 0, std::min(d, n))); y[0] = B.Or(y[0], st); return y; };
  for (int e = 0; e < emaxf; e++) {
    Edge here = eq(ex, cst(e, ew)); if (here == F0) continue;
    int E = std::max(e, 1);
    BV A = zext(cat(cst(0, 3), cat(mn, BV{e ? T1 : F0})), W), K = zext(cat(cst(0, 3), cst(km, m + 1)), W);
    int em = std::max(E, kE); A = shrS(A, em - E); K = shrS(K, em - kE);
    BV X = addc(A, K, F0), D = addc(A, bnot(K), T1);
    Edge neg = D.back(); BV aD = ite(neg, addc(bnot(D), cst(0, W), T1), D);
    BV mag = ite(same, X, aD); Edge kse = ks ? T1 : F0; Edge sg = B.Ite(same, kse, B.Ite(neg, kse, sa));
    BV v = cst(0, w - 1); Edge nz = any(mag);
    for (int p = 0; p < W; p++) {
      int sh = p - (m + 3), lim = 1 - em; bool sub = sh < lim; int se = sub ? lim : sh;
      BV t = mag; if (se > 0) t = shrS(t, se); else { BV u(W, F0); for (int i = 0; i - se < W; i++) u[i - se] = t[i]; t = u; }
      int f = sub ? 0 : em + sh; BV q;
      if (f >= emaxf) q = cat(cst(0, m), BV(ew, T1));
      else {
        q = cat(slice(t, 3, m), cst(f, ew));
        Edge inc = B.And(t[2], B.Or(B.Or(t[1], t[0]), t[3]));
        q = addc(q, cst(0, w - 1), inc);
      }
      v = ite(mag[p], q, v);
    }
    v.push_back(B.And(nz, sg));
    if (ks) { Edge zz = B.And(Bdd::Not(nz), same); v.back() = B.Or(v.back(), zz); }
    r = ite(here, v, r);
  }
  BV sp = a; sp[m - 1] = B.Or(sp[m - 1], any(mn));
  r = ite(all(ex), sp, r);
  return addcMemo[{a, k}] = r;
}
BV Core::xfpext(const BV &a, int w) {
  int f = (int)a.size(), m = mant(f), M = mant(w), ew = f - 1 - m, EW = w - 1 - M, b = fbias(f), Bb = fbias(w);
  BV ex = slice(a, m, ew), mn = slice(a, 0, m);
  BV nm = cat(cst(0, M - m), mn);
  BV ne = addc(zext(ex, EW), cst(Bb - b, EW), F0);
  BV r = cat(nm, ne);
  Edge special = all(ex), sub = isZero(ex);
  BV sp = cat(nm, BV(EW, T1)); sp[M - 1] = B.Or(sp[M - 1], any(mn));   // quiet
  r = ite(special, sp, r);
  BV sv = cst(0, w - 1);
  for (int p = 0; p < m; p++) {        // subnormal, leading one at p
    BV v(M, F0); for (int j = 0; j < p; j++) v[M - p + j] = mn[j];
    v = cat(v, cst(Bb - b + 1 - m + p, EW));
    sv = ite(mn[p], v, sv);
  }
  r = ite(sub, sv, r);
  r.push_back(a.back());
  return r;
}
BV Core::xfptrunc(const BV &a, int w, bool rtz) {
  int f = (int)a.size(), m = mant(f), M = mant(w), ew = f - 1 - m, EW = w - 1 - M, b = fbias(f), Bb = fbias(w);
  BV ex = slice(a, m, ew), mn = slice(a, 0, m);
  int d = b - Bb;                      // exponent shift
  auto rnd = [&](const BV &keep, const BV &rest) {
    Edge g = rest.back(), st = any(slice(rest, 0, (int)rest.size() - 1));
    Edge inc = rtz ? F0 : B.And(g, B.Or(st, keep[0]));
    return addc(keep, cst(0, (int)keep.size()), inc);
  };
  // normal results
  BV e2 = trunc(addc(ex, cst((uint64_t)(int64_t)-d, ew), F0), EW);
  BV r = rnd(cat(slice(mn, m - M, M), e2), slice(mn, 0, m - M));
  BV inf = cat(cst(0, M), BV(EW, T1));
  Edge over = Bdd::Not(ult(ex, cst(d + (1 << EW) - 1, ew)));
  BV maxf = cat(BV(M, T1), BV(EW, T1)); maxf[M] = F0;
  r = ite(over, rtz ? maxf : inf, r);
  // subnormal results: exponents d .. d-M
  Edge low = Bdd::Not(ult(cst(d, ew), ex));
  BV sv = cst(0, w - 1);
  for (int e = d; e >= d - M && e >= 0; e--) {
    int sh = m - M + (d - e) + 1;      // bits dropped of 1.mn
    BV full = cat(mn, BV{e == 0 ? F0 : T1});
    BV keep = (int)full.size() > sh ? slice(full, sh, (int)full.size() - sh) : BV{F0};
    keep = zext(keep, w - 1);
    BV v = rnd(keep, slice(full, 0, std::min<int>(sh, (int)full.size())));
    sv = ite(eq(ex, cst(e, ew)), v, sv);
  }
  r = ite(low, sv, r);
  Edge special = all(ex);
  BV nan = cat(slice(mn, m - M, M), BV(EW, T1)); nan[M - 1] = T1;
  r = ite(special, ite(any(mn), nan, inf), r);
  r.push_back(a.back());
  return r;
}
Edge Core::fits(const BV &a, int w, bool sgn) {
  // trunc(a) representable in w bits
  int fw = (int)a.size();
  APFloat hi(sem(fw)), lo(sem(fw));
  APInt one(130, 1);
  auto st1 = hi.convertFromAPInt(sgn ? one.shl(w - 1) : one.shl(w), false, APFloat::rmTowardZero);
  Edge okhi, oklo; (void)st1;
  if (st1 & APFloat::opOverflow || hi.isInfinity() || st1 & APFloat::opInexact) okhi = Bdd::Not(B.Or(fnan(a), finf(a)));  // every finite value is below the limit
  else okhi = flt(a, fromF(hi, fw));
  if (sgn) {
    APInt l = -(one.shl(w - 1)) - 1;
    auto st = lo.convertFromAPInt(l, true, APFloat::rmTowardZero);
    if (lo.isInfinity() || st & APFloat::opOverflow) oklo = Bdd::Not(finf(a));
    else if (st & APFloat::opInexact) { // -2^(w-1) itself is representable, -2^(w-1)-1 is not
      APFloat q(sem(fw)); auto s2 = q.convertFromAPInt(-(one.shl(w - 1)), true, APFloat::rmTowardZero);
      if (s2 & (APFloat::opInexact | APFloat::opOverflow)) oklo = Bdd::Not(finf(a));
      else oklo = B.Or(flt(fromF(q, fw), a), feq(a, fromF(q, fw)));
    } else oklo = flt(fromF(lo, fw), a);
  } else oklo = flt(fromF(APFloat(sem(fw), "-1.0"), fw), a);
  return B.And(B.And(okhi, oklo), Bdd::Not(fnan(a)));
}
BV Core::fround(const char *mode, const BV &a) {
  std::string m = mode;
  if (exact || isConst(a)) return xround(m, a);
  int w = (int)a.size();
  if (m == "floor") { BV r = uf("rnd_floor", {a}, w - 1); r.push_back(a.back()); return r; }
  if (m == "ceil") { BV n = fneg(a); BV r = uf("rnd_floor", {n}, w - 1); r.push_back(a.back()); return r; }
  BV r = uf("rnd_" + m, {trunc(a, w - 1)}, w - 1); r.push_back(a.back()); return r;
}
BV Core::fpext(const BV &a, int w) {
  if ((int)a.size() == w) return a;
  if (exact || isConst(a)) return xfpext(a, w);
  int id = match(a);
  int w0 = (int)a.size();
  if (id >= 0) {
    if (ufs[id].op == "i2f" && (int)ufs[id].args[0].size() <= mant(w0) + 2 && w0 >= 32) return uf("i2f", {ufs[id].args[0]}, w);
    if (ufs[id].op == "fpext") return uf("fpext", {ufs[id].args[0]}, w);
  }
  return uf("fpext", {a}, w);
}
BV Core::fptrunc(const BV &a, int w, const char *rm) {
  bool rtz = std::string(rm) == "rtz";
  if (exact || isConst(a)) return xfptrunc(a, w, rtz);
  int id = match(a);
  if (id >= 0) {
    if (ufs[id].op == "fpext" && (int)ufs[id].args[0].size() == w) return ufs[id].args[0];
    if (ufs[id].op == "fpext" && (int)ufs[id].args[0].size() < w) return uf("fpext", {ufs[id].args[0]}, w);
    if (ufs[id].op == "i2f" && !rtz && (int)ufs[id].args[0].size() <= mant((int)a.size()) + 2) return uf("i2f", {ufs[id].args[0]}, w);
  }
  return uf(std::string("fptrunc") + rm, {a}, w);
}
BV Core::itofp(const BV &a, bool sgn, int w) {
  BV x = sgn ? a : cat(a, BV{F0});
  x = minimalSigned(x);
  if (exact || isConst(x)) return xi2f(x, w);
  return uf("i2f", {x}, w);
}
BV Core::fptoi(const BV &a0, int w, const char *mode) {
  BV a = a0; std::string m = mode;
  if (exact || isConst(a)) return xf2i(m == "trunc" ? a : xround(m, a), w);
  int id = match(a);
  if (id >= 0) {
    UF &u = ufs[id];
    if (u.op == "fpext") a = u.args[0];
    else if (u.op == "i2f" && (int)u.args[0].size() <= mant((int)a.size()) + 2) {
      BV x = u.args[0];
      return (int)x.size() >= w ? trunc(x, w) : sext(x, w);
    }
  }
  return trunc(uf("f2i_" + m, {a}, 66), w);
}
BV Core::fptoiIR(const BV &a, int w, bool sgn) {
  BV v = fptoi(a, w);
  Edge ok = fits(a, w, sgn);
  return ite(ok, v, freshV("poison", w));
}
BV Core::fptoiX86(const BV &a, int w, const char *mode) {   // integer indefinite when out of range
  BV v = fptoi(a, w, mode);
  Edge ok = fits(std::string(mode) == "trunc" ? a : fround(mode, a), w, true);
  BV ind = cst(0, w); ind.back() = T1;
  return ite(ok, v, ind);
}
BV Core::fptoiSat(const BV &a, int w, bool sgn, const char *mode) {
  BV v = fptoi(a, w, mode);
  Edge ok = fits(std::string(mode) == "trunc" ? a : fround(mode, a), w, sgn);
  BV lo = cst(0, w), hi(w, T1);
  if (sgn) { lo.back() = T1; hi.back() = F0; }
  return ite(fnan(a), cst(0, w), ite(ok, v, ite(a.back(), lo, hi)));
}

std::string Core::varStr(uint32_t v) {
  if (varUF[v] < 0) return varName[v] + "." + std::to_string(varBit[v]);
  UF &u = ufs[varUF[v]];
  std::string s = u.op + "(";
  for (size_t i = 0; i < u.args.size() && i < 3; i++) s += (i ? "," : "") + show(u.args[i]);
  return s + ")." + std::to_string(varBit[v]);
}
std::string Core::show(const BV &v) {
  if (isConst(v) && v.size() <= 64) { char b[40]; snprintf(b, sizeof b, "0x%llx", (unsigned long long)u64(v)); return b; }
  // a run of consecutive bits of one variable group
  std::string first, out; 
  bool plain = true; std::string name; int b0 = -1;
  for (size_t i = 0; i < v.size(); i++) {
    Edge e = v[i];
    if (e < 2 || B.lo(e) != F0 || B.hi(e) != T1) { plain = false; break; }
    uint32_t x = B.topvar(e);
    std::string nm = varUF[x] < 0 ? varName[x] : ("u" + std::to_string(varUF[x]));
    if (i == 0) { name = nm; b0 = varBit[x]; }
    else if (nm != name || varBit[x] != b0 + (int)i) { plain = false; break; }
  }
  if (plain && !v.empty()) {
    uint32_t x = B.topvar(v[0]);
    if (varUF[x] >= 0) {
      UF &u = ufs[varUF[x]];
      std::string s = u.op + "(";
      static int depth = 0;
      if (depth > 2) return u.op + "(..)";
      depth++;
      for (size_t i = 0; i < u.args.size() && i < 4; i++) s += (i ? ", " : "") + show(u.args[i]);
      depth--;
      s += ")";
      if (b0 != 0 || (int)v.size() != u.width) s += "[" + std::to_string(b0) + ".." + std::to_string(b0 + v.size() - 1) + "]";
      return s;
    }
    return name + (b0 ? "[" + std::to_string(b0) + ".." + std::to_string(b0 + v.size() - 1) + "]" : "");
  }
  std::vector<uint32_t> vars; std::vector<Edge> es(v.begin(), v.end());
  supportOf(es, vars);
  std::set<std::string> names;
  for (uint32_t x : vars) { names.insert(varUF[x] < 0 ? varName[x] : ufs[varUF[x]].op + "#" + std::to_string(varUF[x])); if (names.size() > 5) break; }
  std::string s = "f{"; bool f = true;
  for (auto &n : names) { s += (f ? "" : ",") + n; f = false; }
  return s + "}";
}
void Core::supportOf(const std::vector<Edge> &es, std::vector<uint32_t> &vars) {
  std::vector<char> seen, vseen;
  for (Edge e : es) B.support(e, seen, vars, vseen);
}
bool Core::opaqueSupport(const std::vector<Edge> &es, bool deep) {
  std::set<int> done; std::vector<Edge> work = es;
  while (!work.empty()) {
    std::vector<uint32_t> vars; supportOf(work, vars); work.clear();
    for (uint32_t v : vars) {
      int u = varUF[v];
      if (u < 0 || !done.insert(u).second) continue;
      if (ufs[u].opaque) return true;
      if (deep) for (auto &a : ufs[u].args) work.insert(work.end(), a.begin(), a.end());
    }
  }
  return false;
}

Edge Core::cofactor(Edge e, uint32_t var, bool val) {
  std::unordered_map<Edge, Edge> memo;
  uint64_t k = B.vkey[var];
  std::function<Edge(Edge)> go = [&](Edge x) -> Edge {
    if (x < 2) return x;
    uint32_t v = B.topvar(x);
    if (v == var) return val ? B.hi(x) : B.lo(x);
    if (B.vkey[v] > k) return x;
    Edge c = x & 1; x &= ~1u;
    auto it = memo.find(x); if (it != memo.end()) return it->second ^ c;
    Edge l = go(B.lo(x)), h = go(B.hi(x));
    Edge r = B.Ite(B.var((int)v), h, l);
    memo[x] = r; return r ^ c;
  };
  return go(e);
}

// generalised cofactor: depends only on the values of f where c holds
Edge Core::constrain(Edge f, Edge c) {
  if (c == F0) return F0;
  std::map<std::pair<Edge, Edge>, Edge> memo;
  std::function<Edge(Edge, Edge)> go = [&](Edge f, Edge c) -> Edge {
    if (c == T1 || f < 2) return f;
    auto k = std::make_pair(f, c); auto it = memo.find(k); if (it != memo.end()) return it->second;
    uint64_t kf = B.vkey[B.topvar(f)], kc = B.vkey[B.topvar(c)];
    uint32_t v = kc <= kf ? B.topvar(c) : B.topvar(f);
    Edge f0 = kf <= kc ? B.lo(f) : f, f1 = kf <= kc ? B.hi(f) : f, c0 = kc <= kf ? B.lo(c) : c, c1 = kc <= kf ? B.hi(c) : c, r;
    if (c0 == F0) r = go(f1, c1);
    else if (c1 == F0) r = go(f0, c0);
    else { Edge h = go(f1, c1), l = go(f0, c0); r = h == l ? h : B.Ite(B.var(v), h, l); }
    return memo[k] = r;
  };
  return go(f, c);
}
