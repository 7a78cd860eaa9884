#include "interp.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/CFG.h>
#include <llvm/ADT/PostOrderIterator.h>
#include <llvm/Support/raw_ostream.h>
using namespace llvm;

void Interp::reset() {
  objs.clear(); log.clear(); gobj.clear(); fobj.clear(); extCalls.clear(); aborts.clear(); addrOf.clear(); instrs = 0; depth = 0; unknown.clear();
  objs.push_back(Obj()); objs[0].name = "null"; objs[0].size = 0;
}
int Interp::newObj(const std::string &name, int64_t size) {
  Obj o; o.name = name; o.size = size;
  if (size > (1 << 22)) throw Unsupported("object too large");
  if (size > 0) o.m.resize(size);
  objs.push_back(o);
  return (int)objs.size() - 1;
}
// ---- types
void Interp::leafTypes(Type *T, std::vector<Type *> &out) {
  if (auto *S = dyn_cast<StructType>(T)) { for (auto *E : S->elements()) leafTypes(E, out); return; }
  if (auto *A = dyn_cast<ArrayType>(T)) { for (uint64_t i = 0; i < A->getNumElements(); i++) leafTypes(A->getElementType(), out); return; }
  if (auto *V = dyn_cast<VectorType>(T)) { unsigned n = V->getElementCount().getKnownMinValue() * (V->isScalableTy() ? vscale : 1); for (unsigned i = 0; i < n; i++) out.push_back(V->getElementType()); return; }
  out.push_back(T);
}
unsigned Interp::count(Type *T) {
  if (auto *S = dyn_cast<StructType>(T)) { unsigned n = 0; for (auto *E : S->elements()) n += count(E); return n; }
  if (auto *A = dyn_cast<ArrayType>(T)) return A->getNumElements() * count(A->getElementType());
  if (auto *V = dyn_cast<VectorType>(T)) return V->getElementCount().getKnownMinValue() * (V->isScalableTy() ? vscale : 1);
  if (T->isVoidTy()) return 0;
  return 1;
}
unsigned Interp::width(Type *T) {
  T = T->getScalarType();
  if (T->isPointerTy()) return 64;
  if (T->isIntegerTy()) return T->getIntegerBitWidth();
  if (T->isHalfTy() || T->isBFloatTy()) return 16;
  if (T->isFloatTy()) return 32;
  if (T->isDoubleTy()) return 64;
  if (T->isX86_FP80Ty()) return 80;
  std::string s; raw_string_ostream os(s); T->print(os);
  throw Unsupported("type " + s);
}
int64_t Interp::allocSize(Type *T) { TypeSize s = DL->getTypeAllocSize(T); return (int64_t)s.getKnownMinValue() * (s.isScalable() ? vscale : 1); }
int64_t Interp::storeSize(Type *T) { TypeSize s = DL->getTypeStoreSize(T); int64_t v = (int64_t)s.getKnownMinValue() * (s.isScalable() ? vscale : 1);
  if (s.isScalable()) if (auto *V = dyn_cast<VectorType>(T)) { if (V->getElementType()->isIntegerTy(1)) return ((int64_t)count(T) + 7) / 8; }
  return v; }

Val Interp::undef(Type *T, const char *why) {
  Val r; std::vector<Type *> l; leafTypes(T, l);
  for (auto *t : l) { if (t->isPointerTy()) { Elem e; e.b = Core::cst(0, 64); e.obj = OBJ_MIXED; r.e.push_back(e); } else r.add(C.freshV(why, width(t))); }
  return r;
}
Val Interp::constant(const Constant *K) {
  Type *T = K->getType();
  if (auto *I = dyn_cast<ConstantInt>(K)) {
    const APInt &a = I->getValue(); std::vector<uint64_t> w(a.getRawData(), a.getRawData() + a.getNumWords());
    BV v = Core::cstAP(w, a.getBitWidth());
    if (T->isVectorTy()) { Val r; for (unsigned i = 0; i < count(T); i++) r.add(v); return r; }
    return Val(v);
  }
  if (auto *F = dyn_cast<ConstantFP>(K)) { APInt a = F->getValueAPF().bitcastToAPInt(); std::vector<uint64_t> w(a.getRawData(), a.getRawData() + a.getNumWords()); return Val(Core::cstAP(w, a.getBitWidth())); }
  if (isa<UndefValue>(K)) return undef(T, isa<PoisonValue>(K) ? "poison" : "undef");
  if (isa<ConstantPointerNull>(K)) { Val r; Elem e; e.b = Core::cst(0, 64); e.obj = OBJ_NULL; r.e.push_back(e); return r; }
  if (isa<ConstantAggregateZero>(K)) {
    Val r; std::vector<Type *> l; leafTypes(T, l);
    for (auto *t : l) { Elem e; e.b = Core::cst(0, width(t)); if (t->isPointerTy()) e.obj = OBJ_NULL; r.e.push_back(e); }
    return r;
  }
  if (auto *D = dyn_cast<ConstantDataSequential>(K)) {
    Val r; for (unsigned i = 0; i < D->getNumElements(); i++) { Val v = constant(D->getElementAsConstant(i)); r.e.push_back(v.e[0]); } return r;
  }
  if (auto *A = dyn_cast<ConstantAggregate>(K)) {
    Val r; for (unsigned i = 0; i < A->getNumOperands(); i++) { Val v = constant(A->getOperand(i)); r.e.insert(r.e.end(), v.e.begin(), v.e.end()); } return r;
  }
  if (auto *G = dyn_cast<GlobalVariable>(K)) {
    auto it = gobj.find(G); int id;
    if (it != gobj.end()) id = it->second;
    else {
      id = newObj("@" + G->getName().str(), allocSize(G->getValueType()));
      gobj[G] = id; objs[id].gv = G; objs[id].readonly = G->isConstant();
      if (G->hasInitializer() ) {
        if (!G->isConstant()) throw Unsupported("mutable global " + G->getName().str());
        Elem p; p.obj = id; p.b = Core::cst(0, 64);
        Val v = constant(G->getInitializer());
        bool ro = objs[id].readonly; objs[id].readonly = false;
        storeVal(p, v, G->getValueType(), T1, 1, nullptr);
        objs[id].readonly = ro;
      } else if (!events) throw Unsupported("external global " + G->getName().str());
    }
    Val r; Elem e; e.obj = id; e.b = Core::cst(0, 64); r.e.push_back(e); return r;
  }
  if (auto *F = dyn_cast<Function>(K)) {
    auto it = fobj.find(F); int id;
    if (it != fobj.end()) id = it->second; else { id = newObj("&" + F->getName().str(), 0); objs[id].fn = F; fobj[F] = id; }
    Val r; Elem e; e.obj = id; e.b = Core::cst(0, 64); r.e.push_back(e); return r;
  }
  if (auto *CE = dyn_cast<ConstantExpr>(K)) {
    if (CE->getOpcode() == Instruction::GetElementPtr) {
      APInt off(64, 0);
      if (cast<GEPOperator>(CE)->accumulateConstantOffset(*DL, off)) {
        Val b = constant(CE->getOperand(0)); Val r; r.e.push_back(gep(b.e[0], Core::cst(off.getZExtValue(), 64))); return r;
      }
    }
    if (CE->getOpcode() == Instruction::BitCast || CE->getOpcode() == Instruction::AddrSpaceCast) {
      Val v = constant(CE->getOperand(0));
      if (T->isPointerTy()) return v;
      return unflat(flat(v), T);
    }
    if (CE->getOpcode() == Instruction::PtrToInt) { Val v = constant(CE->getOperand(0)); BV b = ptrBits(v.e[0]); unsigned w = width(T); return Val(w <= 64 ? Core::trunc(b, w) : Core::zext(b, w)); }
    // splat of scalable vectors: shufflevector(insertelement(undef, x, 0), undef, zero)
    if (CE->getOpcode() == Instruction::ShuffleVector) {
      Val v = constant(CE->getOperand(0)); Val r; for (unsigned i = 0; i < count(T); i++) r.e.push_back(v.e[0]); return r;
    }
    if (CE->getOpcode() == Instruction::InsertElement) {
      Val v = constant(CE->getOperand(0)), x = constant(CE->getOperand(1)); auto *ix = dyn_cast<ConstantInt>(CE->getOperand(2));
      if (ix) { v.e[ix->getZExtValue()] = x.e[0]; return v; }
    }
  }
  std::string s; raw_string_ostream os(s); K->print(os);
  throw Unsupported("constant " + s.substr(0, 100));
}
Elem Interp::iteE(Edge c, const Elem &a, const Elem &b) {
  if (c == T1) return a;
  if (c == F0) return b;
  if (a.obj != b.obj) {
    if (events && (a.obj == OBJ_EXT || b.obj == OBJ_EXT || a.obj == OBJ_NULL || b.obj == OBJ_NULL) && a.obj != OBJ_MIXED && b.obj != OBJ_MIXED && a.obj != OBJ_ALT && b.obj != OBJ_ALT) { Elem e; e.obj = OBJ_EXT; e.b = C.ite(c, ptrBits(a), ptrBits(b)); return e; }
    if (a.obj == OBJ_MIXED && a.b.size() == 64 && b.obj >= 0) return b;   // poison pointer
    if ((a.obj >= 0 || a.obj == OBJ_ALT) && (b.obj >= 0 || b.obj == OBJ_ALT)) return altPtr(c, a, b);
    Elem e; e.obj = OBJ_MIXED; e.b = C.freshV("mixedptr", 64); return e;
  }
  if (a.obj == OBJ_ALT) return altPtr(c, a, b);
  Elem e; e.obj = a.obj; e.b = C.ite(c, a.b, b.b); return e;
}
Elem Interp::altPtr(Edge c, const Elem &a, const Elem &b) {
  Elem e; e.obj = OBJ_ALT; e.b = Core::cst(0, 64); e.alt = std::make_shared<std::vector<std::pair<Edge, Elem>>>();
  auto put = [&](Edge g, const Elem &x) {
    if (g == F0) return;
    for (auto &q : *e.alt) if (q.second.obj == x.obj) { q.second.b = C.ite(g, x.b, q.second.b); q.first = C.B.Or(q.first, g); return; }
    e.alt->push_back({g, x});
  };
  auto all = [&](Edge g, const Elem &x) { if (x.obj == OBJ_ALT) for (auto &q : *x.alt) put(C.B.And(g, q.first), q.second); else put(g, x); };
  all(c, a); all(Bdd::Not(c), b);
  return e;
}
Val Interp::iteVal(Edge c, const Val &a, const Val &b) { if (c == T1) return a; if (c == F0) return b; Val r; for (size_t i = 0; i < a.size(); i++) r.e.push_back(iteE(c, a.e[i], b.e[i])); return r; }
BV Interp::ptrBits(const Elem &p) {
  if (p.obj == OBJ_ALT) { BV r; for (auto &q : *p.alt) { BV x = ptrBits(q.second); r = r.empty() ? x : C.ite(q.first, x, r); } addrOf[r] = p; return r; }
  if (p.obj < 0 && p.obj != OBJ_MIXED) return p.b;   // includes OBJ_EXT
  if (p.obj == OBJ_MIXED) throw Unsupported("address of a merged pointer");
  if (p.obj == OBJ_NULL) return p.b;
  BV base = C.uf("addr", {Core::cst(p.obj, 32)}, 64);
  int al = objs[p.obj].user ? 0 : 6;
  for (int i = 0; i < al; i++) base[i] = F0;
  BV r = C.add(base, p.b);
  addrOf[r] = p;
  return r;
}
BV Interp::flat(const Val &v) { BV r; for (auto &e : v.e) { if (e.obj != -1) { BV x = ptrBits(e); r.insert(r.end(), x.begin(), x.end()); } else r.insert(r.end(), e.b.begin(), e.b.end()); } return r; }
Val Interp::unflat(const BV &v, Type *T) {
  Val r; std::vector<Type *> l; leafTypes(T, l); size_t o = 0;
  for (auto *t : l) { unsigned w = width(t); if (o + w > v.size()) throw Unsupported("bitcast size"); r.add(Core::slice(v, (int)o, w)); o += w; }
  return r;
}
// ---- memory
Elem Interp::gep(const Elem &p, const BV &off) {
  if (p.obj == OBJ_MIXED) { Elem e = p; return e; }
  if (p.obj == OBJ_ALT) { Elem e = p; e.alt = std::make_shared<std::vector<std::pair<Edge, Elem>>>(); for (auto &q : *p.alt) e.alt->push_back({q.first, gep(q.second, off)}); return e; }
  if (p.obj == -1) throw Unsupported("gep on integer");
  if (p.obj == OBJ_EXT) { Elem e; e.obj = OBJ_EXT; e.b = C.add(p.b, off); return e; }
  if (events && p.obj == OBJ_NULL && !Core::isConst(off)) { Elem e; e.obj = OBJ_EXT; e.b = C.add(p.b, off); return e; }
  Elem e; e.obj = p.obj; e.b = C.add(p.b, off); return e;
}
MB Interp::readByte(int obj, int64_t off) {
  Obj &o = objs[obj];
  if (o.user) {
    auto it = o.um.find(off);
    if (it != o.um.end()) return it->second;
    int64_t base = off >= 0 ? off - off % o.elem : off - ((off % o.elem + o.elem) % o.elem);
    BV v = C.uf(o.rd, {Core::cst((uint64_t)base, 64)}, o.elem * 8);
    MB m; m.st = 1; for (int i = 0; i < 8; i++) m.b[i] = v[(off - base) * 8 + i];
    return m;
  }
  if (off < 0 || off >= o.size) throw Unsupported("out-of-bounds read of " + o.name);
  return o.m[off];
}
void Interp::writeByte(int obj, int64_t off, const MB &v0, Edge cond) {
  Obj &o = objs[obj];
  if (o.readonly) throw Unsupported("store to constant " + o.name);
  MB v = v0;
  if (!o.user && (off < 0 || off >= o.size)) throw Unsupported("out-of-bounds write of " + o.name);
  if (cond != T1) {
    MB old = readByte(obj, off);
    if (old.st == 0 && v.st == 1) { for (int i = 0; i < 8; i++) v.b[i] = C.B.Ite(cond, v.b[i], C.fresh("uninit", i)); }
    else if (old.st == 1 && v.st == 1) { for (int i = 0; i < 8; i++) v.b[i] = C.B.Ite(cond, v.b[i], old.b[i]); }
    else if (old.st == 2 && v.st == 2 && old.obj == v.obj && old.idx == v.idx) { v.off = std::make_shared<BV>(C.ite(cond, *v.off, *old.off)); }
    else if (old.st == 0) {}
    else throw Unsupported("conditional store of a pointer");
  }
  if (o.user) { o.um[off] = v; auto it = o.written.find(off); if (it == o.written.end()) o.written[off] = cond; else it->second = C.B.Or(it->second, cond); }
  else o.m[off] = v;
}
void Interp::logAccess(const Elem &p, int64_t size, Edge cond, uint64_t align, bool store, const Instruction *I) {
  if (p.obj < 0 || !objs[p.obj].user || size == 0) return;
  log.push_back(Access{p.obj, p.b, size, cond, align, store, I});
}
BV Interp::loadBits(const Elem &p, int64_t bytes, Edge cond, uint64_t align, const Instruction *I) {
  if (p.obj == OBJ_ALT) {
    BV r; bool first = true;
    for (auto &q : *p.alt) { Edge g = C.B.And(cond, q.first); if (g == F0) continue; BV v = loadBits(q.second, bytes, g, align, I); r = first ? v : C.ite(q.first, v, r); first = false; }
    if (first) r = C.freshV("dead", (int)bytes * 8);
    return r;
  }
  if (p.obj == OBJ_EXT) return C.uf("er:load", {C.constrain(token, cond), C.constrain(p.b, cond)}, (int)bytes * 8);
  if (p.obj == OBJ_MIXED || p.obj == -1) throw Unsupported("load through an unknown pointer");
  if (p.obj == OBJ_NULL) { if (cond == F0) return C.freshV("dead", (int)bytes * 8); throw Unsupported("load through null"); }
  logAccess(p, bytes, cond, align, false, I);
  BV r; r.reserve(bytes * 8);
  Obj &o = objs[p.obj];
  if (Core::isConst(p.b)) {
    int64_t off = Core::s64(p.b);
    if (!o.ss.empty()) throw Unsupported("load after symbolic store");
    for (int64_t k = 0; k < bytes; k++) {
      MB m = readByte(p.obj, off + k);
      if (m.st == 0) { for (int i = 0; i < 8; i++) r.push_back(C.fresh("uninit", i)); }
      else if (m.st == 2) {
        Elem q; q.obj = m.obj; q.b = *m.off; BV b = ptrBits(q); for (int i = 0; i < 8; i++) r.push_back(b[m.idx * 8 + i]);
      } else for (int i = 0; i < 8; i++) r.push_back(m.b[i]);
    }
    return r;
  }
  if (o.user) {
    if (!o.ss.empty() || !o.written.empty()) throw Unsupported("symbolic load after store");
    // element-granular reads
    int lg = 0; while ((1 << lg) < o.elem) lg++;
    bool al = (1 << lg) == o.elem; for (int i = 0; i < lg && al; i++) if (p.b[i] > 1) al = false;
    if (!al) throw Unsupported("unaligned symbolic load");
    BV base = p.b; int64_t sub = 0; for (int i = 0; i < lg; i++) { if (base[i] == T1) sub |= 1 << i; base[i] = F0; }
    for (int64_t k = 0; k < bytes;) {
      BV v = C.uf(o.rd, {base}, o.elem * 8);
      for (; sub < o.elem && k < bytes; sub++, k++) for (int i = 0; i < 8; i++) r.push_back(v[sub * 8 + i]);
      sub = 0; if (k < bytes) base = C.add(base, Core::cst(o.elem, 64));
    }
    return r;
  }
  if (o.size > 4096) throw Unsupported("symbolic offset in a large object");
  int tz = 0; while (tz < 12 && p.b[tz] == F0) tz++;
  bool any = false;
  for (int64_t off = 0; off + bytes <= o.size; off += (1ll << tz)) {
    Edge c = C.eq(p.b, Core::cst((uint64_t)off, 64));
    if (c == F0) continue;
    BV v; for (int64_t k = 0; k < bytes; k++) { MB m = readByte(p.obj, off + k); if (m.st == 2) throw Unsupported("pointer table"); for (int i = 0; i < 8; i++) v.push_back(m.st ? m.b[i] : C.fresh("uninit", i)); }
    r = any ? C.ite(c, v, r) : v; any = true;
  }
  if (!any) r = C.freshV("oob", (int)bytes * 8);
  return r;
}
void Interp::storeBits(const Elem &p, const BV &v, Edge cond, uint64_t align, const Instruction *I) {
  if (cond == F0) return;
  if (p.obj == OBJ_ALT) { for (auto &q : *p.alt) { Edge g = C.B.And(cond, q.first); if (g != F0) storeBits(q.second, v, g, align, I); } return; }
  if (p.obj == OBJ_EXT) { event("store" + std::to_string(v.size()), {p.b, v}, cond); return; }
  if (p.obj == OBJ_MIXED || p.obj == -1) throw Unsupported("store through an unknown pointer");
  if (p.obj == OBJ_NULL) throw Unsupported("store through null");
  int64_t bytes = (int64_t)v.size() / 8;
  logAccess(p, bytes, cond, align, true, I);
  Obj &o = objs[p.obj];
  if (Core::isConst(p.b)) {
    if (!o.ss.empty() && !o.user) throw Unsupported("store after symbolic store");
    int64_t off = Core::s64(p.b);
    for (int64_t k = 0; k < bytes; k++) { MB m; m.st = 1; for (int i = 0; i < 8; i++) m.b[i] = v[k * 8 + i]; writeByte(p.obj, off + k, m, cond); }
    return;
  }
  if (o.user) {
    for (int64_t k = 0; k < bytes; k++) { MB m; m.st = 1; for (int i = 0; i < 8; i++) m.b[i] = v[k * 8 + i]; o.ss.push_back(SymStore{k ? C.add(p.b, Core::cst(k, 64)) : p.b, cond, m}); }
    return;
  }
  if (o.size > 1024) throw Unsupported("symbolic store in a large object");
  int tz = 0; while (tz < 12 && p.b[tz] == F0) tz++;
  for (int64_t off = 0; off + bytes <= o.size; off += (1ll << tz)) {
    Edge c = C.B.And(cond, C.eq(p.b, Core::cst((uint64_t)off, 64)));
    if (c == F0) continue;
    for (int64_t k = 0; k < bytes; k++) { MB m; m.st = 1; for (int i = 0; i < 8; i++) m.b[i] = v[k * 8 + i]; writeByte(p.obj, off + k, m, c); }
  }
}
Val Interp::loadVal(const Elem &p, Type *T, Edge cond, uint64_t align, const Instruction *I) {
  if (auto *S = dyn_cast<StructType>(T)) {
    Val r; auto *SL = S->isScalableTy() ? nullptr : DL->getStructLayout(S); int64_t so = 0;
    for (unsigned i = 0; i < S->getNumElements(); i++) {
      int64_t o = SL ? (int64_t)SL->getElementOffset(i).getKnownMinValue() : so;
      Val v = loadVal(gep(p, Core::cst(o, 64)), S->getElementType(i), cond, i ? 1 : align, I); r.e.insert(r.e.end(), v.e.begin(), v.e.end());
      so += allocSize(S->getElementType(i));
    }
    return r;
  }
  if (auto *A = dyn_cast<ArrayType>(T)) {
    Val r; int64_t s = allocSize(A->getElementType());
    for (uint64_t i = 0; i < A->getNumElements(); i++) { Val v = loadVal(gep(p, Core::cst(i * s, 64)), A->getElementType(), cond, i ? 1 : align, I); r.e.insert(r.e.end(), v.e.begin(), v.e.end()); }
    return r;
  }
  if (T->isPointerTy()) {
    if (p.obj > 0 && Core::isConst(p.b) && !objs[p.obj].user) {
      int64_t off = Core::s64(p.b); int PS = (int)DL->getPointerSize();
      MB m = readByte(p.obj, off);
      if (m.st == 2 && m.idx == 0) {
        bool ok = true; for (int k = 1; k < PS; k++) { MB q = readByte(p.obj, off + k); if (q.st != 2 || q.obj != m.obj || q.idx != k) ok = false; }
        if (ok) { Val r; Elem e; e.obj = m.obj; e.b = *m.off; r.e.push_back(e); return r; }
      }
    }
    BV b = Core::zext(loadBits(p, DL->getPointerSize(), cond, align, I), 64);
    Val r; Elem e;
    auto it = addrOf.find(b);
    if (it != addrOf.end()) e = it->second;
    else if (Core::isConst(b) && Core::u64(b) == 0) { e.obj = OBJ_NULL; e.b = b; }
    else { e.obj = events ? OBJ_EXT : OBJ_MIXED; e.b = b; }
    r.e.push_back(e); return r;
  }
  int64_t bytes = storeSize(T);
  BV b = loadBits(p, bytes, cond, align, I);
  unsigned need = count(T) * width(T);
  if (b.size() > need) b.resize(need);
  if (T->isVectorTy() && T->getScalarType()->isPointerTy()) throw Unsupported("vector of pointers load");
  return unflat(b, T);
}
void Interp::storeVal(const Elem &p, const Val &v, Type *T, Edge cond, uint64_t align, const Instruction *I) {
  if (auto *S = dyn_cast<StructType>(T)) {
    unsigned k = 0; auto *SL = S->isScalableTy() ? nullptr : DL->getStructLayout(S); int64_t so = 0;
    for (unsigned i = 0; i < S->getNumElements(); i++) {
      Val x; unsigned n = count(S->getElementType(i)); for (unsigned j = 0; j < n; j++) x.e.push_back(v.e[k++]);
      int64_t o = SL ? (int64_t)SL->getElementOffset(i).getKnownMinValue() : so;
      storeVal(gep(p, Core::cst(o, 64)), x, S->getElementType(i), cond, i ? 1 : align, I);
      so += allocSize(S->getElementType(i));
    }
    return;
  }
  if (auto *A = dyn_cast<ArrayType>(T)) {
    unsigned k = 0; int64_t s = allocSize(A->getElementType()); unsigned n = count(A->getElementType());
    for (uint64_t i = 0; i < A->getNumElements(); i++) { Val x; for (unsigned j = 0; j < n; j++) x.e.push_back(v.e[k++]); storeVal(gep(p, Core::cst(i * s, 64)), x, A->getElementType(), cond, i ? 1 : align, I); }
    return;
  }
  if (T->isPointerTy() && v.e[0].obj != -1 && v.e[0].obj != OBJ_EXT && !(events && (v.e[0].obj == OBJ_NULL || p.obj == OBJ_EXT))) {
    if (cond == F0) return;
    if (p.obj <= 0 || !Core::isConst(p.b)) throw Unsupported("pointer stored through an unknown pointer");
    if (v.e[0].obj == OBJ_MIXED || v.e[0].obj == OBJ_ALT) throw Unsupported("merged pointer stored");
    int64_t off = Core::s64(p.b); auto sp = std::make_shared<BV>(v.e[0].b);
    int PS = (int)DL->getPointerSize();
    logAccess(p, PS, cond, align, true, I);
    for (int k = 0; k < PS; k++) { MB m; m.st = 2; m.obj = v.e[0].obj; m.idx = k; m.off = sp; writeByte(p.obj, off + k, m, cond); }
    return;
  }
  BV b = flat(v);
  int64_t bytes = storeSize(T);
  b.resize(bytes * 8, F0);
  storeBits(p, b, cond, align, I);
}

// ---- control flow
namespace {
// contiguous SVE accesses need the alignment of an element only; LLVM writes the ABI's on the loads it makes of them
uint64_t vecAlign(Interp &I, Type *T, uint64_t a) { return isa<ScalableVectorType>(T) && !T->getScalarType()->isIntegerTy(1) ? std::min<uint64_t>(a, I.width(T) / 8) : a; }
struct Frame {
  Interp &I; Core &C; const Function *F;
  std::map<const Value *, Val> env;
  struct In { Edge cond; std::vector<Val> phis; };
  std::map<const BasicBlock *, std::vector<In>> in;
  std::vector<std::pair<Edge, Val>> rets;
  std::map<const Value *, int> allocas;
  LoopInfo &LI;
  std::vector<const BasicBlock *> rpo;
  std::map<const BasicBlock *, int> rpoIdx;

  Frame(Interp &i, const Function *f, LoopInfo &li) : I(i), C(i.C), F(f), LI(li) {
    ReversePostOrderTraversal<const Function *> R(f);
    for (auto *B : R) { rpoIdx[B] = (int)rpo.size(); rpo.push_back(B); }
  }
  Val val(const Value *V) {
    if (auto *K = dyn_cast<Constant>(V)) return I.constant(K);
    auto it = env.find(V);
    if (it == env.end()) { if (V->getType()->isMetadataTy()) return Val(); throw Unsupported("use of an undefined value"); }
    return it->second;
  }
  void edge(const BasicBlock *from, const BasicBlock *to, Edge c) {
    if (c == F0) return;
    In x; x.cond = c;
    for (auto &P : to->phis()) x.phis.push_back(val(P.getIncomingValueForBlock(from)));
    in[to].push_back(std::move(x));
  }
  // run the blocks of loop L (or of the whole function) that are not in deeper loops, those being run recursively
  void region(const Loop *L, const BasicBlock *header) {
    for (auto *B : rpo) {
      const Loop *bl = LI.getLoopFor(B);
      if (L && !L->contains(B)) continue;
      if (bl == L) { block(B); continue; }
      // B belongs to a deeper loop; run it when B is the header of the loop directly inside L
      const Loop *x = bl; while (x && x->getParentLoop() != L) x = x->getParentLoop();
      if (x && x->getHeader() == B) loop(x);
    }
    (void)header;
  }
  std::vector<uint64_t> state(const BasicBlock *H, const std::vector<In> &v) {
    std::vector<uint64_t> r;
    Edge c = F0; for (auto &x : v) c = C.B.Or(c, x.cond);
    r.push_back(c);
    for (size_t k = 0; k < (v.empty() ? 0 : v[0].phis.size()); k++) {
      Val m = v.back().phis[k];
      for (int i = (int)v.size() - 2; i >= 0; i--) m = I.iteVal(v[i].cond, v[i].phis[k], m);
      for (auto &e : m.e) { r.push_back((uint64_t)(int64_t)e.obj); if (e.obj < -1) r.push_back((uint64_t)(uintptr_t)e.alt.get()); for (Edge b : e.b) r.push_back(b); }
    }
    auto mb = [&](const MB &b) { r.push_back(b.st); for (Edge x : b.b) r.push_back(b.st == 1 ? x : 0); r.push_back((uint64_t)(int64_t)b.obj); r.push_back((uint64_t)b.idx); if (b.off) for (Edge x : *b.off) r.push_back(x); };
    for (auto &o : I.objs) {
      for (auto &b : o.m) mb(b);
      for (auto &kv : o.um) { r.push_back((uint64_t)kv.first); mb(kv.second); }
      for (auto &kv : o.written) { r.push_back((uint64_t)kv.first); r.push_back(kv.second); }
      r.push_back(o.ss.size());
    }
    for (Edge b : I.token) r.push_back(b);
    return r;
  }
  void loop(const Loop *L) {
    const BasicBlock *H = L->getHeader();
    int it = 0;
    std::vector<uint64_t> before;
    while (true) {
      auto f = in.find(H);
      if (f == in.end() || f->second.empty()) break;
      if (++it > 20000) throw Unsupported("loop bound");
      // two iterations in the same state: whoever is still in the loop never leaves it
      if (it > 60 && (it & (it - 1)) == 0) before = state(H, f->second);
      else if (it > 60 && !before.empty()) { if (state(H, f->second) == before) { Edge c = F0; for (auto &x : f->second) c = C.B.Or(c, x.cond); throw Diverges(c); } before.clear(); }
      region(L, H);
    }
  }
  void block(const BasicBlock *B);
  Val runInstr(const Instruction &X, Edge cond);
};
}
static std::string locOf(const Instruction *I) {
  if (!I) return "?";
  if (const DebugLoc &d = I->getDebugLoc()) {
    std::string s = d->getFilename().str() + ":" + std::to_string(d->getLine());
    if (auto *sp = d->getScope()->getSubprogram()) s += " (" + sp->getName().str() + ")";
    return s;
  }
  return I->getFunction()->getName().str();
}
void Frame::block(const BasicBlock *B) {
  Edge cond;
  if (B == &F->getEntryBlock()) { auto it = in.find(B); if (it == in.end()) return; cond = it->second[0].cond; in.erase(B); }
  else {
    auto it = in.find(B);
    if (it == in.end() || it->second.empty()) return;
    std::vector<In> v = std::move(it->second); in.erase(B);
    cond = F0; for (auto &x : v) cond = C.B.Or(cond, x.cond);
    size_t k = 0;
    for (auto &P : B->phis()) {
      Val r = v.back().phis[k];
      for (int i = (int)v.size() - 2; i >= 0; i--) r = I.iteVal(v[i].cond, v[i].phis[k], r);
      env[&P] = r; k++;
    }
  }
  for (auto &X : *B) {
    if (isa<PHINode>(X)) continue;
    if (++I.instrs > I.maxInstrs) throw Unsupported("instruction budget");
    if (X.isTerminator()) {
      if (auto *R = dyn_cast<ReturnInst>(&X)) { rets.push_back({cond, R->getReturnValue() ? val(R->getReturnValue()) : Val()}); return; }
      if (auto *Br = dyn_cast<BranchInst>(&X)) {
        if (Br->isUnconditional()) { edge(B, Br->getSuccessor(0), cond); return; }
        Edge c = val(Br->getCondition()).b()[0];
        if (Br->getSuccessor(0) == Br->getSuccessor(1)) { edge(B, Br->getSuccessor(0), cond); return; }
        edge(B, Br->getSuccessor(0), C.B.And(cond, c)); edge(B, Br->getSuccessor(1), C.B.And(cond, Bdd::Not(c))); return;
      }
      if (auto *S = dyn_cast<SwitchInst>(&X)) {
        BV v = val(S->getCondition()).b(); Edge rest = cond;
        std::map<const BasicBlock *, Edge> to; std::vector<const BasicBlock *> order;
        for (auto &cs : S->cases()) {
          Edge e = C.B.And(rest, C.eq(v, I.constant(cs.getCaseValue()).b()));
          rest = C.B.And(rest, Bdd::Not(e));
          if (!to.count(cs.getCaseSuccessor())) { to[cs.getCaseSuccessor()] = e; order.push_back(cs.getCaseSuccessor()); }
          else to[cs.getCaseSuccessor()] = C.B.Or(to[cs.getCaseSuccessor()], e);
        }
        if (!to.count(S->getDefaultDest())) { to[S->getDefaultDest()] = rest; order.push_back(S->getDefaultDest()); } else to[S->getDefaultDest()] = C.B.Or(to[S->getDefaultDest()], rest);
        for (auto *d : order) edge(B, d, to[d]);
        return;
      }
      if (isa<UnreachableInst>(X)) return;
      if (auto *IV = dyn_cast<InvokeInst>(&X)) {
        I.returned = cond; I.doCall(IV, env, cond); edge(B, IV->getNormalDest(), I.events ? I.returned : cond); return;
      }
      if (isa<ResumeInst>(X)) return;
      throw Unsupported(std::string("terminator ") + X.getOpcodeName());
    }
    if (auto *CB = dyn_cast<CallBase>(&X)) {
      for (unsigned i = 0; i < CB->arg_size(); i++) { const Value *a = CB->getArgOperand(i); if (!env.count(a)) if (auto *K = dyn_cast<Constant>(a)) { (void)K; } }
      I.returned = cond; I.doCall(CB, env, cond);
      if (I.events) { cond = I.returned; if (cond == F0) return; }
      continue;
    }
    Val r = runInstr(X, cond);
    if (!X.getType()->isVoidTy()) env[&X] = std::move(r);
  }
}
Val Frame::runInstr(const Instruction &X, Edge cond) {
  Type *T = X.getType();
  Val r;
  if (auto *A = dyn_cast<AllocaInst>(&X)) {
    Val n = val(A->getArraySize());
    if (!Core::isConst(n.b())) throw Unsupported("variable alloca");
    int id = I.newObj("%" + A->getName().str(), I.allocSize(A->getAllocatedType()) * (int64_t)Core::u64(n.b()));
    Elem e; e.obj = id; e.b = Core::cst(0, 64); r.e.push_back(e); return r;
  }
  if (auto *L = dyn_cast<LoadInst>(&X)) { Val p = val(L->getPointerOperand()); return I.loadVal(p.e[0], T, cond, vecAlign(I, T, L->getAlign().value()), &X); }
  if (auto *S = dyn_cast<StoreInst>(&X)) { Val p = val(S->getPointerOperand()); I.storeVal(p.e[0], val(S->getValueOperand()), S->getValueOperand()->getType(), cond, vecAlign(I, S->getValueOperand()->getType(), S->getAlign().value()), &X); return r; }
  if (auto *G = dyn_cast<GetElementPtrInst>(&X)) {
    Val base = val(G->getPointerOperand());
    unsigned n = std::max<unsigned>(1, T->isVectorTy() ? I.count(T) : 1);
    std::vector<BV> off(n, Core::cst(0, 64));
    for (auto gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi) {
      Val ix = val(gi.getOperand());
      if (auto *ST = gi.getStructTypeOrNull()) {
        uint64_t f = Core::u64(ix.b()); int64_t o;
        if (ST->isScalableTy()) { o = 0; for (uint64_t k = 0; k < f; k++) o += I.allocSize(ST->getElementType(k)); } else o = (int64_t)I.DL->getStructLayout(ST)->getElementOffset(f).getKnownMinValue();
        for (auto &b : off) b = C.add(b, Core::cst(o, 64));
      } else {
        int64_t s = I.allocSize(gi.getIndexedType());
        for (unsigned i = 0; i < n; i++) {
          BV x = ix.e[ix.size() == 1 ? 0 : i].b; x = x.size() < 64 ? Core::sext(x, 64) : Core::trunc(x, 64);
          off[i] = C.add(off[i], C.mul(x, Core::cst((uint64_t)s, 64)));
        }
      }
    }
    for (unsigned i = 0; i < n; i++) r.e.push_back(I.gep(base.e[base.size() == 1 ? 0 : i], off[i]));
    return r;
  }
  if (auto *BO = dyn_cast<BinaryOperator>(&X)) {
    Val a = val(BO->getOperand(0)), b = val(BO->getOperand(1));
    for (size_t i = 0; i < a.size(); i++) {
      if (a.e[i].obj != -1 || b.e[i].obj != -1) throw Unsupported("arithmetic on pointers");
      const BV &x = a.e[i].b, &y = b.e[i].b;
      switch (BO->getOpcode()) {
      case Instruction::Add: if (x.size() != y.size()) throw Unsupported("operand widths"); r.add(C.add(x, y)); break;
      case Instruction::Sub: r.add(C.sub(x, y)); break;
      case Instruction::Mul: r.add(C.mul(x, y)); break;
      case Instruction::UDiv: r.add(C.udiv(x, y)); break;
      case Instruction::SDiv: r.add(C.sdiv(x, y)); break;
      case Instruction::URem: r.add(C.urem(x, y)); break;
      case Instruction::SRem: r.add(C.srem(x, y)); break;
      case Instruction::And: r.add(C.band(x, y)); break;
      case Instruction::Or: r.add(C.bor(x, y)); break;
      case Instruction::Xor: r.add(C.bxor(x, y)); break;
      case Instruction::Shl: r.add(C.shlV(x, y, Core::POISON)); break;
      case Instruction::LShr: r.add(C.lshrV(x, y, Core::POISON)); break;
      case Instruction::AShr: r.add(C.ashrV(x, y, Core::POISON)); break;
      case Instruction::FAdd: r.add(C.fadd(x, y)); break;
      case Instruction::FSub: r.add(C.fsub(x, y)); break;
      case Instruction::FMul: r.add(C.fmul(x, y)); break;
      case Instruction::FDiv: r.add(C.fdiv(x, y)); break;
      case Instruction::FRem: r.add(C.uf("frem", {x, y}, (int)x.size())); break;
      default: throw Unsupported(std::string("binop ") + X.getOpcodeName());
      }
    }
    return r;
  }
  if (auto *U = dyn_cast<UnaryOperator>(&X)) {
    if (U->getOpcode() == Instruction::FNeg) { Val a = val(U->getOperand(0)); for (auto &e : a.e) r.add(C.fneg(e.b)); return r; }
  }
  if (auto *IC = dyn_cast<ICmpInst>(&X)) {
    Val a = val(IC->getOperand(0)), b = val(IC->getOperand(1));
    for (size_t i = 0; i < a.size(); i++) {
      Edge e; auto p = IC->getPredicate();
      BV x = a.e[i].b, y = b.e[i].b;
      if (a.e[i].obj != -1 || b.e[i].obj != -1) {
        if (a.e[i].obj == OBJ_MIXED || b.e[i].obj == OBJ_MIXED) throw Unsupported("comparison of unknown pointers");
        if (a.e[i].obj == OBJ_ALT || b.e[i].obj == OBJ_ALT || a.e[i].obj == OBJ_EXT || b.e[i].obj == OBJ_EXT) { x = I.ptrBits(a.e[i]); y = I.ptrBits(b.e[i]); }
        else if (a.e[i].obj != b.e[i].obj) {
          if (p == CmpInst::ICMP_EQ) { r.add(BV{F0}); continue; }
          if (p == CmpInst::ICMP_NE) { r.add(BV{T1}); continue; }
          x = I.ptrBits(a.e[i]); y = I.ptrBits(b.e[i]);
        }
      }
      switch (p) {
      case CmpInst::ICMP_EQ: e = C.eq(x, y); break;
      case CmpInst::ICMP_NE: e = Bdd::Not(C.eq(x, y)); break;
      case CmpInst::ICMP_ULT: e = C.ult(x, y); break;
      case CmpInst::ICMP_UGT: e = C.ult(y, x); break;
      case CmpInst::ICMP_ULE: e = Bdd::Not(C.ult(y, x)); break;
      case CmpInst::ICMP_UGE: e = Bdd::Not(C.ult(x, y)); break;
      case CmpInst::ICMP_SLT: e = C.slt(x, y); break;
      case CmpInst::ICMP_SGT: e = C.slt(y, x); break;
      case CmpInst::ICMP_SLE: e = Bdd::Not(C.slt(y, x)); break;
      default: e = Bdd::Not(C.slt(x, y)); break;
      }
      r.add(BV{e});
    }
    return r;
  }
  if (auto *FC = dyn_cast<FCmpInst>(&X)) {
    Val a = val(FC->getOperand(0)), b = val(FC->getOperand(1));
    for (size_t i = 0; i < a.size(); i++) {
      const BV &x = a.e[i].b, &y = b.e[i].b; auto p = FC->getPredicate();
      Edge e = F0;
      if (p == CmpInst::FCMP_TRUE) e = T1;
      else if (p != CmpInst::FCMP_FALSE) {
        if (p & 1) e = C.B.Or(e, C.feq(x, y));
        if (p & 2) e = C.B.Or(e, C.flt(y, x));
        if (p & 4) e = C.B.Or(e, C.flt(x, y));
        if (p & 8) e = C.B.Or(e, C.B.Or(C.fnan(x), C.fnan(y)));
      }
      r.add(BV{e});
    }
    return r;
  }
  if (auto *CI = dyn_cast<CastInst>(&X)) {
    Val a = val(CI->getOperand(0));
    switch (CI->getOpcode()) {
    case Instruction::BitCast: if (T->isPointerTy()) return a; return I.unflat(I.flat(a), T);
    case Instruction::AddrSpaceCast: return a;
    case Instruction::PtrToInt: { unsigned w = I.width(T); for (auto &e : a.e) { BV b = I.ptrBits(e); if (w < 64 && w == I.DL->getPointerSizeInBits()) I.addrOf[Core::zext(Core::trunc(b, w), 64)] = e; r.add(w <= 64 ? Core::trunc(b, w) : Core::zext(b, w)); } return r; }
    case Instruction::IntToPtr: for (auto &e : a.e) { Elem q; BV b = Core::zext(e.b, 64); auto it = I.addrOf.find(b); if (it != I.addrOf.end()) q = it->second; else if (Core::isConst(b) && Core::u64(b) == 0) { q.obj = OBJ_NULL; q.b = b; } else { q.obj = I.events ? OBJ_EXT : OBJ_MIXED; q.b = b; } r.e.push_back(q); } return r;
    default: break;
    }
    unsigned w = I.width(T);
    for (auto &e : a.e) switch (CI->getOpcode()) {
      case Instruction::Trunc: r.add(Core::trunc(e.b, w)); break;
      case Instruction::ZExt: r.add(Core::zext(e.b, w)); break;
      case Instruction::SExt: r.add(Core::sext(e.b, w)); break;
      case Instruction::FPExt: r.add(C.fpext(e.b, w)); break;
      case Instruction::FPTrunc: r.add(C.fptrunc(e.b, w)); break;
      case Instruction::SIToFP: r.add(C.itofp(e.b, true, w)); break;
      case Instruction::UIToFP: r.add(C.itofp(e.b, false, w)); break;
      case Instruction::FPToSI: r.add(C.fptoiIR(e.b, w, true)); break;
      case Instruction::FPToUI: r.add(C.fptoiIR(e.b, w, false)); break;
      default: throw Unsupported(std::string("cast ") + X.getOpcodeName());
    }
    return r;
  }
  if (auto *S = dyn_cast<SelectInst>(&X)) {
    Val c = val(S->getCondition()), a = val(S->getTrueValue()), b = val(S->getFalseValue());
    for (size_t i = 0; i < a.size(); i++) r.e.push_back(I.iteE(c.e[c.size() == 1 ? 0 : i].b[0], a.e[i], b.e[i]));
    return r;
  }
  if (auto *E = dyn_cast<ExtractElementInst>(&X)) {
    Val v = val(E->getVectorOperand()), ix = val(E->getIndexOperand());
    if (Core::isConst(ix.b())) { uint64_t k = Core::u64(ix.b()); if (k >= v.size()) return I.undef(T, "poison"); r.e.push_back(v.e[k]); return r; }
    Elem x = v.e[0]; for (size_t k = 1; k < v.size(); k++) x = I.iteE(C.eq(ix.b(), Core::cst(k, (int)ix.b().size())), v.e[k], x);
    r.e.push_back(x); return r;
  }
  if (auto *E = dyn_cast<InsertElementInst>(&X)) {
    Val v = val(E->getOperand(0)), s = val(E->getOperand(1)), ix = val(E->getOperand(2));
    if (Core::isConst(ix.b())) { uint64_t k = Core::u64(ix.b()); if (k < v.size()) v.e[k] = s.e[0]; return v; }
    for (size_t k = 0; k < v.size(); k++) v.e[k] = I.iteE(C.eq(ix.b(), Core::cst(k, (int)ix.b().size())), s.e[0], v.e[k]);
    return v;
  }
  if (auto *S = dyn_cast<ShuffleVectorInst>(&X)) {
    Val a = val(S->getOperand(0)), b = val(S->getOperand(1));
    if (T->isScalableTy()) { // only splats
      for (unsigned i = 0; i < I.count(T); i++) r.e.push_back(a.e[0]);
      return r;
    }
    for (int m : S->getShuffleMask()) {
      if (m < 0) r.add(C.freshV("poison", I.width(T)));
      else if ((size_t)m < a.size()) r.e.push_back(a.e[m]); else r.e.push_back(b.e[m - a.size()]);
    }
    return r;
  }
  auto fieldOff = [&](Type *A, ArrayRef<unsigned> ix, unsigned &off, Type *&leaf) {
    off = 0; leaf = A;
    for (unsigned i : ix) {
      if (auto *S = dyn_cast<StructType>(leaf)) { for (unsigned k = 0; k < i; k++) off += I.count(S->getElementType(k)); leaf = S->getElementType(i); }
      else { auto *AT = cast<ArrayType>(leaf); off += i * I.count(AT->getElementType()); leaf = AT->getElementType(); }
    }
  };
  if (auto *E = dyn_cast<ExtractValueInst>(&X)) {
    Val v = val(E->getAggregateOperand()); unsigned o; Type *l; fieldOff(E->getAggregateOperand()->getType(), E->getIndices(), o, l);
    for (unsigned i = 0; i < I.count(l); i++) r.e.push_back(v.e[o + i]); return r;
  }
  if (auto *E = dyn_cast<InsertValueInst>(&X)) {
    Val v = val(E->getAggregateOperand()), s = val(E->getInsertedValueOperand()); unsigned o; Type *l; fieldOff(T, E->getIndices(), o, l);
    for (unsigned i = 0; i < s.size(); i++) v.e[o + i] = s.e[i]; return v;
  }
  if (isa<FreezeInst>(X)) return val(X.getOperand(0));
  if (isa<FenceInst>(X)) return r;
  if (isa<LandingPadInst>(X)) return I.undef(T);
  throw Unsupported(std::string("instruction ") + X.getOpcodeName());
}
// ---- the environment
static BV hashStr(const std::string &s) { uint64_t h = 1469598103934665603ull; for (char c : s) h = (h ^ (unsigned char)c) * 1099511628211ull; return Core::cst(h, 64); }
BV Interp::envArg(const Elem &p, const char *what) {
  if (p.obj == -1 || p.obj == OBJ_EXT || p.obj == OBJ_NULL) return p.b;
  if (p.obj == OBJ_MIXED || p.obj == OBJ_ALT) throw Unsupported(std::string("merged pointer passed to ") + what);
  Obj &o = objs[p.obj];
  if (o.fn) return hashStr("fn " + o.fn->getName().str());
  if (o.gv) {
    if (o.gv->isConstant() && o.gv->hasInitializer() && (o.gv->hasPrivateLinkage() || o.gv->hasInternalLinkage()) && Core::isConst(p.b)) {
      std::string s = "str "; int64_t off = Core::s64(p.b);
      for (int64_t k = off; k < o.size; k++) { MB m = readByte(p.obj, k); if (m.st != 1) { s += "?"; break; } BV b(m.b, m.b + 8); if (!Core::isConst(b)) break; char ch = (char)Core::u64(b); if (!ch) break; s += ch; }
      return hashStr(s);
    }
    return C.add(hashStr("global " + o.gv->getName().str()), p.b);
  }
  if (o.user) return C.add(hashStr("obj " + o.name), p.b);
  throw Unsupported(std::string("address of a local variable passed to ") + what);
}
BV Interp::event(const std::string &name, const std::vector<BV> &args, Edge cond) {
  if (cond == F0) return token;
  std::vector<BV> a{C.constrain(token, cond)};
  for (auto &x : args) a.push_back(C.constrain(x, cond));
  BV t = C.uf("ev:" + name, a, 32);
  token = C.ite(cond, t, token);
  trace += (trace.empty() ? "" : "; ") + name + (cond == T1 ? "" : " (conditionally)");
  return t;
}
bool Interp::environment(Call &c) {
  const std::string &n = c.name;
  auto retPtr = [&](const BV &b) { Elem e; e.obj = OBJ_EXT; e.b = b; c.ret = Val(); c.ret.e.push_back(e); };
  auto z = [&](const BV &b) { return Core::zext(b, 64); };
  auto isNull = [&](const BV &b) { return C.eq(b, Core::cst(0, 64)); };
  if (c.cb->getCalledFunction() && c.cb->getCalledFunction()->isIntrinsic()) {
    auto id = c.cb->getCalledFunction()->getIntrinsicID();
    bool cpy = id == Intrinsic::memcpy || id == Intrinsic::memmove, set = id == Intrinsic::memset;
    if (!cpy && !set) return false;
    auto far = [&](const Elem &e) { return e.obj == OBJ_EXT; };
    if (Core::isConst(c.a[2].b()) && !far(c.a[0].e[0]) && !(cpy && far(c.a[1].e[0]))) return false;
    BV len = z(c.a[2].b());
    Edge g = C.B.And(c.cond, Bdd::Not(isNull(len)));
    event(cpy ? "memcpy" : "memset", {envArg(c.a[0].e[0], "memcpy"), envArg(c.a[1].e[0], "memcpy"), len}, g);
    return true;
  }
  if (n == "malloc" || n == "calloc") {
    BV size; Edge huge;
    if (n == "malloc") { size = z(c.a[0].b()); huge = size[63]; }
    else {
      BV p = C.mul(Core::zext(c.a[0].b(), 128), Core::zext(c.a[1].b(), 128)); size = Core::trunc(p, 64);
      huge = F0; for (int i = 63; i < 128; i++) huge = C.B.Or(huge, p[i]);
    }
    Edge g = C.B.And(c.cond, Bdd::Not(huge));
    BV t = event(n, {size}, g);
    retPtr(C.ite(huge, Core::cst(0, 64), C.uf("ep:" + n, {t}, 64)));
    return true;
  }
  if (n == "free" || n == "_ZdlPv" || n == "_ZdlPvm" || n == "cudaFree" || n == "hipFree") {
    BV p = envArg(c.a[0].e[0], "free");
    event(n == "_ZdlPvm" ? "_ZdlPv" : n, {p}, C.B.And(c.cond, Bdd::Not(isNull(p))));
    if (!c.cb->getType()->isVoidTy()) c.ret = Val(C.uf("es:" + n, {token}, width(c.cb->getType())));
    return true;
  }
  if (n == "posix_memalign" || n == "cudaMalloc" || n == "hipMalloc") {
    bool pm = n == "posix_memalign";
    BV size = z(c.a[pm ? 2 : 1].b()); Edge huge = size[63], g = C.B.And(c.cond, Bdd::Not(huge));
    std::vector<BV> args{size}; if (pm) args.push_back(z(c.a[1].b()));
    BV t = event(n, args, g);
    BV bit = C.uf("es:" + n, {t}, 1);
    BV fail = Core::cst(pm ? 12 : 2, 32);
    BV st = C.ite(C.B.Or(huge, bit[0]), fail, Core::cst(0, 32));
    Elem p; p.obj = OBJ_EXT; p.b = C.uf("eq:" + n, {t}, 64); p.b[45] = T1;
    Val v; v.e.push_back(p);
    storeVal(c.a[0].e[0], v, c.aty(0), C.B.And(c.cond, C.isZero(st)), 1, c.cb);
    c.ret = Val(st);
    return true;
  }
  if (n == "__cxa_allocate_exception" && Core::isConst(c.a[0].b())) { Elem e; e.obj = newObj("exception", (int64_t)Core::u64(c.a[0].b())); e.b = Core::cst(0, 64); c.ret = Val(); c.ret.e.push_back(e); return true; }
  if (c.cb->doesNotReturn() || n == "__cxa_throw" || n == "exit" || n == "abort") {
    std::string key = n;
    if (n == "__cxa_throw") { key = "throw"; if (c.a[1].e[0].obj > 0 && objs[c.a[1].e[0].obj].gv) key += " " + objs[c.a[1].e[0].obj].gv->getName().str(); }
    else for (auto &v : c.a) if (!v.e.empty()) { if (v.e[0].obj == -1 && Core::isConst(v.e[0].b)) key += " " + std::to_string(Core::s64(v.e[0].b)); }
    auto it = exits.find(key); if (it == exits.end()) exits[key] = c.cond; else it->second = C.B.Or(it->second, c.cond);
    trace += (trace.empty() ? "" : "; ") + key;
    returned = F0;
    return true;
  }
  if (n == "_Znwm") { BV t = event(n, {z(c.a[0].b())}, c.cond); BV q = C.uf("eq:" + n, {t}, 64); q[45] = T1; retPtr(q); return true; }
  // anything else: an event of its arguments, returning an unknown value
  std::vector<BV> args;
  for (auto &v : c.a) for (auto &e : v.e) args.push_back(envArg(e, n.c_str()));
  std::string nm = n;
  BV t = event(nm, args, c.cond);
  if (n == "fprintf" || n == "fputs" || n == "fputc" || n == "printf" || n == "puts" || n == "putchar") {
    // an error, or one of a few counts: enough to tell what is summed and what is tested, and small enough to be summed symbolically
    BV q = C.uf("es:out", {t}, 4), bad = Core::cst(-1, 32), v(q.begin(), q.begin() + 2);
    if (n == "fprintf" || n == "printf") bad[0] = q[3];
    c.ret = Val(C.ite(q[2], bad, Core::zext(v, 32))); return true;
  }
  Type *T = c.cb->getType();
  if (T->isVoidTy()) return true;
  if (T->isPointerTy()) { retPtr(C.uf("ep:" + n, {t}, 64)); return true; }
  std::vector<Type *> l; leafTypes(T, l); c.ret = Val();
  for (size_t i = 0; i < l.size(); i++) { BV b = C.uf("er" + std::to_string(i) + ":" + n, {t}, width(l[i])); if (l[i]->isPointerTy()) { Elem e; e.obj = OBJ_EXT; e.b = b; c.ret.e.push_back(e); } else c.ret.add(b); }
  return true;
}
void Interp::doCall(const CallBase *cb, std::map<const Value *, Val> &env, Edge cond) {
  Call c{*this, C, cb, "", {}, cond, Val()};
  const Function *F = cb->getCalledFunction();
  auto get = [&](const Value *V) -> Val {
    if (V->getType()->isMetadataTy()) return Val();
    if (auto *K = dyn_cast<Constant>(V)) return constant(K);
    auto it = env.find(V); if (it == env.end()) throw Unsupported("use of an undefined value"); return it->second;
  };
  if (cb->isInlineAsm()) throw Unsupported("inline asm");
  if (F && F->isIntrinsic()) {
    switch (F->getIntrinsicID()) {
    case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end:
    case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::prefetch: return;
    default: break;
    }
  }
  if (!F) {
    Val f = get(cb->getCalledOperand());
    if (f.e[0].obj > 0 && objs[f.e[0].obj].fn) F = objs[f.e[0].obj].fn;
    else throw Unsupported("indirect call");
  }
  c.name = F->getName().str();
  for (unsigned i = 0; i < cb->arg_size(); i++) c.a.push_back(get(cb->getArgOperand(i)));
  // byval arguments are copied
  for (unsigned i = 0; i < cb->arg_size(); i++) if (cb->isByValArgument(i)) {
    Type *T = cb->getParamByValType(i); int64_t n = allocSize(T);
    Elem src = c.a[i].e[0];
    int id = newObj("byval", n); Elem dst; dst.obj = id; dst.b = Core::cst(0, 64);
    if (src.obj > 0 && Core::isConst(src.b) && !objs[src.obj].user) { int64_t o = Core::s64(src.b); for (int64_t k = 0; k < n; k++) objs[id].m[k] = readByte(src.obj, o + k); }
    else { BV b = loadBits(src, n, cond, 1, cb); storeBits(dst, b, T1, 1, nullptr); }
    c.a[i].e[0] = dst;
  }
  if (F->isIntrinsic()) {
    bool ok = (events && environment(c)) || generic(c) || x86(c) || arm(c) || sve(c) || ppc(c);
    if (!ok) { unknown[c.name]++; throw Unsupported("intrinsic " + c.name); }
  } else if (library(c)) {
  } else {
    if (F->isDeclaration() && resolve) { if (const Function *G = resolve(c.name)) F = G; }
    if (F->isDeclaration() && events && environment(c)) ;
    else if (F->isDeclaration()) {
      unknown[c.name]++; throw Unsupported("call to " + c.name);
    }
    if (!F->isDeclaration()) c.ret = call(F, c.a, cond);
  }
  if (!cb->getType()->isVoidTy()) env[cb] = c.ret;
}
Val Interp::call(const Function *F, std::vector<Val> args, Edge cond) {
  if (F->isDeclaration()) throw Unsupported("call to " + F->getName().str());
  if (++depth > 200) throw Unsupported("call depth");
  auto &li = loops[F];
  if (!li) { doms[F] = std::make_unique<DominatorTree>(const_cast<Function &>(*F)); li = std::make_unique<LoopInfo>(*doms[F]); }
  Frame f(*this, F, *li);
  for (unsigned i = 0; i < F->arg_size(); i++) {   // a `long` of a 32-bit reference
    auto *IT = dyn_cast<IntegerType>(F->getArg(i)->getType()); Val v = args[i];
    if (IT && v.size() == 1 && v.e[0].obj == -1 && v.b().size() > IT->getBitWidth() && IT->getBitWidth() == 32 && v.b().size() == 64) v = Val(Core::trunc(v.b(), 32));
    f.env[F->getArg(i)] = v;
  }
  f.in[&F->getEntryBlock()].push_back(Frame::In{cond, {}});
  const DataLayout *save = DL; DL = &F->getParent()->getDataLayout();
  f.region(nullptr, nullptr);
  DL = save;
  depth--;
  for (auto &kv : f.in) if (!kv.second.empty()) throw Unsupported("irreducible control flow in " + F->getName().str());
  returned = F0; for (auto &x : f.rets) returned = C.B.Or(returned, x.first);
  if (f.rets.empty()) { return F->getReturnType()->isVoidTy() ? Val() : undef(F->getReturnType(), "noreturn"); }
  Val r = f.rets.back().second;
  for (int i = (int)f.rets.size() - 2; i >= 0; i--) r = iteVal(f.rets[i].first, f.rets[i].second, r);
  return r;
}
std::string instrLoc(const Instruction *I) { return locOf(I); }
