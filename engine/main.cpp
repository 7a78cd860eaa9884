#include <unistd.h>
// Driver: for each cell, evaluates the implementation wrapper and the reference function(s) on the same abstract
// inputs and compares the abstract results, memory effects, footprints and alignments.
#include "interp.h"
#include "eval.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/MemoryBuffer.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Transforms/Utils/LoopSimplify.h>
#include <llvm/Transforms/Utils/LCSSA.h>
#include <llvm/Transforms/Utils/LowerInvoke.h>
#include <llvm/Transforms/Utils/FunctionComparator.h>
#include <chrono>
#include <set>
using namespace llvm;
std::string instrLoc(const Instruction *I);

struct Param {
  std::string kind;      // vec log int ptr out outlog
  int n = 1, w = 8;      // lanes, lane width
  int rw = 0;            // lane width seen by the reference (default w)
  std::string repr;      // of logicals: ones bits int01 pred byte
  int elem = 1;          // ptr: element size
  int align = 1;         // ptr: largest alignment an access may assume
  bool hasV = false; int64_t v = 0;   // int: constant
  int low = 32;          // int: number of symbolic low bits
  bool sgnd = true;
  int lo = 0;            // out: lanes compared from..
  bool fp = false;       // out: floating point, all NaNs count as equal
  int sbits = 0;         // int: sign-extended from that many symbolic bits
};
struct Cell {
  std::string id, fn; unsigned vscale = 1; int n = 1; std::string ext;
  std::vector<Param> ps; std::vector<std::string> refs; std::string mode; bool half = true; bool care = false;
  uint64_t budget = 0; bool passN = true;
  int lin = 0, parts = 0; uint64_t nodes = 0; std::vector<uint64_t> highParts; bool laneOrder = false; // order the variables lane by lane (for control flow that depends on every lane)
  bool events = false;   // what reaches the environment (allocations, output) is compared, in order
  bool base = false;     // the references are wrappers of the same shape as the cell (one layer against another)
};
static std::vector<std::unique_ptr<Module>> mods;
static Core C;

static void prepare(Module &M) {
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
  PassBuilder PB; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
  FunctionPassManager FPM; FPM.addPass(LoopSimplifyPass()); FPM.addPass(LCSSAPass());
  for (auto &F : M) if (!F.isDeclaration()) FPM.run(F, FAM);
}
static const Function *find(const std::string &n) {
  for (auto &m : mods) if (Function *F = m->getFunction(n)) if (!F->isDeclaration()) return F;
  return nullptr;
}
static int repBytes(const Param &p, bool impl) {
  if (p.kind == "int") return 4;
  if (p.kind == "log" || p.kind == "outlog") {
    if (!impl) return p.n;
    if (p.repr == "ones" || p.repr == "int01") return p.n * p.w / 8;
    if (p.repr == "bits") return std::max(1, p.n / 8);
    if (p.repr == "pred") return p.n * p.w / 64;
    if (p.repr == "byte") return p.n;
    if (p.repr == "bool") return p.n;
  }
  return p.n * ((impl || !p.rw) ? p.w : p.rw) / 8;
}
static void put(Interp &I, int obj, const BV &bits) {
  auto &m = I.objs[obj].m;
  for (size_t k = 0; k < m.size() && (k + 1) * 8 <= bits.size(); k++) { m[k].st = 1; for (int i = 0; i < 8; i++) m[k].b[i] = bits[k * 8 + i]; }
}
static std::map<std::string, Edge> inputs;
static Edge in(int p, int lane, int bit, bool sel = false) {
  std::string k = "a" + std::to_string(p) + "[" + std::to_string(lane) + "]";
  std::string kk = k + "." + std::to_string(bit);
  auto it = inputs.find(kk);
  if (it != inputs.end()) return it->second;
  return inputs[kk] = C.newNamed(k, sel ? -1 - bit : bit);
}
struct Run { std::unique_ptr<Interp> I; std::vector<int> obj; int careObj = -1; Edge diverges = F0; std::string err; bool und = false; };

static Run evaluate(const Cell &c, const Function *F, bool impl) {
  Run r; r.I = std::make_unique<Interp>(C);
  Interp &I = *r.I; I.reset(); I.vscale = impl ? c.vscale : 1; I.ext = c.ext; I.keepHalf = c.half; I.events = c.events; if (c.events) I.token = Core::cst(0, 32); if (c.budget) I.maxInstrs = c.budget;
  I.resolve = [](const std::string &n) { return find(n); };
  std::vector<Val> args;
  for (size_t k = 0; k < c.ps.size(); k++) {
    const Param &p = c.ps[k];
    int id;
    if (p.kind == "ptr") {
      id = I.newObj("p" + std::to_string(k), -1); Obj &o = I.objs[id];
      o.user = true; o.elem = p.elem; o.rd = "mem" + std::to_string(k);
    } else {
      id = I.newObj("a" + std::to_string(k), repBytes(p, impl));
      BV bits;
      if (p.kind == "vec") for (int i = 0; i < p.n; i++) { for (int j = 0; j < p.w; j++) bits.push_back(in((int)k, i, j)); }
      else if (p.kind == "int") {
        if (p.hasV) bits = Core::cst((uint64_t)p.v, 32);
        else if (p.sbits) for (int j = 0; j < 32; j++) bits.push_back(in((int)k, 0, std::min(j, p.sbits - 1)));
        else for (int j = 0; j < 32; j++) bits.push_back(j < p.low ? in((int)k, 0, j, p.low <= 8) : F0);
      } else if (p.kind == "log") {
        for (int i = 0; i < p.n; i++) {
          Edge e = in((int)k, i, 0);
          if (!impl || p.repr == "byte" || p.repr == "bool") { bits.push_back(e); for (int j = 1; j < 8; j++) bits.push_back(F0); }
          else if (p.repr == "ones") for (int j = 0; j < p.w; j++) bits.push_back(e);
          else if (p.repr == "int01") for (int j = 0; j < p.w; j++) bits.push_back(j ? F0 : e);
          else if (p.repr == "bits") bits.push_back(e);
          else if (p.repr == "pred") for (int j = 0; j < p.w / 8; j++) bits.push_back(j ? C.fresh("predpad", 0) : e);
        }
        if (impl && p.repr == "bits") while (bits.size() < 8) bits.push_back(C.fresh("maskpad", (int)bits.size()));
      }
      put(I, id, bits);
    }
    r.obj.push_back(id);
    Val v; Elem e; e.obj = id; e.b = Core::cst(0, 64); v.e.push_back(e); args.push_back(v);
  }
  if (!impl) {
    if (c.passN) args.push_back(Val(Core::cst(c.n, 64)));
    if (F->arg_size() == args.size() + 1) {
      int tot = 0; for (auto &p : c.ps) if (p.kind == "out" || p.kind == "outlog") tot = std::max(tot, p.n);
      r.careObj = I.newObj("care", std::max(tot, c.n)); BV ones; for (int i = 0; i < (int)I.objs[r.careObj].m.size(); i++) { BV o = Core::cst(1, 8); ones.insert(ones.end(), o.begin(), o.end()); }
      put(I, r.careObj, ones);
      Val v; Elem e; e.obj = r.careObj; e.b = Core::cst(0, 64); v.e.push_back(e); args.push_back(v);
    }
  }
  if (F->arg_size() != args.size()) { r.err = "signature of " + F->getName().str(); r.und = true; return r; }
  try { I.call(F, args, T1); }
  catch (Unsupported &e) { r.err = e.what(); r.und = true; }
  catch (Diverges &e) { r.err = e.what(); r.und = true; r.diverges = e.cond; }
  catch (TooBig &e) { r.err = e.what(); r.und = true; }
  return r;
}
// bits of lane i of an output object; false when a byte was never written
static bool laneBits(Run &r, int k, int byteOff, int nb, BV &out) {
  out.clear();
  for (int b = 0; b < nb; b++) { MB &m = r.I->objs[r.obj[k]].m.at(byteOff + b); if (m.st != 1) return false; for (int i = 0; i < 8; i++) out.push_back(m.b[i]); }
  return true;
}
static void findSumTree(const BV &v, std::vector<BV> &leaves, int depth) {
  int id = C.match(v);
  if (id >= 0 && C.ufs[id].op == "fadd" && depth < 600) { std::vector<BV> a = C.ufs[id].args; findSumTree(a[0], leaves, depth + 1); findSumTree(a[1], leaves, depth + 1); return; }
  leaves.push_back(v);
}

struct Out { std::string out = "-", mem = "-", foot = "-", align = "-", why; bool undec = false, unsep = false; json::Object detail; int lanes = 0, accesses = 0; };

static std::string witness(Edge bad, const Cell &c) {
  auto s = C.B.sat(bad);
  std::map<std::string, uint64_t> val; std::set<std::string> seen; std::string extra;
  for (auto &kv : s) {
    uint32_t v = kv.first;
    if (C.varUF[v] >= 0) { if (extra.size() < 200 && seen.insert(C.ufs[C.varUF[v]].op).second) extra += " " + C.ufs[C.varUF[v]].op; continue; }
    if (!val.count(C.varName[v])) val[C.varName[v]] = 0;
    if (kv.second && C.varBit[v] < 64) val[C.varName[v]] |= 1ull << C.varBit[v];
  }
  std::string r; int k = 0;
  for (auto &kv : val) { if (k++ > 6) break; char b[32]; snprintf(b, sizeof b, "0x%llx", (unsigned long long)kv.second); r += (r.empty() ? "" : ", ") + kv.first + "=" + b; }
  if (!extra.empty()) r += (r.empty() ? "" : "; ") + std::string("depends on") + extra;
  if (r.empty()) r = "every input";
  return r;
}

static Edge quant(Edge okbit) {
  // drop reference poison: okbit holds for some value of it
  std::vector<uint32_t> vars; C.supportOf({okbit}, vars);
  for (uint32_t v : vars) if (C.varUF[v] < 0 && C.varName[v].compare(0, 7, "poison#") == 0) okbit = C.B.Or(C.cofactor(okbit, v, false), C.cofactor(okbit, v, true));
  return okbit;
}

static bool isNan(u128 v, int w) { int m = Core::mant(w); u128 ex = (v >> m) & ((1u << (w - 1 - m)) - 1); return ex == (1u << (w - 1 - m)) - 1 && (v & (((u128)1 << m) - 1)) != 0; }
static bool separateWords(const BV &a, const std::vector<BV> &bs, std::string &wit) {
  Sampler S(C); std::vector<Edge> roots(a.begin(), a.end()); for (auto &b : bs) roots.insert(roots.end(), b.begin(), b.end());
  S.collect(roots);
  for (int i = 0; i < 400; i++) {
    S.sample(i, F0);
    u128 x = S.evalBV(a); bool same = false; for (auto &b : bs) if (S.evalBV(b) == x) same = true;
    if (same) continue;
    wit = S.describe();
    char t[100]; snprintf(t, sizeof t, " gives 0x%llx, expected 0x%llx", (unsigned long long)x, (unsigned long long)S.evalBV(bs[0])); wit += t;
    return true;
  }
  return false;
}
// looks for a constant input under which `ok` is false; alternatives b are compared up to NaN payload when fp
static bool separate(Edge ok, const BV &a, const std::vector<BV> &bs, bool fp, std::string &wit) {
  Edge bad = Bdd::Not(ok);
  Sampler S(C); std::vector<Edge> roots{bad};
  S.collect(roots);
  bool pure = true; { std::vector<uint32_t> vs; C.supportOf(roots, vs); for (uint32_t v : vs) if (C.varUF[v] >= 0) pure = false; }
  int N = pure ? 64 : 400;
  for (int i = 0; i < N; i++) {
    S.sample(pure ? 2 * i : i, bad);
    if (!S.eval(bad)) continue;
    if (fp) { int w = (int)a.size(); u128 x = S.evalBV(a); bool same = false; if (isNan(x, w)) for (auto &b : bs) if (isNan(S.evalBV(b), w)) same = true; if (same) continue; }
    wit = S.describe();
    if (!a.empty() && a.size() <= 64) { char t[100]; snprintf(t, sizeof t, " gives 0x%llx", (unsigned long long)S.evalBV(a)); wit += t; for (auto &b : bs) { snprintf(t, sizeof t, "%s0x%llx", &b == &bs[0] ? ", expected " : " or ", (unsigned long long)S.evalBV(b)); wit += t; } }
    return true;
  }
  return false;
}
static Out compare(const Cell &c, bool exact) {
  Out o; C.reset(); C.exact = exact; inputs.clear();
  C.B.limit = exact ? 6000000 : 3000000; C.B.step_limit = exact ? 30000000 : 10000000;
  C.effort = c.events ? 50 : 1; C.lin = c.lin; C.parts = c.parts; if (c.nodes) { C.B.limit = c.nodes; C.B.step_limit = c.nodes * 10; }
  for (uint64_t h : c.highParts) { BV k = Core::cst(h, 32); while (k.size() > 1 && k.back() == F0) k.pop_back(); C.partOf[k] = c.parts; int z = 0; while (k.size() > 1 && k[0] == F0) { k.erase(k.begin()); z++; } C.partOf[k] = c.parts + z; }
  if (c.events) { C.B.limit = 20000000; C.B.step_limit = 60000000; }
  const Function *F = find(c.fn);
  if (!F) { o.undec = true; o.why = "no function " + c.fn; return o; }
  if (c.base) for (auto &rn : c.refs) {
    const Function *R = find(rn);
    static GlobalNumberState GN;
    if (R && FunctionComparator(F, R, &GN).compare() == 0) { o.out = o.mem = o.foot = o.align = "ok"; o.lanes = c.n; o.why = "same code"; return o; }
  }
  if (c.laneOrder) {
    int L = 0; for (auto &p : c.ps) if (p.kind == "vec" || p.kind == "log") L = std::max(L, p.n);
    for (int i = 0; i < L; i++) for (int k = (int)c.ps.size() - 1; k >= 0; k--) {
      auto &p = c.ps[k]; if (i >= p.n) continue;
      if (p.kind == "log") in(k, i, 0, true);
      if (p.kind == "vec") for (int j = 0; j < p.w; j++) in(k, i, j, true);
    }
  }
  // create the inputs first, interleaved, so that the ordering does not depend on the implementation
  std::vector<Run> refs;
  for (auto &rn : c.refs) {
    const Function *R = find(rn);
    if (!R) { o.undec = true; o.why = "no reference " + rn; return o; }
    refs.push_back(evaluate(c, R, c.base));
    if (refs.back().und) { o.undec = true; o.why = "reference " + rn + ": " + refs.back().err; return o; }
  }
  Run im = evaluate(c, F, true);
  if (im.und && im.diverges != F0) {
    std::vector<uint32_t> vs; C.supportOf({im.diverges}, vs); bool pure = true;
    for (uint32_t v : vs) if (C.varUF[v] >= 0) pure = false;
    if (pure) { o.out = "bad"; o.why = "never terminates: input " + witness(im.diverges, c) + " repeats a loop iteration that changes nothing"; return o; }
  }
  if (im.und) { o.undec = true; o.why = im.err; return o; }
  if (!im.I->aborts.empty()) { o.out = "bad"; o.why = "reaches " + im.I->aborts[0]; return o; }
  bool refPoison = C.undefs > 0;
  auto cmpBits = [&](const BV &a, const BV &b) -> Edge {
    if (a == b) return T1;
    Edge ok = T1;
    for (size_t i = 0; i < a.size() && ok != F0; i++) { Edge e = Bdd::Not(C.B.Xor(a[i], b[i])); if (e != T1 && refPoison) e = quant(e); ok = C.B.And(ok, e); }
    return ok;
  };
  bool decided = true; int unsep = 0;
  for (size_t k = 0; k < c.ps.size(); k++) {
    const Param &p = c.ps[k];
    if (p.kind == "out" || p.kind == "outlog") {
      if (refs.empty()) continue;
      if (o.out == "-") o.out = "ok";
      for (int i = p.lo; i < p.n; i++) {
        o.lanes++;
        BV a; Edge canon = T1;
        auto lane = [&](Run &im, BV &a) -> bool {
          bool wr;
          if (p.kind == "out") wr = laneBits(im, (int)k, i * p.w / 8, p.w / 8, a);
          else if (p.repr == "ones" || p.repr == "int01") { wr = laneBits(im, (int)k, i * p.w / 8, p.w / 8, a); }
          else if (p.repr == "byte" || p.repr == "bool") wr = laneBits(im, (int)k, i, 1, a);
          else if (p.repr == "bits") { wr = laneBits(im, (int)k, i / 8, 1, a); if (wr) a = BV{a[i % 8]}; }
          else { int bit = i * (p.w / 8); wr = laneBits(im, (int)k, bit / 8, 1, a); if (wr) a = BV{a[bit % 8]}; }
          return wr;
        };
        bool wr = lane(im, a);
        if (!wr) { o.out = "bad"; o.why = "lane " + std::to_string(i) + " of result " + std::to_string(k) + " is never written"; return o; }
        Edge ok = F0; std::string refshow; std::vector<Edge> sup; std::vector<BV> bvals; bool big = false;
        for (auto &r : refs) {
          BV b;
          if (c.base) { if (!lane(r, b)) { o.undec = true; o.why = "reference lane not written"; return o; } }
          else if (!laneBits(r, (int)k, p.kind == "out" ? i * ((p.rw ? p.rw : p.w)) / 8 : i, p.kind == "out" ? (p.rw ? p.rw : p.w) / 8 : 1, b)) { o.undec = true; o.why = "reference lane not written"; return o; }
          if (p.kind == "outlog" && !c.base) {
            Edge t = b[0]; b.clear();
            if (p.repr == "ones") b = BV(p.w, t);
            else if (p.repr == "int01") { b = Core::cst(0, p.w); b[0] = t; }
            else if (p.repr == "byte" || p.repr == "bool") { b = Core::cst(0, 8); b[0] = t; }
            else b = BV{t};
          }
          Edge care = T1;
          if (r.careObj >= 0 && i < (int)r.I->objs[r.careObj].m.size()) { MB &m = r.I->objs[r.careObj].m[i]; care = m.b[0]; for (int q = 1; q < 8; q++) care = C.B.Or(care, m.b[q]); }
          Edge e; 
          if (c.nodes && a != b) {   // words too large for one equation: they are compared by folding constants through both
            uint64_t save = C.B.step_limit; C.B.step_limit = C.B.steps + 1000000;
            try { e = cmpBits(a, b); } catch (TooBig &) { e = F0; big = true; }
            C.B.step_limit = save;
          } else e = cmpBits(a, b);
          if (c.events) care = C.B.And(care, im.I->returned);
          if (care != T1) e = C.B.Or(e, Bdd::Not(care));
          if (p.fp && e != T1 && a.size() == b.size() && (a.size() == 16 || a.size() == 32 || a.size() == 64))
            e = C.B.Or(e, C.B.And(C.fnan(a), C.fnan(b)));   // any NaN stands for a NaN
          ok = C.B.Or(ok, e);
          bvals.push_back(b);
          if (refshow.empty()) refshow = C.show(b);
          if (ok == T1) break;
        }
        (void)canon;
        if (ok != T1) {
          std::string wit;
          if (big ? separateWords(a, bvals, wit) : separate(ok, a, bvals, p.fp, wit)) {
            o.out = "bad"; o.undec = false;
            o.why = "lane " + std::to_string(i) + " of result " + std::to_string(k) + ": input " + wit + " [computes " + C.show(a) + "; should be " + refshow + "]";
            return o;
          }
          if (!o.undec) { o.why = "lane " + std::to_string(i) + " of result " + std::to_string(k) + " is " + C.show(a) + ", not proved equal to " + refshow; }
          o.undec = true; o.unsep = true; if (++unsep > 3) return o; continue;
        }
      }
    }
    if (p.kind == "ptr") {
      if (refs.empty()) continue;
      Run &r = refs[0];
      Obj &A = im.I->objs[im.obj[k]], &B = r.I->objs[r.obj[k]];
      // final contents
      if (o.mem == "-") o.mem = "ok";
      std::set<int64_t> offs; for (auto &kv : A.written) offs.insert(kv.first); for (auto &kv : B.written) offs.insert(kv.first);
      for (int64_t off : offs) {
        o.lanes++;
        Edge ok = F0; std::vector<BV> bvals; std::string sa, sb;
        MB x = im.I->readByte(im.obj[k], off);
        BV a(x.b, x.b + 8);
        for (auto &rr : refs) {
          MB y = rr.I->readByte(rr.obj[k], off); BV b(y.b, y.b + 8);
          ok = C.B.Or(ok, cmpBits(a, b)); bvals.push_back(b);
          if (c.events) ok = C.B.Or(ok, Bdd::Not(im.I->returned));
          if (sb.empty()) sb = C.show(b);
        }
        if (ok != T1) {
          std::string wit;
          if (separate(ok, a, bvals, false, wit)) { o.mem = "bad"; o.undec = false; o.why = "memory byte " + std::to_string(off) + ": input " + wit + " [stores " + C.show(a) + "; should be " + sb + "]"; break; }
          o.undec = true; o.unsep = true; o.why = "memory byte " + std::to_string(off) + " becomes " + C.show(a) + ", not proved equal to " + sb; if (++unsep > 3) return o;
        }
      }
      if (A.ss.size() || B.ss.size()) {
        typedef std::pair<BV, BV> Key;   // address, cond+value
        auto keys = [&](Obj &O) { std::multiset<Key> s; for (auto &x : O.ss) { if (x.cond == F0) continue; BV v(x.v.b, x.v.b + 8); v.push_back(x.cond); s.insert({x.addr, v}); } return s; };
        auto ka = keys(A), kb = keys(B);
        o.lanes += (int)kb.size();
        if (ka != kb || A.written != B.written) {
          bool any = false;
          for (auto &rr : refs) if (keys(rr.I->objs[rr.obj[k]]) == ka) any = true;
          if (!any) {
            // constant fold the two store lists
            std::string diff = "scattered stores differ: ";
            for (auto &x : ka) if (!kb.count(x)) { diff += "stores " + C.show(BV(x.second.begin(), x.second.end() - 1)) + " at offset " + C.show(x.first); break; }
            for (auto &x : kb) if (!ka.count(x)) { diff += " expected " + C.show(BV(x.second.begin(), x.second.end() - 1)) + " at offset " + C.show(x.first); break; }
            Sampler S(C); std::vector<Edge> roots;
            auto add = [&](Obj &O) { for (auto &x : O.ss) { roots.insert(roots.end(), x.addr.begin(), x.addr.end()); roots.push_back(x.cond); roots.insert(roots.end(), x.v.b, x.v.b + 8); } for (auto &kv : O.written) { roots.push_back(kv.second); MB &m = O.um[kv.first]; roots.insert(roots.end(), m.b, m.b + 8); } };
            add(A); add(B); S.collect(roots);
            bool sepd = false;
            for (int t = 0; t < 60 && !sepd; t++) {
              S.sample(t, F0);
              auto cv = [&](Obj &O) { std::multiset<std::pair<uint64_t, int>> r; for (auto &x : O.ss) if (S.eval(x.cond)) r.insert({(uint64_t)S.evalBV(x.addr), (int)S.evalBV(BV(x.v.b, x.v.b + 8))}); for (auto &kv : O.written) if (S.eval(kv.second)) { MB &m = O.um[kv.first]; r.insert({(uint64_t)kv.first, (int)S.evalBV(BV(m.b, m.b + 8))}); } return r; };
              if (cv(A) != cv(B)) { sepd = true; o.mem = "bad"; o.undec = false; o.why = diff + "; input " + S.describe(); }
            }
            if (!sepd) { o.undec = true; o.unsep = true; o.why = diff; }
          }
        }
      }
      // footprint: every byte touched must be touched by the reference under a weaker condition
      std::map<std::pair<BV, bool>, Edge> fp;
      for (auto &a : r.I->log) if (a.obj == r.obj[k]) for (int64_t q = 0; q < a.size; q++) { auto key = std::make_pair(q ? C.add(a.off, Core::cst(q, 64)) : a.off, a.store); auto it = fp.find(key); if (it == fp.end()) fp[key] = a.cond; else it->second = C.B.Or(it->second, a.cond); }
      if (o.foot == "-") o.foot = "ok";
      if (o.align == "-") o.align = "ok";
      for (auto &a : im.I->log) if (a.obj == im.obj[k]) {
        o.accesses++;
        for (int64_t q = 0; q < a.size && o.foot == "ok"; q++) {
          auto key = std::make_pair(q ? C.add(a.off, Core::cst(q, 64)) : a.off, a.store);
          auto it = fp.find(key);
          Edge allowed = it == fp.end() ? F0 : it->second;
          if (!C.B.implies(a.cond, allowed)) {
            // constant fold: is the byte really outside what the reference touches?
            bool sepd = false; std::string wit;
            Sampler S(C); std::vector<Edge> roots{a.cond}; for (Edge e : key.first) roots.push_back(e);
            for (auto &f : fp) if (f.first.second == a.store) { roots.insert(roots.end(), f.first.first.begin(), f.first.first.end()); roots.push_back(f.second); }
            S.collect(roots);
            for (int t = 0; t < 100 && !sepd; t++) {
              S.sample(t, C.B.And(a.cond, Bdd::Not(allowed)));
              if (!S.eval(a.cond)) continue;
              uint64_t ad = (uint64_t)S.evalBV(key.first); bool cov = false;
              for (auto &f : fp) if (f.first.second == a.store && (uint64_t)S.evalBV(f.first.first) == ad && S.eval(f.second)) { cov = true; break; }
              if (!cov) { sepd = true; wit = S.describe(3); }
            }
            if (!sepd) { o.undec = true; o.why = "footprint not proved: offset " + C.show(key.first); continue; }
            o.foot = "bad";
            o.detail["foot"] = std::string(a.store ? "writes" : "reads") + " byte at offset " + C.show(key.first) + " of argument " + std::to_string(k) + (allowed == F0 ? ", which the operation does not cover" : ", even when its lane is inactive") + " (input " + wit + ") [" + instrLoc(a.I) + "]";
          }
        }
        if (a.align > (uint64_t)p.align && o.align == "ok") {
          o.align = "bad";
          o.detail["align"] = std::string(a.store ? "store" : "load") + " assumes alignment " + std::to_string(a.align) + " but the pointer is only guaranteed " + std::to_string(p.align) + " [" + instrLoc(a.I) + "]";
        }
      }
    }
  }
  if (c.events) {
    Edge ok = F0; std::vector<BV> bv; if (o.out == "-") o.out = "ok";
    for (auto &r : refs) {
      Edge e = cmpBits(im.I->token, r.I->token);
      std::set<std::string> keys; for (auto &x : im.I->exits) keys.insert(x.first); for (auto &x : r.I->exits) keys.insert(x.first);
      for (auto &k : keys) { auto at = [&](Run &q) { auto it = q.I->exits.find(k); return it == q.I->exits.end() ? F0 : it->second; }; e = C.B.And(e, Bdd::Not(C.B.Xor(at(im), at(r)))); }
      ok = C.B.Or(ok, e); bv.push_back(r.I->token);
    }
    o.lanes++;
    if (ok != T1) {
      std::string wit, tr = "effects [" + im.I->trace + "], should be [" + refs[0].I->trace + "]";
      if (separate(ok, BV(), {}, false, wit)) { o.out = "bad"; o.undec = false; o.why = tr + "; input " + wit; return o; }
      o.undec = true; o.why = "not proved: " + tr;
    }
  }
  if (c.mode == "sum" && o.out != "bad") {
    // one scalar result (param 0) that is a tree of additions over every lane of param 1 exactly once
    const Param &pi = c.ps[1];
    const Param &po = c.ps[0];
    BV v; laneBits(im, 0, 0, po.w / 8, v);
    std::vector<BV> leaves;
    if (po.w == 16 && pi.w == 32) { int id = C.match(v); if (id >= 0 && C.ufs[id].op == "fptrunc") v = C.ufs[id].args[0]; }
    if (po.w == 16 && pi.w == 16) { o.undec = true; o.why = "half-register sums"; return o; }
    findSumTree(v, leaves, 0);
    std::multiset<BV> got(leaves.begin(), leaves.end()), want;
    for (int i = 0; i < pi.n; i++) { BV l; for (int j = 0; j < pi.w; j++) l.push_back(in(1, i, j)); want.insert(l); }
    BV pz = Core::cst(0, pi.w); while (got.count(pz)) got.erase(got.find(pz));
    if (o.out == "-" || o.out == "ok") o.out = "ok";
    o.lanes = pi.n;
    if (got != want) {
      o.out = "bad"; o.why = "the sum is not a tree of additions over each lane once:";
      for (auto &w : want) if (got.count(w) != 1) { o.why += " lane " + C.show(w) + " is added " + std::to_string(got.count(w)) + " times"; break; }
      for (auto &g : got) if (!want.count(g)) { o.why += " term " + C.show(g); break; }
    }
  }
  (void)decided;
  return o;
}

int main(int argc, char **argv) {
  if (argc < 3) { fprintf(stderr, "usage: engine cells.jsonl module.bc...\n"); return 2; }
  LLVMContext &ctx = *new LLVMContext; SMDiagnostic err;
  for (int i = 2; i < argc; i++) {
    auto m = parseIRFile(argv[i], err, ctx);
    if (!m) { err.print(argv[i], errs()); return 2; }
    prepare(*m); mods.push_back(std::move(m));
  }
  auto buf = MemoryBuffer::getFile(argv[1]);
  if (!buf) return 2;
  StringRef rest = (*buf)->getBuffer();
  while (!rest.empty()) {
    auto pr = rest.split('\n'); rest = pr.second;
    if (pr.first.trim().empty()) continue;
    auto v = json::parse(pr.first);
    if (!v) { logAllUnhandledErrors(v.takeError(), errs()); return 2; }
    json::Object &o = *v->getAsObject();
    Cell c; c.id = o.getString("id")->str(); c.fn = o.getString("fn")->str();
    if (auto x = o.getInteger("vscale")) c.vscale = (unsigned)*x;
    if (auto x = o.getInteger("n")) c.n = (int)*x;
    if (auto x = o.getString("ext")) c.ext = x->str();
    if (auto x = o.getString("mode")) c.mode = x->str();
    if (auto x = o.getBoolean("half")) c.half = *x;
    if (auto x = o.getBoolean("passN")) c.passN = *x;
    if (auto x = o.getBoolean("base")) c.base = *x;
    if (auto x = o.getBoolean("events")) c.events = *x;
    if (auto x = o.getInteger("lin")) c.lin = (int)*x;
    if (auto x = o.getInteger("parts")) c.parts = (int)*x;
    if (auto x = o.getInteger("nodes")) c.nodes = (uint64_t)*x;
    if (auto x = o.getArray("highParts")) for (auto &v : *x) if (auto i = v.getAsInteger()) c.highParts.push_back((uint64_t)*i);
    if (auto x = o.getBoolean("laneOrder")) c.laneOrder = *x;
    if (auto x = o.getInteger("budget")) c.budget = (uint64_t)*x;
    for (auto &r : *o.getArray("refs")) c.refs.push_back(r.getAsString()->str());
    for (auto &q : *o.getArray("params")) {
      json::Object &po = *q.getAsObject(); Param p; p.kind = po.getString("k")->str();
      if (auto x = po.getInteger("n")) p.n = (int)*x;
      if (auto x = po.getInteger("w")) p.w = (int)*x;
      if (auto x = po.getInteger("rw")) p.rw = (int)*x;
      if (auto x = po.getString("repr")) p.repr = x->str();
      if (auto x = po.getInteger("elem")) p.elem = (int)*x;
      if (auto x = po.getInteger("align")) p.align = (int)*x;
      if (auto x = po.getInteger("v")) { p.hasV = true; p.v = *x; }
      if (auto x = po.getInteger("low")) p.low = (int)*x;
      if (auto x = po.getInteger("lo")) p.lo = (int)*x;
      if (auto x = po.getBoolean("fp")) p.fp = *x;
      if (auto x = po.getInteger("sbits")) p.sbits = (int)*x;
      c.ps.push_back(p);
    }
    auto t0 = std::chrono::steady_clock::now();
    Out r; int pass = 1;
    try {
      r = compare(c, false);
      if (c.mode != "sum" && r.unsep) { Out r2; pass = 2; bool fb = r.foot == "bad" || r.align == "bad"; try { r2 = compare(c, true); } catch (TooBig &e) { r2.undec = true; r2.why = std::string("exact pass: ") + e.what(); }
        if (r2.undec) { r2.why = r.why + " {" + r2.why.substr(0, 80) + "}"; if (fb) { r2.foot = r.foot; r2.align = r.align; for (auto &kv : r.detail) r2.detail[kv.first] = kv.second; } }
        r = std::move(r2); }
    } catch (TooBig &e) { r = Out(); r.undec = true; r.why = e.what(); }
    catch (Unsupported &e) { r = Out(); r.undec = true; r.why = e.what(); }
    double ms = std::chrono::duration<double, std::milli>(std::chrono::steady_clock::now() - t0).count();
    json::Object res{{"id", c.id}, {"out", r.out}, {"mem", r.mem}, {"foot", r.foot}, {"align", r.align}, {"why", json::fixUTF8(r.why)}, {"undec", r.undec}, {"lanes", r.lanes}, {"accesses", r.accesses}, {"pass", pass}, {"ms", ms}};
    if (!r.detail.empty()) res["detail"] = std::move(r.detail);
    outs() << json::Value(std::move(res)) << "\n";
    outs().flush();
  }
  outs().flush(); _exit(0);
}
