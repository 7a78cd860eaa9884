// Abstract interpreter over LLVM IR: forward dataflow in the domain of core.h, joins at control-flow merges.
#pragma once
#include "core.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IR/Dominators.h>

struct Elem {                               // obj >= 0: pointer (b = 64-bit offset)
  BV b; int obj = -1;
  std::shared_ptr<std::vector<std::pair<Edge, Elem>>> alt;   // OBJ_ALT: guarded pointers
  Elem() {}
  Elem(const BV &v, int o) : b(v), obj(o) {}
};
enum { OBJ_NULL = 0, OBJ_MIXED = -2, OBJ_ALT = -3, OBJ_EXT = -4 };   // OBJ_EXT: an address obtained from the environment (b: its bits)
struct Val {
  std::vector<Elem> e;
  Val() {}
  explicit Val(const BV &v) { e.push_back(Elem{v, -1}); }
  const BV &b() const { return e[0].b; }
  size_t size() const { return e.size(); }
  void add(const BV &v) { e.push_back(Elem{v, -1}); }
};

struct MB {              // one byte of memory
  Edge b[8];
  uint8_t st = 0;        // 0 uninitialised, 1 data, 2 byte of a pointer
  int obj = -1, idx = 0; // for pointers
  std::shared_ptr<BV> off;
};
struct SymStore { BV addr; Edge cond; MB v; };
struct Access { int obj; BV off; int64_t size; Edge cond; uint64_t align; bool store; const llvm::Instruction *I; };
struct Obj {
  std::string name;
  int64_t size = 0;      // < 0: unbounded (user memory)
  int elem = 1;          // element granularity of user memory
  bool user = false, readonly = false;
  std::string rd;        // name of the READ function for user memory
  std::vector<MB> m;
  std::map<int64_t, MB> um;   // user memory bytes written or read
  std::map<int64_t, Edge> written; // per byte, condition of being written
  std::vector<SymStore> ss;
  const llvm::GlobalVariable *gv = nullptr;
  const llvm::Function *fn = nullptr;
};

struct Interp;
struct Call {
  Interp &I; Core &C;
  const llvm::CallBase *cb;
  std::string name;
  std::vector<Val> a;
  Edge cond;
  Val ret;
  llvm::Type *aty(unsigned i) const { return cb->getArgOperand(i)->getType(); }
};

struct TooLong : std::runtime_error { using std::runtime_error::runtime_error; };

struct Interp {
  Core &C;
  const llvm::DataLayout *DL = nullptr;
  unsigned vscale = 1;
  std::vector<Obj> objs;
  std::vector<Access> log;
  std::map<const llvm::Function *, std::unique_ptr<llvm::LoopInfo>> loops;
  std::map<const llvm::Function *, std::unique_ptr<llvm::DominatorTree>> doms;
  std::map<const llvm::GlobalVariable *, int> gobj;
  std::map<const llvm::Function *, int> fobj;
  std::map<std::string, int> extCalls;        // external functions treated as uninterpreted
  std::vector<std::string> aborts;            // reached aborts (name @ location)
  std::map<std::string, int> unknown;         // unmodelled intrinsics seen
  std::map<BV, Elem> addrOf;
  uint64_t instrs = 0, maxInstrs = 3000000;
  int depth = 0;
  // resolver of external functions by name: gives a definition in another module if any
  std::function<const llvm::Function *(const std::string &)> resolve;
  // effects on the environment (allocator, streams, ...): a chain of uninterpreted events
  Edge returned = T1;    // condition under which the last call came back
  std::map<std::string, Edge> exits;   // exceptions and exits, with their condition
  bool events = false;
  BV token;
  std::string trace;                          // printable chain, for reports
  BV envArg(const Elem &p, const char *what);
  BV event(const std::string &name, const std::vector<BV> &args, Edge cond);
  bool environment(Call &c);
  bool keepHalf = true;                       // treat nsimd_u16_to_f32/nsimd_f32_to_u16 as the IEEE conversions
  std::string ext;                            // SIMD extension (sleef names are checked against it)

  Interp(Core &c) : C(c) {}
  void reset();
  int newObj(const std::string &name, int64_t size);
  Val call(const llvm::Function *F, std::vector<Val> args, Edge cond);

  // types
  unsigned count(llvm::Type *T);              // flattened leaves
  unsigned width(llvm::Type *T);              // scalar bits
  int64_t allocSize(llvm::Type *T);
  int64_t storeSize(llvm::Type *T);
  void leafTypes(llvm::Type *T, std::vector<llvm::Type *> &out);

  Val constant(const llvm::Constant *K);
  Val undef(llvm::Type *T, const char *why = "undef");
  Elem iteE(Edge c, const Elem &a, const Elem &b);
  Val iteVal(Edge c, const Val &a, const Val &b);
  BV flat(const Val &v);
  Val unflat(const BV &v, llvm::Type *T);

  // memory
  MB readByte(int obj, int64_t off);
  void writeByte(int obj, int64_t off, const MB &v, Edge cond);
  BV loadBits(const Elem &p, int64_t bytes, Edge cond, uint64_t align, const llvm::Instruction *I);
  void storeBits(const Elem &p, const BV &v, Edge cond, uint64_t align, const llvm::Instruction *I);
  Val loadVal(const Elem &p, llvm::Type *T, Edge cond, uint64_t align, const llvm::Instruction *I);
  void storeVal(const Elem &p, const Val &v, llvm::Type *T, Edge cond, uint64_t align, const llvm::Instruction *I);
  void logAccess(const Elem &p, int64_t size, Edge cond, uint64_t align, bool store, const llvm::Instruction *I);
  Elem altPtr(Edge c, const Elem &a, const Elem &b);
  Elem gep(const Elem &p, const BV &byteOff);
  BV ptrBits(const Elem &p);

  // intrinsics
  bool generic(Call &c);
  bool x86(Call &c);
  bool arm(Call &c);
  bool sve(Call &c);
  bool ppc(Call &c);
  bool library(Call &c);
  void doCall(const llvm::CallBase *cb, std::map<const llvm::Value *, Val> &env, Edge cond);
};
