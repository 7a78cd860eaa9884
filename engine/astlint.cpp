// Queries over the type-checked program (clang's AST, templates included): what has static storage and who modifies it,
// which functions end the process, which definitions of headers would clash between translation units.
//   astlint <root> file.cpp -- <compiler arguments>
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/Mangle.h>
#include <clang/Basic/Builtins.h>
#include <clang/Lex/Lexer.h>
#include <clang/AST/ParentMapContext.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Tooling/Tooling.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <llvm/Support/JSON.h>
#include <map>
#include <set>
using namespace clang;
static std::string Root;
typedef llvm::json::Object J;

struct V : RecursiveASTVisitor<V> {
  ASTContext &C; SourceManager &SM; std::vector<const FunctionDecl *> stack;
  std::map<const VarDecl *, std::vector<llvm::json::Value>> uses; std::vector<const VarDecl *> vars;
  size_t nfun = 0, ncall = 0, nvar = 0, ntmpl = 0;
  ASTNameGenerator NG; explicit V(ASTContext &c) : C(c), SM(c.getSourceManager()), NG(c) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool where(SourceLocation l, std::string &f, unsigned &n) {
    l = SM.getExpansionLoc(l); if (l.isInvalid()) return false;
    auto p = SM.getPresumedLoc(l, false); if (p.isInvalid()) return false;
    f = p.getFilename(); n = p.getLine();
    if (f.compare(0, Root.size(), Root) != 0) return false;
    f = f.substr(Root.size()); while (!f.empty() && f[0] == '/') f.erase(0, 1);
    return true;
  }
  static void emit(J o) { llvm::outs() << llvm::json::Value(std::move(o)) << "\n"; }
  std::string fn() { return stack.empty() ? "" : stack.back()->getQualifiedNameAsString(); }
  bool TraverseFunctionDecl(FunctionDecl *d) { stack.push_back(d); bool r = RecursiveASTVisitor::TraverseFunctionDecl(d); stack.pop_back(); return r; }
  bool TraverseCXXMethodDecl(CXXMethodDecl *d) { stack.push_back(d); bool r = RecursiveASTVisitor::TraverseCXXMethodDecl(d); stack.pop_back(); return r; }
  bool TraverseCXXConstructorDecl(CXXConstructorDecl *d) { stack.push_back(d); bool r = RecursiveASTVisitor::TraverseCXXConstructorDecl(d); stack.pop_back(); return r; }
  bool TraverseCXXDestructorDecl(CXXDestructorDecl *d) { stack.push_back(d); bool r = RecursiveASTVisitor::TraverseCXXDestructorDecl(d); stack.pop_back(); return r; }
  bool TraverseCXXConversionDecl(CXXConversionDecl *d) { stack.push_back(d); bool r = RecursiveASTVisitor::TraverseCXXConversionDecl(d); stack.pop_back(); return r; }

  // the name of a function as it is written where it is declared (the macro, when a macro gives the name)
  std::string spelled(FunctionDecl *d) {
    SmallString<64> buf; bool bad = false;
    SourceLocation l = SM.getExpansionLoc(d->getLocation());
    StringRef r = Lexer::getSpelling(l, buf, SM, C.getLangOpts(), &bad);
    return bad ? "" : r.str();
  }
  // result and parameters: kind of the element and its bits, number of elements
  std::string type1(QualType t) {
    t = t.getCanonicalType();
    if (t->isVoidType()) return "void";
    if (t->isPointerType()) return "ptr";
    std::string n; uint64_t cnt = 1;
    if (auto *v = t->getAs<VectorType>()) { cnt = v->getNumElements(); t = v->getElementType(); if (v->getVectorKind() == VectorKind::SveFixedLengthData) n = "s"; }
    else if (t->isSizelessBuiltinType()) { return "sve:" + t.getAsString(); }
    else if (auto *r = t->getAsStructureType()) { std::string s = "{"; for (auto *f : r->getDecl()->fields()) s += type1(f->getType()) + ";"; return s + "}"; }
    n = t->isRealFloatingType() ? "f" : t->isSignedIntegerType() ? "i" : t->isUnsignedIntegerType() ? "u" : "?";
    if (n == "?") return t.getAsString();
    return n + std::to_string(C.getTypeSize(t)) + (cnt > 1 ? "x" + std::to_string(cnt) : "");
  }
  std::string types(FunctionDecl *d) {
    std::string s = type1(d->getReturnType());
    for (auto *p : d->parameters()) s += "," + type1(p->getType());
    return s;
  }
  bool VisitFunctionDecl(FunctionDecl *d) {
    std::string f; unsigned n;
    if (!where(d->getLocation(), f, n)) return true;
    bool tmpl = d->isTemplated() || d->isTemplateInstantiation();
    if (tmpl) ntmpl++;
    if (d->isThisDeclarationADefinition() && d->hasBody()) nfun++;
    if (tmpl) return true;
    if (d->isThisDeclarationADefinition() || d == d->getFirstDecl()) {
      const FunctionDecl *def = nullptr; bool has = d->hasBody(def) || d->isDefaulted() || d->isDeleted() || d->isPureVirtual();
      bool ext = d->hasExternalFormalLinkage() && d->getFormalLinkage() == Linkage::External;
      bool strong = d->isThisDeclarationADefinition() && !d->isInlined() && ext && !d->isDeleted() && !d->isDefaulted();
      emit(J{{"k", "fun"}, {"name", d->getQualifiedNameAsString()}, {"sym", ext ? NG.getName(d) : ""}, {"file", f}, {"line", (int64_t)n}, {"def", d->isThisDeclarationADefinition()}, {"strong", strong}, {"ext", ext}, {"defined", has}, {"cdecl", d->isExternC()}, {"spell", spelled(d)}, {"type", types(d)}});
    }
    return true;
  }
  bool VisitVarDecl(VarDecl *d) {
    if (isa<ParmVarDecl>(d)) return true;
    std::string f; unsigned n;
    if (!d->hasGlobalStorage() || !where(d->getLocation(), f, n)) return true;
    nvar++;
    QualType t = d->getType(); QualType e = C.getBaseElementType(t.getNonReferenceType());
    bool cst = d->isConstexpr() || (e.isConstQualified() && !e.isVolatileQualified());
    if (auto *r = e->getAsCXXRecordDecl()) if (r->hasDefinition() && r->hasMutableFields()) cst = false;
    if (t->isReferenceType()) cst = true;
    bool strong = d->isThisDeclarationADefinition() == VarDecl::Definition && !d->isInline() && d->getFormalLinkage() == Linkage::External && !d->isTemplated() && !d->isStaticLocal() && !isTemplateInstantiation(d->getTemplateSpecializationKind());
    if (d == d->getCanonicalDecl()) vars.push_back(d);
    emit(J{{"k", "var"}, {"name", d->getQualifiedNameAsString()}, {"file", f}, {"line", (int64_t)n}, {"fn", fn()}, {"const", cst}, {"tls", d->getTLSKind() != VarDecl::TLS_None}, {"strong", strong}, {"type", t.getAsString()},
          {"dyninit", d->isStaticLocal() && d->hasInit() && !d->getInit()->isValueDependent() && !d->hasConstantInitialization() }});
    return true;
  }
  static bool toMutable(QualType t) { return t->isPointerType() && !t->getPointeeType()->isFunctionType() && !t->getPointeeType().isConstQualified(); }
  // what happens to a static object named here; for a const one only casts that drop the const matter
  const char *how(const Expr *e, bool cst, bool ptr) {
    const Stmt *cur = e; bool dropped = !cst;
    for (int k = 0; k < 30; k++) {
      auto ps = C.getParents(*cur);
      if (ps.empty()) return "escape";
      const Stmt *p = ps[0].get<Stmt>();
      if (!p) return dropped ? "escape" : "read";
      if (isa<ParenExpr>(p) || isa<MemberExpr>(p)) { cur = p; continue; }
      if (auto *a = dyn_cast<ArraySubscriptExpr>(p)) { if (a->getBase()->IgnoreParenImpCasts() == cast<Expr>(cur)->IgnoreParenImpCasts()) { cur = p; continue; } return "read"; }
      if (auto *c = dyn_cast<CastExpr>(p)) {
        QualType t = c->getType();
        if (c->getCastKind() == CK_LValueToRValue) { if (ptr && toMutable(t)) return "escape"; return "read"; }
        if (!dropped) {
          bool nc = t->isPointerType() ? !t->getPointeeType().isConstQualified() : c->isGLValue() && !t.isConstQualified();
          if (nc && t->isPointerType() && C.getBaseElementType(t->getPointeeType()).isConstQualified()) nc = false;
          if (!nc) { cur = p; continue; }
          dropped = true;
        }
        if (t->isPointerType() && t->getPointeeType().isConstQualified()) return "read";
        if (c->isGLValue() && t.isConstQualified()) return "read";
        cur = p; continue;
      }
      if (auto *u = dyn_cast<UnaryOperator>(p)) { if (u->isIncrementDecrementOp()) return "write"; if (u->getOpcode() == UO_Deref || u->getOpcode() == UO_AddrOf) { cur = p; continue; } return "read"; }
      if (auto *b = dyn_cast<BinaryOperator>(p)) {
        if (b->isAssignmentOp() && b->getLHS()->IgnoreParens() == cast<Expr>(cur)->IgnoreParens()) return "write";
        if (b->getOpcode() == BO_Add || b->getOpcode() == BO_Sub) { cur = p; continue; }
        return "read";
      }
      if (isa<UnaryExprOrTypeTraitExpr>(p)) return "read";
      return dropped ? "escape" : "read";
    }
    return "escape";
  }
  bool VisitDeclRefExpr(DeclRefExpr *e) {
    auto *d = dyn_cast<VarDecl>(e->getDecl()); if (!d || isa<ParmVarDecl>(d) || !d->hasGlobalStorage()) return true;
    d = d->getCanonicalDecl();
    std::string f; unsigned n; if (!where(e->getLocation(), f, n)) return true;
    std::string df; unsigned dn; bool own = where(d->getLocation(), df, dn);
    QualType t = C.getBaseElementType(d->getType().getNonReferenceType()); bool cst = t.isConstQualified() || d->isConstexpr(), ptr = toMutable(t);
    if (auto *r = t->getAsCXXRecordDecl()) if (r->hasDefinition() && r->hasMutableFields()) cst = false;
    const char *h = how(e, cst, ptr); if (cst && !strcmp(h, "read")) return true;
    emit(J{{"k", "use"}, {"name", d->getQualifiedNameAsString()}, {"own", own}, {"file", f}, {"line", (int64_t)n}, {"fn", fn()}, {"how", h}, {"vline", own ? (int64_t)dn : 0}, {"vfile", own ? df : ""}, {"vfn", ""}});
    return true;
  }
  void stop(SourceLocation l, const std::string &what) { std::string f; unsigned n; if (where(l, f, n)) stoppersSet.insert(fn()), emit(J{{"k", "stop"}, {"what", what}, {"file", f}, {"line", (int64_t)n}, {"fn", fn()}}); }
  bool VisitCallExpr(CallExpr *e) {
    std::string f; unsigned n; if (!where(e->getBeginLoc(), f, n)) return true;
    ncall++;
    if (const FunctionDecl *d = e->getDirectCallee()) {
      std::string s = d->getNameAsString();
      static const std::set<std::string> S = {"abort", "exit", "_exit", "_Exit", "quick_exit", "terminate", "__assert_fail", "__assert", "raise", "kill", "longjmp", "__builtin_trap", "__builtin_unreachable", "__builtin_abort", "__builtin_longjmp"};
      if (S.count(s)) stop(e->getBeginLoc(), s);
      std::string df; unsigned dn;
      if (where(d->getLocation(), df, dn)) callers[d->getQualifiedNameAsString()].insert(fn());
      else if ((!d->getBuiltinID() || C.BuiltinInfo.isPredefinedLibFunction(d->getBuiltinID()))) emit(J{{"k", "ext"}, {"name", d->getQualifiedNameAsString()}, {"file", f}, {"line", (int64_t)n}, {"fn", fn()}});
    } else if (auto *u = dyn_cast<UnresolvedLookupExpr>(e->getCallee()->IgnoreParens())) {
      std::string s = u->getName().getAsString();
      for (auto *d : u->decls()) if (auto *g = dyn_cast<NamedDecl>(d->getUnderlyingDecl())) callers[g->getQualifiedNameAsString()].insert(fn());
      if (s == "abort" || s == "exit" || s == "terminate") stop(e->getBeginLoc(), s);
      emit(J{{"k", "ext"}, {"name", s}, {"file", f}, {"line", (int64_t)n}, {"fn", fn()}, {"lookup", true}});
    }
    return true;
  }
  bool VisitGCCAsmStmt(GCCAsmStmt *s) { std::string f; unsigned n; if (where(s->getBeginLoc(), f, n)) emit(J{{"k", "asm"}, {"file", f}, {"line", (int64_t)n}, {"fn", fn()}}); return true; }
  bool VisitCXXThrowExpr(CXXThrowExpr *s) { stop(s->getBeginLoc(), "throw " + (s->getSubExpr() ? s->getSubExpr()->getType().getCanonicalType().getUnqualifiedType().getAsString() : std::string(""))); return true; }
  // who calls a function that ends the process
  void stoppers() {
    std::set<std::string> todo = stoppersSet, done;
    while (!todo.empty()) {
      std::string t = *todo.begin(); todo.erase(todo.begin()); if (!done.insert(t).second) continue;
      for (auto &c : callers[t]) { emit(J{{"k", "stopcall"}, {"fn", c}, {"callee", t}}); todo.insert(c); }
    }
  }
  std::map<std::string, std::set<std::string>> callers; std::set<std::string> stoppersSet;
};
struct Cons : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    V v(C); v.TraverseDecl(C.getTranslationUnitDecl());
    v.stoppers();
    V::emit(J{{"k", "sum"}, {"functions", (int64_t)v.nfun}, {"calls", (int64_t)v.ncall}, {"vars", (int64_t)v.nvar}, {"templates", (int64_t)v.ntmpl}});
  }
};
struct Act : ASTFrontendAction { std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Cons>(); } };
int main(int argc, char **argv) {
  Root = argv[1];
  std::vector<std::string> args; std::string file = argv[2];
  for (int i = 4; i < argc; i++) args.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", args);
  tooling::ClangTool T(db, {file});
  return T.run(tooling::newFrontendActionFactory<Act>().get());
}
