// efsw-export: prints every function body defined in the given directory of a
// translation unit as compact JSON.  Used by the contract verifier in /verif/vc.
// Dropped on purpose (and only this): parentheses, no-op casts, temporaries'
// materialisation/cleanup markers, attributes, FD_ZERO/FD_SET macro bodies,
// comments.  Constant integer expressions are folded by clang.
#include "clang/AST/ASTContext.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Lex/Lexer.h"
#include "llvm/Support/JSON.h"
#include <map>
#include <set>
using namespace clang;
namespace J = llvm::json;
static std::string Root;

struct Exporter {
  ASTContext &C; SourceManager &SM;
  J::Array Types; std::map<const void*, int> TypeIx; std::map<std::string,int> TypeStr;
  std::map<const Decl*, int> VarIx;
  J::Array Fns, Recs, Globals; std::set<std::string> SeenFn; std::set<const void*> SeenRec, SeenG;
  Exporter(ASTContext &c) : C(c), SM(c.getSourceManager()) {}

  std::string qn(const NamedDecl *D) {
    std::string s; llvm::raw_string_ostream os(s);
    PrintingPolicy P(C.getLangOpts()); P.SuppressInlineNamespace = true; 
    P.SuppressUnwrittenScope = true;
    D->printQualifiedName(os, P); return os.str();
  }
  std::string tstr(QualType T) {  // canonical compact spelling
    T = T.getCanonicalType(); T = T.getUnqualifiedType();
    const Type *t = T.getTypePtr();
    if (auto *b = dyn_cast<BuiltinType>(t)) { PrintingPolicy P(C.getLangOpts()); P.Bool = true; return b->getName(P).str(); }
    if (auto *p = dyn_cast<PointerType>(t)) return "P<" + tstr(p->getPointeeType()) + ">";
    if (auto *r = dyn_cast<ReferenceType>(t)) return "R<" + tstr(r->getPointeeType()) + ">";
    if (auto *a = dyn_cast<ConstantArrayType>(t)) return "A<" + tstr(a->getElementType()) + "," + std::to_string(a->getSize().getZExtValue()) + ">";
    if (auto *a = dyn_cast<ArrayType>(t)) return "A<" + tstr(a->getElementType()) + ",0>";
    if (isa<EnumType>(t)) return "E<" + qn(cast<EnumType>(t)->getDecl()) + ">";
    if (auto *r = dyn_cast<RecordType>(t)) {
      auto *D = r->getDecl();
      if (auto *cr = dyn_cast<CXXRecordDecl>(D)) if (cr->isLambda()) return "lambda";
      if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(D)) {
        std::string s = qn(S) ; size_t p = s.find('<'); (void)p;
        std::string o = qn(S->getSpecializedTemplate()) + "<"; bool first = true;
        for (auto &A : S->getTemplateArgs().asArray()) {
          std::function<void(const TemplateArgument&)> one = [&](const TemplateArgument &X) {
            if (X.getKind() == TemplateArgument::Pack) { for (auto &y : X.pack_elements()) one(y); return; }
            if (X.getKind() == TemplateArgument::Type) if (auto *q = X.getAsType()->getAsCXXRecordDecl()) { std::string w = qn(q);
              if (w.rfind("std::allocator",0)==0 || w.rfind("std::char_traits",0)==0 || w.rfind("std::less",0)==0 || w.rfind("std::hash",0)==0 || w.rfind("std::equal_to",0)==0) return; }
            if (!first) o += ","; first = false;
            if (X.getKind() == TemplateArgument::Type) o += tstr(X.getAsType());
            else if (X.getKind() == TemplateArgument::Integral) { llvm::SmallString<16> v; X.getAsIntegral().toString(v, 10); o += v.str().str(); }
            else o += "?";
          };
          one(A);
        }
        return o + ">";
      }
      return qn(D);
    }
    if (auto *f = dyn_cast<FunctionProtoType>(t)) {
      std::string o = "F<" + tstr(f->getReturnType()); for (auto p : f->param_types()) o += "," + tstr(p); return o + ">"; }
    return T.getAsString();
  }
  int ty(QualType T) {
    if (T.isNull()) return -1;
    std::string s = tstr(T);
    auto it = TypeStr.find(s); if (it != TypeStr.end()) return it->second;
    int n = Types.size(); Types.push_back(s); TypeStr[s] = n; return n;
  }
  std::string fkey(const FunctionDecl *F) {
    if (!F) return "?";
    std::string s;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) s = tstr(C.getRecordType(M->getParent())) + "::" + (isa<CXXConstructorDecl>(F) ? std::string("<ctor>") : isa<CXXDestructorDecl>(F) ? std::string("<dtor>") : F->getDeclName().getAsString());
    else s = qn(F);
    if (auto *A = F->getTemplateSpecializationArgs()) { s += "<"; bool first = true; for (auto &X : A->asArray()) { if (!first) s += ","; first = false; s += X.getKind() == TemplateArgument::Type ? tstr(X.getAsType()) : std::string("?"); } s += ">"; }
    s += "("; bool first = true;
    for (auto *p : F->parameters()) { if (!first) s += ","; first = false; s += tstr(p->getType()); }
    s += ")";
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->isConst()) s += "c";
    return s;
  }
  std::string loc(SourceLocation L) {
    L = SM.getExpansionLoc(L); if (L.isInvalid()) return "";
    std::string f = SM.getFilename(L).str(); 
    llvm::SmallString<256> rp; if (!llvm::sys::fs::real_path(f, rp)) f = rp.str().str();
    if (f.rfind(Root, 0) == 0) f = f.substr(Root.size());
    return f + ":" + std::to_string(SM.getExpansionLineNumber(L));
  }
  bool inRoot(SourceLocation L) {
    L = SM.getExpansionLoc(L); if (L.isInvalid()) return false;
    llvm::SmallString<256> rp; std::string f = SM.getFilename(L).str();
    if (llvm::sys::fs::real_path(f, rp)) return false;
    return rp.str().starts_with(Root);
  }
  int var(const ValueDecl *D) { D = cast<ValueDecl>(D->getCanonicalDecl()); auto it = VarIx.find(D); if (it != VarIx.end()) return it->second; int n = VarIx.size(); VarIx[D] = n; return n; }

  J::Object node(const char *k, const Stmt *S) { J::Object o; o["k"] = k; if (S) o["l"] = SM.getExpansionLineNumber(S->getBeginLoc()); if (auto *E = dyn_cast_or_null<Expr>(S)) o["t"] = ty(E->getType()); return o; }
  J::Object unsup(const Stmt *S) { auto o = node("unsup", S); o["what"] = S ? S->getStmtClassName() : "null"; return o; }
  J::Value opt(const Stmt *S) { if (!S) return nullptr; if (auto *E = dyn_cast<Expr>(S)) return ex(E); return st(S); }
  J::Array args(llvm::ArrayRef<const Expr*> A) { J::Array a; for (auto *e : A) a.push_back(ex(e)); return a; }
  template <class R> J::Array argsr(R r) { J::Array a; for (auto *e : r) a.push_back(ex(e)); return a; }

  J::Value ex(const Expr *E) {
    if (!E) return nullptr;
    if (auto *P = dyn_cast<ParenExpr>(E)) return ex(P->getSubExpr());
    if (auto *P = dyn_cast<FullExpr>(E)) return ex(P->getSubExpr());
    if (auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) { auto o = node("tmp", E); o["e"] = ex(P->getSubExpr()); return std::move(o); }
    if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) return ex(P->getSubExpr());
    if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return ex(P->getReplacement());
    if (auto *P = dyn_cast<CXXDefaultArgExpr>(E)) return ex(P->getExpr());
    if (auto *P = dyn_cast<CXXDefaultInitExpr>(E)) return ex(P->getExpr());
    if (auto *P = dyn_cast<OpaqueValueExpr>(E)) if (P->getSourceExpr()) return ex(P->getSourceExpr());
    if (auto *P = dyn_cast<CXXStdInitializerListExpr>(E)) return ex(P->getSubExpr());
    if (!E->isValueDependent() && E->isPRValue() && (E->getType()->isIntegralOrEnumerationType()) ) {
      Expr::EvalResult R;
      if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) {
        auto o = node("int", E); llvm::SmallString<24> v; R.Val.getInt().toString(v, 10); o["v"] = v.str().str(); return std::move(o); }
    }
    if (auto *D = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *V = D->getDecl();
      if (auto *F = dyn_cast<FunctionDecl>(V)) { auto o = node("fn", E); o["fn"] = fkey(F); return std::move(o); }
      if (auto *X = dyn_cast<VarDecl>(V)) {
        if (X->hasGlobalStorage()) { auto o = node("gvar", E); o["n"] = qn(X); o["static_local"] = X->isStaticLocal(); if (X->isStaticLocal()) { o["id"] = var(X);} return std::move(o); }
        auto o = node("var", E); o["id"] = var(X); o["n"] = X->getName().str(); o["vt"] = ty(X->getType()); return std::move(o);
      }
      auto o = node("unsup", E); o["what"] = "declref"; return std::move(o);
    }
    if (auto *M = dyn_cast<MemberExpr>(E)) {
      auto *F = dyn_cast<FieldDecl>(M->getMemberDecl());
      if (!F) { if (auto *X = dyn_cast<VarDecl>(M->getMemberDecl())) { auto o = node("gvar", E); o["n"] = qn(X); return std::move(o);} return unsup(E); }
      auto o = node("mem", E); o["b"] = ex(M->getBase()); o["arrow"] = M->isArrow(); o["f"] = F->getName().str(); o["cls"] = tstr(C.getRecordType(F->getParent())); o["ft"] = ty(F->getType()); return std::move(o);
    }
    if (isa<CXXThisExpr>(E)) return node("this", E);
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return node("null", E);
    if (auto *S = dyn_cast<StringLiteral>(E)) { auto o = node("str", E); if (S->getCharByteWidth()==1) o["v"] = J::fixUTF8(S->getString()); return std::move(o); }
    if (auto *B = dyn_cast<CXXBoolLiteralExpr>(E)) { auto o = node("int", E); o["v"] = B->getValue() ? "1" : "0"; return std::move(o); }
    if (auto *Cx = dyn_cast<CastExpr>(E)) {
      switch (Cx->getCastKind()) {
        case CK_NoOp: case CK_ConstructorConversion: case CK_UserDefinedConversion: return ex(Cx->getSubExpr());
        default: break;
      }
      auto o = node("cast", E); o["ck"] = Cx->getCastKindName(); o["e"] = ex(Cx->getSubExpr()); return std::move(o);
    }
    if (auto *U = dyn_cast<UnaryOperator>(E)) { auto o = node("un", E); o["op"] = UnaryOperator::getOpcodeStr(U->getOpcode()).str(); o["post"] = U->isPostfix(); o["e"] = ex(U->getSubExpr()); return std::move(o); }
    if (auto *B = dyn_cast<BinaryOperator>(E)) {
      auto o = node(B->isAssignmentOp() ? (B->isCompoundAssignmentOp() ? "cassign" : "assign") : "bin", E);
      o["op"] = B->getOpcodeStr().str(); o["a"] = ex(B->getLHS()); o["b"] = ex(B->getRHS());
      if (auto *CA = dyn_cast<CompoundAssignOperator>(E)) o["ct"] = ty(CA->getComputationLHSType());
      return std::move(o); }
    if (auto *Q = dyn_cast<AbstractConditionalOperator>(E)) { auto o = node("cond", E); o["c"] = ex(Q->getCond()); o["a"] = ex(Q->getTrueExpr()); o["b"] = ex(Q->getFalseExpr()); return std::move(o); }
    if (auto *A = dyn_cast<ArraySubscriptExpr>(E)) { auto o = node("idx", E); o["a"] = ex(A->getBase()); o["b"] = ex(A->getIdx()); return std::move(o); }
    if (auto *O = dyn_cast<CXXOperatorCallExpr>(E)) {
      auto o = node("opcall", E); o["op"] = getOperatorSpelling(O->getOperator()); o["fn"] = fkey(O->getDirectCallee()); 
      o["mem"] = O->getDirectCallee() && isa<CXXMethodDecl>(O->getDirectCallee());
      o["args"] = argsr(O->arguments());
      o["pt"] = ptypes(O->getDirectCallee());
      if (auto *F = O->getDirectCallee()) noteFn(F);
      return std::move(o); }
    if (auto *M = dyn_cast<CXXMemberCallExpr>(E)) {
      auto o = node("mcall", E); auto *F = M->getMethodDecl();
      if (!F) return unsup(E);
      o["fn"] = fkey(F); o["name"] = F->getDeclName().getAsString(); o["cls"] = tstr(C.getRecordType(F->getParent())); o["virt"] = F->isVirtual();
      o["obj"] = ex(M->getImplicitObjectArgument());
      if (auto *ME = dyn_cast<MemberExpr>(M->getCallee()->IgnoreParens())) { o["arrow"] = ME->isArrow(); if (ME->hasQualifier()) o["virt"] = false; } 
      o["ot"] = ty(M->getImplicitObjectArgument()->getType());
      o["args"] = argsr(M->arguments()); o["pt"] = ptypes(F); noteFn(F); return std::move(o); }
    if (auto *K = dyn_cast<CallExpr>(E)) {
      auto o = node("call", E); 
      if (auto *F = K->getDirectCallee()) { o["fn"] = fkey(F); o["name"] = qn(F); o["pt"] = ptypes(F); noteFn(F); }
      else o["callee"] = ex(K->getCallee());
      o["args"] = argsr(K->arguments()); return std::move(o); }
    if (auto *K = dyn_cast<CXXConstructExpr>(E)) {
      auto o = node("ctor", E); o["fn"] = fkey(K->getConstructor()); o["copy"] = K->getConstructor()->isCopyOrMoveConstructor(); 
      o["trivial"] = K->getConstructor()->isTrivial(); o["implicit"] = K->getConstructor()->isImplicit() || K->getConstructor()->isDefaulted();
      o["args"] = argsr(K->arguments()); o["pt"] = ptypes(K->getConstructor()); o["list"] = K->isListInitialization(); noteFn(K->getConstructor()); noteRec(K->getConstructor()->getParent()); return std::move(o); }
    if (auto *N = dyn_cast<CXXNewExpr>(E)) { auto o = node("new", E); o["et"] = ty(N->getAllocatedType()); o["array"] = N->isArray(); if (N->isArray()) o["n"] = ex(*N->getArraySize()); if (N->getInitializer()) o["init"] = ex(N->getInitializer()); return std::move(o); }
    if (auto *N = dyn_cast<CXXDeleteExpr>(E)) { auto o = node("delete", E); o["e"] = ex(N->getArgument()); o["array"] = N->isArrayForm(); o["et"] = ty(N->getDestroyedType()); if (auto *R = N->getDestroyedType()->getAsCXXRecordDecl()) if (R->hasDefinition()) { noteRec(R); if (auto *D = R->getDestructor()) { o["virt"] = D->isVirtual(); noteFn(D);} } return std::move(o); }
    if (auto *L = dyn_cast<LambdaExpr>(E)) {
      auto o = node("lambda", E); J::Array caps; 
      auto ci = L->capture_init_begin();
      for (auto &c : L->captures()) { J::Object k; if (c.capturesThis()) k["this"] = true; else if (c.capturesVariable()) { k["id"] = var(cast<VarDecl>(c.getCapturedVar())); k["ref"] = c.getCaptureKind() == LCK_ByRef; k["init"] = ex(*ci); } caps.push_back(std::move(k)); ++ci; }
      o["caps"] = std::move(caps); J::Array ps; for (auto *p : L->getCallOperator()->parameters()) ps.push_back(param(p)); o["params"] = std::move(ps); o["body"] = st(L->getBody()); return std::move(o); }
    if (auto *I = dyn_cast<InitListExpr>(E)) { if (I->isSemanticForm() == false && I->getSemanticForm()) I = I->getSemanticForm(); auto o = node("initlist", E); o["args"] = argsr(I->inits()); return std::move(o); }
    if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) return node("zero", E);
    if (auto *U = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) return unsup(U);
    if (auto *S = dyn_cast<StmtExpr>(E)) { auto o = node("stmtexpr", E); o["body"] = st(S->getSubStmt()); return std::move(o); }
    return unsup(E);
  }
  J::Array ptypes(const FunctionDecl *F) { J::Array a; if (F) for (auto *p : F->parameters()) a.push_back(ty(p->getType())); return a; }
  J::Object param(const VarDecl *p) { J::Object o; o["id"] = var(p); o["n"] = p->getName().str(); o["t"] = ty(p->getType()); return o; }

  J::Value st(const Stmt *S) {
    if (!S) return nullptr;
    SourceLocation B = S->getBeginLoc();
    if (B.isMacroID()) {
      auto nm = Lexer::getImmediateMacroName(B, SM, C.getLangOpts());
      SourceLocation Q = B; std::string names; while (Q.isMacroID()) { names += Lexer::getImmediateMacroName(Q, SM, C.getLangOpts()).str() + " "; Q = SM.getImmediateMacroCallerLoc(Q); }
      if (names.find("FD_ZERO") != std::string::npos || names.find("FD_SET ") != std::string::npos) { auto o = node("nop", nullptr); o["dropped"] = names; return std::move(o); }
    }
    if (auto *E = dyn_cast<Expr>(S)) { J::Object o; o["k"] = "expr"; o["l"] = SM.getExpansionLineNumber(B); o["e"] = ex(E); return std::move(o); }
    if (auto *X = dyn_cast<CompoundStmt>(S)) { auto o = node("block", S); J::Array a; for (auto *c : X->body()) a.push_back(st(c)); o["s"] = std::move(a); return std::move(o); }
    if (auto *X = dyn_cast<DeclStmt>(S)) {
      auto o = node("decl", S); J::Array a;
      for (auto *d : X->decls()) if (auto *V = dyn_cast<VarDecl>(d)) { auto p = param(V); p["init"] = ex(V->getInit()); p["static"] = V->isStaticLocal(); p["g"] = V->hasGlobalStorage(); if (V->hasGlobalStorage()) p["gn"] = qn(V); if (auto *R = V->getType()->getAsCXXRecordDecl()) if (R->hasDefinition()) noteRec(R); a.push_back(std::move(p)); }
      o["d"] = std::move(a); return std::move(o); }
    if (auto *X = dyn_cast<IfStmt>(S)) { auto o = node("if", S); if (X->getInit()) o["init"] = st(X->getInit()); if (X->getConditionVariableDeclStmt()) o["cv"] = st(X->getConditionVariableDeclStmt()); o["c"] = ex(X->getCond()); o["a"] = opt2(X->getThen()); o["b"] = opt2(X->getElse()); return std::move(o); }
    if (auto *X = dyn_cast<ForStmt>(S)) { auto o = node("for", S); o["init"] = opt2(X->getInit()); o["c"] = ex(X->getCond()); o["inc"] = ex(X->getInc()); o["body"] = opt2(X->getBody()); return std::move(o); }
    if (auto *X = dyn_cast<WhileStmt>(S)) { auto o = node("while", S); if (X->getConditionVariableDeclStmt()) o["cv"] = st(X->getConditionVariableDeclStmt()); o["c"] = ex(X->getCond()); o["body"] = opt2(X->getBody()); return std::move(o); }
    if (auto *X = dyn_cast<DoStmt>(S)) { auto o = node("do", S); o["c"] = ex(X->getCond()); o["body"] = opt2(X->getBody()); return std::move(o); }
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) { auto o = node("rangefor", S); auto p = param(X->getLoopVariable()); p["init"] = nullptr; o["var"] = std::move(p); o["range"] = ex(X->getRangeInit()); o["body"] = opt2(X->getBody()); return std::move(o); }
    if (auto *X = dyn_cast<ReturnStmt>(S)) { auto o = node("return", S); o["e"] = ex(X->getRetValue()); return std::move(o); }
    if (isa<BreakStmt>(S)) return node("break", S);
    if (isa<ContinueStmt>(S)) return node("continue", S);
    if (isa<NullStmt>(S)) return node("nop", S);
    if (auto *X = dyn_cast<SwitchStmt>(S)) { auto o = node("switch", S); o["c"] = ex(X->getCond()); o["body"] = opt2(X->getBody()); return std::move(o); }
    if (auto *X = dyn_cast<CaseStmt>(S)) { auto o = node("case", S); o["v"] = ex(X->getLHS()); o["s"] = opt2(X->getSubStmt()); return std::move(o); }
    if (auto *X = dyn_cast<DefaultStmt>(S)) { auto o = node("default", S); o["s"] = opt2(X->getSubStmt()); return std::move(o); }
    if (auto *X = dyn_cast<GotoStmt>(S)) { auto o = node("goto", S); o["n"] = X->getLabel()->getName().str(); return std::move(o); }
    if (auto *X = dyn_cast<LabelStmt>(S)) { auto o = node("label", S); o["n"] = X->getDecl()->getName().str(); o["s"] = opt2(X->getSubStmt()); return std::move(o); }
    if (auto *X = dyn_cast<AttributedStmt>(S)) return st(X->getSubStmt());
    return unsup(S);
  }
  J::Value opt2(const Stmt *S) { if (!S) return nullptr; return st(S); }

  void noteRec(const CXXRecordDecl *R) {
    if (!R || !R->hasDefinition()) return; R = R->getDefinition();
    if (!inRoot(R->getLocation())) return;
    if (!SeenRec.insert(R).second) return;
    J::Object o; o["name"] = tstr(C.getRecordType(R)); J::Array b; for (auto &x : R->bases()) b.push_back(tstr(x.getType())); o["bases"] = std::move(b);
    J::Array f; for (auto *x : R->fields()) { J::Object p; p["n"] = x->getName().str(); p["t"] = ty(x->getType()); if (x->hasInClassInitializer() && x->getInClassInitializer()) p["init"] = ex(x->getInClassInitializer()); f.push_back(std::move(p)); }
    o["fields"] = std::move(f);
    J::Array ms; for (auto *m : R->methods()) { J::Object p; p["key"] = fkey(m); p["virt"] = m->isVirtual(); p["impl"] = m->isImplicit()||m->isDefaulted(); J::Array ov; for (auto *q : m->overridden_methods()) ov.push_back(fkey(q)); p["over"] = std::move(ov); ms.push_back(std::move(p)); }
    o["methods"] = std::move(ms);
    Recs.push_back(std::move(o));
    for (auto &x : R->bases()) noteRec(x.getType()->getAsCXXRecordDecl());
  }
  std::vector<const FunctionDecl*> Queue;
  void noteFn(const FunctionDecl *F) { if (F->isTemplateInstantiation()) { const FunctionDecl *D = nullptr; if (F->hasBody(D) && D && inRoot(D->getLocation())) Queue.push_back(D); } }
  void fn(const FunctionDecl *F) {
    if (!F->doesThisDeclarationHaveABody() || F->isDependentContext() || F->isTemplated()) return;
    if (!inRoot(F->getLocation())) return;
    if (F->isImplicit() || F->isDefaulted()) return;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return;
    std::string key = fkey(F);
    if (!SeenFn.insert(key).second) return;
    J::Object o; o["key"] = key; o["name"] = qn(F); o["loc"] = loc(F->getLocation()); o["end"] = SM.getExpansionLineNumber(F->getEndLoc()); o["ret"] = ty(F->getReturnType());
    J::Array ps; for (auto *p : F->parameters()) ps.push_back(param(p)); o["params"] = std::move(ps);
    o["internal"] = !F->isExternallyVisible();
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) { o["cls"] = tstr(C.getRecordType(M->getParent())); o["static"] = M->isStatic(); o["const"] = M->isConst(); noteRec(M->getParent()); o["virt"] = M->isVirtual(); o["access"] = (int)M->getAccess(); 
      J::Array ov; for (auto *q : M->overridden_methods()) ov.push_back(fkey(q)); o["over"] = std::move(ov); }
    if (auto *K = dyn_cast<CXXConstructorDecl>(F)) { o["ctor"] = true; J::Array in;
      for (auto *i : K->inits()) { J::Object p; if (i->isBaseInitializer()) p["base"] = tstr(QualType(i->getBaseClass(),0)); else if (i->isAnyMemberInitializer()) { p["f"] = i->getAnyMember()->getName().str(); p["ft"] = ty(i->getAnyMember()->getType()); } else if (i->isDelegatingInitializer()) p["delegate"] = true; p["e"] = ex(i->getInit()); in.push_back(std::move(p)); }
      o["inits"] = std::move(in); }
    if (isa<CXXDestructorDecl>(F)) o["dtor"] = true;
    o["body"] = st(F->getBody());
    Fns.push_back(std::move(o));
  }
  void global(const VarDecl *V) {
    if (!V->hasGlobalStorage() || V->isStaticLocal() || !inRoot(V->getLocation())) return;
    if (!SeenG.insert(V->getCanonicalDecl()).second) return;
    if (V->getType()->isDependentType()) return;
    J::Object o; o["n"] = qn(V); o["t"] = ty(V->getType()); o["init"] = ex(V->getInit()); o["const"] = V->getType().isConstQualified(); Globals.push_back(std::move(o));
  }
};
struct Vis : RecursiveASTVisitor<Vis> {
  Exporter &X; Vis(Exporter &x) : X(x) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *F) { X.fn(F); return true; }
  bool VisitVarDecl(VarDecl *V) { X.global(V); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) { if (!R->isDependentContext() && !R->isLambda() && R->isThisDeclarationADefinition()) X.noteRec(R); return true; }
};
struct Cons : ASTConsumer { void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Exporter X(C); Vis V(X);
    for (auto *D : C.getTranslationUnitDecl()->decls()) {
      if (isa<NamespaceDecl>(D)||X.inRoot(D->getLocation())||isa<LinkageSpecDecl>(D)) {
        if (auto *N = dyn_cast<NamespaceDecl>(D)) if (!X.inRoot(N->getLocation())) continue;
        V.TraverseDecl(D);
      }
    }
    J::Object o; o["types"] = std::move(X.Types); o["fns"] = std::move(X.Fns); o["recs"] = std::move(X.Recs); o["globals"] = std::move(X.Globals);
    llvm::outs() << J::Value(std::move(o)) << "\n";
  } };
struct Act : ASTFrontendAction { std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Cons>(); } };
int main(int argc, const char **argv) {
  // efsw-export ROOT FILE -- flags
  Root = argv[1]; std::string file = argv[2]; 
  std::vector<std::string> fl; for (int i = 4; i < argc; i++) fl.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", fl);
  tooling::ClangTool T(DB, {file});
  T.appendArgumentsAdjuster(tooling::getInsertArgumentAdjuster("-resource-dir=/usr/lib/llvm-18/lib/clang/18", tooling::ArgumentInsertPosition::BEGIN));
  return T.run(tooling::newFrontendActionFactory<Act>().get());
}
