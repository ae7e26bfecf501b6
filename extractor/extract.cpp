// Fact extractor: parses one translation unit with clang's front end (name
// lookup, overload resolution, template instantiation all done by clang) and
// writes, as JSON, a simplified typed syntax tree of every function defined in
// files below the repository root.  Nothing is executed.
//
//   crx <root> <out.json> <file> -- <compiler args>
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Lex/PPCallbacks.h"
#include "clang/Lex/Preprocessor.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>

using namespace clang;
namespace json = llvm::json;
using json::Array;
using json::Object;
using json::Value;

static std::string Root, OutPath;

struct Extractor {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<std::string, int> TypeIdx;
  Array Types;
  std::map<const Decl *, int> DeclIds;
  Array Functions, Records, Globals, Externs, Includes, Diags;
  std::set<const Decl *> SeenRec, SeenExt;

  Extractor(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
  }

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid()) return "";
    auto FE = SM.getFileEntryRefForID(SM.getFileID(L));
    if (!FE) return "";
    llvm::SmallString<256> P(FE->getName());
    llvm::sys::path::remove_dots(P, true);
    return std::string(P);
  }
  bool inRoot(SourceLocation L) {
    std::string f = fileOf(L);
    return f.rfind(Root + "/", 0) == 0;
  }
  std::string rel(SourceLocation L) {
    std::string f = fileOf(L);
    if (f.rfind(Root + "/", 0) == 0) return f.substr(Root.size() + 1);
    return f;
  }
  int line(SourceLocation L) { return (int)SM.getExpansionLineNumber(L); }

  std::string usr(const Decl *D) {
    llvm::SmallString<128> B;
    if (index::generateUSRForDecl(D, B)) return "";
    return std::string(B);
  }
  int declId(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = DeclIds.find(D);
    if (it != DeclIds.end()) return it->second;
    int n = (int)DeclIds.size() + 1;
    DeclIds[D] = n;
    return n;
  }
  int type(QualType T) {
    if (T.isNull()) return -1;
    std::string s = T.getAsString(PP);
    std::string c = T.getCanonicalType().getAsString(PP);
    std::string key = s + "\x01" + c;
    auto it = TypeIdx.find(key);
    if (it != TypeIdx.end()) return it->second;
    int n = (int)TypeIdx.size();
    TypeIdx[key] = n;
    Object o{{"s", s}, {"c", c}};
    QualType U = T.getCanonicalType();
    if (U->isReferenceType()) { o["ref"] = true; o["cref"] = U->getPointeeType().isConstQualified(); U = U->getPointeeType(); }
    if (U->isPointerType()) { o["ptr"] = true; o["cptr"] = U->getPointeeType().isConstQualified(); }
    if (U->isArrayType()) { o["arr"] = true;
      if (auto *CA = dyn_cast<ConstantArrayType>(U.getTypePtr())) o["n"] = (int64_t)CA->getSize().getZExtValue(); }
    if (U.isConstQualified()) o["const"] = true;
    if (U->isIntegralOrEnumerationType()) { o["int"] = true; if (!U->isDependentType() && !U->isIncompleteType()) { o["bits"] = (int64_t)C.getTypeSize(U); } o["uns"] = U->isUnsignedIntegerOrEnumerationType(); }
    if (U->isBooleanType()) o["bool"] = true;
    if (U->isFloatingType()) o["flt"] = true;
    if (U->isRecordType()) o["rec"] = true;
    if (U->isVoidType()) o["void"] = true;
    Types.push_back(std::move(o));
    return n;
  }

  // the name of a function, without template arguments
  std::string qn(const NamedDecl *D) {
    return D->getQualifiedNameAsString();
  }

  void noteExtern(const FunctionDecl *F) {
    F = F->getCanonicalDecl();
    if (!SeenExt.insert(F).second) return;
    Array ps;
    for (auto *P : F->parameters()) ps.push_back(type(P->getType()));
    Object o{{"id", declId(F)}, {"qn", qn(F)}, {"usr", usr(F->getCanonicalDecl())}, {"ret", type(F->getReturnType())}, {"params", std::move(ps)}, {"file", rel(F->getLocation())}, {"line", line(F->getLocation())}};
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = qn(M->getParent());
      o["method"] = true; o["const"] = M->isConst(); o["static"] = M->isStatic(); o["virtual"] = M->isVirtual();
      Array ov;
      for (auto *B : M->overridden_methods()) ov.push_back(usr(B));
      if (!ov.empty()) o["overrides"] = std::move(ov);
    }
    if (isa<CXXConstructorDecl>(F)) { o["ctor"] = true;
      auto *K = cast<CXXConstructorDecl>(F);
      if (K->isCopyConstructor()) o["copy"] = true;
      if (K->isMoveConstructor()) o["move"] = true;
      if (K->isDefaultConstructor()) o["default"] = true;
    }
    if (F->isNoReturn()) o["noreturn"] = true;
    if (F->isVariadic()) o["variadic"] = true;
    o["inroot"] = inRoot(F->getLocation());
    if (auto *Def = F->getDefinition()) o["hasdef"] = true, o["defInRoot"] = inRoot(Def->getLocation());
    if (auto *TP = F->getTemplateInstantiationPattern()) o["pattern"] = usr(TP);
    Externs.push_back(std::move(o));
  }

  Object base(const Stmt *S, const char *k) {
    Object o{{"k", k}, {"l", line(S->getBeginLoc())}};
    return o;
  }
  Value list(llvm::ArrayRef<const Stmt *> L) {
    Array a;
    for (auto *s : L) a.push_back(stmt(s));
    return Value(std::move(a));
  }

  Value varDecl(const VarDecl *V) {
    Object o{{"d", declId(V)}, {"n", V->getNameAsString()}, {"t", type(V->getType())}, {"l", line(V->getLocation())}};
    if (V->isStaticLocal()) o["static"] = true;
    if (V->getTSCSpec() != TSCS_unspecified) o["tls"] = true;
    if (V->hasGlobalStorage() && !V->isStaticLocal()) o["global"] = true;
    if (auto *I = V->getInit()) { o["init"] = stmt(I);
      o["istyle"] = V->getInitStyle() == VarDecl::CInit ? "c" : V->getInitStyle() == VarDecl::CallInit ? "call" : "list"; }
    // the size expression of a variable-length array
    QualType T = V->getType();
    if (auto *VA = C.getAsVariableArrayType(T)) if (VA->getSizeExpr()) o["vla"] = stmt(VA->getSizeExpr());
    return Value(std::move(o));
  }

  Value callArgs(llvm::ArrayRef<const Expr *> A) {
    Array a;
    for (auto *e : A) a.push_back(stmt(e));
    return Value(std::move(a));
  }

  Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *E = dyn_cast<Expr>(S)) return expr(E);
    switch (S->getStmtClass()) {
    case Stmt::CompoundStmtClass: {
      Object o = base(S, "Block");
      Array a;
      for (auto *c : cast<CompoundStmt>(S)->body()) a.push_back(stmt(c));
      o["b"] = std::move(a);
      o["el"] = line(S->getEndLoc());
      return Value(std::move(o));
    }
    case Stmt::DeclStmtClass: {
      Object o = base(S, "Decl");
      Array a;
      for (auto *d : cast<DeclStmt>(S)->decls()) {
        if (auto *V = dyn_cast<VarDecl>(d)) a.push_back(varDecl(V));
      }
      o["v"] = std::move(a);
      return Value(std::move(o));
    }
    case Stmt::IfStmtClass: {
      auto *I = cast<IfStmt>(S);
      Object o = base(S, "If");
      if (I->getInit()) o["init"] = stmt(I->getInit());
      if (I->getConditionVariableDeclStmt()) o["cv"] = stmt(I->getConditionVariableDeclStmt());
      o["c"] = stmt(I->getCond()); o["t"] = stmt(I->getThen()); o["e"] = stmt(I->getElse());
      return Value(std::move(o));
    }
    case Stmt::ForStmtClass: {
      auto *F = cast<ForStmt>(S);
      Object o = base(S, "For");
      o["init"] = stmt(F->getInit()); o["c"] = stmt(F->getCond()); o["inc"] = stmt(F->getInc()); o["b"] = stmt(F->getBody());
      return Value(std::move(o));
    }
    case Stmt::WhileStmtClass: {
      auto *W = cast<WhileStmt>(S);
      Object o = base(S, "While");
      if (W->getConditionVariableDeclStmt()) o["cv"] = stmt(W->getConditionVariableDeclStmt());
      o["c"] = stmt(W->getCond()); o["b"] = stmt(W->getBody());
      return Value(std::move(o));
    }
    case Stmt::DoStmtClass: {
      auto *W = cast<DoStmt>(S);
      Object o = base(S, "Do");
      o["c"] = stmt(W->getCond()); o["b"] = stmt(W->getBody());
      return Value(std::move(o));
    }
    case Stmt::CXXForRangeStmtClass: {
      auto *F = cast<CXXForRangeStmt>(S);
      Object o = base(S, "RangeFor");
      o["var"] = varDecl(F->getLoopVariable());
      o["range"] = stmt(F->getRangeInit()); o["b"] = stmt(F->getBody());
      return Value(std::move(o));
    }
    case Stmt::ReturnStmtClass: {
      Object o = base(S, "Return");
      o["e"] = stmt(cast<ReturnStmt>(S)->getRetValue());
      return Value(std::move(o));
    }
    case Stmt::BreakStmtClass: return Value(base(S, "Break"));
    case Stmt::ContinueStmtClass: return Value(base(S, "Continue"));
    case Stmt::NullStmtClass: return Value(base(S, "Null"));
    case Stmt::SwitchStmtClass: {
      auto *W = cast<SwitchStmt>(S);
      Object o = base(S, "Switch");
      o["c"] = stmt(W->getCond()); o["b"] = stmt(W->getBody());
      return Value(std::move(o));
    }
    case Stmt::CaseStmtClass: {
      auto *K = cast<CaseStmt>(S);
      Object o = base(S, "Case");
      o["c"] = stmt(K->getLHS()); o["b"] = stmt(K->getSubStmt());
      return Value(std::move(o));
    }
    case Stmt::DefaultStmtClass: {
      Object o = base(S, "Default");
      o["b"] = stmt(cast<DefaultStmt>(S)->getSubStmt());
      return Value(std::move(o));
    }
    case Stmt::LabelStmtClass: {
      Object o = base(S, "Label");
      o["n"] = std::string(cast<LabelStmt>(S)->getName());
      o["b"] = stmt(cast<LabelStmt>(S)->getSubStmt());
      return Value(std::move(o));
    }
    case Stmt::GotoStmtClass: {
      Object o = base(S, "Goto");
      o["n"] = cast<GotoStmt>(S)->getLabel()->getNameAsString();
      return Value(std::move(o));
    }
    case Stmt::AttributedStmtClass: return stmt(cast<AttributedStmt>(S)->getSubStmt());
    case Stmt::CXXTryStmtClass: {
      auto *T = cast<CXXTryStmt>(S);
      Object o = base(S, "Try");
      o["b"] = stmt(T->getTryBlock());
      Array h;
      for (unsigned i = 0; i < T->getNumHandlers(); i++) h.push_back(stmt(T->getHandler(i)->getHandlerBlock()));
      o["h"] = std::move(h);
      return Value(std::move(o));
    }
    case Stmt::CapturedStmtClass: return stmt(cast<CapturedStmt>(S)->getCapturedStmt());
    default: break;
    }
    if (auto *D = dyn_cast<OMPExecutableDirective>(S)) {
      Object o = base(S, "OMP");
      o["dir"] = getOpenMPDirectiveName(D->getDirectiveKind()).str();
      Array cl;
      for (auto *c : D->clauses()) {
        if (!c || c->isImplicit()) continue;
        Object co{{"c", getOpenMPClauseName(c->getClauseKind()).str()}};
        Array vs;
        auto addList = [&](auto *L) {
          for (auto *e : L->varlists()) vs.push_back(stmt(e));
        };
        if (auto *x = dyn_cast<OMPPrivateClause>(c)) addList(x);
        else if (auto *x = dyn_cast<OMPFirstprivateClause>(c)) addList(x);
        else if (auto *x = dyn_cast<OMPLastprivateClause>(c)) addList(x);
        else if (auto *x = dyn_cast<OMPSharedClause>(c)) addList(x);
        else if (auto *x = dyn_cast<OMPReductionClause>(c)) { addList(x); }
        else if (auto *x = dyn_cast<OMPLinearClause>(c)) addList(x);
        else if (auto *x = dyn_cast<OMPCopyinClause>(c)) addList(x);
        else if (auto *x = dyn_cast<OMPNumThreadsClause>(c)) co["e"] = stmt(x->getNumThreads());
        else if (auto *x = dyn_cast<OMPIfClause>(c)) co["e"] = stmt(x->getCondition());
        else if (auto *x = dyn_cast<OMPCollapseClause>(c)) co["e"] = stmt(x->getNumForLoops());
        co["v"] = std::move(vs);
        cl.push_back(std::move(co));
      }
      o["cl"] = std::move(cl);
      if (auto *Cr = dyn_cast<OMPCriticalDirective>(D)) o["name"] = Cr->getDirectiveName().getAsString();
      if (D->hasAssociatedStmt() && !D->isStandaloneDirective()) {
        const Stmt *A = D->getRawStmt();
        while (auto *CS = dyn_cast<CapturedStmt>(A)) A = CS->getCapturedStmt();
        o["b"] = stmt(A);
      }
      return Value(std::move(o));
    }
    Object o = base(S, "Unknown");
    o["cls"] = S->getStmtClassName();
    Array a;
    for (auto *c : S->children()) a.push_back(stmt(c));
    o["ch"] = std::move(a);
    return Value(std::move(o));
  }

  bool callsAssertFail(const Expr *E) {
    E = E->IgnoreParenImpCasts();
    if (auto *CE = dyn_cast<CallExpr>(E))
      if (auto *F = CE->getDirectCallee()) return F->getName() == "__assert_fail" || F->getName() == "__assert";
    return false;
  }

  Object ebase(const Expr *E, const char *k) {
    Object o = base(E, k);
    o["t"] = type(E->getType());
    return o;
  }

  Value calleeInfo(const FunctionDecl *F, Object &o) {
    noteExtern(F);
    o["f"] = declId(F->getCanonicalDecl());
    o["q"] = qn(F);
    return nullptr;
  }

  Value expr(const Expr *E) {
    if (!E) return nullptr;
    // transparent nodes
    if (auto *X = dyn_cast<ParenExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<ExprWithCleanups>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<ConstantExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(X->getReplacement());
    if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) {
      Value v = expr(X->getExpr());
      if (auto *ob = v.getAsObject()) (*ob)["defarg"] = true;
      return v;
    }
    if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) return expr(X->getExpr());
    if (auto *X = dyn_cast<OpaqueValueExpr>(E)) return expr(X->getSourceExpr());

    if (auto *X = dyn_cast<ImplicitCastExpr>(E)) {
      switch (X->getCastKind()) {
      case CK_IntegralCast: case CK_FloatingToIntegral: case CK_IntegralToFloating: {
        Object o = ebase(E, "ICast");
        o["from"] = type(X->getSubExpr()->getType());
        o["e"] = expr(X->getSubExpr());
        return Value(std::move(o));
      }
      default: return expr(X->getSubExpr());
      }
    }
    if (auto *X = dyn_cast<ExplicitCastExpr>(E)) {
      Object o = ebase(E, "Cast");
      o["from"] = type(X->getSubExpr()->getType());
      o["ck"] = X->getCastKindName();
      o["style"] = X->getStmtClassName();
      o["e"] = expr(X->getSubExpr());
      return Value(std::move(o));
    }
    if (auto *X = dyn_cast<IntegerLiteral>(E)) {
      Object o = ebase(E, "Int");
      llvm::SmallString<32> s; X->getValue().toString(s, 10, X->getType()->isSignedIntegerType());
      o["v"] = std::string(s);
      return Value(std::move(o));
    }
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) { Object o = ebase(E, "Int"); o["v"] = X->getValue() ? "1" : "0"; o["bool"] = true; return Value(std::move(o)); }
    if (auto *X = dyn_cast<CharacterLiteral>(E)) { Object o = ebase(E, "Int"); o["v"] = std::to_string(X->getValue()); o["char"] = true; return Value(std::move(o)); }
    if (auto *X = dyn_cast<FloatingLiteral>(E)) { Object o = ebase(E, "Float"); o["v"] = X->getValueAsApproximateDouble(); return Value(std::move(o)); }
    if (auto *X = dyn_cast<StringLiteral>(E)) { Object o = ebase(E, "Str"); o["v"] = X->isOrdinary() ? llvm::json::fixUTF8(X->getString()) : std::string("?"); return Value(std::move(o)); }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { Object o = ebase(E, "Int"); o["v"] = "0"; o["null"] = true; return Value(std::move(o)); }
    if (isa<CXXThisExpr>(E)) return Value(ebase(E, "This"));
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      Object o = ebase(E, "Ref");
      const ValueDecl *D = X->getDecl();
      o["d"] = declId(D);
      o["n"] = D->getNameAsString();
      if (auto *F = dyn_cast<FunctionDecl>(D)) { o["dk"] = "func"; o["q"] = qn(F); noteExtern(F); }
      else if (auto *P = dyn_cast<ParmVarDecl>(D)) { (void)P; o["dk"] = "parm"; }
      else if (auto *V = dyn_cast<VarDecl>(D)) {
        o["dk"] = V->isStaticLocal() ? "static" : V->hasGlobalStorage() ? "global" : "var";
        if (V->hasGlobalStorage()) o["q"] = qn(V);
      } else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) { o["dk"] = "enum"; llvm::SmallString<32> s; EC->getInitVal().toString(s, 10); o["v"] = std::string(s); o["q"] = qn(EC); }
      else o["dk"] = "other";
      return Value(std::move(o));
    }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      Object o = ebase(E, "Member");
      o["n"] = X->getMemberDecl()->getNameAsString();
      o["d"] = declId(X->getMemberDecl());
      if (auto *P = dyn_cast<CXXRecordDecl>(X->getMemberDecl()->getDeclContext())) o["cls"] = qn(P);
      else if (auto *P = dyn_cast<RecordDecl>(X->getMemberDecl()->getDeclContext())) o["cls"] = qn(P);
      o["arrow"] = X->isArrow();
      o["e"] = expr(X->getBase());
      return Value(std::move(o));
    }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
      Object o = ebase(E, "Index");
      o["e"] = expr(X->getBase()); o["i"] = expr(X->getIdx());
      return Value(std::move(o));
    }
    if (auto *X = dyn_cast<UnaryOperator>(E)) {
      Object o = ebase(E, "Un");
      o["o"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      if (X->isPostfix()) o["post"] = true;
      o["e"] = expr(X->getSubExpr());
      return Value(std::move(o));
    }
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      Object o = ebase(E, X->isAssignmentOp() ? "Assign" : "Bin");
      o["o"] = X->getOpcodeStr().str();
      o["a"] = expr(X->getLHS()); o["b"] = expr(X->getRHS());
      return Value(std::move(o));
    }
    if (auto *X = dyn_cast<ConditionalOperator>(E)) {
      if (callsAssertFail(X->getFalseExpr())) {
        Object o = ebase(E, "Assert");
        const Expr *Cd = X->getCond();
        Cd = Cd->IgnoreParens();
        while (auto *SC = dyn_cast<ExplicitCastExpr>(Cd)) Cd = SC->getSubExpr()->IgnoreParens();
        o["c"] = expr(Cd);
        return Value(std::move(o));
      }
      Object o = ebase(E, "Cond");
      o["c"] = expr(X->getCond()); o["a"] = expr(X->getTrueExpr()); o["b"] = expr(X->getFalseExpr());
      return Value(std::move(o));
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      auto *K = X->getConstructor();
      if (X->getNumArgs() >= 1 && K->isMoveConstructor() && X->isElidable()) return expr(X->getArg(0));
      if (X->getNumArgs() >= 1 && K->isCopyConstructor() && X->isElidable()) return expr(X->getArg(0));
      Object o = ebase(E, "Ctor");
      calleeInfo(K, o);
      if (K->isCopyOrMoveConstructor()) o["copy"] = true;
      if (isa<CXXTemporaryObjectExpr>(X)) o["temp"] = true;
      Array a;
      for (auto *x : X->arguments()) a.push_back(expr(x));
      o["a"] = std::move(a);
      return Value(std::move(o));
    }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      Object o = ebase(E, "Call");
      if (auto *F = X->getDirectCallee()) {
        calleeInfo(F, o);
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
          if (!M->isStatic()) {
            o["obj"] = expr(X->getArg(0));
            Array a;
            for (unsigned i = 1; i < X->getNumArgs(); i++) a.push_back(expr(X->getArg(i)));
            o["a"] = std::move(a);
            o["op"] = getOperatorSpelling(X->getOperator());
            return Value(std::move(o));
          }
        }
      }
      o["op"] = getOperatorSpelling(X->getOperator());
      Array a;
      for (auto *x : X->arguments()) a.push_back(expr(x));
      o["a"] = std::move(a);
      return Value(std::move(o));
    }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      Object o = ebase(E, "Call");
      if (auto *M = X->getMethodDecl()) calleeInfo(M, o);
      if (X->getImplicitObjectArgument()) {
        o["obj"] = expr(X->getImplicitObjectArgument());
        if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParenImpCasts())) { o["arrow"] = ME->isArrow(); if (ME->hasQualifier()) o["qualified"] = true; }
      }
      Array a;
      for (auto *x : X->arguments()) a.push_back(expr(x));
      o["a"] = std::move(a);
      return Value(std::move(o));
    }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      Object o = ebase(E, "Call");
      if (auto *F = X->getDirectCallee()) calleeInfo(F, o);
      else o["fe"] = expr(X->getCallee());
      Array a;
      for (auto *x : X->arguments()) a.push_back(expr(x));
      o["a"] = std::move(a);
      return Value(std::move(o));
    }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      Object o = ebase(E, "New");
      o["at"] = type(X->getAllocatedType());
      o["arr"] = X->isArray();
      if (X->isArray() && X->getArraySize()) o["n"] = expr(*X->getArraySize());
      if (X->getInitializer()) o["init"] = expr(X->getInitializer());
      return Value(std::move(o));
    }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) {
      Object o = ebase(E, "Delete");
      o["arr"] = X->isArrayForm();
      o["e"] = expr(X->getArgument());
      return Value(std::move(o));
    }
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      Object o = ebase(E, "Sizeof");
      o["of"] = X->isArgumentType() ? "type" : "expr";
      o["at"] = type(X->getTypeOfArgument());
      if (!X->isArgumentType()) o["e"] = expr(X->getArgumentExpr());
      Expr::EvalResult R;
      if (!E->isValueDependent() && E->EvaluateAsInt(R, C)) { llvm::SmallString<32> s; R.Val.getInt().toString(s, 10); o["v"] = std::string(s); }
      return Value(std::move(o));
    }
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      Object o = ebase(E, "InitList");
      Array a;
      for (auto *x : X->inits()) a.push_back(expr(x));
      o["a"] = std::move(a);
      return Value(std::move(o));
    }
    if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) { Object o = ebase(E, "ZeroInit"); return Value(std::move(o)); }
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      Object o = ebase(E, "Lambda");
      o["b"] = stmt(X->getBody());
      Array ps;
      for (auto *P : X->getCallOperator()->parameters()) ps.push_back(varDecl(P));
      o["params"] = std::move(ps);
      calleeInfo(X->getCallOperator(), o);
      return Value(std::move(o));
    }
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) {
      Object o = ebase(E, "Throw");
      o["e"] = expr(X->getSubExpr());
      return Value(std::move(o));
    }
    if (auto *X = dyn_cast<PredefinedExpr>(E)) { (void)X; Object o = ebase(E, "Str"); o["v"] = "__func__"; return Value(std::move(o)); }
    if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) return expr(X->getSubExpr());
    Object o = ebase(E, "UnknownE");
    o["cls"] = E->getStmtClassName();
    Array a;
    for (auto *c : E->children()) a.push_back(stmt(c));
    o["ch"] = std::move(a);
    return Value(std::move(o));
  }

  void function(const FunctionDecl *F) {
    if (!F->doesThisDeclarationHaveABody() || F->isImplicit()) return;
    if (F->isDefaulted() || F->isDeleted()) return;
    if (!inRoot(F->getLocation())) return;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return;
    bool dep = F->isDependentContext();
    Object o{{"id", declId(F)}, {"n", F->getNameAsString()}, {"qn", qn(F)}, {"usr", usr(F->getCanonicalDecl())},
             {"file", rel(F->getLocation())}, {"line", line(F->getLocation())}, {"end", line(F->getBody()->getEndLoc())},
             {"ret", type(F->getReturnType())}};
    if (dep) o["dependent"] = true;
    if (F->getTemplateInstantiationPattern()) { o["inst"] = true; o["pattern"] = usr(F->getTemplateInstantiationPattern()); }
    o["isinline"] = F->isInlined();
    o["isstatic"] = F->getStorageClass() == SC_Static;
    o["tsk"] = (int)F->getTemplateSpecializationKind();
    if (F->isMain()) o["main"] = true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = qn(M->getParent()); o["method"] = true; o["const"] = M->isConst(); o["mstatic"] = M->isStatic(); o["virtual"] = M->isVirtual();
      Array ov;
      for (auto *B : M->overridden_methods()) ov.push_back(usr(B));
      if (!ov.empty()) o["overrides"] = std::move(ov);
    }
    if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
      o["ctor"] = true;
      Array in;
      for (auto *I : K->inits()) {
        Object io{{"written", I->isWritten()}};
        if (I->isMemberInitializer()) { io["m"] = I->getMember()->getNameAsString(); io["d"] = declId(I->getMember()); }
        else if (I->isBaseInitializer()) io["base"] = QualType(I->getBaseClass(), 0).getAsString(PP);
        else if (I->isDelegatingInitializer()) io["delegating"] = true;
        io["e"] = expr(I->getInit());
        in.push_back(std::move(io));
      }
      o["inits"] = std::move(in);
    }
    if (isa<CXXDestructorDecl>(F)) o["dtor"] = true;
    Array ps;
    for (auto *P : F->parameters()) {
      Object p{{"d", declId(P)}, {"n", P->getNameAsString()}, {"t", type(P->getType())}};
      p["ot"] = type(P->getOriginalType());
      ps.push_back(std::move(p));
    }
    o["params"] = std::move(ps);
    o["body"] = stmt(F->getBody());
    Functions.push_back(std::move(o));
  }

  void record(const CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || !inRoot(R->getLocation()) || R->isLambda()) return;
    if (!SeenRec.insert(R).second) return;
    Object o{{"qn", qn(R)}, {"file", rel(R->getLocation())}, {"line", line(R->getLocation())}};
    Array fs;
    for (auto *F : R->fields()) {
      Object fo{{"d", declId(F)}, {"n", F->getNameAsString()}, {"t", type(F->getType())}, {"mutable", F->isMutable()}, {"hasinit", F->hasInClassInitializer()}};
      fs.push_back(std::move(fo));
    }
    o["fields"] = std::move(fs);
    Array bs;
    for (auto &B : R->bases()) bs.push_back(B.getType().getAsString(PP));
    o["bases"] = std::move(bs);
    Array ms;
    for (auto *M : R->methods()) {
      if (M->isImplicit()) continue;
      Object mo{{"qn", qn(M)}, {"usr", usr(M)}, {"line", line(M->getLocation())}, {"virtual", M->isVirtual()}};
      ms.push_back(std::move(mo));
    }
    o["methods"] = std::move(ms);
    Records.push_back(std::move(o));
  }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
  Extractor &X;
  Visitor(Extractor &X) : X(X) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  std::set<const FunctionDecl *> Done;
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->doesThisDeclarationHaveABody()) { if (Done.insert(F).second) X.function(F); }
    else if (X.inRoot(F->getLocation()) && !F->isImplicit()) {
      X.noteExtern(F);
    }
    if (F->getDescribedFunctionTemplate() == nullptr && X.inRoot(F->getLocation()) && !F->isImplicit()) X.noteExtern(F);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) { X.record(R); return true; }
  bool VisitVarDecl(VarDecl *V) {
    if (!X.inRoot(V->getLocation())) return true;
    if (V->hasGlobalStorage() && !isa<ParmVarDecl>(V)) {
      Object o{{"qn", X.qn(V)}, {"n", V->getNameAsString()}, {"t", X.type(V->getType())}, {"file", X.rel(V->getLocation())}, {"line", X.line(V->getLocation())},
               {"staticlocal", V->isStaticLocal()}, {"const", V->getType().isConstQualified() || V->isConstexpr()}, {"tls", V->getTSCSpec() != TSCS_unspecified}};
      X.Globals.push_back(std::move(o));
    }
    return true;
  }
};

struct IncPP : PPCallbacks {
  SourceManager &SM;
  std::vector<std::pair<std::string, std::string>> &Inc;
  IncPP(SourceManager &SM, std::vector<std::pair<std::string, std::string>> &Inc) : SM(SM), Inc(Inc) {}
  void InclusionDirective(SourceLocation Hash, const Token &, StringRef FileName, bool, CharSourceRange, OptionalFileEntryRef File, StringRef, StringRef, const clang::Module *, SrcMgr::CharacteristicKind) override {
    std::string from = SM.getFilename(SM.getExpansionLoc(Hash)).str();
    if (from.rfind(Root + "/", 0) == 0) Inc.push_back({from.substr(Root.size() + 1), FileName.str()});
  }
};

struct Consumer : ASTConsumer {
  std::vector<std::pair<std::string, std::string>> &Inc;
  CompilerInstance &CI;
  std::string Main;
  Consumer(CompilerInstance &CI, std::vector<std::pair<std::string, std::string>> &Inc, std::string M) : Inc(Inc), CI(CI), Main(M) {}
  void HandleTranslationUnit(ASTContext &Ctx) override {
    Extractor X(Ctx);
    Visitor V(X);
    V.TraverseDecl(Ctx.getTranslationUnitDecl());
    Array inc;
    for (auto &p : Inc) inc.push_back(Array{p.first, p.second});
    Object out{{"main", Main}, {"types", std::move(X.Types)}, {"functions", std::move(X.Functions)}, {"records", std::move(X.Records)},
               {"globals", std::move(X.Globals)}, {"decls", std::move(X.Externs)}, {"includes", std::move(inc)},
               {"errors", (int64_t)CI.getDiagnostics().getClient()->getNumErrors()}};
    std::error_code EC;
    llvm::raw_fd_ostream os(OutPath, EC);
    os << Value(std::move(out));
  }
};

struct Action : ASTFrontendAction {
  std::vector<std::pair<std::string, std::string>> Inc;
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef F) override {
    CI.getPreprocessor().addPPCallbacks(std::make_unique<IncPP>(CI.getSourceManager(), Inc));
    return std::make_unique<Consumer>(CI, Inc, F.str());
  }
};

int main(int argc, const char **argv) {
  if (argc < 4) return 2;
  Root = argv[1]; OutPath = argv[2];
  std::string file = argv[3];
  std::vector<std::string> args{"crx"};
  args.push_back("-fsyntax-only");
  for (int i = 5; i < argc; i++) args.push_back(argv[i]);
  args.push_back(file);
  IntrusiveRefCntPtr<FileManager> FM(new FileManager(FileSystemOptions()));
  tooling::ToolInvocation Inv(args, std::make_unique<Action>(), FM.get());
  return Inv.run() ? 0 : 1;
}
