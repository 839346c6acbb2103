// vmx - extracts a resolved, type-checked intermediate representation of every non-dependent
// function (template instantiations included) whose source lies below a given root, plus the class,
// variable and template tables the analyses need.  Output: one JSON document on stdout.
//
//   vmx ROOT[,ROOT2...] SRC -- <compiler flags>
//
// It never executes the analysed code: it is a pure AST-to-JSON translation.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Frontend/TextDiagnosticPrinter.h"
#include "clang/Lex/Preprocessor.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <map>
#include <set>

using namespace clang;
namespace json = llvm::json;
using json::Array; using json::Object; using json::Value;

static std::vector<std::string> Roots;
static Array Diags;

struct Ex : RecursiveASTVisitor<Ex> {
  ASTContext &C; SourceManager &SM; PrintingPolicy PP;
  Array Functions, Records, Vars, Templates, Typedefs, Partials, Lints;
  std::set<std::string> LintSeen; std::vector<const FunctionDecl*> FStack;
  Object Externs, TypeTab;
  std::map<const Decl*, int> Ids; int NextId = 1;
  std::map<const Type*, int> TIds; std::vector<const FunctionDecl*> Pending;
  std::map<std::pair<const Type*,unsigned>, int> QTIds;
  std::set<const Decl*> DoneF, DoneR; std::set<int> DoneExt;
  explicit Ex(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()) {
    PP.SuppressTagKeyword = true; PP.Bool = true; PP.UsePreferredNames = false;
    PP.SuppressUnwrittenScope = false; PP.PrintCanonicalTypes = true;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool shouldWalkTypesOfTypeLocs() const { return false; }

  int id(const Decl *D) {
    if (auto *F = dyn_cast<FunctionDecl>(D)) D = F->getCanonicalDecl();
    else if (auto *V = dyn_cast<VarDecl>(D)) D = V->getCanonicalDecl();
    else if (auto *R = dyn_cast<CXXRecordDecl>(D)) D = R->getCanonicalDecl();
    else D = D->getCanonicalDecl();
    auto it = Ids.find(D); if (it != Ids.end()) return it->second;
    return Ids[D] = NextId++;
  }
  std::string file(SourceLocation L) {
    L = SM.getExpansionLoc(L); if (L.isInvalid()) return "";
    auto F = SM.getFilename(L); return F.str();
  }
  int line(SourceLocation L) { L = SM.getExpansionLoc(L); return L.isInvalid() ? 0 : (int)SM.getExpansionLineNumber(L); }
  bool inRoot(SourceLocation L) {
    std::string f = file(L);
    for (auto &r : Roots) if (f.compare(0, r.size(), r) == 0) return true;
    return false;
  }
  // ---- types ---------------------------------------------------------------------------------
  Value targ(const TemplateArgument &A) {
    switch (A.getKind()) {
      case TemplateArgument::Type: return Object{{"t", type(A.getAsType())}};
      case TemplateArgument::Integral: { llvm::SmallString<32> s; A.getAsIntegral().toString(s, 10); return Object{{"i", s.str().str()}}; }
      case TemplateArgument::Pack: { Array a; for (auto &p : A.pack_elements()) a.push_back(targ(p)); return Object{{"pack", std::move(a)}}; }
      case TemplateArgument::Expression: { std::string s; llvm::raw_string_ostream o(s); A.getAsExpr()->printPretty(o, nullptr, PP);
        if (auto *E = dyn_cast<DeclRefExpr>(A.getAsExpr()->IgnoreParenImpCasts())) if (auto *NT = dyn_cast<NonTypeTemplateParmDecl>(E->getDecl())) return Object{{"np", "value-parameter-" + std::to_string(NT->getDepth()) + "-" + std::to_string(NT->getIndex())}};
        return Object{{"x", o.str()}}; }
      default: { std::string s; llvm::raw_string_ostream o(s); A.print(PP, o, true); return Object{{"x", o.str()}}; }
    }
  }
  int type(QualType Q) {
    if (Q.isNull()) return 0;
    Q = Q.getCanonicalType();
    auto key = std::make_pair(Q.getTypePtr(), (unsigned)Q.getCVRQualifiers());
    auto it = QTIds.find(key); if (it != QTIds.end()) return it->second;
    int n = (int)QTIds.size() + 1; QTIds[key] = n;
    Object o; o["s"] = Q.getAsString(PP);
    if (Q.isConstQualified()) o["c"] = true;
    const Type *T = Q.getTypePtr();
    if (T->isPointerType()) { o["k"] = "ptr"; o["t"] = type(T->getPointeeType()); }
    else if (T->isReferenceType()) { o["k"] = T->isRValueReferenceType() ? "rref" : "ref"; o["t"] = type(T->getPointeeType()); }
    else if (auto *A = dyn_cast<ArrayType>(T)) { o["k"] = "arr"; o["t"] = type(A->getElementType()); if (auto *CA = dyn_cast<ConstantArrayType>(A)) o["sz"] = (int64_t)CA->getSize().getZExtValue(); }
    else if (auto *R = T->getAsCXXRecordDecl()) { o["k"] = "rec"; o["r"] = id(R);
      o["n"] = R->getQualifiedNameAsString();
      if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(R)) { Array a; for (auto &x : S->getTemplateArgs().asArray()) a.push_back(targ(x)); o["a"] = std::move(a); }
    }
    else if (auto *S = T->getAs<TemplateSpecializationType>()) { o["k"] = "tst";
      if (auto *TD = S->getTemplateName().getAsTemplateDecl()) o["n"] = TD->getQualifiedNameAsString();
      Array a; for (auto &x : S->template_arguments()) a.push_back(targ(x)); o["a"] = std::move(a); }
    else if (auto *P = dyn_cast<TemplateTypeParmType>(T)) { o["k"] = "parm"; o["d"] = (int)P->getDepth(); o["i"] = (int)P->getIndex(); }
    else if (T->isBooleanType()) o["k"] = "bool";
    else if (T->isFloatingType()) o["k"] = "float";
    else if (T->isIntegerType()) { o["k"] = "int"; if (T->isUnsignedIntegerType()) o["u"] = true; if (!T->isDependentType() && !T->isEnumeralType()) o["w"] = (int)C.getTypeSize(T); }
    else if (T->isVoidType()) o["k"] = "void";
    else if (T->isFunctionType()) o["k"] = "fn";
    else o["k"] = "other";
    TypeTab[std::to_string(n)] = std::move(o);
    return n;
  }
  // ---- functions -----------------------------------------------------------------------------
  Object fnHead(const FunctionDecl *F) {
    Object o; o["id"] = id(F);
    o["n"] = F->getQualifiedNameAsString();
    std::string full; { llvm::raw_string_ostream s(full); F->getNameForDiagnostic(s, PP, true); } o["full"] = full;
    o["base"] = F->getNameAsString();
    o["ret"] = type(F->getReturnType());
    o["f"] = file(F->getLocation()); o["l"] = line(F->getLocation());
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = id(M->getParent()); o["clsn"] = M->getParent()->getQualifiedNameAsString();
      if (M->isStatic()) o["static"] = true; if (M->isConst()) o["const"] = true;
      if (M->isVirtual()) o["virtual"] = true; if (M->isPureVirtual()) o["pure"] = true;
      Array ov; for (auto *x : M->overridden_methods()) ov.push_back(id(x)); if (!ov.empty()) o["ovr"] = std::move(ov);
      if (isa<CXXConstructorDecl>(M)) o["k"] = "ctor"; else if (isa<CXXDestructorDecl>(M)) o["k"] = "dtor";
      else if (isa<CXXConversionDecl>(M)) o["k"] = "conv"; else o["k"] = "method";
      if (M->isCopyAssignmentOperator()) o["copyassign"] = true;
      if (auto *CD = dyn_cast<CXXConstructorDecl>(M)) { if (CD->isCopyConstructor()) o["copyctor"] = true; if (CD->isDefaultConstructor()) o["defctor"] = true; if (CD->isExplicit()) o["explicit"] = true; }
      switch (M->getAccess()) { case AS_private: o["acc"] = "private"; break; case AS_protected: o["acc"] = "protected"; break; default: break; }
    } else o["k"] = "func";
    if (auto *FT = F->getType()->getAs<FunctionProtoType>()) {
      auto S = FT->getExceptionSpecType();
      if (S == EST_BasicNoexcept || S == EST_NoexceptTrue || S == EST_NoThrow || S == EST_DynamicNone) o["nt"] = true;
    }
    if (F->isInlined()) o["inline"] = true;
    if (F->isImplicit()) o["implicit"] = true; if (F->isDefaulted()) o["defaulted"] = true; if (F->isDeleted()) o["deleted"] = true;
    if (F->getStorageClass() == SC_Static) o["sstatic"] = true;
    if (auto *P = F->getTemplateInstantiationPattern()) { o["pf"] = file(P->getLocation()); o["pl"] = line(P->getLocation()); o["pid"] = id(P); }
    if (auto *A = F->getTemplateSpecializationArgs()) { Array a; for (auto &x : A->asArray()) a.push_back(targ(x)); o["targs"] = std::move(a); }
    Array ps; for (auto *P : F->parameters()) ps.push_back(Object{{"id", id(P)}, {"n", P->getNameAsString()}, {"t", type(P->getType())}});
    o["ps"] = std::move(ps);
    return o;
  }
  int fref(const FunctionDecl *F) {
    int n = id(F);
    const FunctionDecl *Def = nullptr; F->hasBody(Def);
    bool lib = inRoot(F->getLocation()) || (F->getTemplateInstantiationPattern() && inRoot(F->getTemplateInstantiationPattern()->getLocation()));
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (inRoot(M->getParent()->getLocation())) lib = true;
    if (!lib && Def && F->isInStdNamespace() && !isa<CXXMethodDecl>(F) && F->getIdentifier()) { auto nm = F->getName(); if (nm == "make_unique" || nm == "swap" || nm == "exchange" || nm == "accumulate" || nm == "inner_product" || nm == "iota") if (!Def->isDependentContext()) emitF(Def); }
    if (lib && Def && !Def->isDependentContext()) emitF(Def);
    if (DoneExt.insert(n).second) { auto h = fnHead(F); if (lib) h["lib"] = true; Externs[std::to_string(n)] = std::move(h); }
    return n;
  }
  void emitF(const FunctionDecl *F) {
    if (!DoneF.insert(F->getCanonicalDecl()).second) return;
    Object o = fnHead(F);
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
      Array in;
      for (auto *I : CD->inits()) {
        Object x; x["l"] = line(I->getSourceLocation());
        if (I->isAnyMemberInitializer()) { x["field"] = id(I->getAnyMember()); x["n"] = I->getAnyMember()->getNameAsString(); }
        else if (I->isBaseInitializer()) x["base"] = type(QualType(I->getBaseClass(), 0));
        else x["deleg"] = true;
        if (I->isWritten()) x["w"] = true;
        x["e"] = expr(I->getInit()); in.push_back(std::move(x));
      }
      o["inits"] = std::move(in);
    }
    o["body"] = stmt(F->getBody());
    o["end"] = line(F->getEndLoc());
    Functions.push_back(std::move(o));
  }
  // ---- statements ----------------------------------------------------------------------------
  /// whether the initialiser of the local static V uses the arguments, the object or the locals of the call that happens to run it
  bool argDep(const Stmt *S, const DeclContext *F) {
    if (!S) return false;
    if (isa<UnaryExprOrTypeTraitExpr>(S) || isa<CXXNoexceptExpr>(S) || isa<TypeTraitExpr>(S)) return false;
    if (auto *T = dyn_cast<CXXTypeidExpr>(S)) if (T->isTypeOperand()) return false;
    if (isa<CXXThisExpr>(S)) return true;
    if (auto *X = dyn_cast<DeclRefExpr>(S)) if (auto *V = dyn_cast<VarDecl>(X->getDecl()))
      if (V->hasLocalStorage() && V->getDeclContext() == F && !V->isConstexpr()) {
        if (V->getType().isConstQualified() && V->hasInit() && !isa<ParmVarDecl>(V)) return argDep(V->getInit(), F);
        return true;
      }
    if (auto *L = dyn_cast<LambdaExpr>(S)) {
      for (auto &c : L->captures()) { if (c.capturesThis()) return true; if (c.capturesVariable()) if (auto *V = dyn_cast<VarDecl>(c.getCapturedVar())) if (V->hasLocalStorage() && V->getDeclContext() == F) return true; }
      return false;
    }
    for (auto *c : S->children()) if (argDep(c, F)) return true;
    return false;
  }
  Value var(const VarDecl *V) {
    Object o{{"id", id(V)}, {"n", V->getNameAsString()}, {"t", type(V->getType())}};
    if (V->isStaticLocal()) { o["static"] = true; if (V->hasInit() && argDep(V->getInit(), V->getDeclContext())) o["argdep"] = true; }
    if (V->hasInit()) { o["i"] = expr(V->getInit()); if (V->getInitStyle() == VarDecl::CInit) o["ci"] = true; }
    return o;
  }
  Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    Object o; o["l"] = line(S->getBeginLoc());
    if (auto *X = dyn_cast<CompoundStmt>(S)) { Array a; for (auto *c : X->body()) a.push_back(stmt(c)); o["s"] = "block"; o["b"] = std::move(a); }
    else if (auto *X = dyn_cast<IfStmt>(S)) { o["s"] = "if";
      if (X->getInit()) o["init"] = stmt(X->getInit());
      if (X->getConditionVariableDeclStmt()) o["cv"] = stmt(X->getConditionVariableDeclStmt());
      o["c"] = expr(X->getCond()); o["t"] = stmt(X->getThen()); o["f"] = stmt(X->getElse());
      if (X->isConstexpr()) o["cx"] = true; }
    else if (auto *X = dyn_cast<ForStmt>(S)) { o["s"] = "for"; o["i"] = stmt(X->getInit()); o["c"] = X->getCond() ? expr(X->getCond()) : Value(nullptr); o["n"] = X->getInc() ? expr(X->getInc()) : Value(nullptr); o["b"] = stmt(X->getBody()); }
    else if (auto *X = dyn_cast<CXXForRangeStmt>(S)) { o["s"] = "rfor"; o["range"] = stmt(X->getRangeStmt()); o["v"] = var(X->getLoopVariable()); o["b"] = stmt(X->getBody());
      if (auto *DS = dyn_cast_or_null<DeclStmt>(X->getRangeStmt())) if (auto *VD = dyn_cast<VarDecl>(DS->getSingleDecl())) o["re"] = expr(VD->getInit()); }
    else if (auto *X = dyn_cast<WhileStmt>(S)) { o["s"] = "while"; o["c"] = expr(X->getCond()); o["b"] = stmt(X->getBody()); if (X->getConditionVariableDeclStmt()) o["cv"] = stmt(X->getConditionVariableDeclStmt()); }
    else if (auto *X = dyn_cast<DoStmt>(S)) { o["s"] = "do"; o["c"] = expr(X->getCond()); o["b"] = stmt(X->getBody()); }
    else if (auto *X = dyn_cast<ReturnStmt>(S)) { o["s"] = "ret"; o["e"] = X->getRetValue() ? expr(X->getRetValue()) : Value(nullptr); }
    else if (auto *X = dyn_cast<DeclStmt>(S)) { o["s"] = "decl"; Array a; for (auto *D : X->decls()) if (auto *V = dyn_cast<VarDecl>(D)) { a.push_back(var(V));
        if (auto *DD = dyn_cast<DecompositionDecl>(D)) for (auto *B : DD->bindings()) if (auto *HV = B->getHoldingVar()) a.push_back(var(HV)); } o["v"] = std::move(a); }
    else if (isa<BreakStmt>(S)) o["s"] = "break";
    else if (isa<ContinueStmt>(S)) o["s"] = "cont";
    else if (isa<NullStmt>(S)) o["s"] = "null";
    else if (auto *X = dyn_cast<SwitchStmt>(S)) { o["s"] = "switch"; o["c"] = expr(X->getCond()); o["b"] = stmt(X->getBody()); }
    else if (auto *X = dyn_cast<CaseStmt>(S)) { o["s"] = "case"; o["v"] = expr(X->getLHS()); o["b"] = stmt(X->getSubStmt()); }
    else if (auto *X = dyn_cast<DefaultStmt>(S)) { o["s"] = "default"; o["b"] = stmt(X->getSubStmt()); }
    else if (auto *X = dyn_cast<CXXTryStmt>(S)) { o["s"] = "try"; o["b"] = stmt(X->getTryBlock()); Array h;
      for (unsigned i = 0; i < X->getNumHandlers(); ++i) { auto *H = X->getHandler(i); Object c; c["l"] = line(H->getBeginLoc()); c["t"] = H->getCaughtType().isNull() ? 0 : type(H->getCaughtType()); if (H->getExceptionDecl()) c["v"] = id(H->getExceptionDecl()); c["b"] = stmt(H->getHandlerBlock()); h.push_back(std::move(c)); }
      o["h"] = std::move(h); }
    else if (auto *X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
    else if (auto *X = dyn_cast<Expr>(S)) { o["s"] = "expr"; o["e"] = expr(X); }
    else { o["s"] = "unk"; o["k"] = S->getStmtClassName(); }
    return o;
  }
  // ---- expressions ---------------------------------------------------------------------------
  Array args(llvm::iterator_range<CallExpr::const_arg_iterator> r) { Array a; for (auto *x : r) a.push_back(expr(x)); return a; }
  Value expr(const Expr *E) {
    if (!E) return nullptr;
    // transparent wrappers
    for (;;) {
      if (auto *X = dyn_cast<ParenExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<ExprWithCleanups>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<ConstantExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = X->getReplacement(); continue; }
      if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) { E = X->getExpr(); continue; }
      if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) { E = X->getExpr(); continue; }
      break;
    }
    Object o; o["l"] = line(E->getExprLoc()); o["t"] = type(E->getType());
    if (E->isGLValue()) o["lv"] = true;
    if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) { o["e"] = "bind"; o["x"] = expr(X->getSubExpr()); return o; }
    if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) { o["e"] = "mat"; o["x"] = expr(X->getSubExpr()); if (X->getExtendingDecl()) o["ext"] = true; return o; }
    if (auto *X = dyn_cast<IntegerLiteral>(E)) { llvm::SmallString<32> s; X->getValue().toString(s, 10, X->getType()->isSignedIntegerType()); o["e"] = "int"; o["v"] = s.str().str(); return o; }
    if (auto *X = dyn_cast<FloatingLiteral>(E)) { llvm::SmallString<64> s; X->getValue().toString(s, 0, 0); o["e"] = "flt"; o["v"] = s.str().str(); o["exact"] = X->getValueAsApproximateDouble(); return o; }
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) { o["e"] = "bool"; o["v"] = X->getValue(); return o; }
    if (auto *X = dyn_cast<CharacterLiteral>(E)) { o["e"] = "int"; o["v"] = std::to_string(X->getValue()); o["ch"] = true; return o; }
    if (auto *X = dyn_cast<StringLiteral>(E)) { o["e"] = "str"; o["v"] = X->getCharByteWidth() == 1 ? json::fixUTF8(X->getString()) : std::string("?"); return o; }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { o["e"] = "null"; return o; }
    if (isa<CXXThisExpr>(E)) { o["e"] = "this"; return o; }
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      auto *D = X->getDecl();
      if (auto *F = dyn_cast<FunctionDecl>(D)) { o["e"] = "fref"; o["f"] = fref(F); return o; }
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) { llvm::SmallString<32> s; EC->getInitVal().toString(s, 10); o["e"] = "int"; o["v"] = s.str().str(); return o; }
      if (auto *BD = dyn_cast<BindingDecl>(D)) { if (BD->getHoldingVar()) D = BD->getHoldingVar(); else if (BD->getBinding()) return expr(BD->getBinding()); }
      o["e"] = "ref"; o["d"] = id(D); o["n"] = D->getNameAsString();
      if (isa<ParmVarDecl>(D)) o["p"] = true;
      if (auto *V = dyn_cast<VarDecl>(D)) { if (V->hasGlobalStorage()) { o["g"] = true; constVal(V, E, o); } }
      return o;
    }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      auto *D = X->getMemberDecl();
      if (auto *F = dyn_cast<FunctionDecl>(D)) { o["e"] = "mref"; o["f"] = fref(F); o["x"] = expr(X->getBase()); return o; }
      if (auto *V = dyn_cast<VarDecl>(D)) { o["e"] = "ref"; o["d"] = id(V); o["n"] = V->getNameAsString(); o["g"] = true; constVal(V, E, o); return o; }
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) { llvm::SmallString<32> s; EC->getInitVal().toString(s, 10); o["e"] = "int"; o["v"] = s.str().str(); return o; }
      o["e"] = "mem"; o["d"] = id(D); o["n"] = D->getNameAsString(); o["x"] = expr(X->getBase()); if (X->isArrow()) o["arrow"] = true; return o;
    }
    if (auto *X = dyn_cast<CastExpr>(E)) {
      auto K = X->getCastKind();
      if (isa<CXXDynamicCastExpr>(X)) { o["e"] = "dyn"; o["x"] = expr(X->getSubExpr()); return o; }
      if (isa<CXXConstCastExpr>(X)) o["cc"] = true;
      if (isa<CXXReinterpretCastExpr>(X)) o["reint"] = true;
      if (isa<ExplicitCastExpr>(X)) o["exp"] = true;
      o["e"] = "cast"; o["k"] = X->getCastKindName(); o["x"] = expr(X->getSubExpr());
      if (K == CK_ConstructorConversion || K == CK_UserDefinedConversion) if (auto *CF = X->getConversionFunction()) if (auto *FF = dyn_cast<FunctionDecl>(CF)) o["f"] = fref(FF);
      return o;
    }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      o["e"] = "mcall"; auto *M = X->getMethodDecl();
      if (!M) { o["e"] = "unk"; return o; }
      o["f"] = fref(M); o["o"] = expr(X->getImplicitObjectArgument()); o["a"] = args(X->arguments());
      if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens())) { if (ME->isArrow()) o["arrow"] = true; if (M->isVirtual() && !ME->hasQualifier()) o["v"] = true; }
      return o;
    }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      auto *F = X->getDirectCallee(); if (!F) { o["e"] = "unk"; o["k"] = "opcall"; return o; }
      auto *M = dyn_cast<CXXMethodDecl>(F); Array a = args(X->arguments());
      if (M && !M->isStatic()) { o["e"] = "mcall"; o["f"] = fref(M); Array rest; for (size_t i = 1; i < a.size(); ++i) rest.push_back(std::move(a[i])); o["o"] = std::move(a[0]); o["a"] = std::move(rest); o["op"] = true; if (M->isVirtual()) o["v"] = true; }
      else { o["e"] = "call"; o["f"] = fref(F); o["a"] = std::move(a); o["op"] = true; }
      return o;
    }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      auto *F = X->getDirectCallee();
      if (!F) { o["e"] = "icall"; o["x"] = expr(X->getCallee()); o["a"] = args(X->arguments()); return o; }
      o["e"] = "call"; o["f"] = fref(F); o["a"] = args(X->arguments());
      return o;
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      o["e"] = "ctor"; o["f"] = fref(X->getConstructor()); Array a; for (auto *x : X->arguments()) a.push_back(expr(x)); o["a"] = std::move(a);
      if (X->isElidable()) o["el"] = true; if (isa<CXXTemporaryObjectExpr>(X)) o["tmp"] = true; if (X->requiresZeroInitialization()) o["zi"] = true;
      return o;
    }
    if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) { o["e"] = "ctor"; o["f"] = fref(X->getConstructor()); o["a"] = Array(); return o; }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) { o["e"] = "new"; o["at"] = type(X->getAllocatedType()); o["i"] = X->getInitializer() ? expr(X->getInitializer()) : Value(nullptr); if (X->isArray()) { o["arr"] = true; if (X->getArraySize()) o["n"] = expr(*X->getArraySize()); } if (X->getNumPlacementArgs()) o["placement"] = true; return o; }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) { o["e"] = "del"; o["x"] = expr(X->getArgument()); if (X->isArrayForm()) o["arr"] = true; return o; }
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) { o["e"] = "throw"; o["x"] = X->getSubExpr() ? expr(X->getSubExpr()) : Value(nullptr); if (X->getSubExpr()) o["tt"] = type(X->getSubExpr()->getType()); return o; }
    if (auto *X = dyn_cast<UnaryOperator>(E)) { o["e"] = "un"; o["k"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str() + (X->isPostfix() ? "p" : ""); o["x"] = expr(X->getSubExpr()); return o; }
    if (auto *X = dyn_cast<BinaryOperator>(E)) { o["e"] = X->isAssignmentOp() ? "asg" : "bin"; o["k"] = X->getOpcodeStr().str(); o["x"] = expr(X->getLHS()); o["y"] = expr(X->getRHS()); return o; }
    if (auto *X = dyn_cast<ConditionalOperator>(E)) { o["e"] = "cond"; o["c"] = expr(X->getCond()); o["x"] = expr(X->getTrueExpr()); o["y"] = expr(X->getFalseExpr()); return o; }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) { o["e"] = "sub"; o["x"] = expr(X->getBase()); o["y"] = expr(X->getIdx()); return o; }
    if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) { o["e"] = "zero"; return o; }
    if (auto *X = dyn_cast<InitListExpr>(E)) { Array a; for (unsigned i = 0; i < X->getNumInits(); ++i) a.push_back(expr(X->getInit(i))); o["e"] = "ilist"; o["a"] = std::move(a); if (X->getArrayFiller()) o["fill"] = expr(X->getArrayFiller()); return o; }
    if (auto *X = dyn_cast<CXXTypeidExpr>(E)) { o["e"] = "typeid"; if (X->isTypeOperand()) o["ty"] = type(X->getTypeOperand(C)); else o["x"] = expr(X->getExprOperand()); return o; }
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) { Expr::EvalResult R; if (X->EvaluateAsInt(R, C)) { llvm::SmallString<32> s; R.Val.getInt().toString(s, 10); o["e"] = "int"; o["v"] = s.str().str(); return o; } }
    if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) { o["e"] = "silist"; o["x"] = expr(X->getSubExpr()); return o; }
    if (auto *X = dyn_cast<LambdaExpr>(E)) { o["e"] = "lambda"; o["f"] = fref(X->getCallOperator()); Array cap;
      for (auto &c : X->captures()) if (c.capturesVariable()) cap.push_back(Object{{"d", id(c.getCapturedVar())}, {"ref", c.getCaptureKind() == LCK_ByRef}}); else if (c.capturesThis()) cap.push_back(Object{{"this", true}});
      o["cap"] = std::move(cap);
      if (auto *FT = X->getCallOperator()->getDescribedFunctionTemplate()) { Array sp; for (auto *S : FT->specializations()) sp.push_back(fref(S)); o["spec"] = std::move(sp); }
      return o; }
    if (auto *X = dyn_cast<TypeTraitExpr>(E)) { if (!X->isValueDependent()) { o["e"] = "bool"; o["v"] = X->getValue(); return o; } }
    o["e"] = "unk"; o["k"] = E->getStmtClassName();
    return o;
  }
  std::set<const VarDecl*> InGlob;
  /// initialiser of a constant with static storage duration
  void globInit(const VarDecl *V, Object &o) {
    QualType T = V->getType(); if (T->isDependentType() || T->isReferenceType() || V->isStaticLocal()) return;
    while (auto *A = C.getAsArrayType(T)) T = A->getElementType();
    if (!T.isConstQualified() || T->isIntegralOrEnumerationType() && !C.getAsArrayType(V->getType())) return;
    const VarDecl *Def = nullptr; const Expr *I = V->getAnyInitializer(Def);
    if (!I || I->isValueDependent() || !InGlob.insert(V->getCanonicalDecl()).second) return;
    o["gi"] = expr(I); o["gt"] = type(V->getType());
    InGlob.erase(V->getCanonicalDecl());
  }
  void constVal(const VarDecl *V, const Expr *E, Object &o) {
    globInit(V, o);
    if (!V->getType()->isIntegralOrEnumerationType() || !V->getType().isConstQualified()) return;
    if (V->getType()->isDependentType()) return;
    Expr::EvalResult R; if (!E->isValueDependent() && E->EvaluateAsInt(R, C)) { llvm::SmallString<32> s; R.Val.getInt().toString(s, 10); o["cv"] = s.str().str(); }
  }
  // ---- declarations --------------------------------------------------------------------------
  bool VisitFunctionDecl(FunctionDecl *F) {
    lintDef(F);
    if (F->isDependentContext()) return true;
    bool lib = inRoot(F->getLocation());
    if (!lib) if (auto *P = F->getTemplateInstantiationPattern()) lib = inRoot(P->getLocation());
    if (!lib) return true;
    const FunctionDecl *Def = nullptr;
    if (F->hasBody(Def) && Def && Def->getBody()) emitF(Def);
    fref(F);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return true;
    if (!inRoot(R->getLocation())) return true;
    if (!DoneR.insert(R->getCanonicalDecl()).second) return true;
    Object o; o["id"] = id(R); o["n"] = R->getQualifiedNameAsString(); o["t"] = type(C.getRecordType(R));
    o["f"] = file(R->getLocation()); o["l"] = line(R->getLocation());
    Array b; for (auto &x : R->bases()) b.push_back(type(x.getType())); o["bases"] = std::move(b);
    Array fs; for (auto *F : R->fields()) { Object f{{"id", id(F)}, {"n", F->getNameAsString()}, {"t", type(F->getType())}, {"l", line(F->getLocation())}};
      if (F->isMutable()) f["mut"] = true;
      if (F->isBitField() && !F->getBitWidth()->isValueDependent()) f["bits"] = (int)F->getBitWidthValue(C);
      fs.push_back(std::move(f)); }
    o["fields"] = std::move(fs);
    Array ms; for (auto *M : R->methods()) ms.push_back(fref(M)); o["methods"] = std::move(ms);
    if (R->isAbstract()) o["abs"] = true; if (R->isPolymorphic()) o["poly"] = true;
    if (R->hasUserDeclaredCopyConstructor()) o["ucc"] = true; if (R->hasUserDeclaredCopyAssignment()) o["uca"] = true; if (R->hasUserDeclaredDestructor()) o["ud"] = true;
    if (auto *D = R->getDestructor()) { if (D->isVirtual()) o["vdtor"] = true; }
    if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
      auto P = S->getSpecializedTemplateOrPartial();
      if (auto *PS = P.dyn_cast<ClassTemplatePartialSpecializationDecl*>()) { o["from"] = id(PS); o["pf"] = file(PS->getLocation()); o["pl"] = line(PS->getLocation()); }
      else if (auto *CT = P.dyn_cast<ClassTemplateDecl*>()) { o["from"] = id(CT->getTemplatedDecl()); o["pf"] = file(CT->getLocation()); o["pl"] = line(CT->getLocation()); }
      if (S->isExplicitSpecialization()) o["expl"] = true;
    }
    Records.push_back(std::move(o));
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (!inRoot(V->getLocation())) return true;
    if (!V->hasGlobalStorage()) return true;
    Object o{{"id", id(V)}, {"n", V->getQualifiedNameAsString()}, {"t", type(V->getType())}, {"f", file(V->getLocation())}, {"l", line(V->getLocation())}};
    if (V->getType().isConstQualified()) o["const"] = true; if (V->isConstexpr()) o["cx"] = true; if (V->isInline()) o["inline"] = true;
    if (V->isStaticLocal() && V->hasInit() && argDep(V->getInit(), V->getDeclContext())) o["argdep"] = true;
    if (V->getType()->isReferenceType() && V->getType().getNonReferenceType().isConstQualified()) o["const"] = true;
    if (V->isStaticLocal()) o["slocal"] = true; if (V->isStaticDataMember()) o["smember"] = true; if (V->getStorageClass() == SC_Static) o["sstatic"] = true;
    if (V->isThisDeclarationADefinition() != VarDecl::DeclarationOnly) o["def"] = true; if (V->getTSCSpec() != TSCS_unspecified) o["tls"] = true;
    if (V->getDeclContext()->isDependentContext()) o["dep"] = true;
    if (isa<VarTemplateSpecializationDecl>(V) || V->getTemplateInstantiationPattern()) o["tmpl"] = true;
    { QualType T = V->getType(); while (auto *A = C.getAsArrayType(T)) T = A->getElementType(); if (T.isConstQualified()) o["constelem"] = true;
      if (auto *R = T->getAsCXXRecordDecl()) if (R->hasDefinition() && R->getDefinition()->hasMutableFields()) o["mutfields"] = true; }
    o["ext"] = V->getFormalLinkage() == Linkage::External;
    Vars.push_back(std::move(o));
    return true;
  }
  bool VisitFunctionTemplateDecl(FunctionTemplateDecl *T) {
    if (!inRoot(T->getLocation()) || T->getCanonicalDecl() != T) return true;
    unsigned n = 0; for (auto *s : T->specializations()) { (void)s; ++n; }
    auto *F = T->getTemplatedDecl(); const FunctionDecl *Def = nullptr; bool def = F->hasBody(Def);
    std::string pr; { llvm::raw_string_ostream s(pr); PrintingPolicy P2 = PP; P2.TerseOutput = true; F->print(s, P2); }
    Object o{{"id", id(F)}, {"n", T->getQualifiedNameAsString()}, {"f", file(T->getLocation())}, {"l", line(T->getLocation())}, {"specs", (int)n}, {"def", def}, {"sig", pr}};
    Templates.push_back(std::move(o));
    return true;
  }
  bool VisitClassTemplatePartialSpecializationDecl(ClassTemplatePartialSpecializationDecl *P) {
    if (!inRoot(P->getLocation()) || !P->isThisDeclarationADefinition()) return true;
    Object o{{"id", id(P)}, {"n", P->getQualifiedNameAsString()}, {"f", file(P->getLocation())}, {"l", line(P->getLocation())}};
    Array ps; for (auto *x : *P->getTemplateParameters()) { Object p{{"n", x->getNameAsString()}};
      if (isa<TemplateTypeParmDecl>(x)) p["k"] = "type"; else if (auto *N = dyn_cast<NonTypeTemplateParmDecl>(x)) { p["k"] = "val"; p["t"] = type(N->getType()); } else p["k"] = "tmpl"; ps.push_back(std::move(p)); }
    o["params"] = std::move(ps);
    std::string s; llvm::raw_string_ostream os(s);
    PrintingPolicy P2(C.getLangOpts()); P2.SuppressTagKeyword = true; P2.FullyQualifiedName = true; P2.SuppressScope = false; P2.PrintCanonicalTypes = false;
    Array as; auto &TA = P->getTemplateInstantiationArgs(); for (unsigned i = 0; i < TA.size(); ++i) { as.push_back(targ(TA[i])); }
    o["args"] = std::move(as);
    Partials.push_back(std::move(o));
    return true;
  }
  // ---- lints: facts about every construct of the library, template patterns and instantiations alike ------
  void lint(const char *k, SourceLocation L, Object o) {
    if (!inRoot(L)) return;
    o["k"] = k; o["f"] = file(L); o["l"] = line(L); if (!FStack.empty()) { std::string n; llvm::raw_string_ostream s(n); FStack.back()->getNameForDiagnostic(s, PP, true); o["fn"] = n; }
    Object key(o); key.erase("fn"); std::string t; llvm::raw_string_ostream(t) << Value(std::move(key));
    if (LintSeen.insert(t).second) Lints.push_back(std::move(o));
  }
  bool TraverseDecl(Decl *D) {
    auto *F = dyn_cast_or_null<FunctionDecl>(D); if (F) FStack.push_back(F);
    bool r = RecursiveASTVisitor<Ex>::TraverseDecl(D);
    if (F) FStack.pop_back();
    return r;
  }
  bool derivesStd(QualType T) {
    auto *R = T.getNonReferenceType()->getAsCXXRecordDecl(); if (!R || !R->hasDefinition()) return false;
    if (R->getQualifiedNameAsString() == "std::exception") return true;
    for (auto &b : R->getDefinition()->bases()) if (!b.getType()->isDependentType() && b.getAccessSpecifier() == AS_public && derivesStd(b.getType())) return true;
    return false;
  }
  bool VisitCXXThrowExpr(CXXThrowExpr *E) {
    Object o; auto *S = E->getSubExpr();
    if (!S) o["rethrow"] = true;
    else { QualType T = S->getType(); o["ty"] = T.getCanonicalType().getAsString(PP); if (T->isDependentType()) o["dep"] = true; else if (derivesStd(T)) o["ok"] = true; }
    lint("throw", E->getThrowLoc(), std::move(o)); return true;
  }
  struct HasThrow : RecursiveASTVisitor<HasThrow> { bool any = false; bool VisitCXXThrowExpr(CXXThrowExpr *) { any = true; return true; } };
  bool VisitCXXCatchStmt(CXXCatchStmt *H) {
    Object o; o["ty"] = H->getCaughtType().isNull() ? "..." : H->getCaughtType().getCanonicalType().getAsString(PP);
    HasThrow h; h.TraverseStmt(H->getHandlerBlock()); o["throws"] = h.any;
    lint("catch", H->getCatchLoc(), std::move(o)); return true;
  }
  static bool dropsConst(QualType From, QualType To) {
    // pointer or reference conversions that lose constness of the object reached
    while (true) {
      if (From->isDependentType() || To->isDependentType()) return false;
      QualType a = From->isReferenceType() || From->isPointerType() ? From->getPointeeType() : QualType(), b = To->isReferenceType() || To->isPointerType() ? To->getPointeeType() : QualType();
      if (a.isNull() || b.isNull()) return false;
      if (a.isConstQualified() && !b.isConstQualified() && !b->isFunctionType()) return true;
      From = a; To = b;
    }
  }
  bool VisitExplicitCastExpr(ExplicitCastExpr *E) {
    QualType To = E->getTypeAsWritten(), From = E->getSubExprAsWritten()->getType();
    if (To->isReferenceType() && E->getSubExprAsWritten()->isGLValue()) From = C.getLValueReferenceType(From);
    Object o; o["to"] = To.getCanonicalType().getAsString(PP); o["from"] = From.getCanonicalType().getAsString(PP);
    if (isa<CXXConstCastExpr>(E)) lint("constcast", E->getBeginLoc(), std::move(o));
    else if (isa<CXXReinterpretCastExpr>(E)) lint("reinterpret", E->getBeginLoc(), std::move(o));
    else if (dropsConst(From, To)) lint("constcast", E->getBeginLoc(), std::move(o));
    return true;
  }
  bool VisitFieldDecl(FieldDecl *F) {
    if (F->isMutable()) lint("mutable", F->getLocation(), Object{{"n", F->getNameAsString()}});
    return true;
  }
  void lintDef(const FunctionDecl *F) {
    if (!F->isThisDeclarationADefinition() || F->isImplicit() || F->isDefaulted() || F->isDeleted()) return;
    if (F->isDependentContext() || F->isInlined() || F->isConstexpr()) return;
    if (F->isTemplateInstantiation()) return;             // implicit instantiation: any number of definitions is fine
    bool ext = F->getFormalLinkage() == Linkage::External || F->getFormalLinkage() == Linkage::Module;
    lint(ext ? "strongdef" : "localdef", F->getLocation(), Object{{"n", F->getQualifiedNameAsString()}});
  }
  bool VisitTypedefNameDecl(TypedefNameDecl *T) {
    // query results: typedefs whose name starts with vq_ (in the driver)
    if (!T->getName().starts_with("vq_")) return true;
    if (T->getUnderlyingType()->isDependentType()) return true;
    Object o{{"n", T->getNameAsString()}, {"t", type(T->getUnderlyingType())}, {"l", line(T->getLocation())}};
    if (T->isInvalidDecl()) o["bad"] = true;
    Typedefs.push_back(std::move(o));
    return true;
  }
  void dump() {
    Object top; top["functions"] = std::move(Functions); top["records"] = std::move(Records); top["vars"] = std::move(Vars);
    top["templates"] = std::move(Templates); top["partials"] = std::move(Partials); top["typedefs"] = std::move(Typedefs);
    top["decls"] = std::move(Externs); top["types"] = std::move(TypeTab); top["diags"] = std::move(Diags); top["lints"] = std::move(Lints);
    llvm::outs() << Value(std::move(top)) << "\n";
  }
};

struct DiagC : DiagnosticConsumer {
  void HandleDiagnostic(DiagnosticsEngine::Level L, const Diagnostic &I) override {
    DiagnosticConsumer::HandleDiagnostic(L, I);
    if (Diags.size() > 20000) return;
    llvm::SmallString<256> m; I.FormatDiagnostic(m);
    Object o; o["m"] = json::fixUTF8(m.str().str()); o["lv"] = (int)L;
    if (I.hasSourceManager() && I.getLocation().isValid()) { auto &SM = I.getSourceManager(); auto X = SM.getExpansionLoc(I.getLocation()); o["f"] = SM.getFilename(X).str(); o["l"] = (int)SM.getExpansionLineNumber(X); }
    if (L == DiagnosticsEngine::Note || L >= DiagnosticsEngine::Error) Diags.push_back(std::move(o));
    else if (L == DiagnosticsEngine::Warning) { o["opt"] = (int)I.getID(); Diags.push_back(std::move(o)); }
  }
};
struct Cons : ASTConsumer { void HandleTranslationUnit(ASTContext &C) override { Ex e(C); e.TraverseDecl(C.getTranslationUnitDecl()); e.dump(); } };
struct Act : ASTFrontendAction { std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override { return std::make_unique<Cons>(); } };

int main(int argc, char **argv) {
  std::string r = argv[1]; size_t p = 0; while (p != std::string::npos) { size_t q = r.find(',', p); Roots.push_back(r.substr(p, q == std::string::npos ? q : q - p)); p = q == std::string::npos ? q : q + 1; }
  std::vector<std::string> src{argv[2]}, flags; bool dd = false;
  for (int i = 3; i < argc; ++i) { if (!dd) { if (std::string(argv[i]) == "--") dd = true; continue; } flags.push_back(argv[i]); }
  tooling::FixedCompilationDatabase DB(".", flags);
  tooling::ClangTool T(DB, src);
  DiagC dc; T.setDiagnosticConsumer(&dc);
  T.run(tooling::newFrontendActionFactory<Act>().get());
  return 0;
}
