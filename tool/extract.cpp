// soro-extract: parses translation units with the project's own flags and dumps
// the resolved program (functions incl. template instantiations and lambdas,
// records, enums, variables) as JSON facts for the analyses in /verif/lib.
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>

#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Attr.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"

using namespace clang;
namespace json = llvm::json;

static std::string Root = "/repo/";
static std::string OutPath;

namespace {

struct Dumper : RecursiveASTVisitor<Dumper> {
  ASTContext &C;
  SourceManager &SM;
  json::Array Types, Decls, Funcs, Records, Enums, Vars;
  std::unordered_map<std::string, int> TypeIdx;
  std::unordered_map<Decl const *, int> DeclIdx;
  std::unordered_map<Decl const *, int> LocalIdx;
  std::set<Decl const *> Seen;
  PrintingPolicy PP;
  int NextStmt = 0;

  Dumper(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getPrintingPolicy()) {
    PP.FullyQualifiedName = true;
    PP.SuppressTagKeyword = true;
    PP.PrintCanonicalTypes = true;
    PP.SuppressUnwrittenScope = true;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto const P = SM.getPresumedLoc(L, false);
    if (P.isInvalid()) return "";
    std::string F = P.getFilename();
    if (!F.empty() && F[0] != '/') {
      if (auto const FE = SM.getFileEntryRefForID(SM.getFileID(L))) {
        auto const R = FE->getFileEntry().tryGetRealPathName();
        if (!R.empty()) return R.str();
      }
    }
    return F;
  }
  bool inRepo(SourceLocation L) {
    if (L.isInvalid()) return false;
    auto const F = fileOf(L);
    return F.rfind(Root, 0) == 0;
  }
  int line(SourceLocation L) { return L.isInvalid() ? 0 : (int)SM.getExpansionLineNumber(L); }

  int type(QualType T) {
    if (T.isNull()) return -1;
    std::string S = T.getCanonicalType().getAsString(PP);
    auto It = TypeIdx.find(S);
    if (It != TypeIdx.end()) return It->second;
    int I = (int)Types.size();
    TypeIdx[S] = I;
    Types.push_back(S);
    return I;
  }
  int local(Decl const *D) {
    D = D->getCanonicalDecl();
    auto It = LocalIdx.find(D);
    if (It != LocalIdx.end()) return It->second;
    int I = (int)LocalIdx.size() + 1;
    LocalIdx[D] = I;
    return I;
  }
  std::string usr(Decl const *D) {
    llvm::SmallString<128> B;
    if (index::generateUSRForDecl(D, B)) return "";
    return B.str().str();
  }
  static bool isLocalVar(ValueDecl const *D) {
    if (isa<ParmVarDecl>(D) || isa<BindingDecl>(D)) return true;
    if (auto const *V = dyn_cast<VarDecl>(D)) return V->isLocalVarDecl() || V->isInitCapture();
    return false;
  }
  std::string qname(NamedDecl const *D) {
    std::string S;
    llvm::raw_string_ostream OS(S);
    D->printQualifiedName(OS, PP);
    return OS.str();
  }
  std::string funcKey(FunctionDecl const *F0) {
    auto const *F = F0->getCanonicalDecl();
    std::string U = usr(F);
    // lambdas and internal-linkage entities share USRs between units: add place
    if (U.empty() || F->getParent()->isRecord()) {
      if (auto const *M = dyn_cast<CXXMethodDecl>(F); M && M->getParent()->isLambda()) {
        auto const L = M->getParent()->getLocation();
        U += "@" + fileOf(L) + ":" + std::to_string(line(L)) + ":" +
             std::to_string(SM.getExpansionColumnNumber(L)) + "#" + F->getType().getCanonicalType().getAsString(PP);
        // instantiation of the enclosing function matters as well
        if (auto const *P = dyn_cast_or_null<FunctionDecl>(enclosingFunc(M->getParent()))) U += "<in>" + funcKey(P);
      }
    }
    return U;
  }
  static Decl const *enclosingFunc(Decl const *D) {
    for (auto const *X = D->getDeclContext(); X; X = X->getParent())
      if (auto const *F = dyn_cast<FunctionDecl>(X)) return F;
    return nullptr;
  }
  int decl(NamedDecl const *D0) {
    NamedDecl const *D = cast<NamedDecl>(D0->getCanonicalDecl());
    auto It = DeclIdx.find(D);
    if (It != DeclIdx.end()) return It->second;
    int I = (int)Decls.size();
    DeclIdx[D] = I;
    Decls.push_back(nullptr);
    json::Object O;
    O["k"] = D->getDeclKindName();
    O["n"] = D->getNameAsString();
    O["q"] = qname(D);
    if (inRepo(D->getLocation())) { O["repo"] = true; O["file"] = fileOf(D->getLocation()).substr(Root.size()); O["line"] = line(D->getLocation()); }
    if (auto const *F = dyn_cast<FunctionDecl>(D)) {
      O["u"] = funcKey(F);
      if (auto const *P = F->getTemplateInstantiationPattern()) { O["pu"] = usr(P->getCanonicalDecl()); }
      else if (auto const *PT = F->getPrimaryTemplate()) { O["pu"] = usr(PT->getTemplatedDecl()->getCanonicalDecl()); }
      O["ret"] = type(F->getReturnType());
      json::Array Ps;
      for (auto const *P : F->parameters()) Ps.push_back(type(P->getType()));
      O["params"] = std::move(Ps);
      if (F->hasAttr<WarnUnusedResultAttr>()) O["nodiscard"] = true;
      if (auto const *TA = F->getTemplateSpecializationArgs()) {
        json::Array A;
        for (auto const &X : TA->asArray()) { std::string S; llvm::raw_string_ostream OS(S); X.print(PP, OS, true); A.push_back(OS.str()); }
        O["targs"] = std::move(A);
      }
      if (auto const *FPT = F->getType()->getAs<FunctionProtoType>()) {
        auto const ES = FPT->getExceptionSpecType();
        if (ES == EST_BasicNoexcept || ES == EST_NoexceptTrue || ES == EST_DynamicNone) O["noexcept"] = true;
      }
      if (auto const *M = dyn_cast<CXXMethodDecl>(F)) {
        O["rec"] = qname(M->getParent());
        if (M->isConst()) O["const"] = true;
        if (M->isStatic()) O["static"] = true;
        if (M->getParent()->isLambda()) O["lambda"] = true;
        O["rect"] = type(C.getRecordType(M->getParent()));
      }
    } else if (auto const *V = dyn_cast<ValueDecl>(D)) {
      O["t"] = type(V->getType());
      if (isLocalVar(V)) O["id"] = local(V);
      if (auto const *FD = dyn_cast<FieldDecl>(V)) { O["rec"] = qname(FD->getParent()); O["idx"] = (int)FD->getFieldIndex(); if (FD->isMutable()) O["mutable"] = true; }
      if (auto const *VD = dyn_cast<VarDecl>(V)) { if (VD->hasGlobalStorage()) O["global"] = true; if (VD->isConstexpr()) O["constexpr"] = true; if (VD->getTSCSpec() != TSCS_unspecified) O["tls"] = true; if (VD->getType().isConstQualified()) O["constv"] = true; }
    }
    Decls[I] = std::move(O);
    return I;
  }

  // ---- expressions / statements -------------------------------------------
  Expr const *strip(Expr const *E) {
    while (E) {
      if (auto const *X = dyn_cast<ImplicitCastExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto const *X = dyn_cast<ParenExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto const *X = dyn_cast<FullExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto const *X = dyn_cast<MaterializeTemporaryExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto const *X = dyn_cast<CXXBindTemporaryExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto const *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = X->getReplacement(); continue; }
      if (auto const *X = dyn_cast<CXXDefaultArgExpr>(E)) { E = X->getExpr(); continue; }
      if (auto const *X = dyn_cast<CXXDefaultInitExpr>(E)) { E = X->getExpr(); continue; }
      if (auto const *X = dyn_cast<CXXStdInitializerListExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto const *X = dyn_cast<CXXRewrittenBinaryOperator>(E)) { break; }
      if (auto const *X = dyn_cast<CXXConstructExpr>(E)) {
        // elidable copies / moves
        if (X->isElidable() && X->getNumArgs() == 1 && !isa<CXXTemporaryObjectExpr>(X)) { E = X->getArg(0); continue; }
      }
      break;
    }
    return E;
  }

  json::Value arr(llvm::ArrayRef<Expr *> A) { json::Array R; for (auto *E : A) R.push_back(expr(E)); return R; }
  template <typename It> json::Value arrRange(It B, It E) { json::Array R; for (; B != E; ++B) R.push_back(expr(*B)); return R; }

  json::Value expr(Expr const *E0) {
    if (!E0) return nullptr;
    Expr const *E = strip(E0);
    if (!E) return nullptr;
    json::Object O;
    O["i"] = NextStmt++;
    O["l"] = line(E->getBeginLoc());
    O["t"] = type(E->getType());
    if (!E->getType().isNull() && !E->isValueDependent() && !E->isTypeDependent() && !E->containsErrors() &&
        (E->getType()->isIntegralOrEnumerationType())) {
      Expr::EvalResult R;
      if (E->EvaluateAsRValue(R, C, false) && R.Val.isInt() && !R.HasSideEffects) {
        llvm::SmallString<32> S;
        R.Val.getInt().toString(S, 10);
        O["v"] = S.str().str();
      }
    }
    switch (E->getStmtClass()) {
      case Stmt::IntegerLiteralClass: case Stmt::CharacterLiteralClass: case Stmt::CXXBoolLiteralExprClass:
        O["k"] = "lit"; break;
      case Stmt::FloatingLiteralClass: {
        O["k"] = "flit"; llvm::SmallString<32> S; cast<FloatingLiteral>(E)->getValue().toString(S); O["fv"] = S.str().str(); break; }
      case Stmt::StringLiteralClass: {
        O["k"] = "str"; auto const *S = cast<StringLiteral>(E);
        if (S->getCharByteWidth() == 1) { std::string B = S->getBytes().str(); O["s"] = json::isUTF8(B) ? B : json::fixUTF8(B); } break; }
      case Stmt::CXXNullPtrLiteralExprClass: case Stmt::GNUNullExprClass: O["k"] = "null"; break;
      case Stmt::CXXThisExprClass: O["k"] = "this"; break;
      case Stmt::DeclRefExprClass: {
        auto const *D = cast<DeclRefExpr>(E)->getDecl();
        O["k"] = "ref"; O["n"] = D->getNameAsString();
        if (isLocalVar(D)) { O["id"] = local(D); if (auto const *V = dyn_cast<VarDecl>(D); V && V->isStaticLocal()) O["static"] = true; }
        else O["d"] = decl(D);
        break; }
      case Stmt::MemberExprClass: {
        auto const *M = cast<MemberExpr>(E);
        O["k"] = "mem"; O["n"] = M->getMemberDecl()->getNameAsString(); O["d"] = decl(M->getMemberDecl());
        O["b"] = expr(M->getBase()); if (M->isArrow()) O["arrow"] = true; break; }
      case Stmt::CXXMemberCallExprClass: case Stmt::CallExprClass: case Stmt::CXXOperatorCallExprClass: case Stmt::UserDefinedLiteralClass: {
        auto const *X = cast<CallExpr>(E);
        O["k"] = "call";
        if (auto const *OC = dyn_cast<CXXOperatorCallExpr>(E)) O["op"] = getOperatorSpelling(OC->getOperator());
        if (auto const *FD = X->getDirectCallee()) { O["d"] = decl(FD); O["n"] = FD->getNameAsString(); }
        else O["fn"] = expr(X->getCallee());
        if (auto const *MC = dyn_cast<CXXMemberCallExpr>(E)) {
          if (auto const *B = MC->getImplicitObjectArgument()) O["o"] = expr(B);
          if (auto const *ME = dyn_cast<MemberExpr>(MC->getCallee()->IgnoreParenImpCasts()); ME && ME->isArrow()) O["arrow"] = true;
          if (isa_and_nonnull<CXXConversionDecl>(X->getDirectCallee())) O["conv"] = true;
        }
        O["a"] = arr(llvm::ArrayRef<Expr *>(const_cast<Expr **>(X->getArgs()), X->getNumArgs()));
        break; }
      case Stmt::CXXConstructExprClass: case Stmt::CXXTemporaryObjectExprClass: {
        auto const *X = cast<CXXConstructExpr>(E);
        O["k"] = "ctor"; O["d"] = decl(X->getConstructor());
        if (X->isListInitialization()) O["list"] = true;
        if (X->getConstructor()->isCopyConstructor()) O["copy"] = true;
        if (X->getConstructor()->isMoveConstructor()) O["move"] = true;
        if (X->getConstructor()->isDefaultConstructor()) O["default"] = true;
        if (X->requiresZeroInitialization()) O["zero"] = true;
        O["a"] = arr(llvm::ArrayRef<Expr *>(const_cast<Expr **>(X->getArgs()), X->getNumArgs()));
        break; }
      case Stmt::CXXRewrittenBinaryOperatorClass: {
        auto const D = cast<CXXRewrittenBinaryOperator>(E)->getDecomposedForm();
        O["k"] = "bin"; O["rewritten"] = true; O["op"] = BinaryOperator::getOpcodeStr(D.Opcode).str();
        O["a"] = json::Array{expr(D.LHS), expr(D.RHS)}; 
        O["inner"] = expr(D.InnerBinOp);
        break; }
      case Stmt::BinaryOperatorClass: case Stmt::CompoundAssignOperatorClass: {
        auto const *B = cast<BinaryOperator>(E);
        O["k"] = "bin"; O["op"] = B->getOpcodeStr().str(); O["a"] = json::Array{expr(B->getLHS()), expr(B->getRHS())}; break; }
      case Stmt::UnaryOperatorClass: {
        auto const *U = cast<UnaryOperator>(E);
        O["k"] = "un"; O["op"] = UnaryOperator::getOpcodeStr(U->getOpcode()).str(); if (U->isPostfix()) O["post"] = true; O["a"] = json::Array{expr(U->getSubExpr())}; break; }
      case Stmt::ConditionalOperatorClass: {
        auto const *X = cast<ConditionalOperator>(E);
        O["k"] = "cond"; O["a"] = json::Array{expr(X->getCond()), expr(X->getTrueExpr()), expr(X->getFalseExpr())}; break; }
      case Stmt::ArraySubscriptExprClass: {
        auto const *X = cast<ArraySubscriptExpr>(E);
        O["k"] = "sub"; O["a"] = json::Array{expr(X->getBase()), expr(X->getIdx())}; break; }
      case Stmt::InitListExprClass: {
        auto const *X = cast<InitListExpr>(E);
        if (auto const *S = X->getSemanticForm()) X = S;
        O["k"] = "init"; json::Array A;
        for (auto const *I : X->inits()) A.push_back(I && !isa<ImplicitValueInitExpr>(I) ? expr(I) : json::Value(nullptr));
        json::Array Def; for (auto const *I : X->inits()) Def.push_back(I && isa<CXXDefaultInitExpr>(I));
        O["a"] = std::move(A); O["dflt"] = std::move(Def);
        if (auto const *RD = X->getType()->getAsCXXRecordDecl()) {
          json::Array N; for (auto const *F : RD->fields()) N.push_back(F->getNameAsString()); O["fields"] = std::move(N); O["nbases"] = (int)RD->getNumBases(); }
        break; }
      case Stmt::LambdaExprClass: {
        auto const *L = cast<LambdaExpr>(E);
        O["k"] = "lambda"; O["u"] = funcKey(L->getCallOperator()); O["d"] = decl(L->getCallOperator());
        json::Array Caps; unsigned Ix = 0; auto InitIt = L->capture_init_begin();
        for (auto const &Cp : L->captures()) {
          json::Object P; P["byref"] = Cp.getCaptureKind() == LCK_ByRef;
          if (Cp.capturesThis()) P["this"] = true;
          else if (Cp.capturesVariable()) { P["id"] = local(Cp.getCapturedVar()); P["n"] = Cp.getCapturedVar()->getNameAsString(); P["t"] = type(Cp.getCapturedVar()->getType()); }
          if (InitIt != L->capture_init_end() && *InitIt) { P["init"] = expr(*InitIt); }
          ++InitIt; ++Ix; Caps.push_back(std::move(P)); }
        O["caps"] = std::move(Caps);
        json::Array Insts; 
        if (auto const *FT = L->getCallOperator()->getDescribedFunctionTemplate())
          for (auto const *S : FT->specializations()) Insts.push_back(funcKey(S));
        O["insts"] = std::move(Insts);
        break; }
      case Stmt::CXXStaticCastExprClass: case Stmt::CStyleCastExprClass: case Stmt::CXXFunctionalCastExprClass:
      case Stmt::CXXReinterpretCastExprClass: case Stmt::CXXConstCastExprClass: case Stmt::CXXDynamicCastExprClass: {
        auto const *X = cast<ExplicitCastExpr>(E);
        O["k"] = "cast"; O["ck"] = X->getCastKindName(); O["a"] = json::Array{expr(X->getSubExpr())}; break; }
      case Stmt::CXXNewExprClass: {
        auto const *X = cast<CXXNewExpr>(E); O["k"] = "new"; json::Array A; if (X->getInitializer()) A.push_back(expr(X->getInitializer())); O["a"] = std::move(A); break; }
      case Stmt::CXXDeleteExprClass: O["k"] = "delete"; O["a"] = json::Array{expr(cast<CXXDeleteExpr>(E)->getArgument())}; break;
      case Stmt::CXXThrowExprClass: O["k"] = "throw"; O["a"] = json::Array{expr(cast<CXXThrowExpr>(E)->getSubExpr())}; break;
      case Stmt::CoyieldExprClass: O["k"] = "co_yield"; O["a"] = json::Array{expr(cast<CoyieldExpr>(E)->getOperand())}; break;
      case Stmt::CoawaitExprClass: O["k"] = "co_await"; O["a"] = json::Array{expr(cast<CoawaitExpr>(E)->getOperand())}; break;
      case Stmt::CXXScalarValueInitExprClass: case Stmt::ImplicitValueInitExprClass: O["k"] = "zero"; break;
      case Stmt::UnaryExprOrTypeTraitExprClass: O["k"] = "sizeof"; break;
      default: {
        O["k"] = "other"; O["cls"] = E->getStmtClassName();
        if (auto const *D = dyn_cast<CXXDependentScopeMemberExpr>(E)) { O["n"] = D->getMember().getAsString(); }
        if (auto const *D = dyn_cast<OverloadExpr>(E)) { O["n"] = D->getName().getAsString(); }
        json::Array A; for (auto const *Ch : E->children()) if (Ch) { if (auto const *CE = dyn_cast<Expr>(Ch)) A.push_back(expr(CE)); else A.push_back(stmt(Ch)); }
        O["a"] = std::move(A); }
    }
    return O;
  }

  json::Value var(VarDecl const *V) {
    json::Object O;
    O["id"] = local(V); O["n"] = V->getNameAsString(); O["t"] = type(V->getType()); O["l"] = line(V->getLocation());
    if (V->isStaticLocal()) O["static"] = true;
    if (V->isConstexpr()) O["constexpr"] = true;
    if (V->getTSCSpec() != TSCS_unspecified) O["tls"] = true;
    if (V->getInit()) O["init"] = expr(V->getInit());
    if (V->getInitStyle() == VarDecl::ListInit) O["list"] = true;
    if (auto const *DD = dyn_cast<DecompositionDecl>(V)) {
      json::Array B;
      for (auto const *X : DD->bindings()) B.push_back(json::Object{{"id", local(X)}, {"n", X->getNameAsString()}, {"t", type(X->getType())}});
      O["bind"] = std::move(B);
    }
    return O;
  }

  json::Value stmt(Stmt const *S) {
    if (!S) return nullptr;
    if (auto const *E = dyn_cast<Expr>(S)) return expr(E);
    json::Object O;
    O["i"] = NextStmt++;
    O["l"] = line(S->getBeginLoc());
    switch (S->getStmtClass()) {
      case Stmt::CompoundStmtClass: {
        O["k"] = "block"; json::Array A; for (auto const *X : cast<CompoundStmt>(S)->body()) A.push_back(stmt(X)); O["a"] = std::move(A); O["le"] = line(S->getEndLoc()); break; }
      case Stmt::DeclStmtClass: {
        O["k"] = "decl"; json::Array A;
        for (auto const *D : cast<DeclStmt>(S)->decls()) if (auto const *V = dyn_cast<VarDecl>(D)) A.push_back(var(V));
        O["vars"] = std::move(A); break; }
      case Stmt::IfStmtClass: {
        auto const *X = cast<IfStmt>(S); O["k"] = "if";
        if (X->getInit()) O["init"] = stmt(X->getInit());
        if (X->getConditionVariable()) O["var"] = var(X->getConditionVariable());
        if (X->isConstexpr()) { O["constexpr"] = true; }
        O["cond"] = X->getCond() ? expr(X->getCond()) : json::Value(nullptr);
        bool DropT = false, DropE = false;
        if (X->isConstexpr() && X->getCond() && !X->getCond()->isValueDependent()) {
          if (auto const N = X->getNondiscardedCase(C)) { DropT = !*N || *N != X->getThen(); DropE = *N == X->getThen(); O["folded"] = true; }
        }
        O["then"] = DropT ? json::Value(json::Object{{"k", "block"}, {"i", NextStmt++}, {"l", 0}, {"a", json::Array{}}}) : stmt(X->getThen());
        O["else"] = DropE ? json::Value(nullptr) : stmt(X->getElse());
        break; }
      case Stmt::ForStmtClass: {
        auto const *X = cast<ForStmt>(S); O["k"] = "for"; O["init"] = stmt(X->getInit());
        O["cond"] = X->getCond() ? expr(X->getCond()) : json::Value(nullptr); O["inc"] = X->getInc() ? expr(X->getInc()) : json::Value(nullptr); O["body"] = stmt(X->getBody()); break; }
      case Stmt::CXXForRangeStmtClass: {
        auto const *X = cast<CXXForRangeStmt>(S); O["k"] = "rfor"; if (X->getInit()) O["init"] = stmt(X->getInit());
        O["var"] = var(X->getLoopVariable()); O["range"] = X->getRangeInit() ? expr(X->getRangeInit()) : json::Value(nullptr); O["body"] = stmt(X->getBody()); break; }
      case Stmt::WhileStmtClass: {
        auto const *X = cast<WhileStmt>(S); O["k"] = "while"; if (X->getConditionVariable()) O["var"] = var(X->getConditionVariable());
        O["cond"] = expr(X->getCond()); O["body"] = stmt(X->getBody()); break; }
      case Stmt::DoStmtClass: { auto const *X = cast<DoStmt>(S); O["k"] = "do"; O["cond"] = expr(X->getCond()); O["body"] = stmt(X->getBody()); break; }
      case Stmt::SwitchStmtClass: {
        auto const *X = cast<SwitchStmt>(S); O["k"] = "switch"; if (X->getInit()) O["init"] = stmt(X->getInit());
        O["cond"] = expr(X->getCond()); O["body"] = stmt(X->getBody()); break; }
      case Stmt::CaseStmtClass: {
        auto const *X = cast<CaseStmt>(S); O["k"] = "case"; O["val"] = expr(X->getLHS()); if (X->getRHS()) O["hi"] = expr(X->getRHS()); O["sub"] = stmt(X->getSubStmt()); break; }
      case Stmt::DefaultStmtClass: O["k"] = "default"; O["sub"] = stmt(cast<DefaultStmt>(S)->getSubStmt()); break;
      case Stmt::BreakStmtClass: O["k"] = "break"; break;
      case Stmt::ContinueStmtClass: O["k"] = "continue"; break;
      case Stmt::ReturnStmtClass: O["k"] = "return"; O["e"] = cast<ReturnStmt>(S)->getRetValue() ? expr(cast<ReturnStmt>(S)->getRetValue()) : json::Value(nullptr); break;
      case Stmt::CoreturnStmtClass: O["k"] = "return"; O["co"] = true; O["e"] = cast<CoreturnStmt>(S)->getOperand() ? expr(cast<CoreturnStmt>(S)->getOperand()) : json::Value(nullptr); break;
      case Stmt::CoroutineBodyStmtClass: return stmt(cast<CoroutineBodyStmt>(S)->getBody());
      case Stmt::CXXTryStmtClass: {
        auto const *X = cast<CXXTryStmt>(S); O["k"] = "try"; O["body"] = stmt(X->getTryBlock()); json::Array H;
        for (unsigned I = 0; I < X->getNumHandlers(); ++I) { auto const *Hd = X->getHandler(I); json::Object HO;
          if (Hd->getExceptionDecl()) { HO["var"] = var(Hd->getExceptionDecl()); HO["t"] = type(Hd->getCaughtType()); }
          HO["body"] = stmt(Hd->getHandlerBlock()); H.push_back(std::move(HO)); }
        O["handlers"] = std::move(H); break; }
      case Stmt::NullStmtClass: O["k"] = "nop"; break;
      case Stmt::AttributedStmtClass: return stmt(cast<AttributedStmt>(S)->getSubStmt());
      case Stmt::LabelStmtClass: return stmt(cast<LabelStmt>(S)->getSubStmt());
      case Stmt::GotoStmtClass: O["k"] = "goto"; break;
      default: {
        O["k"] = "other"; O["cls"] = S->getStmtClassName(); json::Array A; for (auto const *Ch : S->children()) if (Ch) A.push_back(stmt(Ch)); O["a"] = std::move(A); }
    }
    return O;
  }

  // ---- declarations --------------------------------------------------------
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!F->isThisDeclarationADefinition() && !F->isDefaulted()) return true;
    if (!inRepo(F->getLocation())) return true;
    if (!Seen.insert(F).second) return true;
    if (F->isImplicit()) return true;
    json::Object O;
    O["d"] = decl(F);
    O["u"] = funcKey(F);
    O["q"] = qname(F); O["n"] = F->getNameAsString();
    O["file"] = fileOf(F->getLocation()).substr(Root.size()); O["line"] = line(F->getLocation()); O["end"] = line(F->getEndLoc());
    O["ret"] = type(F->getReturnType());
    bool const Dep = F->isDependentContext();
    O["dep"] = Dep;
    if (auto const *P = F->getTemplateInstantiationPattern()) O["pattern"] = usr(P->getCanonicalDecl());
    json::Array Ps;
    for (auto const *P : F->parameters()) Ps.push_back(var(P));
    O["params"] = std::move(Ps);
    if (auto const *M = dyn_cast<CXXMethodDecl>(F)) {
      O["rec"] = qname(M->getParent());
      if (M->isConst()) O["const"] = true;
      if (M->getParent()->isLambda()) { O["lambda"] = true; if (auto const *P = dyn_cast_or_null<FunctionDecl>(enclosingFunc(M->getParent()))) { O["in"] = funcKey(P); O["inq"] = qname(P); } }
      if (M->isDefaulted()) O["defaulted"] = true;
      if (M->isDeleted()) O["deleted"] = true;
    }
    if (auto const *CD = dyn_cast<CXXConstructorDecl>(F)) {
      O["ctor"] = true; json::Array I;
      for (auto const *X : CD->inits()) {
        json::Object P;
        if (X->isAnyMemberInitializer()) P["field"] = X->getAnyMember()->getNameAsString();
        else if (X->isBaseInitializer()) P["base"] = type(QualType(X->getBaseClass(), 0));
        else P["delegating"] = true;
        P["written"] = X->isWritten(); P["init"] = expr(X->getInit());
        if (isa<CXXDefaultInitExpr>(X->getInit())) P["dflt"] = true;
        I.push_back(std::move(P)); }
      O["inits"] = std::move(I);
    }
    if (F->isThisDeclarationADefinition() && F->hasBody() && !F->isDefaulted()) {
      O["body"] = stmt(F->getBody());
      if (isa_and_nonnull<CoroutineBodyStmt>(F->getBody())) O["coro"] = true;
    }
    Funcs.push_back(std::move(O));
    return true;
  }

  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || !inRepo(R->getLocation()) || R->isLambda()) return true;
    if (!Seen.insert(R).second) return true;
    json::Object O;
    O["q"] = qname(R); O["file"] = fileOf(R->getLocation()).substr(Root.size()); O["line"] = line(R->getLocation());
    O["dep"] = R->isDependentContext();
    O["t"] = type(C.getRecordType(R));
    json::Array F;
    for (auto const *X : R->fields()) {
      json::Object P; P["n"] = X->getNameAsString(); P["t"] = type(X->getType()); P["l"] = line(X->getLocation());
      P["access"] = (int)X->getAccess();
      if (X->isMutable()) P["mutable"] = true;
      if (X->hasInClassInitializer()) P["nsdmi"] = X->getInClassInitializer() ? expr(X->getInClassInitializer()) : json::Value(true);
      auto const Cn = X->getType().getCanonicalType();
      P["scalar"] = !Cn->isDependentType() && Cn->isScalarType();
      P["ref"] = Cn->isReferenceType();
      F.push_back(std::move(P)); }
    O["fields"] = std::move(F);
    json::Array B; for (auto const &X : R->bases()) B.push_back(type(X.getType())); O["bases"] = std::move(B);
    if (!R->isDependentContext()) {
      O["aggregate"] = R->isAggregate();
      O["copyable"] = R->hasSimpleCopyConstructor() || R->hasUserDeclaredCopyConstructor();
    }
    json::Array M;
    for (auto const *X : R->methods()) {
      if (X->isImplicit()) continue;
      json::Object P; P["n"] = X->getNameAsString(); P["u"] = funcKey(X); P["deleted"] = X->isDeleted(); P["defaulted"] = X->isDefaulted();
      if (isa<CXXDestructorDecl>(X)) P["dtor"] = true;
      if (auto const *CD = dyn_cast<CXXConstructorDecl>(X)) { P["ctor"] = true; P["copy"] = CD->isCopyConstructor(); P["move"] = CD->isMoveConstructor(); P["default"] = CD->isDefaultConstructor(); }
      if (X->isCopyAssignmentOperator()) P["copyassign"] = true;
      if (X->isMoveAssignmentOperator()) P["moveassign"] = true;
      M.push_back(std::move(P)); }
    O["methods"] = std::move(M);
    Records.push_back(std::move(O));
    return true;
  }

  bool VisitEnumDecl(EnumDecl *E) {
    if (!E->isThisDeclarationADefinition() || !inRepo(E->getLocation()) || !Seen.insert(E).second) return true;
    json::Object O; O["q"] = qname(E); O["t"] = type(C.getEnumType(E)); O["file"] = fileOf(E->getLocation()).substr(Root.size()); O["line"] = line(E->getLocation());
    O["scoped"] = E->isScoped();
    json::Array V;
    for (auto const *X : E->enumerators()) { llvm::SmallString<32> S; X->getInitVal().toString(S, 10); V.push_back(json::Object{{"n", X->getNameAsString()}, {"v", S.str().str()}, {"l", line(X->getLocation())}}); }
    O["vals"] = std::move(V);
    Enums.push_back(std::move(O));
    return true;
  }

  bool VisitVarDecl(VarDecl *V) {
    if (!V->hasGlobalStorage() || V->isStaticLocal() || isa<ParmVarDecl>(V)) return true;
    if (!inRepo(V->getLocation()) || !Seen.insert(V).second) return true;
    json::Object O; O["q"] = qname(V); O["n"] = V->getNameAsString(); O["d"] = decl(V); O["t"] = type(V->getType()); O["file"] = fileOf(V->getLocation()).substr(Root.size()); O["line"] = line(V->getLocation());
    O["const"] = V->getType().isConstQualified() || V->isConstexpr(); O["constexpr"] = V->isConstexpr();
    if (V->getType()->isDependentType() || V->getDeclContext()->isDependentContext()) O["dep"] = true;
    if (V->getInit()) O["init"] = expr(V->getInit());
    Vars.push_back(std::move(O));
    return true;
  }
};

struct Consumer : ASTConsumer {
  std::string Main;
  explicit Consumer(std::string M) : Main(std::move(M)) {}
  void HandleTranslationUnit(ASTContext &C) override {
    Dumper D(C);
    D.TraverseDecl(C.getTranslationUnitDecl());
    json::Object O;
    O["main"] = Main; O["errors"] = (int)C.getDiagnostics().getClient()->getNumErrors();
    O["types"] = std::move(D.Types); O["decls"] = std::move(D.Decls); O["funcs"] = std::move(D.Funcs);
    O["records"] = std::move(D.Records); O["enums"] = std::move(D.Enums); O["vars"] = std::move(D.Vars);
    std::error_code EC;
    llvm::raw_fd_ostream OS(OutPath, EC);
    OS << json::Value(std::move(O));
  }
};

struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef F) override {
    return std::make_unique<Consumer>(F.str());
  }
};

}  // namespace

// usage: soro-extract ROOT OUT FILE -- FLAGS...
int main(int argc, char **argv) {
  if (argc < 5) return 2;
  Root = argv[1]; if (Root.back() != '/') Root += '/';
  OutPath = argv[2];
  std::string File = argv[3];
  std::vector<std::string> Args;
  for (int I = 5; I < argc; ++I) Args.push_back(argv[I]);
  tooling::FixedCompilationDatabase DB(Root, Args);
  tooling::ClangTool Tool(DB, {File});
  tooling::ArgumentsAdjuster None = [](tooling::CommandLineArguments const &A, StringRef) { return A; };
  Tool.clearArgumentsAdjusters();
  Tool.appendArgumentsAdjuster(tooling::getClangSyntaxOnlyAdjuster());
  Tool.run(tooling::newFrontendActionFactory<Action>().get());
  return 0;
}
