// AST extractor: parses the translation units of the analysed tree with clang and writes
// a compact JSON model of every function, record and enum defined below the source root.
// It executes nothing of the analysed program.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecordLayout.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/CXXInheritance.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <fstream>

using namespace clang;
namespace J = llvm::json;

static std::string Root;
static std::set<std::string> SeenFn, SeenRec, SeenEnum, SeenGlob;
static J::Array OutFns, OutRecs, OutEnums, OutGlobs;
static long NextVarId = 1;
static bool HadError = false;

struct Dumper {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  ASTNameGenerator NG;
  std::map<const Decl *, std::string> VarIds;
  std::vector<const FunctionDecl *> Pending;

  explicit Dumper(ASTContext &C)
      : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()), NG(C) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
    PP.Bool = true;
  }

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto F = SM.getFilename(L).str();
    return F;
  }
  std::string norm(std::string F) {
    std::string R;
    // collapse "/./"
    for (size_t i = 0; i < F.size();) {
      if (F.compare(i, 3, "/./") == 0) { R += '/'; i += 3; while (i < F.size() && F[i]=='/') ++i; }
      else R += F[i++];
    }
    // collapse "/x/../"
    size_t p;
    while ((p = R.find("/../")) != std::string::npos) {
      size_t q = R.rfind('/', p - 1);
      if (q == std::string::npos) break;
      R.erase(q, p + 3 - q);
    }
    return R;
  }
  bool inRoot(SourceLocation L) {
    auto F = norm(fileOf(L));
    return F.compare(0, Root.size(), Root) == 0;
  }
  std::string loc(SourceLocation L) {
    SourceLocation E = SM.getExpansionLoc(L);
    auto F = norm(SM.getFilename(E).str());
    if (F.compare(0, Root.size(), Root) == 0) F = F.substr(Root.size());
    while (!F.empty() && F[0] == '/') F.erase(0, 1);
    return F + ":" + std::to_string(SM.getExpansionLineNumber(E));
  }

  std::string ty(QualType T) {
    if (T.isNull()) return "?";
    return T.getCanonicalType().getAsString(PP);
  }
  // short scalar class: i<bits>/u<bits>/b/p/r/x
  std::string tk(QualType T) {
    if (T.isNull()) return "x";
    if (T->isReferenceType()) return "r";
    T = T.getCanonicalType();
    if (T->isDependentType()) return "x";
    if (T->isBooleanType()) return "b";
    if (T->isEnumeralType()) {
      auto *ET = T->castAs<EnumType>();
      if (ET->getDecl()->isComplete())
        return std::string(ET->isUnsignedIntegerOrEnumerationType() || ET->getDecl()->getIntegerType()->isUnsignedIntegerType() ? "u" : "i") + std::to_string(C.getTypeSize(T));
      return "x";
    }
    if (T->isIntegralType(C))
      return std::string(T->isUnsignedIntegerType() ? "u" : "i") + std::to_string(C.getTypeSize(T));
    if (T->isPointerType() || T->isNullPtrType()) return "p";
    if (T->isFloatingType()) return "f" + std::to_string(C.getTypeSize(T));
    if (T->isArrayType()) return "a";
    if (T->isRecordType()) return "o";
    return "x";
  }

  std::string pk(QualType T) {
    std::string K = tk(T);
    if (K == "r" && T->getPointeeType().isConstQualified()) return "cr";
    if (K == "r" && T->isRValueReferenceType()) return "rr";
    if (K == "p" && T->isPointerType() && T->getPointeeType().isConstQualified()) return "cp";
    return K;
  }
  std::string qn(const NamedDecl *D) {
    std::string S;
    llvm::raw_string_ostream OS(S);
    D->getNameForDiagnostic(OS, PP, true);
    OS.flush();
    return S;
  }

  std::string fnId(const FunctionDecl *F) {
    if (!F) return "";
    const FunctionDecl *D = F;
    if (D->isDependentContext()) return "dep:" + qn(D);
    std::string N = NG.getName(D);
    if (N.empty()) N = "qn:" + qn(D);
    if (!D->isExternallyVisible() || N.find("GLOBAL__N") != std::string::npos) {
      N += "@" + norm(fileOf(D->getLocation()));
      if (auto *M = dyn_cast<CXXMethodDecl>(D))
        if (M->getParent()->isLambda())
          N += ":" + std::to_string(SM.getExpansionLineNumber(D->getLocation())) + ":" +
               std::to_string(SM.getExpansionColumnNumber(D->getLocation()));
    }
    return N;
  }

  std::string varId(const Decl *D) {
    D = D->getCanonicalDecl();
    auto It = VarIds.find(D);
    if (It != VarIds.end()) return It->second;
    std::string Id;
    if (auto *V = dyn_cast<VarDecl>(D))
      if (!V->isLocalVarDecl() && !isa<ParmVarDecl>(V)) Id = "g:" + qn(V);
    if (auto *V = dyn_cast<VarDecl>(D))
      if (V->isStaticLocal()) Id = "sl:" + NG.getName(V) + ":" + qn(V);
    if (Id.empty()) Id = "v" + std::to_string(NextVarId++);
    return VarIds[D] = Id;
  }

  J::Value nul() { return J::Value(nullptr); }

  J::Object node(const char *K, SourceLocation L) {
    J::Object O;
    O["k"] = K;
    O["l"] = loc(L);
    return O;
  }

  bool isLogMacro(SourceLocation L) {
    while (L.isMacroID()) {
      StringRef N = Lexer::getImmediateMacroName(L, SM, C.getLangOpts());
      if (N == "LM") return true;
      L = SM.getImmediateMacroCallerLoc(L);
    }
    return false;
  }

  J::Value varDecl(const VarDecl *V) {
    J::Object O = node("Var", V->getLocation());
    O["id"] = varId(V);
    O["n"] = V->getNameAsString();
    O["t"] = ty(V->getType());
    O["tk"] = tk(V->getType());
    if (V->getType()->isArrayType())
      if (auto *A = C.getAsConstantArrayType(V->getType())) O["alen"] = (int64_t)A->getSize().getZExtValue();
    if (V->isStaticLocal()) O["static"] = true;
    if (auto *I = V->getInit()) O["init"] = expr(I);
    addDtor(O, V->getType());
    return O;
  }

  void addDtor(J::Object &O, QualType T) {
    if (auto *R = T->getAsCXXRecordDecl())
      if (R->hasDefinition() && !R->hasTrivialDestructor())
        if (auto *D = R->getDestructor()) { O["dtor"] = fnId(D); }
  }

  J::Value stmt(const Stmt *S) {
    if (!S) return nul();
    if (auto *E = dyn_cast<Expr>(S)) {
      J::Object O = node("Expr", E->getBeginLoc());
      O["e"] = expr(E);
      return O;
    }
    if (isa<CompoundStmt>(S)) {
      if (S->getBeginLoc().isMacroID()) {
        StringRef N = Lexer::getImmediateMacroName(S->getBeginLoc(), SM, C.getLangOpts());
        if (N == "LM") {
          J::Object O = node("Log", S->getBeginLoc());
          O["body"] = compound(cast<CompoundStmt>(S));
          return O;
        }
      }
      return compound(cast<CompoundStmt>(S));
    }
    switch (S->getStmtClass()) {
    case Stmt::NullStmtClass: return node("Null", S->getBeginLoc());
    case Stmt::DeclStmtClass: {
      J::Object O = node("Decl", S->getBeginLoc());
      J::Array A;
      for (auto *D : cast<DeclStmt>(S)->decls()) {
        if (auto *V = dyn_cast<DecompositionDecl>(D)) {
          J::Object P = node("Decomp", V->getLocation());
          P["var"] = varDecl(V);
          J::Array B;
          for (auto *BD : V->bindings()) {
            J::Object Q;
            Q["id"] = varId(BD);
            Q["n"] = BD->getNameAsString();
            if (BD->getBinding()) Q["e"] = expr(BD->getBinding());
            B.push_back(std::move(Q));
          }
          P["b"] = std::move(B);
          A.push_back(std::move(P));
        } else if (auto *V = dyn_cast<VarDecl>(D)) A.push_back(varDecl(V));
      }
      O["d"] = std::move(A);
      return O;
    }
    case Stmt::IfStmtClass: {
      auto *I = cast<IfStmt>(S);
      J::Object O = node("If", S->getBeginLoc());
      if (I->getInit()) O["init"] = stmt(I->getInit());
      if (I->getConditionVariable()) O["cv"] = varDecl(I->getConditionVariable());
      if (I->isConstexpr()) O["cx"] = true;
      O["c"] = I->getCond() ? expr(I->getCond()) : nul();
      O["then"] = stmt(I->getThen());
      O["else"] = stmt(I->getElse());
      return O;
    }
    case Stmt::ForStmtClass: {
      auto *I = cast<ForStmt>(S);
      J::Object O = node("For", S->getBeginLoc());
      O["init"] = stmt(I->getInit());
      O["c"] = I->getCond() ? expr(I->getCond()) : nul();
      O["inc"] = I->getInc() ? expr(I->getInc()) : nul();
      O["body"] = stmt(I->getBody());
      return O;
    }
    case Stmt::WhileStmtClass: {
      auto *I = cast<WhileStmt>(S);
      J::Object O = node("While", S->getBeginLoc());
      if (I->getConditionVariable()) O["cv"] = varDecl(I->getConditionVariable());
      O["c"] = expr(I->getCond());
      O["body"] = stmt(I->getBody());
      return O;
    }
    case Stmt::DoStmtClass: {
      auto *I = cast<DoStmt>(S);
      J::Object O = node("Do", S->getBeginLoc());
      O["c"] = expr(I->getCond());
      O["body"] = stmt(I->getBody());
      return O;
    }
    case Stmt::CXXForRangeStmtClass: {
      auto *I = cast<CXXForRangeStmt>(S);
      J::Object O = node("ForRange", S->getBeginLoc());
      if (I->getInit()) O["init"] = stmt(I->getInit());
      O["range"] = expr(I->getRangeInit());
      J::Object V = node("Var", I->getLoopVariable()->getLocation());
      V["id"] = varId(I->getLoopVariable());
      V["n"] = I->getLoopVariable()->getNameAsString();
      V["t"] = ty(I->getLoopVariable()->getType());
      V["tk"] = tk(I->getLoopVariable()->getType());
      O["var"] = std::move(V);
      if (auto *DD = dyn_cast<DecompositionDecl>(I->getLoopVariable())) {
        J::Array B;
        for (auto *BD : DD->bindings()) {
          J::Object Q; Q["id"] = varId(BD); Q["n"] = BD->getNameAsString();
          if (auto *ME = dyn_cast_or_null<MemberExpr>(BD->getBinding() ? BD->getBinding()->IgnoreParenImpCasts() : nullptr)) Q["f"] = ME->getMemberDecl()->getNameAsString();
          B.push_back(std::move(Q));
        }
        O["b"] = std::move(B);
      }
      O["body"] = stmt(I->getBody());
      return O;
    }
    case Stmt::SwitchStmtClass: {
      auto *I = cast<SwitchStmt>(S);
      J::Object O = node("Switch", S->getBeginLoc());
      if (I->getInit()) O["init"] = stmt(I->getInit());
      if (I->getConditionVariable()) O["cv"] = varDecl(I->getConditionVariable());
      O["c"] = expr(I->getCond());
      if (I->isAllEnumCasesCovered()) O["all"] = true;
      O["body"] = stmt(I->getBody());
      return O;
    }
    case Stmt::CaseStmtClass: {
      auto *I = cast<CaseStmt>(S);
      J::Object O = node("Case", S->getBeginLoc());
      O["v"] = expr(I->getLHS());
      if (I->getRHS()) O["v2"] = expr(I->getRHS());
      O["body"] = stmt(I->getSubStmt());
      return O;
    }
    case Stmt::DefaultStmtClass: {
      J::Object O = node("Default", S->getBeginLoc());
      O["body"] = stmt(cast<DefaultStmt>(S)->getSubStmt());
      return O;
    }
    case Stmt::BreakStmtClass: return node("Break", S->getBeginLoc());
    case Stmt::ContinueStmtClass: return node("Continue", S->getBeginLoc());
    case Stmt::ReturnStmtClass: {
      J::Object O = node("Return", S->getBeginLoc());
      if (auto *E = cast<ReturnStmt>(S)->getRetValue()) O["e"] = expr(E);
      return O;
    }
    case Stmt::CXXTryStmtClass: {
      auto *I = cast<CXXTryStmt>(S);
      J::Object O = node("Try", S->getBeginLoc());
      O["body"] = stmt(I->getTryBlock());
      J::Array H;
      for (unsigned i = 0; i < I->getNumHandlers(); ++i) {
        auto *Hd = I->getHandler(i);
        J::Object P = node("Catch", Hd->getBeginLoc());
        P["t"] = Hd->getExceptionDecl() ? ty(Hd->getCaughtType()) : std::string("...");
        if (auto *V = Hd->getExceptionDecl()) { P["id"] = varId(V); P["tk"] = tk(V->getType()); }
        P["body"] = stmt(Hd->getHandlerBlock());
        H.push_back(std::move(P));
      }
      O["h"] = std::move(H);
      return O;
    }
    case Stmt::AttributedStmtClass: return stmt(cast<AttributedStmt>(S)->getSubStmt());
    case Stmt::LabelStmtClass: return stmt(cast<LabelStmt>(S)->getSubStmt());
    default: {
      J::Object O = node("UnkS", S->getBeginLoc());
      O["cls"] = S->getStmtClassName();
      J::Array A;
      for (auto *Ch : S->children()) if (Ch) A.push_back(stmt(Ch));
      O["a"] = std::move(A);
      return O;
    }
    }
  }

  J::Value compound(const CompoundStmt *S) {
    J::Object O = node("Block", S->getBeginLoc());
    J::Array A;
    for (auto *Ch : S->body()) A.push_back(stmt(Ch));
    O["s"] = std::move(A);
    return O;
  }

  const Expr *strip(const Expr *E) {
    while (true) {
      if (auto *P = dyn_cast<ParenExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<ExprWithCleanups>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<ConstantExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = P->getReplacement();
      else if (auto *P = dyn_cast<CXXDefaultArgExpr>(E)) E = P->getExpr();
      else if (auto *P = dyn_cast<CXXDefaultInitExpr>(E)) E = P->getExpr();
      else if (auto *P = dyn_cast<CXXStdInitializerListExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<CXXRewrittenBinaryOperator>(E)) E = P->getSemanticForm();
      else if (auto *P = dyn_cast<ImplicitCastExpr>(E)) {
        switch (P->getCastKind()) {
        case CK_FunctionToPointerDecay:
        case CK_DerivedToBase:
        case CK_UncheckedDerivedToBase:
        case CK_BaseToDerived:
        case CK_NoOp:
        case CK_ConstructorConversion:
        case CK_UserDefinedConversion:
        case CK_BuiltinFnToFnPtr:
          E = P->getSubExpr();
          break;
        default:
          return E;
        }
      } else return E;
    }
  }

  J::Array args(llvm::iterator_range<CallExpr::const_arg_iterator> R) {
    J::Array A;
    for (auto *E : R) A.push_back(expr(E));
    return A;
  }

  void fnRef(J::Object &O, const FunctionDecl *F) {
    if (!F) return;
    O["fn"] = fnId(F);
    O["qn"] = qn(F);
    O["name"] = F->getNameAsString();
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->isVirtual()) O["virt"] = true;
      if (M->isStatic()) O["smeth"] = true;
      if (M->isConst()) O["cm"] = true;
      O["cls"] = qn(M->getParent());
    }
    J::Array P;
    for (auto *Pa : F->parameters()) P.push_back(pk(Pa->getType()));
    O["pk"] = std::move(P);
    O["rtk"] = tk(F->getReturnType());
    O["rt"] = ty(F->getReturnType());
    if (auto *A = F->getTemplateSpecializationArgs()) {
      J::Array TA;
      for (auto &Ar : A->asArray()) {
        if (Ar.getKind() == TemplateArgument::Type) TA.push_back(ty(Ar.getAsType()));
        else { std::string S; llvm::raw_string_ostream OS(S); Ar.print(PP, OS, true); TA.push_back(OS.str()); }
      }
      O["targs"] = std::move(TA);
    }
    if (inRoot(F->getLocation())) O["own"] = true;
    auto *FPT = F->getType()->getAs<FunctionProtoType>();
    if (FPT && isNoexceptExceptionSpec(FPT->getExceptionSpecType()) && FPT->canThrow() == CT_Cannot) O["nx"] = true;
    // specialised templates: make sure in-root bodies are dumped
    const FunctionDecl *Def = nullptr;
    if (F->isDefined(Def) && Def && inRoot(Def->getLocation())) Pending.push_back(Def);
  }

  J::Value expr(const Expr *E0) {
    if (!E0) return nul();
    const Expr *E = strip(E0);
    J::Object O = expr1(E);
    QualType T = E->getType();
    O["t"] = ty(T);
    O["tk"] = tk(T);
    if (E->isLValue() || E->isXValue()) O["lv"] = true;
    if (!E->isValueDependent() && !E->isTypeDependent() && (T->isIntegralOrEnumerationType()) && E->isPRValue()) {
      Expr::EvalResult R;
      if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects, false)) {
        auto &V = R.Val.getInt();
        if (V.isSigned() || V.getActiveBits() < 64) O["cv"] = (int64_t)V.getExtValue();
        else O["cv"] = (int64_t)V.getZExtValue();
        if (!V.isSigned() && V.getActiveBits() == 64) O["cvu"] = true;
      }
    } else if (!E->isValueDependent() && !E->isTypeDependent() && T->isIntegralOrEnumerationType() && E->isGLValue()) {
      if (auto *DR = dyn_cast<DeclRefExpr>(E))
        if (auto *V = dyn_cast<VarDecl>(DR->getDecl()))
          if (V->isUsableInConstantExpressions(C) && (V->getType().isConstQualified())) {
            if (auto *Val = V->evaluateValue())
              if (Val->isInt()) O["cv"] = (int64_t)Val->getInt().getExtValue();
          }
    }
    return O;
  }

  J::Object expr1(const Expr *E) {
    SourceLocation L = E->getExprLoc();
    if (auto *X = dyn_cast<ImplicitCastExpr>(E)) {
      if (X->getCastKind() == CK_LValueToRValue) {
        J::Object O = node("L2R", L);
        O["e"] = expr(X->getSubExpr());
        return O;
      }
    }
    if (auto *X = dyn_cast<CastExpr>(E)) {
      if (isa<ExplicitCastExpr>(E)) {
        auto CK = X->getCastKind();
        if (CK == CK_NoOp || CK == CK_UserDefinedConversion || CK == CK_ConstructorConversion ||
            CK == CK_DerivedToBase || CK == CK_UncheckedDerivedToBase || CK == CK_BaseToDerived) {
          J::Object O = node("Same", L);
          O["e"] = expr(X->getSubExpr());
          return O;
        }
      }
      J::Object O = node("Cast", L);
      O["ck"] = X->getCastKindName();
      O["e"] = expr(X->getSubExpr());
      if (isa<ExplicitCastExpr>(E)) O["explicit"] = true;
      return O;
    }
    if (auto *X = dyn_cast<IntegerLiteral>(E)) { J::Object O = node("Int", L); (void)X; return O; }
    if (auto *X = dyn_cast<CharacterLiteral>(E)) { J::Object O = node("Int", L); (void)X; return O; }
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) { J::Object O = node("Int", L); (void)X; return O; }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return node("NullP", L);
    if (auto *X = dyn_cast<FloatingLiteral>(E)) { J::Object O = node("Float", L); O["v"] = X->getValueAsApproximateDouble(); return O; }
    if (auto *X = dyn_cast<StringLiteral>(E)) {
      J::Object O = node("Str", L);
      std::string S = X->isOrdinary() || X->isUTF8() ? X->getString().str() : std::string("?");
      if (!J::isUTF8(S)) S = J::fixUTF8(S);
      O["v"] = S;
      return O;
    }
    if (isa<PredefinedExpr>(E)) { J::Object O = node("Str", L); O["v"] = "__func__"; return O; }
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      J::Object O = node("Ref", L);
      auto *D = X->getDecl();
      if (auto *V = dyn_cast<VarDecl>(D)) {
        O["id"] = varId(V);
        O["n"] = V->getNameAsString();
        O["dk"] = isa<ParmVarDecl>(V) ? "parm" : V->isStaticDataMember() ? "sdm" : V->isLocalVarDecl() ? (V->isStaticLocal() ? "slocal" : "local") : "global";
        O["vtk"] = tk(V->getType());
        if (V->isStaticDataMember() || (!V->isLocalVarDecl() && !isa<ParmVarDecl>(V))) O["qn"] = qn(V);
      } else if (auto *F = dyn_cast<FunctionDecl>(D)) {
        O["dk"] = "fn";
        fnRef(O, F);
      } else if (auto *B = dyn_cast<BindingDecl>(D)) {
        O["dk"] = "bind";
        O["id"] = varId(B);
        O["n"] = B->getNameAsString();
      } else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        O["dk"] = "enum";
        O["n"] = EC->getNameAsString();
      } else {
        O["dk"] = "other";
      }
      return O;
    }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      auto *D = X->getMemberDecl();
      if (auto *F = dyn_cast<FieldDecl>(D)) {
        J::Object O = node("Mem", L);
        O["b"] = expr(X->getBase());
        O["arrow"] = X->isArrow();
        O["n"] = F->getNameAsString();
        O["ftk"] = tk(F->getType());
        O["rec"] = qn(F->getParent());
        return O;
      }
      if (auto *V = dyn_cast<VarDecl>(D)) {
        J::Object O = node("Ref", L);
        O["id"] = varId(V);
        O["n"] = V->getNameAsString();
        O["dk"] = "sdm";
        O["vtk"] = tk(V->getType());
        O["qn"] = qn(V);
        return O;
      }
      J::Object O = node("MemFn", L);
      O["b"] = expr(X->getBase());
      O["arrow"] = X->isArrow();
      fnRef(O, dyn_cast<FunctionDecl>(D));
      return O;
    }
    if (isa<CXXThisExpr>(E)) return node("This", L);
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      J::Object O = node("MCall", L);
      fnRef(O, X->getMethodDecl());
      const Expr *Cal = X->getCallee()->IgnoreParens();
      if (auto *M = dyn_cast<MemberExpr>(Cal)) {
        O["obj"] = expr(M->getBase());
        O["arrow"] = M->isArrow();
        if (M->hasQualifier()) O["qual"] = true;
      } else if (X->getImplicitObjectArgument()) { O["obj"] = expr(X->getImplicitObjectArgument()); O["pm"] = true; }
      O["a"] = args(X->arguments());
      return O;
    }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      J::Object O = node("OpCall", L);
      O["op"] = getOperatorSpelling(X->getOperator());
      fnRef(O, X->getDirectCallee());
      if (auto *M = dyn_cast_or_null<CXXMethodDecl>(X->getDirectCallee())) O["mem"] = !M->isStatic();
      O["a"] = args(X->arguments());
      return O;
    }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      J::Object O = node("Call", L);
      if (auto *F = X->getDirectCallee()) fnRef(O, F);
      else O["callee"] = expr(X->getCallee());
      O["a"] = args(X->arguments());
      return O;
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      J::Object O = node("Ctor", L);
      auto *D = X->getConstructor();
      O["fn"] = fnId(D);
      O["cls"] = qn(D->getParent());
      if (D->isCopyOrMoveConstructor()) O["copy"] = true;
      if (D->isMoveConstructor()) O["move"] = true;
      if (D->isDefaultConstructor()) O["def"] = true;
      if (X->requiresZeroInitialization()) O["zero"] = true;
      if (D->isTrivial()) O["triv"] = true;
      if (X->isListInitialization()) O["list"] = true;
      J::Array P;
      for (auto *Pa : D->parameters()) P.push_back(pk(Pa->getType()));
      O["pk"] = std::move(P);
      if (inRoot(D->getLocation())) O["own"] = true;
      J::Array A;
      for (auto *Ar : X->arguments()) A.push_back(expr(Ar));
      O["a"] = std::move(A);
      const FunctionDecl *Def = nullptr;
      if (D->isDefined(Def) && Def && inRoot(Def->getLocation())) Pending.push_back(Def);
      return O;
    }
    if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
      J::Object O = node("Ctor", L);
      auto *D = X->getConstructor();
      O["fn"] = fnId(D); O["cls"] = qn(D->getParent()); O["inh"] = true; O["a"] = J::Array();
      return O;
    }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      J::Object O = node("New", L);
      O["at"] = ty(X->getAllocatedType());
      J::Array P;
      for (unsigned i = 0; i < X->getNumPlacementArgs(); ++i) P.push_back(expr(X->getPlacementArg(i)));
      O["pl"] = std::move(P);
      if (auto *I = X->getInitializer()) O["init"] = expr(I);
      if (X->isArray()) O["arr"] = true;
      return O;
    }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) { J::Object O = node("Delete", L); O["e"] = expr(X->getArgument()); return O; }
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      J::Object O = node("Lambda", L);
      auto *R = X->getLambdaClass();
      O["cls"] = qn(R);
      J::Array Ops;
      if (X->isGenericLambda()) {
        if (auto *FT = R->getDependentLambdaCallOperator())
          for (auto *Sp : FT->specializations()) {
            if (!Sp->hasBody()) continue;
            Ops.push_back(fnId(Sp));
            Pending.push_back(Sp);
          }
      } else {
        Ops.push_back(fnId(X->getCallOperator()));
        Pending.push_back(X->getCallOperator());
      }
      O["ops"] = std::move(Ops);
      J::Array Cap;
      auto CI = X->capture_init_begin();
      for (auto &Cp : X->captures()) {
        J::Object Q;
        if (Cp.capturesThis()) { Q["this"] = true; if (Cp.getCaptureKind() == LCK_StarThis) Q["copy"] = true; }
        else if (Cp.capturesVariable()) {
          Q["id"] = varId(Cp.getCapturedVar());
          Q["n"] = Cp.getCapturedVar()->getNameAsString();
          Q["ref"] = Cp.getCaptureKind() == LCK_ByRef;
          if (*CI) Q["init"] = expr(*CI);
        }
        Cap.push_back(std::move(Q));
        ++CI;
      }
      O["cap"] = std::move(Cap);
      return O;
    }
    if (auto *X = dyn_cast<UnaryOperator>(E)) {
      J::Object O = node("Un", L);
      O["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      O["post"] = X->isPostfix();
      O["e"] = expr(X->getSubExpr());
      return O;
    }
    if (auto *X = dyn_cast<CompoundAssignOperator>(E)) {
      J::Object O = node("CAsg", L);
      auto S = X->getOpcodeStr().str();
      S.pop_back();
      O["op"] = S;
      O["ctk"] = tk(X->getComputationResultType());
      O["x"] = expr(X->getLHS());
      O["y"] = expr(X->getRHS());
      return O;
    }
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      J::Object O = node("Bin", L);
      O["op"] = X->getOpcodeStr().str();
      O["x"] = expr(X->getLHS());
      O["y"] = expr(X->getRHS());
      return O;
    }
    if (auto *X = dyn_cast<AbstractConditionalOperator>(E)) {
      J::Object O = node("Cond", L);
      O["c"] = expr(X->getCond());
      O["x"] = expr(X->getTrueExpr());
      O["y"] = expr(X->getFalseExpr());
      return O;
    }
    if (auto *X = dyn_cast<OpaqueValueExpr>(E)) { if (X->getSourceExpr()) { J::Object O = node("Same", L); O["e"] = expr(X->getSourceExpr()); return O; } }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
      J::Object O = node("Sub", L);
      O["b"] = expr(X->getBase());
      O["i"] = expr(X->getIdx());
      const Expr *B = X->getBase()->IgnoreParenImpCasts();
      if (auto *A = C.getAsConstantArrayType(B->getType())) O["alen"] = (int64_t)A->getSize().getZExtValue();
      return O;
    }
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) {
      J::Object O = node("Throw", L);
      if (X->getSubExpr()) O["e"] = expr(X->getSubExpr());
      return O;
    }
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      J::Object O = node("InitList", L);
      J::Array A;
      const InitListExpr *S = X->isSemanticForm() ? X : (X->getSemanticForm() ? X->getSemanticForm() : X);
      for (unsigned i = 0; i < S->getNumInits(); ++i) A.push_back(expr(S->getInit(i)));
      O["a"] = std::move(A);
      if (auto *R = S->getType()->getAsCXXRecordDecl()) {
        J::Array F;
        for (auto &B : R->bases()) F.push_back("base:" + ty(B.getType()));
        for (auto *Fd : R->fields()) F.push_back(Fd->getNameAsString());
        O["f"] = std::move(F);
      }
      return O;
    }
    if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) return node("Zero", L);
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) { J::Object O = node("SizeOf", L); if (!X->isArgumentType()) O["e"] = expr(X->getArgumentExpr()); return O; }
    if (auto *X = dyn_cast<StmtExpr>(E)) { J::Object O = node("StmtExpr", L); O["body"] = stmt(X->getSubStmt()); return O; }
    if (auto *X = dyn_cast<CXXPseudoDestructorExpr>(E)) { (void)X; return node("PDtor", L); }
    if (auto *X = dyn_cast<CXXFoldExpr>(E)) { (void)X; return node("Fold", L); }
    J::Object O = node("UnkE", L);
    O["cls"] = E->getStmtClassName();
    J::Array A;
    for (auto *Ch : E->children())
      if (auto *CE = dyn_cast_or_null<Expr>(Ch)) A.push_back(expr(CE));
    O["a"] = std::move(A);
    return O;
  }

  void dumpFn(const FunctionDecl *F) {
    if (F->isDependentContext()) return;
    if (!F->doesThisDeclarationHaveABody() && !F->isDefaulted()) return;
    if (!inRoot(F->getLocation())) return;
    std::string Id = fnId(F);
    if (!SeenFn.insert(Id).second) return;
    J::Object O = node("Fn", F->getLocation());
    O["id"] = Id;
    O["qn"] = qn(F);
    O["name"] = F->getNameAsString();
    if (auto *MM = dyn_cast<CXXMethodDecl>(F)) {
      O["acc"] = MM->getAccess() == AS_private ? "private" : MM->getAccess() == AS_protected ? "protected" : "public";
      if (MM->isStatic()) O["static"] = true;
    } else if (F->getFormalLinkage() == Linkage::Internal || F->isInAnonymousNamespace()) O["acc"] = "private";
    O["ret"] = ty(F->getReturnType());
    O["rtk"] = tk(F->getReturnType());
    J::Array P;
    for (auto *Pa : F->parameters()) {
      J::Object Q;
      Q["id"] = varId(Pa);
      Q["n"] = Pa->getNameAsString();
      Q["t"] = ty(Pa->getType());
      Q["tk"] = tk(Pa->getType());
      P.push_back(std::move(Q));
    }
    O["p"] = std::move(P);
    O["end"] = (int64_t)SM.getExpansionLineNumber(F->getEndLoc());
    if (auto *A = F->getTemplateSpecializationArgs()) {
      J::Array TA;
      for (auto &Ar : A->asArray()) { std::string S; llvm::raw_string_ostream OS(S); Ar.print(PP, OS, true); TA.push_back(OS.str()); }
      O["targs"] = std::move(TA);
    }
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["cls"] = qn(M->getParent());
      if (M->isStatic()) O["static"] = true;
      if (M->isVirtual()) O["virt"] = true;
      if (M->isConst()) O["const"] = true;
      if (M->getParent()->isLambda()) O["lambda"] = true;
      J::Array Ov;
      for (auto *Or : M->overridden_methods()) Ov.push_back(fnId(Or));
      O["ov"] = std::move(Ov);
      if (auto *Ct = dyn_cast<CXXConstructorDecl>(M)) {
        O["ctor"] = true;
        if (Ct->isCopyOrMoveConstructor()) O["copyctor"] = true;
        J::Array In;
        for (auto *I : Ct->inits()) {
          J::Object Q;
          if (I->isAnyMemberInitializer()) { Q["f"] = I->getAnyMember()->getNameAsString(); Q["ftk"] = tk(I->getAnyMember()->getType()); Q["ft"] = ty(I->getAnyMember()->getType()); }
          else if (I->isBaseInitializer()) Q["base"] = ty(QualType(I->getBaseClass(), 0));
          else if (I->isDelegatingInitializer()) Q["deleg"] = true;
          Q["written"] = I->isWritten();
          Q["e"] = expr(I->getInit());
          Q["l"] = loc(I->getSourceLocation());
          In.push_back(std::move(Q));
        }
        O["inits"] = std::move(In);
      }
      if (isa<CXXDestructorDecl>(M)) O["dtor"] = true;
    }
    if (F->isDefaulted()) O["defaulted"] = true;
    if (auto *FPT = F->getType()->getAs<FunctionProtoType>())
      if (isNoexceptExceptionSpec(FPT->getExceptionSpecType()) && !isUnresolvedExceptionSpec(FPT->getExceptionSpecType()) && FPT->isNothrow()) O["nx"] = true;
    if (!F->isExternallyVisible()) O["internal"] = true;
    if (F->hasBody() && F->getBody() && !F->isDefaulted()) O["body"] = stmt(F->getBody());
    OutFns.push_back(std::move(O));
  }

  void dumpRec(const CXXRecordDecl *R) {
    if (!R->isCompleteDefinition() || R->isDependentContext() || R->isInvalidDecl()) return;
    if (!inRoot(R->getLocation())) return;
    std::string N = qn(R);
    if (R->isLambda()) return;
    if (!SeenRec.insert(N).second) return;
    J::Object O = node("Rec", R->getLocation());
    O["n"] = N;
    J::Array B;
    for (auto &Bs : R->bases()) B.push_back(ty(Bs.getType()));
    O["bases"] = std::move(B);
    if (auto *TS = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
      J::Array TA;
      for (auto &Ar : TS->getTemplateArgs().asArray()) { std::string S; llvm::raw_string_ostream OS(S); Ar.print(PP, OS, true); TA.push_back(OS.str()); }
      O["targs"] = std::move(TA);
    }
    auto &Lay = C.getASTRecordLayout(R);
    O["size"] = (int64_t)Lay.getSize().getQuantity();
    J::Array F;
    for (auto *Fd : R->fields()) {
      J::Object Q;
      Q["n"] = Fd->getNameAsString();
      Q["t"] = ty(Fd->getType());
      Q["st"] = Fd->getType().getAsString(PrintingPolicy(C.getLangOpts()));
      Q["tk"] = tk(Fd->getType());
      Q["off"] = (int64_t)(Lay.getFieldOffset(Fd->getFieldIndex()) / 8);
      if (auto *A = C.getAsConstantArrayType(Fd->getType())) { Q["alen"] = (int64_t)A->getSize().getZExtValue(); }
      if (Fd->getType()->isIncompleteArrayType()) Q["flex"] = true;
      if (!Fd->getType()->isIncompleteType() && !Fd->getType()->isReferenceType()) Q["size"] = (int64_t)C.getTypeSizeInChars(Fd->getType()).getQuantity();
      if (Fd->hasInClassInitializer() && Fd->getInClassInitializer()) Q["init"] = expr(Fd->getInClassInitializer());
      F.push_back(std::move(Q));
    }
    O["f"] = std::move(F);
    J::Array M;
    for (auto *Mt : R->methods()) {
      J::Object Q;
      Q["id"] = fnId(Mt);
      Q["n"] = Mt->getNameAsString();
      Q["virt"] = Mt->isVirtual();
      Q["pure"] = Mt->isPureVirtual();
      if (isa<CXXDestructorDecl>(Mt)) Q["dtor"] = true;
      if (Mt->isDeleted()) Q["del"] = true;
      J::Array Ov;
      for (auto *Or : Mt->overridden_methods()) Ov.push_back(fnId(Or));
      Q["ov"] = std::move(Ov);
      M.push_back(std::move(Q));
    }
    O["m"] = std::move(M);
    OutRecs.push_back(std::move(O));
  }

  void dumpEnum(const EnumDecl *E) {
    if (!E->isCompleteDefinition() || E->isDependentContext() || !inRoot(E->getLocation())) return;
    std::string N = qn(E);
    if (E->getName().empty()) N = N + "@" + loc(E->getLocation());
    if (!SeenEnum.insert(N).second) return;
    J::Object O = node("Enum", E->getLocation());
    O["n"] = N;
    O["u"] = tk(E->getIntegerType());
    J::Array A;
    for (auto *Ec : E->enumerators()) {
      J::Array P;
      P.push_back(Ec->getNameAsString());
      P.push_back((int64_t)Ec->getInitVal().getExtValue());
      A.push_back(std::move(P));
    }
    O["c"] = std::move(A);
    OutEnums.push_back(std::move(O));
  }
  void dumpGlob(const VarDecl *V) {
    if (V->isLocalVarDecl() || isa<ParmVarDecl>(V) || V->getDeclContext()->isDependentContext()) return;
    if (!inRoot(V->getLocation())) return;
    std::string N = qn(V);
    if (!SeenGlob.insert(N).second) return;
    J::Object O = node("Glob", V->getLocation());
    O["n"] = N;
    O["t"] = ty(V->getType());
    if (V->getInit() && !V->getInit()->isValueDependent()) O["init"] = expr(V->getInit());
    OutGlobs.push_back(std::move(O));
  }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
  Dumper &D;
  explicit Visitor(Dumper &D) : D(D) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isThisDeclarationADefinition()) D.dumpFn(F);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) { D.dumpRec(R); return true; }
  bool VisitEnumDecl(EnumDecl *E) { D.dumpEnum(E); return true; }
  bool VisitVarDecl(VarDecl *V) { D.dumpGlob(V); return true; }
};

struct Consumer : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) { HadError = true; return; }
    Dumper D(C);
    Visitor V(D);
    V.TraverseDecl(C.getTranslationUnitDecl());
    while (!D.Pending.empty()) {
      auto *F = D.Pending.back();
      D.Pending.pop_back();
      D.dumpFn(F);
    }
  }
};

struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override {
    return std::make_unique<Consumer>();
  }
};

// usage: dump ROOT OUT flags... -- files...
int main(int argc, char **argv) {
  Root = argv[1];
  std::string Out = argv[2];
  std::vector<std::string> Flags, Files;
  bool F = false;
  for (int i = 3; i < argc; ++i) {
    std::string A = argv[i];
    if (A == "--") { F = true; continue; }
    (F ? Files : Flags).push_back(A);
  }
  tooling::FixedCompilationDatabase DB("/", Flags);
  tooling::ClangTool Tool(DB, Files);
  int Rc = Tool.run(tooling::newFrontendActionFactory<Action>().get());
  J::Object O;
  O["fns"] = std::move(OutFns);
  O["recs"] = std::move(OutRecs);
  O["enums"] = std::move(OutEnums);
  O["globs"] = std::move(OutGlobs);
  std::error_code EC;
  llvm::raw_fd_ostream OS(Out, EC);
  OS << J::Value(std::move(O));
  OS.close();
  return (Rc || HadError) ? 1 : 0;
}
