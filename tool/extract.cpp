// marcfacts: dump the type-checked program of one translation unit as JSON.
//
// Only code that lives under one of the --root directories is dumped; calls
// into anything else are kept as resolved callee names.  Templates are dumped
// per instantiation, constexpr-if branches that are discarded are dropped,
// value-preserving implicit nodes are stripped, and every expression that the
// compiler can fold carries its folded value.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> Roots;

class Dumper : public RecursiveASTVisitor<Dumper> {
public:
  ASTContext &C; SourceManager &SM; ASTNameGenerator NG; PrintingPolicy PP;
  std::string TU;
  json::Array Functions, Records, Vars;
  std::set<std::string> Seen;
  std::map<const Decl *, std::string> Ids;
  unsigned Next = 0;
  Dumper(ASTContext &C, std::string TU)
      : C(C), SM(C.getSourceManager()), NG(C), PP(C.getLangOpts()), TU(TU) {
    PP.SuppressTagKeyword = true; PP.Bool = true; PP.UseVoidForZeroParams = false;
    PP.PrintCanonicalTypes = true; PP.SuppressUnwrittenScope = true;
    PP.SuppressInlineNamespace = true;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }

  std::string fileOf(SourceLocation L) {
    if (L.isInvalid()) return "";
    PresumedLoc P = SM.getPresumedLoc(SM.getExpansionLoc(L));
    return P.isValid() ? P.getFilename() : "";
  }
  unsigned lineOf(SourceLocation L) {
    if (L.isInvalid()) return 0;
    PresumedLoc P = SM.getPresumedLoc(SM.getExpansionLoc(L));
    return P.isValid() ? P.getLine() : 0;
  }
  unsigned colOf(SourceLocation L) {
    if (L.isInvalid()) return 0;
    PresumedLoc P = SM.getPresumedLoc(SM.getExpansionLoc(L));
    return P.isValid() ? P.getColumn() : 0;
  }
  bool inRoots(SourceLocation L) {
    if (L.isInvalid()) return false;
    SourceLocation E = SM.getExpansionLoc(L);
    auto FE = SM.getFileEntryRefForID(SM.getFileID(E));
    if (!FE) return false;
    std::string R = FE->getFileEntry().tryGetRealPathName().str();
    for (auto &P : Roots)
      if (R.rfind(P, 0) == 0) return true;
    return false;
  }
  std::string ty(QualType T) {
    if (T.isNull()) return "";
    return T.getCanonicalType().getAsString(PP);
  }
  // The qualified name without template arguments of functions, with those of
  // classes removed as well ("std::optional::has_value").
  std::string qn(const NamedDecl *D) {
    std::string R;
    std::vector<std::string> Parts;
    const Decl *Cur = D;
    Parts.push_back(nm(D));
    const DeclContext *DC = D->getDeclContext();
    while (DC && !DC->isTranslationUnit()) {
      if (auto *N = dyn_cast<NamespaceDecl>(DC)) {
        if (!N->isInline()) Parts.push_back(N->isAnonymousNamespace() ? "(anon)" : N->getNameAsString());
      } else if (auto *T = dyn_cast<TagDecl>(DC)) {
        Parts.push_back(nm(T));
      } else if (auto *F = dyn_cast<FunctionDecl>(DC)) {
        Parts.push_back(nm(F));
      }
      DC = DC->getParent();
    }
    (void)Cur;
    for (auto I = Parts.rbegin(); I != Parts.rend(); ++I) { if (!R.empty()) R += "::"; R += *I; }
    return R;
  }
  std::string nm(const NamedDecl *D) {
    if (auto *F = dyn_cast<CXXConstructorDecl>(D)) return nm(F->getParent());
    if (auto *F = dyn_cast<CXXDestructorDecl>(D)) return "~" + nm(F->getParent());
    if (auto *CD = dyn_cast<CXXConversionDecl>(D)) return "operator " + ty(CD->getConversionType());
    if (auto *R = dyn_cast<CXXRecordDecl>(D)) if (R->isLambda()) return "(lambda)";
    std::string S = D->getNameAsString();
    return S.empty() ? "(anon)" : S;
  }
  std::string fid(const FunctionDecl *F) {
    if (auto *D = F->getDefinition()) F = D;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) {
      const CXXRecordDecl *R = M->getParent();
      std::string P;
      const DeclContext *DC = R->getDeclContext();
      while (DC && !isa<FunctionDecl>(DC)) DC = DC->getParent();
      if (DC) P = fid(cast<FunctionDecl>(DC)); else P = TU;
      std::string Q;
      if (M->isTemplateInstantiation()) for (auto *PV : M->parameters()) Q += ty(PV->getType()) + ",";
      return "lambda{" + P + "}@" + std::to_string(lineOf(R->getLocation())) + ":" + std::to_string(colOf(R->getLocation())) + "/" + nm(M) + Q;
    }
    std::string N = NG.getName(F);
    if (N.empty()) N = qn(F);
    if (!F->isExternallyVisible()) N += "@" + TU;
    return N;
  }
  std::string vid(const ValueDecl *D) {
    D = cast<ValueDecl>(D->getCanonicalDecl());
    if (auto *V = dyn_cast<VarDecl>(D)) {
      if (V->hasGlobalStorage() && !V->isStaticLocal()) {
        std::string Q = "g:" + qn(V);
        if (V->getDescribedVarTemplate() || isa<VarTemplateSpecializationDecl>(V)) {
          if (auto *S = dyn_cast<VarTemplateSpecializationDecl>(V)) {
            for (auto &A : S->getTemplateArgs().asArray()) { std::string B; llvm::raw_string_ostream O(B); A.print(PP, O, true); Q += "<" + O.str() + ">"; }
          }
        }
        if (auto *RD = dyn_cast<ClassTemplateSpecializationDecl>(V->getDeclContext())) {
          Q += "@" + ty(C.getRecordType(RD));
        }
        return Q;
      }
    }
    auto I = Ids.find(D);
    if (I != Ids.end()) return I->second;
    std::string S = "v" + std::to_string(Next++);
    Ids[D] = S;
    return S;
  }

  void loc(json::Object &O, SourceLocation L) {
    O["l"] = (int64_t)lineOf(L);
    std::string F = fileOf(L);
    if (F != CurFile) O["f"] = F;
  }
  std::string CurFile;

  json::Value cvOf(const Expr *E, bool &Has) {
    Has = false;
    if (!E || E->isValueDependent() || E->isTypeDependent()) return nullptr;
    QualType T = E->getType();
    if (T.isNull() || !(T->isArithmeticType() || T->isEnumeralType())) return nullptr;
    if (E->isGLValue()) {
      // allow constexpr variables
      if (auto *D = dyn_cast<DeclRefExpr>(E->IgnoreParenImpCasts())) {
        auto *V = dyn_cast<VarDecl>(D->getDecl());
        if (!V || !V->isUsableInConstantExpressions(C)) return nullptr;
      } else return nullptr;
    }
    Expr::EvalResult R;
    if (!E->EvaluateAsRValue(R, C) || R.HasSideEffects) return nullptr;
    if (R.Val.isInt()) {
      Has = true;
      auto &I = R.Val.getInt();
      if (T->isBooleanType()) return (bool)(I != 0);
      if (I.isSigned()) { if (I.isSignedIntN(63)) return (int64_t)I.getSExtValue(); }
      else if (I.isIntN(62)) return (int64_t)I.getZExtValue();
      llvm::SmallString<40> S; I.toString(S, 10); return std::string("i:") + S.str().str();
    }
    if (R.Val.isFloat()) {
      Has = true;
      auto &F = R.Val.getFloat();
      if (F.isNaN()) return "nan";
      if (F.isInfinity()) return F.isNegative() ? "-inf" : "inf";
      llvm::SmallString<40> S; F.toString(S, 0, 0); 
      bool Lose; llvm::APFloat G(F); G.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &Lose);
      return json::Value(json::Object{{"f", G.convertToDouble()}});
    }
    return nullptr;
  }

  const Expr *strip(const Expr *E) {
    while (E) {
      if (auto *P = dyn_cast<ParenExpr>(E)) E = P->getSubExpr();
      else if (auto *X = dyn_cast<FullExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = X->getReplacement();
      else if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) E = X->getExpr();
      else if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) E = X->getExpr();
      else if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<CXXFunctionalCastExpr>(E)) {
        if (X->getCastKind() == CK_NoOp || X->getCastKind() == CK_ConstructorConversion || X->getCastKind() == CK_UserDefinedConversion) E = X->getSubExpr(); else break;
      }
      else if (auto *X = dyn_cast<CastExpr>(E)) {
        switch (X->getCastKind()) {
        case CK_LValueToRValue: case CK_NoOp: case CK_FunctionToPointerDecay:
        case CK_ArrayToPointerDecay: case CK_ConstructorConversion:
        case CK_UserDefinedConversion: case CK_DerivedToBase:
        case CK_UncheckedDerivedToBase: case CK_BuiltinFnToFnPtr:
        case CK_AtomicToNonAtomic: case CK_NonAtomicToAtomic:
          E = X->getSubExpr(); continue;
        default: break;
        }
        break;
      }
      else if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
        // elidable copies and copy/move construction from one argument
        if (X->getNumArgs() == 1 && X->getConstructor()->isCopyOrMoveConstructor()) { E = X->getArg(0); continue; }
        break;
      }
      else break;
    }
    return E;
  }
  json::Value expr(const Expr *E0) {
    const Expr *E = strip(E0);
    if (!E) return nullptr;
    json::Object O;
    loc(O, E->getExprLoc().isValid() ? E->getExprLoc() : E->getBeginLoc());
    O["t"] = ty(E->getType());
    bool H; json::Value CV = cvOf(E, H);
    if (H) O["cv"] = std::move(CV);
    if (auto *X = dyn_cast<IntegerLiteral>(E)) { (void)X; O["k"] = "Lit"; }
    else if (isa<FloatingLiteral>(E) || isa<CXXBoolLiteralExpr>(E) || isa<CharacterLiteral>(E)) O["k"] = "Lit";
    else if (auto *X = dyn_cast<clang::StringLiteral>(E)) { O["k"] = "Str"; O["v"] = llvm::json::fixUTF8(X->getBytes()); }
    else if (isa<PredefinedExpr>(E)) { O["k"] = "Str"; O["v"] = "__func__"; }
    else if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) O["k"] = "Null";
    else if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      auto *D = X->getDecl();
      O["k"] = "Ref";
      if (auto *F = dyn_cast<FunctionDecl>(D)) { O["dk"] = "fn"; O["n"] = qn(F); O["id"] = fid(F); }
      else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) { O["dk"] = "enum"; O["n"] = qn(EC); }
      else {
        auto *V = dyn_cast<VarDecl>(D);
        O["dk"] = isa<ParmVarDecl>(D) ? "parm" : (V && V->hasGlobalStorage() ? (V->isStaticLocal() ? "slocal" : "global") : (isa<BindingDecl>(D) ? "binding" : "var"));
        if (auto *BD = dyn_cast<BindingDecl>(D)) if (BD->getBinding() && false) {}
        O["n"] = qn(D); O["id"] = vid(D);
      }
    }
    else if (auto *X = dyn_cast<MemberExpr>(E)) {
      auto *D = X->getMemberDecl();
      if (auto *V = dyn_cast<VarDecl>(D)) { O["k"] = "Ref"; O["dk"] = "global"; O["n"] = qn(V); O["id"] = vid(V); }
      else {
        O["k"] = "Mem"; O["n"] = nm(D); O["q"] = qn(D);
        O["b"] = expr(X->getBase()); O["arrow"] = X->isArrow();
      }
    }
    else if (isa<CXXThisExpr>(E)) O["k"] = "This";
    else if (auto *X = dyn_cast<UnaryOperator>(E)) {
      O["k"] = "Un";
      switch (X->getOpcode()) {
      case UO_PostInc: O["op"] = "post++"; break; case UO_PostDec: O["op"] = "post--"; break;
      case UO_PreInc: O["op"] = "++"; break; case UO_PreDec: O["op"] = "--"; break;
      default: O["op"] = UnaryOperator::getOpcodeStr(X->getOpcode());
      }
      O["e"] = expr(X->getSubExpr());
    }
    else if (auto *X = dyn_cast<CompoundAssignOperator>(E)) {
      O["k"] = "Assign"; O["op"] = X->getOpcodeStr(); O["a"] = expr(X->getLHS()); O["b"] = expr(X->getRHS());
      O["ct"] = ty(X->getComputationResultType());
    }
    else if (auto *X = dyn_cast<BinaryOperator>(E)) {
      O["k"] = X->isAssignmentOp() ? "Assign" : "Bin"; O["op"] = X->getOpcodeStr();
      O["a"] = expr(X->getLHS()); O["b"] = expr(X->getRHS());
    }
    else if (auto *X = dyn_cast<ConditionalOperator>(E)) {
      O["k"] = "Cond"; O["c"] = expr(X->getCond()); O["a"] = expr(X->getTrueExpr()); O["b"] = expr(X->getFalseExpr());
    }
    else if (auto *X = dyn_cast<CallExpr>(E)) call(O, X);
    else if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      O["k"] = "Ctor"; O["fn"] = qn(X->getConstructor()); O["id"] = fid(X->getConstructor());
      O["list"] = X->isListInitialization();
      json::Array A; for (auto *Arg : X->arguments()) A.push_back(expr(Arg)); O["args"] = std::move(A);
    }
    else if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
      O["k"] = "Ctor"; O["fn"] = qn(X->getConstructor()); O["id"] = fid(X->getConstructor()); O["inherited"] = true; O["args"] = json::Array();
    }
    else if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      O["k"] = "New"; if (X->getInitializer()) O["e"] = expr(X->getInitializer());
      if (X->isArray() && *X->getArraySize()) O["n"] = expr(*X->getArraySize());
    }
    else if (auto *X = dyn_cast<CXXDeleteExpr>(E)) { O["k"] = "Delete"; O["e"] = expr(X->getArgument()); }
    else if (auto *X = dyn_cast<CastExpr>(E)) {
      O["k"] = "Cast"; O["ck"] = X->getCastKindName(); O["ex"] = isa<ExplicitCastExpr>(E);
      O["e"] = expr(X->getSubExpr());
    }
    else if (auto *X = dyn_cast<LambdaExpr>(E)) {
      O["k"] = "Lambda";
      auto *R = X->getLambdaClass();
      O["pos"] = std::to_string(lineOf(R->getLocation())) + ":" + std::to_string(colOf(R->getLocation()));
      O["id"] = fid(X->getCallOperator());
      json::Array Caps; unsigned I = 0;
      for (auto &Cap : X->captures()) {
        json::Object CO;
        if (Cap.capturesThis()) { CO["n"] = "this"; }
        else if (Cap.capturesVariable()) { CO["n"] = Cap.getCapturedVar()->getNameAsString(); CO["id"] = vid(Cap.getCapturedVar()); }
        CO["ref"] = Cap.getCaptureKind() == LCK_ByRef;
        if (auto *Init = *(X->capture_init_begin() + I)) if (!Cap.capturesThis()) CO["e"] = expr(Init);
        ++I; Caps.push_back(std::move(CO));
      }
      O["caps"] = std::move(Caps);
      json::Array Insts;
      if (auto *FT = X->getDependentCallOperator()) {
        for (auto *S : FT->specializations()) { Insts.push_back(fid(S)); }
      }
      O["insts"] = std::move(Insts);
    }
    else if (auto *X = dyn_cast<InitListExpr>(E)) {
      O["k"] = "InitList"; json::Array A; for (auto *I : X->inits()) A.push_back(expr(I)); O["c"] = std::move(A);
    }
    else if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) { O["k"] = "Sub"; O["a"] = expr(X->getBase()); O["i"] = expr(X->getIdx()); }
    else if (auto *X = dyn_cast<CXXThrowExpr>(E)) { O["k"] = "Throw"; if (X->getSubExpr()) O["e"] = expr(X->getSubExpr()); }
    else if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) { O["k"] = "ZeroInit"; }
    else if (auto *X = dyn_cast<OpaqueValueExpr>(E)) { if (X->getSourceExpr()) return expr(X->getSourceExpr()); O["k"] = "Other"; O["cls"] = "OpaqueValue"; }
    else {
      O["k"] = "Other"; O["cls"] = E->getStmtClassName();
      json::Array A;
      for (auto *S : E->children()) if (auto *SE = dyn_cast_or_null<Expr>(S)) A.push_back(expr(SE));
      O["c"] = std::move(A);
    }
    return json::Value(std::move(O));
  }
  void call(json::Object &O, const CallExpr *X) {
    O["k"] = "Call";
    const FunctionDecl *F = X->getDirectCallee();
    json::Array A;
    if (F) {
      O["fn"] = qn(F); O["id"] = fid(F);
      if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
        bool Virt = M->isVirtual();
        if (auto *MC = dyn_cast<CXXMemberCallExpr>(X)) {
          auto *ME = dyn_cast<MemberExpr>(MC->getCallee()->IgnoreParens());
          if (ME && ME->hasQualifier()) Virt = false;
          O["obj"] = expr(MC->getImplicitObjectArgument());
          if (ME) O["arrow"] = ME->isArrow();
          O["cls"] = ty(QualType(M->getParent()->getTypeForDecl(), 0));
        }
        if (Virt) O["virt"] = true;
      }
      if (auto *TA = F->getTemplateSpecializationArgs()) {
        json::Array T;
        for (auto &Arg : TA->asArray()) { std::string S; llvm::raw_string_ostream OS(S); Arg.print(PP, OS, false); T.push_back(OS.str()); }
        O["ta"] = std::move(T);
      }
    } else O["fe"] = expr(X->getCallee());
    unsigned Start = 0;
    if (auto *OC = dyn_cast<CXXOperatorCallExpr>(X)) {
      O["opr"] = getOperatorSpelling(OC->getOperator());
      if (F && isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic()) { O["obj"] = expr(X->getArg(0)); Start = 1; 
        O["cls"] = ty(QualType(cast<CXXMethodDecl>(F)->getParent()->getTypeForDecl(), 0)); }
    }
    for (unsigned I = Start; I < X->getNumArgs(); ++I) {
      json::Value V = expr(X->getArg(I));
      if (isa<CXXDefaultArgExpr>(X->getArg(I))) if (auto *VO = V.getAsObject()) (*VO)["defarg"] = true;
      A.push_back(std::move(V));
    }
    O["args"] = std::move(A);
  }
  json::Value var(const VarDecl *V) {
    json::Object O; loc(O, V->getLocation());
    O["id"] = vid(V); O["n"] = V->getNameAsString(); O["t"] = ty(V->getType());
    O["st"] = V->isStaticLocal(); O["cx"] = V->isConstexpr();
    if (V->getInit()) O["e"] = expr(V->getInit());
    if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
      json::Array B; for (auto *BD : DD->bindings()) B.push_back(json::Object{{"id", vid(BD)}, {"n", BD->getNameAsString()}});
      O["bind"] = std::move(B);
    }
    return json::Value(std::move(O));
  }
  json::Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *E = dyn_cast<Expr>(S)) { json::Object O; loc(O, S->getBeginLoc()); O["k"] = "Expr"; O["e"] = expr(E); return json::Value(std::move(O)); }
    json::Object O; loc(O, S->getBeginLoc());
    if (auto *X = dyn_cast<CompoundStmt>(S)) { O["k"] = "Block"; json::Array A; for (auto *I : X->body()) A.push_back(stmt(I)); O["c"] = std::move(A); O["el"] = (int64_t)lineOf(X->getRBracLoc()); }
    else if (auto *X = dyn_cast<DeclStmt>(S)) {
      O["k"] = "Decl"; json::Array A; for (auto *D : X->decls()) if (auto *V = dyn_cast<VarDecl>(D)) A.push_back(var(V)); O["vars"] = std::move(A);
    }
    else if (auto *X = dyn_cast<IfStmt>(S)) {
      if (X->isConstexpr()) if (auto N = X->getNondiscardedCase(C)) {
        if (*N) return stmt(*N);
        O["k"] = "Nop"; return json::Value(std::move(O));
      }
      O["k"] = "If"; if (X->getInit()) O["init"] = stmt(X->getInit());
      if (X->getConditionVariable()) O["cvar"] = var(X->getConditionVariable());
      O["cond"] = expr(X->getCond()); O["then"] = stmt(X->getThen()); if (X->getElse()) O["else"] = stmt(X->getElse());
    }
    else if (auto *X = dyn_cast<ForStmt>(S)) {
      O["k"] = "For"; if (X->getInit()) O["init"] = stmt(X->getInit()); if (X->getCond()) O["cond"] = expr(X->getCond());
      if (X->getInc()) O["inc"] = expr(X->getInc()); O["body"] = stmt(X->getBody());
    }
    else if (auto *X = dyn_cast<WhileStmt>(S)) { O["k"] = "While"; if (X->getConditionVariable()) O["cvar"] = var(X->getConditionVariable()); O["cond"] = expr(X->getCond()); O["body"] = stmt(X->getBody()); }
    else if (auto *X = dyn_cast<DoStmt>(S)) { O["k"] = "Do"; O["cond"] = expr(X->getCond()); O["body"] = stmt(X->getBody()); }
    else if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      O["k"] = "RangeFor"; O["var"] = var(X->getLoopVariable()); O["range"] = expr(X->getRangeInit()); O["body"] = stmt(X->getBody());
    }
    else if (auto *X = dyn_cast<ReturnStmt>(S)) { O["k"] = "Return"; if (X->getRetValue()) O["e"] = expr(X->getRetValue()); }
    else if (isa<BreakStmt>(S)) O["k"] = "Break";
    else if (isa<ContinueStmt>(S)) O["k"] = "Continue";
    else if (auto *X = dyn_cast<SwitchStmt>(S)) { O["k"] = "Switch"; O["cond"] = expr(X->getCond()); O["body"] = stmt(X->getBody()); }
    else if (auto *X = dyn_cast<CaseStmt>(S)) { O["k"] = "Case"; O["v"] = expr(X->getLHS()); O["s"] = stmt(X->getSubStmt()); }
    else if (auto *X = dyn_cast<DefaultStmt>(S)) { O["k"] = "Default"; O["s"] = stmt(X->getSubStmt()); }
    else if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      O["k"] = "Try"; O["body"] = stmt(X->getTryBlock()); json::Array A;
      for (unsigned I = 0; I < X->getNumHandlers(); ++I) {
        auto *H = X->getHandler(I); json::Object HO; loc(HO, H->getBeginLoc());
        if (H->getExceptionDecl()) { HO["t"] = ty(H->getExceptionDecl()->getType()); HO["id"] = vid(H->getExceptionDecl()); }
        HO["body"] = stmt(H->getHandlerBlock()); A.push_back(std::move(HO));
      }
      O["handlers"] = std::move(A);
    }
    else if (auto *X = dyn_cast<GotoStmt>(S)) { O["k"] = "Goto"; O["n"] = X->getLabel()->getNameAsString(); }
    else if (auto *X = dyn_cast<LabelStmt>(S)) { O["k"] = "Label"; O["n"] = X->getDecl()->getNameAsString(); O["s"] = stmt(X->getSubStmt()); }
    else if (isa<NullStmt>(S)) O["k"] = "Nop";
    else if (auto *X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
    else { O["k"] = "OtherStmt"; O["cls"] = S->getStmtClassName(); json::Array A; for (auto *I : S->children()) A.push_back(stmt(I)); O["c"] = std::move(A); }
    return json::Value(std::move(O));
  }

  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!F->isThisDeclarationADefinition() || F->isDependentContext()) return true;
    if (!inRoots(F->getLocation())) return true;
    if (F->isDeleted()) return true;
    if (!F->doesThisDeclarationHaveABody() && !F->isDefaulted()) return true;
    std::string Id = fid(F);
    if (!Seen.insert("F" + Id).second) return true;
    json::Object O;
    CurFile = fileOf(F->getLocation());
    O["file"] = CurFile; O["line"] = (int64_t)lineOf(F->getLocation()); O["end"] = (int64_t)lineOf(F->getEndLoc());
    O["id"] = Id; O["q"] = qn(F); O["n"] = nm(F); O["ret"] = ty(F->getReturnType());
    O["tmpl"] = F->isTemplateInstantiation();
    O["impl"] = F->isImplicit() || F->isDefaulted();
    O["ext"] = F->isExternallyVisible();
    {
      auto *FP = F->getType()->getAs<FunctionProtoType>();
      O["noexcept"] = FP && !isUnresolvedExceptionSpec(FP->getExceptionSpecType()) && FP->isNothrow();
    }
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      json::Array T;
      for (auto &Arg : TA->asArray()) { std::string S; llvm::raw_string_ostream OS(S); Arg.print(PP, OS, false); T.push_back(OS.str()); }
      O["ta"] = std::move(T);
    }
    json::Array P;
    for (auto *V : F->parameters()) {
      json::Object PO{{"id", vid(V)}, {"n", V->getNameAsString()}, {"t", ty(V->getType())}};
      P.push_back(std::move(PO));
    }
    O["params"] = std::move(P);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["cls"] = ty(QualType(M->getParent()->getTypeForDecl(), 0));
      O["clsq"] = qn(M->getParent());
      O["const"] = M->isConst(); O["static"] = M->isStatic(); O["virt"] = M->isVirtual();
      O["lambda"] = M->getParent()->isLambda();
      O["access"] = (int64_t)M->getAccess();
      json::Array Ov; for (auto *B : M->overridden_methods()) Ov.push_back(fid(B)); O["over"] = std::move(Ov);
    }
    if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
      O["ctor"] = true; O["copymove"] = K->isCopyOrMoveConstructor();
      json::Array I;
      for (auto *In : K->inits()) {
        json::Object IO; loc(IO, In->getSourceLocation());
        if (In->isAnyMemberInitializer()) { IO["field"] = In->getAnyMember()->getNameAsString(); IO["ft"] = ty(In->getAnyMember()->getType()); }
        else if (In->isBaseInitializer()) IO["base"] = ty(QualType(In->getBaseClass(), 0));
        else IO["deleg"] = true;
        IO["written"] = In->isWritten();
        IO["dflt"] = In->isInClassMemberInitializer();
        IO["e"] = expr(In->getInit());
        I.push_back(std::move(IO));
      }
      O["inits"] = std::move(I);
    }
    if (isa<CXXDestructorDecl>(F)) O["dtor"] = true;
    if (F->hasBody()) O["body"] = stmt(F->getBody());
    Functions.push_back(std::move(O));
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return true;
    if (!inRoots(R->getLocation())) return true;
    std::string T = ty(QualType(R->getTypeForDecl(), 0));
    if (!Seen.insert("R" + T).second) return true;
    json::Object O; CurFile = fileOf(R->getLocation());
    O["file"] = CurFile; O["line"] = (int64_t)lineOf(R->getLocation());
    O["t"] = T; O["q"] = qn(R); O["abstract"] = R->isAbstract();
    json::Array B, F, Me;
    for (auto &BS : R->bases()) B.push_back(ty(BS.getType()));
    for (auto *FD : R->fields()) {
      json::Object FO{{"n", FD->getNameAsString()}, {"t", ty(FD->getType())}, {"mut", FD->isMutable()}, {"init", FD->hasInClassInitializer()}, {"l", (int64_t)lineOf(FD->getLocation())},{"access", (int64_t)FD->getAccess()}};
      if (FD->hasInClassInitializer() && FD->getInClassInitializer()) FO["e"] = expr(FD->getInClassInitializer());
      F.push_back(std::move(FO));
    }
    for (auto *M : R->methods()) {
      json::Object MO{{"id", fid(M)}, {"n", nm(M)}, {"const", M->isConst()}, {"static", M->isStatic()}, {"virt", M->isVirtual()}, {"pure", M->isPureVirtual()}, {"deleted", M->isDeleted()}, {"access", (int64_t)M->getAccess()},{"ret", ty(M->getReturnType())}};
      json::Array Ov; for (auto *Bm : M->overridden_methods()) Ov.push_back(fid(Bm)); MO["over"] = std::move(Ov);
      Me.push_back(std::move(MO));
    }
    O["bases"] = std::move(B); O["fields"] = std::move(F); O["methods"] = std::move(Me);
    Records.push_back(std::move(O));
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (!V->hasGlobalStorage() || V->isStaticLocal() || V->getDeclContext()->isDependentContext()) return true;
    if (isa<ParmVarDecl>(V) || !inRoots(V->getLocation())) return true;
    if (V->getDescribedVarTemplate() || isa<VarTemplatePartialSpecializationDecl>(V)) return true;
    if (V->isThisDeclarationADefinition() == VarDecl::DeclarationOnly && !V->getInit()) return true;
    std::string Id = vid(V);
    if (!Seen.insert("V" + Id).second) return true;
    CurFile = fileOf(V->getLocation());
    json::Object O; O["file"] = CurFile; O["line"] = (int64_t)lineOf(V->getLocation());
    O["id"] = Id; O["q"] = qn(V); O["t"] = ty(V->getType()); O["cx"] = V->isConstexpr();
    O["const"] = V->getType().isConstQualified();
    O["int"] = !V->isExternallyVisible();
    if (V->getInit() && !V->getInit()->isValueDependent()) {
      O["e"] = expr(V->getInit());
      bool H; auto CV = cvOf(V->getInit(), H); if (H) O["cv"] = std::move(CV);
    }
    Vars.push_back(std::move(O));
    return true;
  }
};

class Consumer : public ASTConsumer {
  std::string TU;
public:
  Consumer(std::string TU) : TU(TU) {}
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Dumper D(C, TU);
    D.TraverseDecl(C.getTranslationUnitDecl());
    json::Object O; O["tu"] = TU; O["functions"] = std::move(D.Functions); O["records"] = std::move(D.Records); O["vars"] = std::move(D.Vars);
    llvm::outs() << json::Value(std::move(O)) << "\n";
  }
};
class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef F) override {
    return std::make_unique<Consumer>(F.str());
  }
};
int main(int argc, char **argv) {
  // marcfacts --root DIR... -- clang-args... file
  int I = 1;
  for (; I < argc; ++I) {
    std::string A = argv[I];
    if (A == "--") { ++I; break; }
    if (A == "--root") Roots.push_back(argv[++I]);
  }
  std::vector<std::string> Args(argv + I, argv + argc - 1);
  tooling::FixedCompilationDatabase DB(".", Args);
  std::vector<std::string> Src{argv[argc - 1]};
  tooling::ClangTool Tool(DB, Src);
  return Tool.run(tooling::newFrontendActionFactory<Action>().get());
}
