// qfacts: dumps a resolved, de-sugared program representation (AST of every
// non-dependent function incl. template instantiations, clang CFG, records,
// enums, variables) of one translation unit as JSON.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include <map>
#include <set>
using namespace clang;
using namespace clang::tooling;
namespace J = llvm::json;

static llvm::cl::OptionCategory Cat("qfacts");
static llvm::cl::opt<std::string> Out("out", llvm::cl::cat(Cat));
static llvm::cl::list<std::string> Roots("root", llvm::cl::cat(Cat));
static llvm::cl::list<std::string> Excl("exclude", llvm::cl::cat(Cat));

namespace {
struct Dumper : RecursiveASTVisitor<Dumper> {
  ASTContext &C; SourceManager &SM; PrintingPolicy PP;
  J::Array Funcs, Records, Enums, Vars;
  std::map<std::string, int> TypeIx; J::Array TypeTab;
  std::map<const Decl *, int> DeclIx; J::Array DeclTab;
  std::map<std::string,int> FileIx; J::Array FileTab;
  std::set<const Decl*> SeenF, SeenR, SeenV;
  std::vector<const FunctionDecl*> LambdaQ;
  const FunctionDecl *Cur = nullptr;
  std::map<const Stmt *, int> Ids; int NextId = 0;

  Dumper(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true; PP.PrintCanonicalTypes = true;
    PP.SuppressInlineNamespace = true; PP.TerseOutput = true; PP.AnonymousTagLocations = true;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid()) return "";
    auto F = SM.getFilename(L); 
    if (F.empty()) return "";
    llvm::SmallString<256> P(F);
    llvm::sys::path::remove_dots(P, true);
    return std::string(P.str());
  }
  bool mine(SourceLocation L) {
    std::string F = fileOf(L);
    for (auto &E : Excl) if (F.find(E) != std::string::npos) return false;
    for (auto &R : Roots) if (llvm::StringRef(F).starts_with(R)) return true;
    return false;
  }
  int fileId(SourceLocation L) {
    std::string F = fileOf(L);
    auto It = FileIx.find(F); if (It != FileIx.end()) return It->second;
    int N = FileIx.size(); FileIx[F] = N; FileTab.push_back(F); return N;
  }
  int line(SourceLocation L) { return SM.getExpansionLineNumber(L); }

  std::string typeStr(QualType T) { return T.getAsString(PP); }
  std::string recName(const CXXRecordDecl *R) {
    std::string S; llvm::raw_string_ostream O(S); R->getNameForDiagnostic(O, PP, true);
    if (R->isLambda()) { O << "@" << line(R->getLocation()); }
    return O.str();
  }
  int typeId(QualType T) {
    if (T.isNull()) return -1;
    QualType CT = T.getCanonicalType();
    std::string S = typeStr(CT);
    auto It = TypeIx.find(S); if (It != TypeIx.end()) return It->second;
    int N = TypeIx.size(); TypeIx[S] = N;
    J::Object O; O["s"] = S;
    TypeTab.push_back(nullptr);
    QualType B = CT;
    if (CT->isReferenceType()) { O["ref"] = CT->isRValueReferenceType() ? 2 : 1; B = CT->getPointeeType(); O["p"] = typeId(B); }
    else if (CT->isPointerType()) { O["ptr"] = 1; O["p"] = typeId(CT->getPointeeType()); }
    else if (CT->isArrayType()) { O["arr"] = 1; O["p"] = typeId(C.getAsArrayType(CT)->getElementType()); if (auto*CA=C.getAsConstantArrayType(CT)) O["n"]=(int64_t)CA->getSize().getZExtValue(); }
    if (CT.isConstQualified()) O["const"] = 1;
    if (B.isConstQualified()) O["bconst"] = 1;
    if (CT->isEnumeralType()) O["enum"] = qn(CT->castAs<EnumType>()->getDecl());
    if (CT->isIntegerType()) { O["int"] = CT->isBooleanType() ? 1 : (int)C.getTypeSize(CT); if (CT->isUnsignedIntegerType()) O["uns"]=1; }
    if (CT->isFloatingType()) O["flt"] = 1;
    if (auto *R = B->getAsCXXRecordDecl()) {
      O["rec"] = recName(R);
      if (auto *TS = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
        O["tmpl"] = qn(TS);
        J::Array A; for (auto &TA : TS->getTemplateArgs().asArray()) targ(A, TA);
        O["args"] = std::move(A);
      }
    }
    TypeTab[N] = std::move(O);
    return N;
  }
  void targ(J::Array &A, const TemplateArgument &TA) {
    if (TA.getKind() == TemplateArgument::Type) A.push_back(typeId(TA.getAsType()));
    else if (TA.getKind() == TemplateArgument::Pack) { for (auto &X : TA.pack_elements()) targ(A, X); }
    else { std::string S; llvm::raw_string_ostream OS(S); TA.print(PP, OS, true); A.push_back(OS.str()); }
  }
  std::string qn(const NamedDecl *D) {
    std::string S; llvm::raw_string_ostream O(S); D->printQualifiedName(O, PP); return O.str();
  }
  std::string fkey(const FunctionDecl *F) {
    std::string S; llvm::raw_string_ostream O(S);
    if (auto *M = dyn_cast<CXXMethodDecl>(F); M && M->getParent()->isLambda()) {
      const auto *L = M->getParent(); 
      const DeclContext *DC = L->getDeclContext();
      while (DC && !isa<FunctionDecl>(DC) && !DC->isTranslationUnit()) DC = DC->getParent();
      if (auto *PF = dyn_cast_or_null<FunctionDecl>(DC)) O << fkey(PF);
      auto PL = SM.getPresumedLoc(L->getLocation());
      O << "::lambda@" << (PL.isValid()?PL.getLine():0) << ":" << (PL.isValid()?PL.getColumn():0);
      if (!isa<CXXConversionDecl>(M) && M->getOverloadedOperator()==OO_Call) {} else O << "::" << M->getNameAsString();
      if (F->isFunctionTemplateSpecialization()) O << typeStr(F->getType());
      return O.str();
    }
    F->getNameForDiagnostic(O, PP, true);
    O << "(";
    for (unsigned i = 0; i < F->getNumParams(); ++i) { if (i) O << ","; O << typeStr(F->getParamDecl(i)->getType()); }
    O << ")";
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) { if (M->isConst()) O << "const"; if (M->getRefQualifier()==RQ_LValue) O<<"&"; if (M->getRefQualifier()==RQ_RValue) O<<"&&"; }
    return O.str();
  }
  bool isNoexcept(const FunctionDecl *F) {
    auto *FT = F->getType()->getAs<FunctionProtoType>(); if (!FT) return false;
    auto E = FT->getExceptionSpecType();
    if (E == EST_Unevaluated || E == EST_Uninstantiated) return false;
    return FT->isNothrow();
  }
  int declId(const ValueDecl *D) {
    const Decl *K = D;
    if (auto *F = dyn_cast<FunctionDecl>(D)) K = F->getCanonicalDecl();
    else if (auto *V = dyn_cast<VarDecl>(D)) K = V->getCanonicalDecl();
    auto It = DeclIx.find(K); if (It != DeclIx.end()) return It->second;
    int N = DeclIx.size(); DeclIx[K] = N; DeclTab.push_back(nullptr);
    J::Object O; O["n"] = D->getNameAsString();
    if (auto *F = dyn_cast<FunctionDecl>(D)) {
      O["k"] = "fn"; O["q"] = qn(F); O["key"] = fkey(F); O["t"] = typeId(F->getReturnType());
      J::Array P; for (auto *X : F->parameters()) P.push_back(typeId(X->getType())); O["pt"] = std::move(P);
      if (F->isVariadic()) O["variadic"] = 1;
      if (isNoexcept(F)) O["noexcept"] = 1;
      if (auto *FT=F->getType()->getAs<FunctionProtoType>()) if (FT->getExceptionSpecType()==EST_Unevaluated && isa<CXXDestructorDecl>(F)) O["noexcept"]=1;
      if (auto *M = dyn_cast<CXXMethodDecl>(F)) { meth(O, M); }
      if (auto *TA = F->getTemplateSpecializationArgs()) { J::Array A; for (auto &X : TA->asArray()) targ(A, X); O["targs"] = std::move(A); }
      if (F->isConstexpr()) O["constexpr"]=1;
      if (F->isNoReturn()) O["noret"]=1;
    } else if (auto *V = dyn_cast<VarDecl>(D)) {
      O["k"] = isa<ParmVarDecl>(V) ? "parm" : "var"; O["q"] = qn(V); O["t"] = typeId(V->getType());
      if (auto *PV = dyn_cast<ParmVarDecl>(V)) O["ix"] = PV->getFunctionScopeIndex();
      if (V->hasGlobalStorage()) O["glob"] = 1;
      if (V->isStaticLocal()) O["slocal"] = 1;
      if (V->isStaticDataMember()) O["smember"] = 1;
      if (V->getTSCSpec() != TSCS_unspecified) O["tls"] = 1;
      if (V->isConstexpr()) O["constexpr"] = 1;
      if (V->isImplicit()) O["impl"] = 1;
      if (auto *PF=dyn_cast_or_null<FunctionDecl>(V->getParentFunctionOrMethod())) O["infn"]=fkey(PF);
    } else if (auto *FD = dyn_cast<FieldDecl>(D)) {
      O["k"] = "field"; O["q"] = qn(FD); O["t"] = typeId(FD->getType());
      if (FD->isMutable()) O["mut"] = 1;
      O["ix"]=FD->getFieldIndex();
      if (auto *R = dyn_cast<CXXRecordDecl>(FD->getParent())) O["rec"] = recName(R);
    } else if (auto *E = dyn_cast<EnumConstantDecl>(D)) {
      O["k"] = "enumc"; O["q"] = qn(E); O["v"] = E->getInitVal().getExtValue();
    } else if (auto *B = dyn_cast<BindingDecl>(D)) {
      O["k"] = "binding"; O["q"] = qn(D); O["t"] = typeId(D->getType());
      if (auto *DD=dyn_cast_or_null<DecompositionDecl>(B->getDecomposedDecl())) {
        int ix=0; for (auto*BB: DD->bindings()) { if (BB==B) break; ++ix; }
        O["ix"]=ix; O["of"]=declId(DD);
      }
    } else { O["k"] = "other"; O["q"] = qn(D); O["t"] = typeId(D->getType()); }
    O["f"] = fileId(D->getLocation()); O["l"] = line(D->getLocation());
    DeclTab[N] = std::move(O);
    return N;
  }
  void meth(J::Object &O, const CXXMethodDecl *M) {
    O["rec"] = recName(M->getParent());
    if (M->getParent()->isLambda()) O["lambda"]=1;
    if (auto *TS = dyn_cast<ClassTemplateSpecializationDecl>(M->getParent())) O["rtmpl"] = qn(TS);
    if (M->isConst()) O["cm"] = 1; if (M->isStatic()) O["st"] = 1; if (M->isVirtual()) O["virt"] = 1;
    if (M->isCopyAssignmentOperator()) O["sp"] = "copyassign"; if (M->isMoveAssignmentOperator()) O["sp"] = "moveassign";
    if (auto *CC = dyn_cast<CXXConstructorDecl>(M)) { O["ctor"] = 1; if (CC->isCopyConstructor()) O["sp"] = "copyctor"; else if (CC->isMoveConstructor()) O["sp"] = "movector"; else if (CC->isDefaultConstructor()) O["sp"] = "defctor"; if (CC->isExplicit()) O["explicit"]=1; }
    if (isa<CXXDestructorDecl>(M)) O["dtor"] = 1;
    if (M->isDefaulted()) O["defaulted"] = 1; if (M->isDeleted()) O["deleted"] = 1; if (M->isUserProvided()) O["user"]=1;
    if (M->isImplicit()) O["impl"]=1;
    O["acc"] = (int)M->getAccess();
    if (isa<CXXConversionDecl>(M)) O["conv"] = 1;
    J::Array Ov; for (auto *X : M->overridden_methods()) Ov.push_back(fkey(X)); if (!Ov.empty()) O["over"] = std::move(Ov);
  }

  // ---- statements -----------------------------------------------------
  const Stmt *strip(const Stmt *S, J::Array &IC, bool &DefArg) {
    while (S) {
      if (auto *E = dyn_cast<ParenExpr>(S)) S = E->getSubExpr();
      else if (auto *E = dyn_cast<ImplicitCastExpr>(S)) { 
        switch (E->getCastKind()) { case CK_LValueToRValue: IC.push_back("rv"); break; case CK_IntegralCast: case CK_IntegralToFloating: case CK_FloatingToIntegral: case CK_FloatingCast: case CK_IntegralToBoolean: case CK_PointerToBoolean: case CK_FloatingToBoolean:
            IC.push_back(std::string(E->getCastKindName())+":"+std::to_string(typeId(E->getType()))); break; 
            case CK_UserDefinedConversion: case CK_ConstructorConversion: case CK_NoOp: break;
            case CK_UncheckedDerivedToBase: case CK_DerivedToBase: case CK_ArrayToPointerDecay: IC.push_back(E->getCastKindName()); break; default: break; }
        S = E->getSubExpr(); }
      else if (auto *E = dyn_cast<ExprWithCleanups>(S)) S = E->getSubExpr();
      else if (auto *E = dyn_cast<MaterializeTemporaryExpr>(S)) { IC.push_back("mat"); S = E->getSubExpr(); }
      else if (auto *E = dyn_cast<CXXBindTemporaryExpr>(S)) S = E->getSubExpr();
      else if (auto *E = dyn_cast<ConstantExpr>(S)) S = E->getSubExpr();
      else if (auto *E = dyn_cast<SubstNonTypeTemplateParmExpr>(S)) S = E->getReplacement();
      else if (auto *E = dyn_cast<CXXDefaultArgExpr>(S)) { DefArg = true; S = E->getExpr(); }
      else if (auto *E = dyn_cast<CXXDefaultInitExpr>(S)) { DefArg = true; S = E->getExpr(); }
      else if (auto *A = dyn_cast<AttributedStmt>(S)) S = A->getSubStmt();
      else if (auto *P = dyn_cast<CapturedStmt>(S)) S = P->getCapturedStmt();
      else if (auto *CO = dyn_cast<CXXRewrittenBinaryOperator>(S)) S = CO->getSemanticForm();
      else break;
    }
    return S;
  }
  void wrapIds(const Stmt *S, int Id) {
    // map all transparent wrappers to the same id
    while (S) {
      Ids[S] = Id;
      if (auto *E = dyn_cast<ParenExpr>(S)) S = E->getSubExpr();
      else if (auto *E = dyn_cast<ImplicitCastExpr>(S)) S = E->getSubExpr();
      else if (auto *E = dyn_cast<ExprWithCleanups>(S)) S = E->getSubExpr();
      else if (auto *E = dyn_cast<MaterializeTemporaryExpr>(S)) S = E->getSubExpr();
      else if (auto *E = dyn_cast<CXXBindTemporaryExpr>(S)) S = E->getSubExpr();
      else if (auto *E = dyn_cast<ConstantExpr>(S)) S = E->getSubExpr();
      else if (auto *E = dyn_cast<SubstNonTypeTemplateParmExpr>(S)) S = E->getReplacement();
      else if (auto *E = dyn_cast<CXXDefaultArgExpr>(S)) S = E->getExpr();
      else if (auto *E = dyn_cast<CXXDefaultInitExpr>(S)) S = E->getExpr();
      else if (auto *A = dyn_cast<AttributedStmt>(S)) S = A->getSubStmt();
      else if (auto *P = dyn_cast<CapturedStmt>(S)) S = P->getCapturedStmt();
      else if (auto *CO = dyn_cast<CXXRewrittenBinaryOperator>(S)) S = CO->getSemanticForm();
      else break;
    }
  }
  void constval(J::Object &O, const Expr *E) {
    if (E->isValueDependent() || E->isTypeDependent()) return;
    QualType T = E->getType();
    if (T.isNull() || !(T->isIntegralOrEnumerationType() || T->isFloatingType())) return;
    Expr::EvalResult R;
    if (!E->EvaluateAsRValue(R, C, true) || R.HasSideEffects) return;
    if (R.Val.isInt()) { 
        auto &I = R.Val.getInt(); 
        if (I.isUnsigned() && I.getActiveBits() > 63) { llvm::SmallString<32> S; I.toString(S, 10); O["cvs"] = std::string(S.str()); }
        else O["cv"] = I.getExtValue(); }
    else if (R.Val.isFloat()) { auto F = R.Val.getFloat(); bool L; F.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &L); double d = F.convertToDouble(); if (std::isfinite(d)) O["cv"] = d; else O["cvs"] = std::isnan(d) ? "nan" : d > 0 ? "inf" : "-inf"; }
  }
  J::Value node(const Stmt *S0) {
    if (!S0) return nullptr;
    J::Array IC; bool DefArg = false;
    const Stmt *S = strip(S0, IC, DefArg);
    int Id = NextId++;
    wrapIds(S0, Id);
    J::Object O; O["i"] = Id; 
    O["l"] = line(S->getBeginLoc());
    int F = fileId(S->getBeginLoc()); O["f"] = F;
    if (S->getBeginLoc().isMacroID()) { O["m"]=std::string(Lexer::getImmediateMacroName(S->getBeginLoc(), SM, C.getLangOpts())); }
    if (!IC.empty()) O["ic"] = std::move(IC);
    if (DefArg) O["da"] = 1;
    O["k"] = S->getStmtClassName();
    J::Array Ch;
    auto kids = [&](const Stmt *P) { for (const Stmt *X : P->children()) Ch.push_back(node(X)); };
    if (auto *E = dyn_cast<Expr>(S)) {
      O["t"] = typeId(E->getType());
      if (E->isLValue()) O["lv"] = 1;
      if (!isa<IntegerLiteral>(E) && !isa<FloatingLiteral>(E) && !isa<InitListExpr>(E) && !isa<StringLiteral>(E)) constval(O, E);
    }
    if (auto *E = dyn_cast<DeclRefExpr>(S)) O["d"] = declId(E->getDecl());
    else if (auto *E = dyn_cast<MemberExpr>(S)) { O["d"] = declId(E->getMemberDecl()); if (E->isArrow()) O["ar"] = 1; kids(S); }
    else if (auto *E = dyn_cast<CXXMemberCallExpr>(S)) {
      if (auto *M = E->getMethodDecl()) { O["d"] = declId(M); 
        if (auto *ME = dyn_cast<MemberExpr>(E->getCallee()->IgnoreParens())) { if (ME->isArrow()) O["ar"]=1; if (M->isVirtual() && !ME->hasQualifier()) O["vc"]=1; }
        O["mc"] = 1; Ch.push_back(node(E->getImplicitObjectArgument())); }
      else Ch.push_back(node(E->getCallee()));
      for (auto *A : E->arguments()) Ch.push_back(node(A));
    } else if (auto *E = dyn_cast<CallExpr>(S)) {
      if (auto *FD = E->getDirectCallee()) { O["d"] = declId(FD); if (isa<CXXOperatorCallExpr>(E)) { O["op"] = getOperatorSpelling(cast<CXXOperatorCallExpr>(E)->getOperator()); if (auto*M=dyn_cast<CXXMethodDecl>(FD)) if(!M->isStatic()) O["mc"] = 1; } }
      else { O["ind"] = 1; Ch.push_back(node(E->getCallee())); }
      for (auto *A : E->arguments()) Ch.push_back(node(A));
    } else if (auto *E = dyn_cast<CXXConstructExpr>(S)) {
      O["d"] = declId(E->getConstructor()); if (E->isElidable()) O["el"] = 1;
      if (E->isListInitialization()) O["li"]=1;
      for (auto *A : E->arguments()) Ch.push_back(node(A));
    } else if (auto *E = dyn_cast<BinaryOperator>(S)) { O["op"] = E->getOpcodeStr(); if (isa<CompoundAssignOperator>(E)) O["ca"]=1; kids(S); }
    else if (auto *E = dyn_cast<UnaryOperator>(S)) { O["op"] = (E->isPostfix() ? std::string("p") : std::string("")) + UnaryOperator::getOpcodeStr(E->getOpcode()).str(); kids(S); }
    else if (auto *E = dyn_cast<IntegerLiteral>(S)) { auto V=E->getValue(); if (V.getActiveBits()>63) { llvm::SmallString<32> Str; V.toStringUnsigned(Str); O["cvs"]=std::string(Str.str()); } else O["cv"] = (int64_t)V.getZExtValue(); }
    else if (auto *E = dyn_cast<FloatingLiteral>(S)) { llvm::APFloat V=E->getValue(); bool L; V.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &L); O["cv"] = V.convertToDouble(); 
        O["src"] = std::string(Lexer::getSourceText(CharSourceRange::getTokenRange(SM.getSpellingLoc(E->getBeginLoc())), SM, C.getLangOpts())); }
    else if (auto *E = dyn_cast<CXXBoolLiteralExpr>(S)) O["cv"] = E->getValue() ? 1 : 0;
    else if (auto *E = dyn_cast<CharacterLiteral>(S)) O["cv"] = (int64_t)E->getValue();
    else if (auto *E = dyn_cast<StringLiteral>(S)) { O["s"] = (E->getCharByteWidth() == 1) ? J::fixUTF8(E->getString()) : std::string(); }
    else if (auto *E = dyn_cast<LambdaExpr>(S)) {
      J::Array Cp; unsigned ix = 0;
      for (auto It = E->capture_begin(); It != E->capture_end(); ++It, ++ix) {
        J::Object CO; CO["ref"] = It->getCaptureKind() == LCK_ByRef; CO["this"] = It->capturesThis();
        CO["starthis"] = It->getCaptureKind()==LCK_StarThis; CO["impl"]=It->isImplicit();
        if (It->capturesVariable()) CO["d"] = declId(It->getCapturedVar());
        if (It->capturesVariable() && E->isInitCapture(&*It)) CO["init"] = node(*(E->capture_init_begin() + ix));
        Cp.push_back(std::move(CO));
      }
      O["caps"] = std::move(Cp);
      const CXXMethodDecl* Op = E->getCallOperator();
      if (E->isGenericLambda()) {
        J::Array Sp; if (auto *FT = Op->getDescribedFunctionTemplate()) for (auto *X : FT->specializations()) { Sp.push_back(declId(X)); LambdaQ.push_back(X); }
        O["gen"] = std::move(Sp);
      } else { O["d"] = declId(Op); LambdaQ.push_back(Op); }
    } else if (auto *D = dyn_cast<DeclStmt>(S)) {
      for (auto *X : D->decls()) if (auto *V = dyn_cast<VarDecl>(X)) Ch.push_back(varnode(V));
    } else if (auto *E = dyn_cast<CXXForRangeStmt>(S)) {
      J::Object P; 
      if (E->getInit()) O["init"]=node(E->getInit());
      O["range"] = node(E->getRangeStmt()); O["beg"] = node(E->getBeginStmt()); O["end"] = node(E->getEndStmt());
      O["cond"] = node(E->getCond()); O["inc"] = node(E->getInc()); O["var"] = node(E->getLoopVarStmt()); O["body"] = node(E->getBody());
    } else if (auto *E = dyn_cast<ForStmt>(S)) {
      O["init"] = node(E->getInit()); O["cond"] = node(E->getCond()); O["inc"] = node(E->getInc()); O["body"] = node(E->getBody());
    } else if (auto *E = dyn_cast<WhileStmt>(S)) { if (E->getConditionVariableDeclStmt()) O["var"]=node(E->getConditionVariableDeclStmt()); O["cond"] = node(E->getCond()); O["body"] = node(E->getBody()); }
    else if (auto *E = dyn_cast<DoStmt>(S)) { O["body"] = node(E->getBody()); O["cond"] = node(E->getCond()); }
    else if (auto *E = dyn_cast<IfStmt>(S)) { if (E->getInit()) O["init"] = node(E->getInit()); if (E->getConditionVariableDeclStmt()) O["var"]=node(E->getConditionVariableDeclStmt()); O["cond"] = node(E->getCond()); O["then"] = node(E->getThen()); if (E->getElse()) O["else"] = node(E->getElse()); if (E->isConstexpr()) O["cx"] = 1; }
    else if (auto *E = dyn_cast<SwitchStmt>(S)) { if (E->getInit()) O["init"] = node(E->getInit()); O["cond"] = node(E->getCond()); O["body"] = node(E->getBody()); }
    else if (auto *E = dyn_cast<CaseStmt>(S)) { O["val"] = node(E->getLHS()); O["sub"] = node(E->getSubStmt()); }
    else if (auto *E = dyn_cast<DefaultStmt>(S)) { O["sub"] = node(E->getSubStmt()); }
    else if (auto *E = dyn_cast<CXXTryStmt>(S)) { O["body"] = node(E->getTryBlock()); for (unsigned i = 0; i < E->getNumHandlers(); ++i) Ch.push_back(node(E->getHandler(i))); }
    else if (auto *E = dyn_cast<CXXCatchStmt>(S)) { if (E->getExceptionDecl()) { O["d"] = declId(E->getExceptionDecl()); } if (!E->getCaughtType().isNull()) O["ct"]=typeId(E->getCaughtType()); O["body"] = node(E->getHandlerBlock()); }
    else if (auto *E = dyn_cast<CXXNewExpr>(S)) { O["arr"] = E->isArray(); if (E->getNumPlacementArgs()) O["place"]=1; kids(S); }
    else if (auto *E = dyn_cast<ExplicitCastExpr>(S)) { O["ck"] = E->getCastKindName(); kids(S); }
    else if (auto *E = dyn_cast<InitListExpr>(S)) { 
        const InitListExpr *Sem = E->isSemanticForm() ? E : (E->getSemanticForm() ? E->getSemanticForm() : E); 
        for (auto *X : Sem->inits()) Ch.push_back(node(X)); 
        if (auto*FI=Sem->getArrayFiller()) (void)FI; }
    else if (auto *D = dyn_cast<OMPExecutableDirective>(S)) {
      O["dir"] = llvm::omp::getOpenMPDirectiveName(D->getDirectiveKind()).str();
      J::Array Cl;
      for (auto *Cx : D->clauses()) {
        if (!Cx) continue;
        J::Object CO; CO["n"] = llvm::omp::getOpenMPClauseName(Cx->getClauseKind()).str();
        J::Array Vs;
        for (const Stmt *X : Cx->children()) { if (auto *EE = dyn_cast_or_null<Expr>(X)) if (auto *DR = dyn_cast<DeclRefExpr>(EE->IgnoreParenImpCasts())) Vs.push_back(declId(DR->getDecl())); }
        CO["vars"] = std::move(Vs); 
        if (auto *RC=dyn_cast<OMPReductionClause>(Cx)) { CO["rop"]=RC->getNameInfo().getAsString(); }
        if (auto *SC=dyn_cast<OMPScheduleClause>(Cx)) { CO["sched"]=(int)SC->getScheduleKind(); }
        if (auto *DC=dyn_cast<OMPDefaultClause>(Cx)) { CO["def"]=(int)DC->getDefaultKind(); }
        Cl.push_back(std::move(CO));
      }
      O["clauses"] = std::move(Cl);
      if (!D->isStandaloneDirective() && D->hasAssociatedStmt()) O["body"] = node(D->getRawStmt());
      if (auto *CD=dyn_cast<OMPCriticalDirective>(D)) O["crit"]=CD->getDirectiveName().getAsString();
    } else if (auto *E = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) { (void)E; }
    else if (auto *E = dyn_cast<CXXTypeidExpr>(S)) { if (E->isTypeOperand()) O["tid"] = typeId(E->getTypeOperand(C)); }
    else if (auto *E = dyn_cast<OpaqueValueExpr>(S)) { if (E->getSourceExpr()) Ch.push_back(node(E->getSourceExpr())); }
    else if (auto *E = dyn_cast<CXXThrowExpr>(S)) { if (E->getSubExpr()) { Ch.push_back(node(E->getSubExpr())); O["tt"] = typeId(E->getSubExpr()->getType()); } }
    else kids(S);
    if (!Ch.empty()) O["c"] = std::move(Ch);
    return O;
  }
  J::Value varnode(const VarDecl *V) {
    J::Object O; O["k"] = "VarDecl"; O["i"] = NextId++; O["d"] = declId(V); O["l"] = line(V->getLocation()); O["f"] = fileId(V->getLocation());
    if (auto*DD=dyn_cast<DecompositionDecl>(V)) { J::Array B; for (auto*X: DD->bindings()) B.push_back(declId(X)); O["binds"]=std::move(B); }
    if (V->hasInit()) { J::Array A; A.push_back(node(V->getInit())); O["c"] = std::move(A); }
    if (V->isStaticLocal()) SeenV.insert(V->getCanonicalDecl());
    return O;
  }
  void cfg(J::Object &O, const FunctionDecl *F) {
    CFG::BuildOptions B; B.AddImplicitDtors = true; B.AddTemporaryDtors = false; B.AddInitializers = true; B.AddEHEdges = false; B.PruneTriviallyFalseEdges = true;
    B.setAllAlwaysAdd();
    auto G = CFG::buildCFG(F, F->getBody(), &C, B);
    if (!G) { return; }
    J::Array Bl;
    for (auto *Blk : *G) {
      J::Object BO; BO["b"] = Blk->getBlockID();
      J::Array El;
      for (auto &E : *Blk) {
        if (auto S = E.getAs<CFGStmt>()) { auto It = Ids.find(S->getStmt()); if (It != Ids.end()) { if (El.empty() || El.back().getAsInteger() != std::optional<int64_t>(It->second)) El.push_back(It->second); } 
            else if (auto *DS=dyn_cast<DeclStmt>(S->getStmt())) { (void)DS; } }
        else if (auto I = E.getAs<CFGInitializer>()) { auto It = Ids.find(I->getInitializer()->getInit()); if (It != Ids.end()) El.push_back(It->second); }
        else if (auto D = E.getAs<CFGAutomaticObjDtor>()) { J::Object X; X["dtor"] = declId(D->getVarDecl()); El.push_back(std::move(X)); }
      }
      BO["e"] = std::move(El);
      J::Array Su; for (auto &X : Blk->succs()) { if (auto *R = X.getReachableBlock()) Su.push_back(R->getBlockID()); else Su.push_back(nullptr); }
      BO["s"] = std::move(Su);
      if (const Stmt *T = Blk->getTerminatorStmt()) { auto It = Ids.find(T); if (It != Ids.end()) BO["t"] = It->second; BO["tk"] = T->getStmtClassName(); }
      if (const Stmt *T = Blk->getTerminatorCondition()) { auto It = Ids.find(T); if (It != Ids.end()) BO["tc"] = It->second; }
      if (const Stmt *Lb = Blk->getLabel()) { auto It = Ids.find(Lb); if (It != Ids.end()) BO["lab"] = It->second; }
      if (Blk->hasNoReturnElement()) BO["nr"] = 1;
      Bl.push_back(std::move(BO));
    }
    O["cfg"] = std::move(Bl); O["entry"] = G->getEntry().getBlockID(); O["exit"] = G->getExit().getBlockID();
  }
  void func(const FunctionDecl *F) {
    if (!F->isThisDeclarationADefinition() && !(F->isDefined())) return;
    const FunctionDecl *Def = nullptr; if (!F->isDefined(Def)) return; F = Def;
    if (F->isDependentContext() || F->isTemplated()) return;
    if (!F->hasBody()) { return; }
    if (!mine(F->getLocation())) return;
    if (!SeenF.insert(F->getCanonicalDecl()).second) return;
    NextId = 0; Ids.clear(); Cur = F;
    J::Object O; O["key"] = fkey(F); O["d"] = declId(F);
    O["f"] = fileId(F->getLocation()); O["l"] = line(F->getLocation()); O["el"] = line(F->getBodyRBrace());
    J::Array P; for (auto *X : F->parameters()) P.push_back(declId(X)); O["params"] = std::move(P);
    if (F->isTemplateInstantiation()) O["inst"] = 1;
    if (auto *CC = dyn_cast<CXXConstructorDecl>(F)) {
      J::Array I;
      for (auto *X : CC->inits()) {
        J::Object IO; if (X->isMemberInitializer()) IO["d"] = declId(X->getMember()); else if (X->isBaseInitializer()) IO["base"] = typeId(QualType(X->getBaseClass(), 0)); else if (X->isDelegatingInitializer()) IO["deleg"] = 1;
        IO["w"] = X->isWritten(); IO["e"] = node(X->getInit()); I.push_back(std::move(IO));
      }
      O["inits"] = std::move(I);
    }
    O["body"] = node(F->getBody());
    cfg(O, F);
    Funcs.push_back(std::move(O));
    auto Q = std::move(LambdaQ); LambdaQ.clear();
    for (auto *L : Q) func(L);
  }
  bool VisitFunctionDecl(FunctionDecl *F) { func(F); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    R = R->getDefinition(); if (!R || R->isDependentContext() || R->isLambda()) return true;
    if (!mine(R->getLocation())) return true;
    if (!SeenR.insert(R).second) return true;
    J::Object O; O["n"] = recName(R); O["q"] = qn(R); O["f"] = fileId(R->getLocation()); O["l"] = line(R->getLocation());
    J::Array Fs; for (auto *X : R->fields()) { J::Object FO; FO["d"] = declId(X); FO["acc"]=(int)X->getAccess(); if (X->hasInClassInitializer()) { FO["init"] = 1; NextId=0; Ids.clear(); if (X->getInClassInitializer()) FO["ie"] = node(X->getInClassInitializer()); } Fs.push_back(std::move(FO)); }
    O["fields"] = std::move(Fs);
    J::Array Bs; for (auto &X : R->bases()) Bs.push_back(typeId(X.getType())); O["bases"] = std::move(Bs);
    J::Array Ms; for (auto *M : R->methods()) Ms.push_back(declId(M)); 
    J::Array Fr; for (auto*X: R->friends()) { if (X->getFriendType()) Fr.push_back(typeStr(X->getFriendType()->getType())); else if (auto*ND=X->getFriendDecl()) Fr.push_back(qn(ND)); } O["friends"]=std::move(Fr);
    O["methods"] = std::move(Ms);
    if (R->hasUserDeclaredDestructor()) O["udtor"] = 1;
    if (R->hasUserDeclaredCopyConstructor()) O["ucc"]=1;
    if (R->hasUserDeclaredMoveConstructor()) O["umc"]=1;
    if (R->isPolymorphic()) O["poly"] = 1;
    Records.push_back(std::move(O));
    auto Q = std::move(LambdaQ); LambdaQ.clear(); for (auto *L : Q) func(L);
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    if (!E->isThisDeclarationADefinition() || !mine(E->getLocation())) return true;
    J::Object O; O["q"] = qn(E); O["f"] = fileId(E->getLocation()); O["l"] = line(E->getLocation());
    if (E->isScoped()) O["scoped"]=1;
    J::Array A; for (auto *X : E->enumerators()) { J::Object Y; Y["n"] = X->getNameAsString(); Y["v"] = X->getInitVal().getExtValue(); A.push_back(std::move(Y)); }
    O["e"] = std::move(A); Enums.push_back(std::move(O)); return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (isa<ParmVarDecl>(V) || !V->hasGlobalStorage()) return true;
    if (!mine(V->getLocation())) return true;
    if (V->getDeclContext()->isDependentContext() || V->isTemplated()) return true;
    auto *D = V->getDefinition() ? V->getDefinition() : V;
    if (D->isTemplated() || D->getType()->isDependentType()) return true;
    J::Object O; 
    if (!SeenG.insert(D).second) return true;
    O["d"] = declId(D); NextId = 0; Ids.clear();
    O["t"]=typeId(D->getType());
    if (D->getAnyInitializer() && !D->getAnyInitializer()->isValueDependent()) O["init"] = node(D->getAnyInitializer());
    Vars.push_back(std::move(O));
    auto Q = std::move(LambdaQ); LambdaQ.clear(); for (auto *L : Q) func(L);
    return true;
  }
  std::set<const Decl*> SeenG;
};
struct Consumer : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Dumper D(C); D.TraverseDecl(C.getTranslationUnitDecl());
    J::Object O; O["funcs"] = std::move(D.Funcs); O["records"] = std::move(D.Records); O["enums"] = std::move(D.Enums); O["vars"] = std::move(D.Vars);
    O["types"] = std::move(D.TypeTab); O["decls"] = std::move(D.DeclTab); O["files"] = std::move(D.FileTab);
    std::error_code EC; llvm::raw_fd_ostream OS(Out, EC); OS << J::Value(std::move(O)); 
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override { return std::make_unique<Consumer>(); }
};
} // namespace
int main(int argc, const char **argv) {
  auto P = CommonOptionsParser::create(argc, argv, Cat);
  if (!P) { llvm::errs() << llvm::toString(P.takeError()); return 2; }
  ClangTool T(P->getCompilations(), P->getSourcePathList());
  return T.run(newFrontendActionFactory<Action>().get());
}
