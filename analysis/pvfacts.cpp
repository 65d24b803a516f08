// pvfacts: dump the resolved program (types, records, enums, per-function CFG in
// evaluation order) of the translation units given on the command line as JSON
// lines.  It decides nothing; the rules in /verif/analysis/rules/*.py do.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ParentMap.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/FileSystem.h"
#include <map>
#include <set>
using namespace clang;
namespace json = llvm::json;

static std::string gRoot;      // only declarations located below this real path are dumped
static std::set<std::string> gOnce;
static llvm::raw_ostream *gOut;

static std::string realPath(SourceManager &SM, SourceLocation L) {
  L = SM.getExpansionLoc(L);
  auto FE = SM.getFileEntryRefForID(SM.getFileID(L));
  if (!FE) return "";
  StringRef R = FE->getFileEntry().tryGetRealPathName();
  return R.empty() ? FE->getName().str() : R.str();
}

static std::string usr(const Decl *D) {
  llvm::SmallString<256> B;
  if (!D || index::generateUSRForDecl(D, B)) return "";
  return std::string(B.str());
}

struct Dumper {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  Dumper(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.SuppressUnwrittenScope = false;
    PP.Bool = true;
    PP.PrintCanonicalTypes = true;
    PP.SuppressInlineNamespace = true;
  }
  std::string ty(QualType T) {
    if (T.isNull()) return "";
    return T.getCanonicalType().getAsString(PP);
  }
  // c: record type, ref: reference, u: unsigned/bool/pointer, w: integer width, e: enum
  void tyFlags(json::Object &O, QualType T) {
    if (T.isNull() || T->isDependentType()) return;
    if (T->isReferenceType()) { O["ref"] = true; T = T.getNonReferenceType(); if (T.isConstQualified()) O["cref"] = true; }
    T = T.getCanonicalType();
    if (T->isScalarType()) O["sz"] = (int64_t)C.getTypeSizeInChars(T).getQuantity();
    if (T->isPointerType() && T->getPointeeType()->isScalarType()) O["psz"] = (int64_t)C.getTypeSizeInChars(T->getPointeeType()).getQuantity();
    if (T->isRecordType()) O["c"] = true;
    else if (T->isPointerType()) { O["u"] = true; O["p"] = true; }
    else if (T->isIntegralOrEnumerationType() && !T->isIncompleteType()) {
      if (T->isUnsignedIntegerOrEnumerationType() || T->isBooleanType()) O["u"] = true;
      O["w"] = T->isBooleanType() ? 1 : (int)C.getIntWidth(T);
      if (T->isEnumeralType()) O["e"] = true;
    }
  }
  std::string qn(const NamedDecl *D) {
    std::string S; llvm::raw_string_ostream OS(S);
    D->printQualifiedName(OS, PP); OS.flush();
    return S;
  }
  // qualified name including class template arguments
  std::string qnT(const NamedDecl *D) {
    std::string S; llvm::raw_string_ostream OS(S);
    D->getNameForDiagnostic(OS, PP, true); OS.flush();
    return S;
  }
  std::string loc(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    std::string P = realPath(SM, L);
    if (P.compare(0, gRoot.size(), gRoot) == 0) P = P.substr(gRoot.size());
    return P + ":" + std::to_string(SM.getExpansionLineNumber(L));
  }
  bool inRoot(const Decl *D) {
    SourceLocation L = D->getLocation();
    if (L.isInvalid()) return false;
    std::string P = realPath(SM, L);
    return P.compare(0, gRoot.size(), gRoot) == 0;
  }
};

struct FnDumper : Dumper {
  std::map<const Stmt *, int> Ids;
  std::map<const Stmt *, const CXXTryStmt*> TryOf;   // innermost enclosing try *body*
  json::Object Nodes;
  std::map<const ValueDecl *, int> VarIds;
  json::Object Vars;
  FnDumper(ASTContext &C) : Dumper(C) {}

  const Stmt *strip(const Stmt *S) {
    while (S) {
      if (auto *P = dyn_cast<ParenExpr>(S)) S = P->getSubExpr();
      else if (auto *P = dyn_cast<FullExpr>(S)) S = P->getSubExpr();
      else if (auto *P = dyn_cast<MaterializeTemporaryExpr>(S)) S = P->getSubExpr();
      else if (auto *P = dyn_cast<CXXBindTemporaryExpr>(S)) S = P->getSubExpr();
      else if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(S)) S = P->getReplacement();
      else if (auto *P = dyn_cast<CXXStdInitializerListExpr>(S)) S = P->getSubExpr();
      else break;
    }
    return S;
  }
  bool isWrapper(const Stmt *S) { return strip(S) != S; }

  int var(const ValueDecl *V) {
    auto It = VarIds.find(V);
    if (It != VarIds.end()) return It->second;
    int N = VarIds.size();
    VarIds[V] = N;
    json::Object O;
    O["n"] = V->getNameAsString();
    O["t"] = ty(V->getType());
    tyFlags(O, V->getType());
    if (auto *VD = dyn_cast<VarDecl>(V)) {
      if (auto *PV = dyn_cast<ParmVarDecl>(VD)) { O["k"] = "param"; O["ix"] = (int)PV->getFunctionScopeIndex(); }
      else if (VD->isStaticLocal()) O["k"] = "static";
      else if (VD->hasGlobalStorage()) { O["k"] = "global"; O["qn"] = qn(VD); O["usr"] = usr(VD); }
      else O["k"] = "local";
      O["l"] = loc(VD->getLocation());
      if (VD->getType().isConstQualified()) O["const"] = true;
    } else O["k"] = V->getDeclKindName();
    Vars[std::to_string(N)] = std::move(O);
    return N;
  }

  json::Array kids(const Stmt *S) {
    json::Array A;
    for (const Stmt *K : S->children()) if (K) A.push_back(node(K));
    return A;
  }

  void callee(json::Object &O, const FunctionDecl *FD) {
    if (!FD) return;
    O["fn"] = usr(FD);
    O["fq"] = qn(FD);
    O["fname"] = FD->getDeclName().isIdentifier() ? FD->getName().str() : FD->getNameAsString();
    if (FD->isNoReturn()) O["noret"] = true;
    if (auto *FPT = FD->getType()->getAs<FunctionProtoType>())
      if (FPT->isNothrow()) O["nothrow"] = true;
    if (FD->isImplicit() || FD->isDefaulted()) O["implicit"] = true;
    if (auto *M = dyn_cast<CXXMethodDecl>(FD)) {
      O["cls"] = qnT(M->getParent());
      if (M->isVirtual()) O["virt"] = true;
      if (M->isConst()) O["cm"] = true;
      if (M->isStatic()) O["static"] = true;
      if (M->isCopyAssignmentOperator() || M->isMoveAssignmentOperator()) O["asg"] = true;
    }
    if (auto *TA = FD->getTemplateSpecializationArgs()) {
      json::Array A;
      for (auto &X : TA->asArray()) {
        std::string S; llvm::raw_string_ostream OS(S); X.print(PP, OS, true); OS.flush();
        A.push_back(S);
      }
      O["targs"] = std::move(A);
    }
    json::Array PT;
    // per parameter: 'r' mutable ref, 'p' pointer to mutable, 'v' value / const ref / pointer to const
    for (auto *P : FD->parameters()) {
      QualType T = P->getType(); std::string K = "v";
      if (T->isReferenceType()) { K = T.getNonReferenceType().isConstQualified() ? "c" : T->isRValueReferenceType() ? "m" : "r"; }
      else if (T->isPointerType()) K = T->getPointeeType().isConstQualified() ? "v" : "p";
      PT.push_back(K);
    }
    O["pk"] = std::move(PT);
    if (FD->getReturnType()->isReferenceType()) O["rref"] = true;
    if (FD->isVariadic()) O["variadic"] = true;
  }

  int node(const Stmt *S0) {
    const Stmt *S = strip(S0);
    auto It = Ids.find(S);
    if (It != Ids.end()) return It->second;
    int N = Ids.size();
    Ids[S] = N;
    json::Object O;
    O["k"] = S->getStmtClassName();
    O["l"] = loc(S->getBeginLoc());
    if (auto *E = dyn_cast<Expr>(S)) {
      O["t"] = ty(E->getType());
      tyFlags(O, E->getType());
      if (E->isGLValue()) O["lv"] = true;
      if (!E->isValueDependent() && !E->isTypeDependent()) {
        Expr::EvalResult R;
        QualType T = E->getType();
        if ((T->isIntegralOrEnumerationType()) && !E->isLValue() && E->EvaluateAsInt(R, C) && !R.HasSideEffects) {
          llvm::APSInt V = R.Val.getInt();
          if (V.isRepresentableByInt64()) O["cv"] = V.getExtValue();
          else O["cvs"] = llvm::toString(V, 10);
        }
      }
    }
    if (auto *DS = dyn_cast<DeclStmt>(S)) {
      json::Array A;
      for (auto *D : DS->decls()) {
        if (auto *VD = dyn_cast<VarDecl>(D)) {
          json::Object V;
          V["v"] = var(VD);
          if (VD->getInit()) V["init"] = node(VD->getInit());
          A.push_back(std::move(V));
        }
      }
      O["decls"] = std::move(A);
    } else if (auto *E = dyn_cast<DeclRefExpr>(S)) {
      const ValueDecl *V = E->getDecl();
      if (auto *EC = dyn_cast<EnumConstantDecl>(V)) {
        O["enum"] = qn(EC);
      } else if (auto *FD = dyn_cast<FunctionDecl>(V)) {
        callee(O, FD);
      } else O["v"] = var(V);
    } else if (auto *E = dyn_cast<MemberExpr>(S)) {
      O["o"] = json::Array{node(E->getBase())};
      O["m"] = qn(E->getMemberDecl());
      O["mn"] = E->getMemberDecl()->getNameAsString();
      if (E->isArrow()) O["arrow"] = true;
      if (auto *FD = dyn_cast<FunctionDecl>(E->getMemberDecl())) callee(O, FD);
      else if (auto *VD = dyn_cast<VarDecl>(E->getMemberDecl())) O["v"] = var(VD);
      else { O["field"] = true;
        if (auto *FL = dyn_cast<FieldDecl>(E->getMemberDecl())) if (FL->getParent()->isUnion() && !FL->getParent()->isAnonymousStructOrUnion()) O["un"] = true;
 if (E->getMemberDecl()->getType()->isReferenceType()) O["mref"] = true; }
    } else if (auto *E = dyn_cast<CXXConstructExpr>(S)) {
      callee(O, E->getConstructor());
      json::Array A; for (auto *X : E->arguments()) A.push_back(node(X));
      O["o"] = std::move(A);
      if (E->getConstructor()->isCopyConstructor()) O["copy"] = true;
      if (E->getConstructor()->isMoveConstructor()) O["move"] = true;
      if (E->isElidable()) O["elide"] = true;
    } else if (auto *E = dyn_cast<CXXInheritedCtorInitExpr>(S)) {
      callee(O, E->getConstructor());
    } else if (auto *E = dyn_cast<CXXOperatorCallExpr>(S)) {
      callee(O, E->getDirectCallee());
      O["op"] = getOperatorSpelling(E->getOperator());
      if (E->getDirectCallee() && isa<CXXMethodDecl>(E->getDirectCallee())
          && !cast<CXXMethodDecl>(E->getDirectCallee())->isStatic()) O["mem"] = true;
      json::Array A; for (auto *X : E->arguments()) A.push_back(node(X));
      O["o"] = std::move(A);
    } else if (auto *E = dyn_cast<CXXMemberCallExpr>(S)) {
      const FunctionDecl *FD = E->getDirectCallee();
      callee(O, FD);
      O["mem"] = true;
      json::Array A;
      if (E->getImplicitObjectArgument()) {
        A.push_back(node(E->getImplicitObjectArgument()));
        O["ot"] = ty(E->getImplicitObjectArgument()->getType());
      } else A.push_back(nullptr);
      for (auto *X : E->arguments()) A.push_back(node(X));
      O["o"] = std::move(A);
      if (auto *ME = dyn_cast<MemberExpr>(E->getCallee()->IgnoreParens())) {
        if (ME->isArrow()) O["arrow"] = true;
        if (ME->hasQualifier()) O["qual"] = true;   // A::f(): no virtual dispatch
      }
    } else if (auto *E = dyn_cast<CallExpr>(S)) {
      callee(O, E->getDirectCallee());
      if (!E->getDirectCallee()) O["ind"] = node(E->getCallee());
      json::Array A; for (auto *X : E->arguments()) A.push_back(node(X));
      O["o"] = std::move(A);
    } else if (auto *E = dyn_cast<CXXNewExpr>(S)) {
      O["at"] = ty(E->getAllocatedType());
      json::Array A;
      if (E->getInitializer()) A.push_back(node(E->getInitializer()));
      O["o"] = std::move(A);
      if (E->isArray()) { O["arr"] = true; if (E->getArraySize() && *E->getArraySize()) O["asz"] = node(*E->getArraySize()); }
      if (E->getNumPlacementArgs()) { json::Array P; for (auto *X : E->placement_arguments()) P.push_back(node(X)); O["place"] = std::move(P); }
      if (E->getOperatorNew()) O["opnew"] = qn(E->getOperatorNew());
    } else if (auto *E = dyn_cast<CXXDeleteExpr>(S)) {
      O["o"] = json::Array{node(E->getArgument())};
      if (E->isArrayForm()) O["arr"] = true;
      O["dt"] = ty(E->getDestroyedType());
    } else if (auto *E = dyn_cast<CastExpr>(S)) {
      O["o"] = json::Array{node(E->getSubExpr())};
      O["ck"] = E->getCastKindName();
      O["ft"] = ty(E->getSubExpr()->getType());
      if (isa<ExplicitCastExpr>(S)) O["exp"] = true;
    } else if (auto *E = dyn_cast<BinaryOperator>(S)) {
      O["op"] = E->getOpcodeStr().str();
      O["o"] = json::Array{node(E->getLHS()), node(E->getRHS())};
      if (auto *CA = dyn_cast<CompoundAssignOperator>(S)) O["ct"] = ty(CA->getComputationResultType());
    } else if (auto *E = dyn_cast<UnaryOperator>(S)) {
      O["op"] = UnaryOperator::getOpcodeStr(E->getOpcode()).str();
      if (E->isPostfix()) O["post"] = true;
      O["o"] = json::Array{node(E->getSubExpr())};
    } else if (auto *E = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) {
      O["at"] = ty(E->getTypeOfArgument());
    } else if (auto *E = dyn_cast<StringLiteral>(S)) {
      O["str"] = E->isOrdinary() ? json::fixUTF8(E->getString()) : std::string();
    } else if (auto *E = dyn_cast<FloatingLiteral>(S)) {
      O["fv"] = E->getValueAsApproximateDouble();
    } else if (auto *E = dyn_cast<CXXThrowExpr>(S)) {
      json::Array A; if (E->getSubExpr()) { A.push_back(node(E->getSubExpr())); O["tt"] = ty(E->getSubExpr()->getType()); }
      O["o"] = std::move(A);
    } else if (auto *E = dyn_cast<CXXDefaultArgExpr>(S)) {
      O["o"] = json::Array{node(E->getExpr())};
    } else if (auto *E = dyn_cast<CXXDefaultInitExpr>(S)) {
      O["o"] = json::Array{node(E->getExpr())};
    } else if (auto *E = dyn_cast<LambdaExpr>(S)) {
      O["fn"] = usr(E->getCallOperator());
      json::Array A; for (auto *X : E->capture_inits()) if (X) A.push_back(node(X));
      O["o"] = std::move(A);
    } else if (auto *E = dyn_cast<InitListExpr>(S)) {
      json::Array A; for (auto *X : E->inits()) A.push_back(node(X));
      O["o"] = std::move(A);
    } else if (auto *R = dyn_cast<ReturnStmt>(S)) {
      json::Array A; if (R->getRetValue()) A.push_back(node(R->getRetValue()));
      O["o"] = std::move(A);
    } else if (isa<Expr>(S)) {
      O["o"] = kids(S);
      if (auto *OV = dyn_cast<OpaqueValueExpr>(S)) if (OV->getSourceExpr()) O["o"] = json::Array{node(OV->getSourceExpr())};
    }
    auto TI = TryOf.find(S);
    if (TI != TryOf.end() && TI->second) O["try"] = node(TI->second);
    if (auto *T = dyn_cast<CXXTryStmt>(S)) {
      json::Array A;
      for (unsigned i = 0; i < T->getNumHandlers(); i++) {
        const CXXCatchStmt *H = T->getHandler(i);
        json::Object HO;
        HO["id"] = node(H);
        HO["ct"] = H->getExceptionDecl() ? ty(H->getCaughtType()) : "...";
        A.push_back(std::move(HO));
      }
      O["handlers"] = std::move(A);
    }
    if (auto *H = dyn_cast<CXXCatchStmt>(S)) {
      if (H->getExceptionDecl()) { O["v"] = var(H->getExceptionDecl()); O["ct"] = ty(H->getCaughtType()); }
      else O["ct"] = "...";
    }
    Nodes[std::to_string(N)] = std::move(O);
    return N;
  }

  void mapTry(const Stmt *S, const CXXTryStmt *T) {
    if (!S) return;
    TryOf[strip(S)] = T;
    TryOf[S] = T;
    if (auto *TS = dyn_cast<CXXTryStmt>(S)) {
      mapTry(TS->getTryBlock(), TS);
      for (unsigned i = 0; i < TS->getNumHandlers(); i++) mapTry(TS->getHandler(i), T);
      return;
    }
    if (isa<LambdaExpr>(S)) return;
    for (const Stmt *K : S->children()) mapTry(K, T);
  }

  void dump(const FunctionDecl *FD) {
    const Stmt *Body = FD->getBody();
    if (!Body) return;
    json::Object F;
    F["kind"] = "fn";
    F["usr"] = usr(FD);
    F["q"] = qn(FD);
    F["qt"] = qnT(FD);
    F["n"] = FD->getNameAsString();
    F["l"] = loc(FD->getLocation());
    F["rt"] = ty(FD->getReturnType());
    if (auto *TA = FD->getTemplateSpecializationArgs()) {
      json::Array A;
      for (auto &X : TA->asArray()) { std::string S; llvm::raw_string_ostream OS(S); X.print(PP, OS, true); OS.flush(); A.push_back(S); }
      F["targs"] = std::move(A);
    }
    if (FD->isImplicit()) F["implicit"] = true;
    if (FD->isDefaulted()) F["defaulted"] = true;
    if (FD->isStatic() || FD->isInAnonymousNamespace()) F["internal"] = true;
    if (FD->getAccess() != AS_none) F["acc"] = FD->getAccess() == AS_public ? "public" : FD->getAccess() == AS_protected ? "protected" : "private";
    if (auto *M = dyn_cast<CXXMethodDecl>(FD)) {
      F["cls"] = qnT(M->getParent());
      F["clsq"] = qn(M->getParent());
      F["clsusr"] = usr(M->getParent());
      if (M->isVirtual()) F["virt"] = true;
      if (M->isConst()) F["const"] = true;
      if (M->isStatic()) F["smeth"] = true;
      json::Array OV;
      for (auto *O : M->overridden_methods()) OV.push_back(usr(O));
      F["over"] = std::move(OV);
      if (auto *CD = dyn_cast<CXXConstructorDecl>(M)) {
        F["ctor"] = CD->isCopyConstructor() ? "copy" : CD->isMoveConstructor() ? "move" : CD->isDefaultConstructor() ? "default" : "other";
        if (CD->isDelegatingConstructor()) F["deleg"] = true;
      }
      if (isa<CXXDestructorDecl>(M)) F["dtor"] = true;
      if (M->isCopyAssignmentOperator()) F["asg"] = "copy";
      if (M->isMoveAssignmentOperator()) F["asg"] = "move";
    }
    json::Array PS;
    for (auto *P : FD->parameters()) PS.push_back(var(P));
    F["params"] = std::move(PS);
    mapTry(Body, nullptr);
    if (auto *CD = dyn_cast<CXXConstructorDecl>(FD)) for (auto *I : CD->inits()) mapTry(I->getInit(), nullptr);

    CFG::BuildOptions BO;
    BO.setAllAlwaysAdd();
    BO.AddInitializers = true;
    BO.AddImplicitDtors = true;
    BO.AddTemporaryDtors = true;
    BO.AddEHEdges = false;
    BO.PruneTriviallyFalseEdges = false;
    BO.AddCXXDefaultInitExprInCtors = true;
    BO.AddRichCXXConstructors = false;
    std::unique_ptr<CFG> G = CFG::buildCFG(FD, const_cast<Stmt *>(Body), &C, BO);
    if (!G) { F["nocfg"] = true; *gOut << json::Value(std::move(F)) << "\n"; return; }
    json::Array BL;
    for (const CFGBlock *B : *G) {
      json::Object BO2;
      BO2["id"] = (int)B->getBlockID();
      json::Array EL;
      for (const CFGElement &E : *B) {
        switch (E.getKind()) {
        case CFGElement::Statement: case CFGElement::Constructor: case CFGElement::CXXRecordTypedCall: {
          const Stmt *S = E.castAs<CFGStmt>().getStmt();
          if (isWrapper(S)) { node(S); break; }
          EL.push_back(node(S));
          break;
        }
        case CFGElement::Initializer: {
          const CXXCtorInitializer *I = E.castAs<CFGInitializer>().getInitializer();
          json::Object O; O["e"] = "init";
          if (I->isAnyMemberInitializer()) { O["m"] = qn(I->getAnyMember()); O["mt"] = ty(I->getAnyMember()->getType()); tyFlags(O, I->getAnyMember()->getType()); }
          else if (I->isBaseInitializer()) O["b"] = ty(QualType(I->getBaseClass(), 0));
          else if (I->isDelegatingInitializer()) O["d"] = true;
          if (I->isWritten()) O["w"] = true;
          if (I->getInit()) O["init"] = node(I->getInit());
          EL.push_back(std::move(O));
          break;
        }
        case CFGElement::AutomaticObjectDtor: {
          auto D = E.castAs<CFGAutomaticObjDtor>();
          json::Object O; O["e"] = "dtor"; O["v"] = var(D.getVarDecl());
          if (auto *DD = D.getDestructorDecl(C)) { O["fn"] = usr(DD); O["fq"] = qn(DD); }
          EL.push_back(std::move(O));
          break;
        }
        case CFGElement::TemporaryDtor: {
          auto D = E.castAs<CFGTemporaryDtor>();
          json::Object O; O["e"] = "tdtor"; O["n"] = node(D.getBindTemporaryExpr());
          if (auto *DD = D.getDestructorDecl(C)) { O["fn"] = usr(DD); O["fq"] = qn(DD); }
          EL.push_back(std::move(O));
          break;
        }
        case CFGElement::MemberDtor: {
          auto D = E.castAs<CFGMemberDtor>();
          json::Object O; O["e"] = "mdtor"; O["m"] = qn(D.getFieldDecl());
          EL.push_back(std::move(O));
          break;
        }
        case CFGElement::BaseDtor: {
          json::Object O; O["e"] = "bdtor";
          if (auto *DD = E.castAs<CFGImplicitDtor>().getDestructorDecl(C)) { O["fn"] = usr(DD); O["fq"] = qn(DD); }
          EL.push_back(std::move(O));
          break;
        }
        default: break;
        }
      }
      BO2["el"] = std::move(EL);
      if (const Stmt *L = B->getLabel()) {
        if (auto *CS = dyn_cast<CaseStmt>(L)) {
          json::Object LO; LO["k"] = "case";
          Expr::EvalResult R;
          if (CS->getLHS()->EvaluateAsInt(R, C)) LO["lo"] = R.Val.getInt().getExtValue();
          if (CS->getRHS() && CS->getRHS()->EvaluateAsInt(R, C)) LO["hi"] = R.Val.getInt().getExtValue();
          const Expr *LE = CS->getLHS()->IgnoreParenImpCasts();
          if (auto *CE = dyn_cast<ConstantExpr>(LE)) LE = CE->getSubExpr()->IgnoreParenImpCasts();
          if (auto *DR = dyn_cast<DeclRefExpr>(LE)) LO["enum"] = qn(DR->getDecl());
          BO2["label"] = std::move(LO);
        } else if (isa<DefaultStmt>(L)) BO2["label"] = json::Object{{"k", "default"}};
        else if (isa<CXXCatchStmt>(L)) BO2["label"] = json::Object{{"k", "catch"}, {"id", node(L)}};
        else BO2["label"] = json::Object{{"k", "label"}};
      }
      if (B->hasNoReturnElement()) BO2["noret"] = true;
      CFGTerminator T = B->getTerminator();
      if (T.isValid() && T.getStmt()) {
        json::Object TO;
        TO["k"] = T.isTemporaryDtorsBranch() ? "TempDtors" : T.getStmt()->getStmtClassName();
        TO["id"] = node(T.getStmt());
        TO["l"] = loc(T.getStmt()->getBeginLoc());
        if (auto *BOp = dyn_cast<BinaryOperator>(T.getStmt())) TO["op"] = BOp->getOpcodeStr().str();
        const Expr *Cond = nullptr;
        if (!T.isTemporaryDtorsBranch()) {
          if (isa<SwitchStmt>(T.getStmt())) Cond = cast<SwitchStmt>(T.getStmt())->getCond();
          else if (B->succ_size() >= 2) { Cond = B->getLastCondition(); if (!Cond) Cond = dyn_cast_or_null<Expr>(B->getTerminatorCondition()); }
        }
        if (Cond) TO["c"] = node(Cond);
        if (auto *SW = dyn_cast<SwitchStmt>(T.getStmt())) if (SW->isAllEnumCasesCovered()) TO["allenum"] = true;
        BO2["term"] = std::move(TO);
      }
      json::Array SU;
      for (auto It = B->succ_begin(); It != B->succ_end(); ++It) {
        if (const CFGBlock *S = It->getReachableBlock()) SU.push_back((int)S->getBlockID());
        else if (const CFGBlock *S = It->getPossiblyUnreachableBlock()) SU.push_back((int)S->getBlockID());
        else SU.push_back(nullptr);
      }
      BO2["su"] = std::move(SU);
      BL.push_back(std::move(BO2));
    }
    F["entry"] = (int)G->getEntry().getBlockID();
    F["exit"] = (int)G->getExit().getBlockID();
    F["blocks"] = std::move(BL);
    F["nodes"] = std::move(Nodes);
    F["vars"] = std::move(Vars);
    *gOut << json::Value(std::move(F)) << "\n";
  }
};

class V : public RecursiveASTVisitor<V>, Dumper {
public:
  V(ASTContext &C) : Dumper(C) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *FD) {
    if (!FD->isThisDeclarationADefinition() || FD->isDependentContext() || FD->isTemplated()) return true;
    if (FD->isDeleted() || !inRoot(FD)) return true;
    if (!FD->getBody()) {
      if (FD->isDefaulted()) {
        std::string U = usr(FD);
        if (gOnce.insert("D" + U).second) {
          json::Object O{{"kind", "defaulted"}, {"usr", U}, {"q", qn(FD)}, {"l", loc(FD->getLocation())}};
          if (auto *M = dyn_cast<CXXMethodDecl>(FD)) O["cls"] = qnT(M->getParent());
          *gOut << json::Value(std::move(O)) << "\n";
        }
      }
      return true;
    }
    if (FD->getDescribedFunctionTemplate()) return true;
    std::string U = usr(FD);
    if (!gOnce.insert("F" + U).second) return true;
    FnDumper D(C);
    D.dump(FD);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *RD) {
    if (!RD->isThisDeclarationADefinition() || RD->isDependentContext()) return true;
    const CXXRecordDecl *PD = RD->getTemplateInstantiationPattern();
    if (!PD) PD = RD;
    bool CB = false;                       // the callback table of the JSON library
    if (auto *TD = RD->getTypedefNameForAnonDecl()) CB = TD->getName() == "yajl_callbacks";
    if (!inRoot(PD) && !CB) return true;
    if (RD->isLambda()) return true;
    std::string U = usr(RD);
    if (!gOnce.insert("R" + U).second) return true;
    json::Object O;
    O["kind"] = "rec"; O["usr"] = U; O["q"] = qn(RD); O["qt"] = qnT(RD); O["l"] = loc(PD->getLocation());
    json::Array FA, BA, MA;
    for (auto *F : RD->fields()) {
      json::Object FO{{"n", F->getNameAsString()}, {"q", qn(F)}, {"t", ty(F->getType())}, {"l", loc(F->getLocation())}};
      tyFlags(FO, F->getType());
      FO["acc"] = F->getAccess() == AS_public ? "public" : F->getAccess() == AS_protected ? "protected" : "private";
      if (F->hasInClassInitializer()) FO["init"] = true;
      if (F->isMutable()) FO["mut"] = true;
      FA.push_back(std::move(FO));
    }
    for (auto &B : RD->bases()) {
      json::Object BO{{"t", ty(B.getType())}};
      if (B.isVirtual()) BO["virt"] = true;
      if (auto *BD = B.getType()->getAsCXXRecordDecl()) { BO["usr"] = usr(BD); BO["q"] = qn(BD); }
      BO["acc"] = B.getAccessSpecifier() == AS_public ? "public" : B.getAccessSpecifier() == AS_protected ? "protected" : "private";
      BA.push_back(std::move(BO));
    }
    for (auto *M : RD->methods()) {
      json::Object MO{{"usr", usr(M)}, {"n", M->getNameAsString()}, {"q", qn(M)}, {"t", ty(M->getType())}};
      MO["acc"] = M->getAccess() == AS_public ? "public" : M->getAccess() == AS_protected ? "protected" : "private";
      if (M->isVirtual()) MO["virt"] = true;
      if (M->isPureVirtual()) MO["pure"] = true;
      if (M->isConst()) MO["const"] = true;
      if (M->isStatic()) MO["static"] = true;
      if (M->isDeleted()) MO["deleted"] = true;
      if (M->isImplicit()) MO["implicit"] = true;
      if (M->isDefaulted()) MO["defaulted"] = true;
      if (auto *CD = dyn_cast<CXXConstructorDecl>(M)) MO["ctor"] = CD->isCopyConstructor() ? "copy" : CD->isMoveConstructor() ? "move" : CD->isDefaultConstructor() ? "default" : "other";
      if (isa<CXXDestructorDecl>(M)) MO["dtor"] = true;
      json::Array OV; for (auto *X : M->overridden_methods()) OV.push_back(usr(X));
      MO["over"] = std::move(OV);
      json::Array PT; for (auto *P : M->parameters()) PT.push_back(ty(P->getType()));
      MO["pt"] = std::move(PT);
      MA.push_back(std::move(MO));
    }
    O["fields"] = std::move(FA); O["bases"] = std::move(BA); O["methods"] = std::move(MA);
    if (RD->isAbstract()) O["abstract"] = true;
    *gOut << json::Value(std::move(O)) << "\n";
    return true;
  }
  bool VisitEnumDecl(EnumDecl *ED) {
    std::string Q = qn(ED);
    if (auto *TD = ED->getTypedefNameForAnonDecl()) Q = qn(TD);
    if (!ED->isThisDeclarationADefinition() || ED->isDependentContext() || !(inRoot(ED) || llvm::StringRef(Q).starts_with("yajl_"))) return true;
    std::string U = usr(ED);
    if (!gOnce.insert("E" + U).second) return true;
    json::Array A;
    for (auto *E : ED->enumerators()) A.push_back(json::Object{{"n", qn(E)}, {"v", E->getInitVal().getExtValue()}});
    *gOut << json::Value(json::Object{{"kind", "enum"}, {"usr", U}, {"q", Q}, {"l", loc(ED->getLocation())}, {"vals", std::move(A)}}) << "\n";
    return true;
  }
  bool VisitVarDecl(VarDecl *VD) {
    if (!VD->hasGlobalStorage() || !inRoot(VD) || VD->getDeclContext()->isDependentContext() || isa<VarTemplateDecl>(VD)) return true;
    if (VD->isTemplated()) return true;
    if (!VD->isThisDeclarationADefinition() && !VD->hasInit()) return true;
    std::string U = usr(VD);
    if (!gOnce.insert("G" + U).second) return true;
    json::Object O{{"kind", "glob"}, {"usr", U}, {"q", qn(VD)}, {"n", VD->getNameAsString()}, {"t", ty(VD->getType())}, {"l", loc(VD->getLocation())}};
    if (VD->isStaticLocal()) O["static"] = true;
    if (VD->getType().isConstQualified()) O["const"] = true;
    if (VD->hasInit() && !VD->getInit()->isValueDependent()) {
      FnDumper D(C);
      int N = D.node(VD->getInit());
      O["init"] = N; O["nodes"] = std::move(D.Nodes); O["vars"] = std::move(D.Vars);
      if (auto *APV = VD->evaluateValue()) {
        std::function<json::Value(const APValue &)> J = [&](const APValue &P) -> json::Value {
          if (P.isInt()) return P.getInt().isRepresentableByInt64() ? json::Value(P.getInt().getExtValue()) : json::Value(llvm::toString(P.getInt(), 10));
          if (P.isArray()) { json::Array A; for (unsigned i = 0; i < P.getArrayInitializedElts(); i++) A.push_back(J(P.getArrayInitializedElt(i)));
            if (P.hasArrayFiller()) for (unsigned i = P.getArrayInitializedElts(); i < P.getArraySize(); i++) A.push_back(J(P.getArrayFiller())); return A; }
          if (P.isStruct()) { json::Array A; for (unsigned i = 0; i < P.getStructNumFields(); i++) A.push_back(J(P.getStructField(i))); return A; }
          if (P.isLValue()) { if (auto *E = P.getLValueBase().dyn_cast<const Expr*>()) if (auto *SL = dyn_cast<StringLiteral>(E)) return json::fixUTF8(SL->getString());
            return nullptr; }
          return nullptr;
        };
        O["val"] = J(*APV);
      }
    }
    *gOut << json::Value(std::move(O)) << "\n";
    return true;
  }
};

class Cons : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasUncompilableErrorOccurred()) return;
    V(C).TraverseDecl(C.getTranslationUnitDecl());
  }
};
class Act : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Cons>(); }
};

static llvm::cl::OptionCategory Cat("pvfacts");
static llvm::cl::opt<std::string> Root("root", llvm::cl::cat(Cat), llvm::cl::desc("source root"));
static llvm::cl::opt<std::string> Out("o", llvm::cl::cat(Cat), llvm::cl::desc("output file"));

int main(int argc, const char **argv) {
  auto OP = tooling::CommonOptionsParser::create(argc, argv, Cat);
  if (!OP) { llvm::errs() << llvm::toString(OP.takeError()); return 2; }
  gRoot = Root;
  std::error_code EC;
  llvm::raw_fd_ostream OS(Out, EC);
  if (EC) { llvm::errs() << EC.message() << "\n"; return 2; }
  gOut = &OS;
  tooling::ClangTool Tool(OP->getCompilations(), OP->getSourcePathList());
  return Tool.run(tooling::newFrontendActionFactory<Act>().get());
}
