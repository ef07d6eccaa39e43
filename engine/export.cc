// astx: exports the *resolved* program (types, callees, control structure) of a
// translation unit as JSON, for the rule engine in /verif/engine/*.py.
// Everything exported comes from clang's semantic analysis: no text is matched.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Attr.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Sema/Sema.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include <deque>
#include <fstream>
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace js = llvm::json;

static std::vector<std::string> Roots; // path prefixes whose definitions get exported in full

namespace {
static int64_t i64(const llvm::APSInt &v) { return v.isRepresentableByInt64() ? (int64_t) v.getExtValue() : (int64_t) v.getLimitedValue(); }

struct Exporter {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<const Decl *, int> declId;
  std::vector<js::Object> decls;      // variables, params, fields, enum constants
  std::map<const FunctionDecl *, int> fnId;
  std::vector<const FunctionDecl *> fnList;
  std::map<const CXXRecordDecl *, int> clsId;
  std::vector<const CXXRecordDecl *> clsList;
  std::map<std::string, int> typeId;
  std::vector<js::Object> types;
  std::map<std::string, int> fileId;
  std::vector<std::string> files;
  std::map<const FunctionDecl*, js::Object> fnObjs;

  explicit Exporter(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()) {
    PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true; PP.PrintCanonicalTypes = true;
    PP.Bool = true; PP.AnonymousTagLocations = false;
  }

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid()) return "";
    return SM.getFilename(L).str();
  }
  bool inRoots(const Decl *D) {
    std::string f = fileOf(D->getLocation());
    for (auto &r : Roots) if (f.compare(0, r.size(), r) == 0) return true;
    return false;
  }
  int fid(SourceLocation L) {
    std::string f = fileOf(L);
    auto it = fileId.find(f);
    if (it != fileId.end()) return it->second;
    int i = files.size(); files.push_back(f); fileId[f] = i; return i;
  }
  int lineOf(SourceLocation L) { return L.isInvalid() ? 0 : (int) SM.getExpansionLineNumber(L); }
  void loc(js::Object &o, SourceLocation L) { o["l"] = lineOf(L); }

  std::string qn(const NamedDecl *D) {
    std::string s; llvm::raw_string_ostream os(s);
    D->printQualifiedName(os, PP); os.flush();
    // drop inline namespaces such as __cxx11
    for (const char *x : {"std::__cxx11::", "std::__1::"}) {
      std::string k(x); size_t p;
      while ((p = s.find(k)) != std::string::npos) s.replace(p, k.size(), "std::");
    }
    return s;
  }

  int ty(QualType T) {
    if (T.isNull()) return -1;
    QualType CT = T.getCanonicalType();
    std::string s = CT.getAsString(PP);
    auto it = typeId.find(s);
    if (it != typeId.end()) return it->second;
    int id = types.size(); typeId[s] = id; types.push_back(js::Object{});
    js::Object o; o["s"] = s;
    QualType N = CT;
    if (N->isReferenceType()) { o["ref"] = N->isRValueReferenceType() ? 2 : 1; N = N.getNonReferenceType(); }
    if (N.isConstQualified()) o["const"] = true;
    if (N->isPointerType()) { o["ptr"] = true; o["to"] = ty(N->getPointeeType()); }
    if (N->isEnumeralType()) { o["enum"] = qn(N->getAs<EnumType>()->getDecl()); }
    if (N->isScalarType()) o["scalar"] = true;
    if (N->isBooleanType()) o["bool"] = true;
    if (N->isIntegerType() ) o["int"] = true;
    if (N->isFloatingType()) o["float"] = true;
    if (N->isUnsignedIntegerOrEnumerationType()) o["uns"] = true;
    if (N->isArrayType()) { o["arr"] = true; if (auto *A = C.getAsConstantArrayType(N)) o["n"] = (int64_t) A->getSize().getZExtValue(); o["to"] = ty(C.getAsArrayType(N)->getElementType()); }
    if (!N->isDependentType() && !N->isIncompleteType() && !N->isFunctionType() && !N->isVoidType() && !N->isPlaceholderType()) o["sz"] = (int64_t) C.getTypeSizeInChars(N).getQuantity();
    if (auto *R = N->getAsCXXRecordDecl()) { o["cls"] = cls(R); }
    if (N->isVoidType()) o["void"] = true;
    if (N->isFunctionType() || N->isFunctionPointerType() || N->isMemberFunctionPointerType()) o["fnlike"] = true;
    types[id] = std::move(o);
    return id;
  }

  int cls(const CXXRecordDecl *R) {
    if (auto *D = R->getDefinition()) R = D; else R = R->getCanonicalDecl();
    auto it = clsId.find(R);
    if (it != clsId.end()) return it->second;
    int i = clsList.size(); clsId[R] = i; clsList.push_back(R); return i;
  }

  int fn(const FunctionDecl *F) {
    const FunctionDecl *D = nullptr;
    if (F->hasBody(D) && D) F = D; else F = F->getCanonicalDecl();
    auto it = fnId.find(F);
    if (it != fnId.end()) return it->second;
    int i = fnList.size(); fnId[F] = i; fnList.push_back(F); return i;
  }

  int decl(const ValueDecl *D) {
    const Decl *K = D->getCanonicalDecl();
    auto it = declId.find(K);
    if (it != declId.end()) return it->second;
    int i = decls.size(); declId[K] = i; decls.push_back(js::Object{});
    js::Object o; o["n"] = D->getNameAsString(); o["t"] = ty(D->getType()); o["l"] = lineOf(D->getLocation()); o["fl"] = fid(D->getLocation());
    if (auto *P = dyn_cast<ParmVarDecl>(D)) { o["k"] = "param"; o["pi"] = (int) P->getFunctionScopeIndex(); }
    else if (auto *V = dyn_cast<VarDecl>(D)) {
      if (V->isStaticDataMember()) { o["k"] = "sfield"; o["qn"] = qn(V); }
      else if (V->isStaticLocal()) { o["k"] = "slocal"; o["qn"] = qn(V);}
      else if (V->hasGlobalStorage()) { o["k"] = "global"; o["qn"] = qn(V); }
      else o["k"] = "local";
      if (V->getTSCSpec() != TSCS_unspecified || V->getTLSKind()!=VarDecl::TLS_None) o["tls"] = true;
      if (V->isConstexpr()) o["constexpr"] = true;
      if (V->hasGlobalStorage()) {
        const VarDecl *DV = nullptr;
        if (auto *I = V->getAnyInitializer(DV)) if (!I->isValueDependent() && !I->isInstantiationDependent() && !V->getType()->isDependentType()) {
          pendingInits.push_back({i, I});
        }
      }
    } else if (auto *Fd = dyn_cast<FieldDecl>(D)) {
      o["k"] = "field"; o["qn"] = qn(Fd);
      if (auto *R = dyn_cast<CXXRecordDecl>(Fd->getParent())) o["cls"] = cls(R);
      if (Fd->isMutable()) o["mut"] = true;
    } else if (auto *E = dyn_cast<EnumConstantDecl>(D)) {
      o["k"] = "enumc"; o["qn"] = qn(E); o["v"] = i64(E->getInitVal());
    } else if (isa<BindingDecl>(D)) { o["k"] = "binding";
    } else o["k"] = "other";
    decls[i] = std::move(o);
    return i;
  }
  struct PI { int id; const Expr *E; };
  std::vector<PI> pendingInits;

  // ---------------------------------------------------------------- exprs
  static const Expr *strip(const Expr *E) {
    for (;;) {
      if (!E) return E;
      if (auto *X = dyn_cast<ParenExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<ExprWithCleanups>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = X->getReplacement(); continue; }
      if (auto *X = dyn_cast<ConstantExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) { E = X->getExpr(); continue; }
      if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) { E = X->getExpr(); continue; }
      if (auto *X = dyn_cast<CXXRewrittenBinaryOperator>(E)) { E = X->getSemanticForm(); continue; }
      if (auto *X = dyn_cast<ImplicitCastExpr>(E)) {
        auto ck = X->getCastKind();
        if (ck == CK_PointerToBoolean || ck == CK_IntegralToBoolean || ck == CK_FloatingToBoolean || ck == CK_MemberPointerToBoolean) return E;
        E = X->getSubExpr(); continue;
      }
      return E;
    }
  }

  js::Value X(const Expr *E0) {
    if (!E0) return nullptr;
    const Expr *E = strip(E0);
    js::Object o;
    loc(o, E->getExprLoc().isValid() ? E->getExprLoc() : E->getBeginLoc());
    o["t"] = ty(E->getType());
    // integer constant?
    if (!E->isValueDependent() && !E->isTypeDependent() && E->getType()->isIntegralOrEnumerationType() && !isa<IntegerLiteral>(E) && !isa<CXXBoolLiteralExpr>(E)) {
      Expr::EvalResult R;
      if (!isa<CallExpr>(E) && !isa<BinaryOperator>(E) ? false : false) {}
      if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects) && R.Val.isInt()) {
        auto v = R.Val.getInt();
        if (v.isRepresentableByInt64()) o["cv"] = (int64_t) v.getExtValue();
      }
    }
    if (auto *X1 = dyn_cast<IntegerLiteral>(E)) { o["k"] = "lit"; o["lt"] = "int"; o["v"] = (int64_t) X1->getValue().getLimitedValue(); return std::move(o); }
    if (auto *X1 = dyn_cast<CXXBoolLiteralExpr>(E)) { o["k"] = "lit"; o["lt"] = "bool"; o["v"] = X1->getValue(); return std::move(o); }
    if (auto *X1 = dyn_cast<CharacterLiteral>(E)) { o["k"] = "lit"; o["lt"] = "char"; o["v"] = (int64_t) X1->getValue(); return std::move(o); }
    if (auto *X1 = dyn_cast<FloatingLiteral>(E)) { o["k"] = "lit"; o["lt"] = "float"; o["v"] = X1->getValueAsApproximateDouble(); return std::move(o); }
    if (auto *X1 = dyn_cast<clang::StringLiteral>(E)) { o["k"] = "lit"; o["lt"] = "str"; o["v"] = X1->getCharByteWidth() == 1 ? llvm::json::fixUTF8(X1->getString()) : std::string("<wide>"); return std::move(o); }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { o["k"] = "lit"; o["lt"] = "null"; o["v"] = nullptr; return std::move(o); }
    if (isa<CXXThisExpr>(E)) { o["k"] = "this"; return std::move(o); }
    if (auto *X1 = dyn_cast<ImplicitCastExpr>(E)) { o["k"] = "tobool"; o["e"] = X(X1->getSubExpr()); return std::move(o); }
    if (auto *X1 = dyn_cast<ExplicitCastExpr>(E)) {
      auto *Sub = X1->getSubExpr();
      o["k"] = "cast"; o["ck"] = X1->getCastKindName(); o["e"] = X(Sub);
      o["cc"] = X1->getStmtClassName();
      return std::move(o);
    }
    if (auto *X1 = dyn_cast<DeclRefExpr>(E)) {
      auto *D = X1->getDecl();
      if (auto *F = dyn_cast<FunctionDecl>(D)) { o["k"] = "fref"; o["fn"] = fn(F); return std::move(o); }
      if (auto *B = dyn_cast<BindingDecl>(D)) {
        o["k"] = "ref"; o["d"] = decl(D);
        if (auto *HV = B->getHoldingVar()) { o["d"] = decl(HV); }
        else if (B->getBinding()) return X(B->getBinding());
        return std::move(o);
      }
      o["k"] = "ref"; o["d"] = decl(D);
      return std::move(o);
    }
    if (auto *X1 = dyn_cast<MemberExpr>(E)) {
      auto *D = X1->getMemberDecl();
      if (auto *F = dyn_cast<FunctionDecl>(D)) { o["k"] = "mref"; o["fn"] = fn(F); o["b"] = X(X1->getBase()); o["arrow"] = X1->isArrow(); return std::move(o); }
      if (auto *V = dyn_cast<VarDecl>(D)) { o["k"] = "ref"; o["d"] = decl(V); return std::move(o); }
      o["k"] = "mem"; o["d"] = decl(D); o["arrow"] = X1->isArrow(); o["b"] = X(X1->getBase());
      return std::move(o);
    }
    if (auto *X1 = dyn_cast<CXXOperatorCallExpr>(E)) {
      o["k"] = "call"; o["op"] = getOperatorSpelling(X1->getOperator());
      auto *F = X1->getDirectCallee();
      unsigned st = 0;
      if (F) {
        o["fn"] = fn(F);
        if (auto *M = dyn_cast<CXXMethodDecl>(F); M && !M->isStatic()) { o["obj"] = X(X1->getArg(0)); st = 1; }
      }
      js::Array a; for (unsigned i = st; i < X1->getNumArgs(); i++) a.push_back(X(X1->getArg(i)));
      o["args"] = std::move(a);
      return std::move(o);
    }
    if (auto *X1 = dyn_cast<CXXMemberCallExpr>(E)) {
      o["k"] = "call";
      if (auto *M = X1->getMethodDecl()) o["fn"] = fn(M);
      auto *Cal = X1->getCallee()->IgnoreParens();
      if (auto *ME = dyn_cast<MemberExpr>(Cal)) { o["obj"] = X(ME->getBase()); o["arrow"] = ME->isArrow();
        if (ME->hasQualifier()) o["qual"] = true; }
      else { o["callee"] = X(Cal); }
      js::Array a; for (auto *A : X1->arguments()) a.push_back(X(A)); o["args"] = std::move(a);
      return std::move(o);
    }
    if (auto *X1 = dyn_cast<CallExpr>(E)) {
      o["k"] = "call";
      if (auto *F = X1->getDirectCallee()) o["fn"] = fn(F); else o["callee"] = X(X1->getCallee());
      js::Array a; for (auto *A : X1->arguments()) a.push_back(X(A)); o["args"] = std::move(a);
      return std::move(o);
    }
    if (auto *X1 = dyn_cast<CXXConstructExpr>(E)) {
      o["k"] = "ctor"; o["fn"] = fn(X1->getConstructor());
      js::Array a; for (auto *A : X1->arguments()) a.push_back(X(A)); o["args"] = std::move(a);
      if (X1->isElidable()) o["elide"] = true;
      if (X1->requiresZeroInitialization()) o["zi"] = true;
      if (isa<CXXTemporaryObjectExpr>(X1)) o["tmp"] = true;
      return std::move(o);
    }
    if (auto *X1 = dyn_cast<CXXInheritedCtorInitExpr>(E)) { o["k"] = "ctor"; o["fn"] = fn(X1->getConstructor()); o["args"] = js::Array{}; return std::move(o); }
    if (auto *X1 = dyn_cast<CXXNewExpr>(E)) {
      o["k"] = "new"; o["nt"] = ty(X1->getAllocatedType()); o["array"] = X1->isArray();
      if (X1->isArray() && X1->getArraySize()) o["n"] = X(*X1->getArraySize());
      js::Array pl; for (auto *A : X1->placement_arguments()) pl.push_back(X(A)); o["pl"] = std::move(pl);
      o["e"] = X(X1->getInitializer()); return std::move(o);
    }
    if (auto *X1 = dyn_cast<CXXDeleteExpr>(E)) { o["k"] = "del"; o["array"] = X1->isArrayForm(); o["e"] = X(X1->getArgument());
      QualType dt = X1->getDestroyedType(); if (!dt.isNull()) o["dt"] = ty(dt); return std::move(o); }
    if (auto *X1 = dyn_cast<UnaryOperator>(E)) { o["k"] = "un"; o["op"] = UnaryOperator::getOpcodeStr(X1->getOpcode()); o["post"] = X1->isPostfix(); o["e"] = X(X1->getSubExpr()); return std::move(o); }
    if (auto *X1 = dyn_cast<BinaryOperator>(E)) {
      if (X1->isAssignmentOp()) { o["k"] = "asg"; } else o["k"] = "bin";
      o["op"] = X1->getOpcodeStr(); o["a"] = X(X1->getLHS()); o["b"] = X(X1->getRHS()); return std::move(o);
    }
    if (auto *X1 = dyn_cast<AbstractConditionalOperator>(E)) { o["k"] = "cond"; o["c"] = X(X1->getCond()); o["a"] = X(X1->getTrueExpr()); o["b"] = X(X1->getFalseExpr()); return std::move(o); }
    if (auto *X1 = dyn_cast<OpaqueValueExpr>(E)) { if (X1->getSourceExpr()) return X(X1->getSourceExpr()); }
    if (auto *X1 = dyn_cast<ArraySubscriptExpr>(E)) { o["k"] = "idx"; o["a"] = X(X1->getBase()); o["b"] = X(X1->getIdx()); return std::move(o); }
    if (auto *X1 = dyn_cast<CXXThrowExpr>(E)) { o["k"] = "throw"; o["e"] = X(X1->getSubExpr()); if (X1->getSubExpr()) o["tt"] = ty(X1->getSubExpr()->getType()); return std::move(o); }
    if (auto *X1 = dyn_cast<LambdaExpr>(E)) {
      o["k"] = "lambda";
      CXXMethodDecl *CO = X1->getCallOperator();
      if (auto *FT = CO->getDescribedFunctionTemplate())   // generic lambda: its (first) instantiation
        for (auto *S : FT->specializations())
          if (S->hasBody()) { CO = cast<CXXMethodDecl>(S); break; }
      o["fn"] = fn(CO); o["cls"] = cls(X1->getLambdaClass());
      js::Array caps; auto I = X1->capture_init_begin();
      // fields of the closure in capture order
      auto FI = X1->getLambdaClass()->field_begin();
      for (auto &cap : X1->captures()) {
        js::Object co;
        if (cap.capturesThis()) co["k"] = cap.getCaptureKind() == LCK_StarThis ? "starthis" : "this";
        else if (cap.capturesVariable()) { co["k"] = cap.getCaptureKind() == LCK_ByRef ? "ref" : "copy"; co["d"] = decl(cast<ValueDecl>(cap.getCapturedVar())); }
        else co["k"] = "vla";
        co["imp"] = cap.isImplicit();
        co["init"] = X(*I); ++I; if (FI != X1->getLambdaClass()->field_end()) ++FI;
        caps.push_back(std::move(co));
      }
      o["caps"] = std::move(caps); return std::move(o);
    }
    if (auto *X1 = dyn_cast<InitListExpr>(E)) { o["k"] = "init"; js::Array a; 
      if (X1->getType()->isRecordType()) { js::Array fs; if (auto *R = X1->getType()->getAsCXXRecordDecl()) for (auto *f : R->fields()) fs.push_back(decl(f)); o["fields"] = std::move(fs); 
        if (auto *R = X1->getType()->getAsCXXRecordDecl()) o["nb"] = (int) R->getNumBases(); }
      for (auto *A : X1->inits()) a.push_back(X(A)); o["es"] = std::move(a); return std::move(o); }
    if (auto *X1 = dyn_cast<CXXStdInitializerListExpr>(E)) { return X(X1->getSubExpr()); }
    if (auto *X1 = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) { o["k"] = "sizeof"; 
      if (X1->getKind() == UETT_SizeOf) { if (X1->isArgumentType()) o["of"] = ty(X1->getArgumentType()); else o["e"] = X(X1->getArgumentExpr()); } return std::move(o); }
    if (auto *X1 = dyn_cast<CXXTypeidExpr>(E)) { o["k"] = "typeid"; if (X1->isTypeOperand()) o["of"] = ty(X1->getTypeOperand(C)); else o["e"] = X(X1->getExprOperand()); return std::move(o); }
    if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) { o["k"] = "zero"; return std::move(o); }
    if (auto *X1 = dyn_cast<CXXNoexceptExpr>(E)) { o["k"] = "lit"; o["lt"] = "bool"; o["v"] = X1->getValue(); return std::move(o); }
    if (auto *X1 = dyn_cast<TypeTraitExpr>(E)) { o["k"] = "lit"; o["lt"] = "bool"; o["v"] = X1->isValueDependent() ? false : X1->getValue(); return std::move(o); }
    if (auto *X1 = dyn_cast<StmtExpr>(E)) { o["k"] = "stmtexpr"; o["s"] = S(X1->getSubStmt()); return std::move(o); }
    if (auto *X1 = dyn_cast<PredefinedExpr>(E)) { o["k"] = "lit"; o["lt"] = "str"; o["v"] = X1->getFunctionName() ? llvm::json::fixUTF8(X1->getFunctionName()->getString()) : std::string(""); return std::move(o); }
    if (auto *X1 = dyn_cast<SourceLocExpr>(E)) { o["k"] = "lit"; o["lt"] = "str"; o["v"] = ""; (void) X1; return std::move(o); }
    if (auto *X1 = dyn_cast<CXXFoldExpr>(E)) { (void) X1; }
    o["k"] = "other"; o["cn"] = E->getStmtClassName();
    js::Array ch; for (auto *K : E->children()) if (K) { if (auto *KE = dyn_cast<Expr>(K)) ch.push_back(X(KE)); }
    o["ch"] = std::move(ch);
    return std::move(o);
  }

  js::Value VD(const VarDecl *V) {
    js::Object o; o["k"] = "var"; o["d"] = decl(V); loc(o, V->getLocation());
    if (V->getInit()) { o["init"] = X(V->getInit()); if (V->getInitStyle() != VarDecl::CInit) o["dinit"] = true; }
    if (V->isStaticLocal()) o["static"] = true;
    if (auto *R = V->getType()->getAsCXXRecordDecl(); R && !V->getType()->isReferenceType()) if (R->hasDefinition() && !R->hasTrivialDestructor()) if (auto *D = R->getDestructor()) o["dtor"] = fn(D);
    return std::move(o);
  }
  // ---------------------------------------------------------------- stmts
  js::Value S(const Stmt *St) {
    if (!St) return nullptr;
    js::Object o; loc(o, St->getBeginLoc());
    if (auto *X1 = dyn_cast<CompoundStmt>(St)) { o["k"] = "seq"; js::Array a; for (auto *B : X1->body()) a.push_back(S(B)); o["s"] = std::move(a); o["le"] = lineOf(X1->getRBracLoc()); return std::move(o); }
    if (auto *X1 = dyn_cast<DeclStmt>(St)) {
      o["k"] = "decl"; js::Array a;
      for (auto *D : X1->decls()) {
        if (auto *DD = dyn_cast<DecompositionDecl>(D)) {
          a.push_back(VD(DD));
          for (auto *B : DD->bindings()) if (auto *HV = B->getHoldingVar()) a.push_back(VD(HV));
        } else if (auto *V = dyn_cast<VarDecl>(D)) a.push_back(VD(V));
      }
      o["vars"] = std::move(a); return std::move(o);
    }
    if (auto *X1 = dyn_cast<IfStmt>(St)) {
      if (X1->isConstexpr() && !X1->getCond()->isValueDependent()) {
        Expr::EvalResult R; if (X1->getCond()->EvaluateAsInt(R, C)) {
          bool v = R.Val.getInt().getBoolValue();
          js::Array a; if (X1->getInit()) a.push_back(S(X1->getInit())); a.push_back(v ? S(X1->getThen()) : S(X1->getElse()));
          o["k"] = "seq"; o["s"] = std::move(a); return std::move(o);
        }
      }
      o["k"] = "if"; o["init"] = S(X1->getInit()); if (X1->getConditionVariable()) o["cv"] = VD(X1->getConditionVariable()); o["c"] = X(X1->getCond()); o["then"] = S(X1->getThen()); o["else"] = S(X1->getElse()); return std::move(o);
    }
    if (auto *X1 = dyn_cast<WhileStmt>(St)) { o["k"] = "while"; if (X1->getConditionVariable()) o["cv"] = VD(X1->getConditionVariable()); o["c"] = X(X1->getCond()); o["b"] = S(X1->getBody()); return std::move(o); }
    if (auto *X1 = dyn_cast<DoStmt>(St)) { o["k"] = "do"; o["c"] = X(X1->getCond()); o["b"] = S(X1->getBody()); return std::move(o); }
    if (auto *X1 = dyn_cast<ForStmt>(St)) { o["k"] = "for"; o["init"] = S(X1->getInit()); if (X1->getConditionVariable()) o["cv"] = VD(X1->getConditionVariable()); o["c"] = X(X1->getCond()); o["inc"] = X(X1->getInc()); o["b"] = S(X1->getBody()); return std::move(o); }
    if (auto *X1 = dyn_cast<CXXForRangeStmt>(St)) { o["k"] = "rfor"; o["init"] = S(X1->getInit()); o["v"] = VD(X1->getLoopVariable()); o["r"] = X(X1->getRangeInit()); o["b"] = S(X1->getBody());
      js::Array hv; if (auto *DD = dyn_cast<DecompositionDecl>(X1->getLoopVariable())) for (auto *B : DD->bindings()) if (auto *HV = B->getHoldingVar()) hv.push_back(VD(HV));
      o["hv"] = std::move(hv); return std::move(o); }
    if (auto *X1 = dyn_cast<SwitchStmt>(St)) { o["k"] = "switch"; o["init"] = S(X1->getInit()); if (X1->getConditionVariable()) o["cv"] = VD(X1->getConditionVariable()); o["c"] = X(X1->getCond()); o["b"] = S(X1->getBody()); return std::move(o); }
    if (auto *X1 = dyn_cast<CaseStmt>(St)) { o["k"] = "case"; o["v"] = X(X1->getLHS()); if (X1->getRHS()) o["v2"] = X(X1->getRHS()); o["b"] = S(X1->getSubStmt()); return std::move(o); }
    if (auto *X1 = dyn_cast<DefaultStmt>(St)) { o["k"] = "default"; o["b"] = S(X1->getSubStmt()); return std::move(o); }
    if (isa<BreakStmt>(St)) { o["k"] = "break"; return std::move(o); }
    if (isa<ContinueStmt>(St)) { o["k"] = "continue"; return std::move(o); }
    if (auto *X1 = dyn_cast<ReturnStmt>(St)) { o["k"] = "return"; o["e"] = X(X1->getRetValue()); return std::move(o); }
    if (auto *X1 = dyn_cast<GotoStmt>(St)) { o["k"] = "goto"; o["n"] = X1->getLabel()->getNameAsString(); return std::move(o); }
    if (auto *X1 = dyn_cast<LabelStmt>(St)) { o["k"] = "label"; o["n"] = X1->getDecl()->getNameAsString(); o["b"] = S(X1->getSubStmt()); return std::move(o); }
    if (auto *X1 = dyn_cast<CXXTryStmt>(St)) {
      o["k"] = "try"; o["b"] = S(X1->getTryBlock()); js::Array hs;
      for (unsigned i = 0; i < X1->getNumHandlers(); i++) {
        auto *H = X1->getHandler(i); js::Object h; loc(h, H->getBeginLoc());
        if (H->getExceptionDecl()) { h["d"] = decl(H->getExceptionDecl()); }
        if (!H->getCaughtType().isNull()) h["t"] = ty(H->getCaughtType());
        h["b"] = S(H->getHandlerBlock()); hs.push_back(std::move(h));
      }
      o["h"] = std::move(hs); return std::move(o);
    }
    if (auto *X1 = dyn_cast<AttributedStmt>(St)) return S(X1->getSubStmt());
    if (isa<NullStmt>(St)) { o["k"] = "null"; return std::move(o); }
    if (auto *X1 = dyn_cast<Expr>(St)) { o["k"] = "expr"; o["e"] = X(X1); return std::move(o); }
    o["k"] = "ostmt"; o["cn"] = St->getStmtClassName();
    js::Array ch; for (auto *K : St->children()) ch.push_back(S(K)); o["ch"] = std::move(ch);
    return std::move(o);
  }

  js::Object F(const FunctionDecl *FD) {
    js::Object o; o["qn"] = qn(FD); o["n"] = FD->getNameAsString(); o["l"] = lineOf(FD->getLocation()); o["fl"] = fid(FD->getLocation());
    o["le"] = lineOf(FD->getEndLoc());
    o["rt"] = ty(FD->getReturnType());
    js::Array ps; for (auto *P : FD->parameters()) ps.push_back(decl(P)); o["ps"] = std::move(ps);
    bool repo = inRoots(FD); o["repo"] = repo;
    if (FD->isVariadic()) o["vararg"] = true;
    if (auto *FPT = FD->getType()->getAs<FunctionProtoType>()) {
      bool ne = false;
      auto est = FPT->getExceptionSpecType();
      if (est == EST_Unevaluated) { if (isa<CXXDestructorDecl>(FD)) ne = true; }
      else if (!isUnresolvedExceptionSpec(est) && !FPT->hasDependentExceptionSpec()) ne = FPT->isNothrow();
      if (ne) o["noex"] = true;
    }
    if (auto *M = dyn_cast<CXXMethodDecl>(FD)) {
      o["cls"] = cls(M->getParent());
      if (M->isStatic()) o["static"] = true;
      if (M->isConst()) o["const"] = true;
      if (M->isVirtual()) o["virt"] = true;
      if (M->isCopyAssignmentOperator()) o["asg"] = "copy";
      if (M->isMoveAssignmentOperator()) o["asg"] = "move";
      if (M->getParent()->isLambda() && M->getOverloadedOperator() == OO_Call) o["lam"] = true;
      js::Array ov; for (auto *OM : M->overridden_methods()) ov.push_back(fn(OM)); if (!ov.empty()) o["over"] = std::move(ov);
      switch (M->getAccess()) { case AS_public: o["acc"] = "public"; break; case AS_private: o["acc"] = "private"; break; case AS_protected: o["acc"] = "protected"; break; default: break; }
      if (M->getRefQualifier() == RQ_RValue) o["rval"] = true;
    }
    if (auto *K = dyn_cast<CXXConstructorDecl>(FD)) { o["kind"] = "ctor"; if (K->isCopyConstructor()) o["cc"] = "copy"; if (K->isMoveConstructor()) o["cc"] = "move"; if (K->isDefaultConstructor()) o["cc"] = "default"; if (K->isExplicit()) o["explicit"]=true; }
    else if (isa<CXXDestructorDecl>(FD)) o["kind"] = "dtor";
    else if (isa<CXXConversionDecl>(FD)) o["kind"] = "conv";
    if (FD->isDeleted()) o["deleted"] = true;
    if (FD->isDefaulted()) o["defaulted"] = true;
    if (FD->isImplicit()) o["implicit"] = true;
    if (FD->isPureVirtual()) o["pure"] = true;
    if (FD->isNoReturn() ) o["noret"] = true;
    if (auto *TA = FD->getTemplateSpecializationArgs()) {
      js::Array a; for (auto &A : TA->asArray()) targ(A, a); o["ta"] = std::move(a);
    }
    if (auto *P = FD->getTemplateInstantiationPattern()) { o["pat"] = files[fid(P->getLocation())] + ":" + std::to_string(lineOf(P->getLocation())); }
    if (FD->getOverloadedOperator() != OO_None) o["op"] = getOperatorSpelling(FD->getOverloadedOperator());
    if (FD->isMain()) o["main"] = true;
    if ((!repo && qn(FD).compare(0, 8, "drv::cop") != 0) || FD->isDependentContext()) return o;
    const FunctionDecl *Def = nullptr;
    if (FD->hasBody(Def) && Def && Def->getBody()) {
      o["body"] = S(Def->getBody());
      o["def"] = true;
      if (auto *K = dyn_cast<CXXConstructorDecl>(Def)) {
        js::Array in;
        for (auto *I : K->inits()) {
          js::Object io; io["w"] = I->isWritten(); io["l"] = lineOf(I->getSourceLocation());
          if (I->isAnyMemberInitializer() && I->getAnyMember()) io["f"] = decl(I->getAnyMember());
          else if (I->isBaseInitializer()) { io["base"] = ty(QualType(I->getBaseClass(), 0)); }
          else if (I->isDelegatingInitializer()) io["deleg"] = true;
          if (I->getInit() && isa<CXXDefaultInitExpr>(I->getInit())) io["dmi"] = true;
          io["e"] = X(I->getInit()); in.push_back(std::move(io));
        }
        o["inits"] = std::move(in);
      }
    }
    return o;
  }
  void targ(const TemplateArgument &A, js::Array &a) {
    switch (A.getKind()) {
      case TemplateArgument::Type: a.push_back(js::Object{{"t", ty(A.getAsType())}}); break;
      case TemplateArgument::Integral: a.push_back(js::Object{{"i", i64(A.getAsIntegral())}}); break;
      case TemplateArgument::Pack: for (auto &B : A.getPackAsArray()) targ(B, a); break;
      default: a.push_back(nullptr);
    }
  }
  js::Object CL(const CXXRecordDecl *R) {
    // an explicit instantiation is located where it is requested; the class is where its pattern is
    const CXXRecordDecl *Pat = R->getTemplateInstantiationPattern(); bool Ours = inRoots(Pat ? Pat : R);
    auto Loc = (Pat ? Pat : R)->getLocation();
    js::Object o; o["qn"] = qn(R); o["l"] = lineOf(Loc); o["fl"] = fid(Loc); o["repo"] = Ours;
    if (R->isLambda()) o["lambda"] = true;
    if (R->isUnion()) o["union"] = true;
    if (auto *TS = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
      js::Array a; for (auto &A : TS->getTemplateArgs().asArray()) targ(A, a); o["ta"] = std::move(a);
      if (auto *P = R->getTemplateInstantiationPattern()) o["pat"] = files[fid(P->getLocation())] + ":" + std::to_string(lineOf(P->getLocation()));
    }
    if (!R->hasDefinition() ) return o;
    o["complete"] = true;
    js::Array bs; for (auto &B : R->bases()) { if (auto *BR = B.getType()->getAsCXXRecordDecl()) bs.push_back(cls(BR)); } o["bases"] = std::move(bs);
    if (!R->isDependentType()) { o["trivdtor"] = R->hasTrivialDestructor(); if (!R->hasTrivialDestructor()) if (auto *D = R->getDestructor()) o["dtor"] = fn(D);
      o["trivcopy"] = R->isTriviallyCopyable(); o["agg"] = R->isAggregate(); }
    o["polymorphic"] = R->isPolymorphic();
    if (Ours) {
      js::Array fs; for (auto *f : R->fields()) { js::Object fo; fo["d"] = decl(f); fo["dmi"] = f->hasInClassInitializer(); fo["l"] = lineOf(f->getLocation()); if (f->isBitField()) fo["bit"]=true; if (f->isAnonymousStructOrUnion()) fo["anon"]=true; fs.push_back(std::move(fo)); } o["fields"] = std::move(fs);
      js::Array sf; for (auto *D : R->decls()) if (auto *V = dyn_cast<VarDecl>(D)) sf.push_back(decl(V)); o["sfields"] = std::move(sf);
      js::Array ms; for (auto *m : R->methods()) ms.push_back(fn(m)); o["methods"] = std::move(ms);
      o["userdtor"] = R->hasUserDeclaredDestructor();
      o["simplecopy"] = R->hasSimpleCopyConstructor(); o["usercc"] = R->hasUserDeclaredCopyConstructor(); o["userca"] = R->hasUserDeclaredCopyAssignment(); o["usermc"] = R->hasUserDeclaredMoveConstructor(); o["userma"] = R->hasUserDeclaredMoveAssignment();
    }
    return o;
  }
};

struct Finder : RecursiveASTVisitor<Finder> {
  Exporter &E;
  std::vector<const FunctionDecl*> found; 
  std::set<const FunctionDecl*> seen;
  std::vector<const EnumDecl*> enums;
  std::vector<const VarDecl*> gvars;
  std::set<std::string> patterns; // function patterns written in the roots, "file:line"
  explicit Finder(Exporter &e) : E(e) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool shouldVisitLambdaBody() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!E.inRoots(F) && E.qn(F).compare(0, 8, "drv::cop") != 0) return true;
    if (!F->doesThisDeclarationHaveABody()) return true;
    if (!F->isImplicit() && !(isa<CXXMethodDecl>(F) && cast<CXXMethodDecl>(F)->getParent()->isLambda())) {
      const FunctionDecl *P = F->getTemplateInstantiationPattern(); const FunctionDecl *Q = P ? P : F;
      patterns.insert(E.fileOf(Q->getLocation()) + ":" + std::to_string(E.lineOf(Q->getLocation())) + ":" + E.qn(Q));
    }
    if (F->isDependentContext()) return true;
    if (seen.insert(F).second) found.push_back(F);
    return true;
  }
  bool VisitEnumDecl(EnumDecl *D) { if (E.inRoots(D) && D->isCompleteDefinition() && !D->isDependentContext()) enums.push_back(D); return true; }
  bool VisitVarDecl(VarDecl *V) { if (E.inRoots(V) && V->hasGlobalStorage() && !V->isTemplated()) gvars.push_back(V); return true; }
};

struct Consumer : ASTConsumer {
  std::string out; CompilerInstance &CI;
  Consumer(std::string o, CompilerInstance &ci) : out(std::move(o)), CI(ci) {}
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Exporter E(C); Finder Fi(E);
    Fi.TraverseDecl(C.getTranslationUnitDecl());
    for (auto *F : Fi.found) E.fn(F);
    js::Array ens;
    for (auto *D : Fi.enums) { js::Object o; o["qn"] = E.qn(D); o["l"] = E.lineOf(D->getLocation()); o["fl"] = E.fid(D->getLocation()); js::Array a; for (auto *c : D->enumerators()) a.push_back(js::Object{{"n", c->getNameAsString()}, {"v", i64(c->getInitVal())}}); o["c"] = std::move(a); ens.push_back(std::move(o)); }
    js::Array gv; for (auto *V : Fi.gvars) gv.push_back(E.decl(V));
    js::Array fns, cls;
    size_t fi = 0, ci = 0, pi = 0; js::Object inits;
    while (fi < E.fnList.size() || ci < E.clsList.size() || pi < E.pendingInits.size()) {
      if (fi < E.fnList.size()) { fns.push_back(E.F(E.fnList[fi])); fi++; }
      else if (ci < E.clsList.size()) { cls.push_back(E.CL(E.clsList[ci])); ci++; }
      else { auto p = E.pendingInits[pi++]; inits[std::to_string(p.id)] = E.X(p.E); }
    }
    js::Array ds; for (auto &d : E.decls) ds.push_back(std::move(d));
    js::Array ts; for (auto &t : E.types) ts.push_back(std::move(t));
    js::Array fl; for (auto &f : E.files) fl.push_back(f);
    js::Array pat; for (auto &p : Fi.patterns) pat.push_back(p);
    js::Object top; top["functions"] = std::move(fns); top["classes"] = std::move(cls); top["decls"] = std::move(ds); top["types"] = std::move(ts); top["files"] = std::move(fl); top["enums"] = std::move(ens); top["patterns"] = std::move(pat); top["gvars"] = std::move(gv); top["ginits"] = std::move(inits);
    std::error_code ec; llvm::raw_fd_ostream os(out, ec);
    os << js::Value(std::move(top));
  }
};
struct Action : ASTFrontendAction {
  std::string out; Action(std::string o) : out(std::move(o)) {}
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override { return std::make_unique<Consumer>(out, CI); }
};
struct Factory : tooling::FrontendActionFactory {
  std::string out; Factory(std::string o) : out(std::move(o)) {}
  std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(out); }
};
} // namespace

// usage: astx OUT.json SOURCE -r ROOT [-r ROOT] -- clang args
int main(int argc, char **argv) {
  if (argc < 3) return 2;
  std::string out = argv[1], src = argv[2]; std::vector<std::string> args; int i = 3;
  for (; i < argc; i++) { std::string a = argv[i]; if (a == "-r" && i + 1 < argc) { Roots.push_back(argv[++i]); continue; } if (a == "--") { i++; break; } }
  for (; i < argc; i++) args.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", args);
  tooling::ClangTool T(DB, {src});
  return T.run(new Factory(out));
}
