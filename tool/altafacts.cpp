// altafacts: dumps the type-checked AST of every function defined under a
// given source root as compact JSON, one file per translation unit.  It only
// exports facts; every rule is decided by the Python analyses reading them.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/ExprOpenMP.h"
#include "clang/AST/OpenMPClause.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace clang;
using namespace clang::tooling;
using namespace llvm;
namespace js = llvm::json;

static cl::OptionCategory Cat("altafacts");
static cl::opt<std::string> Root("root", cl::cat(Cat), cl::init("/repo"));
static cl::opt<std::string> Out("out", cl::cat(Cat), cl::Required);

namespace {
struct Dumper {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<std::string, int> typeIdx;
  js::Array types;
  std::map<const Decl *, int> ids;
  js::Object funcs, records, enums, globals;
  std::set<std::string> doneRec;

  Dumper(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
  }

  int id(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = ids.find(D);
    if (it != ids.end()) return it->second;
    int n = ids.size() + 1;
    ids[D] = n;
    return n;
  }
  std::string usr(const Decl *D) {
    SmallString<128> b;
    if (auto *FD = dyn_cast<FunctionDecl>(D)) D = FD->getCanonicalDecl();
    if (index::generateUSRForDecl(D, b)) return "?";
    return std::string(b.str());
  }
  std::string locFile(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    PresumedLoc P = SM.getPresumedLoc(L);
    if (P.isInvalid()) return "";
    std::string f = P.getFilename();
    SmallString<256> s(f);
    llvm::sys::path::remove_dots(s, true);
    return std::string(s.str());
  }
  std::string locStr(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    PresumedLoc P = SM.getPresumedLoc(L);
    if (P.isInvalid()) return "";
    std::string f = locFile(L);
    if (f.rfind(Root, 0) == 0) f = f.substr(Root.size() + 1);
    return f + ":" + std::to_string(P.getLine()) + ":" + std::to_string(P.getColumn());
  }
  bool inRoot(SourceLocation L) {
    std::string f = locFile(L);
    return f.rfind(Root + "/", 0) == 0 && f.find("/external/pybind11") == std::string::npos
       && f.find("/external/Catch") == std::string::npos;
  }
  int type(QualType T) {
    if (T.isNull()) return -1;
    QualType R = T.getCanonicalType();
    bool isRef = R->isReferenceType();
    if (isRef) R = R->getPointeeType();
    bool isConst = R.isConstQualified();
    R = R.getUnqualifiedType();
    std::string s = R.getAsString(PP);
    std::string key = s + (isRef ? "&" : "") + (isConst ? " const" : "");
    auto it = typeIdx.find(key);
    if (it != typeIdx.end()) return it->second;
    int n = typeIdx.size();
    typeIdx[key] = n;
    types.push_back(nullptr);
    js::Object o;
    o["s"] = s;
    if (isRef) o["ref"] = true;
    if (isConst) o["const"] = true;
    const clang::Type *P = R.getTypePtr();
    if (P->isBooleanType()) o["c"] = "bool";
    else if (P->isEnumeralType()) { o["c"] = "enum"; o["e"] = P->getAs<EnumType>()->getDecl()->getQualifiedNameAsString(); }
    else if (P->isIntegerType()) { o["c"] = "int"; o["w"] = (int64_t)C.getTypeSize(R); o["u"] = P->isUnsignedIntegerType(); }
    else if (P->isRealFloatingType()) { o["c"] = "float"; o["w"] = (int64_t)C.getTypeSize(R); }
    else if (P->isPointerType()) { o["c"] = "ptr"; o["p"] = type(P->getPointeeType()); }
    else if (P->isArrayType()) {
      o["c"] = "arr";
      if (auto *CA = dyn_cast<ConstantArrayType>(P)) o["n"] = (int64_t)CA->getSize().getZExtValue();
      o["p"] = type(cast<clang::ArrayType>(P)->getElementType());
    } else if (P->isRecordType()) {
      auto *RD = P->getAsCXXRecordDecl();
      o["c"] = "rec";
      if (RD) {
        o["r"] = RD->getQualifiedNameAsString();
        if (RD->getDefinition()) RD = RD->getDefinition();
        record(RD);
        if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(RD)) {
          js::Array a;
          for (auto &A : S->getTemplateArgs().asArray()) targ(A, a);
          o["a"] = std::move(a);
        }
        if (RD->hasDefinition() && RD->getDefinition()->isPolymorphic()) o["poly"] = true;
      }
    } else if (P->isVoidType()) o["c"] = "void";
    else if (P->isFunctionType()) o["c"] = "fn";
    else o["c"] = "other";
    types[n] = std::move(o);
    return n;
  }
  void targ(const TemplateArgument &A, js::Array &a) {
    if (A.getKind() == TemplateArgument::Type) { js::Object x; x["t"] = type(A.getAsType()); a.push_back(std::move(x)); }
    else if (A.getKind() == TemplateArgument::Integral) { js::Object x; x["i"] = A.getAsIntegral().getExtValue(); a.push_back(std::move(x)); }
    else if (A.getKind() == TemplateArgument::Pack) { for (auto &B : A.pack_elements()) targ(B, a); }
    else a.push_back(nullptr);
  }

  void record(const CXXRecordDecl *RD) {
    if (!RD || !RD->hasDefinition()) return;
    RD = RD->getDefinition();
    if (!inRoot(RD->getLocation())) return;
    if (RD->isDependentContext()) return;
    std::string q = RD->getQualifiedNameAsString();
    std::string key = usr(RD);
    if (!doneRec.insert(key).second) return;
    js::Object o;
    o["n"] = q;
    o["l"] = locStr(RD->getLocation());
    js::Array b, f, m;
    for (auto &B : RD->bases()) {
      js::Object bo;
      auto *D = B.getType()->getAsCXXRecordDecl();
      if (D) { bo["n"] = D->getQualifiedNameAsString(); bo["u"] = usr(D); record(D); }
      bo["t"] = type(B.getType());
      b.push_back(std::move(bo));
    }
    for (auto *F : RD->fields()) {
      js::Object fo;
      fo["n"] = F->getNameAsString();
      fo["t"] = type(F->getType());
      fo["d"] = id(F);
      fo["l"] = locStr(F->getLocation());
      if (F->hasInClassInitializer() && F->getInClassInitializer()) fo["init"] = expr(F->getInClassInitializer());
      f.push_back(std::move(fo));
    }
    for (auto *D : RD->decls())
      if (auto *V = dyn_cast<VarDecl>(D)) global(V);
    for (auto *M : RD->methods()) {
      js::Object mo;
      mo["n"] = M->getNameAsString();
      mo["u"] = usr(M);
      if (M->isVirtual()) mo["v"] = true;
      if (M->isPureVirtual()) mo["pure"] = true;
      if (M->isDeleted()) mo["del"] = true;
      if (M->isDefaulted()) mo["def"] = true;
      if (M->isImplicit()) mo["impl"] = true;
      if (M->isConst()) mo["const"] = true;
      if (isa<CXXConstructorDecl>(M)) mo["ctor"] = true;
      if (isa<CXXDestructorDecl>(M)) mo["dtor"] = true;
      mo["rt"] = type(M->getReturnType());
      js::Array ps; for (auto *P : M->parameters()) ps.push_back(type(P->getType()));
      mo["p"] = std::move(ps);
      js::Array ov;
      for (auto *O : M->overridden_methods()) ov.push_back(usr(O));
      if (!ov.empty()) mo["ov"] = std::move(ov);
      mo["acc"] = (int)M->getAccess();
      mo["l"] = locStr(M->getLocation());
      m.push_back(std::move(mo));
    }
    o["b"] = std::move(b); o["f"] = std::move(f); o["m"] = std::move(m);
    if (RD->isPolymorphic()) o["poly"] = true;
    if (RD->isAbstract()) o["abs"] = true;
    records[key] = std::move(o);
  }
  void global(const VarDecl *V) {
    if (!V->hasGlobalStorage()) return;
    if (!inRoot(V->getLocation())) return;
    if (V->getDeclContext()->isDependentContext()) return;
    const VarDecl *D = V->getDefinition(C);
    if (!D) D = V;
    std::string key = std::to_string(id(V));
    if (globals.get(key) != nullptr) return;
    js::Object o;
    o["n"] = V->getQualifiedNameAsString();
    o["t"] = type(V->getType());
    o["l"] = locStr(D->getLocation());
    o["loc"] = V->isStaticLocal();
    o["ext"] = V->isExternallyVisible();
    if (V->getTLSKind() != VarDecl::TLS_None) o["tls"] = true;
    globals[key] = js::Object(o);
    const Expr *I = D->getAnyInitializer();
    if (I && !I->isValueDependent()) { o["init"] = expr(I); globals[key] = std::move(o); }
  }

  js::Object fref(const FunctionDecl *F) {
    js::Object o;
    o["n"] = F->getNameAsString();
    o["q"] = F->getQualifiedNameAsString();
    o["u"] = usr(F);
    if (F->isOverloadedOperator()) o["op"] = getOperatorSpelling(F->getOverloadedOperator());
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["r"] = M->getParent()->getQualifiedNameAsString();
      if (M->isVirtual()) o["v"] = true;
      if (M->isStatic()) o["st"] = true;
      if (M->isConst()) o["const"] = true;
      if (isa<CXXConversionDecl>(M)) o["conv"] = true;
      if (auto *CC = dyn_cast<CXXConstructorDecl>(M)) {
        o["ctor"] = true;
        if (CC->isCopyOrMoveConstructor()) o["copy"] = true;
        if (CC->isDefaultConstructor()) o["dflt"] = true;
        if (CC->isDefaulted()) o["def"] = true;
      }
    }
    js::Array ps; for (auto *P : F->parameters()) ps.push_back(type(P->getType()));
    o["p"] = std::move(ps);
    o["rt"] = type(F->getReturnType());
    if (F->isVariadic()) o["va"] = true;
    if (F->isNoReturn()) o["nr"] = true;
    if (inRoot(F->getLocation())) o["in"] = true;
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      js::Array a; for (auto &A : TA->asArray()) targ(A, a);
      o["ta"] = std::move(a);
    }
    return o;
  }

  js::Value N(const Stmt *S, const char *k, js::Object o) {
    o["k"] = k;
    o["l"] = locStr(S->getBeginLoc());
    if (auto *E = dyn_cast<Expr>(S)) { o["t"] = type(E->getType()); if (E->isGLValue()) o["lv"] = true; }
    return js::Value(std::move(o));
  }
  js::Value args(ArrayRef<const Expr *> A, unsigned from = 0) {
    js::Array a;
    for (unsigned i = from; i < A.size(); ++i) a.push_back(expr(A[i]));
    return js::Value(std::move(a));
  }

  js::Value expr(const Expr *E) {
    if (!E) return nullptr;
    switch (E->getStmtClass()) {
    case Stmt::ParenExprClass: return expr(cast<ParenExpr>(E)->getSubExpr());
    case Stmt::ExprWithCleanupsClass: return expr(cast<ExprWithCleanups>(E)->getSubExpr());
    case Stmt::ConstantExprClass: return expr(cast<ConstantExpr>(E)->getSubExpr());
    case Stmt::CXXBindTemporaryExprClass: return expr(cast<CXXBindTemporaryExpr>(E)->getSubExpr());
    case Stmt::SubstNonTypeTemplateParmExprClass: return expr(cast<SubstNonTypeTemplateParmExpr>(E)->getReplacement());
    case Stmt::MaterializeTemporaryExprClass: { js::Object o; o["e"] = expr(cast<MaterializeTemporaryExpr>(E)->getSubExpr()); return N(E, "mat", std::move(o)); }
    case Stmt::CXXDefaultArgExprClass: { js::Object o; o["e"] = expr(cast<CXXDefaultArgExpr>(E)->getExpr()); return N(E, "defarg", std::move(o)); }
    case Stmt::CXXDefaultInitExprClass: return expr(cast<CXXDefaultInitExpr>(E)->getExpr());
    case Stmt::CXXRewrittenBinaryOperatorClass: return expr(cast<CXXRewrittenBinaryOperator>(E)->getSemanticForm());
    case Stmt::GenericSelectionExprClass: return expr(cast<GenericSelectionExpr>(E)->getResultExpr());
    case Stmt::OpaqueValueExprClass: return expr(cast<OpaqueValueExpr>(E)->getSourceExpr());
    default: break;
    }
    js::Object o;
    if (auto *L = dyn_cast<IntegerLiteral>(E)) { SmallString<32> s; L->getValue().toString(s, 10, L->getType()->isSignedIntegerType()); o["v"] = std::string(s.str()); return N(E, "int", std::move(o)); }
    if (auto *L = dyn_cast<CharacterLiteral>(E)) { o["v"] = std::to_string(L->getValue()); return N(E, "int", std::move(o)); }
    if (auto *L = dyn_cast<CXXBoolLiteralExpr>(E)) { o["v"] = L->getValue(); return N(E, "bool", std::move(o)); }
    if (auto *L = dyn_cast<FloatingLiteral>(E)) {
      bool lossy; APFloat v = L->getValue(); v.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &lossy);
      char b[64]; snprintf(b, 64, "%.17g", v.convertToDouble()); o["v"] = std::string(b); return N(E, "flt", std::move(o)); }
    if (auto *L = dyn_cast<clang::StringLiteral>(E)) { std::string s = L->getCharByteWidth()==1 ? L->getBytes().str() : std::string("<wide>"); if (!js::isUTF8(s)) s = js::fixUTF8(s); o["v"] = s; return N(E, "str", std::move(o)); }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return N(E, "null", std::move(o));
    if (isa<PredefinedExpr>(E)) { o["v"] = "<func>"; return N(E, "str", std::move(o)); }
    if (auto *R = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *D = R->getDecl();
      o["n"] = D->getNameAsString();
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        if (auto *ED = dyn_cast<EnumDecl>(EC->getDeclContext())) {
          std::string en = ED->getQualifiedNameAsString();
          if (auto *TD = ED->getTypedefNameForAnonDecl()) en = TD->getQualifiedNameAsString();
          if (!enums.get(en)) {
            js::Array a; for (auto *c : ED->enumerators()) { js::Object x; x["n"] = c->getNameAsString(); x["v"] = c->getInitVal().getExtValue(); a.push_back(std::move(x)); }
            enums[en] = std::move(a);
          }
        }
        o["v"] = EC->getInitVal().getExtValue(); o["q"] = EC->getQualifiedNameAsString(); return N(E, "enumc", std::move(o)); }
      if (auto *F = dyn_cast<FunctionDecl>(D)) { o["f"] = fref(F); need(F); return N(E, "fn", std::move(o)); }
      o["d"] = id(D);
      if (auto *V = dyn_cast<VarDecl>(D)) {
        if (V->hasGlobalStorage()) { o["g"] = V->getQualifiedNameAsString(); global(V); }
        if (isa<ParmVarDecl>(V)) o["pm"] = true;
        if (R->refersToEnclosingVariableOrCapture()) o["cap"] = true;
      }
      if (isa<BindingDecl>(D)) o["bind"] = true;
      return N(E, "ref", std::move(o));
    }
    if (auto *M = dyn_cast<MemberExpr>(E)) {
      o["b"] = expr(M->getBase()); o["n"] = M->getMemberDecl()->getNameAsString(); if (M->isArrow()) o["arrow"] = true;
      if (auto *FD = dyn_cast<FieldDecl>(M->getMemberDecl())) { o["d"] = id(FD); o["r"] = FD->getParent()->getQualifiedNameAsString(); }
      else if (auto *VD = dyn_cast<VarDecl>(M->getMemberDecl())) { o["d"] = id(VD); o["g"] = VD->getQualifiedNameAsString(); global(VD); }
      else if (auto *MD = dyn_cast<CXXMethodDecl>(M->getMemberDecl())) { o["f"] = fref(MD); need(MD); }
      return N(E, "mem", std::move(o));
    }
    if (isa<CXXThisExpr>(E)) return N(E, "this", std::move(o));
    if (auto *U = dyn_cast<UnaryOperator>(E)) { o["op"] = (U->isPostfix() ? "p" : "") + UnaryOperator::getOpcodeStr(U->getOpcode()).str(); o["e"] = expr(U->getSubExpr()); return N(E, "un", std::move(o)); }
    if (auto *B = dyn_cast<BinaryOperator>(E)) {
      o["op"] = BinaryOperator::getOpcodeStr(B->getOpcode()).str(); o["a"] = expr(B->getLHS()); o["b"] = expr(B->getRHS());
      if (auto *CA = dyn_cast<CompoundAssignOperator>(E)) { o["ct"] = type(CA->getComputationResultType()); o["clt"] = type(CA->getComputationLHSType()); return N(E, "casg", std::move(o)); }
      return N(E, B->isAssignmentOp() ? "asg" : "bin", std::move(o));
    }
    if (auto *Q = dyn_cast<AbstractConditionalOperator>(E)) { o["c"] = expr(Q->getCond()); o["a"] = expr(Q->getTrueExpr()); o["b"] = expr(Q->getFalseExpr()); return N(E, "cond", std::move(o)); }
    if (auto *A = dyn_cast<ArraySubscriptExpr>(E)) { o["a"] = expr(A->getBase()); o["i"] = expr(A->getIdx()); return N(E, "idx", std::move(o)); }
    if (auto *K = dyn_cast<CXXOperatorCallExpr>(E)) {
      if (auto *F = K->getDirectCallee()) { o["f"] = fref(F); need(F); 
        unsigned from = 0;
        if (auto *MD = dyn_cast<CXXMethodDecl>(F)) if (!MD->isStatic()) { o["o"] = expr(K->getArg(0)); from = 1; }
        js::Array a; for (unsigned i = from; i < K->getNumArgs(); ++i) a.push_back(expr(K->getArg(i)));
        o["a"] = std::move(a);
        o["opl"] = locStr(K->getOperatorLoc());
        return N(E, "call", std::move(o)); }
    }
    if (auto *K = dyn_cast<CXXMemberCallExpr>(E)) {
      if (auto *MD = K->getMethodDecl()) {
        o["f"] = fref(MD); need(MD);
        const Expr *IO = K->getImplicitObjectArgument();
        o["o"] = expr(IO);
        auto *ME = dyn_cast<MemberExpr>(K->getCallee()->IgnoreParens());
        if (ME && ME->isArrow()) o["arrow"] = true;
        if (ME && ME->hasQualifier()) o["qual"] = true;
        js::Array a; for (unsigned i = 0; i < K->getNumArgs(); ++i) a.push_back(expr(K->getArg(i)));
        o["a"] = std::move(a);
        return N(E, "call", std::move(o));
      }
    }
    if (auto *K = dyn_cast<CallExpr>(E)) {
      if (auto *F = K->getDirectCallee()) { o["f"] = fref(F); need(F); }
      else o["ce"] = expr(K->getCallee());
      js::Array a; for (unsigned i = 0; i < K->getNumArgs(); ++i) a.push_back(expr(K->getArg(i)));
      o["a"] = std::move(a);
      return N(E, "call", std::move(o));
    }
    if (auto *K = dyn_cast<CXXConstructExpr>(E)) {
      o["f"] = fref(K->getConstructor()); need(K->getConstructor());
      if (K->isElidable()) o["el"] = true;
      if (K->isListInitialization()) o["li"] = true;
      if (K->isStdInitListInitialization()) o["sil"] = true;
      if (K->requiresZeroInitialization()) o["zi"] = true;
      js::Array a; for (unsigned i = 0; i < K->getNumArgs(); ++i) a.push_back(expr(K->getArg(i)));
      o["a"] = std::move(a);
      return N(E, "ctor", std::move(o));
    }
    if (auto *K = dyn_cast<CXXInheritedCtorInitExpr>(E)) { o["f"] = fref(K->getConstructor()); o["a"] = js::Array(); return N(E, "ctor", std::move(o)); }
    if (auto *K = dyn_cast<CXXNewExpr>(E)) {
      o["at"] = type(K->getAllocatedType()); if (K->isArray()) { o["arr"] = true; if (K->getArraySize()) o["n"] = expr(*K->getArraySize()); }
      if (K->getInitializer()) o["init"] = expr(K->getInitializer());
      return N(E, "new", std::move(o));
    }
    if (auto *K = dyn_cast<CXXDeleteExpr>(E)) { o["e"] = expr(K->getArgument()); if (K->isArrayForm()) o["arr"] = true; return N(E, "del", std::move(o)); }
    if (auto *K = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      clang::Expr::EvalResult R; if (!K->isValueDependent() && K->EvaluateAsInt(R, C)) { o["v"] = std::to_string(R.Val.getInt().getExtValue()); if (K->isArgumentType()) o["st"] = type(K->getArgumentType()); else o["st"] = type(K->getArgumentExpr()->getType()); return N(E, "int", std::move(o)); }
    }
    if (auto *K = dyn_cast<CastExpr>(E)) {
      auto CK = K->getCastKind();
      if (CK == CK_LValueToRValue) { o["e"] = expr(K->getSubExpr()); return N(E, "ld", std::move(o)); }
      bool expl = isa<ExplicitCastExpr>(E);
      if (!expl && (CK == CK_NoOp || CK == CK_FunctionToPointerDecay || CK == CK_BuiltinFnToFnPtr)) return expr(K->getSubExpr());
      if (CK == CK_UserDefinedConversion || CK == CK_ConstructorConversion) return expr(K->getSubExpr());
      o["ck"] = K->getCastKindName(); o["e"] = expr(K->getSubExpr()); if (expl) o["ex"] = true;
      return N(E, "cast", std::move(o));
    }
    if (auto *K = dyn_cast<InitListExpr>(E)) {
      if (K->isSemanticForm() == false && K->getSemanticForm()) K = K->getSemanticForm();
      js::Array a; for (unsigned i = 0; i < K->getNumInits(); ++i) a.push_back(expr(K->getInit(i)));
      o["a"] = std::move(a);
      if (K->hasArrayFiller()) o["fill"] = expr(K->getArrayFiller());
      return N(E, "list", std::move(o));
    }
    if (auto *K = dyn_cast<CXXStdInitializerListExpr>(E)) { o["e"] = expr(K->getSubExpr()); return N(E, "sil", std::move(o)); }
    if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) return N(E, "zero", std::move(o));
    if (auto *K = dyn_cast<LambdaExpr>(E)) {
      js::Array cs;
      auto I = K->capture_init_begin();
      for (auto &cap : K->captures()) {
        js::Object c;
        if (cap.capturesThis()) c["this"] = true;
        else if (cap.capturesVariable()) { c["d"] = id(cap.getCapturedVar()); c["n"] = cap.getCapturedVar()->getNameAsString(); c["byref"] = cap.getCaptureKind() == LCK_ByRef; }
        if (*I) c["init"] = expr(*I);
        ++I;
        cs.push_back(std::move(c));
      }
      o["caps"] = std::move(cs);
      o["fn"] = fnBody(K->getCallOperator());
      return N(E, "lambda", std::move(o));
    }
    if (auto *K = dyn_cast<CXXThrowExpr>(E)) { if (K->getSubExpr()) o["e"] = expr(K->getSubExpr()); return N(E, "throw", std::move(o)); }
    if (auto *K = dyn_cast<StmtExpr>(E)) { o["s"] = stmt(K->getSubStmt()); return N(E, "stmtexpr", std::move(o)); }
    if (auto *K = dyn_cast<CXXPseudoDestructorExpr>(E)) { o["e"] = expr(K->getBase()); return N(E, "pdtor", std::move(o)); }
    o["cls"] = E->getStmtClassName();
    return N(E, "unk", std::move(o));
  }

  js::Value varDecl(const VarDecl *V) {
    js::Object o;
    o["d"] = id(V); o["n"] = V->getNameAsString(); o["t"] = type(V->getType()); o["l"] = locStr(V->getLocation());
    if (V->isStaticLocal()) { o["static"] = true; }
    if (V->hasGlobalStorage()) { global(V); o["glob"] = true; }
    if (auto *VA = dyn_cast<VariableArrayType>(V->getType().getTypePtr())) o["vla"] = expr(VA->getSizeExpr());
    if (V->getInit()) { o["init"] = expr(V->getInit()); }
    return js::Value(std::move(o));
  }

  js::Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    js::Object o;
    if (auto *E = dyn_cast<Expr>(S)) { o["e"] = expr(E); return N2(S, "expr", std::move(o)); }
    if (auto *X = dyn_cast<CompoundStmt>(S)) { js::Array a; for (auto *c : X->body()) a.push_back(stmt(c)); o["s"] = std::move(a); return N2(S, "block", std::move(o)); }
    if (auto *X = dyn_cast<DeclStmt>(S)) {
      js::Array a;
      for (auto *D : X->decls()) if (auto *V = dyn_cast<VarDecl>(D)) a.push_back(varDecl(V));
      o["v"] = std::move(a); return N2(S, "decl", std::move(o));
    }
    if (auto *X = dyn_cast<IfStmt>(S)) {
      if (X->getInit()) o["init"] = stmt(X->getInit());
      if (X->getConditionVariable()) o["cv"] = varDecl(X->getConditionVariable());
      o["c"] = expr(X->getCond()); o["a"] = stmt(X->getThen()); o["b"] = stmt(X->getElse()); return N2(S, "if", std::move(o));
    }
    if (auto *X = dyn_cast<ForStmt>(S)) {
      o["init"] = stmt(X->getInit()); if (X->getConditionVariable()) o["cv"] = varDecl(X->getConditionVariable());
      o["c"] = expr(X->getCond()); o["inc"] = expr(X->getInc()); o["b"] = stmt(X->getBody()); return N2(S, "for", std::move(o));
    }
    if (auto *X = dyn_cast<WhileStmt>(S)) { if (X->getConditionVariable()) o["cv"] = varDecl(X->getConditionVariable()); o["c"] = expr(X->getCond()); o["b"] = stmt(X->getBody()); return N2(S, "while", std::move(o)); }
    if (auto *X = dyn_cast<DoStmt>(S)) { o["c"] = expr(X->getCond()); o["b"] = stmt(X->getBody()); return N2(S, "do", std::move(o)); }
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      o["range"] = expr(X->getRangeInit()); o["v"] = varDecl(X->getLoopVariable()); o["b"] = stmt(X->getBody());
      return N2(S, "rfor", std::move(o));
    }
    if (auto *X = dyn_cast<SwitchStmt>(S)) { if (X->getConditionVariable()) o["cv"] = varDecl(X->getConditionVariable()); o["c"] = expr(X->getCond()); o["b"] = stmt(X->getBody()); return N2(S, "switch", std::move(o)); }
    if (auto *X = dyn_cast<CaseStmt>(S)) {
      clang::Expr::EvalResult R; if (X->getLHS()->EvaluateAsInt(R, C)) o["v"] = R.Val.getInt().getExtValue();
      if (X->getRHS() && X->getRHS()->EvaluateAsInt(R, C)) o["v2"] = R.Val.getInt().getExtValue();
      o["s"] = stmt(X->getSubStmt()); return N2(S, "case", std::move(o));
    }
    if (auto *X = dyn_cast<DefaultStmt>(S)) { o["s"] = stmt(X->getSubStmt()); return N2(S, "default", std::move(o)); }
    if (isa<BreakStmt>(S)) return N2(S, "break", std::move(o));
    if (isa<ContinueStmt>(S)) return N2(S, "continue", std::move(o));
    if (auto *X = dyn_cast<ReturnStmt>(S)) { if (X->getRetValue()) o["e"] = expr(X->getRetValue()); return N2(S, "return", std::move(o)); }
    if (isa<NullStmt>(S)) return N2(S, "null", std::move(o));
    if (auto *X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
    if (auto *X = dyn_cast<LabelStmt>(S)) { o["n"] = X->getName(); o["s"] = stmt(X->getSubStmt()); return N2(S, "label", std::move(o)); }
    if (auto *X = dyn_cast<GotoStmt>(S)) { o["n"] = X->getLabel()->getNameAsString(); return N2(S, "goto", std::move(o)); }
    if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      o["b"] = stmt(X->getTryBlock()); js::Array hs;
      for (unsigned i = 0; i < X->getNumHandlers(); ++i) { js::Object h; auto *H = X->getHandler(i); if (H->getExceptionDecl()) { h["v"] = varDecl(H->getExceptionDecl()); } h["b"] = stmt(H->getHandlerBlock()); h["l"] = locStr(H->getBeginLoc()); hs.push_back(std::move(h)); }
      o["h"] = std::move(hs); return N2(S, "try", std::move(o));
    }
    if (auto *X = dyn_cast<OMPExecutableDirective>(S)) {
      o["d"] = llvm::omp::getOpenMPDirectiveName(X->getDirectiveKind()).str();
      js::Array cls;
      for (auto *CL : X->clauses()) {
        if (!CL || CL->isImplicit()) continue;
        js::Object c; c["k"] = llvm::omp::getOpenMPClauseName(CL->getClauseKind()).str();
        js::Array vs;
        for (auto *ch : CL->children()) if (auto *e = dyn_cast_or_null<DeclRefExpr>(ch)) { js::Object v; v["d"] = id(e->getDecl()); v["n"] = e->getDecl()->getNameAsString(); vs.push_back(std::move(v)); }
        c["v"] = std::move(vs);
        cls.push_back(std::move(c));
      }
      o["cl"] = std::move(cls);
      if (auto *CD = dyn_cast<OMPCriticalDirective>(S)) o["name"] = CD->getDirectiveName().getAsString();
      if (X->hasAssociatedStmt()) {
        const Stmt *B = X->getAssociatedStmt();
        while (auto *CS = dyn_cast<CapturedStmt>(B)) B = CS->getCapturedStmt();
        o["b"] = stmt(B);
      }
      return N2(S, "omp", std::move(o));
    }
    if (auto *X = dyn_cast<CapturedStmt>(S)) return stmt(X->getCapturedStmt());
    o["cls"] = S->getStmtClassName();
    return N2(S, "unkstmt", std::move(o));
  }
  js::Value N2(const Stmt *S, const char *k, js::Object o) {
    o["k"] = k; o["l"] = locStr(S->getBeginLoc());
    return js::Value(std::move(o));
  }

  std::vector<const FunctionDecl *> pending;
  std::set<const FunctionDecl *> seen;
  void need(const FunctionDecl *F) {
    const FunctionDecl *D = nullptr;
    if (!F->hasBody(D) || !D) return;
    if (!inRoot(D->getLocation())) return;
    if (D->isDependentContext()) return;
    if (seen.insert(D).second) pending.push_back(D);
  }

  js::Object fnBody(const FunctionDecl *F) {
    js::Object o;
    o["n"] = F->getNameAsString();
    o["q"] = F->getQualifiedNameAsString();
    o["u"] = usr(F);
    o["l"] = locStr(F->getLocation());
    o["le"] = locStr(F->getEndLoc());
    o["rt"] = type(F->getReturnType());
    js::Array ps;
    for (auto *P : F->parameters()) { js::Object p; p["d"] = id(P); p["n"] = P->getNameAsString(); p["t"] = type(P->getType());
      if (P->hasDefaultArg() && !P->hasUnparsedDefaultArg() && !P->hasUninstantiatedDefaultArg()) p["dv"] = expr(P->getDefaultArg());
      ps.push_back(std::move(p)); }
    o["p"] = std::move(ps);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["r"] = M->getParent()->getQualifiedNameAsString(); o["ru"] = usr(M->getParent()); record(M->getParent());
      if (M->isVirtual()) o["v"] = true;
      if (M->isStatic()) o["st"] = true;
      if (M->isConst()) o["const"] = true;
    }
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
      js::Array in;
      for (auto *I : CD->inits()) {
        js::Object x;
        if (I->isBaseInitializer()) { x["base"] = type(QualType(I->getBaseClass(), 0)); }
        else if (I->isAnyMemberInitializer()) { x["field"] = I->getAnyMember()->getNameAsString(); x["d"] = id(I->getAnyMember()); }
        else if (I->isDelegatingInitializer()) x["deleg"] = true;
        if (I->isWritten()) x["w"] = true;
        x["l"] = locStr(I->getSourceLocation());
        x["e"] = expr(I->getInit());
        in.push_back(std::move(x));
      }
      o["inits"] = std::move(in);
      o["ctor"] = true;
    }
    if (isa<CXXDestructorDecl>(F)) o["dtor"] = true;
    if (F->isExternC()) o["C"] = true;
    if (F->isExternallyVisible()) o["ext"] = true;
    if (F->isDefaulted()) o["def"] = true;
    if (F->isImplicit()) o["impl"] = true;
    if (F->isTemplateInstantiation()) o["inst"] = true;
    o["b"] = stmt(F->getBody());
    return o;
  }
  void dumpAll() {
    while (!pending.empty()) {
      auto *F = pending.back(); pending.pop_back();
      std::string u = usr(F);
      funcs[u] = fnBody(F);
    }
  }
};

struct V : RecursiveASTVisitor<V> {
  Dumper &D;
  V(Dumper &D) : D(D) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isThisDeclarationADefinition() && !F->isDependentContext() && F->doesThisDeclarationHaveABody()) {
      if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;
      D.need(F);
    }
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) { if (R->isThisDeclarationADefinition() && !R->isLambda()) D.record(R); return true; }
  bool VisitVarDecl(VarDecl *X) { if (X->hasGlobalStorage()) D.global(X); return true; }
  bool VisitEnumDecl(EnumDecl *E) {
    if (!E->isThisDeclarationADefinition() || !D.inRoot(E->getLocation())) return true;
    js::Array a; for (auto *c : E->enumerators()) { js::Object x; x["n"] = c->getNameAsString(); x["v"] = c->getInitVal().getExtValue(); a.push_back(std::move(x)); }
    D.enums[E->getQualifiedNameAsString()] = std::move(a);
    return true;
  }
};

struct Consumer : ASTConsumer {
  std::string file;
  Consumer(std::string f) : file(f) {}
  void HandleTranslationUnit(ASTContext &C) override {
    Dumper D(C);
    V v(D);
    v.TraverseDecl(C.getTranslationUnitDecl());
    D.dumpAll();
    js::Object o;
    o["file"] = file;
    o["errors"] = (int64_t)C.getDiagnostics().hasErrorOccurred();
    o["funcs"] = std::move(D.funcs); o["records"] = std::move(D.records); o["enums"] = std::move(D.enums);
    o["globals"] = std::move(D.globals); o["types"] = std::move(D.types);
    std::error_code ec;
    raw_fd_ostream os(Out, ec);
    os << js::Value(std::move(o)) << "\n";
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef f) override { return std::make_unique<Consumer>(f.str()); }
};
} // namespace

int main(int argc, const char **argv) {
  auto P = CommonOptionsParser::create(argc, argv, Cat);
  if (!P) { llvm::errs() << P.takeError(); return 2; }
  ClangTool T(P->getCompilations(), P->getSourcePathList());
  return T.run(newFrontendActionFactory<Action>().get());
}
