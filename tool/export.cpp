// vjx: exports the resolved (post-instantiation) program of a translation unit
// as JSON: every function body whose definition lies under a given source
// root, with resolved callees, types, casts and constant values.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/RecordLayout.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/Mangle.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Index/USRGeneration.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <set>
#include <map>
#include <deque>

using namespace clang;
using llvm::json::Object;
using llvm::json::Array;
using llvm::json::Value;

static std::string gRoot;
static std::string gOut;

namespace {

class Exporter {
public:
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  Object functions, records, vars;
  std::map<const Decl*, int> ids;
  std::set<const FunctionDecl*> seen;
  std::deque<const FunctionDecl*> work;
  std::set<const CXXRecordDecl*> seenRec;
  int nextId = 1;
  std::map<std::string,int> unknown;

  explicit Exporter(ASTContext &Ctx) : C(Ctx), SM(Ctx.getSourceManager()), PP(Ctx.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
  }

  int id(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = ids.find(D);
    if (it != ids.end()) return it->second;
    return ids[D] = nextId++;
  }

  std::string loc(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid()) return "";
    PresumedLoc P = SM.getPresumedLoc(L);
    if (P.isInvalid()) return "";
    std::string f = P.getFilename();
    if (f.compare(0, gRoot.size(), gRoot) == 0) f = f.substr(gRoot.size());
    return f + ":" + std::to_string(P.getLine());
  }
  bool inRoot(const Decl *D) {
    SourceLocation L = SM.getExpansionLoc(D->getLocation());
    if (L.isInvalid()) return false;
    StringRef F = SM.getFilename(L);
    return F.starts_with(gRoot);
  }
  std::string ty(QualType T) {
    if (T.isNull()) return "?";
    return T.getCanonicalType().getAsString(PP);
  }
  // short class name, without template arguments
  std::string shortName(const Decl *D) {
    if (auto *ND = dyn_cast_or_null<NamedDecl>(D)) return ND->getNameAsString();
    return "";
  }
  std::string qn(const NamedDecl *D) {
    std::string s; llvm::raw_string_ostream os(s);
    // qualified name without template args
    PrintingPolicy P2 = PP;
    D->printQualifiedName(os, P2);
    return os.str();
  }

  std::string fid(const FunctionDecl *F) {
    return "f" + std::to_string(id(F));
  }

  bool nothrow(const FunctionDecl *F) {
    auto *P = F->getType()->getAs<FunctionProtoType>();
    if (!P) return false;
    if (isUnresolvedExceptionSpec(P->getExceptionSpecType()) || P->getExceptionSpecType() == EST_Unparsed) return isa<CXXDestructorDecl>(F);
    if (P->getExceptionSpecType() == EST_DependentNoexcept) return false;
    return P->isNothrow();
  }

  void want(const FunctionDecl *F) {
    if (!F) return;
    const FunctionDecl *Def = nullptr;
    if (!F->hasBody(Def) && !(F->isDefaulted())) return;
    if (!Def) Def = F;
    if (!inRoot(Def) ) return;
    if (Def->isDependentContext()) return;
    if (seen.insert(Def->getCanonicalDecl()).second) work.push_back(Def);
  }

  Object recRef(const CXXRecordDecl *R) {
    Object o;
    wantRec(R);
    o["n"] = R->getNameAsString();
    o["q"] = qn(R);
    o["t"] = ty(C.getRecordType(R));
    return o;
  }

  void wantRec(const CXXRecordDecl *R) {
    if (!R) return;
    R = R->getDefinition() ? R->getDefinition() : R;
    if (R->isDependentContext()) return;
    if (!R->hasDefinition()) return;
    if (!inRoot(R)) return;
    if (!seenRec.insert(R).second) return;
    Object o;
    o["n"] = R->getNameAsString();
    o["q"] = qn(R);
    o["loc"] = loc(R->getLocation());
    o["lambda"] = R->isLambda();
    o["abstract"] = R->isAbstract();
    o["size"] = (int64_t)C.getASTRecordLayout(R).getSize().getQuantity();
    o["copies"] = R->hasSimpleCopyConstructor();
    o["assigns"] = R->hasSimpleCopyAssignment();
    Array fl;
    for (auto *F : R->fields()) {
      Object f;
      f["n"] = F->getNameAsString();
      f["t"] = ty(F->getType());
      f["mut"] = F->isMutable();
      f["const"] = F->getType().isConstQualified();
      f["ref"] = F->getType()->isReferenceType();
      f["loc"] = loc(F->getLocation());
      if (F->hasInClassInitializer() && F->getInClassInitializer()) f["init"] = expr(F->getInClassInitializer());
      fl.push_back(std::move(f));
    }
    o["fields"] = std::move(fl);
    Array sv;
    for (auto *D : R->decls()) {
      if (auto *V = dyn_cast<VarDecl>(D)) {
        Object f; f["n"] = V->getNameAsString(); f["t"] = ty(V->getType());
        f["const"] = V->getType().isConstQualified(); f["loc"] = loc(V->getLocation());
        sv.push_back(std::move(f));
      }
    }
    o["statics"] = std::move(sv);
    Array bs;
    for (auto &B : R->bases()) {
      Object b; b["t"] = ty(B.getType());
      if (auto *BR = B.getType()->getAsCXXRecordDecl()) { b["n"] = BR->getNameAsString(); wantRec(BR); }
      bs.push_back(std::move(b));
    }
    o["bases"] = std::move(bs);
    Array ms;
    for (auto *M : R->methods()) {
      Object m;
      m["id"] = fid(M);
      m["n"] = M->getNameAsString();
      m["const"] = M->isConst();
      m["static"] = M->isStatic();
      m["virt"] = M->isVirtual();
      m["pure"] = M->isPureVirtual();
      m["access"] = (int)M->getAccess();
      m["deleted"] = M->isDeleted();
      m["defaulted"] = M->isDefaulted();
      m["ret"] = ty(M->getReturnType());
      Array ps; for (auto *P : M->parameters()) ps.push_back(ty(P->getType()));
      m["params"] = std::move(ps);
      Array ov;
      for (auto *O : M->overridden_methods()) ov.push_back(fid(O));
      m["ov"] = std::move(ov);
      if (isa<CXXDestructorDecl>(M)) m["kind"] = "dtor";
      else if (auto *CD = dyn_cast<CXXConstructorDecl>(M)) {
        m["kind"] = CD->isCopyConstructor() ? "copyctor" : CD->isMoveConstructor() ? "movector" : "ctor";
      } else m["kind"] = "method";
      m["loc"] = loc(M->getLocation());
      ms.push_back(std::move(m));
      want(M);
    }
    o["methods"] = std::move(ms);
    std::string key = ty(C.getRecordType(R));
    records[key] = std::move(o);
  }

  Value constVal(const Expr *E) {
    if (E->isValueDependent() || E->isTypeDependent()) return nullptr;
    QualType T = E->getType();
    if (!(T->isIntegralOrEnumerationType() || T->isRealFloatingType())) return nullptr;
    if (!E->isPRValue()) return nullptr;
    Expr::EvalResult R;
    if (!E->EvaluateAsRValue(R, C)) return nullptr;
    if (R.HasSideEffects) return nullptr;
    if (R.Val.isInt()) {
      if (T->isBooleanType()) return Value(R.Val.getInt().getBoolValue());
      llvm::SmallString<32> s; R.Val.getInt().toString(s, 10);
      Object o; o["i"] = std::string(s); return Value(std::move(o));
    }
    if (R.Val.isFloat()) {
      llvm::SmallString<32> s; R.Val.getFloat().toString(s);
      Object o; o["f"] = std::string(s); return Value(std::move(o));
    }
    return nullptr;
  }

  Object callee(const FunctionDecl *F) {
    Object o;
    want(F);
    o["id"] = fid(F);
    o["n"] = F->getNameAsString();
    o["q"] = qn(F);
    o["root"] = inRoot(F);
    o["ret"] = ty(F->getReturnType());
    o["noreturn"] = F->isNoReturn();
    o["noexcept"] = nothrow(F);
    Array ps; for (auto *P : F->parameters()) ps.push_back(ty(P->getType()));
    o["params"] = std::move(ps);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = M->getParent()->getNameAsString();
      o["clst"] = ty(C.getRecordType(M->getParent()));
      o["const"] = M->isConst();
      o["static"] = M->isStatic();
      o["virt"] = M->isVirtual();
      wantRec(M->getParent());
    }
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      Array ta;
      for (auto &A : TA->asArray()) {
        std::string s; llvm::raw_string_ostream os(s);
        A.print(PP, os, true);
        ta.push_back(os.str());
      }
      o["targs"] = std::move(ta);
    }
    return o;
  }

  Array args(llvm::iterator_range<CallExpr::const_arg_iterator> R) {
    Array a; for (const Expr *E : R) a.push_back(expr(E)); return a;
  }

  Value expr(const Expr *E) {
    if (!E) return nullptr;
    if (auto *P = dyn_cast<ParenExpr>(E)) return expr(P->getSubExpr());
    if (auto *P = dyn_cast<ExprWithCleanups>(E)) return expr(P->getSubExpr());
    if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(P->getSubExpr());
    if (auto *P = dyn_cast<ConstantExpr>(E)) return expr(P->getSubExpr());
    if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(P->getReplacement());
    if (auto *P = dyn_cast<CXXDefaultArgExpr>(E)) return expr(P->getExpr());
    if (auto *P = dyn_cast<CXXDefaultInitExpr>(E)) return expr(P->getExpr());
    if (auto *P = dyn_cast<CXXStdInitializerListExpr>(E)) {
      Object o; o["k"] = "stdinit"; o["e"] = expr(P->getSubExpr()); o["t"] = ty(E->getType()); return o;
    }
    Object o;
    o["t"] = ty(E->getType());
    if (!isa<InitListExpr>(E) && !isa<LambdaExpr>(E)) {
      Value cv = constVal(E);
      if (cv.kind() != Value::Null) o["cv"] = std::move(cv);
    }
    if (auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) {
      o["k"] = "mat"; o["e"] = expr(P->getSubExpr()); o["l"] = loc(E->getExprLoc()); return o;
    }
    o["l"] = loc(E->getExprLoc());
    if (auto *P = dyn_cast<IntegerLiteral>(E)) { o["k"] = "int"; llvm::SmallString<32> s; P->getValue().toString(s, 10, P->getType()->isSignedIntegerType()); o["v"] = std::string(s); }
    else if (auto *P = dyn_cast<CharacterLiteral>(E)) { o["k"] = "int"; o["v"] = std::to_string(P->getValue()); }
    else if (auto *P = dyn_cast<CXXBoolLiteralExpr>(E)) { o["k"] = "bool"; o["v"] = P->getValue(); }
    else if (auto *P = dyn_cast<FloatingLiteral>(E)) { o["k"] = "float"; llvm::SmallString<32> s; P->getValue().toString(s); o["v"] = std::string(s); }
    else if (auto *P = dyn_cast<clang::StringLiteral>(E)) { o["k"] = "str"; o["v"] = P->getCharByteWidth()==1 ? P->getString().str() : std::string("?"); 
        if (!llvm::json::isUTF8(P->getCharByteWidth()==1 ? P->getString() : StringRef(""))) o["v"] = llvm::json::fixUTF8(P->getString()); }
    else if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { o["k"] = "null"; }
    else if (auto *P = dyn_cast<PredefinedExpr>(E)) { o["k"] = "str"; o["v"] = "__func__"; (void)P; }
    else if (auto *P = dyn_cast<DeclRefExpr>(E)) {
      o["k"] = "ref";
      const ValueDecl *D = P->getDecl();
      o["d"] = id(D); o["n"] = D->getNameAsString();
      if (auto *F = dyn_cast<FunctionDecl>(D)) { o["dk"] = "func"; o["callee"] = callee(F); }
      else if (isa<ParmVarDecl>(D)) o["dk"] = "param";
      else if (auto *V = dyn_cast<VarDecl>(D)) {
        o["dk"] = V->isLocalVarDecl() ? (V->isStaticLocal() ? "static" : "var") : "global";
        if (!V->isLocalVarDecl()) noteVar(V);
        if (V->isLocalVarDecl() && V->isStaticLocal()) noteVar(V);
        o["vt"] = ty(V->getType());
        o["q"] = qn(V);
      } else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        o["dk"] = "enum"; llvm::SmallString<32> s; EC->getInitVal().toString(s, 10); o["v"] = std::string(s); o["q"] = qn(EC);
      } else if (auto *B = dyn_cast<BindingDecl>(D)) { o["dk"] = "binding"; o["b"] = expr(B->getBinding()); }
      else o["dk"] = "other";
      o["refty"] = D->getType()->isReferenceType();
    }
    else if (isa<CXXThisExpr>(E)) { o["k"] = "this"; }
    else if (auto *P = dyn_cast<MemberExpr>(E)) {
      const ValueDecl *D = P->getMemberDecl();
      if (auto *M = dyn_cast<CXXMethodDecl>(D)) {
        o["k"] = "bound"; o["base"] = expr(P->getBase()); o["arrow"] = P->isArrow(); o["callee"] = callee(M);
      } else if (auto *V = dyn_cast<VarDecl>(D)) {
        o["k"] = "ref"; o["d"] = id(V); o["n"] = V->getNameAsString(); o["dk"] = "global"; o["vt"] = ty(V->getType()); o["q"] = qn(V); noteVar(V);
      } else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        o["k"] = "ref"; o["d"] = id(EC); o["n"] = EC->getNameAsString(); o["dk"] = "enum"; llvm::SmallString<32> s; EC->getInitVal().toString(s, 10); o["v"] = std::string(s); o["q"] = qn(EC);
      } else {
        o["k"] = "mem"; o["base"] = expr(P->getBase()); o["arrow"] = P->isArrow(); o["n"] = D->getNameAsString();
        o["refty"] = D->getType()->isReferenceType();
        if (auto *FD = dyn_cast<FieldDecl>(D)) { o["cls"] = FD->getParent()->getNameAsString(); o["mut"] = FD->isMutable(); }
      }
    }
    else if (auto *P = dyn_cast<CXXOperatorCallExpr>(E)) {
      o["k"] = "opcall"; o["op"] = getOperatorSpelling(P->getOperator());
      if (auto *F = P->getDirectCallee()) { o["callee"] = callee(F); }
      else o["fn"] = expr(P->getCallee());
      o["args"] = args(P->arguments());
    }
    else if (auto *P = dyn_cast<CXXMemberCallExpr>(E)) {
      o["k"] = "mcall";
      if (auto *M = P->getMethodDecl()) {
        o["callee"] = callee(M);
        const Expr *CE = P->getCallee()->IgnoreParens();
        if (auto *ME = dyn_cast<MemberExpr>(CE)) {
          o["obj"] = expr(ME->getBase()); o["arrow"] = ME->isArrow();
          o["qualified"] = ME->hasQualifier();
        }
      } else o["fn"] = expr(P->getCallee());
      o["args"] = args(P->arguments());
    }
    else if (auto *P = dyn_cast<CallExpr>(E)) {
      o["k"] = "call";
      if (auto *F = P->getDirectCallee()) o["callee"] = callee(F);
      else o["fn"] = expr(P->getCallee());
      o["args"] = args(P->arguments());
    }
    else if (auto *P = dyn_cast<CXXConstructExpr>(E)) {
      const CXXConstructorDecl *CD = P->getConstructor();
      o["k"] = "ctor"; o["callee"] = callee(CD);
      o["copy"] = CD->isCopyConstructor(); o["move"] = CD->isMoveConstructor();
      o["elide"] = P->isElidable();
      o["zero"] = P->requiresZeroInitialization();
      o["cls"] = CD->getParent()->getNameAsString();
      o["list"] = P->isListInitialization();
      wantRec(CD->getParent());
      Array a; for (const Expr *A : P->arguments()) a.push_back(expr(A)); o["args"] = std::move(a);
    }
    else if (auto *P = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
      o["k"] = "ctor"; o["callee"] = callee(P->getConstructor()); o["cls"] = P->getConstructor()->getParent()->getNameAsString(); o["args"] = Array(); o["inherited"] = true;
    }
    else if (auto *P = dyn_cast<CXXScalarValueInitExpr>(E)) { o["k"] = "zero"; (void)P; }
    else if (isa<ImplicitValueInitExpr>(E)) { o["k"] = "zero"; }
    else if (auto *P = dyn_cast<UnaryOperator>(E)) { o["k"] = "un"; o["op"] = UnaryOperator::getOpcodeStr(P->getOpcode()).str(); o["post"] = P->isPostfix(); o["e"] = expr(P->getSubExpr()); }
    else if (auto *P = dyn_cast<CompoundAssignOperator>(E)) { o["k"] = "asgop"; o["op"] = BinaryOperator::getOpcodeStr(BinaryOperator::getOpForCompoundAssignment(P->getOpcode())).str(); o["a"] = expr(P->getLHS()); o["b"] = expr(P->getRHS()); }
    else if (auto *P = dyn_cast<BinaryOperator>(E)) {
      o["k"] = P->getOpcode() == BO_Assign ? "asg" : "bin"; o["op"] = P->getOpcodeStr().str(); o["a"] = expr(P->getLHS()); o["b"] = expr(P->getRHS());
    }
    else if (auto *P = dyn_cast<ConditionalOperator>(E)) { o["k"] = "cond"; o["c"] = expr(P->getCond()); o["a"] = expr(P->getTrueExpr()); o["b"] = expr(P->getFalseExpr()); }
    else if (auto *P = dyn_cast<CastExpr>(E)) {
      o["k"] = "cast"; o["ck"] = P->getCastKindName(); o["e"] = expr(P->getSubExpr());
      o["from"] = ty(P->getSubExpr()->getType());
      o["impl"] = isa<ImplicitCastExpr>(P);
      if (auto *EC = dyn_cast<ExplicitCastExpr>(P)) { o["style"] = isa<CXXConstCastExpr>(EC) ? "const" : isa<CXXReinterpretCastExpr>(EC) ? "reinterpret" : isa<CXXDynamicCastExpr>(EC) ? "dynamic" : isa<CStyleCastExpr>(EC) ? "c" : isa<CXXStaticCastExpr>(EC) ? "static" : "func"; }
    }
    else if (auto *P = dyn_cast<CXXNewExpr>(E)) {
      o["k"] = "new"; o["at"] = ty(P->getAllocatedType()); o["array"] = P->isArray();
      Array pl; for (unsigned i = 0; i < P->getNumPlacementArgs(); i++) pl.push_back(expr(P->getPlacementArg(i))); o["place"] = std::move(pl);
      if (P->getInitializer()) o["init"] = expr(P->getInitializer());
    }
    else if (auto *P = dyn_cast<CXXDeleteExpr>(E)) { o["k"] = "delete"; o["e"] = expr(P->getArgument()); o["array"] = P->isArrayForm(); }
    else if (auto *P = dyn_cast<CXXThrowExpr>(E)) { o["k"] = "throw"; o["e"] = P->getSubExpr() ? expr(P->getSubExpr()) : Value(nullptr); }
    else if (auto *P = dyn_cast<LambdaExpr>(E)) {
      o["k"] = "lambda"; o["callee"] = callee(P->getCallOperator());
      // force generic lambdas' instantiations via use sites
      Array caps;
      auto CI = P->capture_init_begin();
      for (auto &Cap : P->captures()) {
        Object c;
        c["this"] = Cap.capturesThis();
        c["byref"] = Cap.getCaptureKind() == LCK_ByRef || Cap.getCaptureKind() == LCK_This;
        if (Cap.capturesVariable()) { c["d"] = id(Cap.getCapturedVar()); c["n"] = Cap.getCapturedVar()->getNameAsString(); }
        c["init"] = expr(*CI);
        caps.push_back(std::move(c)); ++CI;
      }
      o["caps"] = std::move(caps);
      wantRec(P->getLambdaClass());
    }
    else if (auto *P = dyn_cast<InitListExpr>(E)) {
      if (P->isSemanticForm() == false && P->getSemanticForm()) P = P->getSemanticForm();
      o["k"] = "init"; Array a; for (unsigned i = 0; i < P->getNumInits(); i++) a.push_back(expr(P->getInit(i))); o["args"] = std::move(a);
      if (auto *R = E->getType()->getAsCXXRecordDecl()) {
        Array f; for (auto &B : R->bases()) { (void)B; f.push_back("<base>"); }
        for (auto *F : R->fields()) f.push_back(F->getNameAsString()); o["fields"] = std::move(f);
      }
    }
    else if (auto *P = dyn_cast<ArraySubscriptExpr>(E)) { o["k"] = "index"; o["a"] = expr(P->getBase()); o["b"] = expr(P->getIdx()); }
    else if (auto *P = dyn_cast<CXXTypeidExpr>(E)) { o["k"] = "typeid"; o["of"] = P->isTypeOperand() ? ty(P->getTypeOperand(C)) : std::string("expr"); if (!P->isTypeOperand()) o["e"] = expr(P->getExprOperand()); }
    else if (auto *P = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) { o["k"] = "sizeof"; o["of"] = P->isArgumentType() ? ty(P->getArgumentType()) : std::string("expr"); }
    else if (auto *P = dyn_cast<CXXNoexceptExpr>(E)) { o["k"] = "bool"; o["v"] = P->getValue(); }
    else if (auto *P = dyn_cast<TypeTraitExpr>(E)) { o["k"] = "bool"; o["v"] = P->getValue(); }
    else if (auto *P = dyn_cast<BinaryConditionalOperator>(E)) { o["k"] = "unsupported"; o["why"] = "BinaryConditional"; (void)P; }
    else if (auto *P = dyn_cast<OpaqueValueExpr>(E)) { if (P->getSourceExpr()) return expr(P->getSourceExpr()); o["k"]="unsupported"; o["why"]="OpaqueValue"; }
    else if (auto *P = dyn_cast<CXXRewrittenBinaryOperator>(E)) { return expr(P->getSemanticForm()); }
    else if (auto *P = dyn_cast<CXXPseudoDestructorExpr>(E)) { o["k"] = "pseudodtor"; (void)P; }
    else if (auto *P = dyn_cast<ArrayInitLoopExpr>(E)) { o["k"] = "copyarr"; o["e"] = expr(P->getCommonExpr()); }
    else if (auto *P = dyn_cast<CXXFoldExpr>(E)) { o["k"] = "unsupported"; o["why"]="Fold"; (void)P; }
    else { o["k"] = "unsupported"; o["why"] = E->getStmtClassName(); unknown[E->getStmtClassName()]++; }
    return o;
  }

  void noteVar(const VarDecl *V) {
    std::string key = "v" + std::to_string(id(V));
    if (vars.find(key) != vars.end()) return;
    Object o; o["n"] = V->getNameAsString(); o["q"] = qn(V); o["t"] = ty(V->getType());
    o["const"] = V->getType().isConstQualified() || V->isConstexpr();
    o["static_local"] = V->isStaticLocal(); o["loc"] = loc(V->getLocation()); o["root"] = inRoot(V);
    o["tls"] = V->getTLSKind() != VarDecl::TLS_None;
    vars[key] = Value(nullptr);
    const VarDecl *Def = V->getDefinition();
    if (Def == nullptr) Def = V->getInitializingDeclaration();
    if (Def && Def->hasInit() && inRoot(V) && !Def->getInit()->isTypeDependent()) o["init"] = expr(Def->getInit());
    vars[key] = std::move(o);
  }

  Value varDecl(const VarDecl *V) {
    Object o; o["id"] = id(V); o["n"] = V->getNameAsString(); o["t"] = ty(V->getType());
    o["static"] = V->isStaticLocal(); o["ref"] = V->getType()->isReferenceType(); o["l"] = loc(V->getLocation());
    o["const"] = V->getType().isConstQualified();
    if (V->isStaticLocal()) noteVar(V);
    if (V->hasInit()) o["init"] = expr(V->getInit());
    if (auto *R = V->getType()->getAsCXXRecordDecl()) { o["cls"] = R->getNameAsString(); wantRec(R); }
    if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
      Array bs; for (auto *B : DD->bindings()) { Object b; b["id"] = id(B); b["n"] = B->getNameAsString(); b["e"] = expr(B->getBinding());
        if (auto *HV = B->getHoldingVar()) { b["hv"] = varDecl(HV); }
        bs.push_back(std::move(b)); }
      o["bindings"] = std::move(bs);
    }
    return o;
  }

  Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    Object o;
    if (auto *E = dyn_cast<Expr>(S)) { o["k"] = "expr"; o["l"] = loc(E->getBeginLoc()); o["e"] = expr(E); return o; }
    o["l"] = loc(S->getBeginLoc());
    if (auto *P = dyn_cast<CompoundStmt>(S)) { o["k"] = "block"; Array a; for (auto *X : P->body()) a.push_back(stmt(X)); o["b"] = std::move(a); }
    else if (auto *P = dyn_cast<DeclStmt>(S)) { o["k"] = "decl"; Array a; for (auto *D : P->decls()) if (auto *V = dyn_cast<VarDecl>(D)) a.push_back(varDecl(V)); o["vars"] = std::move(a); }
    else if (auto *P = dyn_cast<IfStmt>(S)) {
      if (P->isConstexpr()) { auto ND = P->getNondiscardedCase(C); if (ND) { if (*ND) return stmt(*ND); o["k"] = "null"; return o; } }
      o["k"] = "if"; if (P->getInit()) o["init"] = stmt(P->getInit());
      if (P->getConditionVariableDeclStmt()) o["var"] = stmt(P->getConditionVariableDeclStmt());
      o["c"] = expr(P->getCond()); o["t"] = stmt(P->getThen()); if (P->getElse()) o["e"] = stmt(P->getElse()); }
    else if (auto *P = dyn_cast<WhileStmt>(S)) { o["k"] = "while"; if (P->getConditionVariableDeclStmt()) o["var"] = stmt(P->getConditionVariableDeclStmt()); o["c"] = expr(P->getCond()); o["b"] = stmt(P->getBody()); }
    else if (auto *P = dyn_cast<DoStmt>(S)) { o["k"] = "do"; o["c"] = expr(P->getCond()); o["b"] = stmt(P->getBody()); }
    else if (auto *P = dyn_cast<ForStmt>(S)) { o["k"] = "for"; if (P->getInit()) o["init"] = stmt(P->getInit()); if (P->getCond()) o["c"] = expr(P->getCond()); if (P->getInc()) o["inc"] = expr(P->getInc()); o["b"] = stmt(P->getBody()); }
    else if (auto *P = dyn_cast<CXXForRangeStmt>(S)) {
      o["k"] = "rfor"; o["var"] = varDecl(P->getLoopVariable()); o["range"] = expr(P->getRangeInit()); o["b"] = stmt(P->getBody());
      if (P->getInit()) o["init"] = stmt(P->getInit());
      if (P->getBeginStmt()) o["begin"] = stmt(P->getBeginStmt());
      if (P->getEndStmt()) o["end"] = stmt(P->getEndStmt());
      if (P->getInc()) o["inc"] = expr(P->getInc());
      if (P->getCond()) o["cond"] = expr(P->getCond());
    }
    else if (auto *P = dyn_cast<ReturnStmt>(S)) { o["k"] = "ret"; if (P->getRetValue()) o["e"] = expr(P->getRetValue()); }
    else if (isa<BreakStmt>(S)) o["k"] = "break";
    else if (isa<ContinueStmt>(S)) o["k"] = "continue";
    else if (isa<NullStmt>(S)) o["k"] = "null";
    else if (auto *P = dyn_cast<SwitchStmt>(S)) { o["k"] = "switch"; if (P->getInit()) o["init"] = stmt(P->getInit()); if (P->getConditionVariableDeclStmt()) o["var"] = stmt(P->getConditionVariableDeclStmt()); o["c"] = expr(P->getCond()); o["b"] = stmt(P->getBody()); o["allenum"] = P->isAllEnumCasesCovered(); }
    else if (auto *P = dyn_cast<CaseStmt>(S)) { o["k"] = "case"; o["v"] = expr(P->getLHS()); o["s"] = stmt(P->getSubStmt()); }
    else if (auto *P = dyn_cast<DefaultStmt>(S)) { o["k"] = "default"; o["s"] = stmt(P->getSubStmt()); }
    else if (auto *P = dyn_cast<CXXTryStmt>(S)) {
      o["k"] = "try"; o["b"] = stmt(P->getTryBlock()); Array a;
      for (unsigned i = 0; i < P->getNumHandlers(); i++) { auto *H = P->getHandler(i); Object h; h["t"] = H->getExceptionDecl() ? ty(H->getCaughtType()) : std::string("..."); if (H->getExceptionDecl()) h["var"] = varDecl(H->getExceptionDecl()); h["b"] = stmt(H->getHandlerBlock()); h["l"] = loc(H->getBeginLoc()); a.push_back(std::move(h)); }
      o["h"] = std::move(a);
    }
    else if (auto *P = dyn_cast<LabelStmt>(S)) { o["k"] = "label"; o["n"] = P->getName(); o["s"] = stmt(P->getSubStmt()); }
    else if (auto *P = dyn_cast<GotoStmt>(S)) { o["k"] = "goto"; o["n"] = P->getLabel()->getNameAsString(); }
    else if (auto *P = dyn_cast<AttributedStmt>(S)) return stmt(P->getSubStmt());
    else { o["k"] = "unsupported"; o["why"] = S->getStmtClassName(); unknown[S->getStmtClassName()]++; }
    return o;
  }

  void func(const FunctionDecl *F) {
    Object o;
    o["n"] = F->getNameAsString(); o["q"] = qn(F); o["loc"] = loc(F->getLocation()); o["ret"] = ty(F->getReturnType());
    o["noreturn"] = F->isNoReturn();
    o["noexcept"] = nothrow(F);
    Array ps; for (auto *P : F->parameters()) { Object p; p["id"] = id(P); p["n"] = P->getNameAsString(); p["t"] = ty(P->getType()); p["ref"] = P->getType()->isReferenceType(); ps.push_back(std::move(p)); }
    o["params"] = std::move(ps);
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      Array ta; for (auto &A : TA->asArray()) { std::string s; llvm::raw_string_ostream os(s); A.print(PP, os, true); ta.push_back(os.str()); }
      o["targs"] = std::move(ta);
    }
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = M->getParent()->getNameAsString(); o["clst"] = ty(C.getRecordType(M->getParent()));
      o["const"] = M->isConst(); o["static"] = M->isStatic(); o["virt"] = M->isVirtual(); o["access"] = (int)M->getAccess();
      o["lambda"] = M->getParent()->isLambda();
      Array ov; for (auto *O : M->overridden_methods()) ov.push_back(fid(O)); o["ov"] = std::move(ov);
      wantRec(M->getParent());
    }
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
      o["kind"] = CD->isCopyConstructor() ? "copyctor" : CD->isMoveConstructor() ? "movector" : "ctor";
      o["delegating"] = CD->isDelegatingConstructor();
      Array in;
      for (auto *I : CD->inits()) {
        Object i;
        if (I->isAnyMemberInitializer()) i["field"] = I->getAnyMember()->getNameAsString();
        else if (I->isBaseInitializer()) i["base"] = ty(QualType(I->getBaseClass(), 0));
        else if (I->isDelegatingInitializer()) i["deleg"] = true;
        i["written"] = I->isWritten();
        if (I->isAnyMemberInitializer()) i["ref"] = I->getAnyMember()->getType()->isReferenceType();
        i["e"] = expr(I->getInit()); in.push_back(std::move(i));
      }
      o["inits"] = std::move(in);
    } else if (isa<CXXDestructorDecl>(F)) o["kind"] = "dtor";
    else if (isa<CXXMethodDecl>(F)) o["kind"] = "method";
    else o["kind"] = "func";
    o["defaulted"] = F->isDefaulted(); o["implicit"] = F->isImplicit();
    if (F->getBody()) o["body"] = stmt(F->getBody());
    functions[fid(F)] = std::move(o);
  }

  void drain() { while (!work.empty()) { auto *F = work.front(); work.pop_front(); func(F); } }
};

class Collect : public RecursiveASTVisitor<Collect> {
public:
  Exporter &X;
  explicit Collect(Exporter &X) : X(X) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *F) { if (F->isThisDeclarationADefinition() || F->isDefaulted()) X.want(F); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) { if (R->isThisDeclarationADefinition()) X.wantRec(R); return true; }
  bool VisitVarDecl(VarDecl *V) { if (X.inRoot(V) && V->hasGlobalStorage() && !V->getDeclContext()->isDependentContext() && !V->getType()->isDependentType()) X.noteVar(V); return true; }
};

class Consumer : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Exporter X(C);
    Collect V(X); V.TraverseDecl(C.getTranslationUnitDecl());
    X.drain();
    Object top;
    top["functions"] = std::move(X.functions); top["records"] = std::move(X.records); top["vars"] = std::move(X.vars);
    Object u; for (auto &p : X.unknown) u[p.first] = p.second; top["unknown"] = std::move(u);
    std::error_code EC; llvm::raw_fd_ostream os(gOut, EC);
    os << Value(std::move(top)); os << "\n";
  }
};
class Action : public ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Consumer>(); }
};
}

int main(int argc, const char **argv) {
  // vjx ROOT OUT FILE -- flags
  if (argc < 4) { llvm::errs() << "usage: vjx ROOT OUT FILE -- flags\n"; return 2; }
  gRoot = argv[1]; gOut = argv[2]; std::string file = argv[3];
  std::vector<std::string> flags;
  for (int i = 5; i < argc; i++) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", flags);
  tooling::ClangTool T(DB, {file});
  return T.run(tooling::newFrontendActionFactory<Action>().get());
}
