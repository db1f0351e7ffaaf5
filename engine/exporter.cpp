// Exports the resolved (type-checked, template-instantiated) program as JSON:
// every function body reachable from the given directories, with resolved
// callees, types, fields and class relations. No code is executed.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ParentMapContext.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::string OutFile;
static std::vector<std::string> Roots; // source path prefixes of interest
static int NErrors = 0;

namespace {

struct Exporter {
  ASTContext& C;
  SourceManager& SM;
  PrintingPolicy PP;
  std::map<const void*, int> funcIds, varIds, recIds, typeIds, fileIds0;
  std::map<std::string, int> fileIds;
  std::vector<std::string> files;
  std::vector<const FunctionDecl*> funcs;
  std::vector<const VarDecl*> vars;
  std::vector<const CXXRecordDecl*> recs;
  std::vector<Object> typeObjs;
  std::deque<const FunctionDecl*> work;
  Object jf, jv, jr;

  explicit Exporter(ASTContext& c)
    : C(c), SM(c.getSourceManager()), PP(c.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true;
    PP.SuppressUnwrittenScope = false;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
  }

  int fileId(std::string const& f) {
    auto it = fileIds.find(f);
    if(it != fileIds.end()) return it->second;
    int n = files.size();
    files.push_back(f);
    fileIds[f] = n;
    return n;
  }
  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    return SM.getFilename(L).str();
  }
  Value loc(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if(L.isInvalid()) return Array{-1, 0};
    return Array{fileId(SM.getFilename(L).str()), (int)SM.getSpellingLineNumber(L)};
  }

  int recId(const CXXRecordDecl* r) {
    if(!r) return -1;
    if(r->getDefinition()) r = r->getDefinition();
    r = r->getDefinition() ? r->getDefinition() : r->getCanonicalDecl();
    auto it = recIds.find(r);
    if(it != recIds.end()) return it->second;
    int n = recs.size();
    recIds[r] = n;
    recs.push_back(r);
    return n;
  }
  int varId(const VarDecl* v) {
    v = v->getCanonicalDecl();
    auto it = varIds.find(v);
    if(it != varIds.end()) return it->second;
    int n = vars.size();
    varIds[v] = n;
    vars.push_back(v);
    return n;
  }
  std::map<const void*, int> fieldIds;
  int fieldId(const FieldDecl* f) {
    f = f->getCanonicalDecl();
    auto it = fieldIds.find(f);
    if(it != fieldIds.end()) return it->second;
    int n = fieldIds.size();
    fieldIds[f] = n;
    recId(dyn_cast<CXXRecordDecl>(f->getParent()));
    return n;
  }
  std::map<const void*, int> bindIds;
  int bindId(const BindingDecl* b) {
    auto it = bindIds.find(b);
    if(it != bindIds.end()) return it->second;
    int n = bindIds.size();
    bindIds[b] = n;
    return n;
  }
  int funcId(const FunctionDecl* f) {
    f = f->getCanonicalDecl();
    auto it = funcIds.find(f);
    if(it != funcIds.end()) return it->second;
    int n = funcs.size();
    funcIds[f] = n;
    funcs.push_back(f);
    work.push_back(f);
    return n;
  }
  int typeId(QualType q) {
    q = q.getCanonicalType();
    void* key = q.getAsOpaquePtr();
    auto it = typeIds.find(key);
    if(it != typeIds.end()) return it->second;
    int n = typeObjs.size();
    typeIds[key] = n;
    typeObjs.emplace_back();
    Object o;
    o["s"] = q.getAsString(PP);
    if(q.isConstQualified()) o["const"] = true;
    const Type* T = q.getTypePtr();
    std::string c = "other";
    if(T->isBooleanType())
      c = "bool";
    else if(T->isEnumeralType()) {
      c = "enum";
      if(!T->isDependentType()) {
        o["w"] = (int)C.getTypeSize(q);
        o["sg"] = T->isSignedIntegerOrEnumerationType();
      }
    } else if(T->isIntegerType()) {
      c = "int";
      o["w"] = (int)C.getTypeSize(q);
      o["sg"] = T->isSignedIntegerType();
    } else if(T->isFloatingType()) {
      c = "float";
      o["w"] = (int)C.getTypeSize(q);
    } else if(T->isVoidType())
      c = "void";
    else if(T->isPointerType()) {
      c = "ptr";
      o["to"] = typeId(T->getPointeeType());
    } else if(T->isLValueReferenceType()) {
      c = "lref";
      o["to"] = typeId(T->getPointeeType());
    } else if(T->isRValueReferenceType()) {
      c = "rref";
      o["to"] = typeId(T->getPointeeType());
    } else if(auto* A = C.getAsConstantArrayType(q)) {
      c = "arr";
      o["to"] = typeId(A->getElementType());
      o["n"] = (int64_t)A->getSize().getZExtValue();
    } else if(auto* R = T->getAsCXXRecordDecl()) {
      c = "rec";
      o["rec"] = recId(R);
    } else if(T->isFunctionType())
      c = "func";
    o["c"] = c;
    typeObjs[n] = std::move(o);
    return n;
  }

  Value E(const Expr* e0) {
    if(!e0) return nullptr;
    const Expr* e = e0;
    // transparent wrappers
    while(true) {
      if(auto* x = dyn_cast<ExprWithCleanups>(e)) e = x->getSubExpr();
      else if(auto* x = dyn_cast<ParenExpr>(e)) e = x->getSubExpr();
      else if(auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) e = x->getSubExpr();
      else if(auto* x = dyn_cast<ConstantExpr>(e)) e = x->getSubExpr();
      else if(auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e = x->getReplacement();
      else break;
    }
    Object o;
    o["t"] = typeId(e->getType());
    o["l"] = loc(e->getExprLoc());
    if(e->isLValue()) o["lv"] = true;
    auto K = [&](const char* k) { o["k"] = k; };
    auto args = [&](auto const& range) {
      Array a;
      for(const Expr* x : range) a.push_back(E(x));
      return a;
    };
    if(auto* x = dyn_cast<IntegerLiteral>(e)) {
      K("Int");
      llvm::SmallString<32> s;
      x->getValue().toString(s, 10, x->getType()->isSignedIntegerType());
      o["v"] = s.str().str();
    } else if(auto* x = dyn_cast<FloatingLiteral>(e)) {
      K("Flt");
      o["v"] = x->getValueAsApproximateDouble();
    } else if(auto* x = dyn_cast<CXXBoolLiteralExpr>(e)) {
      K("Bool");
      o["v"] = x->getValue();
    } else if(auto* x = dyn_cast<CharacterLiteral>(e)) {
      K("Int");
      o["v"] = std::to_string(x->getValue());
    } else if(auto* x = dyn_cast<StringLiteral>(e)) {
      K("Str");
      o["v"] = x->isOrdinary() && llvm::json::isUTF8(x->getString()) ? x->getString().str() : std::string("?");
    } else if(isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) {
      K("Null");
    } else if(auto* x = dyn_cast<DeclRefExpr>(e)) {
      auto* d = x->getDecl();
      if(auto* v = dyn_cast<VarDecl>(d)) {
        K("Var");
        o["d"] = varId(v);
        if(x->refersToEnclosingVariableOrCapture()) o["cap"] = true;
      } else if(auto* f = dyn_cast<FunctionDecl>(d)) {
        K("Fn");
        o["f"] = funcId(f);
      } else if(auto* ec = dyn_cast<EnumConstantDecl>(d)) {
        K("Int");
        llvm::SmallString<32> s;
        ec->getInitVal().toString(s, 10);
        o["v"] = s.str().str();
        o["enum"] = ec->getNameAsString();
      } else if(auto* b = dyn_cast<BindingDecl>(d)) {
        K("Binding");
        o["d"] = bindId(b);
        o["e"] = E(b->getBinding());
      } else
        K("UnkRef");
    } else if(auto* x = dyn_cast<MemberExpr>(e)) {
      auto* d = x->getMemberDecl();
      if(auto* f = dyn_cast<FieldDecl>(d)) {
        K("Mem");
        o["b"] = E(x->getBase());
        o["d"] = fieldId(f);
        o["n"] = f->getNameAsString();
        if(x->isArrow()) o["arrow"] = true;
      } else if(auto* v = dyn_cast<VarDecl>(d)) {
        K("Var");
        o["d"] = varId(v);
      } else if(auto* m = dyn_cast<FunctionDecl>(d)) {
        K("MemFn");
        o["b"] = E(x->getBase());
        o["f"] = funcId(m);
      } else if(auto* ec = dyn_cast<EnumConstantDecl>(d)) {
        K("Int");
        llvm::SmallString<32> s;
        ec->getInitVal().toString(s, 10);
        o["v"] = s.str().str();
        o["enum"] = ec->getNameAsString();
      } else
        K("UnkMem");
    } else if(isa<CXXThisExpr>(e)) {
      K("This");
    } else if(auto* x = dyn_cast<CXXMemberCallExpr>(e)) {
      K("MCall");
      const Expr* cal = x->getCallee()->IgnoreParens();
      if(auto* me = dyn_cast<MemberExpr>(cal)) {
        auto* m = cast<CXXMethodDecl>(me->getMemberDecl());
        o["f"] = funcId(m);
        o["o"] = E(me->getBase());
        if(me->isArrow()) o["arrow"] = true;
        if(m->isVirtual() && !me->hasQualifier()) o["virt"] = true;
      } else
        o["fe"] = E(cal);
      o["a"] = args(x->arguments());
    } else if(auto* x = dyn_cast<CXXOperatorCallExpr>(e)) {
      auto* f = x->getDirectCallee();
      if(f) {
        if(auto* m = dyn_cast<CXXMethodDecl>(f); m && !m->isStatic()) {
          K("MCall");
          o["f"] = funcId(f);
          o["o"] = E(x->getArg(0));
          Array a;
          for(unsigned i = 1; i < x->getNumArgs(); ++i)
            a.push_back(E(x->getArg(i)));
          o["a"] = std::move(a);
          if(m->isVirtual()) o["virt"] = true;
        } else {
          K("Call");
          o["f"] = funcId(f);
          o["a"] = args(x->arguments());
        }
        o["op"] = true;
      } else {
        K("Unk");
        o["cls"] = "OperatorCall";
      }
    } else if(auto* x = dyn_cast<CallExpr>(e)) {
      K("Call");
      if(auto* f = x->getDirectCallee())
        o["f"] = funcId(f);
      else
        o["fe"] = E(x->getCallee());
      o["a"] = args(x->arguments());
    } else if(auto* x = dyn_cast<CXXConstructExpr>(e)) {
      K("Ctor");
      o["f"] = funcId(x->getConstructor());
      o["rec"] = recId(x->getConstructor()->getParent());
      o["a"] = args(x->arguments());
      if(x->isListInitialization()) o["list"] = true;
      if(x->isElidable()) o["elide"] = true;
      if(x->requiresZeroInitialization()) o["zero"] = true;
    } else if(auto* x = dyn_cast<CXXInheritedCtorInitExpr>(e)) {
      K("ICtor");
      o["f"] = funcId(x->getConstructor());
      o["rec"] = recId(x->getConstructor()->getParent());
    } else if(auto* x = dyn_cast<CastExpr>(e)) {
      K("Cast");
      o["ck"] = x->getCastKindName();
      o["e"] = E(x->getSubExpr());
      if(isa<ExplicitCastExpr>(x)) o["x"] = true;
      if(isa<CXXConstCastExpr>(x)) o["cc"] = "const";
      if(isa<CXXReinterpretCastExpr>(x)) o["cc"] = "reinterpret";
      if(isa<CXXDynamicCastExpr>(x)) o["cc"] = "dynamic";
      if(x->getConversionFunction()) {
        if(auto* f = dyn_cast<FunctionDecl>(x->getConversionFunction()))
          o["cf"] = funcId(f);
      }
    } else if(auto* x = dyn_cast<UnaryOperator>(e)) {
      K("Un");
      o["op"] = (UnaryOperator::getOpcodeStr(x->getOpcode()) +
                 (x->isPostfix() ? "post" : x->isPrefix() ? "pre" : "")).str();
      o["e"] = E(x->getSubExpr());
    } else if(auto* x = dyn_cast<CompoundAssignOperator>(e)) {
      K("CAsg");
      o["op"] = x->getOpcodeStr().str();
      o["a"] = Array{E(x->getLHS()), E(x->getRHS())};
      o["ct"] = typeId(x->getComputationResultType());
      o["clt"] = typeId(x->getComputationLHSType());
    } else if(auto* x = dyn_cast<BinaryOperator>(e)) {
      K("Bin");
      o["op"] = x->getOpcodeStr().str();
      o["a"] = Array{E(x->getLHS()), E(x->getRHS())};
    } else if(auto* x = dyn_cast<ConditionalOperator>(e)) {
      K("Cond");
      o["c"] = E(x->getCond());
      o["a"] = Array{E(x->getTrueExpr()), E(x->getFalseExpr())};
    } else if(auto* x = dyn_cast<ArraySubscriptExpr>(e)) {
      K("Sub");
      o["a"] = Array{E(x->getBase()), E(x->getIdx())};
    } else if(auto* x = dyn_cast<InitListExpr>(e)) {
      K("List");
      const InitListExpr* s = x->isSemanticForm() ? x : (x->getSemanticForm() ? x->getSemanticForm() : x);
      o["a"] = args(s->inits());
      if(auto* f = s->getInitializedFieldInUnion()) o["uf"] = fieldId(f);
      if(s->hasArrayFiller()) o["filler"] = E(s->getArrayFiller());
    } else if(auto* x = dyn_cast<CXXNewExpr>(e)) {
      K("New");
      o["ty"] = typeId(x->getAllocatedType());
      if(x->getInitializer()) o["e"] = E(x->getInitializer());
      if(x->getNumPlacementArgs()) {
        Array a;
        for(unsigned i = 0; i < x->getNumPlacementArgs(); ++i)
          a.push_back(E(x->getPlacementArg(i)));
        o["pl"] = std::move(a);
      }
      if(x->isArray()) o["array"] = true;
    } else if(auto* x = dyn_cast<CXXDeleteExpr>(e)) {
      K("Del");
      o["e"] = E(x->getArgument());
    } else if(auto* x = dyn_cast<CXXThrowExpr>(e)) {
      K("Throw");
      o["e"] = E(x->getSubExpr());
    } else if(auto* x = dyn_cast<LambdaExpr>(e)) {
      K("Lambda");
      auto* rec = x->getLambdaClass();
      o["rec"] = recId(rec);
      auto* callop = x->getCallOperator();
      o["call"] = funcId(callop);
      Array caps;
      auto fit = rec->field_begin();
      auto iit = x->capture_init_begin();
      for(auto const& cap : x->captures()) {
        Object c;
        if(fit != rec->field_end()) { c["d"] = fieldId(*fit); ++fit; }
        if(cap.capturesThis()) {
          c["kind"] = cap.getCaptureKind() == LCK_StarThis ? "starthis" : "this";
        } else if(cap.capturesVariable()) {
          c["kind"] = cap.getCaptureKind() == LCK_ByRef ? "ref" : "copy";
          if(auto* v = dyn_cast<VarDecl>(cap.getCapturedVar())) {
            c["v"] = varId(v);
            if(v->isInitCapture()) c["ic"] = true;
          }
        }
        if(iit != x->capture_init_end() && *iit) c["init"] = E(*iit);
        if(iit != x->capture_init_end()) ++iit;
        caps.push_back(std::move(c));
      }
      o["caps"] = std::move(caps);
    } else if(auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) {
      K("Mat");
      o["e"] = E(x->getSubExpr());
    } else if(auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) {
      K("StdList");
      o["e"] = E(x->getSubExpr());
    } else if(auto* x = dyn_cast<CXXDefaultArgExpr>(e)) {
      K("DefArg");
      o["e"] = E(x->getExpr());
    } else if(auto* x = dyn_cast<CXXDefaultInitExpr>(e)) {
      K("DefInit");
      o["e"] = E(x->getExpr());
    } else if(isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) {
      K("Zero");
    } else if(isa<UnaryExprOrTypeTraitExpr>(e) || isa<SizeOfPackExpr>(e) ||
              isa<TypeTraitExpr>(e) || isa<CXXNoexceptExpr>(e)) {
      Expr::EvalResult r;
      if(!e->isValueDependent() && e->EvaluateAsInt(r, C)) {
        K("Int");
        llvm::SmallString<32> s;
        r.Val.getInt().toString(s, 10);
        o["v"] = s.str().str();
      } else
        K("Unk");
    } else if(auto* x = dyn_cast<CXXTypeidExpr>(e)) {
      K("Typeid");
      if(x->isTypeOperand())
        o["ty"] = typeId(x->getTypeOperand(C));
      else
        o["e"] = E(x->getExprOperand());
    } else if(auto* x = dyn_cast<OpaqueValueExpr>(e)) {
      K("Opaque");
      if(x->getSourceExpr()) o["e"] = E(x->getSourceExpr());
    } else if(auto* x = dyn_cast<PredefinedExpr>(e)) {
      K("Str");
      o["v"] = "";
    } else if(auto* x = dyn_cast<CXXRewrittenBinaryOperator>(e)) {
      return E(x->getSemanticForm());
    } else if(auto* x = dyn_cast<ArrayInitLoopExpr>(e)) {
      K("ArrCopy");
      o["e"] = E(x->getCommonExpr()->getSourceExpr());
    } else {
      K("Unk");
      o["cls"] = e->getStmtClassName();
    }
    return o;
  }

  Value varDeclInit(const VarDecl* v) {
    Object o;
    o["d"] = varId(v);
    if(auto* dd = dyn_cast<DecompositionDecl>(v)) {
      Array b;
      for(auto* bd : dd->bindings()) {
        Object bo;
        bo["d"] = bindId(bd);
        bo["e"] = E(bd->getBinding());
        if(auto* hv = bd->getHoldingVar()) {
          bo["hv"] = varId(hv);
          if(hv->getInit()) bo["hi"] = E(hv->getInit());
        }
        b.push_back(std::move(bo));
      }
      o["bind"] = std::move(b);
    }
    if(v->getInit()) o["init"] = E(v->getInit());
    return o;
  }

  Value S(const Stmt* s) {
    if(!s) return nullptr;
    if(auto* e = dyn_cast<Expr>(s)) {
      Object o;
      o["s"] = "Expr";
      o["l"] = loc(e->getBeginLoc());
      o["e"] = E(e);
      return o;
    }
    Object o;
    o["l"] = loc(s->getBeginLoc());
    if(auto* x = dyn_cast<CompoundStmt>(s)) {
      o["s"] = "Block";
      Array a;
      for(auto* c : x->body()) a.push_back(S(c));
      o["b"] = std::move(a);
    } else if(auto* x = dyn_cast<DeclStmt>(s)) {
      o["s"] = "Decl";
      Array a;
      for(auto* d : x->decls())
        if(auto* v = dyn_cast<VarDecl>(d)) a.push_back(varDeclInit(v));
      o["v"] = std::move(a);
    } else if(auto* x = dyn_cast<ReturnStmt>(s)) {
      o["s"] = "Ret";
      if(x->getRetValue()) o["e"] = E(x->getRetValue());
    } else if(auto* x = dyn_cast<IfStmt>(s)) {
      o["s"] = "If";
      if(x->getInit()) o["init"] = S(x->getInit());
      if(x->getConditionVariable()) o["cv"] = varDeclInit(x->getConditionVariable());
      if(x->isConstexpr()) {
        Expr::EvalResult r;
        if(x->getCond()->EvaluateAsInt(r, C)) o["ce"] = r.Val.getInt().getBoolValue();
      }
      o["c"] = E(x->getCond());
      o["then"] = S(x->getThen());
      if(x->getElse()) o["else"] = S(x->getElse());
    } else if(auto* x = dyn_cast<ForStmt>(s)) {
      o["s"] = "For";
      if(x->getInit()) o["init"] = S(x->getInit());
      if(x->getCond()) o["c"] = E(x->getCond());
      if(x->getInc()) o["inc"] = E(x->getInc());
      o["body"] = S(x->getBody());
    } else if(auto* x = dyn_cast<WhileStmt>(s)) {
      o["s"] = "While";
      if(x->getConditionVariable()) o["cv"] = varDeclInit(x->getConditionVariable());
      o["c"] = E(x->getCond());
      o["body"] = S(x->getBody());
    } else if(auto* x = dyn_cast<DoStmt>(s)) {
      o["s"] = "Do";
      o["c"] = E(x->getCond());
      o["body"] = S(x->getBody());
    } else if(auto* x = dyn_cast<CXXForRangeStmt>(s)) {
      o["s"] = "RFor";
      if(x->getInit()) o["init"] = S(x->getInit());
      o["range"] = S(x->getRangeStmt());
      o["begin"] = S(x->getBeginStmt());
      o["end"] = S(x->getEndStmt());
      o["c"] = E(x->getCond());
      o["inc"] = E(x->getInc());
      o["var"] = S(x->getLoopVarStmt());
      o["body"] = S(x->getBody());
    } else if(auto* x = dyn_cast<SwitchStmt>(s)) {
      o["s"] = "Switch";
      if(x->getInit()) o["init"] = S(x->getInit());
      if(x->getConditionVariable()) o["cv"] = varDeclInit(x->getConditionVariable());
      o["c"] = E(x->getCond());
      o["body"] = S(x->getBody());
      o["all"] = x->isAllEnumCasesCovered();
    } else if(auto* x = dyn_cast<CaseStmt>(s)) {
      o["s"] = "Case";
      Expr::EvalResult r;
      if(x->getLHS()->EvaluateAsInt(r, C)) {
        llvm::SmallString<32> t;
        r.Val.getInt().toString(t, 10);
        o["v"] = t.str().str();
      }
      o["sub"] = S(x->getSubStmt());
    } else if(auto* x = dyn_cast<DefaultStmt>(s)) {
      o["s"] = "Default";
      o["sub"] = S(x->getSubStmt());
    } else if(isa<BreakStmt>(s)) {
      o["s"] = "Break";
    } else if(isa<ContinueStmt>(s)) {
      o["s"] = "Continue";
    } else if(isa<NullStmt>(s)) {
      o["s"] = "Null";
    } else if(auto* x = dyn_cast<AttributedStmt>(s)) {
      return S(x->getSubStmt());
    } else if(auto* x = dyn_cast<LabelStmt>(s)) {
      return S(x->getSubStmt());
    } else if(auto* x = dyn_cast<CXXTryStmt>(s)) {
      o["s"] = "Try";
      o["body"] = S(x->getTryBlock());
      Array a;
      for(unsigned i = 0; i < x->getNumHandlers(); ++i) {
        auto* h = x->getHandler(i);
        Object ho;
        if(h->getExceptionDecl()) {
          ho["d"] = varId(h->getExceptionDecl());
          ho["t"] = typeId(h->getCaughtType());
        }
        ho["b"] = S(h->getHandlerBlock());
        a.push_back(std::move(ho));
      }
      o["h"] = std::move(a);
    } else {
      o["s"] = "Unk";
      o["cls"] = s->getStmtClassName();
    }
    return o;
  }

  std::string qname(const NamedDecl* d) {
    // namespace-qualified name without template arguments
    std::string s;
    llvm::raw_string_ostream os(s);
    d->printQualifiedName(os, PP);
    os.flush();
    // strip template args conservatively
    std::string r;
    int depth = 0;
    for(size_t i = 0; i < s.size(); ++i) {
      char c = s[i];
      bool isop = r.size() >= 8 && r.compare(r.size() - 8, 8, "operator") == 0;
      if(depth == 0 && isop && (c == '<' || c == '>' || c == '-' || c == '=')) {
        // operator<, operator<=, operator<<, operator->, operator> ...
        while(i < s.size() && (s[i] == '<' || s[i] == '>' || s[i] == '=' || s[i] == '-' || s[i] == '*')) r += s[i++];
        --i;
        continue;
      }
      if(c == '<') { ++depth; continue; }
      if(c == '>' && depth > 0) { --depth; continue; }
      if(depth == 0) r += c;
    }
    return r;
  }

  // declared in terms of the state index type?
  bool isIndexType(QualType q) {
    return q.getAsString().find("sv_index_type") != std::string::npos;
  }

  Array targs(const TemplateArgumentList* L) {
    Array a;
    if(!L) return a;
    std::function<void(TemplateArgument const&)> add = [&](TemplateArgument const& t) {
      if(t.getKind() == TemplateArgument::Pack) {
        for(auto const& p : t.pack_elements()) add(p);
        return;
      }
      std::string s;
      llvm::raw_string_ostream os(s);
      t.print(PP, os, true);
      os.flush();
      Object o;
      o["s"] = s;
      if(t.getKind() == TemplateArgument::Type) o["t"] = typeId(t.getAsType());
      if(t.getKind() == TemplateArgument::Integral) {
        llvm::SmallString<32> v;
        t.getAsIntegral().toString(v, 10);
        o["v"] = v.str().str();
      }
      a.push_back(std::move(o));
    };
    for(unsigned i = 0; i < L->size(); ++i) add(L->get(i));
    return a;
  }

  bool inRoots(std::string const& f) {
    for(auto const& r : Roots)
      if(f.compare(0, r.size(), r) == 0) return true;
    return false;
  }

  void emitFunc(const FunctionDecl* f) {
    int id = funcIds[f->getCanonicalDecl()];
    Object o;
    o["q"] = qname(f);
    o["name"] = f->getNameAsString();
    const FunctionDecl* def = nullptr;
    f->hasBody(def);
    const FunctionDecl* d = def ? def : f;
    o["l"] = loc(d->getLocation());
    o["ret"] = typeId(f->getReturnType());
    Array ps;
    for(auto* p : d->parameters()) ps.push_back(varId(p));
    o["params"] = std::move(ps);
    if(auto* L = f->getTemplateSpecializationArgs()) o["targs"] = targs(L);
    if(f->isDeleted()) o["deleted"] = true;
    if(f->isDefaulted()) o["defaulted"] = true;
    if(f->isImplicit()) o["implicit"] = true;
    if(f->isStatic()) o["static"] = true;
    if(isIndexType(f->getReturnType())) o["sv"] = true;
    if(f->isNoReturn()) o["noreturn"] = true;
    if(f->getBuiltinID()) o["builtin"] = true;
    if(auto* m = dyn_cast<CXXMethodDecl>(f)) {
      o["rec"] = recId(m->getParent());
      if(m->isConst()) o["const"] = true;
      if(m->isVirtual()) o["virt"] = true;
      if(m->isPureVirtual()) o["pure"] = true;
      Array ov;
      for(auto* b : m->overridden_methods()) ov.push_back(funcId(b));
      if(!ov.empty()) o["over"] = std::move(ov);
      if(m->isCopyAssignmentOperator()) o["cassign"] = true;
      if(m->isMoveAssignmentOperator()) o["massign"] = true;
      if(!m->isConst() && !m->isStatic() && !isa<CXXConstructorDecl>(m) && !isa<CXXDestructorDecl>(m) && def &&
         !def->isDependentContext())
        o["mw"] = mayModify(def->getBody());
      o["acc"] = m->getAccess() == AS_public ? "public" : m->getAccess() == AS_private ? "private" : "protected";
    }
    if(auto* c = dyn_cast<CXXConstructorDecl>(f)) {
      o["kind"] = "ctor";
      if(c->isCopyConstructor()) o["copy"] = true;
      if(c->isMoveConstructor()) o["move"] = true;
      if(c->isDefaultConstructor()) o["dflt"] = true;
      if(auto ic = c->getInheritedConstructor()) o["inh"] = funcId(ic.getConstructor());
    } else if(isa<CXXDestructorDecl>(f))
      o["kind"] = "dtor";
    else if(isa<CXXConversionDecl>(f))
      o["kind"] = "conv";
    else if(isa<CXXMethodDecl>(f))
      o["kind"] = "method";
    else
      o["kind"] = "func";
    if(def && !def->isDependentContext()) {
      if(auto* c = dyn_cast<CXXConstructorDecl>(def)) {
        Array in;
        for(auto* i : c->inits()) {
          Object io;
          if(i->isAnyMemberInitializer()) {
            if(i->getMember()) {
              io["f"] = fieldId(i->getMember());
              io["n"] = i->getMember()->getNameAsString();
            } else if(i->getIndirectMember()) {
              Array ch;
              for(auto* nd : i->getIndirectMember()->chain())
                if(auto* fd = dyn_cast<FieldDecl>(nd)) ch.push_back(fieldId(fd));
              io["ch"] = std::move(ch);
            }
          } else if(i->isBaseInitializer())
            io["b"] = typeId(QualType(i->getBaseClass(), 0));
          else
            io["del"] = true;
          if(i->isWritten()) io["w"] = true;
          io["e"] = E(i->getInit());
          in.push_back(std::move(io));
        }
        o["inits"] = std::move(in);
      }
      o["body"] = S(def->getBody());
    }
    jf[std::to_string(id)] = std::move(o);
  }

  // Does the body of a non-constant member function use its object in a way a
  // constant member function could not?
  bool mayModify(const Stmt* body) {
    struct W : RecursiveASTVisitor<W> {
      ASTContext& C;
      bool found = false;
      const Stmt* body;
      explicit W(ASTContext& c) : C(c) {}
      bool shouldVisitLambdaBody() const { return true; }
      bool shouldVisitImplicitCode() const { return true; }
      bool VisitCXXThisExpr(CXXThisExpr* t) {
        const Expr* cur = t;
        while(true) {
          if(cur->getType().isConstQualified() && cur->isLValue()) return true;
          auto ps = C.getParents(*cur);
          const Expr* up = nullptr;
          for(auto const& p : ps)
            if(auto* e = p.get<Expr>()) up = e;
          if(!up) {
            // statement context: the value is discarded
            bool stmt = false;
            for(auto const& p : ps)
              if(p.get<CompoundStmt>()) stmt = true;
            if(!stmt) found = true;
            return true;
          }
          if(auto* c = dyn_cast<CastExpr>(up)) {
            if(c->getCastKind() == CK_LValueToRValue || c->getCastKind() == CK_ToVoid) return true;
            if(c->getCastKind() == CK_NoOp && c->isLValue() && c->getType().isConstQualified()) return true;
            if(c->getCastKind() == CK_NoOp && c->getType()->isPointerType() && c->getType()->getPointeeType().isConstQualified()) return true;
          } else if(auto* m = dyn_cast<MemberExpr>(up)) {
            if(auto* md = dyn_cast<CXXMethodDecl>(m->getMemberDecl())) {
              if(!md->isConst() && !md->isStatic()) found = true;
              return true;
            }
            if(m->getMemberDecl()->getType().isConstQualified()) return true;
          } else if(auto* u = dyn_cast<UnaryOperator>(up)) {
            if(u->getOpcode() != UO_Deref) { found = true; return true; }
          } else if(!isa<ParenExpr>(up) && !isa<ArraySubscriptExpr>(up) && !isa<ExprWithCleanups>(up)) {
            found = true;
            return true;
          }
          cur = up;
        }
      }
    } w(C);
    w.TraverseStmt(const_cast<Stmt*>(body));
    return w.found;
  }

  void emitRec(const CXXRecordDecl* r) {
    int id = recIds[r];
    Object o;
    o["q"] = qname(r);
    o["s"] = C.getRecordType(r).getAsString(PP);
    o["l"] = loc(r->getLocation());
    if(auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(r))
      o["targs"] = targs(&sp->getTemplateArgs());
    if(r->isLambda()) o["lambda"] = true;
    if(r->isUnion()) o["union"] = true;
    if(r->hasDefinition() && !r->isDependentContext()) {
      o["def"] = true;
      if(r->isPolymorphic()) o["poly"] = true;
      if(r->isAnonymousStructOrUnion()) o["anon"] = true;
      Array fs;
      for(auto* f : r->fields()) {
        Object fo;
        fo["d"] = fieldId(f);
        fo["n"] = f->getNameAsString();
        fo["t"] = typeId(f->getType());
        if(f->isMutable()) fo["mut"] = true;
        if(f->getType().isConstQualified()) fo["cst"] = true;
        fo["acc"] = f->getAccess() == AS_public ? "public" : f->getAccess() == AS_private ? "private" : "protected";
        if(isIndexType(f->getType())) fo["sv"] = true;
        if(f->isAnonymousStructOrUnion()) fo["anon"] = true;
        if(f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = E(f->getInClassInitializer());
        fo["l"] = loc(f->getLocation());
        fs.push_back(std::move(fo));
      }
      o["fields"] = std::move(fs);
      Array bs;
      for(auto const& b : r->bases())
        if(auto* br = b.getType()->getAsCXXRecordDecl()) bs.push_back(recId(br));
      o["bases"] = std::move(bs);
      if(inRoots(fileOf(r->getLocation()))) {
        Array ms;
        for(auto* m : r->methods()) {
          ms.push_back(funcId(m));
        }
        o["methods"] = std::move(ms);
      }
      o["ucc"] = r->hasUserDeclaredCopyConstructor();
      o["uca"] = r->hasUserDeclaredCopyAssignment();
    }
    jr[std::to_string(id)] = std::move(o);
  }

  void emitVar(const VarDecl* v) {
    int id = varIds[v];
    Object o;
    o["n"] = v->getNameAsString();
    o["t"] = typeId(v->getType());
    o["l"] = loc(v->getLocation());
    if(isa<ParmVarDecl>(v)) o["parm"] = true;
    if(isIndexType(v->getType())) o["sv"] = true;
    if(v->isStaticLocal()) o["staticlocal"] = true;
    if(v->hasGlobalStorage()) {
      o["global"] = true;
      o["q"] = qname(v);
      if(v->isConstexpr()) o["constexpr"] = true;
      const VarDecl* def = v->getAnyInitializer() ? nullptr : nullptr;
      const Expr* init = v->getAnyInitializer(def);
      if(init && !init->isValueDependent() && !v->getType()->isDependentType()) {
        if((v->getType()->isIntegralOrEnumerationType()) ) {
          Expr::EvalResult r;
          if(init->EvaluateAsInt(r, C)) {
            llvm::SmallString<32> s;
            r.Val.getInt().toString(s, 10);
            o["cv"] = s.str().str();
          }
        }
        o["init"] = E(init);
      }
    }
    jv[std::to_string(id)] = std::move(o);
  }

  void run() {
    struct V : RecursiveASTVisitor<V> {
      Exporter& X;
      explicit V(Exporter& x) : X(x) {}
      bool shouldVisitTemplateInstantiations() const { return true; }
      bool shouldVisitImplicitCode() const { return true; }
      bool shouldVisitLambdaBody() const { return true; }
      bool VisitFunctionDecl(FunctionDecl* f) {
        if(f->isDependentContext() || f->getType()->isDependentType()) return true;
        if(X.inRoots(X.fileOf(f->getLocation()))) X.funcId(f);
        return true;
      }
      bool VisitCXXRecordDecl(CXXRecordDecl* r) {
        if(r->isDependentContext() || !r->hasDefinition()) return true;
        if(X.inRoots(X.fileOf(r->getLocation()))) X.recId(r);
        return true;
      }
      bool VisitVarDecl(VarDecl* v) {
        if(v->isFileVarDecl() && !v->getDeclContext()->isDependentContext() && !isa<VarTemplateSpecializationDecl>(v) && !v->getType()->isDependentType() && X.inRoots(X.fileOf(v->getLocation()))) X.varId(v);
        return true;
      }
    } v(*this);
    v.TraverseDecl(C.getTranslationUnitDecl());
    size_t rdone = 0, vdone = 0;
    while(!work.empty() || rdone < recs.size() || vdone < vars.size()) {
      while(!work.empty()) {
        auto* f = work.front();
        work.pop_front();
        emitFunc(f);
      }
      while(rdone < recs.size()) emitRec(recs[rdone++]);
      while(vdone < vars.size()) emitVar(vars[vdone++]);
    }
    Object top;
    Array fa;
    for(auto const& s : files) fa.push_back(s);
    top["files"] = std::move(fa);
    Array ta;
    for(auto& t : typeObjs) ta.push_back(std::move(t));
    top["types"] = std::move(ta);
    top["funcs"] = std::move(jf);
    top["recs"] = std::move(jr);
    top["vars"] = std::move(jv);
    std::error_code ec;
    llvm::raw_fd_ostream os(OutFile, ec);
    os << Value(std::move(top));
  }
};

struct Consumer : ASTConsumer {
  void HandleTranslationUnit(ASTContext& c) override {
    if(c.getDiagnostics().hasErrorOccurred()) {
      NErrors = 1;
      return;
    }
    Exporter(c).run();
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&,
                                                 StringRef) override {
    return std::make_unique<Consumer>();
  }
};
} // namespace

// usage: exporter OUT.json SRC.cpp ROOT[:ROOT...] -- clang args
int main(int argc, char** argv) {
  if(argc < 5) return 2;
  OutFile = argv[1];
  std::string src = argv[2];
  std::stringstream rs(argv[3]);
  for(std::string s; std::getline(rs, s, ':');) Roots.push_back(s);
  std::vector<std::string> a;
  for(int i = 5; i < argc; ++i) a.push_back(argv[i]);
  std::ifstream in(src);
  std::stringstream ss;
  ss << in.rdbuf();
  bool ok = tooling::runToolOnCodeWithArgs(std::make_unique<Action>(), ss.str(),
                                           a, src, "clang-tool");
  return ok && !NErrors ? 0 : 3;
}
