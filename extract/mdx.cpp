// mdx: dumps a compact, resolved syntax tree of every function, class and enum
// defined under a given source root, as JSON, one object per translation unit.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Lex/Lexer.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/FileSystem.h"
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::string gRoot, gOut;

struct Dumper : RecursiveASTVisitor<Dumper> {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<std::string, int> types;
  std::vector<std::string> typeList;
  std::map<const void *, int> ids;
  std::vector<int> fileDummy;
  std::map<std::string, int> files;
  std::vector<std::string> fileList;
  Array funcs, classes, enums, globals, decls;
  std::set<const void *> seen;

  explicit Dumper(ASTContext &c)
      : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.TerseOutput = true;
    PP.Bool = true;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }

  int tid(QualType q) {
    if (q.isNull()) return -1;
    std::string s = q.getCanonicalType().getAsString(PP);
    auto it = types.find(s);
    if (it != types.end()) return it->second;
    int n = typeList.size();
    types[s] = n;
    typeList.push_back(s);
    return n;
  }
  std::string tsugar(QualType q) { return q.isNull() ? "" : q.getAsString(PP); }
  int id(const void *p) {
    auto it = ids.find(p);
    if (it != ids.end()) return it->second;
    int n = ids.size() + 1;
    ids[p] = n;
    return n;
  }
  std::string pathOf(SourceLocation l) {
    l = SM.getExpansionLoc(l);
    PresumedLoc p = SM.getPresumedLoc(l);
    if (p.isInvalid()) return "";
    llvm::SmallString<256> rp;
    if (!llvm::sys::fs::real_path(p.getFilename(), rp)) return rp.str().str();
    return p.getFilename();
  }
  std::map<unsigned, bool> inrc;
  std::map<unsigned, std::string> relc;
  bool inRoot(SourceLocation l, std::string *rel = nullptr) {
    if (l.isInvalid()) return false;
    l = SM.getExpansionLoc(l);
    unsigned f = SM.getFileID(l).getHashValue();
    auto it = inrc.find(f);
    if (it == inrc.end()) {
      std::string p = pathOf(l);
      bool r = p.compare(0, gRoot.size(), gRoot) == 0 &&
               p.find("/Eigen/") == std::string::npos;
      inrc[f] = r;
      relc[f] = r ? p.substr(gRoot.size()) : p;
      it = inrc.find(f);
    }
    if (rel) *rel = relc[f];
    return it->second;
  }
  int line(SourceLocation l) {
    return SM.getExpansionLineNumber(l);
  }
  std::string qname(const NamedDecl *d) {
    std::string s;
    llvm::raw_string_ostream os(s);
    d->printQualifiedName(os, PP);
    return os.str();
  }
  std::string usr(const Decl *d) {
    llvm::SmallString<128> b;
    if (index::generateUSRForDecl(d, b)) return "";
    return b.str().str();
  }
  Array targs(const FunctionDecl *f) {
    Array a;
    if (auto *l = f->getTemplateSpecializationArgs())
      for (auto &x : l->asArray()) addTA(a, x);
    return a;
  }
  void addTA(Array &a, const TemplateArgument &x) {
    switch (x.getKind()) {
    case TemplateArgument::Integral:
      a.push_back(x.getAsIntegral().getExtValue());
      break;
    case TemplateArgument::Type:
      a.push_back(x.getAsType().getCanonicalType().getAsString(PP));
      break;
    case TemplateArgument::Pack:
      for (auto &y : x.pack_elements()) addTA(a, y);
      break;
    default:
      a.push_back("?");
    }
  }
  std::string fnName(const FunctionDecl *f) {
    // qualified name without template args of the function itself
    return qname(f);
  }
  std::string fnId(const FunctionDecl *f) { return usr(f->getCanonicalDecl()); }

  void pos(Object &o, SourceLocation l) {
    if (l.isInvalid()) return;
    o["l"] = line(l);
  }

  Value ex(const Expr *e0) {
    if (!e0) return nullptr;
    const Expr *e = e0;
    // strip noise, remember numeric conversions
    bool conv = false;
    while (true) {
      if (auto *x = dyn_cast<ParenExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto *x = dyn_cast<FullExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto *x = dyn_cast<MaterializeTemporaryExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto *x = dyn_cast<CXXBindTemporaryExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) { e = x->getReplacement(); continue; }
      if (auto *x = dyn_cast<CXXDefaultArgExpr>(e)) { e = x->getExpr(); continue; }
      if (auto *x = dyn_cast<CXXDefaultInitExpr>(e)) { e = x->getExpr(); continue; }
      if (auto *x = dyn_cast<CXXRewrittenBinaryOperator>(e)) { e = x->getSemanticForm(); continue; }
      if (auto *x = dyn_cast<ImplicitCastExpr>(e)) {
        switch (x->getCastKind()) {
        case CK_IntegralCast: case CK_IntegralToFloating: case CK_FloatingToIntegral:
        case CK_FloatingCast: case CK_IntegralToBoolean: case CK_FloatingToBoolean:
        case CK_PointerToBoolean: {
          Object o;
          o["k"] = "icast";
          o["ck"] = x->getCastKindName();
          o["e"] = ex(x->getSubExpr());
          o["t"] = tid(x->getType());
          Expr::EvalResult R;
          if (!x->isValueDependent() && x->getType()->isIntegralOrEnumerationType() && x->EvaluateAsInt(R, C))
            o["cv"] = R.Val.getInt().getExtValue();
          pos(o, e->getBeginLoc());
          return o;
        }
        default: break;
        }
        e = x->getSubExpr();
        continue;
      }
      break;
    }
    (void)conv;
    Object o;
    o["t"] = tid(e->getType());
    pos(o, e->getExprLoc());
    if (!e->isValueDependent() && !e->getType().isNull() && e->isPRValue() &&
        e->getType()->isIntegralOrEnumerationType()) {
      Expr::EvalResult R;
      if (e->EvaluateAsInt(R, C)) o["cv"] = R.Val.getInt().getExtValue();
    }
    if (auto *x = dyn_cast<IntegerLiteral>(e)) {
      o["k"] = "int";
      llvm::SmallString<32> s;
      x->getValue().toString(s, 10, x->getType()->isSignedIntegerType());
      o["v"] = s.str().str();
    } else if (auto *x = dyn_cast<FloatingLiteral>(e)) {
      o["k"] = "flt";
      std::string s;
      llvm::raw_string_ostream os(s);
      os << llvm::format("%.17g", x->getValueAsApproximateDouble());
      o["v"] = os.str();
    } else if (auto *x = dyn_cast<CXXBoolLiteralExpr>(e)) {
      o["k"] = "int"; o["v"] = x->getValue() ? "1" : "0";
    } else if (auto *x = dyn_cast<CharacterLiteral>(e)) {
      o["k"] = "int"; o["v"] = std::to_string(x->getValue()); o["chr"] = true;
    } else if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) {
      o["k"] = "null";
    } else if (auto *x = dyn_cast<clang::StringLiteral>(e)) {
      o["k"] = "str";
      std::string s = x->isOrdinary() ? x->getString().str() : "";
      if (!llvm::json::isUTF8(s)) s = llvm::json::fixUTF8(s);
      o["v"] = s;
    } else if (isa<CXXThisExpr>(e)) {
      o["k"] = "this";
    } else if (auto *x = dyn_cast<DeclRefExpr>(e)) {
      const ValueDecl *d = x->getDecl();
      o["k"] = "ref";
      o["n"] = d->getNameAsString();
      if (auto *ec = dyn_cast<EnumConstantDecl>(d)) {
        o["dk"] = "enum"; o["cv"] = ec->getInitVal().getExtValue(); o["qn"] = qname(d);
      } else if (auto *f = dyn_cast<FunctionDecl>(d)) {
        o["dk"] = "fn"; o["fn"] = fnId(f); o["qn"] = fnName(f);
      } else if (auto *v = dyn_cast<VarDecl>(d)) {
        if (isa<ParmVarDecl>(v)) o["dk"] = "param";
        else if (v->isStaticLocal()) o["dk"] = "slocal";
        else if (v->hasLocalStorage()) o["dk"] = "local";
        else { o["dk"] = "global"; o["qn"] = qname(v); o["gid"] = usr(v->getCanonicalDecl()); }
        o["id"] = id(v->getCanonicalDecl());
      } else if (isa<FieldDecl>(d)) {
        o["dk"] = "field";
      } else if (auto *b = dyn_cast<BindingDecl>(d)) {
        o["dk"] = "local"; o["id"] = id(b);
      } else o["dk"] = "other";
    } else if (auto *x = dyn_cast<MemberExpr>(e)) {
      if (auto *f = dyn_cast<FieldDecl>(x->getMemberDecl())) {
        o["k"] = "mem";
        o["n"] = f->getNameAsString();
        o["cls"] = qname(f->getParent());
        o["b"] = ex(x->getBase());
        if (x->isArrow()) o["arrow"] = true;
      } else if (auto *v = dyn_cast<VarDecl>(x->getMemberDecl())) {
        o["k"] = "ref"; o["dk"] = "global"; o["n"] = v->getNameAsString(); o["qn"] = qname(v);
        o["id"] = id(v->getCanonicalDecl()); o["gid"] = usr(v->getCanonicalDecl());
      } else {
        o["k"] = "memfn";
        o["n"] = x->getMemberDecl()->getNameAsString();
        o["b"] = ex(x->getBase());
      }
    } else if (auto *x = dyn_cast<CXXOperatorCallExpr>(e)) {
      o["k"] = "call";
      o["op"] = getOperatorSpelling(x->getOperator());
      fillCallee(o, x->getDirectCallee(), x);
      Array a;
      unsigned st = 0;
      if (auto *m = dyn_cast_or_null<CXXMethodDecl>(x->getDirectCallee())) {
        if (!m->isStatic() && x->getNumArgs()) { o["o"] = ex(x->getArg(0)); st = 1; }
      }
      for (unsigned i = st; i < x->getNumArgs(); i++) a.push_back(ex(x->getArg(i)));
      o["a"] = std::move(a);
    } else if (auto *x = dyn_cast<CXXMemberCallExpr>(e)) {
      o["k"] = "call";
      fillCallee(o, x->getMethodDecl(), x);
      if (auto *me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParenImpCasts())) {
        o["o"] = ex(me->getBase());
        if (me->isArrow()) o["arrow"] = true;
        if (me->hasQualifier()) o["nonvirt"] = true;
      } else {
        o["o"] = ex(x->getImplicitObjectArgument());
        o["callee"] = ex(x->getCallee());
      }
      Array a;
      for (auto *y : x->arguments()) a.push_back(ex(y));
      o["a"] = std::move(a);
    } else if (auto *x = dyn_cast<CallExpr>(e)) {
      o["k"] = "call";
      if (x->getDirectCallee()) fillCallee(o, x->getDirectCallee(), x);
      else o["callee"] = ex(x->getCallee());
      Array a;
      for (auto *y : x->arguments()) a.push_back(ex(y));
      o["a"] = std::move(a);
    } else if (auto *x = dyn_cast<CXXConstructExpr>(e)) {
      // elide copies/moves
      if (x->isElidable() && x->getNumArgs() == 1) return ex(x->getArg(0));
      o["k"] = "ctor";
      o["fn"] = fnId(x->getConstructor());
      o["qn"] = qname(x->getConstructor()->getParent());
      if (x->getConstructor()->isCopyOrMoveConstructor()) o["copy"] = true;
      if (x->getConstructor()->isDefaultConstructor()) o["defc"] = true;
      Array a;
      for (auto *y : x->arguments()) a.push_back(ex(y));
      o["a"] = std::move(a);
    } else if (auto *x = dyn_cast<UnaryOperator>(e)) {
      o["k"] = "un";
      o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
      if (x->isPostfix()) o["post"] = true;
      o["e"] = ex(x->getSubExpr());
    } else if (auto *x = dyn_cast<BinaryOperator>(e)) {
      o["k"] = x->isAssignmentOp() ? "asg" : "bin";
      o["op"] = x->getOpcodeStr().str();
      o["x"] = ex(x->getLHS());
      o["y"] = ex(x->getRHS());
    } else if (auto *x = dyn_cast<ConditionalOperator>(e)) {
      o["k"] = "cond";
      o["c"] = ex(x->getCond());
      o["x"] = ex(x->getTrueExpr());
      o["y"] = ex(x->getFalseExpr());
    } else if (auto *x = dyn_cast<ArraySubscriptExpr>(e)) {
      o["k"] = "sub";
      o["b"] = ex(x->getBase());
      o["i"] = ex(x->getIdx());
    } else if (auto *x = dyn_cast<ExplicitCastExpr>(e)) {
      o["k"] = "cast";
      o["ck"] = x->getCastKindName();
      o["e"] = ex(x->getSubExpr());
      o["style"] = x->getStmtClassName();
      o["ts"] = tsugar(x->getTypeAsWritten());
    } else if (auto *x = dyn_cast<CXXNewExpr>(e)) {
      o["k"] = "new";
      o["at"] = tid(x->getAllocatedType());
      if (x->isArray()) { o["arr"] = true; if (auto s = x->getArraySize()) o["size"] = ex(*s); }
      if (x->getInitializer()) o["init"] = ex(x->getInitializer());
    } else if (auto *x = dyn_cast<CXXDeleteExpr>(e)) {
      o["k"] = "delete";
      if (x->isArrayForm()) o["arr"] = true;
      o["e"] = ex(x->getArgument());
    } else if (auto *x = dyn_cast<CXXThrowExpr>(e)) {
      o["k"] = "throw";
      if (x->getSubExpr()) { o["e"] = ex(x->getSubExpr()); o["tt"] = tid(x->getSubExpr()->getType()); }
    } else if (auto *x = dyn_cast<InitListExpr>(e)) {
      o["k"] = "list";
      const InitListExpr *sf = x->isSemanticForm() ? x : x->getSemanticForm();
      if (!sf) sf = x;
      Array a;
      for (unsigned i = 0; i < sf->getNumInits(); i++) a.push_back(ex(sf->getInit(i)));
      o["a"] = std::move(a);
    } else if (auto *x = dyn_cast<CXXStdInitializerListExpr>(e)) {
      return ex(x->getSubExpr());
    } else if (auto *x = dyn_cast<LambdaExpr>(e)) {
      o["k"] = "lambda";
      const CXXMethodDecl *m = x->getCallOperator();
      o["fn"] = fnId(m);
      o["params"] = params(m);
      Array caps;
      for (auto &c : x->captures()) {
        Object co;
        if (c.capturesThis()) co["this"] = true;
        else if (c.capturesVariable()) { co["id"] = id(c.getCapturedVar()->getCanonicalDecl()); co["n"] = c.getCapturedVar()->getNameAsString(); }
        co["ref"] = c.getCaptureKind() == LCK_ByRef || c.capturesThis();
        caps.push_back(std::move(co));
      }
      o["caps"] = std::move(caps);
      o["body"] = st(x->getBody());
    } else if (auto *x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
      o["k"] = "sizeof";
      if (x->isArgumentType()) o["at"] = tid(x->getArgumentType());
      else { o["at"] = tid(x->getArgumentExpr()->getType()); o["e"] = ex(x->getArgumentExpr()); }
    } else if (isa<CXXScalarValueInitExpr>(e) || isa<ImplicitValueInitExpr>(e)) {
      o["k"] = "zero";
    } else if (auto *x = dyn_cast<ArrayInitLoopExpr>(e)) {
      o["k"] = "arrinit"; o["e"] = ex(x->getCommonExpr() ? x->getCommonExpr()->getSourceExpr() : nullptr);
    } else if (auto *x = dyn_cast<OpaqueValueExpr>(e)) {
      return ex(x->getSourceExpr());
    } else if (auto *x = dyn_cast<CXXPseudoDestructorExpr>(e)) {
      o["k"] = "nop"; (void)x;
    } else if (auto *x = dyn_cast<PredefinedExpr>(e)) {
      o["k"] = "str"; o["v"] = "__func__"; (void)x;
    } else if (isa<TypeTraitExpr>(e)) {
      o["k"] = "int"; 
    } else {
      o["k"] = "other";
      o["cn"] = e->getStmtClassName();
      Array a;
      for (const Stmt *c : e->children()) if (auto *ce = dyn_cast_or_null<Expr>(c)) a.push_back(ex(ce));
      o["a"] = std::move(a);
    }
    return o;
  }

  void fillCallee(Object &o, const FunctionDecl *f, const CallExpr *c) {
    if (!f) return;
    o["fn"] = fnId(f);
    o["qn"] = fnName(f);
    o["n"] = f->getNameAsString();
    Array ta = targs(f);
    if (!ta.empty()) o["ta"] = std::move(ta);
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
      if (m->isVirtual()) o["virt"] = true;
      if (m->isConst()) o["const"] = true;
      o["cls"] = qname(m->getParent());
    }
    if (auto *ft = f->getType()->getAs<FunctionProtoType>())
      if (!isUnresolvedExceptionSpec(ft->getExceptionSpecType()) && ft->isNothrow()) o["noexcept"] = true;
    // reference params: for out-parameter dataflow
    Array rp;
    bool any = false;
    for (auto *p : f->parameters()) {
      QualType t = p->getType();
      int m = 0;
      if (t->isLValueReferenceType()) m = t->getPointeeType().isConstQualified() ? 1 : 2;
      else if (t->isRValueReferenceType()) m = 3;
      else if (t->isPointerType()) m = t->getPointeeType().isConstQualified() ? 4 : 5;
      if (m) any = true;
      rp.push_back(m);
    }
    if (any) o["rp"] = std::move(rp);
    std::string rel;
    if (inRoot(f->getLocation(), &rel)) o["in"] = true;
  }

  Array params(const FunctionDecl *f) {
    Array a;
    for (auto *p : f->parameters()) {
      Object o;
      o["id"] = id(p->getCanonicalDecl());
      o["n"] = p->getNameAsString();
      o["t"] = tid(p->getType());
      o["ts"] = tsugar(p->getType());
      a.push_back(std::move(o));
    }
    return a;
  }

  Value var(const VarDecl *v) {
    Object o;
    o["id"] = id(v->getCanonicalDecl());
    o["n"] = v->getNameAsString();
    o["t"] = tid(v->getType());
    o["ts"] = tsugar(v->getType());
    if (v->isStaticLocal()) o["static"] = true;
    if (v->hasInit()) o["i"] = ex(v->getInit());
    if (v->getType()->isReferenceType()) o["ref"] = true;
    pos(o, v->getLocation());
    if (auto *dd = dyn_cast<DecompositionDecl>(v)) {
      Array b;
      for (auto *x : dd->bindings()) {
        Object bo; bo["id"] = id(x); bo["n"] = x->getNameAsString();
        if (x->getBinding()) bo["e"] = ex(x->getBinding());
        if (auto *hv = x->getHoldingVar()) bo["hv"] = var(hv);
        b.push_back(std::move(bo));
      }
      o["bind"] = std::move(b);
    }
    return o;
  }

  Value st(const Stmt *s) {
    if (!s) return nullptr;
    Object o;
    pos(o, s->getBeginLoc());
    if (auto *x = dyn_cast<CompoundStmt>(s)) {
      o["k"] = "blk";
      Array a;
      for (auto *y : x->body()) a.push_back(st(y));
      o["s"] = std::move(a);
      o["le"] = line(x->getEndLoc());
    } else if (auto *x = dyn_cast<DeclStmt>(s)) {
      o["k"] = "decl";
      Array a;
      for (auto *d : x->decls())
        if (auto *v = dyn_cast<VarDecl>(d)) a.push_back(var(v));
      o["v"] = std::move(a);
    } else if (auto *x = dyn_cast<IfStmt>(s)) {
      o["k"] = "if";
      if (x->getInit()) o["init"] = st(x->getInit());
      if (x->getConditionVariable()) o["cvar"] = var(x->getConditionVariable());
      if (x->isConstexpr()) o["cexpr"] = true;
      o["c"] = ex(x->getCond());
      o["x"] = st(x->getThen());
      o["y"] = st(x->getElse());
    } else if (auto *x = dyn_cast<ForStmt>(s)) {
      o["k"] = "for";
      o["init"] = st(x->getInit());
      o["c"] = ex(x->getCond());
      o["inc"] = ex(x->getInc());
      o["b"] = st(x->getBody());
    } else if (auto *x = dyn_cast<WhileStmt>(s)) {
      o["k"] = "while";
      if (x->getConditionVariable()) o["cvar"] = var(x->getConditionVariable());
      o["c"] = ex(x->getCond());
      o["b"] = st(x->getBody());
    } else if (auto *x = dyn_cast<DoStmt>(s)) {
      o["k"] = "do";
      o["c"] = ex(x->getCond());
      o["b"] = st(x->getBody());
    } else if (auto *x = dyn_cast<CXXForRangeStmt>(s)) {
      o["k"] = "rfor";
      if (x->getInit()) o["init"] = st(x->getInit());
      o["v"] = var(x->getLoopVariable());
      o["r"] = ex(x->getRangeInit());
      o["b"] = st(x->getBody());
    } else if (auto *x = dyn_cast<ReturnStmt>(s)) {
      o["k"] = "ret";
      o["e"] = ex(x->getRetValue());
    } else if (isa<BreakStmt>(s)) {
      o["k"] = "brk";
    } else if (isa<ContinueStmt>(s)) {
      o["k"] = "cont";
    } else if (auto *x = dyn_cast<SwitchStmt>(s)) {
      o["k"] = "sw";
      if (x->getInit()) o["init"] = st(x->getInit());
      o["c"] = ex(x->getCond());
      o["b"] = st(x->getBody());
    } else if (auto *x = dyn_cast<CaseStmt>(s)) {
      o["k"] = "case";
      o["v"] = ex(x->getLHS());
      o["s"] = st(x->getSubStmt());
    } else if (auto *x = dyn_cast<DefaultStmt>(s)) {
      o["k"] = "default";
      o["s"] = st(x->getSubStmt());
    } else if (auto *x = dyn_cast<CXXTryStmt>(s)) {
      o["k"] = "try";
      o["b"] = st(x->getTryBlock());
      Array h;
      for (unsigned i = 0; i < x->getNumHandlers(); i++) {
        auto *c = x->getHandler(i);
        Object ho;
        if (!c->getCaughtType().isNull()) ho["t"] = tid(c->getCaughtType().getNonReferenceType().getUnqualifiedType());
        if (c->getExceptionDecl()) ho["v"] = var(c->getExceptionDecl());
        ho["b"] = st(c->getHandlerBlock());
        pos(ho, c->getBeginLoc());
        h.push_back(std::move(ho));
      }
      o["h"] = std::move(h);
    } else if (isa<NullStmt>(s)) {
      o["k"] = "null";
    } else if (auto *x = dyn_cast<Expr>(s)) {
      o["k"] = "expr";
      o["e"] = ex(x);
    } else if (auto *x = dyn_cast<AttributedStmt>(s)) {
      return st(x->getSubStmt());
    } else if (auto *x = dyn_cast<LabelStmt>(s)) {
      o["k"] = "label"; o["n"] = x->getName(); o["s"] = st(x->getSubStmt());
    } else if (auto *x = dyn_cast<GotoStmt>(s)) {
      o["k"] = "goto"; o["n"] = x->getLabel()->getNameAsString();
    } else {
      o["k"] = "sother"; o["cn"] = s->getStmtClassName();
    }
    return o;
  }

  bool VisitFunctionDecl(FunctionDecl *f) {
    std::string rel;
    if (!inRoot(f->getLocation(), &rel)) return true;
    if (f->isTemplated()) return true; // dependent
    bool def = f->doesThisDeclarationHaveABody() || (f->isDefaulted() && f->isThisDeclarationADefinition());
    if (!seen.insert(f).second) return true;
    Object o;
    o["fn"] = fnId(f);
    o["qn"] = fnName(f);
    o["n"] = f->getNameAsString();
    o["file"] = rel;
    pos(o, f->getLocation());
    o["params"] = params(f);
    o["rt"] = tid(f->getReturnType());
    o["rts"] = tsugar(f->getReturnType());
    if (f->isExternC()) o["externC"] = true;
    if (f->isImplicit()) o["implicit"] = true;
    if (f->isDefaulted()) o["defaulted"] = true;
    if (f->isDeleted()) o["deleted"] = true;
    if (f->getStorageClass() == SC_Static) o["static"] = true;
    Array ta = targs(f);
    if (!ta.empty()) o["ta"] = std::move(ta);
    if (f->getTemplateSpecializationKind() == TSK_ImplicitInstantiation) o["inst"] = true;
    if (auto *ft = f->getType()->getAs<FunctionProtoType>())
      if (!isUnresolvedExceptionSpec(ft->getExceptionSpecType()) && ft->isNothrow()) o["noexcept"] = true;
    if (f->isVariadic()) o["variadic"] = true;
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
      o["cls"] = qname(m->getParent());
      if (m->isVirtual()) o["virt"] = true;
      if (m->isPureVirtual()) o["pure"] = true;
      if (m->isConst()) o["const"] = true;
      if (m->isStatic()) o["smethod"] = true;
      const char *acc[] = {"public", "protected", "private", "none"};
      o["access"] = acc[m->getAccess()];
      Array ov;
      for (auto *b : m->overridden_methods()) ov.push_back(fnId(b));
      if (!ov.empty()) o["over"] = std::move(ov);
      if (isa<CXXConstructorDecl>(m)) o["kind"] = "ctor";
      if (isa<CXXDestructorDecl>(m)) o["kind"] = "dtor";
      if (m->getParent()->isLambda()) o["lambda"] = true;
    }
    if (def && f->getBody()) {
      if (auto *c = dyn_cast<CXXConstructorDecl>(f)) {
        Array in;
        for (auto *i : c->inits()) {
          Object io;
          if (i->isMemberInitializer()) { io["f"] = i->getMember()->getNameAsString(); io["cls"] = qname(i->getMember()->getParent()); }
          else if (i->isBaseInitializer()) io["base"] = tid(QualType(i->getBaseClass(), 0));
          else io["deleg"] = true;
          io["e"] = ex(i->getInit());
          if (i->isWritten()) io["w"] = true;
          in.push_back(std::move(io));
        }
        o["inits"] = std::move(in);
      }
      o["body"] = st(f->getBody());
      funcs.push_back(std::move(o));
    } else {
      decls.push_back(std::move(o));
    }
    return true;
  }

  bool VisitCXXRecordDecl(CXXRecordDecl *r) {
    std::string rel;
    if (!r->isThisDeclarationADefinition() || !inRoot(r->getLocation(), &rel)) return true;
    if (r->isDependentContext() || r->isLambda()) return true;
    if (!seen.insert(r).second) return true;
    Object o;
    o["qn"] = qname(r);
    o["tn"] = tid(C.getRecordType(r));
    o["usr"] = usr(r);
    o["file"] = rel;
    pos(o, r->getLocation());
    Array b;
    for (auto &x : r->bases()) {
      Object bo;
      bo["t"] = tid(x.getType());
      if (auto *br = x.getType()->getAsCXXRecordDecl()) bo["qn"] = qname(br);
      bo["virt"] = x.isVirtual();
      b.push_back(std::move(bo));
    }
    o["bases"] = std::move(b);
    Array fs;
    for (auto *f : r->fields()) {
      Object fo;
      fo["n"] = f->getNameAsString();
      fo["t"] = tid(f->getType());
      fo["ts"] = tsugar(f->getType());
      const char *acc[] = {"public", "protected", "private", "none"};
      fo["access"] = acc[f->getAccess()];
      if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["i"] = ex(f->getInClassInitializer());
      pos(fo, f->getLocation());
      fs.push_back(std::move(fo));
    }
    o["fields"] = std::move(fs);
    if (auto *ts = dyn_cast<ClassTemplateSpecializationDecl>(r)) {
      Array a;
      for (auto &x : ts->getTemplateArgs().asArray()) addTA(a, x);
      o["ta"] = std::move(a);
    }
    classes.push_back(std::move(o));
    return true;
  }
  bool VisitEnumDecl(EnumDecl *d) {
    std::string rel;
    if (!d->isThisDeclarationADefinition() || !inRoot(d->getLocation(), &rel)) return true;
    if (d->isDependentContext()) return true;
    Object o;
    o["qn"] = qname(d);
    o["file"] = rel;
    pos(o, d->getLocation());
    Array a;
    for (auto *e : d->enumerators()) {
      Object eo; eo["n"] = e->getNameAsString(); eo["v"] = e->getInitVal().getExtValue();
      a.push_back(std::move(eo));
    }
    o["e"] = std::move(a);
    enums.push_back(std::move(o));
    return true;
  }
  bool VisitVarDecl(VarDecl *v) {
    if (v->hasLocalStorage() || isa<ParmVarDecl>(v)) return true;
    std::string rel;
    if (!inRoot(v->getLocation(), &rel)) return true;
    if (v->isTemplated()) return true;
    Object o;
    o["n"] = v->getNameAsString();
    o["qn"] = qname(v);
    o["gid"] = usr(v->getCanonicalDecl());
    o["id"] = id(v->getCanonicalDecl());
    o["file"] = rel;
    o["t"] = tid(v->getType());
    o["ts"] = tsugar(v->getType());
    o["const"] = v->getType().isConstQualified() || v->isConstexpr();
    if (v->isStaticLocal()) o["slocal"] = true;
    if (v->getTSCSpec() != TSCS_unspecified) o["tls"] = true;
    if (v->hasInit()) o["i"] = ex(v->getInit());
    if (v->isThisDeclarationADefinition() == VarDecl::DeclarationOnly) o["decl"] = true;
    pos(o, v->getLocation());
    globals.push_back(std::move(o));
    return true;
  }
};

struct MacroRec { std::string name, body, file; int line; };
static std::vector<MacroRec> gMacros;

struct PPC : PPCallbacks {
  SourceManager &SM; const LangOptions &LO;
  PPC(SourceManager &s, const LangOptions &l) : SM(s), LO(l) {}
  void MacroDefined(const Token &T, const MacroDirective *MD) override {
    auto l = MD->getLocation();
    if (l.isInvalid()) return;
    PresumedLoc p = SM.getPresumedLoc(SM.getExpansionLoc(l));
    if (p.isInvalid()) return;
    std::string f = p.getFilename();
    llvm::SmallString<256> rp;
    if (!llvm::sys::fs::real_path(f, rp)) f = rp.str().str();
    if (f.compare(0, gRoot.size(), gRoot) || f.find("/Eigen/") != std::string::npos) return;
    auto *mi = MD->getMacroInfo();
    if (mi->isFunctionLike()) return;
    std::string b;
    for (auto &t : mi->tokens()) {
      b += Lexer::getSpelling(t, SM, LO);
      b += " ";
    }
    gMacros.push_back({T.getIdentifierInfo()->getName().str(), b, f.substr(gRoot.size()), (int)p.getLine()});
  }
};

struct Consumer : ASTConsumer {
  CompilerInstance &CI;
  explicit Consumer(CompilerInstance &c) : CI(c) {}
  void HandleTranslationUnit(ASTContext &c) override {
    Dumper d(c);
    d.TraverseDecl(c.getTranslationUnitDecl());
    Object o;
    o["errors"] = (int)c.getDiagnostics().getClient()->getNumErrors();
    Array t;
    for (auto &s : d.typeList) t.push_back(s);
    o["types"] = std::move(t);
    o["funcs"] = std::move(d.funcs);
    o["decls"] = std::move(d.decls);
    o["classes"] = std::move(d.classes);
    o["enums"] = std::move(d.enums);
    o["globals"] = std::move(d.globals);
    Array m;
    for (auto &x : gMacros) { Object mo; mo["n"] = x.name; mo["b"] = x.body; mo["file"] = x.file; mo["l"] = x.line; m.push_back(std::move(mo)); }
    o["macros"] = std::move(m);
    std::error_code ec;
    llvm::raw_fd_ostream os(gOut, ec);
    os << Value(std::move(o));
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override {
    CI.getPreprocessor().addPPCallbacks(std::make_unique<PPC>(CI.getSourceManager(), CI.getLangOpts()));
    return std::make_unique<Consumer>(CI);
  }
};

int main(int argc, const char **argv) {
  if (argc < 4) return 2;
  gRoot = argv[1];
  gOut = argv[2];
  std::string src = argv[3];
  std::vector<std::string> args;
  for (int i = 4; i < argc; i++) args.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", args);
  tooling::ClangTool tool(db, {src});
  tool.setPrintErrorMessage(true);
  return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
