// sotx: dumps the typed AST of every function body located under a given source root as JSON.
// Usage: sotx -root /repo -o out.json file.cpp -- <clang flags>
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include <fstream>
#include <map>
#include <set>
using namespace clang;
using namespace llvm;
static cl::OptionCategory Cat("sotx");
static cl::list<std::string> Roots("root", cl::desc("source roots"), cl::cat(Cat));
static cl::opt<std::string> Out("o", cl::desc("output"), cl::cat(Cat));

namespace {
struct Dumper {
  ASTContext &C;
  json::OStream &J;
  PrintingPolicy PP;
  std::map<const Decl *, int> Ids;
  std::map<std::string, int> TypeIds;
  std::vector<std::string> Types;
  Dumper(ASTContext &c, json::OStream &j) : C(c), J(j), PP(c.getLangOpts()) {
    PP.SuppressTagKeyword = true; PP.Bool = true; PP.PrintCanonicalTypes = true; PP.FullyQualifiedName = true;
    PP.SuppressInlineNamespace = true;
  }
  int id(const Decl *d) {
    d = d->getCanonicalDecl();
    auto it = Ids.find(d);
    if (it != Ids.end()) return it->second;
    int n = (int)Ids.size() + 1;
    Ids[d] = n;
    return n;
  }
  int ty(QualType q) {
    if (q.isNull()) return -1;
    std::string s = q.getCanonicalType().getAsString(PP);
    auto it = TypeIds.find(s);
    if (it != TypeIds.end()) return it->second;
    int n = (int)Types.size();
    Types.push_back(s);
    TypeIds[s] = n;
    return n;
  }
  // Qualified name without template arguments.
  std::string qn(const NamedDecl *d) {
    std::string s;
    if (auto *cc = dyn_cast<CXXConversionDecl>(d)) s = "operator_conv";
    else s = d->getNameAsString();
    if (isa<CXXConstructorDecl>(d)) s = "ctor";
    if (isa<CXXDestructorDecl>(d)) s = "dtor";
    if (auto *r = dyn_cast<CXXRecordDecl>(d)) if (r->isLambda()) s = "lambda";
    const DeclContext *dc = d->getDeclContext();
    while (dc && !dc->isTranslationUnit()) {
      if (auto *ns = dyn_cast<NamespaceDecl>(dc)) {
        if (!ns->isInline() && !ns->isAnonymousNamespace()) s = ns->getNameAsString() + "::" + s;
      } else if (auto *nd = dyn_cast<NamedDecl>(dc)) {
        if (isa<TagDecl>(dc)) s = nd->getNameAsString() + "::" + s;
      }
      dc = dc->getParent();
    }
    return s;
  }
  std::string recName(const CXXRecordDecl *r) { return C.getRecordType(r).getCanonicalType().getAsString(PP); }
  bool inRoots(SourceLocation L, std::string *f = nullptr, unsigned *line = nullptr) {
    if (L.isInvalid()) return false;
    auto &SM = C.getSourceManager();
    L = SM.getExpansionLoc(L);
    auto P = SM.getPresumedLoc(L);
    if (P.isInvalid()) return false;
    std::string fn = P.getFilename();
    if (f) *f = fn;
    if (line) *line = P.getLine();
    for (auto &r : Roots) if (fn.compare(0, r.size(), r) == 0) return true;
    return false;
  }
  unsigned line(SourceLocation L) {
    auto &SM = C.getSourceManager();
    auto P = SM.getPresumedLoc(SM.getExpansionLoc(L));
    return P.isInvalid() ? 0 : P.getLine();
  }
  std::string fnKey(const FunctionDecl *f) {
    // unique key: owner type + name + parameter types + const
    std::string s;
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) s = recName(m->getParent()) + "::";
    else { std::string q = qn(f); auto p = q.rfind("::"); if (p != std::string::npos) s = q.substr(0, p + 2); }
    if (isa<CXXConstructorDecl>(f)) s += "ctor";
    else if (isa<CXXDestructorDecl>(f)) s += "dtor";
    else if (auto *cc = dyn_cast<CXXConversionDecl>(f)) s += "operator_conv " + cc->getConversionType().getCanonicalType().getAsString(PP);
    else s += f->getNameAsString();
    if (auto *ta = f->getTemplateSpecializationArgs()) {
      s += "<";
      for (unsigned i = 0; i < ta->size(); ++i) { if (i) s += ","; std::string t; raw_string_ostream os(t); ta->get(i).print(PP, os, true); s += os.str(); }
      s += ">";
    }
    s += "(";
    for (unsigned i = 0; i < f->getNumParams(); ++i) { if (i) s += ", "; s += f->getParamDecl(i)->getType().getCanonicalType().getAsString(PP); }
    s += ")";
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) if (m->isConst()) s += " const";
    return s;
  }
  void callee(const FunctionDecl *f) {
    J.attribute("fn", qn(f));
    if (f->hasBody() || true) {
      if (inRoots(f->getLocation())) J.attribute("fk", fnKey(f));
      else {
        const FunctionDecl *def = nullptr;
        if (f->hasBody(def) && inRoots(def->getLocation())) J.attribute("fk", fnKey(f));
      }
    }
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
      if (m->isVirtual()) J.attribute("virt", true);
      if (m->isStatic()) J.attribute("static", true);
      J.attribute("cls", ty(C.getRecordType(m->getParent())));
    }
    if (auto *ta = f->getTemplateSpecializationArgs()) {
      J.attributeArray("ta", [&] {
        for (unsigned i = 0; i < ta->size(); ++i) { std::string t; raw_string_ostream os(t); ta->get(i).print(PP, os, true); J.value(os.str()); }
      });
    }
    J.attributeArray("pt", [&] { for (auto *p : f->parameters()) J.value(ty(p->getType())); });
  }
  void exprAttr(const char *n, const Expr *e) {
    J.attributeBegin(n);
    expr(e);
    J.attributeEnd();
  }
  void args(const char *n, ArrayRef<const Expr *> a) {
    J.attributeArray(n, [&] { for (auto *x : a) expr(x); });
  }
  void var(const VarDecl *v) {
    J.object([&] {
      J.attribute("id", id(v));
      J.attribute("name", v->getNameAsString());
      J.attribute("t", ty(v->getType()));
      J.attribute("line", line(v->getLocation()));
      if (v->isStaticLocal()) J.attribute("staticlocal", true);
      if (v->getInit() && !isa<ParmVarDecl>(v)) exprAttr("init", v->getInit());
    });
  }
  void expr(const Expr *e) {
    if (!e) { J.value(nullptr); return; }
    // transparent nodes
    while (true) {
      if (auto *p = dyn_cast<ParenExpr>(e)) e = p->getSubExpr();
      else if (auto *p = dyn_cast<FullExpr>(e)) e = p->getSubExpr();
      else if (auto *p = dyn_cast<CXXBindTemporaryExpr>(e)) e = p->getSubExpr();
      else if (auto *p = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e = p->getReplacement();
      else if (auto *p = dyn_cast<CXXDefaultArgExpr>(e)) e = p->getExpr();
      else if (auto *p = dyn_cast<CXXDefaultInitExpr>(e)) e = p->getExpr();
      else if (auto *p = dyn_cast<CXXStdInitializerListExpr>(e)) e = p->getSubExpr();
      else break;
    }
    J.object([&] {
      J.attribute("t", ty(e->getType()));
      if (e->isLValue()) J.attribute("lv", 1);
      else if (e->isXValue()) J.attribute("lv", 2);
      J.attribute("line", line(e->getExprLoc()));
      body(e);
    });
  }
  void body(const Expr *e) {
    auto K = [&](const char *k) { J.attribute("k", k); };
    if (auto *x = dyn_cast<MaterializeTemporaryExpr>(e)) { K("Temp"); exprAttr("e", x->getSubExpr()); return; }
    if (auto *x = dyn_cast<IntegerLiteral>(e)) { K("Int"); SmallString<32> s; x->getValue().toString(s, 10, x->getType()->isSignedIntegerType()); J.attribute("v", s.str()); return; }
    if (auto *x = dyn_cast<CharacterLiteral>(e)) { K("Char"); J.attribute("v", (int64_t)x->getValue()); return; }
    if (auto *x = dyn_cast<FloatingLiteral>(e)) { K("Float"); SmallString<64> s; x->getValue().toString(s, 0, 0); 
      J.attribute("v", s.str());
      // source spelling, so that decimal literals keep their exact decimal value
      auto &SM = C.getSourceManager();
      std::string sp = Lexer::getSourceText(CharSourceRange::getTokenRange(x->getSourceRange()), SM, C.getLangOpts()).str();
      J.attribute("sp", sp); return; }
    if (auto *x = dyn_cast<CXXBoolLiteralExpr>(e)) { K("Bool"); J.attribute("v", x->getValue()); return; }
    if (auto *x = dyn_cast<clang::PredefinedExpr>(e)) if (auto *l = x->getFunctionName()) { K("Str"); J.attribute("v", json::fixUTF8(l->getString())); return; }
    if (auto *x = dyn_cast<clang::StringLiteral>(e)) { K("Str"); if (x->getCharByteWidth() == 1) J.attribute("v", json::fixUTF8(x->getString())); else J.attribute("v", ""); return; }
    if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) { K("Null"); return; }
    if (isa<CXXThisExpr>(e)) { K("This"); return; }
    if (auto *x = dyn_cast<DeclRefExpr>(e)) {
      auto *d = x->getDecl();
      if (auto *ec = dyn_cast<EnumConstantDecl>(d)) { K("Enum"); SmallString<32> s; ec->getInitVal().toString(s, 10); J.attribute("v", s.str()); J.attribute("name", qn(ec)); return; }
      if (auto *f = dyn_cast<FunctionDecl>(d)) { K("FnRef"); callee(f); return; }
      // static constant of a library class (e.g. a type trait): its value
      if (auto *v = dyn_cast<VarDecl>(d)) if (v->isStaticDataMember() && v->getType().isConstQualified() && v->getType()->isIntegralOrEnumerationType() && !v->getType()->isEnumeralType() && !x->isInstantiationDependent()) {
        Expr::EvalResult r;
        if (x->EvaluateAsRValue(r, C) && r.Val.isInt()) {
          if (v->getType()->isBooleanType()) { K("Bool"); J.attribute("v", r.Val.getInt() != 0); }
          else { K("Int"); SmallString<32> s; r.Val.getInt().toString(s, 10); J.attribute("v", s.str()); }
          return;
        }
      }
      K("Ref"); J.attribute("id", id(d)); J.attribute("name", d->getNameAsString());
      if (auto *v = dyn_cast<VarDecl>(d)) { if (v->hasGlobalStorage() && !v->isStaticLocal()) J.attribute("global", qn(v)); 
         if (v->getType()->isReferenceType()) J.attribute("isref", true);}
      return;
    }
    if (auto *x = dyn_cast<MemberExpr>(e)) {
      auto *d = x->getMemberDecl();
      if (auto *v = dyn_cast<VarDecl>(d)) { K("Ref"); J.attribute("id", id(v)); J.attribute("name", v->getNameAsString()); J.attribute("global", qn(v)); return; }
      if (auto *ec = dyn_cast<EnumConstantDecl>(d)) { K("Enum"); SmallString<32> s; ec->getInitVal().toString(s, 10); J.attribute("v", s.str()); return; }
      if (auto *f = dyn_cast<FunctionDecl>(d)) { K("FnRef"); callee(f); return; }
      K("Member"); J.attribute("f", d->getNameAsString());
      if (auto *fd = dyn_cast<FieldDecl>(d)) { J.attribute("owner", ty(C.getRecordType(fd->getParent()))); if (fd->getType()->isReferenceType()) J.attribute("isref", true); }
      J.attribute("arrow", x->isArrow());
      exprAttr("e", x->getBase());
      return;
    }
    if (auto *x = dyn_cast<CXXOperatorCallExpr>(e)) {
      K("Op"); J.attribute("op", getOperatorSpelling(x->getOperator()));
      if (auto *f = x->getDirectCallee()) callee(f);
      std::vector<const Expr *> a(x->getArgs(), x->getArgs() + x->getNumArgs());
      args("a", a);
      return;
    }
    if (auto *x = dyn_cast<CXXMemberCallExpr>(e)) {
      auto *f = x->getMethodDecl();
      K("MCall");
      if (f) callee(f);
      auto *c = x->getCallee()->IgnoreParens();
      if (auto *me = dyn_cast<MemberExpr>(c)) {
        exprAttr("o", me->getBase()); J.attribute("arrow", me->isArrow());
        if (me->hasQualifier()) J.attribute("qual", true);
      }
      else if (auto *bo = dyn_cast<BinaryOperator>(c)) { exprAttr("o", bo->getLHS()); exprAttr("mp", bo->getRHS()); J.attribute("arrow", bo->getOpcode() == BO_PtrMemI); }
      std::vector<const Expr *> a(x->getArgs(), x->getArgs() + x->getNumArgs());
      args("a", a);
      return;
    }
    if (auto *x = dyn_cast<CallExpr>(e)) {
      K("Call");
      if (auto *f = x->getDirectCallee()) callee(f);
      else exprAttr("callee", x->getCallee());
      std::vector<const Expr *> a(x->getArgs(), x->getArgs() + x->getNumArgs());
      args("a", a);
      return;
    }
    if (auto *x = dyn_cast<CXXConstructExpr>(e)) {
      K("Construct");
      auto *ctor = x->getConstructor();
      callee(ctor);
      if (ctor->isCopyConstructor()) J.attribute("copy", true);
      if (ctor->isMoveConstructor()) J.attribute("move", true);
      if (x->isElidable()) J.attribute("elide", true);
      if (x->isListInitialization()) J.attribute("list", true);
      std::vector<const Expr *> a(x->getArgs(), x->getArgs() + x->getNumArgs());
      args("a", a);
      return;
    }
    if (auto *x = dyn_cast<UnaryOperator>(e)) { K("Un"); J.attribute("op", UnaryOperator::getOpcodeStr(x->getOpcode())); J.attribute("post", x->isPostfix()); exprAttr("e", x->getSubExpr()); return; }
    if (auto *x = dyn_cast<CompoundAssignOperator>(e)) { K("CAssign"); J.attribute("op", x->getOpcodeStr().drop_back(1)); J.attribute("ct", ty(x->getComputationResultType())); exprAttr("l", x->getLHS()); exprAttr("r", x->getRHS()); return; }
    if (auto *x = dyn_cast<BinaryOperator>(e)) { K("Bin"); J.attribute("op", x->getOpcodeStr()); exprAttr("l", x->getLHS()); exprAttr("r", x->getRHS()); return; }
    if (auto *x = dyn_cast<ConditionalOperator>(e)) { K("Cond"); exprAttr("c", x->getCond()); exprAttr("l", x->getTrueExpr()); exprAttr("r", x->getFalseExpr()); return; }
    if (auto *x = dyn_cast<CastExpr>(e)) {
      K("Cast"); J.attribute("ck", x->getCastKindName());
      if (isa<ExplicitCastExpr>(x)) J.attribute("explicit", true);
      exprAttr("e", x->getSubExpr());
      return;
    }
    if (auto *x = dyn_cast<ArraySubscriptExpr>(e)) { K("Index"); exprAttr("b", x->getBase()); exprAttr("i", x->getIdx()); return; }
    if (auto *x = dyn_cast<InitListExpr>(e)) {
      K("InitList");
      std::vector<const Expr *> a(x->inits().begin(), x->inits().end());
      args("a", a);
      return;
    }
    if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) { K("ZeroInit"); return; }
    if (auto *x = dyn_cast<CXXNewExpr>(e)) { K("New"); J.attribute("nt", ty(x->getAllocatedType())); if (x->isArray() && x->getArraySize()) exprAttr("n", *x->getArraySize()); if (x->getInitializer()) exprAttr("init", x->getInitializer()); if (x->getNumPlacementArgs()) exprAttr("place", x->getPlacementArg(0)); return; }
    if (auto *x = dyn_cast<CXXDeleteExpr>(e)) { K("Delete"); exprAttr("e", x->getArgument()); return; }
    if (auto *x = dyn_cast<CXXThrowExpr>(e)) { K("Throw"); if (x->getSubExpr()) exprAttr("e", x->getSubExpr()); return; }
    if (auto *x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
      Expr::EvalResult r;
      K("Int"); if (x->EvaluateAsInt(r, C)) { SmallString<32> s; r.Val.getInt().toString(s, 10); J.attribute("v", s.str()); } else J.attribute("v", "0");
      return;
    }
    if (auto *x = dyn_cast<TypeTraitExpr>(e)) { K("Bool"); J.attribute("v", x->getValue()); return; }
    if (auto *x = dyn_cast<LambdaExpr>(e)) {
      K("Lambda"); J.attribute("cls", ty(C.getRecordType(x->getLambdaClass())));
      J.attributeArray("caps", [&] { for (auto &c : x->captures()) if (c.capturesVariable()) J.object([&] { J.attribute("id", id(c.getCapturedVar())); J.attribute("byref", c.getCaptureKind() == LCK_ByRef); }); });
      J.attributeArray("params", [&] { for (auto *p : x->getCallOperator()->parameters()) var(p); });
      J.attributeBegin("body"); stmt(x->getBody()); J.attributeEnd();
      return;
    }
    if (auto *x = dyn_cast<ArrayInitLoopExpr>(e)) { K("ArrayCopy"); exprAttr("e", x->getCommonExpr()->getSourceExpr()); return; }
    if (auto *x = dyn_cast<OpaqueValueExpr>(e)) { K("Opaque"); if (x->getSourceExpr()) exprAttr("e", x->getSourceExpr()); return; }
    if (auto *x = dyn_cast<CXXTypeidExpr>(e)) { (void)x; K("Typeid"); return; }
    K("Unsupported"); J.attribute("cls", e->getStmtClassName());
  }
  void stmt(const Stmt *s) {
    if (!s) { J.value(nullptr); return; }
    if (auto *e = dyn_cast<Expr>(s)) { J.object([&] { J.attribute("k", "Expr"); J.attribute("line", line(e->getExprLoc())); exprAttr("e", e); }); return; }
    J.object([&] {
      J.attribute("line", line(s->getBeginLoc()));
      auto K = [&](const char *k) { J.attribute("k", k); };
      auto S = [&](const char *n, const Stmt *x) { J.attributeBegin(n); stmt(x); J.attributeEnd(); };
      if (auto *x = dyn_cast<CompoundStmt>(s)) { K("Block"); J.attributeArray("s", [&] { for (auto *c : x->body()) stmt(c); }); return; }
      if (auto *x = dyn_cast<DeclStmt>(s)) { K("Decl"); J.attributeArray("d", [&] { for (auto *d : x->decls()) if (auto *v = dyn_cast<VarDecl>(d)) var(v); }); return; }
      if (auto *x = dyn_cast<IfStmt>(s)) {
        K("If"); if (x->getInit()) S("init", x->getInit());
        if (auto *v = x->getConditionVariable()) { J.attributeBegin("cv"); var(v); J.attributeEnd(); }
        exprAttr("c", x->getCond()); S("th", x->getThen()); if (x->getElse()) S("el", x->getElse()); return; }
      if (auto *x = dyn_cast<ForStmt>(s)) { K("For"); if (x->getInit()) S("init", x->getInit()); if (x->getCond()) exprAttr("c", x->getCond()); if (x->getInc()) exprAttr("inc", x->getInc()); S("b", x->getBody()); return; }
      if (auto *x = dyn_cast<WhileStmt>(s)) { K("While"); exprAttr("c", x->getCond()); S("b", x->getBody()); return; }
      if (auto *x = dyn_cast<DoStmt>(s)) { K("Do"); exprAttr("c", x->getCond()); S("b", x->getBody()); return; }
      if (auto *x = dyn_cast<CXXForRangeStmt>(s)) {
        K("RangeFor");
        exprAttr("range", x->getRangeInit());
        S("rangedecl", x->getRangeStmt()); S("begin", x->getBeginStmt()); S("end", x->getEndStmt());
        exprAttr("c", x->getCond()); exprAttr("inc", x->getInc()); S("vardecl", x->getLoopVarStmt()); S("b", x->getBody()); return; }
      if (auto *x = dyn_cast<ReturnStmt>(s)) { K("Return"); if (x->getRetValue()) exprAttr("e", x->getRetValue()); return; }
      if (isa<BreakStmt>(s)) { K("Break"); return; }
      if (isa<ContinueStmt>(s)) { K("Continue"); return; }
      if (isa<NullStmt>(s)) { K("Null"); return; }
      if (auto *x = dyn_cast<SwitchStmt>(s)) { K("Switch"); exprAttr("c", x->getCond()); S("b", x->getBody()); return; }
      if (auto *x = dyn_cast<CaseStmt>(s)) { K("Case"); exprAttr("v", x->getLHS()); S("s", x->getSubStmt()); return; }
      if (auto *x = dyn_cast<DefaultStmt>(s)) { K("Default"); S("s", x->getSubStmt()); return; }
      if (auto *x = dyn_cast<CXXTryStmt>(s)) {
        K("Try"); S("b", x->getTryBlock());
        J.attributeArray("h", [&] { for (unsigned i = 0; i < x->getNumHandlers(); ++i) J.object([&] {
          auto *h = x->getHandler(i);
          if (h->getExceptionDecl()) { J.attributeBegin("v"); var(h->getExceptionDecl()); J.attributeEnd(); }
          J.attributeBegin("b"); stmt(h->getHandlerBlock()); J.attributeEnd(); }); });
        return; }
      if (auto *x = dyn_cast<AttributedStmt>(s)) { K("Block"); J.attributeArray("s", [&] { stmt(x->getSubStmt()); }); return; }
      if (auto *x = dyn_cast<LabelStmt>(s)) { K("Unsupported"); J.attribute("cls", "LabelStmt"); (void)x; return; }
      K("Unsupported"); J.attribute("cls", s->getStmtClassName());
    });
  }
  void function(const FunctionDecl *f) {
    std::string file; unsigned ln = 0;
    inRoots(f->getLocation(), &file, &ln);
    J.object([&] {
      J.attribute("key", fnKey(f));
      J.attribute("qn", qn(f));
      J.attribute("file", file); J.attribute("line", ln);
      J.attribute("endline", line(f->getEndLoc()));
      J.attribute("ret", ty(f->getReturnType()));
      J.attribute("variadic", f->isVariadic());
      if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
        J.attribute("cls", ty(C.getRecordType(m->getParent())));
        J.attribute("static", m->isStatic());
        J.attribute("virt", m->isVirtual());
        J.attribute("const", m->isConst());
      }
      J.attributeArray("params", [&] { for (auto *p : f->parameters()) var(p); });
      if (auto *c = dyn_cast<CXXConstructorDecl>(f)) {
        J.attributeArray("inits", [&] { for (auto *i : c->inits()) J.object([&] {
          if (i->isMemberInitializer()) J.attribute("f", i->getMember()->getNameAsString());
          else if (i->isBaseInitializer()) J.attribute("base", ty(QualType(i->getBaseClass(), 0)));
          else if (i->isDelegatingInitializer()) J.attribute("deleg", true);
          J.attribute("written", i->isWritten());
          exprAttr("e", i->getInit()); }); });
      }
      J.attributeBegin("body"); stmt(f->getBody()); J.attributeEnd();
    });
  }
  void record(const CXXRecordDecl *r) {
    J.object([&] {
      J.attribute("name", recName(r)); J.attribute("qn", qn(r)); J.attribute("t", ty(C.getRecordType(r)));
      J.attributeArray("bases", [&] { for (auto &b : r->bases()) J.value(ty(b.getType())); });
      J.attributeArray("fields", [&] { for (auto *f : r->fields()) J.object([&] {
        J.attribute("name", f->getNameAsString()); J.attribute("t", ty(f->getType()));
        if (f->getInClassInitializer()) exprAttr("init", f->getInClassInitializer()); }); });
    });
  }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
  std::vector<const FunctionDecl *> Fns;
  std::vector<const CXXRecordDecl *> Recs;
  std::vector<const VarDecl *> Vars;
  std::set<const Decl *> Seen;
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *f) {
    if (!f->doesThisDeclarationHaveABody() || f->isDependentContext() || f->isDeleted()) return true;
    if (!f->getBody()) return true;
    if (!Seen.insert(f).second) return true;
    Fns.push_back(f);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *r) {
    if (!r->isThisDeclarationADefinition() || r->isDependentContext() || r->isLambda()) return true;
    if (!Seen.insert(r).second) return true;
    Recs.push_back(r);
    return true;
  }
  bool VisitVarDecl(VarDecl *v) {
    if (!v->hasGlobalStorage() || v->isStaticLocal()) return true;
    if (v->getDeclContext()->isDependentContext()) return true;
    if (v->getInit() && !v->getType()->isDependentType() && Seen.insert(v).second) Vars.push_back(v);
    return true;
  }
};
struct Consumer : ASTConsumer {
  bool &Err;
  Consumer(bool &e) : Err(e) {}
  void HandleTranslationUnit(ASTContext &C) override {
    std::error_code ec;
    raw_fd_ostream os(Out, ec);
    json::OStream J(os, 0);
    Dumper D(C, J);
    Visitor V;
    V.TraverseDecl(C.getTranslationUnitDecl());
    J.objectBegin();
    J.attributeArray("functions", [&] { for (auto *f : V.Fns) if (D.inRoots(f->getLocation())) D.function(f); });
    J.attributeArray("records", [&] { for (auto *r : V.Recs) { if (D.inRoots(r->getLocation())) D.record(r); } });
    J.attributeArray("globals", [&] { for (auto *v : V.Vars) if (D.inRoots(v->getLocation())) J.object([&] {
        J.attribute("qn", D.qn(v)); J.attribute("t", D.ty(v->getType())); J.attribute("id", D.id(v));
        D.exprAttr("init", v->getInit()); }); });
    J.attributeArray("types", [&] { for (auto &t : D.Types) J.value(t); });
    J.attribute("errors", (int64_t)C.getDiagnostics().getClient()->getNumErrors());
    J.objectEnd();
  }
};
struct Action : ASTFrontendAction {
  bool err = false;
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Consumer>(err); }
};
}
int main(int argc, const char **argv) {
  auto P = tooling::CommonOptionsParser::create(argc, argv, Cat);
  if (!P) { llvm::errs() << toString(P.takeError()); return 2; }
  tooling::ClangTool T(P->getCompilations(), P->getSourcePathList());
  return T.run(tooling::newFrontendActionFactory<Action>().get());
}
