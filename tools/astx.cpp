// astx: resolved-AST extractor.  Emits, as one JSON document per translation unit, every function
// definition, record, enum and variable whose definition lies under a given root directory, after
// name lookup, overload resolution, macro expansion and template instantiation.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/ADT/SmallString.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace clang;

static std::string ROOT, OUT;

struct J {
  std::string s;
  void str(llvm::StringRef t) {
    s += '"';
    for (unsigned char c : t) {
      switch (c) {
      case '"': s += "\\\""; break;
      case '\\': s += "\\\\"; break;
      case '\n': s += "\\n"; break;
      case '\t': s += "\\t"; break;
      default:
        if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); s += b; }
        else s += (char)c;
      }
    }
    s += '"';
  }
};

class Emit {
public:
  ASTContext &C; J j; PrintingPolicy PP; std::map<const Decl *, int> ids;
  Emit(ASTContext &c) : C(c), PP(c.getPrintingPolicy()) { PP.SuppressTagKeyword = true; PP.Bool = true; PP.SuppressInlineNamespace = true; }
  int id(const Decl *d) { d = d->getCanonicalDecl(); auto it = ids.find(d); if (it != ids.end()) return it->second; int n = ids.size() + 1; ids[d] = n; return n; }
  std::string usr(const Decl *d) { llvm::SmallString<128> b; if (index::generateUSRForDecl(d, b)) return "?"; return std::string(b.str()); }
  std::string ty(QualType t) { if (t.isNull()) return "?"; return t.getCanonicalType().getAsString(PP); }
  std::string tysugar(QualType t) { if (t.isNull()) return "?"; return t.getAsString(PP); }
  std::string qn(const NamedDecl *d) { std::string s; llvm::raw_string_ostream o(s); d->printQualifiedName(o, PP); return o.str(); }
  std::string qnT(const NamedDecl *d) { // with template args
    std::string s; llvm::raw_string_ostream o(s); d->getNameForDiagnostic(o, PP, true); return o.str(); }
  std::pair<std::string, unsigned> loc(SourceLocation l) {
    auto &SM = C.getSourceManager(); l = SM.getExpansionLoc(l); if (l.isInvalid()) return {"", 0};
    auto p = SM.getPresumedLoc(l); if (p.isInvalid()) return {"", 0};
    return {std::string(SM.getFilename(l)), SM.getSpellingLineNumber(l)}; }
  bool inRoot(SourceLocation l) { auto p = loc(l).first; if (llvm::StringRef(p).find("/tools/tus/util") != llvm::StringRef::npos) return true; return llvm::StringRef(p).startswith(ROOT) && llvm::StringRef(p).find("/_build/") == llvm::StringRef::npos; }
  void key(const char *k) { j.s += ",\""; j.s += k; j.s += "\":"; }
  void kS(const char *k, llvm::StringRef v) { key(k); j.str(v); }
  void kI(const char *k, long long v) { key(k); j.s += std::to_string(v); }
  void open(const char *kind) { j.s += "{\"k\":\""; j.s += kind; j.s += "\""; }
  void open(const char *kind, SourceLocation l) { open(kind); auto p = loc(l); kI("l", p.second); curfile(p.first); }
  std::string cur;
  void curfile(const std::string &f) { if (!f.empty() && f != cur) kS("F", f); }
  void close() { j.s += "}"; }
  template <class It> void arr(const char *k, It b, It e) { key(k); j.s += "["; bool first = true; for (; b != e; ++b) { if (!first) j.s += ","; first = false; stmt(*b); } j.s += "]"; }
  void child(const char *k, const Stmt *s) { if (!s) return; key(k); stmt(s); }

  static const Expr *strip(const Expr *e) {
    while (true) {
      if (auto p = dyn_cast<ParenExpr>(e)) e = p->getSubExpr();
      else if (auto p = dyn_cast<ExprWithCleanups>(e)) e = p->getSubExpr();
      else if (auto p = dyn_cast<MaterializeTemporaryExpr>(e)) e = p->getSubExpr();
      else if (auto p = dyn_cast<CXXBindTemporaryExpr>(e)) e = p->getSubExpr();
      else if (auto p = dyn_cast<ConstantExpr>(e)) e = p->getSubExpr();
      else if (auto p = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e = p->getReplacement();
      else if (auto p = dyn_cast<CXXDefaultArgExpr>(e)) { if (!p->getParam()->getDefaultArg()) return e; e = p->getExpr(); }
      else if (auto p = dyn_cast<CXXDefaultInitExpr>(e)) { if (!p->getExpr()) return e; e = p->getExpr(); }
      else if (auto p = dyn_cast<OpaqueValueExpr>(e)) { if (!p->getSourceExpr()) return e; e = p->getSourceExpr(); }
      else if (auto p = dyn_cast<ImplicitCastExpr>(e)) {
        switch (p->getCastKind()) {
        case CK_LValueToRValue: case CK_NoOp: case CK_DerivedToBase: case CK_UncheckedDerivedToBase:
        case CK_FunctionToPointerDecay: case CK_ArrayToPointerDecay: case CK_UserDefinedConversion:
        case CK_ConstructorConversion: case CK_BuiltinFnToFnPtr: case CK_NullToPointer: case CK_BitCast:
          e = p->getSubExpr(); break;
        default: return e;
        }
      } else return e;
    }
  }
  void callee(const FunctionDecl *fd) {
    kS("f", qn(fd)); kS("u", usr(fd));
    key("pt"); j.s += "["; for (unsigned i = 0; i < fd->getNumParams(); ++i) { if (i) j.s += ","; j.str(ty(fd->getParamDecl(i)->getType())); } j.s += "]";
    if (auto m = dyn_cast<CXXMethodDecl>(fd)) { if (m->isConst()) kI("cm", 1); if (m->isVirtual()) kI("vm", 1); if (m->isStatic()) kI("sm", 1); if (m->getParent()->isLambda()) kI("lam", id(m->getParent())); }
    if (fd->getTemplateSpecializationArgs()) {
      key("ta"); j.s += "["; bool f = true;
      for (auto &a : fd->getTemplateSpecializationArgs()->asArray()) { if (!f) j.s += ","; f = false; std::string s; llvm::raw_string_ostream o(s); a.print(PP, o, true); j.str(o.str()); }
      j.s += "]";
    }
  }
  void varDecl(const VarDecl *v) {
    j.s += "{\"id\":" + std::to_string(id(v)); kS("n", v->getNameAsString()); kS("t", ty(v->getType())); kS("ts", tysugar(v->getType()));
    if (v->isStaticLocal()) kI("static", 1);
    if (v->getType().isConstQualified()) kI("const", 1);
    kI("l", loc(v->getLocation()).second);
    if (auto dd = dyn_cast<DecompositionDecl>(v)) { key("bind"); j.s += "["; bool f = true; for (auto b : dd->bindings()) { if (!f) j.s += ","; f = false; j.s += "{\"id\":" + std::to_string(id(b)); kS("n", b->getNameAsString()); j.s += "}"; } j.s += "]"; }
    if (v->hasInit() && v->getInit()) { key("init"); stmt(v->getInit()); kI("is", (int)v->getInitStyle()); }
    j.s += "}";
  }
  void stmt(const Stmt *s) {
    if (!s) { j.s += "null"; return; }
    if (auto e = dyn_cast<Expr>(s)) { expr(strip(e)); return; }
    auto L = s->getBeginLoc();
    if (auto x = dyn_cast<CompoundStmt>(s)) { open("block", L); arr("b", x->body_begin(), x->body_end()); close(); return; }
    if (auto x = dyn_cast<DeclStmt>(s)) {
      open("decl", L); key("v"); j.s += "["; bool f = true;
      for (auto d : x->decls()) if (auto v = dyn_cast<VarDecl>(d)) { if (!f) j.s += ","; f = false; varDecl(v); }
      j.s += "]"; close(); return; }
    if (auto x = dyn_cast<IfStmt>(s)) {
      open("if", L); child("init", x->getInit()); if (x->getConditionVariable()) { key("cv"); varDecl(x->getConditionVariable()); }
      child("c", x->getCond()); child("t", x->getThen()); child("e", x->getElse()); if (x->isConstexpr()) { kI("cx", 1); bool bv; const Expr *ce = x->getCond(); if (ce && !ce->isValueDependent() && ce->EvaluateAsBooleanCondition(bv, C)) kI("cxv", bv ? 1 : 0); } close(); return; }
    if (auto x = dyn_cast<ForStmt>(s)) { open("for", L); child("init", x->getInit()); child("c", x->getCond()); child("inc", x->getInc()); child("b", x->getBody()); close(); return; }
    if (auto x = dyn_cast<CXXForRangeStmt>(s)) {
      open("rfor", L); key("v"); varDecl(x->getLoopVariable()); child("r", x->getRangeInit()); child("b", x->getBody()); close(); return; }
    if (auto x = dyn_cast<WhileStmt>(s)) { open("while", L); if (x->getConditionVariable()) { key("cv"); varDecl(x->getConditionVariable()); } child("c", x->getCond()); child("b", x->getBody()); close(); return; }
    if (auto x = dyn_cast<DoStmt>(s)) { open("do", L); child("c", x->getCond()); child("b", x->getBody()); close(); return; }
    if (auto x = dyn_cast<ReturnStmt>(s)) { open("ret", L); child("e", x->getRetValue()); close(); return; }
    if (isa<BreakStmt>(s)) { open("break", L); close(); return; }
    if (isa<ContinueStmt>(s)) { open("continue", L); close(); return; }
    if (isa<NullStmt>(s)) { open("null", L); close(); return; }
    if (auto x = dyn_cast<SwitchStmt>(s)) { open("switch", L); child("c", x->getCond()); child("b", x->getBody()); close(); return; }
    if (auto x = dyn_cast<CaseStmt>(s)) { open("case", L); child("v", x->getLHS()); child("b", x->getSubStmt()); close(); return; }
    if (auto x = dyn_cast<DefaultStmt>(s)) { open("default", L); child("b", x->getSubStmt()); close(); return; }
    if (auto x = dyn_cast<CXXTryStmt>(s)) {
      open("try", L); child("b", x->getTryBlock()); key("h"); j.s += "[";
      for (unsigned i = 0; i < x->getNumHandlers(); ++i) { if (i) j.s += ","; stmt(x->getHandler(i)->getHandlerBlock()); } j.s += "]"; close(); return; }
    if (auto x = dyn_cast<OMPExecutableDirective>(s)) {
      open("omp", L); kS("dir", llvm::omp::getOpenMPDirectiveName(x->getDirectiveKind()));
      key("cl"); j.s += "["; bool f = true;
      for (auto c : x->clauses()) {
        if (c->isImplicit()) continue;
        if (!f) j.s += ","; f = false; j.s += "{\"k\":"; j.str(llvm::omp::getOpenMPClauseName(c->getClauseKind()));
        key("a"); j.s += "["; bool g = true; 
        auto vars = [&](auto *cl) { for (auto e : cl->varlists()) { if (!g) j.s += ","; g = false; stmt(e); } };
        if (auto r = dyn_cast<OMPReductionClause>(c)) vars(r);
        else if (auto r = dyn_cast<OMPPrivateClause>(c)) vars(r);
        else if (auto r = dyn_cast<OMPFirstprivateClause>(c)) vars(r);
        else if (auto r = dyn_cast<OMPLastprivateClause>(c)) vars(r);
        else if (auto r = dyn_cast<OMPSharedClause>(c)) vars(r);
        j.s += "]}";
      }
      j.s += "]";
      if (x->hasAssociatedStmt()) { const Stmt *b = x->getAssociatedStmt(); while (auto cs = dyn_cast<CapturedStmt>(b)) b = cs->getCapturedStmt(); key("b"); stmt(b); }
      close(); return; }
    if (auto x = dyn_cast<AttributedStmt>(s)) { stmt(x->getSubStmt()); return; }
    if (auto x = dyn_cast<LabelStmt>(s)) { open("label", L); child("b", x->getSubStmt()); close(); return; }
    open("stmt?", L); kS("cls", s->getStmtClassName()); close();
  }
  void fn(const FunctionDecl *fd, bool lambdaBody);
  void expr(const Expr *e) {
    auto L = e->getExprLoc(); if (L.isInvalid()) L = e->getBeginLoc();
    auto T = [&]() { kS("t", ty(e->getType())); };
    if (auto x = dyn_cast<IntegerLiteral>(e)) { open("lit", L); T(); kS("v", llvm::toString(x->getValue(), 10, x->getType()->isSignedIntegerType())); close(); return; }
    if (auto x = dyn_cast<FloatingLiteral>(e)) {
      open("lit", L); T(); char b[64]; bool li; llvm::APFloat f = x->getValue(); f.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &li);
      snprintf(b, 64, "%.17g", f.convertToDouble()); kS("v", b); kI("fl", 1);
      auto &SM = C.getSourceManager(); auto tok = Lexer::getSourceText(CharSourceRange::getTokenRange(SM.getSpellingLoc(x->getBeginLoc())), SM, C.getLangOpts()); kS("src", tok);
      close(); return; }
    if (auto x = dyn_cast<CXXBoolLiteralExpr>(e)) { open("lit", L); T(); kS("v", x->getValue() ? "true" : "false"); close(); return; }
    if (auto x = dyn_cast<CharacterLiteral>(e)) { open("lit", L); T(); kS("v", std::to_string(x->getValue())); kI("ch", 1); close(); return; }
    if (auto x = dyn_cast<clang::StringLiteral>(e)) { open("str", L); kS("v", x->getCharByteWidth() == 1 ? x->getString() : "?"); close(); return; }
    if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) { open("nullptr", L); close(); return; }
    if (isa<CXXThisExpr>(e)) { open("this", L); T(); close(); return; }
    if (auto x = dyn_cast<UserDefinedLiteral>(e)) { open("call", L); T(); if (auto fd = x->getDirectCallee()) callee(fd); kI("udl", 1); arr("a", x->arg_begin(), x->arg_end()); close(); return; }
    if (auto x = dyn_cast<DeclRefExpr>(e)) {
      auto d = x->getDecl(); open("ref", L); T(); kS("n", d->getNameAsString()); kI("id", id(d));
      if (auto ec = dyn_cast<EnumConstantDecl>(d)) { kS("dk", "enum"); kS("q", qn(d)); kS("v", llvm::toString(ec->getInitVal(), 10)); kS("en", qn(cast<NamedDecl>(ec->getDeclContext()))); }
      else if (auto fd = dyn_cast<FunctionDecl>(d)) { kS("dk", "fn"); kS("q", qn(d)); callee(fd); }
      else if (isa<ParmVarDecl>(d)) { kS("dk", "parm"); }
      else if (isa<BindingDecl>(d)) { kS("dk", "bind"); auto b = cast<BindingDecl>(d); if (b->getDecomposedDecl()) kI("of", id(b->getDecomposedDecl())); }
      else if (auto v = dyn_cast<VarDecl>(d)) { if (v->isLocalVarDecl() && !v->isStaticLocal()) kS("dk", "var"); else { kS("dk", v->isStaticLocal() ? "svar" : "gvar"); kS("q", qn(d)); } 
        if (v->getType().isConstQualified()) kI("const", 1); if (v->isConstexpr()) kI("cxp", 1);}
      else { kS("dk", d->getDeclKindName()); kS("q", qn(d)); }
      if (x->refersToEnclosingVariableOrCapture()) kI("cap", 1);
      close(); return; }
    if (auto x = dyn_cast<MemberExpr>(e)) {
      auto d = x->getMemberDecl(); open("mem", L); T(); kS("n", d->getNameAsString()); kS("q", qn(d)); kI("id", id(d));
      if (isa<FieldDecl>(d)) kS("dk", "field"); else if (auto fd = dyn_cast<FunctionDecl>(d)) { kS("dk", "fn"); callee(fd); } else kS("dk", "static");
      if (x->isArrow()) kI("arrow", 1); child("b", x->getBase()); close(); return; }
    if (auto x = dyn_cast<CXXOperatorCallExpr>(e)) {
      open("call", L); T(); kS("op", getOperatorSpelling(x->getOperator())); if (auto fd = x->getDirectCallee()) { callee(fd); if (isa<CXXMethodDecl>(fd) && !cast<CXXMethodDecl>(fd)->isStatic()) kI("mop", 1); }
      arr("a", x->arg_begin(), x->arg_end()); close(); return; }
    if (auto x = dyn_cast<CXXMemberCallExpr>(e)) {
      open("mcall", L); T(); if (auto fd = x->getDirectCallee()) callee(fd); else child("ce", x->getCallee());
      if (auto o = x->getImplicitObjectArgument()) { key("o"); stmt(o); kS("ot", ty(o->getType())); if (auto me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())) { if (me->isArrow()) kI("arrow", 1); if (me->hasQualifier()) kI("qual", 1);} }
      arr("a", x->arg_begin(), x->arg_end()); close(); return; }
    if (auto x = dyn_cast<CallExpr>(e)) {
      open("call", L); T(); if (auto fd = x->getDirectCallee()) callee(fd); else child("ce", x->getCallee());
      arr("a", x->arg_begin(), x->arg_end()); close(); return; }
    if (auto x = dyn_cast<CXXConstructExpr>(e)) {
      auto cd = x->getConstructor(); open("ctor", L); T(); kS("c", qn(cd->getParent())); callee(cd);
      if (cd->isCopyConstructor()) kI("copy", 1); if (cd->isMoveConstructor()) kI("move", 1); if (cd->isDefaultConstructor()) kI("def", 1);
      if (x->isListInitialization()) kI("li", 1);
      if (isa<CXXTemporaryObjectExpr>(x)) kI("tmp", 1);
      arr("a", x->arg_begin(), x->arg_end()); close(); return; }
    if (auto x = dyn_cast<CXXInheritedCtorInitExpr>(e)) { auto cd = x->getConstructor(); open("ctor", L); T(); kS("c", qn(cd->getParent())); callee(cd); kI("inh",1); key("a"); j.s += "[]"; close(); return; }
    if (auto x = dyn_cast<CompoundAssignOperator>(e)) { open("asg", L); T(); kS("op", x->getOpcodeStr()); kS("ct", ty(x->getComputationResultType())); key("a"); j.s += "["; stmt(x->getLHS()); j.s += ","; stmt(x->getRHS()); j.s += "]"; close(); return; }
    if (auto x = dyn_cast<BinaryOperator>(e)) { open(x->isAssignmentOp() ? "asg" : "bin", L); T(); kS("op", x->getOpcodeStr()); key("a"); j.s += "["; stmt(x->getLHS()); j.s += ","; stmt(x->getRHS()); j.s += "]"; close(); return; }
    if (auto x = dyn_cast<UnaryOperator>(e)) { open("un", L); T(); std::string o = UnaryOperator::getOpcodeStr(x->getOpcode()).str(); kS("op", o); if (x->isPostfix()) kI("post", 1); key("a"); j.s += "["; stmt(x->getSubExpr()); j.s += "]"; close(); return; }
    if (auto x = dyn_cast<ConditionalOperator>(e)) { open("cond", L); T(); key("a"); j.s += "["; stmt(x->getCond()); j.s += ","; stmt(x->getTrueExpr()); j.s += ","; stmt(x->getFalseExpr()); j.s += "]"; close(); return; }
    if (auto x = dyn_cast<ArraySubscriptExpr>(e)) { open("idx", L); T(); key("a"); j.s += "["; stmt(x->getBase()); j.s += ","; stmt(x->getIdx()); j.s += "]"; close(); return; }
    if (auto x = dyn_cast<LambdaExpr>(e)) {
      open("lambda", L); kI("id", id(x->getLambdaClass())); key("caps"); j.s += "["; bool f = true;
      for (auto &c : x->captures()) { if (!f) j.s += ","; f = false; j.s += "{\"k\":"; 
        if (c.capturesThis()) { j.s += c.getCaptureKind() == LCK_StarThis ? "\"*this\"" : "\"this\""; }
        else if (c.capturesVariable()) { j.s += c.getCaptureKind() == LCK_ByRef ? "\"ref\"" : "\"copy\""; auto v = cast<ValueDecl>(c.getCapturedVar()); kI("id", id(v)); kS("n", v->getNameAsString()); if (auto vd = dyn_cast<VarDecl>(v)) if (vd->isInitCapture() && vd->getInit()) { key("init"); stmt(vd->getInit()); } }
        else j.s += "\"?\"";
        j.s += "}"; }
      j.s += "]"; auto m = x->getCallOperator(); if (x->isMutable()) kI("mut", 1);
      if (x->isGenericLambda()) kI("gen", 1);
      key("p"); params(m); kS("rt", ty(m->getReturnType())); child("b", x->getBody()); close(); return; }
    if (auto x = dyn_cast<InitListExpr>(e)) { if (auto sem = x->getSemanticForm()) x = sem; open("ilist", L); T(); arr("a", x->begin(), x->end()); if (x->hasArrayFiller()) kI("fill", 1); close(); return; }
    if (auto x = dyn_cast<CXXStdInitializerListExpr>(e)) { expr(strip(x->getSubExpr())); return; }
    if (auto x = dyn_cast<CastExpr>(e)) { open("cast", L); T(); kS("ck", x->getCastKindName()); kI("ex", isa<ExplicitCastExpr>(x)); kS("cl", x->getStmtClassName()); kS("ft", ty(x->getSubExpr()->getType())); key("a"); j.s += "["; stmt(x->getSubExpr()); j.s += "]"; close(); return; }
    if (auto x = dyn_cast<CXXNewExpr>(e)) { open("new", L); T(); kS("nt", ty(x->getAllocatedType())); if (x->isArray()) { kI("arr", 1); if (x->getArraySize()) { key("sz"); stmt(*x->getArraySize()); } } child("i", x->getInitializer()); close(); return; }
    if (auto x = dyn_cast<CXXDeleteExpr>(e)) { open("delete", L); key("a"); j.s += "["; stmt(x->getArgument()); j.s += "]"; close(); return; }
    if (auto x = dyn_cast<CXXThrowExpr>(e)) { open("throw", L); child("e", x->getSubExpr()); close(); return; }
    if (auto x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) { open("sizeof", L); T(); kI("kind", (int)x->getKind()); if (x->isArgumentType()) kS("at", ty(x->getArgumentType())); Expr::EvalResult r; if (!x->isValueDependent() && x->EvaluateAsInt(r, C)) kS("v", llvm::toString(r.Val.getInt(), 10)); close(); return; }
    if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) { open("zero", L); T(); close(); return; }
    if (auto x = dyn_cast<CXXDependentScopeMemberExpr>(e)) { open("dmem", L); kS("n", x->getMember().getAsString()); if (!x->isImplicitAccess()) child("b", x->getBase()); close(); return; }
    if (auto x = dyn_cast<UnresolvedLookupExpr>(e)) { open("ulk", L); kS("n", x->getName().getAsString()); close(); return; }
    if (auto x = dyn_cast<UnresolvedMemberExpr>(e)) { open("dmem", L); kS("n", x->getMemberName().getAsString()); if (!x->isImplicitAccess()) child("b", x->getBase()); close(); return; }
    if (auto x = dyn_cast<DependentScopeDeclRefExpr>(e)) { open("ulk", L); kS("n", x->getDeclName().getAsString()); close(); return; }
    if (auto x = dyn_cast<CXXUnresolvedConstructExpr>(e)) { open("uctor", L); kS("t", ty(x->getTypeAsWritten())); arr("a", x->arg_begin(), x->arg_end()); close(); return; }
    if (auto x = dyn_cast<ParenListExpr>(e)) { open("plist", L); key("a"); j.s += "["; for (unsigned i = 0; i < x->getNumExprs(); ++i) { if (i) j.s += ","; stmt(x->getExpr(i)); } j.s += "]"; close(); return; }
    if (auto x = dyn_cast<PackExpansionExpr>(e)) { open("pack", L); key("a"); j.s += "["; stmt(x->getPattern()); j.s += "]"; close(); return; }
    if (auto x = dyn_cast<TypeTraitExpr>(e)) { open("lit", L); T(); kS("v", !x->isValueDependent() && x->getValue() ? "true" : "false"); close(); return; }
    if (auto x = dyn_cast<StmtExpr>(e)) { open("stmtexpr", L); T(); child("b", x->getSubStmt()); close(); return; }
    if (auto x = dyn_cast<ArrayInitLoopExpr>(e)) { expr(strip(x->getCommonExpr())); return; }
    if (auto x = dyn_cast<PseudoObjectExpr>(e)) { expr(strip(x->getSyntacticForm())); return; }
    if (auto x = dyn_cast<ShuffleVectorExpr>(e)) { auto **sub = const_cast<ShuffleVectorExpr*>(x)->getSubExprs(); open("shuffle", L); T(); key("a"); j.s += "["; for (unsigned i = 0; i < x->getNumSubExprs(); ++i) { if (i) j.s += ","; stmt(sub[i]); } j.s += "]"; close(); return; }
    if (auto x = dyn_cast<ConvertVectorExpr>(e)) { open("cast", L); T(); kS("ck", "ConvertVector"); kI("ex", 1); kS("ft", ty(x->getSrcExpr()->getType())); key("a"); j.s += "["; stmt(x->getSrcExpr()); j.s += "]"; close(); return; }
    if (auto x = dyn_cast<CXXRewrittenBinaryOperator>(e)) { expr(strip(x->getSemanticForm())); return; }
    open("expr?", L); T(); kS("cls", e->getStmtClassName()); key("a"); j.s += "["; bool f = true; for (auto c : e->children()) { if (!c) continue; if (!f) j.s += ","; f = false; stmt(c); } j.s += "]"; close();
  }
  void params(const FunctionDecl *fd) {
    j.s += "["; for (unsigned i = 0; i < fd->getNumParams(); ++i) { if (i) j.s += ","; auto p = fd->getParamDecl(i);
      j.s += "{\"id\":" + std::to_string(id(p)); kS("n", p->getNameAsString()); kS("t", ty(p->getType())); kS("ts", tysugar(p->getType()));
      if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg() && p->getDefaultArg()) { key("d"); stmt(p->getDefaultArg()); }
      j.s += "}"; } j.s += "]"; }
};

void Emit::fn(const FunctionDecl *fd, bool) {
  auto p = loc(fd->getLocation()); cur = p.first;
  j.s += "{\"q\":"; j.str(qn(fd)); kS("qt", qnT(fd)); kS("n", fd->getNameAsString()); kS("u", usr(fd)); kS("file", p.first); kI("l", p.second);
  kI("el", loc(fd->getEndLoc()).second);
  kI("id", id(fd));
  kS("rt", ty(fd->getReturnType())); key("p"); params(fd);
  if (fd->isDependentContext()) kI("dep", 1);
  if (fd->getTemplateInstantiationPattern()) { kI("inst", 1); kS("pat", usr(fd->getTemplateInstantiationPattern())); }
  if (fd->isVariadic()) kI("va", 1);
  if (fd->isImplicit()) kI("impl", 1);
  if (fd->isDefaulted()) kI("dflt", 1);
  if (fd->isDeleted()) kI("del", 1);
  if (auto m = dyn_cast<CXXMethodDecl>(fd)) {
    kS("cls", qn(m->getParent())); kS("clsT", qnT(m->getParent())); kS("clsU", usr(m->getParent()));
    if (m->isConst()) kI("const", 1); if (m->isStatic()) kI("static", 1); if (m->isVirtual()) kI("virt", 1);
    if (m->getParent()->isLambda()) kI("lam", id(m->getParent()));
    key("acc"); j.s += std::to_string((int)m->getAccess());
    if (m->size_overridden_methods()) { key("ovr"); j.s += "["; bool f = true; for (auto o : m->overridden_methods()) { if (!f) j.s += ","; f = false; j.str(usr(o)); } j.s += "]"; }
  } else if (auto fr = fd) { if (auto rec = dyn_cast<CXXRecordDecl>(fr->getLexicalDeclContext())) kS("friendOf", qn(rec)); }
  if (isa<CXXConstructorDecl>(fd)) { 
    auto cd = cast<CXXConstructorDecl>(fd); kS("fk", "ctor"); if (cd->isCopyOrMoveConstructor()) kI("cpmv", 1); key("inits"); j.s += "["; bool f = true;
    for (auto i : cd->inits()) { if (!f) j.s += ","; f = false; j.s += "{\"w\":" + std::to_string(i->isWritten() ? 1 : 0);
      if (i->isAnyMemberInitializer()) { kS("m", i->getAnyMember()->getNameAsString()); kI("id", id(i->getAnyMember())); }
      else if (i->isBaseInitializer()) kS("base", ty(QualType(i->getBaseClass(), 0)));
      else kI("deleg", 1);
      if (i->getInit()) { key("e"); stmt(i->getInit()); if (isa<CXXDefaultInitExpr>(i->getInit())) kI("dmi", 1); }
      j.s += "}"; }
    j.s += "]"; }
  else if (isa<CXXDestructorDecl>(fd)) kS("fk", "dtor");
  else if (isa<CXXConversionDecl>(fd)) kS("fk", "conv");
  if (fd->doesThisDeclarationHaveABody()) { key("body"); stmt(fd->getBody()); }
  j.s += "}";
}

class V : public RecursiveASTVisitor<V> {
public:
  ASTContext &C; Emit E; std::set<const Decl *> seen;
  std::string fns, recs, enums, vars, decls; 
  V(ASTContext &c) : C(c), E(c) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *f) {
    if (!E.inRoot(f->getLocation())) return true;
    if (auto m = dyn_cast<CXXMethodDecl>(f)) if (m->getParent()->isLambda()) {
      // generic-lambda instantiations are needed; the plain operator() is emitted inline
      if (!f->getTemplateInstantiationPattern()) return true; }
    if (!f->doesThisDeclarationHaveABody()) {
      if (f->isDeleted() || f->isDefaulted() || f->isPureVirtual() ) {}
      if (!seen.insert(f->getCanonicalDecl()).second) return true;
      E.j.s.clear(); E.j.s += "{\"q\":"; E.j.str(E.qn(f)); E.kS("u", E.usr(f)); E.kS("rt", E.ty(f->getReturnType())); E.kI("l", E.loc(f->getLocation()).second); E.kS("file", E.loc(f->getLocation()).first);
      E.key("p"); E.params(f);
      if (f->isPureVirtual()) E.kI("pure", 1); if (f->isDeleted()) E.kI("del", 1); if (f->isDefaulted()) E.kI("dflt", 1);
      if (f->isDependentContext()) E.kI("dep", 1);
      E.j.s += "}"; if (!decls.empty()) decls += ",\n"; decls += E.j.s; return true; }
    if (!seen.insert(f).second) return true;
    E.j.s.clear(); E.fn(f, false); if (!fns.empty()) fns += ",\n"; fns += E.j.s; return true;
  }
  bool VisitLambdaExpr(LambdaExpr *x) {
    if (!E.inRoot(x->getBeginLoc())) return true;
    if (auto t = x->getDependentCallOperator())
      for (auto f : t->specializations()) {
        if (!f->doesThisDeclarationHaveABody() || f->isDependentContext() || !seen.insert(f).second) continue;
        E.j.s.clear(); E.fn(f, false); if (!fns.empty()) fns += ",\n"; fns += E.j.s; }
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *r) {
    if (!r->isThisDeclarationADefinition() || !E.inRoot(r->getLocation()) || r->isLambda()) return true;
    if (!seen.insert(r).second) return true;
    E.j.s.clear(); auto p = E.loc(r->getLocation()); E.cur = p.first; 
    E.j.s += "{\"q\":"; E.j.str(E.qn(r)); E.kS("qt", E.qnT(r)); E.kS("u", E.usr(r)); E.kS("file", p.first); E.kI("l", p.second);
    if (r->isDependentContext()) E.kI("dep", 1);
    if (r->getTemplateInstantiationPattern()) E.kI("inst", 1);
    E.key("bases"); E.j.s += "["; bool f = true; for (auto &b : r->bases()) { if (!f) E.j.s += ","; f = false; E.j.str(E.ty(b.getType())); } E.j.s += "]";
    E.key("fields"); E.j.s += "["; f = true;
    for (auto fd : r->fields()) { if (!f) E.j.s += ","; f = false; E.j.s += "{\"n\":"; E.j.str(fd->getNameAsString()); E.kI("id", E.id(fd)); E.kS("t", E.ty(fd->getType())); E.kS("ts", E.tysugar(fd->getType())); E.kI("l", E.loc(fd->getLocation()).second); E.kI("acc", (int)fd->getAccess()); if (fd->hasInClassInitializer() && fd->getInClassInitializer()) { E.key("init"); E.stmt(fd->getInClassInitializer()); } 
      auto bt = fd->getType().getCanonicalType(); if (bt->isArrayType()) bt = C.getBaseElementType(bt);
      if (bt->isScalarType()) E.kI("scalar", 1); if (fd->getType()->isReferenceType()) E.kI("ref", 1);
      E.j.s += "}"; }
    E.j.s += "]"; E.key("methods"); E.j.s += "["; f = true;
    for (auto m : r->methods()) { if (!f) E.j.s += ","; f = false; E.j.s += "{\"n\":"; E.j.str(m->getNameAsString()); E.kS("u", E.usr(m)); E.kS("q", E.qn(m)); if (m->isPureVirtual()) E.kI("pure", 1); if (m->isVirtual()) E.kI("virt", 1); if (m->isDeleted()) E.kI("del", 1); if (m->isDefaulted()) E.kI("dflt", 1); if (m->isImplicit()) E.kI("impl", 1); E.kI("acc", (int)m->getAccess()); if (isa<CXXConstructorDecl>(m)) E.kI("ctor", 1); E.kS("rt", E.ty(m->getReturnType())); 
      if (m->size_overridden_methods()) { E.key("ovr"); E.j.s += "["; bool g = true; for (auto o : m->overridden_methods()) { if (!g) E.j.s += ","; g = false; E.j.str(E.usr(o)); } E.j.s += "]"; }
      E.j.s += "}"; }
    E.j.s += "]}"; if (!recs.empty()) recs += ",\n"; recs += E.j.s; return true;
  }
  bool VisitEnumDecl(EnumDecl *d) {
    if (!d->isThisDeclarationADefinition() || !E.inRoot(d->getLocation())) return true;
    if (!seen.insert(d).second) return true;
    E.j.s.clear(); E.j.s += "{\"q\":"; E.j.str(E.qn(d)); auto p = E.loc(d->getLocation()); E.kS("file", p.first); E.kI("l", p.second); E.key("e"); E.j.s += "["; bool f = true;
    for (auto e : d->enumerators()) { if (!f) E.j.s += ","; f = false; E.j.s += "["; E.j.str(e->getNameAsString()); E.j.s += "," + llvm::toString(e->getInitVal(), 10) + "]"; }
    E.j.s += "]}"; if (!enums.empty()) enums += ",\n"; enums += E.j.s; return true;
  }
  bool VisitVarDecl(VarDecl *v) {
    if (!(v->isFileVarDecl() || v->isStaticLocal() || v->isStaticDataMember()) || !E.inRoot(v->getLocation())) return true;
    if (!seen.insert(v).second) return true;
    E.j.s.clear(); auto p = E.loc(v->getLocation()); E.cur = p.first; E.j.s += "{\"q\":"; E.j.str(E.qn(v)); E.kS("u", E.usr(v)); E.kS("file", p.first); E.kI("l", p.second); if (v->isThisDeclarationADefinition()) E.kI("def", 1);
    if (v->isStaticLocal()) if (auto f = dyn_cast<FunctionDecl>(v->getDeclContext())) E.kS("in", E.qn(f));
    if (v->getType()->isDependentType()) E.kI("dep", 1);
    E.key("v"); E.varDecl(v); E.j.s += "}"; if (!vars.empty()) vars += ",\n"; vars += E.j.s; return true;
  }
};

class Cons : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &C) override {
    V v(C); v.TraverseDecl(C.getTranslationUnitDecl());
    std::error_code ec; llvm::raw_fd_ostream o(OUT, ec);
    o << "{\"errors\":" << C.getDiagnostics().getClient()->getNumErrors() << ",\n\"functions\":[\n" << v.fns << "],\n\"decls\":[\n" << v.decls << "],\n\"records\":[\n" << v.recs << "],\n\"enums\":[\n" << v.enums << "],\n\"vars\":[\n" << v.vars << "]}\n";
  }
};
class Act : public ASTFrontendAction { public: std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Cons>(); } };

int main(int argc, char **argv) {
  // astx ROOT OUT SOURCE -- flags...
  if (argc < 5) { llvm::errs() << "usage: astx ROOT OUT SRC -- flags\n"; return 2; }
  ROOT = argv[1]; OUT = argv[2]; std::string src = argv[3];
  std::vector<std::string> flags; for (int i = 5; i < argc; ++i) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool tool(db, {src});
  return tool.run(tooling::newFrontendActionFactory<Act>().get());
}
