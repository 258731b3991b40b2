// cxx2ir: mechanical extraction of function bodies from a C++ translation unit into JSON.
// Every function that is (transitively) reachable from the requested roots, has a body, is not
// dependent, and is defined in a file below the given source prefix is written out with a fully
// resolved AST (overloads resolved, templates instantiated, implicit conversions explicit).
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> Roots;
static std::string Prefix;
static bool ListOnly = false;

namespace {
struct Dumper {
  ASTContext& C;
  PrintingPolicy PP;
  std::map<const Decl*, int64_t> ids;
  std::deque<const FunctionDecl*> work;
  std::set<const FunctionDecl*> seen;
  std::map<std::string, json::Value> records;
  Dumper(ASTContext& c) : C(c), PP(c.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true; PP.Bool = true; PP.SuppressUnwrittenScope = false;
    PP.PrintCanonicalTypes = true; PP.FullyQualifiedName = true;
    PP.AnonymousTagLocations = false;
  }
  int64_t id(const Decl* d) { d = d->getCanonicalDecl(); auto it = ids.find(d); if (it != ids.end()) return it->second; int64_t n = ids.size() + 1; ids[d] = n; return n; }
  std::string ty(QualType t) { return t.getCanonicalType().getAsString(PP); }
  std::string file(SourceLocation l) {
    auto& SM = C.getSourceManager(); l = SM.getExpansionLoc(l); auto f = SM.getFilename(l); 
    return f.str();
  }
  unsigned line(SourceLocation l) { return C.getSourceManager().getExpansionLineNumber(l); }
  bool inRepo(const Decl* d) {
    auto f = file(d->getLocation()); 
    llvm::SmallString<256> p(f); 
    return f.rfind(Prefix, 0) == 0;
  }
  std::string qname(const NamedDecl* d) {
    std::string s; llvm::raw_string_ostream os(s); PrintingPolicy P = PP; P.TerseOutput = true;
    d->printQualifiedName(os, P); return os.str();
  }
  std::string key(const FunctionDecl* f) {
    std::string s; llvm::raw_string_ostream os(s);
    f->getNameForDiagnostic(os, PP, true);
    // class template arguments are printed by getNameForDiagnostic for the record too
    os << "(";
    for (unsigned i = 0; i < f->getNumParams(); ++i) { if (i) os << ","; os << ty(f->getParamDecl(i)->getType()); }
    os << ")";
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) if (m->isConst()) os << "const";
    return os.str();
  }
  json::Object callee(const FunctionDecl* f) {
    json::Object o;
    o["q"] = qname(f);
    o["key"] = key(f);
    o["ret"] = ty(f->getReturnType());
    json::Array ps;
    for (auto* p : f->parameters()) ps.push_back(ty(p->getType()));
    o["ptys"] = std::move(ps);
    o["repo"] = false;
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      o["method"] = true; o["static"] = m->isStatic(); o["const"] = m->isConst();
      o["cls"] = ty(C.getRecordType(m->getParent()));
    }
    if (auto* ta = f->getTemplateSpecializationArgs()) {
      json::Array as; for (auto& a : ta->asArray()) { std::string s; llvm::raw_string_ostream os(s); a.print(PP, os, true); as.push_back(os.str()); }
      o["targs"] = std::move(as);
    }
    auto* proto = f->getType()->getAs<FunctionProtoType>();
    if (proto) {
      auto est = proto->getExceptionSpecType();
      if (est != EST_Unevaluated && est != EST_Uninstantiated && est != EST_Unparsed) o["noexcept"] = proto->isNothrow();
    }
    const FunctionDecl* def = nullptr;
    if (f->hasBody(def) && def && inRepo(def)) {
      o["repo"] = true; o["def"] = id(def);
      if (!def->isDefaulted() || def->isUserProvided()) enqueue(def); else o["defaulted"] = true;
    } else if (inRepo(f)) o["declared_in_repo"] = true;
    return o;
  }
  void enqueue(const FunctionDecl* f) { if (seen.insert(f).second) work.push_back(f); }
  json::Value expr(const Expr* e0) {
    const Expr* e = strip(e0);
    json::Object o; o["t"] = ty(e->getType()); o["l"] = line(e->getExprLoc()); o["vk"] = e->isPRValue() ? "r" : "l";
    auto& A = o;
    // constant folding for integral prvalues that are not plain boolean literals
    if (e->getType()->isIntegralOrEnumerationType() && !e->isValueDependent() && !isa<CXXBoolLiteralExpr>(e)) {
      Expr::EvalResult r;
      if (e->EvaluateAsInt(r, C) && r.Val.isInt()) {
        llvm::SmallString<32> s; r.Val.getInt().toString(s, 10);
        o["k"] = "const"; o["v"] = std::string(s.str());
        if (auto* d = dyn_cast<DeclRefExpr>(e)) if (isa<EnumConstantDecl>(d->getDecl())) o["enum"] = qname(d->getDecl());
        return json::Value(std::move(o));
      }
    }
    switch (e->getStmtClass()) {
    case Stmt::CXXBoolLiteralExprClass: o["k"] = "bool"; o["v"] = cast<CXXBoolLiteralExpr>(e)->getValue(); break;
    case Stmt::StringLiteralClass: o["k"] = "str"; {
      auto* s = cast<StringLiteral>(e); json::Array a; for (unsigned i = 0; i < s->getLength(); ++i) a.push_back((int64_t)(signed char)s->getCodeUnit(i)); o["v"] = std::move(a); } break;
    case Stmt::CXXNullPtrLiteralExprClass: o["k"] = "null"; break;
    case Stmt::DeclRefExprClass: {
      auto* d = cast<DeclRefExpr>(e)->getDecl();
      if (auto* f = dyn_cast<FunctionDecl>(d)) { o["k"] = "fnref"; o["f"] = callee(f); break; }
      o["k"] = "var"; o["name"] = d->getNameAsString(); o["id"] = id(d); o["q"] = qname(d);
      if (auto* v = dyn_cast<VarDecl>(d)) { o["global"] = v->hasGlobalStorage() && !v->isStaticLocal(); o["vt"] = ty(v->getType()); }
      break; }
    case Stmt::MemberExprClass: {
      auto* m = cast<MemberExpr>(e); o["k"] = "member"; o["name"] = m->getMemberDecl()->getNameAsString(); o["arrow"] = m->isArrow(); o["base"] = expr(m->getBase());
      if (auto* f = dyn_cast<FieldDecl>(m->getMemberDecl())) { o["mutable"] = f->isMutable(); record(f->getParent()); }
      break; }
    case Stmt::CXXThisExprClass: o["k"] = "this"; break;
    case Stmt::BinaryOperatorClass: { auto* b = cast<BinaryOperator>(e); o["k"] = "bin"; o["op"] = b->getOpcodeStr().str(); o["a"] = expr(b->getLHS()); o["b"] = expr(b->getRHS()); break; }
    case Stmt::CompoundAssignOperatorClass: { auto* b = cast<CompoundAssignOperator>(e); o["k"] = "opassign"; o["op"] = b->getOpcodeStr().str(); o["a"] = expr(b->getLHS()); o["b"] = expr(b->getRHS()); o["ct"] = ty(b->getComputationLHSType()); o["crt"] = ty(b->getComputationResultType()); break; }
    case Stmt::UnaryOperatorClass: { auto* u = cast<UnaryOperator>(e); o["k"] = "un"; o["op"] = UnaryOperator::getOpcodeStr(u->getOpcode()).str(); o["post"] = u->isPostfix(); o["a"] = expr(u->getSubExpr()); break; }
    case Stmt::ConditionalOperatorClass: { auto* c = cast<ConditionalOperator>(e); o["k"] = "cond"; o["c"] = expr(c->getCond()); o["a"] = expr(c->getTrueExpr()); o["b"] = expr(c->getFalseExpr()); break; }
    case Stmt::ArraySubscriptExprClass: { auto* s = cast<ArraySubscriptExpr>(e); o["k"] = "index"; o["a"] = expr(s->getBase()); o["b"] = expr(s->getIdx()); break; }
    case Stmt::ImplicitCastExprClass: case Stmt::CStyleCastExprClass: case Stmt::CXXStaticCastExprClass: case Stmt::CXXFunctionalCastExprClass: case Stmt::CXXConstCastExprClass: case Stmt::CXXReinterpretCastExprClass: {
      auto* c = cast<CastExpr>(e); o["k"] = "cast"; o["ck"] = c->getCastKindName(); o["impl"] = isa<ImplicitCastExpr>(e); o["a"] = expr(c->getSubExpr()); break; }
    case Stmt::CallExprClass: case Stmt::UserDefinedLiteralClass: {
      auto* c = cast<CallExpr>(e);
      o["k"] = "call"; if (auto* f = c->getDirectCallee()) o["f"] = callee(f); else o["fe"] = expr(c->getCallee());
      args(o, c); break; }
    case Stmt::CXXMemberCallExprClass: {
      auto* c = cast<CXXMemberCallExpr>(e); o["k"] = "mcall"; if (auto* f = c->getDirectCallee()) o["f"] = callee(f);
      o["obj"] = expr(c->getImplicitObjectArgument());
      if (auto* me = dyn_cast<MemberExpr>(c->getCallee()->IgnoreParens())) o["arrow"] = me->isArrow();
      args(o, c); break; }
    case Stmt::CXXOperatorCallExprClass: {
      auto* c = cast<CXXOperatorCallExpr>(e); o["k"] = "opcall"; o["op"] = getOperatorSpelling(c->getOperator()); if (auto* f = c->getDirectCallee()) o["f"] = callee(f); args(o, c); break; }
    case Stmt::CXXConstructExprClass: case Stmt::CXXTemporaryObjectExprClass: {
      auto* c = cast<CXXConstructExpr>(e); o["k"] = "ctor"; o["f"] = callee(c->getConstructor()); o["elidable"] = c->isElidable(); o["list"] = c->isListInitialization(); 
      o["copy"] = c->getConstructor()->isCopyOrMoveConstructor(); o["zeroed"] = c->requiresZeroInitialization();
      json::Array a; for (auto* x : c->arguments()) a.push_back(expr(x)); o["args"] = std::move(a); 
      record(c->getConstructor()->getParent());
      break; }
    case Stmt::InitListExprClass: { auto* i = cast<InitListExpr>(e); if (i->isSemanticForm() == false && i->getSemanticForm()) i = i->getSemanticForm(); o["k"] = "initlist"; json::Array a; for (auto* x : i->inits()) a.push_back(expr(x)); o["args"] = std::move(a); break; }
    case Stmt::CXXStdInitializerListExprClass: { o["k"] = "stdinit"; o["a"] = expr(cast<CXXStdInitializerListExpr>(e)->getSubExpr()); break; }
    case Stmt::CXXScalarValueInitExprClass: case Stmt::ImplicitValueInitExprClass: o["k"] = "zero"; break;
    case Stmt::CXXThrowExprClass: { o["k"] = "throw"; if (auto* s = cast<CXXThrowExpr>(e)->getSubExpr()) o["et"] = ty(s->getType()); break; }
    case Stmt::LambdaExprClass: {
      auto* l = cast<LambdaExpr>(e); o["k"] = "lambda"; json::Array ps; for (auto* p : l->getCallOperator()->parameters()) ps.push_back(param(p)); o["params"] = std::move(ps);
      o["ret"] = ty(l->getCallOperator()->getReturnType());
      o["body"] = stmt(l->getBody()); 
      json::Array caps; for (auto& c : l->captures()) if (c.capturesVariable()) { json::Object k; k["name"] = c.getCapturedVar()->getNameAsString(); k["id"] = id(c.getCapturedVar()); k["byref"] = c.getCaptureKind() == LCK_ByRef; caps.push_back(std::move(k)); } else if (c.capturesThis()) { json::Object k; k["name"]="this"; caps.push_back(std::move(k)); }
      o["caps"] = std::move(caps); break; }
    case Stmt::CXXNewExprClass: o["k"] = "new"; break;
    case Stmt::CXXDefaultInitExprClass: return expr(cast<CXXDefaultInitExpr>(e)->getExpr());
    default: o["k"] = "unsupported"; o["cls"] = e->getStmtClassName();
    }
    (void)A;
    return json::Value(std::move(o));
  }
  template <typename CE> void args(json::Object& o, const CE* c) { json::Array a; for (auto* x : c->arguments()) { if (isa<CXXDefaultArgExpr>(x)) { json::Object d; d["k"]="defarg"; d["t"]=ty(x->getType()); d["e"]=expr(cast<CXXDefaultArgExpr>(x)->getExpr()); a.push_back(std::move(d)); } else a.push_back(expr(x)); } o["args"] = std::move(a); }
  const Expr* strip(const Expr* e) {
    while (true) {
      if (auto* x = dyn_cast<FullExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<ParenExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) { e = x->getReplacement(); continue; }
      if (auto* x = dyn_cast<CXXDefaultArgExpr>(e)) { e = x->getExpr(); continue; }
      if (auto* x = dyn_cast<ImplicitCastExpr>(e)) {
        switch (x->getCastKind()) {
          case CK_NoOp: case CK_LValueToRValue: case CK_FunctionToPointerDecay: case CK_DerivedToBase: case CK_UncheckedDerivedToBase: case CK_ConstructorConversion: case CK_UserDefinedConversion:
            e = x->getSubExpr(); continue;
          default: break;
        }
      } else if (auto* x = dyn_cast<ExplicitCastExpr>(e)) {
        if (x->getCastKind() == CK_NoOp || x->getCastKind() == CK_ConstructorConversion || x->getCastKind() == CK_UserDefinedConversion) { e = x->getSubExpr(); continue; }
      }
      return e;
    }
  }
  json::Object param(const ParmVarDecl* p) { json::Object o; o["name"] = p->getNameAsString(); o["id"] = id(p); o["t"] = ty(p->getType()); return o; }
  json::Value vardecl(const VarDecl* v) {
    json::Object o; o["k"] = "vardecl"; o["name"] = v->getNameAsString(); o["id"] = id(v); o["t"] = ty(v->getType()); o["l"] = line(v->getLocation());
    o["static"] = v->isStaticLocal();
    if (v->getInit()) { o["init"] = expr(v->getInit()); }
    return json::Value(std::move(o));
  }
  json::Value stmt(const Stmt* s) {
    json::Object o; if (!s) { o["k"] = "null"; return json::Value(std::move(o)); }
    o["l"] = line(s->getBeginLoc());
    if (auto* e = dyn_cast<Expr>(s)) { o["k"] = "expr"; o["e"] = expr(e); return json::Value(std::move(o)); }
    switch (s->getStmtClass()) {
    case Stmt::CompoundStmtClass: { o["k"] = "block"; json::Array a; for (auto* x : cast<CompoundStmt>(s)->body()) a.push_back(stmt(x)); o["c"] = std::move(a); break; }
    case Stmt::DeclStmtClass: { o["k"] = "decls"; json::Array a; for (auto* d : cast<DeclStmt>(s)->decls()) { if (auto* v = dyn_cast<VarDecl>(d)) a.push_back(vardecl(v)); else if (isa<UsingDecl>(d) || isa<UsingDirectiveDecl>(d) || isa<TypedefNameDecl>(d) || isa<StaticAssertDecl>(d) || isa<UsingShadowDecl>(d) || isa<RecordDecl>(d) || isa<EmptyDecl>(d)) continue; else { json::Object u; u["k"] = "unsupported"; u["cls"] = d->getDeclKindName(); a.push_back(std::move(u)); } } o["c"] = std::move(a); break; }
    case Stmt::IfStmtClass: { auto* i = cast<IfStmt>(s); o["k"] = "if"; if (i->getConditionVariable()) o["cv"] = vardecl(i->getConditionVariable()); o["cond"] = expr(i->getCond()); o["then"] = stmt(i->getThen()); if (i->getElse()) o["else"] = stmt(i->getElse()); break; }
    case Stmt::ForStmtClass: { auto* f = cast<ForStmt>(s); o["k"] = "for"; if (f->getInit()) o["init"] = stmt(f->getInit()); if (f->getCond()) o["cond"] = expr(f->getCond()); if (f->getInc()) o["inc"] = expr(f->getInc()); o["body"] = stmt(f->getBody()); if (f->getConditionVariable()) o["unsupported"] = true; break; }
    case Stmt::WhileStmtClass: { auto* w = cast<WhileStmt>(s); o["k"] = "while"; o["cond"] = expr(w->getCond()); o["body"] = stmt(w->getBody()); break; }
    case Stmt::DoStmtClass: { auto* w = cast<DoStmt>(s); o["k"] = "do"; o["cond"] = expr(w->getCond()); o["body"] = stmt(w->getBody()); break; }
    case Stmt::CXXForRangeStmtClass: { auto* f = cast<CXXForRangeStmt>(s); o["k"] = "range"; o["var"] = vardecl2(f->getLoopVariable()); o["range"] = expr(f->getRangeInit()); rangefn(o, "bf", f->getBeginStmt()); rangefn(o, "ef", f->getEndStmt()); o["body"] = stmt(f->getBody()); break; }
    case Stmt::ReturnStmtClass: { auto* r = cast<ReturnStmt>(s); o["k"] = "return"; if (r->getRetValue()) o["e"] = expr(r->getRetValue()); break; }
    case Stmt::BreakStmtClass: o["k"] = "break"; break;
    case Stmt::ContinueStmtClass: o["k"] = "continue"; break;
    case Stmt::NullStmtClass: o["k"] = "null"; break;
    case Stmt::SwitchStmtClass: { auto* w = cast<SwitchStmt>(s); o["k"] = "switch"; o["cond"] = expr(w->getCond()); o["body"] = stmt(w->getBody()); break; }
    case Stmt::CaseStmtClass: { auto* c = cast<CaseStmt>(s); o["k"] = "case"; o["v"] = expr(c->getLHS()); o["sub"] = stmt(c->getSubStmt()); break; }
    case Stmt::DefaultStmtClass: { o["k"] = "default"; o["sub"] = stmt(cast<DefaultStmt>(s)->getSubStmt()); break; }
    case Stmt::CXXTryStmtClass: { auto* t = cast<CXXTryStmt>(s); o["k"] = "try"; o["body"] = stmt(t->getTryBlock()); json::Array a; for (unsigned i = 0; i < t->getNumHandlers(); ++i) { auto* h = t->getHandler(i); json::Object c; c["all"] = h->getExceptionDecl() == nullptr; if (h->getExceptionDecl()) c["t"] = ty(h->getCaughtType()); c["body"] = stmt(h->getHandlerBlock()); a.push_back(std::move(c)); } o["catch"] = std::move(a); break; }
    default: o["k"] = "unsupported"; o["cls"] = s->getStmtClassName();
    }
    return json::Value(std::move(o));
  }
  // begin()/end() of a class of the repository
  void rangefn(json::Object& o, const char* n, const DeclStmt* d) {
    if (!d || !d->isSingleDecl()) return; auto* v = dyn_cast<VarDecl>(d->getSingleDecl()); if (!v || !v->getInit()) return;
    const Expr* i = strip(v->getInit());
    while (auto* k = dyn_cast<CXXConstructExpr>(i)) { if (k->getNumArgs() != 1) break; i = strip(k->getArg(0)); }
    if (auto* c = dyn_cast<CXXMemberCallExpr>(i)) if (c->getMethodDecl() && inRepo(c->getMethodDecl())) o[n] = callee(c->getMethodDecl());
  }
  json::Value vardecl2(const VarDecl* v) { json::Object o; o["name"] = v->getNameAsString(); o["id"] = id(v); o["t"] = ty(v->getType()); return json::Value(std::move(o)); }
  void record(const RecordDecl* r) {
    r = r->getDefinition(); if (!r) return;
    const Decl* at = r; if (auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(r)) if (!sp->isExplicitSpecialization()) at = sp->getSpecializedTemplate()->getTemplatedDecl();
    if (!inRepo(at)) return;
    if (auto* c = dyn_cast<CXXRecordDecl>(r)) if (c->isLambda()) return;
    std::string n = ty(C.getRecordType(r)); if (records.count(n)) return;
    records.emplace(n, json::Value(nullptr));
    json::Array fs; for (auto* f : r->fields()) { json::Object o; o["name"] = f->getNameAsString(); o["t"] = ty(f->getType()); o["mutable"] = f->isMutable(); fs.push_back(std::move(o)); }
    records.at(n) = json::Value(std::move(fs));
  }
  json::Value function(const FunctionDecl* f) {
    json::Object o = callee(f);
    json::Array ps; for (auto* p : f->parameters()) ps.push_back(param(p)); o["params"] = std::move(ps);
    o["file"] = file(f->getLocation()); o["line"] = line(f->getLocation()); o["endline"] = line(f->getEndLoc());
    o["defid"] = id(f);
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) record(m->getParent());
    if (auto* c = dyn_cast<CXXConstructorDecl>(f)) {
      json::Array is; for (auto* i : c->inits()) { json::Object x; if (i->isMemberInitializer()) x["field"] = i->getMember()->getNameAsString(); else x["base"] = true; x["e"] = expr(i->getInit()); is.push_back(std::move(x)); } o["inits"] = std::move(is); o["ctor"] = true;
    }
    o["body"] = stmt(f->getBody());
    return json::Value(std::move(o));
  }
};

struct Finder : RecursiveASTVisitor<Finder> {
  Dumper& D; std::vector<const FunctionDecl*> found;
  Finder(Dumper& d) : D(d) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool TraverseDecl(Decl* d) {
    if (d && !isa<TranslationUnitDecl>(d) && !isa<ClassTemplateSpecializationDecl>(d)) { if (auto* ns = dyn_cast<NamespaceDecl>(d)) { (void)ns; } else if (d->getLocation().isValid() && !D.inRepo(d)) return true; }
    return RecursiveASTVisitor<Finder>::TraverseDecl(d);
  }
  bool VisitFunctionDecl(FunctionDecl* f) {
    if (!f->isThisDeclarationADefinition() || f->isDependentContext() || !f->hasBody() || !D.inRepo(f)) return true;
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) if (m->getParent()->isLambda()) return true;
    found.push_back(f); return true;
  }
};

struct Consumer : ASTConsumer {
  void HandleTranslationUnit(ASTContext& C) override {
    if (C.getDiagnostics().hasErrorOccurred()) { llvm::errs() << "cxx2ir: translation unit has errors\n"; exit(3); }
    Dumper D(C); Finder F(D); F.TraverseDecl(C.getTranslationUnitDecl());
    if (ListOnly) { for (auto* f : F.found) llvm::outs() << D.key(f) << "\n"; return; }
    for (auto* f : F.found) { auto k = D.key(f); for (auto& r : Roots) if (k.find(r) != std::string::npos) D.enqueue(f); }
    json::Array fs;
    while (!D.work.empty()) { auto* f = D.work.front(); D.work.pop_front(); fs.push_back(D.function(f)); }
    json::Object o; o["functions"] = std::move(fs); json::Object rs; for (auto& r : D.records) rs[r.first] = std::move(r.second); o["records"] = std::move(rs);
    llvm::outs() << json::Value(std::move(o)) << "\n";
  }
};
struct Action : ASTFrontendAction { std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override { return std::make_unique<Consumer>(); } };
}

int main(int argc, char** argv) {
  // cxx2ir SRC PREFIX [--list] ROOT... -- compiler flags
  std::vector<std::string> flags; std::string src; int i = 1; std::vector<std::string> pos;
  for (; i < argc; ++i) { std::string a = argv[i]; if (a == "--") { ++i; break; } if (a == "--list") ListOnly = true; else pos.push_back(a); }
  for (; i < argc; ++i) flags.push_back(argv[i]);
  if (pos.size() < 2) { llvm::errs() << "usage\n"; return 2; }
  src = pos[0]; Prefix = pos[1]; Roots.assign(pos.begin() + 2, pos.end());
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool tool(db, {src});
  return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
