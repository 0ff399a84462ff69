// Clang plugin: mechanical extraction of function bodies as typed trees (JSON).
// It drops: comments, formatting, attributes, parentheses, and everything
// that is not a function body, record layout or variable initialiser of a
// file below one of the given roots.  Nothing is rewritten.
#include "clang/AST/AST.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/RecordLayout.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendPluginRegistry.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace clang;
using namespace llvm;
namespace {
typedef json::Object O;
typedef json::Array A;
std::string outFile;
std::vector<std::string> roots;

class Ext : public RecursiveASTVisitor<Ext> {
public:
  ASTContext &C; SourceManager &SM; PrintingPolicy PP;
  O functions, records, globals;
  std::map<const Decl *, int> ids; int nid = 1;
  std::set<const CXXRecordDecl *> recs;
  Ext(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true; PP.PrintCanonicalTypes = true;
    PP.SuppressScope = false; PP.AnonymousTagLocations = false; PP.SuppressDefaultTemplateArgs = false;
    PP.SuppressInlineNamespace = true;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  int id(const Decl *D) { D = D->getCanonicalDecl(); auto it = ids.find(D); if (it != ids.end()) return it->second; return ids[D] = nid++; }
  std::string fileOf(SourceLocation L) { PresumedLoc P = SM.getPresumedLoc(SM.getExpansionLoc(L)); return P.isValid() ? P.getFilename() : ""; }
  int lineOf(SourceLocation L) { PresumedLoc P = SM.getPresumedLoc(SM.getExpansionLoc(L)); return P.isValid() ? (int)P.getLine() : 0; }
  bool inRoots(SourceLocation L) { std::string f = fileOf(L); for (auto &r : roots) if (f.compare(0, r.size(), r) == 0) return true; return false; }

  std::string recName(const CXXRecordDecl *R) {
    std::string s; raw_string_ostream os(s);
    QualType T = C.getRecordType(R);
    T.getCanonicalType().print(os, PP); return os.str();
  }
  std::string ty(QualType T) {
    T = T.getCanonicalType();
    const clang::Type *t = T.getTypePtr();
    if (auto *b = dyn_cast<BuiltinType>(t)) {
      if (b->getKind() == BuiltinType::Bool) return "bool";
      if (b->isVoidType()) return "void";
      if (b->isInteger()) return std::string(b->isSignedInteger() ? "i" : "u") + std::to_string(C.getTypeSize(T));
      if (b->isFloatingPoint()) return "f" + std::to_string(C.getTypeSize(T));
      if (b->isNullPtrType()) return "*void";
      return "B:" + T.getAsString(PP);
    }
    if (auto *p = dyn_cast<clang::PointerType>(t)) return "*" + ty(p->getPointeeType());
    if (auto *p = dyn_cast<ReferenceType>(t)) return "&" + ty(p->getPointeeType());
    if (auto *a = dyn_cast<clang::ConstantArrayType>(t)) return "[" + std::to_string(a->getSize().getZExtValue()) + "]" + ty(a->getElementType());
    if (auto *a = dyn_cast<IncompleteArrayType>(t)) return "[]" + ty(a->getElementType());
    if (auto *a = dyn_cast<VariableArrayType>(t)) return "[?]" + ty(a->getElementType());
    if (auto *e = dyn_cast<EnumType>(t)) { QualType u = e->getDecl()->getIntegerType(); return u.isNull() ? "i32" : ty(u); }
    if (auto *r = dyn_cast<RecordType>(t)) { if (auto *cr = dyn_cast<CXXRecordDecl>(r->getDecl())) { addRec(cr); return "R:" + recName(cr); } return "R:" + T.getAsString(PP); }
    if (isa<FunctionProtoType>(t)) return "F";
    return "X:" + T.getAsString(PP);
  }
  void addRec(const CXXRecordDecl *R) {
    R = R->getDefinition(); if (!R || !recs.insert(R).second) return;
    if (R->isDependentContext()) return;
    bool want = inRoots(R->getLocation()) || R->isUnion() || !R->getIdentifier();
    if (!want) { if (auto *ts = dyn_cast<ClassTemplateSpecializationDecl>(R)) want = inRoots(ts->getSpecializedTemplate()->getLocation()); }
    O o; std::string n = recName(R);
    if (want) {
      A fs, bs; for (auto *f : R->fields()) { fs.push_back(O{{"n", f->getName().str()}, {"t", ty(f->getType())}, {"off", (int64_t)C.getFieldOffset(f)}, {"id", id(f)}}); }
      for (auto &b : R->bases()) bs.push_back(O{{"t", ty(b.getType())}, {"virt", b.isVirtual()}});
      o["fields"] = std::move(fs); o["bases"] = std::move(bs); o["union"] = R->isUnion();
      o["bits"] = (int64_t)C.getTypeSize(C.getRecordType(R));
      o["poly"] = R->isPolymorphic(); o["abstract"] = R->isAbstract();
      A ms; for (auto *m : R->methods()) { A ov; for (auto *p : m->overridden_methods()) ov.push_back(fkey(p)); ms.push_back(O{{"key", fkey(m)}, {"n", m->getNameAsString()}, {"virt", m->isVirtual()}, {"pure", m->isPureVirtual()}, {"ov", std::move(ov)}, {"implicit", m->isImplicit()}}); }
      o["methods"] = std::move(ms);
      records[n] = std::move(o);
    }
  }
  std::string fkey(const FunctionDecl *F) {
    std::string s; raw_string_ostream os(s);
    if (auto *m = dyn_cast<CXXMethodDecl>(F)) { os << recName(m->getParent()) << "::"; if (isa<CXXConstructorDecl>(F)) os << "<ctor>"; else if (isa<CXXDestructorDecl>(F)) os << "<dtor>"; else os << F->getNameAsString(); }
    else F->printQualifiedName(os, PP);
    if (auto *ta = F->getTemplateSpecializationArgs()) { os << "<"; bool f = true; for (auto &a : ta->asArray()) { if (!f) os << ","; f = false; a.print(PP, os, true); } os << ">"; }
    os << "("; bool f = true; for (auto *p : F->parameters()) { if (!f) os << ","; f = false; os << ty(p->getType()); } os << ")";
    if (auto *m = dyn_cast<CXXMethodDecl>(F)) if (m->isConst()) os << "c";
    if (F->getStorageClass() == SC_Static && !isa<CXXMethodDecl>(F)) {}
    return os.str();
  }
  json::Value vref(const ValueDecl *D) {
    O o{{"n", D->getName().str()}, {"t", ty(D->getType())}};
    o["id"] = id(D);
    if (auto *v = dyn_cast<VarDecl>(D)) {
      o["dk"] = isa<ParmVarDecl>(v) ? "param" : v->hasGlobalStorage() ? (v->isStaticLocal() ? "slocal" : "global") : "local";
      if (v->hasGlobalStorage()) { std::string s; raw_string_ostream os(s); v->printQualifiedName(os, PP); o["qn"] = os.str(); o["const"] = v->getType().isConstQualified() || (v->getType()->isArrayType() && C.getBaseElementType(v->getType()).isConstQualified()); addGlobal(v); }
    } else if (isa<EnumConstantDecl>(D)) o["dk"] = "enum";
    else if (auto *f = dyn_cast<FunctionDecl>(D)) { o["dk"] = "fn"; o["key"] = fkey(f); o["fn"] = fref(f); }
    else o["dk"] = "other";
    return o;
  }
  std::set<const Decl *> gl;
  void addGlobal(const VarDecl *V) {
    const VarDecl *D = nullptr; const Expr *I = V->getAnyInitializer(D);
    if (!gl.insert(V->getCanonicalDecl()).second) return;
    O o{{"n", V->getName().str()}, {"t", ty(V->getType())}, {"line", lineOf(V->getLocation())}, {"file", fileOf(V->getLocation())}, {"const", V->getType().isConstQualified() || (V->getType()->isArrayType() && C.getBaseElementType(V->getType()).isConstQualified())}};
    if (I && D && !I->isValueDependent() && (inRoots(D->getLocation()))) o["init"] = ex(I);
    globals[std::to_string(id(V))] = std::move(o);
  }
  json::Value fref(const FunctionDecl *F) {
    O o{{"key", fkey(F)}, {"n", F->getNameAsString()}, {"ret", ty(F->getReturnType())}};
    A ps; for (auto *p : F->parameters()) ps.push_back(ty(p->getType())); o["ps"] = std::move(ps);
    std::string s; raw_string_ostream os(s); F->printQualifiedName(os, PP); o["qn"] = os.str();
    if (auto *m = dyn_cast<CXXMethodDecl>(F)) { addRec(m->getParent()); o["cls"] = recName(m->getParent()); o["virt"] = m->isVirtual(); o["static"] = m->isStatic(); o["const"] = m->isConst(); }
    if (F->isOverloadedOperator()) o["op"] = getOperatorSpelling(F->getOverloadedOperator());
    if (auto *cd = dyn_cast<CXXConstructorDecl>(F)) { o["copy"] = cd->isCopyOrMoveConstructor(); o["defaulted"] = cd->isDefaulted(); o["implicit"] = cd->isImplicit(); o["trivial"] = cd->isTrivial(); }
    if (auto *m = dyn_cast<CXXMethodDecl>(F)) if (m->isCopyAssignmentOperator() || m->isMoveAssignmentOperator()) { o["assign"] = true; o["defaulted"] = m->isDefaulted(); }
    return o;
  }
  json::Value opt(const Expr *E) { if (!E) return nullptr; return ex(E); }
  json::Value ex(const Expr *E) {
    if (!E) return nullptr;
    // transparent nodes
    if (auto *p = dyn_cast<ParenExpr>(E)) return ex(p->getSubExpr());
    if (auto *p = dyn_cast<ExprWithCleanups>(E)) return ex(p->getSubExpr());
    if (auto *p = dyn_cast<MaterializeTemporaryExpr>(E)) { O o{{"k", "tmp"}, {"t", ty(E->getType())}, {"e", ex(p->getSubExpr())}, {"l", lineOf(E->getExprLoc())}}; return o; }
    if (auto *p = dyn_cast<CXXBindTemporaryExpr>(E)) return ex(p->getSubExpr());
    if (auto *p = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return ex(p->getReplacement());
    if (auto *p = dyn_cast<ConstantExpr>(E)) return ex(p->getSubExpr());
    if (auto *p = dyn_cast<CXXDefaultArgExpr>(E)) return ex(p->getExpr());
    if (auto *p = dyn_cast<CXXDefaultInitExpr>(E)) return ex(p->getExpr());
    O o{{"t", ty(E->getType())}, {"l", lineOf(E->getExprLoc())}};
    if (E->isLValue()) o["lv"] = true;
    if (!E->isValueDependent() && E->isPRValue() && E->getType()->isIntegralOrEnumerationType()) {
      Expr::EvalResult R;
      if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) { SmallString<40> s; R.Val.getInt().toString(s, 10); o["cv"] = std::string(s.str()); }
    }
    if (auto *e = dyn_cast<IntegerLiteral>(E)) { SmallString<40> s; e->getValue().toString(s, 10, false); o["k"] = "int"; o["v"] = std::string(s.str()); }
    else if (auto *e = dyn_cast<CharacterLiteral>(E)) { o["k"] = "int"; o["v"] = std::to_string(e->getValue()); }
    else if (auto *e = dyn_cast<CXXBoolLiteralExpr>(E)) { o["k"] = "int"; o["v"] = e->getValue() ? "1" : "0"; }
    else if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { o["k"] = "null"; }
    else if (auto *e = dyn_cast<clang::StringLiteral>(E)) { o["k"] = "str"; o["v"] = e->isOrdinary() ? e->getString().str() : std::string(""); }
    else if (isa<FloatingLiteral>(E)) { o["k"] = "float"; }
    else if (auto *e = dyn_cast<DeclRefExpr>(E)) { o["k"] = "ref"; o["d"] = vref(e->getDecl()); }
    else if (isa<CXXThisExpr>(E)) { o["k"] = "this"; }
    else if (auto *e = dyn_cast<MemberExpr>(E)) {
      o["b"] = ex(e->getBase()); o["arrow"] = e->isArrow();
      if (auto *f = dyn_cast<FieldDecl>(e->getMemberDecl())) { o["k"] = "mem"; o["f"] = f->getName().str(); o["cls"] = recName(cast<CXXRecordDecl>(f->getParent())); addRec(cast<CXXRecordDecl>(f->getParent())); }
      else if (auto *m = dyn_cast<FunctionDecl>(e->getMemberDecl())) { o["k"] = "memfn"; o["fn"] = fref(m); }
      else if (auto *v = dyn_cast<VarDecl>(e->getMemberDecl())) { o["k"] = "ref"; o["d"] = vref(v); }
      else if (isa<EnumConstantDecl>(e->getMemberDecl())) { o["k"] = "ref"; o["d"] = vref(e->getMemberDecl()); }
      else o["k"] = "?mem";
    }
    else if (auto *e = dyn_cast<UnaryOperator>(E)) { o["k"] = "un"; o["op"] = e->isPostfix() ? std::string("post") + UnaryOperator::getOpcodeStr(e->getOpcode()).str() : UnaryOperator::getOpcodeStr(e->getOpcode()).str(); o["e"] = ex(e->getSubExpr()); }
    else if (auto *e = dyn_cast<CompoundAssignOperator>(E)) { o["k"] = "casg"; o["op"] = BinaryOperator::getOpcodeStr(BinaryOperator::getOpForCompoundAssignment(e->getOpcode())).str(); o["a"] = ex(e->getLHS()); o["b"] = ex(e->getRHS()); o["lt"] = ty(e->getComputationLHSType()); o["rt"] = ty(e->getComputationResultType()); }
    else if (auto *e = dyn_cast<BinaryOperator>(E)) { o["k"] = e->getOpcode() == BO_Assign ? "asg" : e->getOpcode() == BO_Comma ? "comma" : e->getOpcode() == BO_LAnd ? "land" : e->getOpcode() == BO_LOr ? "lor" : "bin"; o["op"] = BinaryOperator::getOpcodeStr(e->getOpcode()).str(); o["a"] = ex(e->getLHS()); o["b"] = ex(e->getRHS()); }
    else if (auto *e = dyn_cast<ConditionalOperator>(E)) { o["k"] = "cond"; o["c"] = ex(e->getCond()); o["a"] = ex(e->getTrueExpr()); o["b"] = ex(e->getFalseExpr()); }
    else if (auto *e = dyn_cast<ArraySubscriptExpr>(E)) { o["k"] = "idx"; o["a"] = ex(e->getBase()); o["b"] = ex(e->getIdx()); }
    else if (auto *e = dyn_cast<CXXOperatorCallExpr>(E)) {
      o["k"] = "opcall"; o["op"] = getOperatorSpelling(e->getOperator()); if (auto *f = e->getDirectCallee()) o["fn"] = fref(f);
      A as; for (auto *a : e->arguments()) as.push_back(ex(a)); o["args"] = std::move(as);
    }
    else if (auto *e = dyn_cast<CXXMemberCallExpr>(E)) {
      o["k"] = "mcall"; if (auto *f = e->getMethodDecl()) o["fn"] = fref(f);
      const Expr *ob = e->getImplicitObjectArgument(); o["ob"] = opt(ob); o["obptr"] = ob && ob->getType()->isPointerType();
      bool q = false; if (auto *me = dyn_cast<MemberExpr>(e->getCallee()->IgnoreParens())) q = me->hasQualifier(); o["qual"] = q;
      A as; for (auto *a : e->arguments()) as.push_back(ex(a)); o["args"] = std::move(as);
    }
    else if (auto *e = dyn_cast<CallExpr>(E)) {
      o["k"] = "call"; if (auto *f = e->getDirectCallee()) o["fn"] = fref(f); else o["cal"] = ex(e->getCallee());
      A as; for (auto *a : e->arguments()) as.push_back(ex(a)); o["args"] = std::move(as);
    }
    else if (auto *e = dyn_cast<CXXConstructExpr>(E)) {
      o["k"] = "ctor"; o["fn"] = fref(e->getConstructor()); o["list"] = e->isListInitialization(); o["zeroinit"] = e->requiresZeroInitialization(); A as; for (auto *a : e->arguments()) as.push_back(ex(a)); o["args"] = std::move(as);
    }
    else if (auto *e = dyn_cast<CXXNewExpr>(E)) { o["k"] = "new"; o["at"] = ty(e->getAllocatedType()); o["arr"] = e->isArray(); if (e->isArray() && e->getArraySize()) o["n"] = ex(*e->getArraySize()); o["init"] = opt(e->getInitializer()); }
    else if (auto *e = dyn_cast<CXXDeleteExpr>(E)) { o["k"] = "del"; o["arr"] = e->isArrayForm(); o["e"] = ex(e->getArgument()); }
    else if (auto *e = dyn_cast<CXXThrowExpr>(E)) { o["k"] = "throw"; o["e"] = opt(e->getSubExpr()); o["et"] = e->getSubExpr() ? ty(e->getSubExpr()->getType()) : "void"; }
    else if (auto *e = dyn_cast<CXXScalarValueInitExpr>(E)) { (void)e; o["k"] = "zeroinit"; }
    else if (isa<ImplicitValueInitExpr>(E)) { o["k"] = "zeroinit"; }
    else if (auto *e = dyn_cast<InitListExpr>(E)) { o["k"] = "ilist"; A as; for (auto *a : e->inits()) as.push_back(ex(a)); o["args"] = std::move(as); if (e->getArrayFiller()) o["filler"] = ex(e->getArrayFiller()); }
    else if (auto *e = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) { (void)e; o["k"] = "sizeof"; }
    else if (auto *e = dyn_cast<CastExpr>(E)) {
      std::string ck = e->getCastKindName(); if (isa<CXXConstCastExpr>(E)) {}
      if (ck == "ConstructorConversion" || ck == "UserDefinedConversion") return ex(e->getSubExpr());
      o["k"] = "cast"; o["ck"] = ck; o["e"] = ex(e->getSubExpr());
    }
    else { o["k"] = std::string("?") + E->getStmtClassName(); A cs; for (auto *c : E->children()) if (auto *ce = dyn_cast_or_null<Expr>(c)) cs.push_back(ex(ce)); o["ch"] = std::move(cs); }
    return o;
  }
  json::Value var(const VarDecl *V) {
    O o{{"n", V->getName().str()}, {"t", ty(V->getType())}, {"id", id(V)}, {"static", V->isStaticLocal()}, {"l", lineOf(V->getLocation())}};
    if (V->getInit()) o["init"] = ex(V->getInit());
    if (auto *va = dyn_cast<VariableArrayType>(V->getType().getCanonicalType().getTypePtr())) o["vla"] = ex(va->getSizeExpr());
    if (V->isStaticLocal()) addGlobal(V);
    return o;
  }
  json::Value st(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *e = dyn_cast<Expr>(S)) return O{{"k", "expr"}, {"e", ex(e)}, {"l", lineOf(e->getExprLoc())}};
    O o{{"l", lineOf(S->getBeginLoc())}};
    if (auto *s = dyn_cast<CompoundStmt>(S)) { o["k"] = "block"; A b; for (auto *c : s->body()) b.push_back(st(c)); o["b"] = std::move(b); }
    else if (auto *s = dyn_cast<DeclStmt>(S)) { o["k"] = "decl"; A b; for (auto *d : s->decls()) if (auto *v = dyn_cast<VarDecl>(d)) b.push_back(var(v)); o["v"] = std::move(b); }
    else if (auto *s = dyn_cast<IfStmt>(S)) { o["k"] = "if"; if (s->getInit()) o["init"] = st(s->getInit()); if (s->getConditionVariable()) o["cv"] = var(s->getConditionVariable()); o["c"] = ex(s->getCond()); o["a"] = st(s->getThen()); o["b"] = st(s->getElse()); }
    else if (auto *s = dyn_cast<ForStmt>(S)) { o["k"] = "for"; o["i"] = st(s->getInit()); o["c"] = opt(s->getCond()); o["s"] = opt(s->getInc()); o["b"] = st(s->getBody()); }
    else if (auto *s = dyn_cast<WhileStmt>(S)) { o["k"] = "while"; o["c"] = ex(s->getCond()); o["b"] = st(s->getBody()); }
    else if (auto *s = dyn_cast<DoStmt>(S)) { o["k"] = "do"; o["c"] = ex(s->getCond()); o["b"] = st(s->getBody()); }
    else if (auto *s = dyn_cast<ReturnStmt>(S)) { o["k"] = "ret"; o["e"] = opt(s->getRetValue()); }
    else if (isa<BreakStmt>(S)) o["k"] = "break";
    else if (isa<ContinueStmt>(S)) o["k"] = "continue";
    else if (isa<NullStmt>(S)) o["k"] = "null";
    else if (auto *s = dyn_cast<SwitchStmt>(S)) { o["k"] = "switch"; o["c"] = ex(s->getCond()); o["b"] = st(s->getBody()); }
    else if (auto *s = dyn_cast<CaseStmt>(S)) { o["k"] = "case"; o["v"] = ex(s->getLHS()); o["b"] = st(s->getSubStmt()); }
    else if (auto *s = dyn_cast<DefaultStmt>(S)) { o["k"] = "default"; o["b"] = st(s->getSubStmt()); }
    else if (auto *s = dyn_cast<CXXTryStmt>(S)) { o["k"] = "try"; o["b"] = st(s->getTryBlock()); }
    else if (auto *s = dyn_cast<AttributedStmt>(S)) return st(s->getSubStmt());
    else if (auto *s = dyn_cast<CXXForRangeStmt>(S)) { o["k"] = "rangefor"; o["range"] = ex(s->getRangeInit()); o["rs"] = st(s->getRangeStmt()); o["bs"] = st(s->getBeginStmt()); o["es"] = st(s->getEndStmt()); o["c"] = ex(s->getCond()); o["s"] = ex(s->getInc()); o["lv"] = st(s->getLoopVarStmt()); o["b"] = st(s->getBody()); }
    else o["k"] = std::string("?") + S->getStmtClassName();
    return o;
  }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isDependentContext() || !F->isThisDeclarationADefinition()) return true;
    if (!inRoots(F->getLocation())) return true;
    if (F->isDeleted()) return true;
    if (!F->getBody() ) return true;
    O o = *fref(F).getAsObject();
    std::string key = fkey(F);
    o["file"] = fileOf(F->getLocation()); o["line"] = lineOf(F->getLocation()); o["endline"] = lineOf(F->getBodyRBrace());
    A ps; for (auto *p : F->parameters()) ps.push_back(var(p)); o["params"] = std::move(ps);
    if (auto *cd = dyn_cast<CXXConstructorDecl>(F)) {
      A in; for (auto *i : cd->inits()) {
        O q; if (i->isMemberInitializer()) { q["f"] = i->getMember()->getName().str(); }
        else if (i->isBaseInitializer()) q["base"] = ty(QualType(i->getBaseClass(), 0));
        else if (i->isDelegatingInitializer()) q["delegate"] = true;
        q["written"] = i->isWritten(); q["e"] = ex(i->getInit()); in.push_back(std::move(q)); }
      o["inits"] = std::move(in);
    }
    o["body"] = st(F->getBody());
    functions[key] = std::move(o);
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (V->hasGlobalStorage() && !V->isStaticLocal() && !V->getDeclContext()->isDependentContext() && inRoots(V->getLocation()) && !V->getType()->isDependentType()) addGlobal(V);
    return true;
  }
};
class Cons : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Ext x(C); x.TraverseDecl(C.getTranslationUnitDecl());
    std::error_code ec; raw_fd_ostream os(outFile, ec);
    os << json::Value(O{{"functions", std::move(x.functions)}, {"records", std::move(x.records)}, {"globals", std::move(x.globals)}}) << "\n";
  }
};
class Act : public PluginASTAction {
protected:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override { return std::make_unique<Cons>(); }
  bool ParseArgs(const CompilerInstance &, const std::vector<std::string> &a) override {
    for (size_t i = 0; i + 1 < a.size(); i += 2) { if (a[i] == "out") outFile = a[i + 1]; else if (a[i] == "root") roots.push_back(a[i + 1]); }
    return true;
  }
  ActionType getActionType() override { return ReplaceAction; }
};
}
static FrontendPluginRegistry::Add<Act> X("cppvc-extract", "extract typed function bodies");
