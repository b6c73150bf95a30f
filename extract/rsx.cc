// Dumps the resolved program of one translation unit as JSON.
// usage: rsx ROOT OUT.json SOURCE -- compiler flags
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>

using namespace clang;
namespace json = llvm::json;
static std::string gRoot, gOut;
static bool gErr = false;

static std::string stripInline(std::string s) {
  for (const char *k : {"__cxx11::", "__1::", "v3_11_3::", "_V2::"}) {
    for (size_t p; (p = s.find(k)) != std::string::npos;) s.erase(p, strlen(k));
  }
  // nlohmann inline abi namespace
  size_t p;
  while ((p = s.find("json_abi_v")) != std::string::npos) {
    size_t e = s.find("::", p);
    if (e == std::string::npos) break;
    s.erase(p, e + 2 - p);
  }
  return s;
}

struct Dumper {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  json::Object types, funcs, records, enums, globals;
  std::map<const Decl *, int> ids;
  std::set<std::string> seenT, seenF, seenR, seenE, seenG;
  std::vector<const FunctionDecl *> work;

  Dumper(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getPrintingPolicy()) {
    PP.SuppressInlineNamespace = true;
    PP.Bool = true;
    PP.FullyQualifiedName = true;
  }
  int id(const Decl *d) {
    d = d->getCanonicalDecl();
    auto it = ids.find(d);
    if (it != ids.end()) return it->second;
    int n = ids.size() + 1;
    return ids[d] = n;
  }
  std::string file(SourceLocation l) {
    l = SM.getExpansionLoc(l);
    auto pl = SM.getPresumedLoc(l, false);
    if (pl.isInvalid()) return "";
    std::string f = pl.getFilename();
    llvm::SmallString<256> rp;
    if (!llvm::sys::fs::real_path(f, rp)) f = std::string(rp.str());
    if (f.compare(0, gRoot.size() + 1, gRoot + "/") == 0) return f.substr(gRoot.size() + 1);
    return "";
  }
  int line(SourceLocation l) {
    auto pl = SM.getPresumedLoc(SM.getExpansionLoc(l), false);
    return pl.isInvalid() ? 0 : pl.getLine();
  }
  bool inRepo(const Decl *d) { return !file(d->getLocation()).empty(); }
  std::string qn(const NamedDecl *d) { return stripInline(d->getQualifiedNameAsString()); }

  std::string targs(const TemplateArgumentList &l) {
    std::string s;
    for (auto &a : l.asArray()) {
      if (!s.empty()) s += ",";
      s += targ(a);
    }
    return s;
  }
  std::string targ(const TemplateArgument &a) {
    switch (a.getKind()) {
      case TemplateArgument::Type: return type(a.getAsType());
      case TemplateArgument::Integral: return llvm::toString(a.getAsIntegral(), 10);
      case TemplateArgument::Pack: {
        std::string s;
        for (auto &x : a.pack_elements()) { if (!s.empty()) s += ","; s += targ(x); }
        return s;
      }
      default: return "?";
    }
  }
  std::string fkey(const FunctionDecl *f) {
    std::string s = qn(f);
    if (auto *ta = f->getTemplateSpecializationArgs()) s += "<" + targs(*ta) + ">";
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
      if (auto *sp = dyn_cast<ClassTemplateSpecializationDecl>(m->getParent()))
        s += "{" + targs(sp->getTemplateArgs()) + "}";
    }
    s += "(";
    for (auto *p : f->parameters()) s += type(p->getType()) + ",";
    s += ")";
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) if (m->isConst()) s += "const";
    return s;
  }

  std::string recname(const RecordDecl *r) {
    std::string s = qn(r);
    if (auto *sp = dyn_cast<ClassTemplateSpecializationDecl>(r)) s += "<" + targs(sp->getTemplateArgs()) + ">";
    if (r->getName().empty() && !r->getTypedefNameForAnonDecl()) {
      if (auto *cr = dyn_cast<CXXRecordDecl>(r)) if (cr->isLambda()) s = "lambda@" + file(r->getLocation()) + ":" + std::to_string(line(r->getLocation())) + ":" + std::to_string(SM.getSpellingColumnNumber(SM.getExpansionLoc(r->getLocation())));
    }
    return s;
  }

  std::string type(QualType q) {
    if (q.isNull()) return "?";
    QualType c = q.getCanonicalType();
    bool isconst = c.isConstQualified();
    c = c.getUnqualifiedType();
    json::Object o;
    std::string s;
    const Type *t = c.getTypePtr();
    if (auto *bt = dyn_cast<BuiltinType>(t)) {
      s = bt->getName(PP).str();
      if (bt->getKind() == BuiltinType::Bool) { o["c"] = "bool"; o["w"] = 8; o["sg"] = false; }
      else if (bt->isInteger()) { o["c"] = "int"; o["w"] = (int64_t)C.getTypeSize(c); o["sg"] = bt->isSignedInteger(); 
        if (t->isCharType()) o["ch"] = true; }
      else if (bt->isFloatingPoint()) { o["c"] = "float"; o["w"] = (int64_t)C.getTypeSize(c); }
      else if (bt->isVoidType()) o["c"] = "void";
      else if (bt->isNullPtrType()) o["c"] = "nullptr";
      else o["c"] = "other";
    } else if (auto *et = dyn_cast<EnumType>(t)) {
      s = "enum " + qn(et->getDecl());
      o["c"] = "enum";
      QualType u = et->getDecl()->getIntegerType();
      if (!u.isNull()) { o["w"] = (int64_t)C.getTypeSize(u); o["sg"] = u->isSignedIntegerType(); }
      o["r"] = qn(et->getDecl());
      dumpEnum(et->getDecl());
    } else if (auto *rt = dyn_cast<RecordType>(t)) {
      s = recname(rt->getDecl());
      o["c"] = "rec";
      o["r"] = s;
      o["q"] = qn(rt->getDecl());
      if (!seenT.count(s)) {
        seenT.insert(s);
        types[s] = json::Object(o);
        json::Array ta;
        if (auto *sp = dyn_cast<ClassTemplateSpecializationDecl>(rt->getDecl()))
          for (auto &a : sp->getTemplateArgs().asArray()) ta.push_back(targ(a));
        o["ta"] = std::move(ta);
        types[s] = std::move(o);
        if (auto *cr = dyn_cast<CXXRecordDecl>(rt->getDecl())) dumpRecord(cr);
      }
      return isconst ? "const " + s : s;
    } else if (auto *pt = dyn_cast<PointerType>(t)) {
      std::string e = type(pt->getPointeeType());
      s = e + "*"; o["c"] = "ptr"; o["e"] = e;
    } else if (auto *rf = dyn_cast<ReferenceType>(t)) {
      std::string e = type(rf->getPointeeType());
      s = e + (isa<RValueReferenceType>(rf) ? "&&" : "&"); o["c"] = "ref"; o["e"] = e;
      o["rv"] = isa<RValueReferenceType>(rf);
    } else if (auto *at = dyn_cast<ConstantArrayType>(t)) {
      std::string e = type(at->getElementType());
      s = e + "[" + llvm::toString(at->getSize(), 10, false) + "]"; o["c"] = "arr"; o["e"] = e;
      o["n"] = (int64_t)at->getSize().getZExtValue();
    } else if (isa<FunctionType>(t)) {
      s = c.getAsString(PP); o["c"] = "func";
    } else {
      s = stripInline(c.getAsString(PP)); o["c"] = "other";
    }
    if (!seenT.count(s)) { seenT.insert(s); types[s] = std::move(o); }
    if (isconst) {
      std::string cs = "const " + s;
      if (!seenT.count(cs)) { seenT.insert(cs); json::Object co; co["alias"] = s; types[cs] = std::move(co); }
      return cs;
    }
    return s;
  }

  void dumpEnum(const EnumDecl *e) {
    std::string n = qn(e);
    if (seenE.count(n)) return;
    seenE.insert(n);
    if (!inRepo(e)) return;
    json::Object o;
    for (auto *c : e->enumerators()) o[c->getNameAsString()] = llvm::toString(c->getInitVal(), 10);
    enums[n] = std::move(o);
  }

  void dumpRecord(const CXXRecordDecl *r) {
    r = r->getDefinition();
    if (!r || !inRepo(r) || r->isDependentType()) return;
    std::string n = recname(r);
    if (seenR.count(n)) return;
    seenR.insert(n);
    json::Object o;
    o["file"] = file(r->getLocation());
    o["line"] = line(r->getLocation());
    json::Array fs;
    for (auto *f : r->fields()) {
      json::Object fo;
      fo["n"] = f->getNameAsString();
      fo["t"] = type(f->getType());
      fo["l"] = line(f->getLocation());
      fo["mut"] = f->isMutable();
      fo["acc"] = (int)f->getAccess();
      if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = expr(f->getInClassInitializer());
      fs.push_back(std::move(fo));
    }
    o["fields"] = std::move(fs);
    json::Array bs;
    for (auto &b : r->bases()) bs.push_back(type(b.getType()));
    o["bases"] = std::move(bs);
    o["lambda"] = r->isLambda();
    o["agg"] = r->isAggregate();
    json::Array ms;
    for (auto *m : r->methods()) {
      json::Object mo;
      mo["n"] = m->getNameAsString();
      mo["k"] = fkey(m);
      mo["del"] = m->isDeleted();
      mo["def"] = m->isDefaulted();
      mo["impl"] = m->isImplicit();
      mo["user"] = m->isUserProvided();
      mo["const"] = m->isConst();
      mo["acc"] = (int)m->getAccess();
      std::string kind = "method";
      if (auto *cd = dyn_cast<CXXConstructorDecl>(m)) {
        kind = "ctor";
        if (cd->isCopyConstructor()) kind = "copyctor";
        else if (cd->isMoveConstructor()) kind = "movector";
        else if (cd->isDefaultConstructor()) kind = "defctor";
      } else if (isa<CXXDestructorDecl>(m)) kind = "dtor";
      else if (m->isCopyAssignmentOperator()) kind = "copyasg";
      else if (m->isMoveAssignmentOperator()) kind = "moveasg";
      mo["kind"] = kind;
      ms.push_back(std::move(mo));
    }
    o["methods"] = std::move(ms);
    o["has_copy_ctor"] = r->hasCopyConstructorWithConstParam();
    records[n] = std::move(o);
  }

  json::Value opt(const Stmt *s) { return s ? stmt(s) : json::Value(nullptr); }
  json::Value optE(const Expr *s) { return s ? expr(s) : json::Value(nullptr); }

  json::Value var(const VarDecl *v) {
    json::Object o;
    o["id"] = id(v);
    o["n"] = v->getNameAsString();
    o["t"] = type(v->getType());
    o["l"] = line(v->getLocation());
    if (v->isStaticLocal()) o["static"] = true;
    if (v->isConstexpr()) o["cexpr"] = true;
    if (v->hasInit()) o["init"] = expr(v->getInit());
    return o;
  }

  void global(const VarDecl *v) {
    const VarDecl *d = v->getDefinition(C) ? v->getDefinition(C) : v;
    if (!d->getAnyInitializer(d) ) {}
    const VarDecl *idecl = nullptr;
    const Expr *init = v->getAnyInitializer(idecl);
    std::string n = gname(v);
    if (seenG.count(n)) return;
    if (!inRepo(v) || v->getType()->isDependentType()) return;
    seenG.insert(n);
    json::Object o;
    o["t"] = type(v->getType());
    o["file"] = file((idecl ? idecl : v)->getLocation());
    o["line"] = line((idecl ? idecl : v)->getLocation());
    o["const"] = v->getType().isConstQualified() || v->isConstexpr();
    o["local"] = v->isStaticLocal();
    o["def"] = (v->isThisDeclarationADefinition() == VarDecl::Definition) || v->getDefinition(C) != nullptr;
    if (init) o["init"] = expr(init);
    globals[n] = std::move(o);
  }
  std::string gname(const VarDecl *v) {
    std::string n = qn(v);
    if (v->isStaticLocal()) {
      if (auto *f = dyn_cast<FunctionDecl>(v->getDeclContext())) n = qn(f) + "::" + v->getNameAsString();
      else n = "local@" + std::to_string(line(v->getLocation())) + "::" + v->getNameAsString();
    }
    return n;
  }

  json::Object base(const Stmt *s, const char *k) {
    json::Object o;
    o["k"] = k;
    o["l"] = line(s->getBeginLoc());
    std::string f = file(s->getBeginLoc());
    if (f != curFile) o["f"] = f;
    return o;
  }
  std::string curFile;

  json::Value stmt(const Stmt *s) {
    if (auto *e = dyn_cast<Expr>(s)) { auto o = base(s, "expr"); o["e"] = expr(e); return o; }
    if (auto *c = dyn_cast<CompoundStmt>(s)) {
      auto o = base(s, "block"); json::Array a; for (auto *x : c->body()) a.push_back(stmt(x)); o["s"] = std::move(a); return o;
    }
    if (auto *d = dyn_cast<DeclStmt>(s)) {
      auto o = base(s, "decl"); json::Array a;
      for (auto *x : d->decls()) if (auto *v = dyn_cast<VarDecl>(x)) { a.push_back(var(v)); if (v->isStaticLocal()) global(v); }
        else if (auto *rd = dyn_cast<CXXRecordDecl>(x)) { dumpRecord(rd); }
      o["v"] = std::move(a); return o;
    }
    if (auto *i = dyn_cast<IfStmt>(s)) {
      auto o = base(s, "if"); o["init"] = opt(i->getInit());
      if (i->getConditionVariable()) o["cv"] = var(i->getConditionVariable());
      o["c"] = expr(i->getCond()); o["t"] = stmt(i->getThen()); o["e"] = opt(i->getElse()); return o;
    }
    if (auto *f = dyn_cast<ForStmt>(s)) {
      auto o = base(s, "for"); o["init"] = opt(f->getInit()); o["c"] = optE(f->getCond()); o["inc"] = optE(f->getInc()); o["b"] = stmt(f->getBody()); return o;
    }
    if (auto *w = dyn_cast<WhileStmt>(s)) {
      auto o = base(s, "while"); if (w->getConditionVariable()) o["cv"] = var(w->getConditionVariable());
      o["c"] = expr(w->getCond()); o["b"] = stmt(w->getBody()); return o;
    }
    if (auto *d = dyn_cast<DoStmt>(s)) { auto o = base(s, "do"); o["c"] = expr(d->getCond()); o["b"] = stmt(d->getBody()); return o; }
    if (auto *r = dyn_cast<CXXForRangeStmt>(s)) {
      auto o = base(s, "rfor"); o["v"] = var(r->getLoopVariable()); 
      o["r"] = expr(r->getRangeInit()); o["b"] = stmt(r->getBody());
      if (auto *rv = dyn_cast<DeclStmt>(r->getRangeStmt())) (void)rv;
      return o;
    }
    if (auto *w = dyn_cast<SwitchStmt>(s)) {
      auto o = base(s, "switch"); o["init"] = opt(w->getInit()); o["c"] = expr(w->getCond()); o["b"] = stmt(w->getBody());
      o["allenum"] = w->isAllEnumCasesCovered();
      return o;
    }
    if (auto *c = dyn_cast<CaseStmt>(s)) {
      auto o = base(s, "case"); 
      Expr::EvalResult R;
      if (c->getLHS()->EvaluateAsInt(R, C)) o["v"] = llvm::toString(R.Val.getInt(), 10);
      if (c->getRHS()) { Expr::EvalResult R2; if (c->getRHS()->EvaluateAsInt(R2, C)) o["v2"] = llvm::toString(R2.Val.getInt(), 10); }
      o["s"] = opt(c->getSubStmt()); return o;
    }
    if (auto *d = dyn_cast<DefaultStmt>(s)) { auto o = base(s, "default"); o["s"] = opt(d->getSubStmt()); return o; }
    if (isa<BreakStmt>(s)) return base(s, "break");
    if (isa<ContinueStmt>(s)) return base(s, "continue");
    if (isa<NullStmt>(s)) return base(s, "null");
    if (auto *r = dyn_cast<ReturnStmt>(s)) { auto o = base(s, "ret"); o["e"] = optE(r->getRetValue()); return o; }
    if (auto *a = dyn_cast<AttributedStmt>(s)) return stmt(a->getSubStmt());
    if (auto *a = dyn_cast<LabelStmt>(s)) { auto o = base(s, "label"); o["s"] = stmt(a->getSubStmt()); return o; }
    if (auto *t = dyn_cast<CXXTryStmt>(s)) {
      auto o = base(s, "try"); o["b"] = stmt(t->getTryBlock()); json::Array hs;
      for (unsigned i = 0; i < t->getNumHandlers(); i++) {
        auto *h = t->getHandler(i); json::Object ho; ho["l"] = line(h->getBeginLoc());
        if (h->getExceptionDecl()) { ho["v"] = var(h->getExceptionDecl()); ho["t"] = type(h->getCaughtType().getNonReferenceType().getUnqualifiedType());
          json::Array anc; ancestors(h->getCaughtType().getNonReferenceType(), anc); }
        ho["b"] = stmt(h->getHandlerBlock()); hs.push_back(std::move(ho));
      }
      o["h"] = std::move(hs); return o;
    }
    auto o = base(s, "unkstmt"); o["cls"] = s->getStmtClassName(); return o;
  }
  void ancestors(QualType q, json::Array &a) {
    auto *r = q->getAsCXXRecordDecl();
    if (!r || !r->getDefinition()) return;
    for (auto &b : r->getDefinition()->bases()) { if (b.getAccessSpecifier() != AS_public) continue; a.push_back(type(b.getType().getUnqualifiedType())); ancestors(b.getType(), a); }
  }

  const Expr *strip(const Expr *e) {
    while (true) {
      if (auto *p = dyn_cast<ParenExpr>(e)) e = p->getSubExpr();
      else if (auto *p = dyn_cast<FullExpr>(e)) e = p->getSubExpr();
      else if (auto *p = dyn_cast<MaterializeTemporaryExpr>(e)) e = p->getSubExpr();
      else if (auto *p = dyn_cast<CXXBindTemporaryExpr>(e)) e = p->getSubExpr();
      else if (auto *p = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e = p->getReplacement();
      else if (auto *p = dyn_cast<CXXDefaultArgExpr>(e)) e = p->getExpr();
      else if (auto *p = dyn_cast<CXXDefaultInitExpr>(e)) { if (!p->getExpr()) break; e = p->getExpr(); }
      else if (auto *p = dyn_cast<CXXRewrittenBinaryOperator>(e)) e = p->getSemanticForm();
      else if (auto *p = dyn_cast<UnaryOperator>(e); p && p->getOpcode() == UO_Extension) e = p->getSubExpr();
      else if (auto *p = dyn_cast<CastExpr>(e)) {
        switch (p->getCastKind()) {
          case CK_NoOp: case CK_FunctionToPointerDecay: case CK_UserDefinedConversion: case CK_ConstructorConversion: case CK_BuiltinFnToFnPtr:
            e = p->getSubExpr(); continue;
          default: return e;
        }
      } else break;
    }
    return e;
  }

  std::string hex(StringRef b) { return llvm::toHex(b, true); }

  void need(const FunctionDecl *f) {
    if (!f) return;
    work.push_back(f);
  }

  json::Value expr(const Expr *e0) {
    const Expr *e = strip(e0);
    json::Object o;
    o["l"] = line(e->getBeginLoc());
    o["t"] = type(e->getType());
    if (e->isGLValue()) o["lv"] = true;
    QualType et = e->getType();
    if (!e->isValueDependent() && e->isPRValue() && (et->isIntegralOrEnumerationType()) && !isa<IntegerLiteral>(e)) {
      Expr::EvalResult R;
      if (e->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) o["cv"] = llvm::toString(R.Val.getInt(), 10);
    } else if (!e->isValueDependent() && e->isPRValue() && et->isRealFloatingType()) {
      Expr::EvalResult R;
      if (e->EvaluateAsRValue(R, C) && !R.HasSideEffects && R.Val.isFloat()) {
        llvm::SmallString<32> b; R.Val.getFloat().toString(b, 0, 0); o["fv"] = std::string(b.str());
        bool li; llvm::APFloat d = R.Val.getFloat(); d.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &li);
        o["fv"] = d.isFinite() ? json::Value(d.convertToDouble()) : json::Value(std::string(b.str()));
      }
    }
    auto K = [&](const char *k) { o["k"] = k; };
    if (auto *x = dyn_cast<IntegerLiteral>(e)) { K("int"); o["v"] = llvm::toString(x->getValue(), 10, et->isSignedIntegerType()); return o; }
    if (auto *x = dyn_cast<CXXBoolLiteralExpr>(e)) { K("int"); o["v"] = x->getValue() ? "1" : "0"; return o; }
    if (auto *x = dyn_cast<CharacterLiteral>(e)) { K("int"); o["v"] = std::to_string((int64_t)(int32_t)x->getValue()); return o; }
    if (auto *x = dyn_cast<FloatingLiteral>(e)) { K("flt"); o["v"] = x->getValueAsApproximateDouble(); return o; }
    if (auto *x = dyn_cast<StringLiteral>(e)) { K("str"); o["h"] = hex(x->getBytes()); return o; }
    if (isa<PredefinedExpr>(e)) { K("str"); o["h"] = ""; return o; }
    if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) { K("null"); return o; }
    if (auto *x = dyn_cast<DeclRefExpr>(e)) {
      const ValueDecl *d = x->getDecl();
      if (auto *ec = dyn_cast<EnumConstantDecl>(d)) { K("int"); o["v"] = llvm::toString(ec->getInitVal(), 10); o["en"] = ec->getNameAsString(); return o; }
      if (auto *v = dyn_cast<VarDecl>(d)) {
        if (v->hasLocalStorage()) { K("var"); o["id"] = id(v); o["n"] = v->getNameAsString(); return o; }
        K("glob"); o["n"] = gname(v); global(v); return o;
      }
      if (auto *f = dyn_cast<FunctionDecl>(d)) { K("fn"); o["n"] = qn(f); o["fk"] = fkey(f); need(f); return o; }
      if (auto *b = dyn_cast<BindingDecl>(d)) { K("unk"); o["cls"] = "Binding"; (void)b; return o; }
      K("unk"); o["cls"] = "DeclRef"; return o;
    }
    if (auto *x = dyn_cast<MemberExpr>(e)) {
      if (auto *f = dyn_cast<FieldDecl>(x->getMemberDecl())) {
        K("mem"); o["o"] = expr(x->getBase()); o["n"] = f->getNameAsString(); o["arrow"] = x->isArrow();
        o["rec"] = recname(f->getParent()); return o;
      }
      if (auto *v = dyn_cast<VarDecl>(x->getMemberDecl())) { K("glob"); o["n"] = gname(v); global(v); return o; }
      K("memfn"); o["o"] = expr(x->getBase()); o["n"] = x->getMemberDecl()->getNameAsString(); o["arrow"] = x->isArrow(); return o;
    }
    if (isa<CXXThisExpr>(e)) { K("this"); return o; }
    if (auto *x = dyn_cast<CastExpr>(e)) {
      K("cast"); o["ck"] = x->getCastKindName(); o["e"] = expr(x->getSubExpr()); o["expl"] = isa<ExplicitCastExpr>(x);
      if (x->getCastKind() == CK_LValueToRValue) { o["k"] = "load"; }
      return o;
    }
    if (auto *x = dyn_cast<CompoundAssignOperator>(e)) {
      K("casg"); o["op"] = BinaryOperator::getOpcodeStr(BinaryOperator::getOpForCompoundAssignment(x->getOpcode())).str();
      o["a"] = expr(x->getLHS()); o["b"] = expr(x->getRHS()); o["ct"] = type(x->getComputationLHSType()); o["crt"] = type(x->getComputationResultType()); return o;
    }
    if (auto *x = dyn_cast<BinaryOperator>(e)) { K("bin"); o["op"] = x->getOpcodeStr().str(); o["a"] = expr(x->getLHS()); o["b"] = expr(x->getRHS()); return o; }
    if (auto *x = dyn_cast<UnaryOperator>(e)) {
      K("un"); o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str(); o["post"] = x->isPostfix(); o["a"] = expr(x->getSubExpr()); return o;
    }
    if (auto *x = dyn_cast<ConditionalOperator>(e)) { K("cond"); o["c"] = expr(x->getCond()); o["a"] = expr(x->getTrueExpr()); o["b"] = expr(x->getFalseExpr()); return o; }
    if (auto *x = dyn_cast<BinaryConditionalOperator>(e)) { K("cond"); o["c"] = expr(x->getCommon()); o["a"] = expr(x->getCommon()); o["b"] = expr(x->getFalseExpr()); return o; }
    if (auto *x = dyn_cast<ArraySubscriptExpr>(e)) { K("idx"); o["a"] = expr(x->getBase()); o["i"] = expr(x->getIdx()); return o; }
    if (auto *x = dyn_cast<CXXMemberCallExpr>(e)) {
      K("call"); const CXXMethodDecl *m = x->getMethodDecl();
      if (m) { callee(o, m); o["obj"] = expr(x->getImplicitObjectArgument()); 
        if (auto *me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())) o["arrow"] = me->isArrow(); }
      args(o, x->arguments()); return o;
    }
    if (auto *x = dyn_cast<CXXOperatorCallExpr>(e)) {
      K("call"); o["opc"] = getOperatorSpelling(x->getOperator());
      const FunctionDecl *f = x->getDirectCallee();
      json::Array a; unsigned i = 0;
      if (f) callee(o, f);
      if (f && isa<CXXMethodDecl>(f) && !cast<CXXMethodDecl>(f)->isStatic()) { o["obj"] = expr(x->getArg(0)); i = 1; }
      for (; i < x->getNumArgs(); i++) a.push_back(expr(x->getArg(i)));
      o["args"] = std::move(a); return o;
    }
    if (auto *x = dyn_cast<CallExpr>(e)) {
      K("call"); const FunctionDecl *f = x->getDirectCallee();
      if (f) callee(o, f); else o["ce"] = expr(x->getCallee());
      args(o, x->arguments()); return o;
    }
    if (auto *x = dyn_cast<CXXConstructExpr>(e)) {
      K("ctor"); auto *cd = x->getConstructor(); o["rec"] = recname(cd->getParent()); o["rq"] = qn(cd->getParent());
      o["fk"] = fkey(cd); o["copy"] = cd->isCopyConstructor(); o["move"] = cd->isMoveConstructor(); o["dflt"] = cd->isDefaultConstructor();
      o["list"] = x->isListInitialization(); o["zero"] = x->requiresZeroInitialization(); o["stdil"] = x->isStdInitListInitialization();
      o["user"] = cd->isUserProvided();
      o["nothrow"] = cd->getType()->castAs<FunctionProtoType>()->isNothrow();
      args(o, x->arguments()); need(cd); return o;
    }
    if (auto *x = dyn_cast<InitListExpr>(e)) {
      if (x->isSyntacticForm() && x->getSemanticForm()) x = x->getSemanticForm();
      K("ilist"); json::Array a; for (auto *i : x->inits()) a.push_back(expr(i)); o["items"] = std::move(a);
      if (x->hasArrayFiller()) o["filler"] = expr(x->getArrayFiller());
      if (x->isTransparent()) o["transp"] = true;
      return o;
    }
    if (auto *x = dyn_cast<CXXStdInitializerListExpr>(e)) { K("stdil"); o["e"] = expr(x->getSubExpr()); return o; }
    if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) { K("vinit"); return o; }
    if (auto *x = dyn_cast<LambdaExpr>(e)) {
      K("lambda"); auto *m = x->getCallOperator(); json::Array ps; for (auto *p : m->parameters()) ps.push_back(var(p));
      o["params"] = std::move(ps); o["body"] = stmt(x->getBody()); o["ret"] = type(m->getReturnType());
      json::Array cs; unsigned i = 0; auto ii = x->capture_init_begin();
      for (auto &c : x->captures()) { json::Object co; if (c.capturesVariable()) { co["id"] = id(c.getCapturedVar()); co["n"] = c.getCapturedVar()->getNameAsString(); }
        else if (c.capturesThis()) co["this"] = true; co["ref"] = c.getCaptureKind() == LCK_ByRef; 
        if (ii && *ii) co["init"] = expr(*ii); ++ii; ++i; cs.push_back(std::move(co)); }
      o["caps"] = std::move(cs); return o;
    }
    if (auto *x = dyn_cast<CXXThrowExpr>(e)) { K("throw"); if (x->getSubExpr()) { o["e"] = expr(x->getSubExpr()); json::Array anc; ancestors(x->getSubExpr()->getType(), anc); o["anc"] = std::move(anc); } return o; }
    if (auto *x = dyn_cast<CXXNewExpr>(e)) { K("new"); if (x->getInitializer()) o["init"] = expr(x->getInitializer()); o["at"] = type(x->getAllocatedType()); return o; }
    if (auto *x = dyn_cast<CXXDeleteExpr>(e)) { K("delete"); o["e"] = expr(x->getArgument()); return o; }
    if (auto *x = dyn_cast<CXXInheritedCtorInitExpr>(e)) { K("unk"); o["cls"] = "InheritedCtor"; (void)x; return o; }
    if (o.find("cv") != o.end()) { K("int"); o["v"] = o["cv"]; return o; }
    K("unk"); o["cls"] = e->getStmtClassName(); return o;
  }
  void callee(json::Object &o, const FunctionDecl *f) {
    o["fn"] = qn(f); o["fk"] = fkey(f);
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
      o["cm"] = m->isConst(); o["cls"] = recname(m->getParent());
      if (m->isStatic()) o["stat"] = true;
      if (m->isVirtual()) o["virt"] = true;
    }
    if (auto *ta = f->getTemplateSpecializationArgs()) { json::Array a; for (auto &x : ta->asArray()) a.push_back(targ(x)); o["ta"] = std::move(a); }
    if (auto *fp = f->getType()->getAs<FunctionProtoType>()) { if (!isUnresolvedExceptionSpec(fp->getExceptionSpecType()) && fp->isNothrow()) o["nothrow"] = true; }
    o["rt"] = type(f->getReturnType());
    need(f);
  }
  template <class R> void args(json::Object &o, R r) { json::Array a; for (auto *x : r) a.push_back(expr(x)); o["args"] = std::move(a); }

  void function(const FunctionDecl *f0) {
    const FunctionDecl *f = nullptr;
    if (!f0->hasBody(f)) {
      return;
    }
    if (f->isDependentContext() || f->isTemplated()) return;
    if (!inRepo(f)) return;
    if (f->isImplicit()) return;
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) if (m->getParent()->isLambda()) return;
    std::string k = fkey(f);
    if (seenF.count(k)) return;
    seenF.insert(k);
    json::Object o;
    curFile = file(f->getLocation());
    o["q"] = qn(f);
    o["file"] = curFile;
    o["line"] = line(f->getLocation());
    o["end"] = line(f->getEndLoc());
    o["ret"] = type(f->getReturnType());
    json::Array ps;
    for (auto *p : f->parameters()) ps.push_back(var(p));
    o["params"] = std::move(ps);
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) { o["cls"] = recname(m->getParent()); o["const"] = m->isConst(); o["stat"] = m->isStatic(); dumpRecord(m->getParent()); }
    if (auto *fp = f->getType()->getAs<FunctionProtoType>()) if (!isUnresolvedExceptionSpec(fp->getExceptionSpecType())) o["nothrow"] = fp->isNothrow();
    if (auto *c = dyn_cast<CXXConstructorDecl>(f)) {
      json::Array is;
      for (auto *i : c->inits()) {
        json::Object io; io["l"] = line(i->getSourceLocation());
        io["written"] = i->isWritten();
        if (i->isAnyMemberInitializer()) io["m"] = i->getAnyMember()->getNameAsString();
        else if (i->isDelegatingInitializer()) io["deleg"] = true;
        else io["base"] = type(QualType(i->getBaseClass(), 0));
        if (i->getInit()) io["e"] = expr(i->getInit());
        is.push_back(std::move(io));
      }
      o["inits"] = std::move(is);
      o["ctor"] = true;
    }
    if (isa<CXXDestructorDecl>(f)) o["dtor"] = true;
    o["defaulted"] = f->isDefaulted();
    if (f->getBody()) o["body"] = stmt(f->getBody());
    funcs[k] = std::move(o);
  }
};

struct V : RecursiveASTVisitor<V> {
  Dumper &D;
  explicit V(Dumper &d) : D(d) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool TraverseDecl(Decl *d) {
    if (!d) return true;
    if (isa<TranslationUnitDecl>(d) || isa<LinkageSpecDecl>(d)) return RecursiveASTVisitor::TraverseDecl(d);
    if (isa<NamespaceDecl>(d)) {
      return RecursiveASTVisitor::TraverseDecl(d);
    }
    if (!D.inRepo(d)) return true;
    return RecursiveASTVisitor::TraverseDecl(d);
  }
  bool VisitFunctionDecl(FunctionDecl *f) { if (f->isThisDeclarationADefinition()) D.function(f); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl *r) { if (r->isThisDeclarationADefinition() && !r->isDependentType() && !r->isLambda()) D.dumpRecord(r); return true; }
  bool VisitVarDecl(VarDecl *v) { if (v->hasGlobalStorage() && !v->isTemplated()) D.global(v); return true; }
  bool VisitEnumDecl(EnumDecl *e) { D.dumpEnum(e); return true; }
};

struct Cons : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) { gErr = true; return; }
    Dumper D(C);
    V v(D);
    v.TraverseDecl(C.getTranslationUnitDecl());
    while (!D.work.empty()) { auto *f = D.work.back(); D.work.pop_back(); D.function(f); }
    json::Object r;
    r["types"] = std::move(D.types); r["funcs"] = std::move(D.funcs); r["records"] = std::move(D.records);
    r["enums"] = std::move(D.enums); r["globals"] = std::move(D.globals);
    std::error_code ec; llvm::raw_fd_ostream os(gOut, ec); os << json::Value(std::move(r));
  }
};
struct Act : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Cons>(); }
};

int main(int argc, const char **argv) {
  if (argc < 4) return 2;
  gRoot = argv[1]; gOut = argv[2];
  std::string src = argv[3];
  std::vector<std::string> flags;
  for (int i = 4; i < argc; i++) if (std::string(argv[i]) != "--") flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool tool(db, {src});
  int rc = tool.run(tooling::newFrontendActionFactory<Act>().get());
  return (rc || gErr) ? 1 : 0;
}
