// amgfacts: dumps the resolved program of one translation unit (only entities
// whose source lives below a given root) as line oriented JSON facts.
#include "clang/AST/RecordLayout.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Basic/FileManager.h"
#include "clang/Lex/Preprocessor.h"
#include "clang/Lex/PPCallbacks.h"
#include <map>
#include <set>
#include <string>
#include <vector>
#include <fstream>
#include <sstream>
#include <iostream>

using namespace clang;
using std::string;

static string gRoot;      // source root, e.g. /repo/src/
static string gOut;       // output file

static string esc(llvm::StringRef s) {
  string r; r.reserve(s.size()+2); r.push_back('"');
  for (unsigned char c : s) {
    if (c=='"' || c=='\\') { r.push_back('\\'); r.push_back(c); }
    else if (c=='\n') r += "\\n";
    else if (c<0x20 || c>=0x7f) { char b[8]; snprintf(b,8,"\\u%04x",c); r += b; }
    else r.push_back(c);
  }
  r.push_back('"'); return r;
}

struct Dumper {
  ASTContext &C; SourceManager &SM; PrintingPolicy PP;
  std::unique_ptr<MangleContext> MC;
  std::ofstream out;
  std::set<string> seenDecl, seenRec, seenFun, seenVar, seenEnum;
  // per function state
  std::map<const void*,int> ids; 
  std::map<string,int> tyIdx; std::vector<string> tys;
  llvm::DenseMap<const Type*,int> tyCache;

  Dumper(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()), MC(ItaniumMangleContext::create(c,c.getDiagnostics())) {
    PP.SuppressTagKeyword = true; PP.Bool = true; PP.PrintCanonicalTypes = true; PP.SuppressInlineNamespace = true;
    out.open(gOut);
  }

  string fileOf(SourceLocation l) {
    l = SM.getExpansionLoc(l);
    auto f = SM.getFileEntryRefForID(SM.getFileID(l));
    if (!f) return "";
    llvm::StringRef rp = f->getFileEntry().tryGetRealPathName();
    return rp.empty() ? f->getName().str() : rp.str();
  }
  bool inRoot(const Decl *d) {
    SourceLocation l = d->getLocation(); if (l.isInvalid()) return false;
    string f = fileOf(l); return f.compare(0,gRoot.size(),gRoot)==0;
  }
  string rel(SourceLocation l) { string f = fileOf(l); if (f.compare(0,gRoot.size(),gRoot)==0) return f.substr(gRoot.size()); return f; }
  int line(SourceLocation l) { return SM.getExpansionLineNumber(l); }

  int id(const void *d) { auto it = ids.find(d); if (it!=ids.end()) return it->second; int n = ids.size()+1; ids[d]=n; return n; }
  int ty(QualType q) {
    if (q.isNull()) return -1;
    string s = q.getCanonicalType().getAsString(PP);
    auto it = tyIdx.find(s); if (it!=tyIdx.end()) return it->second;
    int n = tys.size(); tys.push_back(s); tyIdx[s]=n; return n;
  }
  string T(QualType q) { return ",\"t\":"+std::to_string(ty(q)); }

  string mangle(const FunctionDecl *fd) {
    fd = fd->getCanonicalDecl();
    if (fd->isDependentContext() || fd->getType()->isDependentType()) return "";
    string s; llvm::raw_string_ostream os(s);
    if (isa<CXXDeductionGuideDecl>(fd)) return "";
    if (auto cd = dyn_cast<CXXConstructorDecl>(fd)) MC->mangleName(GlobalDecl(cd,Ctor_Complete),os);
    else if (auto dd = dyn_cast<CXXDestructorDecl>(fd)) MC->mangleName(GlobalDecl(dd,Dtor_Complete),os);
    else if (MC->shouldMangleDeclName(fd)) MC->mangleName(GlobalDecl(fd),os);
    else os << fd->getQualifiedNameAsString();
    os.flush();
    if (fd->getFormalLinkage()==Linkage::Internal || !fd->isExternallyVisible()) s += "@"+rel(fd->getLocation());
    return s;
  }
  string qname(const NamedDecl *d) {
    string s; llvm::raw_string_ostream os(s); 
    PrintingPolicy p(PP); p.SuppressUnwrittenScope = true;
    d->printQualifiedName(os,p); os.flush();
    return s;
  }

  // declaration info for repo callees
  void noteDecl(const FunctionDecl *fd, const string &key) {
    if (key.empty() || !inRoot(fd)) return;
    if (!seenDecl.insert(key).second) return;
    const FunctionDecl *c = fd->getCanonicalDecl();
    std::ostringstream o;
    o << "D\t" << key << "\t{\"n\":" << esc(qname(fd)) << ",\"file\":" << esc(rel(c->getLocation())) << ",\"l\":" << line(c->getLocation());
    if (auto md = dyn_cast<CXXMethodDecl>(fd)) {
      o << ",\"rec\":" << esc(QualType(md->getParent()->getTypeForDecl(),0).getCanonicalType().getAsString(PP));
      if (md->isVirtual()) o << ",\"virt\":1"; if (md->isPureVirtual()) o << ",\"pure\":1"; if (md->isConst()) o << ",\"const\":1"; if (md->isStatic()) o << ",\"static\":1";
      o << ",\"over\":["; bool f=true; for (auto *m : md->overridden_methods()) { o << (f?"":",") << esc(mangle(m)); f=false; } o << "]";
    }
    o << ",\"ret\":" << esc(fd->getReturnType().getCanonicalType().getAsString(PP));
    o << ",\"ps\":["; bool f=true;
    for (auto *p : c->parameters()) { o << (f?"":",") << "[" << esc(p->getName()) << "," << esc(p->getType().getCanonicalType().getAsString(PP)) << "," << (p->hasDefaultArg()?1:0) << "]"; f=false; }
    o << "]";
    if (fd->hasBody()||fd->isDefined()) o << ",\"def\":1";
    o << "}\n"; out << o.str();
  }

  string callee(const FunctionDecl *fd) {
    string s = ",\"f\":" + esc(qname(fd));
    string k = inRoot(fd) ? mangle(fd) : string();
    if (!k.empty()) { s += ",\"m\":" + esc(k); noteDecl(fd,k); }
    if (auto md = dyn_cast<CXXMethodDecl>(fd)) {
      if (md->isVirtual()) s += ",\"v\":1";
      if (md->isConst()) s += ",\"cm\":1";
      if (md->isStatic()) s += ",\"sm\":1";
    }
    // reference-to-nonconst params: bitmask
    unsigned m=0; unsigned i=0; for (auto *p : fd->parameters()) { QualType q=p->getType(); 
      if (q->isReferenceType() && !q.getNonReferenceType().isConstQualified()) m|=1u<<(i&31);
      else if (q->isPointerType() && !q->getPointeeType().isConstQualified()) m|=1u<<(i&31); i++; }
    if (m) s += ",\"rm\":" + std::to_string(m);
    return s;
  }

  string L(SourceLocation l) { return ",\"l\":" + std::to_string(line(l)); }

  string vdecl(const VarDecl *v) {
    string s = "{\"k\":\"var\",\"n\":" + esc(v->getName()) + ",\"id\":" + std::to_string(id(v->getCanonicalDecl())) + T(v->getType()) + L(v->getLocation());
    if (v->isStaticLocal()) s += ",\"st\":1";
    if (v->getType()->isReferenceType()) s += ",\"ref\":1";
    if (auto dd = dyn_cast<DecompositionDecl>(v)) {
      s += ",\"bind\":["; bool f=true;
      for (auto *b : dd->bindings()) { s += (f?"":","); f=false; s += "{\"k\":\"bnd\",\"n\":"+esc(b->getName())+",\"id\":"+std::to_string(id(b->getCanonicalDecl()))+"}"; }
      s += "]";
    }
    if (v->getInit()) s += ",\"i\":" + E(v->getInit());
    return s + "}";
  }
  string parms(ArrayRef<ParmVarDecl*> ps) {
    string s="["; bool f=true;
    for (auto *p : ps) { s += (f?"":","); f=false; 
      s += "{\"k\":\"parm\",\"n\":"+esc(p->getName())+",\"id\":"+std::to_string(id(p))+T(p->getType());
      if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg() && p->getDefaultArg()) s += ",\"da\":"+E(p->getDefaultArg());
      s += "}"; }
    return s+"]";
  }

  // ------------------------------------------------------------- statements
  string S(const Stmt *s) {
    if (!s) return "null";
    if (auto e = dyn_cast<Expr>(s)) return E(e);
    string h; 
    switch (s->getStmtClass()) {
      case Stmt::CompoundStmtClass: { h = "{\"k\":\"{\""+L(s->getBeginLoc())+",\"b\":["; bool f=true; for (auto *c : cast<CompoundStmt>(s)->body()) { h += (f?"":","); f=false; h += S(c);} return h+"]}"; }
      case Stmt::NullStmtClass: return "{\"k\":\"null\""+L(s->getBeginLoc())+"}";
      case Stmt::IfStmtClass: { auto i = cast<IfStmt>(s); h = "{\"k\":\"if\""+L(i->getIfLoc()); if (i->isConstexpr()) h += ",\"cx\":1"; if (i->getInit()) h += ",\"init\":"+S(i->getInit());
        if (i->getConditionVariable()) h += ",\"cv\":"+vdecl(i->getConditionVariable());
        if (i->isConstexpr() && !i->getCond()->isValueDependent()) { 
          h += ",\"c\":"+E(i->getCond());
          auto nd = i->getNondiscardedCase(C);
          bool isThen = nd && *nd==i->getThen(); bool isElse = nd && *nd && *nd==i->getElse();
          h += ",\"cv1\":"; h += isThen?"1":"0";
          h += ",\"th\":"+(isThen?S(i->getThen()):string("null"))+",\"el\":"+(isElse?S(i->getElse()):string("null"));
          return h+"}"; }
        h += ",\"c\":"+E(i->getCond())+",\"th\":"+S(i->getThen())+",\"el\":"+S(i->getElse()); return h+"}"; }
      case Stmt::ForStmtClass: { auto f = cast<ForStmt>(s); return "{\"k\":\"for\""+L(f->getForLoc())+",\"i\":"+S(f->getInit())+",\"c\":"+S(f->getCond())+",\"n\":"+S(f->getInc())+",\"b\":"+S(f->getBody())+"}"; }
      case Stmt::WhileStmtClass: { auto f = cast<WhileStmt>(s); h= "{\"k\":\"while\""+L(f->getWhileLoc()); if (f->getConditionVariable()) h += ",\"cv\":"+vdecl(f->getConditionVariable()); return h+",\"c\":"+S(f->getCond())+",\"b\":"+S(f->getBody())+"}"; }
      case Stmt::DoStmtClass: { auto f = cast<DoStmt>(s); return "{\"k\":\"do\""+L(f->getDoLoc())+",\"c\":"+S(f->getCond())+",\"b\":"+S(f->getBody())+"}"; }
      case Stmt::CXXForRangeStmtClass: { auto f = cast<CXXForRangeStmt>(s); 
        return "{\"k\":\"rfor\""+L(f->getForLoc())+",\"r\":"+E(f->getRangeInit())+",\"v\":"+vdecl(f->getLoopVariable())+",\"b\":"+S(f->getBody())+"}"; }
      case Stmt::SwitchStmtClass: { auto f = cast<SwitchStmt>(s); return "{\"k\":\"sw\""+L(f->getSwitchLoc())+",\"c\":"+E(f->getCond())+",\"b\":"+S(f->getBody())+"}"; }
      case Stmt::CaseStmtClass: { auto f = cast<CaseStmt>(s); return "{\"k\":\"case\""+L(f->getCaseLoc())+",\"v\":"+E(f->getLHS())+",\"b\":"+S(f->getSubStmt())+"}"; }
      case Stmt::DefaultStmtClass: { auto f = cast<DefaultStmt>(s); return "{\"k\":\"default\""+L(f->getDefaultLoc())+",\"b\":"+S(f->getSubStmt())+"}"; }
      case Stmt::ReturnStmtClass: { auto f = cast<ReturnStmt>(s); return "{\"k\":\"ret\""+L(f->getReturnLoc())+",\"e\":"+(f->getRetValue()?E(f->getRetValue()):string("null"))+"}"; }
      case Stmt::BreakStmtClass: return "{\"k\":\"brk\""+L(s->getBeginLoc())+"}";
      case Stmt::ContinueStmtClass: return "{\"k\":\"cont\""+L(s->getBeginLoc())+"}";
      case Stmt::DeclStmtClass: { h = "{\"k\":\"decl\""+L(s->getBeginLoc())+",\"d\":["; bool f=true; for (auto *d : cast<DeclStmt>(s)->decls()) if (auto v = dyn_cast<VarDecl>(d)) { h += (f?"":","); f=false; h += vdecl(v);} return h+"]}"; }
      case Stmt::CXXTryStmtClass: { auto f = cast<CXXTryStmt>(s); h = "{\"k\":\"try\""+L(f->getBeginLoc())+",\"b\":"+S(f->getTryBlock())+",\"h\":["; for (unsigned i=0;i<f->getNumHandlers();i++) { h += (i?",":""); h += S(f->getHandler(i)->getHandlerBlock()); } return h+"]}"; }
      case Stmt::AttributedStmtClass: return S(cast<AttributedStmt>(s)->getSubStmt());
      case Stmt::LabelStmtClass: return S(cast<LabelStmt>(s)->getSubStmt());
      default: { h = "{\"k\":\"?stmt\",\"c\":"+esc(s->getStmtClassName())+L(s->getBeginLoc())+",\"b\":["; bool f=true; for (auto *c : s->children()) { h += (f?"":","); f=false; h += S(c);} return h+"]}"; }
    }
  }
  template<class R> string args(R r) { string s="["; bool f=true; for (const Expr *a : r) { s += (f?"":","); f=false; s += E(a);} return s+"]"; }

  // ------------------------------------------------------------- expressions
  string E(const Expr *e) {
    if (!e) return "null";
    // strip
    for (;;) {
      if (auto x = dyn_cast<ParenExpr>(e)) e = x->getSubExpr();
      else if (auto x = dyn_cast<ImplicitCastExpr>(e)) e = x->getSubExpr();
      else if (auto x = dyn_cast<FullExpr>(e)) { e = x->getSubExpr(); }
      else if (auto x = dyn_cast<MaterializeTemporaryExpr>(e)) e = x->getSubExpr();
      else if (auto x = dyn_cast<CXXBindTemporaryExpr>(e)) e = x->getSubExpr();
      else if (auto x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e = x->getReplacement();
      else if (auto x = dyn_cast<CXXStdInitializerListExpr>(e)) e = x->getSubExpr();
      else if (auto x = dyn_cast<CXXConstructExpr>(e); x && x->isElidable() && x->getNumArgs()>=1) e = x->getArg(0);
      else break;
    }
    string h = "{\"k\":";
    SourceLocation loc = e->getExprLoc();
    switch (e->getStmtClass()) {
      case Stmt::DeclRefExprClass: { auto x = cast<DeclRefExpr>(e); auto *d = x->getDecl();
        if (auto v = dyn_cast<VarDecl>(d)) {
          const char *dk = isa<ParmVarDecl>(v) ? "p" : v->isStaticDataMember() ? "sm" : v->isLocalVarDecl() ? (v->isStaticLocal()?"sl":"v") : "g";
          h += "\"ref\",\"n\":"+esc(v->getName())+",\"dk\":\""+dk+"\",\"id\":"+std::to_string(id(v->getCanonicalDecl()))+T(v->getType());
          if (*dk=='g' || *dk=='s') h += ",\"q\":"+esc(qname(v));
          if (v->isConstexpr()) h += ",\"ce\":1";
          return h+L(loc)+"}"; }
        if (auto b = dyn_cast<BindingDecl>(d)) return h+"\"ref\",\"n\":"+esc(b->getName())+",\"dk\":\"b\",\"id\":"+std::to_string(id(b->getCanonicalDecl()))+T(x->getType())+L(loc)+"}";
        if (auto c = dyn_cast<EnumConstantDecl>(d)) return h+"\"enum\",\"n\":"+esc(c->getName())+",\"q\":"+esc(qname(c))+",\"val\":"+std::to_string(c->getInitVal().getExtValue())+T(x->getType())+L(loc)+"}";
        if (auto f = dyn_cast<FunctionDecl>(d)) return h+"\"fref\",\"n\":"+esc(f->getNameAsString())+callee(f)+L(loc)+"}";
        return h+"\"ref\",\"n\":"+esc(d->getNameAsString())+",\"dk\":\"o\",\"id\":"+std::to_string(id(d))+T(x->getType())+L(loc)+"}"; }
      case Stmt::MemberExprClass: { auto x = cast<MemberExpr>(e);
        auto *d = x->getMemberDecl();
        h += "\"mem\",\"n\":"+esc(d->getNameAsString())+T(x->getType());
        if (auto fd = dyn_cast<FieldDecl>(d)) { h += ",\"own\":"+esc(qname(fd->getParent())); if (fd->isMutable()) h += ",\"mut\":1"; }
        else if (auto f = dyn_cast<FunctionDecl>(d)) h += callee(f);
        else h += ",\"q\":"+esc(qname(d));
        return h+",\"o\":"+E(x->getBase())+L(x->getMemberLoc())+"}"; }
      case Stmt::CXXThisExprClass: return h+"\"this\""+T(e->getType())+(cast<CXXThisExpr>(e)->isImplicit()?",\"im\":1":"")+"}";
      case Stmt::IntegerLiteralClass: { llvm::SmallString<32> b; cast<IntegerLiteral>(e)->getValue().toStringUnsigned(b); return h+"\"int\",\"v\":"+string(b.str())+L(loc)+"}"; }
      case Stmt::FloatingLiteralClass: { double v = cast<FloatingLiteral>(e)->getValueAsApproximateDouble(); char b[64]; snprintf(b,64,"%.17g",v); string bs=b; if (bs.find("inf")!=string::npos||bs.find("nan")!=string::npos) bs="1e308"; return h+"\"flt\",\"v\":"+bs+L(loc)+"}"; }
      case Stmt::CXXBoolLiteralExprClass: return h+"\"bool\",\"v\":"+(cast<CXXBoolLiteralExpr>(e)->getValue()?"1":"0")+L(loc)+"}";
      case Stmt::CharacterLiteralClass: return h+"\"chr\",\"v\":"+std::to_string(cast<CharacterLiteral>(e)->getValue())+"}";
      case Stmt::StringLiteralClass: { auto x = cast<StringLiteral>(e); return h+"\"str\",\"v\":"+(x->isOrdinary()?esc(x->getString()):string("\"?\""))+L(loc)+"}"; }
      case Stmt::CXXNullPtrLiteralExprClass: case Stmt::GNUNullExprClass: return h+"\"nullptr\""+L(loc)+"}";
      case Stmt::CXXDefaultArgExprClass: return h+"\"darg\",\"e\":"+E(cast<CXXDefaultArgExpr>(e)->getExpr())+"}";
      case Stmt::CXXDefaultInitExprClass: return h+"\"dinit\"}";
      case Stmt::BinaryOperatorClass: case Stmt::CompoundAssignOperatorClass: { auto x = cast<BinaryOperator>(e);
        return h+"\"bin\",\"op\":"+esc(x->getOpcodeStr())+T(x->getType())+",\"a\":"+E(x->getLHS())+",\"b\":"+E(x->getRHS())+L(x->getOperatorLoc())+"}"; }
      case Stmt::UnaryOperatorClass: { auto x = cast<UnaryOperator>(e); string op = UnaryOperator::getOpcodeStr(x->getOpcode()).str(); if (x->isPostfix()) op = "p"+op;
        return h+"\"un\",\"op\":"+esc(op)+",\"e\":"+E(x->getSubExpr())+L(loc)+"}"; }
      case Stmt::ConditionalOperatorClass: { auto x = cast<ConditionalOperator>(e); return h+"\"cond\""+T(x->getType())+",\"c\":"+E(x->getCond())+",\"a\":"+E(x->getTrueExpr())+",\"b\":"+E(x->getFalseExpr())+L(loc)+"}"; }
      case Stmt::ArraySubscriptExprClass: { auto x = cast<ArraySubscriptExpr>(e); return h+"\"sub\""+T(x->getType())+",\"o\":"+E(x->getBase())+",\"i\":"+E(x->getIdx())+L(loc)+"}"; }
      case Stmt::CXXOperatorCallExprClass: { auto x = cast<CXXOperatorCallExpr>(e); 
        h += "\"op\",\"op\":"+esc(getOperatorSpelling(x->getOperator()))+T(x->getType());
        if (auto f = dyn_cast_or_null<FunctionDecl>(x->getCalleeDecl())) { h += callee(f); if (isa<CXXMethodDecl>(f)) h += ",\"me\":1"; 
           if (x->getOperator()==OO_Call && x->getNumArgs() && x->getArg(0)->getType()->getAsCXXRecordDecl() && x->getArg(0)->getType()->getAsCXXRecordDecl()->isLambda()) h += ",\"lamcall\":1"; }
        return h+",\"a\":"+args(x->arguments())+L(loc)+"}"; }
      case Stmt::CXXMemberCallExprClass: { auto x = cast<CXXMemberCallExpr>(e);
        h += "\"call\""+T(x->getType());
        if (auto f = x->getMethodDecl()) {
          h += callee(f);
          if (auto me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())) { if (me->hasQualifier()) h += ",\"qual\":1"; }
        } else h += ",\"fe\":"+E(x->getCallee());
        if (x->getImplicitObjectArgument()) { h += ",\"o\":"+E(x->getImplicitObjectArgument()); h += ",\"ot\":"+std::to_string(ty(x->getObjectType())); }
        return h+",\"a\":"+args(x->arguments())+L(loc)+"}"; }
      case Stmt::CallExprClass: { auto x = cast<CallExpr>(e);
        h += "\"call\""+T(x->getType());
        if (auto f = x->getDirectCallee()) { h += callee(f);
          if (auto *ta = f->getTemplateSpecializationArgs()) { string q="["; bool ff=true; for (auto &a : ta->asArray()) { string s; llvm::raw_string_ostream os(s); a.print(PP,os,true); os.flush(); q += (ff?"":","); ff=false; q += std::to_string([&]{ auto it=tyIdx.find(s); if (it!=tyIdx.end()) return it->second; int n=tys.size(); tys.push_back(s); tyIdx[s]=n; return n;}()); } h += ",\"ta\":"+q+"]"; } }
        else {
          if (auto dr = dyn_cast<DeclRefExpr>(x->getCallee()->IgnoreParenImpCasts())) if (auto vd = dyn_cast<VarDecl>(dr->getDecl())) if (vd->hasGlobalStorage() && !vd->isStaticLocal()) {
            h += ",\"f\":"+esc(vd->getQualifiedNameAsString())+",\"fp\":1";
            QualType q = vd->getType().getNonReferenceType(); if (q->isPointerType()) q = q->getPointeeType();
            if (auto fp = q->getAs<FunctionProtoType>()) { unsigned m=0; for (unsigned i=0;i<fp->getNumParams();i++) { QualType pt = fp->getParamType(i);
              if ((pt->isReferenceType() && !pt.getNonReferenceType().isConstQualified()) || (pt->isPointerType() && !pt->getPointeeType().isConstQualified())) m|=1u<<(i&31); } if (m) h += ",\"rm\":"+std::to_string(m); }
          }
          h += ",\"fe\":"+E(x->getCallee()); }
        return h+",\"a\":"+args(x->arguments())+L(loc)+"}"; }
      case Stmt::UserDefinedLiteralClass: { auto x = cast<CallExpr>(e); return h+"\"call\""+T(x->getType())+(x->getDirectCallee()?callee(x->getDirectCallee()):string())+",\"a\":"+args(x->arguments())+L(loc)+"}"; }
      case Stmt::CXXConstructExprClass: case Stmt::CXXTemporaryObjectExprClass: { auto x = cast<CXXConstructExpr>(e);
        auto *cd = x->getConstructor();
        h += "\"ctor\""+T(x->getType())+callee(cd);
        if (cd->isCopyConstructor()) h += ",\"cp\":1"; if (cd->isMoveConstructor()) h += ",\"mv\":1";
        if (cd->isDefaultConstructor()) h += ",\"df\":1";
        return h+",\"a\":"+args(x->arguments())+L(loc)+"}"; }
      case Stmt::InitListExprClass: { auto x = cast<InitListExpr>(e); return h+"\"ilist\""+T(x->getType())+",\"a\":"+args(x->inits())+L(loc)+"}"; }
      case Stmt::ImplicitValueInitExprClass: return h+"\"vinit\"}";
      case Stmt::CXXScalarValueInitExprClass: return h+"\"vinit\"}";
      case Stmt::CXXStaticCastExprClass: case Stmt::CXXReinterpretCastExprClass: case Stmt::CXXConstCastExprClass: case Stmt::CXXDynamicCastExprClass: case Stmt::CStyleCastExprClass: case Stmt::CXXFunctionalCastExprClass: {
        auto x = cast<ExplicitCastExpr>(e); const char *ck = isa<CXXStaticCastExpr>(e)?"static":isa<CXXReinterpretCastExpr>(e)?"reint":isa<CXXConstCastExpr>(e)?"const":isa<CXXDynamicCastExpr>(e)?"dyn":isa<CStyleCastExpr>(e)?"c":"fun";
        return h+"\"cast\",\"ck\":\""+ck+"\""+T(x->getType())+",\"e\":"+E(x->getSubExpr())+L(loc)+"}"; }
      case Stmt::CXXNewExprClass: { auto x = cast<CXXNewExpr>(e); h += "\"new\""+T(x->getType()); if (x->isArray()&&x->getArraySize()) h += ",\"sz\":"+E(*x->getArraySize()); h += ",\"pl\":"+args(x->placement_arguments()); if (x->getInitializer()) h += ",\"i\":"+E(x->getInitializer()); 
        if (auto on = x->getOperatorNew()) h += ",\"on\":"+esc(qname(on)+"#"+(on->getNumParams()>1?on->getParamDecl(1)->getType().getCanonicalType().getAsString(PP):""));
        return h+L(loc)+"}"; }
      case Stmt::CXXDeleteExprClass: { auto x = cast<CXXDeleteExpr>(e); return h+"\"del\",\"arr\":"+(x->isArrayForm()?"1":"0")+",\"e\":"+E(x->getArgument())+L(loc)+"}"; }
      case Stmt::CXXThrowExprClass: { auto x = cast<CXXThrowExpr>(e); return h+"\"throw\",\"e\":"+E(x->getSubExpr())+L(loc)+"}"; }
      case Stmt::LambdaExprClass: return lam(cast<LambdaExpr>(e));
      case Stmt::UnaryExprOrTypeTraitExprClass: { auto x = cast<UnaryExprOrTypeTraitExpr>(e); 
        if (x->getKind()==UETT_SizeOf && !x->isValueDependent() && !x->isTypeDependent()) { Expr::EvalResult R; if (x->EvaluateAsInt(R, C)) h += "\"sizeof\",\"v\":"+std::to_string(R.Val.getInt().getExtValue())+",\"at\":"; else h += "\"sizeof\",\"at\":"; }
        else h += "\"sizeof\",\"at\":";
        return h+std::to_string(ty(x->getTypeOfArgument()))+L(loc)+"}"; }
      case Stmt::TypeTraitExprClass: return h+"\"bool\",\"v\":"+(e->isValueDependent()?"0":cast<TypeTraitExpr>(e)->getValue()?"1":"0")+"}";
      case Stmt::CXXNoexceptExprClass: return h+"\"bool\",\"v\":1}";
      case Stmt::SizeOfPackExprClass: return h+"\"int\",\"v\":"+(e->isValueDependent()?string("0"):std::to_string(cast<SizeOfPackExpr>(e)->getPackLength()))+"}";
      case Stmt::CXXInheritedCtorInitExprClass: return h+"\"inhctor\""+T(e->getType())+"}";
      case Stmt::UnresolvedLookupExprClass: return h+"\"ulook\",\"n\":"+esc(cast<UnresolvedLookupExpr>(e)->getName().getAsString())+L(loc)+"}";
      case Stmt::UnresolvedMemberExprClass: { auto x = cast<UnresolvedMemberExpr>(e); return h+"\"dmem\",\"n\":"+esc(x->getMemberName().getAsString())+",\"o\":"+(x->isImplicitAccess()?string("{\"k\":\"this\",\"t\":-1}"):E(x->getBase()))+L(loc)+"}"; }
      case Stmt::CXXDependentScopeMemberExprClass: { auto x = cast<CXXDependentScopeMemberExpr>(e); return h+"\"dmem\",\"n\":"+esc(x->getMember().getAsString())+",\"o\":"+(x->isImplicitAccess()?string("{\"k\":\"this\",\"t\":-1}"):E(x->getBase()))+L(loc)+"}"; }
      case Stmt::DependentScopeDeclRefExprClass: return h+"\"ulook\",\"n\":"+esc(cast<DependentScopeDeclRefExpr>(e)->getDeclName().getAsString())+L(loc)+"}";
      case Stmt::CXXUnresolvedConstructExprClass: { auto x = cast<CXXUnresolvedConstructExpr>(e); return h+"\"ctor\",\"dep\":1"+T(x->getType())+",\"f\":\"\",\"a\":"+args(x->arguments())+L(loc)+"}"; }
      case Stmt::ParenListExprClass: { auto x = cast<ParenListExpr>(e); string s="["; for (unsigned i=0;i<x->getNumExprs();i++) { s += (i?",":""); s += E(x->getExpr(i)); } return h+"\"plist\",\"a\":"+s+"]"+L(loc)+"}"; }
      default: { h += "\"?\",\"c\":"+esc(e->getStmtClassName())+T(e->getType())+L(loc)+",\"a\":["; bool f=true; for (auto *c : e->children()) { h += (f?"":","); f=false; h += S(c);} return h+"]}"; }
    }
  }

  string lam(const LambdaExpr *x) {
    string h = "{\"k\":\"lam\""+L(x->getBeginLoc())+T(x->getType())+",\"caps\":["; bool f=true;
    auto ci = x->capture_init_begin();
    for (auto &c : x->captures()) {
      const Expr *init = ci!=x->capture_init_end()? *ci : nullptr; ++ci;
      h += (f?"":","); f=false;
      if (c.capturesThis()) { h += "{\"k\":\"cap\",\"this\":1}"; continue; }
      if (!c.capturesVariable()) { h += "{\"k\":\"cap\",\"o\":1}"; continue; }
      auto *v = c.getCapturedVar();
      h += "{\"k\":\"cap\",\"n\":"+esc(v->getName())+",\"id\":"+std::to_string(id(v->getCanonicalDecl()));
      if (c.getCaptureKind()==LCK_ByRef) h += ",\"ref\":1";
      if (v->isInitCapture() && init) h += ",\"i\":"+E(init)+T(v->getType());
      h += "}";
    }
    h += "]";
    auto *op = x->getCallOperator();
    if (auto *ft = op->getDescribedFunctionTemplate()) {
      h += ",\"gen\":1,\"insts\":["; bool ff=true; int n=0;
      for (auto *sp : ft->specializations()) {
        if (!sp->hasBody() || sp->isDependentContext()) continue;
        h += (ff?"":","); ff=false; n++;
        h += "{\"k\":\"inst\",\"m\":"+esc(mangle(sp))+",\"ps\":"+parms(sp->parameters())+",\"b\":"+S(sp->getBody())+"}";
      }
      h += "]";
      if (!n) h += ",\"ps\":"+parms(op->parameters())+",\"b\":"+S(op->getBody());
    } else {
      h += ",\"ps\":"+parms(op->parameters())+",\"b\":"+S(x->getBody());
    }
    return h+"}";
  }

  // ------------------------------------------------------------- functions
  void function(const FunctionDecl *fd) {
    if (!fd->isThisDeclarationADefinition() || !fd->hasBody()) return;
    if (!inRoot(fd)) return;
    if (auto md = dyn_cast<CXXMethodDecl>(fd)) if (md->getParent()->isLambda()) return;
    bool dep = fd->isDependentContext();
    string key = dep ? "P:"+rel(fd->getLocation())+":"+std::to_string(line(fd->getLocation()))+":"+fd->getNameAsString() : mangle(fd);
    if (key.empty()) return;
    if (!seenFun.insert(key).second) return;
    if (!dep) noteDecl(fd,key);
    ids.clear(); tyIdx.clear(); tys.clear();
    const FunctionDecl *pat = fd->getTemplateInstantiationPattern();
    std::ostringstream o;
    SourceLocation bl = fd->getBody()->getBeginLoc(); if (bl.isInvalid()) bl = fd->getLocation();
    o << "{\"n\":" << esc(qname(fd)) << ",\"file\":" << esc(rel(bl)) << ",\"l\":" << line(bl) << ",\"e\":" << line(fd->getEndLoc());
    { const FunctionDecl *pf = pat? pat : fd; const FunctionDecl *pdef = pf; pf->isDefined(pdef); if (!pdef) pdef = pf; 
      SourceLocation pl = pdef->getLocation(); if (pdef->hasBody() && pdef->getBody() && pdef->getBody()->getBeginLoc().isValid()) pl = pdef->getBody()->getBeginLoc();
      o << ",\"pat\":" << esc(rel(pl)+":"+std::to_string(line(pl))+":"+std::to_string(SM.getExpansionColumnNumber(pl))); }
    if (dep) o << ",\"dep\":1"; if (pat) o << ",\"inst\":1";
    if (auto md = dyn_cast<CXXMethodDecl>(fd)) {
      o << ",\"rec\":" << esc(QualType(md->getParent()->getTypeForDecl(),0).getCanonicalType().getAsString(PP)) << ",\"recq\":" << esc(qname(md->getParent()));
      if (md->isVirtual()) o << ",\"virt\":1"; if (md->isConst()) o << ",\"const\":1"; if (md->isStatic()) o << ",\"static\":1";
    }
    if (auto cd = dyn_cast<CXXConstructorDecl>(fd)) {
      o << ",\"ctor\":1"; if (cd->isCopyConstructor()) o << ",\"cp\":1"; if (cd->isMoveConstructor()) o << ",\"mv\":1"; if (cd->isDefaulted()) o << ",\"dflt\":1"; if (cd->isDelegatingConstructor()) o << ",\"deleg\":1";
      o << ",\"inits\":["; bool f=true;
      for (auto *i : cd->inits()) {
        o << (f?"":",") << "{\"k\":\"minit\""; f=false;
        if (i->isAnyMemberInitializer()) o << ",\"m\":" << esc(i->getAnyMember()->getName());
        else if (i->isBaseInitializer()) o << ",\"base\":" << ty(QualType(i->getBaseClass(),0));
        else o << ",\"deleg\":1";
        if (i->isWritten()) o << ",\"w\":1"; 
        o << ",\"i\":" << E(i->getInit()) << "}";
      }
      o << "]";
    }
    if (isa<CXXDestructorDecl>(fd)) o << ",\"dtor\":1";
    if (fd->isDefaulted()) o << ",\"dflt\":1";
    o << ",\"ps\":" << parms(fd->parameters());
    o << ",\"ret\":" << ty(fd->getReturnType());
    o << ",\"b\":" << S(fd->getBody());
    o << ",\"T\":["; for (size_t i=0;i<tys.size();i++) o << (i?",":"") << esc(tys[i]); o << "]}";
    out << "F\t" << key << "\t" << qname(fd) << "\t" << rel(bl) << "\t" << o.str() << "\n";
  }

  void record(const CXXRecordDecl *rd) {
    if (!rd->isThisDeclarationADefinition() || !inRoot(rd) || rd->isLambda() || rd->isInjectedClassName()) return;
    bool dep = rd->isDependentContext();
    string name = dep ? "P:"+qname(rd) : QualType(rd->getTypeForDecl(),0).getCanonicalType().getAsString(PP);
    if (!seenRec.insert(name).second) return;
    ids.clear(); tyIdx.clear(); tys.clear();
    std::ostringstream o; o << "{\"n\":" << esc(name) << ",\"q\":" << esc(qname(rd)) << ",\"file\":" << esc(rel(rd->getLocation())) << ",\"l\":" << line(rd->getLocation());
    if (dep) o << ",\"dep\":1";
    if (rd->isUnion()) o << ",\"union\":1";
    if (!dep && rd->isAggregate()) o << ",\"agg\":1";
    bool lay = !dep && !rd->isInvalidDecl() && !rd->isDependentType();
    if (lay) { auto &RL = C.getASTRecordLayout(rd); o << ",\"size\":" << RL.getSize().getQuantity() << ",\"boffs\":["; bool g=true;
      for (auto &b : rd->bases()) { if (b.isVirtual()) continue; o << (g?"":",") << RL.getBaseClassOffset(b.getType()->getAsCXXRecordDecl()).getQuantity(); g=false; } o << "]"; }
    o << ",\"bases\":["; bool f=true; for (auto &b : rd->bases()) { o << (f?"":",") << "[" << esc(b.getType().getCanonicalType().getAsString(PP)) << "," << (b.isVirtual()?1:0) << "]"; f=false; }
    o << "],\"fields\":["; f=true;
    for (auto *fd : rd->fields()) {
      o << (f?"":",") << "{\"n\":" << esc(fd->getName()) << ",\"t\":" << esc(fd->getType().getCanonicalType().getAsString(PP)) << ",\"l\":" << line(fd->getLocation());
      f=false;
      if (fd->hasInClassInitializer()) { o << ",\"hi\":1"; if (fd->getInClassInitializer() && !dep) o << ",\"init\":" << E(fd->getInClassInitializer()); }
      QualType q = fd->getType();
      if (!q->isDependentType()) { QualType b = C.getBaseElementType(q);
        if (b->isReferenceType()) o << ",\"c\":\"ref\""; else if (b->isScalarType()) o << ",\"c\":\"scalar\""; else if (b->isRecordType()) o << ",\"c\":\"rec\""; 
        if (q->isArrayType()) o << ",\"arr\":1"; }
      if (fd->isMutable()) o << ",\"mut\":1";
      if (lay && !fd->isBitField()) o << ",\"o\":" << C.getASTRecordLayout(rd).getFieldOffset(fd->getFieldIndex())/8 << ",\"s\":" << C.getTypeSizeInChars(fd->getType()->isReferenceType()?C.VoidPtrTy:fd->getType()).getQuantity();
      o << "}"; }
    o << "],\"methods\":["; f=true;
    for (auto *m : rd->methods()) {
      if (m->isImplicit() && !isa<CXXDestructorDecl>(m)) { if (!isa<CXXConstructorDecl>(m) && !m->isCopyAssignmentOperator() && !m->isMoveAssignmentOperator()) continue; }
      o << (f?"":",") << "{\"n\":" << esc(m->getNameAsString()) << ",\"l\":" << line(m->getLocation()); f=false;
      string k = dep? "" : mangle(m); if (!k.empty()) o << ",\"m\":" << esc(k);
      o << ",\"ps\":["; bool g=true; for (auto *p : m->parameters()) { o << (g?"":",") << "[" << esc(p->getName()) << "," << esc(p->getType().getCanonicalType().getAsString(PP)) << "," << (p->hasDefaultArg()?1:0) << "]"; g=false; } o << "]";
      if (m->isImplicit()) o << ",\"imp\":1"; if (m->isDeleted()) o << ",\"del\":1"; if (m->isDefaulted()) o << ",\"dflt\":1";
      if (m->isVirtual()) o << ",\"virt\":1"; if (m->isPureVirtual()) o << ",\"pure\":1"; if (m->isConst()) o << ",\"const\":1"; if (m->isStatic()) o << ",\"static\":1";
      if (m->hasAttr<OverrideAttr>()) o << ",\"ov\":1";
      if (auto cd = dyn_cast<CXXConstructorDecl>(m)) { o << ",\"ctor\":1"; if (cd->isCopyConstructor()) o << ",\"cp\":1"; if (cd->isMoveConstructor()) o << ",\"mv\":1"; if (cd->isDefaultConstructor()) o << ",\"df\":1"; }
      if (isa<CXXDestructorDecl>(m)) o << ",\"dtor\":1";
      if (m->isCopyAssignmentOperator()) o << ",\"cpa\":1"; if (m->isMoveAssignmentOperator()) o << ",\"mva\":1";
      o << ",\"acc\":" << (int)m->getAccess();
      if (!dep) { o << ",\"over\":["; g=true; for (auto *b : m->overridden_methods()) { o << (g?"":",") << esc(qname(b)); g=false; } o << "]"; o << ",\"overm\":["; g=true; for (auto *b : m->overridden_methods()) { string bm=mangle(b); if (!inRoot(b)) continue; o << (g?"":",") << esc(bm); g=false; } o << "]"; }
      if (m->hasBody() || m->isDefined()) o << ",\"def\":1";
      o << "}";
    }
    o << "]";
    if (!dep) { // hidden base virtuals
      o << ",\"vbase\":["; g_first=true; std::set<string> done; collectVirt(rd,rd,o,done); o << "]"; }
    o << ",\"T\":["; for (size_t i=0;i<tys.size();i++) o << (i?",":"") << esc(tys[i]); o << "]}";
    out << "C\t" << name << "\t" << o.str() << "\n";
  }
  bool g_first;
  void collectVirt(const CXXRecordDecl *top, const CXXRecordDecl *rd, std::ostream &o, std::set<string>&done) {
    // virtual methods of (transitive) bases that share a name with a method declared in `top`
    for (auto &b : rd->bases()) {
      auto *bd = b.getType()->getAsCXXRecordDecl(); if (!bd || !bd->hasDefinition()) continue; bd = bd->getDefinition();
      for (auto *m : bd->methods()) {
        if (!m->isVirtual() || isa<CXXDestructorDecl>(m)) continue;
        bool same=false; for (auto *tm : top->methods()) if (tm->getDeclName()==m->getDeclName()) same=true;
        if (!same) continue;
        string q = qname(m); string sg = m->getType().getCanonicalType().getAsString(PP);
        if (!done.insert(q+sg).second) continue;
        o << (g_first?"":",") << "[" << esc(m->getNameAsString()) << "," << esc(q) << "," << esc(sg) << "]"; g_first=false;
      }
      collectVirt(top,bd,o,done);
    }
  }
  void enumd(const EnumDecl *ed) {
    if (!inRoot(ed) || !ed->isThisDeclarationADefinition() || ed->isDependentContext()) return;
    string n = qname(ed)+"@"+rel(ed->getLocation())+(ed->getName().empty()?":"+std::to_string(line(ed->getLocation())):string()); if (!seenEnum.insert(n).second) return;
    string tn = C.getTypeDeclType(ed).getCanonicalType().getAsString(PP);
    std::ostringstream o; o << "E\t" << n << "\t{\"t\":" << esc(tn) << ",\"file\":" << esc(rel(ed->getLocation())) << ",\"l\":" << line(ed->getLocation()) << ",\"v\":["; bool f=true;
    for (auto *e : ed->enumerators()) { o << (f?"":",") << "[" << esc(e->getName()) << "," << e->getInitVal().getExtValue() << "]"; f=false; }
    o << "]}\n"; out << o.str();
  }
  void var(const VarDecl *v) {
    if (!inRoot(v) || isa<ParmVarDecl>(v)) return;
    if (v->getDeclContext()->isDependentContext() || v->getType()->isDependentType()) return;
    if (!(v->hasGlobalStorage())) return;
    if (v->isThisDeclarationADefinition()==VarDecl::DeclarationOnly && !v->isStaticDataMember()) return;
    string n = qname(v)+"@"+rel(v->getLocation())+":"+std::to_string(line(v->getLocation()));
    if (!seenVar.insert(n).second) return;
    ids.clear(); tyIdx.clear(); tys.clear();
    std::ostringstream o; o << "V\t" << n << "\t{\"n\":" << esc(v->getName()) << ",\"q\":" << esc(qname(v)) << ",\"t\":" << esc(v->getType().getCanonicalType().getAsString(PP)) << ",\"file\":" << esc(rel(v->getLocation())) << ",\"l\":" << line(v->getLocation());
    if (v->isStaticLocal()) o << ",\"sl\":1"; if (v->isConstexpr() || v->getType().isConstQualified()) o << ",\"const\":1";
    if (v->getInit()) { string e = E(v->getInit()); o << ",\"i\":" << e; }
    o << ",\"T\":["; for (size_t i=0;i<tys.size();i++) o << (i?",":"") << esc(tys[i]); o << "]}\n"; out << o.str();
  }
};

struct V : RecursiveASTVisitor<V> {
  Dumper &D; V(Dumper &d) : D(d) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *f) { D.function(f); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl *r) { D.record(r); return true; }
  bool VisitEnumDecl(EnumDecl *e) { D.enumd(e); return true; }
  bool VisitVarDecl(VarDecl *v) { D.var(v); return true; }
  bool TraverseDecl(Decl *d) {
    if (d && !isa<TranslationUnitDecl>(d) && !isa<NamespaceDecl>(d) && !isa<LinkageSpecDecl>(d)) {
      // prune declarations outside of the root (their template specialisations live there as well)
      SourceLocation l = d->getLocation();
      if (l.isValid() && !D.inRoot(d)) return true;
    }
    return RecursiveASTVisitor<V>::TraverseDecl(d);
  }
};

struct Cons : ASTConsumer {
  CompilerInstance &CI; std::set<string> &deps;
  Cons(CompilerInstance &c, std::set<string>&d) : CI(c), deps(d) {}
  void HandleTranslationUnit(ASTContext &ctx) override {
    Dumper D(ctx); V v(D); v.TraverseDecl(ctx.getTranslationUnitDecl());
    unsigned ne = CI.getDiagnostics().getClient()->getNumErrors();
    auto &SM = ctx.getSourceManager();
    for (auto it = SM.fileinfo_begin(); it != SM.fileinfo_end(); ++it) {
      string p = it->first.getFileEntry().tryGetRealPathName().str(); if (p.empty()) p = it->first.getName().str();
      if (p.compare(0,gRoot.size(),gRoot)==0) deps.insert(p.substr(gRoot.size()));
    }
    for (auto &d : deps) D.out << "I\t" << d << "\n";
    D.out << "X\t" << ne << "\n";
  }
};
struct Act : ASTFrontendAction {
  std::set<string> deps;
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, llvm::StringRef) override { return std::make_unique<Cons>(CI,deps); }
};

int main(int argc, const char **argv) {
  // amgfacts ROOT OUT -- compile args... file
  if (argc < 5) { std::cerr << "usage: amgfacts ROOT OUT -- args... file\n"; return 2; }
  gRoot = argv[1]; gOut = argv[2];
  std::vector<string> args; int i = 3; if (string(argv[i])=="--") i++;
  args.push_back("clang++"); for (; i<argc; i++) args.push_back(argv[i]);
  llvm::IntrusiveRefCntPtr<FileManager> fm(new FileManager(FileSystemOptions()));
  tooling::ToolInvocation inv(args, std::make_unique<Act>(), fm.get());
  bool ok = inv.run();
  return ok ? 0 : 1;
}
