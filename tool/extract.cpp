// Fact extractor: parses one translation unit of /repo with the real build flags and writes the
// type-resolved program (functions as structured statement/expression trees, classes, enums,
// globals) as JSON.  No judgement is made here; the rules in /verif/rules read these facts.
#include "clang/AST/RecordLayout.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Frontend/TextDiagnosticPrinter.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/ConvertUTF.h"
#include <map>
#include <set>
#include <string>
using namespace clang;
namespace J = llvm::json;

static std::vector<std::string> gRoots;      // emit code located below these
static std::vector<std::string> gExclude;    // ... unless the path contains one of these
static std::string gOut;

namespace {
class Emitter {
public:
  ASTContext &C; SourceManager &SM; PrintingPolicy PP; llvm::DenseMap<const void*,int> ids; int next=0;
  std::vector<const LambdaExpr*> pendingLambdas;
  Emitter(ASTContext &c):C(c),SM(c.getSourceManager()),PP(c.getLangOpts()){ PP.SuppressTagKeyword=true; PP.Bool=true; PP.FullyQualifiedName=true; PP.SuppressUnwrittenScope=true; PP.PrintCanonicalTypes=true; PP.AnonymousTagLocations=false;}
  int id(const void*p){ auto it=ids.find(p); if(it!=ids.end()) return it->second; ids[p]=++next; return next; }
  std::string type(QualType t){ if(t.isNull()) return ""; return t.getCanonicalType().getAsString(PP); }
  std::string sugar(QualType t){ if(t.isNull()) return ""; PrintingPolicy p2=PP; p2.PrintCanonicalTypes=false; return t.getAsString(p2); }
  std::string file(SourceLocation l){ l=SM.getExpansionLoc(l); auto p=SM.getPresumedLoc(l,false); if(p.isInvalid()) return ""; llvm::SmallString<256> s(p.getFilename()); return s.str().str(); }
  int line(SourceLocation l){ l=SM.getExpansionLoc(l); return l.isValid()?(int)SM.getExpansionLineNumber(l):0; }
  int col(SourceLocation l){ l=SM.getExpansionLoc(l); return l.isValid()?(int)SM.getExpansionColumnNumber(l):0; }
  std::string canonPath(std::string f){ llvm::SmallString<256> r; if(!llvm::sys::fs::real_path(f,r)) return r.str().str(); return f; }
  std::map<std::string,bool> inCache; std::map<std::string,std::string> pathCache;
  std::string realFile(SourceLocation l){ std::string f=file(l); auto it=pathCache.find(f); if(it!=pathCache.end()) return it->second; return pathCache[f]=canonPath(f);}  
  bool inScope(SourceLocation l){ if(l.isInvalid()) return false; std::string f=realFile(l); auto it=inCache.find(f); if(it!=inCache.end()) return it->second;
    bool ok=false; for(auto&r:gRoots) if(llvm::StringRef(f).starts_with(r)) ok=true; for(auto&e:gExclude) if(f.find(e)!=std::string::npos) ok=false; return inCache[f]=ok; }
  std::string qname(const NamedDecl*d){ std::string s; llvm::raw_string_ostream o(s); d->getNameForDiagnostic(o,PP,true); return o.str(); }
  std::string fkey(const FunctionDecl*f){
    if(auto*m=dyn_cast<CXXMethodDecl>(f)) if(m->getParent()->isLambda() && m->getOverloadedOperator()==OO_Call) return lkey(m->getParent());
    std::string s=qname(f); s+="("; bool first=true; for(auto*p:f->parameters()){ if(!first)s+=", "; first=false; s+=type(p->getType()); } if(f->isVariadic()) s+=", ..."; s+=")";
    if(auto*m=dyn_cast<CXXMethodDecl>(f)) if(m->isConst()) s+=" const";
    return s; }
  std::string lkey(const CXXRecordDecl*r){ auto l=r->getBeginLoc(); return "lambda@"+realFile(l)+":"+std::to_string(line(l))+":"+std::to_string(col(l)); }

  std::string strlit(const StringLiteral*s){
    if(s->getCharByteWidth()==1) return s->getBytes().str();
    std::string out; for(unsigned i=0;i<s->getLength();++i){ unsigned c=s->getCodeUnit(i); if(c<0x80) out.push_back((char)c); else { char buf[8]; char*p=buf; if(llvm::ConvertCodePointToUTF8(c,p)) out.append(buf,p-buf); else out.push_back('?'); } } return out; }
  J::Value fixs(const std::string&s){ if(J::isUTF8(s)) return s; return J::fixUTF8(s); }

  J::Object node(const char*k,const Stmt*s){ J::Object o; o["k"]=k; if(s) o["l"]=line(s->getBeginLoc()); return o; }
  J::Array args(llvm::ArrayRef<const Expr*> as){ J::Array a; for(auto*e:as) a.push_back(expr(e)); return a; }
  template<class R> J::Array argsR(R r){ J::Array a; for(auto*e:r) a.push_back(expr(e)); return a; }
  void callee(J::Object&o,const FunctionDecl*f){ o["fn"]=fkey(f); o["q"]=qname(f); o["n"]=f->getNameAsString();
    if(auto*m=dyn_cast<CXXMethodDecl>(f)){ o["cls"]=qname(m->getParent()); if(m->isVirtual()) o["virt"]=true; if(m->isStatic()) o["st"]=true; if(m->isConst()) o["cm"]=true;}
    J::Array pt; for(auto*p:f->parameters()) pt.push_back(type(p->getType())); o["pt"]=std::move(pt);
    if(f->isNoReturn()) o["nr"]=true; }

  J::Value expr(const Expr*e){
    if(!e) return nullptr;
    // transparent wrappers
    if(auto*x=dyn_cast<ExprWithCleanups>(e)) return expr(x->getSubExpr());
    if(auto*x=dyn_cast<MaterializeTemporaryExpr>(e)) return expr(x->getSubExpr());
    if(auto*x=dyn_cast<CXXBindTemporaryExpr>(e)) return expr(x->getSubExpr());
    if(auto*x=dyn_cast<ParenExpr>(e)) return expr(x->getSubExpr());
    if(auto*x=dyn_cast<ConstantExpr>(e)) return expr(x->getSubExpr());
    if(auto*x=dyn_cast<SubstNonTypeTemplateParmExpr>(e)) return expr(x->getReplacement());
    if(auto*x=dyn_cast<CXXDefaultArgExpr>(e)){ J::Value v=expr(x->getExpr()); if(auto*o=v.getAsObject()) (*o)["da"]=true; return v; }
    if(auto*x=dyn_cast<CXXDefaultInitExpr>(e)) return expr(x->getExpr());
    if(auto*x=dyn_cast<CXXStdInitializerListExpr>(e)) return expr(x->getSubExpr());
    if(auto*x=dyn_cast<OpaqueValueExpr>(e)) return expr(x->getSourceExpr());
    if(auto*x=dyn_cast<ImplicitCastExpr>(e)){
      auto ck=x->getCastKind();
      if(ck==CK_IntegralCast||ck==CK_FloatingToIntegral||ck==CK_IntegralToFloating||ck==CK_FloatingCast){
        const Expr* sub=x->getSubExpr()->IgnoreParens();
        if(isa<IntegerLiteral>(sub)||isa<FloatingLiteral>(sub)||isa<CharacterLiteral>(sub)||isa<CXXBoolLiteralExpr>(sub)) return expr(sub);
        J::Object o=node("cast",e); o["im"]=true; o["ck"]=x->getCastKindName(); o["t"]=type(x->getType()); o["ft"]=type(x->getSubExpr()->getType()); o["e"]=expr(x->getSubExpr()); cval(o,e); return o; }
      if(ck==CK_NullToPointer||ck==CK_NullToMemberPointer) { J::Object o=node("null",e); return o; }
      return expr(x->getSubExpr());
    }
    if(auto*x=dyn_cast<IntegerLiteral>(e)){ J::Object o=node("int",e); o["v"]=val(x->getValue(),x->getType()); return o; }
    if(auto*x=dyn_cast<CharacterLiteral>(e)){ J::Object o=node("int",e); o["v"]=(int64_t)x->getValue(); o["ch"]=true; return o; }
    if(auto*x=dyn_cast<FloatingLiteral>(e)){ J::Object o=node("float",e); double d=x->getValueAsApproximateDouble(); llvm::SmallString<32> s; x->getValue().toString(s); o["v"]=s.str().str(); (void)d; return o; }
    if(auto*x=dyn_cast<CXXBoolLiteralExpr>(e)){ J::Object o=node("int",e); o["v"]=x->getValue()?1:0; o["b"]=true; return o; }
    if(auto*x=dyn_cast<StringLiteral>(e)){ J::Object o=node("str",e); o["v"]=fixs(strlit(x)); return o; }
    if(auto*x=dyn_cast<PredefinedExpr>(e)){ J::Object o=node("str",e); o["v"]="<predef>"; return o; }
    if(isa<CXXNullPtrLiteralExpr>(e)||isa<GNUNullExpr>(e)) return node("null",e);
    if(isa<CXXThisExpr>(e)) { J::Object o=node("this",e); o["t"]=type(e->getType()); return o; }
    if(auto*x=dyn_cast<DeclRefExpr>(e)){
      auto*d=x->getDecl();
      if(auto*ec=dyn_cast<EnumConstantDecl>(d)){ J::Object o=node("enum",e); o["q"]=qname(ec); o["n"]=ec->getNameAsString(); o["t"]=type(ec->getType()); o["v"]=val(ec->getInitVal(),ec->getType()); return o; }
      if(auto*f=dyn_cast<FunctionDecl>(d)){ J::Object o=node("fref",e); callee(o,f); return o; }
      J::Object o=node("var",e); o["n"]=d->getNameAsString(); o["t"]=type(d->getType());
      if(auto*v=dyn_cast<VarDecl>(d)){ if(v->hasGlobalStorage()){ o["g"]=true; o["q"]= qname(v); if(v->isStaticLocal()) {o["sl"]=true; o["d"]=id(v->getCanonicalDecl());} } else o["d"]=id(v->getCanonicalDecl()); }
      else o["d"]=id(d->getCanonicalDecl());
      cval(o,e); return o; }
    if(auto*x=dyn_cast<MemberExpr>(e)){
      auto*d=x->getMemberDecl();
      if(auto*f=dyn_cast<CXXMethodDecl>(d)){ J::Object o=node("mfref",e); callee(o,f); o["b"]=expr(x->getBase()); return o; }
      if(auto*ec=dyn_cast<EnumConstantDecl>(d)){ J::Object o=node("enum",e); o["q"]=qname(ec); o["n"]=ec->getNameAsString(); o["t"]=type(ec->getType()); o["v"]=val(ec->getInitVal(),ec->getType()); return o; }
      if(auto*v=dyn_cast<VarDecl>(d)){ J::Object o=node("var",e); o["n"]=d->getNameAsString(); o["t"]=type(d->getType()); o["g"]=true; o["q"]=qname(v); cval(o,e); return o; }
      J::Object o=node("mem",e); o["n"]=d->getNameAsString(); o["f"]=fieldName(d); o["t"]=type(d->getType()); o["b"]=expr(x->getBase()); if(x->isArrow()) o["ar"]=true; return o; }
    if(auto*x=dyn_cast<CXXMemberCallExpr>(e)){
      J::Object o=node("call",e); auto*m=x->getMethodDecl(); if(m) callee(o,m); else { o["n"]="<memptr>"; o["q"]="<memptr>"; o["fn"]="<memptr>"; o["ce"]=expr(x->getCallee()); }
      o["o"]=expr(x->getImplicitObjectArgument()); o["ot"]= x->getImplicitObjectArgument()? type(x->getImplicitObjectArgument()->getType()):"";
      if(auto*me=dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())) { if(me->isArrow()) o["ar"]=true; if(me->hasQualifier()) o["nv"]=true; }
      o["a"]=argsR(x->arguments()); o["t"]=type(x->getType()); return o; }
    if(auto*x=dyn_cast<CXXOperatorCallExpr>(e)){
      J::Object o=node("call",e); o["op"]=getOperatorSpelling(x->getOperator());
      auto*f=x->getDirectCallee(); if(f) callee(o,f); else {o["n"]="<op>";o["q"]="<op>";o["fn"]="<op>";}
      std::vector<const Expr*> as(x->arg_begin(),x->arg_end());
      if(f&&isa<CXXMethodDecl>(f)&&!cast<CXXMethodDecl>(f)->isStatic()){ o["o"]=expr(as[0]); o["ot"]=type(as[0]->getType()); as.erase(as.begin()); }
      o["a"]=args(as); o["t"]=type(x->getType()); return o; }
    if(auto*x=dyn_cast<CallExpr>(e)){
      J::Object o=node("call",e); auto*f=x->getDirectCallee();
      if(f){ callee(o,f); if(unsigned b=f->getBuiltinID()) (void)b; } else { o["n"]="<ptr>"; o["q"]="<ptr>"; o["fn"]="<ptr>"; o["ce"]=expr(x->getCallee()); }
      o["a"]=argsR(x->arguments()); o["t"]=type(x->getType()); return o; }
    if(auto*x=dyn_cast<CXXConstructExpr>(e)){
      if(x->isElidable() && x->getNumArgs()==1) return expr(x->getArg(0));
      auto*cd=x->getConstructor();
      if(x->getNumArgs()>=1 && (cd->isCopyOrMoveConstructor())) { J::Object o=node("ctor",e); o["c"]=qname(cd->getParent()); o["fn"]=fkey(cd); o["cp"]=true; o["a"]=argsR(x->arguments()); o["t"]=type(x->getType()); return o; }
      J::Object o=node("ctor",e); o["c"]=qname(cd->getParent()); o["fn"]=fkey(cd); o["a"]=argsR(x->arguments()); o["t"]=type(x->getType()); 
      J::Array pt; for(auto*p:cd->parameters()) pt.push_back(type(p->getType())); o["pt"]=std::move(pt);
      return o; }
    if(auto*x=dyn_cast<CXXInheritedCtorInitExpr>(e)){ J::Object o=node("ctor",e); o["c"]=qname(x->getConstructor()->getParent()); o["fn"]=fkey(x->getConstructor()); o["a"]=J::Array(); o["t"]=type(x->getType()); return o; }
    if(auto*x=dyn_cast<CXXNewExpr>(e)){ J::Object o=node("new",e); o["t"]=type(x->getAllocatedType()); if(x->isArray()) { o["arr"]=true; if(x->getArraySize()) o["sz"]=expr(*x->getArraySize()); } if(x->getNumPlacementArgs()){ o["pl"]=argsR(x->placement_arguments()); } o["e"]=expr(x->getInitializer()); return o; }
    if(auto*x=dyn_cast<CXXDeleteExpr>(e)){ J::Object o=node("del",e); if(x->isArrayForm()) o["arr"]=true; o["t"]=type(x->getDestroyedType()); o["e"]=expr(x->getArgument()); return o; }
    if(auto*x=dyn_cast<ExplicitCastExpr>(e)){
      J::Object o=node("cast",e); 
      o["ck"]=x->getCastKindName();
      o["st"]= isa<CXXStaticCastExpr>(x)?"static":isa<CXXDynamicCastExpr>(x)?"dynamic":isa<CXXReinterpretCastExpr>(x)?"reinterpret":isa<CXXConstCastExpr>(x)?"const":isa<CStyleCastExpr>(x)?"c":"func";
      o["t"]=type(x->getType()); o["ft"]=type(x->getSubExpr()->IgnoreParenImpCasts()->getType()); o["e"]=expr(x->getSubExpr()); cval(o,e); return o; }
    if(auto*x=dyn_cast<UnaryOperator>(e)){ J::Object o=node("un",e); o["op"]=UnaryOperator::getOpcodeStr(x->getOpcode()).str(); if(x->isPostfix()) o["post"]=true; o["e"]=expr(x->getSubExpr()); o["t"]=type(x->getType()); cval(o,e); return o; }
    if(auto*x=dyn_cast<BinaryOperator>(e)){ J::Object o=node("bin",e); o["op"]=x->getOpcodeStr().str(); if(x->isAssignmentOp()) o["as"]=true; o["a"]=expr(x->getLHS()); o["b"]=expr(x->getRHS()); o["t"]=type(x->getType()); if(!x->isAssignmentOp()) cval(o,e); return o; }
    if(auto*x=dyn_cast<ConditionalOperator>(e)){ J::Object o=node("cond",e); o["c"]=expr(x->getCond()); o["a"]=expr(x->getTrueExpr()); o["b"]=expr(x->getFalseExpr()); o["t"]=type(x->getType()); return o; }
    if(auto*x=dyn_cast<BinaryConditionalOperator>(e)){ J::Object o=node("cond",e); o["c"]=expr(x->getCommon()); o["a"]=expr(x->getCommon()); o["b"]=expr(x->getFalseExpr()); return o; }
    if(auto*x=dyn_cast<ArraySubscriptExpr>(e)){ J::Object o=node("idx",e); o["b"]=expr(x->getBase()); o["i"]=expr(x->getIdx()); o["t"]=type(x->getType()); o["bt"]=type(x->getBase()->IgnoreParenImpCasts()->getType()); return o; }
    if(auto*x=dyn_cast<UnaryExprOrTypeTraitExpr>(e)){ J::Object o=node("int",e); cval(o,e); if(auto v=o.getInteger("cv")) o["v"]=*v; else o["v"]=0; o["so"]=true; return o; }
    if(auto*x=dyn_cast<InitListExpr>(e)){ J::Object o=node("list",e); if(auto*s=x->getSemanticForm()) x=s; o["a"]=argsR(x->inits()); o["t"]=type(x->getType()); 
      if(x->hasArrayFiller()) o["fill"]=expr(x->getArrayFiller()); return o; }
    if(auto*x=dyn_cast<LambdaExpr>(e)){ J::Object o=node("lambda",e); o["fn"]=lkey(x->getLambdaClass()); pendingLambdas.push_back(x);
      J::Array caps; auto ii=x->capture_init_begin(); for(auto c=x->capture_begin();c!=x->capture_end();++c,++ii){ J::Object k; if(c->capturesThis()) k["this"]=true; else if(c->capturesVariable()){ auto*v=c->getCapturedVar(); k["n"]=v->getNameAsString(); k["d"]=id(v->getCanonicalDecl()); k["t"]=type(v->getType()); k["ref"]= c->getCaptureKind()==LCK_ByRef; if(*ii) k["e"]=expr(*ii);} caps.push_back(std::move(k)); } o["caps"]=std::move(caps); return o; }
    if(auto*x=dyn_cast<CXXThrowExpr>(e)){ J::Object o=node("throw",e); o["e"]=expr(x->getSubExpr()); return o; }
    if(auto*x=dyn_cast<CXXScalarValueInitExpr>(e)){ J::Object o=node("int",e); o["v"]=0; o["zi"]=true; o["t"]=type(x->getType()); return o; }
    if(auto*x=dyn_cast<ImplicitValueInitExpr>(e)){ J::Object o=node("int",e); o["v"]=0; o["zi"]=true; o["t"]=type(x->getType()); return o; }
    if(auto*x=dyn_cast<CompoundLiteralExpr>(e)) return expr(x->getInitializer());
    if(auto*x=dyn_cast<StmtExpr>(e)){ J::Object o=node("stmtexpr",e); o["s"]=stmt(x->getSubStmt()); return o; }
    J::Object o=node("other",e); o["cn"]=e->getStmtClassName(); J::Array a; for(auto*c:e->children()) if(auto*ce=dyn_cast_or_null<Expr>(c)) a.push_back(expr(ce)); o["a"]=std::move(a); cval(o,e); return o;
  }
  std::string fieldName(const ValueDecl*d){ std::string s; if(auto*r=dyn_cast<RecordDecl>(d->getDeclContext())) { s=qname(r); } return s+"::"+d->getNameAsString(); }
  J::Value val(const llvm::APInt&a,QualType t){ if(a.getBitWidth()<=64){ if(t->isUnsignedIntegerOrEnumerationType()) { uint64_t u=a.getZExtValue(); if(u>INT64_MAX) return std::to_string(u); return (int64_t)u; } return a.getSExtValue(); } return 0; }
  J::Value val(const llvm::APSInt&a,QualType t){ if(a.getBitWidth()<=64){ if(a.isUnsigned()) { uint64_t u=a.getZExtValue(); if(u>INT64_MAX) return std::to_string(u); return (int64_t)u;} return a.getSExtValue(); } return 0; }
  void cval(J::Object&o,const Expr*e){ if(e->isValueDependent()||e->isTypeDependent()) return; if(!e->getType()->isIntegralOrEnumerationType()) return; Expr::EvalResult r; if(e->EvaluateAsInt(r,C,Expr::SE_NoSideEffects)) o["cv"]=val(r.Val.getInt(),e->getType()); }

  J::Object varDecl(const VarDecl*v){ J::Object o; o["n"]=v->getNameAsString(); o["d"]=id(v->getCanonicalDecl()); o["t"]=type(v->getType()); o["l"]=line(v->getLocation()); if(v->isStaticLocal()) o["static"]=true; if(v->hasInit()) o["init"]=expr(v->getInit());
    if(auto*r=v->getType()->getAsCXXRecordDecl()) o["c"]=qname(r); return o; }
  J::Value stmt(const Stmt*s){
    if(!s) return nullptr;
    if(auto*e=dyn_cast<Expr>(s)) return expr(e);
    if(auto*x=dyn_cast<CompoundStmt>(s)){ J::Object o=node("seq",s); J::Array a; for(auto*c:x->body()) a.push_back(stmt(c)); o["s"]=std::move(a); o["el"]=line(x->getRBracLoc()); return o; }
    if(auto*x=dyn_cast<DeclStmt>(s)){ J::Object o=node("decl",s); J::Array a; for(auto*d:x->decls()) if(auto*v=dyn_cast<VarDecl>(d)) a.push_back(varDecl(v)); o["v"]=std::move(a); return o; }
    if(auto*x=dyn_cast<IfStmt>(s)){ J::Object o=node("if",s); if(x->getInit()) o["init"]=stmt(x->getInit()); if(auto*v=x->getConditionVariable()) o["cvd"]=varDecl(v); o["c"]=expr(x->getCond()); o["th"]=stmt(x->getThen()); o["el"]=stmt(x->getElse()); return o; }
    if(auto*x=dyn_cast<WhileStmt>(s)){ J::Object o=node("while",s); if(auto*v=x->getConditionVariable()) o["cvd"]=varDecl(v); o["c"]=expr(x->getCond()); o["b"]=stmt(x->getBody()); return o; }
    if(auto*x=dyn_cast<DoStmt>(s)){ J::Object o=node("do",s); o["c"]=expr(x->getCond()); o["b"]=stmt(x->getBody()); return o; }
    if(auto*x=dyn_cast<ForStmt>(s)){ J::Object o=node("for",s); o["i"]=stmt(x->getInit()); o["c"]=expr(x->getCond()); o["inc"]=expr(x->getInc()); o["b"]=stmt(x->getBody()); return o; }
    if(auto*x=dyn_cast<CXXForRangeStmt>(s)){ J::Object o=node("rfor",s); o["v"]=varDecl(x->getLoopVariable()); o["r"]=expr(x->getRangeInit()); o["b"]=stmt(x->getBody()); return o; }
    if(auto*x=dyn_cast<SwitchStmt>(s)){ J::Object o=node("switch",s); if(auto*v=x->getConditionVariable()) o["cvd"]=varDecl(v); o["c"]=expr(x->getCond()); o["ct"]=type(x->getCond()->IgnoreParenImpCasts()->getType()); o["b"]=stmt(x->getBody()); return o; }
    if(auto*x=dyn_cast<CaseStmt>(s)){ J::Object o=node("case",s); o["v"]=expr(x->getLHS()); if(x->getRHS()) o["v2"]=expr(x->getRHS()); o["s"]=stmt(x->getSubStmt()); return o; }
    if(auto*x=dyn_cast<DefaultStmt>(s)){ J::Object o=node("default",s); o["s"]=stmt(x->getSubStmt()); return o; }
    if(isa<BreakStmt>(s)) return node("break",s);
    if(isa<ContinueStmt>(s)) return node("continue",s);
    if(auto*x=dyn_cast<ReturnStmt>(s)){ J::Object o=node("ret",s); o["e"]=expr(x->getRetValue()); return o; }
    if(isa<NullStmt>(s)) return node("nop",s);
    if(auto*x=dyn_cast<CXXTryStmt>(s)){ J::Object o=node("try",s); o["b"]=stmt(x->getTryBlock()); J::Array a; for(unsigned i=0;i<x->getNumHandlers();++i){ auto*h=x->getHandler(i); J::Object ho=node("catch",h); if(h->getExceptionDecl()) ho["v"]=varDecl(h->getExceptionDecl()); ho["b"]=stmt(h->getHandlerBlock()); a.push_back(std::move(ho)); } o["h"]=std::move(a); return o; }
    if(auto*x=dyn_cast<LabelStmt>(s)){ J::Object o=node("label",s); o["n"]=x->getName(); o["s"]=stmt(x->getSubStmt()); return o; }
    if(auto*x=dyn_cast<GotoStmt>(s)){ J::Object o=node("goto",s); o["n"]=x->getLabel()->getNameAsString(); return o; }
    if(auto*x=dyn_cast<AttributedStmt>(s)) return stmt(x->getSubStmt());
    J::Object o=node("otherstmt",s); o["cn"]=s->getStmtClassName(); J::Array a; for(auto*c:s->children()) a.push_back(stmt(c)); o["s"]=std::move(a); return o;
  }
  J::Object func(const FunctionDecl*f,const std::string&key,const std::string&encl){
    J::Object o; o["key"]=key; o["q"]=qname(f); o["n"]=f->getNameAsString(); o["file"]=realFile(f->getLocation()); o["l"]=line(f->getBeginLoc()); o["el"]=line(f->getEndLoc()); o["ret"]=type(f->getReturnType());
    J::Array ps; for(auto*p:f->parameters()){ J::Object po; po["n"]=p->getNameAsString(); po["d"]=id(p->getCanonicalDecl()); po["t"]=type(p->getType()); po["st"]=sugar(p->getType()); ps.push_back(std::move(po)); } o["p"]=std::move(ps);
    if(auto*m=dyn_cast<CXXMethodDecl>(f)){ o["cls"]=qname(m->getParent()); if(m->isVirtual()) o["virt"]=true; if(m->isStatic()) o["st"]=true; if(m->isConst()) o["cm"]=true; J::Array ov; for(auto*b:m->overridden_methods()) ov.push_back(fkey(b)); o["ov"]=std::move(ov);
      o["acc"]= m->getAccess()==AS_public?"public":m->getAccess()==AS_protected?"protected":m->getAccess()==AS_private?"private":"none"; }
    if(isa<CXXDestructorDecl>(f)) o["dtor"]=true;
    if(auto*cd=dyn_cast<CXXConstructorDecl>(f)){ o["ctor"]=true; J::Array in; for(auto*i:cd->inits()){ J::Object k; if(i->isAnyMemberInitializer()){ auto*m=i->getAnyMember(); k["f"]=fieldName(m); k["n"]=m->getNameAsString(); k["t"]=type(m->getType()); } else if(i->isBaseInitializer()) k["base"]=type(QualType(i->getBaseClass(),0)); else k["deleg"]=true; k["w"]=i->isWritten(); k["e"]=expr(i->getInit()); in.push_back(std::move(k)); } o["inits"]=std::move(in); }
    if(!encl.empty()) o["encl"]=encl;
    o["body"]=stmt(f->getBody());
    return o;
  }
};

class Visitor: public RecursiveASTVisitor<Visitor> {
public:
  Emitter &E; J::Array funcs, classes, enums, globals, decls; std::set<std::string> seenC; std::set<const void*> seenF;
  Visitor(Emitter&e):E(e){}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl*f){
    if(!f->isThisDeclarationADefinition()||!f->doesThisDeclarationHaveABody()) {
      if(auto*m=dyn_cast<CXXMethodDecl>(f)) if(m->isVirtual() && !m->isDependentContext() && E.inScope(f->getLocation())) { J::Object o; o["key"]=E.fkey(m); o["cls"]=E.qname(m->getParent()); o["n"]=m->getNameAsString(); o["pure"]=m->isPureVirtual(); J::Array ps; for(auto*p:m->parameters()){ J::Object po; po["n"]=p->getNameAsString(); po["t"]=E.type(p->getType()); ps.push_back(std::move(po)); } o["p"]=std::move(ps); decls.push_back(std::move(o)); }
      return true; }
    if(f->isDependentContext()||f->isDefaulted()) return true;
    if(auto*m=dyn_cast<CXXMethodDecl>(f)) if(m->getParent()->isLambda()) return true;
    if(!E.inScope(f->getLocation())) return true;
    if(!seenF.insert(f->getCanonicalDecl()).second) return true;
    std::string key=E.fkey(f);
    funcs.push_back(E.func(f,key,""));
    drain(key);
    return true;
  }
  void drain(const std::string&encl){ std::set<const void*> done; while(!E.pendingLambdas.empty()){ auto*l=E.pendingLambdas.back(); E.pendingLambdas.pop_back(); if(!seenF.insert(l->getCallOperator()).second) continue; if(l->getCallOperator()->isDependentContext()) { 
        // generic lambda: emit every specialisation
        if(auto*t=l->getLambdaClass()->getDependentLambdaCallOperator()) for(auto*s:t->specializations()) if(s->getBody()) funcs.push_back(E.func(s,E.lkey(l->getLambdaClass()),encl));
        continue; }
      funcs.push_back(E.func(l->getCallOperator(),E.lkey(l->getLambdaClass()),encl)); } }
  bool VisitCXXRecordDecl(CXXRecordDecl*r){
    if(!r->isThisDeclarationADefinition()||r->isDependentContext()||r->isLambda()) return true;
    if(!E.inScope(r->getLocation())) return true;
    std::string q=E.qname(r); if(!seenC.insert(q).second) return true;
    J::Object o; o["q"]=q; o["n"]=r->getNameAsString(); o["file"]=E.realFile(r->getLocation()); o["l"]=E.line(r->getLocation());
    J::Array bs; for(auto&b:r->bases()) bs.push_back(E.type(b.getType())); o["bases"]=std::move(bs);
    J::Array fs; for(auto*f:r->fields()){ J::Object k; k["n"]=f->getNameAsString(); k["f"]=E.fieldName(f); k["t"]=E.type(f->getType()); k["st"]=E.sugar(f->getType()); k["l"]=E.line(f->getLocation()); if(auto*a=E.C.getAsConstantArrayType(f->getType())) k["n_el"]=(int64_t)a->getSize().getZExtValue(); if(f->hasInClassInitializer()&&f->getInClassInitializer()) k["init"]=E.expr(f->getInClassInitializer()); fs.push_back(std::move(k)); } o["fields"]=std::move(fs); if(!r->isDependentType()&&!r->isInvalidDecl()) o["sz"]=(int64_t)E.C.getASTRecordLayout(r).getSize().getQuantity();
    J::Array ms; for(auto*m:r->methods()){ J::Object k; k["key"]=E.fkey(m); k["n"]=m->getNameAsString(); if(m->isVirtual())k["virt"]=true; if(m->isPureVirtual())k["pure"]=true; if(m->isImplicit()) k["impl"]=true; if(m->isDeleted()) k["deleted"]=true; if(m->isDefaulted()) k["dflt"]=true; if(isa<CXXDestructorDecl>(m)) k["dtor"]=true; if(isa<CXXConstructorDecl>(m)) k["ctor"]=true; J::Array ov; for(auto*b:m->overridden_methods()) ov.push_back(E.fkey(b)); k["ov"]=std::move(ov); k["l"]=E.line(m->getLocation());
      k["acc"]= m->getAccess()==AS_public?"public":m->getAccess()==AS_protected?"protected":"private"; J::Array ps; for(auto*p:m->parameters()){ J::Object po; po["n"]=p->getNameAsString(); po["t"]=E.type(p->getType()); ps.push_back(std::move(po)); } k["p"]=std::move(ps); k["ret"]=E.type(m->getReturnType()); ms.push_back(std::move(k)); } o["methods"]=std::move(ms);
    classes.push_back(std::move(o)); drain(q); return true;
  }
  bool VisitEnumDecl(EnumDecl*e){
    if(!e->isThisDeclarationADefinition()||e->isDependentContext()) return true; if(!E.inScope(e->getLocation())) return true;
    J::Object o; o["q"]=E.qname(e); o["file"]=E.realFile(e->getLocation()); o["l"]=E.line(e->getLocation()); J::Array a; for(auto*c:e->enumerators()){ J::Object k; k["n"]=c->getNameAsString(); k["q"]=E.qname(c); k["v"]=E.val(c->getInitVal(),c->getType()); a.push_back(std::move(k)); } o["e"]=std::move(a); enums.push_back(std::move(o)); return true; }
  bool VisitVarDecl(VarDecl*v){
    if(!v->hasGlobalStorage()||v->isStaticLocal()||v->getDeclContext()->isDependentContext()) return true; if(!E.inScope(v->getLocation())) return true;
    if(v->isThisDeclarationADefinition()==VarDecl::DeclarationOnly) return true;
    J::Object o=E.varDecl(v); o["q"]=E.qname(v); o["file"]=E.realFile(v->getLocation()); o["tls"]=v->getTLSKind()!=VarDecl::TLS_None; globals.push_back(std::move(o)); drain(E.qname(v)); return true; }
};

class Consumer: public ASTConsumer { public:
  void HandleTranslationUnit(ASTContext&C) override {
    Emitter E(C); Visitor V(E); V.TraverseDecl(C.getTranslationUnitDecl());
    J::Object o; o["functions"]=std::move(V.funcs); o["classes"]=std::move(V.classes); o["enums"]=std::move(V.enums); o["globals"]=std::move(V.globals); o["decls"]=std::move(V.decls);
    // dependency list (for caching)
    J::Array deps; std::set<std::string> ds; for(auto it=E.SM.fileinfo_begin();it!=E.SM.fileinfo_end();++it){ std::string f=E.canonPath(it->first.getName().str()); bool in=false; for(auto&r:gRoots) if(llvm::StringRef(f).starts_with(r)) in=true; if(in) ds.insert(f);} for(auto&d:ds) deps.push_back(d); o["deps"]=std::move(deps);
    o["errors"]=(int64_t)C.getDiagnostics().getClient()->getNumErrors();
    std::error_code ec; llvm::raw_fd_ostream os(gOut,ec); if(ec){ llvm::errs()<<"cannot write "<<gOut<<"\n"; exit(3);} os<<J::Value(std::move(o)); }
};
class Action: public ASTFrontendAction { public: std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&,StringRef) override { return std::make_unique<Consumer>(); } };
}
// usage: extract OUT SRC --root R ... --exclude X ... -- flags
int main(int argc,char**argv){
  if(argc<3) return 2; gOut=argv[1]; std::string src=argv[2]; std::vector<std::string> flags; int i=3; for(;i<argc;++i){ std::string a=argv[i]; if(a=="--"){ ++i; break; } if(a=="--root") gRoots.push_back(argv[++i]); else if(a=="--exclude") gExclude.push_back(argv[++i]); }
  for(;i<argc;++i) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".",flags); std::vector<std::string> srcs{src}; tooling::ClangTool T(db,srcs);
  return T.run(tooling::newFrontendActionFactory<Action>().get());
}
