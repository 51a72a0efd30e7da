// factgen: parse translation units with clang and write, as JSON lines, the facts the
// analyses in /verif/vlib work on: functions (syntax tree + control-flow graph), classes,
// fields, variables and types.  It decides nothing; it only exposes the typed program.
#include "clang/AST/AST.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ExprCXX.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include <fstream>
#include <sstream>
using namespace clang;
using std::string;

static std::vector<string> gRoots;       // only declarations in files below these are emitted in full
static std::set<string> gSeenFunc, gSeenRec, gSeenDecl, gSeenGlobal, gSeenEnum;
static std::map<string,int> gTypeIds; static std::vector<string> gTypeJson;
static std::ostream *gOut;

static string esc(llvm::StringRef s) {
  string r; r.reserve(s.size()+2); r.push_back('"');
  for (unsigned char c : s) {
    if (c=='"' || c=='\\') { r.push_back('\\'); r.push_back(c); }
    else if (c<0x20 || c>=0x7f) { char b[8]; snprintf(b,8,"\\u%04x",c); r += b; }
    else r.push_back(c);
  }
  r.push_back('"'); return r;
}
static string S(long long x){ return std::to_string(x); }

struct Ctx {
  ASTContext &C; SourceManager &SM; PrintingPolicy PP;
  Ctx(ASTContext &c):C(c),SM(c.getSourceManager()),PP(c.getLangOpts()){
    PP.SuppressTagKeyword=true; PP.Bool=true; PP.SuppressUnwrittenScope=true; PP.TerseOutput=true; PP.FullyQualifiedName=true; PP.PrintCanonicalTypes=true; }

  string fileOf(SourceLocation L){
    L=SM.getExpansionLoc(L); if(L.isInvalid()) return "";
    return canon(SM.getFilename(L).str());
  }
  std::map<string,string> canonCache;
  string canon(const string&f){
    if(f.empty()) return f;
    auto it=canonCache.find(f); if(it!=canonCache.end()) return it->second;
    char buf[4096]; string r=f; if(realpath(f.c_str(),buf)) r=buf; canonCache[f]=r; return r; }
  unsigned lineOf(SourceLocation L){ L=SM.getExpansionLoc(L); return L.isInvalid()?0:SM.getSpellingLineNumber(L); }
  bool inRoots(SourceLocation L){ string f=fileOf(L); for(auto&r:gRoots) if(f.compare(0,r.size(),r)==0) return true; return false; }

  // ---------------- types
  int type(QualType T){
    if(T.isNull()) return -1;
    QualType CT=T.getCanonicalType();
    string key=CT.getAsString(PP);
    auto it=gTypeIds.find(key); if(it!=gTypeIds.end()) return it->second;
    int id=gTypeJson.size(); gTypeIds[key]=id; gTypeJson.push_back("");
    string j="{\"T\":"+S(id)+",\"s\":"+esc(key);
    const char*k="other";
    const Type*t=CT.getTypePtr();
    if(CT.isConstQualified()) j+=",\"const\":1";
    if(CT.isVolatileQualified()) j+=",\"vol\":1";
    if(t->isBooleanType()) k="bool";
    else if(t->isEnumeralType()) k="enum";
    else if(t->isVoidType()) k="void";
    else if(t->isIntegralType(C)) { k="int"; j+=",\"uns\":"+S(t->isUnsignedIntegerType())+",\"w\":"+S(C.getTypeSize(CT)); }
    else if(t->isFloatingType()) k="float";
    else if(t->isPointerType()) { k="ptr"; j+=",\"p\":"+S(type(t->getPointeeType())); }
    else if(t->isReferenceType()) { k= t->isRValueReferenceType()?"rref":"ref"; j+=",\"p\":"+S(type(t->getPointeeType())); }
    else if(t->isArrayType()) { k="arr"; j+=",\"p\":"+S(type(QualType(t->getArrayElementTypeNoTypeQual(),0))); }
    else if(t->isMemberPointerType()) k="memptr";
    else if(t->isFunctionType()) k="func";
    else if(auto*RD=t->getAsCXXRecordDecl()) {
      k="rec"; j+=",\"r\":"+esc(full(RD));
      if(auto*SP=dyn_cast<ClassTemplateSpecializationDecl>(RD)){
        j+=",\"tn\":"+esc(SP->getQualifiedNameAsString())+",\"ta\":[";
        bool f=true; for(auto&A:SP->getTemplateArgs().asArray()) { if(!f) j+=","; f=false; j+=S(A.getKind()==TemplateArgument::Type?type(A.getAsType()):-1);} j+="]"; }
    }
    j+=string(",\"k\":\"")+k+"\"}";
    gTypeJson[id]=j; return id;
  }
  string full(const NamedDecl*D){ string s; llvm::raw_string_ostream os(s); D->getNameForDiagnostic(os,PP,true); return os.str(); }

  string funcId(const FunctionDecl*F){
    F=cast<FunctionDecl>(F->getCanonicalDecl());
    auto it=fid.find(F); if(it!=fid.end()) return it->second;
    string s=full(F)+"(";
    bool f=true; for(auto*P:F->parameters()){ if(!f) s+=", "; f=false; s+=P->getType().getCanonicalType().getAsString(PP);} s+=")";
    if(auto*M=dyn_cast<CXXMethodDecl>(F)) if(M->isConst()) s+=" const";
    if(F->isMain()) s+="@"+fileOf(F->getLocation()); else if(F->getFormalLinkage()==Linkage::Internal && !isa<CXXMethodDecl>(F)) s+="@"+fileOf(F->getLocation());
    if(auto*M=dyn_cast<CXXMethodDecl>(F)) if(M->getParent()->isLambda()) s+="@lambda:"+fileOf(M->getLocation())+":"+S(lineOf(M->getLocation()))+":"+S(SM.getExpansionColumnNumber(M->getLocation()));
    fid[F]=s; return s; }
  std::unordered_map<const FunctionDecl*,string> fid;

  // emits a reference-able declaration record (functions without body included)
  string declFunc(const FunctionDecl*F){
    string id=funcId(F);
    if(gSeenDecl.insert("F"+id).second){
      string j="{\"D\":"+esc(id)+",\"n\":"+esc(F->getNameAsString())+",\"q\":"+esc(F->getQualifiedNameAsString());
      if(auto*M=dyn_cast<CXXMethodDecl>(F)){
        j+=",\"cls\":"+esc(full(M->getParent()));
        if(M->isConst()) j+=",\"const\":1"; if(M->isStatic()) j+=",\"static\":1"; if(M->isVirtual()) j+=",\"virt\":1"; if(M->isPureVirtual()) j+=",\"pure\":1";
        if(isa<CXXConstructorDecl>(M)) { auto*K=cast<CXXConstructorDecl>(M); j+=",\"ctor\":1"; if(K->isCopyConstructor()) j+=",\"copyctor\":1"; if(K->isMoveConstructor()) j+=",\"movector\":1"; if(K->isDefaultConstructor()) j+=",\"defctor\":1"; }
        if(isa<CXXDestructorDecl>(M)) j+=",\"dtor\":1"; if(isa<CXXConversionDecl>(M)) j+=",\"conv\":1";
        if(M->isImplicit()) j+=",\"impl\":1";
        if(M->isCopyAssignmentOperator()) j+=",\"copyasg\":1";
      }
      if(F->isDefaulted()) j+=",\"dflt\":1"; if(F->isDeleted()) j+=",\"del\":1"; if(F->isNoReturn()) j+=",\"noret\":1";
      if(F->isOverloadedOperator()) j+=",\"op\":"+esc(getOperatorSpelling(F->getOverloadedOperator()));
      j+=",\"rt\":"+S(type(F->getReturnType()))+",\"pt\":[";
      bool f=true; for(auto*P:F->parameters()){ if(!f) j+=","; f=false; j+=S(type(P->getType())); } j+="],\"pn\":[";
      f=true; for(auto*P:F->parameters()){ if(!f) j+=","; f=false; j+=esc(P->getNameAsString()); } j+="]";
      if(F->isVariadic()) j+=",\"va\":1";
      j+=",\"file\":"+esc(fileOf(F->getLocation()))+",\"line\":"+S(lineOf(F->getLocation()))+"}";
      *gOut<<j<<"\n";
    }
    return id; }
  string fieldId(const FieldDecl*F){ return full(cast<NamedDecl>(F->getParent()))+"::"+(F->getName().empty()?("anon"+S(F->getFieldIndex())):F->getNameAsString()); }
  string globalId(const VarDecl*V){
    string s=full(V);
    if(V->isStaticLocal()) { s+="@static:"+fileOf(V->getLocation())+":"+S(lineOf(V->getLocation())); }
    else if(V->getFormalLinkage()==Linkage::Internal && !V->isStaticDataMember()) s+="@"+fileOf(V->getLocation());
    if(gSeenGlobal.insert(s).second){
      *gOut<<"{\"G\":"<<esc(s)<<",\"n\":"<<esc(V->getNameAsString())<<",\"q\":"<<esc(V->getQualifiedNameAsString())<<",\"t\":"<<type(V->getType())<<",\"file\":"<<esc(fileOf(V->getLocation()))<<",\"line\":"<<lineOf(V->getLocation())<<(V->isStaticLocal()?",\"slocal\":1":"")<<(V->getTLSKind()?",\"tls\":1":"")<<"}\n";
    }
    return s; }
  void record(const CXXRecordDecl*R){
    if(!R||!R->hasDefinition()) return; R=R->getDefinition();
    if(R->isDependentContext()) return;
    string id=full(R); if(!gSeenRec.insert(id).second) return;
    bool repo=inRoots(R->getLocation());
    string j="{\"R\":"+esc(id)+",\"n\":"+esc(R->getNameAsString())+",\"file\":"+esc(fileOf(R->getLocation()))+",\"line\":"+S(lineOf(R->getLocation()));
    if(repo) j+=",\"repo\":1";
    if(R->isLambda()) j+=",\"lambda\":1";
    if(auto*SP=dyn_cast<ClassTemplateSpecializationDecl>(R)) { j+=",\"tn\":"+esc(SP->getQualifiedNameAsString()); }
    j+=",\"bases\":["; bool f=true;
    std::vector<const CXXRecordDecl*> bs;
    for(auto&B:R->bases()) if(auto*BR=B.getType()->getAsCXXRecordDecl()) { if(!f) j+=","; f=false; j+=esc(full(BR)); bs.push_back(BR);} j+="],\"fields\":[";
    f=true;
    for(auto*F:R->fields()){ if(!f) j+=","; f=false;
      j+="{\"id\":"+esc(fieldId(F))+",\"n\":"+esc(F->getNameAsString())+",\"t\":"+S(type(F->getType()))+",\"line\":"+S(lineOf(F->getLocation()));
      if(F->isMutable()) j+=",\"mut\":1"; if(F->hasInClassInitializer()) j+=",\"ici\":1"; j+=",\"acc\":"+S(F->getAccess())+"}"; }
    j+="],\"methods\":["; f=true;
    if(repo) for(auto*M:R->methods()){ 
      if(M->isImplicit()&&!isa<CXXDestructorDecl>(M)&&!isa<CXXConstructorDecl>(M)&&!M->isCopyAssignmentOperator()&&!R->isLambda()) continue;
      if(!f) j+=","; f=false;
      j+="{\"id\":"+esc(declFunc(M))+",\"acc\":"+S(M->getAccess())+",\"ov\":["; bool g=true;
      for(auto*O:M->overridden_methods()){ if(!g) j+=","; g=false; j+=esc(declFunc(O)); } j+="]}"; }
    j+="]";
    if(R->hasDefinition()){
      j+=",\"poly\":"+S(R->isPolymorphic())+",\"abs\":"+S(R->isAbstract())+",\"udtor\":"+S(R->hasUserDeclaredDestructor())+",\"ucopy\":"+S(R->hasUserDeclaredCopyConstructor())+",\"uasg\":"+S(R->hasUserDeclaredCopyAssignment())+",\"uctor\":"+S(R->hasUserDeclaredConstructor())+",\"agg\":"+S(R->isAggregate())+",\"trivcopy\":"+S(R->hasTrivialCopyConstructor());
      if(auto*D=R->getDestructor()) j+=",\"vdtor\":"+S(D->isVirtual());
    }
    j+="}"; *gOut<<j<<"\n";
    for(auto*B:bs) record(B);
  }
};

struct FuncEmitter {
  Ctx &X; const FunctionDecl*F;
  std::unordered_map<const Stmt*,int> ids; std::unordered_map<const Decl*,int> vids; std::unordered_map<const Decl*,int> vnodes;
  int next=0, nextv=0; string body; 
  std::vector<const CXXRecordDecl*> recs; std::vector<const FunctionDecl*> lambdas;
  FuncEmitter(Ctx&x,const FunctionDecl*f):X(x),F(f){}
  int var(const Decl*D){ auto it=vids.find(D); if(it!=vids.end()) return it->second; int v=nextv++; vids[D]=v; return v; }

  static const Stmt* inner(const Stmt*s){
    if(auto*e=dyn_cast<ImplicitCastExpr>(s)) return e->getSubExpr();
    if(auto*e=dyn_cast<ParenExpr>(s)) return e->getSubExpr();
    if(auto*e=dyn_cast<FullExpr>(s)) return e->getSubExpr();
    if(auto*e=dyn_cast<MaterializeTemporaryExpr>(s)) return e->getSubExpr();
    if(auto*e=dyn_cast<CXXBindTemporaryExpr>(s)) return e->getSubExpr();
    if(auto*e=dyn_cast<SubstNonTypeTemplateParmExpr>(s)) return e->getReplacement();
    if(auto*e=dyn_cast<CXXDefaultArgExpr>(s)) return e->getExpr();
    if(auto*e=dyn_cast<CXXDefaultInitExpr>(s)) return e->getExpr();
    if(auto*e=dyn_cast<CXXConstructExpr>(s)) if(e->isElidable()&&e->getNumArgs()>=1) return e->getArg(0);
    if(auto*e=dyn_cast<CXXStdInitializerListExpr>(s)) return e->getSubExpr();
    if(auto*e=dyn_cast<UnaryOperator>(s)) if(e->getOpcode()==UO_Plus||e->getOpcode()==UO_Extension) return e->getSubExpr();
    if(auto*e=dyn_cast<CXXForRangeStmt>(s)) (void)e;
    return nullptr; }

  string macroOf(SourceLocation L){
    if(!L.isMacroID()) return "";
    // outermost macro name
    SourceLocation M=L; 
    while(true){ 
      SourceLocation E=X.SM.getImmediateMacroCallerLoc(M);
      if(!E.isMacroID()) { return Lexer::getImmediateMacroName(M,X.SM,X.C.getLangOpts()).str(); }
      M=E; }
  }
  string emitStmt(const Stmt*s,const string&parentMacro){
    if(!s) return "null";
    int implt=-1; string implk; bool dflt=false;
    std::vector<const Stmt*> chain;
    while(const Stmt*n=inner(s)){
      if(auto*e=dyn_cast<ImplicitCastExpr>(s)){
        auto k=e->getCastKind();
        if(k==CK_IntegralCast||k==CK_IntegralToBoolean||k==CK_FloatingToIntegral||k==CK_IntegralToFloating||k==CK_PointerToBoolean||k==CK_FloatingToBoolean||k==CK_DerivedToBase||k==CK_UncheckedDerivedToBase) { if(implt<0){implt=X.type(e->getType()); implk=e->getCastKindName();} }
      }
      if(isa<CXXDefaultArgExpr>(s)||isa<CXXDefaultInitExpr>(s)) dflt=true;
      chain.push_back(s); s=n; }
    int id=next++; ids[s]=id; for(auto*c:chain) ids[c]=id;
    string m=macroOf(s->getBeginLoc());
    string j="{\"i\":"+S(id)+",\"k\":\""; string k=s->getStmtClassName(); 
    std::vector<const Stmt*> ch; string extra; bool customCh=false; string chs;
    unsigned line=X.lineOf(s->getBeginLoc());
    if(auto*e=dyn_cast<Expr>(s)) extra+=",\"t\":"+S(X.type(e->getType()));
    if(auto*e=dyn_cast<DeclRefExpr>(s)){
      const ValueDecl*D=e->getDecl();
      if(auto*FD=dyn_cast<FunctionDecl>(D)) extra+=",\"f\":"+esc(X.declFunc(FD));
      else if(auto*V=dyn_cast<VarDecl>(D)){ if(V->hasGlobalStorage()) extra+=",\"g\":"+esc(X.globalId(V)); else extra+=",\"v\":"+S(var(V))+",\"n\":"+esc(V->getNameAsString()); }
      else if(auto*E=dyn_cast<EnumConstantDecl>(D)) { llvm::SmallString<16> b; E->getInitVal().toString(b); extra+=",\"e\":"+esc(X.full(E))+",\"val\":"+string(b.c_str()); }
      else if(isa<BindingDecl>(D)) extra+=",\"v\":"+S(var(D));
    } else if(auto*e=dyn_cast<MemberExpr>(s)){
      const ValueDecl*D=e->getMemberDecl();
      if(auto*FD=dyn_cast<FieldDecl>(D)) { extra+=",\"m\":"+esc(X.fieldId(FD)); }
      else if(auto*M=dyn_cast<CXXMethodDecl>(D)) extra+=",\"f\":"+esc(X.declFunc(M));
      else if(auto*V=dyn_cast<VarDecl>(D)) extra+=",\"g\":"+esc(X.globalId(V));
      else if(auto*E=dyn_cast<EnumConstantDecl>(D)) extra+=",\"e\":"+esc(X.full(E));
      if(e->isArrow()) extra+=",\"arrow\":1";
      ch.push_back(e->getBase()); customCh=true;
    } else if(auto*e=dyn_cast<CXXMemberCallExpr>(s)){
      customCh=true; bool virt=false;
      if(auto*ME=dyn_cast<MemberExpr>(e->getCallee()->IgnoreParens())){
        auto*MD=dyn_cast_or_null<CXXMethodDecl>(ME->getMemberDecl());
        if(MD){ extra+=",\"f\":"+esc(X.declFunc(MD)); virt=MD->isVirtual()&&!ME->hasQualifier(); if(isa<CXXDestructorDecl>(MD)) extra+=",\"dcall\":1"; }
        ids[ME]=-2; ids[e->getCallee()]=-2;
        if(ME->isArrow()) extra+=",\"arrow\":1";
        ch.push_back(ME->getBase());
      } else { ch.push_back(e->getCallee()); extra+=",\"ind\":1"; }
      if(virt) extra+=",\"virt\":1"; extra+=",\"mc\":1";
      for(auto*a:e->arguments()) ch.push_back(a);
    } else if(auto*e=dyn_cast<CXXOperatorCallExpr>(s)){
      customCh=true; extra+=",\"op\":"+esc(getOperatorSpelling(e->getOperator()));
      if(auto*FD=e->getDirectCallee()) { extra+=",\"f\":"+esc(X.declFunc(FD)); if(auto*MD=dyn_cast<CXXMethodDecl>(FD)) { extra+=",\"mc\":1"; if(MD->isVirtual()) extra+=",\"virt\":1"; } }
      for(auto*a:e->arguments()) ch.push_back(a);
    } else if(auto*e=dyn_cast<CallExpr>(s)){
      customCh=true;
      if(auto*FD=e->getDirectCallee()) extra+=",\"f\":"+esc(X.declFunc(FD));
      else { extra+=",\"ind\":1"; ch.push_back(e->getCallee()); }
      for(auto*a:e->arguments()) ch.push_back(a);
    } else if(auto*e=dyn_cast<CXXConstructExpr>(s)){
      extra+=",\"f\":"+esc(X.declFunc(e->getConstructor()));
      if(e->requiresZeroInitialization()) extra+=",\"zi\":1"; if(e->isListInitialization()) extra+=",\"li\":1";
      recs.push_back(e->getConstructor()->getParent());
    } else if(auto*e=dyn_cast<CXXNewExpr>(s)){
      customCh=true; extra+=",\"at\":"+S(X.type(e->getAllocatedType())); if(e->isArray()) extra+=",\"arr\":1";
      if(e->getNumPlacementArgs()) extra+=",\"placement\":1";
      if(e->isArray()&&e->getArraySize()) ch.push_back(*e->getArraySize());
      if(auto*I=e->getInitializer()) ch.push_back(I);
      if(auto*R=e->getAllocatedType()->getAsCXXRecordDecl()) recs.push_back(R);
    } else if(auto*e=dyn_cast<CXXDeleteExpr>(s)){ if(e->isArrayForm()) extra+=",\"arr\":1"; extra+=",\"dt\":"+S(X.type(e->getDestroyedType()));
    } else if(auto*e=dyn_cast<BinaryOperator>(s)){ extra+=",\"op\":"+esc(e->getOpcodeStr());
    } else if(auto*e=dyn_cast<UnaryOperator>(s)){ extra+=",\"op\":"+esc(UnaryOperator::getOpcodeStr(e->getOpcode())); if(e->isPostfix()) extra+=",\"post\":1";
    } else if(auto*e=dyn_cast<ExplicitCastExpr>(s)){ extra+=",\"ck\":"+esc(e->getCastKindName()); if(isa<CXXFunctionalCastExpr>(e)) k="CXXFunctionalCastExpr";
    } else if(auto*e=dyn_cast<IntegerLiteral>(s)){ llvm::SmallString<16> b; e->getValue().toString(b,10,e->getType()->isSignedIntegerType()); extra+=",\"val\":"+string(b.c_str());
    } else if(auto*e=dyn_cast<CharacterLiteral>(s)){ extra+=",\"val\":"+S(e->getValue());
    } else if(auto*e=dyn_cast<CXXBoolLiteralExpr>(s)){ extra+=string(",\"val\":")+(e->getValue()?"1":"0");
    } else if(auto*e=dyn_cast<FloatingLiteral>(s)){ llvm::SmallString<16> b; e->getValue().toString(b); extra+=",\"val\":"+esc(b);
    } else if(auto*e=dyn_cast<clang::StringLiteral>(s)){ if(e->getCharByteWidth()==1) extra+=",\"val\":"+esc(e->getString());
    } else if(auto*e=dyn_cast<UnaryExprOrTypeTraitExpr>(s)){ customCh=true; Expr::EvalResult R; if(!e->isValueDependent()&&e->EvaluateAsInt(R,X.C)) { llvm::SmallString<16> b; R.Val.getInt().toString(b); extra+=",\"val\":"+string(b.c_str()); }
    } else if(isa<CXXThisExpr>(s)){
    } else if(auto*e=dyn_cast<LambdaExpr>(s)){
      customCh=true; lambdas.push_back(e->getCallOperator()); extra+=",\"f\":"+esc(X.declFunc(e->getCallOperator()))+",\"caps\":[";
      bool f=true; for(auto&c:e->captures()){ if(!f) extra+=","; f=false; if(c.capturesVariable()) { extra+="["+S(var(c.getCapturedVar()))+","+S(c.getCaptureKind()==LCK_ByRef)+","+esc(c.getCapturedVar()->getNameAsString())+"]"; } else extra+="[-1,"+S(c.getCaptureKind()!=LCK_StarThis)+",\"this\"]"; } extra+="]";
      for(auto*i:e->capture_inits()) if(i) ch.push_back(i);
    } else if(auto*e=dyn_cast<DeclStmt>(s)){
      customCh=true;
      bool f=true; for(auto*D:e->decls()) if(auto*V=dyn_cast<VarDecl>(D)) { if(!f) chs+=","; f=false; chs+=emitVar(V,m,-1); }
    } else if(auto*e=dyn_cast<CXXForRangeStmt>(s)){
      customCh=true; string r=emitStmt(e->getRangeInit(),m); int rid=ids[e->getRangeInit()];
      chs=r+","+emitVar(e->getLoopVariable(),m,rid)+","+emitStmt(e->getBody(),m);
      extra+=",\"rng\":"+S(rid);
    } else if(auto*e=dyn_cast<CaseStmt>(s)){
      Expr::EvalResult R; if(e->getLHS()->EvaluateAsInt(R,X.C)){ llvm::SmallString<16> b; R.Val.getInt().toString(b); extra+=",\"val\":"+string(b.c_str()); }
      customCh=true; ch.push_back(e->getSubStmt());
    } else if(auto*e=dyn_cast<CXXCatchStmt>(s)){
      customCh=true; if(auto*V=e->getExceptionDecl()) { extra+=",\"ct\":"+S(X.type(V->getType()))+",\"cv\":"+S(var(V)); } ch.push_back(e->getHandlerBlock());
    } else if(auto*e=dyn_cast<IfStmt>(s)){
      customCh=true; 
      if(e->getConditionVariableDeclStmt()) ch.push_back(e->getConditionVariableDeclStmt());
      ch.push_back(e->getCond()); ch.push_back(e->getThen()); if(e->getElse()) { ch.push_back(e->getElse()); extra+=",\"else\":1"; }
      if(e->getConditionVariableDeclStmt()) extra+=",\"cvd\":1";
    } else if(auto*e=dyn_cast<ForStmt>(s)){
      customCh=true; ch={e->getInit(),e->getCond(),e->getInc(),e->getBody()};
    } else if(auto*e=dyn_cast<WhileStmt>(s)){
      customCh=true; ch={e->getCond(),e->getBody()};
    } else if(auto*e=dyn_cast<InitListExpr>(s)){
      customCh=true; const InitListExpr*se=e->isSemanticForm()?e:(e->getSemanticForm()?e->getSemanticForm():e); if(se!=e) ids[se]=id;
      for(unsigned i=0;i<se->getNumInits();i++) ch.push_back(se->getInit(i));
    }
    if(!customCh) for(auto*c:s->children()) ch.push_back(c);
    j+=k+"\",\"l\":"+S(line)+extra;
    if(implt>=0) j+=",\"it\":"+S(implt)+",\"ik\":"+esc(implk);
    if(dflt) j+=",\"dflt\":1";
    if(m!=parentMacro) j+=",\"M\":"+esc(m);
    if(customCh && !chs.empty()) j+=",\"c\":["+chs+"]";
    else if(!ch.empty()){ j+=",\"c\":["; bool f=true; for(auto*c:ch){ if(!f) j+=","; f=false; j+=emitStmt(c,m);} j+="]"; }
    // constant value
    j+="}"; return j; }
  string emitVar(const VarDecl*V,const string&m,int rng){
    int id=next++; vnodes[V]=id;
    string j="{\"i\":"+S(id)+",\"k\":\"VarDecl\",\"l\":"+S(X.lineOf(V->getLocation()))+",\"n\":"+esc(V->getNameAsString())+",\"t\":"+S(X.type(V->getType()));
    if(V->hasGlobalStorage()) j+=",\"g\":"+esc(X.globalId(V)); else j+=",\"v\":"+S(var(V));
    if(auto*R=V->getType()->getAsCXXRecordDecl()) recs.push_back(R);
    if(rng>=0) { j+=",\"rng\":"+S(rng);
      // element type conversions: record if the element is copied
    } else if(V->getInit()) { j+=",\"c\":["+emitStmt(V->getInit(),m)+"]"; if(V->getInitStyle()!=VarDecl::CInit) j+=",\"is\":1"; }
    j+="}"; return j; }

  void emit(){
    const FunctionDecl*Def=F;
    string id=X.funcId(F);
    X.declFunc(F);
    string j="{\"F\":"+esc(id)+",\"file\":"+esc(X.fileOf(F->getLocation()))+",\"line\":"+S(X.lineOf(F->getLocation()))+",\"endline\":"+S(X.lineOf(F->getEndLoc()));
    if(F->isDefaulted()) j+=",\"dflt\":1";
    if(F->isTemplateInstantiation()) j+=",\"inst\":1";
    j+=",\"params\":["; bool f=true;
    for(auto*P:F->parameters()){ if(!f) j+=","; f=false; j+="{\"v\":"+S(var(P))+",\"n\":"+esc(P->getNameAsString())+",\"t\":"+S(X.type(P->getType()))+"}"; }
    j+="]";
    std::vector<const CXXCtorInitializer*> inits;
    if(auto*K=dyn_cast<CXXConstructorDecl>(F)){
      j+=",\"inits\":["; f=true;
      for(auto*I:K->inits()){ if(!f) j+=","; f=false; inits.push_back(I);
        j+="{"; if(I->isAnyMemberInitializer()) j+="\"m\":"+esc(I->getMember()?X.fieldId(I->getMember()):X.fieldId(I->getIndirectMember()->getAnonField())); else if(I->isBaseInitializer()) j+="\"b\":"+esc(I->getBaseClass()->getAsCXXRecordDecl()?X.full(I->getBaseClass()->getAsCXXRecordDecl()):""); else j+="\"deleg\":1";
        if(I->isWritten()) j+=",\"w\":1"; if(I->isInClassMemberInitializer()) j+=",\"ici\":1";
        j+=",\"l\":"+S(X.lineOf(I->getSourceLocation()))+",\"e\":"+emitStmt(I->getInit(),"")+"}"; }
      j+="]";
    }
    j+=",\"body\":"+emitStmt(F->getBody(),"");
    CFG::BuildOptions BO; BO.setAllAlwaysAdd(); BO.AddImplicitDtors=true; BO.AddInitializers=true; BO.AddTemporaryDtors=false; BO.PruneTriviallyFalseEdges=false; BO.AddScopes=false; BO.AddLifetime=false;
    auto cfg=CFG::buildCFG(Def,F->getBody(),&X.C,BO);
    if(cfg){
      std::set<int> seen;
      j+=",\"entry\":"+S(cfg->getEntry().getBlockID())+",\"exit\":"+S(cfg->getExit().getBlockID())+",\"cfg\":["; f=true;
      for(auto*B:*cfg){ if(!f) j+=","; f=false;
        j+="{\"b\":"+S(B->getBlockID())+",\"e\":["; bool g=true;
        auto add=[&](const string&x){ if(!g) j+=","; g=false; j+=x; };
        for(auto&E:*B){
          if(auto CS=E.getAs<CFGStmt>()){
            const Stmt*s=CS->getStmt();
            if(auto*DS=dyn_cast<DeclStmt>(s)){ for(auto*D:DS->decls()) { auto it=vnodes.find(D); if(it!=vnodes.end()) add(S(it->second)); } continue; }
            auto it=ids.find(s); if(it==ids.end()||it->second<0) continue;
            if(seen.insert(it->second).second) add(S(it->second));
          } else if(auto D=E.getAs<CFGAutomaticObjDtor>()){ auto it=vids.find(D->getVarDecl()); if(it!=vids.end()) add("[\"d\","+S(it->second)+"]");
          } else if(auto I=E.getAs<CFGInitializer>()){ for(size_t k=0;k<inits.size();k++) if(inits[k]==I->getInitializer()) add("[\"i\","+S(k)+"]");
          }
        }
        j+="]";
        if(const Stmt*L=B->getLabel()){ 
          if(auto*CS=dyn_cast<CaseStmt>(L)){ Expr::EvalResult R; if(CS->getLHS()->EvaluateAsInt(R,X.C)){ llvm::SmallString<16> b; R.Val.getInt().toString(b); j+=",\"case\":"+string(b.c_str()); } }
          else if(isa<DefaultStmt>(L)) j+=",\"case\":\"default\"";
          else if(isa<CXXCatchStmt>(L)) { auto it=ids.find(L); j+=",\"catch\":"+S(it==ids.end()?-1:it->second); } }
        if(const Stmt*T=B->getTerminatorStmt()){
          j+=",\"t\":\""+string(T->getStmtClassName())+"\""; auto it=ids.find(T); if(it!=ids.end()) j+=",\"ti\":"+S(it->second);
          const Expr*c=B->getLastCondition(); 
          if(c){ auto i2=ids.find(c); if(i2==ids.end()) { const Stmt*q=c; while(const Stmt*n=inner(q)) q=n; i2=ids.find(q);} if(i2!=ids.end()) j+=",\"cond\":"+S(i2->second); }
          if(auto*BOp=dyn_cast<BinaryOperator>(T)) j+=",\"lop\":"+esc(BOp->getOpcodeStr());
        }
        if(B->hasNoReturnElement()) j+=",\"nr\":1";
        j+=",\"s\":["; g=true; for(auto I=B->succ_begin();I!=B->succ_end();++I){ const CFGBlock*SB=I->getReachableBlock(); if(!SB) SB=I->getPossiblyUnreachableBlock(); add(SB?S(SB->getBlockID()):"-1"); }
        j+="]}";
      }
      j+="]";
    }
    j+="}"; *gOut<<j<<"\n";
  }
};

static bool hasError(Ctx&X,const FunctionDecl*F);
struct Visitor : RecursiveASTVisitor<Visitor> {
  Ctx &X; bool errors; std::set<string>&bad; 
  Visitor(Ctx&x,bool e,std::set<string>&b):X(x),errors(e),bad(b){}
  bool shouldVisitTemplateInstantiations() const {return true;}
  bool shouldVisitImplicitCode() const {return true;}
  void func(const FunctionDecl*F){
    if(!F->doesThisDeclarationHaveABody()||!F->getBody()) return;
    if(F->isDependentContext()) return;
    if(!X.inRoots(F->getLocation())) return;
    string id=X.funcId(F);
    if(gSeenFunc.count(id)) return;
    if(errors && (F->isInvalidDecl()||hasError(X,F))) return;
    gSeenFunc.insert(id);
    FuncEmitter E(X,F); E.emit();
    for(auto*R:E.recs) X.record(R);
    for(auto*L:E.lambdas) func(L);
  }
  bool VisitFunctionDecl(FunctionDecl*F){ func(F); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl*R){ if(R->isThisDeclarationADefinition()&&X.inRoots(R->getLocation())) X.record(R); return true; }
  bool VisitEnumDecl(EnumDecl*E){ if(!X.inRoots(E->getLocation())) return true; string id=X.full(E); if(!gSeenEnum.insert(id+X.fileOf(E->getLocation())).second) return true;
    *gOut<<"{\"E\":"<<esc(id)<<",\"vals\":{"; bool f=true; for(auto*C:E->enumerators()){ llvm::SmallString<16> b; C->getInitVal().toString(b); *gOut<<(f?"":",")<<esc(C->getNameAsString())<<":"<<b.c_str(); f=false; } *gOut<<"}}\n"; return true; }
  bool VisitVarDecl(VarDecl*V){
    if(V->hasGlobalStorage() && !V->isStaticLocal() && X.inRoots(V->getLocation()) && !V->getDeclContext()->isDependentContext()) {
      X.globalId(V);
      if(V->getInit() && V->isThisDeclarationADefinition() && gSeenGlobal.insert("I"+X.globalId(V)).second){
        FuncEmitter E(X,nullptr); string s=E.emitStmt(V->getInit(),""); *gOut<<"{\"GI\":"<<esc(X.globalId(V))<<",\"e\":"<<s<<"}\n"; }
    }
    return true; }
};

// remembers where errors were, so that only the functions they are in are left to the second parse
struct ErrLines : DiagnosticConsumer {
  static std::set<std::pair<string,unsigned>> &lines(){ static std::set<std::pair<string,unsigned>> s; return s; }
  static unsigned &count(){ static unsigned c=0; return c; }
  void HandleDiagnostic(DiagnosticsEngine::Level L,const Diagnostic&D) override {
    DiagnosticConsumer::HandleDiagnostic(L,D);
    if(L<DiagnosticsEngine::Error) return; count()++;
    llvm::SmallString<256> m; D.FormatDiagnostic(m);
    string f="?"; unsigned ln=0;
    if(D.hasSourceManager()&&D.getLocation().isValid()){ auto&SM=D.getSourceManager(); auto l=SM.getExpansionLoc(D.getLocation()); f=SM.getFilename(l).str(); char b[4096]; if(realpath(f.c_str(),b)) f=b; ln=SM.getSpellingLineNumber(l); }
    lines().insert({f,ln});
    *gOut<<"{\"ERR\":"<<esc(f)<<",\"line\":"<<ln<<",\"msg\":"<<esc(m)<<"}\n"; }
};
static bool hasError(Ctx&X,const FunctionDecl*F){ string f=X.fileOf(F->getLocation()); unsigned a=X.lineOf(F->getBeginLoc()),b=X.lineOf(F->getEndLoc());
  for(auto&e:ErrLines::lines()) if(e.first==f&&e.second>=a&&e.second<=b) return true; return false; }

struct Consumer : ASTConsumer {
  CompilerInstance&CI; string file; Consumer(CompilerInstance&c,string f):CI(c),file(f){}
  std::vector<Decl*> tops;
  bool HandleTopLevelDecl(DeclGroupRef G) override { for(auto*D:G) tops.push_back(D); return true; }
  void HandleTranslationUnit(ASTContext&C) override {
    Ctx X(C); std::set<string> bad;
    unsigned n=ErrLines::count();
    *gOut<<"{\"TU\":"<<esc(file)<<",\"errors\":"<<n<<"}\n";
    Visitor V(X,n>0,bad); for(auto*D:tops) if(X.inRoots(D->getLocation())) V.TraverseDecl(D);
    // the files this unit was made from
    *gOut<<"{\"DEPS\":"<<esc(file)<<",\"files\":["; bool f=true;
    for(auto it=X.SM.fileinfo_begin();it!=X.SM.fileinfo_end();++it){ string p=X.canon(it->first.getName().str()); bool in=false; for(auto&r:gRoots) if(p.compare(0,r.size(),r)==0) in=true; if(in){ *gOut<<(f?"":",")<<esc(p); f=false; } }
    *gOut<<"]}\n";
    ErrLines::lines().clear(); ErrLines::count()=0;
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&CI,llvm::StringRef f) override { return std::make_unique<Consumer>(CI,f.str()); }
};

int main(int argc,char**argv){
  std::vector<string> files,flags; string out; string wd=".";
  int i=1; for(;i<argc;i++){ string a=argv[i];
    if(a=="--root") gRoots.push_back(argv[++i]); else if(a=="--out") out=argv[++i]; else if(a=="--wd") wd=argv[++i]; else if(a=="--"){ i++; break; } else files.push_back(a); }
  for(;i<argc;i++) flags.push_back(argv[i]);
  std::ofstream of(out); gOut=&of;
  tooling::FixedCompilationDatabase db(wd,flags);
  tooling::ClangTool tool(db,files);
  tool.setPrintErrorMessage(false);
  ErrLines diag; tool.setDiagnosticConsumer(&diag);
  int rc=tool.run(tooling::newFrontendActionFactory<Action>().get());
  for(auto&t:gTypeJson) of<<t<<"\n";
  of<<"{\"END\":1}\n";
  return of.good()?0:(rc?rc:1);
}
