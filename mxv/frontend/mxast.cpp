// mxast: exports the typed, instantiated Clang AST of the real mx sources as JSON.
// Purely mechanical: no statement of a function body is dropped or rewritten, apart from
// nodes without run-time meaning (parentheses, no-op casts, cleanups markers).
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include <map>
#include <set>
#include <fstream>
#include <iostream>
using namespace clang;
namespace J = llvm::json;

static std::string Root;      // only declarations below this directory are exported
static std::string OutFile;

class Exporter : public RecursiveASTVisitor<Exporter> {
public:
    ASTContext &C; SourceManager &SM; PrintingPolicy PP; ASTNameGenerator NG;
    std::map<std::string,int> typeIdx; std::vector<J::Value> types;
    std::map<const void*,int> varIds;
    std::vector<J::Value> funcs, records, enums, globals;
    std::set<const Decl*> doneF, doneR, doneE, doneG;
    std::vector<const RecordDecl*> recQueue;
    std::string tu;
    Exporter(ASTContext &c, std::string t): C(c), SM(c.getSourceManager()), PP(c.getPrintingPolicy()), NG(c), tu(t) {
        PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true; PP.PrintCanonicalTypes = true; PP.SuppressInlineNamespace=false;
    }
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }

    std::string fileOf(SourceLocation L) {
        L = SM.getExpansionLoc(L);
        auto P = SM.getPresumedLoc(L);
        if (P.isInvalid()) return "";
        return P.getFilename();
    }
    int lineOf(SourceLocation L) { L = SM.getExpansionLoc(L); auto P = SM.getPresumedLoc(L); return P.isValid()? (int)P.getLine():0; }
    bool inRoot(SourceLocation L) { auto f = fileOf(L); return (f.rfind(Root,0)==0 || f.find("/mxv/cpp/")!=std::string::npos) && f.find("pugixml")==std::string::npos; }

    int varId(const ValueDecl* D) {
        D = cast<ValueDecl>(D->getCanonicalDecl());
        auto it = varIds.find(D); if (it!=varIds.end()) return it->second;
        int n = varIds.size()+1; varIds[D]=n; return n;
    }
    std::string recName(const RecordDecl* R) {
        if (auto *CR = dyn_cast<CXXRecordDecl>(R)) if (CR->isLambda()) return "lambda#"+std::to_string((long)varId2(CR));
        return QualType(R->getTypeForDecl(),0).getCanonicalType().getAsString(PP);
    }
    std::map<const void*,int> lamIds;
    int varId2(const void* p){ auto it=lamIds.find(p); if(it!=lamIds.end()) return it->second; int n=lamIds.size()+1; lamIds[p]=n; return n; }
    std::string tmplName(const RecordDecl* R) { return R->getQualifiedNameAsString(); }

    int T(QualType Q) {
        if (Q.isNull()) return -1;
        Q = Q.getCanonicalType();
        bool cst = Q.isConstQualified();
        std::string s = Q.getAsString(PP);
        if (auto *R = Q->getAsRecordDecl()) { if (auto*CR=dyn_cast<CXXRecordDecl>(R)) if (CR->isLambda()) s = recName(R); }
        auto it = typeIdx.find(s); if (it!=typeIdx.end()) return it->second;
        int n = types.size(); typeIdx[s]=n; types.push_back(nullptr);
        J::Object o; o["s"]=s; if (cst) o["const"]=true;
        QualType U = Q.getUnqualifiedType();
        if (auto *P = U->getAs<PointerType>()) { o["k"]="ptr"; o["e"]=T(P->getPointeeType()); }
        else if (auto *P = U->getAs<LValueReferenceType>()) { o["k"]="lref"; o["e"]=T(P->getPointeeType()); }
        else if (auto *P = U->getAs<RValueReferenceType>()) { o["k"]="rref"; o["e"]=T(P->getPointeeType()); }
        else if (auto *P = U->getAs<MemberPointerType>()) { o["k"]="mptr"; o["e"]=T(P->getPointeeType()); }
        else if (auto *A = C.getAsConstantArrayType(U)) { o["k"]="array"; o["e"]=T(A->getElementType()); o["n"]=(int64_t)A->getSize().getZExtValue(); }
        else if (auto *A = C.getAsArrayType(U)) { o["k"]="array"; o["e"]=T(A->getElementType()); }
        else if (auto *E = U->getAs<EnumType>()) { o["k"]="enum"; o["n"]=QualType(E,0).getCanonicalType().getAsString(PP); auto*D=E->getDecl(); expEnum(D->getDefinition()?D->getDefinition():D);
            o["e"]= T(D->getIntegerType()); }
        else if (auto *R = U->getAsRecordDecl()) {
            o["k"]="rec"; o["n"]=recName(R); o["tn"]=tmplName(R);
            if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
                J::Array a; addArgs(a, S->getTemplateArgs().asArray());
                o["ta"]=std::move(a);
            }
            if (auto*Df=R->getDefinition()) recQueue.push_back(Df);
        }
        else if (auto *F = U->getAs<FunctionProtoType>()) { o["k"]="func"; o["r"]=T(F->getReturnType()); J::Array a; for (auto p: F->param_types()) a.push_back(T(p)); o["p"]=std::move(a);}
        else if (auto *B = U->getAs<BuiltinType>()) {
            o["k"]="b"; 
            if (B->isFloatingPoint()) o["f"]=(int64_t)C.getTypeSize(U);
            else if (B->isInteger()) { o["w"]=(int64_t)(B->getKind()==BuiltinType::Bool?1:C.getTypeSize(U)); o["sg"]=B->isSignedInteger(); if (B->isAnyCharacterType()) o["ch"]=true; }
        }
        else o["k"]="other";
        types[n]=std::move(o);
        return n;
    }
    void addArgs(J::Array& a, ArrayRef<TemplateArgument> args) {
        for (auto &A: args) {
            if (A.getKind()==TemplateArgument::Type) a.push_back(T(A.getAsType()));
            else if (A.getKind()==TemplateArgument::Integral) a.push_back(J::Object{{"v",(int64_t)A.getAsIntegral().getExtValue()}});
            else if (A.getKind()==TemplateArgument::Pack) addArgs(a, A.pack_elements());
            else a.push_back(nullptr);
        }
    }
    void expEnum(const EnumDecl* E) {
        if (!doneE.insert(E).second) return;
        J::Object o; o["n"]=QualType(E->getTypeForDecl(),0).getCanonicalType().getAsString(PP);
        J::Array a; for (auto *c: E->enumerators()) a.push_back(J::Array{c->getNameAsString(), (int64_t)c->getInitVal().getExtValue()});
        o["c"]=std::move(a); enums.push_back(std::move(o));
    }
    std::string fname(const FunctionDecl* F) {
        F = cast<FunctionDecl>(F->getCanonicalDecl());
        std::string s;
        GlobalDecl G;
        if (auto *K = dyn_cast<CXXConstructorDecl>(F)) s = "C:" + NG.getName(K);
        else if (auto *K = dyn_cast<CXXDestructorDecl>(F)) s = "D:" + NG.getName(K);
        else s = NG.getName(F);
        if (!F->isExternallyVisible()) s = tu + ":" + s;
        return s;
    }
    J::Object fref(const FunctionDecl* F) {
        J::Object o; o["f"]=fname(F); o["q"]=F->getQualifiedNameAsString(); o["n"]=F->getNameAsString();
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) { 
            o["m"]= !M->isStatic(); if (M->isVirtual()) o["v"]=true; o["cls"]=recName(M->getParent());
            if (M->isDefaulted()||M->isImplicit()) o["impl"]=true;
            if (M->isCopyAssignmentOperator()||M->isMoveAssignmentOperator()) o["asg"]=true;
            if (M->isConst()) o["cm"]=true;
        }
        if (auto* ta = F->getTemplateSpecializationArgs()) { J::Array a; addArgs(a, ta->asArray()); o["fta"]=std::move(a);}        
        J::Array ps; for (auto*p: F->parameters()) ps.push_back(T(p->getType())); o["pt"]=std::move(ps);
        o["rt"]=T(F->getReturnType());
        if (inRoot(F->getLocation())) o["my"]=true;
        return o;
    }
    J::Value SO(const Stmt* s) { if(!s) return nullptr; return S(s); }
    J::Object N(const char*k, const Stmt*s) { J::Object o; o["k"]=k; o["l"]=lineOf(s->getBeginLoc()); return o; }
    J::Object X(const char*k, const Expr*e) { J::Object o; o["k"]=k; o["t"]=T(e->getType()); o["l"]=lineOf(e->getExprLoc()); if (e->isLValue()) o["lv"]=true; else if (e->isXValue()) o["lv"]=true; return o; }
    J::Object var(const VarDecl* V) {
        J::Object o; o["id"]=varId(V); o["n"]=V->getNameAsString(); o["t"]=T(V->getType());
        if (V->isStaticLocal()) o["static"]=true;
        if (V->hasInit() && !isa<ParmVarDecl>(V)) { o["init"]=S(V->getInit()); if (V->getInitStyle()==VarDecl::CallInit||V->getInitStyle()==VarDecl::ListInit) o["ds"]=true; }
        return o;
    }
    J::Array args(llvm::iterator_range<CallExpr::const_arg_iterator> r) { J::Array a; for (auto*e: r) a.push_back(S(e)); return a; }

    J::Value S(const Stmt* s) {
        switch (s->getStmtClass()) {
        case Stmt::CompoundStmtClass: { auto o=N("block",s); J::Array a; for (auto*c: cast<CompoundStmt>(s)->body()) a.push_back(S(c)); o["b"]=std::move(a); return o; }
        case Stmt::NullStmtClass: return N("null",s);
        case Stmt::DeclStmtClass: { auto o=N("decl",s); J::Array a; for (auto*d: cast<DeclStmt>(s)->decls()) if (auto*V=dyn_cast<VarDecl>(d)) a.push_back(var(V)); o["v"]=std::move(a); return o; }
        case Stmt::IfStmtClass: { auto*i=cast<IfStmt>(s); auto o=N("if",s);
            if (i->isConstexpr() && !i->getInit() && !i->getConditionVariable()) { bool b=false; if (!i->getCond()->isValueDependent() && i->getCond()->EvaluateAsBooleanCondition(b,C)) { const Stmt*k = b? i->getThen(): i->getElse(); return k? S(k): J::Value(N("null",s)); } }
            if (i->getInit()) o["init"]=S(i->getInit());
            if (auto*V=i->getConditionVariable()) o["cv"]=var(V);
            o["c"]=S(i->getCond()); o["a"]=S(i->getThen()); if (i->getElse()) o["b"]=S(i->getElse()); return o; }
        case Stmt::WhileStmtClass: { auto*w=cast<WhileStmt>(s); auto o=N("while",s); if (auto*V=w->getConditionVariable()) o["cv"]=var(V); o["c"]=S(w->getCond()); o["b"]=S(w->getBody()); return o; }
        case Stmt::DoStmtClass: { auto*w=cast<DoStmt>(s); auto o=N("do",s); o["c"]=S(w->getCond()); o["b"]=S(w->getBody()); return o; }
        case Stmt::ForStmtClass: { auto*f=cast<ForStmt>(s); auto o=N("for",s); if(f->getInit()) o["init"]=S(f->getInit()); if(f->getCond()) o["c"]=S(f->getCond()); if(f->getInc()) o["inc"]=S(f->getInc()); o["b"]=S(f->getBody()); return o; }
        case Stmt::CXXForRangeStmtClass: { auto*f=cast<CXXForRangeStmt>(s); auto o=N("forr",s); 
            o["r"]=S(f->getRangeInit()); o["v"]=var(f->getLoopVariable()); 
            { auto*V=f->getRangeStmt()?dyn_cast<VarDecl>(cast<DeclStmt>(f->getRangeStmt())->getSingleDecl()):nullptr; if(V) o["rv"]=var(V); }
            if (f->getBeginStmt()) o["bv"]=var(cast<VarDecl>(cast<DeclStmt>(f->getBeginStmt())->getSingleDecl()));
            if (f->getEndStmt()) o["ev"]=var(cast<VarDecl>(cast<DeclStmt>(f->getEndStmt())->getSingleDecl()));
            if (f->getCond()) o["c"]=S(f->getCond()); if (f->getInc()) o["inc"]=S(f->getInc());
            o["b"]=S(f->getBody()); return o; }
        case Stmt::SwitchStmtClass: { auto*w=cast<SwitchStmt>(s); auto o=N("switch",s); o["c"]=S(w->getCond()); o["b"]=S(w->getBody()); return o; }
        case Stmt::CaseStmtClass: { auto*w=cast<CaseStmt>(s); auto o=N("case",s); 
            Expr::EvalResult r; if (w->getLHS()->EvaluateAsInt(r,C)) o["v"]=(int64_t)r.Val.getInt().getExtValue();
            if (w->getRHS() && w->getRHS()->EvaluateAsInt(r,C)) o["v2"]=(int64_t)r.Val.getInt().getExtValue();
            o["b"]=S(w->getSubStmt()); return o; }
        case Stmt::DefaultStmtClass: { auto o=N("default",s); o["b"]=S(cast<DefaultStmt>(s)->getSubStmt()); return o; }
        case Stmt::BreakStmtClass: return N("break",s);
        case Stmt::ContinueStmtClass: return N("continue",s);
        case Stmt::ReturnStmtClass: { auto o=N("return",s); if (auto*e=cast<ReturnStmt>(s)->getRetValue()) o["e"]=S(e); return o; }
        case Stmt::CXXTryStmtClass: { auto*t=cast<CXXTryStmt>(s); auto o=N("try",s); o["b"]=S(t->getTryBlock()); J::Array a; for(unsigned i=0;i<t->getNumHandlers();++i){ auto*h=t->getHandler(i); J::Object c; if (auto*V=h->getExceptionDecl()) c["v"]=var(V); c["b"]=S(h->getHandlerBlock()); a.push_back(std::move(c)); } o["h"]=std::move(a); return o; }
        case Stmt::AttributedStmtClass: return S(cast<AttributedStmt>(s)->getSubStmt());
        default: break;
        }
        if (auto *e = dyn_cast<Expr>(s)) return E(e);
        auto o=N("unk",s); o["c"]=s->getStmtClassName(); return o;
    }
    J::Value E(const Expr* e) {
        switch (e->getStmtClass()) {
        case Stmt::ParenExprClass: return S(cast<ParenExpr>(e)->getSubExpr());
        case Stmt::ExprWithCleanupsClass: return S(cast<ExprWithCleanups>(e)->getSubExpr());
        case Stmt::CXXBindTemporaryExprClass: return S(cast<CXXBindTemporaryExpr>(e)->getSubExpr());
        case Stmt::ConstantExprClass: return S(cast<ConstantExpr>(e)->getSubExpr());
        case Stmt::SubstNonTypeTemplateParmExprClass: return S(cast<SubstNonTypeTemplateParmExpr>(e)->getReplacement());
        case Stmt::MaterializeTemporaryExprClass: { auto o=X("mat",e); o["e"]=S(cast<MaterializeTemporaryExpr>(e)->getSubExpr()); return o; }
        case Stmt::CXXDefaultArgExprClass: return S(cast<CXXDefaultArgExpr>(e)->getExpr());
        case Stmt::CXXDefaultInitExprClass: return S(cast<CXXDefaultInitExpr>(e)->getExpr());
        case Stmt::IntegerLiteralClass: { auto o=X("int",e); o["v"]=llvm::toString(cast<IntegerLiteral>(e)->getValue(),10,e->getType()->isSignedIntegerType()); return o; }
        case Stmt::CharacterLiteralClass: { auto o=X("int",e); o["v"]=std::to_string(cast<CharacterLiteral>(e)->getValue()); return o; }
        case Stmt::FloatingLiteralClass: { auto o=X("flt",e); llvm::SmallString<64> st; cast<FloatingLiteral>(e)->getValue().toString(st,40,0,false); o["v"]=std::string(st); return o; }
        case Stmt::StringLiteralClass: { auto o=X("str",e); auto b=cast<StringLiteral>(e)->getString(); J::Array a; bool asc=true; for(unsigned char c: b) if(c>=128) asc=false; if(asc) o["v"]=b.str(); else { for(unsigned char c: b) a.push_back((int)c); o["vb"]=std::move(a);} return o; }
        case Stmt::PredefinedExprClass: { auto o=X("str",e); o["v"]="<func>"; return o; }
        case Stmt::CXXBoolLiteralExprClass: { auto o=X("bool",e); o["v"]=cast<CXXBoolLiteralExpr>(e)->getValue(); return o; }
        case Stmt::CXXNullPtrLiteralExprClass: case Stmt::GNUNullExprClass: return X("nullp",e);
        case Stmt::CXXThisExprClass: return X("this",e);
        case Stmt::ImplicitValueInitExprClass: case Stmt::CXXScalarValueInitExprClass: return X("zero",e);
        case Stmt::UnaryExprOrTypeTraitExprClass: { Expr::EvalResult r; auto o=X("int",e); if(e->EvaluateAsInt(r,C)) o["v"]=llvm::toString(r.Val.getInt(),10); return o; }
        case Stmt::SourceLocExprClass: { auto o=X("str",e); o["v"]="<srcloc>"; return o; }
        case Stmt::DeclRefExprClass: { auto*d=cast<DeclRefExpr>(e)->getDecl();
            if (auto*F=dyn_cast<FunctionDecl>(d)) { auto o=X("fn",e); o["d"]=fref(F); return o; }
            if (auto*EC=dyn_cast<EnumConstantDecl>(d)) { auto o=X("int",e); o["v"]=llvm::toString(EC->getInitVal(),10); o["en"]=EC->getNameAsString(); return o; }
            if (auto*V=dyn_cast<VarDecl>(d)) { auto o=X("var",e); o["n"]=V->getNameAsString();
                if (V->hasGlobalStorage() && !V->isStaticLocal()) { o["g"]=gname(V); expGlobal(V); o["q"]=V->getQualifiedNameAsString(); }
                else o["id"]=varId(V);
                return o; }
            if (auto*B=dyn_cast<BindingDecl>(d)) { if (B->getBinding()) return S(B->getBinding()); }
            auto o=X("unk",e); o["c"]=std::string("DeclRef ")+d->getDeclKindName(); return o; }
        case Stmt::MemberExprClass: { auto*m=cast<MemberExpr>(e);
            if (auto*V=dyn_cast<VarDecl>(m->getMemberDecl())) { auto o=X("var",e); o["n"]=V->getNameAsString(); o["g"]=gname(V); expGlobal(V); return o; }
            if (auto*F=dyn_cast<FieldDecl>(m->getMemberDecl())) { auto o=X("mem",e); o["b"]=S(m->getBase()); o["a"]=m->isArrow(); o["f"]=F->getNameAsString(); o["cls"]=recName(F->getParent()); return o; }
            auto o=X("method",e); o["b"]=S(m->getBase()); o["a"]=m->isArrow(); if (auto*F=dyn_cast<FunctionDecl>(m->getMemberDecl())) o["d"]=fref(F); return o; }
        case Stmt::UnaryOperatorClass: { auto*u=cast<UnaryOperator>(e); auto o=X("un",e); o["op"]=UnaryOperator::getOpcodeStr(u->getOpcode()).str(); if(u->isPostfix()) o["post"]=true; 
            if (u->getOpcode()==UO_AddrOf) { if (auto*dr=dyn_cast<DeclRefExpr>(u->getSubExpr()->IgnoreParens())) { if (auto*F=dyn_cast<CXXMethodDecl>(dr->getDecl())) if(!F->isStatic()) { auto p=X("mfn",e); p["d"]=fref(F); return p; } if (auto*Fd=dyn_cast<FieldDecl>(dr->getDecl())) { auto p=X("mfield",e); p["f"]=Fd->getNameAsString(); return p; } } }
            o["e"]=S(u->getSubExpr()); return o; }
        case Stmt::BinaryOperatorClass: { auto*b=cast<BinaryOperator>(e); auto o=X("bin",e); o["op"]=b->getOpcodeStr().str(); o["a"]=S(b->getLHS()); o["b"]=S(b->getRHS()); return o; }
        case Stmt::CompoundAssignOperatorClass: { auto*b=cast<CompoundAssignOperator>(e); auto o=X("casg",e); o["op"]=b->getOpcodeStr().str(); o["ct"]=T(b->getComputationResultType()); o["clt"]=T(b->getComputationLHSType()); o["a"]=S(b->getLHS()); o["b"]=S(b->getRHS()); return o; }
        case Stmt::ConditionalOperatorClass: { auto*c=cast<ConditionalOperator>(e); auto o=X("cond",e); o["c"]=S(c->getCond()); o["a"]=S(c->getTrueExpr()); o["b"]=S(c->getFalseExpr()); return o; }
        case Stmt::ArraySubscriptExprClass: { auto*c=cast<ArraySubscriptExpr>(e); auto o=X("idx",e); o["a"]=S(c->getBase()); o["b"]=S(c->getIdx()); return o; }
        case Stmt::ImplicitCastExprClass: case Stmt::CStyleCastExprClass: case Stmt::CXXStaticCastExprClass: case Stmt::CXXFunctionalCastExprClass: case Stmt::CXXConstCastExprClass: case Stmt::CXXReinterpretCastExprClass: case Stmt::CXXDynamicCastExprClass: {
            auto*c=cast<CastExpr>(e);
            switch (c->getCastKind()) {
            case CK_NoOp: case CK_ConstructorConversion: case CK_UserDefinedConversion: case CK_FunctionToPointerDecay: case CK_BuiltinFnToFnPtr: return S(c->getSubExpr());
            default: break; }
            auto o=X("cast",e); o["ck"]=c->getCastKindName(); o["e"]=S(c->getSubExpr()); return o; }
        case Stmt::CXXConstructExprClass: case Stmt::CXXTemporaryObjectExprClass: { auto*c=cast<CXXConstructExpr>(e); auto o=X("ctor",e); auto*D=c->getConstructor(); o["d"]=fref(D);
            if (D->isCopyConstructor()) o["cc"]="copy"; else if (D->isMoveConstructor()) o["cc"]="move"; else if (D->isDefaultConstructor()) o["cc"]="default";
            if (c->isListInitialization()) o["li"]=true; if (c->isStdInitListInitialization()) o["sil"]=true; 
            if (c->requiresZeroInitialization()) o["zi"]=true; if (c->isElidable()) o["el"]=true;
            J::Array a; for (auto*x: c->arguments()) a.push_back(S(x)); o["a"]=std::move(a); return o; }
        case Stmt::CXXInheritedCtorInitExprClass: { auto*c=cast<CXXInheritedCtorInitExpr>(e); auto o=X("ictor",e); o["d"]=fref(c->getConstructor()); return o; }
        case Stmt::InitListExprClass: { auto*c=cast<InitListExpr>(e); if (c->isSemanticForm()==false && c->getSemanticForm()) c=c->getSemanticForm();
            auto o=X("ilist",e); J::Array a; for (auto*x: c->inits()) a.push_back(S(x)); o["a"]=std::move(a); if (c->hasArrayFiller()) o["fill"]=S(c->getArrayFiller()); return o; }
        case Stmt::CXXStdInitializerListExprClass: { auto o=X("silist",e); o["e"]=S(cast<CXXStdInitializerListExpr>(e)->getSubExpr()); return o; }
        case Stmt::CallExprClass: case Stmt::CXXMemberCallExprClass: case Stmt::CXXOperatorCallExprClass: case Stmt::UserDefinedLiteralClass: {
            auto*c=cast<CallExpr>(e); auto o=X("call",e);
            if (auto*F=c->getDirectCallee()) o["d"]=fref(F);
            if (auto*m=dyn_cast<CXXMemberCallExpr>(e)) { 
                if (auto*me=dyn_cast<MemberExpr>(m->getCallee()->IgnoreParens())) { o["o"]=S(me->getBase()); o["arrow"]=me->isArrow(); if (me->hasQualifier()) o["nv"]=true; }
                else o["ce"]=S(m->getCallee()); }
            else if (auto*oc=dyn_cast<CXXOperatorCallExpr>(e)) o["oc"]=getOperatorSpelling(oc->getOperator());
            else if (!c->getDirectCallee()) o["ce"]=S(c->getCallee());
            o["a"]=args(c->arguments()); return o; }
        case Stmt::CXXNewExprClass: { auto*c=cast<CXXNewExpr>(e); auto o=X("new",e); o["at"]=T(c->getAllocatedType()); if (c->isArray()) o["arr"]=S(*c->getArraySize()); if (auto*i=c->getInitializer()) o["i"]=S(i); return o; }
        case Stmt::CXXDeleteExprClass: { auto o=X("delete",e); o["e"]=S(cast<CXXDeleteExpr>(e)->getArgument()); return o; }
        case Stmt::CXXThrowExprClass: { auto o=X("throw",e); if (auto*x=cast<CXXThrowExpr>(e)->getSubExpr()) o["e"]=S(x); return o; }
        case Stmt::LambdaExprClass: { auto*l=cast<LambdaExpr>(e); auto o=X("lambda",e); o["cls"]=recName(l->getLambdaClass());
            J::Array caps; auto ii=l->capture_init_begin(); for (auto ci=l->capture_begin(); ci!=l->capture_end(); ++ci,++ii) { J::Object c; if (ci->capturesThis()) c["this"]=true; else if (ci->capturesVariable()) { c["id"]=varId(ci->getCapturedVar()); c["ref"]=ci->getCaptureKind()==LCK_ByRef; } c["e"]=S(*ii); caps.push_back(std::move(c)); }
            o["caps"]=std::move(caps);
            auto*m=l->getCallOperator();
            if (l->isGenericLambda()) { o["generic"]=true; J::Array sp; if (auto*ft=l->getLambdaClass()->getDependentLambdaCallOperator()) for (auto*fd: ft->specializations()) if (fd->hasBody()) { J::Object so; J::Array ps; for (auto*p: fd->parameters()) ps.push_back(var(p)); so["p"]=std::move(ps); so["rt"]=T(fd->getReturnType()); so["b"]=S(fd->getBody()); sp.push_back(std::move(so)); } o["spec"]=std::move(sp); }
            else { J::Array ps; for (auto*p: m->parameters()) ps.push_back(var(p)); o["p"]=std::move(ps); o["rt"]=T(m->getReturnType()); o["b"]=S(l->getBody()); }
            return o; }
        case Stmt::ArrayInitLoopExprClass: { auto o=X("ailoop",e); o["src"]=S(cast<ArrayInitLoopExpr>(e)->getCommonExpr()->getSourceExpr()); return o; }
        case Stmt::OpaqueValueExprClass: { if (cast<OpaqueValueExpr>(e)->getSourceExpr()) return S(cast<OpaqueValueExpr>(e)->getSourceExpr()); break; }
        case Stmt::CXXNoexceptExprClass: case Stmt::TypeTraitExprClass: { bool b=false; e->EvaluateAsBooleanCondition(b,C); auto o=X("bool",e); o["v"]=b; return o; }
        case Stmt::CXXPseudoDestructorExprClass: return X("nop",e);
        case Stmt::CXXTypeidExprClass: { auto o=X("typeid",e); return o; }
        default: break;
        }
        auto o=X("unk",e); o["c"]=e->getStmtClassName(); return o;
    }
    std::string gname(const VarDecl*V) { V=V->getCanonicalDecl(); std::string s=NG.getName(V); if(!V->isExternallyVisible()) s=tu+":"+s; return s; }
    void expGlobal(const VarDecl* V) {
        const VarDecl*D=V->getDefinition(); if(!D) { D=V; const VarDecl* I=nullptr; if (V->getAnyInitializer(I) && I) D=I; }
        if (!doneG.insert(D->getCanonicalDecl()).second) return;
        if (!inRoot(D->getLocation())) return;
        J::Object o; o["g"]=gname(D); o["q"]=D->getQualifiedNameAsString(); o["t"]=T(D->getType()); o["file"]=fileOf(D->getLocation()); o["l"]=lineOf(D->getLocation());
        const VarDecl*I=nullptr; if (auto*x=D->getAnyInitializer(I)) if (!x->isValueDependent()) o["init"]=S(x);
        globals.push_back(std::move(o));
    }
    bool VisitVarDecl(VarDecl* V) {
        if (V->hasGlobalStorage() && !V->isStaticLocal() && !V->getType()->isDependentType() && !isa<ParmVarDecl>(V) && inRoot(V->getLocation()) && !V->getDeclContext()->isDependentContext() && V->isThisDeclarationADefinition()) expGlobal(V);
        return true;
    }
    void expRecord(const RecordDecl* R) {
        if (!R || !doneR.insert(R).second) return;
        if (R->isDependentType() || !R->isCompleteDefinition()) return;
        if (!inRoot(R->getLocation())) { return; }
        J::Object o; o["n"]=recName(R); o["q"]=R->getQualifiedNameAsString(); o["file"]=fileOf(R->getLocation()); o["l"]=lineOf(R->getLocation());
        J::Array f; for (auto*x: R->fields()) { J::Object fo; fo["n"]=x->getNameAsString(); fo["t"]=T(x->getType()); if (x->hasInClassInitializer() && x->getInClassInitializer()) fo["init"]=S(x->getInClassInitializer()); f.push_back(std::move(fo)); }
        o["f"]=std::move(f);
        if (auto*CR=dyn_cast<CXXRecordDecl>(R)) {
            J::Array b; for (auto&x: CR->bases()) b.push_back(T(x.getType())); o["b"]=std::move(b);
            J::Array m; for (auto*x: CR->methods()) { J::Object mo=fref(x); mo["acc"]=(int)x->getAccess(); if (x->isPureVirtual()) mo["pure"]=true; J::Array ov; for (auto*y: x->overridden_methods()) ov.push_back(fname(y)); if(!ov.empty()) mo["ov"]=std::move(ov); m.push_back(std::move(mo)); }
            o["m"]=std::move(m);
            if (CR->isAbstract()) o["abs"]=true;
            if (CR->isUnion()) o["union"]=true;
        }
        records.push_back(std::move(o));
    }
    bool VisitRecordDecl(RecordDecl*R) { if (inRoot(R->getLocation()) && R->isCompleteDefinition() && !R->isDependentType()) { if (auto*CR=dyn_cast<CXXRecordDecl>(R)) if (CR->isLambda()) return true; expRecord(R);} return true; }
    bool VisitEnumDecl(EnumDecl*E_) { if (inRoot(E_->getLocation()) && E_->isCompleteDefinition() && !E_->isDependentType()) expEnum(E_); return true; }
    bool VisitFunctionDecl(FunctionDecl* F) {
        if (!F->isThisDeclarationADefinition() || !F->doesThisDeclarationHaveABody()) return true;
        if (F->isDependentContext() || F->isTemplated()) return true;
        if (!inRoot(F->getLocation())) return true;
        if (auto*M=dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;
        if (!doneF.insert(F).second) return true;
        J::Object o=fref(F); o["file"]=fileOf(F->getLocation()); o["l"]=lineOf(F->getLocation()); o["el"]=lineOf(F->getEndLoc());
        J::Array ps; for (auto*p: F->parameters()) ps.push_back(var(p)); o["p"]=std::move(ps);
        if (auto*K=dyn_cast<CXXConstructorDecl>(F)) {
            o["ctor"]=true; J::Array a;
            for (auto*i: K->inits()) { J::Object io; if (i->isAnyMemberInitializer()) io["m"]=i->getAnyMember()->getNameAsString(); else if (i->isBaseInitializer()) io["b"]=T(QualType(i->getBaseClass(),0)); else io["d"]=true;
                if (i->getInit()) io["e"]=S(i->getInit()); a.push_back(std::move(io)); }
            o["inits"]=std::move(a);
            if (K->isCopyConstructor()) o["cc"]="copy"; else if (K->isMoveConstructor()) o["cc"]="move"; else if (K->isDefaultConstructor()) o["cc"]="default";
        }
        if (auto*M=dyn_cast<CXXMethodDecl>(F)) { J::Array ov; for (auto*y: M->overridden_methods()) ov.push_back(fname(y)); if(!ov.empty()) o["ov"]=std::move(ov); }
        o["body"]=S(F->getBody());
        funcs.push_back(std::move(o));
        return true;
    }
    void finish() {
        for (size_t i=0;i<recQueue.size();++i) { auto*R=recQueue[i]; if (auto*CR=dyn_cast<CXXRecordDecl>(R)) if (CR->isLambda()) continue; expRecord(R); }
        J::Object o; o["tu"]=tu; o["types"]=J::Array(std::move(types)); o["funcs"]=J::Array(std::move(funcs)); o["records"]=J::Array(std::move(records)); o["enums"]=J::Array(std::move(enums)); o["globals"]=J::Array(std::move(globals));
        std::error_code ec; llvm::raw_fd_ostream os(OutFile, ec); os << J::Value(std::move(o)); os.close();
    }
};
struct Cons : ASTConsumer { std::string tu; Cons(std::string t):tu(t){} 
    void HandleTranslationUnit(ASTContext &C) override { if (C.getDiagnostics().hasErrorOccurred()) return; Exporter x(C,tu); x.TraverseDecl(C.getTranslationUnitDecl()); x.finish(); } };
struct Act : ASTFrontendAction { std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef f) override { CI.getDiagnostics().setIgnoreAllWarnings(true); return std::make_unique<Cons>(f.str()); } };
int main(int argc, const char**argv) {
    // usage: mxast ROOT OUT FILE -- flags...
    if (argc<5) { std::cerr<<"usage\n"; return 2; }
    Root=argv[1]; OutFile=argv[2]; std::string file=argv[3];
    std::vector<std::string> flags; for(int i=5;i<argc;++i) flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", flags);
    tooling::ClangTool tool(db, {file});
    return tool.run(tooling::newFrontendActionFactory<Act>().get());
}
