// Fact extractor: parses C++ sources with clang and prints, as JSON lines, the
// resolved syntax of every function, record, enum and global defined under
// the root directory.  All rules live in /verif/lib and /verif/checks.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <map>
#include <set>
#include <string>

using namespace clang;
using std::string;

static string Root;          // only decls below this directory are printed
static bool MainOnly = false; // only decls of the main file
static std::unique_ptr<llvm::raw_fd_ostream> Out;

static void esc(string &o, llvm::StringRef s) {
    o += '"';
    for (unsigned char c : s) {
        switch (c) {
        case '"': o += "\\\""; break;
        case '\\': o += "\\\\"; break;
        case '\n': o += "\\n"; break;
        case '\t': o += "\\t"; break;
        case '\r': o += "\\r"; break;
        default:
            if (c < 0x20 || c >= 0x7f) {
                char b[8];
                snprintf(b, sizeof b, "\\u%04x", c);
                o += b;
            } else
                o += c;
        }
    }
    o += '"';
}

struct W { // tiny JSON writer
    string o;
    bool first = true;
    void open() { o += '{'; first = true; }
    void close() { o += '}'; first = false; }
    void key(const char *k) {
        if (!first) o += ',';
        first = false;
        o += '"'; o += k; o += "\":";
    }
    void s(const char *k, llvm::StringRef v) { key(k); esc(o, v); }
    void i(const char *k, long long v) { key(k); o += std::to_string(v); }
    void b(const char *k, bool v) { key(k); o += v ? "true" : "false"; }
};

class Emitter {
public:
    ASTContext &Ctx;
    SourceManager &SM;
    PrintingPolicy PP;
    W w;
    std::map<const void *, int> ids;
    std::map<const Type *, string> tcache;

    Emitter(ASTContext &C) : Ctx(C), SM(C.getSourceManager()), PP(C.getPrintingPolicy()) {
        PP.SuppressTagKeyword = true;
        PP.Bool = true;
        PP.FullyQualifiedName = true;
        PP.PrintCanonicalTypes = true;
        PP.SuppressUnwrittenScope = true;
        PP.SuppressDefaultTemplateArgs = true;
    }

    int id(const void *p) {
        auto it = ids.find(p);
        if (it != ids.end()) return it->second;
        int n = ids.size() + 1;
        ids[p] = n;
        return n;
    }
    string ty(QualType T) {
        if (T.isNull()) return "";
        auto C = T.getCanonicalType();
        string r = C.getAsString(PP);
        if (r.size() > 300) {
            bool amp = r.back() == '&';
            r.resize(300);
            if (amp) r += " &";
        }
        return r;
    }
    int line(SourceLocation L) { return L.isValid() ? SM.getExpansionLineNumber(L) : 0; }
    string file(SourceLocation L) {
        if (L.isInvalid()) return "";
        return SM.getFilename(SM.getExpansionLoc(L)).str();
    }
    static string qn(const NamedDecl *D) {
        string s;
        llvm::raw_string_ostream os(s);
        PrintingPolicy P(D->getASTContext().getPrintingPolicy());
        P.SuppressUnwrittenScope = true;
        D->printQualifiedName(os, P);
        return s;
    }
    string usr(const Decl *D) {
        llvm::SmallString<128> B;
        if (index::generateUSRForDecl(D, B)) return "";
        return string(B.str());
    }

    // ---------------------------------------------------------------- exprs
    const Expr *skip(const Expr *E) {
        while (E) {
            if (auto *X = dyn_cast<ParenExpr>(E)) E = X->getSubExpr();
            else if (auto *X = dyn_cast<FullExpr>(E)) E = X->getSubExpr();
            else if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) E = X->getSubExpr();
            else if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) E = X->getSubExpr();
            else if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) E = X->getSubExpr();
            else if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = X->getReplacement();
            else if (auto *X = dyn_cast<CXXRewrittenBinaryOperator>(E)) E = X->getSemanticForm();
            else if (auto *X = dyn_cast<OpaqueValueExpr>(E)) { if (!X->getSourceExpr()) return E; E = X->getSourceExpr(); }
            else if (auto *X = dyn_cast<ImplicitCastExpr>(E)) {
                switch (X->getCastKind()) {
                case CK_IntegralCast: case CK_IntegralToFloating: case CK_FloatingToIntegral: case CK_FloatingCast:
                case CK_IntegralToBoolean: case CK_PointerToBoolean: case CK_FloatingToBoolean:
                    return E;
                default: E = X->getSubExpr();
                }
            } else if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
                // copy / move construction and single argument conversions of the same class are transparent
                auto *CD = X->getConstructor();
                if (X->getNumArgs() >= 1 && CD->isCopyOrMoveConstructor() && !isa<CXXTemporaryObjectExpr>(X)) E = X->getArg(0);
                else return E;
            } else return E;
        }
        return E;
    }

    void child(const char *k, const Expr *E) { w.key(k); expr(E); }
    template<class R> void list(const char *k, R &&r) {
        w.key(k);
        w.o += '[';
        bool f = true;
        for (auto *E : r) {
            if (!f) w.o += ',';
            f = false;
            expr(E);
        }
        w.o += ']';
        w.first = false;
    }
    void declref(const ValueDecl *D) {
        w.s("n", D->getNameAsString());
        if (isa<ParmVarDecl>(D)) { w.s("d", "param"); w.i("id", id(D->getCanonicalDecl())); }
        else if (auto *V = dyn_cast<VarDecl>(D)) {
            if (V->isLocalVarDecl()) { w.s("d", V->isStaticLocal() ? "slocal" : "local"); w.i("id", id(D->getCanonicalDecl())); }
            else { w.s("d", "global"); w.s("q", qn(D)); }
            if (V->getTLSKind() != VarDecl::TLS_None) w.b("tls", true);
        } else if (isa<FunctionDecl>(D)) { w.s("d", "func"); w.s("q", qn(D)); w.s("u", usr(D)); }
        else if (isa<EnumConstantDecl>(D)) { w.s("d", "enum"); w.s("q", qn(D)); }
        else if (isa<BindingDecl>(D)) { w.s("d", "local"); w.i("id", id(D->getCanonicalDecl())); }
        else if (isa<FieldDecl>(D)) { w.s("d", "field"); w.s("q", qn(D)); }
        else { w.s("d", "other"); w.s("q", qn(D)); }
    }
    void constval(const Expr *E) {
        if (E->isValueDependent() || E->isTypeDependent()) return;
        if (!E->getType()->isIntegralOrEnumerationType()) return;
        Expr::EvalResult R;
        if (E->EvaluateAsInt(R, Ctx, Expr::SE_NoSideEffects)) w.s("cv", llvm::toString(R.Val.getInt(), 10));
    }
    void expr(const Expr *E0) {
        const Expr *E = skip(E0);
        if (!E) { w.o += "null"; w.first = false; return; }
        w.open();
        expr0(E);
        w.i("l", line(E->getExprLoc().isValid() ? E->getExprLoc() : E->getBeginLoc()));
        w.close();
    }
    void targs(const FunctionDecl *F) {
        if (auto *A = F->getTemplateSpecializationArgs()) {
            w.key("ta");
            w.o += '[';
            bool f = true;
            for (auto &X : A->asArray()) {
                if (X.getKind() == TemplateArgument::Type) { if (!f) w.o += ','; f = false; esc(w.o, ty(X.getAsType())); }
                else if (X.getKind() == TemplateArgument::Integral) { if (!f) w.o += ','; f = false; esc(w.o, llvm::toString(X.getAsIntegral(), 10)); }
            }
            w.o += ']';
            w.first = false;
        }
    }
    void callee(const FunctionDecl *F) {
        w.s("q", qn(F));
        w.s("u", usr(F));
        targs(F);
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
            if (M->isVirtual()) w.b("virt", true);
            if (M->isStatic()) w.b("static", true);
            if (M->isConst()) w.b("mconst", true);
        }
        {   // positions of arguments the callee may write through
            string m;
            for (unsigned i = 0; i < F->getNumParams(); i++) {
                QualType T = F->getParamDecl(i)->getType();
                bool wr = (T->isLValueReferenceType() && !T->getPointeeType().isConstQualified()) ||
                          (T->isPointerType() && !T->getPointeeType().isConstQualified());
                if (wr) { if (!m.empty()) m += ','; m += std::to_string(i); }
            }
            if (!m.empty()) { w.key("wr"); w.o += '[' + m + ']'; w.first = false; }
        }
        if (F->isNoReturn()) w.b("noret", true);
    }
    void expr0(const Expr *E) {
        if (auto *X = dyn_cast<DeclRefExpr>(E)) {
            w.s("k", "ref");
            declref(X->getDecl());
            w.s("t", ty(X->getType()));
            constval(E);
            return;
        }
        if (auto *X = dyn_cast<MemberExpr>(E)) {
            w.s("k", "mem");
            w.s("n", X->getMemberDecl()->getNameAsString());
            w.s("q", qn(X->getMemberDecl()));
            w.s("t", ty(X->getType()));
            if (isa<CXXMethodDecl>(X->getMemberDecl())) w.b("method", true);
            child("b", X->getBase());
            return;
        }
        if (isa<CXXThisExpr>(E)) { w.s("k", "this"); w.s("t", ty(E->getType())); return; }
        if (auto *X = dyn_cast<IntegerLiteral>(E)) { w.s("k", "int"); w.s("v", llvm::toString(X->getValue(), 10, X->getType()->isSignedIntegerType())); w.s("t", ty(E->getType())); return; }
        if (auto *X = dyn_cast<CharacterLiteral>(E)) { w.s("k", "char"); w.i("v", X->getValue()); return; }
        if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) { w.s("k", "bool"); w.b("v", X->getValue()); return; }
        if (auto *X = dyn_cast<FloatingLiteral>(E)) { w.s("k", "float"); llvm::SmallString<32> S; X->getValue().toString(S, 17); w.s("v", S); return; }
        if (auto *X = dyn_cast<StringLiteral>(E)) { w.s("k", "str"); w.s("v", X->getCharByteWidth() == 1 ? X->getString() : llvm::StringRef("")); return; }
        if (auto *X = dyn_cast<PredefinedExpr>(E)) { w.s("k", "str"); w.s("v", X->getFunctionName() ? X->getFunctionName()->getString() : ""); return; }
        if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { w.s("k", "null"); return; }
        if (auto *X = dyn_cast<UserDefinedLiteral>(E)) {
            w.s("k", "call");
            if (auto *F = dyn_cast_or_null<FunctionDecl>(X->getCalleeDecl())) callee(F);
            w.s("t", ty(E->getType()));
            list("a", X->arguments());
            return;
        }
        if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
            w.s("k", "call");
            w.s("op", getOperatorSpelling(X->getOperator()));
            if (auto *F = dyn_cast_or_null<FunctionDecl>(X->getCalleeDecl())) callee(F);
            w.s("t", ty(E->getType()));
            list("a", X->arguments());
            return;
        }
        if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
            w.s("k", "call");
            if (auto *M = X->getMethodDecl()) callee(M);
            w.s("t", ty(E->getType()));
            if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParenImpCasts())) {
                child("r", ME->getBase());
                if (ME->hasQualifier()) w.b("qual", true);
            } else child("fn", X->getCallee());
            list("a", X->arguments());
            return;
        }
        if (auto *X = dyn_cast<CallExpr>(E)) {
            w.s("k", "call");
            if (auto *F = X->getDirectCallee()) callee(F);
            else child("fn", X->getCallee());
            w.s("t", ty(E->getType()));
            constval(E);
            list("a", X->arguments());
            return;
        }
        if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
            w.s("k", "ctor");
            w.s("q", qn(X->getConstructor()->getParent()));
            w.s("u", usr(X->getConstructor()));
            w.s("t", ty(E->getType()));
            if (X->getNumArgs() > 0 && X->getConstructor()->isDefaultConstructor()) {}
            list("a", X->arguments());
            return;
        }
        if (auto *X = dyn_cast<BinaryOperator>(E)) {
            w.s("k", "bin");
            w.s("op", X->getOpcodeStr());
            w.s("t", ty(E->getType()));
            if (auto *CA = dyn_cast<CompoundAssignOperator>(E)) w.s("ct", ty(CA->getComputationResultType()));
            constval(E);
            child("x", X->getLHS());
            child("y", X->getRHS());
            return;
        }
        if (auto *X = dyn_cast<UnaryOperator>(E)) {
            w.s("k", "un");
            w.s("op", UnaryOperator::getOpcodeStr(X->getOpcode()));
            if (X->isPostfix()) w.b("post", true);
            w.s("t", ty(E->getType()));
            constval(E);
            child("x", X->getSubExpr());
            return;
        }
        if (auto *X = dyn_cast<CastExpr>(E)) {
            w.s("k", "cast");
            w.s("ck", X->getCastKindName());
            if (isa<ImplicitCastExpr>(X)) w.b("imp", true);
            if (isa<CXXDynamicCastExpr>(X)) w.b("dyn", true);
            if (isa<CXXReinterpretCastExpr>(X)) w.b("rei", true);
            w.s("t", ty(E->getType()));
            w.s("ft", ty(X->getSubExpr()->getType()));
            constval(E);
            child("x", X->getSubExpr());
            return;
        }
        if (auto *X = dyn_cast<ConditionalOperator>(E)) {
            w.s("k", "cond");
            w.s("t", ty(E->getType()));
            child("c", X->getCond());
            child("x", X->getTrueExpr());
            child("y", X->getFalseExpr());
            return;
        }
        if (auto *X = dyn_cast<BinaryConditionalOperator>(E)) {
            w.s("k", "cond");
            child("c", X->getCommon());
            child("x", X->getCommon());
            child("y", X->getFalseExpr());
            return;
        }
        if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
            w.s("k", "idx");
            w.s("t", ty(E->getType()));
            child("x", X->getBase());
            child("y", X->getIdx());
            return;
        }
        if (auto *X = dyn_cast<InitListExpr>(E)) {
            w.s("k", "list");
            w.s("t", ty(E->getType()));
            if (!X->isSemanticForm() && X->getSemanticForm()) X = X->getSemanticForm();
            list("a", X->inits());
            return;
        }
        if (auto *X = dyn_cast<DesignatedInitExpr>(E)) { w.s("k", "desig"); child("x", X->getInit()); return; }
        if (auto *X = dyn_cast<CXXNewExpr>(E)) {
            w.s("k", "new");
            w.s("t", ty(X->getAllocatedType()));
            if (X->getInitializer()) child("x", X->getInitializer());
            if (X->isArray() && X->getArraySize()) child("n", *X->getArraySize());
            return;
        }
        if (auto *X = dyn_cast<CXXDeleteExpr>(E)) { w.s("k", "delete"); child("x", X->getArgument()); return; }
        if (auto *X = dyn_cast<CXXThrowExpr>(E)) {
            w.s("k", "throw");
            if (X->getSubExpr()) { w.s("t", ty(X->getSubExpr()->getType())); child("x", X->getSubExpr()); }
            return;
        }
        if (auto *X = dyn_cast<LambdaExpr>(E)) {
            w.s("k", "lambda");
            w.key("ps"); w.o += '['; bool f = true;
            for (auto *P : X->getCallOperator()->parameters()) {
                if (!f) w.o += ','; f = false;
                w.open(); w.s("n", P->getNameAsString()); w.i("id", id(P->getCanonicalDecl())); w.s("t", ty(P->getType())); w.close();
            }
            w.o += ']'; w.first = false;
            w.key("body"); stmt(X->getBody());
            return;
        }
        if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) { w.s("k", "defarg"); child("x", X->getExpr()); return; }
        if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) { w.s("k", "defarg"); child("x", X->getExpr()); return; }
        if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
            w.s("k", "sizeof");
            w.s("t", X->isArgumentType() ? ty(X->getArgumentType()) : ty(X->getArgumentExpr()->getType()));
            constval(E);
            return;
        }
        if (auto *X = dyn_cast<CXXTypeidExpr>(E)) {
            w.s("k", "typeid");
            if (X->isTypeOperand()) w.s("t", ty(X->getTypeOperand(Ctx)));
            else child("x", X->getExprOperand());
            return;
        }
        if (auto *X = dyn_cast<CXXScalarValueInitExpr>(E)) { w.s("k", "zero"); w.s("t", ty(X->getType())); return; }
        if (isa<ImplicitValueInitExpr>(E)) { w.s("k", "zero"); w.s("t", ty(E->getType())); return; }
        if (auto *X = dyn_cast<StmtExpr>(E)) { w.s("k", "stmtexpr"); w.key("body"); stmt(X->getSubStmt()); return; }
        if (auto *X = dyn_cast<CXXDependentScopeMemberExpr>(E)) {
            w.s("k", "mem"); w.s("n", X->getMember().getAsString()); w.s("q", X->getMember().getAsString()); w.b("dep", true);
            if (!X->isImplicitAccess()) child("b", X->getBase()); else { w.key("b"); w.o += "{\"k\":\"this\",\"l\":0}"; w.first = false; }
            return;
        }
        if (auto *X = dyn_cast<UnresolvedLookupExpr>(E)) { w.s("k", "ref"); w.s("d", "unres"); w.s("n", X->getName().getAsString()); w.s("q", X->getName().getAsString()); return; }
        if (auto *X = dyn_cast<UnresolvedMemberExpr>(E)) {
            w.s("k", "mem"); w.s("n", X->getMemberName().getAsString()); w.s("q", X->getMemberName().getAsString()); w.b("dep", true);
            if (!X->isImplicitAccess()) child("b", X->getBase()); else { w.key("b"); w.o += "{\"k\":\"this\",\"l\":0}"; w.first = false; }
            return;
        }
        if (auto *X = dyn_cast<DependentScopeDeclRefExpr>(E)) { w.s("k", "ref"); w.s("d", "unres"); w.s("n", X->getDeclName().getAsString()); w.s("q", X->getDeclName().getAsString()); return; }
        if (auto *X = dyn_cast<CXXUnresolvedConstructExpr>(E)) { w.s("k", "ctor"); w.s("t", ty(X->getTypeAsWritten())); w.s("q", ty(X->getTypeAsWritten())); list("a", X->arguments()); return; }
        if (auto *X = dyn_cast<ParenListExpr>(E)) { w.s("k", "list"); list("a", const_cast<ParenListExpr *>(X)->exprs()); return; }
        if (auto *X = dyn_cast<PackExpansionExpr>(E)) { w.s("k", "pack"); child("x", X->getPattern()); return; }
        if (auto *X = dyn_cast<CXXFoldExpr>(E)) { w.s("k", "fold"); child("x", X->getPattern()); return; }
        w.s("k", "other");
        w.s("n", E->getStmtClassName());
        constval(E);
        w.key("a"); w.o += '['; bool f = true;
        for (auto *C : E->children())
            if (auto *CE = dyn_cast_or_null<Expr>(C)) { if (!f) w.o += ','; f = false; expr(CE); }
        w.o += ']'; w.first = false;
    }

    // ---------------------------------------------------------------- stmts
    void vardecl(const VarDecl *V) {
        w.open();
        w.s("n", V->getNameAsString());
        w.i("id", id(V->getCanonicalDecl()));
        w.s("t", ty(V->getType()));
        if (V->isStaticLocal()) w.b("static", true);
        w.i("l", line(V->getLocation()));
        if (V->getInit()) child("init", V->getInit());
        if (auto *D = dyn_cast<DecompositionDecl>(V)) {
            w.key("bind"); w.o += '['; bool f = true;
            for (auto *B : D->bindings()) {
                if (!f) w.o += ','; f = false;
                w.open(); w.s("n", B->getNameAsString()); w.i("id", id(B->getCanonicalDecl())); w.close();
            }
            w.o += ']'; w.first = false;
        }
        w.close();
    }
    void stmts(const char *k, const Stmt *S) { w.key(k); stmt(S); }
    void stmt(const Stmt *S) {
        if (!S) { w.o += "null"; w.first = false; return; }
        if (auto *E = dyn_cast<Expr>(S)) {
            w.open(); w.s("s", "expr"); child("e", E); w.i("l", line(S->getBeginLoc())); w.close();
            return;
        }
        if (auto *A = dyn_cast<AttributedStmt>(S)) { stmt(A->getSubStmt()); return; }
        w.open();
        w.i("l", line(S->getBeginLoc()));
        if (auto *X = dyn_cast<CompoundStmt>(S)) {
            w.s("s", "block");
            w.i("el", line(X->getEndLoc()));
            w.key("b"); w.o += '['; bool f = true;
            for (auto *C : X->body()) { if (!f) w.o += ','; f = false; stmt(C); }
            w.o += ']'; w.first = false;
        } else if (auto *X = dyn_cast<DeclStmt>(S)) {
            w.s("s", "decl");
            w.key("v"); w.o += '['; bool f = true;
            for (auto *D : X->decls())
                if (auto *V = dyn_cast<VarDecl>(D)) { if (!f) w.o += ','; f = false; vardecl(V); }
            w.o += ']'; w.first = false;
        } else if (auto *X = dyn_cast<IfStmt>(S)) {
            w.s("s", "if");
            if (X->isConstexpr()) w.b("cx", true);
            if (X->getInit()) stmts("init", X->getInit());
            if (auto *V = X->getConditionVariable()) { w.key("cv"); vardecl(V); }
            child("c", X->getCond());
            stmts("then", X->getThen());
            if (X->getElse()) stmts("else", X->getElse());
        } else if (auto *X = dyn_cast<ForStmt>(S)) {
            w.s("s", "for");
            if (X->getInit()) stmts("init", X->getInit());
            if (X->getCond()) child("c", X->getCond());
            if (X->getInc()) child("inc", X->getInc());
            stmts("b", X->getBody());
        } else if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
            w.s("s", "frange");
            if (X->getInit()) stmts("init", X->getInit());
            w.key("v"); vardecl(X->getLoopVariable());
            child("r", X->getRangeInit());
            stmts("b", X->getBody());
        } else if (auto *X = dyn_cast<WhileStmt>(S)) {
            w.s("s", "while");
            if (auto *V = X->getConditionVariable()) { w.key("cv"); vardecl(V); }
            child("c", X->getCond());
            stmts("b", X->getBody());
        } else if (auto *X = dyn_cast<DoStmt>(S)) {
            w.s("s", "do");
            child("c", X->getCond());
            stmts("b", X->getBody());
        } else if (auto *X = dyn_cast<SwitchStmt>(S)) {
            w.s("s", "switch");
            if (X->getInit()) stmts("init", X->getInit());
            if (auto *V = X->getConditionVariable()) { w.key("cv"); vardecl(V); }
            child("c", X->getCond());
            stmts("b", X->getBody());
        } else if (auto *X = dyn_cast<CaseStmt>(S)) {
            w.s("s", "case");
            child("v", X->getLHS());
            if (X->getRHS()) child("v2", X->getRHS());
            stmts("b", X->getSubStmt());
        } else if (auto *X = dyn_cast<DefaultStmt>(S)) {
            w.s("s", "default");
            stmts("b", X->getSubStmt());
        } else if (isa<BreakStmt>(S)) w.s("s", "break");
        else if (isa<ContinueStmt>(S)) w.s("s", "continue");
        else if (auto *X = dyn_cast<ReturnStmt>(S)) {
            w.s("s", "return");
            if (X->getRetValue()) child("e", X->getRetValue());
        } else if (auto *X = dyn_cast<CXXTryStmt>(S)) {
            w.s("s", "try");
            stmts("b", X->getTryBlock());
            w.key("h"); w.o += '[';
            for (unsigned i = 0; i < X->getNumHandlers(); i++) {
                if (i) w.o += ',';
                auto *H = X->getHandler(i);
                w.open();
                w.s("t", H->getExceptionDecl() ? ty(H->getCaughtType()) : "...");
                if (H->getExceptionDecl()) w.i("id", id(H->getExceptionDecl()->getCanonicalDecl()));
                stmts("b", H->getHandlerBlock());
                w.close();
            }
            w.o += ']'; w.first = false;
        } else if (auto *X = dyn_cast<LabelStmt>(S)) { w.s("s", "label"); w.s("n", X->getName()); stmts("b", X->getSubStmt()); }
        else if (auto *X = dyn_cast<GotoStmt>(S)) { w.s("s", "goto"); w.s("n", X->getLabel()->getName()); }
        else if (isa<NullStmt>(S)) w.s("s", "null");
        else {
            w.s("s", "other");
            w.s("n", S->getStmtClassName());
        }
        w.close();
    }
    void flush() { w.o += '\n'; *Out << w.o; w.o.clear(); w.first = true; }

    // ---------------------------------------------------------------- decls
    bool wanted(const Decl *D) {
        SourceLocation L = SM.getExpansionLoc(D->getLocation());
        if (L.isInvalid()) return false;
        if (MainOnly) return SM.isInMainFile(L);
        llvm::StringRef F = SM.getFilename(L);
        llvm::SmallString<256> P(F);
        SM.getFileManager().makeAbsolutePath(P);
        return P.str().starts_with(Root) || P.str().find("/tus/") != string::npos;
    }
    string absfile(SourceLocation L) {
        llvm::SmallString<256> P(SM.getFilename(SM.getExpansionLoc(L)));
        SM.getFileManager().makeAbsolutePath(P);
        llvm::sys::path::remove_dots(P, true);
        return string(P.str());
    }
    void function(const FunctionDecl *F) {
        w.open();
        w.s("D", "fn");
        w.s("q", qn(F));
        w.s("u", usr(F));
        w.s("n", F->getNameAsString());
        w.s("file", absfile(F->getLocation()));
        w.i("l", line(F->getLocation()));
        w.i("el", line(F->getEndLoc()));
        w.s("t", ty(F->getReturnType()));
        if (F->getTemplatedKind() == FunctionDecl::TK_FunctionTemplate || F->isDependentContext()) w.b("dep", true);
        if (F->isTemplateInstantiation()) w.b("inst", true);
        if (F->isExternC()) w.b("externc", true);
        if (F->getFormalLinkage() == Linkage::Internal) w.b("internal", true);
        targs(F);
        w.key("ps"); w.o += '['; bool f = true;
        for (auto *P : F->parameters()) {
            if (!f) w.o += ','; f = false;
            w.open(); w.s("n", P->getNameAsString()); w.i("id", id(P->getCanonicalDecl())); w.s("t", ty(P->getType()));
            if (P->hasDefaultArg() && !P->hasUninstantiatedDefaultArg() && !P->hasUnparsedDefaultArg()) child("def", P->getDefaultArg());
            w.close();
        }
        w.o += ']'; w.first = false;
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
            w.s("cls", qn(M->getParent()));
            if (M->isVirtual()) w.b("virt", true);
            if (M->isStatic()) w.b("static", true);
            if (M->isConst()) w.b("const", true);
            w.s("acc", M->getAccess() == AS_public ? "public" : M->getAccess() == AS_protected ? "protected" : "private");
            if (M->size_overridden_methods()) {
                w.key("over"); w.o += '['; bool g = true;
                for (auto *O : M->overridden_methods()) { if (!g) w.o += ','; g = false; esc(w.o, usr(O)); }
                w.o += ']'; w.first = false;
            }
            if (auto *C = dyn_cast<CXXConstructorDecl>(F)) {
                w.b("ctor", true);
                w.key("inits"); w.o += '['; bool g = true;
                for (auto *I : C->inits()) {
                    if (!g) w.o += ','; g = false;
                    w.open();
                    if (I->isAnyMemberInitializer()) w.s("f", I->getAnyMember()->getNameAsString());
                    else if (I->isBaseInitializer()) w.s("base", ty(QualType(I->getBaseClass(), 0)));
                    else w.b("deleg", true);
                    if (I->isWritten()) w.b("written", true);
                    child("e", I->getInit());
                    w.close();
                }
                w.o += ']'; w.first = false;
            }
            if (isa<CXXDestructorDecl>(F)) w.b("dtor", true);
        }
        if (F->isPureVirtual()) w.b("pure", true);
        if (F->isDeleted()) w.b("deleted", true);
        if (F->isDefaulted()) w.b("defaulted", true);
        if (F->isThisDeclarationADefinition() && F->hasBody()) stmts("body", F->getBody());
        w.close();
        flush();
    }
    void record(const CXXRecordDecl *R) {
        w.open();
        w.s("D", "rec");
        w.s("q", qn(R));
        w.s("file", absfile(R->getLocation()));
        w.i("l", line(R->getLocation()));
        w.s("t", ty(QualType(R->getTypeForDecl(), 0)));
        if (R->isDependentContext()) w.b("dep", true);
        else if (R->isAbstract()) w.b("abstract", true);
        w.key("bases"); w.o += '['; bool f = true;
        for (auto &B : R->bases()) { if (!f) w.o += ','; f = false; esc(w.o, ty(B.getType())); }
        w.o += ']'; w.first = false;
        w.key("fields"); w.o += '['; f = true;
        for (auto *D : R->fields()) {
            if (!f) w.o += ','; f = false;
            w.open();
            w.s("n", D->getNameAsString());
            w.s("t", ty(D->getType()));
            w.s("wt", D->getType().getAsString());
            if (D->isMutable()) w.b("mutable", true);
            if (auto *I = D->getInClassInitializer()) child("init", I);
            w.i("l", line(D->getLocation()));
            w.close();
        }
        w.o += ']'; w.first = false;
        w.key("methods"); w.o += '['; f = true;
        for (auto *M : R->methods()) {
            if (M->isImplicit()) continue;
            if (!f) w.o += ','; f = false;
            w.open(); w.s("n", M->getNameAsString()); w.s("u", usr(M));
            if (M->isVirtual()) w.b("virt", true);
            if (M->isPureVirtual()) w.b("pure", true);
            w.s("acc", M->getAccess() == AS_public ? "public" : M->getAccess() == AS_protected ? "protected" : "private");
            w.s("t", ty(M->getReturnType()));
            w.close();
        }
        w.o += ']'; w.first = false;
        w.close();
        flush();
    }
};

class V : public RecursiveASTVisitor<V> {
public:
    Emitter &E;
    explicit V(Emitter &E) : E(E) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    bool VisitFunctionDecl(FunctionDecl *F) {
        if (!E.wanted(F)) return true;
        if (auto *M = dyn_cast<CXXMethodDecl>(F))
            if (M->getParent()->isLambda()) return true;
        if (F->isImplicit()) return true;
        if (F->isThisDeclarationADefinition() || F->isPureVirtual() || F->isExternC()) E.function(F);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl *R) {
        if (!R->isThisDeclarationADefinition() || R->isLambda() || !E.wanted(R)) return true;
        E.record(R);
        return true;
    }
    bool VisitEnumDecl(EnumDecl *D) {
        if (!D->isThisDeclarationADefinition() || !E.wanted(D)) return true;
        auto &w = E.w;
        w.open();
        w.s("D", "enum");
        w.s("q", Emitter::qn(D));
        w.s("file", E.absfile(D->getLocation()));
        w.i("l", E.line(D->getLocation()));
        w.key("consts"); w.o += '['; bool f = true;
        for (auto *C : D->enumerators()) {
            if (!f) w.o += ','; f = false;
            w.o += '['; esc(w.o, C->getNameAsString()); w.o += ',';
            w.o += llvm::toString(C->getInitVal(), 10); w.o += ']';
        }
        w.o += ']'; w.first = false;
        w.close();
        E.flush();
        return true;
    }
    bool VisitVarDecl(VarDecl *D) {
        if (D->isLocalVarDeclOrParm() || !E.wanted(D)) return true;
        auto &w = E.w;
        w.open();
        w.s("D", "var");
        w.s("q", Emitter::qn(D));
        w.s("file", E.absfile(D->getLocation()));
        w.i("l", E.line(D->getLocation()));
        w.s("t", E.ty(D->getType()));
        if (D->isThisDeclarationADefinition() == VarDecl::DeclarationOnly) w.b("decl", true);
        if (D->getInit()) E.child("init", D->getInit());
        w.close();
        E.flush();
        return true;
    }
};

class C : public ASTConsumer {
    void HandleTranslationUnit(ASTContext &Ctx) override {
        Emitter E(Ctx);
        {
            auto &w = E.w;
            w.open();
            w.s("D", "tu");
            auto &SM = Ctx.getSourceManager();
            w.s("file", SM.getFileEntryRefForID(SM.getMainFileID())->getName());
            w.i("errors", Ctx.getDiagnostics().getClient()->getNumErrors());
            w.close();
            E.flush();
        }
        V v(E);
        v.TraverseDecl(Ctx.getTranslationUnitDecl());
    }
};
class A : public ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override { return std::make_unique<C>(); }
};

// usage: extract OUT ROOT [--main] FILE -- flags...
int main(int argc, char **argv) {
    if (argc < 5) return 2;
    std::error_code EC;
    Out = std::make_unique<llvm::raw_fd_ostream>(argv[1], EC);
    if (EC) return 2;
    Root = argv[2];
    int i = 3;
    if (string(argv[i]) == "--main") { MainOnly = true; i++; }
    string File = argv[i++];
    std::vector<string> Flags;
    if (i < argc && string(argv[i]) == "--") i++;
    for (; i < argc; i++) Flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase DB(".", Flags);
    tooling::ClangTool T(DB, {File});
    int rc = T.run(tooling::newFrontendActionFactory<A>().get());
    Out->flush();
    return rc;
}
