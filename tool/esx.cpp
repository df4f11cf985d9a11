// esx: dumps a normalised, resolved view of one translation unit as JSON.
//
// For every function defined in the analysed source tree it writes the expression tree (implicit
// casts, parentheses and temporaries removed, every callee/field/variable resolved), the control flow graph with
// every sub-expression as an element in evaluation order, and implicit destructor calls. It also writes records,
// enums and global variables. Nothing is executed; the analyses in Python read this file.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

using namespace clang;
namespace json = llvm::json;

static std::string g_root;
static std::string g_out;

static std::string usrOf(const Decl* d)
{
    llvm::SmallString<256> buf;
    if (!d || index::generateUSRForDecl(d->getCanonicalDecl(), buf))
        return "";
    return std::string(buf);
}

struct Dumper
{
    ASTContext&                                ctx;
    SourceManager&                             sm;
    PrintingPolicy                             pp;
    std::vector<std::string>                   strs;
    std::unordered_map<std::string, unsigned>  strIdx;

    Dumper(ASTContext& c) : ctx(c), sm(c.getSourceManager()), pp(c.getLangOpts())
    {
        pp.SuppressTagKeyword = true;
        pp.Bool               = true;
        pp.FullyQualifiedName = true;
        pp.PrintCanonicalTypes = true;
    }

    unsigned S(const std::string& s)
    {
        auto it = strIdx.find(s);
        if (it != strIdx.end())
            return it->second;
        unsigned i = static_cast<unsigned>(strs.size());
        strs.push_back(s);
        strIdx[s] = i;
        return i;
    }

    std::unordered_map<const void*, unsigned> typeCache;
    unsigned T(QualType t)
    {
        if (t.isNull())
            return S("");
        const void* k = t.getAsOpaquePtr();
        auto        it = typeCache.find(k);
        if (it != typeCache.end())
            return it->second;
        std::string s = t.getCanonicalType().getAsString(pp);
        if (s.size() > 400)
            s.resize(400);
        unsigned r = S(s);
        typeCache[k] = r;
        return r;
    }

    std::string relFile(SourceLocation l)
    {
        l               = sm.getFileLoc(l);
        std::string f   = sm.getFilename(l).str();
        if (f.rfind(g_root, 0) == 0)
        {
            f = f.substr(g_root.size());
            while (!f.empty() && f[0] == '/')
                f = f.substr(1);
        }
        return f;
    }
    unsigned line(SourceLocation l)
    {
        return sm.getSpellingLineNumber(sm.getFileLoc(l));
    }
    bool inTree(SourceLocation l)
    {
        l = sm.getFileLoc(l);
        llvm::StringRef f = sm.getFilename(l);
        if (!f.starts_with(g_root))
            return false;
        f = f.drop_front(g_root.size());
        return f.contains("EnvironmentSimulator/") ;
    }
};

// strip nodes with no meaning of their own
static const Expr* stripE(const Expr* e)
{
    while (e)
    {
        if (auto* p = dyn_cast<ParenExpr>(e))
            e = p->getSubExpr();
        else if (auto* p = dyn_cast<ExprWithCleanups>(e))
            e = p->getSubExpr();
        else if (auto* p = dyn_cast<MaterializeTemporaryExpr>(e))
            e = p->getSubExpr();
        else if (auto* p = dyn_cast<CXXBindTemporaryExpr>(e))
            e = p->getSubExpr();
        else if (auto* p = dyn_cast<ConstantExpr>(e))
            e = p->getSubExpr();
        else if (auto* p = dyn_cast<FullExpr>(e))
            e = p->getSubExpr();
        else if (auto* p = dyn_cast<SubstNonTypeTemplateParmExpr>(e))
            e = p->getReplacement();
        else if (auto* p = dyn_cast<CXXDefaultArgExpr>(e))
            e = p->getExpr();
        else if (auto* p = dyn_cast<CXXDefaultInitExpr>(e))
            e = p->getExpr();
        else if (auto* p = dyn_cast<CXXStdInitializerListExpr>(e))
            e = p->getSubExpr();
        else if (auto* p = dyn_cast<ImplicitCastExpr>(e))
        {
            switch (p->getCastKind())
            {
                case CK_IntegralCast:
                case CK_FloatingCast:
                case CK_IntegralToFloating:
                case CK_FloatingToIntegral:
                    return e;
                default:
                    e = p->getSubExpr();
            }
        }
        else if (auto* p = dyn_cast<CXXConstructExpr>(e))
        {
            if (p->getNumArgs() == 1 && p->isElidable() && p->getConstructor()->isCopyOrMoveConstructor())
                e = p->getArg(0);
            else
                return e;
        }
        else if (auto* p = dyn_cast<CXXFunctionalCastExpr>(e))
        {
            if (p->getCastKind() == CK_ConstructorConversion)
                e = p->getSubExpr();
            else
                return e;
        }
        else
            return e;
    }
    return e;
}

struct FnDumper
{
    Dumper&                                     D;
    const FunctionDecl*                         fd;
    json::Array                                 nodes;
    std::unordered_map<const Stmt*, int>        ids;
    std::unordered_map<const VarDecl*, int>     vars;
    json::Array                                 varArr;
    std::vector<const LambdaExpr*>              lambdas;

    FnDumper(Dumper& d, const FunctionDecl* f) : D(d), fd(f)
    {
    }

    int varId(const VarDecl* v)
    {
        v = v->getCanonicalDecl();
        auto it = vars.find(v);
        if (it != vars.end())
            return it->second;
        int i = static_cast<int>(vars.size());
        vars[v] = i;
        const char* kind = "local";
        if (isa<ParmVarDecl>(v))
            kind = "param";
        else if (v->isStaticLocal())
            kind = "static";
        else if (v->isStaticDataMember())
            kind = "smember";
        else if (!v->isLocalVarDecl())
            kind = "global";
        std::string q = v->getNameAsString();
        if (kind[0] == 'g' || (kind[0] == 's' && kind[1] == 'm'))
            q = v->getQualifiedNameAsString();
        json::Object o;
        o["n"]  = D.S(q);
        o["k"]  = D.S(kind);
        o["t"]  = D.T(v->getType());
        o["l"]  = D.line(v->getLocation());
        if (v->hasAttr<CleanupAttr>())
            o["cleanup"] = true;
        if ((kind[0] == 'g' || kind[0] == 's'))
        {
            o["f"] = D.S(D.relFile(v->getLocation()));
            o["u"] = D.S(usrOf(v));
        }
        // variable captured by a lambda: owner differs from the current function
        if (const auto* owner = dyn_cast<FunctionDecl>(v->getDeclContext()))
        {
            if (owner->getCanonicalDecl() != fd->getCanonicalDecl() && kind[0] != 'g')
                o["outer"] = D.S(usrOf(owner));
        }
        varArr.push_back(std::move(o));
        return i;
    }

    // add a node; children given as ids
    int add(const Stmt* s, const char* k, json::Object o, std::vector<int> ch)
    {
        o["k"] = D.S(k);
        if (!ch.empty())
        {
            json::Array a;
            for (int c : ch)
                a.push_back(c);
            o["c"] = std::move(a);
        }
        if (s)
        {
            o["l"] = D.line(s->getBeginLoc());
            if (auto* e = dyn_cast<Expr>(s))
            {
                o["t"] = D.T(e->getType());
                if (e->isLValue() && (k[0] == 'c' || k[0] == 'o'))
                    o["lv"] = true;
            }
        }
        nodes.push_back(std::move(o));
        return static_cast<int>(nodes.size()) - 1;
    }

    void calleeInfo(json::Object& o, const FunctionDecl* f)
    {
        if (!f)
            return;
        o["u"] = D.S(usrOf(f));
        o["q"] = D.S(f->getQualifiedNameAsString());
        if (f->isNoReturn())
            o["nr"] = true;
        if (const auto* args = f->getTemplateSpecializationArgs())
        {
            json::Array a;
            for (const auto& ta : args->asArray())
            {
                std::string              str;
                llvm::raw_string_ostream os(str);
                ta.print(D.pp, os, true);
                os.flush();
                if (str.size() > 200)
                    str.resize(200);
                a.push_back(D.S(str));
            }
            o["ta"] = std::move(a);
        }
        if (auto* m = dyn_cast<CXXMethodDecl>(f))
        {
            if (m->isConst())
                o["const"] = true;
            if (m->isStatic())
                o["static"] = true;
            o["cls"] = D.S(m->getParent()->getQualifiedNameAsString());
        }
        // how parameters are passed: v value, r ref, cr const ref, p ptr, cp ptr to const
        std::string pm;
        for (auto* p : f->parameters())
        {
            QualType t = p->getType();
            if (t->isReferenceType())
                pm += t->getPointeeType().isConstQualified() ? 'c' : 'r';
            else if (t->isPointerType())
                pm += t->getPointeeType().isConstQualified() ? 'q' : 'p';
            else
                pm += 'v';
        }
        o["pm"] = D.S(pm);
    }

    int expr(const Expr* e0)
    {
        const Expr* e = stripE(e0);
        if (!e)
            return -1;
        auto it = ids.find(e);
        if (it != ids.end())
            return it->second;
        int r   = expr1(e);
        ids[e]  = r;
        return r;
    }

    int lit(const Expr* e)
    {
        json::Object o;
        if (auto* i = dyn_cast<IntegerLiteral>(e))
        {
            llvm::SmallString<32> s;
            i->getValue().toString(s, 10, i->getType()->isSignedIntegerType());
            o["v"] = D.S(std::string(s));
            return add(e, "int", std::move(o), {});
        }
        if (auto* f = dyn_cast<FloatingLiteral>(e))
        {
            o["v"] = D.S(std::to_string(0));
            llvm::SmallString<64> s;
            f->getValue().toString(s);
            o["v"] = D.S(std::string(s));
            return add(e, "flt", std::move(o), {});
        }
        if (auto* b = dyn_cast<CXXBoolLiteralExpr>(e))
        {
            o["v"] = D.S(b->getValue() ? "1" : "0");
            return add(e, "bool", std::move(o), {});
        }
        if (auto* c = dyn_cast<CharacterLiteral>(e))
        {
            o["v"] = D.S(std::to_string(c->getValue()));
            return add(e, "int", std::move(o), {});
        }
        if (auto* s = dyn_cast<clang::StringLiteral>(e))
        {
            std::string v = s->getCharByteWidth() == 1 ? s->getString().str() : std::string("<wide>");
            if (!json::isUTF8(v))
                v = json::fixUTF8(v);
            o["v"] = D.S(v);
            return add(e, "str", std::move(o), {});
        }
        return -2;
    }

    int expr1(const Expr* e)
    {
        int l = lit(e);
        if (l != -2)
            return l;
        json::Object o;
        if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e))
            return add(e, "null", std::move(o), {});
        if (isa<CXXThisExpr>(e))
            return add(e, "this", std::move(o), {});
        if (auto* r = dyn_cast<DeclRefExpr>(e))
        {
            const ValueDecl* vd = r->getDecl();
            if (auto* v = dyn_cast<VarDecl>(vd))
            {
                o["d"] = varId(v);
                return add(e, "ref", std::move(o), {});
            }
            if (auto* ec = dyn_cast<EnumConstantDecl>(vd))
            {
                llvm::SmallString<32> s;
                ec->getInitVal().toString(s, 10);
                o["v"] = D.S(std::string(s));
                o["n"] = D.S(ec->getQualifiedNameAsString());
                return add(e, "enum", std::move(o), {});
            }
            if (auto* f = dyn_cast<FunctionDecl>(vd))
            {
                calleeInfo(o, f);
                return add(e, "fn", std::move(o), {});
            }
            if (auto* b = dyn_cast<BindingDecl>(vd))
            {
                if (b->getBinding())
                    return expr(b->getBinding());
                if (auto* hv = b->getHoldingVar())
                {
                    o["d"] = varId(hv);
                    return add(e, "ref", std::move(o), {});
                }
            }
            o["n"] = D.S(vd->getQualifiedNameAsString());
            return add(e, "other", std::move(o), {});
        }
        if (auto* m = dyn_cast<MemberExpr>(e))
        {
            const ValueDecl* md = m->getMemberDecl();
            if (auto* v = dyn_cast<VarDecl>(md))
            {
                o["d"] = varId(v);
                return add(e, "ref", std::move(o), {});
            }
            if (auto* f = dyn_cast<FunctionDecl>(md))
            {
                calleeInfo(o, f);
                return add(e, "fn", std::move(o), {expr(m->getBase())});
            }
            if (auto* ec = dyn_cast<EnumConstantDecl>(md))
            {
                llvm::SmallString<32> s;
                ec->getInitVal().toString(s, 10);
                o["v"] = D.S(std::string(s));
                o["n"] = D.S(ec->getQualifiedNameAsString());
                return add(e, "enum", std::move(o), {});
            }
            o["f"] = D.S(md->getNameAsString());
            if (auto* f = dyn_cast<FieldDecl>(md))
                o["cls"] = D.S(f->getParent()->getQualifiedNameAsString());
            if (m->isArrow())
                o["arrow"] = true;
            return add(e, "mem", std::move(o), {expr(m->getBase())});
        }
        if (auto* c = dyn_cast<CXXOperatorCallExpr>(e))
        {
            const FunctionDecl* f = c->getDirectCallee();
            calleeInfo(o, f);
            o["op"] = D.S(getOperatorSpelling(c->getOperator()));
            std::vector<int> ch;
            for (unsigned i = 0; i < c->getNumArgs(); i++)
                ch.push_back(expr(c->getArg(i)));
            if (f && isa<CXXMethodDecl>(f) && !cast<CXXMethodDecl>(f)->isStatic())
                o["recv"] = 1;
            return add(e, "call", std::move(o), ch);
        }
        if (auto* c = dyn_cast<CXXMemberCallExpr>(e))
        {
            const CXXMethodDecl* f = c->getMethodDecl();
            calleeInfo(o, f);
            std::vector<int> ch;
            const Expr* obj = c->getImplicitObjectArgument();
            if (!f)
            {
                ch.push_back(expr(c->getCallee()));
                o["ind"] = true;
            }
            else
                ch.push_back(expr(obj));
            o["recv"] = 1;
            if (auto* me = dyn_cast<MemberExpr>(c->getCallee()->IgnoreParens()))
            {
                if (me->isArrow())
                    o["arrow"] = true;
                if (f && f->isVirtual() && !me->hasQualifier())
                    o["virt"] = true;
            }
            for (unsigned i = 0; i < c->getNumArgs(); i++)
                ch.push_back(expr(c->getArg(i)));
            return add(e, "call", std::move(o), ch);
        }
        if (auto* c = dyn_cast<CallExpr>(e))
        {
            const FunctionDecl* f = c->getDirectCallee();
            std::vector<int>    ch;
            if (f)
                calleeInfo(o, f);
            else
            {
                o["ind"] = true;
                ch.push_back(expr(c->getCallee()));
            }
            for (unsigned i = 0; i < c->getNumArgs(); i++)
                ch.push_back(expr(c->getArg(i)));
            return add(e, "call", std::move(o), ch);
        }
        if (auto* c = dyn_cast<CXXConstructExpr>(e))
        {
            calleeInfo(o, c->getConstructor());
            if (c->getConstructor()->isCopyConstructor())
                o["copy"] = true;
            if (c->getConstructor()->isMoveConstructor())
                o["move"] = true;
            if (c->getConstructor()->isDefaulted())
                o["dflt"] = true;
            std::vector<int> ch;
            for (unsigned i = 0; i < c->getNumArgs(); i++)
                ch.push_back(expr(c->getArg(i)));
            return add(e, "ctor", std::move(o), ch);
        }
        if (auto* c = dyn_cast<CXXInheritedCtorInitExpr>(e))
        {
            calleeInfo(o, c->getConstructor());
            return add(e, "ctor", std::move(o), {});
        }
        if (auto* b = dyn_cast<BinaryOperator>(e))
        {
            o["op"] = D.S(b->getOpcodeStr().str());
            int a = expr(b->getLHS()), c = expr(b->getRHS());
            return add(e, b->isAssignmentOp() ? "asg" : "bin", std::move(o), {a, c});
        }
        if (auto* u = dyn_cast<UnaryOperator>(e))
        {
            std::string op = UnaryOperator::getOpcodeStr(u->getOpcode()).str();
            if (u->isPostfix())
                op = "p" + op;
            o["op"] = D.S(op);
            return add(e, "un", std::move(o), {expr(u->getSubExpr())});
        }
        if (auto* c = dyn_cast<ConditionalOperator>(e))
        {
            int a = expr(c->getCond()), b = expr(c->getTrueExpr()), d = expr(c->getFalseExpr());
            return add(e, "cond", std::move(o), {a, b, d});
        }
        if (auto* c = dyn_cast<ExplicitCastExpr>(e))
        {
            o["to"] = D.T(c->getType());
            if (isa<CXXDynamicCastExpr>(e))
                o["ck"] = D.S("dynamic");
            else if (isa<CXXReinterpretCastExpr>(e))
                o["ck"] = D.S("reinterpret");
            else if (isa<CXXConstCastExpr>(e))
                o["ck"] = D.S("const");
            else if (c->getCastKind() == CK_ToVoid)
                o["ck"] = D.S("void");
            else
                o["ck"] = D.S("static");
            return add(e, "cast", std::move(o), {expr(c->getSubExpr())});
        }
        if (auto* c = dyn_cast<ImplicitCastExpr>(e))
        {
            o["to"] = D.T(c->getType());
            o["ck"] = D.S("impl");
            return add(e, "cast", std::move(o), {expr(c->getSubExpr())});
        }
        if (auto* a = dyn_cast<ArraySubscriptExpr>(e))
        {
            int b = expr(a->getBase()), i = expr(a->getIdx());
            QualType bt = a->getBase()->IgnoreParenImpCasts()->getType();
            if (auto* ca = D.ctx.getAsConstantArrayType(bt))
                o["sz"] = static_cast<int64_t>(ca->getSize().getZExtValue());
            return add(e, "sub", std::move(o), {b, i});
        }
        if (auto* n = dyn_cast<CXXNewExpr>(e))
        {
            std::vector<int> ch;
            if (n->isArray() && n->getArraySize())
            {
                o["arr"] = true;
                ch.push_back(expr(*n->getArraySize()));
            }
            if (n->getInitializer())
                ch.push_back(expr(n->getInitializer()));
            else if (n->getConstructExpr())
                ch.push_back(expr(n->getConstructExpr()));
            o["of"] = D.T(n->getAllocatedType());
            return add(e, "new", std::move(o), ch);
        }
        if (auto* n = dyn_cast<CXXDeleteExpr>(e))
        {
            if (n->isArrayForm())
                o["arr"] = true;
            return add(e, "delete", std::move(o), {expr(n->getArgument())});
        }
        if (auto* t = dyn_cast<CXXThrowExpr>(e))
        {
            std::vector<int> ch;
            if (t->getSubExpr())
                ch.push_back(expr(t->getSubExpr()));
            return add(e, "throw", std::move(o), ch);
        }
        if (auto* il = dyn_cast<InitListExpr>(e))
        {
            if (il->isSemanticForm() == false && il->getSemanticForm())
                il = il->getSemanticForm();
            std::vector<int> ch;
            json::Array      fl;
            const RecordDecl* rd = nullptr;
            if (auto* rt = il->getType()->getAs<RecordType>())
                rd = rt->getDecl();
            if (rd)
                for (auto* f : rd->fields())
                    fl.push_back(D.S(f->getNameAsString()));
            for (unsigned i = 0; i < il->getNumInits() && i < 512; i++)
                ch.push_back(expr(il->getInit(i)));
            if (rd)
                o["fields"] = std::move(fl);
            return add(e, "ilist", std::move(o), ch);
        }
        if (isa<CXXScalarValueInitExpr>(e) || isa<ImplicitValueInitExpr>(e))
            return add(e, "zero", std::move(o), {});
        if (auto* u = dyn_cast<UnaryExprOrTypeTraitExpr>(e))
        {
            if (u->isArgumentType())
                o["of"] = D.T(u->getArgumentType());
            else
                o["of"] = D.T(u->getArgumentExpr()->getType());
            Expr::EvalResult er;
            if (!e->isValueDependent() && e->EvaluateAsInt(er, D.ctx))
            {
                llvm::SmallString<32> s;
                er.Val.getInt().toString(s, 10);
                o["v"] = D.S(std::string(s));
            }
            return add(e, "sizeof", std::move(o), {});
        }
        if (auto* lam = dyn_cast<LambdaExpr>(e))
        {
            o["u"] = D.S(usrOf(lam->getCallOperator()));
            lambdas.push_back(lam);
            std::vector<int> ch;
            json::Array      caps;
            for (auto c : lam->captures())
            {
                if (c.capturesVariable())
                {
                    if (auto* vd = dyn_cast<VarDecl>(c.getCapturedVar()))
                        caps.push_back(varId(vd));
                }
            }
            o["caps"] = std::move(caps);
            return add(e, "lambda", std::move(o), ch);
        }
        if (auto* t = dyn_cast<CXXTypeidExpr>(e))
        {
            std::vector<int> ch;
            if (!t->isTypeOperand())
                ch.push_back(expr(t->getExprOperand()));
            return add(e, "typeid", std::move(o), ch);
        }
        if (auto* c = dyn_cast<ArrayInitLoopExpr>(e))
            return add(e, "arrcopy", std::move(o), {expr(c->getCommonExpr())});
        if (auto* c = dyn_cast<OpaqueValueExpr>(e))
        {
            if (c->getSourceExpr())
                return expr(c->getSourceExpr());
        }
        if (auto* c = dyn_cast<BinaryConditionalOperator>(e))
        {
            int a = expr(c->getCommon()), d = expr(c->getFalseExpr());
            return add(e, "cond", std::move(o), {a, a, d});
        }
        // fallback
        o["n"] = D.S(e->getStmtClassName());
        std::vector<int> ch;
        for (const Stmt* s : e->children())
            if (s)
                if (auto* x = dyn_cast<Expr>(s))
                    ch.push_back(expr(x));
        return add(e, "other", std::move(o), ch);
    }

    int stmt(const Stmt* s)
    {
        if (!s)
            return -1;
        if (auto* e = dyn_cast<Expr>(s))
            return expr(e);
        auto it = ids.find(s);
        if (it != ids.end())
            return it->second;
        int          r = -1;
        json::Object o;
        if (auto* d = dyn_cast<DeclStmt>(s))
        {
            std::vector<int> ch;
            json::Array      ds;
            for (auto* dd : d->decls())
            {
                if (auto* v = dyn_cast<VarDecl>(dd))
                {
                    json::Array pr;
                    pr.push_back(varId(v));
                    int i = -1;
                    if (v->getInit())
                    {
                        i = expr(v->getInit());
                        ch.push_back(i);
                    }
                    pr.push_back(i);
                    ds.push_back(std::move(pr));
                }
            }
            o["ds"] = std::move(ds);
            r       = add(s, "decl", std::move(o), ch);
        }
        else if (auto* rt = dyn_cast<ReturnStmt>(s))
        {
            std::vector<int> ch;
            if (rt->getRetValue())
                ch.push_back(expr(rt->getRetValue()));
            r = add(s, "ret", std::move(o), ch);
        }
        else
        {
            o["n"] = D.S(s->getStmtClassName());
            r      = add(s, "stmt", std::move(o), {});
        }
        ids[s] = r;
        return r;
    }

    json::Object cfgJson()
    {
        json::Object       res;
        CFG::BuildOptions  bo;
        bo.setAllAlwaysAdd();
        bo.AddImplicitDtors    = true;
        bo.AddInitializers     = true;
        bo.AddTemporaryDtors   = false;
        bo.AddEHEdges          = false;
        bo.PruneTriviallyFalseEdges = true;
        std::unique_ptr<CFG> cfg = CFG::buildCFG(fd, fd->getBody(), &D.ctx, bo);
        if (!cfg)
        {
            res["err"] = true;
            return res;
        }
        json::Array blocks;
        std::map<unsigned, const CFGBlock*> order;
        for (const CFGBlock* b : *cfg)
            order[b->getBlockID()] = b;
        for (auto& [id, b] : order)
        {
            json::Object bj;
            bj["id"] = id;
            json::Array es;
            for (const CFGElement& el : *b)
            {
                if (auto cs = el.getAs<CFGStmt>())
                {
                    const Stmt* s = cs->getStmt();
                    if (auto* e = dyn_cast<Expr>(s))
                    {
                        const Expr* st = stripE(e);
                        if (st != e)
                            continue;  // transparent wrapper, its sub-expression has its own element
                        es.push_back(expr(e));
                    }
                    else
                        es.push_back(stmt(s));
                }
                else if (auto ci = el.getAs<CFGInitializer>())
                {
                    const CXXCtorInitializer* in = ci->getInitializer();
                    json::Object o;
                    std::vector<int> ch;
                    if (in->getInit())
                        ch.push_back(expr(in->getInit()));
                    if (in->isAnyMemberInitializer())
                    {
                        o["f"]   = D.S(in->getAnyMember()->getNameAsString());
                        o["cls"] = D.S(in->getAnyMember()->getParent()->getQualifiedNameAsString());
                    }
                    else if (in->isBaseInitializer())
                        o["base"] = D.T(QualType(in->getBaseClass(), 0));
                    else
                        o["deleg"] = true;
                    if (in->isWritten())
                        o["written"] = true;
                    o["l"] = D.line(in->getSourceLocation());
                    es.push_back(add(nullptr, "cinit", std::move(o), ch));
                }
                else if (auto ad = el.getAs<CFGAutomaticObjDtor>())
                {
                    json::Object o;
                    o["d"] = varId(ad->getVarDecl());
                    o["t"] = D.T(ad->getVarDecl()->getType());
                    if (auto* dd = ad->getDestructorDecl(D.ctx))
                    {
                        o["u"] = D.S(usrOf(dd));
                        o["q"] = D.S(dd->getQualifiedNameAsString());
                    }
                    es.push_back(add(nullptr, "dtor", std::move(o), {}));
                }
            }
            bj["e"] = std::move(es);
            if (const Stmt* t = b->getTerminatorStmt())
            {
                bj["tk"] = D.S(t->getStmtClassName());
                bj["tl"] = D.line(t->getBeginLoc());
                if (auto* bop = dyn_cast<BinaryOperator>(t))
                    bj["top"] = D.S(bop->getOpcodeStr().str());
                if (const Expr* c = dyn_cast_or_null<Expr>(b->getTerminatorCondition()))
                    bj["c"] = expr(c);
            }
            if (const Stmt* lb = b->getLabel())
            {
                if (auto* cs = dyn_cast<CaseStmt>(lb))
                {
                    json::Array vals;
                    vals.push_back(expr(cs->getLHS()));
                    if (cs->getRHS())
                        vals.push_back(expr(cs->getRHS()));
                    bj["case"] = std::move(vals);
                }
                else if (isa<DefaultStmt>(lb))
                    bj["default"] = true;
                else if (isa<CXXCatchStmt>(lb))
                {
                    bj["catch"] = true;
                    if (auto* ed = cast<CXXCatchStmt>(lb)->getExceptionDecl())
                        bj["ct"] = D.T(ed->getType());
                }
            }
            if (b->hasNoReturnElement())
                bj["noret"] = true;
            json::Array ss;
            for (auto& a : b->succs())
            {
                if (const CFGBlock* t = a.getReachableBlock())
                    ss.push_back(t->getBlockID());
                else
                    ss.push_back(-1);
            }
            bj["s"] = std::move(ss);
            blocks.push_back(std::move(bj));
        }
        res["blocks"] = std::move(blocks);
        res["entry"]  = cfg->getEntry().getBlockID();
        res["exit"]   = cfg->getExit().getBlockID();
        // statements inside try bodies / catch handlers
        return res;
    }

    // ranges of lines of try statements, handlers
    struct TryFinder : RecursiveASTVisitor<TryFinder>
    {
        Dumper&      D;
        json::Array  tries;
        bool first = true;
        TryFinder(Dumper& d) : D(d) {}
        bool TraverseLambdaExpr(LambdaExpr*) { return true; }
        bool VisitCXXTryStmt(CXXTryStmt* t)
        {
            json::Object o;
            o["b"] = D.line(t->getTryBlock()->getBeginLoc());
            o["e"] = D.line(t->getTryBlock()->getEndLoc());
            json::Array h;
            for (unsigned i = 0; i < t->getNumHandlers(); i++)
            {
                auto* c = t->getHandler(i);
                h.push_back(D.S(c->getExceptionDecl() ? c->getCaughtType().getCanonicalType().getAsString(D.pp) : std::string("...")));
            }
            o["h"] = std::move(h);
            tries.push_back(std::move(o));
            return true;
        }
    };
};

struct Visitor : RecursiveASTVisitor<Visitor>
{
    Dumper&                     D;
    json::Object                fns;  // usr -> [offset, length, qualified name, file, line]
    std::string                 text;
    json::Object                recs;
    json::Object                enums;
    json::Array                 globals;
    std::set<std::string>       seenRec;
    std::set<const VarDecl*>    seenVar;

    Visitor(Dumper& d) : D(d) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }

    bool VisitFunctionDecl(FunctionDecl* f)
    {
        if (!f->doesThisDeclarationHaveABody() || f->isDependentContext() || f->isDeleted())
            return true;
        if (!D.inTree(f->getLocation()))
            return true;
        if (!f->getBody())
            return true;
        emitFn(f);
        return true;
    }

    void emitFn(const FunctionDecl* f)
    {
        std::string usr = usrOf(f);
        if (usr.empty() || fns.get(usr))
            return;
        fns[usr] = nullptr;
        FnDumper     fdp(D, f);
        json::Object o;
        o["q"] = D.S(f->getQualifiedNameAsString());
        o["file"] = D.S(D.relFile(f->getLocation()));
        o["line"] = D.line(f->getLocation());
        o["end"]  = D.line(f->getEndLoc());
        o["ret"]  = D.T(f->getReturnType());
        if (f->isExternC())
            o["externc"] = true;
        if (f->isMain())
            o["main"] = true;
        if (f->getStorageClass() == SC_Static)
            o["static"] = true;
        if (f->isVariadic())
            o["variadic"] = true;
        json::Array ps;
        for (auto* p : f->parameters())
            ps.push_back(fdp.varId(p));
        o["params"] = std::move(ps);
        if (auto* m = dyn_cast<CXXMethodDecl>(f))
        {
            o["cls"] = D.S(m->getParent()->getQualifiedNameAsString());
            if (m->isConst())
                o["const"] = true;
            if (m->isStatic())
                o["smeth"] = true;
            if (m->isVirtual())
                o["virt"] = true;
            json::Array ov;
            for (auto* om : m->overridden_methods())
                ov.push_back(D.S(usrOf(om)));
            o["over"] = std::move(ov);
            if (auto* cc = dyn_cast<CXXConstructorDecl>(f))
            {
                o["ctor"] = true;
                if (cc->isCopyConstructor())
                    o["copy"] = true;
                if (cc->isMoveConstructor())
                    o["move"] = true;
                if (cc->isDefaulted())
                    o["dflt"] = true;
            }
            if (isa<CXXDestructorDecl>(f))
                o["dtor"] = true;
            if (m->isCopyAssignmentOperator())
                o["copyasg"] = true;
            if (m->getParent()->isLambda())
                o["lambda"] = true;
        }
        if (const auto* args = f->getTemplateSpecializationArgs())
        {
            json::Array a;
            for (const auto& ta : args->asArray())
            {
                std::string              str;
                llvm::raw_string_ostream os(str);
                ta.print(D.pp, os, true);
                os.flush();
                if (str.size() > 200)
                    str.resize(200);
                a.push_back(D.S(str));
            }
            o["ta"] = std::move(a);
        }
        FnDumper::TryFinder tf(D);
        tf.TraverseStmt(f->getBody());
        if (!tf.tries.empty())
            o["tries"] = std::move(tf.tries);
        json::Object c = fdp.cfgJson();
        o["cfg"]   = std::move(c);
        o["vars"]  = std::move(fdp.varArr);
        o["nodes"] = std::move(fdp.nodes);
        std::string              str;
        llvm::raw_string_ostream os(str);
        os << json::Value(std::move(o));
        os.flush();
        fns[usr] = json::Array{static_cast<int64_t>(text.size()), static_cast<int64_t>(str.size()), f->getQualifiedNameAsString(),
                               D.relFile(f->getLocation()), D.line(f->getLocation())};
        text += str;
        text += "\n";
        for (auto* lam : fdp.lambdas)
            emitLambda(lam);
    }

    void emitLambda(const LambdaExpr* lam)
    {
        const CXXMethodDecl* op = lam->getCallOperator();
        if (const FunctionTemplateDecl* t = op->getDescribedFunctionTemplate())
        {
            // generic lambda: its instances
            for (const FunctionDecl* s : t->specializations())
                if (s->getBody() && !s->isDependentContext())
                    emitFn(s);
            return;
        }
        emitFn(op);
    }

    bool VisitCXXRecordDecl(CXXRecordDecl* r)
    {
        if (!r->isThisDeclarationADefinition() || r->isDependentContext() || !r->hasDefinition() || r->isLambda())
            return true;
        if (!D.inTree(r->getLocation()))
            return true;
        std::string q = r->getQualifiedNameAsString();
        if (r->getName().empty() && !r->getTypedefNameForAnonDecl())
            q += "@" + std::to_string(D.line(r->getLocation()));
        json::Object o;
        if (r->getTypedefNameForAnonDecl())
            q = r->getTypedefNameForAnonDecl()->getQualifiedNameAsString();
        o["q"]    = D.S(q);
        o["file"] = D.S(D.relFile(r->getLocation()));
        o["line"] = D.line(r->getLocation());
        json::Array bs, fs, ms;
        for (auto& b : r->bases())
            bs.push_back(D.T(b.getType()));
        for (auto* f : r->fields())
        {
            json::Object fo;
            fo["n"] = D.S(f->getNameAsString());
            fo["t"] = D.T(f->getType());
            fo["l"] = D.line(f->getLocation());
            if (f->hasInClassInitializer() && f->getInClassInitializer())
                fo["init"] = true;
            if (auto* ca = D.ctx.getAsConstantArrayType(f->getType()))
                fo["n_el"] = static_cast<int64_t>(ca->getSize().getZExtValue());
            fs.push_back(std::move(fo));
        }
        for (auto* m : r->methods())
        {
            json::Object mo;
            mo["n"] = D.S(m->getNameAsString());
            mo["u"] = D.S(usrOf(m));
            if (m->isVirtual())
                mo["v"] = true;
            if (m->isPureVirtual())
                mo["pure"] = true;
            if (m->isDefaulted())
                mo["dflt"] = true;
            if (m->isDeleted())
                mo["del"] = true;
            if (auto* cc = dyn_cast<CXXConstructorDecl>(m))
            {
                if (cc->isCopyConstructor())
                    mo["copy"] = true;
            }
            if (m->isConst())
                mo["const"] = true;
            json::Array ov;
            for (auto* om : m->overridden_methods())
                ov.push_back(D.S(usrOf(om)));
            mo["over"] = std::move(ov);
            ms.push_back(std::move(mo));
        }
        o["bases"]   = std::move(bs);
        o["fields"]  = std::move(fs);
        o["methods"] = std::move(ms);
        o["union"]   = r->isUnion();
        recs[q]      = std::move(o);
        return true;
    }

    bool VisitEnumDecl(EnumDecl* e)
    {
        if (!e->isThisDeclarationADefinition() || !D.inTree(e->getLocation()))
            return true;
        std::string q = e->getQualifiedNameAsString();
        if (e->getTypedefNameForAnonDecl())
            q = e->getTypedefNameForAnonDecl()->getQualifiedNameAsString();
        json::Object o;
        o["file"] = D.S(D.relFile(e->getLocation()));
        o["line"] = D.line(e->getLocation());
        json::Array vs;
        for (auto* c : e->enumerators())
        {
            json::Array p;
            p.push_back(D.S(c->getQualifiedNameAsString()));
            llvm::SmallString<32> s;
            c->getInitVal().toString(s, 10);
            p.push_back(D.S(std::string(s)));
            vs.push_back(std::move(p));
        }
        o["vals"] = std::move(vs);
        enums[q]  = std::move(o);
        return true;
    }

    bool VisitVarDecl(VarDecl* v)
    {
        if (isa<ParmVarDecl>(v) || v->isLocalVarDecl() || !v->isThisDeclarationADefinition() || v->getDeclContext()->isDependentContext())
            return true;
        if (!D.inTree(v->getLocation()) || !(v->isFileVarDecl() || v->isStaticDataMember()))
            return true;
        if (!seenVar.insert(v).second)
            return true;
        json::Object o;
        o["q"]    = D.S(v->getQualifiedNameAsString());
        o["t"]    = D.T(v->getType());
        o["file"] = D.S(D.relFile(v->getLocation()));
        o["line"] = D.line(v->getLocation());
        o["u"]    = D.S(usrOf(v));
        if (v->getStorageClass() == SC_Static || v->isInAnonymousNamespace())
            o["static"] = true;
        if (v->getType().isConstQualified())
            o["const"] = true;
        if (v->getInit() && !v->getInit()->isValueDependent())
        {
            FnDumper fdp(D, nullptr);
            int      n = safeExpr(fdp, v->getInit());
            o["init"]  = n;
            o["nodes"] = std::move(fdp.nodes);
            o["vars"]  = std::move(fdp.varArr);
            for (auto* lam : fdp.lambdas)
                emitLambda(lam);
        }
        globals.push_back(std::move(o));
        return true;
    }
    int safeExpr(FnDumper& f, const Expr* e)
    {
        f.fd = nullptr;
        return f.expr(e);
    }
};

struct Consumer : ASTConsumer
{
    std::string file;
    Consumer(std::string f) : file(std::move(f)) {}
    void HandleTranslationUnit(ASTContext& ctx) override
    {
        Dumper  D(ctx);
        Visitor V(D);
        V.TraverseDecl(ctx.getTranslationUnitDecl());
        json::Object o;
        o["errors"]  = static_cast<int64_t>(ctx.getDiagnostics().getClient()->getNumErrors());
        o["fns"]     = std::move(V.fns);
        o["recs"]    = std::move(V.recs);
        o["enums"]   = std::move(V.enums);
        o["globals"] = std::move(V.globals);
        json::Array ss;
        for (auto& s : D.strs)
            ss.push_back(json::isUTF8(s) ? s : json::fixUTF8(s));
        o["strs"] = std::move(ss);
        std::error_code      ec;
        llvm::raw_fd_ostream os(g_out, ec);
        os << json::Value(std::move(o)) << "\n" << V.text;
    }
};

struct Action : ASTFrontendAction
{
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& ci, llvm::StringRef f) override
    {
        return std::make_unique<Consumer>(f.str());
    }
};

// usage: esx ROOT OUT FILE -- flags...
int main(int argc, const char** argv)
{
    if (argc < 5)
        return 2;
    g_root           = argv[1];
    g_out            = argv[2];
    std::string file = argv[3];
    std::vector<std::string> flags(argv + 5, argv + argc);
    tooling::FixedCompilationDatabase db(".", flags);
    tooling::ClangTool                tool(db, {file});
    return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
