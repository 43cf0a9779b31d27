// cxx2ir: dump the typed AST of all function bodies located under a given
// root (the repository) as JSON, for the verification-condition generator.
// Nothing is rewritten: every node is what clang resolved from the source.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecordLayout.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::vector<std::string> Roots;
static std::string              OutPath;

namespace {
struct Conv
{
    ASTContext&     C;
    SourceManager&  SM;
    PrintingPolicy  PP;
    std::map<std::string, int>       typeIdx;
    Array                            types;
    std::map<const Decl*, int>       varIds;
    std::map<const Decl*, std::string> funKeys;
    std::map<std::string, int>       keyUse;
    Object                           records, funcs, globals;
    std::set<const RecordDecl*>      doneRec;
    std::vector<const FunctionDecl*> queue;
    std::set<const FunctionDecl*>    queued;
    std::unique_ptr<ASTNameGenerator> NG;

    explicit Conv(ASTContext& c)
        : C(c), SM(c.getSourceManager()), PP(c.getPrintingPolicy())
    {
        PP.SuppressTagKeyword = true;
        PP.SuppressInlineNamespace = true;
        PP.Bool = true;
        PP.PrintCanonicalTypes = true;
        NG = std::make_unique<ASTNameGenerator>(C);
    }

    bool inRoot(SourceLocation l)
    {
        if (l.isInvalid()) return false;
        l = SM.getExpansionLoc(l);
        StringRef f = SM.getFilename(l);
        for (auto& r : Roots)
            if (f.starts_with(r)) return true;
        return false;
    }
    int var(const Decl* d)
    {
        d = d->getCanonicalDecl();
        auto it = varIds.find(d);
        if (it != varIds.end()) return it->second;
        int n = (int)varIds.size() + 1;
        varIds[d] = n;
        return n;
    }
    std::string qname(const NamedDecl* d)
    {
        std::string s;
        llvm::raw_string_ostream os(s);
        PrintingPolicy p = PP;
        d->printQualifiedName(os, p);
        return os.str();
    }
    std::string key(const FunctionDecl* f)
    {
        f = f->getCanonicalDecl();
        auto it = funKeys.find(f);
        if (it != funKeys.end()) return it->second;
        std::string n;
        bool        lam = false;
        if (auto* m = dyn_cast<CXXMethodDecl>(f))
            lam = m->getParent()->isLambda();
        if (!lam) n = NG->getName(f);
        if (n.empty())
            n = "L" + std::to_string(
                    SM.getExpansionLineNumber(f->getLocation()))
                + "_" + qname(f);
        // ctor/dtor variants share the name prefix
        int k = keyUse[n]++;
        if (k) n += "#" + std::to_string(k);
        funKeys[f] = n;
        return n;
    }
    std::string recName(const RecordDecl* r)
    {
        QualType t = C.getRecordType(r).getCanonicalType();
        std::string s = t.getAsString(PP);
        if (auto* cr = dyn_cast<CXXRecordDecl>(r))
            if (cr->isLambda())
                s = "lambda@" + key(cr->getLambdaCallOperator());
        return s;
    }
    int addType(std::string s, Object o)
    {
        auto it = typeIdx.find(s);
        if (it != typeIdx.end()) return it->second;
        int n = types.size();
        typeIdx[s] = n;
        o["s"] = s;
        types.push_back(std::move(o));
        return n;
    }
    int type(QualType q)
    {
        q = q.getCanonicalType();
        bool        cst = q.isConstQualified();
        std::string s = q.getAsString(PP);
        if (auto* r = q->getAsRecordDecl())
            s = (cst ? "const " : "") + recName(r);
        auto it = typeIdx.find(s);
        if (it != typeIdx.end()) return it->second;
        // reserve
        int n = types.size();
        typeIdx[s] = n;
        types.push_back(Object{});
        Object o;
        o["s"] = s;
        if (cst) o["const"] = 1;
        const Type* t = q.getTypePtr();
        if (t->isBooleanType()) {
            o["k"] = "bool";
        } else if (auto* e = t->getAs<EnumType>()) {
            QualType u = e->getDecl()->getIntegerType();
            o["k"] = "int";
            o["bits"] = (int)C.getTypeSize(q);
            o["sg"] = u.isNull() ? 0 : (u->isSignedIntegerType() ? 1 : 0);
            o["enum"] = qname(e->getDecl());
        } else if (t->isIntegerType()) {
            o["k"] = "int";
            o["bits"] = (int)C.getTypeSize(q);
            o["sg"] = t->isSignedIntegerType() ? 1 : 0;
        } else if (t->isFloatingType()) {
            o["k"] = "float";
        } else if (t->isVoidType()) {
            o["k"] = "void";
        } else if (auto* p = t->getAs<PointerType>()) {
            o["k"] = "ptr";
            o["to"] = type(p->getPointeeType());
        } else if (auto* p = t->getAs<ReferenceType>()) {
            o["k"] = "ref";
            o["rv"] = t->isRValueReferenceType() ? 1 : 0;
            o["to"] = type(p->getPointeeType());
        } else if (auto* a = C.getAsConstantArrayType(q)) {
            o["k"] = "arr";
            o["n"] = (int64_t)a->getSize().getZExtValue();
            o["elem"] = type(a->getElementType());
        } else if (t->isNullPtrType()) {
            o["k"] = "nullptr";
        } else if (t->isFunctionType()) {
            o["k"] = "fn";
        } else if (auto* r = t->getAsRecordDecl()) {
            o["k"] = "rec";
            o["name"] = recName(r);
            std::string qn = qname(r);
            o["q"] = qn;
            if (auto* cr = dyn_cast<CXXRecordDecl>(r)) {
                if (cr->isLambda()) o["lambda"] = 1;
            }
            if (auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(r)) {
                Array args;
                auto  addArg = [&](const TemplateArgument& a, auto& self) -> void {
                    switch (a.getKind()) {
                    case TemplateArgument::Type:
                        args.push_back(Object{{"t", type(a.getAsType())}});
                        break;
                    case TemplateArgument::Integral:
                        args.push_back(Object{
                            {"v",
                             llvm::toString(a.getAsIntegral(), 10)}});
                        break;
                    case TemplateArgument::Pack:
                        for (auto& x : a.pack_elements()) self(x, self);
                        break;
                    default: args.push_back(Object{{"o", 1}});
                    }
                };
                for (auto& a : sp->getTemplateArgs().asArray()) addArg(a, addArg);
                o["args"] = std::move(args);
            }
            if (r->isCompleteDefinition() || r->getDefinition())
                if (!t->isDependentType()) {
                    RecordDecl* d = r->getDefinition();
                    o["size"] = (int64_t)(C.getASTRecordLayout(d).getSize().getQuantity());
                    record(d);
                }
        } else {
            o["k"] = "other";
        }
        types[n] = std::move(o);
        return n;
    }
    void record(const RecordDecl* r)
    {
        if (!doneRec.insert(r).second) return;
        if (r->isInvalidDecl()) return;
        bool rep = inRoot(r->getLocation());
        auto* crd = dyn_cast<CXXRecordDecl>(r);
        bool isL = crd && crd->isLambda();
        std::string qn = qname(r);
        if (!rep && !isL && qn != "std::pair" && qn.rfind("sse::", 0) != 0 && qn.rfind("vdrv::", 0) != 0) return;
        Object o;
        o["repo"] = rep ? 1 : 0;
        o["q"] = qn;
        Array fs;
        auto& lay = C.getASTRecordLayout(r);
        int   i = 0;
        for (auto* f : r->fields()) {
            Object fo;
            fo["n"] = f->getNameAsString();
            fo["t"] = type(f->getType());
            fo["off"] = (int64_t)lay.getFieldOffset(i++);
            if (f->isBitField()) fo["bits"] = (int)f->getBitWidthValue(C);
            fs.push_back(std::move(fo));
        }
        o["fields"] = std::move(fs);
        Array bs;
        if (crd)
            for (auto& b : crd->bases())
                bs.push_back(type(b.getType()));
        o["bases"] = std::move(bs);
        o["size"] = (int64_t)lay.getSize().getQuantity();
        o["loc"] = loc(r->getLocation());
        records[recName(r)] = std::move(o);
    }
    std::string loc(SourceLocation l)
    {
        l = SM.getExpansionLoc(l);
        if (l.isInvalid()) return "?";
        return SM.getFilename(l).str() + ":"
               + std::to_string(SM.getExpansionLineNumber(l));
    }
    int line(SourceLocation l)
    {
        l = SM.getExpansionLoc(l);
        return l.isInvalid() ? 0 : (int)SM.getExpansionLineNumber(l);
    }

    // ---------------------------------------------------------- statements
    Value stmts(const Stmt* s)
    {
        if (!s) return nullptr;
        Object o;
        o["line"] = line(s->getBeginLoc());
        if (auto* c = dyn_cast<CompoundStmt>(s)) {
            Array a;
            for (auto* x : c->body()) a.push_back(stmts(x));
            o["k"] = "block";
            o["b"] = std::move(a);
            return o;
        }
        if (auto* d = dyn_cast<DeclStmt>(s)) {
            Array a;
            for (auto* x : d->decls())
                if (auto* v = dyn_cast<VarDecl>(x)) a.push_back(vardecl(v));
                else if (isa<DecompositionDecl>(x)) a.push_back(Object{{"bad", 1}});
            o["k"] = "decl";
            o["vars"] = std::move(a);
            return o;
        }
        if (auto* i = dyn_cast<IfStmt>(s)) {
            if (i->isConstexpr()) {
                auto r = i->getNondiscardedCase(C);
                if (r) return *r ? stmts(*r) : Value(Object{{"k", "block"}, {"b", Array{}}});
            }
            o["k"] = "if";
            if (i->getInit()) o["init"] = stmts(i->getInit());
            if (i->getConditionVariable()) o["cvar"] = vardecl(i->getConditionVariable());
            o["c"] = expr(i->getCond());
            o["t"] = stmts(i->getThen());
            if (i->getElse()) o["e"] = stmts(i->getElse());
            return o;
        }
        if (auto* w = dyn_cast<WhileStmt>(s)) {
            o["k"] = "while";
            if (w->getConditionVariable()) o["cvar"] = vardecl(w->getConditionVariable());
            o["c"] = expr(w->getCond());
            o["b"] = stmts(w->getBody());
            return o;
        }
        if (auto* w = dyn_cast<DoStmt>(s)) {
            o["k"] = "do";
            o["c"] = expr(w->getCond());
            o["b"] = stmts(w->getBody());
            return o;
        }
        if (auto* f = dyn_cast<ForStmt>(s)) {
            o["k"] = "for";
            if (f->getInit()) o["init"] = stmts(f->getInit());
            if (f->getCond()) o["c"] = expr(f->getCond());
            if (f->getInc()) o["inc"] = expr(f->getInc());
            o["b"] = stmts(f->getBody());
            return o;
        }
        if (auto* f = dyn_cast<CXXForRangeStmt>(s)) {
            o["k"] = "forrange";
            o["range"] = stmts(f->getRangeStmt());
            o["begin"] = stmts(f->getBeginStmt());
            o["end"] = stmts(f->getEndStmt());
            o["c"] = expr(f->getCond());
            o["inc"] = expr(f->getInc());
            o["var"] = stmts(f->getLoopVarStmt());
            o["b"] = stmts(f->getBody());
            return o;
        }
        if (auto* sw = dyn_cast<SwitchStmt>(s)) {
            o["k"] = "switch";
            o["c"] = expr(sw->getCond());
            o["b"] = stmts(sw->getBody());
            return o;
        }
        if (auto* cs = dyn_cast<CaseStmt>(s)) {
            o["k"] = "case";
            o["v"] = expr(cs->getLHS());
            o["s"] = stmts(cs->getSubStmt());
            return o;
        }
        if (auto* ds = dyn_cast<DefaultStmt>(s)) {
            o["k"] = "default";
            o["s"] = stmts(ds->getSubStmt());
            return o;
        }
        if (auto* r = dyn_cast<ReturnStmt>(s)) {
            o["k"] = "return";
            if (r->getRetValue()) o["e"] = expr(r->getRetValue());
            return o;
        }
        if (isa<BreakStmt>(s)) { o["k"] = "break"; return o; }
        if (isa<ContinueStmt>(s)) { o["k"] = "continue"; return o; }
        if (isa<NullStmt>(s)) { o["k"] = "block"; o["b"] = Array{}; return o; }
        if (auto* l = dyn_cast<LabelStmt>(s)) { o["k"] = "unsup"; o["w"] = "label"; (void)l; return o; }
        if (auto* a = dyn_cast<AttributedStmt>(s)) return stmts(a->getSubStmt());
        if (auto* t = dyn_cast<CXXTryStmt>(s)) {
            o["k"] = "try";
            o["b"] = stmts(t->getTryBlock());
            Array h;
            for (unsigned i = 0; i < t->getNumHandlers(); i++) {
                auto*  c = t->getHandler(i);
                Object ho;
                if (c->getExceptionDecl()) {
                    ho["var"] = var(c->getExceptionDecl());
                    ho["t"] = type(c->getCaughtType());
                }
                ho["b"] = stmts(c->getHandlerBlock());
                h.push_back(std::move(ho));
            }
            o["h"] = std::move(h);
            return o;
        }
        if (auto* e = dyn_cast<Expr>(s)) {
            o["k"] = "expr";
            o["e"] = expr(e);
            return o;
        }
        o["k"] = "unsup";
        o["w"] = s->getStmtClassName();
        return o;
    }
    Value vardecl(const VarDecl* v)
    {
        Object o;
        o["id"] = var(v);
        o["n"] = v->getNameAsString();
        o["t"] = type(v->getType());
        if (v->isStaticLocal()) o["static"] = 1;
        if (isa<DecompositionDecl>(v)) o["bad"] = 1;
        if (v->getInit()) o["i"] = expr(v->getInit());
        o["line"] = line(v->getLocation());
        return o;
    }
    // --------------------------------------------------------- expressions
    void need(const FunctionDecl* f)
    {
        const FunctionDecl* d = nullptr;
        if (!f->hasBody(d)) return;
        if (!queued.insert(d->getCanonicalDecl()).second) return;
        queue.push_back(d);
    }
    bool wantBody(const FunctionDecl* f)
    {
        const FunctionDecl* d = nullptr;
        if (!f->hasBody(d)) return false;
        if (d->isDependentContext()) return false;
        return inRoot(d->getLocation())
               || (isa<CXXMethodDecl>(d)
                   && inRoot(cast<CXXMethodDecl>(d)->getParent()->getLocation()));
    }
    void callee(Object& o, const FunctionDecl* f)
    {
        o["q"] = qname(f);
        if (wantBody(f)) {
            need(f);
            o["f"] = key(f);
        }
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
            o["cls"] = type(C.getRecordType(m->getParent()));
            if (m->isStatic()) o["static"] = 1;
            if (m->isVirtual()) o["virt"] = 1;
            if (m->isConst()) o["cm"] = 1;
            if (m->isDefaulted()) o["deflt"] = 1;
            if (m->getParent()->isLambda()) { need(f); o["f"] = key(f); }
        }
        if (f->isNoReturn()) o["noret"] = 1;
        Array ps;
        for (auto* p : f->parameters()) ps.push_back(type(p->getType()));
        o["pt"] = std::move(ps);
        o["rt"] = type(f->getReturnType());
        if (auto* ta = f->getTemplateSpecializationArgs()) {
            Array args;
            for (auto& a : ta->asArray()) {
                if (a.getKind() == TemplateArgument::Type)
                    args.push_back(Object{{"t", type(a.getAsType())}});
                else if (a.getKind() == TemplateArgument::Integral)
                    args.push_back(Object{{"v", llvm::toString(a.getAsIntegral(), 10)}});
                else args.push_back(Object{{"o", 1}});
            }
            o["ta"] = std::move(args);
        }
    }
    Value lit(const llvm::APSInt& v, int t)
    {
        return Object{{"k", "int"}, {"v", llvm::toString(v, 10)}, {"t", t}};
    }
    Value expr(const Expr* e)
    {
        if (!e) return nullptr;
        int t = type(e->getType());
        // constant folding of integral prvalues
        if (e->isPRValue() && !e->isValueDependent()
            && (e->getType()->isIntegralOrEnumerationType())) {
            const Expr* bare = e->IgnoreParens();
            if (!isa<CXXThrowExpr>(bare)) {
                Expr::EvalResult r;
                if (e->EvaluateAsInt(r, C, Expr::SE_NoSideEffects))
                    return lit(r.Val.getInt(), t);
            }
        }
        Object o;
        o["t"] = t;
        o["line"] = line(e->getExprLoc());
        if (e->isGLValue()) o["l"] = 1;
        auto sub = [&](const Expr* x) { return expr(x); };
        if (auto* p = dyn_cast<ParenExpr>(e)) return sub(p->getSubExpr());
        if (auto* p = dyn_cast<ExprWithCleanups>(e)) return sub(p->getSubExpr());
        if (auto* p = dyn_cast<ConstantExpr>(e)) return sub(p->getSubExpr());
        if (auto* p = dyn_cast<CXXBindTemporaryExpr>(e)) return sub(p->getSubExpr());
        if (auto* p = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) return sub(p->getReplacement());
        if (auto* p = dyn_cast<CXXDefaultArgExpr>(e)) return sub(p->getExpr());
        if (auto* p = dyn_cast<CXXDefaultInitExpr>(e)) return sub(p->getExpr());
        if (auto* p = dyn_cast<CXXRewrittenBinaryOperator>(e)) return sub(p->getSemanticForm());
        if (auto* p = dyn_cast<OpaqueValueExpr>(e)) return sub(p->getSourceExpr());
        if (auto* p = dyn_cast<GenericSelectionExpr>(e)) return sub(p->getResultExpr());
        if (auto* m = dyn_cast<MaterializeTemporaryExpr>(e)) {
            o["k"] = "temp";
            o["e"] = sub(m->getSubExpr());
            return o;
        }
        if (auto* b = dyn_cast<CXXBoolLiteralExpr>(e)) {
            o["k"] = "int"; o["v"] = b->getValue() ? "1" : "0"; return o;
        }
        if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) { o["k"] = "null"; return o; }
        if (auto* s = dyn_cast<StringLiteral>(e)) {
            o["k"] = "str";
            std::string v;
            if (s->getCharByteWidth() == 1) v = s->getString().str();
            o["v"] = llvm::json::fixUTF8(v);
            return o;
        }
        if (isa<PredefinedExpr>(e)) { o["k"] = "str"; o["v"] = "__func__"; return o; }
        if (auto* f = dyn_cast<FloatingLiteral>(e)) {
            o["k"] = "float"; o["v"] = f->getValueAsApproximateDouble(); return o;
        }
        if (auto* d = dyn_cast<DeclRefExpr>(e)) {
            if (auto* v = dyn_cast<VarDecl>(d->getDecl())) {
                o["n"] = v->getNameAsString();
                if (v->hasGlobalStorage() && !v->isStaticLocal()) {
                    o["k"] = "gvar";
                    std::string q = qname(v);
                    o["q"] = q;
                    global(v, q);
                } else {
                    o["k"] = "var";
                    o["id"] = var(v);
                }
                return o;
            }
            if (auto* f = dyn_cast<FunctionDecl>(d->getDecl())) {
                o["k"] = "fref";
                callee(o, f);
                o["t"] = t;
                return o;
            }
            o["k"] = "unsup"; o["w"] = "declref"; return o;
        }
        if (isa<CXXThisExpr>(e)) { o["k"] = "this"; return o; }
        if (auto* m = dyn_cast<MemberExpr>(e)) {
            if (auto* f = dyn_cast<FieldDecl>(m->getMemberDecl())) {
                o["k"] = "mem";
                o["f"] = f->getNameAsString();
                o["arrow"] = m->isArrow() ? 1 : 0;
                o["e"] = sub(m->getBase());
                if (f->isMutable()) o["mut"] = 1;
                return o;
            }
            if (auto* v = dyn_cast<VarDecl>(m->getMemberDecl())) {
                o["k"] = "gvar";
                std::string q = qname(v);
                o["q"] = q;
                o["n"] = v->getNameAsString();
                global(v, q);
                return o;
            }
            o["k"] = "unsup"; o["w"] = "member"; return o;
        }
        if (auto* b = dyn_cast<BinaryOperator>(e)) {
            o["k"] = "bin";
            o["op"] = b->getOpcodeStr().str();
            if (auto* ca = dyn_cast<CompoundAssignOperator>(b)) {
                o["k"] = "cassign";
                o["ct"] = type(ca->getComputationLHSType());
            } else if (b->getOpcode() == BO_Assign)
                o["k"] = "assign";
            o["a"] = sub(b->getLHS());
            o["b"] = sub(b->getRHS());
            return o;
        }
        if (auto* u = dyn_cast<UnaryOperator>(e)) {
            o["k"] = "un";
            o["op"] = UnaryOperator::getOpcodeStr(u->getOpcode()).str();
            o["post"] = u->isPostfix() ? 1 : 0;
            o["e"] = sub(u->getSubExpr());
            return o;
        }
        if (auto* a = dyn_cast<ArraySubscriptExpr>(e)) {
            o["k"] = "idx";
            o["a"] = sub(a->getBase());
            o["b"] = sub(a->getIdx());
            return o;
        }
        if (auto* c = dyn_cast<AbstractConditionalOperator>(e)) {
            o["k"] = "cond";
            o["c"] = sub(c->getCond());
            o["a"] = sub(c->getTrueExpr());
            o["b"] = sub(c->getFalseExpr());
            return o;
        }
        if (auto* c = dyn_cast<CastExpr>(e)) {
            switch (c->getCastKind()) {
            case CK_NoOp: case CK_UserDefinedConversion:
            case CK_ConstructorConversion: case CK_FunctionToPointerDecay:
            case CK_BuiltinFnToFnPtr:
                return sub(c->getSubExpr());
            default: break;
            }
            o["k"] = "cast";
            o["ck"] = c->getCastKindName();
            o["e"] = sub(c->getSubExpr());
            return o;
        }
        if (auto* c = dyn_cast<CXXMemberCallExpr>(e)) {
            auto* md = c->getMethodDecl();
            if (!md) { o["k"] = "unsup"; o["w"] = "memfnptr"; return o; }
            o["k"] = "call";
            callee(o, md);
            auto* me = dyn_cast<MemberExpr>(c->getCallee()->IgnoreParens());
            o["obj"] = sub(c->getImplicitObjectArgument());
            if (me && me->isArrow()) o["arrow"] = 1;
            if (me && me->hasQualifier()) o["virt"] = 0;
            Array a;
            for (auto* x : c->arguments()) a.push_back(sub(x));
            o["args"] = std::move(a);
            return o;
        }
        if (auto* c = dyn_cast<CallExpr>(e)) {
            o["k"] = "call";
            auto* fd = c->getDirectCallee();
            if (!fd) {
                if (auto* pd = dyn_cast<CXXPseudoDestructorExpr>(c->getCallee()->IgnoreParens())) {
                    (void)pd;
                    o["k"] = "int"; o["v"] = "0"; return o;
                }
                o["k"] = "icall";
                o["e"] = sub(c->getCallee());
                Array a;
                for (auto* x : c->arguments()) a.push_back(sub(x));
                o["args"] = std::move(a);
                return o;
            }
            callee(o, fd);
            Array a;
            unsigned i = 0;
            bool isop = isa<CXXOperatorCallExpr>(c);
            if (isop) o["oper"] = getOperatorSpelling(cast<CXXOperatorCallExpr>(c)->getOperator());
            auto* md = dyn_cast<CXXMethodDecl>(fd);
            if (isop && md && !md->isStatic()) {
                o["obj"] = sub(c->getArg(0));
                i = 1;
            }
            for (; i < c->getNumArgs(); i++) a.push_back(sub(c->getArg(i)));
            o["args"] = std::move(a);
            return o;
        }
        if (auto* c = dyn_cast<CXXInheritedCtorInitExpr>(e)) {
            (void)c; o["k"] = "unsup"; o["w"] = "inhctor"; return o;
        }
        if (auto* c = dyn_cast<CXXConstructExpr>(e)) {
            o["k"] = "ctor";
            auto* cd = c->getConstructor();
            callee(o, cd);
            if (cd->isCopyConstructor()) o["copy"] = 1;
            if (cd->isMoveConstructor()) o["move"] = 1;
            if (cd->isDefaultConstructor()) o["dflt"] = 1;
            if (cd->isTrivial()) o["triv"] = 1;
            if (c->requiresZeroInitialization()) o["zero"] = 1;
            if (c->isListInitialization()) o["list"] = 1;
            Array a;
            for (auto* x : c->arguments()) a.push_back(sub(x));
            o["args"] = std::move(a);
            return o;
        }
        if (auto* i = dyn_cast<InitListExpr>(e)) {
            if (i->isSyntacticForm() && i->getSemanticForm()) i = i->getSemanticForm();
            o["k"] = "init";
            Array a;
            for (unsigned k = 0; k < i->getNumInits(); k++) a.push_back(sub(i->getInit(k)));
            if (i->hasArrayFiller() && i->getArrayFiller()) o["filler"] = sub(i->getArrayFiller());
            o["es"] = std::move(a);
            return o;
        }
        if (auto* s = dyn_cast<CXXStdInitializerListExpr>(e)) {
            o["k"] = "stdinit"; o["e"] = sub(s->getSubExpr()); return o;
        }
        if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) {
            o["k"] = "zero"; return o;
        }
        if (auto* n = dyn_cast<CXXNewExpr>(e)) {
            o["k"] = "new";
            o["nt"] = type(n->getAllocatedType());
            if (n->isArray() && n->getArraySize()) o["n"] = sub(*n->getArraySize());
            if (n->getInitializer()) o["i"] = sub(n->getInitializer());
            return o;
        }
        if (auto* d = dyn_cast<CXXDeleteExpr>(e)) {
            o["k"] = "delete";
            o["arr"] = d->isArrayForm() ? 1 : 0;
            o["e"] = sub(d->getArgument());
            QualType dt = d->getDestroyedType();
            if (auto* cr = dt.isNull() ? nullptr : dt->getAsCXXRecordDecl())
                if (cr->getDestructor() && wantBody(cr->getDestructor())) {
                    need(cr->getDestructor());
                    o["f"] = key(cr->getDestructor());
                }
            return o;
        }
        if (auto* th = dyn_cast<CXXThrowExpr>(e)) {
            o["k"] = "throw";
            if (th->getSubExpr()) { o["e"] = sub(th->getSubExpr()); o["tt"] = type(th->getSubExpr()->getType()); }
            return o;
        }
        if (auto* l = dyn_cast<LambdaExpr>(e)) {
            o["k"] = "lambda";
            auto* op = l->getCallOperator();
            o["f"] = key(op);
            need(op);
            Array caps;
            auto  ii = l->capture_init_begin();
            for (auto& c : l->captures()) {
                Object co;
                if (c.capturesThis()) {
                    co["this"] = 1;
                    co["byref"] = c.getCaptureKind() == LCK_This ? 1 : 0;
                } else if (c.capturesVariable()) {
                    co["id"] = var(c.getCapturedVar());
                    co["n"] = c.getCapturedVar()->getNameAsString();
                    co["byref"] = c.getCaptureKind() == LCK_ByRef ? 1 : 0;
                    if (auto* vd = dyn_cast<VarDecl>(c.getCapturedVar()))
                        if (vd->isInitCapture() && vd->getInit()) co["initcap"] = sub(vd->getInit());
                }
                if (*ii) co["init"] = sub(*ii);
                ++ii;
                caps.push_back(std::move(co));
            }
            o["caps"] = std::move(caps);
            return o;
        }
        if (auto* s = dyn_cast<StmtExpr>(e)) { o["k"] = "stmtexpr"; o["b"] = stmts(s->getSubStmt()); return o; }
        if (auto* al = dyn_cast<ArrayInitLoopExpr>(e)) {
            o["k"] = "arrcopy";
            o["e"] = sub(al->getCommonExpr()->getSourceExpr());
            return o;
        }
        o["k"] = "unsup";
        o["w"] = e->getStmtClassName();
        return o;
    }
    void global(const VarDecl* v, const std::string& q)
    {
        if (globals.get(q)) return;
        globals[q] = Object{};
        Object o;
        o["t"] = type(v->getType());
        const VarDecl* d = nullptr;
        const Expr*    i = v->getAnyInitializer(d);
        if (i && !i->isValueDependent()) o["i"] = expr(i);
        globals[q] = std::move(o);
    }
    void func(const FunctionDecl* d)
    {
        Object      o;
        std::string k = key(d);
        o["key"] = k;
        o["q"] = qname(d);
        o["n"] = d->getNameAsString();
        o["loc"] = loc(d->getLocation());
        o["endline"] = line(d->getEndLoc());
        o["ret"] = type(d->getReturnType());
        Array ps;
        for (auto* p : d->parameters())
            ps.push_back(Object{{"id", var(p)}, {"n", p->getNameAsString()}, {"t", type(p->getType())}});
        o["params"] = std::move(ps);
        o["repo"] = inRoot(d->getLocation()) ? 1 : 0;
        if (auto* m = dyn_cast<CXXMethodDecl>(d)) {
            o["cls"] = type(C.getRecordType(m->getParent()));
            o["static"] = m->isStatic() ? 1 : 0;
            o["const"] = m->isConst() ? 1 : 0;
            if (m->getParent()->isLambda()) o["lambda"] = 1;
            if (m->isDefaulted()) o["deflt"] = 1;
        }
        if (auto* c = dyn_cast<CXXConstructorDecl>(d)) {
            o["ctor"] = 1;
            if (c->isCopyConstructor()) o["copy"] = 1;
            if (c->isMoveConstructor()) o["move"] = 1;
            Array is;
            for (auto* i : c->inits()) {
                Object io;
                if (i->isAnyMemberInitializer()) io["f"] = i->getAnyMember()->getNameAsString();
                else if (i->isBaseInitializer()) io["base"] = type(QualType(i->getBaseClass(), 0));
                else io["deleg"] = 1;
                io["e"] = expr(i->getInit());
                is.push_back(std::move(io));
            }
            o["inits"] = std::move(is);
        }
        if (isa<CXXDestructorDecl>(d)) o["dtor"] = 1;
        if (auto* ta = d->getTemplateSpecializationArgs()) {
            Array args;
            for (auto& a : ta->asArray()) {
                if (a.getKind() == TemplateArgument::Type)
                    args.push_back(Object{{"t", type(a.getAsType())}});
                else if (a.getKind() == TemplateArgument::Integral)
                    args.push_back(Object{{"v", llvm::toString(a.getAsIntegral(), 10)}});
                else args.push_back(Object{{"o", 1}});
            }
            o["ta"] = std::move(args);
        }
        o["body"] = stmts(d->getBody());
        funcs[k] = std::move(o);
    }
};

struct Vis : RecursiveASTVisitor<Vis>
{
    Conv& c;
    explicit Vis(Conv& c) : c(c) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool VisitFunctionDecl(FunctionDecl* f)
    {
        if (!f->isThisDeclarationADefinition() || !f->hasBody()) return true;
        if (f->isDependentContext() || f->isInvalidDecl()) return true;
        if (!c.inRoot(f->getLocation())) return true;
        c.need(f);
        return true;
    }
};
struct Cons : ASTConsumer
{
    void HandleTranslationUnit(ASTContext& ctx) override
    {
        if (ctx.getDiagnostics().hasErrorOccurred()) return;
        Conv c(ctx);
        Vis  v(c);
        v.TraverseDecl(ctx.getTranslationUnitDecl());
        for (size_t i = 0; i < c.queue.size(); i++) c.func(c.queue[i]);
        Object o;
        o["types"] = std::move(c.types);
        o["records"] = std::move(c.records);
        o["funcs"] = std::move(c.funcs);
        o["globals"] = std::move(c.globals);
        std::error_code      ec;
        llvm::raw_fd_ostream os(OutPath, ec);
        os << Value(std::move(o));
    }
};
struct Act : ASTFrontendAction
{
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override
    {
        return std::make_unique<Cons>();
    }
};
} // namespace

// usage: cxx2ir OUT.json SRC.cpp ROOT[,ROOT...] -- flags...
int main(int argc, char** argv)
{
    if (argc < 4) return 2;
    OutPath = argv[1];
    std::string src = argv[2], roots = argv[3];
    size_t      p = 0;
    while (p <= roots.size()) {
        size_t q = roots.find(',', p);
        if (q == std::string::npos) q = roots.size();
        Roots.push_back(roots.substr(p, q - p));
        p = q + 1;
    }
    std::vector<std::string> flags;
    int                      i = 4;
    if (i < argc && std::string(argv[i]) == "--") i++;
    for (; i < argc; i++) flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", flags);
    tooling::ClangTool                tool(db, {src});
    return tool.run(tooling::newFrontendActionFactory<Act>().get());
}
