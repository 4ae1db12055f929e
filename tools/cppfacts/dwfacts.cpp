// dwfacts: dump the resolved, instantiated program of one translation unit as JSON.
//
// Everything that is defined in a file below --root is emitted: records (bases, fields,
// methods, overriding relations) and functions (including template instantiations and
// lambda bodies) with a simplified but fully resolved syntax tree.  Nothing is executed.
#include <map>
#include <set>
#include <string>
#include <vector>

#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/FileSystem.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

using namespace clang;
namespace json = llvm::json;

static std::string Root;
static std::string OutFile;
static bool HadError = false;

namespace {

class Dumper {
 public:
    explicit Dumper(ASTContext& ctx)
            : Ctx(ctx), SM(ctx.getSourceManager()), PP(ctx.getPrintingPolicy()), Namer(ctx) {
        PP.SuppressTagKeyword = true;
        PP.SuppressInlineNamespace = true;
        PP.FullyQualifiedName = true;
        PP.Bool = true;
        PP.SuppressUnwrittenScope = true;
    }

    ASTContext& Ctx;
    SourceManager& SM;
    PrintingPolicy PP;
    ASTNameGenerator Namer;
    std::map<const Decl*, int> DeclIds;
    std::set<const FunctionDecl*> Done;
    std::set<const CXXRecordDecl*> RecDone;
    json::Array Functions, Records, Globals;

    int declId(const Decl* d) {
        d = d->getCanonicalDecl();
        auto it = DeclIds.find(d);
        if (it != DeclIds.end()) return it->second;
        int n = DeclIds.size() + 1;
        DeclIds[d] = n;
        return n;
    }

    bool inRepo(SourceLocation l) {
        l = SM.getExpansionLoc(l);
        if (l.isInvalid()) return false;
        llvm::StringRef f = SM.getFilename(l);
        return f.starts_with(Root);
    }

    std::string loc(SourceLocation l) {
        l = SM.getExpansionLoc(l);
        if (l.isInvalid()) return "";
        std::string f = SM.getFilename(l).str();
        if (llvm::StringRef(f).starts_with(Root)) f = f.substr(Root.size());
        return f + ":" + std::to_string(SM.getExpansionLineNumber(l)) + ":" +
               std::to_string(SM.getExpansionColumnNumber(l));
    }

    std::string ty(QualType t) {
        if (t.isNull()) return "";
        return t.getCanonicalType().getAsString(PP);
    }

    std::string recName(const CXXRecordDecl* r) {
        if (!r) return "";
        return ty(Ctx.getRecordType(r));
    }

    std::string fid(const FunctionDecl* f) {
        if (const FunctionDecl* d = f->getDefinition()) f = d;
        std::string n = Namer.getName(f);
        const auto* m = dyn_cast<CXXMethodDecl>(f);
        if (m && m->getParent()->isLambda()) {
            // make lambdas unique per enclosing instantiation
            const DeclContext* dc = m->getParent()->getDeclContext();
            std::string parent;
            while (dc && !isa<FunctionDecl>(dc)) dc = dc->getParent();
            if (dc) parent = fid(cast<FunctionDecl>(dc));
            return parent + "::lambda@" + loc(m->getParent()->getBeginLoc()) + "#" + n;
        }
        if (n.empty()) n = f->getQualifiedNameAsString() + "@" + loc(f->getLocation());
        if (!f->isExternallyVisible()) n += "@" + loc(f->getLocation());
        return n;
    }

    std::string qname(const NamedDecl* d) {
        std::string s;
        llvm::raw_string_ostream os(s);
        d->printQualifiedName(os, PP);
        return s;
    }

    json::Object fref(const FunctionDecl* f) {
        json::Object o;
        o["id"] = fid(f);
        o["q"] = qname(f);
        o["n"] = f->getNameAsString();
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
            o["cls"] = recName(m->getParent());
            if (m->isVirtual()) o["virt"] = true;
            if (m->isStatic()) o["static"] = true;
            if (m->isConst()) o["const"] = true;
        }
        if (inRepo(f->getLocation())) o["repo"] = true;
        if (f->getNumParams()) {
            json::Array ps;
            for (auto* p : f->parameters()) ps.push_back(ty(p->getType()));
            o["pt"] = std::move(ps);
        }
        if (const auto* args = f->getTemplateSpecializationArgs()) {
            json::Array ta;
            for (auto& a : args->asArray()) {
                std::string s;
                llvm::raw_string_ostream os(s);
                a.print(PP, os, true);
                ta.push_back(os.str());
            }
            o["ta"] = std::move(ta);
        }
        if (const auto* fpt = f->getType()->getAs<FunctionProtoType>())
            if (isNoexceptExceptionSpec(fpt->getExceptionSpecType()) && fpt->isNothrow())
                o["nx"] = true;
        return o;
    }

    const Expr* strip(const Expr* e) {
        while (e) {
            if (auto* x = dyn_cast<ParenExpr>(e)) e = x->getSubExpr();
            else if (auto* x = dyn_cast<ExprWithCleanups>(e)) e = x->getSubExpr();
            else if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) e = x->getSubExpr();
            else if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) e = x->getSubExpr();
            else if (auto* x = dyn_cast<ConstantExpr>(e)) e = x->getSubExpr();
            else if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e = x->getReplacement();
            else if (auto* x = dyn_cast<ImplicitCastExpr>(e)) {
                auto ck = x->getCastKind();
                // keep the value-changing implicit conversions visible
                if (ck == CK_FloatingToIntegral || ck == CK_FloatingToBoolean ||
                    ck == CK_UserDefinedConversion)
                    return e;
                e = x->getSubExpr();
            } else break;
        }
        return e;
    }

    // the constructor of `made` that a make_unique<made>(...) instantiation invokes
    const CXXConstructorDecl* findCtor(const Stmt* s, QualType made) {
        if (!s) return nullptr;
        if (auto* n = dyn_cast<CXXNewExpr>(s))
            if (auto* c = n->getConstructExpr()) return c->getConstructor();
        for (auto* c : s->children())
            if (auto* r = findCtor(c, made)) return r;
        return nullptr;
    }

    json::Value E(const Expr* e0) {
        const Expr* e = strip(e0);
        json::Object o;
        if (!e) {
            o["k"] = "none";
            return o;
        }
        o["l"] = loc(e->getBeginLoc());
        auto setT = [&](QualType t) { o["t"] = ty(t); };

        if (auto* x = dyn_cast<ImplicitCastExpr>(e)) {
            if (x->getCastKind() == CK_UserDefinedConversion) {
                return E(x->getSubExpr());
            }
            o["k"] = "icast";
            setT(x->getType());
            o["e"] = E(x->getSubExpr());
        } else if (auto* x = dyn_cast<DeclRefExpr>(e)) {
            const ValueDecl* d = x->getDecl();
            o["k"] = "ref";
            o["n"] = d->getNameAsString();
            if (auto* f = dyn_cast<FunctionDecl>(d)) {
                o["dk"] = "func";
                o["f"] = fref(f);
            } else if (isa<ParmVarDecl>(d)) o["dk"] = "param";
            else if (auto* v = dyn_cast<VarDecl>(d)) {
                if (v->isStaticLocal()) o["dk"] = "slocal";
                else if (v->hasGlobalStorage()) {
                    o["dk"] = "global";
                    o["q"] = qname(v);
                    if (v->getType().isConstQualified() || v->isConstexpr()) o["const"] = true;
                } else o["dk"] = "var";
                if (v->isConstexpr() || (v->getType().isConstQualified() && v->hasGlobalStorage())) {
                    Expr::EvalResult r;
                    if (!e->isValueDependent() && e->EvaluateAsRValue(r, Ctx) && r.Val.isInt())
                        o["cv"] = llvm::toString(r.Val.getInt(), 10);
                }
            } else if (isa<EnumConstantDecl>(d)) {
                o["dk"] = "enum";
                o["q"] = qname(d);
            } else if (isa<BindingDecl>(d)) o["dk"] = "bind";
            else o["dk"] = "other";
            o["id"] = declId(d);
            setT(d->getType());
        } else if (auto* x = dyn_cast<MemberExpr>(e)) {
            const ValueDecl* d = x->getMemberDecl();
            if (isa<VarDecl>(d)) {  // static data member
                o["k"] = "ref";
                o["dk"] = "global";
                o["n"] = d->getNameAsString();
                o["q"] = qname(d);
                o["id"] = declId(d);
                setT(d->getType());
                if (d->getType().isConstQualified()) o["const"] = true;
            } else {
                o["k"] = "mem";
                o["n"] = d->getNameAsString();
                if (auto* fd = dyn_cast<FieldDecl>(d)) {
                    o["cls"] = recName(dyn_cast<CXXRecordDecl>(fd->getParent()));
                    if (fd->isMutable()) o["mutable"] = true;
                    if (inRepo(fd->getLocation())) o["repo"] = true;
                } else if (auto* f = dyn_cast<FunctionDecl>(d)) {
                    o["f"] = fref(f);
                }
                if (x->isArrow()) o["arrow"] = true;
                o["b"] = E(x->getBase());
                setT(x->getType());
            }
        } else if (isa<CXXThisExpr>(e)) {
            o["k"] = "this";
            setT(e->getType());
        } else if (auto* x = dyn_cast<CXXOperatorCallExpr>(e)) {
            o["k"] = "opcall";
            o["op"] = getOperatorSpelling(x->getOperator());
            if (auto* f = x->getDirectCallee()) o["f"] = fref(f);
            json::Array as;
            for (auto* a : x->arguments()) as.push_back(E(a));
            o["a"] = std::move(as);
            setT(x->getType());
        } else if (auto* x = dyn_cast<CXXMemberCallExpr>(e)) {
            o["k"] = "mcall";
            if (auto* f = x->getMethodDecl()) {
                o["f"] = fref(f);
                const auto* me = dyn_cast<MemberExpr>(strip(x->getCallee()));
                if (me && me->hasQualifier()) o["qual"] = true;
            }
            o["o"] = E(x->getImplicitObjectArgument());
            if (x->getImplicitObjectArgument())
                o["ot"] = ty(x->getImplicitObjectArgument()->getType());
            json::Array as;
            for (auto* a : x->arguments()) as.push_back(E(a));
            o["a"] = std::move(as);
            setT(x->getType());
        } else if (auto* x = dyn_cast<CallExpr>(e)) {
            o["k"] = "call";
            if (auto* f = x->getDirectCallee()) {
                o["f"] = fref(f);
                std::string nm = f->getNameAsString();
                if (nm == "make_unique" || nm == "make_shared") {
                    QualType made;
                    if (auto* targs = f->getTemplateSpecializationArgs())
                        if (targs->size() && targs->get(0).getKind() == TemplateArgument::Type)
                            made = targs->get(0).getAsType();
                    const FunctionDecl* def = f->getDefinition();
                    if (!made.isNull()) o["mt"] = ty(made);
                    if (def && def->hasBody()) {
                        if (auto* c = findCtor(def->getBody(), made)) o["mk"] = fref(c);
                    }
                }
            } else o["ce"] = E(x->getCallee());
            json::Array as;
            for (auto* a : x->arguments()) as.push_back(E(a));
            o["a"] = std::move(as);
            setT(x->getType());
        } else if (auto* x = dyn_cast<CXXConstructExpr>(e)) {
            // elide copies/moves of temporaries
            o["k"] = "ctor";
            auto* cd = x->getConstructor();
            o["f"] = fref(cd);
            if (cd->isCopyOrMoveConstructor()) o["cm"] = cd->isMoveConstructor() ? "move" : "copy";
            if (cd->isDefaultConstructor()) o["def"] = true;
            json::Array as;
            for (auto* a : x->arguments()) as.push_back(E(a));
            o["a"] = std::move(as);
            setT(x->getType());
        } else if (auto* x = dyn_cast<CXXDefaultArgExpr>(e)) {
            return E(x->getExpr());
        } else if (auto* x = dyn_cast<CXXDefaultInitExpr>(e)) {
            return E(x->getExpr());
        } else if (auto* x = dyn_cast<LambdaExpr>(e)) {
            o["k"] = "lambda";
            auto* cr = x->getLambdaClass();
            json::Array caps;
            auto ci = x->capture_init_begin();
            for (auto& c : x->captures()) {
                json::Object co;
                if (c.capturesThis()) co["this"] = true;
                else if (c.capturesVariable()) {
                    co["n"] = c.getCapturedVar()->getNameAsString();
                    co["id"] = declId(c.getCapturedVar());
                    co["ref"] = c.getCaptureKind() == LCK_ByRef;
                    co["init"] = E(*ci);
                }
                ++ci;
                caps.push_back(std::move(co));
            }
            o["caps"] = std::move(caps);
            json::Array fs;
            if (auto* ftd = cr->getDependentLambdaCallOperator()) {
                for (auto* s : ftd->specializations()) {
                    fs.push_back(fid(s));
                    function(s);
                }
            } else if (auto* m = x->getCallOperator()) {
                fs.push_back(fid(m));
                function(m);
            }
            o["fs"] = std::move(fs);
        } else if (auto* x = dyn_cast<CompoundAssignOperator>(e)) {
            o["k"] = "assign";
            std::string op = BinaryOperator::getOpcodeStr(x->getOpcode()).str();
            o["op"] = op;
            o["x"] = E(x->getLHS());
            o["y"] = E(x->getRHS());
            setT(x->getType());
        } else if (auto* x = dyn_cast<BinaryOperator>(e)) {
            if (x->getOpcode() == BO_Assign) {
                o["k"] = "assign";
                o["op"] = "=";
            } else {
                o["k"] = "bin";
                o["op"] = BinaryOperator::getOpcodeStr(x->getOpcode()).str();
            }
            o["x"] = E(x->getLHS());
            o["y"] = E(x->getRHS());
            setT(x->getType());
        } else if (auto* x = dyn_cast<CXXRewrittenBinaryOperator>(e)) {
            auto d = x->getDecomposedForm();
            o["k"] = "bin";
            o["op"] = BinaryOperator::getOpcodeStr(d.Opcode).str();
            o["x"] = E(d.LHS);
            o["y"] = E(d.RHS);
            setT(x->getType());
        } else if (auto* x = dyn_cast<UnaryOperator>(e)) {
            o["k"] = "un";
            o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
            if (x->isPostfix()) o["post"] = true;
            o["e"] = E(x->getSubExpr());
            setT(x->getType());
        } else if (auto* x = dyn_cast<ConditionalOperator>(e)) {
            o["k"] = "cond";
            o["c"] = E(x->getCond());
            o["x"] = E(x->getTrueExpr());
            o["y"] = E(x->getFalseExpr());
            setT(x->getType());
        } else if (auto* x = dyn_cast<ArraySubscriptExpr>(e)) {
            o["k"] = "sub";
            o["b"] = E(x->getBase());
            o["i"] = E(x->getIdx());
            setT(x->getType());
        } else if (auto* x = dyn_cast<ExplicitCastExpr>(e)) {
            o["k"] = "cast";
            o["ck"] = x->getStmtClassName();
            setT(x->getType());
            o["e"] = E(x->getSubExpr());
        } else if (auto* x = dyn_cast<IntegerLiteral>(e)) {
            o["k"] = "lit";
            o["v"] = llvm::toString(x->getValue(), 10, x->getType()->isSignedIntegerType());
            setT(x->getType());
        } else if (auto* x = dyn_cast<FloatingLiteral>(e)) {
            o["k"] = "lit";
            double d = x->getValueAsApproximateDouble();
            char buf[40];
            if (std::abs(d) < 9e15 && d == (double)(long long)d) snprintf(buf, sizeof buf, "%lld", (long long)d);
            else snprintf(buf, sizeof buf, "%.17g", d);
            o["v"] = std::string(buf);
            setT(x->getType());
        } else if (auto* x = dyn_cast<CXXBoolLiteralExpr>(e)) {
            o["k"] = "lit";
            o["v"] = x->getValue() ? "true" : "false";
            setT(x->getType());
        } else if (auto* x = dyn_cast<StringLiteral>(e)) {
            o["k"] = "str";
            o["v"] = x->isOrdinary() ? x->getString().str() : "";
        } else if (isa<CharacterLiteral>(e)) {
            o["k"] = "lit";
            o["v"] = std::to_string(cast<CharacterLiteral>(e)->getValue());
        } else if (isa<CXXNullPtrLiteralExpr>(e)) {
            o["k"] = "null";
        } else if (auto* x = dyn_cast<CXXThrowExpr>(e)) {
            o["k"] = "throw";
            if (x->getSubExpr()) {
                o["e"] = E(x->getSubExpr());
                o["t"] = ty(x->getSubExpr()->getType());
            }
        } else if (auto* x = dyn_cast<InitListExpr>(e)) {
            o["k"] = "init";
            setT(x->getType());
            json::Array as;
            const InitListExpr* s = x->isSemanticForm() ? x : x->getSemanticForm();
            if (!s) s = x;
            for (auto* a : s->inits()) as.push_back(E(a));
            o["a"] = std::move(as);
        } else if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) {
            return E(x->getSubExpr());
        } else if (auto* x = dyn_cast<CXXNewExpr>(e)) {
            o["k"] = "new";
            setT(x->getType());
            if (x->hasInitializer()) o["e"] = E(x->getInitializer());
            if (x->isArray() && x->getArraySize()) o["size"] = E(*x->getArraySize());
        } else if (auto* x = dyn_cast<CXXDeleteExpr>(e)) {
            o["k"] = "delete";
            o["e"] = E(x->getArgument());
        } else if (auto* x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
            o["k"] = "lit";
            Expr::EvalResult r;
            if (!x->isValueDependent() && x->EvaluateAsInt(r, Ctx))
                o["v"] = llvm::toString(r.Val.getInt(), 10);
            else o["v"] = "?";
        } else if (isa<CXXScalarValueInitExpr>(e) || isa<ImplicitValueInitExpr>(e)) {
            o["k"] = "lit";
            o["v"] = "0";
            setT(e->getType());
        } else {
            Expr::EvalResult r;
            o["k"] = "other";
            o["c"] = e->getStmtClassName();
            setT(e->getType());
            if (!e->isValueDependent() && e->getType()->isIntegralOrEnumerationType() &&
                e->EvaluateAsInt(r, Ctx)) {
                o["k"] = "lit";
                o["v"] = e->getType()->isBooleanType()
                                 ? (r.Val.getInt().getBoolValue() ? "true" : "false")
                                 : llvm::toString(r.Val.getInt(), 10);
            } else {
                json::Array as;
                for (auto* c : e->children())
                    if (auto* ce = dyn_cast_or_null<Expr>(c)) as.push_back(E(ce));
                o["a"] = std::move(as);
            }
        }
        return o;
    }

    json::Value varDecl(const VarDecl* v) {
        json::Object o;
        o["k"] = "var";
        o["l"] = loc(v->getLocation());
        o["n"] = v->getNameAsString();
        o["id"] = declId(v);
        o["t"] = ty(v->getType());
        if (v->isStaticLocal()) o["static"] = true;
        if (v->isStaticLocal() || v->getType().isConstQualified()) {
            if (v->getType().isConstQualified() || v->isConstexpr()) o["const"] = true;
        }
        if (v->getTSCSpec() != TSCS_unspecified) o["tls"] = true;
        if (v->getType()->isReferenceType()) o["ref"] = true;
        if (v->hasInit()) o["init"] = E(v->getInit());
        if (auto* dd = dyn_cast<DecompositionDecl>(v)) {
            o["k"] = "decomp";
            json::Array bs;
            int i = 0;
            for (auto* b : dd->bindings()) {
                json::Object bo;
                bo["n"] = b->getNameAsString();
                bo["id"] = declId(b);
                bo["i"] = i++;
                if (auto* be = b->getBinding()) {
                    if (auto* me = dyn_cast<MemberExpr>(strip(be)))
                        bo["field"] = me->getMemberDecl()->getNameAsString();
                }
                bs.push_back(std::move(bo));
            }
            o["b"] = std::move(bs);
        }
        return o;
    }

    json::Value S(const Stmt* s) {
        json::Object o;
        if (!s) {
            o["k"] = "nop";
            return o;
        }
        o["l"] = loc(s->getBeginLoc());
        if (auto* x = dyn_cast<CompoundStmt>(s)) {
            o["k"] = "seq";
            json::Array b;
            for (auto* c : x->body()) b.push_back(S(c));
            o["b"] = std::move(b);
        } else if (auto* x = dyn_cast<DeclStmt>(s)) {
            o["k"] = "decl";
            json::Array b;
            for (auto* d : x->decls())
                if (auto* v = dyn_cast<VarDecl>(d)) b.push_back(varDecl(v));
            o["b"] = std::move(b);
        } else if (auto* x = dyn_cast<IfStmt>(s)) {
            if (x->isConstexpr()) {
                if (auto taken = x->getNondiscardedCase(Ctx)) {
                    o["k"] = "seq";
                    json::Array b;
                    if (x->getInit()) b.push_back(S(x->getInit()));
                    if (*taken) b.push_back(S(*taken));
                    o["b"] = std::move(b);
                    return o;
                }
            }
            o["k"] = "if";
            if (x->getInit()) o["init"] = S(x->getInit());
            if (x->getConditionVariable()) o["cv"] = varDecl(x->getConditionVariable());
            o["c"] = E(x->getCond());
            o["x"] = S(x->getThen());
            if (x->getElse()) o["y"] = S(x->getElse());
        } else if (auto* x = dyn_cast<ForStmt>(s)) {
            o["k"] = "for";
            if (x->getInit()) o["init"] = S(x->getInit());
            if (x->getCond()) o["c"] = E(x->getCond());
            if (x->getInc()) o["inc"] = E(x->getInc());
            o["b"] = S(x->getBody());
        } else if (auto* x = dyn_cast<CXXForRangeStmt>(s)) {
            o["k"] = "rfor";
            if (x->getInit()) o["init"] = S(x->getInit());
            o["v"] = varDecl(x->getLoopVariable());
            o["r"] = E(x->getRangeInit());
            o["b"] = S(x->getBody());
        } else if (auto* x = dyn_cast<WhileStmt>(s)) {
            o["k"] = "while";
            if (x->getConditionVariable()) o["cv"] = varDecl(x->getConditionVariable());
            o["c"] = E(x->getCond());
            o["b"] = S(x->getBody());
        } else if (auto* x = dyn_cast<DoStmt>(s)) {
            o["k"] = "do";
            o["c"] = E(x->getCond());
            o["b"] = S(x->getBody());
        } else if (auto* x = dyn_cast<ReturnStmt>(s)) {
            o["k"] = "ret";
            if (x->getRetValue()) o["e"] = E(x->getRetValue());
        } else if (isa<BreakStmt>(s)) o["k"] = "break";
        else if (isa<ContinueStmt>(s)) o["k"] = "continue";
        else if (auto* x = dyn_cast<SwitchStmt>(s)) {
            o["k"] = "switch";
            if (x->getInit()) o["init"] = S(x->getInit());
            o["c"] = E(x->getCond());
            o["b"] = S(x->getBody());
        } else if (auto* x = dyn_cast<CaseStmt>(s)) {
            o["k"] = "case";
            o["c"] = E(x->getLHS());
            o["b"] = S(x->getSubStmt());
        } else if (auto* x = dyn_cast<DefaultStmt>(s)) {
            o["k"] = "default";
            o["b"] = S(x->getSubStmt());
        } else if (auto* x = dyn_cast<CXXTryStmt>(s)) {
            o["k"] = "try";
            o["b"] = S(x->getTryBlock());
            json::Array hs;
            for (unsigned i = 0; i < x->getNumHandlers(); ++i) {
                json::Object h;
                auto* c = x->getHandler(i);
                h["t"] = c->getCaughtType().isNull() ? "..." : ty(c->getCaughtType());
                h["b"] = S(c->getHandlerBlock());
                hs.push_back(std::move(h));
            }
            o["h"] = std::move(hs);
        } else if (isa<NullStmt>(s)) {
            o["k"] = "nop";
        } else if (auto* x = dyn_cast<AttributedStmt>(s)) {
            return S(x->getSubStmt());
        } else if (auto* x = dyn_cast<LabelStmt>(s)) {
            return S(x->getSubStmt());
        } else if (auto* x = dyn_cast<Expr>(s)) {
            o["k"] = "expr";
            o["e"] = E(x);
        } else {
            o["k"] = "otherstmt";
            o["c"] = s->getStmtClassName();
        }
        return o;
    }

    void function(const FunctionDecl* f) {
        if (!f) return;
        f = f->getDefinition();
        if (!f || f->isDependentContext() || !f->hasBody()) {
            return;
        }
        if (f->isDefaulted() && !f->isUserProvided()) return;
        if (!inRepo(f->getLocation())) return;
        if (!Done.insert(f).second) return;
        json::Object o = fref(f);
        o["l"] = loc(f->getLocation());
        o["end"] = loc(f->getEndLoc());
        o["rt"] = ty(f->getReturnType());
        if (auto* fp = f->getType()->getAs<FunctionProtoType>()) {
            const auto es = fp->getExceptionSpecType();
            if (es == EST_BasicNoexcept || es == EST_NoexceptTrue ||
                (isa<CXXDestructorDecl>(f) && es != EST_NoexceptFalse))
                o["nx"] = true;
        }
        json::Array ps;
        for (auto* p : f->parameters()) {
            json::Object po;
            po["n"] = p->getNameAsString();
            po["id"] = declId(p);
            po["t"] = ty(p->getType());
            ps.push_back(std::move(po));
        }
        o["params"] = std::move(ps);
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
            if (m->getParent()->isLambda()) o["lambda"] = true;
            o["acc"] = m->getAccess() == AS_public      ? "public"
                       : m->getAccess() == AS_protected ? "protected"
                                                        : "private";
            json::Array ov;
            for (auto* b : m->overridden_methods()) ov.push_back(fid(b));
            if (ov.size()) o["over"] = std::move(ov);
        }
        if (auto* c = dyn_cast<CXXConstructorDecl>(f)) {
            o["isctor"] = true;
            json::Array is;
            for (auto* i : c->inits()) {
                json::Object io;
                io["l"] = loc(i->getSourceLocation());
                if (i->isAnyMemberInitializer()) io["field"] = i->getAnyMember()->getNameAsString();
                else if (i->isDelegatingInitializer()) io["delegate"] = true;
                else if (i->isBaseInitializer()) io["base"] = ty(QualType(i->getBaseClass(), 0));
                if (i->isWritten()) io["written"] = true;
                if (i->getInit()) io["e"] = E(i->getInit());
                is.push_back(std::move(io));
            }
            o["inits"] = std::move(is);
        }
        if (isa<CXXDestructorDecl>(f)) o["isdtor"] = true;
        o["body"] = S(f->getBody());
        Functions.push_back(std::move(o));
    }

    void record(const CXXRecordDecl* r) {
        r = r->getDefinition();
        if (!r || r->isDependentContext() || r->isLambda() || r->isInvalidDecl()) return;
        if (!inRepo(r->getLocation())) return;
        if (!RecDone.insert(r).second) return;
        json::Object o;
        o["n"] = recName(r);
        o["short"] = r->getNameAsString();
        o["l"] = loc(r->getLocation());
        if (r->isAbstract()) o["abstract"] = true;
        json::Array bs;
        for (auto& b : r->bases()) bs.push_back(ty(b.getType()));
        o["bases"] = std::move(bs);
        json::Array fs;
        for (auto* f : r->fields()) {
            json::Object fo;
            fo["n"] = f->getNameAsString();
            fo["t"] = ty(f->getType());
            fo["l"] = loc(f->getLocation());
            if (f->isMutable()) fo["mutable"] = true;
            if (f->hasInClassInitializer() && f->getInClassInitializer())
                fo["init"] = E(f->getInClassInitializer());
            fs.push_back(std::move(fo));
        }
        o["fields"] = std::move(fs);
        json::Array ms;
        for (auto* m : r->methods()) {
            if (m->isImplicit()) continue;
            json::Object mo = fref(m);
            mo["rt"] = ty(m->getReturnType());
            mo["l"] = loc(m->getLocation());
            if (m->isPureVirtual()) mo["pure"] = true;
            if (m->isDefaulted()) mo["defaulted"] = true;
            if (m->isDeleted()) mo["deleted"] = true;
            mo["acc"] = m->getAccess() == AS_public      ? "public"
                        : m->getAccess() == AS_protected ? "protected"
                                                         : "private";
            json::Array ov;
            for (auto* b : m->overridden_methods()) ov.push_back(fid(b));
            if (ov.size()) mo["over"] = std::move(ov);
            ms.push_back(std::move(mo));
        }
        o["methods"] = std::move(ms);
        // member templates' instantiations
        Records.push_back(std::move(o));
    }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
 public:
    explicit Visitor(Dumper& d) : D(d) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitLambdaBody() const { return true; }
    bool VisitFunctionDecl(FunctionDecl* f) {
        D.function(f);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* r) {
        D.record(r);
        return true;
    }
    bool VisitVarDecl(VarDecl* v) {
        if (v->isFileVarDecl() && !v->isInvalidDecl() && !v->getType()->isDependentType() &&
            D.inRepo(v->getLocation())) {
            json::Object o;
            o["q"] = D.qname(v);
            o["t"] = D.ty(v->getType());
            o["l"] = D.loc(v->getLocation());
            if (v->getType().isConstQualified() || v->isConstexpr()) o["const"] = true;
            D.Globals.push_back(std::move(o));
        }
        return true;
    }
    Dumper& D;
};

class Consumer : public ASTConsumer {
 public:
    void HandleTranslationUnit(ASTContext& ctx) override {
        if (ctx.getDiagnostics().hasErrorOccurred()) HadError = true;
        Dumper d(ctx);
        Visitor(d).TraverseDecl(ctx.getTranslationUnitDecl());
        json::Object o;
        o["functions"] = std::move(d.Functions);
        o["records"] = std::move(d.Records);
        o["globals"] = std::move(d.Globals);
        std::error_code ec;
        llvm::raw_fd_ostream os(OutFile, ec);
        os << json::Value(std::move(o));
    }
};
class Action : public ASTFrontendAction {
 public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, llvm::StringRef) override {
        return std::make_unique<Consumer>();
    }
};
}  // namespace

int main(int argc, char** argv) {
    // dwfacts <root/> <out.json> <file> flags...
    if (argc < 4) return 2;
    Root = argv[1];
    OutFile = argv[2];
    std::vector<std::string> flags(argv + 4, argv + argc);
    tooling::FixedCompilationDatabase db(".", flags);
    tooling::ClangTool t(db, {argv[3]});
    int rc = t.run(tooling::newFrontendActionFactory<Action>().get());
    return rc || HadError ? 3 : 0;
}
