// Exports the resolved program (clang AST after semantic analysis) of tomsolver as compact JSON.
// Nothing is executed: this is the front end of the static analyses in /verif/analysis.
//
//   exporter <repo-prefix> <main-file> -- <clang args>
//
// Every function with a body whose definition lies under <repo-prefix> is exported (template instantiations
// included, uninstantiated patterns not), together with records, enums, and namespace/static variables.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

#include <map>
#include <set>
#include <string>

using namespace clang;
namespace json = llvm::json;

static std::string RepoPrefix;

namespace {

class Exporter : public RecursiveASTVisitor<Exporter> {
public:
    explicit Exporter(ASTContext &ctx) : Ctx(ctx), SM(ctx.getSourceManager()), Pol(ctx.getPrintingPolicy()) {
        Pol.SuppressTagKeyword = true;
        Pol.FullyQualifiedName = true;
        Pol.Bool = true;
    }

    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool shouldVisitLambdaBody() const { return true; }

    json::Object finish() {
        json::Array ts;
        for (auto &t : TypeList) ts.push_back(t);
        return json::Object{{"functions", std::move(Functions)},
                            {"decls", std::move(FnDecls)},
                            {"records", std::move(Records)},
                            {"enums", std::move(Enums)},
                            {"globals", std::move(Globals)},
                            {"types", std::move(ts)}};
    }

    std::string fileOf(SourceLocation loc) {
        loc = SM.getExpansionLoc(loc);
        auto f = SM.getFilename(loc);
        return f.str();
    }
    bool inRepo(SourceLocation loc) {
        auto f = fileOf(loc);
        return f.rfind(RepoPrefix, 0) == 0;
    }
    int lineOf(SourceLocation loc) { return (int)SM.getExpansionLineNumber(loc); }

    int typeIdx(QualType t) {
        if (t.isNull()) return -1;
        std::string s = t.getCanonicalType().getAsString(Pol);
        auto it = TypeIdx.find(s);
        if (it != TypeIdx.end()) return it->second;
        int i = (int)TypeList.size();
        TypeList.push_back(s);
        TypeIdx[s] = i;
        return i;
    }
    int declId(const Decl *d) {
        d = d->getCanonicalDecl();
        auto it = DeclIdx.find(d);
        if (it != DeclIdx.end()) return it->second;
        int i = (int)DeclIdx.size() + 1;
        DeclIdx[d] = i;
        return i;
    }
    static std::string usr(const Decl *d) {
        llvm::SmallString<128> buf;
        if (index::generateUSRForDecl(d, buf)) return "";
        return std::string(buf.str());
    }

    static bool canThrow(const FunctionDecl *fd) {
        auto *fpt = fd->getType()->getAs<FunctionProtoType>();
        if (!fpt) return true;
        auto est = fpt->getExceptionSpecType();
        if (est == EST_Unevaluated || est == EST_Uninstantiated || est == EST_Unparsed) {
            return !isa<CXXDestructorDecl>(fd);
        }
        return fpt->canThrow() != CT_Cannot;
    }
    static bool explicitNoexcept(const FunctionDecl *fd) {
        auto *fpt = fd->getType()->getAs<FunctionProtoType>();
        if (!fpt) return false;
        auto est = fpt->getExceptionSpecType();
        return est == EST_BasicNoexcept || est == EST_NoexceptTrue || est == EST_DynamicNone || est == EST_NoThrow;
    }

    json::Object calleeInfo(const FunctionDecl *fd) {
        json::Object o;
        o["usr"] = usr(fd);
        o["q"] = fd->getQualifiedNameAsString();
        o["n"] = fd->getNameAsString();
        if (auto *md = dyn_cast<CXXMethodDecl>(fd)) {
            o["cls"] = md->getParent()->getQualifiedNameAsString();
            o["clst"] = typeIdx(Ctx.getRecordType(md->getParent()));
            if (md->isConst()) o["const"] = true;
            if (md->isStatic()) o["static"] = true;
            if (md->isVirtual()) o["virtual"] = true;
            if (md->getParent()->isLambda()) {
                o["lambda"] = true;
            }
        }
        if (isa<CXXConstructorDecl>(fd)) o["ctor"] = true;
        if (isa<CXXDestructorDecl>(fd)) o["dtor"] = true;
        if (isa<CXXConversionDecl>(fd)) o["conv"] = true;
        if (!canThrow(fd)) o["noexcept"] = true;
        if (fd->isImplicit()) o["implicit"] = true;
        if (fd->isDefaulted()) o["defaulted"] = true;
        if (fd->isVariadic()) o["variadic"] = true;
        const FunctionDecl *def = fd;
        if (fd->hasBody(def)) {
        }
        if (!inRepo(fd->getLocation()) ) o["ext"] = true;
        json::Array pts;
        for (auto *p : fd->parameters()) pts.push_back(typeIdx(p->getType()));
        o["pt"] = std::move(pts);
        o["rt"] = typeIdx(fd->getReturnType());
        return o;
    }

    // ---------------------------------------------------------------- expressions
    json::Object mk(const char *k, const Stmt *s) {
        json::Object o;
        o["k"] = k;
        o["l"] = lineOf(s->getBeginLoc());
        if (auto *e = dyn_cast<Expr>(s)) {
            o["t"] = typeIdx(e->getType());
            if (e->isLValue()) o["vc"] = "l";
            else if (e->isXValue()) o["vc"] = "x";
        }
        return o;
    }

    json::Value args(llvm::iterator_range<CallExpr::const_arg_iterator> r) {
        json::Array a;
        for (auto *x : r) a.push_back(expr(x));
        return a;
    }

    json::Value expr(const Expr *e) {
        if (!e) return nullptr;
        switch (e->getStmtClass()) {
        case Stmt::ParenExprClass: return expr(cast<ParenExpr>(e)->getSubExpr());
        case Stmt::ExprWithCleanupsClass: return expr(cast<ExprWithCleanups>(e)->getSubExpr());
        case Stmt::CXXBindTemporaryExprClass: return expr(cast<CXXBindTemporaryExpr>(e)->getSubExpr());
        case Stmt::MaterializeTemporaryExprClass: {
            auto inner = expr(cast<MaterializeTemporaryExpr>(e)->getSubExpr());
            return inner;
        }
        case Stmt::ConstantExprClass: return expr(cast<ConstantExpr>(e)->getSubExpr());
        case Stmt::SubstNonTypeTemplateParmExprClass:
            return expr(cast<SubstNonTypeTemplateParmExpr>(e)->getReplacement());
        case Stmt::CXXDefaultArgExprClass: {
            auto v = expr(cast<CXXDefaultArgExpr>(e)->getExpr());
            if (auto *o = v.getAsObject()) (*o)["defarg"] = true;
            return v;
        }
        case Stmt::CXXDefaultInitExprClass: return expr(cast<CXXDefaultInitExpr>(e)->getExpr());
        case Stmt::CXXStdInitializerListExprClass: {
            auto o = mk("stdinit", e);
            o["e"] = expr(cast<CXXStdInitializerListExpr>(e)->getSubExpr());
            return o;
        }
        case Stmt::DeclRefExprClass: {
            auto *r = cast<DeclRefExpr>(e);
            auto *d = r->getDecl();
            auto o = mk("ref", e);
            o["n"] = d->getNameAsString();
            if (auto *ec = dyn_cast<EnumConstantDecl>(d)) {
                o["dk"] = "enum";
                o["q"] = ec->getQualifiedNameAsString();
                o["val"] = ec->getInitVal().getExtValue();
            } else if (auto *fd = dyn_cast<FunctionDecl>(d)) {
                o["dk"] = "func";
                o["callee"] = calleeInfo(fd);
            } else if (auto *vd = dyn_cast<VarDecl>(d)) {
                o["dk"] = isa<ParmVarDecl>(vd) ? "param" : (vd->hasGlobalStorage() ? "global" : "var");
                o["d"] = declId(vd);
                if (vd->hasGlobalStorage()) {
                    o["q"] = vd->getQualifiedNameAsString();
                    if (!inRepo(vd->getLocation())) o["ext"] = true;
                    if (!vd->getType()->isDependentType()) {
                        const VarDecl *def = nullptr;
                        if (auto *init = vd->getAnyInitializer(def)) {
                            if (!init->isValueDependent() && vd->getType().isConstQualified()) constVal(init, o);
                        }
                    }
                }
            } else {
                o["dk"] = "other";
            }
            if (r->refersToEnclosingVariableOrCapture()) o["cap"] = true;
            return o;
        }
        case Stmt::CXXThisExprClass: return mk("this", e);
        case Stmt::MemberExprClass: {
            auto *m = cast<MemberExpr>(e);
            auto o = mk("mem", e);
            o["b"] = expr(m->getBase());
            if (m->isArrow()) o["arrow"] = true;
            o["f"] = m->getMemberDecl()->getNameAsString();
            if (auto *fd = dyn_cast<FieldDecl>(m->getMemberDecl())) {
                o["cls"] = fd->getParent()->getQualifiedNameAsString();
                o["dk"] = "field";
            } else if (auto *vd = dyn_cast<VarDecl>(m->getMemberDecl())) {
                o["dk"] = "static";
                o["q"] = vd->getQualifiedNameAsString();
            } else {
                o["dk"] = "method";
                if (auto *fd = dyn_cast<FunctionDecl>(m->getMemberDecl())) o["callee"] = calleeInfo(fd);
            }
            return o;
        }
        case Stmt::CXXOperatorCallExprClass: {
            auto *c = cast<CXXOperatorCallExpr>(e);
            auto o = mk("opcall", e);
            o["op"] = getOperatorSpelling(c->getOperator());
            if (auto *fd = c->getDirectCallee()) o["callee"] = calleeInfo(fd);
            o["args"] = args(c->arguments());
            return o;
        }
        case Stmt::CXXMemberCallExprClass: {
            auto *c = cast<CXXMemberCallExpr>(e);
            auto o = mk("mcall", e);
            if (auto *fd = c->getMethodDecl()) o["callee"] = calleeInfo(fd);
            if (auto *me = dyn_cast<MemberExpr>(c->getCallee()->IgnoreParens())) {
                o["obj"] = expr(me->getBase());
                if (me->isArrow()) o["arrow"] = true;
                if (me->hasQualifier()) o["qualified"] = true;
            } else {
                o["fn"] = expr(c->getCallee());
                o["obj"] = expr(c->getImplicitObjectArgument());
            }
            o["args"] = args(c->arguments());
            return o;
        }
        case Stmt::UserDefinedLiteralClass:
        case Stmt::CallExprClass: {
            auto *c = cast<CallExpr>(e);
            auto o = mk("call", e);
            if (auto *fd = c->getDirectCallee()) {
                o["callee"] = calleeInfo(fd);
                if (fd->getBuiltinID() && fd->isNoReturn()) o["noreturn"] = true;
                if (fd->isNoReturn()) o["noreturn"] = true;
                if (fd->isConstexpr() && !e->isValueDependent()) constVal(e, o);
            } else {
                o["fn"] = expr(c->getCallee());
            }
            o["args"] = args(c->arguments());
            return o;
        }
        case Stmt::CXXTemporaryObjectExprClass:
        case Stmt::CXXConstructExprClass: {
            auto *c = cast<CXXConstructExpr>(e);
            auto o = mk("ctor", e);
            auto *cd = c->getConstructor();
            o["callee"] = calleeInfo(cd);
            o["cls"] = cd->getParent()->getQualifiedNameAsString();
            if (cd->isCopyConstructor()) o["copy"] = true;
            if (cd->isMoveConstructor()) o["move"] = true;
            if (cd->isDefaultConstructor()) o["default"] = true;
            if (c->isListInitialization()) o["list"] = true;
            if (c->isElidable()) o["elidable"] = true;
            o["args"] = args(c->arguments());
            return o;
        }
        case Stmt::CXXInheritedCtorInitExprClass: return mk("inhctor", e);
        case Stmt::CXXNewExprClass: {
            auto *n = cast<CXXNewExpr>(e);
            auto o = mk("new", e);
            o["at"] = typeIdx(n->getAllocatedType());
            o["init"] = expr(n->getInitializer());
            if (n->isArray()) o["array"] = true;
            json::Array pl;
            for (unsigned i = 0; i < n->getNumPlacementArgs(); ++i) pl.push_back(expr(n->getPlacementArg(i)));
            if (!pl.empty()) o["placement"] = std::move(pl);
            return o;
        }
        case Stmt::CXXDeleteExprClass: {
            auto o = mk("delete", e);
            o["e"] = expr(cast<CXXDeleteExpr>(e)->getArgument());
            return o;
        }
        case Stmt::CXXThrowExprClass: {
            auto o = mk("throw", e);
            auto *t = cast<CXXThrowExpr>(e)->getSubExpr();
            o["e"] = expr(t);
            if (t) {
                o["tt"] = typeIdx(t->getType().getUnqualifiedType());
                if (auto *rd = t->getType()->getAsCXXRecordDecl()) o["bases"] = bases(rd);
            }
            return o;
        }
        case Stmt::CompoundAssignOperatorClass:
        case Stmt::BinaryOperatorClass: {
            auto *b = cast<BinaryOperator>(e);
            auto o = mk("bin", e);
            o["op"] = b->getOpcodeStr().str();
            o["a"] = expr(b->getLHS());
            o["b"] = expr(b->getRHS());
            if (auto *ca = dyn_cast<CompoundAssignOperator>(b)) {
                o["ct"] = typeIdx(ca->getComputationResultType());
            }
            return o;
        }
        case Stmt::UnaryOperatorClass: {
            auto *u = cast<UnaryOperator>(e);
            auto o = mk("un", e);
            std::string op = UnaryOperator::getOpcodeStr(u->getOpcode()).str();
            if (u->isPostfix()) op = "post" + op;
            o["op"] = op;
            o["a"] = expr(u->getSubExpr());
            return o;
        }
        case Stmt::ConditionalOperatorClass: {
            auto *c = cast<ConditionalOperator>(e);
            auto o = mk("cond", e);
            o["c"] = expr(c->getCond());
            o["a"] = expr(c->getTrueExpr());
            o["b"] = expr(c->getFalseExpr());
            return o;
        }
        case Stmt::ImplicitCastExprClass:
        case Stmt::CStyleCastExprClass:
        case Stmt::CXXStaticCastExprClass:
        case Stmt::CXXFunctionalCastExprClass:
        case Stmt::CXXConstCastExprClass:
        case Stmt::CXXReinterpretCastExprClass:
        case Stmt::CXXDynamicCastExprClass: {
            auto *c = cast<CastExpr>(e);
            auto ck = c->getCastKind();
            bool expl = isa<ExplicitCastExpr>(e);
            bool constCast = isa<CXXConstCastExpr>(e) || isa<CXXReinterpretCastExpr>(e);
            if (!constCast) {
                switch (ck) {
                case CK_NoOp: {
                    if (expl) break; // explicit casts that drop const must stay visible
                    auto v = expr(c->getSubExpr());
                    if (c->getType().isConstQualified())
                        if (auto *o = v.getAsObject()) (*o)["cq"] = true; // used through a const view
                    return v;
                }
                case CK_LValueToRValue: {
                    auto v = expr(c->getSubExpr());
                    if (auto *o = v.getAsObject()) (*o)["rd"] = true; // its value is read
                    return v;
                }
                case CK_FunctionToPointerDecay:
                case CK_ConstructorConversion:
                case CK_UserDefinedConversion:
                case CK_ArrayToPointerDecay:
                case CK_BuiltinFnToFnPtr:
                    return expr(c->getSubExpr());
                default: break;
                }
            }
            auto o = mk("cast", e);
            o["ck"] = c->getCastKindName();
            if (expl) o["expl"] = true;
            if (constCast) o["constcast"] = true;
            o["e"] = expr(c->getSubExpr());
            return o;
        }
        case Stmt::IntegerLiteralClass: {
            auto o = mk("int", e);
            o["v"] = (int64_t)cast<IntegerLiteral>(e)->getValue().getSExtValue();
            auto v = cast<IntegerLiteral>(e)->getValue();
            o["v"] = v.isIntN(63) ? json::Value((int64_t)v.getZExtValue()) : json::Value(toStr(v));
            return o;
        }
        case Stmt::FloatingLiteralClass: {
            auto o = mk("float", e);
            auto v = cast<FloatingLiteral>(e)->getValue();
            if (v.isFinite()) o["v"] = v.convertToDouble();
            else o["v"] = 1e308;
            return o;
        }
        case Stmt::CXXBoolLiteralExprClass: {
            auto o = mk("bool", e);
            o["v"] = cast<CXXBoolLiteralExpr>(e)->getValue();
            return o;
        }
        case Stmt::CharacterLiteralClass: {
            auto o = mk("char", e);
            o["v"] = (int64_t)cast<CharacterLiteral>(e)->getValue();
            return o;
        }
        case Stmt::StringLiteralClass: {
            auto o = mk("str", e);
            auto *sl = cast<StringLiteral>(e);
            std::string s = sl->getBytes().str();
            if (json::isUTF8(s)) o["v"] = s;
            else o["v"] = json::fixUTF8(s);
            return o;
        }
        case Stmt::PredefinedExprClass: {
            auto o = mk("str", e);
            o["v"] = "__func__";
            return o;
        }
        case Stmt::CXXNullPtrLiteralExprClass:
        case Stmt::GNUNullExprClass: return mk("null", e);
        case Stmt::ImplicitValueInitExprClass:
        case Stmt::CXXScalarValueInitExprClass: return mk("valinit", e);
        case Stmt::InitListExprClass: {
            auto *il = cast<InitListExpr>(e);
            if (il->isSemanticForm() == false && il->getSemanticForm()) il = il->getSemanticForm();
            auto o = mk("init", e);
            json::Array a;
            for (auto *x : il->inits()) a.push_back(expr(x));
            o["e"] = std::move(a);
            if (il->getType()->isRecordType()) {
                json::Array fs;
                if (auto *rd = il->getType()->getAsRecordDecl())
                    for (auto *f : rd->fields()) fs.push_back(f->getNameAsString());
                o["fields"] = std::move(fs);
            }
            return o;
        }
        case Stmt::CXXParenListInitExprClass: return mk("parenlist", e);
        case Stmt::ArraySubscriptExprClass: {
            auto *a = cast<ArraySubscriptExpr>(e);
            auto o = mk("idx", e);
            o["a"] = expr(a->getBase());
            o["b"] = expr(a->getIdx());
            return o;
        }
        case Stmt::LambdaExprClass: return lambda(cast<LambdaExpr>(e));
        case Stmt::UnaryExprOrTypeTraitExprClass: {
            auto o = mk("sizeof", e);
            if (!e->isValueDependent()) constVal(e, o);
            return o;
        }
        case Stmt::TypeTraitExprClass:
        case Stmt::CXXNoexceptExprClass: {
            auto o = mk("trait", e);
            if (!e->isValueDependent()) constVal(e, o);
            return o;
        }
        case Stmt::CXXTypeidExprClass: return mk("typeid", e);
        default: {
            auto o = mk("unk", e);
            o["cls"] = e->getStmtClassName();
            json::Array a;
            for (auto *c : e->children())
                if (auto *ce = dyn_cast_or_null<Expr>(c)) a.push_back(expr(ce));
            o["e"] = std::move(a);
            return o;
        }
        }
    }

    static std::string toStr(const llvm::APInt &v) {
        llvm::SmallString<32> s;
        v.toStringUnsigned(s);
        return std::string(s.str());
    }

    void constVal(const Expr *e, json::Object &o) {
        Expr::EvalResult r;
        if (e->isValueDependent() || e->isTypeDependent()) return;
        if (!(e->getType()->isArithmeticType() || e->getType()->isEnumeralType())) return;
        if (e->EvaluateAsRValue(r, Ctx) && !r.HasSideEffects) {
            if (r.Val.isInt()) {
                auto &v = r.Val.getInt();
                if (v.isSigned() ? v.isSignedIntN(63) : v.isIntN(63)) o["cv"] = (int64_t)v.getExtValue();
                else {
                    llvm::SmallString<32> s;
                    v.toString(s, 10);
                    o["cv"] = std::string(s.str());
                }
            } else if (r.Val.isFloat()) {
                auto &f = r.Val.getFloat();
                if (f.isFinite()) o["cv"] = f.convertToDouble();
                else o["cvf"] = f.isNaN() ? "nan" : (f.isNegative() ? "-inf" : "inf");
            }
        }
    }

    json::Array bases(const CXXRecordDecl *rd) {
        json::Array a;
        std::function<void(const CXXRecordDecl *)> go = [&](const CXXRecordDecl *r) {
            if (!r) return;
            a.push_back(r->getQualifiedNameAsString());
            if (!r->hasDefinition()) return;
            for (auto &b : r->getDefinition()->bases()) go(b.getType()->getAsCXXRecordDecl());
        };
        go(rd);
        return a;
    }

    json::Value lambda(const LambdaExpr *l) {
        auto o = mk("lambda", l);
        o["id"] = declId(l->getLambdaClass());
        json::Array caps;
        auto initIt = l->capture_init_begin();
        for (auto &c : l->captures()) {
            json::Object co;
            if (c.capturesThis()) {
                co["this"] = true;
            } else if (c.capturesVariable()) {
                auto *v = c.getCapturedVar();
                co["d"] = declId(v);
                co["n"] = v->getNameAsString();
                co["byref"] = c.getCaptureKind() == LCK_ByRef;
                if (l->isInitCapture(&c)) {
                    if (auto *vd = dyn_cast<VarDecl>(v)) co["init"] = expr(vd->getInit());
                    co["t"] = typeIdx(v->getType());
                }
            }
            caps.push_back(std::move(co));
            ++initIt;
        }
        o["caps"] = std::move(caps);
        if (l->isMutable()) o["mutable"] = true;
        auto *op = l->getCallOperator();
        if (l->isGenericLambda()) {
            o["generic"] = true;
            json::Array specs;
            if (auto *ft = op->getDescribedFunctionTemplate()) {
                for (auto *s : ft->specializations()) {
                    const FunctionDecl *def = nullptr;
                    if (s->hasBody(def)) specs.push_back(fnCore(def));
                }
            }
            o["specs"] = std::move(specs);
        } else {
            o["op"] = fnCore(op);
        }
        return o;
    }

    json::Object fnCore(const FunctionDecl *fd) {
        json::Object o;
        json::Array ps;
        for (auto *p : fd->parameters()) {
            json::Object po;
            po["d"] = declId(p);
            po["n"] = p->getNameAsString();
            po["t"] = typeIdx(p->getType());
            ps.push_back(std::move(po));
        }
        o["params"] = std::move(ps);
        o["ret"] = typeIdx(fd->getReturnType());
        o["l"] = lineOf(fd->getBeginLoc());
        o["el"] = lineOf(fd->getEndLoc());
        if (!canThrow(fd)) o["noexcept"] = true;
        if (explicitNoexcept(fd)) o["expl_noexcept"] = true;
        o["body"] = stmt(fd->getBody());
        return o;
    }

    // ---------------------------------------------------------------- statements
    json::Object varDecl(const VarDecl *vd) {
        json::Object o;
        o["d"] = declId(vd);
        o["n"] = vd->getNameAsString();
        o["t"] = typeIdx(vd->getType());
        o["l"] = lineOf(vd->getLocation());
        if (vd->getType()->isReferenceType()) o["ref"] = true;
        if (vd->isStaticLocal()) o["static"] = true;
        if (vd->getType().isConstQualified()) o["const"] = true;
        o["init"] = expr(vd->getInit());
        return o;
    }

    json::Value stmt(const Stmt *s) {
        if (!s) return nullptr;
        if (auto *e = dyn_cast<Expr>(s)) {
            json::Object o;
            o["k"] = "expr";
            o["l"] = lineOf(s->getBeginLoc());
            o["e"] = expr(e);
            return o;
        }
        json::Object o;
        o["l"] = lineOf(s->getBeginLoc());
        switch (s->getStmtClass()) {
        case Stmt::CompoundStmtClass: {
            o["k"] = "block";
            json::Array a;
            for (auto *c : cast<CompoundStmt>(s)->body()) a.push_back(stmt(c));
            o["b"] = std::move(a);
            o["el"] = lineOf(s->getEndLoc());
            return o;
        }
        case Stmt::DeclStmtClass: {
            o["k"] = "decl";
            json::Array a;
            for (auto *d : cast<DeclStmt>(s)->decls())
                if (auto *vd = dyn_cast<VarDecl>(d)) a.push_back(varDecl(vd));
            o["v"] = std::move(a);
            return o;
        }
        case Stmt::IfStmtClass: {
            auto *i = cast<IfStmt>(s);
            o["k"] = "if";
            if (i->getInit()) o["init"] = stmt(i->getInit());
            if (i->getConditionVariable()) o["cv"] = varDecl(i->getConditionVariable());
            o["c"] = expr(i->getCond());
            o["a"] = stmt(i->getThen());
            o["b"] = stmt(i->getElse());
            return o;
        }
        case Stmt::WhileStmtClass: {
            auto *w = cast<WhileStmt>(s);
            o["k"] = "while";
            if (w->getConditionVariable()) o["cv"] = varDecl(w->getConditionVariable());
            o["c"] = expr(w->getCond());
            o["b"] = stmt(w->getBody());
            return o;
        }
        case Stmt::DoStmtClass: {
            auto *w = cast<DoStmt>(s);
            o["k"] = "do";
            o["c"] = expr(w->getCond());
            o["b"] = stmt(w->getBody());
            return o;
        }
        case Stmt::ForStmtClass: {
            auto *f = cast<ForStmt>(s);
            o["k"] = "for";
            o["init"] = stmt(f->getInit());
            o["c"] = expr(f->getCond());
            o["inc"] = expr(f->getInc());
            o["b"] = stmt(f->getBody());
            return o;
        }
        case Stmt::CXXForRangeStmtClass: {
            auto *f = cast<CXXForRangeStmt>(s);
            o["k"] = "rfor";
            o["v"] = varDecl(f->getLoopVariable());
            o["r"] = expr(f->getRangeInit());
            o["b"] = stmt(f->getBody());
            return o;
        }
        case Stmt::SwitchStmtClass: {
            auto *w = cast<SwitchStmt>(s);
            o["k"] = "switch";
            if (w->getInit()) o["init"] = stmt(w->getInit());
            if (w->getConditionVariable()) o["cv"] = varDecl(w->getConditionVariable());
            o["c"] = expr(w->getCond());
            o["b"] = stmt(w->getBody());
            return o;
        }
        case Stmt::CaseStmtClass: {
            auto *c = cast<CaseStmt>(s);
            o["k"] = "case";
            o["v"] = expr(c->getLHS());
            constVal(c->getLHS(), o);
            o["s"] = stmt(c->getSubStmt());
            return o;
        }
        case Stmt::DefaultStmtClass:
            o["k"] = "default";
            o["s"] = stmt(cast<DefaultStmt>(s)->getSubStmt());
            return o;
        case Stmt::BreakStmtClass: o["k"] = "break"; return o;
        case Stmt::ContinueStmtClass: o["k"] = "continue"; return o;
        case Stmt::NullStmtClass: o["k"] = "nop"; return o;
        case Stmt::ReturnStmtClass:
            o["k"] = "return";
            o["e"] = expr(cast<ReturnStmt>(s)->getRetValue());
            return o;
        case Stmt::CXXTryStmtClass: {
            auto *t = cast<CXXTryStmt>(s);
            o["k"] = "try";
            o["b"] = stmt(t->getTryBlock());
            json::Array hs;
            for (unsigned i = 0; i < t->getNumHandlers(); ++i) {
                auto *h = t->getHandler(i);
                json::Object ho;
                ho["l"] = lineOf(h->getBeginLoc());
                if (auto *v = h->getExceptionDecl()) {
                    ho["v"] = varDecl(v);
                    auto qt = h->getCaughtType().getNonReferenceType().getUnqualifiedType();
                    ho["t"] = typeIdx(qt);
                    if (auto *rd = qt->getAsCXXRecordDecl()) ho["cls"] = rd->getQualifiedNameAsString();
                } else {
                    ho["all"] = true;
                }
                ho["b"] = stmt(h->getHandlerBlock());
                hs.push_back(std::move(ho));
            }
            o["h"] = std::move(hs);
            return o;
        }
        case Stmt::LabelStmtClass:
            o["k"] = "label";
            o["n"] = cast<LabelStmt>(s)->getName();
            o["s"] = stmt(cast<LabelStmt>(s)->getSubStmt());
            return o;
        case Stmt::GotoStmtClass:
            o["k"] = "goto";
            o["n"] = cast<GotoStmt>(s)->getLabel()->getNameAsString();
            return o;
        case Stmt::AttributedStmtClass: return stmt(cast<AttributedStmt>(s)->getSubStmt());
        default:
            o["k"] = "unkstmt";
            o["cls"] = s->getStmtClassName();
            return o;
        }
    }

    // ---------------------------------------------------------------- declarations
    json::Object fnHead(const FunctionDecl *fd) {
        json::Object o;
        o["usr"] = usr(fd);
        o["q"] = fd->getQualifiedNameAsString();
        o["n"] = fd->getNameAsString();
        o["file"] = fileOf(fd->getLocation());
        o["dl"] = lineOf(fd->getLocation());
        if (auto *md = dyn_cast<CXXMethodDecl>(fd)) {
            o["cls"] = md->getParent()->getQualifiedNameAsString();
            if (md->isConst()) o["const"] = true;
            if (md->isStatic()) o["static"] = true;
            if (md->isVirtual()) o["virtual"] = true;
            o["access"] = accessName(md->getAccess());
        }
        if (isa<CXXConstructorDecl>(fd)) o["ctor"] = true;
        if (isa<CXXDestructorDecl>(fd)) o["dtor"] = true;
        if (fd->isImplicit()) o["implicit"] = true;
        if (fd->isDefaulted()) o["defaulted"] = true;
        if (fd->isDeleted()) o["deleted"] = true;
        if (fd->isInlined()) o["inline"] = true;
        if (fd->isConstexpr()) o["constexpr"] = true;
        if (fd->isTemplateInstantiation()) o["inst"] = true;
        if (fd->isInAnonymousNamespace()) o["anon"] = true;
        o["ext_linkage"] = fd->getFormalLinkage() == Linkage::External && !fd->isInAnonymousNamespace();
        if (!canThrow(fd)) o["noexcept"] = true;
        if (explicitNoexcept(fd)) o["expl_noexcept"] = true;
        json::Array ps;
        for (auto *p : fd->parameters()) {
            json::Object po;
            po["t"] = typeIdx(p->getType());
            po["n"] = p->getNameAsString();
            if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg())
                po["def"] = expr(p->getDefaultArg());
            ps.push_back(std::move(po));
        }
        o["sig"] = std::move(ps);
        o["ret"] = typeIdx(fd->getReturnType());
        return o;
    }
    static const char *accessName(AccessSpecifier a) {
        switch (a) {
        case AS_public: return "public";
        case AS_protected: return "protected";
        case AS_private: return "private";
        default: return "none";
        }
    }

    bool VisitFunctionDecl(FunctionDecl *fd) {
        if (!inRepo(fd->getLocation())) return true;
        if (fd->isDependentContext()) {
            // API surface: remember template declarations by name.
            if (auto *ft = fd->getDescribedFunctionTemplate()) {
                if (SeenTmpl.insert(ft->getCanonicalDecl()).second) {
                    json::Object o;
                    o["q"] = fd->getQualifiedNameAsString();
                    o["n"] = fd->getNameAsString();
                    o["template"] = true;
                    o["file"] = fileOf(fd->getLocation());
                    o["dl"] = lineOf(fd->getLocation());
                    json::Array ps;
                    for (auto *p : fd->parameters()) {
                        json::Object po;
                        po["t"] = typeIdx(p->getType());
                        ps.push_back(std::move(po));
                    }
                    o["sig"] = std::move(ps);
                    if (explicitNoexcept(fd)) o["expl_noexcept"] = true;
                    if (auto *md = dyn_cast<CXXMethodDecl>(fd)) {
                        if (md->getParent()->isLambda()) return true;
                        o["cls"] = md->getParent()->getQualifiedNameAsString();
                        o["access"] = accessName(md->getAccess());
                    }
                    FnDecls.push_back(std::move(o));
                }
            }
            return true;
        }
        if (auto *md = dyn_cast<CXXMethodDecl>(fd))
            if (md->getParent()->isLambda()) return true; // exported inside the lambda expression
        if (!fd->isThisDeclarationADefinition()) {
            if (!fd->isTemplateInstantiation()) FnDecls.push_back(fnHead(fd));
            return true;
        }
        if (fd->isThisDeclarationADefinition() && (fd->getBody() || fd->isDefaulted() || fd->isDeleted())) {
            if (!SeenFn.insert(fd).second) return true;
            auto o = fnHead(fd);
            if (fd->getBody()) {
                auto core = fnCore(fd);
                for (auto &kv : core) o[kv.first] = std::move(kv.second);
            }
            if (auto *cd = dyn_cast<CXXConstructorDecl>(fd)) {
                json::Array is;
                for (auto *i : cd->inits()) {
                    json::Object io;
                    if (i->isAnyMemberInitializer()) io["f"] = i->getAnyMember()->getNameAsString();
                    else if (i->isBaseInitializer()) io["base"] = typeIdx(QualType(i->getBaseClass(), 0));
                    else io["delegating"] = true;
                    io["written"] = i->isWritten();
                    io["e"] = expr(i->getInit());
                    is.push_back(std::move(io));
                }
                o["inits"] = std::move(is);
            }
            // is there any other (earlier) declaration?
            o["decls"] = (int64_t)std::distance(fd->redecls_begin(), fd->redecls_end());
            Functions.push_back(std::move(o));
        }
        return true;
    }

    bool VisitCXXRecordDecl(CXXRecordDecl *rd) {
        if (!inRepo(rd->getLocation()) || !rd->isThisDeclarationADefinition() || rd->isLambda()) return true;
        if (rd->isDependentContext()) return true;
        json::Object o;
        o["q"] = rd->getQualifiedNameAsString();
        o["file"] = fileOf(rd->getLocation());
        o["l"] = lineOf(rd->getLocation());
        json::Array fs;
        for (auto *f : rd->fields()) {
            json::Object fo;
            fo["n"] = f->getNameAsString();
            fo["t"] = typeIdx(f->getType());
            fo["access"] = accessName(f->getAccess());
            if (f->isMutable()) fo["mutable"] = true;
            if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = expr(f->getInClassInitializer());
            fs.push_back(std::move(fo));
        }
        o["fields"] = std::move(fs);
        o["bases"] = bases(rd);
        Records.push_back(std::move(o));
        return true;
    }

    bool VisitEnumDecl(EnumDecl *ed) {
        if (!inRepo(ed->getLocation()) || !ed->isThisDeclarationADefinition()) return true;
        json::Object o;
        o["q"] = ed->getQualifiedNameAsString();
        o["file"] = fileOf(ed->getLocation());
        json::Array a;
        for (auto *c : ed->enumerators()) {
            a.push_back(json::Object{{"n", c->getNameAsString()}, {"v", c->getInitVal().getExtValue()}});
        }
        o["e"] = std::move(a);
        Enums.push_back(std::move(o));
        return true;
    }

    bool VisitVarDecl(VarDecl *vd) {
        if (!inRepo(vd->getLocation()) || !vd->hasGlobalStorage() || isa<ParmVarDecl>(vd)) return true;
        if (vd->getDeclContext()->isDependentContext()) return true;
        json::Object o;
        o["q"] = vd->getQualifiedNameAsString();
        o["n"] = vd->getNameAsString();
        o["d"] = declId(vd);
        o["t"] = typeIdx(vd->getType());
        o["file"] = fileOf(vd->getLocation());
        o["l"] = lineOf(vd->getLocation());
        if (vd->getType().isConstQualified() || vd->isConstexpr()) o["const"] = true;
        if (vd->getType()->isArrayType() && Ctx.getBaseElementType(vd->getType()).isConstQualified()) o["const"] = true;
        if (vd->isStaticLocal()) o["static_local"] = true;
        if (vd->getTLSKind() != VarDecl::TLS_None) o["tls"] = true;
        if (auto *fd = dyn_cast_or_null<FunctionDecl>(vd->getParentFunctionOrMethod())) o["fn"] = fd->getQualifiedNameAsString();
        o["def"] = vd->isThisDeclarationADefinition() != VarDecl::DeclarationOnly;
        o["ext_linkage"] = vd->getFormalLinkage() == Linkage::External && !vd->isInAnonymousNamespace();
        if (vd->isInline()) o["inline"] = true;
        if (vd->getInit() && !vd->getInit()->isValueDependent()) {
            o["init"] = expr(vd->getInit());
            if (vd->getType().isConstQualified()) constVal(vd->getInit(), o);
        }
        Globals.push_back(std::move(o));
        return true;
    }

private:
    ASTContext &Ctx;
    SourceManager &SM;
    PrintingPolicy Pol;
    json::Array Functions, FnDecls, Records, Enums, Globals;
    std::map<std::string, int> TypeIdx;
    std::vector<std::string> TypeList;
    std::map<const Decl *, int> DeclIdx;
    std::set<const FunctionDecl *> SeenFn;
    std::set<const Decl *> SeenTmpl;
};

class Consumer : public ASTConsumer {
public:
    void HandleTranslationUnit(ASTContext &ctx) override {
        if (ctx.getDiagnostics().hasErrorOccurred()) return;
        Exporter ex(ctx);
        ex.TraverseDecl(ctx.getTranslationUnitDecl());
        llvm::outs() << json::Value(ex.finish()) << "\n";
    }
};

class Action : public ASTFrontendAction {
public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override {
        return std::make_unique<Consumer>();
    }
};

} // namespace

int main(int argc, const char **argv) {
    if (argc < 4) {
        llvm::errs() << "usage: exporter <repo-prefix> <file> -- <args>\n";
        return 2;
    }
    RepoPrefix = argv[1];
    std::string file = argv[2];
    std::vector<std::string> cargs;
    for (int i = 4; i < argc; ++i) cargs.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", cargs);
    tooling::ClangTool tool(db, {file});
    return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
