// cx: mechanical extraction of C++ functions, records, enums and globals from a
// translation unit into JSON.  Nothing is interpreted here: the output is the
// resolved clang AST (templates instantiated, overloads resolved, implicit
// conversions explicit).
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/RecordLayout.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/StmtCXX.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Index/USRGeneration.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <set>
#include <map>
using namespace clang;
namespace json = llvm::json;
using json::Array; using json::Object; using json::Value;

static std::vector<std::string> Roots;

class Extractor : public RecursiveASTVisitor<Extractor> {
public:
    explicit Extractor(ASTContext& c) : C(c), SM(c.getSourceManager()), PP(c.getPrintingPolicy()) {
        PP.SuppressDefaultTemplateArgs = true;
        PP.FullyQualifiedName = true;
        PP.SuppressScope = false;
        PP.PrintCanonicalTypes = true;
        PP.Bool = true;
        PP.SuppressTagKeyword = true;
        PP.SuppressUnwrittenScope = false;
        PP.AnonymousTagLocations = true;
    }
    Object out_funcs, out_recs, out_enums, out_vars;
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool shouldVisitLambdaBody() const { return true; }

    bool inRoots(SourceLocation l) {
        if (l.isInvalid()) return false;
        auto f = SM.getFilename(SM.getExpansionLoc(l));
        if (SM.isInSystemHeader(SM.getExpansionLoc(l))) return false;
        auto it = rootCache.find(f);
        if (it != rootCache.end()) return it->second;
        bool r = false;
        for (auto& p : Roots) if (f.starts_with(p)) r = true;
        rootCache[f] = r;
        return r;
    }
    std::string ty(QualType t) {
        if (t.isNull()) return "?";
        return t.getCanonicalType().getAsString(PP);
    }
    std::map<Decl const*, std::string> idCache;
    std::string id(Decl const* d) {
        if (!d) return "?";
        auto it = idCache.find(d);
        if (it != idCache.end()) return it->second;
        std::string r;
        if (isa<ParmVarDecl>(d) || (isa<VarDecl>(d) && cast<VarDecl>(d)->isLocalVarDecl()) || isa<BindingDecl>(d)) {
            r = "v" + std::to_string(reinterpret_cast<uintptr_t>(d) & 0xffffffffffULL) + ":" + (isa<NamedDecl>(d) ? cast<NamedDecl>(d)->getNameAsString() : "");
        } else {
            llvm::SmallString<256> b;
            if (auto* f = dyn_cast<FunctionDecl>(d)) {
                d = f->getCanonicalDecl();
            }
            if (index::generateUSRForDecl(d, b)) r = "d" + std::to_string(reinterpret_cast<uintptr_t>(d));
            else r = std::string(b);
            if (auto* f = dyn_cast<FunctionDecl>(d)) {
                auto* md = dyn_cast<CXXMethodDecl>(f);
                if (md && md->getParent()->isLambda()) r += "#" + std::to_string(reinterpret_cast<uintptr_t>(d) & 0xffffffffffULL);
            }
        }
        idCache[d] = r;
        return r;
    }
    std::string qn(NamedDecl const* d) {
        std::string s; llvm::raw_string_ostream o(s);
        auto p = C.getPrintingPolicy(); p.SuppressUnwrittenScope = true; p.SuppressInlineNamespace = true; p.AnonymousTagLocations = false;
        d->printQualifiedName(o, p);
        return s;
    }
    std::string loc(SourceLocation l) {
        if (l.isInvalid()) return "";
        auto e = SM.getExpansionLoc(l);
        return (SM.getFilename(e) + ":" + std::to_string(SM.getExpansionLineNumber(e))).str();
    }

    // ---- decl visitors
    bool VisitFunctionDecl(FunctionDecl* f) {
        if (!f->isThisDeclarationADefinition()) return true;
        if (f->isDependentContext()) return true;
        if (f->isDeleted()) return true;
        SourceLocation l = f->getLocation();
        if (!inRoots(l)) return true;
        if (!f->getBody() ) {
            if (!f->isDefaulted()) return true;
        }
        emitFunc(f);
        return true;
    }
    bool VisitLambdaExpr(LambdaExpr* e) {
        auto* f = e->getCallOperator();
        if (f->isDependentContext()) return true;
        if (!inRoots(f->getLocation())) return true;
        if (auto* t = e->getLambdaClass()->getDependentLambdaCallOperator()) {
            for (auto* s : t->specializations()) if (s->getBody()) emitFunc(s);
        } else emitFunc(f);
        return true;
    }
    void emitFunc(FunctionDecl* f) {
        auto i = id(f);
        if (out_funcs.get(i)) return;
        Object o;
        o["qn"] = qn(f); o["name"] = f->getNameAsString();
        o["loc"] = loc(f->getLocation());
        o["ret"] = ty(f->getReturnType());
        Array ps;
        for (auto* p : f->parameters()) ps.push_back(Object{{"id", id(p)}, {"n", p->getNameAsString()}, {"t", ty(p->getType())}});
        o["params"] = std::move(ps);
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
            o["cls"] = ty(C.getRecordType(m->getParent()));
            o["static"] = m->isStatic(); o["const"] = m->isConst();
            o["virtual"] = m->isVirtual();
            Array ov; for (auto* b : m->overridden_methods()) ov.push_back(id(b));
            if (!ov.empty()) o["over"] = std::move(ov);
            if (m->getRefQualifier() == RQ_RValue) o["rq"] = "&&";
            if (m->getParent()->isLambda()) o["lambda"] = true;
        }
        if (isa<CXXConstructorDecl>(f)) {
            auto* c = cast<CXXConstructorDecl>(f);
            o["ctor"] = true;
            if (c->isCopyConstructor()) o["copy"] = true;
            if (c->isMoveConstructor()) o["move"] = true;
            Array is;
            for (auto* in : c->inits()) {
                Object io;
                if (in->isAnyMemberInitializer()) { io["f"] = in->getAnyMember()->getNameAsString(); io["ft"] = ty(in->getAnyMember()->getType()); }
                else if (in->isBaseInitializer()) io["base"] = ty(QualType(in->getBaseClass(), 0));
                else if (in->isDelegatingInitializer()) io["deleg"] = true;
                if (in->getInit()) io["e"] = ex(in->getInit());
                is.push_back(std::move(io));
            }
            o["inits"] = std::move(is);
        }
        if (isa<CXXDestructorDecl>(f)) o["dtor"] = true;
        if (f->isDefaulted()) o["defaulted"] = true;
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
            if (m->isCopyAssignmentOperator()) o["copyasg"] = true;
            if (m->isMoveAssignmentOperator()) o["moveasg"] = true;
        }
        if (f->getBody()) o["body"] = st(f->getBody());
        out_funcs[i] = std::move(o);
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* r) {
        if (!r->isThisDeclarationADefinition() || r->isDependentContext()) return true;
        if (!inRoots(r->getLocation())) return true;
        auto n = ty(C.getRecordType(r));
        if (out_recs.get(n)) return true;
        Object o; o["qn"] = qn(r); o["loc"] = loc(r->getLocation());
        Array bs, fs, ms;
        for (auto& b : r->bases()) bs.push_back(ty(b.getType()));
        for (auto* f : r->fields()) {
            Object fo{{"n", f->getNameAsString()}, {"t", ty(f->getType())}};
            if (f->getInClassInitializer()) fo["init"] = ex(f->getInClassInitializer());
            fs.push_back(std::move(fo));
        }
        for (auto* m : r->methods()) {
            if (m->isDependentContext()) continue;
            Object mo{{"id", id(m)}, {"n", m->getNameAsString()}, {"virtual", m->isVirtual()}, {"pure", m->isPureVirtual()}, {"const", m->isConst()}, {"static", m->isStatic()},
                {"access", (int)m->getAccess()}, {"ret", ty(m->getReturnType())}, {"deleted", m->isDeleted()}, {"implicit", m->isImplicit()}};
            if (m->getRefQualifier() == RQ_RValue) mo["rq"] = "&&";
            Array ps; for (auto* p : m->parameters()) ps.push_back(ty(p->getType()));
            mo["params"] = std::move(ps);
            if (auto* c = dyn_cast<CXXConstructorDecl>(m)) { mo["ctor"] = true; (void)c; }
            if (isa<CXXDestructorDecl>(m)) { mo["dtor"] = true; mo["trivial"] = m->isTrivial(); }
            Array ov; for (auto* b : m->overridden_methods()) ov.push_back(id(b));
            if (!ov.empty()) mo["over"] = std::move(ov);
            ms.push_back(std::move(mo));
        }
        o["bases"] = std::move(bs); o["fields"] = std::move(fs); o["methods"] = std::move(ms);
        o["final"] = r->hasAttr<FinalAttr>(); o["abstract"] = r->isAbstract();
        if (r->hasDefinition() ) o["trivdtor"] = r->hasTrivialDestructor();
        if (r->isLambda()) o["lambda"] = true;
        out_recs[n] = std::move(o);
        return true;
    }
    bool VisitEnumDecl(EnumDecl* e) {
        if (!e->isThisDeclarationADefinition() || e->isDependentContext()) return true;
        if (!inRoots(e->getLocation())) return true;
        Object o; Array es;
        for (auto* c : e->enumerators()) es.push_back(Array{c->getNameAsString(), c->getInitVal().getExtValue()});
        o["items"] = std::move(es); o["ut"] = ty(e->getIntegerType()); o["loc"] = loc(e->getLocation());
        out_enums[ty(C.getEnumType(e))] = std::move(o);
        return true;
    }
    bool VisitVarDecl(VarDecl* v) {
        if (isa<ParmVarDecl>(v)) return true;
        if (v->getDeclContext()->isDependentContext() || v->getType()->isDependentType()) return true;
        if (!v->hasGlobalStorage()) return true;
        if (!inRoots(v->getLocation())) return true;
        emitVar(v);
        return true;
    }
    void emitVar(VarDecl const* v) {
        auto i = id(v);
        if (out_vars.get(i)) return;
        Object o; o["qn"] = qn(v); o["t"] = ty(v->getType()); o["loc"] = loc(v->getLocation());
        out_vars[i] = Object(o);
        VarDecl const* def = nullptr;
        if (auto* e = v->getAnyInitializer(def)) { if (!e->isValueDependent()) o["init"] = ex(e); }
        out_vars[i] = std::move(o);
    }

    // ---- expressions
    Value ex(Expr const* e) {
        if (!e) return nullptr;
        auto* orig = e;
        while (true) {
            if (auto* p = dyn_cast<ParenExpr>(e)) e = p->getSubExpr();
            else if (auto* p = dyn_cast<ExprWithCleanups>(e)) e = p->getSubExpr();
            else if (auto* p = dyn_cast<ConstantExpr>(e)) e = p->getSubExpr();
            else if (auto* p = dyn_cast<CXXBindTemporaryExpr>(e)) e = p->getSubExpr();
            else if (auto* p = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e = p->getReplacement();
            else if (auto* p = dyn_cast<CXXDefaultArgExpr>(e)) e = p->getExpr();
            else if (auto* p = dyn_cast<CXXDefaultInitExpr>(e)) e = p->getExpr();
            else break;
        }
        (void) orig;
        if (e->isTypeDependent() || e->isValueDependent()) return Object{{"k", "Dependent"}};
        auto t = ty(e->getType());
        // constants
        if (e->isPRValue() && (e->getType()->isIntegralOrEnumerationType()) && !isa<CXXScalarValueInitExpr>(e)) {
            Expr::EvalResult r;
            if (!e->HasSideEffects(C) && e->EvaluateAsInt(r, C, Expr::SE_NoSideEffects, true)) {
                auto v = r.Val.getInt();
                llvm::SmallString<40> s; v.toString(s, 10);
                return Object{{"k", "Int"}, {"v", std::string(s)}, {"t", t}};
            }
        }
        Object o; o["t"] = t;
        auto L = loc(e->getBeginLoc()); if (!L.empty()) o["l"] = L;
        auto K = [&](char const* k) -> Object& { o["k"] = k; return o; };
        if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) { K("Mat")["e"] = ex(x->getSubExpr()); }
        else if (auto* x = dyn_cast<LambdaExpr>(e)) {
            K("Lambda"); Array cs;
            auto* cls = x->getLambdaClass();
            auto fit = cls->field_begin();
            auto iit = x->capture_init_begin();
            for (auto& c : x->captures()) {
                Object co;
                if (c.capturesThis()) co["this"] = true;
                else if (c.capturesVariable()) { co["v"] = id(c.getCapturedVar()); co["n"] = c.getCapturedVar()->getNameAsString(); }
                co["byref"] = c.getCaptureKind() == LCK_ByRef;
                if (iit != x->capture_init_end()) { co["e"] = ex(*iit); ++iit; }
                if (fit != cls->field_end()) { co["ft"] = ty(fit->getType()); ++fit; }
                cs.push_back(std::move(co));
            }
            o["caps"] = std::move(cs);
            if (auto* tm = cls->getDependentLambdaCallOperator()) {
                Array fs; for (auto* s : tm->specializations()) fs.push_back(id(s));
                o["fns"] = std::move(fs);
            } else o["fn"] = id(x->getCallOperator());
        }
        else if (auto* x = dyn_cast<CastExpr>(e)) {
            K("Cast")["ck"] = x->getCastKindName(); o["e"] = ex(x->getSubExpr());
            if (x->getConversionFunction() && false) {}
        }
        else if (auto* x = dyn_cast<DeclRefExpr>(e)) {
            auto* d = x->getDecl();
            if (auto* b = dyn_cast<BindingDecl>(d)) {
                if (auto* hv = b->getHoldingVar()) { K("Ref"); o["d"] = id(hv); o["n"] = b->getNameAsString(); o["bind"] = true; }
                else return ex(b->getBinding());
            } else {
                K("Ref")["d"] = id(d); o["n"] = d->getNameAsString();
                if (isa<FunctionDecl>(d)) { o["dk"] = "fn"; o["qn"] = qn(d); }
                else if (auto* v = dyn_cast<VarDecl>(d)) {
                    if (v->hasGlobalStorage()) { o["dk"] = "global"; o["qn"] = qn(v); emitVar(v); }
                    o["vt"] = ty(v->getType());
                }
                else if (isa<EnumConstantDecl>(d)) { o["dk"] = "enumc"; }
            }
        }
        else if (auto* x = dyn_cast<MemberExpr>(e)) {
            auto* d = x->getMemberDecl();
            if (auto* v = dyn_cast<VarDecl>(d)) { K("Ref")["d"] = id(v); o["n"] = v->getNameAsString(); o["dk"] = "global"; o["qn"] = qn(v); o["vt"] = ty(v->getType()); emitVar(v); }
            else {
                K("Mem")["b"] = ex(x->getBase()); o["arrow"] = x->isArrow(); o["f"] = d->getNameAsString(); o["ft"] = ty(d->getType());
                if (isa<FunctionDecl>(d)) o["fn"] = id(d);
            }
        }
        else if (auto* x = dyn_cast<CXXMemberCallExpr>(e)) {
            auto* m = x->getMethodDecl();
            if (!m) { K("ICall")["callee"] = ex(x->getCallee()); o["args"] = args(x); }
            else {
                K("MCall")["fn"] = id(m); o["qn"] = qn(m); o["obj"] = ex(x->getImplicitObjectArgument());
                o["arrow"] = false;
                if (auto* me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())) {
                    o["arrow"] = me->isArrow();
                    o["virt"] = m->isVirtual() && !me->hasQualifier();
                }
                o["cls"] = ty(C.getRecordType(m->getParent()));
                o["args"] = args(x); o["pts"] = pts(m);
            }
        }
        else if (auto* x = dyn_cast<CallExpr>(e)) {
            auto* f = x->getDirectCallee();
            if (!f) { K("ICall")["callee"] = ex(x->getCallee()); o["args"] = args(x); }
            else if (auto* m = dyn_cast<CXXMethodDecl>(f); m && isa<CXXOperatorCallExpr>(x) && !m->isStatic()) {
                K("MCall")["fn"] = id(m); o["qn"] = qn(m); o["arrow"] = false;
                o["obj"] = ex(x->getArg(0)); o["virt"] = m->isVirtual();
                o["cls"] = ty(C.getRecordType(m->getParent()));
                Array as; for (unsigned i = 1; i < x->getNumArgs(); ++i) as.push_back(ex(x->getArg(i)));
                o["args"] = std::move(as); o["pts"] = pts(m); o["op"] = true;
            } else {
                K("Call")["fn"] = id(f); o["qn"] = qn(f); o["args"] = args(x); o["pts"] = pts(f);
                if (auto* ta = f->getTemplateSpecializationArgs()) {
                    Array tas;
                    for (auto& a : ta->asArray()) if (a.getKind() == TemplateArgument::Type) tas.push_back(ty(a.getAsType()));
                    o["targs"] = std::move(tas);
                }
                if (auto* m2 = dyn_cast<CXXMethodDecl>(f)) o["cls"] = ty(C.getRecordType(m2->getParent()));
            }
        }
        else if (auto* x = dyn_cast<CXXConstructExpr>(e)) {
            auto* c = x->getConstructor();
            K("Con")["fn"] = id(c); o["qn"] = qn(c);
            Array as; for (auto* a : x->arguments()) as.push_back(ex(a)); o["args"] = std::move(as);
            o["pts"] = pts(c);
            o["copy"] = c->isCopyConstructor(); o["move"] = c->isMoveConstructor(); o["dflt"] = c->isDefaultConstructor();
            if (c->isImplicit() || c->isDefaulted()) o["implicit"] = true;
            if (x->requiresZeroInitialization()) o["zero"] = true;
            if (x->isStdInitListInitialization()) o["stdil"] = true;
        }
        else if (auto* x = dyn_cast<CXXInheritedCtorInitExpr>(e)) {
            K("InhCon")["fn"] = id(x->getConstructor());
        }
        else if (auto* x = dyn_cast<CXXNewExpr>(e)) {
            K("New")["at"] = ty(x->getAllocatedType()); o["init"] = ex(x->getInitializer());
            Array pl; for (unsigned i = 0; i < x->getNumPlacementArgs(); ++i) pl.push_back(ex(x->getPlacementArg(i)));
            o["pl"] = std::move(pl); o["array"] = x->isArray();
        }
        else if (auto* x = dyn_cast<CXXDeleteExpr>(e)) { K("Delete")["e"] = ex(x->getArgument()); }
        else if (auto* x = dyn_cast<InitListExpr>(e)) {
            auto* s = x->getSemanticForm() ? x->getSemanticForm() : x;
            K("Init"); Array as; for (unsigned i = 0; i < s->getNumInits(); ++i) as.push_back(ex(s->getInit(i)));
            o["inits"] = std::move(as);
            if (s->hasArrayFiller()) o["filler"] = ex(s->getArrayFiller());
            if (auto* at = C.getAsConstantArrayType(e->getType())) o["n"] = (int64_t) at->getSize().getZExtValue();
        }
        else if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) { K("StdInit")["e"] = ex(x->getSubExpr()); }
        else if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) { K("Zero"); }
        else if (auto* x = dyn_cast<StringLiteral>(e)) {
            K("Str"); o["n"] = (int64_t) x->getByteLength();
            std::string h; static const char* hex = "0123456789abcdef";
            for (unsigned char ch : x->getBytes()) { h += hex[ch >> 4]; h += hex[ch & 15]; }
            o["hex"] = h;
        }
        else if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) { K("Null"); }
        else if (auto* x = dyn_cast<FloatingLiteral>(e)) { K("Float")["v"] = x->getValueAsApproximateDouble(); }
        else if (isa<CXXThisExpr>(e)) { K("This"); }
        else if (auto* x = dyn_cast<CompoundAssignOperator>(e)) {
            K("CAsg")["op"] = BinaryOperator::getOpcodeStr(x->getOpcode()).str(); o["a"] = ex(x->getLHS()); o["b"] = ex(x->getRHS());
            o["ct"] = ty(x->getComputationResultType()); o["clt"] = ty(x->getComputationLHSType());
        }
        else if (auto* x = dyn_cast<BinaryOperator>(e)) {
            K("Bin")["op"] = x->getOpcodeStr().str(); o["a"] = ex(x->getLHS()); o["b"] = ex(x->getRHS());
        }
        else if (auto* x = dyn_cast<CXXRewrittenBinaryOperator>(e)) { return ex(x->getSemanticForm()); }
        else if (auto* x = dyn_cast<UnaryOperator>(e)) {
            K("Un")["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str(); o["post"] = x->isPostfix(); o["e"] = ex(x->getSubExpr());
        }
        else if (auto* x = dyn_cast<ConditionalOperator>(e)) {
            K("Cond")["c"] = ex(x->getCond()); o["a"] = ex(x->getTrueExpr()); o["b"] = ex(x->getFalseExpr());
        }
        else if (auto* x = dyn_cast<ArraySubscriptExpr>(e)) { K("Idx")["a"] = ex(x->getBase()); o["i"] = ex(x->getIdx()); }
        else if (auto* x = dyn_cast<CXXThrowExpr>(e)) { K("Throw")["e"] = ex(x->getSubExpr()); }
        else if (auto* x = dyn_cast<OpaqueValueExpr>(e)) { if (x->getSourceExpr()) return ex(x->getSourceExpr()); K("Opaque"); }
        else if (isa<CXXNoexceptExpr>(e) || isa<TypeTraitExpr>(e)) { K("Unsup")["c"] = e->getStmtClassName(); }
        else { K("Unsup")["c"] = e->getStmtClassName(); }
        o["vk"] = e->isPRValue() ? "p" : (e->isXValue() ? "x" : "l");
        return o;
    }
    Array args(CallExpr const* x) { Array as; for (auto* a : x->arguments()) as.push_back(ex(a)); return as; }
    Array pts(FunctionDecl const* f) { Array as; for (auto* p : f->parameters()) as.push_back(ty(p->getType())); return as; }

    Value vardecl(VarDecl const* v) {
        Object o{{"k", "Var"}, {"id", id(v)}, {"n", v->getNameAsString()}, {"t", ty(v->getType())}};
        if (v->isStaticLocal()) { o["static"] = true; emitVar(v); }
        if (v->getInit()) o["init"] = ex(v->getInit());
        if (auto* dd = dyn_cast<DecompositionDecl>(v)) {
            Array bs;
            for (auto* b : dd->bindings()) if (auto* hv = b->getHoldingVar()) bs.push_back(vardecl(hv));
            o["holds"] = std::move(bs);
            o["decomp"] = true;
        }
        return o;
    }
    Value st(Stmt const* s) {
        if (!s) return nullptr;
        Object o; o["l"] = loc(s->getBeginLoc());
        auto K = [&](char const* k) -> Object& { o["k"] = k; return o; };
        if (auto* x = dyn_cast<Expr>(s)) { K("E")["e"] = ex(x); return o; }
        if (auto* x = dyn_cast<CompoundStmt>(s)) { K("Blk"); Array b; for (auto* c : x->body()) b.push_back(st(c)); o["b"] = std::move(b); return o; }
        if (auto* x = dyn_cast<DeclStmt>(s)) {
            K("Decl"); Array b;
            for (auto* d : x->decls()) if (auto* v = dyn_cast<VarDecl>(d)) b.push_back(vardecl(v));
            o["b"] = std::move(b); return o;
        }
        if (auto* x = dyn_cast<IfStmt>(s)) {
            K("If"); if (x->getInit()) o["init"] = st(x->getInit());
            if (auto* dd = x->getConditionVariableDeclStmt()) o["cv"] = st(dd);
            if (x->isConstexpr()) {
                auto r = x->getNondiscardedCase(C);
                if (r) { K("Blk"); Array b; if (x->getInit()) b.push_back(st(x->getInit())); if (*r) b.push_back(st(*r)); o["b"] = std::move(b); return o; }
            }
            o["c"] = ex(x->getCond()); o["a"] = st(x->getThen()); o["b"] = st(x->getElse()); return o;
        }
        if (auto* x = dyn_cast<SwitchStmt>(s)) {
            K("Switch"); if (x->getInit()) o["init"] = st(x->getInit());
            if (auto* dd = x->getConditionVariableDeclStmt()) o["cv"] = st(dd);
            o["c"] = ex(x->getCond()); o["b"] = st(x->getBody()); o["ct"] = ty(x->getCond()->getType()); return o;
        }
        if (auto* x = dyn_cast<CaseStmt>(s)) {
            K("Case")["v"] = ex(x->getLHS()); if (x->getRHS()) o["v2"] = ex(x->getRHS()); o["b"] = st(x->getSubStmt()); return o;
        }
        if (auto* x = dyn_cast<DefaultStmt>(s)) { K("Default")["b"] = st(x->getSubStmt()); return o; }
        if (isa<BreakStmt>(s)) { K("Break"); return o; }
        if (isa<ContinueStmt>(s)) { K("Continue"); return o; }
        if (auto* x = dyn_cast<ReturnStmt>(s)) { K("Return")["e"] = ex(x->getRetValue()); return o; }
        if (auto* x = dyn_cast<ForStmt>(s)) {
            K("For")["init"] = st(x->getInit()); o["c"] = ex(x->getCond()); o["inc"] = ex(x->getInc()); o["b"] = st(x->getBody());
            if (auto* dd = x->getConditionVariableDeclStmt()) o["cv"] = st(dd);
            return o;
        }
        if (auto* x = dyn_cast<WhileStmt>(s)) {
            K("While")["c"] = ex(x->getCond()); o["b"] = st(x->getBody());
            if (auto* dd = x->getConditionVariableDeclStmt()) o["cv"] = st(dd);
            return o;
        }
        if (auto* x = dyn_cast<DoStmt>(s)) { K("Do")["c"] = ex(x->getCond()); o["b"] = st(x->getBody()); return o; }
        if (auto* x = dyn_cast<CXXForRangeStmt>(s)) {
            K("Range"); if (x->getInit()) o["init"] = st(x->getInit());
            o["r"] = ex(x->getRangeInit()); o["var"] = vardecl(x->getLoopVariable()); o["b"] = st(x->getBody());
            o["rt"] = ty(x->getRangeInit()->getType());
            return o;
        }
        if (isa<NullStmt>(s)) { K("Null"); return o; }
        if (auto* x = dyn_cast<CXXTryStmt>(s)) {
            K("Try")["b"] = st(x->getTryBlock()); Array h;
            for (unsigned i = 0; i < x->getNumHandlers(); ++i) {
                auto* hh = x->getHandler(i);
                h.push_back(Object{{"t", hh->getExceptionDecl() ? ty(hh->getExceptionDecl()->getType()) : std::string("...")}, {"b", st(hh->getHandlerBlock())},
                    {"v", hh->getExceptionDecl() ? vardecl(hh->getExceptionDecl()) : Value(nullptr)}});
            }
            o["h"] = std::move(h); return o;
        }
        if (auto* x = dyn_cast<LabelStmt>(s)) { K("Label")["n"] = x->getName(); o["b"] = st(x->getSubStmt()); return o; }
        if (auto* x = dyn_cast<GotoStmt>(s)) { K("Goto")["n"] = x->getLabel()->getNameAsString(); return o; }
        if (auto* x = dyn_cast<AttributedStmt>(s)) return st(x->getSubStmt());
        K("UnsupStmt")["c"] = s->getStmtClassName();
        return o;
    }
private:
    ASTContext& C; SourceManager& SM; PrintingPolicy PP;
    std::map<llvm::StringRef, bool> rootCache;
};

static std::string OutPath;
static bool Failed = false;
class Consumer : public ASTConsumer {
public:
    void HandleTranslationUnit(ASTContext& c) override {
        if (c.getDiagnostics().hasErrorOccurred()) { Failed = true; return; }
        Extractor x(c); x.TraverseDecl(c.getTranslationUnitDecl());
        std::error_code ec; llvm::raw_fd_ostream o(OutPath, ec);
        Object r{{"funcs", std::move(x.out_funcs)}, {"recs", std::move(x.out_recs)}, {"enums", std::move(x.out_enums)}, {"vars", std::move(x.out_vars)}};
        o << Value(std::move(r));
    }
};
class Action : public ASTFrontendAction {
public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& ci, llvm::StringRef) override {
        // force implicit special members to be declared and defined lazily only as used
        return std::make_unique<Consumer>();
    }
};
// usage: cx OUT ROOT[:ROOT...] FILE -- flags...
int main(int argc, char const** argv) {
    if (argc < 5) return 2;
    OutPath = argv[1];
    { llvm::StringRef r(argv[2]); llvm::SmallVector<llvm::StringRef> v; r.split(v, ':'); for (auto s : v) Roots.push_back(s.str()); }
    std::string file = argv[3];
    std::vector<std::string> flags(argv + 5, argv + argc);
    flags.insert(flags.begin(), "clang++");
    flags.push_back("-fsyntax-only"); flags.push_back(file);
    IntrusiveRefCntPtr<FileManager> fm(new FileManager(FileSystemOptions{}));
    tooling::ToolInvocation inv(flags, std::make_unique<Action>(), fm.get());
    bool ok = inv.run();
    return ok && !Failed ? 0 : 1;
}
