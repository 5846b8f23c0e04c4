// Fact extractor for libcosim: parses one translation unit with clang and
// dumps a compact, fully resolved syntax tree (JSON) of every function whose
// body lies inside one of the given root directories.  No rule lives here;
// the rules are in /verif/lib.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::vector<std::string> gRoots;
static std::string gOut;

namespace {

struct Dumper {
    ASTContext& ctx;
    SourceManager& sm;
    PrintingPolicy pp;
    Object functions, records, enums, globals;
    std::map<const Decl*, int> localIds;
    int nextLocal = 1;
    std::vector<const FunctionDecl*> work;
    std::set<const FunctionDecl*> seen;
    std::map<const FunctionDecl*, std::string> fids;
    std::map<std::string, const FunctionDecl*> fidOwner;
    std::set<const CXXRecordDecl*> seenRec;

    explicit Dumper(ASTContext& c)
        : ctx(c), sm(c.getSourceManager()), pp(c.getPrintingPolicy())
    {
        pp.SuppressTagKeyword = true;
        pp.FullyQualifiedName = true;
        pp.PrintCanonicalTypes = true;
        pp.SuppressDefaultTemplateArgs = true;
        pp.AnonymousTagLocations = false;
        pp.Bool = true;
        pp.TerseOutput = true;
    }

    SourceLocation eloc(SourceLocation l) { return sm.getExpansionLoc(l); }
    std::string file(SourceLocation l)
    {
        auto e = eloc(l);
        auto f = sm.getFilename(e);
        if (f.empty()) return "";
        llvm::SmallString<256> p(f);
        if (auto fe = sm.getFileEntryRefForID(sm.getFileID(e))) {
            auto r = fe->getFileEntry().tryGetRealPathName();
            if (!r.empty()) return r.str();
        }
        return p.str().str();
    }
    bool inRoots(SourceLocation l)
    {
        if (l.isInvalid()) return false;
        auto f = file(l);
        for (auto& r : gRoots)
            if (f.compare(0, r.size(), r) == 0) return true;
        return false;
    }
    Value loc(SourceLocation l)
    {
        auto e = eloc(l);
        return (int64_t)sm.getExpansionLineNumber(e);
    }
    std::string ty(QualType t)
    {
        if (t.isNull()) return "";
        return t.getCanonicalType().getAsString(pp);
    }
    std::string qn(const NamedDecl* d)
    {
        std::string s;
        llvm::raw_string_ostream os(s);
        PrintingPolicy p(pp);
        p.SuppressUnwrittenScope = true;
        p.SuppressInlineNamespace = true;
        d->printQualifiedName(os, p);
        os.flush();
        return s;
    }
    std::string macroName(SourceLocation l)
    {
        if (!l.isMacroID()) return "";
        // outermost macro
        SourceLocation cur = l;
        std::string name;
        while (cur.isMacroID()) {
            if (sm.isMacroArgExpansion(cur)) {
                cur = sm.getImmediateExpansionRange(cur).getBegin();
                continue;
            }
            name = Lexer::getImmediateMacroName(cur, sm, ctx.getLangOpts()).str();
            cur = sm.getImmediateExpansionRange(cur).getBegin();
        }
        return name;
    }
    int lid(const Decl* d)
    {
        d = d->getCanonicalDecl();
        auto it = localIds.find(d);
        if (it != localIds.end()) return it->second;
        return localIds[d] = nextLocal++;
    }
    std::string fid(const FunctionDecl* f)
    {
        f = f->getCanonicalDecl();
        auto it = fids.find(f);
        if (it != fids.end()) return it->second;
        llvm::SmallString<128> buf;
        std::string s;
        if (!index::generateUSRForDecl(f, buf)) s = buf.str().str();
        else s = qn(f);
        auto l = eloc(f->getLocation());
        if (auto m = dyn_cast<CXXMethodDecl>(f)) {
            if (m->getParent()->isLambda()) {
                s = "lambda@" + file(f->getLocation()) + ":" + std::to_string(sm.getExpansionLineNumber(l)) + ":" + std::to_string(sm.getExpansionColumnNumber(l));
                if (f->isTemplateInstantiation()) {
                    for (auto* p : f->parameters()) s += "|" + ty(p->getType());
                }
            }
        }
        std::string base = s;
        int n = 1;
        while (fidOwner.count(s) && fidOwner[s] != f) s = base + "~" + std::to_string(++n);
        fidOwner[s] = f;
        fids[f] = s;
        return s;
    }
    bool noThrow(const FunctionDecl* f)
    {
        auto* p = f->getType()->getAs<FunctionProtoType>();
        if (!p) return false;
        if (isUnresolvedExceptionSpec(p->getExceptionSpecType())) {
            // implicit special members / instantiations not yet evaluated
            if (isa<CXXDestructorDecl>(f)) return true;
            return false;
        }
        return p->isNothrow();
    }
    void want(const FunctionDecl* f)
    {
        if (!f) return;
        const FunctionDecl* def = nullptr;
        if (!f->hasBody(def)) {
            return;
        }
        if (!def || !inRoots(def->getLocation())) return;
        if (seen.insert(def->getCanonicalDecl()).second) work.push_back(def);
    }

    // ---------------------------------------------------------------- expr
    Value callee(const FunctionDecl* f, Object& o)
    {
        o["fn"] = qn(f);
        if (auto ta = f->getTemplateSpecializationArgs(); ta && ta->size() > 0 && ta->get(0).getKind() == TemplateArgument::Type && f->isInStdNamespace()
            && f->getDeclName().isIdentifier() && (f->getName() == "holds_alternative" || f->getName() == "get" || f->getName() == "get_if"))
            o["ta"] = ty(ta->get(0).getAsType());
        if (inRoots(f->getLocation())) o["id"] = fid(f);
        if (noThrow(f)) o["nt"] = true;
        if (f->getReturnType()->isReferenceType()) o["lv"] = true;
        if (f->isNoReturn()) o["nr"] = true;
        if (auto m = dyn_cast<CXXMethodDecl>(f)) {
            if (m->isVirtual()) o["virt"] = true;
            if (m->isConst()) o["const"] = true;
            if (m->isStatic()) o["static"] = true;
            o["cls"] = qn(m->getParent());
        }
        // parameter passing kinds: v(alue) r(ef) c(onst ref) m(ove ref) p(ointer to non-const)
        std::string pk;
        for (auto* p : f->parameters()) {
            QualType t = p->getType();
            if (t->isRValueReferenceType()) pk += 'm';
            else if (t->isLValueReferenceType()) pk += t->getPointeeType().isConstQualified() ? 'c' : 'r';
            else if (t->isPointerType()) pk += t->getPointeeType().isConstQualified() ? 'q' : 'p';
            else pk += 'v';
        }
        o["pk"] = pk;
        want(f);
        return nullptr;
    }

    Value E(const Expr* e)
    {
        if (!e) return nullptr;
        if (auto x = dyn_cast<ParenExpr>(e)) return E(x->getSubExpr());
        if (auto x = dyn_cast<ExprWithCleanups>(e)) return E(x->getSubExpr());
        if (auto x = dyn_cast<MaterializeTemporaryExpr>(e)) return E(x->getSubExpr());
        if (auto x = dyn_cast<CXXBindTemporaryExpr>(e)) return E(x->getSubExpr());
        if (auto x = dyn_cast<ConstantExpr>(e)) return E(x->getSubExpr());
        if (auto x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) return E(x->getReplacement());
        if (auto x = dyn_cast<CXXDefaultArgExpr>(e)) {
            Object o;
            o["k"] = "defarg";
            o["e"] = E(x->getExpr());
            return std::move(o);
        }
        if (auto x = dyn_cast<CXXDefaultInitExpr>(e)) return E(x->getExpr());
        if (auto x = dyn_cast<CXXFunctionalCastExpr>(e)) {
            // Construction T(x): keep the construct expression below it
            if (isa<CXXConstructExpr>(strip(x->getSubExpr()))) return E(x->getSubExpr());
            return castE(x);
        }
        if (auto x = dyn_cast<ImplicitCastExpr>(e)) {
            if (x->getCastKind() == CK_UserDefinedConversion || x->getCastKind() == CK_ConstructorConversion)
                return E(x->getSubExpr());
            if (x->getCastKind() == CK_PointerToBoolean || x->getCastKind() == CK_IntegralToBoolean ||
                x->getCastKind() == CK_FloatingToIntegral || x->getCastKind() == CK_FloatingToBoolean ||
                x->getCastKind() == CK_IntegralToFloating)
            {
                Object o;
                o["k"] = "icast";
                o["ck"] = x->getCastKindName();
                o["e"] = E(x->getSubExpr());
                o["t"] = ty(x->getType());
                return std::move(o);
            }
            return E(x->getSubExpr());
        }
        if (auto x = dyn_cast<ExplicitCastExpr>(e)) return castE(x);

        Object o;
        o["l"] = loc(e->getBeginLoc());
        if (auto x = dyn_cast<DeclRefExpr>(e)) {
            const ValueDecl* d = x->getDecl();
            o["k"] = "ref";
            o["n"] = d->getNameAsString();
            o["t"] = ty(d->getType());
            if (auto ec = dyn_cast<EnumConstantDecl>(d)) {
                o["dk"] = "enum";
                o["q"] = qn(ec);
            } else if (auto v = dyn_cast<VarDecl>(d)) {
                if (v->isLocalVarDeclOrParm() && !v->isStaticLocal()) {
                    o["dk"] = isa<ParmVarDecl>(v) ? "param" : "local";
                    o["d"] = lid(v);
                } else {
                    o["dk"] = "global";
                    o["q"] = qn(v);
                    if (v->isConstexpr() && v->getType()->isIntegralType(v->getASTContext()) && v->getInit() && !v->getInit()->isValueDependent())
                        if (auto* val = v->evaluateValue(); val && val->isInt() && val->getInt().isRepresentableByInt64()) o["cv"] = val->getInt().getExtValue();
                    noteGlobal(v);
                }
            } else if (auto b = dyn_cast<BindingDecl>(d)) {
                o["dk"] = "binding";
                o["d"] = lid(b);
            } else if (auto f = dyn_cast<FunctionDecl>(d)) {
                o["dk"] = "func";
                callee(f, o);
            } else {
                o["dk"] = "other";
                o["q"] = qn(d);
            }
            return std::move(o);
        }
        if (auto x = dyn_cast<MemberExpr>(e)) {
            auto* d = x->getMemberDecl();
            if (isa<FieldDecl>(d)) {
                o["k"] = "mem";
                o["n"] = d->getNameAsString();
                o["q"] = qn(d);
                o["b"] = E(x->getBase());
                o["t"] = ty(d->getType());
                if (x->isArrow()) o["arrow"] = true;
                return std::move(o);
            }
            if (auto v = dyn_cast<VarDecl>(d)) {
                o["k"] = "ref";
                o["dk"] = "global";
                o["n"] = v->getNameAsString();
                o["q"] = qn(v);
                o["t"] = ty(v->getType());
                noteGlobal(v);
                return std::move(o);
            }
            o["k"] = "memfn";
            o["n"] = d->getNameAsString();
            o["q"] = qn(d);
            o["b"] = E(x->getBase());
            return std::move(o);
        }
        if (auto x = dyn_cast<CXXOperatorCallExpr>(e)) {
            o["k"] = "call";
            o["op"] = getOperatorSpelling(x->getOperator());
            o["t"] = ty(x->getType());
            Array a;
            unsigned i = 0;
            const FunctionDecl* f = x->getDirectCallee();
            bool member = f && isa<CXXMethodDecl>(f) && !cast<CXXMethodDecl>(f)->isStatic();
            for (auto* arg : x->arguments()) {
                if (i++ == 0 && member) {
                    o["obj"] = E(arg);
                    continue;
                }
                a.push_back(E(arg));
            }
            o["a"] = std::move(a);
            if (f) callee(f, o);
            else o["fn"] = "?";
            return std::move(o);
        }
        if (auto x = dyn_cast<CXXMemberCallExpr>(e)) {
            o["k"] = "call";
            o["t"] = ty(x->getType());
            if (auto* me = dyn_cast<MemberExpr>(strip(x->getCallee()))) {
                o["obj"] = E(me->getBase());
                if (me->isArrow()) o["arrow"] = true;
                if (me->hasQualifier()) o["qual"] = true;
            } else {
                o["calleeE"] = E(x->getCallee());
            }
            Array a;
            for (auto* arg : x->arguments()) a.push_back(E(arg));
            o["a"] = std::move(a);
            if (auto* f = x->getMethodDecl()) {
                callee(f, o);
                if (isa<CXXConversionDecl>(f)) o["conv"] = true;
            } else
                o["fn"] = "?";
            return std::move(o);
        }
        if (auto x = dyn_cast<CallExpr>(e)) {
            o["k"] = "call";
            o["t"] = ty(x->getType());
            Array a;
            for (auto* arg : x->arguments()) a.push_back(E(arg));
            o["a"] = std::move(a);
            if (auto* f = x->getDirectCallee()) callee(f, o);
            else {
                o["fn"] = "?";
                o["calleeE"] = E(x->getCallee());
            }
            return std::move(o);
        }
        if (auto x = dyn_cast<CXXConstructExpr>(e)) {
            auto* c = x->getConstructor();
            if (x->isElidable() && x->getNumArgs() == 1) return E(x->getArg(0));
            o["k"] = "ctor";
            o["t"] = ty(x->getType());
            if (c->isCopyConstructor()) o["copy"] = true;
            if (c->isMoveConstructor()) o["move"] = true;
            if (c->isDefaultConstructor()) o["def"] = true;
            Array a;
            for (auto* arg : x->arguments()) a.push_back(E(arg));
            o["a"] = std::move(a);
            callee(c, o);
            noteRecord(c->getParent());
            if (x->isListInitialization()) o["list"] = true;
            return std::move(o);
        }
        if (auto x = dyn_cast<CXXInheritedCtorInitExpr>(e)) {
            o["k"] = "ctor";
            o["t"] = ty(x->getType());
            o["a"] = Array();
            callee(x->getConstructor(), o);
            return std::move(o);
        }
        if (isa<CXXThisExpr>(e)) {
            o["k"] = "this";
            o["t"] = ty(e->getType());
            return std::move(o);
        }
        if (auto x = dyn_cast<LambdaExpr>(e)) {
            o["k"] = "lambda";
            auto* op = x->getCallOperator();
            Array caps;
            auto ci = x->capture_init_begin();
            for (auto& c : x->captures()) {
                Object co;
                if (c.capturesThis()) {
                    co["this"] = true;
                    co["byref"] = c.getCaptureKind() == LCK_This;
                } else if (c.capturesVariable()) {
                    auto* v = c.getCapturedVar();
                    co["n"] = v->getNameAsString();
                    co["d"] = lid(v);
                    co["byref"] = c.getCaptureKind() == LCK_ByRef;
                    co["t"] = ty(v->getType());
                    if (auto* vd = dyn_cast<VarDecl>(v)) {
                        if (vd->isInitCapture()) {
                            co["init"] = E(*ci);
                        }
                    }
                }
                caps.push_back(std::move(co));
                ++ci;
            }
            o["caps"] = std::move(caps);
            Array ids;
            if (auto* ft = op->getDescribedFunctionTemplate()) {
                for (auto* s : ft->specializations()) {
                    ids.push_back(fid(s));
                    want(s);
                }
                // the generic pattern is dumped too if nothing instantiated it
                if (ids.empty()) {
                    ids.push_back(fid(op));
                    want(op);
                }
            } else {
                ids.push_back(fid(op));
                want(op);
            }
            o["ids"] = std::move(ids);
            if (!op->isConst()) o["mutable"] = true;
            return std::move(o);
        }
        if (auto x = dyn_cast<UnaryOperator>(e)) {
            o["k"] = "un";
            o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
            if (x->isPostfix()) o["post"] = true;
            o["e"] = E(x->getSubExpr());
            o["t"] = ty(x->getType());
            return std::move(o);
        }
        if (auto x = dyn_cast<BinaryOperator>(e)) {
            o["k"] = "bin";
            o["op"] = x->getOpcodeStr().str();
            o["a"] = E(x->getLHS());
            o["b"] = E(x->getRHS());
            o["t"] = ty(x->getType());
            return std::move(o);
        }
        if (auto x = dyn_cast<CXXRewrittenBinaryOperator>(e)) return E(x->getSemanticForm());
        if (auto x = dyn_cast<AbstractConditionalOperator>(e)) {
            o["k"] = "cond";
            o["c"] = E(x->getCond());
            o["a"] = E(x->getTrueExpr());
            o["b"] = E(x->getFalseExpr());
            o["t"] = ty(x->getType());
            return std::move(o);
        }
        if (auto x = dyn_cast<ArraySubscriptExpr>(e)) {
            o["k"] = "sub";
            o["a"] = E(x->getBase());
            o["b"] = E(x->getIdx());
            o["t"] = ty(x->getType());
            return std::move(o);
        }
        if (auto x = dyn_cast<IntegerLiteral>(e)) {
            o["k"] = "int";
            llvm::SmallString<32> s;
            x->getValue().toString(s, 10, x->getType()->isSignedIntegerType());
            o["v"] = s.str().str();
            return std::move(o);
        }
        if (auto x = dyn_cast<CXXBoolLiteralExpr>(e)) {
            o["k"] = "bool";
            o["v"] = x->getValue();
            return std::move(o);
        }
        if (auto x = dyn_cast<FloatingLiteral>(e)) {
            o["k"] = "float";
            llvm::SmallString<32> s;
            x->getValue().toString(s);
            o["v"] = s.str().str();
            return std::move(o);
        }
        if (auto x = dyn_cast<StringLiteral>(e)) {
            o["k"] = "str";
            if (x->getCharByteWidth() == 1) {
                std::string s = x->getBytes().str();
                if (s.size() > 300) s.resize(300);
                o["v"] = llvm::json::fixUTF8(s);
            } else
                o["v"] = "<wide>";
            return std::move(o);
        }
        if (auto x = dyn_cast<CharacterLiteral>(e)) {
            o["k"] = "char";
            o["v"] = (int64_t)x->getValue();
            return std::move(o);
        }
        if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) {
            o["k"] = "null";
            return std::move(o);
        }
        if (auto x = dyn_cast<CXXNewExpr>(e)) {
            o["k"] = "new";
            o["t"] = ty(x->getType());
            o["e"] = E(x->getInitializer());
            return std::move(o);
        }
        if (auto x = dyn_cast<CXXDeleteExpr>(e)) {
            o["k"] = "delete";
            o["e"] = E(x->getArgument());
            return std::move(o);
        }
        if (auto x = dyn_cast<CXXThrowExpr>(e)) {
            o["k"] = "throw";
            o["e"] = E(x->getSubExpr());
            if (x->getSubExpr()) o["t"] = ty(x->getSubExpr()->getType());
            return std::move(o);
        }
        if (auto x = dyn_cast<InitListExpr>(e)) {
            if (x->isSemanticForm() || !x->getSemanticForm()) {
            } else
                x = x->getSemanticForm();
            o["k"] = "init";
            o["t"] = ty(x->getType());
            Array a;
            for (auto* i : x->inits()) a.push_back(E(i));
            o["a"] = std::move(a);
            if (auto* rt = x->getType()->getAsCXXRecordDecl()) {
                noteRecord(rt);
                Array fs;
                for (auto* f : rt->fields()) fs.push_back(f->getNameAsString());
                o["fields"] = std::move(fs);
            }
            return std::move(o);
        }
        if (auto x = dyn_cast<CXXStdInitializerListExpr>(e)) return E(x->getSubExpr());
        if (auto x = dyn_cast<ImplicitValueInitExpr>(e)) {
            o["k"] = "zero";
            o["t"] = ty(x->getType());
            return std::move(o);
        }
        if (auto x = dyn_cast<CXXScalarValueInitExpr>(e)) {
            o["k"] = "zero";
            o["t"] = ty(x->getType());
            return std::move(o);
        }
        if (auto x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
            o["k"] = "sizeof";
            o["t"] = ty(x->getTypeOfArgument());
            return std::move(o);
        }
        if (auto x = dyn_cast<PredefinedExpr>(e)) {
            o["k"] = "str";
            o["v"] = "<func>";
            return std::move(o);
        }
        if (auto x = dyn_cast<CXXFoldExpr>(e)) {
            o["k"] = "unk";
            o["c"] = "fold";
            return std::move(o);
        }
        if (auto x = dyn_cast<ArrayInitLoopExpr>(e)) return E(x->getCommonExpr()->getSourceExpr());
        if (auto x = dyn_cast<OpaqueValueExpr>(e)) return E(x->getSourceExpr());
        // Dependent or otherwise unmodelled: keep children
        o["k"] = "unk";
        o["c"] = e->getStmtClassName();
        Array ch;
        for (auto* c : e->children())
            if (auto* ce = dyn_cast_or_null<Expr>(c)) ch.push_back(E(ce));
        o["a"] = std::move(ch);
        return std::move(o);
    }

    const Expr* strip(const Expr* e)
    {
        return e ? e->IgnoreParenImpCasts()->IgnoreImplicit() : e;
    }

    Value castE(const ExplicitCastExpr* x)
    {
        Object o;
        o["k"] = "cast";
        o["l"] = loc(x->getBeginLoc());
        o["t"] = ty(x->getType());
        o["e"] = E(x->getSubExpr());
        if (isa<CXXDynamicCastExpr>(x)) o["dyn"] = true;
        if (x->getType()->isVoidType()) o["void"] = true;
        return std::move(o);
    }

    // ---------------------------------------------------------------- stmts
    Value varD(const VarDecl* v)
    {
        Object o;
        o["d"] = lid(v);
        o["n"] = v->getNameAsString();
        o["t"] = ty(v->getType());
        o["l"] = loc(v->getLocation());
        if (v->getType()->isReferenceType()) o["ref"] = true;
        if (v->isStaticLocal()) {
            o["static"] = true;
            o["q"] = qn(v);
        }
        if (v->hasInit()) o["init"] = E(v->getInit());
        if (auto* rd = v->getType()->getAsCXXRecordDecl()) {
            o["rec"] = qn(rd);
            noteRecord(rd);
            if (rd->hasDefinition() && !rd->hasTrivialDestructor()) {
                o["dtor"] = true;
                if (auto* dd = rd->getDestructor()) {
                    if (inRoots(dd->getLocation())) {
                        o["dtorid"] = fid(dd);
                        want(dd);
                    }
                }
            }
        }
        if (auto* dd = dyn_cast<DecompositionDecl>(v)) {
            Array b;
            for (auto* bd : dd->bindings()) {
                Object bo;
                bo["d"] = lid(bd);
                bo["n"] = bd->getNameAsString();
                if (auto* be = bd->getBinding())
                    if (auto* me = dyn_cast<MemberExpr>(strip(be))) bo["field"] = me->getMemberDecl()->getNameAsString();
                b.push_back(std::move(bo));
            }
            o["bind"] = std::move(b);
        }
        return std::move(o);
    }

    Value S(const Stmt* s)
    {
        if (!s) return nullptr;
        Object o;
        o["l"] = loc(s->getBeginLoc());
        if (s->getBeginLoc().isMacroID()) {
            auto mn = macroName(s->getBeginLoc());
            if (mn.compare(0, 9, "BOOST_LOG") == 0) {
                o["k"] = "log";
                return std::move(o);
            }
            if (!mn.empty() && (isa<DoStmt>(s) || isa<IfStmt>(s))) o["macro"] = mn;
        }
        if (auto x = dyn_cast<CompoundStmt>(s)) {
            o["k"] = "block";
            Array a;
            for (auto* c : x->body()) a.push_back(S(c));
            o["s"] = std::move(a);
            o["el"] = loc(x->getRBracLoc());
            return std::move(o);
        }
        if (auto x = dyn_cast<DeclStmt>(s)) {
            o["k"] = "decl";
            Array a;
            for (auto* d : x->decls()) {
                if (auto* v = dyn_cast<VarDecl>(d)) a.push_back(varD(v));
            }
            o["v"] = std::move(a);
            return std::move(o);
        }
        if (auto x = dyn_cast<IfStmt>(s)) {
            o["k"] = "if";
            if (x->isConstexpr()) {
                o["constexpr"] = true;
                auto* c = x->getCond();
                if (!c->isValueDependent()) {
                    if (auto v = c->getIntegerConstantExpr(ctx)) {
                        o["cval"] = (*v != 0);
                    }
                }
            }
            if (x->getInit()) o["init"] = S(x->getInit());
            if (x->getConditionVariable()) o["var"] = varD(x->getConditionVariable());
            o["c"] = E(x->getCond());
            o["a"] = S(x->getThen());
            if (x->getElse()) o["b"] = S(x->getElse());
            return std::move(o);
        }
        if (auto x = dyn_cast<WhileStmt>(s)) {
            o["k"] = "while";
            if (x->getConditionVariable()) o["var"] = varD(x->getConditionVariable());
            o["c"] = E(x->getCond());
            o["a"] = S(x->getBody());
            return std::move(o);
        }
        if (auto x = dyn_cast<DoStmt>(s)) {
            o["k"] = "do";
            o["c"] = E(x->getCond());
            o["a"] = S(x->getBody());
            return std::move(o);
        }
        if (auto x = dyn_cast<ForStmt>(s)) {
            o["k"] = "for";
            if (x->getInit()) o["init"] = S(x->getInit());
            if (x->getConditionVariable()) o["var"] = varD(x->getConditionVariable());
            if (x->getCond()) o["c"] = E(x->getCond());
            if (x->getInc()) o["inc"] = E(x->getInc());
            o["a"] = S(x->getBody());
            return std::move(o);
        }
        if (auto x = dyn_cast<CXXForRangeStmt>(s)) {
            o["k"] = "rfor";
            o["r"] = E(x->getRangeInit());
            if (x->getInit()) o["init"] = S(x->getInit());
            o["rt"] = ty(x->getRangeInit()->getType());
            // the loop variable, without its synthesized *__begin initialiser
            const VarDecl* v = x->getLoopVariable();
            Object vo;
            vo["d"] = lid(v);
            vo["n"] = v->getNameAsString();
            vo["t"] = ty(v->getType());
            vo["l"] = loc(v->getLocation());
            if (v->getType()->isReferenceType()) vo["ref"] = true;
            if (auto* dd = dyn_cast<DecompositionDecl>(v)) {
                Array b;
                for (auto* bd : dd->bindings()) {
                    Object bo;
                    bo["d"] = lid(bd);
                    bo["n"] = bd->getNameAsString();
                    if (auto* be = bd->getBinding())
                        if (auto* me = dyn_cast<MemberExpr>(strip(be))) bo["field"] = me->getMemberDecl()->getNameAsString();
                    b.push_back(std::move(bo));
                }
                vo["bind"] = std::move(b);
            }
            o["v"] = std::move(vo);
            o["a"] = S(x->getBody());
            return std::move(o);
        }
        if (auto x = dyn_cast<SwitchStmt>(s)) {
            o["k"] = "switch";
            if (x->getInit()) o["init"] = S(x->getInit());
            if (x->getConditionVariable()) o["var"] = varD(x->getConditionVariable());
            o["c"] = E(x->getCond());
            o["ct"] = ty(strip(x->getCond())->getType());
            o["a"] = S(x->getBody());
            return std::move(o);
        }
        if (auto x = dyn_cast<CaseStmt>(s)) {
            o["k"] = "case";
            o["e"] = E(x->getLHS());
            o["a"] = S(x->getSubStmt());
            return std::move(o);
        }
        if (auto x = dyn_cast<DefaultStmt>(s)) {
            o["k"] = "default";
            o["a"] = S(x->getSubStmt());
            return std::move(o);
        }
        if (isa<BreakStmt>(s)) {
            o["k"] = "break";
            return std::move(o);
        }
        if (isa<ContinueStmt>(s)) {
            o["k"] = "continue";
            return std::move(o);
        }
        if (auto x = dyn_cast<ReturnStmt>(s)) {
            o["k"] = "return";
            if (x->getRetValue()) o["e"] = E(x->getRetValue());
            return std::move(o);
        }
        if (auto x = dyn_cast<CXXTryStmt>(s)) {
            o["k"] = "try";
            o["a"] = S(x->getTryBlock());
            Array h;
            for (unsigned i = 0; i < x->getNumHandlers(); ++i) {
                auto* c = x->getHandler(i);
                Object ho;
                ho["l"] = loc(c->getBeginLoc());
                if (c->getExceptionDecl()) {
                    ho["t"] = ty(c->getCaughtType());
                    ho["v"] = varD(c->getExceptionDecl());
                }
                ho["a"] = S(c->getHandlerBlock());
                h.push_back(std::move(ho));
            }
            o["h"] = std::move(h);
            return std::move(o);
        }
        if (isa<NullStmt>(s)) {
            o["k"] = "null";
            return std::move(o);
        }
        if (auto x = dyn_cast<LabelStmt>(s)) {
            o["k"] = "label";
            o["n"] = x->getName();
            o["a"] = S(x->getSubStmt());
            return std::move(o);
        }
        if (auto x = dyn_cast<GotoStmt>(s)) {
            o["k"] = "goto";
            o["n"] = x->getLabel()->getNameAsString();
            return std::move(o);
        }
        if (auto x = dyn_cast<AttributedStmt>(s)) return S(x->getSubStmt());
        if (auto x = dyn_cast<Expr>(s)) {
            o["k"] = "expr";
            o["e"] = E(x);
            return std::move(o);
        }
        o["k"] = "unkstmt";
        o["c"] = s->getStmtClassName();
        return std::move(o);
    }

    void noteGlobal(const VarDecl* v)
    {
        if (!inRoots(v->getLocation())) return;
        auto q = qn(v);
        if (globals.get(q)) return;
        globals[q] = nullptr;
        Object o;
        o["t"] = ty(v->getType());
        o["f"] = file(v->getLocation());
        o["l"] = loc(v->getLocation());
        if (v->isStaticLocal()) o["staticlocal"] = true;
        if (v->getTSCSpec() != TSCS_unspecified) o["tls"] = true;
        if (v->isConstexpr() || v->getType().isConstQualified()) o["const"] = true;
        const VarDecl* def = v->getDefinition();
        if (!def) def = v;
        if (def->getAnyInitializer()) o["init"] = E(def->getAnyInitializer());
        globals[q] = std::move(o);
    }

    void noteRecord(const CXXRecordDecl* r)
    {
        if (!r || !r->hasDefinition()) return;
        r = r->getDefinition();
        if (!inRoots(r->getLocation())) return;
        if (!seenRec.insert(r).second) return;
        Object o;
        o["f"] = file(r->getLocation());
        o["l"] = loc(r->getLocation());
        o["lambda"] = r->isLambda();
        if (r->isDependentContext()) o["dependent"] = true;
        Array fs, bs, ms;
        for (auto* f : r->fields()) {
            Object fo;
            fo["n"] = f->getNameAsString();
            fo["q"] = qn(f);
            fo["t"] = ty(f->getType());
            fo["acc"] = (int64_t)f->getAccess();
            fo["l"] = loc(f->getLocation());
            if (f->isMutable()) fo["mutable"] = true;
            if (f->getType().isConstQualified()) fo["const"] = true;
            if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = E(f->getInClassInitializer());
            fs.push_back(std::move(fo));
            if (auto* fr = f->getType()->getAsCXXRecordDecl()) noteRecord(fr);
        }
        for (auto& b : r->bases()) {
            Object bo;
            bo["t"] = ty(b.getType());
            if (auto* br = b.getType()->getAsCXXRecordDecl()) {
                bo["q"] = qn(br);
                noteRecord(br);
            }
            bs.push_back(std::move(bo));
        }
        for (auto* m : r->methods()) {
            Object mo;
            mo["n"] = m->getNameAsString();
            mo["q"] = qn(m);
            mo["id"] = fid(m);
            mo["acc"] = (int64_t)m->getAccess();
            if (m->isVirtual()) mo["virt"] = true;
            if (m->isPureVirtual()) mo["pure"] = true;
            if (m->isDeleted()) mo["del"] = true;
            if (m->isDefaulted()) mo["dflt"] = true;
            if (m->isImplicit()) mo["impl"] = true;
            if (m->isConst()) mo["const"] = true;
            if (m->isStatic()) mo["static"] = true;
            if (auto* c = dyn_cast<CXXConstructorDecl>(m)) {
                mo["ck"] = c->isCopyConstructor() ? "copy" : c->isMoveConstructor() ? "move" : c->isDefaultConstructor() ? "def" : "ctor";
            } else if (isa<CXXDestructorDecl>(m)) {
                mo["ck"] = "dtor";
            } else if (m->isCopyAssignmentOperator()) {
                mo["ck"] = "copyassign";
            } else if (m->isMoveAssignmentOperator()) {
                mo["ck"] = "moveassign";
            }
            Array ov;
            for (auto* om : m->overridden_methods()) ov.push_back(fid(om));
            if (!ov.empty()) mo["ov"] = std::move(ov);
            ms.push_back(std::move(mo));
            if (!m->isImplicit()) want(m);
        }
        o["fields"] = std::move(fs);
        o["bases"] = std::move(bs);
        o["methods"] = std::move(ms);
        records[qn(r)] = std::move(o);
    }

    void dumpFunction(const FunctionDecl* f)
    {
        Object o;
        o["q"] = qn(f);
        o["n"] = f->getNameAsString();
        o["f"] = file(f->getLocation());
        o["l"] = loc(f->getLocation());
        o["el"] = loc(f->getEndLoc());
        o["rt"] = ty(f->getReturnType());
        if (f->getReturnType()->isReferenceType()) o["retref"] = true;
        if (noThrow(f)) o["nt"] = true;
        if (f->getReturnType()->isReferenceType()) o["lv"] = true;
        if (f->isNoReturn()) o["nr"] = true;
        if (f->isTemplateInstantiation()) o["inst"] = true;
        if (f->isDependentContext()) o["dependent"] = true;
        if (f->isInAnonymousNamespace() || f->getStorageClass() == SC_Static) o["internal"] = true;
        Array ps;
        for (auto* p : f->parameters()) {
            Object po;
            po["d"] = lid(p);
            po["n"] = p->getNameAsString();
            po["t"] = ty(p->getType());
            if (p->getType()->isReferenceType()) po["ref"] = true;
            ps.push_back(std::move(po));
        }
        o["p"] = std::move(ps);
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
            o["cls"] = qn(m->getParent());
            noteRecord(m->getParent());
            if (m->isVirtual()) o["virt"] = true;
            if (m->isConst()) o["const"] = true;
            if (m->isStatic()) o["static"] = true;
            if (m->getParent()->isLambda()) o["lambda"] = true;
            o["acc"] = (int64_t)m->getAccess();
            Array ov;
            for (auto* om : m->overridden_methods()) ov.push_back(fid(om));
            if (!ov.empty()) o["ov"] = std::move(ov);
            if (m->isDefaulted()) o["dflt"] = true;
            if (m->isDeleted()) o["del"] = true;
            // the enclosing function, for local classes and lambdas
            if (auto* pf = dyn_cast_or_null<FunctionDecl>(m->getParent()->getParentFunctionOrMethod())) o["encl"] = fid(pf);
        }
        if (auto* c = dyn_cast<CXXConstructorDecl>(f)) {
            o["ck"] = c->isCopyConstructor() ? "copy" : c->isMoveConstructor() ? "move" : c->isDefaultConstructor() ? "def" : "ctor";
            Array is;
            for (auto* i : c->inits()) {
                Object io;
                if (i->isMemberInitializer()) {
                    io["field"] = i->getMember()->getNameAsString();
                    io["q"] = qn(i->getMember());
                } else if (i->isBaseInitializer()) {
                    io["base"] = ty(QualType(i->getBaseClass(), 0));
                } else if (i->isDelegatingInitializer()) {
                    io["deleg"] = true;
                }
                io["written"] = i->isWritten();
                io["e"] = E(i->getInit());
                is.push_back(std::move(io));
            }
            o["inits"] = std::move(is);
        } else if (isa<CXXDestructorDecl>(f)) {
            o["ck"] = "dtor";
        }
        if (isa<CXXConversionDecl>(f)) o["conv"] = true;
        o["body"] = S(f->getBody());
        functions[fid(f)] = std::move(o);
    }

    void run()
    {
        while (!work.empty()) {
            auto* f = work.back();
            work.pop_back();
            dumpFunction(f);
        }
    }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
    Dumper& d;
    explicit Visitor(Dumper& dd) : d(dd) { }
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitLambdaBody() const { return true; }
    bool TraverseDecl(Decl* x)
    {
        // Skip whole declarations outside the roots at namespace level
        if (x && !isa<TranslationUnitDecl>(x) && !isa<NamespaceDecl>(x) && !isa<LinkageSpecDecl>(x)) {
            if (x->getLocation().isValid() && !d.inRoots(x->getLocation())) return true;
        }
        return RecursiveASTVisitor::TraverseDecl(x);
    }
    bool VisitFunctionDecl(FunctionDecl* f)
    {
        if (!f->doesThisDeclarationHaveABody()) return true;
        if (f->isDependentContext()) return true;
        d.want(f);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* r)
    {
        if (r->isThisDeclarationADefinition() && !r->isDependentContext()) d.noteRecord(r);
        return true;
    }
    bool VisitEnumDecl(EnumDecl* e)
    {
        if (!e->isComplete() || !d.inRoots(e->getLocation())) return true;
        Object o;
        o["f"] = d.file(e->getLocation());
        o["l"] = d.loc(e->getLocation());
        Array a;
        for (auto* c : e->enumerators()) {
            Object eo;
            eo["n"] = c->getNameAsString();
            eo["v"] = (int64_t)c->getInitVal().getExtValue();
            a.push_back(std::move(eo));
        }
        o["e"] = std::move(a);
        d.enums[d.qn(e)] = std::move(o);
        return true;
    }
    bool VisitVarDecl(VarDecl* v)
    {
        if (v->hasGlobalStorage() && !v->isStaticLocal() && !v->getDeclContext()->isDependentContext()) d.noteGlobal(v);
        return true;
    }
};

struct Consumer : ASTConsumer {
    void HandleTranslationUnit(ASTContext& c) override
    {
        Dumper d(c);
        Visitor v(d);
        v.TraverseDecl(c.getTranslationUnitDecl());
        d.run();
        // instantiated templates may have queued more work
        std::error_code ec;
        llvm::raw_fd_ostream os(gOut, ec);
        Object o;
        o["functions"] = std::move(d.functions);
        o["records"] = std::move(d.records);
        o["enums"] = std::move(d.enums);
        o["globals"] = std::move(d.globals);
        os << Value(std::move(o));
    }
};

struct Action : ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, llvm::StringRef) override
    {
        return std::make_unique<Consumer>();
    }
};

} // namespace

// usage: extract OUT.json ROOT[:ROOT...] FILE -- flags
int main(int argc, const char** argv)
{
    if (argc < 5) return 2;
    gOut = argv[1];
    std::string roots = argv[2];
    size_t p = 0;
    while (p <= roots.size()) {
        auto e = roots.find(':', p);
        if (e == std::string::npos) e = roots.size();
        if (e > p) gRoots.push_back(roots.substr(p, e - p));
        p = e + 1;
    }
    std::string file = argv[3];
    std::vector<std::string> flags;
    for (int i = 5; i < argc; ++i) flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", flags);
    tooling::ClangTool tool(db, {file});
    return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
