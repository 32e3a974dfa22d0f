// nsx: fact extractor for the neolib static analyser.
// Parses one translation unit with clang and writes, for every function, method, constructor,
// destructor and lambda body that is defined in one of the interesting directories (template
// instantiations included), the clang CFG with fully resolved expression trees, plus class,
// enum and constant-table facts.  It decides nothing itself.
#include "llvm/Support/DJB.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecordLayout.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ParentMapContext.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Lex/Lexer.h"
#include "llvm/ADT/StringExtras.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace clang;
using llvm::json::OStream;
using llvm::StringRef;

static std::string gOut;
static std::vector<std::string> gDirs;
static unsigned gErrors = 0;

namespace {
static int64_t ext64(const llvm::APSInt& v) { if (v.getBitWidth() > 64) return v.trunc(64).getSExtValue(); return v.isSigned() ? v.getSExtValue() : (int64_t)v.getZExtValue(); }

struct Dumper
{
    ASTContext& C;
    SourceManager& SM;
    OStream& J;
    PrintingPolicy PP;
    std::unique_ptr<ASTNameGenerator> NG;
    std::unique_ptr<MangleContext> MC;
    std::map<const Stmt*, int> ids;
    std::map<const ValueDecl*, int> vids;
    std::map<const OpaqueValueExpr*, int> ovids;

    Dumper(ASTContext& c, OStream& j) : C(c), SM(c.getSourceManager()), J(j), PP(c.getPrintingPolicy()), MC(c.createMangleContext())
    {
        PP.SuppressTagKeyword = true;
        PP.FullyQualifiedName = true;
        PP.PrintCanonicalTypes = true;
        PP.SuppressInlineNamespace = true;
        PP.Bool = true;
    }
    int sid(const Stmt* s) { auto r = ids.emplace(s, (int)ids.size() + 1); return r.first->second; }
    int vid(const ValueDecl* d) { d = cast<ValueDecl>(d->getCanonicalDecl()); auto r = vids.emplace(d, (int)vids.size() + 1); return r.first->second; }
    std::pair<std::string, unsigned> loc(SourceLocation l)
    {
        if (l.isInvalid()) return { "", 0 };
        l = SM.getExpansionLoc(l);
        auto p = SM.getPresumedLoc(l, false);
        if (p.isInvalid()) return { "", 0 };
        return { p.getFilename(), p.getLine() };
    }
    bool interesting(SourceLocation l)
    {
        auto p = loc(l);
        for (auto const& d : gDirs)
            if (StringRef(p.first).starts_with(d)) return true;
        return false;
    }
    std::string type(QualType t)
    {
        if (t.isNull()) return "";
        std::string s; llvm::raw_string_ostream os(s);
        t.getCanonicalType().print(os, PP);
        os.flush();
        if (s.find("(lambda at ") != std::string::npos)
        {
            // the lambdas of different instances of one template share their source location: tell them apart
            std::vector<const CXXRecordDecl*> ls; lambdas(t.getCanonicalType(), ls, 0);
            std::map<std::string, std::string> tags;
            for (auto* l : ls) { auto g = lamtag(l); if (!g.empty()) { auto& x = tags["(lambda at " + locstr(l->getBeginLoc()) + ")"]; if (x.find(g) == std::string::npos) x += g; } }
            for (auto const& kv : tags)
                for (size_t p = 0; (p = s.find(kv.first, p)) != std::string::npos; p += kv.first.size() + kv.second.size()) s.insert(p + kv.first.size() - 1, kv.second);
        }
        return s;
    }
    void lambdas(TemplateArgument const& a, std::vector<const CXXRecordDecl*>& ls, int depth)
    {
        if (a.getKind() == TemplateArgument::Type) lambdas(a.getAsType().getCanonicalType(), ls, depth + 1);
        else if (a.getKind() == TemplateArgument::Pack) for (auto const& x : a.pack_elements()) lambdas(x, ls, depth + 1);
    }
    void lambdas(QualType t, std::vector<const CXXRecordDecl*>& ls, int depth)
    {
        if (t.isNull() || depth > 24) return;
        if (auto* p = t->getAs<PointerType>()) return lambdas(p->getPointeeType(), ls, depth + 1);
        if (auto* p = t->getAs<ReferenceType>()) return lambdas(p->getPointeeType(), ls, depth + 1);
        if (auto* p = t->getAs<MemberPointerType>()) { lambdas(QualType(p->getClass(), 0), ls, depth + 1); return lambdas(p->getPointeeType(), ls, depth + 1); }
        if (auto* p = t->getAsArrayTypeUnsafe()) return lambdas(p->getElementType(), ls, depth + 1);
        if (auto* p = t->getAs<FunctionProtoType>()) { lambdas(p->getReturnType(), ls, depth + 1); for (auto q : p->param_types()) lambdas(q, ls, depth + 1); return; }
        auto* rd = t->getAsCXXRecordDecl();
        if (!rd) return;
        if (rd->isLambda()) { ls.push_back(rd); return; }
        for (const DeclContext* dc = rd; dc; dc = dc->getParent())
            if (auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(dc)) for (auto const& a : sp->getTemplateArgs().asArray()) lambdas(a, ls, depth + 1);
            else if (auto* fd = dyn_cast<FunctionDecl>(dc)) { if (auto* ta = fd->getTemplateSpecializationArgs()) for (auto const& a : ta->asArray()) lambdas(a, ls, depth + 1); }
    }
    std::map<const CXXRecordDecl*, std::string> ltags;
    std::string lamtag(const CXXRecordDecl* l)
    {
        auto it = ltags.find(l);
        if (it != ltags.end()) return it->second;
        ltags[l] = "";
        std::string r;
        for (const DeclContext* dc = l->getDeclContext(); dc; dc = dc->getParent())
        {
            if (auto* fd = dyn_cast<FunctionDecl>(dc))
            {
                if (auto* m = dyn_cast<CXXMethodDecl>(fd)) if (m->getParent()->isLambda() && !m->getPrimaryTemplate()) continue;
                if (fd->isTemplateInstantiation() && !fd->isDependentContext()) r = tag(fid(fd));
                break;
            }
            if (auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(dc)) { if (!sp->isDependentContext()) r = tag(type(C.getRecordType(sp))); break; }
        }
        return ltags[l] = r;
    }
    std::string qname(const NamedDecl* d)
    {
        // qualified name without template arguments, without inline namespaces
        std::string s;
        if (auto* f = dyn_cast<FunctionDecl>(d)) { }
        std::vector<std::string> parts;
        parts.push_back(d->getDeclName() ? d->getNameAsString() : std::string("(anon)"));
        if (auto* cd = dyn_cast<CXXConstructorDecl>(d)) parts.back() = cd->getParent()->getNameAsString();
        else if (isa<CXXDestructorDecl>(d)) parts.back() = "~" + cast<CXXDestructorDecl>(d)->getParent()->getNameAsString();
        for (const DeclContext* dc = d->getDeclContext(); dc && !dc->isTranslationUnit(); dc = dc->getParent())
        {
            if (auto* ns = dyn_cast<NamespaceDecl>(dc)) { if (!ns->isInline() ) parts.push_back(ns->isAnonymousNamespace() ? "(anon)" : ns->getNameAsString()); }
            else if (auto* rd = dyn_cast<CXXRecordDecl>(dc)) parts.push_back(rd->isLambda() ? "(lambda)" : rd->getDeclName() ? rd->getNameAsString() : rd->getTypedefNameForAnonDecl() ? rd->getTypedefNameForAnonDecl()->getNameAsString() : "(anon)");
            else if (auto* fd = dyn_cast<FunctionDecl>(dc)) { parts.push_back(fd->getNameAsString() + "()"); }
            else if (auto* ed = dyn_cast<EnumDecl>(dc)) { if (ed->getDeclName()) parts.push_back(ed->getNameAsString()); }
        }
        for (auto i = parts.rbegin(); i != parts.rend(); ++i) { if (!s.empty()) s += "::"; s += *i; }
        return s;
    }
    // several instances of one template may be bases of the same object: their members need distinct names
    std::string fieldkey(const FieldDecl* f)
    {
        std::string q = qname(f);
        auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(f->getDeclContext());
        if (!sp || q.rfind("std::basic_string", 0) == 0 || q.rfind("std::initializer_list", 0) == 0) return q;
        std::string t = type(C.getRecordType(sp));
        char b[16]; snprintf(b, sizeof b, "@%05x", (unsigned)(llvm::djbHash(t) & 0xfffff));
        return q + b;
    }
    // members of a union that lie over its first member: the name of the same storage in the first member
    const FieldDecl* firstof(const RecordDecl* u) { for (auto* f : u->fields()) return f; return nullptr; }
    bool leaf(QualType t, uint64_t off, QualType want, std::vector<std::string>& out)
    {
        t = t.getCanonicalType().getUnqualifiedType();
        if (C.hasSameType(t, want)) return off == 0;
        if (auto* at = C.getAsConstantArrayType(t))
        {
            uint64_t n = C.getTypeSize(at->getElementType());
            if (!n || off / n >= at->getSize().getZExtValue()) return false;
            out.push_back("[" + std::to_string(off / n));
            return leaf(at->getElementType(), off % n, want, out);
        }
        auto* rd = t->getAsCXXRecordDecl();
        if (!rd || rd->isUnion() || !rd->hasDefinition() || rd->getNumBases()) return false;
        auto& lay = C.getASTRecordLayout(rd);
        for (auto* f : rd->fields())
        {
            uint64_t o = lay.getFieldOffset(f->getFieldIndex());
            if (off < o || off >= o + C.getTypeSize(f->getType())) continue;
            out.push_back(fieldkey(f));
            return leaf(f->getType(), off - o, want, out);
        }
        return false;
    }
    // the scalars an object without padding is made of
    bool scalars(QualType t, std::vector<std::string> path, std::vector<std::vector<std::string>>& out, int64_t at0, std::vector<int64_t>& offs)
    {
        t = t.getCanonicalType().getUnqualifiedType();
        if (out.size() > 64) return false;
        if (t->isScalarType()) { out.push_back(path); offs.push_back(at0); return true; }
        if (auto* at = C.getAsConstantArrayType(t))
        {
            for (uint64_t i = 0; i < at->getSize().getZExtValue() && i < 65; ++i) { auto p = path; p.push_back("[" + std::to_string(i)); if (!scalars(at->getElementType(), p, out, at0 + int64_t(i) * C.getTypeSizeInChars(at->getElementType()).getQuantity(), offs)) return false; }
            return true;
        }
        auto* rd = t->getAsCXXRecordDecl();
        if (!rd || !rd->hasDefinition() || rd->getNumBases() || rd->isDynamicClass()) return false;
        for (auto* f : rd->fields())
        {
            auto p = path;
            if (f->getDeclName()) p.push_back(fieldkey(f));
            if (f->isBitField() || !scalars(f->getType(), p, out, at0 + int64_t(C.getFieldOffset(f) / 8), offs)) return false;
            if (rd->isUnion()) break;
        }
        return true;
    }
    void cells(const CallExpr* x)
    {
        QualType t[2];
        for (int i = 0; i < 2; ++i)
        {
            auto* e = x->getArg(i)->IgnoreParenImpCasts();
            if (!e->getType()->isPointerType()) return;
            t[i] = e->getType()->getPointeeType().getCanonicalType().getUnqualifiedType();
        }
        if (!C.hasSameType(t[0], t[1]) || t[0]->isIncompleteType() || !t[0]->isRecordType()) return;
        std::vector<std::vector<std::string>> o;
        std::vector<int64_t> offs;
        if (!scalars(t[0], {}, o, 0, offs) || o.empty()) return;
        J.attribute("mcs", (int64_t)C.getTypeSizeInChars(t[0]).getQuantity());
        J.attributeBegin("mco"); J.array([&] { for (auto q : offs) J.value(q); }); J.attributeEnd();
        J.attributeBegin("mc"); J.array([&] { for (auto& p : o) J.array([&] { for (auto& q : p) J.value(q); }); }); J.attributeEnd();
    }
    void overlay(const FieldDecl* f)
    {
        auto* rd = f->getParent();
        if (rd->isDependentContext()) return;
        if (rd->isUnion())
        {
            auto* a = firstof(rd);
            if (a && a != f && a->getDeclName() && f->getType()->isRecordType()) { J.attribute("uf0", fieldkey(a)); J.attribute("uft", type(a->getType())); }
            return;
        }
        auto* u = dyn_cast_or_null<RecordDecl>(rd->getDeclContext());
        if (!rd->isAnonymousStructOrUnion() || !u || !u->isUnion() || !f->getType()->isScalarType()) return;
        auto* a = firstof(u);
        if (!a || !a->getDeclName()) return;
        std::vector<std::string> p { fieldkey(a) };
        if (leaf(a->getType(), C.getASTRecordLayout(rd).getFieldOffset(f->getFieldIndex()), f->getType().getCanonicalType().getUnqualifiedType(), p)) { J.attributeBegin("ov"); J.array([&] { for (auto& x : p) J.value(x); }); J.attributeEnd(); }
    }
    std::string tag(std::string const& t) { char b[16]; snprintf(b, sizeof b, "@%05x", (unsigned)(llvm::djbHash(t) & 0xfffff)); return b; }
    std::string varkey(const VarDecl* v)
    {
        std::string q = qname(v);
        if (auto* vs = dyn_cast<VarTemplateSpecializationDecl>(v))
        {
            std::string s; llvm::raw_string_ostream os(s);
            auto& a = vs->getTemplateArgs();
            for (unsigned i = 0; i < a.size(); ++i) { os << ", "; a.get(i).print(PP, os, true); }
            return q + tag(os.str());
        }
        if (auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(v->getDeclContext())) return q + tag(type(C.getRecordType(sp)));
        if (v->isStaticLocal()) if (auto* fd = dyn_cast<FunctionDecl>(v->getDeclContext())) if (fd->isTemplateInstantiation() && !fd->isDependentContext()) return q + tag(fid(fd));
        return q;
    }
    std::string recname(const CXXRecordDecl* rd)
    {
        if (rd->isLambda()) return "lambda@" + locstr(rd->getBeginLoc()) + lamtag(rd);
        return type(C.getRecordType(rd));
    }
    std::string locstr(SourceLocation l)
    {
        l = SM.getExpansionLoc(l);
        auto p = SM.getPresumedLoc(l, false);
        if (p.isInvalid()) return "?";
        return std::string(p.getFilename()) + ":" + std::to_string(p.getLine()) + ":" + std::to_string(p.getColumn());
    }
    std::map<const FunctionDecl*, std::string> fids;
    std::string fid(const FunctionDecl* f)
    {
        f = f->getCanonicalDecl();
        auto it = fids.find(f);
        if (it != fids.end()) return it->second;
        std::string s;
        bool local = false;
        for (const DeclContext* dc = f->getDeclContext(); dc; dc = dc->getParent())
            if (auto* rd = dyn_cast<CXXRecordDecl>(dc)) if (rd->isLambda()) local = true;
        if (f->isDependentContext() || f->getType()->isDependentType()) s = "dep:" + qname(f) + "@" + locstr(f->getLocation());
        else
        {
            llvm::raw_string_ostream os(s);
            if (auto* cd = dyn_cast<CXXConstructorDecl>(f)) MC->mangleName(GlobalDecl(cd, Ctor_Complete), os);
            else if (auto* dd = dyn_cast<CXXDestructorDecl>(f)) MC->mangleName(GlobalDecl(dd, Dtor_Complete), os);
            else if (MC->shouldMangleDeclName(f)) MC->mangleName(GlobalDecl(f), os);
            else os << f->getNameAsString();
            os.flush();
            if (local) s += "@" + locstr(f->getLocation());
            // the mangler numbers lambdas of different scopes alike: tell instances over them apart
            else if (s.find("$_") != std::string::npos || s.find("Ut") != std::string::npos || s.find("Ul") != std::string::npos)
            {
                std::string t;
                for (const DeclContext* dc = f->getDeclContext(); dc; dc = dc->getParent())
                    if (auto* rd = dyn_cast<CXXRecordDecl>(dc)) t += type(C.getRecordType(rd)) + ";";
                if (auto* ta = f->getTemplateSpecializationArgs()) { llvm::raw_string_ostream os(t); for (unsigned i = 0; i < ta->size(); ++i) { os << ", "; ta->get(i).print(PP, os, true); } }
                s += tag(t);
            }
        }
        fids[f] = s;
        return s;
    }
    void fref(const FunctionDecl* f)
    {
        J.object([&] {
            J.attribute("id", fid(f));
            J.attribute("q", qname(f));
            J.attribute("n", f->getNameAsString());
            if (auto* m = dyn_cast<CXXMethodDecl>(f))
            {
                J.attribute("c", recname(m->getParent()));
                J.attribute("cq", m->getParent()->isLambda() ? recname(m->getParent()) : qname(m->getParent()));
                if (m->isVirtual()) J.attribute("v", 1);
                if (m->isStatic()) J.attribute("st", 1);
                if (m->isConst()) J.attribute("co", 1);
                if (m->getParent()->isLambda()) J.attribute("lam", 1);
                if (auto* cd = dyn_cast<CXXConstructorDecl>(m))
                {
                    if (cd->isCopyConstructor()) J.attribute("copyctor", 1);
                    if (cd->isMoveConstructor()) J.attribute("movector", 1);
                }
                if (m->isCopyAssignmentOperator()) J.attribute("copyasn", 1);
                if (m->isMoveAssignmentOperator()) J.attribute("moveasn", 1);
                if (m->isTrivial()) J.attribute("triv", 1);
                if (m->isDefaulted()) J.attribute("dflt", 1);
            }
            if (f->isNoReturn()) J.attribute("nr", 1);
            if (f->isOverloadedOperator()) J.attribute("op", getOperatorSpelling(f->getOverloadedOperator()));
            if (f->getBuiltinID()) J.attribute("bi", 1);
            if (auto* args = f->getTemplateSpecializationArgs())
            {
                std::string s; llvm::raw_string_ostream os(s);
                for (unsigned i = 0; i < args->size(); ++i) { if (i) os << ", "; args->get(i).print(PP, os, true); }
                J.attribute("ta", os.str());
            }
        });
    }
    void vref(const ValueDecl* v)
    {
        J.object([&] {
            if (auto* f = dyn_cast<FunctionDecl>(v)) { J.attribute("dk", "func"); J.attributeBegin("f"); fref(f); J.attributeEnd(); return; }
            if (auto* e = dyn_cast<EnumConstantDecl>(v))
            {
                J.attribute("dk", "enum"); J.attribute("n", e->getNameAsString()); J.attribute("q", qname(e));
                J.attribute("v", ext64(e->getInitVal()));
                return;
            }
            if (auto* p = dyn_cast<ParmVarDecl>(v)) J.attribute("dk", "param");
            else if (auto* var = dyn_cast<VarDecl>(v))
            {
                if (var->isStaticDataMember()) J.attribute("dk", "static");
                else if (var->hasLocalStorage()) J.attribute("dk", "local");
                else if (var->isStaticLocal()) J.attribute("dk", "slocal");
                else J.attribute("dk", "global");
                if (!var->hasLocalStorage()) J.attribute("q", varkey(var));
                if (var->getTLSKind() != VarDecl::TLS_None) J.attribute("tls", 1);
                if (var->isConstexpr() || var->getType().isConstQualified()) J.attribute("const", 1);
            }
            else if (isa<BindingDecl>(v)) J.attribute("dk", "binding");
            else if (isa<FieldDecl>(v)) { J.attribute("dk", "field"); J.attribute("q", fieldkey(cast<FieldDecl>(v))); }
            else J.attribute("dk", "other");
            J.attribute("id", vid(v));
            J.attribute("n", v->getNameAsString());
            J.attribute("t", type(v->getType()));
        });
    }
    void apvalue(const APValue& v)
    {
        switch (v.getKind())
        {
        case APValue::Int: if (v.getInt().getBitWidth() > 64) J.value(llvm::toString(v.getInt(), 10)); else if (v.getInt().isSigned()) J.value(v.getInt().getSExtValue()); else J.value((uint64_t)v.getInt().getZExtValue()); break;
        case APValue::Float: J.value(v.getFloat().convertToDouble()); break;
        case APValue::Array:
            J.array([&] {
                for (unsigned i = 0; i < v.getArraySize(); ++i)
                    apvalue(i < v.getArrayInitializedElts() ? v.getArrayInitializedElt(i) : v.getArrayFiller());
            });
            break;
        case APValue::Struct:
            if (v.getStructNumFields() + v.getStructNumBases() == 1 ) { if (v.getStructNumFields()) apvalue(v.getStructField(0)); else apvalue(v.getStructBase(0)); }
            else J.array([&] { for (unsigned i = 0; i < v.getStructNumBases(); ++i) apvalue(v.getStructBase(i)); for (unsigned i = 0; i < v.getStructNumFields(); ++i) apvalue(v.getStructField(i)); });
            break;
        case APValue::LValue:
        {
            if (v.isNullPointer()) { J.value(nullptr); break; }
            if (auto* e = v.getLValueBase().dyn_cast<const Expr*>())
                if (auto* sl = dyn_cast<StringLiteral>(e)) { if (sl->getCharByteWidth() == 1) { J.value(llvm::json::fixUTF8(sl->getString())); break; } }
            if (auto* d = v.getLValueBase().dyn_cast<const ValueDecl*>()) { J.value("&" + qname(d)); break; }
            J.value("?");
            break;
        }
        default: J.value(nullptr); break;
        }
    }
    // is this class-type prvalue?
    void child(const char* name, const Stmt* s)
    {
        J.attributeBegin(name);
        if (s) tree(s); else J.value(nullptr);
        J.attributeEnd();
    }
    template <typename R>
    void children(const char* name, R&& r)
    {
        J.attributeBegin(name);
        J.array([&] { for (auto* a : r) { if (a) tree(a); else J.value(nullptr); } });
        J.attributeEnd();
    }
    static const Stmt* skip(const Stmt* s)
    {
        for (;;)
        {
            if (auto* p = dyn_cast_or_null<ParenExpr>(s)) s = p->getSubExpr();
            else if (auto* p = dyn_cast_or_null<SubstNonTypeTemplateParmExpr>(s)) s = p->getReplacement();
            else if (auto* p = dyn_cast_or_null<InitListExpr>(s); p && (p->isSemanticForm() || !p->getSemanticForm()) && p->isTransparent()) s = p->getInit(0);
            else if (auto* p = dyn_cast_or_null<FullExpr>(s)) { if (isa<ConstantExpr>(p)) s = p->getSubExpr(); else return s; }
            else if (auto* p = dyn_cast_or_null<AttributedStmt>(s)) s = p->getSubStmt();
            else return s;
        }
    }
    void varinfo(const VarDecl* v)
    {
        J.object([&] {
            J.attributeBegin("d"); vref(v); J.attributeEnd();
            if (v->getType()->isReferenceType()) J.attribute("ref", 1);
            if (v->isStaticLocal()) J.attribute("static", 1);
            if (auto* rd = v->getType().getNonReferenceType()->getAsCXXRecordDecl()) J.attribute("cls", recname(rd));
            if (auto* dd = dyn_cast<DecompositionDecl>(v))
            {
                J.attributeBegin("bindings");
                J.array([&] { for (auto* b : dd->bindings()) J.object([&] { J.attribute("id", vid(b)); J.attribute("n", b->getNameAsString()); if (b->getBinding()) child("e", b->getBinding()); if (b->getHoldingVar()) { J.attributeBegin("hv"); varinfo(b->getHoldingVar()); J.attributeEnd(); } }); });
                J.attributeEnd();
            }
            if (v->getInit()) child("init", v->getInit());
            J.attribute("l", loc(v->getLocation()).second);
        });
    }
    // a call of a constexpr function of the standard library without arguments
    static bool stdconst(const Expr* e)
    {
        auto* c = dyn_cast<CallExpr>(e);
        if (!c || c->getNumArgs() != 0 || isa<CXXMemberCallExpr>(c)) return false;
        auto* f = c->getDirectCallee();
        return f && f->isConstexpr() && f->isInStdNamespace() && f->getNameAsString().find("constant_evaluated") == std::string::npos;
    }
    void tree(const Stmt* s0)
    {
        const Stmt* s = skip(s0);
        J.object([&] {
            J.attribute("i", sid(s));
            auto* e = dyn_cast<Expr>(s);
            J.attribute("l", loc(s->getBeginLoc()).second);
            if (e)
            {
                if (e->containsErrors()) J.attribute("err", 1);
                // constant folding of integral prvalues
                if (e->isPRValue() && !e->isValueDependent() && !e->isTypeDependent() && (e->getType()->isIntegralOrEnumerationType()) && !isa<InitListExpr>(e) && (!isa<CallExpr>(e) || stdconst(e)))
                {
                    Expr::EvalResult r;
                    bool simple = !isa<CXXDefaultArgExpr>(e) && e->EvaluateAsRValue(r, C) && r.Val.isInt() && !r.HasSideEffects;
                    if (simple)
                    {
                        J.attribute("k", "Int");
                        { auto& iv = r.Val.getInt(); if (iv.getBitWidth() > 64) J.attribute("v", llvm::toString(iv, 10)); else if (iv.isSigned()) J.attribute("v", iv.getSExtValue()); else J.attribute("v", (uint64_t)iv.getZExtValue()); }
                        J.attribute("t", type(e->getType()));
                        const Expr* q = e->IgnoreParenImpCasts();
                        if (auto* dr = dyn_cast<DeclRefExpr>(q))
                            if (auto* ec = dyn_cast<EnumConstantDecl>(dr->getDecl())) J.attribute("en", qname(ec));
                        return;
                    }
                }
            }
            if (e) { J.attribute("t", type(e->getType())); if (e->isLValue()) J.attribute("lv", 1); else if (e->isXValue()) J.attribute("lv", 2); }
            if (auto* x = dyn_cast<DeclRefExpr>(s)) { J.attribute("k", "Ref"); J.attributeBegin("d"); vref(x->getDecl()); J.attributeEnd(); if (x->refersToEnclosingVariableOrCapture()) J.attribute("cap", 1); if (auto* b = dyn_cast<BindingDecl>(x->getDecl())) if (!b->getHoldingVar() && b->getBinding()) child("be", b->getBinding()); return; }
            if (auto* x = dyn_cast<MemberExpr>(s))
            {
                J.attribute("k", "Member");
                child("b", x->getBase());
                if (x->isArrow()) J.attribute("arrow", 1);
                auto* m = x->getMemberDecl();
                J.attribute("f", m->getNameAsString());
                if (auto* fd = dyn_cast<FieldDecl>(m)) J.attribute("fq", fieldkey(fd)); else if (auto* vd = dyn_cast<VarDecl>(m)) J.attribute("fq", varkey(vd)); else J.attribute("fq", qname(m));
                if (auto* fd = dyn_cast<FieldDecl>(m)) overlay(fd);
                if (isa<FieldDecl>(m)) { if (m->getType()->isReferenceType()) J.attribute("fref", 1); J.attribute("ft", type(m->getType())); if (cast<FieldDecl>(m)->isMutable()) J.attribute("mut", 1); if (auto* rd = dyn_cast<CXXRecordDecl>(m->getDeclContext())) if (rd->isLambda() == false && !rd->getDeclName()) J.attribute("anonrec", 1); if (!m->getDeclName()) J.attribute("anon", 1); }
                else if (isa<VarDecl>(m)) { J.attribute("sm", 1); J.attributeBegin("d"); vref(m); J.attributeEnd(); }
                else J.attribute("meth", 1);
                return;
            }
            if (auto* x = dyn_cast<CompoundStmt>(s)) { J.attribute("k", "Block"); children("s", x->body()); J.attribute("el", loc(x->getRBracLoc()).second); return; }
            if (auto* x = dyn_cast<IfStmt>(s)) { J.attribute("k", "If"); if (x->isConstexpr()) J.attribute("cx", 1); if (x->isConsteval()) { J.attribute("consteval", x->isNegatedConsteval() ? 2 : 1); } if (x->getInit()) child("init", x->getInit()); if (x->getConditionVariableDeclStmt()) child("var", x->getConditionVariableDeclStmt()); if (x->getCond()) child("c", x->getCond()); child("th", x->getThen()); child("el", x->getElse()); return; }
            if (auto* x = dyn_cast<WhileStmt>(s)) { J.attribute("k", "While"); if (x->getConditionVariableDeclStmt()) child("var", x->getConditionVariableDeclStmt()); child("c", x->getCond()); child("body", x->getBody()); return; }
            if (auto* x = dyn_cast<DoStmt>(s)) { J.attribute("k", "Do"); child("c", x->getCond()); child("body", x->getBody()); return; }
            if (auto* x = dyn_cast<ForStmt>(s)) { J.attribute("k", "For"); child("init", x->getInit()); if (x->getConditionVariableDeclStmt()) child("var", x->getConditionVariableDeclStmt()); child("c", x->getCond()); child("inc", x->getInc()); child("body", x->getBody()); return; }
            if (auto* x = dyn_cast<CXXForRangeStmt>(s)) { J.attribute("k", "RFor"); if (x->getInit()) child("init", x->getInit()); child("range", x->getRangeStmt()); child("begin", x->getBeginStmt()); child("end", x->getEndStmt()); child("c", x->getCond()); child("inc", x->getInc()); child("lv", x->getLoopVarStmt()); child("body", x->getBody()); return; }
            if (auto* x = dyn_cast<SwitchStmt>(s)) { J.attribute("k", "Switch"); if (x->getInit()) child("init", x->getInit()); if (x->getConditionVariableDeclStmt()) child("var", x->getConditionVariableDeclStmt()); child("c", x->getCond()); child("body", x->getBody()); return; }
            if (auto* x = dyn_cast<CaseStmt>(s))
            {
                J.attribute("k", "Case");
                auto v = x->getLHS()->EvaluateKnownConstInt(C); J.attribute("lo", ext64(v)); J.attribute("hi", x->getRHS() ? ext64(x->getRHS()->EvaluateKnownConstInt(C)) : ext64(v));
                const Expr* q = x->getLHS()->IgnoreParenImpCasts(); if (auto* ce = dyn_cast<ConstantExpr>(q)) q = ce->getSubExpr()->IgnoreParenImpCasts();
                if (auto* dr = dyn_cast<DeclRefExpr>(q)) J.attribute("en", qname(dr->getDecl()));
                child("s", x->getSubStmt()); return;
            }
            if (auto* x = dyn_cast<DefaultStmt>(s)) { J.attribute("k", "Default"); child("s", x->getSubStmt()); return; }
            if (isa<BreakStmt>(s)) { J.attribute("k", "Break"); return; }
            if (isa<ContinueStmt>(s)) { J.attribute("k", "Continue"); return; }
            if (isa<NullStmt>(s)) { J.attribute("k", "NullS"); return; }
            if (auto* x = dyn_cast<GotoStmt>(s)) { J.attribute("k", "Goto"); J.attribute("n", x->getLabel()->getNameAsString()); return; }
            if (auto* x = dyn_cast<LabelStmt>(s)) { J.attribute("k", "Label"); J.attribute("n", x->getName()); child("s", x->getSubStmt()); return; }
            if (auto* x = dyn_cast<CXXTryStmt>(s)) { J.attribute("k", "Try"); child("body", x->getTryBlock()); std::vector<const Stmt*> h; for (unsigned i = 0; i < x->getNumHandlers(); ++i) h.push_back(x->getHandler(i)); children("h", h); return; }
            if (isa<CXXThisExpr>(s)) { J.attribute("k", "This"); return; }
            if (auto* x = dyn_cast<IntegerLiteral>(s)) { J.attribute("k", "Int"); J.attribute("v", x->getValue().getSExtValue()); return; }
            if (auto* x = dyn_cast<CharacterLiteral>(s)) { J.attribute("k", "Int"); J.attribute("v", (int64_t)x->getValue()); return; }
            if (auto* x = dyn_cast<CXXBoolLiteralExpr>(s)) { J.attribute("k", "Int"); J.attribute("v", x->getValue() ? 1 : 0); return; }
            if (auto* x = dyn_cast<FloatingLiteral>(s)) { J.attribute("k", "Float"); llvm::SmallString<32> b; x->getValue().toString(b); J.attribute("v", b.str()); return; }
            if (auto* x = dyn_cast<StringLiteral>(s)) { J.attribute("k", "Str"); if (x->getCharByteWidth() == 1) { J.attribute("v", llvm::json::fixUTF8(x->getString())); } return; }
            if (isa<CXXNullPtrLiteralExpr>(s) || isa<GNUNullExpr>(s)) { J.attribute("k", "Null"); return; }
            if (auto* x = dyn_cast<UnaryOperator>(s)) { J.attribute("k", "Un"); J.attribute("op", UnaryOperator::getOpcodeStr(x->getOpcode())); if (x->isPostfix()) J.attribute("post", 1); child("e", x->getSubExpr()); return; }
            if (auto* x = dyn_cast<BinaryOperator>(s)) { J.attribute("k", isa<CompoundAssignOperator>(s) ? "CAsg" : "Bin"); J.attribute("op", x->getOpcodeStr()); child("a", x->getLHS()); child("b", x->getRHS()); return; }
            if (auto* x = dyn_cast<ConditionalOperator>(s)) { J.attribute("k", "Cond"); child("c", x->getCond()); child("a", x->getTrueExpr()); child("b", x->getFalseExpr()); return; }
            if (auto* x = dyn_cast<CXXDefaultArgExpr>(s)) { J.attribute("k", "Wrap"); J.attribute("w", "defarg"); child("e", x->getExpr()); return; }
            if (auto* x = dyn_cast<CXXDefaultInitExpr>(s)) { J.attribute("k", "Wrap"); J.attribute("w", "definit"); child("e", x->getExpr()); return; }
            if (auto* x = dyn_cast<ExprWithCleanups>(s)) { J.attribute("k", "Full"); child("e", x->getSubExpr()); return; }
            if (auto* x = dyn_cast<CXXBindTemporaryExpr>(s)) { J.attribute("k", "Bind"); if (auto* rd = x->getType()->getAsCXXRecordDecl()) J.attribute("cls", recname(rd)); child("e", x->getSubExpr()); return; }
            if (auto* x = dyn_cast<MaterializeTemporaryExpr>(s)) { J.attribute("k", "Mat"); if (x->getExtendingDecl()) J.attribute("ext", vid(x->getExtendingDecl())); child("e", x->getSubExpr()); return; }
            if (auto* x = dyn_cast<CastExpr>(s))
            {
                J.attribute("k", "Cast"); J.attribute("ck", x->getCastKindName());
                if (x->getCastKind() == CK_BitCast) { auto pt = x->getSubExpr()->getType()->getPointeeType(); if (!pt.isNull() && !pt->isDependentType() && !pt->isIncompleteType() && !pt->isFunctionType() && pt->isObjectType()) J.attribute("psz", (int64_t)C.getTypeSizeInChars(pt).getQuantity()); }
                if (isa<CXXDynamicCastExpr>(s)) J.attribute("dyn", 1);
                if (isa<ExplicitCastExpr>(s)) J.attribute("ex", 1);
                if (auto* f = x->getConversionFunction()) if (auto* fd = dyn_cast<FunctionDecl>(f)) { J.attributeBegin("cf"); fref(fd); J.attributeEnd(); }
                child("e", x->getSubExpr());
                return;
            }
            if (auto* x = dyn_cast<CXXOperatorCallExpr>(s))
            {
                J.attribute("k", "Call");
                auto* f = x->getDirectCallee();
                bool mem = f && isa<CXXMethodDecl>(f) && !cast<CXXMethodDecl>(f)->isStatic();
                J.attribute("opc", getOperatorSpelling(x->getOperator()));
                if (f) { J.attributeBegin("f"); fref(f); J.attributeEnd(); }
                if (mem)
                {
                    child("o", x->getArg(0));
                    std::vector<const Expr*> a; for (unsigned i = 1; i < x->getNumArgs(); ++i) a.push_back(x->getArg(i));
                    children("a", a);
                }
                else
                {
                    std::vector<const Expr*> a; for (unsigned i = 0; i < x->getNumArgs(); ++i) a.push_back(x->getArg(i));
                    children("a", a);
                }
                return;
            }
            if (auto* x = dyn_cast<CXXMemberCallExpr>(s))
            {
                J.attribute("k", "Call");
                if (auto* f = x->getMethodDecl()) { J.attributeBegin("f"); fref(f); J.attributeEnd(); }
                else child("ce", x->getCallee());
                child("o", x->getImplicitObjectArgument());
                if (auto* me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())) { if (me->isArrow()) J.attribute("arrow", 1); if (me->hasQualifier()) J.attribute("qual", 1); }
                std::vector<const Expr*> a; for (unsigned i = 0; i < x->getNumArgs(); ++i) a.push_back(x->getArg(i));
                children("a", a);
                return;
            }
            if (auto* x = dyn_cast<CallExpr>(s))
            {
                J.attribute("k", "Call");
                if (auto* f = x->getDirectCallee()) { J.attributeBegin("f"); fref(f); J.attributeEnd(); }
                else child("ce", x->getCallee());
                if (auto* f = x->getDirectCallee()) if (f->getDeclName().isIdentifier() && (f->getName() == "memcmp" || f->getName() == "__builtin_memcmp") && x->getNumArgs() == 3) cells(x);
                std::vector<const Expr*> a; for (unsigned i = 0; i < x->getNumArgs(); ++i) a.push_back(x->getArg(i));
                children("a", a);
                return;
            }
            if (auto* x = dyn_cast<CXXConstructExpr>(s))
            {
                J.attribute("k", "Ctor");
                J.attributeBegin("f"); fref(x->getConstructor()); J.attributeEnd();
                if (auto* rd = x->getType()->getAsCXXRecordDecl()) J.attribute("cls", recname(rd));
                if (x->isElidable()) J.attribute("elid", 1);
                if (x->isListInitialization()) J.attribute("list", 1);
                if (x->requiresZeroInitialization()) J.attribute("zero", 1);
                if (isa<CXXTemporaryObjectExpr>(s)) J.attribute("tmp", 1);
                std::vector<const Expr*> a; for (unsigned i = 0; i < x->getNumArgs(); ++i) a.push_back(x->getArg(i));
                children("a", a);
                return;
            }
            if (auto* x = dyn_cast<CXXInheritedCtorInitExpr>(s)) { J.attribute("k", "InhCtor"); J.attributeBegin("f"); fref(x->getConstructor()); J.attributeEnd(); return; }
            if (auto* x = dyn_cast<CXXNewExpr>(s))
            {
                J.attribute("k", "New");
                J.attribute("at", type(x->getAllocatedType()));
                if (auto* rd = x->getAllocatedType()->getAsCXXRecordDecl()) J.attribute("cls", recname(rd));
                std::vector<const Expr*> a; for (unsigned i = 0; i < x->getNumPlacementArgs(); ++i) a.push_back(x->getPlacementArg(i));
                children("pl", a);
                if (x->getOperatorNew()) { J.attributeBegin("f"); fref(x->getOperatorNew()); J.attributeEnd(); }
                if (x->isArray()) { J.attribute("arr", 1); if (x->getArraySize() && *x->getArraySize()) child("sz", *x->getArraySize()); }
                if (x->getInitializer()) child("init", x->getInitializer());
                return;
            }
            if (auto* x = dyn_cast<CXXDeleteExpr>(s)) { J.attribute("k", "Delete"); if (x->isArrayForm()) J.attribute("arr", 1); if (auto* rd = x->getDestroyedType().isNull() ? nullptr : x->getDestroyedType()->getAsCXXRecordDecl()) { J.attribute("cls", recname(rd)); if (rd->hasDefinition() && rd->getDestructor()) { J.attributeBegin("df"); fref(rd->getDestructor()); J.attributeEnd(); } } child("e", x->getArgument()); return; }
            if (auto* x = dyn_cast<CXXPseudoDestructorExpr>(s)) { J.attribute("k", "PseudoDtor"); if (x->isArrow()) J.attribute("arrow", 1); child("b", x->getBase()); return; }
            if (auto* x = dyn_cast<InitListExpr>(s))
            {
                J.attribute("k", "InitList");
                const InitListExpr* q = x->isSemanticForm() || !x->getSemanticForm() ? x : x->getSemanticForm();
                if (auto* rd = x->getType()->getAsCXXRecordDecl())
                {
                    J.attribute("cls", recname(rd));
                    J.attributeBegin("fl"); J.array([&] { if (rd->hasDefinition()) { for (auto& b : rd->bases()) { (void)b; J.value("<base>"); } for (auto* f : rd->fields()) J.value(fieldkey(f)); } }); J.attributeEnd();
                    if (rd->isUnion() && x->getInitializedFieldInUnion()) J.attribute("uf", fieldkey(x->getInitializedFieldInUnion()));
                }
                std::vector<const Expr*> a; for (unsigned i = 0; i < q->getNumInits(); ++i) a.push_back(q->getInit(i));
                children("a", a);
                return;
            }
            if (auto* x = dyn_cast<CXXStdInitializerListExpr>(s)) { J.attribute("k", "StdInit"); child("e", x->getSubExpr()); return; }
            if (auto* x = dyn_cast<CXXParenListInitExpr>(s)) { J.attribute("k", "InitList"); if (auto* rd = x->getType()->getAsCXXRecordDecl()) { J.attribute("cls", recname(rd)); J.attributeBegin("fl"); J.array([&] { if (rd->hasDefinition()) { for (auto& b : rd->bases()) { (void)b; J.value("<base>"); } for (auto* f : rd->fields()) J.value(fieldkey(f)); } }); J.attributeEnd(); } std::vector<const Expr*> a; for (auto* i : x->getInitExprs()) a.push_back(i); children("a", a); return; }
            if (auto* x = dyn_cast<LambdaExpr>(s))
            {
                J.attribute("k", "Lambda");
                J.attribute("cls", recname(x->getLambdaClass()));
                if (x->getCallOperator() && !x->isGenericLambda()) { J.attributeBegin("f"); fref(x->getCallOperator()); J.attributeEnd(); }
                J.attributeBegin("caps");
                J.array([&] {
                    auto in = x->capture_init_begin();
                    for (auto& c : x->captures())
                    {
                        J.object([&] {
                            if (c.capturesThis()) J.attribute("this", 1);
                            else if (c.capturesVariable()) { J.attribute("n", c.getCapturedVar()->getNameAsString()); J.attribute("id", vid(c.getCapturedVar())); }
                            if (c.getCaptureKind() == LCK_ByRef) J.attribute("ref", 1);
                            if (c.getCaptureKind() == LCK_StarThis) J.attribute("starthis", 1);
                            if (*in) child("e", *in);
                        });
                        ++in;
                    }
                });
                J.attributeEnd();
                return;
            }
            if (auto* x = dyn_cast<ArraySubscriptExpr>(s)) { J.attribute("k", "Idx"); child("a", x->getBase()); child("b", x->getIdx()); return; }
            if (auto* x = dyn_cast<CXXThrowExpr>(s)) { J.attribute("k", "Throw"); if (x->getSubExpr()) { J.attribute("tt", type(x->getSubExpr()->getType())); child("e", x->getSubExpr()); } return; }
            if (auto* x = dyn_cast<ReturnStmt>(s)) { J.attribute("k", "Return"); if (x->getRetValue()) child("e", x->getRetValue()); return; }
            if (auto* x = dyn_cast<DeclStmt>(s))
            {
                J.attribute("k", "Decl");
                J.attributeBegin("vars");
                J.array([&] { for (auto* d : x->decls()) if (auto* v = dyn_cast<VarDecl>(d)) varinfo(v); });
                J.attributeEnd();
                return;
            }
            if (auto* x = dyn_cast<OpaqueValueExpr>(s)) { J.attribute("k", "Opaque"); if (x->getSourceExpr()) child("e", x->getSourceExpr()); return; }
            if (auto* x = dyn_cast<CXXTypeidExpr>(s))
            {
                J.attribute("k", "Typeid");
                if (x->isTypeOperand()) J.attribute("of", type(x->getTypeOperand(C).getUnqualifiedType()));
                else { J.attribute("of", type(x->getExprOperand()->getType().getUnqualifiedType())); if (x->isPotentiallyEvaluated()) child("e", x->getExprOperand()); }
                return;
            }
            if (auto* x = dyn_cast<CXXRewrittenBinaryOperator>(s)) { J.attribute("k", "Wrap"); J.attribute("w", "rewritten"); child("e", x->getSemanticForm()); return; }
            if (auto* x = dyn_cast<PseudoObjectExpr>(s)) { J.attribute("k", "Other"); return; }
            if (isa<CXXScalarValueInitExpr>(s) || isa<ImplicitValueInitExpr>(s)) { J.attribute("k", "Zero"); if (auto* rd = e->getType()->getAsCXXRecordDecl()) J.attribute("cls", recname(rd)); return; }
            if (auto* x = dyn_cast<ArrayInitLoopExpr>(s)) { J.attribute("k", "ArrInit"); child("e", x->getCommonExpr()->getSourceExpr()); child("sub", x->getSubExpr()); return; }
            if (isa<ArrayInitIndexExpr>(s)) { J.attribute("k", "ArrIdx"); return; }
            if (isa<GCCAsmStmt>(s)) { J.attribute("k", "Asm"); return; }
            if (auto* x = dyn_cast<CXXCatchStmt>(s)) { J.attribute("k", "Catch"); if (x->getExceptionDecl()) { J.attribute("tt", type(x->getCaughtType())); J.attributeBegin("d"); vref(x->getExceptionDecl()); J.attributeEnd(); } else J.attribute("tt", "..."); child("body", x->getHandlerBlock()); return; }
            if (auto* x = dyn_cast<AtomicExpr>(s)) { J.attribute("k", "Atomic"); std::vector<const Expr*> a; for (unsigned i = 0; i < const_cast<AtomicExpr*>(x)->getNumSubExprs(); ++i) a.push_back(const_cast<AtomicExpr*>(x)->getSubExprs()[i]); children("a", a); return; }
            J.attribute("k", "Other");
            J.attribute("sk", s->getStmtClassName());
            if (e) { std::vector<const Expr*> a; for (auto* c : s->children()) if (auto* ce = dyn_cast_or_null<Expr>(c)) a.push_back(ce); children("a", a); }
        });
    }
    void body(const FunctionDecl* f)
    {
        if (auto* cd = dyn_cast<CXXConstructorDecl>(f))
        {
            J.attributeBegin("inits");
            J.array([&] {
                for (auto* in : cd->inits()) J.object([&] {
                    J.attribute("k", "INIT");
                    J.attribute("l", loc(in->getSourceLocation()).second);
                    if (in->isWritten()) J.attribute("w", 1);
                    if (in->isAnyMemberInitializer()) { J.attribute("field", in->getAnyMember()->getNameAsString()); J.attribute("fq", fieldkey(in->getAnyMember())); J.attribute("ft", type(in->getAnyMember()->getType())); if (in->getAnyMember()->getType()->isReferenceType()) J.attribute("ref", 1); if (auto* rd = in->getAnyMember()->getType()->getAsCXXRecordDecl()) J.attribute("cls", recname(rd)); }
                    else if (in->isBaseInitializer()) { J.attribute("base", type(QualType(in->getBaseClass(), 0))); if (in->isBaseVirtual()) J.attribute("vbase", 1); }
                    else J.attribute("deleg", 1);
                    if (in->getInit()) child("e", in->getInit());
                });
            });
            J.attributeEnd();
        }
        child("body", f->getBody());
    }
    void function(const FunctionDecl* f)
    {
        J.object([&] {
            J.attribute("rec", "fn");
            J.attribute("id", fid(f));
            J.attribute("q", qname(f));
            J.attribute("n", f->getNameAsString());
            auto p = loc(f->getLocation());
            J.attribute("file", p.first);
            J.attribute("line", p.second);
            J.attribute("col", SM.getPresumedLoc(SM.getExpansionLoc(f->getLocation())).getColumn()); J.attribute("eline", loc(f->getBodyRBrace()).second);
            J.attribute("ret", type(f->getReturnType()));
            if (auto* m = dyn_cast<CXXMethodDecl>(f))
            {
                J.attribute("c", recname(m->getParent()));
                J.attribute("cq", m->getParent()->isLambda() ? recname(m->getParent()) : qname(m->getParent()));
                if (m->isVirtual()) J.attribute("v", 1);
                if (m->isStatic()) J.attribute("st", 1);
                if (m->isConst()) J.attribute("co", 1);
                if (m->getParent()->isLambda()) J.attribute("lam", 1);
                if (m->getRefQualifier() == RQ_RValue) J.attribute("rq", 1);
                if (m->isImplicit()) J.attribute("implicit", 1);
                if (m->isDefaulted()) J.attribute("dflt", 1);
                if (auto* cd = dyn_cast<CXXConstructorDecl>(m)) { J.attribute("ctor", 1); if (cd->isCopyConstructor()) J.attribute("copyctor", 1); if (cd->isMoveConstructor()) J.attribute("movector", 1); if (cd->isDefaultConstructor()) J.attribute("defctor", 1); }
                if (isa<CXXDestructorDecl>(m)) J.attribute("dtor", 1);
                if (m->isCopyAssignmentOperator()) J.attribute("copyasn", 1);
                if (m->isMoveAssignmentOperator()) J.attribute("moveasn", 1);
                J.attributeBegin("ovr");
                J.array([&] { std::set<const CXXMethodDecl*> seen; ovr(m, seen); for (auto* o : seen) J.value(fid(o)); });
                J.attributeEnd();
            }
            J.attribute("acc", (int)f->getAccess());
            if (f->isOverloadedOperator()) J.attribute("op", getOperatorSpelling(f->getOverloadedOperator()));
            if (auto* args = f->getTemplateSpecializationArgs())
            {
                std::string s; llvm::raw_string_ostream os(s);
                for (unsigned i = 0; i < args->size(); ++i) { if (i) os << ", "; args->get(i).print(PP, os, true); }
                J.attribute("ta", os.str());
            }
            J.attributeBegin("params");
            J.array([&] { for (auto* q : f->parameters()) J.object([&] {
                J.attribute("id", vid(q)); J.attribute("n", q->getNameAsString()); J.attribute("t", type(q->getType()));
                if (q->getType()->isReferenceType()) J.attribute("ref", 1);
                if (q->getType()->isRValueReferenceType()) J.attribute("rref", 1);
                if (auto* rd = q->getType().getNonReferenceType()->getAsCXXRecordDecl()) J.attribute("cls", recname(rd));
            }); });
            J.attributeEnd();
            body(f);
        });
    }
    void ovr(const CXXMethodDecl* m, std::set<const CXXMethodDecl*>& s)
    {
        for (auto* o : m->overridden_methods()) { if (s.insert(o).second) ovr(o, s); }
    }
    void record(const CXXRecordDecl* r)
    {
        J.object([&] {
            J.attribute("rec", "cls");
            J.attribute("n", recname(r));
            J.attribute("q", r->isLambda() ? recname(r) : qname(r));
            auto p = loc(r->getLocation());
            J.attribute("file", p.first); J.attribute("line", p.second);
            if (r->isAbstract()) J.attribute("abs", 1); if (r->hasAttr<FinalAttr>()) J.attribute("final", 1);
            if (r->isPolymorphic()) J.attribute("poly", 1);
            if (r->isUnion()) J.attribute("union", 1);
            if (!r->isDependentType() && r->isCompleteDefinition() && !r->isInvalidDecl()) J.attribute("size", (int64_t)C.getASTRecordLayout(r).getSize().getQuantity());
            if (r->isLambda()) J.attribute("lam", 1);
            J.attributeBegin("bases"); J.array([&] { for (auto& b : r->bases()) J.value(type(b.getType())); }); J.attributeEnd();
            J.attributeBegin("fields");
            J.array([&] { for (auto* f : r->fields()) J.object([&] {
                J.attribute("n", f->getNameAsString()); J.attribute("fq", fieldkey(f)); J.attribute("t", type(f->getType())); J.attribute("l", loc(f->getLocation()).second); if (!f->getDeclName()) J.attribute("anon", 1); J.attribute("acc", (int)f->getAccess());
                if (f->isMutable()) J.attribute("mut", 1);
                if (f->getType()->isReferenceType()) J.attribute("ref", 1);
                if (f->getType().isConstQualified()) J.attribute("const", 1);
                if (auto* rd = f->getType().getNonReferenceType()->getAsCXXRecordDecl()) J.attribute("cls", recname(rd));
                if (f->getInClassInitializer()) child("init", f->getInClassInitializer());
            }); });
            J.attributeEnd();
            if (r->isLambda())
            {
                J.attributeBegin("lcaps");
                J.array([&] { auto fi = r->field_begin(); for (auto& c : r->captures()) { J.object([&] { if (c.capturesThis()) J.attribute("this", 1); else if (c.capturesVariable()) J.attribute("id", vid(c.getCapturedVar())); }); ++fi; } });
                J.attributeEnd();
            }
            J.attributeBegin("methods");
            J.array([&] { for (auto* m : r->methods()) J.object([&] {
                J.attribute("id", fid(m)); J.attribute("n", m->getNameAsString()); J.attribute("acc", (int)m->getAccess());
                if (m->isVirtual()) J.attribute("v", 1);
                if (m->isPureVirtual()) J.attribute("pure", 1);
                if (m->isDeleted()) J.attribute("del", 1);
                if (m->isImplicit()) J.attribute("implicit", 1);
                if (m->isDefaulted()) J.attribute("dflt", 1);
                if (m->isStatic()) J.attribute("st", 1);
                if (m->isConst()) J.attribute("co", 1);
                if (auto* cd = dyn_cast<CXXConstructorDecl>(m)) { J.attribute("ctor", 1); if (cd->isCopyConstructor()) J.attribute("copyctor", 1); if (cd->isMoveConstructor()) J.attribute("movector", 1); }
                if (isa<CXXDestructorDecl>(m)) J.attribute("dtor", 1);
                if (m->isCopyAssignmentOperator()) J.attribute("copyasn", 1);
                if (m->isMoveAssignmentOperator()) J.attribute("moveasn", 1);
                J.attributeBegin("ovr");
                J.array([&] { std::set<const CXXMethodDecl*> seen; ovr(m, seen); for (auto* o : seen) J.value(fid(o)); });
                J.attributeEnd();
            }); });
            J.attributeEnd();
        });
    }
    void enumeration(const EnumDecl* d)
    {
        J.object([&] {
            J.attribute("rec", "enum");
            J.attribute("q", qname(d));
            auto p = loc(d->getLocation());
            J.attribute("file", p.first); J.attribute("line", p.second);
            J.attributeBegin("vals");
            J.array([&] { for (auto* e : d->enumerators()) J.object([&] { J.attribute("n", e->getNameAsString()); J.attribute("v", ext64(e->getInitVal())); }); });
            J.attributeEnd();
        });
    }
    void variable(const VarDecl* v)
    {
        J.object([&] {
            J.attribute("rec", "var");
            J.attribute("q", varkey(v));
            J.attribute("t", type(v->getType()));
            auto p = loc(v->getLocation());
            J.attribute("file", p.first); J.attribute("line", p.second);
            if (auto* vs = dyn_cast<VarTemplateSpecializationDecl>(v))
            {
                std::string s; llvm::raw_string_ostream os(s);
                auto& a = vs->getTemplateArgs();
                for (unsigned i = 0; i < a.size(); ++i) { if (i) os << ", "; a.get(i).print(PP, os, true); }
                J.attribute("ta", os.str());
            }
            if (v->getInit() && !v->getInit()->isValueDependent())
            {
                const APValue* av = (v->isConstexpr() || v->getType().isConstQualified() || v->checkForConstantInitialization(*new SmallVector<PartialDiagnosticAt, 8>())) ? v->evaluateValue() : nullptr;
                if (av && !av->isAbsent()) { J.attributeBegin("val"); apvalue(*av); J.attributeEnd(); }
                else child("init", v->getInit());
            }
        });
    }
};

struct Visitor : RecursiveASTVisitor<Visitor>
{
    Dumper& D;
    std::set<const Decl*> seen;
    std::vector<const FunctionDecl*> fns; std::vector<const CXXRecordDecl*> recs; std::vector<const EnumDecl*> enums; std::vector<const VarDecl*> vars;
    Visitor(Dumper& d) : D(d) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool shouldVisitLambdaBody() const { return true; }
    bool VisitFunctionDecl(FunctionDecl* f)
    {
        if (!f->doesThisDeclarationHaveABody() || f->isDependentContext() || f->getType()->isDependentType()) return true;
        if (!f->getBody()) return true;
        if (!D.interesting(f->getLocation())) return true;
        if (seen.insert(f).second) fns.push_back(f);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* r)
    {
        if (!r->isThisDeclarationADefinition() || r->isDependentContext()) return true;
        if (!D.interesting(r->getLocation())) return true;
        if (seen.insert(r).second) recs.push_back(r);
        return true;
    }
    bool VisitEnumDecl(EnumDecl* d)
    {
        if (!d->isThisDeclarationADefinition() || !D.interesting(d->getLocation()) || d->isDependentContext()) return true;
        if (seen.insert(d).second) enums.push_back(d);
        return true;
    }
    bool VisitVarDecl(VarDecl* v)
    {
        if (isa<ParmVarDecl>(v) || v->hasLocalStorage() || !D.interesting(v->getLocation())) return true;
        if (v->getType()->isDependentType() || v->getDeclContext()->isDependentContext()) return true;
        if (isa<VarTemplatePartialSpecializationDecl>(v) || v->getDescribedVarTemplate()) return true;
        if (!v->getInit()) return true;
        if (seen.insert(v).second) vars.push_back(v);
        return true;
    }
    bool VisitLambdaExpr(LambdaExpr* l)
    {
        auto* rd = l->getLambdaClass();
        if (rd && !rd->isDependentContext() && D.interesting(rd->getLocation()) && seen.insert(rd).second) recs.push_back(rd);
        if (auto* op = l->getCallOperator())
        {
            if (!l->isGenericLambda()) { VisitFunctionDecl(op); }
            else if (auto* ft = op->getDescribedFunctionTemplate())
                for (auto* s : ft->specializations()) if (s->hasBody()) { if (!s->isDependentContext() && D.interesting(s->getLocation()) && seen.insert(s).second) fns.push_back(s); TraverseStmt(s->getBody()); }
        }
        return true;
    }
};

struct Consumer : ASTConsumer
{
    CompilerInstance& CI;
    Consumer(CompilerInstance& ci) : CI(ci) {}
    void HandleTranslationUnit(ASTContext& c) override
    {
        std::error_code ec;
        llvm::raw_fd_ostream os(gOut, ec);
        llvm::raw_ostream& o = os;
        auto emit = [&](auto&& fn) { };
        (void)emit;
        // one Dumper; each record on its own line
        std::string buf;
        {
            Visitor* vp;
            llvm::raw_null_ostream nul; OStream dj(nul); dj.value(nullptr);
            Dumper d0(c, dj);
            Visitor v(d0); vp = &v;
            v.TraverseDecl(c.getTranslationUnitDecl());
            Dumper* keep = nullptr;
            auto one = [&](auto&& what)
            {
                std::string s; llvm::raw_string_ostream ss(s);
                {
                    OStream j(ss);
                    Dumper d(c, j);
                    d.fids = std::move(d0.fids); d.vids = std::move(d0.vids);
                    what(d);
                    d0.fids = std::move(d.fids); d0.vids = std::move(d.vids);
                }
                o << ss.str() << "\n";
            };
            (void)vp; (void)keep;
            for (auto* e : v.enums) one([&](Dumper& d) { d.enumeration(e); });
            for (auto* r : v.recs) one([&](Dumper& d) { d.record(r); });
            for (auto* x : v.vars) one([&](Dumper& d) { d.variable(x); });
            for (auto* f : v.fns) one([&](Dumper& d) { d.function(f); });
        }
        o << "{\"rec\":\"end\",\"errors\":" << CI.getDiagnostics().getNumErrors() << "}\n";
    }
};
struct Action : ASTFrontendAction
{
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& ci, StringRef) override
    {
        return std::make_unique<Consumer>(ci);
    }
};
}

int main(int argc, const char** argv)
{
    // nsx OUT DIR[,DIR...] FILE -- flags
    if (argc < 4) return 2;
    gOut = argv[1];
    { StringRef s(argv[2]); llvm::SmallVector<StringRef, 4> v; s.split(v, ','); for (auto q : v) gDirs.push_back(q.str()); }
    std::string file = argv[3];
    std::string err;
    int n = argc;
    auto db = tooling::FixedCompilationDatabase::loadFromCommandLine(n, argv, err);
    if (!db) { llvm::errs() << err << "\n"; return 2; }
    tooling::ClangTool tool(*db, { file });
    int r = [&]{ tool.appendArgumentsAdjuster(tooling::getInsertArgumentAdjuster({"-resource-dir","/usr/lib/llvm-18/lib/clang/18"}, tooling::ArgumentInsertPosition::BEGIN)); return tool.run(tooling::newFrontendActionFactory<Action>().get()); }();
    return r == 2 ? 2 : 0;
}
