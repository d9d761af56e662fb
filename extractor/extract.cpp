// AST -> JSON extractor for the ros2_control static checks.
//
// Usage: extract OUT.json REPO_ROOT SOURCE -- <compiler args>
// Emits, for every function with a body that lives below REPO_ROOT (concrete functions and
// template instantiations), a structured, name-resolved statement/expression tree, plus records,
// enums and namespace-scope variables.
#include <fstream>
#include <map>
#include <set>
#include <string>
#include <vector>

#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Frontend/TextDiagnosticPrinter.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

using namespace clang;
namespace json = llvm::json;

static std::string gRoot, gOut;
static int gErrors = 0;
static int64_t iv(const llvm::APSInt & v) { return v.extOrTrunc(64).getZExtValue(); }
static std::vector<std::string> gErrText;

class Ex
{
public:
  explicit Ex(ASTContext & c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts())
  {
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
    PP.SuppressInlineNamespace = true;
  }
  ASTContext & C;
  SourceManager & SM;
  PrintingPolicy PP;
  std::map<const Decl *, int> ids;

  int id(const Decl * d)
  {
    d = d->getCanonicalDecl();
    auto it = ids.find(d);
    if (it != ids.end()) return it->second;
    int n = static_cast<int>(ids.size()) + 1;
    ids[d] = n;
    return n;
  }
  std::string file(SourceLocation l)
  {
    l = SM.getExpansionLoc(l);
    if (l.isInvalid()) return "";
    auto fe = SM.getFileEntryRefForID(SM.getFileID(l));
    if (!fe) return "";
    llvm::StringRef rp = fe->getFileEntry().tryGetRealPathName();
    return rp.empty() ? fe->getName().str() : rp.str();
  }
  int line(SourceLocation l) { return static_cast<int>(SM.getExpansionLineNumber(l)); }
  bool inRoot(SourceLocation l)
  {
    std::string f = file(l);
    return f.rfind(gRoot, 0) == 0 || f.find("/tus/tr_") != std::string::npos;  // drivers count as sources
  }
  std::string rel(SourceLocation l)
  {
    std::string f = file(l);
    if (f.rfind(gRoot, 0) == 0) return f.substr(gRoot.size());
    return f;
  }
  std::string ty(QualType t)
  {
    if (t.isNull()) return "";
    std::string s = t.getCanonicalType().getAsString(PP);
    if (s.size() > 300) s.resize(300);
    return s;
  }
  std::string tyw(QualType t)
  {
    if (t.isNull()) return "";
    std::string s = t.getAsString(PP);
    if (s.size() > 200) s.resize(200);
    return s;
  }
  std::string usr(const Decl * d)
  {
    llvm::SmallString<256> b;
    if (index::generateUSRForDecl(d, b)) return "";
    return b.str().str();
  }
  std::string qn(const NamedDecl * d)
  {
    std::string s;
    llvm::raw_string_ostream os(s);
    PrintingPolicy p(PP);
    d->printQualifiedName(os, p);
    return os.str();
  }

  json::Value nul() { return json::Value(nullptr); }

  json::Object mk(const char * k, const Stmt * s)
  {
    json::Object o;
    o["k"] = k;
    if (s) o["l"] = line(s->getBeginLoc());
    return o;
  }

  const Expr * strip(const Expr * e)
  {
    while (e)
    {
      if (auto * x = dyn_cast<ParenExpr>(e)) e = x->getSubExpr();
      else if (auto * x = dyn_cast<ExprWithCleanups>(e)) e = x->getSubExpr();
      else if (auto * x = dyn_cast<MaterializeTemporaryExpr>(e)) e = x->getSubExpr();
      else if (auto * x = dyn_cast<CXXBindTemporaryExpr>(e)) e = x->getSubExpr();
      else if (auto * x = dyn_cast<ConstantExpr>(e)) e = x->getSubExpr();
      else if (auto * x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e = x->getReplacement();
      else if (auto * x = dyn_cast<CXXDefaultArgExpr>(e)) e = x->getExpr();
      else if (auto * x = dyn_cast<CXXDefaultInitExpr>(e)) e = x->getExpr();
      else if (auto * x = dyn_cast<CXXStdInitializerListExpr>(e)) e = x->getSubExpr();
      else if (auto * x = dyn_cast<CXXRewrittenBinaryOperator>(e)) e = x->getSemanticForm();
      else if (auto * x = dyn_cast<OpaqueValueExpr>(e))
      {
        if (!x->getSourceExpr()) break;
        e = x->getSourceExpr();
      }
      else if (auto * x = dyn_cast<ImplicitCastExpr>(e))
      {
        auto ck = x->getCastKind();
        if (ck == CK_FloatingToIntegral || ck == CK_IntegralToFloating || ck == CK_FloatingCast || ck == CK_IntegralCast)
          break;
        e = x->getSubExpr();
      }
      else if (auto * x = dyn_cast<CXXFunctionalCastExpr>(e))
      {
        if (x->getCastKind() == CK_ConstructorConversion || x->getCastKind() == CK_NoOp || x->getCastKind() == CK_UserDefinedConversion) e = x->getSubExpr();
        else break;
      }
      else if (auto * x = dyn_cast<CXXConstructExpr>(e))
      {
        if (x->getNumArgs() >= 1 && x->getConstructor()->isCopyOrMoveConstructor() && !ownCopy(x->getConstructor())) e = x->getArg(0);
        else break;
      }
      else break;
    }
    return e;
  }

  // classes of the repository whose copies and moves are more than member-wise
  bool ownCopy(const CXXRecordDecl * r)
  {
    if (!r || !(r = r->getDefinition()) || !inRoot(r->getLocation())) return false;
    if (auto * d = r->getDestructor())
      if (d->isUserProvided()) return true;
    for (auto * c : r->ctors())
      if (c->isCopyOrMoveConstructor() && c->isUserProvided()) return true;
    for (auto & b : r->bases())
      if (ownCopy(b.getType()->getAsCXXRecordDecl())) return true;
    return false;
  }

  bool ownCopy(const CXXConstructorDecl * c)
  {
    const std::string n = qn(c->getParent());
    if (c->isMoveConstructor() && (n.rfind("std::function", 0) == 0 || n.rfind("std::unique_ptr", 0) == 0)) return true;
    return ownCopy(c->getParent());
  }

  json::Value ex(const Expr * e0)
  {
    const Expr * e = strip(e0);
    if (!e) return nul();
    if (auto * x = dyn_cast<CXXConstructExpr>(e))
      if (x->getNumArgs() >= 1 && x->getConstructor()->isCopyOrMoveConstructor() && ownCopy(x->getConstructor()))
      {
        json::Object o = mk("copyctor", e);
        o["mv"] = x->getConstructor()->isMoveConstructor();
        o["t"] = ty(x->getType());
        o["u"] = usr(x->getConstructor());
        o["e"] = ex(x->getArg(0));
        return o;
      }
    if (auto * x = dyn_cast<ImplicitCastExpr>(e))
    {
      json::Object o = mk("cast", e);
      o["ck"] = x->getCastKindName();
      o["t"] = ty(x->getType());
      o["ft"] = ty(x->getSubExpr()->getType());
      o["imp"] = true;
      o["e"] = ex(x->getSubExpr());
      return o;
    }
    if (auto * x = dyn_cast<DeclRefExpr>(e))
    {
      const ValueDecl * d = x->getDecl();
      json::Object o = mk("ref", e);
      o["n"] = d->getNameAsString();
      if (auto * ec = dyn_cast<EnumConstantDecl>(d))
      {
        o["dk"] = "enum";
        o["q"] = qn(ec);
        o["v"] = iv(ec->getInitVal());
        o["et"] = ty(ec->getType());
      }
      else if (isa<FunctionDecl>(d))
      {
        o["dk"] = "fn";
        o["q"] = qn(d);
        o["u"] = usr(d);
      }
      else if (auto * b = dyn_cast<BindingDecl>(d))
      {
        o["dk"] = "bind";
        o["id"] = id(b);
      }
      else if (auto * v = dyn_cast<VarDecl>(d))
      {
        bool local = v->isLocalVarDeclOrParm();
        o["dk"] = isa<ParmVarDecl>(v) ? "parm" : (local ? "var" : "gvar");
        if (!local || v->isStaticLocal()) o["q"] = qn(v);
        o["id"] = id(v);
        o["t"] = ty(v->getType());
        if (!local)
        {
          Expr::EvalResult r;
          const VarDecl * def = v->getDefinition() ? v->getDefinition() : v;
          if (def->getAnyInitializer() && v->getType().isConstQualified())
          {
            if (v->getType()->isIntegralOrEnumerationType() && !def->getAnyInitializer()->isValueDependent())
            {
              if (def->getAnyInitializer()->EvaluateAsInt(r, C)) o["v"] = iv(r.Val.getInt());
            }
            else if (v->getType()->isArrayType())
            {
              const Expr * in = def->getAnyInitializer()->IgnoreParenImpCasts();
              if (auto * sl = dyn_cast<StringLiteral>(in))
                if (sl->getCharByteWidth() == 1) o["sv"] = json::fixUTF8(sl->getString());
            }
            else if (v->getType()->isFloatingType() && !def->getAnyInitializer()->isValueDependent())
            {
              llvm::APFloat f(0.0);
              if (def->getAnyInitializer()->EvaluateAsFloat(f, C)) o["fv"] = f.convertToDouble();
            }
          }
        }
      }
      else
      {
        o["dk"] = "other";
        o["q"] = qn(d);
      }
      return o;
    }
    if (auto * x = dyn_cast<MemberExpr>(e))
    {
      const ValueDecl * d = x->getMemberDecl();
      json::Object o = mk("mem", e);
      o["n"] = d->getNameAsString();
      o["q"] = qn(d);
      o["arrow"] = x->isArrow();
      if (isa<FunctionDecl>(d)) { o["dk"] = "fn"; o["u"] = usr(d); }
      else if (auto * v = dyn_cast<VarDecl>(d))
      {
        o["dk"] = "static";
        if (v->getAnyInitializer() && v->getType()->isIntegralOrEnumerationType() && v->getType().isConstQualified())
        {
          Expr::EvalResult r;
          if (v->getAnyInitializer()->EvaluateAsInt(r, C)) o["v"] = iv(r.Val.getInt());
        }
      }
      else if (isa<EnumConstantDecl>(d)) { o["dk"] = "enum"; o["v"] = iv(cast<EnumConstantDecl>(d)->getInitVal()); }
      else { o["dk"] = "field"; o["t"] = ty(d->getType()); }
      o["b"] = ex(x->getBase());
      return o;
    }
    if (auto * x = dyn_cast<CXXThisExpr>(e))
    {
      json::Object o = mk("this", e);
      (void)x;
      return o;
    }
    if (auto * x = dyn_cast<CXXOperatorCallExpr>(e))
    {
      json::Object o = mk("call", e);
      o["op"] = getOperatorSpelling(x->getOperator());
      if (auto * f = x->getDirectCallee())
      {
        o["fq"] = qn(f);
        o["u"] = usr(f);
        o["n"] = f->getNameAsString();
        o["t"] = ty(x->getType());
        o["mem"] = isa<CXXMethodDecl>(f) && !cast<CXXMethodDecl>(f)->isStatic();
        if (auto * m = dyn_cast<CXXMethodDecl>(f))
        {
          o["cls"] = qn(m->getParent());
          o["const"] = m->isConst();
          if (m->getParent()->isLambda()) o["lam"] = true;
        }
        o["root"] = inRoot(f->getLocation());
        if (auto * ta = f->getTemplateSpecializationArgs())
        {
          json::Array tas;
          for (auto & a : ta->asArray())
            if (a.getKind() == TemplateArgument::Type) tas.push_back(ty(a.getAsType()));
          if (!tas.empty()) o["ta"] = std::move(tas);
        }
      }
      json::Array a;
      for (auto * arg : x->arguments()) a.push_back(ex(arg));
      o["args"] = std::move(a);
      o["rt"] = x->getNumArgs() ? ty(x->getArg(0)->getType()) : "";
      return o;
    }
    if (auto * x = dyn_cast<CallExpr>(e))
    {
      json::Object o = mk("call", e);
      const FunctionDecl * f = x->getDirectCallee();
      const Expr * cal = strip(x->getCallee());
      if (f)
      {
        o["fq"] = qn(f);
        o["u"] = usr(f);
        o["n"] = f->getNameAsString();
        o["root"] = inRoot(f->getLocation());
        if (auto * ta = f->getTemplateSpecializationArgs())
        {
          json::Array tas;
          for (auto & a : ta->asArray())
            if (a.getKind() == TemplateArgument::Type) tas.push_back(ty(a.getAsType()));
          if (!tas.empty()) o["ta"] = std::move(tas);
        }
        if (auto * m = dyn_cast<CXXMethodDecl>(f))
        {
          o["cls"] = qn(m->getParent());
          o["virt"] = m->isVirtual();
          o["const"] = m->isConst();
          if (isa<CXXConversionDecl>(m)) o["conv"] = true;
        }
        json::Array pr;
        for (auto * p : f->parameters())
        {
          QualType pt = p->getType();
          pr.push_back(pt->isRValueReferenceType() ? "&&" : pt->isLValueReferenceType() ? (pt.getNonReferenceType().isConstQualified() ? "c&" : "&") : pt->isPointerType() ? (pt->getPointeeType().isConstQualified() ? "c*" : "*") : "v");
        }
        o["pk"] = std::move(pr);
      }
      else
      {
        o["callee"] = ex(x->getCallee());
      }
      o["t"] = ty(x->getType());
      if (isa<CXXMemberCallExpr>(x))
      {
        if (auto * me = dyn_cast<MemberExpr>(cal))
        {
          o["recv"] = ex(me->getBase());
          o["rt"] = ty(me->getBase()->getType());
          o["arrow"] = me->isArrow();
          if (me->hasQualifier()) o["qual"] = true;
        }
        else o["recv"] = ex(cast<CXXMemberCallExpr>(x)->getImplicitObjectArgument());
      }
      json::Array a;
      for (auto * arg : x->arguments()) a.push_back(ex(arg));
      o["args"] = std::move(a);
      return o;
    }
    if (auto * x = dyn_cast<CXXConstructExpr>(e))
    {
      json::Object o = mk("ctor", e);
      o["t"] = ty(x->getType());
      const CXXConstructorDecl * cd = x->getConstructor();
      if (cd->isInheritingConstructor() && cd->getInheritedConstructor().getConstructor())
        cd = cd->getInheritedConstructor().getConstructor();  // 'using Base::Base'
      o["fq"] = qn(cd);
      o["u"] = usr(cd);
      o["root"] = inRoot(x->getConstructor()->getLocation());
      json::Array a;
      for (auto * arg : x->arguments())
      {
        if (isa<CXXDefaultArgExpr>(arg) && !inRoot(x->getConstructor()->getLocation())) continue;
        a.push_back(ex(arg));
      }
      o["args"] = std::move(a);
      return o;
    }
    if (auto * x = dyn_cast<CXXUnresolvedConstructExpr>(e)) { (void)x; return mk("unk", e); }
    if (auto * x = dyn_cast<CXXScalarValueInitExpr>(e))
    {
      json::Object o = mk("zero", e);
      o["t"] = ty(x->getType());
      return o;
    }
    if (auto * x = dyn_cast<ImplicitValueInitExpr>(e))
    {
      json::Object o = mk("zero", e);
      o["t"] = ty(x->getType());
      return o;
    }
    if (auto * x = dyn_cast<IntegerLiteral>(e))
    {
      json::Object o = mk("int", e);
      o["v"] = static_cast<int64_t>(x->getValue().zextOrTrunc(64).getZExtValue());
      return o;
    }
    if (auto * x = dyn_cast<CharacterLiteral>(e))
    {
      json::Object o = mk("char", e);
      o["v"] = static_cast<int64_t>(x->getValue());
      return o;
    }
    if (auto * x = dyn_cast<FloatingLiteral>(e))
    {
      json::Object o = mk("float", e);
      llvm::SmallString<32> s;
      x->getValue().toString(s);
      o["v"] = s.str().str();
      return o;
    }
    if (auto * x = dyn_cast<StringLiteral>(e))
    {
      json::Object o = mk("str", e);
      o["v"] = x->getCharByteWidth() == 1 ? json::fixUTF8(x->getString()) : "";
      return o;
    }
    if (auto * x = dyn_cast<CXXBoolLiteralExpr>(e))
    {
      json::Object o = mk("bool", e);
      o["v"] = x->getValue();
      return o;
    }
    if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) return mk("null", e);
    if (auto * x = dyn_cast<CompoundAssignOperator>(e))
    {
      json::Object o = mk("asg", e);
      o["op"] = x->getOpcodeStr();
      o["a"] = ex(x->getLHS());
      o["b"] = ex(x->getRHS());
      return o;
    }
    if (auto * x = dyn_cast<BinaryOperator>(e))
    {
      json::Object o = mk(x->getOpcode() == BO_Assign ? "asg" : "bin", e);
      o["op"] = x->getOpcodeStr();
      o["t"] = ty(x->getType());
      o["a"] = ex(x->getLHS());
      o["b"] = ex(x->getRHS());
      return o;
    }
    if (auto * x = dyn_cast<UnaryOperator>(e))
    {
      json::Object o = mk("un", e);
      o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode());
      o["post"] = x->isPostfix();
      o["e"] = ex(x->getSubExpr());
      return o;
    }
    if (auto * x = dyn_cast<AbstractConditionalOperator>(e))
    {
      json::Object o = mk("cond", e);
      o["t"] = ty(x->getType());
      o["c"] = ex(x->getCond());
      o["a"] = ex(x->getTrueExpr());
      o["b"] = ex(x->getFalseExpr());
      return o;
    }
    if (auto * x = dyn_cast<ArraySubscriptExpr>(e))
    {
      json::Object o = mk("idx", e);
      o["a"] = ex(x->getBase());
      o["b"] = ex(x->getIdx());
      return o;
    }
    if (auto * x = dyn_cast<ExplicitCastExpr>(e))
    {
      json::Object o = mk("cast", e);
      o["ck"] = x->getCastKindName();
      o["t"] = ty(x->getType());
      o["ft"] = ty(x->getSubExpr()->getType());
      o["how"] = x->getStmtClassName();
      o["e"] = ex(x->getSubExpr());
      return o;
    }
    if (auto * x = dyn_cast<LambdaExpr>(e))
    {
      json::Object o = mk("lambda", e);
      json::Array ps;
      for (auto * p : x->getCallOperator()->parameters()) ps.push_back(var(p));
      o["params"] = std::move(ps);
      json::Array caps;
      for (auto & c : x->captures())
      {
        json::Object co;
        if (c.capturesThis()) co["this"] = true;
        else if (c.capturesVariable())
        {
          co["n"] = c.getCapturedVar()->getNameAsString();
          co["id"] = id(c.getCapturedVar());
          if (auto * vd = dyn_cast<VarDecl>(c.getCapturedVar()))
            if (vd->isInitCapture()) co["init"] = ex(vd->getInit());
        }
        co["ref"] = c.getCaptureKind() == LCK_ByRef;
        caps.push_back(std::move(co));
      }
      o["caps"] = std::move(caps);
      const CXXMethodDecl * op = x->getCallOperator();
      o["ret"] = ty(op->getReturnType());
      if (auto * ftd = op->getDescribedFunctionTemplate())
      {
        // generic lambda: use the first instantiation
        for (auto * sp : ftd->specializations())
        {
          if (sp->hasBody())
          {
            json::Array ps2;
            for (auto * p : sp->parameters()) ps2.push_back(var(p));
            o["params"] = std::move(ps2);
            o["body"] = st(sp->getBody());
            return o;
          }
        }
      }
      o["body"] = st(x->getBody());
      return o;
    }
    if (auto * x = dyn_cast<CXXThrowExpr>(e))
    {
      json::Object o = mk("throw", e);
      o["e"] = ex(x->getSubExpr());
      if (x->getSubExpr()) o["t"] = ty(strip(x->getSubExpr())->getType());
      return o;
    }
    if (auto * x = dyn_cast<CXXNewExpr>(e))
    {
      json::Object o = mk("new", e);
      o["t"] = ty(x->getAllocatedType());
      if (x->getConstructExpr()) o["e"] = ex(x->getConstructExpr());
      return o;
    }
    if (auto * x = dyn_cast<CXXDeleteExpr>(e))
    {
      json::Object o = mk("delete", e);
      o["e"] = ex(x->getArgument());
      return o;
    }
    if (auto * x = dyn_cast<InitListExpr>(e))
    {
      if (x->isSemanticForm() == false && x->getSemanticForm()) x = x->getSemanticForm();
      json::Object o = mk("init", e);
      o["t"] = ty(x->getType());
      json::Array a;
      const RecordDecl * rd = nullptr;
      if (auto * rt = x->getType()->getAs<RecordType>()) rd = rt->getDecl();
      for (auto * i : x->inits()) a.push_back(ex(i));
      o["args"] = std::move(a);
      if (rd && !rd->isUnion())
      {
        json::Array fn;
        if (auto * cr = dyn_cast<CXXRecordDecl>(rd))
          for (auto & b : cr->bases()) { (void)b; fn.push_back("<base>"); }
        for (auto * f : rd->fields()) fn.push_back(f->getNameAsString());
        o["fields"] = std::move(fn);
      }
      return o;
    }
    if (auto * x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) { (void)x; return mk("sizeof", e); }
    if (auto * x = dyn_cast<PredefinedExpr>(e))
    {
      json::Object o = mk("str", e);
      o["v"] = "__func__";
      (void)x;
      return o;
    }
    if (auto * x = dyn_cast<TypeTraitExpr>(e))
    {
      json::Object o = mk("bool", e);
      o["v"] = x->isValueDependent() ? false : x->getValue();
      return o;
    }
    if (auto * x = dyn_cast<CXXTypeidExpr>(e))
    {
      json::Object o = mk("typeid", e);
      o["t"] = x->isTypeOperand() ? ty(x->getTypeOperand(C)) : "";
      return o;
    }
    if (auto * x = dyn_cast<StmtExpr>(e))
    {
      json::Object o = mk("stmtexpr", e);
      o["body"] = st(x->getSubStmt());
      return o;
    }
    {
      json::Object o = mk("unk", e);
      o["c"] = e->getStmtClassName();
      json::Array a;
      for (auto * ch : e->children())
        if (auto * ce = dyn_cast_or_null<Expr>(ch)) a.push_back(ex(ce));
      o["args"] = std::move(a);
      return o;
    }
  }

  json::Value var(const VarDecl * v)
  {
    json::Object o;
    o["n"] = v->getNameAsString();
    o["id"] = id(v);
    o["t"] = ty(v->getType());
    o["tw"] = tyw(v->getType());
    o["l"] = line(v->getLocation());
    if (v->isStaticLocal()) o["static"] = true;
    if (auto * p = dyn_cast<ParmVarDecl>(v))
    {
      if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg()) o["def"] = ex(p->getDefaultArg());
    }
    else if (v->getInit()) o["init"] = ex(v->getInit());
    if (auto * dd = dyn_cast<DecompositionDecl>(v))
    {
      json::Array bs;
      int i = 0;
      for (auto * b : dd->bindings())
      {
        json::Object bo;
        bo["n"] = b->getNameAsString();
        bo["id"] = id(b);
        bo["i"] = i++;
        if (b->getBinding())
        {
          if (auto * me = dyn_cast<MemberExpr>(b->getBinding()->IgnoreParenImpCasts()))
            bo["f"] = me->getMemberDecl()->getNameAsString();
          else if (b->getHoldingVar())
            bo["i"] = bo["i"];
        }
        bs.push_back(std::move(bo));
      }
      o["binds"] = std::move(bs);
    }
    return o;
  }

  json::Value st(const Stmt * s)
  {
    if (!s) return nul();
    if (auto * x = dyn_cast<CompoundStmt>(s))
    {
      json::Object o = mk("block", s);
      json::Array a;
      for (auto * c : x->body()) a.push_back(st(c));
      o["s"] = std::move(a);
      o["el"] = line(x->getEndLoc());
      return o;
    }
    if (auto * x = dyn_cast<DeclStmt>(s))
    {
      json::Object o = mk("decl", s);
      json::Array a;
      for (auto * d : x->decls())
        if (auto * v = dyn_cast<VarDecl>(d)) a.push_back(var(v));
      o["vars"] = std::move(a);
      return o;
    }
    if (auto * x = dyn_cast<IfStmt>(s))
    {
      if (x->isConstexpr() && !x->getCond()->isValueDependent())
      {
        auto r = x->getNondiscardedCase(C);
        if (r)
        {
          json::Object o = mk("block", s);
          json::Array a;
          if (x->getInit()) a.push_back(st(x->getInit()));
          if (*r) a.push_back(st(*r));
          o["s"] = std::move(a);
          return o;
        }
      }
      json::Object o = mk("if", s);
      if (x->getInit()) o["init"] = st(x->getInit());
      if (x->getConditionVariableDeclStmt()) o["cvar"] = st(x->getConditionVariableDeclStmt());
      o["c"] = ex(x->getCond());
      o["a"] = st(x->getThen());
      o["b"] = st(x->getElse());
      return o;
    }
    if (auto * x = dyn_cast<ForStmt>(s))
    {
      json::Object o = mk("for", s);
      o["init"] = st(x->getInit());
      o["c"] = ex(x->getCond());
      o["inc"] = ex(x->getInc());
      o["body"] = st(x->getBody());
      return o;
    }
    if (auto * x = dyn_cast<CXXForRangeStmt>(s))
    {
      json::Object o = mk("forr", s);
      if (x->getInit()) o["init"] = st(x->getInit());
      o["var"] = var(x->getLoopVariable());
      o["range"] = ex(x->getRangeInit());
      o["body"] = st(x->getBody());
      return o;
    }
    if (auto * x = dyn_cast<WhileStmt>(s))
    {
      json::Object o = mk("while", s);
      if (x->getConditionVariableDeclStmt()) o["cvar"] = st(x->getConditionVariableDeclStmt());
      o["c"] = ex(x->getCond());
      o["body"] = st(x->getBody());
      return o;
    }
    if (auto * x = dyn_cast<DoStmt>(s))
    {
      json::Object o = mk("do", s);
      o["c"] = ex(x->getCond());
      o["body"] = st(x->getBody());
      return o;
    }
    if (auto * x = dyn_cast<SwitchStmt>(s))
    {
      json::Object o = mk("switch", s);
      if (x->getInit()) o["init"] = st(x->getInit());
      if (x->getConditionVariableDeclStmt()) o["cvar"] = st(x->getConditionVariableDeclStmt());
      o["c"] = ex(x->getCond());
      // flatten: list of {labels:[..], s:[..]}
      json::Array cases;
      json::Array labels, body;
      bool open = false;
      auto flush = [&]()
      {
        if (open)
        {
          json::Object co;
          co["labels"] = std::move(labels);
          co["s"] = std::move(body);
          cases.push_back(std::move(co));
          labels = json::Array();
          body = json::Array();
        }
      };
      std::function<void(const Stmt *)> add = [&](const Stmt * c)
      {
        if (auto * cs = dyn_cast<CaseStmt>(c))
        {
          if (open && !body.empty()) flush();
          open = true;
          json::Object lo;
          lo["e"] = ex(cs->getLHS());
          Expr::EvalResult r;
          if (cs->getLHS()->EvaluateAsInt(r, C)) lo["v"] = iv(r.Val.getInt());
          if (cs->getRHS())
          {
            Expr::EvalResult r2;
            if (cs->getRHS()->EvaluateAsInt(r2, C)) lo["hi"] = iv(r2.Val.getInt());
          }
          labels.push_back(std::move(lo));
          add(cs->getSubStmt());
        }
        else if (auto * ds = dyn_cast<DefaultStmt>(c))
        {
          if (open && !body.empty()) flush();
          open = true;
          json::Object lo;
          lo["default"] = true;
          labels.push_back(std::move(lo));
          add(ds->getSubStmt());
        }
        else body.push_back(st(c));
      };
      if (auto * cb = dyn_cast<CompoundStmt>(x->getBody()))
        for (auto * c : cb->body()) add(c);
      else add(x->getBody());
      flush();
      o["cases"] = std::move(cases);
      return o;
    }
    if (auto * x = dyn_cast<ReturnStmt>(s))
    {
      json::Object o = mk("ret", s);
      o["e"] = ex(x->getRetValue());
      return o;
    }
    if (isa<BreakStmt>(s)) return mk("break", s);
    if (isa<ContinueStmt>(s)) return mk("cont", s);
    if (isa<NullStmt>(s)) return mk("block", s);
    if (auto * x = dyn_cast<AttributedStmt>(s)) return st(x->getSubStmt());
    if (auto * x = dyn_cast<LabelStmt>(s)) return st(x->getSubStmt());
    if (auto * x = dyn_cast<CXXTryStmt>(s))
    {
      json::Object o = mk("try", s);
      o["body"] = st(x->getTryBlock());
      json::Array hs;
      for (unsigned i = 0; i < x->getNumHandlers(); ++i)
      {
        auto * h = x->getHandler(i);
        json::Object ho;
        ho["l"] = line(h->getBeginLoc());
        if (h->getExceptionDecl())
        {
          ho["t"] = ty(h->getCaughtType().getNonReferenceType().getUnqualifiedType());
          ho["var"] = var(h->getExceptionDecl());
        }
        else ho["t"] = "...";
        ho["body"] = st(h->getHandlerBlock());
        hs.push_back(std::move(ho));
      }
      o["handlers"] = std::move(hs);
      return o;
    }
    if (auto * x = dyn_cast<Expr>(s))
    {
      json::Object o = mk("expr", s);
      o["e"] = ex(x);
      return o;
    }
    json::Object o = mk("unkstmt", s);
    o["c"] = s->getStmtClassName();
    return o;
  }

  json::Value fn(const FunctionDecl * f)
  {
    json::Object o;
    o["q"] = qn(f);
    o["n"] = f->getNameAsString();
    o["u"] = usr(f);
    o["file"] = rel(f->getLocation());
    o["l"] = line(f->getLocation());
    o["el"] = line(f->getEndLoc());
    o["ret"] = ty(f->getReturnType());
    if (f->isTemplateInstantiation()) o["inst"] = true;
    if (auto * ta = f->getTemplateSpecializationArgs())
    {
      json::Array tas;
      for (auto & a : ta->asArray())
        if (a.getKind() == TemplateArgument::Type) tas.push_back(ty(a.getAsType()));
      o["ta"] = std::move(tas);
    }
    if (auto * m = dyn_cast<CXXMethodDecl>(f))
    {
      o["cls"] = qn(m->getParent());
      o["clst"] = ty(QualType(m->getParent()->getTypeForDecl(), 0));
      o["virt"] = m->isVirtual();
      o["const"] = m->isConst();
      o["static"] = m->isStatic();
      o["acc"] = m->getAccess() == AS_public ? "public" : m->getAccess() == AS_protected ? "protected" : "private";
      json::Array ov;
      for (auto * om : m->overridden_methods()) ov.push_back(usr(om));
      o["over"] = std::move(ov);
    }
    json::Array ps;
    for (auto * p : f->parameters()) ps.push_back(var(p));
    o["params"] = std::move(ps);
    if (isa<CXXConstructorDecl>(f)) o["kind"] = "ctor";
    else if (isa<CXXDestructorDecl>(f)) o["kind"] = "dtor";
    else if (isa<CXXConversionDecl>(f)) o["kind"] = "conv";
    else o["kind"] = "fn";
    if (f->isNoReturn()) o["noreturn"] = true;
    if (auto * c = dyn_cast<CXXConstructorDecl>(f))
    {
      if (c->isCopyConstructor()) o["special"] = "copy";
      if (c->isMoveConstructor()) o["special"] = "move";
      json::Array is;
      for (auto * i : c->inits())
      {
        json::Object io;
        if (i->isAnyMemberInitializer()) io["f"] = i->getAnyMember()->getNameAsString();
        else if (i->isBaseInitializer()) io["base"] = ty(QualType(i->getBaseClass(), 0));
        else if (i->isDelegatingInitializer()) io["deleg"] = true;
        io["written"] = i->isWritten();
        io["e"] = ex(i->getInit());
        is.push_back(std::move(io));
      }
      o["inits"] = std::move(is);
    }
    else if (auto * m = dyn_cast<CXXMethodDecl>(f))
    {
      if (m->isCopyAssignmentOperator()) o["special"] = "copyasg";
      if (m->isMoveAssignmentOperator()) o["special"] = "moveasg";
    }
    o["body"] = st(f->getBody());
    return o;
  }
};

class V : public RecursiveASTVisitor<V>
{
public:
  V(ASTContext & c, json::Array & f, json::Array & r, json::Array & e, json::Array & g, json::Array & u)
  : X(c), fns(f), recs(r), enums(e), gvars(g), unis(u) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl * f)
  {
    if (!f->doesThisDeclarationHaveABody() && !(f->isDefaulted() && f->isThisDeclarationADefinition())) return true;
    if (!X.inRoot(f->getLocation())) return true;
    if (auto * m = dyn_cast<CXXMethodDecl>(f))
      if (m->getParent()->isLambda()) return true;
    if (f->isDependentContext())
    {
      json::Object o;
      o["q"] = X.qn(f);
      o["file"] = X.rel(f->getLocation());
      o["l"] = X.line(f->getLocation());
      unis.push_back(std::move(o));
      return true;
    }
    if (!f->getBody()) return true;
    std::string u = X.usr(f);
    if (!seen.insert(u).second) return true;
    fns.push_back(X.fn(f));
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl * r)
  {
    if (!r->isThisDeclarationADefinition() || !X.inRoot(r->getLocation())) return true;
    if (r->isDependentContext() || r->isLambda()) return true;
    json::Object o;
    o["q"] = X.qn(r);
    o["t"] = X.ty(QualType(r->getTypeForDecl(), 0));
    o["file"] = X.rel(r->getLocation());
    o["l"] = X.line(r->getLocation());
    json::Array bs;
    for (auto & b : r->bases()) bs.push_back(X.ty(b.getType()));
    o["bases"] = std::move(bs);
    json::Array fs;
    for (auto * f : r->fields())
    {
      json::Object fo;
      fo["n"] = f->getNameAsString();
      fo["t"] = X.ty(f->getType());
      fo["l"] = X.line(f->getLocation());
      fo["mut"] = f->isMutable();
      if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = X.ex(f->getInClassInitializer());
      fs.push_back(std::move(fo));
    }
    o["fields"] = std::move(fs);
    json::Array ms;
    for (auto * m : r->methods())
    {
      json::Object mo;
      mo["n"] = m->getNameAsString();
      mo["u"] = X.usr(m);
      mo["virt"] = m->isVirtual();
      mo["pure"] = m->isPureVirtual();
      mo["del"] = m->isDeleted();
      mo["acc"] = m->getAccess() == AS_public ? "public" : m->getAccess() == AS_protected ? "protected" : "private";
      if (isa<CXXConstructorDecl>(m))
      {
        mo["ctor"] = true;
        if (cast<CXXConstructorDecl>(m)->isCopyConstructor()) mo["special"] = "copy";
        if (cast<CXXConstructorDecl>(m)->isMoveConstructor()) mo["special"] = "move";
      }
      if (m->isCopyAssignmentOperator()) mo["special"] = "copyasg";
      if (m->isMoveAssignmentOperator()) mo["special"] = "moveasg";
      ms.push_back(std::move(mo));
    }
    o["methods"] = std::move(ms);
    recs.push_back(std::move(o));
    return true;
  }
  bool VisitEnumDecl(EnumDecl * e)
  {
    if (!e->isThisDeclarationADefinition() || !X.inRoot(e->getLocation())) return true;
    json::Object o;
    o["q"] = X.qn(e);
    json::Array a;
    for (auto * c : e->enumerators())
    {
      json::Object co;
      co["n"] = c->getNameAsString();
      co["v"] = iv(c->getInitVal());
      a.push_back(std::move(co));
    }
    o["vals"] = std::move(a);
    o["file"] = X.rel(e->getLocation());
    enums.push_back(std::move(o));
    return true;
  }
  bool VisitVarDecl(VarDecl * v)
  {
    if (v->isLocalVarDeclOrParm() || !X.inRoot(v->getLocation())) return true;
    if (v->getDeclContext()->isDependentContext() || isa<VarTemplateDecl>(v->getDeclContext())) return true;
    if (v->getDescribedVarTemplate()) return true;
    json::Object o;
    o["q"] = X.qn(v);
    o["t"] = X.ty(v->getType());
    o["file"] = X.rel(v->getLocation());
    o["l"] = X.line(v->getLocation());
    if (v->getInit() && !v->getInit()->isValueDependent()) o["init"] = X.ex(v->getInit());
    gvars.push_back(std::move(o));
    return true;
  }
  Ex X;
  std::set<std::string> seen;
  json::Array &fns, &recs, &enums, &gvars, &unis;
};

class Consumer : public ASTConsumer
{
public:
  void HandleTranslationUnit(ASTContext & c) override
  {
    json::Array f, r, e, g, u;
    V v(c, f, r, e, g, u);
    v.TraverseDecl(c.getTranslationUnitDecl());
    json::Object o;
    o["fns"] = std::move(f);
    o["recs"] = std::move(r);
    o["enums"] = std::move(e);
    o["gvars"] = std::move(g);
    o["uninst"] = std::move(u);
    json::Array er;
    for (auto & s : gErrText) er.push_back(s);
    o["errors"] = std::move(er);
    json::Array deps;
    auto & sm = c.getSourceManager();
    for (auto it = sm.fileinfo_begin(); it != sm.fileinfo_end(); ++it)
    {
      auto nm = it->first.getName();
      if (!nm.starts_with("/usr/")) deps.push_back(nm.str());
    }
    o["deps"] = std::move(deps);
    std::error_code ec;
    llvm::raw_fd_ostream os(gOut, ec);
    os << json::Value(std::move(o));
  }
};

class Diag : public DiagnosticConsumer
{
  void HandleDiagnostic(DiagnosticsEngine::Level l, const Diagnostic & d) override
  {
    DiagnosticConsumer::HandleDiagnostic(l, d);
    if (l >= DiagnosticsEngine::Error)
    {
      llvm::SmallString<256> s;
      d.FormatDiagnostic(s);
      std::string where;
      if (d.hasSourceManager() && d.getLocation().isValid())
        where = d.getLocation().printToString(d.getSourceManager());
      gErrText.push_back(where + ": " + s.str().str());
      ++gErrors;
    }
  }
};

class Action : public ASTFrontendAction
{
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override
  {
    return std::make_unique<Consumer>();
  }
};

int main(int argc, const char ** argv)
{
  if (argc < 4) return 2;
  gOut = argv[1];
  gRoot = argv[2];
  if (gRoot.back() != '/') gRoot += '/';
  std::string src = argv[3];
  std::vector<std::string> args;
  for (int i = 4; i < argc; ++i)
    if (std::string(argv[i]) != "--") args.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", args);
  tooling::ClangTool tool(db, {src});
  Diag d;
  tool.setDiagnosticConsumer(&d);
  tool.run(tooling::newFrontendActionFactory<Action>().get());
  llvm::errs() << src << ": " << gErrors << " errors\n";
  return 0;
}
