// kpfacts: dumps the type-checked program of one translation unit of libkeepass
// as a compact JSON document (functions with resolved bodies, records, types,
// globals).  Only definitions located below the source root are dumped with a
// body; everything else is referenced by its resolved, qualified declaration.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>

using namespace clang;
namespace json = llvm::json;
typedef json::Object O;
typedef json::Array A;

static std::string g_root, g_out;

struct Dumper {
  ASTContext& C;
  SourceManager& SM;
  PrintingPolicy PP;
  ASTNameGenerator NG;
  std::map<const void*, int> types;
  A type_arr;
  std::map<const Decl*, int> decls;
  std::map<const Decl*, int> callees;
  A callee_arr;
  O funcs, records, globals;
  std::set<const Decl*> done_rec, done_fn, done_glob;
  std::vector<const FunctionDecl*> fn_queue;
  std::string tu;
  int unsupported = 0;

  Dumper(ASTContext& c)
      : C(c), SM(c.getSourceManager()), PP(c.getPrintingPolicy()), NG(c) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
    PP.SuppressInlineNamespace = true;
    PP.SuppressDefaultTemplateArgs = true;
    auto fe = SM.getFileEntryRefForID(SM.getMainFileID());
    tu = fe ? fe->getName().str() : "";
    auto p = tu.rfind('/');
    if (p != std::string::npos) tu = tu.substr(p + 1);
  }

  std::string FileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    PresumedLoc P = SM.getPresumedLoc(L);
    return P.isValid() ? P.getFilename() : "";
  }
  int LineOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    return SM.getExpansionLineNumber(L);
  }
  static std::string Base(const std::string& f) {
    auto p = f.rfind('/');
    return p == std::string::npos ? f : f.substr(p + 1);
  }
  bool InRepo(SourceLocation L) {
    std::string f = FileOf(L);
    if (f.compare(0, g_root.size(), g_root) != 0) return false;
    std::string b = Base(f);
    return b.compare(0, 4, "pugi") != 0;
  }
  bool InRepo(const Decl* D) { return InRepo(D->getLocation()); }

  int DeclId(const Decl* D) {
    D = D->getCanonicalDecl();
    auto it = decls.find(D);
    if (it != decls.end()) return it->second;
    int n = decls.size() + 1;
    decls[D] = n;
    return n;
  }

  std::string QName(const NamedDecl* D) {
    std::string s;
    llvm::raw_string_ostream os(s);
    PrintingPolicy P = PP;
    D->printNestedNameSpecifier(os, P);
    D->getNameForDiagnostic(os, P, false);
    return os.str();
  }
  std::string PlainName(const NamedDecl* D) {
    std::string s;
    llvm::raw_string_ostream os(s);
    PrintingPolicy P = PP;
    D->printQualifiedName(os, P);
    return os.str();
  }

  int Type(QualType T) {
    QualType K = C.getCanonicalType(T);
    auto it = types.find(K.getAsOpaquePtr());
    if (it != types.end()) return it->second;
    int id = type_arr.size();
    types[K.getAsOpaquePtr()] = id;
    type_arr.push_back(nullptr);
    O o;
    o["s"] = K.getAsString(PP);
    if (K.isConstQualified()) o["const"] = true;
    const clang::Type* P = K.getTypePtr();
    if (auto* BT = dyn_cast<BuiltinType>(P)) {
      if (BT->getKind() == BuiltinType::Bool) { o["k"] = "bool"; o["w"] = 1; o["sg"] = false; }
      else if (BT->isInteger()) {
        o["k"] = "int"; o["w"] = (int64_t)C.getTypeSize(K); o["sg"] = BT->isSignedInteger();
      } else if (BT->isFloatingPoint()) o["k"] = "float";
      else if (BT->isVoidType()) o["k"] = "void";
      else if (BT->isNullPtrType()) o["k"] = "nullptr";
      else o["k"] = "other";
    } else if (auto* ET = dyn_cast<EnumType>(P)) {
      o["k"] = "enum";
      o["r"] = PlainName(ET->getDecl());
      QualType IT = ET->getDecl()->getIntegerType();
      if (!IT.isNull()) { o["w"] = (int64_t)C.getTypeSize(IT); o["sg"] = IT->isSignedIntegerType(); }
      A en;
      for (auto* e : ET->getDecl()->enumerators())
        en.push_back(A{e->getNameAsString(), (int64_t)e->getInitVal().getExtValue()});
      if (InRepo(ET->getDecl())) o["enums"] = std::move(en);
    } else if (auto* PT = dyn_cast<PointerType>(P)) {
      o["k"] = "ptr"; o["p"] = Type(PT->getPointeeType());
    } else if (auto* RT = dyn_cast<ReferenceType>(P)) {
      o["k"] = isa<RValueReferenceType>(RT) ? "rref" : "ref"; o["p"] = Type(RT->getPointeeType());
    } else if (auto* CT = dyn_cast<ConstantArrayType>(P)) {
      o["k"] = "arr"; o["p"] = Type(CT->getElementType());
      o["n"] = (int64_t)CT->getSize().getZExtValue();
    } else if (auto* AT = dyn_cast<ArrayType>(P)) {
      o["k"] = "arr"; o["p"] = Type(AT->getElementType());
    } else if (auto* RcT = dyn_cast<RecordType>(P)) {
      o["k"] = "rec";
      RecordDecl* RD = RcT->getDecl();
      o["r"] = PlainName(RD);
      if (auto* S = dyn_cast<ClassTemplateSpecializationDecl>(RD)) o["args"] = TArgs(S->getTemplateArgs());
      if (InRepo(RD)) { o["repo"] = true; Record(RD); }
      if (RD->isCompleteDefinition() || RD->getDefinition()) {
        if (!RD->isInvalidDecl() && !RD->isDependentType()) {
          RecordDecl* Def = RD->getDefinition();
          if (Def) o["size"] = (int64_t)C.getTypeSizeInChars(K).getQuantity();
        }
      }
      if (auto* CR = dyn_cast<CXXRecordDecl>(RD))
        if (CR->isLambda()) o["lambda"] = true;
    } else if (isa<FunctionType>(P)) {
      o["k"] = "fn";
    } else if (auto* MP = dyn_cast<MemberPointerType>(P)) {
      o["k"] = "memptr"; o["p"] = Type(MP->getPointeeType());
    } else o["k"] = "other";
    type_arr[id] = std::move(o);
    return id;
  }

  A TArgs(const TemplateArgumentList& L) {
    A a;
    for (auto& t : L.asArray()) a.push_back(TArg(t));
    return a;
  }
  json::Value TArg(const TemplateArgument& t) {
    switch (t.getKind()) {
      case TemplateArgument::Type: return O{{"t", Type(t.getAsType())}};
      case TemplateArgument::Integral: return O{{"i", (int64_t)t.getAsIntegral().getExtValue()}};
      case TemplateArgument::Declaration: {
        if (auto* F = dyn_cast<FunctionDecl>(t.getAsDecl())) return O{{"fn", Callee(F)}};
        return O{{"d", PlainName(t.getAsDecl())}};
      }
      case TemplateArgument::Pack: {
        A a;
        for (auto& x : t.pack_elements()) a.push_back(TArg(x));
        return O{{"pack", std::move(a)}};
      }
      default: return O{{"o", 1}};
    }
  }

  std::string FnId(const FunctionDecl* F) {
    std::string n;
    if (auto* K = dyn_cast<CXXConstructorDecl>(F)) {
      auto v = NG.getAllManglings(K);
      n = v.empty() ? PlainName(F) : v[0];
    } else if (auto* K = dyn_cast<CXXDestructorDecl>(F)) {
      auto v = NG.getAllManglings(K);
      n = v.empty() ? PlainName(F) : v[0];
    } else n = NG.getName(F);
    bool internal = !F->isExternallyVisible();
    if (internal) n = tu + ":" + n;
    return n;
  }

  const FunctionDecl* Resolve(const FunctionDecl* F) {
    const FunctionDecl* D = nullptr;
    if (F->hasBody(D)) return D;
    return F;
  }

  int Callee(const FunctionDecl* F) {
    F = F->getCanonicalDecl();
    auto it = callees.find(F);
    if (it != callees.end()) return it->second;
    int id = callee_arr.size();
    callees[F] = id;
    callee_arr.push_back(nullptr);
    O o;
    o["id"] = FnId(F);
    o["n"] = PlainName(F);
    o["sn"] = F->getNameAsString();
    o["line"] = LineOf(F->getLocation());
    o["repo"] = InRepo(F);
    A ps;
    for (auto* p : F->parameters()) ps.push_back(Type(p->getType()));
    o["ps"] = std::move(ps);
    o["ret"] = Type(F->getReturnType());
    if (F->isNoReturn()) o["noreturn"] = true;
    if (F->isVariadic()) o["variadic"] = true;
    if (auto* FPT = F->getType()->getAs<FunctionProtoType>()) {
      if (!isUnresolvedExceptionSpec(FPT->getExceptionSpecType()) && FPT->isNothrow()) o["nothrow"] = true;
    }
    if (auto* TA = F->getTemplateSpecializationArgs()) o["targs"] = TArgs(*TA);
    if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = Type(C.getRecordType(M->getParent()));
      if (M->isStatic()) o["static"] = true;
      if (M->isConst()) o["cm"] = true;
      if (M->isVirtual()) o["virt"] = true;
      if (M->isPureVirtual()) o["pure"] = true;
      if (isa<CXXConstructorDecl>(M)) {
        o["ctor"] = true;
        auto* K = cast<CXXConstructorDecl>(M);
        if (K->isCopyConstructor()) o["copy"] = true;
        if (K->isMoveConstructor()) o["move"] = true;
        if (K->isDefaultConstructor()) o["default"] = true;
      }
      if (isa<CXXDestructorDecl>(M)) o["dtor"] = true;
      if (isa<CXXConversionDecl>(M)) o["conv"] = true;
      if (M->isCopyAssignmentOperator()) o["casg"] = true;
      if (M->isMoveAssignmentOperator()) o["masg"] = true;
      if (M->isDefaulted()) o["defaulted"] = true;
    }
    if (F->isOverloadedOperator()) o["op"] = getOperatorSpelling(F->getOverloadedOperator());
    callee_arr[id] = std::move(o);
    const FunctionDecl* D = Resolve(F);
    if (D->hasBody() && InRepo(D)) fn_queue.push_back(D);
    return id;
  }

  void Record(const RecordDecl* R0) {
    const RecordDecl* R = R0->getDefinition();
    if (!R || R->isDependentType() || R->isInvalidDecl()) return;
    if (!done_rec.insert(R).second) return;
    O o;
    o["n"] = PlainName(R);
    o["s"] = C.getRecordType(R).getAsString(PP);
    o["file"] = Base(FileOf(R->getLocation()));
    o["line"] = LineOf(R->getLocation());
    A fs;
    for (auto* f : R->fields()) {
      O x;
      x["n"] = f->getNameAsString();
      x["id"] = DeclId(f);
      x["t"] = Type(f->getType());
      x["line"] = LineOf(f->getLocation());
      x["acc"] = (int)f->getAccess();
      if (f->hasInClassInitializer()) {
        if (auto* e = f->getInClassInitializer()) x["init"] = E(e);
      }
      fs.push_back(std::move(x));
    }
    o["fields"] = std::move(fs);
    if (auto* CR = dyn_cast<CXXRecordDecl>(R)) {
      A bs;
      for (auto& b : CR->bases()) bs.push_back(Type(b.getType()));
      o["bases"] = std::move(bs);
      o["lambda"] = CR->isLambda();
      A ms;
      for (auto* m : CR->methods()) {
        if (m->isImplicit() && !m->hasBody()) {
          O y; y["n"] = m->getNameAsString(); y["implicit"] = true; y["acc"] = (int)m->getAccess();
          continue;
        }
        O y;
        y["n"] = m->getNameAsString();
        y["acc"] = (int)m->getAccess();
        y["c"] = Callee(m);
        if (m->isDeleted()) y["del"] = true;
        if (m->isDefaulted()) y["defaulted"] = true;
        ms.push_back(std::move(y));
      }
      o["methods"] = std::move(ms);
      A vs;
      for (auto* d : CR->decls()) if (auto* v = dyn_cast<VarDecl>(d)) { Global(v); vs.push_back(PlainName(v)); }
      o["statics"] = std::move(vs);
    }
    std::string key = C.getRecordType(R).getAsString(PP);
    records[key] = std::move(o);
  }

  std::string GName(const VarDecl* V) {
    std::string n = PlainName(V);
    if (V->isStaticLocal()) n += "@" + tu + ":" + std::to_string(LineOf(V->getLocation()));
    else if (!V->isExternallyVisible()) n += "@" + tu;
    return n;
  }

  void Global(const VarDecl* V) {
    const VarDecl* D = V->getDefinition() ? V->getDefinition() : V;
    if (V->getType()->isDependentType()) return;
    D = D->getCanonicalDecl();
    if (!done_glob.insert(D).second) return;
    if (!InRepo(V)) return;
    O o;
    o["n"] = PlainName(V);
    o["t"] = Type(V->getType());
    o["file"] = Base(FileOf(V->getLocation()));
    o["line"] = LineOf(V->getLocation());
    o["const"] = V->getType().isConstQualified() || V->isConstexpr() ||
        (V->getType()->isArrayType() && C.getAsArrayType(V->getType())->getElementType().isConstQualified());
    if (V->isStaticLocal()) o["local"] = true;
    if (V->getTSCSpec() != TSCS_unspecified) o["tls"] = true;
    const VarDecl* IV = nullptr;
    if (auto* e = V->getAnyInitializer(IV)) if (!e->isValueDependent()) o["init"] = E(e);
    globals[GName(V)] = std::move(o);
  }

  // ---- expressions -------------------------------------------------------
  A Es(llvm::ArrayRef<const Expr*> v) { A a; for (auto* e : v) a.push_back(E(e)); return a; }

  O N(const char* k, const Stmt* S) {
    O o; o["k"] = k; o["l"] = LineOf(S->getBeginLoc());
    return o;
  }

  json::Value Const(const Expr* e) {
    if (e->isValueDependent() || e->isTypeDependent()) return nullptr;
    QualType T = e->getType();
    if (!(T->isIntegralOrEnumerationType())) return nullptr;
    if (!e->isPRValue()) return nullptr;
    Expr::EvalResult r;
    if (e->EvaluateAsInt(r, C, Expr::SE_NoSideEffects) && !r.HasSideEffects) {
      llvm::APSInt v = r.Val.getInt();
      if (v.isSigned() || v.getActiveBits() < 64) return (int64_t)v.getExtValue();
      return llvm::toString(v, 10);
    }
    return nullptr;
  }

  json::Value E(const Expr* e) {
    if (!e) return nullptr;
    if (auto* x = dyn_cast<ParenExpr>(e)) return E(x->getSubExpr());
    if (auto* x = dyn_cast<ExprWithCleanups>(e)) return E(x->getSubExpr());
    if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) return E(x->getSubExpr());
    if (auto* x = dyn_cast<ConstantExpr>(e)) return E(x->getSubExpr());
    if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) return E(x->getReplacement());
    if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) {
      O o = N("stdinit", e); o["t"] = Type(e->getType()); o["a"] = A{E(x->getSubExpr())}; return o;
    }
    if (auto* x = dyn_cast<CXXDefaultArgExpr>(e)) { json::Value v = E(x->getExpr()); return v; }
    if (auto* x = dyn_cast<CXXDefaultInitExpr>(e)) return E(x->getExpr());
    if (auto* x = dyn_cast<CXXRewrittenBinaryOperator>(e)) return E(x->getSemanticForm());
    if (auto* x = dyn_cast<GenericSelectionExpr>(e)) return E(x->getResultExpr());
    if (auto* x = dyn_cast<ChooseExpr>(e)) return E(x->getChosenSubExpr());
    if (auto* x = dyn_cast<OpaqueValueExpr>(e)) if (x->getSourceExpr()) return E(x->getSourceExpr());

    json::Value cv = Const(e);
    if (cv.kind() != json::Value::Null) {
      O o = N("int", e); o["t"] = Type(e->getType()); o["v"] = std::move(cv);
      // keep a symbolic name for enum constants / sizeof
      const Expr* in = e->IgnoreParenCasts();
      if (auto* dr = dyn_cast<DeclRefExpr>(in)) o["sym"] = PlainName(dr->getDecl());
      return o;
    }
    if (auto* x = dyn_cast<StringLiteral>(e)) {
      O o = N("str", e); o["t"] = Type(e->getType());
      std::string raw = x->getCharByteWidth() == 1 ? x->getString().str() : "";
      o["v"] = json::isUTF8(raw) ? raw : json::fixUTF8(raw);
      return o;
    }
    if (auto* x = dyn_cast<FloatingLiteral>(e)) {
      O o = N("float", e); o["v"] = x->getValueAsApproximateDouble(); return o;
    }
    if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) { O o = N("null", e); return o; }
    if (isa<CXXThisExpr>(e)) { O o = N("this", e); o["t"] = Type(e->getType()); return o; }
    if (auto* x = dyn_cast<DeclRefExpr>(e)) {
      const ValueDecl* D = x->getDecl();
      O o = N("ref", e);
      o["t"] = Type(D->getType());
      if (auto* F = dyn_cast<FunctionDecl>(D)) { o["k"] = "fn"; o["c"] = Callee(F); return o; }
      if (auto* EC = dyn_cast<EnumConstantDecl>(D)) {
        o["k"] = "int"; o["v"] = (int64_t)EC->getInitVal().getExtValue(); o["sym"] = PlainName(EC); return o;
      }
      if (auto* V = dyn_cast<VarDecl>(D)) {
        if (V->isLocalVarDeclOrParm() && !V->isStaticLocal()) { o["d"] = DeclId(V); o["n"] = V->getNameAsString(); }
        else { o["k"] = "glob"; o["g"] = GName(V); o["n"] = PlainName(V); Global(V); }
        return o;
      }
      o["k"] = "ref"; o["d"] = DeclId(D); o["n"] = D->getNameAsString();
      return o;
    }
    if (auto* x = dyn_cast<MemberExpr>(e)) {
      const ValueDecl* D = x->getMemberDecl();
      if (auto* V = dyn_cast<VarDecl>(D)) {
        O o = N("glob", e); o["t"] = Type(D->getType()); o["g"] = GName(V); o["n"] = PlainName(V); Global(V); return o;
      }
      if (auto* F = dyn_cast<FunctionDecl>(D)) { O o = N("fn", e); o["c"] = Callee(F); return o; }
      O o = N("mem", e);
      o["b"] = E(x->getBase());
      o["bt"] = Type(x->getBase()->getType());
      o["arrow"] = x->isArrow();
      o["f"] = D->getNameAsString();
      o["t"] = Type(D->getType());
      if (auto* FD = dyn_cast<FieldDecl>(D)) o["cls"] = Type(C.getRecordType(FD->getParent()));
      return o;
    }
    if (auto* x = dyn_cast<CXXOperatorCallExpr>(e)) {
      O o = N("call", e);
      o["t"] = Type(e->getType());
      const FunctionDecl* F = x->getDirectCallee();
      bool mem = false;
      if (F) {
        o["c"] = Callee(F);
        auto* M = dyn_cast<CXXMethodDecl>(F);
        mem = M && !M->isStatic();
      }
      A args; unsigned ai = 0;
      for (auto* a : x->arguments()) {
        if (ai++ == 0 && mem) o["o"] = E(a); else args.push_back(E(a));
      }
      if (!F) o["fe"] = E(x->getCallee());
      o["a"] = std::move(args);
      return o;
    }
    if (auto* x = dyn_cast<CXXMemberCallExpr>(e)) {
      O o = N("call", e);
      o["t"] = Type(e->getType());
      A args; for (auto* a : x->arguments()) args.push_back(E(a));
      o["a"] = std::move(args);
      const Expr* cal = x->getCallee()->IgnoreParens();
      if (auto* ME = dyn_cast<MemberExpr>(cal)) {
        o["c"] = Callee(cast<FunctionDecl>(ME->getMemberDecl()));
        o["o"] = E(ME->getBase());
        o["arrow"] = ME->isArrow();
        if (ME->hasQualifier()) o["qual"] = true;
      } else if (auto* BO = dyn_cast<BinaryOperator>(cal)) {
        o["o"] = E(BO->getLHS());
        o["arrow"] = BO->getOpcode() == BO_PtrMemI;
        o["pm"] = E(BO->getRHS());
      }
      return o;
    }
    if (auto* x = dyn_cast<CallExpr>(e)) {
      O o = N("call", e);
      o["t"] = Type(e->getType());
      A args; for (auto* a : x->arguments()) args.push_back(E(a));
      o["a"] = std::move(args);
      if (auto* F = x->getDirectCallee()) o["c"] = Callee(F);
      else o["fe"] = E(x->getCallee());
      return o;
    }
    if (auto* x = dyn_cast<CXXConstructExpr>(e)) {
      O o = N("ctor", e);
      o["t"] = Type(e->getType());
      o["c"] = Callee(x->getConstructor());
      A args; for (auto* a : x->arguments()) args.push_back(E(a));
      o["a"] = std::move(args);
      if (x->requiresZeroInitialization()) o["zero"] = true;
      if (x->isListInitialization()) o["list"] = true;
      return o;
    }
    if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) {
      O o = N("mat", e); o["t"] = Type(e->getType()); o["a"] = A{E(x->getSubExpr())}; return o;
    }
    if (auto* x = dyn_cast<CastExpr>(e)) {
      CastKind K = x->getCastKind();
      switch (K) {
        case CK_NoOp: case CK_FunctionToPointerDecay: case CK_ConstructorConversion:
        case CK_UserDefinedConversion: case CK_BuiltinFnToFnPtr:
          return E(x->getSubExpr());
        case CK_DerivedToBase: case CK_UncheckedDerivedToBase: case CK_BaseToDerived: case CK_Dynamic: {
          O o = N("bcast", e); o["t"] = Type(e->getType()); o["ck"] = x->getCastKindName();
          o["a"] = A{E(x->getSubExpr())}; return o;
        }
        case CK_LValueToRValue: { O o = N("load", e); o["t"] = Type(e->getType()); o["a"] = A{E(x->getSubExpr())}; return o; }
        case CK_ArrayToPointerDecay: { O o = N("decay", e); o["t"] = Type(e->getType()); o["a"] = A{E(x->getSubExpr())}; return o; }
        case CK_NullToPointer: { O o = N("null", e); return o; }
        default: {
          O o = N("cast", e); o["t"] = Type(e->getType()); o["ft"] = Type(x->getSubExpr()->getType());
          o["ck"] = x->getCastKindName(); o["exp"] = isa<ExplicitCastExpr>(x);
          o["a"] = A{E(x->getSubExpr())}; return o;
        }
      }
    }
    if (auto* x = dyn_cast<UnaryOperator>(e)) {
      if (x->getOpcode() == UO_AddrOf) {
        const Expr* s = x->getSubExpr()->IgnoreParens();
        if (auto* dr = dyn_cast<DeclRefExpr>(s))
          if (auto* F = dyn_cast<FunctionDecl>(dr->getDecl())) { O o = N("fn", e); o["c"] = Callee(F); return o; }
      }
      O o = N("un", e); o["t"] = Type(e->getType());
      o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode());
      o["post"] = x->isPostfix();
      o["a"] = A{E(x->getSubExpr())}; return o;
    }
    if (auto* x = dyn_cast<CompoundAssignOperator>(e)) {
      O o = N("casg", e); o["t"] = Type(e->getType()); o["op"] = BinaryOperator::getOpcodeStr(x->getOpcode());
      o["ct"] = Type(x->getComputationLHSType());
      o["a"] = A{E(x->getLHS()), E(x->getRHS())}; return o;
    }
    if (auto* x = dyn_cast<BinaryOperator>(e)) {
      O o = N("bin", e); o["t"] = Type(e->getType()); o["op"] = BinaryOperator::getOpcodeStr(x->getOpcode());
      o["a"] = A{E(x->getLHS()), E(x->getRHS())}; return o;
    }
    if (auto* x = dyn_cast<ConditionalOperator>(e)) {
      O o = N("cond", e); o["t"] = Type(e->getType()); o["lv"] = e->isLValue();
      o["a"] = A{E(x->getCond()), E(x->getTrueExpr()), E(x->getFalseExpr())}; return o;
    }
    if (auto* x = dyn_cast<ArraySubscriptExpr>(e)) {
      O o = N("sub", e); o["t"] = Type(e->getType()); o["a"] = A{E(x->getBase()), E(x->getIdx())}; return o;
    }
    if (auto* x = dyn_cast<InitListExpr>(e)) {
      const InitListExpr* s = x->isSemanticForm() ? x : x->getSemanticForm();
      if (!s) s = x;
      if (s->isTransparent() && s->getNumInits() == 1) return E(s->getInit(0));
      O o = N("init", e); o["t"] = Type(e->getType());
      A a; for (unsigned i = 0; i < s->getNumInits(); ++i) a.push_back(E(s->getInit(i)));
      o["a"] = std::move(a);
      if (s->hasArrayFiller()) o["filler"] = E(s->getArrayFiller());
      return o;
    }
    if (isa<ImplicitValueInitExpr>(e)) { O o = N("zeroinit", e); o["t"] = Type(e->getType()); return o; }
    if (isa<CXXScalarValueInitExpr>(e)) { O o = N("zeroinit", e); o["t"] = Type(e->getType()); return o; }
    if (auto* x = dyn_cast<LambdaExpr>(e)) {
      O o = N("lambda", e); o["t"] = Type(e->getType());
      A caps;
      auto fit = x->getLambdaClass()->field_begin();
      auto iit = x->capture_init_begin();
      for (auto& c : x->captures()) {
        O q;
        q["f"] = DeclId(*fit);
        if (c.capturesThis()) { q["this"] = true; q["ref"] = c.getCaptureKind() == LCK_This; }
        else if (c.capturesVariable()) {
          q["d"] = DeclId(c.getCapturedVar());
          q["n"] = c.getCapturedVar()->getNameAsString();
          q["ref"] = c.getCaptureKind() == LCK_ByRef;
          if (c.getCaptureKind() == LCK_ByCopy && *iit) q["init"] = E(*iit);
          if (x->isInitCapture(&c)) {
            q["initcap"] = true;
            if (auto* vd = dyn_cast<VarDecl>(c.getCapturedVar())) if (vd->getInit()) q["init"] = E(vd->getInit());
          }
        }
        caps.push_back(std::move(q));
        ++fit; ++iit;
      }
      o["caps"] = std::move(caps);
      o["c"] = Callee(x->getCallOperator());
      const FunctionDecl* D = x->getCallOperator();
      fn_queue.push_back(D);
      return o;
    }
    if (auto* x = dyn_cast<CXXNewExpr>(e)) {
      O o = N("new", e); o["t"] = Type(x->getAllocatedType());
      o["array"] = x->isArray();
      if (auto* ce = x->getConstructExpr()) o["a"] = A{E(ce)};
      else if (x->hasInitializer() && x->getInitializer()) o["a"] = A{E(x->getInitializer())};
      return o;
    }
    if (auto* x = dyn_cast<CXXDeleteExpr>(e)) { O o = N("delete", e); o["a"] = A{E(x->getArgument())}; return o; }
    if (auto* x = dyn_cast<CXXThrowExpr>(e)) {
      O o = N("throw", e);
      if (x->getSubExpr()) { o["a"] = A{E(x->getSubExpr())}; o["tt"] = Type(x->getSubExpr()->getType()); }
      return o;
    }
    if (auto* x = dyn_cast<CXXTypeidExpr>(e)) { (void)x; return N("typeid", e); }
    if (auto* x = dyn_cast<StmtExpr>(e)) { O o = N("stmtexpr", e); o["b"] = S(x->getSubStmt()); return o; }
    if (auto* x = dyn_cast<ArrayInitLoopExpr>(e)) {
      O o = N("arrcopy", e); o["t"] = Type(e->getType()); o["a"] = A{E(x->getCommonExpr())}; return o;
    }
    if (isa<PredefinedExpr>(e)) { O o = N("str", e); o["v"] = "__func__"; return o; }
    O o = N("unk", e);
    o["cls"] = e->getStmtClassName();
    o["t"] = Type(e->getType());
    ++unsupported;
    return o;
  }

  // ---- statements --------------------------------------------------------
  json::Value Var(const VarDecl* V) {
    O o;
    o["l"] = LineOf(V->getLocation());
    o["n"] = V->getNameAsString();
    o["t"] = Type(V->getType());
    if (V->isStaticLocal()) { o["static"] = true; o["g"] = GName(V); Global(V); return o; }
    o["d"] = DeclId(V);
    if (V->getInit()) { o["i"] = E(V->getInit()); o["style"] = (int)V->getInitStyle(); }
    return o;
  }

  json::Value S(const Stmt* s) {
    if (!s) return nullptr;
    if (auto* x = dyn_cast<Expr>(s)) { O o = N("expr", s); o["e"] = E(x); return o; }
    if (auto* x = dyn_cast<CompoundStmt>(s)) {
      O o = N("block", s); A a; for (auto* c : x->body()) a.push_back(S(c));
      o["s"] = std::move(a); o["end"] = LineOf(x->getEndLoc()); return o;
    }
    if (auto* x = dyn_cast<DeclStmt>(s)) {
      O o = N("decl", s); A a;
      for (auto* d : x->decls()) if (auto* v = dyn_cast<VarDecl>(d)) a.push_back(Var(v));
      o["v"] = std::move(a); return o;
    }
    if (auto* x = dyn_cast<IfStmt>(s)) {
      O o = N("if", s);
      if (x->getInit()) o["init"] = S(x->getInit());
      if (x->getConditionVariable()) o["cv"] = Var(x->getConditionVariable());
      o["c"] = E(x->getCond());
      o["th"] = S(x->getThen());
      if (x->getElse()) o["el"] = S(x->getElse());
      return o;
    }
    if (auto* x = dyn_cast<WhileStmt>(s)) {
      O o = N("while", s);
      if (x->getConditionVariable()) o["cv"] = Var(x->getConditionVariable());
      o["c"] = E(x->getCond()); o["b"] = S(x->getBody()); return o;
    }
    if (auto* x = dyn_cast<DoStmt>(s)) { O o = N("do", s); o["c"] = E(x->getCond()); o["b"] = S(x->getBody()); return o; }
    if (auto* x = dyn_cast<ForStmt>(s)) {
      O o = N("for", s);
      if (x->getInit()) o["init"] = S(x->getInit());
      if (x->getConditionVariable()) o["cv"] = Var(x->getConditionVariable());
      if (x->getCond()) o["c"] = E(x->getCond());
      if (x->getInc()) o["inc"] = E(x->getInc());
      o["b"] = S(x->getBody()); return o;
    }
    if (auto* x = dyn_cast<CXXForRangeStmt>(s)) {
      O o = N("range", s);
      o["r"] = E(x->getRangeInit());
      o["rt"] = Type(x->getRangeInit()->getType());
      o["v"] = Var(x->getLoopVariable());
      o["b"] = S(x->getBody()); return o;
    }
    if (auto* x = dyn_cast<SwitchStmt>(s)) {
      O o = N("switch", s);
      if (x->getInit()) o["init"] = S(x->getInit());
      if (x->getConditionVariable()) o["cv"] = Var(x->getConditionVariable());
      o["c"] = E(x->getCond()); o["b"] = S(x->getBody()); return o;
    }
    if (auto* x = dyn_cast<CaseStmt>(s)) {
      O o = N("case", s); o["e"] = E(x->getLHS()); o["s"] = S(x->getSubStmt()); return o;
    }
    if (auto* x = dyn_cast<DefaultStmt>(s)) { O o = N("default", s); o["s"] = S(x->getSubStmt()); return o; }
    if (isa<BreakStmt>(s)) return N("break", s);
    if (isa<ContinueStmt>(s)) return N("continue", s);
    if (isa<NullStmt>(s)) return N("nop", s);
    if (auto* x = dyn_cast<ReturnStmt>(s)) {
      O o = N("return", s); if (x->getRetValue()) o["e"] = E(x->getRetValue()); return o;
    }
    if (auto* x = dyn_cast<CXXTryStmt>(s)) {
      O o = N("try", s); o["b"] = S(x->getTryBlock());
      A hs;
      for (unsigned i = 0; i < x->getNumHandlers(); ++i) {
        auto* h = x->getHandler(i);
        O q; q["l"] = LineOf(h->getBeginLoc());
        if (auto* v = h->getExceptionDecl()) { q["v"] = Var(v); q["t"] = Type(h->getCaughtType()); }
        q["b"] = S(h->getHandlerBlock());
        hs.push_back(std::move(q));
      }
      o["h"] = std::move(hs); return o;
    }
    if (auto* x = dyn_cast<LabelStmt>(s)) return S(x->getSubStmt());
    if (auto* x = dyn_cast<AttributedStmt>(s)) return S(x->getSubStmt());
    O o = N("unkstmt", s); o["cls"] = s->getStmtClassName(); ++unsupported;
    return o;
  }

  void Function(const FunctionDecl* F) {
    const FunctionDecl* D = nullptr;
    if (!F->hasBody(D)) return;
    F = D;
    if (F->isDependentContext() || F->isInvalidDecl()) return;
    if (!InRepo(F)) return;
    if (!done_fn.insert(F->getCanonicalDecl()).second) return;
    O o;
    int cid = Callee(F);
    o["c"] = cid;
    o["n"] = PlainName(F);
    o["file"] = Base(FileOf(F->getLocation()));
    o["line"] = LineOf(F->getLocation());
    A ps;
    for (auto* p : F->parameters()) {
      O q; q["d"] = DeclId(p); q["n"] = p->getNameAsString(); q["t"] = Type(p->getType());
      if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg()) q["def"] = E(p->getDefaultArg());
      ps.push_back(std::move(q));
    }
    o["ps"] = std::move(ps);
    o["acc"] = (int)F->getAccess();
    if (F->isImplicit()) o["implicit"] = true;
    if (F->isDefaulted()) o["defaulted"] = true;
    if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
      o["rec"] = C.getRecordType(M->getParent()).getAsString(PP);
      if (M->getParent()->isLambda()) {
        o["lambda"] = true;
        // Map captured variables to closure fields.
      }
    }
    if (auto* K = dyn_cast<CXXConstructorDecl>(F)) {
      A is;
      for (auto* i : K->inits()) {
        O q; q["l"] = LineOf(i->getSourceLocation());
        q["written"] = i->isWritten();
        if (i->isAnyMemberInitializer()) { q["f"] = i->getAnyMember()->getNameAsString(); q["t"] = Type(i->getAnyMember()->getType()); }
        else if (i->isDelegatingInitializer()) q["deleg"] = true;
        else if (i->isBaseInitializer()) q["base"] = Type(QualType(i->getBaseClass(), 0));
        q["e"] = E(i->getInit());
        is.push_back(std::move(q));
      }
      o["inits"] = std::move(is);
    }
    o["body"] = S(F->getBody());
    funcs[FnId(F)] = std::move(o);
  }

  void Drain() {
    while (!fn_queue.empty()) {
      auto* F = fn_queue.back();
      fn_queue.pop_back();
      Function(F);
    }
  }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
  Dumper& D;
  Visitor(Dumper& d) : D(d) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl* F) {
    if (F->isThisDeclarationADefinition() && !F->isDependentContext() && D.InRepo(F)) {
      if (F->hasBody()) D.Function(F);
    }
    return true;
  }
  bool VisitRecordDecl(RecordDecl* R) {
    if (R->isThisDeclarationADefinition() && D.InRepo(R) && !R->isDependentType()) D.Record(R);
    return true;
  }
  bool VisitVarDecl(VarDecl* V) {
    if ((V->hasGlobalStorage()) && D.InRepo(V) && !V->getType()->isDependentType() &&
        !V->getDeclContext()->isDependentContext()) D.Global(V);
    return true;
  }
};

struct Consumer : ASTConsumer {
  void HandleTranslationUnit(ASTContext& C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Dumper D(C);
    Visitor V(D);
    V.TraverseDecl(C.getTranslationUnitDecl());
    D.Drain();
    O top;
    top["tu"] = D.tu;
    top["types"] = std::move(D.type_arr);
    top["callees"] = std::move(D.callee_arr);
    top["funcs"] = std::move(D.funcs);
    top["records"] = std::move(D.records);
    top["globals"] = std::move(D.globals);
    top["unsupported"] = D.unsupported;
    std::error_code ec;
    llvm::raw_fd_ostream os(g_out, ec);
    os << json::Value(std::move(top));
  }
};

struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, StringRef) override {
    CI.getDiagnostics().setSuppressAllDiagnostics(false);
    return std::make_unique<Consumer>();
  }
};

int main(int argc, char** argv) {
  // kpfacts ROOT OUT FILE -- flags...
  if (argc < 5) { llvm::errs() << "usage: kpfacts ROOT OUT FILE -- flags\n"; return 2; }
  g_root = argv[1];
  g_out = argv[2];
  std::vector<std::string> args;
  for (int i = 5; i < argc; ++i) args.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", args);
  tooling::ClangTool T(DB, {argv[3]});
  return T.run(tooling::newFrontendActionFactory<Action>().get());
}
