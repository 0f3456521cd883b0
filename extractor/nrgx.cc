// nrgx: dump a normalised program representation (AST + CFG + resolved calls) of every
// function defined under a source root, as JSON.  Deciding rules live in ../checks/*.py.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <map>
#include <set>
#include <unordered_map>
using namespace clang;
namespace J = llvm::json;

static std::string Root, OutFile;
static std::vector<std::string> Skip;
static size_t MaxNodes = 0; // larger functions are named but not dumped
static int MaxInst = 4; // instantiations dumped per template pattern
static bool WantCFG = true;

struct Ex {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::unordered_map<const Decl *, int> declIds;
  J::Array functions, classes, globals, enums;
  std::set<const Decl *> doneFn, doneCls, doneVar;
  std::map<std::string, int> instCount;
  std::unordered_map<const FileEntry *, std::string> fileCache;
  Ex(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true; PP.Bool = true; PP.SuppressUnwrittenScope = true;
  }
  int did(const Decl *D) {
    if (!D) return -1;
    D = D->getCanonicalDecl();
    auto it = declIds.find(D);
    if (it != declIds.end()) return it->second;
    int n = declIds.size() + 1;
    declIds[D] = n;
    return n;
  }
  std::string relFile(SourceLocation L) {
    if (L.isInvalid()) return "";
    L = SM.getExpansionLoc(L);
    auto FID = SM.getFileID(L);
    auto FE = SM.getFileEntryRefForID(FID);
    if (!FE) return "";
    const FileEntry *fe = &FE->getFileEntry();
    auto it = fileCache.find(fe);
    if (it != fileCache.end()) return it->second;
    std::string p = fe->tryGetRealPathName().str();
    std::string r;
    if (p.compare(0, Root.size(), Root) == 0) {
      r = p.substr(Root.size());
      for (auto &s : Skip) if (r.compare(0, s.size(), s) == 0) { r = ""; break; }
    }
    fileCache[fe] = r;
    return r;
  }
  int line(SourceLocation L) { return L.isInvalid() ? 0 : (int)SM.getPresumedLineNumber(SM.getExpansionLoc(L)); }
  bool inRoot(const Decl *D) { return !relFile(D->getLocation()).empty(); }
  std::string ty(QualType T) {
    if (T.isNull()) return "";
    std::string s = T.getCanonicalType().getAsString(PP);
    // classes that are local to a function share their printed name with other local classes
    QualType B = T.getNonReferenceType();
    while (!B.isNull() && (B->isPointerType() || B->isArrayType())) B = B->isPointerType() ? B->getPointeeType() : QualType(B->getArrayElementTypeNoTypeQual(), 0);
    if (auto *R = B.isNull() ? nullptr : B->getAsCXXRecordDecl(); R && !R->isLambda() && R->getDeclContext()->isFunctionOrMethod()) {
      auto nm = R->getNameAsString();
      auto pos = nm.empty() ? std::string::npos : s.rfind(nm);
      if (pos != std::string::npos) s.insert(pos + nm.size(), "@" + std::to_string(did(R->getCanonicalDecl())));
    }
    return s;
  }
  std::string tysp(QualType T) { return T.isNull() ? "" : T.getAsString(PP); }
  std::string qn(const NamedDecl *D) {
    std::string s;
    llvm::raw_string_ostream os(s);
    D->printQualifiedName(os, PP);
    return os.str();
  }
  // key of the template pattern (or the function itself)
  const FunctionDecl *patternOf(const FunctionDecl *F) {
    const FunctionDecl *P = F->getTemplateInstantiationPattern();
    return P ? P : F;
  }
  std::string pkey(const FunctionDecl *F) {
    const FunctionDecl *P = patternOf(F);
    const FunctionDecl *Def = nullptr;
    if (P->hasBody(Def) && Def) P = Def;
    std::string f = relFile(P->getLocation());
    if (f.empty()) return "";
    return f + ":" + std::to_string(line(P->getLocation())) + ":" + P->getNameAsString();
  }

  // ---------------- per function state
  struct FS {
    J::Array nodes;
    std::unordered_map<const Stmt *, int> map;
    std::string file;
    const FunctionDecl *F;
  };
  FS *fs = nullptr;
  std::vector<std::pair<const FunctionDecl *, const FunctionDecl *>> queue;

  J::Array kids(const Stmt *S) {
    J::Array a;
    for (const Stmt *c : S->children()) { a.push_back(c ? node(c) : -1); }
    return a;
  }
  J::Object varObj(const VarDecl *V) {
    J::Object o;
    o["id"] = did(V); o["n"] = V->getNameAsString(); o["t"] = ty(V->getType());
    auto sp = tysp(V->getType());
    if (sp != ty(V->getType())) o["ts"] = sp;
    o["l"] = line(V->getLocation());
    if (V->isStaticLocal()) o["static"] = true;
    if (V->getTSCSpec() != TSCS_unspecified) o["tls"] = true;
    if (V->isConstexpr()) o["constexpr"] = true;
    if (V->getType().isConstQualified()) o["const"] = true;
    if (V->getType()->isReferenceType()) o["ref"] = true;
    return o;
  }
  static const Stmt *strip(const Stmt *S, std::vector<const ImplicitCastExpr *> *ics = nullptr) {
    for (;;) {
      if (!S) return S;
      if (auto *P = dyn_cast<ParenExpr>(S)) S = P->getSubExpr();
      else if (auto *I = dyn_cast<ImplicitCastExpr>(S)) { if (ics) ics->push_back(I); S = I->getSubExpr(); }
      else if (auto *E = dyn_cast<FullExpr>(S)) S = E->getSubExpr();
      else if (auto *M = dyn_cast<MaterializeTemporaryExpr>(S)) S = M->getSubExpr();
      else if (auto *B = dyn_cast<CXXBindTemporaryExpr>(S)) S = B->getSubExpr();
      else if (auto *N = dyn_cast<SubstNonTypeTemplateParmExpr>(S)) S = N->getReplacement();
      else if (auto *D = dyn_cast<CXXDefaultInitExpr>(S)) S = D->getExpr();
      else if (auto *O = dyn_cast<OpaqueValueExpr>(S)) { if (!O->getSourceExpr()) return S; S = O->getSourceExpr(); }
      else return S;
    }
  }
  int node(const Stmt *S0) {
    if (!S0) return -1;
    auto it0 = fs->map.find(S0);
    if (it0 != fs->map.end()) return it0->second;
    std::vector<const ImplicitCastExpr *> ics;
    const Stmt *S = strip(S0, &ics);
    auto it = fs->map.find(S);
    if (it != fs->map.end()) { fs->map[S0] = it->second; return it->second; }
    int id = fs->nodes.size();
    fs->nodes.push_back(nullptr);
    fs->map[S] = id;
    { const Stmt *q = S0; // map every stripped wrapper
      while (q && q != S) {
        fs->map[q] = id;
        if (auto *P = dyn_cast<ParenExpr>(q)) q = P->getSubExpr();
        else if (auto *I = dyn_cast<ImplicitCastExpr>(q)) q = I->getSubExpr();
        else if (auto *E = dyn_cast<FullExpr>(q)) q = E->getSubExpr();
        else if (auto *M = dyn_cast<MaterializeTemporaryExpr>(q)) q = M->getSubExpr();
        else if (auto *B = dyn_cast<CXXBindTemporaryExpr>(q)) q = B->getSubExpr();
        else if (auto *N = dyn_cast<SubstNonTypeTemplateParmExpr>(q)) q = N->getReplacement();
        else if (auto *D = dyn_cast<CXXDefaultInitExpr>(q)) q = D->getExpr();
        else if (auto *O = dyn_cast<OpaqueValueExpr>(q)) q = O->getSourceExpr();
        else break;
      } }
    J::Object o;
    SourceLocation L = S->getBeginLoc();
    o["l"] = line(L);
    if (L.isMacroID()) {
      // outermost macro name
      SourceLocation M = L; std::string nm;
      while (M.isMacroID()) { nm = Lexer::getImmediateMacroName(M, SM, C.getLangOpts()).str();
        M = SM.isMacroArgExpansion(M) ? SM.getImmediateExpansionRange(M).getBegin() : SM.getImmediateExpansionRange(M).getBegin(); }
      o["mx"] = nm;
    }
    std::string rf = relFile(L);
    if (rf != fs->file && !rf.empty()) o["f"] = rf;
    if (auto *E = dyn_cast<Expr>(S)) {
      o["t"] = ty(E->getType());
      J::Array ia;
      for (auto *i : ics) {
        auto k = i->getCastKind();
        if (k == CK_FloatingToIntegral || k == CK_IntegralCast || k == CK_IntegralToFloating || k == CK_FloatingCast || k == CK_IntegralToBoolean || k == CK_FloatingToBoolean || k == CK_PointerToBoolean)
          ia.push_back(J::Array{i->getCastKindName(), ty(i->getType())});
        else if (k == CK_LValueToRValue) o["rv"] = true;
      }
      if (!ia.empty()) o["ic"] = std::move(ia);
      if (E->getType().isNull()) {} else if (!E->isValueDependent() && !E->isTypeDependent() && E->getType()->isIntegralOrEnumerationType() && !E->isLValue()) {
        Expr::EvalResult R;
        if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) {
          auto &v = R.Val.getInt();
          if (v.isRepresentableByInt64()) o["cv"] = v.getExtValue();
        }
      } else if (!E->isValueDependent() && !E->isTypeDependent() && E->isLValue() && E->getType().isConstQualified() && E->getType()->isIntegralOrEnumerationType()) {
        Expr::EvalResult R;
        if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) {
          auto &v = R.Val.getInt();
          if (v.isRepresentableByInt64()) o["cv"] = v.getExtValue();
        }
      }
    }
    fill(S, o);
    fs->nodes[id] = std::move(o);
    return id;
  }
  void callee(const FunctionDecl *F, J::Object &o) {
    if (!F) return;
    if (!F->isDependentContext() && F->getTemplateInstantiationPattern() && !doneFn.count(F)) queue.push_back({F, nullptr});
    o["fid"] = did(F);
    o["n"] = F->getNameAsString();
    o["fn"] = qn(F);
    auto k = pkey(F);
    if (!k.empty()) o["pk"] = k;
    J::Array pt;
    for (auto *p : F->parameters()) pt.push_back(ty(p->getType()));
    o["pt"] = std::move(pt);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = qn(M->getParent());
      if (M->isVirtual()) o["virt"] = true;
      if (M->isConst()) o["cm"] = true;
      if (M->isStatic()) o["sm"] = true;
    }
    if (F->isNoReturn()) o["noret"] = true;
    if (auto *FPT = F->getType()->getAs<FunctionProtoType>()) { auto es = FPT->getExceptionSpecType(); bool nt = es != EST_Uninstantiated && es != EST_Unevaluated && es != EST_DependentNoexcept && es != EST_Unparsed && FPT->isNothrow(); if (!nt) o["thr"] = true; }
  }
  void fill(const Stmt *S, J::Object &o) {
    // ---- expressions
    if (auto *E = dyn_cast<DeclRefExpr>(S)) {
      auto *D = E->getDecl();
      o["k"] = "ref"; o["d"] = did(D); o["n"] = D->getNameAsString();
      if (auto *F = dyn_cast<FunctionDecl>(D)) { o["dk"] = "func"; callee(F, o); o["d"] = did(D); }
      else if (auto *P = dyn_cast<ParmVarDecl>(D)) { o["dk"] = "param"; (void)P; }
      else if (auto *V = dyn_cast<VarDecl>(D)) {
        o["dk"] = V->hasGlobalStorage() ? (V->isStaticLocal() ? "slocal" : "global") : "var";
        if (V->hasGlobalStorage()) o["q"] = qn(V);
      }
      else if (isa<EnumConstantDecl>(D)) { o["dk"] = "enumc"; o["q"] = qn(D); }
      else if (isa<BindingDecl>(D)) o["dk"] = "binding";
      else { o["dk"] = D->getDeclKindName(); o["q"] = qn(D); }
      return;
    }
    if (auto *E = dyn_cast<MemberExpr>(S)) {
      o["k"] = "mem"; o["m"] = E->getMemberDecl()->getNameAsString(); o["d"] = did(E->getMemberDecl()); o["q"] = qn(E->getMemberDecl());
      if (isa<VarDecl>(E->getMemberDecl())) o["dk"] = "global";
      if (auto *F = dyn_cast<FunctionDecl>(E->getMemberDecl())) { o["dk"] = "func"; callee(F, o); }
      if (E->isArrow()) o["arrow"] = true;
      o["c"] = J::Array{node(E->getBase())};
      return;
    }
    if (auto *E = dyn_cast<CXXOperatorCallExpr>(S)) {
      o["k"] = "opcall"; o["op"] = getOperatorSpelling(E->getOperator());
      callee(E->getDirectCallee(), o);
      J::Array a; for (auto *x : E->arguments()) a.push_back(node(x));
      o["c"] = std::move(a);
      return;
    }
    if (auto *E = dyn_cast<CXXMemberCallExpr>(S)) {
      o["k"] = "mcall"; callee(E->getMethodDecl(), o);
      J::Array a;
      if (auto *ob = E->getImplicitObjectArgument()) a.push_back(node(ob)); else a.push_back(node(E->getCallee()));
      if (auto *ME = dyn_cast<MemberExpr>(strip(E->getCallee()))) if (ME->isArrow()) o["arrow"] = true;
      for (auto *x : E->arguments()) a.push_back(node(x));
      o["c"] = std::move(a);
      if (isa_and_nonnull<CXXConversionDecl>(E->getMethodDecl())) o["conv"] = true;
      return;
    }
    if (auto *E = dyn_cast<CallExpr>(S)) {
      o["k"] = "call"; callee(E->getDirectCallee(), o);
      J::Array a;
      if (!E->getDirectCallee()) { o["ce"] = node(E->getCallee()); }
      for (auto *x : E->arguments()) a.push_back(node(x));
      o["c"] = std::move(a);
      return;
    }
    if (auto *E = dyn_cast<CXXConstructExpr>(S)) {
      o["k"] = "ctor"; callee(E->getConstructor(), o);
      if (E->getConstructor()->isCopyConstructor()) o["copy"] = true;
      if (E->getConstructor()->isMoveConstructor()) o["move"] = true;
      J::Array a; for (auto *x : E->arguments()) a.push_back(node(x));
      o["c"] = std::move(a);
      return;
    }
    if (auto *E = dyn_cast<CXXUnresolvedConstructExpr>(S)) { o["k"] = "uctor"; o["c"] = kids(E); return; }
    if (auto *E = dyn_cast<CXXRewrittenBinaryOperator>(S)) { auto DF = E->getDecomposedForm(); o["k"] = "rwbin"; o["op"] = BinaryOperator::getOpcodeStr(DF.Opcode).str(); o["c"] = J::Array{node(DF.LHS), node(DF.RHS)};
      if (auto *IC = dyn_cast<CXXOperatorCallExpr>(DF.InnerBinOp->IgnoreImplicit()); IC && !E->isReversed())
        if (auto *F = IC->getDirectCallee()) { J::Object u; callee(F, u); if (auto *v = u.get("fid")) o["ifid"] = std::move(*v); if (auto v = u.getString("pk")) o["ipk"] = v->str(); }
      return;
    }
    if (auto *E = dyn_cast<BinaryOperator>(S)) { o["k"] = "bin"; o["op"] = E->getOpcodeStr().str(); o["c"] = J::Array{node(E->getLHS()), node(E->getRHS())}; return; }
    if (auto *E = dyn_cast<UnaryOperator>(S)) {
      std::string op = UnaryOperator::getOpcodeStr(E->getOpcode()).str();
      if (E->isPostfix()) op = "post" + op;
      o["k"] = "un"; o["op"] = op; o["c"] = J::Array{node(E->getSubExpr())}; return;
    }
    if (auto *E = dyn_cast<ExplicitCastExpr>(S)) {
      o["k"] = "cast"; o["ck"] = E->getCastKindName(); o["c"] = J::Array{node(E->getSubExpr())};
      o["cs"] = E->getStmtClassName();
      o["tw"] = ty(E->getTypeAsWritten());
      return;
    }
    if (auto *E = dyn_cast<ConditionalOperator>(S)) { o["k"] = "cond"; o["c"] = J::Array{node(E->getCond()), node(E->getTrueExpr()), node(E->getFalseExpr())}; return; }
    if (auto *E = dyn_cast<ArraySubscriptExpr>(S)) { o["k"] = "sub"; o["c"] = J::Array{node(E->getBase()), node(E->getIdx())}; return; }
    if (auto *E = dyn_cast<IntegerLiteral>(S)) { o["k"] = "int"; if (E->getValue().getActiveBits() <= 63) o["v"] = (int64_t)E->getValue().getZExtValue(); return; }
    if (auto *E = dyn_cast<FloatingLiteral>(S)) { o["k"] = "flt"; o["v"] = E->getValueAsApproximateDouble(); return; }
    if (auto *E = dyn_cast<StringLiteral>(S)) { o["k"] = "str"; if (E->getCharByteWidth() == 1) { std::string s = E->getString().str(); o["v"] = J::isUTF8(s) ? s : J::fixUTF8(s); } return; }
    if (auto *E = dyn_cast<CharacterLiteral>(S)) { o["k"] = "char"; o["v"] = (int64_t)E->getValue(); return; }
    if (auto *E = dyn_cast<CXXBoolLiteralExpr>(S)) { o["k"] = "bool"; o["v"] = E->getValue(); return; }
    if (isa<CXXNullPtrLiteralExpr>(S) || isa<GNUNullExpr>(S)) { o["k"] = "null"; return; }
    if (isa<CXXThisExpr>(S)) { o["k"] = "this"; return; }
    if (auto *E = dyn_cast<LambdaExpr>(S)) {
      o["k"] = "lambda"; o["fid"] = did(E->getCallOperator()); o["pk"] = pkey(E->getCallOperator());
      J::Array caps;
      unsigned i = 0;
      auto init = E->capture_init_begin();
      for (auto &c : E->captures()) {
        J::Object co;
        if (c.capturesThis()) co["this"] = true;
        else if (c.capturesVariable()) { co["d"] = did(c.getCapturedVar()); co["n"] = c.getCapturedVar()->getNameAsString(); co["ref"] = c.getCaptureKind() == LCK_ByRef; }
        if (*init) co["init"] = node(*init);
        ++init; ++i;
        caps.push_back(std::move(co));
      }
      o["caps"] = std::move(caps);
      if (E->getCaptureDefault() == LCD_ByRef) o["defref"] = true;
      enqueue(E->getCallOperator(), fs->F);
      if (auto *T = E->getCallOperator()->getDescribedFunctionTemplate())
        for (auto *sp : T->specializations()) if (!sp->isDependentContext()) enqueue(sp, fs->F);
      return;
    }
    if (auto *E = dyn_cast<CXXNewExpr>(S)) { o["k"] = "new"; o["c"] = kids(E); return; }
    if (auto *E = dyn_cast<CXXDeleteExpr>(S)) { o["k"] = "delete"; o["c"] = J::Array{node(E->getArgument())}; return; }
    if (auto *E = dyn_cast<CXXThrowExpr>(S)) { o["k"] = "throw"; J::Array a; if (E->getSubExpr()) a.push_back(node(E->getSubExpr())); o["c"] = std::move(a); return; }
    if (auto *E = dyn_cast<InitListExpr>(S)) { o["k"] = "ilist"; const InitListExpr *sem = E->isSemanticForm() ? E : (E->getSemanticForm() ? E->getSemanticForm() : E); J::Array a; for (auto *x : sem->inits()) a.push_back(node(x)); o["c"] = std::move(a); return; }
    if (auto *E = dyn_cast<CXXStdInitializerListExpr>(S)) { o["k"] = "stdil"; o["c"] = J::Array{node(E->getSubExpr())}; return; }
    if (auto *E = dyn_cast<CXXDefaultArgExpr>(S)) { o["k"] = "defarg"; o["c"] = J::Array{node(E->getExpr())}; return; }
    if (auto *E = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) { o["k"] = "sizeof"; if (E->isArgumentType()) o["st"] = ty(E->getArgumentType()); else { o["st"] = ty(E->getArgumentExpr()->getType()); o["c"] = J::Array{node(E->getArgumentExpr())}; } return; }
    if (auto *E = dyn_cast<CXXDependentScopeMemberExpr>(S)) { o["k"] = "depmem"; o["m"] = E->getMember().getAsString(); J::Array a; if (!E->isImplicitAccess()) a.push_back(node(E->getBase())); o["c"] = std::move(a); return; }
    if (auto *E = dyn_cast<OverloadExpr>(S)) { o["k"] = "unres"; o["n"] = E->getName().getAsString(); if (auto *UM = dyn_cast<UnresolvedMemberExpr>(E)) if (!UM->isImplicitAccess()) o["c"] = J::Array{node(UM->getBase())}; return; }
    if (auto *E = dyn_cast<DependentScopeDeclRefExpr>(S)) { o["k"] = "depref"; o["n"] = E->getDeclName().getAsString(); return; }
    // ---- statements
    if (auto *D = dyn_cast<DeclStmt>(S)) {
      o["k"] = "decl"; J::Array vs;
      for (auto *d : D->decls())
        if (auto *V = dyn_cast<VarDecl>(d)) {
          auto vo = varObj(V);
          if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
            J::Array bs; for (auto *b : DD->bindings()) { J::Object bo; bo["id"] = did(b); bo["n"] = b->getNameAsString(); bs.push_back(std::move(bo)); }
            vo["bind"] = std::move(bs);
          }
          if (V->hasInit()) {
            vo["init"] = node(V->getInit());
            vo["is"] = V->getInitStyle() == VarDecl::CInit ? "c" : V->getInitStyle() == VarDecl::CallInit ? "call" : "list";
          }
          if (V->isStaticLocal()) addGlobal(V);
          vs.push_back(std::move(vo));
        }
      o["vars"] = std::move(vs);
      return;
    }
    if (auto *I = dyn_cast<IfStmt>(S)) {
      o["k"] = "if"; if (I->isConstexpr()) o["constexpr"] = true;
      if (I->getInit()) o["init"] = node(I->getInit());
      if (I->getConditionVariableDeclStmt()) o["cvar"] = node(I->getConditionVariableDeclStmt());
      o["c"] = J::Array{node(I->getCond()), node(I->getThen()), node(I->getElse())}; return;
    }
    if (auto *F = dyn_cast<ForStmt>(S)) { o["k"] = "for"; o["c"] = J::Array{node(F->getInit()), node(F->getCond()), node(F->getInc()), node(F->getBody())}; return; }
    if (auto *W = dyn_cast<WhileStmt>(S)) { o["k"] = "while"; if (W->getConditionVariableDeclStmt()) o["cvar"] = node(W->getConditionVariableDeclStmt()); o["c"] = J::Array{node(W->getCond()), node(W->getBody())}; return; }
    if (auto *W = dyn_cast<DoStmt>(S)) { o["k"] = "do"; o["c"] = J::Array{node(W->getBody()), node(W->getCond())}; return; }
    if (auto *R = dyn_cast<CXXForRangeStmt>(S)) {
      o["k"] = "rangefor"; o["var"] = varObj(R->getLoopVariable());
      if (auto *DD = dyn_cast<DecompositionDecl>(R->getLoopVariable())) {
        J::Array bs; for (auto *b : DD->bindings()) { J::Object bo; bo["id"] = did(b); bo["n"] = b->getNameAsString(); bs.push_back(std::move(bo)); }
        o["bind"] = std::move(bs);
      }
      if (R->getInit()) o["init"] = node(R->getInit());
      // map the desugared pieces so that CFG elements resolve
      J::Array ds;
      for (const Stmt *x : {(const Stmt *)R->getRangeStmt(), (const Stmt *)R->getBeginStmt(), (const Stmt *)R->getEndStmt(), (const Stmt *)R->getCond(), (const Stmt *)R->getInc(), (const Stmt *)R->getLoopVarStmt()}) ds.push_back(x ? node(x) : -1);
      o["ds"] = std::move(ds);
      o["c"] = J::Array{node(R->getRangeInit()), node(R->getBody())}; return;
    }
    if (auto *W = dyn_cast<SwitchStmt>(S)) { o["k"] = "switch"; if (W->getInit()) o["init"] = node(W->getInit()); o["c"] = J::Array{node(W->getCond()), node(W->getBody())}; return; }
    if (auto *W = dyn_cast<CaseStmt>(S)) { o["k"] = "case"; o["c"] = J::Array{node(W->getLHS()), node(W->getSubStmt())}; return; }
    if (auto *W = dyn_cast<DefaultStmt>(S)) { o["k"] = "default"; o["c"] = J::Array{node(W->getSubStmt())}; return; }
    if (isa<BreakStmt>(S)) { o["k"] = "break"; return; }
    if (isa<ContinueStmt>(S)) { o["k"] = "continue"; return; }
    if (auto *R = dyn_cast<ReturnStmt>(S)) { o["k"] = "return"; J::Array a; if (R->getRetValue()) a.push_back(node(R->getRetValue())); o["c"] = std::move(a); return; }
    if (isa<CompoundStmt>(S)) { o["k"] = "block"; o["c"] = kids(S); return; }
    if (auto *T = dyn_cast<CXXTryStmt>(S)) { o["k"] = "try"; J::Array a; a.push_back(node(T->getTryBlock())); for (unsigned i = 0; i < T->getNumHandlers(); i++) a.push_back(node(T->getHandler(i))); o["c"] = std::move(a); return; }
    if (auto *T = dyn_cast<CXXCatchStmt>(S)) { o["k"] = "catch"; if (T->getExceptionDecl()) { o["ct"] = ty(T->getCaughtType()); o["var"] = varObj(T->getExceptionDecl()); } else o["ct"] = "..."; o["c"] = J::Array{node(T->getHandlerBlock())}; return; }
    if (auto *D = dyn_cast<OMPExecutableDirective>(S)) {
      o["k"] = "omp"; o["dir"] = getOpenMPDirectiveName(D->getDirectiveKind()).str();
      if (auto *Cr = dyn_cast<OMPCriticalDirective>(S)) o["n"] = Cr->getDirectiveName().getAsString();
      J::Array cl;
      for (auto *c : D->clauses()) {
        if (!c) continue;
        J::Object co; co["n"] = getOpenMPClauseName(c->getClauseKind()).str();
        J::Array vs; for (auto *ch : c->children()) if (ch) vs.push_back(node(ch));
        co["c"] = std::move(vs);
        cl.push_back(std::move(co));
      }
      o["clauses"] = std::move(cl);
      J::Array a;
      if (D->hasAssociatedStmt()) { const Stmt *A = D->getAssociatedStmt(); while (auto *CS = dyn_cast<CapturedStmt>(A)) A = CS->getCapturedStmt(); a.push_back(node(A)); }
      o["c"] = std::move(a);
      return;
    }
    if (auto *CS = dyn_cast<CapturedStmt>(S)) { o["k"] = "block"; o["c"] = J::Array{node(CS->getCapturedStmt())}; return; }
    if (auto *A = dyn_cast<AttributedStmt>(S)) { o["k"] = "block"; o["c"] = J::Array{node(A->getSubStmt())}; return; }
    if (isa<NullStmt>(S)) { o["k"] = "nop"; return; }
    if (auto *L = dyn_cast<LabelStmt>(S)) { o["k"] = "label"; o["n"] = L->getName(); o["c"] = J::Array{node(L->getSubStmt())}; return; }
    if (auto *G = dyn_cast<GotoStmt>(S)) { o["k"] = "goto"; o["n"] = G->getLabel()->getNameAsString(); return; }
    o["k"] = S->getStmtClassName();
    o["c"] = kids(S);
  }

  void enqueue(const FunctionDecl *F, const FunctionDecl *parent) { queue.push_back({F, parent}); }
  void drain() { while (!queue.empty()) { auto p = queue.back(); queue.pop_back(); addFunction(p.first, p.second); } }

  void addGlobal(const VarDecl *V) {
    V = V->getCanonicalDecl();
    if (!doneVar.insert(V).second) return;
    const VarDecl *D = V->getDefinition() ? V->getDefinition() : V;
    J::Object o = varObj(D);
    o["id"] = did(V); o["q"] = qn(V); o["file"] = relFile(D->getLocation());
    if (V->isStaticLocal()) if (auto *F = dyn_cast<FunctionDecl>(V->getDeclContext())) o["infn"] = qn(F);
    o["extern"] = D->hasExternalStorage();
    const VarDecl *I = D->getInitializingDeclaration();
    if (I && I->hasInit() && !I->getInit()->isValueDependent()) {
      FS f; FS *old = fs; fs = &f; f.file = relFile(D->getLocation()); f.F = nullptr;
      int r = node(I->getInit());
      o["init"] = r; o["nodes"] = std::move(f.nodes);
      fs = old;
    }
    globals.push_back(std::move(o));
  }

  void addFunction(const FunctionDecl *F0, const FunctionDecl *parent) {
    const FunctionDecl *F = nullptr;
    if (!F0->hasBody(F) || !F) return;
    if (F->isDefaulted() && !F->isUserProvided()) return;
    if (!inRoot(F)) return;
    if (!doneFn.insert(F).second) return;
    bool dep = F->isDependentContext();
    std::string pk = pkey(F);
    if (F->getTemplateInstantiationPattern() && !dep) {
      if (instCount[pk]++ >= MaxInst) return;
    }
    FS f; FS *old = fs; fs = &f;
    f.file = relFile(F->getLocation()); f.F = F;
    J::Object o;
    o["fid"] = did(F); o["q"] = qn(F); o["n"] = F->getNameAsString(); o["file"] = f.file;
    o["line"] = line(F->getLocation()); o["bl"] = line(F->getBeginLoc()); o["end"] = line(F->getEndLoc()); o["pk"] = pk;
    o["ret"] = ty(F->getReturnType());
    if (dep) o["dep"] = true;
    if (F->getTemplateInstantiationPattern()) o["inst"] = true;
    if (auto *A = F->getTemplateSpecializationArgs()) { std::string s; llvm::raw_string_ostream os(s); for (auto &a : A->asArray()) { a.print(PP, os, true); os << ","; } o["targs"] = os.str(); }
    if (F->isNoReturn()) o["noret"] = true;
    if (auto *FPT = F->getType()->getAs<FunctionProtoType>()) { auto es = FPT->getExceptionSpecType(); if (es != EST_Uninstantiated && es != EST_Unevaluated && es != EST_DependentNoexcept && FPT->isNothrow()) o["noexcept"] = true; }
    J::Array ps;
    for (auto *p : F->parameters()) { auto vo = varObj(p); if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg()) vo["def"] = node(p->getDefaultArg()); ps.push_back(std::move(vo)); }
    o["params"] = std::move(ps);
    o["kind"] = "fn";
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = qn(M->getParent()); o["clsid"] = did(M->getParent());
      o["kind"] = isa<CXXConstructorDecl>(F) ? "ctor" : isa<CXXDestructorDecl>(F) ? "dtor" : "method";
      if (M->isStatic()) o["static"] = true;
      if (M->isConst()) o["const"] = true;
      if (M->isVirtual()) { o["virt"] = true; J::Array ov; for (auto *b : M->overridden_methods()) ov.push_back(did(b)); o["over"] = std::move(ov); }
      if (M->getParent()->isLambda()) { o["kind"] = "lambda"; }
      if (M->isCopyAssignmentOperator()) o["special"] = "copy=";
      if (M->isMoveAssignmentOperator()) o["special"] = "move=";
    }
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
      if (CD->isCopyConstructor()) o["special"] = "copy"; if (CD->isMoveConstructor()) o["special"] = "move";
    }
    if (parent) { o["parent"] = did(parent); }
    int b = node(F->getBody());
    o["body"] = b;
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
      J::Array ins;
      for (auto *i : CD->inits()) {
        J::Object io;
        if (i->isMemberInitializer()) { io["m"] = i->getMember()->getNameAsString(); io["d"] = did(i->getMember()); }
        else if (i->isBaseInitializer()) io["base"] = ty(QualType(i->getBaseClass(), 0));
        else if (i->isDelegatingInitializer()) io["deleg"] = true;
        io["w"] = i->isWritten();
        if (i->getInit()) io["e"] = node(i->getInit());
        ins.push_back(std::move(io));
      }
      o["inits"] = std::move(ins);
    }
    if (!dep && WantCFG) {
      CFG::BuildOptions BO;
      BO.AddInitializers = true; BO.AddImplicitDtors = true; BO.AddTemporaryDtors = false;
      BO.setAllAlwaysAdd();
      BO.PruneTriviallyFalseEdges = true;
      auto cfg = CFG::buildCFG(F, F->getBody(), &C, BO);
      if (cfg) {
        J::Object co; J::Object blocks;
        co["entry"] = (int)cfg->getEntry().getBlockID(); co["exit"] = (int)cfg->getExit().getBlockID();
        for (auto *B : *cfg) {
          J::Object bo; J::Array el;
          int last = -2;
          for (auto &E : *B) {
            if (auto S = E.getAs<CFGStmt>()) { int n = node(S->getStmt()); if (n != last) el.push_back(n); last = n; }
            else if (auto D = E.getAs<CFGAutomaticObjDtor>()) { el.push_back(J::Object{{"dtor", did(D->getVarDecl())}}); last = -2; }
            else if (auto I = E.getAs<CFGInitializer>()) { J::Object io; auto *ci = I->getInitializer(); if (ci->isMemberInitializer()) io["minit"] = did(ci->getMember()); else io["minit"] = 0; el.push_back(std::move(io)); last = -2; }
          }
          bo["e"] = std::move(el);
          if (auto *T = B->getTerminatorStmt()) {
            bo["t"] = node(T);
            if (auto *cnd = B->getTerminatorCondition(false)) bo["c"] = node(cnd);
          }
          if (auto *Lb = B->getLabel()) { bo["lab"] = node(Lb); }
          J::Array su;
          for (auto &s : B->succs()) { const CFGBlock *r = s.getReachableBlock(); su.push_back(r ? (int)r->getBlockID() : -1); }
          bo["s"] = std::move(su);
          if (B->hasNoReturnElement()) bo["nr"] = true;
          blocks[std::to_string(B->getBlockID())] = std::move(bo);
        }
        co["b"] = std::move(blocks);
        o["cfg"] = std::move(co);
      }
    }
    if (MaxNodes && f.nodes.size() > MaxNodes) { o["cut"] = (int64_t)f.nodes.size(); f.nodes.clear(); }
    o["nodes"] = std::move(f.nodes);
    fs = old;
    functions.push_back(std::move(o));
  }
  void addClass(const CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || !inRoot(R) || !doneCls.insert(R).second) return;
    if (R->isLambda()) return;
    J::Object o; o["q"] = qn(R); o["id"] = did(R); o["file"] = relFile(R->getLocation()); o["line"] = line(R->getLocation());
    bool dep = R->isDependentContext(); if (dep) o["dep"] = true;
    o["t"] = ty(C.getRecordType(R));
    bool cdep = R->isDependentContext();
    FS cf; FS *oldfs = fs; fs = &cf; cf.file = relFile(R->getLocation()); cf.F = nullptr;
    J::Array fl; for (auto *f : R->fields()) { J::Object fo; if (!cdep && f->hasInClassInitializer() && f->getInClassInitializer() && !f->getInClassInitializer()->isValueDependent()) fo["initn"] = node(f->getInClassInitializer()); fo["n"] = f->getNameAsString(); fo["t"] = ty(f->getType()); fo["ts"] = tysp(f->getType()); fo["id"] = did(f); fo["l"] = line(f->getLocation()); fo["init"] = f->hasInClassInitializer(); fo["mut"] = f->isMutable(); fo["acc"] = (int)f->getAccess(); fl.push_back(std::move(fo)); }
    o["fields"] = std::move(fl);
    if (!cf.nodes.empty()) o["nodes"] = std::move(cf.nodes);
    fs = oldfs;
    J::Array ms; for (auto *m : R->methods()) { J::Object mo; mo["n"] = m->getNameAsString(); mo["fid"] = did(m); mo["deleted"] = m->isDeleted(); mo["defaulted"] = m->isExplicitlyDefaulted(); mo["user"] = m->isUserProvided(); mo["impl"] = m->isImplicit(); mo["virt"] = m->isVirtual(); mo["pure"] = m->isPureVirtual(); mo["l"] = line(m->getLocation()); mo["static"] = m->isStatic();
      mo["kind"] = isa<CXXConstructorDecl>(m) ? (cast<CXXConstructorDecl>(m)->isCopyConstructor() ? "copy" : cast<CXXConstructorDecl>(m)->isMoveConstructor() ? "move" : "ctor") : isa<CXXDestructorDecl>(m) ? "dtor" : m->isCopyAssignmentOperator() ? "copy=" : m->isMoveAssignmentOperator() ? "move=" : "method"; ms.push_back(std::move(mo)); }
    o["methods"] = std::move(ms);
    J::Array bs; for (auto &b : R->bases()) { J::Object bo; bo["t"] = ty(b.getType()); if (auto *br = b.getType()->getAsCXXRecordDecl()) { bo["id"] = did(br); bo["q"] = qn(br); } bs.push_back(std::move(bo)); }
    o["bases"] = std::move(bs);
    if (!dep) {
      auto del = [&](const char *k, bool has, bool user) { (void)has; o[k] = user; };
      del("udtor", true, R->hasUserDeclaredDestructor());
      o["ucopy"] = R->hasUserDeclaredCopyConstructor(); o["ucopya"] = R->hasUserDeclaredCopyAssignment(); o["umove"] = R->hasUserDeclaredMoveConstructor(); o["umovea"] = R->hasUserDeclaredMoveAssignment();
      o["triv"] = R->isTriviallyCopyable();
    }
    classes.push_back(std::move(o));
  }
};

struct V : RecursiveASTVisitor<V> {
  Ex &X;
  V(Ex &X) : X(X) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!F->doesThisDeclarationHaveABody()) return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) {
      // generic lambda instantiation
      if (!F->isDependentContext() && F->getTemplateInstantiationPattern()) X.addFunction(F, nullptr);
      X.drain();
      return true;
    }
    X.addFunction(F, nullptr); X.drain();
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) { X.addClass(R); return true; }
  bool VisitVarDecl(VarDecl *D) {
    if (isa<ParmVarDecl>(D)) return true;
    if (D->hasGlobalStorage() && X.inRoot(D) && !D->getDeclContext()->isDependentContext()) X.addGlobal(D);
    X.drain();
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    if (!X.inRoot(E) || !E->isThisDeclarationADefinition()) return true;
    J::Object o; o["q"] = X.qn(E); o["file"] = X.relFile(E->getLocation()); o["line"] = X.line(E->getLocation());
    J::Array a; for (auto *c : E->enumerators()) a.push_back(J::Object{{"n", c->getNameAsString()}, {"v", c->getInitVal().isRepresentableByInt64() ? (int64_t)c->getInitVal().getExtValue() : (int64_t)0}});
    o["c"] = std::move(a);
    X.enums.push_back(std::move(o));
    return true;
  }
};

struct Cons : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    Ex X(C);
    V v(X);
    v.TraverseDecl(C.getTranslationUnitDecl());
    X.drain();
    J::Object top;
    top["errors"] = (int)C.getDiagnostics().getClient()->getNumErrors();
    top["functions"] = std::move(X.functions); top["classes"] = std::move(X.classes);
    top["globals"] = std::move(X.globals); top["enums"] = std::move(X.enums);
    std::error_code ec;
    llvm::raw_fd_ostream os(OutFile, ec);
    os << J::Value(std::move(top));
  }
};
struct Act : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override { return std::make_unique<Cons>(); }
};
struct Fac : tooling::FrontendActionFactory { std::unique_ptr<FrontendAction> create() override { return std::make_unique<Act>(); } };

int main(int argc, const char **argv) {
  // nrgx ROOT OUT FILE -- flags
  if (argc < 5) return 2;
  if (auto *e = getenv("NRGX_INST")) MaxInst = atoi(e);
  if (auto *e = getenv("NRGX_MAXNODES")) MaxNodes = atoi(e);
  if (auto *e = getenv("NRGX_NOCFG")) WantCFG = atoi(e) == 0;
  Root = argv[1]; if (Root.back() != '/') Root += '/';
  OutFile = argv[2];
  Skip = {"_build/", "test/"};
  std::vector<std::string> flags;
  for (int i = 5; i < argc; i++) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool T(db, {argv[3]});
  Fac f;
  return T.run(&f);
}
