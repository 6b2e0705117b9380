// bfacts: a clang plugin that dumps, for every function defined in the
// analysed source root, its control-flow graph over a table of resolved
// expressions (callee, field, variable, constant value), plus records, enums
// and globals.  The Python side decides the properties from these facts.
#include "clang/AST/AST.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecordLayout.h"
#include "clang/Analysis/CFG.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendPluginRegistry.h"
#include "clang/Lex/Lexer.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

namespace {

struct Dumper {
	ASTContext &C;
	SourceManager &SM;
	std::string root, out;
	std::unique_ptr<ASTNameGenerator> NG;
	PrintingPolicy PP;

	std::map<std::string, int> type_ids;
	std::vector<std::string> types;
	std::map<const Decl *, std::string> lambda_ids;
	std::set<const FunctionDecl *> queued;
	std::vector<std::pair<const FunctionDecl *, std::string>> work; // fn, lambda parent id
	std::set<const RecordDecl *> recs_done;
	std::map<const FunctionDecl *, std::string> fn_parent;

	Array functions, records, enums, globals, asserts;

	Dumper(ASTContext &c, std::string r, std::string o) : C(c), SM(c.getSourceManager()), root(std::move(r)), out(std::move(o)), PP(c.getLangOpts())
	{
		NG = std::make_unique<ASTNameGenerator>(C);
		PP.SuppressTagKeyword = true;
		PP.SuppressUnwrittenScope = false;
		PP.AnonymousTagLocations = true;
		PP.PrintCanonicalTypes = true;
	}

	int type_id(QualType t)
	{
		if (t.isNull()) return -1;
		std::string s = t.getCanonicalType().getAsString(PP);
		auto it = type_ids.find(s);
		if (it != type_ids.end()) return it->second;
		int id = (int)types.size();
		types.push_back(s);
		type_ids[s] = id;
		return id;
	}

	std::string file_of(SourceLocation l)
	{
		l = SM.getExpansionLoc(l);
		PresumedLoc p = SM.getPresumedLoc(l);
		if (p.isInvalid()) return "";
		// presumed filename honours #line; want the real one
		auto fe = SM.getFileEntryRefForID(SM.getFileID(l));
		if (!fe) return p.getFilename();
		StringRef rp = fe->getFileEntry().tryGetRealPathName();
		return rp.empty() ? std::string(fe->getName()) : rp.str();
	}
	bool in_root(SourceLocation l)
	{
		if (l.isInvalid()) return false;
		std::string f = file_of(l);
		return f.compare(0, root.size(), root) == 0;
	}
	std::string rel(const std::string &f)
	{
		if (f.compare(0, root.size(), root) == 0) {
			std::string s = f.substr(root.size());
			while (!s.empty() && s[0] == '/') s.erase(0, 1);
			return s;
		}
		return f;
	}
	unsigned line_of(SourceLocation l) { return SM.getExpansionLineNumber(l); }
	unsigned col_of(SourceLocation l) { return SM.getExpansionColumnNumber(l); }

	std::string outer_macro(SourceLocation l)
	{
		if (!l.isMacroID()) return "";
		std::string name;
		// walk out to the outermost expansion
		while (l.isMacroID()) {
			StringRef n = Lexer::getImmediateMacroName(l, SM, C.getLangOpts());
			if (SM.isMacroArgExpansion(l)) {
				// an argument: attribute to whatever expands the use site of the arg
				l = SM.getImmediateSpellingLoc(l);
				if (!l.isMacroID()) {
					// argument spelled in a file: not produced by the macro
					return name;
				}
				continue;
			}
			name = n.str();
			l = SM.getImmediateExpansionRange(l).getBegin();
		}
		return name;
	}
	// every macro whose expansion (body or argument) encloses the location
	std::string macro_chain(SourceLocation l)
	{
		std::string r;
		int guard = 0;
		while (l.isMacroID() && guard++ < 40) {
			StringRef n = Lexer::getImmediateMacroName(l, SM, C.getLangOpts());
			if (!r.empty()) r += ",";
			r += n.str();
			l = SM.getImmediateExpansionRange(l).getBegin();
		}
		return r;
	}

	std::string qname(const NamedDecl *d)
	{
		std::string s;
		llvm::raw_string_ostream os(s);
		PrintingPolicy p(PP);
		d->printQualifiedName(os, p);
		return os.str();
	}

	std::string fn_id(const FunctionDecl *f)
	{
		f = f->getCanonicalDecl();
		auto it = lambda_ids.find(f);
		if (it != lambda_ids.end()) return it->second;
		if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
			if (m->getParent()->isLambda()) {
				const CXXRecordDecl *r = m->getParent();
				SourceLocation l = r->getBeginLoc();
				std::string s = "lambda@" + rel(file_of(l)) + ":" + std::to_string(line_of(l)) + ":" + std::to_string(col_of(l)) + ":" + m->getNameAsString();
				// generic lambdas and lambdas in templates: make unique
				if (const auto *dc = dyn_cast_or_null<FunctionDecl>(r->getDeclContext())) {
					s += "^" + fn_id(dc);
				} else if (r->getDeclContext()) {
					if (auto *nd = dyn_cast<NamedDecl>(Decl::castFromDeclContext(r->getDeclContext()))) s += "^" + qname(nd);
				}
				s += "/" + f->getType().getCanonicalType().getAsString(PP);
				lambda_ids[f] = s;
				return s;
			}
		}
		std::string s;
		if (f->isExternC() || f->isMain()) s = f->getNameAsString();
		else if (!f->isDependentContext()) s = NG->getName(f);
		if (s.empty()) s = qname(f) + "/" + f->getType().getAsString();
		if (f->getFormalLinkage() == Linkage::Internal) s += "@" + rel(file_of(f->getLocation()));
		return s;
	}

	std::string var_id(const ValueDecl *v)
	{
		if (auto *vd = dyn_cast<VarDecl>(v)) {
			if (vd->hasGlobalStorage() && !vd->isStaticLocal()) return qname(vd->getCanonicalDecl());
			// parameters: key on the definition's own position
		}
		return v->getNameAsString() + "@" + std::to_string(line_of(v->getLocation())) + ":" + std::to_string(col_of(v->getLocation()));
	}

	// ------------------------------------------------------------------
	struct Fn {
		std::map<const Stmt *, int> ids;
		Array nodes;
		std::map<const Stmt *, int> try_of; // stmt -> try idx
		std::vector<const CXXTryStmt *> tries;
		std::vector<int> try_parent;
		int cur_try = -1;
		std::string id;
	};

	const Expr *strip(const Expr *e, bool &rd)
	{
		while (e) {
			if (auto *x = dyn_cast<ParenExpr>(e)) { e = x->getSubExpr(); continue; }
			if (auto *x = dyn_cast<ImplicitCastExpr>(e)) {
				if (x->getCastKind() == CK_LValueToRValue) rd = true;
				e = x->getSubExpr();
				continue;
			}
			if (auto *x = dyn_cast<ExprWithCleanups>(e)) { e = x->getSubExpr(); continue; }
			if (auto *x = dyn_cast<MaterializeTemporaryExpr>(e)) { e = x->getSubExpr(); continue; }
			if (auto *x = dyn_cast<CXXBindTemporaryExpr>(e)) { e = x->getSubExpr(); continue; }
			if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) { e = x->getReplacement(); continue; }
			if (auto *x = dyn_cast<ConstantExpr>(e)) { e = x->getSubExpr(); continue; }
			if (auto *x = dyn_cast<CXXDefaultArgExpr>(e)) { e = x->getExpr(); continue; }
			if (auto *x = dyn_cast<CXXDefaultInitExpr>(e)) { e = x->getExpr(); continue; }
			if (auto *x = dyn_cast<CXXStdInitializerListExpr>(e)) { e = x->getSubExpr(); continue; }
			if (auto *x = dyn_cast<CXXFunctionalCastExpr>(e)) {
				if (isa<CXXConstructExpr>(x->getSubExpr()->IgnoreImplicit())) { e = x->getSubExpr(); continue; }
			}
			if (auto *x = dyn_cast<ArrayInitLoopExpr>(e)) { e = x->getCommonExpr()->getSourceExpr(); continue; }
			if (auto *x = dyn_cast<OpaqueValueExpr>(e)) { if (x->getSourceExpr()) { e = x->getSourceExpr(); continue; } }
			if (auto *x = dyn_cast<GenericSelectionExpr>(e)) { if (!x->isResultDependent()) { e = x->getResultExpr(); continue; } }
			break;
		}
		return e;
	}

	int node(Fn &F, const Stmt *s)
	{
		if (!s) return -1;
		bool rd = false;
		const Stmt *orig = s;
		if (auto *e = dyn_cast<Expr>(s)) s = strip(e, rd);
		if (!s) return -1;
		auto it = F.ids.find(s);
		if (it != F.ids.end()) {
			F.ids[orig] = it->second;
			if (rd) { if (auto *o = F.nodes[it->second].getAsObject()) (*o)["rd"] = 1; }
			return it->second;
		}
		int id = (int)F.nodes.size();
		F.ids[s] = id;
		F.ids[orig] = id;
		F.nodes.push_back(nullptr);
		Object o = build(F, s);
		if (rd) o["rd"] = 1;
		o["l"] = (int64_t)line_of(s->getBeginLoc());
		if (s->getBeginLoc().isMacroID()) {
			std::string m = macro_chain(s->getBeginLoc());
			if (!m.empty()) o["m"] = m;
		}
		if (F.cur_try >= 0) o["ty"] = F.cur_try;
		if (auto *e = dyn_cast<Expr>(s)) {
			o["t"] = type_id(e->getType());
			QualType t = e->getType();
			if (!e->isValueDependent() && !e->isTypeDependent() && !t.isNull() && t->isIntegralOrEnumerationType() && !isa<BinaryOperator>(e)) {
				Expr::EvalResult r;
				if (e->EvaluateAsInt(r, C, Expr::SE_NoSideEffects)) {
					llvm::SmallString<40> str;
					r.Val.getInt().toString(str, 10);
					o["v"] = std::string(str.str());
				}
			} else if (auto *b = dyn_cast<BinaryOperator>(e)) {
				if (!b->isAssignmentOp() && !b->isCommaOp() && !e->isValueDependent() && t->isIntegralOrEnumerationType()) {
					Expr::EvalResult r;
					if (e->EvaluateAsInt(r, C, Expr::SE_NoSideEffects)) {
						llvm::SmallString<40> str;
						r.Val.getInt().toString(str, 10);
						o["v"] = std::string(str.str());
					}
				}
			}
		}
		F.nodes[id] = std::move(o);
		return id;
	}

	Value args_of(Fn &F, llvm::ArrayRef<const Expr *> as, unsigned skip = 0)
	{
		Array a;
		for (unsigned i = skip; i < as.size(); ++i) a.push_back(node(F, as[i]));
		return a;
	}
	std::vector<const Expr *> argv(const CallExpr *c)
	{
		std::vector<const Expr *> v;
		for (auto *a : c->arguments()) v.push_back(a);
		return v;
	}

	void put_callee(Object &o, const FunctionDecl *f)
	{
		o["f"] = fn_id(f);
		o["n"] = qname(f);
		if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
			if (m->isConst()) o["cm"] = 1;
			if (m->isStatic()) o["st"] = 1;
			if (m->getParent()->isLambda()) note_lambda(m->getParent(), "");
			if (m->isDefaulted() && !m->isUserProvided()) o["df"] = 1;
		}
		if (auto *pt = f->getType()->getAs<FunctionProtoType>()) {
			if (pt->getExceptionSpecType() != EST_Unevaluated && pt->getExceptionSpecType() != EST_Uninstantiated && pt->isNothrow()) o["nt"] = 1;
		}
		// by-ref kinds of parameters: r = non-const lvalue ref, c = const ref, m = rvalue ref, p = ptr to non-const, v = value
		std::string ks;
		for (auto *p : f->parameters()) {
			QualType t = p->getType();
			if (t->isRValueReferenceType()) ks += "m";
			else if (t->isLValueReferenceType()) ks += t.getNonReferenceType().isConstQualified() ? "c" : "r";
			else if (t->isPointerType()) ks += t->getPointeeType().isConstQualified() ? "q" : "p";
			else ks += "v";
		}
		if (!ks.empty()) o["pk"] = ks;
	}

	void note_lambda(const CXXRecordDecl *r, const std::string &parent)
	{
		if (!r) return;
		const CXXMethodDecl *op = r->getLambdaCallOperator();
		if (!op) return;
		if (auto *ft = op->getDescribedFunctionTemplate()) {
			for (auto *s : ft->specializations()) queue(s, parent);
		} else {
			queue(op, parent);
		}
	}

	void queue(const FunctionDecl *f, const std::string &parent = "")
	{
		const FunctionDecl *def = nullptr;
		if (!f->hasBody(def) || !def) {
			// constructor/destructor defaulted may not have body
			if (f->isDefaulted() && f->isDefined(def) && def) {} else return;
		}
		if (def->isDependentContext()) return;
		if (def->getTemplatedKind() == FunctionDecl::TK_FunctionTemplate) return;
		if (!in_root(def->getLocation())) return;
		if (!queued.insert(def->getCanonicalDecl()).second) return;
		work.push_back({def, parent});
	}

	Object build(Fn &F, const Stmt *s)
	{
		Object o;
		if (auto *c = dyn_cast<CXXConstructExpr>(s)) {
			o["k"] = "ctor";
			put_callee(o, c->getConstructor());
			std::vector<const Expr *> v;
			for (auto *a : c->arguments()) v.push_back(a);
			o["a"] = args_of(F, v);
			auto *cd = c->getConstructor();
			if (cd->isCopyConstructor()) o["cp"] = 1;
			if (cd->isMoveConstructor()) o["mv"] = 1;
			queue(cd);
			return o;
		}
		if (auto *c = dyn_cast<CXXInheritedCtorInitExpr>(s)) {
			o["k"] = "ctor";
			put_callee(o, c->getConstructor());
			o["a"] = Array();
			return o;
		}
		if (auto *c = dyn_cast<CallExpr>(s)) {
			o["k"] = "call";
			const FunctionDecl *fd = c->getDirectCallee();
			auto v = argv(c);
			if (fd) {
				put_callee(o, fd);
				queue(fd);
				if (auto *oc = dyn_cast<CXXOperatorCallExpr>(c)) {
					o["op"] = getOperatorSpelling(oc->getOperator());
					if (isa<CXXMethodDecl>(fd) && !cast<CXXMethodDecl>(fd)->isStatic() && !v.empty()) {
						o["o"] = node(F, v[0]);
						o["a"] = args_of(F, v, 1);
					} else {
						o["a"] = args_of(F, v);
					}
					return o;
				}
				if (auto *mc = dyn_cast<CXXMemberCallExpr>(c)) {
					o["o"] = node(F, mc->getImplicitObjectArgument());
					if (auto *me = dyn_cast<MemberExpr>(mc->getCallee()->IgnoreParenImpCasts())) {
						if (auto *md = mc->getMethodDecl()) if (md->isVirtual() && !me->hasQualifier()) o["vi"] = 1;
					}
				}
				o["a"] = args_of(F, v);
			} else {
				o["ind"] = node(F, c->getCallee());
				o["a"] = args_of(F, v);
			}
			return o;
		}
		if (auto *m = dyn_cast<MemberExpr>(s)) {
			o["k"] = "mem";
			o["b"] = node(F, m->getBase());
			auto *md = m->getMemberDecl();
			if (auto *fd = dyn_cast<FieldDecl>(md)) {
				const RecordDecl *r = fd->getParent();
				o["fd"] = qname(r) + "::" + fd->getNameAsString();
				if (fd->isMutable()) o["mut"] = 1;
			} else if (auto *vd = dyn_cast<VarDecl>(md)) {
				o["k"] = "ref";
				o["vk"] = "g";
				o["var"] = var_id(vd);
			} else {
				o["fd"] = qname(md);
				if (isa<FunctionDecl>(md)) { o["mf"] = fn_id(cast<FunctionDecl>(md)); }
			}
			if (m->isArrow()) o["ar"] = 1;
			return o;
		}
		if (auto *d = dyn_cast<DeclRefExpr>(s)) {
			auto *vd = d->getDecl();
			o["k"] = "ref";
			if (auto *fd = dyn_cast<FunctionDecl>(vd)) {
				o["vk"] = "f";
				o["var"] = qname(fd);
				o["f"] = fn_id(fd);
				queue(fd);
			} else if (auto *ec = dyn_cast<EnumConstantDecl>(vd)) {
				o["vk"] = "e";
				o["var"] = qname(ec);
			} else if (auto *p = dyn_cast<ParmVarDecl>(vd)) {
				o["vk"] = "p";
				o["var"] = var_id(p);
			} else if (auto *v = dyn_cast<VarDecl>(vd)) {
				o["vk"] = v->isStaticLocal() ? "s" : (v->hasGlobalStorage() ? "g" : "l");
				o["var"] = var_id(v);
				if (v->getTSCSpec() != TSCS_unspecified) o["tl"] = 1;
			} else {
				o["vk"] = "o";
				o["var"] = vd->getNameAsString();
				if (auto *bd = dyn_cast<BindingDecl>(vd)) { o["vk"] = "l"; o["var"] = var_id(bd); }
			}
			if (d->refersToEnclosingVariableOrCapture()) o["cap"] = 1;
			return o;
		}
		if (isa<CXXThisExpr>(s)) { o["k"] = "this"; return o; }
		if (isa<IntegerLiteral>(s) || isa<CharacterLiteral>(s)) { o["k"] = "lit"; return o; }
		if (auto *b = dyn_cast<CXXBoolLiteralExpr>(s)) { o["k"] = "lit"; o["b"] = b->getValue(); return o; }
		if (auto *f = dyn_cast<FloatingLiteral>(s)) { o["k"] = "flit"; llvm::SmallString<32> str; f->getValue().toString(str); o["v"] = std::string(str.str()); return o; }
		if (auto *b = dyn_cast<StringLiteral>(s)) { o["k"] = "str"; if (b->getCharByteWidth() == 1) { std::string t = b->getString().str(); if (llvm::json::isUTF8(t)) o["s"] = t; else o["s"] = llvm::json::fixUTF8(t); } return o; }
		if (isa<CXXNullPtrLiteralExpr>(s) || isa<GNUNullExpr>(s)) { o["k"] = "lit"; o["v"] = "0"; o["null"] = 1; return o; }
		if (auto *u = dyn_cast<UnaryOperator>(s)) { o["k"] = "un"; o["op"] = (u->isPostfix() ? "p" : "") + UnaryOperator::getOpcodeStr(u->getOpcode()).str(); o["s"] = node(F, u->getSubExpr()); return o; }
		if (auto *b = dyn_cast<BinaryOperator>(s)) {
			o["k"] = b->isAssignmentOp() ? "as" : "bin";
			o["op"] = b->getOpcodeStr().str();
			o["L"] = node(F, b->getLHS());
			o["R"] = node(F, b->getRHS());
			return o;
		}
		if (auto *c = dyn_cast<ConditionalOperator>(s)) { o["k"] = "cond"; o["c"] = node(F, c->getCond()); o["T"] = node(F, c->getTrueExpr()); o["F"] = node(F, c->getFalseExpr()); return o; }
		if (auto *l = dyn_cast<LambdaExpr>(s)) {
			o["k"] = "lam";
			const CXXMethodDecl *op = l->getCallOperator();
			Array ids;
			if (auto *ft = op->getDescribedFunctionTemplate()) {
				for (auto *sp : ft->specializations()) ids.push_back(fn_id(sp));
			} else ids.push_back(fn_id(op));
			o["f"] = std::move(ids);
			note_lambda(l->getLambdaClass(), F.id);
			Array caps;
			auto ii = l->capture_init_begin();
			for (auto &cp : l->captures()) {
				Object co;
				if (cp.capturesThis()) co["this"] = 1, co["star"] = cp.getCaptureKind() == LCK_StarThis;
				else if (cp.capturesVariable()) { co["var"] = var_id(cp.getCapturedVar()); co["ref"] = cp.getCaptureKind() == LCK_ByRef; co["t"] = type_id(cp.getCapturedVar()->getType()); }
				if (ii != l->capture_init_end() && *ii) co["i"] = node(F, *ii);
				++ii;
				caps.push_back(std::move(co));
			}
			o["caps"] = std::move(caps);
			return o;
		}
		if (auto *a = dyn_cast<ArraySubscriptExpr>(s)) { o["k"] = "idx"; o["b"] = node(F, a->getBase()); o["i"] = node(F, a->getIdx()); return o; }
		if (auto *c = dyn_cast<ExplicitCastExpr>(s)) {
			o["k"] = "cast"; o["ck"] = c->getCastKindName(); o["s"] = node(F, c->getSubExpr());
			return o;
		}
		if (auto *i = dyn_cast<InitListExpr>(s)) {
			if (i->isSemanticForm() == false && i->getSemanticForm()) i = i->getSemanticForm();
			o["k"] = "il"; Array a;
			for (auto *x : i->inits()) a.push_back(node(F, x));
			o["a"] = std::move(a);
			return o;
		}
		if (auto *t = dyn_cast<CXXThrowExpr>(s)) { o["k"] = "throw"; o["s"] = node(F, t->getSubExpr()); return o; }
		if (auto *n = dyn_cast<CXXNewExpr>(s)) { o["k"] = "new"; Array a; for (unsigned i = 0; i < n->getNumPlacementArgs(); ++i) a.push_back(node(F, n->getPlacementArg(i))); o["a"] = std::move(a); o["s"] = node(F, n->getConstructExpr() ? (const Stmt *)n->getConstructExpr() : (const Stmt *)n->getInitializer()); return o; }
		if (auto *d = dyn_cast<CXXDeleteExpr>(s)) { o["k"] = "delete"; o["s"] = node(F, d->getArgument()); return o; }
		if (auto *r = dyn_cast<ReturnStmt>(s)) { o["k"] = "ret"; o["s"] = node(F, r->getRetValue()); return o; }
		if (auto *d = dyn_cast<DeclStmt>(s)) {
			o["k"] = "decl";
			Array a;
			for (auto *x : d->decls()) {
				if (auto *v = dyn_cast<VarDecl>(x)) {
					Object vo;
					vo["var"] = var_id(v);
					vo["name"] = v->getNameAsString();
					vo["t"] = type_id(v->getType());
					vo["init"] = node(F, v->getInit());
					if (v->isStaticLocal()) vo["st"] = 1;
					if (v->getTSCSpec() != TSCS_unspecified) vo["tl"] = 1;
					if (auto *dd = dyn_cast<DecompositionDecl>(v)) { Array bs; for (auto *b : dd->bindings()) bs.push_back(var_id(b)); vo["bind"] = std::move(bs); }
					if (auto *rec = v->getType()->getAsCXXRecordDecl()) if (rec->hasDefinition() && !rec->hasTrivialDestructor()) { vo["dt"] = 1; if (auto *dd = rec->getDestructor()) queue(dd); }
					a.push_back(std::move(vo));
				}
			}
			o["d"] = std::move(a);
			return o;
		}
		if (isa<UnaryExprOrTypeTraitExpr>(s)) {
			o["k"] = "sizeof";
			auto *u = cast<UnaryExprOrTypeTraitExpr>(s);
			o["of"] = type_id(u->getTypeOfArgument());
			return o;
		}
		if (auto *p = dyn_cast<PredefinedExpr>(s)) { (void)p; o["k"] = "str"; return o; }
		if (isa<ImplicitValueInitExpr>(s) || isa<CXXScalarValueInitExpr>(s)) { o["k"] = "zero"; return o; }
		o["k"] = "other";
		o["cls"] = s->getStmtClassName();
		if (isa<Expr>(s)) {
			Array a;
			for (auto *ch : s->children()) a.push_back(node(F, ch));
			o["a"] = std::move(a);
		}
		return o;
	}

	// walk the body once, creating nodes inside the right try context
	void walk(Fn &F, const Stmt *s)
	{
		if (!s) return;
		if (auto *t = dyn_cast<CXXTryStmt>(s)) {
			int idx = (int)F.tries.size();
			F.tries.push_back(t);
			F.try_parent.push_back(F.cur_try);
			int save = F.cur_try;
			F.cur_try = idx;
			walk(F, t->getTryBlock());
			F.cur_try = save;
			for (unsigned i = 0; i < t->getNumHandlers(); ++i) walk(F, t->getHandler(i)->getHandlerBlock());
			return;
		}
		if (isa<Expr>(s) || isa<DeclStmt>(s) || isa<ReturnStmt>(s)) { node(F, s); return; }
		if (auto *fr = dyn_cast<CXXForRangeStmt>(s)) {
			walk(F, fr->getInit());
			walk(F, fr->getRangeStmt()); walk(F, fr->getBeginStmt()); walk(F, fr->getEndStmt());
			walk(F, fr->getCond()); walk(F, fr->getInc()); walk(F, fr->getLoopVarStmt()); walk(F, fr->getBody());
			return;
		}
		for (auto *ch : s->children()) walk(F, ch);
	}

	void dump_fn(const FunctionDecl *f, const std::string &parent)
	{
		Object o;
		Fn F;
		F.id = fn_id(f);
		o["id"] = F.id;
		o["name"] = qname(f);
		std::string ff = file_of(f->getLocation());
		o["file"] = rel(ff);
		o["line"] = (int64_t)line_of(f->getLocation());
		o["end"] = (int64_t)line_of(f->getEndLoc());
		o["ret"] = type_id(f->getReturnType());
		if (!parent.empty()) o["parent"] = parent;
		Array ps;
		for (auto *p : f->parameters()) {
			Object po;
			po["var"] = var_id(p);
			po["name"] = p->getNameAsString();
			po["t"] = type_id(p->getType());
			ps.push_back(std::move(po));
		}
		o["params"] = std::move(ps);
		if (f->isNoReturn()) o["noret"] = 1;
		if (auto *pt = f->getType()->getAs<FunctionProtoType>()) {
			auto k = pt->getExceptionSpecType();
			if (k != EST_Unevaluated && k != EST_Uninstantiated && pt->isNothrow()) o["nt"] = 1;
		}
		if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
			o["cls"] = qname(m->getParent());
			if (m->isStatic()) o["static"] = 1;
			if (m->isConst()) o["const"] = 1;
			if (m->isVirtual()) o["virt"] = 1;
			if (isa<CXXConstructorDecl>(m)) { o["ctor"] = 1; auto *cd = cast<CXXConstructorDecl>(m); if (cd->isCopyConstructor()) o["cp"] = 1; if (cd->isMoveConstructor()) o["mv"] = 1; }
			if (isa<CXXDestructorDecl>(m)) o["dtor"] = 1;
			if (m->isImplicit() || m->isDefaulted()) o["impl"] = 1;
			if (m->getAccess() == AS_private) o["priv"] = 1;
			Array ov;
			for (auto *b : m->overridden_methods()) ov.push_back(fn_id(b));
			if (!ov.empty()) o["over"] = std::move(ov);
			if (m->getParent()->isLambda()) o["lambda"] = 1;
			note_record(m->getParent());
		}
		if (f->getFormalLinkage() == Linkage::Internal) o["internal"] = 1;
		if (f->isTemplateInstantiation()) o["tinst"] = 1;

		Stmt *body = f->getBody();
		if (auto *cd = dyn_cast<CXXConstructorDecl>(f)) for (auto *i : cd->inits()) node(F, i->getInit());
		walk(F, body);

		CFG::BuildOptions bo;
		bo.AddImplicitDtors = true;
		bo.AddTemporaryDtors = true;
		bo.AddInitializers = true;
		bo.AddCXXDefaultInitExprInCtors = true;
		bo.AddEHEdges = false;
		bo.PruneTriviallyFalseEdges = true;
		bo.setAllAlwaysAdd();
		auto cfg = CFG::buildCFG(f, body, &C, bo);
		if (!cfg) {
			o["nocfg"] = 1;
			o["nodes"] = std::move(F.nodes);
			functions.push_back(std::move(o));
			return;
		}
		Array blocks;
		std::map<const CXXCatchStmt *, unsigned> catch_block;
		for (auto *b : *cfg) {
			Object bb;
			bb["id"] = (int64_t)b->getBlockID();
			Array els;
			for (auto &e : *b) {
				switch (e.getKind()) {
				case CFGElement::Statement:
				case CFGElement::Constructor:
				case CFGElement::CXXRecordTypedCall: {
					auto *st = e.castAs<CFGStmt>().getStmt();
					bool rd = false;
					const Stmt *core = st;
					if (auto *ex = dyn_cast<Expr>(st)) core = strip(ex, rd);
					if (core != st) { node(F, st); break; } // wrapper: the core has its own element
					els.push_back(node(F, st));
					break;
				}
				case CFGElement::Initializer: {
					auto *in = e.castAs<CFGInitializer>().getInitializer();
					Object io;
					io["k"] = "init";
					if (in->isAnyMemberInitializer()) io["fd"] = qname(in->getAnyMember()->getParent()) + "::" + in->getAnyMember()->getNameAsString();
					else if (in->isBaseInitializer()) io["base"] = type_id(QualType(in->getBaseClass(), 0));
					else io["deleg"] = 1;
					io["e"] = node(F, in->getInit());
					io["l"] = (int64_t)line_of(in->getSourceLocation());
					els.push_back(std::move(io));
					break;
				}
				case CFGElement::AutomaticObjectDtor: {
					auto d = e.castAs<CFGAutomaticObjDtor>();
					auto *v = d.getVarDecl();
					Object io;
					io["k"] = "dtor";
					io["var"] = var_id(v);
					io["t"] = type_id(v->getType());
					io["l"] = (int64_t)line_of(d.getTriggerStmt() ? d.getTriggerStmt()->getEndLoc() : v->getLocation());
					if (auto *dd = d.getDestructorDecl(C)) { io["f"] = fn_id(dd); queue(dd); }
					els.push_back(std::move(io));
					break;
				}
				case CFGElement::TemporaryDtor: {
					auto d = e.castAs<CFGTemporaryDtor>();
					Object io;
					io["k"] = "dtor";
					auto *bt = d.getBindTemporaryExpr();
					io["tmp"] = node(F, bt);
					io["t"] = type_id(bt->getType());
					io["l"] = (int64_t)line_of(bt->getEndLoc());
					if (auto *dd = d.getDestructorDecl(C)) { io["f"] = fn_id(dd); queue(dd); }
					els.push_back(std::move(io));
					break;
				}
				case CFGElement::MemberDtor: {
					auto d = e.castAs<CFGMemberDtor>();
					Object io;
					io["k"] = "dtor";
					io["fd"] = qname(d.getFieldDecl()->getParent()) + "::" + d.getFieldDecl()->getNameAsString();
					io["t"] = type_id(d.getFieldDecl()->getType());
					if (auto *dd = d.getDestructorDecl(C)) { io["f"] = fn_id(dd); queue(dd); }
					els.push_back(std::move(io));
					break;
				}
				case CFGElement::BaseDtor: {
					auto d = e.castAs<CFGBaseDtor>();
					Object io;
					io["k"] = "dtor";
					io["base"] = type_id(d.getBaseSpecifier()->getType());
					if (auto *dd = d.getDestructorDecl(C)) { io["f"] = fn_id(dd); queue(dd); }
					els.push_back(std::move(io));
					break;
				}
				default: break;
				}
			}
			bb["el"] = std::move(els);
			Array su;
			for (auto &s : b->succs()) {
				if (s.getReachableBlock()) su.push_back((int64_t)s.getReachableBlock()->getBlockID());
				else su.push_back(-1);
			}
			bb["su"] = std::move(su);
			if (auto *t = b->getTerminatorStmt()) {
				const Stmt *cnd = b->getTerminatorCondition(false);
				bb["tk"] = b->getTerminator().isTemporaryDtorsBranch() ? "TempDtorBranch" : t->getStmtClassName();
				if (cnd) bb["tc"] = node(F, cnd);
				if (isa<CXXForRangeStmt>(t)) bb["loop"] = 1;
				if (isa<ForStmt>(t) || isa<WhileStmt>(t) || isa<DoStmt>(t)) bb["loop"] = 1;
				if (isa<SwitchStmt>(t)) {
					auto *sw = cast<SwitchStmt>(t);
					bb["swt"] = type_id(sw->getCond()->IgnoreParenImpCasts()->getType());
				}
				if (auto *bop = dyn_cast<BinaryOperator>(t)) bb["bop"] = bop->getOpcodeStr().str();
				bb["tl"] = (int64_t)line_of(t->getBeginLoc());
			}
			if (auto *lt = b->getLoopTarget()) { (void)lt; bb["lt"] = 1; }
			if (b->hasNoReturnElement()) bb["nr"] = 1;
			if (auto *lab = b->getLabel()) {
				if (auto *cs = dyn_cast<CaseStmt>(lab)) {
					Array vals;
					const SwitchCase *x = cs;
					(void)x;
					Object co;
					co["lo"] = node(F, cs->getLHS());
					if (cs->getRHS()) co["hi"] = node(F, cs->getRHS());
					bb["case"] = std::move(co);
				} else if (isa<DefaultStmt>(lab)) bb["default"] = 1;
				else if (auto *cc = dyn_cast<CXXCatchStmt>(lab)) catch_block[cc] = b->getBlockID();
			}
			blocks.push_back(std::move(bb));
		}
		o["entry"] = (int64_t)cfg->getEntry().getBlockID();
		o["exit"] = (int64_t)cfg->getExit().getBlockID();
		o["blocks"] = std::move(blocks);
		Array tr;
		for (size_t i = 0; i < F.tries.size(); ++i) {
			Object to;
			to["parent"] = F.try_parent[i];
			Array hs;
			for (unsigned j = 0; j < F.tries[i]->getNumHandlers(); ++j) {
				auto *h = F.tries[i]->getHandler(j);
				Object ho;
				ho["t"] = h->getCaughtType().isNull() ? -1 : type_id(h->getCaughtType());
				auto it = catch_block.find(h);
				ho["b"] = it == catch_block.end() ? -1 : (int64_t)it->second;
				if (h->getExceptionDecl()) ho["var"] = var_id(h->getExceptionDecl());
				hs.push_back(std::move(ho));
			}
			to["h"] = std::move(hs);
			tr.push_back(std::move(to));
		}
		if (!tr.empty()) o["tries"] = std::move(tr);
		o["nodes"] = std::move(F.nodes);
		functions.push_back(std::move(o));
	}

	void note_record(const CXXRecordDecl *r)
	{
		r = r->getDefinition();
		if (!r || r->isDependentContext() || r->isLambda()) return;
		if (!recs_done.insert(r).second) return;
		if (!in_root(r->getLocation())) return;
		Object o;
		o["name"] = qname(r);
		o["file"] = rel(file_of(r->getLocation()));
		o["line"] = (int64_t)line_of(r->getLocation());
		Array fs;
		bool complete = !r->isInvalidDecl();
		const ASTRecordLayout *lay = nullptr;
		if (complete) { lay = &C.getASTRecordLayout(r); o["size"] = (int64_t)lay->getSize().getQuantity(); }
		unsigned i = 0;
		for (auto *f : r->fields()) {
			Object fo;
			fo["name"] = f->getNameAsString();
			fo["t"] = type_id(f->getType());
			if (lay) fo["off"] = (int64_t)lay->getFieldOffset(i);
			if (f->isBitField()) fo["bits"] = (int64_t)f->getBitWidthValue(C);
			if (f->isMutable()) fo["mut"] = 1;
			if (f->hasInClassInitializer()) fo["ini"] = 1;
			++i;
			fs.push_back(std::move(fo));
		}
		o["fields"] = std::move(fs);
		Array bs;
		for (auto &b : r->bases()) bs.push_back(type_id(b.getType()));
		o["bases"] = std::move(bs);
		if (auto *d = r->getDestructor()) { o["dtor"] = fn_id(d); queue(d); }
		o["union"] = r->isUnion();
		Array ms;
		for (auto *m : r->methods()) {
			Object mo;
			mo["id"] = fn_id(m);
			mo["n"] = m->getNameAsString();
			if (m->isVirtual()) mo["v"] = 1;
			if (m->isDeleted()) mo["del"] = 1;
			if (m->isPureVirtual()) mo["pure"] = 1;
			if (auto *cd = dyn_cast<CXXConstructorDecl>(m)) { if (cd->isCopyConstructor()) mo["cp"] = 1; if (cd->isMoveConstructor()) mo["mvc"] = 1; }
			if (m->isCopyAssignmentOperator()) mo["ca"] = 1;
			Array ov;
			for (auto *b : m->overridden_methods()) ov.push_back(fn_id(b));
			if (!ov.empty()) mo["over"] = std::move(ov);
			ms.push_back(std::move(mo));
		}
		o["methods"] = std::move(ms);
		records.push_back(std::move(o));
	}

	void visit(const Decl *d)
	{
		if (auto *ft = dyn_cast<FunctionTemplateDecl>(d)) {
			for (auto *s : ft->specializations()) queue(s);
			return;
		}
		if (auto *ct = dyn_cast<ClassTemplateDecl>(d)) {
			for (auto *s : ct->specializations()) { visit_record(s); }
			return;
		}
		if (auto *f = dyn_cast<FunctionDecl>(d)) { queue(f); return; }
		if (auto *r = dyn_cast<CXXRecordDecl>(d)) { visit_record(r); return; }
		if (auto *e = dyn_cast<EnumDecl>(d)) {
			if (!in_root(e->getLocation())) return;
			Object o;
			o["name"] = qname(e);
			Array a;
			for (auto *c : e->enumerators()) { llvm::SmallString<40> s; c->getInitVal().toString(s, 10); a.push_back(Array{c->getNameAsString(), std::string(s.str())}); }
			o["e"] = std::move(a);
			enums.push_back(std::move(o));
			return;
		}
		if (auto *v = dyn_cast<VarDecl>(d)) {
			if (!in_root(v->getLocation())) return;
			if (v->getType()->isDependentType()) return;
			if (isa<VarTemplateSpecializationDecl>(v)) return;
			Object o;
			o["name"] = qname(v);
			o["t"] = type_id(v->getType());
			o["file"] = rel(file_of(v->getLocation()));
			o["line"] = (int64_t)line_of(v->getLocation());
			o["def"] = v->isThisDeclarationADefinition() == VarDecl::Definition;
			if (v->getTSCSpec() != TSCS_unspecified) o["tl"] = 1;
			if (v->getType().isConstQualified()) o["const"] = 1;
			if (v->hasInit() && v->getInit() && !v->getInit()->isValueDependent()) {
				Fn F;
				F.id = "global:" + qname(v);
				o["init"] = node(F, v->getInit());
				o["nodes"] = std::move(F.nodes);
				if (v->getType()->isIntegralOrEnumerationType()) {
					if (auto *val = v->evaluateValue()) if (val->isInt()) { llvm::SmallString<40> s; val->getInt().toString(s, 10); o["v"] = std::string(s.str()); }
				} else if (v->getType()->isFloatingType()) {
					if (auto *val = v->evaluateValue()) if (val->isFloat()) { llvm::SmallString<32> s; val->getFloat().toString(s); o["v"] = std::string(s.str()); }
				}
			}
			globals.push_back(std::move(o));
			return;
		}
		if (auto *dc = dyn_cast<DeclContext>(d)) {
			if (isa<NamespaceDecl>(d) || isa<LinkageSpecDecl>(d)) for (auto *x : dc->decls()) visit(x);
		}
	}
	void visit_record(const CXXRecordDecl *r)
	{
		r = r->getDefinition();
		if (!r) return;
		if (!in_root(r->getLocation())) return;
		note_record(r);
		for (auto *x : r->decls()) visit(x);
	}

	void run(const std::string &tu)
	{
		for (auto *d : C.getTranslationUnitDecl()->decls()) visit(d);
		for (size_t i = 0; i < work.size(); ++i) {
			auto w = work[i];
			dump_fn(w.first, w.second);
		}
		Object top;
		top["tu"] = tu;
		top["functions"] = std::move(functions);
		top["records"] = std::move(records);
		top["enums"] = std::move(enums);
		top["globals"] = std::move(globals);
		Array ts;
		for (auto &t : types) ts.push_back(t);
		top["types"] = std::move(ts);
		std::error_code ec;
		llvm::raw_fd_ostream os(out, ec);
		os << Value(std::move(top));
	}
};

struct Consumer : ASTConsumer {
	CompilerInstance &CI;
	std::string root, out;
	Consumer(CompilerInstance &ci, std::string r, std::string o) : CI(ci), root(std::move(r)), out(std::move(o)) {}
	void HandleTranslationUnit(ASTContext &C) override
	{
		if (C.getDiagnostics().hasErrorOccurred()) return;
		Dumper d(C, root, out);
		auto fe = C.getSourceManager().getFileEntryRefForID(C.getSourceManager().getMainFileID());
		d.run(fe ? std::string(fe->getName()) : "");
	}
};

struct Action : PluginASTAction {
	std::string root, out;
	std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &ci, llvm::StringRef) override { return std::make_unique<Consumer>(ci, root, out); }
	bool ParseArgs(const CompilerInstance &, const std::vector<std::string> &args) override
	{
		for (auto &a : args) {
			if (a.compare(0, 5, "root=") == 0) root = a.substr(5);
			if (a.compare(0, 4, "out=") == 0) out = a.substr(4);
		}
		return true;
	}
	ActionType getActionType() override { return ReplaceAction; }
};

}

static FrontendPluginRegistry::Add<Action> X("bfacts", "dump bees facts");
