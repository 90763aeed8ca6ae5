// dvc: deductive verification-condition generator for LLVM IR.
//
// Input : one bitcode module (the real /repo code, compiled by clang, linked with the contract
//         harnesses of /verif/contracts), and the name of one contract-enforcement entry.
// Output: JSON with every proof obligation that was generated for the entry, and its verdict.
//
// Method: strongest-postcondition style VC generation over the IR: every acyclic path of the entry
// is turned into a path condition over bit-vector (and FP) terms; every __vc_assert on the path is an
// obligation  (path-condition => assertion)  which is discharged by z3.  Loops with a bound that the
// path condition decides are unrolled completely (there is no unwinding cap: if an unrolling does not
// end the run ends with an error, never with a proof).  Unbounded histories are cut in the contracts, which
// put an object into an arbitrary state that satisfies its invariant and prove one step.  Calls are replaced with their contract when the harness module
// supplies one (a function named  __stub__<mangled name>).
#include <llvm/ADT/SmallString.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Dominators.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <z3.h>
#include <chrono>
#include <cmath>
#include <cstring>
#include <deque>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include <algorithm>
#include <array>
#include <functional>
#include <signal.h>
#include <unistd.h>

using namespace llvm;
typedef uint64_t u64;
typedef int64_t i64;

static Z3_context C;
static bool usesFP = false, usesArr = false, abstractArith = false;

[[noreturn]] static void emitAndExit(int code);
static std::vector<std::string> gErrors;
struct PathAbort { std::string why; };
static bool inRun = false;
static u64 maxErrors = 40;
[[noreturn]] static void fatalHard(const std::string& s) { gErrors.push_back(s); emitAndExit(2); }
// an error on one path leaves that path undecided (the run can no longer end as "all discharged"), but
// the other paths are still explored, so that a violation on one of them is still reported
[[noreturn]] static void fatal(const std::string& s) { if (!inRun || gErrors.size() >= maxErrors) fatalHard(s); gErrors.push_back(s); throw PathAbort{ "error" }; }

// ------------------------------------------------------------------ expressions
static inline Z3_ast keep(Z3_ast a) { Z3_inc_ref(C, a); return a; }
static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sextw(u64 v, unsigned w) { if (w >= 64) return (i64)v; u64 m = 1ull << (w - 1); v &= maskw(w); return (i64)((v ^ m) - m); }

struct Val { uint16_t w = 0; bool sym = false; u64 c = 0; Z3_ast e = nullptr; };
static inline Val cv(unsigned w, u64 c) { Val v; v.w = w; v.c = c & maskw(w); return v; }

static std::unordered_map<unsigned, Z3_sort> bvSorts;
static Z3_sort bvSort(unsigned w) { auto& s = bvSorts[w]; if (!s) { s = Z3_mk_bv_sort(C, w); Z3_inc_ref(C, (Z3_ast)s); } return s; }
static std::map<std::pair<unsigned, u64>, Z3_ast> numCache;
static Z3_ast bvnum(unsigned w, u64 c)
{
	auto& a = numCache[{w, c}];
	if (!a) a = keep(Z3_mk_unsigned_int64(C, c, bvSort(w)));
	return a;
}
static Z3_ast zTrue, zFalse;

static Z3_ast toE(const Val& v)
{
	if (v.sym) return v.e;
	if (v.w == 1) return v.c ? zTrue : zFalse;
	return bvnum(v.w, v.c);
}
static Z3_ast toBV(const Val& v)
{
	if (v.w != 1) return toE(v);
	if (!v.sym) return bvnum(1, v.c);
	return keep(Z3_mk_ite(C, v.e, bvnum(1, 1), bvnum(1, 0)));
}
static Val fromE(Z3_ast e, unsigned w)
{
	Val v; v.w = w;
	if (w == 1) {
		Z3_lbool b = Z3_get_bool_value(C, e);
		if (b != Z3_L_UNDEF) { v.c = b == Z3_L_TRUE; return v; }
	} else if (w <= 64 && Z3_get_ast_kind(C, e) == Z3_NUMERAL_AST) {
		uint64_t u; if (Z3_get_numeral_uint64(C, e, &u)) { v.c = u; return v; }
	}
	v.sym = true; v.e = e; return v;
}
static Val mkE(Z3_ast e, unsigned w) { return fromE(keep(e), w); }
static Val simp(const Val& v) { if (!v.sym) return v; return mkE(Z3_simplify(C, v.e), v.w); }

// arithmetic kept abstract: the operation becomes an uninterpreted function of its operands (what is proved for
// every such function holds for the real one); a failed obligation is decided again with the real operation
struct AbsFn { Z3_func_decl f; Z3_ast body; };
static std::map<std::string, AbsFn> absFns;
template<class F> static Z3_ast abstractApp(const char* name, unsigned w, unsigned rw, const std::vector<Z3_ast>& args, bool commut, F real)
{
	usesArr = true;
	std::string key = std::string(name) + std::to_string(w) + "_" + std::to_string(rw);
	AbsFn& d = absFns[key];
	if (!d.f) {
		std::vector<Z3_sort> dom(args.size(), bvSort(w));
		d.f = Z3_mk_func_decl(C, Z3_mk_string_symbol(C, key.c_str()), args.size(), dom.data(), bvSort(rw)); Z3_inc_ref(C, Z3_func_decl_to_ast(C, d.f));
		std::vector<Z3_ast> v; for (unsigned i = 0; i < args.size(); i++) v.push_back(keep(Z3_mk_bound(C, i, bvSort(w))));
		d.body = keep(real(v));
	}
	std::vector<Z3_ast> a = args;
	if (commut && Z3_get_ast_id(C, a[0]) > Z3_get_ast_id(C, a[1])) std::swap(a[0], a[1]);
	return Z3_mk_app(C, d.f, a.size(), a.data());
}
static Z3_ast concreteArith(Z3_ast e)
{
	std::vector<Z3_func_decl> f; std::vector<Z3_ast> b; for (auto& k : absFns) { f.push_back(k.second.f); b.push_back(k.second.body); }
	return keep(Z3_substitute_funs(C, e, f.size(), f.data(), b.data()));
}
static int freshCtr = 0;
static Val freshVal(const std::string& base, unsigned w)
{
	std::string n = base + "!" + std::to_string(freshCtr++);
	Z3_ast e = Z3_mk_const(C, Z3_mk_string_symbol(C, n.c_str()), w == 1 ? Z3_mk_bool_sort(C) : bvSort(w));
	return mkE(e, w);
}
static Z3_decl_kind declKind(Z3_ast e)
{
	if (Z3_get_ast_kind(C, e) != Z3_APP_AST) return Z3_OP_UNINTERPRETED;
	return Z3_get_decl_kind(C, Z3_get_app_decl(C, Z3_to_app(C, e)));
}

static Val vExtract(const Val& a, unsigned hi, unsigned lo)
{
	unsigned w = hi - lo + 1;
	if (!a.sym) { if (a.w <= 64) return cv(w, a.c >> lo); }
	if (lo == 0 && w == a.w) return a;
	if (a.sym && a.w > 1) {
		Z3_app ap = Z3_get_ast_kind(C, a.e) == Z3_APP_AST ? Z3_to_app(C, a.e) : nullptr;
		if (ap) {
			auto k = Z3_get_decl_kind(C, Z3_get_app_decl(C, ap));
			if ((k == Z3_OP_ZERO_EXT || k == Z3_OP_SIGN_EXT)) {
				Z3_ast in = Z3_get_app_arg(C, ap, 0);
				unsigned iw = Z3_get_bv_sort_size(C, Z3_get_sort(C, in));
				if (hi < iw) return vExtract(mkE(in, iw), hi, lo);
				if (k == Z3_OP_ZERO_EXT && lo >= iw) return cv(w, 0);
			}
			if (k == Z3_OP_CONCAT && Z3_get_app_num_args(C, ap) == 2) {
				Z3_ast h = Z3_get_app_arg(C, ap, 0), l = Z3_get_app_arg(C, ap, 1);
				unsigned lw = Z3_get_bv_sort_size(C, Z3_get_sort(C, l)), hw = Z3_get_bv_sort_size(C, Z3_get_sort(C, h));
				if (hi < lw) return vExtract(mkE(l, lw), hi, lo);
				if (lo >= lw) return vExtract(mkE(h, hw), hi - lw, lo - lw);
			}
		}
	}
	Z3_ast src = toE(a);
	Z3_ast x = Z3_mk_extract(C, hi, lo, src);
	if (w == 1) { keep(x); return mkE(Z3_mk_eq(C, x, bvnum(1, 1)), 1); }
	return mkE(x, w);
}
static Val vConcat(const Val& hi, const Val& lo)
{
	unsigned w = hi.w + lo.w;
	if (!hi.sym && !lo.sym && w <= 64) return cv(w, (hi.c << lo.w) | lo.c);
	return mkE(Z3_mk_concat(C, toBV(hi), toBV(lo)), w);
}
static Val vZext(const Val& a, unsigned w)
{
	if (w == a.w) return a;
	if (!a.sym && w <= 64) return cv(w, a.c);
	if (a.w == 1) {
		if (!a.sym) return mkE(bvnum(w, a.c), w);
		return mkE(Z3_mk_ite(C, a.e, bvnum(w, 1), bvnum(w, 0)), w);
	}
	if (!a.sym && a.c == 0) return mkE(bvnum(w, 0), w);
	return mkE(Z3_mk_zero_ext(C, w - a.w, toE(a)), w);
}
static Val vSext(const Val& a, unsigned w)
{
	if (w == a.w) return a;
	if (!a.sym && w <= 64) return cv(w, (u64)sextw(a.c, a.w));
	if (a.w == 1) {
		Z3_ast ones = w <= 64 ? bvnum(w, maskw(w)) : keep(Z3_mk_bvnot(C, bvnum(w, 0)));
		if (!a.sym) return mkE(a.c ? ones : bvnum(w, 0), w);
		return mkE(Z3_mk_ite(C, a.e, ones, bvnum(w, 0)), w);
	}
	return mkE(Z3_mk_sign_ext(C, w - a.w, toE(a)), w);
}
static Val vTrunc(const Val& a, unsigned w)
{
	if (w == a.w) return a;
	if (!a.sym) return cv(w, a.c);
	if (w == 1) {
		// common: trunc(zext(bool))
		if (declKind(a.e) == Z3_OP_ITE) {
			Z3_app ap = Z3_to_app(C, a.e);
			Z3_ast t = Z3_get_app_arg(C, ap, 1), f = Z3_get_app_arg(C, ap, 2);
			if (Z3_get_ast_kind(C, t) == Z3_NUMERAL_AST && Z3_get_ast_kind(C, f) == Z3_NUMERAL_AST) {
				uint64_t a1, a2;
				if (Z3_get_numeral_uint64(C, t, &a1) && Z3_get_numeral_uint64(C, f, &a2)) {
					Z3_ast cond = Z3_get_app_arg(C, ap, 0);
					if ((a1 & 1) && !(a2 & 1)) return mkE(cond, 1);
					if (!(a1 & 1) && (a2 & 1)) return mkE(Z3_mk_not(C, cond), 1);
				}
			}
		}
	}
	return vExtract(a, w - 1, 0);
}
static Val vNot1(const Val& a) { if (!a.sym) return cv(1, !a.c); return mkE(Z3_mk_not(C, a.e), 1); }
static Val vAnd1(const Val& a, const Val& b)
{
	if (!a.sym) return a.c ? b : a;
	if (!b.sym) return b.c ? a : b;
	Z3_ast x[2] = { a.e, b.e }; return mkE(Z3_mk_and(C, 2, x), 1);
}
static Val vOr1(const Val& a, const Val& b)
{
	if (!a.sym) return a.c ? a : b;
	if (!b.sym) return b.c ? b : a;
	Z3_ast x[2] = { a.e, b.e }; return mkE(Z3_mk_or(C, 2, x), 1);
}
static Val vIte(const Val& c, const Val& a, const Val& b)
{
	if (!c.sym) return c.c ? a : b;
	if (a.sym == b.sym && ((a.sym && a.e == b.e) || (!a.sym && a.c == b.c && a.w <= 64))) return a;
	if (a.w == 1) {
		if (!a.sym && !b.sym) return a.c ? c : vNot1(c);
		if (!a.sym) return a.c ? vOr1(c, b) : vAnd1(vNot1(c), b);
		if (!b.sym) return b.c ? vOr1(vNot1(c), a) : vAnd1(c, a);
	}
	return mkE(Z3_mk_ite(C, c.e, toE(a), toE(b)), a.w);
}
// if both branches of an ite are constants then comparisons against constants fold
static bool iteConsts(const Val& a, Z3_ast& cond, u64& t, u64& f)
{
	if (!a.sym || a.w > 64 || a.w == 1 || declKind(a.e) != Z3_OP_ITE) return false;
	Z3_app ap = Z3_to_app(C, a.e);
	Z3_ast te = Z3_get_app_arg(C, ap, 1), fe = Z3_get_app_arg(C, ap, 2);
	uint64_t x, y;
	if (Z3_get_ast_kind(C, te) != Z3_NUMERAL_AST || Z3_get_ast_kind(C, fe) != Z3_NUMERAL_AST) return false;
	if (!Z3_get_numeral_uint64(C, te, &x) || !Z3_get_numeral_uint64(C, fe, &y)) return false;
	cond = Z3_get_app_arg(C, ap, 0); t = x; f = y; return true;
}
static bool icmpC(CmpInst::Predicate p, u64 a, u64 b, unsigned w)
{
	i64 sa = sextw(a, w), sb = sextw(b, w);
	switch (p) {
	case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b;
	case CmpInst::ICMP_UGT: return a > b; case CmpInst::ICMP_UGE: return a >= b;
	case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_ULE: return a <= b;
	case CmpInst::ICMP_SGT: return sa > sb; case CmpInst::ICMP_SGE: return sa >= sb;
	case CmpInst::ICMP_SLT: return sa < sb; case CmpInst::ICMP_SLE: return sa <= sb;
	default: fatal("icmp pred");
	}
}
static Val vIcmp(CmpInst::Predicate p, const Val& a, const Val& b)
{
	if (!a.sym && !b.sym) return cv(1, icmpC(p, a.c, b.c, a.w));
	Z3_ast cond; u64 t, f;
	if (!b.sym && iteConsts(a, cond, t, f)) return vIte(mkE(cond, 1), cv(1, icmpC(p, t, b.c, a.w)), cv(1, icmpC(p, f, b.c, a.w)));
	if (!a.sym && iteConsts(b, cond, t, f)) return vIte(mkE(cond, 1), cv(1, icmpC(p, a.c, t, a.w)), cv(1, icmpC(p, a.c, f, a.w)));
	Z3_ast x = toE(a), y = toE(b), r = nullptr;
	if (a.w == 1) {
		switch (p) {
		case CmpInst::ICMP_EQ: return mkE(Z3_mk_eq(C, x, y), 1);
		case CmpInst::ICMP_NE: return mkE(Z3_mk_xor(C, x, y), 1);
		default: return vIcmp(p, vZext(a, 8), vZext(b, 8)); // only unsigned used on i1
		}
	}
	switch (p) {
	case CmpInst::ICMP_EQ: r = Z3_mk_eq(C, x, y); break;
	case CmpInst::ICMP_NE: r = keep(Z3_mk_eq(C, x, y)); r = Z3_mk_not(C, r); break;
	case CmpInst::ICMP_UGT: r = Z3_mk_bvugt(C, x, y); break; case CmpInst::ICMP_UGE: r = Z3_mk_bvuge(C, x, y); break;
	case CmpInst::ICMP_ULT: r = Z3_mk_bvult(C, x, y); break; case CmpInst::ICMP_ULE: r = Z3_mk_bvule(C, x, y); break;
	case CmpInst::ICMP_SGT: r = Z3_mk_bvsgt(C, x, y); break; case CmpInst::ICMP_SGE: r = Z3_mk_bvsge(C, x, y); break;
	case CmpInst::ICMP_SLT: r = Z3_mk_bvslt(C, x, y); break; case CmpInst::ICMP_SLE: r = Z3_mk_bvsle(C, x, y); break;
	default: fatal("icmp pred");
	}
	return mkE(r, 1);
}
static Val vEq(const Val& a, const Val& b) { return vIcmp(CmpInst::ICMP_EQ, a, b); }

static Val vBin(unsigned op, const Val& a, const Val& b);
static Val boolBin(unsigned op, const Val& a, const Val& b)
{
	switch (op) {
	case Instruction::And: return vAnd1(a, b);
	case Instruction::Or: return vOr1(a, b);
	case Instruction::Xor: case Instruction::Add: case Instruction::Sub:
		if (!a.sym && !b.sym) return cv(1, a.c ^ b.c);
		if (!b.sym) return b.c ? vNot1(a) : a;
		if (!a.sym) return a.c ? vNot1(b) : b;
		return mkE(Z3_mk_xor(C, a.e, b.e), 1);
	case Instruction::Mul: return vAnd1(a, b);
	case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: return a;
	default: fatal("i1 binop");
	}
}
static Val vBin(unsigned op, const Val& a, const Val& b)
{
	unsigned w = a.w;
	if (w == 1) return boolBin(op, a, b);
	if (!a.sym && !b.sym && w <= 64) {
		u64 x = a.c, y = b.c; i64 sx = sextw(x, w), sy = sextw(y, w);
		switch (op) {
		case Instruction::Add: return cv(w, x + y); case Instruction::Sub: return cv(w, x - y);
		case Instruction::Mul: return cv(w, x * y); case Instruction::And: return cv(w, x & y);
		case Instruction::Or: return cv(w, x | y); case Instruction::Xor: return cv(w, x ^ y);
		case Instruction::UDiv: return cv(w, y ? x / y : 0); case Instruction::URem: return cv(w, y ? x % y : 0);
		case Instruction::SDiv: return cv(w, sy == -1 ? (u64)0 - (u64)sx : (u64)(sy ? sx / sy : 0));
		case Instruction::SRem: return cv(w, sy == -1 ? 0 : (u64)(sy ? sx % sy : 0));
		case Instruction::Shl: if (y < w) return cv(w, x << y); break;
		case Instruction::LShr: if (y < w) return cv(w, x >> y); break;
		case Instruction::AShr: if (y < w) return cv(w, (u64)(sx >> y)); break;
		}
		return freshVal("poison", w); // shift amount out of range: poison
	}
	// light peepholes
	if (!b.sym && w <= 64) {
		u64 y = b.c;
		switch (op) {
		case Instruction::Add: case Instruction::Sub: case Instruction::Or: case Instruction::Xor:
		case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: if (y == 0) return a; break;
		case Instruction::Mul: if (y == 1) return a; if (y == 0) return b; break;
		case Instruction::And: if (y == 0) return b; if (y == maskw(w)) return a;
			if (((y + 1) & y) == 0) { unsigned n = 64 - __builtin_clzll(y); return vZext(vTrunc(a, n), w); } break;
		}
		if ((op == Instruction::Shl || op == Instruction::LShr || op == Instruction::AShr)) {
			if (y >= w) return freshVal("poison", w);
			if (op == Instruction::Shl) return vConcat(vExtract(a, w - 1 - y, 0), cv(y, 0));
			if (op == Instruction::LShr && w - y > 1) return vZext(vExtract(a, w - 1, y), w);
			if (op == Instruction::AShr && w - y > 1) return vSext(vExtract(a, w - 1, y), w);
		}
	}
	if (!a.sym && w <= 64) {
		u64 x = a.c;
		switch (op) {
		case Instruction::Add: case Instruction::Or: case Instruction::Xor: if (x == 0) return b; break;
		case Instruction::Mul: if (x == 1) return b; if (x == 0) return a; break;
		case Instruction::And: return vBin(op, b, a);
		case Instruction::Shl: case Instruction::LShr: if (x == 0) return a; break; // in-range assumption irrelevant: poison refined to 0
		}
	}
	Z3_ast x = toE(a), y = toE(b), r = nullptr;
	if (abstractArith && w >= 32 && (op == Instruction::Mul ? a.sym && b.sym : op == Instruction::UDiv || op == Instruction::URem || op == Instruction::SDiv || op == Instruction::SRem)) {
		using V = std::vector<Z3_ast>;
		switch (op) {
		case Instruction::Mul: return mkE(abstractApp("mul", w, w, V{ x, y }, true, [](V& v) { return Z3_mk_bvmul(C, v[0], v[1]); }), w);
		case Instruction::UDiv: return mkE(abstractApp("udiv", w, w, V{ x, y }, false, [](V& v) { return Z3_mk_bvudiv(C, v[0], v[1]); }), w);
		case Instruction::URem: return mkE(abstractApp("urem", w, w, V{ x, y }, false, [](V& v) { return Z3_mk_bvurem(C, v[0], v[1]); }), w);
		case Instruction::SDiv: return mkE(abstractApp("sdiv", w, w, V{ x, y }, false, [](V& v) { return Z3_mk_bvsdiv(C, v[0], v[1]); }), w);
		default: return mkE(abstractApp("srem", w, w, V{ x, y }, false, [](V& v) { return Z3_mk_bvsrem(C, v[0], v[1]); }), w);
		}
	}
	switch (op) {
	case Instruction::Add: r = Z3_mk_bvadd(C, x, y); break; case Instruction::Sub: r = Z3_mk_bvsub(C, x, y); break;
	case Instruction::Mul: r = Z3_mk_bvmul(C, x, y); break; case Instruction::And: r = Z3_mk_bvand(C, x, y); break;
	case Instruction::Or: r = Z3_mk_bvor(C, x, y); break; case Instruction::Xor: r = Z3_mk_bvxor(C, x, y); break;
	case Instruction::UDiv: r = Z3_mk_bvudiv(C, x, y); break; case Instruction::URem: r = Z3_mk_bvurem(C, x, y); break;
	case Instruction::SDiv: r = Z3_mk_bvsdiv(C, x, y); break; case Instruction::SRem: r = Z3_mk_bvsrem(C, x, y); break;
	case Instruction::Shl: r = Z3_mk_bvshl(C, x, y); break; case Instruction::LShr: r = Z3_mk_bvlshr(C, x, y); break;
	case Instruction::AShr: r = Z3_mk_bvashr(C, x, y); break;
	default: fatal("binop");
	}
	if (b.sym && (op == Instruction::Shl || op == Instruction::LShr || op == Instruction::AShr)) {
		// out-of-range amount is poison: nondeterministic
		keep(r);
		Val in = vIcmp(CmpInst::ICMP_ULT, b, w <= 64 ? cv(w, w) : mkE(bvnum(w, w), w));
		if (in.sym) { Val p = freshVal("poison", w); return mkE(Z3_mk_ite(C, in.e, r, p.e), w); }
	}
	return mkE(r, w);
}
static Val vAdd(const Val& a, const Val& b) { return vBin(Instruction::Add, a, b); }

// floating point through z3's FP theory; values travel as IEEE bit patterns
static Z3_sort fpSort(unsigned w) { usesFP = true; static Z3_sort c64 = nullptr, c32 = nullptr; Z3_sort& c = w == 64 ? c64 : c32; if (!c) { c = w == 64 ? Z3_mk_fpa_sort_64(C) : Z3_mk_fpa_sort_32(C); Z3_inc_ref(C, Z3_sort_to_ast(C, c)); } return c; }
static Z3_ast toFP(const Val& v) { return keep(Z3_mk_fpa_to_fp_bv(C, toE(v), fpSort(v.w))); }
static Val fromFP(Z3_ast f, unsigned w) { keep(f); return mkE(Z3_mk_fpa_to_ieee_bv(C, f), w); }
static Z3_ast rne() { return keep(Z3_mk_fpa_rne(C)); }
static double asD(const Val& v) { if (v.w == 64) { double d; memcpy(&d, &v.c, 8); return d; } float f; uint32_t u = v.c; memcpy(&f, &u, 4); return f; }
static Val ofD(double d, unsigned w) { if (w == 64) { u64 u; memcpy(&u, &d, 8); return cv(64, u); } float f = (float)d; uint32_t u; memcpy(&u, &f, 4); return cv(32, u); }

// ------------------------------------------------------------------ memory
struct ByteS { Z3_ast e = nullptr; uint16_t ew = 0; uint8_t idx = 0; };
enum : uint8_t { B_CONC = 0, B_SYM = 1, B_UNINIT = 2 };
struct Obj {
	u64 size = 0; bool ro = false; uint8_t kind = 0; // 0 global 1 stack 2 heap
	std::vector<uint8_t> c, st; std::vector<ByteS> s;
	std::string name;
	void symInit() { if (s.empty()) s.resize(size); }
};
typedef std::shared_ptr<Obj> ObjP;
static const unsigned CH = 256;
struct Chunk { ObjP o[CH]; };

static const u64 OFF0 = 0x1000; // objects start at (id<<32)+OFF0
static inline u64 idOf(u64 addr) { return addr >> 32; }

struct Memory {
	std::vector<std::shared_ptr<Chunk>> ch; u64 next = 16; std::vector<u64> freeIds; u64 live = 0; // bytes of memory the objects of this path need in the verifier, roughly
	Obj* get(u64 id) const { u64 k = id / CH; if (k >= ch.size() || !ch[k]) return nullptr; return ch[k]->o[id % CH].get(); }
	ObjP& slot(u64 id)
	{
		u64 k = id / CH; if (k >= ch.size()) ch.resize(k + 1);
		if (!ch[k]) ch[k] = std::make_shared<Chunk>(); else if (ch[k].use_count() > 1) ch[k] = std::make_shared<Chunk>(*ch[k]);
		return ch[k]->o[id % CH];
	}
	Obj* wr(u64 id) { ObjP& p = slot(id); if (p.use_count() > 1) p = std::make_shared<Obj>(*p); return p.get(); }
	u64 alloc(u64 size, uint8_t kind, bool init0, bool stackReuse)
	{
		u64 id; if (stackReuse && !freeIds.empty()) { id = freeIds.back(); freeIds.pop_back(); } else id = next++;
		auto o = std::make_shared<Obj>(); o->size = size; o->kind = kind; o->c.assign(size, 0); o->st.assign(size, init0 ? B_CONC : B_UNINIT);
		slot(id) = o; live += 2 * size + 256; return (id << 32) + OFF0;
	}
	void release(u64 id, bool reuse) { if (Obj* o = get(id)) live -= 2 * o->size + 256; slot(id) = nullptr; if (reuse) freeIds.push_back(id); }
};

// ------------------------------------------------------------------ program
struct RV { Val v; std::shared_ptr<std::vector<RV>> agg; };
struct DI; struct FInfo;
struct Opnd { bool isC; int slot; RV c; };
struct DI { const Instruction* I; std::vector<Opnd> ops; int dst = -1; u64 gepC = 0; std::vector<std::pair<int, u64>> gepV; const Function* callee = nullptr; unsigned w = 0; };
struct BInfo { const BasicBlock* bb; std::vector<DI> ins; int idx; unsigned nphi = 0; };
struct FInfo { const Function* F; std::unordered_map<const Value*, int> slots; int n = 0; std::vector<BInfo> blocks; std::unordered_map<const BasicBlock*, int> bidx; };

static Module* M; static const DataLayout* DL;
static std::unordered_map<const Function*, std::unique_ptr<FInfo>> finfo;
static std::unordered_map<const GlobalValue*, u64> gaddr;
static std::unordered_map<u64, const Function*> faddr;
static std::map<std::string, std::string> stubOf; // mangled -> stub mangled
static std::set<std::string> stubsUsed, bodiesUsed, modelsUsed;

static unsigned tyW(Type* t) { if (t->isPointerTy()) return 64; if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32; if (t->isHalfTy()) return 16; if (t->isX86_FP80Ty()) return 80; return 0; }

static RV constRV(const Constant* k);
static RV undefRV(Type* t, bool zero)
{
	RV r;
	if (t->isStructTy()) { r.agg = std::make_shared<std::vector<RV>>(); for (unsigned i = 0; i < t->getStructNumElements(); i++) r.agg->push_back(undefRV(t->getStructElementType(i), zero)); return r; }
	if (t->isArrayTy()) { r.agg = std::make_shared<std::vector<RV>>(); for (unsigned i = 0; i < t->getArrayNumElements(); i++) r.agg->push_back(undefRV(t->getArrayElementType(), zero)); return r; }
	if (auto* vt = dyn_cast<FixedVectorType>(t)) { r.agg = std::make_shared<std::vector<RV>>(); for (unsigned i = 0; i < vt->getNumElements(); i++) r.agg->push_back(undefRV(vt->getElementType(), zero)); return r; }
	unsigned w = tyW(t); if (!w) { r.v = cv(1, 0); return r; }
	if (zero) r.v = w <= 64 ? cv(w, 0) : mkE(bvnum(w, 0), w); else r.v = freshVal("undef", w);
	return r;
}
static u64 constAddr(const Constant* k)
{
	if (auto* gv = dyn_cast<GlobalValue>(k)) {
		if (auto* ga = dyn_cast<GlobalAlias>(gv)) return constAddr(ga->getAliasee());
		auto it = gaddr.find(gv); if (it == gaddr.end()) fatal("no address for " + gv->getName().str()); return it->second;
	}
	fatal("constAddr");
}
static RV constRV(const Constant* k)
{
	RV r; Type* t = k->getType();
	if (auto* ci = dyn_cast<ConstantInt>(k)) {
		unsigned w = tyW(t);
		if (w <= 64) r.v = cv(w, ci->getZExtValue());
		else { SmallString<64> s; ci->getValue().toStringUnsigned(s, 10); r.v = mkE(Z3_mk_numeral(C, s.c_str(), bvSort(w)), w); }
		return r;
	}
	if (auto* cf = dyn_cast<ConstantFP>(k)) { r.v = cv(tyW(t), cf->getValueAPF().bitcastToAPInt().getLimitedValue()); if (tyW(t) > 64) { SmallString<64> s; cf->getValueAPF().bitcastToAPInt().toStringUnsigned(s,10); r.v = mkE(Z3_mk_numeral(C, s.c_str(), bvSort(tyW(t))), tyW(t)); } return r; }
	if (isa<ConstantPointerNull>(k)) { r.v = cv(64, 0); return r; }
	if (isa<UndefValue>(k)) return undefRV(t, true);
	if (isa<ConstantAggregateZero>(k)) return undefRV(t, true);
	if (auto* cd = dyn_cast<ConstantDataSequential>(k)) { r.agg = std::make_shared<std::vector<RV>>(); for (unsigned i = 0; i < cd->getNumElements(); i++) r.agg->push_back(constRV(cd->getElementAsConstant(i))); return r; }
	if (isa<ConstantAggregate>(k)) { r.agg = std::make_shared<std::vector<RV>>(); for (unsigned i = 0; i < k->getNumOperands(); i++) r.agg->push_back(constRV(cast<Constant>(k->getOperand(i)))); return r; }
	if (isa<GlobalValue>(k)) { r.v = cv(64, constAddr(k)); return r; }
	if (auto* ce = dyn_cast<ConstantExpr>(k)) {
		switch (ce->getOpcode()) {
		case Instruction::GetElementPtr: {
			APInt off(64, 0); if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) fatal("const gep");
			Val b = constRV(cast<Constant>(ce->getOperand(0))).v; r.v = vAdd(b, cv(64, off.getZExtValue())); return r; }
		case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: {
			Val b = constRV(cast<Constant>(ce->getOperand(0))).v; unsigned w = tyW(t); r.v = w < b.w ? vTrunc(b, w) : vZext(b, w); return r; }
		case Instruction::Trunc: { r.v = vTrunc(constRV(cast<Constant>(ce->getOperand(0))).v, tyW(t)); return r; }
		case Instruction::Add: case Instruction::Sub: {
			r.v = vBin(ce->getOpcode(), constRV(cast<Constant>(ce->getOperand(0))).v, constRV(cast<Constant>(ce->getOperand(1))).v); return r; }
		case Instruction::ICmp: { r.v = vIcmp((CmpInst::Predicate)ce->getPredicate(), constRV(cast<Constant>(ce->getOperand(0))).v, constRV(cast<Constant>(ce->getOperand(1))).v); return r; }
		default: break;
		}
	}
	std::string s; raw_string_ostream os(s); k->print(os); fatal("constant: " + os.str().substr(0, 200));
}

static FInfo* getF(const Function* F)
{
	auto& p = finfo[F]; if (p) return p.get();
	p = std::make_unique<FInfo>(); FInfo* f = p.get(); f->F = F;
	for (auto& a : F->args()) f->slots[&a] = f->n++;
	for (auto& bb : *F) for (auto& I : bb) if (!I.getType()->isVoidTy()) f->slots[&I] = f->n++;
	int bi = 0; for (auto& bb : *F) f->bidx[&bb] = bi++;
	f->blocks.resize(bi); bi = 0;
	for (auto& bb : *F) {
		BInfo& B = f->blocks[bi]; B.bb = &bb; B.idx = bi++;
		for (auto& I : bb) {
			if (isa<DbgInfoIntrinsic>(I)) continue;
			B.ins.emplace_back(); DI& d = B.ins.back(); d.I = &I;
			if (isa<PHINode>(I)) B.nphi++;
			if (!I.getType()->isVoidTy()) { d.dst = f->slots[&I]; d.w = tyW(I.getType()); }
			for (auto& u : I.operands()) {
				Opnd o; o.isC = true; o.slot = -1;
				const Value* v = u.get();
				if (isa<BasicBlock>(v) || isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) { d.ops.push_back(o); continue; }
				if (auto* k = dyn_cast<Constant>(v)) { if (auto* fn = dyn_cast<Function>(k)) { o.c.v = cv(64, gaddr[fn]); } else o.c = constRV(k); }
				else { o.isC = false; o.slot = f->slots.at(v); }
				d.ops.push_back(o);
			}
			if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
				unsigned oi = 1;
				for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it, ++oi) {
					if (StructType* st = it.getStructTypeOrNull()) { d.gepC += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(it.getOperand())->getZExtValue()); }
					else { u64 sz = DL->getTypeAllocSize(it.getIndexedType()); if (auto* k = dyn_cast<ConstantInt>(it.getOperand())) d.gepC += (u64)(k->getSExtValue()) * sz; else d.gepV.push_back({ (int)oi, sz }); }
				}
			}
			if (auto* cb = dyn_cast<CallBase>(&I)) d.callee = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
		}
	}
	return f;
}

struct Frame { FInfo* f; std::vector<RV> r; int bb = 0, prev = -1; unsigned ip = 0; std::vector<u64> allocas; const DI* callDI = nullptr; };
struct AnyRec { std::string name; unsigned w; Val v; };
struct State {
	std::vector<Frame> fr; Memory mem; std::vector<Z3_ast> pc; Z3_model model = nullptr;
	std::vector<AnyRec> anys; std::vector<AnyRec> notes; std::unordered_map<Z3_ast, u64> conc; u64 steps = 0; std::vector<std::string> trace;
	std::map<std::string,int> anyCount;
};

// ------------------------------------------------------------------ results
struct Obl { u64 count = 0, disch = 0, failed = 0, unknown = 0, triv = 0; };
struct Failure { std::string label; std::vector<std::array<std::string, 3>> vals, notes; std::string where; };
static std::map<std::string, Obl> obls; static std::vector<Failure> failures; static std::map<std::string, u64> reached;
static u64 nPaths = 0, nSteps = 0, nQueries = 0, nForks = 0, nInfeasible = 0, nExc = 0; static double solverTime = 0; static std::string entryName, outFile; static u64 maxSteps = 400000000, maxPaths = 2000000; static unsigned queryMs = 60000, incMs = 1000;
static u64 maxPathSteps = 60000000, memLimit = 1ull << 30, nFail = 0, nEndless = 0; static double deadlineS = 0;
static u64 shardK = 0, shardN = 1; static std::string smtDir; static u64 smtCount = 0;
static std::chrono::steady_clock::time_point t0;

static std::string jesc(const std::string& s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
static void emit()
{
	FILE* f = outFile.empty() ? stdout : fopen(outFile.c_str(), "w"); if (!f) f = stdout;
	fprintf(f, "{\"entry\":\"%s\",\"obligations\":{", jesc(entryName).c_str());
	bool first = true;
	for (auto& o : obls) { fprintf(f, "%s\"%s\":{\"count\":%lu,\"discharged\":%lu,\"trivial\":%lu,\"failed\":%lu,\"unknown\":%lu}", first ? "" : ",", jesc(o.first).c_str(), o.second.count, o.second.disch, o.second.triv, o.second.failed, o.second.unknown); first = false; }
	fprintf(f, "},\"reached\":{"); first = true;
	for (auto& o : reached) { fprintf(f, "%s\"%s\":%lu", first ? "" : ",", jesc(o.first).c_str(), o.second); first = false; }
	fprintf(f, "},\"failures\":["); first = true;
	for (auto& o : failures) {
		fprintf(f, "%s{\"label\":\"%s\",\"where\":\"%s\",\"vals\":[", first ? "" : ",", jesc(o.label).c_str(), jesc(o.where).c_str()); first = false;
		bool f2 = true; for (auto& v : o.vals) { fprintf(f, "%s[\"%s\",\"%s\",\"%s\"]", f2 ? "" : ",", jesc(v[0]).c_str(), v[1].c_str(), v[2].c_str()); f2 = false; }
		fprintf(f, "],\"notes\":["); f2 = true; for (auto& v : o.notes) { fprintf(f, "%s[\"%s\",\"%s\",\"%s\"]", f2 ? "" : ",", jesc(v[0]).c_str(), v[1].c_str(), v[2].c_str()); f2 = false; }
		fprintf(f, "]}");
	}
	auto list = [&](const char* n, const std::set<std::string>& s) { fprintf(f, ",\"%s\":[", n); bool x = true; for (auto& e : s) { fprintf(f, "%s\"%s\"", x ? "" : ",", jesc(e).c_str()); x = false; } fprintf(f, "]"); };
	fprintf(f, "]"); list("stubs", stubsUsed); list("bodies", bodiesUsed); list("models", modelsUsed);
	fprintf(f, ",\"errors\":["); first = true; for (auto& e : gErrors) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(e).c_str()); first = false; }
	double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
	fprintf(f, "],\"paths\":%lu,\"steps\":%lu,\"queries\":%lu,\"forks\":%lu,\"solver_s\":%.3f,\"wall_s\":%.3f}\n", nPaths, nSteps, nQueries, nForks, solverTime, wall);
	if (f != stdout) fclose(f); else fflush(f);
}
static void emitAndExit(int code) { emit(); fflush(stdout); _exit(failures.empty() ? code : 1); }

// ------------------------------------------------------------------ solver
static Z3_solver S = nullptr; static std::vector<Z3_ast> stackPC; static bool solverGeneric = false;
static void newSolver()
{
	if (S) Z3_solver_dec_ref(C, S);
	solverGeneric = usesFP || usesArr;
	S = solverGeneric ? Z3_mk_solver(C) : Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_BV"));
	Z3_solver_inc_ref(C, S);
	Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p); Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), usesFP || usesArr ? queryMs : std::min(queryMs, incMs));
	Z3_solver_set_params(C, S, p); Z3_params_dec_ref(C, p); stackPC.clear();
}
static void sync(const State& st)
{
	if (!S || solverGeneric != (usesFP || usesArr)) newSolver();
	size_t k = 0; while (k < stackPC.size() && k < st.pc.size() && stackPC[k] == st.pc[k]) k++;
	if (k < stackPC.size()) { Z3_solver_pop(C, S, stackPC.size() - k); stackPC.resize(k); }
	for (; k < st.pc.size(); k++) { Z3_solver_push(C, S); Z3_solver_assert(C, S, st.pc[k]); stackPC.push_back(st.pc[k]); }
}
// 1 sat, 0 unsat, -1 unknown
static Z3_lbool oneShot(const State& st, Z3_ast extra, Z3_model* m)
{
	Z3_solver s;
	if (usesFP || usesArr) s = Z3_mk_solver(C);
	else { Z3_tactic t = Z3_mk_tactic(C, "qfbv"); Z3_tactic_inc_ref(C, t); s = Z3_mk_solver_from_tactic(C, t); }
	Z3_solver_inc_ref(C, s);
	Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p); Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), queryMs * 4); Z3_solver_set_params(C, s, p);
	for (auto a : st.pc) Z3_solver_assert(C, s, a);
	if (extra) Z3_solver_assert(C, s, extra);
	Z3_lbool r = Z3_solver_check(C, s);
	if (r == Z3_L_TRUE && m) { *m = Z3_solver_get_model(C, s); Z3_model_inc_ref(C, *m); }
	Z3_solver_dec_ref(C, s); return r;
}
// the same query with the abstracted operations put back
static Z3_lbool realQuery(const State& st, Z3_ast extra, Z3_model* m)
{
	auto a = std::chrono::steady_clock::now(); nQueries++;
	Z3_solver s = Z3_mk_solver(C); Z3_solver_inc_ref(C, s);
	Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p); Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), 10000); Z3_solver_set_params(C, s, p);
	for (auto q : st.pc) Z3_solver_assert(C, s, concreteArith(q));
	if (extra) Z3_solver_assert(C, s, concreteArith(extra));
	Z3_lbool r = Z3_solver_check(C, s);
	if (r == Z3_L_TRUE && m) { *m = Z3_solver_get_model(C, s); Z3_model_inc_ref(C, *m); }
	Z3_solver_dec_ref(C, s);
	solverTime += std::chrono::duration<double>(std::chrono::steady_clock::now() - a).count();
	return r;
}
// Linear integer view of a query: bit-vector sums whose intervals show that nothing wraps are the sums of integers.
// Assertions that do not translate are dropped, so "unsat" is final; "sat" is confirmed on the bit-vector query.
struct LinT { Z3_ast e = nullptr; __int128 lo = 0, hi = 0; };
struct Lin
{
	std::map<unsigned, LinT> memo; std::map<unsigned, Z3_ast> bmemo; std::vector<std::pair<Z3_ast, Z3_ast>> leaves; std::vector<Z3_ast> side; bool ok = true;
	Z3_sort I = Z3_mk_int_sort(C);
	Z3_ast num(__int128 v) { bool n = v < 0; unsigned __int128 u = n ? -(unsigned __int128) v : v; std::string t; do { t.insert(t.begin(), char('0' + (int) (u % 10))); u /= 10; } while (u); if (n) t = "-" + t; return keep(Z3_mk_numeral(C, t.c_str(), I)); }
	LinT leaf(Z3_ast t, unsigned w) { if (w > 64) { ok = false; return LinT{ num(0), 0, 0 }; } Z3_ast v = keep(Z3_mk_fresh_const(C, "lin", I)); LinT r{ v, 0, ((__int128) 1 << w) - 1 }; Z3_ast b[2] = { keep(Z3_mk_ge(C, v, num(0))), keep(Z3_mk_le(C, v, num(r.hi))) }; side.push_back(keep(Z3_mk_and(C, 2, b))); leaves.push_back({ t, v }); return r; }
	LinT term(Z3_ast t)
	{
		unsigned id = Z3_get_ast_id(C, t); auto it = memo.find(id); if (it != memo.end()) return it->second;
		LinT r = term1(t); return memo[id] = r;
	}
	LinT term1(Z3_ast t)
	{
		unsigned w = Z3_get_bv_sort_size(C, Z3_get_sort(C, t));
		if (Z3_get_ast_kind(C, t) == Z3_NUMERAL_AST)
		{
			if (w > 64) return leaf(t, w);
			uint64_t v; if (!Z3_get_numeral_uint64(C, t, &v)) return leaf(t, w);
			__int128 x = v; if (v >> (w - 1)) x -= (__int128) 1 << w; return LinT{ num(x), x, x };
		}
		if (Z3_get_ast_kind(C, t) != Z3_APP_AST || w > 64) return leaf(t, w);
		Z3_app a = Z3_to_app(C, t); unsigned n = Z3_get_app_num_args(C, a); Z3_decl_kind k = Z3_get_decl_kind(C, Z3_get_app_decl(C, a));
		const __int128 LIM = (__int128) 1 << 90; LinT r;
		auto arg = [&](unsigned i) { return Z3_get_app_arg(C, a, i); };
		if (k == Z3_OP_BADD || k == Z3_OP_BSUB)
		{
			r = term(arg(0));
			for (unsigned i = 1; i < n; i++) { LinT b = term(arg(i)); Z3_ast x[2] = { r.e, b.e }; if (k == Z3_OP_BADD) r = LinT{ keep(Z3_mk_add(C, 2, x)), r.lo + b.lo, r.hi + b.hi }; else r = LinT{ keep(Z3_mk_sub(C, 2, x)), r.lo - b.hi, r.hi - b.lo }; }
		}
		else if (k == Z3_OP_BNEG) { LinT b = term(arg(0)); r = LinT{ keep(Z3_mk_unary_minus(C, b.e)), -b.hi, -b.lo }; }
		else if (k == Z3_OP_BMUL && n == 2)
		{
			LinT x = term(arg(0)), y = term(arg(1)); if (y.lo == y.hi) std::swap(x, y);
			if (x.lo != x.hi || x.lo > (1ll << 20) || x.lo < -(1ll << 20)) return leaf(t, w);
			Z3_ast m[2] = { x.e, y.e }; __int128 p = x.lo * y.lo, q = x.lo * y.hi; r = LinT{ keep(Z3_mk_mul(C, 2, m)), std::min(p, q), std::max(p, q) };
		}
		else if (k == Z3_OP_CONCAT && n == 2)
		{
			uint64_t z; Z3_ast h = arg(0), l = arg(1); unsigned wl = Z3_get_bv_sort_size(C, Z3_get_sort(C, l));
			if (Z3_get_ast_kind(C, h) != Z3_NUMERAL_AST || !Z3_get_numeral_uint64(C, h, &z) || z) return leaf(t, w);
			r = term(l); if (r.lo < 0 || r.hi >= ((__int128) 1 << wl)) return leaf(t, w);
		}
		else if (k == Z3_OP_ITE) { Z3_ast c = boolean(arg(0)); if (!c) return leaf(t, w); LinT x = term(arg(1)), y = term(arg(2)); r = LinT{ keep(Z3_mk_ite(C, c, x.e, y.e)), std::min(x.lo, y.lo), std::max(x.hi, y.hi) }; }
		else return leaf(t, w);
		if (r.lo < -LIM || r.hi > LIM) return leaf(t, w);
		return r;
	}
	Z3_ast boolean(Z3_ast t)
	{
		unsigned id = Z3_get_ast_id(C, t); auto it = bmemo.find(id); if (it != bmemo.end()) return it->second;
		return bmemo[id] = boolean1(t);
	}
	Z3_ast boolean1(Z3_ast t)
	{
		if (Z3_get_ast_kind(C, t) != Z3_APP_AST) return nullptr;
		Z3_app a = Z3_to_app(C, t); unsigned n = Z3_get_app_num_args(C, a); Z3_decl_kind k = Z3_get_decl_kind(C, Z3_get_app_decl(C, a));
		auto arg = [&](unsigned i) { return Z3_get_app_arg(C, a, i); };
		std::vector<Z3_ast> x;
		switch (k)
		{
		case Z3_OP_TRUE: case Z3_OP_FALSE: return t;
		case Z3_OP_AND: case Z3_OP_OR: case Z3_OP_NOT: case Z3_OP_IMPLIES: case Z3_OP_XOR:
			for (unsigned i = 0; i < n; i++) { Z3_ast b = boolean(arg(i)); if (!b) return nullptr; x.push_back(b); }
			return keep(k == Z3_OP_AND ? Z3_mk_and(C, n, x.data()) : k == Z3_OP_OR ? Z3_mk_or(C, n, x.data()) : k == Z3_OP_NOT ? Z3_mk_not(C, x[0]) : k == Z3_OP_IMPLIES ? Z3_mk_implies(C, x[0], x[1]) : Z3_mk_xor(C, x[0], x[1]));
		case Z3_OP_ITE: { Z3_ast c = boolean(arg(0)), p = boolean(arg(1)), q = boolean(arg(2)); return c && p && q ? keep(Z3_mk_ite(C, c, p, q)) : nullptr; }
		case Z3_OP_EQ: case Z3_OP_SLEQ: case Z3_OP_SLT: case Z3_OP_SGEQ: case Z3_OP_SGT: case Z3_OP_ULEQ: case Z3_OP_ULT: case Z3_OP_UGEQ: case Z3_OP_UGT:
		{
			Z3_sort so = Z3_get_sort(C, arg(0)); Z3_sort_kind sk = Z3_get_sort_kind(C, so);
			if (sk == Z3_BOOL_SORT) { if (k != Z3_OP_EQ) return nullptr; Z3_ast p = boolean(arg(0)), q = boolean(arg(1)); return p && q ? keep(Z3_mk_iff(C, p, q)) : nullptr; }
			if (sk != Z3_BV_SORT) return nullptr;
			unsigned w = Z3_get_bv_sort_size(C, so); if (w > 64) return nullptr;
			__int128 M = (__int128) 1 << w; LinT p = term(arg(0)), q = term(arg(1));
			if (k == Z3_OP_EQ) return p.hi - q.lo < M && q.hi - p.lo < M ? keep(Z3_mk_eq(C, p.e, q.e)) : nullptr;
			bool sg = k == Z3_OP_SLEQ || k == Z3_OP_SLT || k == Z3_OP_SGEQ || k == Z3_OP_SGT; __int128 lo = sg ? -(M / 2) : 0, hi = lo + M - 1;
			auto fit = [&](LinT& v) { if (v.lo >= lo && v.hi <= hi) return true; if (v.lo == v.hi) { __int128 d = v.lo < lo ? M : -M; v = LinT{ num(v.lo + d), v.lo + d, v.lo + d }; return v.lo >= lo && v.hi <= hi; }
				// one wrap at most: split
				if (v.lo >= lo && v.hi < hi + M) { v = LinT{ keep(Z3_mk_ite(C, keep(Z3_mk_le(C, v.e, num(hi))), v.e, sub(v.e, M))), lo, hi }; return true; }
				if (v.lo >= lo - M && v.hi <= hi) { v = LinT{ keep(Z3_mk_ite(C, keep(Z3_mk_ge(C, v.e, num(lo))), v.e, sub(v.e, -M))), lo, hi }; return true; }
				return false; };
			if (!fit(p) || !fit(q)) return nullptr;
			if (k == Z3_OP_SLEQ || k == Z3_OP_ULEQ) return keep(Z3_mk_le(C, p.e, q.e)); if (k == Z3_OP_SLT || k == Z3_OP_ULT) return keep(Z3_mk_lt(C, p.e, q.e));
			return keep(k == Z3_OP_SGEQ || k == Z3_OP_UGEQ ? Z3_mk_ge(C, p.e, q.e) : Z3_mk_gt(C, p.e, q.e));
		}
		default: return nullptr;
		}
	}
	Z3_ast sub(Z3_ast e, __int128 v) { Z3_ast x[2] = { e, num(v) }; return keep(Z3_mk_sub(C, 2, x)); }
};
static u64 nLinear = 0, nLinearMiss = 0;
static Z3_lbool linearQuery(const State& st, Z3_ast extra, Z3_model* m)
{
	Lin L; std::vector<Z3_ast> as; bool all = true;
	static bool dbg = getenv("DVC_LIN") != nullptr;
	auto put = [&](Z3_ast a) { Z3_ast b = L.boolean(a); if (b) as.push_back(b); else { all = false; if (dbg) fprintf(stderr, "no linear view: %.300s\n", Z3_ast_to_string(C, a)); } };
	for (auto a : st.pc) put(a); if (extra) put(extra);
	if (!L.ok || as.empty()) return Z3_L_UNDEF;
	Z3_solver s = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_LIA")); Z3_solver_inc_ref(C, s);
	Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p); Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), 5000); Z3_solver_set_params(C, s, p); Z3_params_dec_ref(C, p);
	for (auto a : L.side) Z3_solver_assert(C, s, a); for (auto a : as) Z3_solver_assert(C, s, a);
	Z3_lbool r = Z3_solver_check(C, s);
	if (r == Z3_L_TRUE)
	{
		r = Z3_L_UNDEF; Z3_model lm = Z3_solver_get_model(C, s); Z3_model_inc_ref(C, lm);
		Z3_solver b = Z3_mk_solver(C); Z3_solver_inc_ref(C, b);
		for (auto a : st.pc) Z3_solver_assert(C, b, a); if (extra) Z3_solver_assert(C, b, extra);
		for (auto& l : L.leaves) { Z3_ast v; if (!Z3_model_eval(C, lm, l.second, true, &v)) continue; keep(v); Z3_ast bv = keep(Z3_mk_numeral(C, Z3_get_numeral_string(C, v), Z3_get_sort(C, l.first))); Z3_solver_assert(C, b, keep(Z3_mk_eq(C, l.first, bv))); }
		Z3_params q = Z3_mk_params(C); Z3_params_inc_ref(C, q); Z3_params_set_uint(C, q, Z3_mk_string_symbol(C, "timeout"), 5000); Z3_solver_set_params(C, b, q); Z3_params_dec_ref(C, q);
		if (dbg) for (auto& l : L.leaves) fprintf(stderr, "leaf %.200s\n", Z3_ast_to_string(C, l.first));
		if (Z3_solver_check(C, b) == Z3_L_TRUE) { r = Z3_L_TRUE; if (m) { *m = Z3_solver_get_model(C, b); Z3_model_inc_ref(C, *m); } }
		Z3_solver_dec_ref(C, b); Z3_model_dec_ref(C, lm);
	}
	Z3_solver_dec_ref(C, s); if (r != Z3_L_UNDEF) nLinear++; if (dbg) fprintf(stderr, "linear: %d all=%d\n", (int) r, (int) all); return r;
}
static Z3_lbool query(const State& st, Z3_ast extra, Z3_model* m)
{
	auto a = std::chrono::steady_clock::now(); nQueries++;
	if (nLinear > nLinearMiss && !usesFP && !usesArr)
	{
		Z3_lbool l = linearQuery(st, extra, m);
		if (l != Z3_L_UNDEF) { solverTime += std::chrono::duration<double>(std::chrono::steady_clock::now() - a).count(); return l; }
		nLinearMiss++;
	}
	sync(st);
	Z3_solver_push(C, S); if (extra) Z3_solver_assert(C, S, extra);
	Z3_lbool r = Z3_solver_check(C, S);
	if (r == Z3_L_TRUE && m) { *m = Z3_solver_get_model(C, S); Z3_model_inc_ref(C, *m); }
	Z3_solver_pop(C, S, 1);
	if (r == Z3_L_UNDEF && !usesFP && !usesArr) r = linearQuery(st, extra, m);
	if (r == Z3_L_UNDEF) r = oneShot(st, extra, m);
	solverTime += std::chrono::duration<double>(std::chrono::steady_clock::now() - a).count();
	return r;
}
static Val evalIn(Z3_model m, const Val& v)
{
	if (!v.sym) return v;
	Z3_ast out; if (!Z3_model_eval(C, m, v.e, true, &out)) return v; keep(out);
	return mkE(Z3_simplify(C, out), v.w);
}
static Z3_ast negE(Z3_ast e) { return keep(Z3_mk_not(C, e)); }

static std::string hexOf(const Val& v) { char b[40]; if (!v.sym) { snprintf(b, 40, "0x%lx", v.c); return b; } return std::string(Z3_ast_to_string(C, v.e)).substr(0, 60); }
static std::string whereOf(const State& st)
{
	std::string s; int n = 0;
	for (auto it = st.fr.rbegin(); it != st.fr.rend() && n < 12; ++it, ++n) { if (n) s += " < "; s += demangle(it->f->F->getName().str()).substr(0, 120); }
	return s;
}
static void dumpSmt(const State& st, Z3_ast goalNeg, const std::string& label)
{
	if (smtDir.empty()) return;
	std::vector<Z3_ast> as(st.pc);
	std::string fn = smtDir + "/" + entryName + "." + std::to_string(smtCount++) + ".smt2";
	Z3_string s = Z3_benchmark_to_smtlib_string(C, label.c_str(), "ALL", "unsat", "", as.size(), as.data(), goalNeg);
	FILE* f = fopen(fn.c_str(), "w"); if (f) { fputs(s, f); fclose(f); }
}
static void recordFailure(State& st, const std::string& label, Z3_model m)
{
	nFail++; if (!label.compare(0, 11, "termination")) nEndless++;
	u64 seen = 0; for (auto& f : failures) if (f.label == label) seen++;
	if (seen >= 5) return;
	Failure f; f.label = label; f.where = whereOf(st);
	for (auto& a : st.anys) f.vals.push_back({ a.name, std::to_string(a.w), hexOf(m ? evalIn(m, a.v) : a.v) });
	for (auto& a : st.notes) f.notes.push_back({ a.name, std::to_string(a.w), hexOf(m ? evalIn(m, a.v) : a.v) });
	failures.push_back(f);
}
static Z3_model modelOf(State& st) { if (!st.model) { Z3_model m = nullptr; if (query(st, nullptr, &m) == Z3_L_TRUE) st.model = m; } return st.model; }

// obligation: pc => cond.   returns after adding cond to the pc (so that one defect is reported once)
static bool addPC(State& st, const Val& c);
static void obligation(State& st, const Val& cond0, const std::string& label)
{
	Obl& o = obls[label]; o.count++;
	Val cond = simp(cond0);
	if (!cond.sym && cond.c) { o.disch++; o.triv++; return; }
	if (!cond.sym && !absFns.empty()) { Z3_model m = nullptr; if (realQuery(st, nullptr, &m) == Z3_L_FALSE) { o.disch++; throw PathAbort{ "infeasible" }; } if (m) st.model = m; }
	if (!cond.sym) { Z3_model m = modelOf(st); o.failed++; recordFailure(st, label, m); throw PathAbort{ "assert" }; }
	Z3_ast n = negE(cond.e); Z3_model m = nullptr;
	// cheap: the current model may already falsify it
	Z3_lbool r = query(st, n, &m);
	if (r == Z3_L_FALSE) { o.disch++; dumpSmt(st, n, label); st.pc.push_back(cond.e); return; }
	if (r == Z3_L_UNDEF) { o.unknown++; gErrors.push_back("undecided obligation (solver limit): " + label); st.pc.push_back(cond.e); st.model = nullptr; return; }
	if (!absFns.empty()) { Z3_model m2 = nullptr; Z3_lbool r2 = realQuery(st, n, &m2); if (r2 == Z3_L_FALSE) { o.disch++; st.pc.push_back(cond.e); st.model = nullptr; return; } if (m2) m = m2; }
	o.failed++; recordFailure(st, label, m);
	st.model = nullptr;
	if (!addPC(st, cond)) throw PathAbort{ "assert" };
}
// add constraint; false if infeasible
static bool addPC(State& st, const Val& c0)
{
	Val c = simp(c0);
	if (!c.sym) return c.c;
	if (st.model) { Val e = evalIn(st.model, c); if (!e.sym && e.c) { st.pc.push_back(c.e); return true; } }
	Z3_model m = nullptr; Z3_lbool r = query(st, c.e, &m);
	if (r == Z3_L_FALSE) return false;
	if (r == Z3_L_UNDEF) fatal("solver limit on path feasibility in " + whereOf(st));
	st.model = m; st.pc.push_back(c.e); return true;
}

// ------------------------------------------------------------------ executor
static std::vector<std::unique_ptr<State>> work;
static State* cur = nullptr;
struct Retry {}; // re-execute the current instruction (after forking)

static std::unique_ptr<State> forkState(State& st) { nForks++; return std::make_unique<State>(st); }

// concretize: returns a concrete value, forking for the other feasible ones
static u64 concretize(State& st, const Val& v0, unsigned limit = 4096)
{
	if (!v0.sym) return v0.c;
	auto it = st.conc.find(v0.e); if (it != st.conc.end()) return it->second;
	Val v = simp(v0); if (!v.sym) return v.c;
	it = st.conc.find(v.e); if (it != st.conc.end()) return it->second;
	// enumerate
	std::vector<std::pair<u64, Z3_model>> sols; std::vector<Z3_ast> save = st.pc;
	Z3_model m = modelOf(st); if (!m) throw PathAbort{ "infeasible" };
	while (true) {
		Val x = evalIn(m, v); if (x.sym) fatal("concretize: no value");
		sols.push_back({ x.c, m }); if (sols.size() > limit) { st.pc = save; fatal("concretize: too many values in " + whereOf(st)); }
		st.pc.push_back(toE(vNot1(vEq(v, cv(v.w, x.c)))));
		Z3_model m2 = nullptr; Z3_lbool r = query(st, nullptr, &m2);
		if (r == Z3_L_FALSE) break; if (r == Z3_L_UNDEF) fatal("solver limit (concretize)");
		m = m2;
	}
	st.pc = save;
	for (size_t i = 1; i < sols.size(); i++) {
		auto n = forkState(st); Val e = vEq(v, cv(v.w, sols[i].first)); if (e.sym) n->pc.push_back(e.e); n->model = sols[i].second; n->conc[v0.e] = sols[i].first; n->conc[v.e] = sols[i].first; work.push_back(std::move(n));
	}
	Val e = vEq(v, cv(v.w, sols[0].first)); if (sols.size() > 1 && e.sym) st.pc.push_back(e.e);
	st.model = sols[0].second; st.conc[v0.e] = sols[0].first; st.conc[v.e] = sols[0].first;
	return sols[0].first;
}
// decide a branch condition, forking when both sides are feasible. The other side is pushed on the worklist
// with the same instruction pointer, so it re-executes this instruction.
static bool decide(State& st, const Val& c0)
{
	Val c = simp(c0); if (!c.sym) return c.c;
	auto it = st.conc.find(c.e); if (it != st.conc.end()) return it->second;
	Z3_model m = modelOf(st); if (!m) throw PathAbort{ "infeasible" };
	Val x = evalIn(m, c); bool b = !x.sym && x.c;
	Z3_ast other = b ? negE(c.e) : c.e, mine = b ? c.e : negE(c.e);
	Z3_model m2 = nullptr; Z3_lbool r = query(st, other, &m2);
	if (r == Z3_L_UNDEF) fatal("solver limit on a branch in " + whereOf(st));
	if (r == Z3_L_FALSE) { st.conc[c.e] = b; return b; }
	auto n = forkState(st); n->pc.push_back(other); n->model = m2; n->conc[c.e] = !b; work.push_back(std::move(n));
	st.pc.push_back(mine); st.conc[c.e] = b; return b;
}

static void memErr(State& st, const std::string& what)
{
	Obl& o = obls["memory-safety"]; o.count++; o.failed++;
	recordFailure(st, "memory-safety: " + what, modelOf(st)); throw PathAbort{ what };
}
static std::string hex(u64 v) { char b[24]; snprintf(b, 24, "0x%lx", v); return b; }

static Val byteAt(Obj* o, u64 i)
{
	if (o->st[i] == B_CONC) return cv(8, o->c[i]);
	if (o->st[i] == B_UNINIT) { Val f = freshVal("uninit", 8); o->symInit(); o->st[i] = B_SYM; o->s[i].e = f.e; o->s[i].ew = 8; o->s[i].idx = 0; return f; }
	ByteS& b = o->s[i]; if (b.ew == 8) return fromE(b.e, 8);
	return vExtract(fromE(b.e, b.ew), b.idx * 8 + 7, b.idx * 8);
}
static Val loadObj(State& st, u64 id, u64 off, unsigned nb)
{
	Obj* o = st.mem.get(id);
	bool allc = true; for (unsigned i = 0; i < nb; i++) if (o->st[off + i] != B_CONC) { allc = false; break; }
	if (allc && nb <= 8) { u64 v = 0; for (unsigned i = 0; i < nb; i++) v |= (u64)o->c[off + i] << (8 * i); return cv(nb * 8, v); }
	if (o->st[off] == B_SYM && o->s[off].idx == 0 && o->s[off].ew == nb * 8) {
		bool ok = true; Z3_ast e = o->s[off].e;
		for (unsigned i = 0; i < nb; i++) if (o->st[off + i] != B_SYM || o->s[off + i].e != e || o->s[off + i].idx != i) { ok = false; break; }
		if (ok) return fromE(e, nb * 8);
	}
	// fully uninitialised: one fresh value
	bool allu = true; for (unsigned i = 0; i < nb; i++) if (o->st[off + i] != B_UNINIT) { allu = false; break; }
	if (allu) {
		o = st.mem.wr(id); Val f = freshVal("uninit", nb * 8); o->symInit();
		for (unsigned i = 0; i < nb; i++) { o->st[off + i] = B_SYM; o->s[off + i].e = f.e; o->s[off + i].ew = nb * 8; o->s[off + i].idx = i; } return f;
	}
	bool anyu = false; for (unsigned i = 0; i < nb; i++) if (o->st[off + i] == B_UNINIT) anyu = true;
	if (anyu) o = st.mem.wr(id);
	// concatenation with merging of runs from the same term
	Val r; bool first = true;
	for (unsigned i = 0; i < nb;) {
		Val piece; unsigned len = 1;
		if (o->st[off + i] == B_SYM) {
			ByteS b = o->s[off + i]; while (i + len < nb && o->st[off + i + len] == B_SYM && o->s[off + i + len].e == b.e && o->s[off + i + len].idx == b.idx + len) len++;
			piece = (b.ew == 8 * len) ? fromE(b.e, b.ew) : vExtract(fromE(b.e, b.ew), (b.idx + len) * 8 - 1, b.idx * 8);
		} else piece = byteAt(o, off + i);
		r = first ? piece : vConcat(piece, r); first = false; i += len;
	}
	return r;
}
static void storeObj(State& st, u64 id, u64 off, const Val& v, unsigned nb)
{
	Obj* o = st.mem.wr(id); Val x = v;
	if (x.w < nb * 8) x = vZext(x, nb * 8);
	if (!x.sym && nb <= 8) { for (unsigned i = 0; i < nb; i++) { o->c[off + i] = x.c >> (8 * i); o->st[off + i] = B_CONC; } return; }
	o->symInit(); Z3_ast e = toE(x);
	for (unsigned i = 0; i < nb; i++) { o->st[off + i] = B_SYM; o->s[off + i].e = e; o->s[off + i].ew = nb * 8; o->s[off + i].idx = i; }
}
static Obj* checkAcc(State& st, u64 a, u64 nb, bool write, const char* what)
{
	u64 id = idOf(a), off = (a & 0xffffffff) - OFF0; Obj* o = st.mem.get(id);
	if (a < 0x10000) memErr(st, std::string(what) + " through a null pointer (" + hex(a) + ")");
	if (!o) memErr(st, std::string(what) + " through an invalid or freed pointer " + hex(a));
	if ((a & 0xffffffff) < OFF0 || off + nb > o->size) memErr(st, std::string(what) + " out of bounds: offset " + std::to_string((i64)off) + " size " + std::to_string(nb) + " of a " + std::to_string(o->size) + "-byte object " + o->name);
	if (write && o->ro) memErr(st, "write to constant " + o->name);
	return o;
}
// symbolic address handling: returns true and (id, offExpr) when all targets are in one object
static bool symObj(State& st, const Val& a, u64& id)
{
	Z3_model m = modelOf(st); if (!m) throw PathAbort{ "infeasible" };
	Val x = evalIn(m, a); id = idOf(x.c); Val hi = vExtract(a, 63, 32); Val same = simp(vEq(hi, cv(32, id)));
	if (!same.sym) return same.c; return query(st, negE(same.e), nullptr) == Z3_L_FALSE;
}
static Val memLoad(State& st, const Val& a0, unsigned w)
{
	unsigned nb = (w + 7) / 8; Val a = simp(a0);
	if (a.sym) { auto it = st.conc.find(a.e); if (it != st.conc.end()) a = cv(64, it->second); }
	u64 id;
	if (a.sym && nb <= 8 && symObj(st, a, id)) {
		Obj* o = st.mem.get(id);
		if (o && o->size <= 8192) {
			// in-bounds obligation, then an if-then-else tree over the feasible offsets
			Val lo = cv(64, (id << 32) + OFF0), hi = cv(64, (id << 32) + OFF0 + o->size - nb);
			if (o->size >= nb) {
				Val ok = vAnd1(vIcmp(CmpInst::ICMP_UGE, a, lo), vIcmp(CmpInst::ICMP_ULE, a, hi));
				Val oks = simp(ok);
				if (oks.sym || !oks.c) { Z3_model m = nullptr; Z3_lbool r = oks.sym ? query(st, negE(oks.e), &m) : Z3_L_TRUE;
					if (r == Z3_L_TRUE) { Obl& ob = obls["memory-safety"]; ob.count++; ob.failed++; recordFailure(st, "memory-safety: load out of bounds of " + o->name, m ? m : modelOf(st)); st.model = nullptr; if (!addPC(st, oks)) throw PathAbort{ "oob" }; }
					else if (r == Z3_L_UNDEF) fatal("solver limit (bounds)"); else { Obl& ob = obls["memory-safety"]; ob.count++; ob.disch++; } }
				// stride: find the alignment of a - lo
				u64 stride = 1; Val d = simp(vBin(Instruction::Sub, a, lo));
				for (u64 s : { 64ull, 48ull, 40ull, 32ull, 24ull, 16ull, 12ull, 8ull, 4ull, 2ull }) { if (s < nb) break; Val z = simp(vEq(vBin(Instruction::URem, d, cv(64, s)), cv(64, 0))); if (!z.sym ? z.c : query(st, negE(z.e), nullptr) == Z3_L_FALSE) { stride = s; break; } }
				std::vector<std::pair<u64, Val>> cand; for (u64 off = 0; off + nb <= o->size; off += stride) { cand.push_back({ off, loadObj(st, id, off, nb) }); o = st.mem.get(id); }
				if (cand.size() <= 2048) {
					// range restriction through bounds queries is left to the solver
					std::function<Val(size_t, size_t)> tree = [&](size_t l, size_t h) -> Val { if (h - l == 1) return cand[l].second; size_t mid = (l + h) / 2; Val c = vIcmp(CmpInst::ICMP_ULT, d, cv(64, cand[mid].first)); return vIte(c, tree(l, mid), tree(mid, h)); };
					Val r = tree(0, cand.size()); return w < nb * 8 ? vTrunc(r, w) : r;
				}
			}
		}
	}
	u64 ca = a.sym ? concretize(st, a, 600) : a.c;
	checkAcc(st, ca, nb, false, "load");
	Val r = loadObj(st, idOf(ca), (ca & 0xffffffff) - OFF0, nb);
	return w < nb * 8 ? vTrunc(r, w) : r;
}
static void memStore(State& st, const Val& a0, const Val& v)
{
	unsigned nb = (v.w + 7) / 8; Val a = simp(a0); u64 ca = concretize(st, a, 600);
	checkAcc(st, ca, nb, true, "store"); storeObj(st, idOf(ca), (ca & 0xffffffff) - OFF0, v, nb);
}
static RV loadRV(State& st, const Val& a, Type* t)
{
	RV r;
	if (auto* s = dyn_cast<StructType>(t)) { auto* L = DL->getStructLayout(s); r.agg = std::make_shared<std::vector<RV>>(); for (unsigned i = 0; i < s->getNumElements(); i++) r.agg->push_back(loadRV(st, vAdd(a, cv(64, L->getElementOffset(i))), s->getElementType(i))); return r; }
	if (t->isArrayTy()) { u64 sz = DL->getTypeAllocSize(t->getArrayElementType()); r.agg = std::make_shared<std::vector<RV>>(); for (unsigned i = 0; i < t->getArrayNumElements(); i++) r.agg->push_back(loadRV(st, vAdd(a, cv(64, i * sz)), t->getArrayElementType())); return r; }
	if (auto* vt = dyn_cast<FixedVectorType>(t)) { u64 sz = DL->getTypeStoreSize(vt->getElementType()); r.agg = std::make_shared<std::vector<RV>>(); for (unsigned i = 0; i < vt->getNumElements(); i++) r.agg->push_back(loadRV(st, vAdd(a, cv(64, i * sz)), vt->getElementType())); return r; }
	r.v = memLoad(st, a, tyW(t)); return r;
}
static void storeRV(State& st, const Val& a, const RV& v, Type* t)
{
	if (auto* s = dyn_cast<StructType>(t)) { auto* L = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) storeRV(st, vAdd(a, cv(64, L->getElementOffset(i))), (*v.agg)[i], s->getElementType(i)); return; }
	if (t->isArrayTy()) { u64 sz = DL->getTypeAllocSize(t->getArrayElementType()); for (unsigned i = 0; i < t->getArrayNumElements(); i++) storeRV(st, vAdd(a, cv(64, i * sz)), (*v.agg)[i], t->getArrayElementType()); return; }
	if (auto* vt = dyn_cast<FixedVectorType>(t)) { u64 sz = DL->getTypeStoreSize(vt->getElementType()); for (unsigned i = 0; i < vt->getNumElements(); i++) storeRV(st, vAdd(a, cv(64, i * sz)), (*v.agg)[i], vt->getElementType()); return; }
	memStore(st, a, v.v);
}
static void memCopy(State& st, u64 d, u64 s, u64 n)
{
	if (!n) return; checkAcc(st, s, n, false, "copy source"); checkAcc(st, d, n, true, "copy destination");
	u64 si = idOf(s), so = (s & 0xffffffff) - OFF0, di = idOf(d), dof = (d & 0xffffffff) - OFF0;
	Obj* D = st.mem.wr(di); Obj* Sx = st.mem.get(si);
	std::vector<uint8_t> c(Sx->c.begin() + so, Sx->c.begin() + so + n), t(Sx->st.begin() + so, Sx->st.begin() + so + n); std::vector<ByteS> sb; if (!Sx->s.empty()) sb.assign(Sx->s.begin() + so, Sx->s.begin() + so + n);
	bool anySym = false; for (auto x : t) if (x == B_SYM) anySym = true;
	if (anySym) D->symInit();
	for (u64 i = 0; i < n; i++) { D->c[dof + i] = c[i]; D->st[dof + i] = t[i]; if (t[i] == B_SYM) D->s[dof + i] = sb[i]; }
}
static std::string cstr(State& st, u64 a)
{
	std::string s; Obj* o = checkAcc(st, a, 1, false, "label"); u64 off = (a & 0xffffffff) - OFF0;
	for (; off < o->size && o->st[off] == B_CONC && o->c[off]; off++) s += (char)o->c[off]; return s;
}

static const RV& opv(Frame& f, const Opnd& o) { return o.isC ? o.c : f.r[o.slot]; }

static void enter(State& st, const Function* F, std::vector<RV> args, const DI* call)
{
	FInfo* fi = getF(F); bodiesUsed.insert(F->getName().str());
	Frame n; n.f = fi; n.r.resize(fi->n); n.callDI = call;
	if (st.fr.size() > 12000) { recordFailure(st, "termination: calls nested more than 12000 deep", modelOf(st)); throw PathAbort{ "steps" }; }
	for (size_t i = 0; i < F->arg_size() && i < args.size(); i++) {
		if (F->getArg(i)->hasByValAttr()) {
			u64 sz = DL->getTypeAllocSize(F->getArg(i)->getParamByValType()); u64 a = st.mem.alloc(sz, 1, false, true);
			u64 src = concretize(st, args[i].v); memCopy(st, a, src, sz); n.allocas.push_back(idOf(a)); n.r[i].v = cv(64, a);
		} else n.r[i] = args[i];
	}
	st.fr.push_back(std::move(n));
}
static void jumpTo(State& st, const BasicBlock* bb)
{
	Frame& f = st.fr.back(); f.prev = f.bb; f.bb = f.f->bidx[bb]; f.ip = 0;
	BInfo& B = f.f->blocks[f.bb];
	if (B.nphi) {
		const BasicBlock* pb = f.f->blocks[f.prev].bb; std::vector<RV> vals; vals.reserve(B.nphi);
		for (unsigned i = 0; i < B.nphi; i++) { auto* p = cast<PHINode>(B.ins[i].I); int ix = p->getBasicBlockIndex(pb); vals.push_back(opv(f, B.ins[i].ops[ix])); }
		for (unsigned i = 0; i < B.nphi; i++) f.r[B.ins[i].dst] = vals[i];
		f.ip = B.nphi;
	}
}
static void doReturn(State& st, const RV* rv)
{
	Frame f = std::move(st.fr.back()); st.fr.pop_back();
	for (u64 id : f.allocas) st.mem.release(id, true);
	if (st.fr.empty()) return;
	Frame& p = st.fr.back();
	if (f.callDI) {
		if (f.callDI->dst >= 0 && rv) p.r[f.callDI->dst] = *rv;
		if (auto* inv = dyn_cast<InvokeInst>(f.callDI->I)) jumpTo(st, inv->getNormalDest()); else p.ip++;
	}
}
static void afterCall(State& st, const DI& d, const RV* rv)
{
	Frame& p = st.fr.back(); if (d.dst >= 0) { if (rv) p.r[d.dst] = *rv; else p.r[d.dst] = undefRV(d.I->getType(), false); }
	if (auto* inv = dyn_cast<InvokeInst>(d.I)) jumpTo(st, inv->getNormalDest()); else p.ip++;
}
static RV rvc(unsigned w, u64 c) { RV r; r.v = cv(w, c); return r; }
static RV rvv(const Val& v) { RV r; r.v = v; return r; }

static Val fpBin(unsigned op, const Val& a, const Val& b);
static Val vFcmp(CmpInst::Predicate p, const Val& a, const Val& b);
#include "builtins.inc"

static void doCall(State& st, const DI& d)
{
	Frame& f = st.fr.back(); auto* cb = cast<CallBase>(d.I);
	const Function* F = d.callee;
	if (cb->isInlineAsm()) { afterCall(st, d, nullptr); return; }
	if (!F) {
		Val t = opv(f, d.ops.back()).v; 
		u64 a = concretize(st, t, 64); auto it = faddr.find(a); if (it == faddr.end()) memErr(st, "call through an invalid function pointer " + hex(a)); F = it->second;
	}
	std::vector<RV> args; for (unsigned i = 0; i < cb->arg_size(); i++) args.push_back(opv(f, d.ops[i]));
	std::string name = F->getName().str();
	auto sit = stubOf.find(name);
	if (sit != stubOf.end() && f.f->F->getName() != sit->second) { stubsUsed.insert(name); enter(st, M->getFunction(sit->second), args, &d); return; }
	if (F->isIntrinsic()) { doIntrinsic(st, d, F, args); return; }
	if (callBuiltin(st, d, F, name, args)) return;
	if (F->isDeclaration()) fatal("unmodelled external function " + demangle(name) + " [" + name + "] called from " + whereOf(st));
	enter(st, F, args, &d);
}

static RV elementwise1(const RV& a, const std::function<Val(const Val&)>& g) { if (!a.agg) { return rvv(g(a.v)); } RV r; r.agg = std::make_shared<std::vector<RV>>(); for (auto& x : *a.agg) r.agg->push_back(elementwise1(x, g)); return r; }
static RV elementwise2(const RV& a, const RV& b, const std::function<Val(const Val&, const Val&)>& g) { if (!a.agg) { return rvv(g(a.v, b.v)); } RV r; r.agg = std::make_shared<std::vector<RV>>(); for (size_t i = 0; i < a.agg->size(); i++) r.agg->push_back(elementwise2((*a.agg)[i], (*b.agg)[i], g)); return r; }

static RV bitcast(const RV& a, Type* from, Type* to)
{
	std::function<Val(const RV&)> flat = [&](const RV& x) -> Val { if (!x.agg) return x.v; Val r; bool first = true; for (auto& e : *x.agg) { Val v = flat(e); r = first ? v : vConcat(v, r); first = false; } return r; };
	Val v = flat(a);
	if (auto* vt = dyn_cast<FixedVectorType>(to)) { unsigned ew = tyW(vt->getElementType()); RV r; r.agg = std::make_shared<std::vector<RV>>(); for (unsigned i = 0; i < vt->getNumElements(); i++) r.agg->push_back(rvv(vExtract(v, ew * (i + 1) - 1, ew * i))); return r; }
	return rvv(v);
}
static Val fpBin(unsigned op, const Val& a, const Val& b)
{
	if (!a.sym && !b.sym && a.w <= 64) {
		if (a.w == 32) { float x = asD(a), y = asD(b), r = 0; switch (op) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; case Instruction::FRem: r = fmodf(x, y); break; } return ofD(r, 32); }
		double x = asD(a), y = asD(b), r = 0; switch (op) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; case Instruction::FRem: r = fmod(x, y); break; } return ofD(r, 64);
	}
	if (abstractArith && op != Instruction::FRem) {
		auto fpn = [](const char* nm, unsigned w, const Val& p, const Val& q, bool com, Z3_ast (*mk)(Z3_context, Z3_ast, Z3_ast, Z3_ast)) {
			return mkE(abstractApp(nm, w, w, { toE(p), toE(q) }, com, [&](std::vector<Z3_ast>& v) { return Z3_mk_fpa_to_ieee_bv(C, keep(mk(C, rne(), keep(Z3_mk_fpa_to_fp_bv(C, v[0], fpSort(w))), keep(Z3_mk_fpa_to_fp_bv(C, v[1], fpSort(w)))))); }), w); };
		switch (op) { case Instruction::FAdd: return fpn("fadd", a.w, a, b, true, Z3_mk_fpa_add); case Instruction::FSub: return fpn("fsub", a.w, a, b, false, Z3_mk_fpa_sub);
		case Instruction::FMul: return fpn("fmul", a.w, a, b, true, Z3_mk_fpa_mul); default: return fpn("fdiv", a.w, a, b, false, Z3_mk_fpa_div); }
	}
	Z3_ast x = toFP(a), y = toFP(b), r = nullptr;
	switch (op) { case Instruction::FAdd: r = Z3_mk_fpa_add(C, rne(), x, y); break; case Instruction::FSub: r = Z3_mk_fpa_sub(C, rne(), x, y); break; case Instruction::FMul: r = Z3_mk_fpa_mul(C, rne(), x, y); break; case Instruction::FDiv: r = Z3_mk_fpa_div(C, rne(), x, y); break;
	default: { // fmod: abstracted as an uninterpreted function of its operands
		Z3_sort dom[2] = { bvSort(a.w), bvSort(a.w) }; Z3_func_decl fd = Z3_mk_func_decl(C, Z3_mk_string_symbol(C, a.w == 64 ? "fmod64" : "fmod32"), 2, dom, bvSort(a.w)); Z3_ast ar[2] = { toE(a), toE(b) }; usesArr = true; return mkE(Z3_mk_app(C, fd, 2, ar), a.w); } }
	return fromFP(r, a.w);
}
static Val vFcmp(CmpInst::Predicate p, const Val& a, const Val& b)
{
	if (!a.sym && !b.sym) { double x = asD(a), y = asD(b); bool u = std::isnan(x) || std::isnan(y); bool r = false; unsigned pp = p;
		bool lt = x < y, gt = x > y, eq = x == y; r = ((pp & 1) && eq) || ((pp & 2) && gt) || ((pp & 4) && lt) || ((pp & 8) && u); return cv(1, r); }
	Z3_ast x = toFP(a), y = toFP(b); unsigned pp = p; Val r = cv(1, 0);
	if (pp == 0) return cv(1, 0); if (pp == 15) return cv(1, 1);
	if (pp & 1) r = vOr1(r, mkE(Z3_mk_fpa_eq(C, x, y), 1)); if (pp & 2) r = vOr1(r, mkE(Z3_mk_fpa_gt(C, x, y), 1)); if (pp & 4) r = vOr1(r, mkE(Z3_mk_fpa_lt(C, x, y), 1));
	Val nan = vOr1(mkE(Z3_mk_fpa_is_nan(C, x), 1), mkE(Z3_mk_fpa_is_nan(C, y), 1));
	if ((pp & 7) == 7) return vNot1(nan); // ord
	if (pp & 8) r = vOr1(r, nan); return r;
}

static void step(State& st)
{
	Frame& f = st.fr.back(); BInfo& B = f.f->blocks[f.bb]; const DI& d = B.ins[f.ip]; const Instruction* I = d.I;
	st.steps++; nSteps++;
	unsigned op = I->getOpcode();
	auto O = [&](unsigned i) -> const RV& { return opv(f, d.ops[i]); };
	auto set = [&](const RV& v) { f.r[d.dst] = v; f.ip++; };
	switch (op) {
	case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor:
	case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
		if (!O(0).agg) { set(rvv(vBin(op, O(0).v, O(1).v))); return; }
		set(elementwise2(O(0), O(1), [&](const Val& a, const Val& b) { return vBin(op, a, b); })); return;
	case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: {
		Val a = O(0).v, b = O(1).v; Val nz = vNot1(vEq(b, b.w <= 64 ? cv(b.w, 0) : mkE(bvnum(b.w, 0), b.w)));
		if (nz.sym || !nz.c) obligation(st, nz, "no-trap: division by zero");
		if ((op == Instruction::SDiv || op == Instruction::SRem) && b.w <= 64) { Val ov = vAnd1(vEq(a, cv(a.w, 1ull << (a.w - 1))), vEq(b, cv(b.w, maskw(b.w)))); if (ov.sym || ov.c) obligation(st, vNot1(ov), "no-trap: division overflow"); }
		set(rvv(vBin(op, a, b))); return; }
	case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
		set(elementwise2(O(0), O(1), [&](const Val& a, const Val& b) { return fpBin(op, a, b); })); return;
	case Instruction::FNeg: set(elementwise1(O(0), [&](const Val& a) { return vBin(Instruction::Xor, a, cv(a.w, 1ull << (a.w - 1))); })); return;
	case Instruction::ICmp: { auto p = cast<ICmpInst>(I)->getPredicate(); if (!O(0).agg) set(rvv(vIcmp(p, O(0).v, O(1).v))); else set(elementwise2(O(0), O(1), [&](const Val& a, const Val& b) { return vIcmp(p, a, b); })); return; }
	case Instruction::FCmp: { auto p = cast<FCmpInst>(I)->getPredicate(); set(elementwise2(O(0), O(1), [&](const Val& a, const Val& b) { return vFcmp(p, a, b); })); return; }
	case Instruction::Select: {
		const RV& c = O(0); if (c.agg) { RV r; r.agg = std::make_shared<std::vector<RV>>(); for (size_t i = 0; i < c.agg->size(); i++) r.agg->push_back(rvv(vIte((*c.agg)[i].v, (*O(1).agg)[i].v, (*O(2).agg)[i].v))); set(r); return; }
		if (!c.v.sym) { set(c.v.c ? O(1) : O(2)); return; }
		if (I->getType()->isPointerTy()) { bool b = decide(st, c.v); Frame& g = st.fr.back(); g.r[d.dst] = opv(g, d.ops[b ? 1 : 2]); g.ip++; return; }
		set(elementwise2(O(1), O(2), [&](const Val& a, const Val& b) { return vIte(c.v, a, b); })); return; }
	case Instruction::ZExt: set(elementwise1(O(0), [&](const Val& a) { return vZext(a, tyW(I->getType()->getScalarType())); })); return;
	case Instruction::SExt: set(elementwise1(O(0), [&](const Val& a) { return vSext(a, tyW(I->getType()->getScalarType())); })); return;
	case Instruction::Trunc: set(elementwise1(O(0), [&](const Val& a) { return vTrunc(a, tyW(I->getType()->getScalarType())); })); return;
	case Instruction::PtrToInt: case Instruction::IntToPtr: set(elementwise1(O(0), [&](const Val& a) { unsigned w = tyW(I->getType()->getScalarType()); return w < a.w ? vTrunc(a, w) : vZext(a, w); })); return;
	case Instruction::BitCast: set(bitcast(O(0), I->getOperand(0)->getType(), I->getType())); return;
	case Instruction::Freeze: set(O(0)); return;
	case Instruction::FPExt: case Instruction::FPTrunc: set(elementwise1(O(0), [&](const Val& a) { unsigned w = tyW(I->getType()->getScalarType()); if (!a.sym) return ofD(asD(a), w); return fromFP(Z3_mk_fpa_to_fp_float(C, rne(), toFP(a), fpSort(w)), w); })); return;
	case Instruction::SIToFP: case Instruction::UIToFP: set(elementwise1(O(0), [&](const Val& a0) { unsigned w = tyW(I->getType()->getScalarType()); Val a = a0.w == 1 ? vZext(a0, 8) : a0; bool sg = op == Instruction::SIToFP; if (!a.sym) { if (w == 32) return ofD(sg ? (float)sextw(a.c, a.w) : (float)a.c, 32); return ofD(sg ? (double)sextw(a.c, a.w) : (double)a.c, 64); } fpSort(w); if (abstractArith && sg && a.w == 64) return mkE(abstractApp("sitofp", a.w, w, { toE(a) }, false, [&](std::vector<Z3_ast>& v) { return Z3_mk_fpa_to_ieee_bv(C, keep(Z3_mk_fpa_to_fp_signed(C, rne(), v[0], fpSort(w)))); }), w); return fromFP(sg ? Z3_mk_fpa_to_fp_signed(C, rne(), toE(a), fpSort(w)) : Z3_mk_fpa_to_fp_unsigned(C, rne(), toE(a), fpSort(w)), w); })); return;
	case Instruction::FPToSI: case Instruction::FPToUI: set(elementwise1(O(0), [&](const Val& a) { unsigned w = tyW(I->getType()->getScalarType()); bool sg = op == Instruction::FPToSI; if (!a.sym) { double x = asD(a); if (sg) { if (x > -9.3e18 && x < 9.223372036854775807e18) return cv(w, (u64)(i64)x); return cv(w, 1ull << (w - 1)); } if (x >= 0 && x < 1.8e19) return cv(w, (u64)x); return cv(w, 0); } Z3_ast rz = keep(Z3_mk_fpa_rtz(C)); return mkE(sg ? Z3_mk_fpa_to_sbv(C, rz, toFP(a), w) : Z3_mk_fpa_to_ubv(C, rz, toFP(a), w), w); })); return;
	case Instruction::Alloca: {
		auto* ai = cast<AllocaInst>(I); u64 n = 1; if (ai->isArrayAllocation()) n = concretize(st, O(0).v); u64 sz = DL->getTypeAllocSize(ai->getAllocatedType()) * n;
		u64 a = st.mem.alloc(sz, 1, false, true); Frame& g = st.fr.back(); g.allocas.push_back(idOf(a)); g.r[d.dst] = rvc(64, a); g.ip++; return; }
	case Instruction::Load: { RV v = loadRV(st, O(0).v, I->getType()); set(v); return; }
	case Instruction::Store: storeRV(st, O(1).v, O(0), I->getOperand(0)->getType()); f.ip++; return;
	case Instruction::GetElementPtr: {
		Val a = O(0).v; if (d.gepC) a = vAdd(a, cv(64, d.gepC));
		for (auto& p : d.gepV) { Val i = O(p.first).v; if (i.w < 64) i = vSext(i, 64);
			{ Z3_ast ic; u64 it, ie; if (iteConsts(i, ic, it, ie)) i = cv(64, decide(st, mkE(ic, 1)) ? it : ie); }
			a = vAdd(a, vBin(Instruction::Mul, i, cv(64, p.second))); }
		set(rvv(a)); return; }
	case Instruction::ExtractValue: { const RV* r = &O(0); for (unsigned i : cast<ExtractValueInst>(I)->indices()) r = &(*r->agg)[i]; RV x = *r; set(x); return; }
	case Instruction::InsertValue: {
		auto* iv = cast<InsertValueInst>(I); RV r = O(0); RV nv = O(1);
		std::function<void(RV&, ArrayRef<unsigned>)> ins = [&](RV& x, ArrayRef<unsigned> ix) { if (ix.empty()) { x = nv; return; } x.agg = std::make_shared<std::vector<RV>>(*x.agg); ins((*x.agg)[ix[0]], ix.slice(1)); };
		ins(r, iv->getIndices()); set(r); return; }
	case Instruction::ExtractElement: { u64 i = concretize(st, O(1).v); RV x = (*O(0).agg)[i]; set(x); return; }
	case Instruction::InsertElement: { u64 i = concretize(st, O(2).v); RV r = O(0); r.agg = std::make_shared<std::vector<RV>>(*r.agg); (*r.agg)[i] = O(1); set(r); return; }
	case Instruction::ShuffleVector: { auto* sv = cast<ShuffleVectorInst>(I); RV r; r.agg = std::make_shared<std::vector<RV>>(); int n = O(0).agg->size(); for (int m : sv->getShuffleMask()) r.agg->push_back(m < 0 ? (*O(0).agg)[0] : m < n ? (*O(0).agg)[m] : (*O(1).agg)[m - n]); set(r); return; }
	case Instruction::Br: {
		auto* b = cast<BranchInst>(I); if (b->isUnconditional()) { jumpTo(st, b->getSuccessor(0)); return; }
		bool c = decide(st, O(0).v); jumpTo(st, b->getSuccessor(c ? 0 : 1)); return; }
	case Instruction::Switch: {
		auto* sw = cast<SwitchInst>(I); Val v = O(0).v; if (v.sym) { auto it = st.conc.find(v.e); if (it != st.conc.end()) v = cv(v.w, it->second); }
		if (!v.sym) { const BasicBlock* t = sw->getDefaultDest(); for (auto& c : sw->cases()) if (c.getCaseValue()->getZExtValue() == v.c) { t = c.getCaseSuccessor(); break; } jumpTo(st, t); return; }
		// group by successor
		std::vector<std::pair<const BasicBlock*, Val>> g; Val dflt = cv(1, 1);
		for (auto& c : sw->cases()) { Val e = vEq(v, cv(v.w, c.getCaseValue()->getZExtValue())); dflt = vAnd1(dflt, vNot1(e)); const BasicBlock* t = c.getCaseSuccessor(); bool fnd = false; for (auto& p : g) if (p.first == t) { p.second = vOr1(p.second, e); fnd = true; } if (!fnd) g.push_back({ t, e }); }
		{ bool fnd = false; for (auto& p : g) if (p.first == sw->getDefaultDest()) { p.second = vOr1(p.second, dflt); fnd = true; } if (!fnd) g.push_back({ sw->getDefaultDest(), dflt }); }
		for (size_t i = 0; i + 1 < g.size(); i++) if (decide(st, g[i].second)) { jumpTo(st, g[i].first); return; }
		jumpTo(st, g.back().first); return; }
	case Instruction::Ret: { if (I->getNumOperands()) { RV v = O(0); doReturn(st, &v); } else doReturn(st, nullptr); return; }
	case Instruction::Call: case Instruction::Invoke: doCall(st, d); return;
	case Instruction::Unreachable: throw PathAbort{ "unreachable" };
	case Instruction::AtomicRMW: { auto* a = cast<AtomicRMWInst>(I); Val p = O(0).v, x = O(1).v; Val old = memLoad(st, p, x.w); Val n; switch (a->getOperation()) { case AtomicRMWInst::Add: n = vAdd(old, x); break; case AtomicRMWInst::Sub: n = vBin(Instruction::Sub, old, x); break; case AtomicRMWInst::Xchg: n = x; break; case AtomicRMWInst::And: n = vBin(Instruction::And, old, x); break; case AtomicRMWInst::Or: n = vBin(Instruction::Or, old, x); break; default: fatal("atomicrmw"); } memStore(st, p, n); set(rvv(old)); return; }
	case Instruction::AtomicCmpXchg: { Val p = O(0).v, e = O(1).v, n = O(2).v; Val old = memLoad(st, p, e.w); Val eq = vEq(old, e); memStore(st, p, vIte(eq, n, old)); RV r; r.agg = std::make_shared<std::vector<RV>>(); r.agg->push_back(rvv(old)); r.agg->push_back(rvv(eq)); set(r); return; }
	case Instruction::Fence: f.ip++; return;
	case Instruction::LandingPad: case Instruction::Resume: fatal("landingpad reached");
	default: { std::string s; raw_string_ostream os(s); I->print(os); fatal("instruction: " + os.str()); }
	}
}

static void run(std::unique_ptr<State> init)
{
	work.push_back(std::move(init));
	while (!work.empty()) {
		std::unique_ptr<State> st = std::move(work.back()); work.pop_back(); cur = st.get();
		try {
			while (!st->fr.empty()) {
				step(*st);
				if (deadlineS > 0 && (nSteps & 0x3fff) == 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > deadlineS) fatalHard("deadline: " + std::to_string(work.size() + 1) + " paths left undecided");
				if (nSteps > maxSteps) fatalHard("step limit: loop not bounded by the path condition? in " + whereOf(*st));
				if (st->steps > maxPathSteps) { recordFailure(*st, "termination: no end after " + std::to_string(maxPathSteps) + " steps", modelOf(*st)); throw PathAbort{ "steps" }; }
				if (st->mem.live > memLimit) { recordFailure(*st, "termination: more than 1 GB of memory needed", modelOf(*st)); throw PathAbort{ "steps" }; }
			}
			nPaths++;
		} catch (PathAbort& p) { nPaths++; if (p.why == "infeasible") nInfeasible++; }
		if (nFail > 60 || nEndless > 2) work.clear(); // the violation is found, the rest of this shard adds nothing
		if (nPaths > maxPaths) fatalHard("path limit");
	}
}

static void initGlobals(State& st)
{
	for (auto& F : *M) { u64 id = st.mem.next++; u64 a = (id << 32) + OFF0; gaddr[&F] = a; faddr[a] = &F; }
	for (auto& G : M->globals()) {
		u64 sz = G.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(G.getValueType()) : 8; u64 a = st.mem.alloc(sz, 0, true, false); gaddr[&G] = a; st.mem.get(idOf(a))->name = G.getName().str();
	}
	for (auto& G : M->globals()) if (G.hasInitializer() && !G.getName().starts_with("llvm.")) {
		u64 a = gaddr[&G]; Obj* o = st.mem.get(idOf(a));
		std::function<void(const Constant*, u64)> put = [&](const Constant* k, u64 off) {
			Type* t = k->getType(); if (isa<ConstantAggregateZero>(k) || isa<UndefValue>(k) || isa<ConstantPointerNull>(k)) return;
			if (auto* cd = dyn_cast<ConstantDataSequential>(k)) { u64 es = DL->getTypeStoreSize(cd->getElementType()); if (cd->getElementType()->isIntegerTy()) for (unsigned i = 0; i < cd->getNumElements(); i++) { u64 v = cd->getElementAsInteger(i); for (u64 b = 0; b < es; b++) o->c[off + i * es + b] = v >> (8 * b); } else for (unsigned i = 0; i < cd->getNumElements(); i++) put(cd->getElementAsConstant(i), off + i * es); return; }
			if (auto* cs = dyn_cast<ConstantStruct>(k)) { auto* L = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) put(cs->getOperand(i), off + L->getElementOffset(i)); return; }
			if (auto* ca = dyn_cast<ConstantArray>(k)) { u64 es = DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) put(ca->getOperand(i), off + i * es); return; }
			if (isa<ConstantVector>(k)) { u64 es = DL->getTypeStoreSize(cast<VectorType>(t)->getElementType()); for (unsigned i = 0; i < k->getNumOperands(); i++) put(cast<Constant>(k->getOperand(i)), off + i * es); return; }
			Val v = constRV(k).v; if (v.sym) return; u64 nb = DL->getTypeStoreSize(t); for (u64 b = 0; b < nb && b < 8; b++) o->c[off + b] = v.c >> (8 * b);
		};
		put(G.getInitializer(), 0); if (G.isConstant()) o->ro = true;
	}
}

int main(int argc, char** argv)
{
	t0 = std::chrono::steady_clock::now();
	std::string mod; std::vector<std::string> ctors; bool list = false;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		if (a == "--entry") entryName = argv[++i]; else if (a == "--out") outFile = argv[++i]; else if (a == "--ctor") ctors.push_back(argv[++i]); else if (a == "--list") list = true;
		else if (a == "--max-steps") maxSteps = strtoull(argv[++i], 0, 0); else if (a == "--deadline") deadlineS = atof(argv[++i]); else if (a == "--max-path-steps") maxPathSteps = strtoull(argv[++i], 0, 0); else if (a == "--max-paths") maxPaths = strtoull(argv[++i], 0, 0); else if (a == "--query-ms") queryMs = atoi(argv[++i]); else if (a == "--shard") { sscanf(argv[++i], "%lu/%lu", &shardK, &shardN); } else if (a == "--smt-dir") smtDir = argv[++i]; else mod = a;
	}
	LLVMContext ctx; SMDiagnostic err; auto m = parseIRFile(mod, err, ctx); if (!m) { err.print("dvc", errs()); return 2; } M = m.get(); DL = &M->getDataLayout();
	if (list) { for (auto& F : *M) if (F.getName().starts_with("vc_") && !F.isDeclaration()) outs() << F.getName() << "\n"; return 0; }
	Z3_config cfg = Z3_mk_config(); C = Z3_mk_context_rc(cfg); Z3_set_error_handler(C, [](Z3_context c, Z3_error_code e) { fatalHard(std::string("z3: ") + Z3_get_error_msg(c, e)); });
	zTrue = keep(Z3_mk_true(C)); zFalse = keep(Z3_mk_false(C));
	for (auto& F : *M) if (F.getName().starts_with("__stub__")) stubOf[F.getName().substr(8).str()] = F.getName().str();
	auto st = std::make_unique<State>(); initGlobals(*st);
	// static constructors
	if (auto* g = M->getGlobalVariable("llvm.global_ctors")) if (g->hasInitializer()) if (auto* ca = dyn_cast<ConstantArray>(g->getInitializer())) for (auto& op : ca->operands()) {
		auto* fn = dyn_cast<Function>(cast<ConstantStruct>(op.get())->getOperand(1)->stripPointerCasts()); if (!fn) continue;
		bool want = false; for (auto& c : ctors) if (c == "all" || fn->getName().str().find(c) != std::string::npos) want = true;
		if (!want) continue;
		enter(*st, fn, {}, nullptr);
		try { while (!st->fr.empty()) { step(*st); if (nSteps > maxSteps) fatal("step limit in static constructors"); } } catch (PathAbort& p) { fatal("static constructor " + fn->getName().str() + ": " + p.why); }
		if (!work.empty()) fatal("static constructor forked");
	}
	Function* E = M->getFunction(entryName); if (!E || E->isDeclaration()) fatal("no entry " + entryName);
	enter(*st, E, {}, nullptr);
	inRun = true; run(std::move(st)); inRun = false;
	bool bad = !failures.empty(), unk = !gErrors.empty(); for (auto& o : obls) { if (o.second.failed) bad = true; if (o.second.unknown) unk = true; }
	emit(); fflush(stdout); _exit(bad ? 1 : unk ? 2 : 0);
}
