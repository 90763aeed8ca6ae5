// models of external functions and of the verification intrinsics (part of the trusted base)

static void throwPath(State& st, const std::string& what)
{
	nExc++; Obl& o = obls["no-uncaught-exception"]; o.count++; o.failed++;
	recordFailure(st, "no-uncaught-exception: " + what, modelOf(st)); throw PathAbort{ "exception" };
}

static void doIntrinsic(State& st, const DI& d, const Function* F, std::vector<RV>& a)
{
	auto ret = [&](const Val& v) { RV r = rvv(v); afterCall(st, d, &r); };
	auto none = [&]() { afterCall(st, d, nullptr); };
	unsigned w = d.w;
	switch (F->getIntrinsicID()) {
	case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
		u64 n = concretize(st, a[2].v); if (!n) { none(); return; } u64 dst = concretize(st, a[0].v), src = concretize(st, a[1].v); memCopy(st, dst, src, n); none(); return; }
	case Intrinsic::memset: case Intrinsic::memset_inline: {
		u64 n = concretize(st, a[2].v); if (!n) { none(); return; } u64 dst = concretize(st, a[0].v); checkAcc(st, dst, n, true, "memset"); u64 off = (dst & 0xffffffff) - OFF0;
		Obj* o = st.mem.wr(idOf(dst)); Val b = a[1].v; if (b.sym) o->symInit();
		for (u64 i = 0; i < n; i++) { if (!b.sym) { o->c[off + i] = b.c; o->st[off + i] = B_CONC; } else { o->st[off + i] = B_SYM; o->s[off + i].e = b.e; o->s[off + i].ew = 8; o->s[off + i].idx = 0; } } none(); return; }
	case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::donothing: case Intrinsic::invariant_end: case Intrinsic::stackrestore: none(); return;
	case Intrinsic::stacksave: case Intrinsic::invariant_start: ret(cv(64, 0)); return;
	case Intrinsic::trap: throwPath(st, "trap"); return;
	case Intrinsic::expect: { RV r = a[0]; afterCall(st, d, &r); return; }
	case Intrinsic::is_constant: ret(cv(1, 0)); return;
	case Intrinsic::objectsize: ret(cv(w, ~0ull)); return;
	case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: {
		auto id = F->getIntrinsicID(); CmpInst::Predicate p = id == Intrinsic::umin ? CmpInst::ICMP_ULT : id == Intrinsic::umax ? CmpInst::ICMP_UGT : id == Intrinsic::smin ? CmpInst::ICMP_SLT : CmpInst::ICMP_SGT;
		ret(vIte(vIcmp(p, a[0].v, a[1].v), a[0].v, a[1].v)); return; }
	case Intrinsic::abs: { Val x = a[0].v; ret(vIte(vIcmp(CmpInst::ICMP_SLT, x, cv(x.w, 0)), vBin(Instruction::Sub, cv(x.w, 0), x), x)); return; }
	case Intrinsic::bswap: { Val x = a[0].v; unsigned nb = x.w / 8; Val r = vExtract(x, 7, 0); for (unsigned i = 1; i < nb; i++) r = vConcat(r, vExtract(x, 8 * i + 7, 8 * i)); ret(r); return; }
	case Intrinsic::ctpop: { Val x = a[0].v; Val r = cv(x.w, 0); if (!x.sym) { ret(cv(x.w, __builtin_popcountll(x.c))); return; } for (unsigned i = 0; i < x.w; i++) r = vAdd(r, vZext(vExtract(x, i, i), x.w)); ret(r); return; }
	case Intrinsic::ctlz: { Val x = a[0].v; Val r = cv(x.w, x.w); for (unsigned i = 0; i < x.w; i++) r = vIte(vExtract(x, i, i), cv(x.w, x.w - 1 - i), r); ret(r); return; }
	case Intrinsic::cttz: { Val x = a[0].v; Val r = cv(x.w, x.w); for (int i = x.w - 1; i >= 0; i--) r = vIte(vExtract(x, i, i), cv(x.w, i), r); ret(r); return; }
	case Intrinsic::fshl: case Intrinsic::fshr: {
		Val hi = a[0].v, lo = a[1].v, s = a[2].v; unsigned W = hi.w; bool left = F->getIntrinsicID() == Intrinsic::fshl;
		Val sm = vBin(Instruction::URem, s, cv(W, W)); Val cat = vConcat(hi, lo);
		Z3_ast sh = toE(vZext(sm, 2 * W)); Z3_ast r = left ? Z3_mk_bvshl(C, toE(cat), sh) : Z3_mk_bvlshr(C, toE(cat), sh);
		Val x = simp(mkE(r, 2 * W)); ret(simp(left ? vExtract(x, 2 * W - 1, W) : vExtract(x, W - 1, 0))); return; }
	case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
		auto id = F->getIntrinsicID(); Val x = a[0].v, y = a[1].v; unsigned W = x.w; bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
		unsigned op = (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? Instruction::Add : (id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow) ? Instruction::Sub : Instruction::Mul;
		Val r = vBin(op, x, y); Val X = sg ? vSext(x, 2 * W) : vZext(x, 2 * W), Y = sg ? vSext(y, 2 * W) : vZext(y, 2 * W), R = vBin(op, X, Y), RR = sg ? vSext(r, 2 * W) : vZext(r, 2 * W);
		Val ov = simp(vNot1(vEq(R, RR))); RV o; o.agg = std::make_shared<std::vector<RV>>(); o.agg->push_back(rvv(r)); o.agg->push_back(rvv(ov)); afterCall(st, d, &o); return; }
	case Intrinsic::usub_sat: { Val x = a[0].v, y = a[1].v; ret(vIte(vIcmp(CmpInst::ICMP_ULT, x, y), cv(x.w, 0), vBin(Instruction::Sub, x, y))); return; }
	case Intrinsic::fabs: { Val x = a[0].v; ret(vBin(Instruction::And, x, cv(x.w, maskw(x.w) >> 1))); return; }
	case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::round: case Intrinsic::rint: case Intrinsic::nearbyint: {
		Val x = a[0].v; auto id = F->getIntrinsicID();
		if (!x.sym) { double v = asD(x); ret(ofD(id == Intrinsic::floor ? std::floor(v) : id == Intrinsic::ceil ? std::ceil(v) : id == Intrinsic::trunc ? std::trunc(v) : id == Intrinsic::round ? std::round(v) : std::rint(v), x.w)); return; }
		Z3_ast rm = keep(id == Intrinsic::floor ? Z3_mk_fpa_rtn(C) : id == Intrinsic::ceil ? Z3_mk_fpa_rtp(C) : id == Intrinsic::trunc ? Z3_mk_fpa_rtz(C) : id == Intrinsic::round ? Z3_mk_fpa_rna(C) : Z3_mk_fpa_rne(C));
		ret(fromFP(Z3_mk_fpa_round_to_integral(C, rm, toFP(x)), x.w)); return; }
	case Intrinsic::load_relative: break;
	case Intrinsic::eh_typeid_for: ret(cv(32, 1)); return;
	case Intrinsic::threadlocal_address: ret(a[0].v); return;
	case Intrinsic::is_fpclass: {
		Val x = a[0].v; u64 m = a[1].v.c; if (m == 3 || m == 2 || m == 1) { ret(vFcmp(CmpInst::FCMP_UNO, x, x)); return; }
		Val abs = vBin(Instruction::And, x, cv(x.w, maskw(x.w) >> 1)); u64 inf = x.w == 64 ? 0x7ff0000000000000ull : 0x7f800000ull;
		if (m == 516) { ret(vEq(abs, cv(x.w, inf))); return; } break; }
	default: break;
	}
	fatal("intrinsic " + F->getName().str());
}

static u64 hashName(const std::string& s) { u64 h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }

static bool callBuiltin(State& st, const DI& d, const Function* F, const std::string& n, std::vector<RV>& a)
{
	auto ret = [&](const Val& v) { RV r = rvv(v); afterCall(st, d, &r); return true; };
	auto none = [&]() { afterCall(st, d, nullptr); return true; };
	auto V = [&](unsigned i) -> const Val& { return a[i].v; };
	if (n.rfind("__vc_", 0) == 0) {
		if (n == "__vc_any") {
			u64 np = concretize(st, V(0)); u64 w = concretize(st, V(1)); std::string nm = cstr(st, np);
			int k = st.anyCount[nm]++; std::string full = k ? nm + "#" + std::to_string(k) : nm;
			Z3_ast e = Z3_mk_const(C, Z3_mk_string_symbol(C, ("in:" + full).c_str()), w == 1 ? Z3_mk_bool_sort(C) : bvSort(w)); Val v = mkE(e, w);
			st.anys.push_back({ nm, (unsigned)w, v }); return ret(w < 64 ? vZext(v, 64) : v);
		}
		if (n == "__vc_assume") { Val c = vNot1(vEq(V(0), cv(V(0).w, 0))); if (!addPC(st, c)) throw PathAbort{ "infeasible" }; return none(); }
		if (n == "__vc_assert") { Val c = vNot1(vEq(V(0), cv(V(0).w, 0))); obligation(st, c, cstr(st, concretize(st, V(1)))); return none(); }
		if (n == "__vc_reach") { reached[cstr(st, concretize(st, V(0)))]++; return none(); }
		if (n == "__vc_choose") {
			// n-way split with concrete values (complete case analysis)
			std::string nm = cstr(st, concretize(st, V(1))); u64 cnt = concretize(st, V(0));
			int k = st.anyCount[nm]++;
			if (nm == "shard" && shardN > 1) {
				bool first = true; u64 mine = 0;
				for (u64 i = shardK; i < cnt; i += shardN) { if (first) { mine = i; first = false; continue; } auto ns = forkState(st); ns->anys.push_back({ nm, 32, cv(32, i) }); RV r = rvc(32, i); afterCall(*ns, d, &r); work.push_back(std::move(ns)); }
				if (first) throw PathAbort{ "infeasible" };
				st.anys.push_back({ nm, 32, cv(32, mine) }); return ret(cv(32, mine));
			}
			for (u64 i = 1; i < cnt; i++) { auto ns = forkState(st); ns->anys.push_back({ nm, 32, cv(32, i) }); RV r = rvc(32, i); afterCall(*ns, d, &r); work.push_back(std::move(ns)); }
			(void)k; st.anys.push_back({ nm, 32, cv(32, 0) }); return ret(cv(32, 0));
		}
		if (n == "__vc_note") { st.notes.push_back({ cstr(st, concretize(st, V(0))), 64, V(1) }); return none(); }
		if (n == "__vc_concretize") { u64 x = concretize(st, V(0)); return ret(cv(64, x)); }
		if (n == "__vc_abstract_arith") { abstractArith = V(0).c != 0; return ret(cv(32, 0)); }
		if (n == "__vc_decide") { bool b = decide(st, vNot1(vEq(V(0), cv(V(0).w, 0)))); return ret(cv(32, b)); }
		if (n == "__vc_native") return ret(cv(32, 0));
		if (n == "__vc_is_sym") return ret(cv(32, V(0).sym));
		if (n == "__vc_fmt_double") {
			u64 op = concretize(st, V(0)); std::string f = cstr(st, concretize(st, V(1))); char b[128]; snprintf(b, sizeof b, f.c_str(), asD(cv(64, concretize(st, V(2)))));
			size_t L = strlen(b); for (size_t i = 0; i <= L; i++) memStore(st, cv(64, op + i), cv(8, (unsigned char) b[i])); return ret(cv(32, L)); }
		if (n == "__vc_stop") throw PathAbort{ "stop" };
		fatal("unknown intrinsic " + n);
	}
	if (!F->isDeclaration() && n != "_Znwm" && n != "_ZdlPv") {
		return false;
	}
	if (n == "_Znwm" || n == "_Znam" || n == "malloc" || n == "_ZnwmSt11align_val_t" || n == "_ZnamRKSt9nothrow_t" || n == "_ZnwmRKSt9nothrow_t") {
		u64 sz = concretize(st, V(0), 64); if (sz > (1ull << 30)) { throwPath(st, "allocation of " + std::to_string(sz) + " bytes"); } u64 p = st.mem.alloc(sz, 2, false, false); return ret(cv(64, p)); }
	if (n == "calloc") { u64 sz = concretize(st, V(0)) * concretize(st, V(1)); return ret(cv(64, st.mem.alloc(sz, 2, true, false))); }
	if (n == "realloc") { u64 p = concretize(st, V(0)), sz = concretize(st, V(1), 64); u64 q = st.mem.alloc(sz, 2, false, false); if (p) { Obj* o = st.mem.get(idOf(p)); if (!o) memErr(st, "realloc of an invalid pointer"); u64 os = o->size; memCopy(st, q, p, std::min(os, sz)); st.mem.release(idOf(p), false); } return ret(cv(64, q)); }
	if (n == "_ZdlPv" || n == "_ZdaPv" || n == "free" || n == "_ZdlPvm" || n == "_ZdaPvm" || n == "_ZdlPvSt11align_val_t" || n == "_ZdlPvmSt11align_val_t") {
		u64 p = concretize(st, V(0)); if (p) { Obj* o = st.mem.get(idOf(p)); if (!o || o->kind != 2 || (p & 0xffffffff) != OFF0) memErr(st, "free of an invalid pointer " + hex(p)); st.mem.release(idOf(p), false); } return none(); }
	if (n == "memcpy" || n == "memmove" || n == "mempcpy") { u64 k = concretize(st, V(2)); if (k) memCopy(st, concretize(st, V(0)), concretize(st, V(1)), k); return ret(n == "mempcpy" ? vAdd(V(0), cv(64, k)) : V(0)); }
	if (n == "memset") { u64 k = concretize(st, V(2), 64); if (k) { u64 dst = concretize(st, V(0)); checkAcc(st, dst, k, true, "memset"); for (u64 i = 0; i < k; i++) memStore(st, cv(64, dst + i), vTrunc(V(1), 8)); } return ret(V(0)); }
	if (n == "__cxa_atexit" || n == "__cxa_guard_release" || n == "__cxa_guard_abort" || n == "atexit") { if (n == "__cxa_guard_release") memStore(st, V(0), cv(8, 1)); if (d.dst >= 0) return ret(cv(32, 0)); return none(); }
	if (n == "__cxa_guard_acquire") { Val g = memLoad(st, V(0), 8); u64 x = concretize(st, g); return ret(cv(32, x ? 0 : 1)); }
	if (n == "__cxa_pure_virtual") throwPath(st, "pure virtual call");
	if (n == "__cxa_throw" || n == "__cxa_rethrow" || n.rfind("_ZSt2", 0) == 0 && n.find("__throw_") != std::string::npos || n.rfind("_ZSt", 0) == 0 && n.find("__throw_") != std::string::npos) throwPath(st, demangle(n));
	if (n == "__cxa_allocate_exception") { return ret(cv(64, st.mem.alloc(concretize(st, V(0)) + 64, 2, true, false))); }
	if (n == "abort" || n == "exit" || n == "_exit" || n == "_ZSt9terminatev" || n == "__assert_fail" || n == "__stack_chk_fail") throwPath(st, n);
	if (n == "puts" || n == "printf" || n == "fflush" || n == "putchar" || n == "fprintf") { modelsUsed.insert(n + " (no effect)"); return ret(cv(32, 0)); }
	if (n == "_ZNSt8ios_base4InitC1Ev" || n == "_ZNSt8ios_base4InitD1Ev") return none();
	if (n.rfind("_ZNSt13basic_fstream", 0) == 0 || n.rfind("_ZNSt14basic_ofstream", 0) == 0 || n.rfind("_ZNSt14basic_ifstream", 0) == 0 || n.rfind("_ZNKSt13basic_fstream", 0) == 0 || n.rfind("_ZNKSt14basic_ofstream", 0) == 0 || n.rfind("_ZNKSt14basic_ifstream", 0) == 0
		|| n.rfind("_ZNSt13basic_filebuf", 0) == 0 || n.rfind("_ZNKSt12__basic_file", 0) == 0 || n.rfind("_ZNSt12__basic_file", 0) == 0 || n.rfind("_ZNSt6locale", 0) == 0 || n.rfind("_ZNSt8ios_base", 0) == 0 || n.rfind("_ZNSt9basic_iosIcSt11char_traitsIcEE", 0) == 0) {
		modelsUsed.insert("file streams (never open)"); if (d.dst >= 0) return ret(cv(d.w, 0)); return none(); }
	if (n == "pthread_create" || n == "__pthread_key_create") return ret(cv(32, 0));
	if (n == "strtod") {
		u64 p = concretize(st, V(0)), ep = concretize(st, V(1)); std::string t = cstr(st, p); char* e; double v = strtod(t.c_str(), &e);
		if (ep) memStore(st, cv(64, ep), cv(64, p + (e - t.c_str()))); return ret(ofD(v, 64)); }
	if (n == "llround" || n == "lround") { Val x = V(0); if (!x.sym) return ret(cv(64, (u64) llround(asD(x)))); Z3_ast rm = keep(Z3_mk_fpa_rna(C)); return ret(mkE(Z3_mk_fpa_to_sbv(C, rm, toFP(x), 64), 64)); }
	if (n == "modf") { Val x = V(0); if (x.sym) fatal("modf of a symbolic value"); double ip, r = modf(asD(x), &ip); memStore(st, V(1), ofD(ip, 64)); return ret(ofD(r, 64)); }
	if (n == "fmod" || n == "fmodf") { return ret(fpBin(Instruction::FRem, V(0), V(1))); }
	return false;
}
