// P05: every built-in MIPS macro expands to instructions with the documented effect.
// The emitted words run on a small MIPS interpreter (part of the specification) with arbitrary register and memory contents.
// assumes: r1 is the assembler temporary (macro operands other than r1); 64-bit registers hold 32-bit values sign-extended
// assumes: immediate -2^63 is not used as macro immediate
// assumes: offsets of unaligned accesses are 32-bit values
#include "common.h"
static std::string num(uint64_t v) { std::string n; do { n.insert(n.begin(), char('0' + v % 10)); v /= 10; } while (v); return n; }
static const char* const SYS[4] = { ".psx", ".ps2", ".psp", ".n64" };
static const char* const REGN[32] = { "r0", "at", "v0", "v1", "a0", "a1", "a2", "a3", "t0", "t1", "t2", "t3", "t4", "t5", "t6", "t7",
	"s0", "s1", "s2", "s3", "s4", "s5", "s6", "s7", "t8", "t9", "k0", "k1", "gp", "sp", "fp", "ra" };
static const int64_t BASE = 0x80010000;
struct Access { unsigned op, reg; uint32_t addr; };
struct Cpu
{
	uint64_t r[32], r0[32];
	bool wide = false;               // arbitrary 64-bit contents (dabs, uld, usd)
	bool bad = false;
	std::vector<Access> acc;
	uint32_t fpr = 0; int fprn = -1; // mtc1
	bool branched = false, cond = false, likely = false;
	uint32_t target = 0;
	unsigned words = 0;
	// memory: 32 bytes around an aligned address
	bool mem = false, big = false;
	uint32_t memBase = 0;
	uint8_t m[32];
	static uint64_t sx(uint32_t v) { return (uint64_t) (int64_t) (int32_t) v; }
	Cpu(bool w = false) : wide(w) { for (int i = 0; i < 32; i++) r[i] = r0[i] = 0; }
	void fill(unsigned n) { if (n) r[n] = r0[n] = wide ? __vc_any("reg", 64) : sx((uint32_t) __vc_any("reg", 32)); }
	void set(unsigned n, uint64_t v) { if (n) r[n] = v; }
	unsigned at(uint32_t a) { uint32_t o = (uint32_t) __vc_concretize(a - memBase); if (o >= 32) { bad = true; return 0; } return o; }
	void step(uint32_t w, uint32_t pc)
	{
		words++;
		if (branched) { bad = true; return; }
		unsigned op = (unsigned) __vc_concretize(w >> 26), rs = (unsigned) __vc_concretize((w >> 21) & 31), rt = (unsigned) __vc_concretize((w >> 16) & 31);
		uint32_t imm = w & 0xFFFF, simm = (uint32_t) (int32_t) (int16_t) imm;
		if (op == 0)
		{
			unsigned rd = (unsigned) __vc_concretize((w >> 11) & 31), fn = (unsigned) __vc_concretize(w & 63);
			uint32_t sa = (w >> 6) & 31, t = (uint32_t) r[rt], s = (uint32_t) r[rs];
			bool rot = (fn == 2 && rs == 1), rotv = fn == 6 && __vc_decide(sa == 1);
			if (fn == 0) set(rd, sx(t << sa));
			else if (rot) set(rd, sx((t >> sa) | (t << ((32 - sa) & 31))));
			else if (fn == 2 && rs == 0) set(rd, sx(t >> sa));
			else if (fn == 3) set(rd, sx((uint32_t) ((int32_t) t >> sa)));
			else if (fn == 4) set(rd, sx(t << (s & 31)));
			else if (rotv) set(rd, sx((t >> (s & 31)) | (t << ((32 - (s & 31)) & 31))));
			else if (fn == 6) set(rd, sx(t >> (s & 31)));
			else if (fn == 0x3F) set(rd, (uint64_t) ((int64_t) r[rt] >> (32 + sa)));
			else if (fn == 0x21) set(rd, sx(s + t));
			else if (fn == 0x23) set(rd, sx(s - t));
			else if (fn == 0x2F) set(rd, r[rs] - r[rt]);
			else if (fn == 0x2D) set(rd, r[rs] + r[rt]);
			else if (fn == 0x25) set(rd, r[rs] | r[rt]);
			else if (fn == 0x26) set(rd, r[rs] ^ r[rt]);
			else if (fn == 0x2A) set(rd, (int64_t) r[rs] < (int64_t) r[rt]);
			else if (fn == 0x2B) set(rd, r[rs] < r[rt]);
			else bad = true;
			return;
		}
		uint32_t a = (uint32_t) r[rs] + simm;
		switch (op)
		{
		case 0x0F: if (rs) bad = true; set(rt, sx(imm << 16)); return;
		case 0x09: set(rt, sx((uint32_t) r[rs] + simm)); return;
		case 0x0A: set(rt, (int64_t) r[rs] < (int64_t) (int32_t) simm); return;
		case 0x0B: set(rt, r[rs] < sx(simm)); return;
		case 0x0D: set(rt, r[rs] | imm); return;
		case 0x0E: set(rt, r[rs] ^ imm); return;
		case 0x04: case 0x05: case 0x14: case 0x15:
			branched = true; likely = op >= 0x14;
			cond = (r[rs] == r[rt]) == (op == 0x04 || op == 0x14);
			target = pc + 4 + (simm << 2);
			return;
		case 0x11: // mtc1
			if (rs != 4) { bad = true; return; }
			fprn = (int) __vc_concretize((w >> 11) & 31); fpr = (uint32_t) r[rt];
			return;
		}
		if (op < 0x1A || op == 0x1C || op == 0x1D || op == 0x1E || op == 0x1F || op == 0x2F || op == 0x33 || op == 0x3B) { bad = true; return; }
		if (!mem) { acc.push_back({ op, rt, a }); if (op < 0x28 || op == 0x37) set(rt, 0); return; }
		unsigned k = at(a);
		if (bad) return;
		auto part = [&](bool load, bool left, unsigned n) {
			// the bytes of the aligned n-byte unit that are part of the access
			unsigned u = k & ~(n - 1), o = k - u;
			uint64_t v = r[rt];
			// significance of the byte at unit offset i: little endian i, big endian n-1-i
			for (unsigned i = 0; i < n; i++)
			{
				// "left" covers the byte at o and all less significant bytes of the unit, moved to the top of the register
				unsigned si = big ? n - 1 - i : i, so = big ? n - 1 - o : o;
				if (left ? si > so : si < so) continue;
				unsigned bit = left ? 8 * (n - 1 - so + si) : 8 * (si - so);
				if (load) v = (v & ~((uint64_t) 0xFF << bit)) | ((uint64_t) m[u + i] << bit);
				else m[u + i] = (uint8_t) (v >> bit);
			}
			if (load) set(rt, n == 4 ? sx((uint32_t) v) : v);
		};
		switch (op)
		{
		case 0x20: set(rt, (uint64_t) (int64_t) (int8_t) m[k]); return;
		case 0x24: set(rt, m[k]); return;
		case 0x28: m[k] = (uint8_t) r[rt]; return;
		case 0x22: part(true, true, 4); return;
		case 0x26: part(true, false, 4); return;
		case 0x1A: part(true, true, 8); return;
		case 0x1B: part(true, false, 8); return;
		case 0x2A: part(false, true, 4); return;
		case 0x2E: part(false, false, 4); return;
		case 0x2C: part(false, true, 8); return;
		case 0x2D: part(false, false, 8); return;
		default: bad = true; return;
		}
	}
	void run(Asm& as, bool be)
	{
		if (as.size() & 3) bad = true;
		for (int i = 0; i < as.size() && !bad; i += 4) step(be ? as.be32(i) : as.u32(i), (uint32_t) BASE + i);
	}
	// only register d (and the assembler temporary) changed
	bool frame(unsigned d) const { bool g = true; for (unsigned i = 2; i < 32; i++) if (i != d) g &= r[i] == r0[i]; return g; }
};
static const char* const FORM[3] = { "val", "(half+half2)", "val-8+8" };
// how the immediate is spelled; all have the value v
static std::string spell(Asm& as, unsigned form, int64_t v)
{
	as.at(BASE);
	if (form == 1) { as.label("half", (int64_t) ((uint64_t) v - 0x1357)).label("half2", 0x1357); return FORM[1]; }
	as.label("val", v);
	return FORM[form];
}
static bool fits(int64_t v) { return v >= -0xFFFFFFFFll && v <= 0xFFFFFFFFll; }

// li, la, their halves
// expect: P05_e2e_li_sh loaded refused
VC_ENTRY(P05_e2e_li_sh)
{
	unsigned k = __vc_choose(4 * 3 * 4, "shard");
	unsigned sys = k % 4, form = k / 4 % 3, kind = k / 12;
	unsigned rd = sys == 0 ? 4 : sys == 1 ? 31 : sys == 2 ? 16 : 2;
	int64_t v = (int64_t) __vc_any("v", 64);
	__vc_assume(v != INT64_MIN);
	Asm as;
	std::string e = spell(as, form, v), R = REGN[rd], t;
	if (kind == 0) t = "li " + R + "," + e;
	else if (kind == 1) t = "la " + R + "," + e;
	else if (kind == 2) t = "li.u " + R + "," + e + "\nli.l " + R + "," + e;
	else t = "la.u " + R + "," + e + "\nla.l " + R + "," + e;
	bool res = as.run(std::string(SYS[sys]) + "\n" + t + "\n");
	std::string lab = "mips macro " + std::string(SYS[sys] + 1) + " '" + t + "': ";
	__vc_assert(res == fits(v), (lab + "accepted exactly for 32-bit values").c_str());
	if (!res) { __vc_assert(as.f->writes == 0, (lab + "nothing written").c_str()); __vc_reach("refused"); return; }
	Cpu c;
	for (unsigned i = 1; i < 32; i++) c.fill(i);
	c.run(as, sys == 3);
	__vc_assert(!c.bad && c.acc.empty() && !c.branched, (lab + "only arithmetic").c_str());
	__vc_assert((uint32_t) c.r[rd] == (uint32_t) v, (lab + "loads the value").c_str());
	__vc_assert(c.frame(rd), (lab + "other registers kept").c_str());
	__vc_reach("loaded");
}

// li.s and float immediates
// expect: P05_e2e_lis_sh loaded
// bounded: P05_e2e_lis_sh a fixed list of float constants
VC_ENTRY(P05_e2e_lis_sh)
{
	static const struct { const char* t; uint32_t bits; } F[10] = { { "1.0", 0x3F800000 }, { "-1.0", 0xBF800000 }, { "325.0", 0x43A28000 }, { "0.1", 0x3DCCCCCD },
		{ "0.0", 0 }, { "3.5e10", 0x5102629A }, { "-0.5", 0xBF000000 }, { "16777216.0", 0x4B800000 }, { "3.14159265", 0x40490FDB }, { "float(5.0/2)", 0x40200000 } };
	unsigned k = __vc_choose(10 * 4 * 2, "shard"), sys = k / 10 % 4;
	const auto& f = F[k % 10];
	bool fp = k / 40;
	Asm as;
	as.at(BASE);
	std::string t = std::string(fp ? "li.s f7," : "li t0,") + f.t;
	bool res = as.run(std::string(SYS[sys]) + "\n" + t + "\n");
	std::string lab = "mips macro " + std::string(SYS[sys] + 1) + " '" + t + "': ";
	if (fp && sys == 0) { __vc_assert(!res, (lab + "the PSX has no floating point registers").c_str()); return; }
	__vc_assert(res, (lab + "accepted").c_str());
	if (!res) return;
	Cpu c;
	for (unsigned i = 1; i < 32; i++) c.fill(i);
	c.run(as, sys == 3);
	__vc_assert(!c.bad && c.acc.empty() && !c.branched, (lab + "only arithmetic").c_str());
	__vc_assert(fp ? c.fprn == 7 && c.fpr == f.bits : (uint32_t) c.r[8] == f.bits, (lab + "loads the bits of the number").c_str());
	__vc_assert(c.frame(fp ? 0 : 8), (lab + "other registers kept").c_str());
	__vc_reach("loaded");
}

struct MemOp { const char* n; unsigned op; char reg; unsigned systems; };
static const MemOp MEMOPS[] = {
	{ "lb", 0x20, 'g', 15 }, { "lbu", 0x24, 'g', 15 }, { "lh", 0x21, 'g', 15 }, { "lhu", 0x25, 'g', 15 }, { "lw", 0x23, 'g', 15 },
	{ "lwu", 0x27, 'g', 10 }, { "ld", 0x37, 'g', 10 }, { "ll", 0x30, 'g', 12 }, { "lld", 0x34, 'g', 8 },
	{ "sb", 0x28, 'g', 15 }, { "sh", 0x29, 'g', 15 }, { "sw", 0x2B, 'g', 15 }, { "sd", 0x3F, 'g', 10 }, { "sc", 0x38, 'g', 12 }, { "scd", 0x3C, 'g', 8 },
	{ "lwc1", 0x31, 'f', 14 }, { "l.s", 0x31, 'f', 14 }, { "swc1", 0x39, 'f', 14 }, { "s.s", 0x39, 'f', 14 },
	{ "ldc1", 0x35, 'f', 8 }, { "l.d", 0x35, 'f', 8 }, { "sdc1", 0x3D, 'f', 8 }, { "s.d", 0x3D, 'f', 8 } };
static const unsigned NMEM = sizeof(MEMOPS) / sizeof(MEMOPS[0]);

// loads and stores at an address
// expect: P05_e2e_mem_sh accessed refused
VC_ENTRY(P05_e2e_mem_sh)
{
	unsigned k = __vc_choose(NMEM * 4 * 2, "shard");
	const MemOp& m = MEMOPS[k % NMEM];
	unsigned sys = k / NMEM % 4;
	bool halves = k / NMEM / 4;
	if (!(m.systems >> sys & 1)) return;
	int64_t v = (int64_t) __vc_any("v", 64);
	Asm as;
	std::string e = spell(as, k % 3, v), t;
	std::string R = m.reg == 'f' ? "f6" : sys == 1 ? "ra" : "a2";
	unsigned rn = m.reg == 'f' ? 6 : sys == 1 ? 31 : 6;
	if (halves) t = std::string(m.n) + ".u " + R + "," + e + "\n" + m.n + ".l " + R + "," + e;
	else t = std::string(m.n) + " " + R + "," + e;
	bool res = as.run(std::string(SYS[sys]) + "\n" + t + "\n");
	std::string lab = "mips macro " + std::string(SYS[sys] + 1) + " '" + t + "': ";
	__vc_assert(res == (v >= 0 && v <= 0xFFFFFFFFll), (lab + "accepted exactly for 32-bit addresses").c_str());
	if (!res) { __vc_assert(as.f->writes == 0, (lab + "nothing written").c_str()); __vc_reach("refused"); return; }
	Cpu c;
	for (unsigned i = 1; i < 32; i++) c.fill(i);
	c.run(as, sys == 3);
	__vc_assert(!c.bad && !c.branched && c.acc.size() == 1, (lab + "one access").c_str());
	if (c.bad || c.acc.size() != 1) return;
	__vc_assert(c.acc[0].op == m.op && c.acc[0].reg == rn, (lab + "the operation and register").c_str());
	__vc_assert(c.acc[0].addr == (uint32_t) v, (lab + "the address").c_str());
	bool load = (m.op >> 3) != 5 && (m.op >> 3) != 7;
	if (m.op == 0x37) load = true;
	if (m.op == 0x3F) load = false;
	__vc_assert(c.frame(m.reg == 'g' && load ? rn : 0), (lab + "other registers kept").c_str());
	__vc_reach("accessed");
}

// register operands: numbers for d, s, t with all aliasings
static const unsigned REGS[8][3] = { { 4, 5, 6 }, { 4, 4, 6 }, { 4, 5, 4 }, { 4, 5, 5 }, { 4, 4, 4 }, { 31, 16, 2 }, { 24, 0, 8 }, { 8, 9, 0 } };
enum { LT, LTU, GT, GTU, GE, GEU, LE, LEU, NE, EQ };
static const char* const CONDN[10] = { "lt", "ltu", "gt", "gtu", "ge", "geu", "le", "leu", "ne", "eq" };
static bool holds(unsigned c, uint32_t a, uint32_t b)
{
	int32_t sa = (int32_t) a, sb = (int32_t) b;
	switch (c)
	{
	case LT: return sa < sb; case LTU: return a < b; case GT: return sa > sb; case GTU: return a > b;
	case GE: return sa >= sb; case GEU: return a >= b; case LE: return sa <= sb; case LEU: return a <= b;
	case NE: return a != b; default: return a == b;
	}
}
// expect: P05_e2e_set_sh set refused
VC_ENTRY(P05_e2e_set_sh)
{
	unsigned k = __vc_choose(10 * 8 * 2 * 2, "shard");
	unsigned cn = k % 10, sys = (k / 160) ? 3 : k % 3;
	const unsigned* R = REGS[k / 10 % 8];
	bool imm = k / 80 % 2;
	if (!imm && cn < GE) return;     // slt/sltu are instructions, sgt/sgtu have no register form
	int64_t v = imm ? (int64_t) __vc_any("v", 64) : 0;
	__vc_assume(v != INT64_MIN);
	Asm as;
	std::string e = spell(as, k / 10 % 3, v), t = std::string("s") + CONDN[cn] + " " + REGN[R[0]] + "," + REGN[R[1]] + "," + (imm ? e : std::string(REGN[R[2]]));
	bool res = as.run(std::string(SYS[sys]) + "\n" + t + "\n");
	std::string lab = "mips macro " + std::string(SYS[sys] + 1) + " '" + t + "': ";
	__vc_assert(res == fits(v), (lab + "accepted exactly for 32-bit values").c_str());
	if (!res) { __vc_assert(as.f->writes == 0, (lab + "nothing written").c_str()); __vc_reach("refused"); return; }
	Cpu c;
	for (unsigned i = 1; i < 32; i++) c.fill(i);
	c.run(as, sys == 3);
	__vc_assert(!c.bad && c.acc.empty() && !c.branched, (lab + "only arithmetic").c_str());
	uint32_t b = imm ? (uint32_t) v : (uint32_t) c.r0[R[2]];
	__vc_assert(c.r[R[0]] == (uint64_t) holds(cn, (uint32_t) c.r0[R[1]], b), (lab + "1 exactly when the relation holds").c_str());
	__vc_assert(c.frame(R[0]), (lab + "other registers kept").c_str());
	__vc_reach("set");
}

// expect: P05_e2e_branch_sh branch refused
VC_ENTRY(P05_e2e_branch_sh)
{
	unsigned k = __vc_choose(10 * 8 * 2 * 2, "shard");
	unsigned cn = k % 10, sys = 1 + (k / 10 + k / 80) % 3;
	const unsigned* R = REGS[k / 10 % 8];
	bool imm = k / 80 % 2, likely = k / 160;
	if (!imm && cn >= NE) return;    // beq/bne on registers are instructions
	if (likely == false && k % 4 == 0) sys = 0;
	int64_t v = imm ? (int64_t) __vc_any("v", 64) : 0, d = (int64_t) (int16_t) __vc_any("d", 16);
	__vc_assume(v != INT64_MIN);
	Asm as;
	std::string e = spell(as, k / 10 % 3, v);
	as.label("dest", BASE + 4 * d);
	bool dot = k / 10 % 4 == 1;
	std::string t = std::string("b") + CONDN[cn] + (likely ? "l" : "") + " " + REGN[R[1]] + "," + (imm ? e : std::string(REGN[R[2]])) + (dot ? ",." : ",dest");
	bool res = as.run(std::string(SYS[sys]) + "\n" + t + "\n");
	std::string lab = "mips macro " + std::string(SYS[sys] + 1) + " '" + t + "': ";
	bool near = dot || (d > -0x7FF0 && d < 0x7FF0);
	__vc_assume(near);
	__vc_assert(res == fits(v), (lab + "accepted exactly for 32-bit values").c_str());
	if (!res) { __vc_assert(as.f->writes == 0, (lab + "nothing written").c_str()); __vc_reach("refused"); return; }
	Cpu c;
	for (unsigned i = 1; i < 32; i++) c.fill(i);
	c.run(as, sys == 3);
	__vc_assert(!c.bad && c.acc.empty() && c.branched, (lab + "ends with a branch").c_str());
	uint32_t b = imm ? (uint32_t) v : (uint32_t) c.r0[R[2]];
	__vc_assert(c.cond == holds(cn, (uint32_t) c.r0[R[1]], b), (lab + "taken exactly when the relation holds").c_str());
	__vc_assert(c.target == (uint32_t) (dot ? BASE : BASE + 4 * d), (lab + "the destination").c_str());
	__vc_assert(c.likely == likely, (lab + "likely form").c_str());
	__vc_assert(c.frame(0), (lab + "registers kept").c_str());
	__vc_reach("branch");
}

// expect: P05_e2e_rot_sh rotated
VC_ENTRY(P05_e2e_rot_sh)
{
	unsigned k = __vc_choose(4 * 8 * 2 * 2, "shard");
	unsigned sys = k % 4;
	const unsigned* R = REGS[k / 4 % 8];
	bool imm = k / 32 % 2, left = k / 64;
	int64_t v = imm ? (int64_t) __vc_any("v", 64) : 0;
	Asm as;
	std::string e = spell(as, k / 4 % 3, v), t = std::string(left ? "rol " : "ror ") + REGN[R[0]] + "," + REGN[R[1]] + "," + (imm ? e : std::string(REGN[R[2]]));
	bool res = as.run(std::string(SYS[sys]) + "\n" + t + "\n");
	std::string lab = "mips macro " + std::string(SYS[sys] + 1) + " '" + t + "': ";
	if (v >= 0 && v < 32) __vc_assert(res, (lab + "accepted").c_str());
	if (!res) { __vc_assert(as.f->writes == 0, (lab + "nothing written").c_str()); return; }
	Cpu c;
	for (unsigned i = 1; i < 32; i++) c.fill(i);
	c.run(as, sys == 3);
	__vc_assert(!c.bad && c.acc.empty() && !c.branched, (lab + "only arithmetic").c_str());
	uint32_t n = (imm ? (uint32_t) v : (uint32_t) c.r0[R[2]]) & 31, s = (uint32_t) c.r0[R[1]];
	uint32_t want = left ? (s << n) | (s >> ((32 - n) & 31)) : (s >> n) | (s << ((32 - n) & 31));
	__vc_assert((uint32_t) c.r[R[0]] == want, (lab + "the rotated value").c_str());
	__vc_assert(c.frame(R[0]), (lab + "other registers kept").c_str());
	__vc_reach("rotated");
}

// expect: P05_e2e_abs_sh absolute
VC_ENTRY(P05_e2e_abs_sh)
{
	unsigned k = __vc_choose(4 * 8 * 2, "shard");
	unsigned sys = k % 4;
	const unsigned* R = REGS[k / 4 % 8];
	bool dbl = k / 32;
	if (dbl && sys != 1 && sys != 3) return;
	Asm as;
	as.at(BASE);
	std::string t = std::string(dbl ? "dabs " : "abs ") + REGN[R[0]] + "," + REGN[R[1]];
	bool res = as.run(std::string(SYS[sys]) + "\n" + t + "\n");
	std::string lab = "mips macro " + std::string(SYS[sys] + 1) + " '" + t + "': ";
	__vc_assert(res, (lab + "accepted").c_str());
	if (!res) return;
	Cpu c(dbl);
	for (unsigned i = 1; i < 32; i++) c.fill(i);
	c.run(as, sys == 3);
	__vc_assert(!c.bad && c.acc.empty() && !c.branched, (lab + "only arithmetic").c_str());
	int64_t s = (int64_t) c.r0[R[1]];
	uint64_t want = s < 0 ? 0 - (uint64_t) s : (uint64_t) s;
	if (dbl) __vc_assert(c.r[R[0]] == want, (lab + "the absolute value").c_str());
	else __vc_assert((uint32_t) c.r[R[0]] == (uint32_t) want, (lab + "the absolute value").c_str());
	__vc_assert(c.frame(R[0]), (lab + "other registers kept").c_str());
	__vc_reach("absolute");
}

// unaligned accesses: name, bytes, sign extension
static const struct { const char* n; unsigned size; bool sign, load; unsigned systems; } UN[7] = { { "ulh", 2, true, true, 15 }, { "ulhu", 2, false, true, 15 },
	{ "ulw", 4, true, true, 15 }, { "uld", 8, true, true, 10 }, { "ush", 2, false, false, 15 }, { "usw", 4, false, false, 15 }, { "usd", 8, false, false, 10 } };
// expect: P05_e2e_una_sh unaligned refused
VC_ENTRY(P05_e2e_una_sh)
{
	unsigned k = __vc_choose(7 * 4 * 8 * 2, "shard");
	const auto& u = UN[k % 7];
	unsigned sys = k / 7 % 4, al = k / 28 % 8;
	bool noimm = k / 224;
	if (!(u.systems >> sys & 1)) return;
	unsigned rd = 4, rs = 5;
	bool same = noimm && al % 4 == 1 && u.size == 2;
	if (same) rd = rs;
	int64_t v = noimm ? 0 : (int64_t) (int32_t) __vc_any("v", 32);
	Asm as;
	std::string e = spell(as, 0, v), t = std::string(u.n) + " " + REGN[rd] + "," + (noimm ? std::string() : e) + "(" + REGN[rs] + ")";
	bool res = as.run(std::string(SYS[sys]) + "\n" + t + "\n");
	std::string lab = "mips macro " + std::string(SYS[sys] + 1) + " " + u.n + ": ";
	// offsets -0x8000..: all bytes must be reachable
	if (v >= -0x8000 && v + (int64_t) u.size - 1 < 0x8000) __vc_assert(res, (lab + "accepted").c_str());
	if (v < -0xFFFF || v > 0xFFFF || (v >= 0 && v < 0x8000 && v + (int64_t) u.size - 1 >= 0x8000)) __vc_assert(!res, (lab + "refused when out of reach").c_str());
	if (!res) { __vc_assert(as.f->writes == 0, (lab + "nothing written").c_str()); __vc_reach("refused"); return; }
	__vc_assume(v >= -0x8000);       // MIPS immediates below are bit patterns, as in P03
	if (__vc_decide(v >= 0x8000)) { __vc_assume(v <= 0x10000 - (int64_t) u.size); v -= 0x10000; }   // 16-bit pattern of a negative offset
	Cpu c(u.size == 8);
	for (unsigned i = 1; i < 32; i++) c.fill(i);
	c.mem = true;
	c.big = sys == 3;
	uint32_t w = (uint32_t) __vc_any("where", 32) & ~7u;
	c.memBase = w;
	c.r[rs] = c.r0[rs] = (uint64_t) (int64_t) (int32_t) (w + 8 + al - (uint32_t) v);
	uint8_t m0[32];
	for (unsigned i = 0; i < 32; i++) c.m[i] = m0[i] = (uint8_t) __vc_any("m", 8);
	uint64_t stored = c.r0[rd];
	c.run(as, sys == 3);
	__vc_assert(!c.bad && !c.branched, (lab + "only the bytes of the operand").c_str());
	if (c.bad) return;
	if (u.load)
	{
		uint64_t want = 0;
		for (unsigned i = 0; i < u.size; i++) want |= (uint64_t) m0[8 + al + i] << (8 * (c.big ? u.size - 1 - i : i));
		if (u.size == 2 && u.sign) want = (uint64_t) (int64_t) (int16_t) want;
		if (u.size == 4) want = Cpu::sx((uint32_t) want);
		__vc_assert(c.r[rd] == want, (lab + "the value").c_str());
		bool kept = true;
		for (unsigned i = 0; i < 32; i++) kept &= c.m[i] == m0[i];
		__vc_assert(kept, (lab + "memory kept").c_str());
		__vc_assert(c.frame(rd), (lab + "other registers kept").c_str());
	} else {
		bool in = true, out = true;
		for (unsigned i = 0; i < 32; i++)
		{
			if (i >= 8 + al && i < 8 + al + u.size) { unsigned j = i - 8 - al; in &= c.m[i] == (uint8_t) (stored >> (8 * (c.big ? u.size - 1 - j : j))); }
			else out &= c.m[i] == m0[i];
		}
		__vc_assert(in, (lab + "the bytes").c_str());
		__vc_assert(out, (lab + "other memory kept").c_str());
		__vc_assert(c.frame(0), (lab + "registers kept").c_str());
	}
	__vc_reach("unaligned");
}

// macros keep local label scopes and work in sequence
// expect: P05_e2e_seq_sh ran
// bounded: P05_e2e_seq_sh a fixed list of macro sequences
VC_ENTRY(P05_e2e_seq_sh)
{
	static const char* const A[4] = { "li a0,0x12345678", "li a0,-4", "lw a0,0x80012345", "sltu a0,a1,0x12345" };
	unsigned k = __vc_choose(4 * 4 * 2, "shard"), big = k / 16;
	static const unsigned LEN[4] = { 2, 1, 2, 3 };
	Asm as;
	as.at(BASE + 0x120);
	// @@x must still belong to "top" after macros; "." and forward labels inside macros
	std::string t = std::string(big ? ".n64" : ".psp") + "\ntop:\n@@x:\n" + A[k % 4] + "\n" + A[k / 4 % 4] + "\nblt a0,0x12345,@@x\nnop\nli a0,end\nla a1,@@x\nend:\n";
	bool res = as.run(t);
	std::string lab = "mips macro sequence '" + std::string(A[k % 4]) + "; " + A[k / 4 % 4] + "': ";
	__vc_assert(res, (lab + "accepted").c_str());
	if (!res) return;
	unsigned n = LEN[k % 4] + LEN[k / 4 % 4];
	uint32_t b = (uint32_t) BASE + 0x120, end = b + 4 * (n + 4 + 1 + 2 + 2);
	__vc_assert(as.size() == 4 * (n + 4 + 1 + 2 + 2), (lab + "size").c_str());
	if (as.size() != 4 * (n + 4 + 1 + 2 + 2)) return;
	auto w = [&](unsigned i) { return big ? as.be32(4 * i) : as.u32(4 * i); };
	Cpu br;
	br.fill(4);
	for (unsigned i = 0; i < 4; i++) br.step(w(n + i), b + 4 * (n + i));
	__vc_assert(br.branched && br.target == b && br.cond == ((int32_t) br.r0[4] < 0x12345), (lab + "local label in branch").c_str());
	Cpu c;
	for (unsigned i = 0; i < 4; i++) c.step(w(n + 5 + i), 0);
	__vc_assert((uint32_t) c.r[4] == end && (uint32_t) c.r[5] == b, (lab + "label addresses").c_str());
	__vc_reach("ran");
}
