// Independent specification of the ARM (v4T/v5TE) instruction words armips supports.
// The fixed bits below were taken from the architecture and cross-checked with an independent assembler
// (tools/check_spec_arm.py); they are not read from the repository.
// mask letters: d/n/m/s<0|1> register (1: not r15), i rotated 8-bit immediate, I 32-bit value, j<bits>
// immediate of that many bits, S<0|1> optional shift (1: immediate amounts only), W optional '!',
// p optional '^', v sign of a register offset, R register list, D N M coprocessor registers,
// X coprocessor, Y its opcode, Z its info, z<type> shift operand of a shift instruction, P<0|1> psr
// name letters: C condition, S flag setting, A ldm/stm mode, X Y top/bottom halves
#pragma once
#include "vc.h"
#include <string>

struct ArmRow
{
	const char* name;
	const char* mask;
	uint32_t base;
	char fmt;
	bool arm9;
};

static const ArmRow armSpec[] = {
	{ "bxC", "n1", 0x012FFF10, 'x', false },
	{ "blxC", "n1", 0x012FFF30, 'x', true },
	{ "bC", "/#I", 0x0A000000, 'b', false },
	{ "blC", "/#I", 0x0B000000, 'b', false },
	{ "blx", "/#I", 0xFA000000, 'B', true },
#define DP3(nm, op) \
	{ nm "CS", "d0,n0,m0S0", (uint32_t) (op) << 21, 'p', false }, { nm "CS", "d0,m0S0", (uint32_t) (op) << 21, 'q', false }, \
	{ nm "CS", "d0,n0,/#i", 0x02000000u | (uint32_t) (op) << 21, 'p', false }, { nm "CS", "d0,/#i", 0x02000000u | (uint32_t) (op) << 21, 'q', false },
	DP3("and", 0) DP3("eor", 1) DP3("xor", 1) DP3("sub", 2) DP3("rsb", 3) DP3("add", 4) DP3("adc", 5) DP3("sbc", 6) DP3("rsc", 7)
	DP3("orr", 12) DP3("bic", 14)
#define DPT(nm, op) \
	{ nm "C", "n0,m0S0", 0x00100000u | (uint32_t) (op) << 21, 'p', false }, { nm "C", "n0,/#i", 0x02100000u | (uint32_t) (op) << 21, 'p', false },
	DPT("tst", 8) DPT("teq", 9) DPT("cmp", 10) DPT("cmn", 11)
#define DPM(nm, op) \
	{ nm "CS", "d0,m0S0", (uint32_t) (op) << 21, 'p', false }, { nm "CS", "d0,/#i", 0x02000000u | (uint32_t) (op) << 21, 'p', false },
	DPM("mov", 13) DPM("mvn", 15)
	{ "nop", "", 0xE1A00000, '-', false },
	{ "addCS", "d1,=/#I", 0x028F0000, 'r', false },
	{ "subCS", "d1,=/#I", 0x028F0000, 'r', false },
	{ "adrCS", "d1,/#I", 0x028F0000, 'r', false },
	{ "lslCS", "d0,m0,z\x00", 0x01A00000, 'z', false },
	{ "lslCS", "d0,z\x00", 0x01A00000, 'Z', false },
	{ "lsrCS", "d0,m0,z\x01", 0x01A00000, 'z', false },
	{ "lsrCS", "d0,z\x01", 0x01A00000, 'Z', false },
	{ "asrCS", "d0,m0,z\x02", 0x01A00000, 'z', false },
	{ "asrCS", "d0,z\x02", 0x01A00000, 'Z', false },
	{ "rorCS", "d0,m0,z\x03", 0x01A00000, 'z', false },
	{ "rorCS", "d0,z\x03", 0x01A00000, 'Z', false },
	{ "msrC", "P0,m1", 0x0120F000, 's', false },
	{ "movC", "P0,m1", 0x0120F000, 's', false },
	{ "msrC", "P0,/#i", 0x0320F000, 's', false },
	{ "movC", "P0,/#i", 0x0320F000, 's', false },
	{ "mrsC", "d1,P1", 0x010F0000, 's', false },
	{ "movC", "d1,P1", 0x010F0000, 's', false },
	{ "mulCS", "d1,m1,s1", 0x00000090, 'm', false },
	{ "mulCS", "d1,s1", 0x00000090, 'M', false },
	{ "mlaCS", "d1,m1,s1,n1", 0x00200090, 'm', false },
	{ "mlaCS", "d1,s1,n1", 0x00200090, 'M', false },
	{ "umullCS", "n1,d1,m1,s1", 0x00800090, 'm', false },
	{ "umlalCS", "n1,d1,m1,s1", 0x00A00090, 'm', false },
	{ "smullCS", "n1,d1,m1,s1", 0x00C00090, 'm', false },
	{ "smlalCS", "n1,d1,m1,s1", 0x00E00090, 'm', false },
	{ "smlaXYC", "d1,m1,s1,n1", 0x01000080, 'm', true },
	{ "smlawYC", "d1,m1,s1,n1", 0x01200080, 'm', true },
	{ "smulwYC", "d1,m1,s1", 0x012000A0, 'm', true },
	{ "smlalXYC", "n1,d1,m1,s1", 0x01400080, 'm', true },
	{ "smulXYC", "d1,m1,s1", 0x01600080, 'm', true },
	// word and byte transfers: I=bit 25, P=24, U=23, B=22, W=21, L=20
#define LS(nm, bl) \
	{ nm, "d0,[n0]", 0x05800000u | (bl), 'l', false }, { nm, "d0,[n0,vm1S1]W", 0x07800000u | (bl), 'l', false }, \
	{ nm, "d0,[n0,/#j\x0C]W", 0x05800000u | (bl), 'l', false }, { nm, "d0,[n0],vm1S1", 0x06800000u | (bl), 'l', false }, \
	{ nm, "d0,[n0],/#j\x0C", 0x04800000u | (bl), 'l', false }, { nm, "d0,[n0]!", 0x05A00000u | (bl), 'l', false },
	LS("strC", 0) LS("ldrC", 0x00100000u) LS("strCb", 0x00400000u) LS("ldrCb", 0x00500000u)
#define LT(nm, bl) \
	{ nm, "d0,[n0]", 0x04A00000u | (bl), 'l', false }, { nm, "d0,[n0],vm1S1", 0x06A00000u | (bl), 'l', false }, { nm, "d0,[n0],/#j\x0C", 0x04A00000u | (bl), 'l', false },
	LT("strCt", 0) LT("ldrCt", 0x00100000u) LT("strCbt", 0x00400000u) LT("ldrCbt", 0x00500000u)
	{ "ldrC", "d0,[/#j\x0C]", 0x051F0000, 'a', false },
	{ "strC", "d0,[/#j\x0C]", 0x050F0000, 'a', false },
	{ "pld", "[n0]", 0xF5D0F000, 'l', true },
	{ "pld", "[n0,vm1S1]", 0xF7D0F000, 'l', true },
	{ "pld", "[n0,/#j\x0C]", 0xF5D0F000, 'l', true },
	{ "strCh", "d0,[n0]", 0x01C000B0, 'h', false },
	{ "strCh", "d0,[n0,vm1]W", 0x018000B0, 'h', false },
	{ "strCh", "d0,[n0,/#j\x08]W", 0x01C000B0, 'h', false },
	{ "strCh", "d0,[n0],vm1", 0x008000B0, 'h', false },
	{ "strCh", "d0,[n0],/#j\x08", 0x00C000B0, 'h', false },
	{ "strCh", "d0,[/#j\x08]", 0x014F00B0, 'A', false },
#define LH(nm, sh) \
	{ nm, "d0,[n0,m1]", 0x01900000u | (sh), 'h', false }, { nm, "d0,[n0]", 0x01D00000u | (sh), 'h', false }, { nm, "d0,[n0,/#j\x08]", 0x01D00000u | (sh), 'h', false },
	LH("ldrCh", 0xB0) LH("ldrCsb", 0xD0) LH("ldCsb", 0xD0) LH("ldrCsh", 0xF0) LH("ldCsh", 0xF0)
	{ "ldrCh", "d0,[n0],/#j\x08", 0x00D000B0, 'h', false },
	{ "ldrCsb", "d0,[n0],/#j\x08", 0x00D000D0, 'h', false },
	{ "ldrCd", "d0,[n0,m1]", 0x018000D0, 'h', true },
	{ "ldrCd", "d0,[n0]", 0x01C000D0, 'h', true },
	{ "ldrCd", "d0,[n0,/#j\x08]", 0x01C000D0, 'H', true },
	{ "strCd", "d0,[n0,m1]", 0x018000F0, 'h', true },
	{ "strCd", "d0,[n0]", 0x01C000F0, 'h', true },
	{ "strCd", "d0,[n0,/#j\x08]", 0x01C000F0, 'H', true },
	{ "stmCA", "/[n1/]W,/{R/}p", 0x08000000, 'S', false },
	{ "ldmCA", "/[n1/]W,/{R/}p", 0x08100000, 'L', false },
	{ "pushC", "/{R/}", 0x092D0000, 'R', false },
	{ "popC", "/{R/}", 0x08BD0000, 'R', false },
	{ "swpC", "d1,m1,[n1]", 0x01000090, 'w', false },
	{ "swpC", "d1,[n1]", 0x01000090, 'W', false },
	{ "swpCb", "d1,m1,[n1]", 0x01400090, 'w', false },
	{ "swpCb", "d1,[n1]", 0x01400090, 'W', false },
	{ "swiC", "/#j\x18", 0x0F000000, 'i', false },
	{ "bkpt", "/#j\x10", 0xE1200070, 'k', false },
	{ "cdpC", "X,Y,D,N,M", 0x0E000000, 'c', false },
	{ "cdpC", "X,Y,D,N,M,Z", 0x0E000000, 'c', false },
	{ "cdp2", "X,Y,D,N,M", 0xFE000000, 'c', true },
	{ "cdp2", "X,Y,D,N,M,Z", 0xFE000000, 'c', true },
	{ "mcrC", "X,Y,d1,N,M", 0x0E000010, 'C', false },
	{ "mcrC", "X,Y,d1,N,M,Z", 0x0E000010, 'C', false },
	{ "movC", "X,Y,N,M,Z,d1", 0x0E000010, 'C', false },
	{ "mcr2", "X,Y,d1,N,M", 0xFE000010, 'C', true },
	{ "mcr2", "X,Y,d1,N,M,Z", 0xFE000010, 'C', true },
	{ "mrcC", "X,Y,d1,N,M", 0x0E100010, 'C', false },
	{ "mrcC", "X,Y,d1,N,M,Z", 0x0E100010, 'C', false },
	{ "movC", "d1,X,Y,N,M,Z", 0x0E100010, 'C', false },
	{ "mrc2", "X,Y,d1,N,M", 0xFE100010, 'C', true },
	{ "mrc2", "X,Y,d1,N,M,Z", 0xFE100010, 'C', true },
	{ "mcrrC", "X,Y,d1,n1,M", 0x0C400000, '2', false },
	{ "mrrcC", "X,Y,d1,n1,M", 0x0C500000, '2', false },
	{ "clzC", "d1,m1", 0x016F0F10, 'w', true },
	{ "qaddC", "d1,m1,n1", 0x01000050, 'w', true },
	{ "qaddC", "d1,n1", 0x01000050, 'W', true },
	{ "qsubC", "d1,m1,n1", 0x01200050, 'w', true },
	{ "qsubC", "d1,n1", 0x01200050, 'W', true },
	{ "qdaddC", "d1,m1,n1", 0x01400050, 'w', true },
	{ "qdaddC", "d1,n1", 0x01400050, 'W', true },
	{ "qdsubC", "d1,m1,n1", 0x01600050, 'w', true },
	{ "qdsubC", "d1,n1", 0x01600050, 'W', true },
};
static const int armSpecCount = sizeof(armSpec) / sizeof(armSpec[0]);
static const char* const armCondNames[15] = { "eq", "ne", "cs", "cc", "mi", "pl", "vs", "vc", "hi", "ls", "ge", "lt", "gt", "le", "" };
// order: ib ia db da | ed fd ea fa ; value is PU (P = bit 24, U = bit 23)
static const char* const armModeNames[8] = { "ib", "ia", "db", "da", "ed", "fd", "ea", "fa" };
static const uint32_t armModeLdm[8] = { 3, 1, 2, 0, 3, 1, 2, 0 };
static const uint32_t armModeStm[8] = { 3, 1, 2, 0, 0, 2, 1, 3 };

struct ArmOps
{
	uint32_t d = 0, n = 0, m = 0, s = 0;
	int64_t v = 0; // immediate
	int shiftKind = 0; // 0 none, 1 immediate amount, 2 register amount
	uint32_t shiftType = 0; // lsl lsr asr ror rrx
	uint32_t shiftReg = 0;
	int64_t shiftAmount = 0;
	bool W = false, p = false, plus = true, spsr = false;
	uint32_t field = 15, rlist = 0, cd = 0, cn = 0, cm = 0, pn = 0;
	int64_t cpop = 0, cpinf = 0;
	uint32_t c = 14, a = 0;
	bool S = false, x = false, y = false;
	int64_t pos = 0;
	bool shortSwi = false; // GBA and NDS: interrupt numbers below 0xFF go to the upper byte
};

namespace armspec {
inline bool has(const char* s, char c)
{
	for (; *s; s++)
		if (*s == c) return true;
	return false;
}
inline uint32_t ror(uint32_t v, uint32_t r) { r &= 31; return r ? (v >> r) | (v << (32 - r)) : v; }
inline bool rotatable(uint32_t v)
{
	bool any = false;
	for (uint32_t r = 0; r < 32; r += 2)
		any |= (ror(v, r) & 0xFFFFFF00u) == 0;
	return any;
}
// value of the rotated immediate in the low 12 bits of a word
inline uint32_t decodeRot(uint32_t w)
{
	uint32_t v = w & 0xFF, n = (w >> 8) & 15;
	if (n & 1) v = ror(v, 2);
	if (n & 2) v = ror(v, 4);
	if (n & 4) v = ror(v, 8);
	if (n & 8) v = ror(v, 16);
	return v;
}
inline int pairKind(uint32_t op) // 1: complement, 2: negation
{
	return op == 13 || op == 15 || op == 0 || op == 14 ? 1 : (op == 4 || op == 2 || op == 10 || op == 11 ? 2 : 0);
}
inline uint32_t pairOp(uint32_t op)
{
	switch (op) { case 13: return 15; case 15: return 13; case 0: return 14; case 14: return 0; case 4: return 2; case 2: return 4; case 10: return 11; case 11: return 10; }
	return op;
}
// shifted register operand; legal=false when the combination has no encoding
inline uint32_t shifter(const ArmOps& o, uint32_t rm, bool& legal)
{
	if (o.shiftKind == 0) return rm;
	if (o.shiftKind == 2)
	{
		if (o.shiftType > 3) legal = false;
		return rm | o.shiftReg << 8 | 1u << 4 | (o.shiftType & 3) << 5;
	}
	uint32_t amt = (uint32_t) o.shiftAmount, t = o.shiftType;
	bool lg = t == 0 ? amt < 32 : t == 1 || t == 2 ? amt <= 32 : t == 3 ? amt < 32 : amt == 1;
	if (t == 4) { t = 3; amt = 0; }
	else if (t != 0 && amt == 0) t = 0; // lsr/asr/ror #0 is lsl #0
	legal = legal && lg;
	return rm | t << 5 | (amt & 31) << 7;
}
// operands written x1 do not admit r15
inline bool regsLegal(const ArmRow& r, const ArmOps& o)
{
	bool l = true;
	for (const char* p = r.mask; *p; p++)
	{
		if (*p == 'j' || *p == 'z') { if (*++p == 0) break; continue; }
		if (p[1] != '1') continue;
		if (*p == 'd') l = l && o.d != 15;
		if (*p == 'n') l = l && o.n != 15;
		if (*p == 'm') l = l && o.m != 15;
		if (*p == 's') l = l && o.s != 15;
	}
	return l;
}
// states the contract for one instruction: accepted (ok) exactly when legal, and then the word is right
inline void check(const ArmRow& r, const ArmOps& o, bool ok, uint32_t w, const std::string& lab)
{
	if (!regsLegal(r, o))
	{
		__vc_assert(!ok, (lab + ": r15 rejected").c_str());
		return;
	}
	bool legal = true;
	const bool condp = has(r.name, 'C');
	uint32_t fixed = r.base;
	if (condp) fixed |= o.c << 28;
	const uint32_t v32 = (uint32_t) o.v;
	const uint32_t pc = (uint32_t) o.pos + 8;
	uint32_t e = fixed;
	if (o.S) e |= 1u << 20;
	bool imm = has(r.mask, 'i');
	std::string l1 = lab + ": accepted iff encodable", l2 = lab + ": word";
	switch (r.fmt)
	{
	case '-': break;
	case 'x': e |= o.n; break;
	case 'b': case 'B':
	{
		int32_t off = (int32_t) (v32 - pc);
		legal = (v32 & (r.fmt == 'b' ? 3 : 1)) == 0 && off > -0x2000000 && off < 0x2000000;
		if (off == -0x2000000) legal = ok; // boundary: either
		// decode: target = pc + offset
		__vc_assert(ok == legal, l1.c_str());
		if (!ok) return;
		int32_t doff = ((int32_t) (w << 8)) >> 6;
		if (r.fmt == 'B')
		{
			doff |= (w >> 23) & 2;
			__vc_assert((w >> 25) == 0x7D, (lab + ": fixed bits").c_str());
		} else
			__vc_assert((w & 0xFF000000u) == e, (lab + ": fixed bits").c_str());
		__vc_assert(pc + (uint32_t) doff == v32, (lab + ": branch target").c_str());
		return;
	}
	case 'p': case 'q':
	{
		uint32_t n = r.fmt == 'q' ? o.d : (has(r.mask, 'n') ? o.n : 0);
		uint32_t d = has(r.mask, 'd') ? o.d : 0;
		e |= n << 16 | d << 12;
		if (imm)
		{
			uint32_t op = (r.base >> 21) & 15;
			int pk = pairKind(op);
			bool direct = rotatable(v32);
			uint32_t alt = pk == 1 ? ~v32 : 0u - v32;
			legal = direct || (pk && rotatable(alt));
			__vc_assert(ok == legal, l1.c_str());
			if (!ok) return;
			uint32_t want = direct ? e : (e & ~(15u << 21)) | pairOp(op) << 21;
			__vc_assert((w & 0xFFFFF000u) == want, (lab + ": opcode and registers").c_str());
			__vc_assert(decodeRot(w) == (direct ? v32 : alt), (lab + ": immediate").c_str());
			return;
		}
		e |= shifter(o, o.m, legal);
		break;
	}
	case 'r':
	{
		uint32_t apc = pc & ~3u;
		int32_t off = (int32_t) (v32 - apc);
		uint32_t mag = off < 0 ? 0u - (uint32_t) off : (uint32_t) off;
		legal = rotatable(mag);
		__vc_assert(ok == legal, l1.c_str());
		if (!ok) return;
		uint32_t fx = condp ? o.c << 28 : 0;
		uint32_t rest = fx | 0x020F0000u | o.d << 12 | (o.S ? 1u << 20 : 0);
		bool add = (w & 0xFFFFF000u) == (rest | 4u << 21), sub = (w & 0xFFFFF000u) == (rest | 2u << 21);
		__vc_assert(add || sub, (lab + ": opcode and registers").c_str());
		uint32_t dv = decodeRot(w);
		__vc_assert((add ? apc + dv : apc - dv) == v32, (lab + ": address").c_str());
		return;
	}
	case 'z': case 'Z':
	{
		e |= o.d << 12;
		e |= shifter(o, r.fmt == 'Z' ? o.d : o.m, legal);
		break;
	}
	case 's':
		if (o.spsr) e |= 1u << 22;
		if (has(r.mask, 'd')) e |= o.d << 12;
		else
		{
			e |= o.field << 16;
			if (imm)
			{
				legal = rotatable(v32);
				__vc_assert(ok == legal, l1.c_str());
				if (!ok) return;
				__vc_assert((w & 0xFFFFF000u) == e, (lab + ": opcode and fields").c_str());
				__vc_assert(decodeRot(w) == v32, (lab + ": immediate").c_str());
				return;
			}
			e |= o.m;
		}
		break;
	case 'm': case 'M':
		e |= o.d << 16 | o.s << 8 | (r.fmt == 'M' ? o.d : o.m);
		if (has(r.mask, 'n')) e |= o.n << 12;
		if (has(r.name, 'X') && o.x) e |= 1u << 5;
		if (has(r.name, 'Y') && o.y) e |= 1u << 6;
		break;
	case 'l': case 'h': case 'H':
		if (has(r.mask, 'W') && o.W) e |= 1u << 21;
		if (has(r.mask, 'n')) e |= o.n << 16;
		if (has(r.mask, 'd')) e |= o.d << 12;
		if (has(r.mask, 'j'))
		{
			int32_t sv = (int32_t) v32;
			uint32_t lim = r.fmt == 'l' ? 4096 : 256;
			uint32_t mag = sv < 0 ? 0u - v32 : v32;
			legal = r.fmt == 'H' ? v32 < lim : mag < lim;
			if (r.fmt != 'H' && sv < 0) e &= ~(1u << 23);
			e |= r.fmt == 'l' ? mag & 0xFFF : (mag & 15) | (mag & 0xF0) << 4;
		} else if (has(r.mask, 'm'))
		{
			if (has(r.mask, 'v') && !o.plus) e &= ~(1u << 23);
			e |= has(r.mask, 'S') ? shifter(o, o.m, legal) : o.m;
		}
		break;
	case 'a': case 'A':
	{
		int32_t off = (int32_t) (v32 - pc);
		int32_t lim = r.fmt == 'a' ? 4096 : 256;
		legal = off > -lim && off < lim;
		uint32_t mag = off < 0 ? 0u - (uint32_t) off : (uint32_t) off;
		e |= o.d << 12;
		if (off >= 0) e |= 1u << 23;
		if (off == 0 && ok) e = (e & ~(1u << 23)) | (w & (1u << 23)); // +0 and -0 address the same word
		e |= r.fmt == 'a' ? mag & 0xFFF : ((mag & 15) | (mag & 0xF0) << 4 | 1u << 22);
		break;
	}
	case 'S': case 'L':
		e |= (r.fmt == 'L' ? armModeLdm[o.a] : armModeStm[o.a]) << 23;
		if (o.p) e |= 1u << 22;
		if (o.W) e |= 1u << 21;
		e |= o.n << 16 | o.rlist;
		break;
	case 'R': e |= o.rlist; break;
	case 'w': case 'W':
		e |= o.d << 12 | (r.fmt == 'W' ? o.d : o.m);
		if (has(r.mask, 'n')) e |= o.n << 16;
		break;
	case 'i':
		if (o.shortSwi && v32 < 0xFF) e |= v32 << 16;
		else { legal = v32 < (1u << 24); e |= v32 & 0xFFFFFF; }
		break;
	case 'k':
		legal = v32 < 0x10000;
		e |= (v32 & 15) | ((v32 >> 4) & 0xFFF) << 8;
		break;
	case 'c': case 'C': case '2':
	{
		uint32_t op = (uint32_t) o.cpop, inf = has(r.mask, 'Z') ? (uint32_t) o.cpinf : 0;
		legal = op < (r.fmt == 'C' ? 8u : 16u) && inf < 8;
		op &= 15;
		e |= o.pn << 8 | o.cm;
		if (r.fmt == 'c') e |= op << 20 | o.cn << 16 | o.cd << 12 | (inf & 7) << 5;
		else if (r.fmt == 'C') e |= op << 21 | o.cn << 16 | o.d << 12 | (inf & 7) << 5;
		else e |= op << 4 | o.n << 16 | o.d << 12;
		break;
	}
	}
	__vc_assert(ok == legal, l1.c_str());
	if (ok) __vc_assert(w == e, l2.c_str());
}
// source text of an instruction
inline std::string reg(uint32_t n) { return "r" + std::to_string(n); }
inline std::string text(const ArmRow& r, const ArmOps& o, bool hash, int style)
{
	std::string t;
	static const char* const sh[] = { "lsl", "lsr", "asr", "ror", "rrx" };
	for (const char* p = r.name; *p; p++)
	{
		if (*p == 'C') t += armCondNames[o.c];
		else if (*p == 'S') { if (o.S) t += "s"; }
		else if (*p == 'A') t += armModeNames[o.a];
		else if (*p == 'X') t += o.x ? "t" : "b";
		else if (*p == 'Y') t += o.y ? "t" : "b";
		else t += *p;
	}
	t += " ";
	bool nul = false;
	for (const char* p = r.mask; *p || nul;)
	{
		nul = false;
		char ch = *p++;
		switch (ch)
		{
		case '/': if (*p == '#' && !hash) p++; else if (*p == '[' || *p == ']') p++; break;
		case 'd': t += reg(o.d); p++; break;
		case 'n': t += reg(o.n); p++; break;
		case 'm': t += reg(o.m); p++; break;
		case 's': t += reg(o.s); p++; break;
		case 'i': case 'I': t += "val"; break;
		case 'j': t += "val"; p++; break;
		case 'D': t += "c" + std::to_string(o.cd); break;
		case 'N': t += "c" + std::to_string(o.cn); break;
		case 'M': t += "c" + std::to_string(o.cm); break;
		case 'X': t += "p" + std::to_string(o.pn); break;
		case 'Y': t += "vcop"; break;
		case 'Z': t += "vinf"; break;
		case 'W': if (o.W) t += "!"; break;
		case 'p': if (o.p) t += "^"; break;
		case 'v': t += o.plus ? (style & 1 ? "+" : "") : "-"; break;
		case 'P':
			t += o.spsr ? "spsr" : "cpsr";
			if (*p++ == '0' && o.field != 15)
			{
				t += "_";
				if (o.field & 8) t += "f";
				if (o.field & 4) t += "s";
				if (o.field & 2) t += "x";
				if (o.field & 1) t += "c";
			}
			break;
		case 'R':
		{
			bool first = true;
			for (int i = 0; i < 16; i++)
				if (o.rlist >> i & 1)
				{
					int j = i;
					while (j < 15 && (o.rlist >> (j + 1) & 1)) j++;
					if (!first) t += ",";
					first = false;
					t += reg(i);
					if (j > i && (style & 1)) { t += "-" + reg(j); i = j; }
				}
			break;
		}
		case 'S': case 'z':
			p++;
			if (ch == 'S')
			{
				if (o.shiftKind == 0) break;
				t += std::string(",") + sh[o.shiftType] + " ";
			}
			if (o.shiftKind == 2) t += reg(o.shiftReg);
			else t += hash ? "#vsh" : "vsh";
			break;
		default: t += ch;
		}
	}
	return t;
}
}
