// Independent specification of the SH-1/SH-2 instructions (SH7604 programming manual): operand syntax and word pattern.
// syntax: %m %n registers, %v value.  pattern: n m register fields, d i value bits
// kind: '-' no value; 'i' 8-bit pattern; '1' '2' '4' displacement in units of that many bytes; 'W' 'L' target of a pc relative
// load (word, long), 'w' 'l' the same given as offset from the instruction; 'b' branch target
#pragma once
#include "common.h"
struct ShRow { const char* name; const char* syn; const char* pat; char kind; };
static const ShRow shSpec[] = {
	{ "mov", "#%v,%n", "1110nnnniiiiiiii", 'i' }, { "mov", "%v,%n", "1110nnnniiiiiiii", 'i' },
	{ "mov.w", "%v,%n", "1001nnnndddddddd", 'W' }, { "mov.l", "%v,%n", "1101nnnndddddddd", 'L' },
	{ "mov.w", "@(%v,pc),%n", "1001nnnndddddddd", 'w' }, { "mov.l", "@(%v,pc),%n", "1101nnnndddddddd", 'l' },
	{ "mov", "%m,%n", "0110nnnnmmmm0011", '-' },
	{ "mov.b", "%m,@%n", "0010nnnnmmmm0000", '-' }, { "mov.w", "%m,@%n", "0010nnnnmmmm0001", '-' }, { "mov.l", "%m,@%n", "0010nnnnmmmm0010", '-' },
	{ "mov.b", "@%m,%n", "0110nnnnmmmm0000", '-' }, { "mov.w", "@%m,%n", "0110nnnnmmmm0001", '-' }, { "mov.l", "@%m,%n", "0110nnnnmmmm0010", '-' },
	{ "mov.b", "%m,@-%n", "0010nnnnmmmm0100", '-' }, { "mov.w", "%m,@-%n", "0010nnnnmmmm0101", '-' }, { "mov.l", "%m,@-%n", "0010nnnnmmmm0110", '-' },
	{ "mov.b", "@%m+,%n", "0110nnnnmmmm0100", '-' }, { "mov.w", "@%m+,%n", "0110nnnnmmmm0101", '-' }, { "mov.l", "@%m+,%n", "0110nnnnmmmm0110", '-' },
	{ "mov.b", "r0,@(%v,%n)", "10000000nnnndddd", '1' }, { "mov.w", "r0,@(%v,%n)", "10000001nnnndddd", '2' }, { "mov.l", "%m,@(%v,%n)", "0001nnnnmmmmdddd", '4' },
	{ "mov.b", "@(%v,%m),r0", "10000100mmmmdddd", '1' }, { "mov.w", "@(%v,%m),r0", "10000101mmmmdddd", '2' }, { "mov.l", "@(%v,%m),%n", "0101nnnnmmmmdddd", '4' },
	{ "mov.b", "%m,@(r0,%n)", "0000nnnnmmmm0100", '-' }, { "mov.w", "%m,@(r0,%n)", "0000nnnnmmmm0101", '-' }, { "mov.l", "%m,@(r0,%n)", "0000nnnnmmmm0110", '-' },
	{ "mov.b", "@(r0,%m),%n", "0000nnnnmmmm1100", '-' }, { "mov.w", "@(r0,%m),%n", "0000nnnnmmmm1101", '-' }, { "mov.l", "@(r0,%m),%n", "0000nnnnmmmm1110", '-' },
	{ "mov.b", "r0,@(%v,gbr)", "11000000dddddddd", '1' }, { "mov.w", "r0,@(%v,gbr)", "11000001dddddddd", '2' }, { "mov.l", "r0,@(%v,gbr)", "11000010dddddddd", '4' },
	{ "mov.b", "@(%v,gbr),r0", "11000100dddddddd", '1' }, { "mov.w", "@(%v,gbr),r0", "11000101dddddddd", '2' }, { "mov.l", "@(%v,gbr),r0", "11000110dddddddd", '4' },
	{ "mova", "%v,r0", "11000111dddddddd", 'L' }, { "mova", "@(%v,pc),r0", "11000111dddddddd", 'l' },
	{ "movt", "%n", "0000nnnn00101001", '-' }, { "swap.b", "%m,%n", "0110nnnnmmmm1000", '-' }, { "swap.w", "%m,%n", "0110nnnnmmmm1001", '-' }, { "xtrct", "%m,%n", "0010nnnnmmmm1101", '-' },
	{ "add", "%m,%n", "0011nnnnmmmm1100", '-' }, { "add", "#%v,%n", "0111nnnniiiiiiii", 'i' }, { "add", "%v,%n", "0111nnnniiiiiiii", 'i' },
	{ "addc", "%m,%n", "0011nnnnmmmm1110", '-' }, { "addv", "%m,%n", "0011nnnnmmmm1111", '-' },
	{ "cmp/eq", "#%v,r0", "10001000iiiiiiii", 'i' }, { "cmp/eq", "%v,r0", "10001000iiiiiiii", 'i' }, { "cmp/eq", "%m,%n", "0011nnnnmmmm0000", '-' },
	{ "cmp/hs", "%m,%n", "0011nnnnmmmm0010", '-' }, { "cmp/ge", "%m,%n", "0011nnnnmmmm0011", '-' }, { "cmp/hi", "%m,%n", "0011nnnnmmmm0110", '-' }, { "cmp/gt", "%m,%n", "0011nnnnmmmm0111", '-' },
	{ "cmp/pl", "%n", "0100nnnn00010101", '-' }, { "cmp/pz", "%n", "0100nnnn00010001", '-' }, { "cmp/str", "%m,%n", "0010nnnnmmmm1100", '-' },
	{ "div1", "%m,%n", "0011nnnnmmmm0100", '-' }, { "div0s", "%m,%n", "0010nnnnmmmm0111", '-' }, { "div0u", "", "0000000000011001", '-' },
	{ "dmuls.l", "%m,%n", "0011nnnnmmmm1101", '-' }, { "dmulu.l", "%m,%n", "0011nnnnmmmm0101", '-' }, { "dt", "%n", "0100nnnn00010000", '-' },
	{ "exts.b", "%m,%n", "0110nnnnmmmm1110", '-' }, { "exts.w", "%m,%n", "0110nnnnmmmm1111", '-' }, { "extu.b", "%m,%n", "0110nnnnmmmm1100", '-' }, { "extu.w", "%m,%n", "0110nnnnmmmm1101", '-' },
	{ "mac.l", "@%m+,@%n+", "0000nnnnmmmm1111", '-' }, { "mac.w", "@%m+,@%n+", "0100nnnnmmmm1111", '-' },
	{ "mul.l", "%m,%n", "0000nnnnmmmm0111", '-' }, { "muls.w", "%m,%n", "0010nnnnmmmm1111", '-' }, { "mulu.w", "%m,%n", "0010nnnnmmmm1110", '-' },
	{ "neg", "%m,%n", "0110nnnnmmmm1011", '-' }, { "negc", "%m,%n", "0110nnnnmmmm1010", '-' },
	{ "sub", "%m,%n", "0011nnnnmmmm1000", '-' }, { "subc", "%m,%n", "0011nnnnmmmm1010", '-' }, { "subv", "%m,%n", "0011nnnnmmmm1011", '-' },
	{ "and", "%m,%n", "0010nnnnmmmm1001", '-' }, { "and", "#%v,r0", "11001001iiiiiiii", 'i' }, { "and", "%v,r0", "11001001iiiiiiii", 'i' },
	{ "and.b", "#%v,@(r0,gbr)", "11001101iiiiiiii", 'i' }, { "and.b", "%v,@(r0,gbr)", "11001101iiiiiiii", 'i' },
	{ "not", "%m,%n", "0110nnnnmmmm0111", '-' }, { "or", "%m,%n", "0010nnnnmmmm1011", '-' }, { "or", "#%v,r0", "11001011iiiiiiii", 'i' }, { "or", "%v,r0", "11001011iiiiiiii", 'i' },
	{ "or.b", "#%v,@(r0,gbr)", "11001111iiiiiiii", 'i' }, { "or.b", "%v,@(r0,gbr)", "11001111iiiiiiii", 'i' }, { "tas.b", "@%n", "0100nnnn00011011", '-' },
	{ "tst", "%m,%n", "0010nnnnmmmm1000", '-' }, { "tst", "#%v,r0", "11001000iiiiiiii", 'i' }, { "tst", "%v,r0", "11001000iiiiiiii", 'i' },
	{ "tst.b", "#%v,@(r0,gbr)", "11001100iiiiiiii", 'i' }, { "tst.b", "%v,@(r0,gbr)", "11001100iiiiiiii", 'i' },
	{ "xor", "%m,%n", "0010nnnnmmmm1010", '-' }, { "xor", "#%v,r0", "11001010iiiiiiii", 'i' }, { "xor", "%v,r0", "11001010iiiiiiii", 'i' },
	{ "xor.b", "#%v,@(r0,gbr)", "11001110iiiiiiii", 'i' }, { "xor.b", "%v,@(r0,gbr)", "11001110iiiiiiii", 'i' },
	{ "rotl", "%n", "0100nnnn00000100", '-' }, { "rotr", "%n", "0100nnnn00000101", '-' }, { "rotcl", "%n", "0100nnnn00100100", '-' }, { "rotcr", "%n", "0100nnnn00100101", '-' },
	{ "shal", "%n", "0100nnnn00100000", '-' }, { "shar", "%n", "0100nnnn00100001", '-' }, { "shll", "%n", "0100nnnn00000000", '-' }, { "shlr", "%n", "0100nnnn00000001", '-' },
	{ "shll2", "%n", "0100nnnn00001000", '-' }, { "shlr2", "%n", "0100nnnn00001001", '-' }, { "shll8", "%n", "0100nnnn00011000", '-' }, { "shlr8", "%n", "0100nnnn00011001", '-' },
	{ "shll16", "%n", "0100nnnn00101000", '-' }, { "shlr16", "%n", "0100nnnn00101001", '-' },
	{ "bf", "%v", "10001011dddddddd", 'b' }, { "bf/s", "%v", "10001111dddddddd", 'b' }, { "bt", "%v", "10001001dddddddd", 'b' }, { "bt/s", "%v", "10001101dddddddd", 'b' },
	{ "bra", "%v", "1010dddddddddddd", 'b' }, { "bsr", "%v", "1011dddddddddddd", 'b' },
	{ "braf", "%m", "0000mmmm00100011", '-' }, { "bsrf", "%m", "0000mmmm00000011", '-' }, { "jmp", "@%m", "0100mmmm00101011", '-' }, { "jsr", "@%m", "0100mmmm00001011", '-' },
	// alternative spellings armips accepts
	{ "braf", "@%m", "0000mmmm00100011", '-' }, { "bsrf", "@%m", "0000mmmm00000011", '-' }, { "jmp", "%m", "0100mmmm00101011", '-' }, { "jsr", "%m", "0100mmmm00001011", '-' },
	{ "rts", "", "0000000000001011", '-' }, { "clrt", "", "0000000000001000", '-' }, { "clrmac", "", "0000000000101000", '-' },
	{ "ldc", "%m,sr", "0100mmmm00001110", '-' }, { "ldc", "%m,gbr", "0100mmmm00011110", '-' }, { "ldc", "%m,vbr", "0100mmmm00101110", '-' },
	{ "ldc.l", "@%m+,sr", "0100mmmm00000111", '-' }, { "ldc.l", "@%m+,gbr", "0100mmmm00010111", '-' }, { "ldc.l", "@%m+,vbr", "0100mmmm00100111", '-' },
	{ "lds", "%m,mach", "0100mmmm00001010", '-' }, { "lds", "%m,macl", "0100mmmm00011010", '-' }, { "lds", "%m,pr", "0100mmmm00101010", '-' },
	{ "lds.l", "@%m+,mach", "0100mmmm00000110", '-' }, { "lds.l", "@%m+,macl", "0100mmmm00010110", '-' }, { "lds.l", "@%m+,pr", "0100mmmm00100110", '-' },
	{ "nop", "", "0000000000001001", '-' }, { "rte", "", "0000000000101011", '-' }, { "sett", "", "0000000000011000", '-' }, { "sleep", "", "0000000000011011", '-' },
	{ "stc", "sr,%n", "0000nnnn00000010", '-' }, { "stc", "gbr,%n", "0000nnnn00010010", '-' }, { "stc", "vbr,%n", "0000nnnn00100010", '-' },
	{ "stc.l", "sr,@-%n", "0100nnnn00000011", '-' }, { "stc.l", "gbr,@-%n", "0100nnnn00010011", '-' }, { "stc.l", "vbr,@-%n", "0100nnnn00100011", '-' },
	{ "sts", "mach,%n", "0000nnnn00001010", '-' }, { "sts", "macl,%n", "0000nnnn00011010", '-' }, { "sts", "pr,%n", "0000nnnn00101010", '-' },
	{ "sts.l", "mach,@-%n", "0100nnnn00000010", '-' }, { "sts.l", "macl,@-%n", "0100nnnn00010010", '-' }, { "sts.l", "pr,@-%n", "0100nnnn00100010", '-' },
	{ "trapa", "#%v", "11000011iiiiiiii", 'i' },
};
static const int shSpecCount = sizeof(shSpec) / sizeof(shSpec[0]);
// symbolic register contract (p04_regs_f.cpp)
struct ShSym { bool on = false; uint32_t r[16]; bool used[16] = {}; };
static ShSym shSym;
struct ShDrive { bool symImm = true, symBase = true; unsigned m = 1, n = 2; unsigned style = 0; };
static bool shHas(const ShRow& r, char c) { for (const char* p = r.syn; *p; p++) if (*p == '%' && p[1] == c) return true; return false; }
static void shE2e(int row, const ShDrive& dr)
{
	const ShRow& r = shSpec[row];
	auto name = [&](unsigned n) { return (dr.style & 2 ? "R" : "r") + std::to_string(n); };
	std::string t = std::string(r.name) + " ";
	for (const char* p = r.syn; *p; p++)
	{
		if (*p == '%') { ++p; t += *p == 'm' ? name(dr.m) : *p == 'n' ? name(dr.n) : std::string("val"); }
		else { t += *p; if (*p == ',' && (dr.style & 1)) t += ' '; }
	}
	std::string lab = "superh '" + t + "'";
	static const uint32_t bases[] = { 0, 0x06004002, 0xFFFFFFF0, 0x7FFFFFFE, 0x80000000 };
	uint32_t pos = dr.symBase ? vc::any<uint32_t>("base") : bases[(row + dr.m) % 5];
	const char kind = r.kind;
	const bool rel = kind != '-' && strchr("WLwlb", kind);
	int64_t v = 0;
	if (shHas(r, 'v'))
	{
		if (dr.symImm) v = vc::any<int64_t>("val");
		else v = kind == 'W' || kind == 'L' || kind == 'b' ? (int64_t) ((pos + 4u + 16u) & ~3u) : kind == 'l' ? 4 + (int64_t) (0u - pos & 3) + 4 * (dr.m & 3) : 8;
	}
	Asm as;
	as.at((int64_t) pos);
	if (shHas(r, 'v')) as.label("val", v);
	bool ok = as.run(".saturn\n" + t + "\n");
	uint32_t m = dr.m, n = dr.n;
	if (shSym.on) { m = __vc_native() || shSym.used[m] ? shSym.r[m] : m; n = __vc_native() || shSym.used[n] ? shSym.r[n] : n; }
	bool legal = (pos & 1) == 0;
	const uint32_t u = (uint32_t) v;
	const int32_t s = (int32_t) u;
	uint32_t field = 0;
	const int bits = strstr(r.pat, "dddddddddddd") ? 12 : strstr(r.pat, "dddddddd") || strstr(r.pat, "iiiiiiii") ? 8 : 4;
	switch (kind)
	{
	case '-': break;
	case 'i': legal = legal & (s >= -255) & (s <= 255); field = u; break;
	case '1': case '2': case '4':
	{
		int scale = kind - '0';
		legal = legal & ((u & (scale - 1)) == 0) & (u <= ((1u << bits) - 1) * scale);
		field = u >> (scale == 4 ? 2 : scale - 1);
		break;
	}
	case 'W': case 'w': case 'L': case 'l':
	{
		bool lng = kind == 'L' || kind == 'l';
		uint32_t target = kind == 'w' || kind == 'l' ? pos + u : u, from = lng ? (pos + 4) & ~3u : pos + 4, off = target - from;
		legal = legal & ((target & (lng ? 3 : 1)) == 0) & (off <= (lng ? 1020u : 510u));
		field = off >> (lng ? 2 : 1);
		break;
	}
	case 'b':
	{
		int32_t off = (int32_t) (u - (pos + 4));
		legal = legal & ((u & 1) == 0) & (off >= -(1 << bits)) & (off < (1 << bits));
		field = (uint32_t) off >> 1;
		break;
	}
	}
	(void) rel;
	__vc_assert(ok == legal, (lab + ": accepted iff encodable").c_str());
	if (!__vc_decide(ok))
	{
		__vc_assert(as.f->writes == 0 && !as.errors.empty(), (lab + ": nothing written when rejected").c_str());
		vc::reach("rejected");
		return;
	}
	uint32_t w = 0;
	for (int i = 0, nb = 3, mb = 3; i < 16; i++)
	{
		char c = r.pat[i];
		uint32_t b = c == '1' ? 1 : c == 'n' ? n >> nb-- & 1 : c == 'm' ? m >> mb-- & 1 : c == '0' ? 0 : 2;
		if (b == 2) { b = field >> (15 - i) & 1; }
		w |= b << (15 - i);
	}
	__vc_assert(as.be16(0) == w, (lab + ": halfword").c_str());
	__vc_assert(as.size() == 2 && !as.f->bad, (lab + ": one halfword").c_str());
	vc::reach("accepted");
}
