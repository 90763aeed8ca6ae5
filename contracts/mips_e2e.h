// Independent specification of the MIPS instructions of the five supported systems and the end-to-end
// contract of one instruction.  The table lists mnemonic, operands, fixed bits and the systems that have
// the instruction; everything else (field positions, ranges, scaling, register spellings) is here.
#pragma once
#include "common.h"
#include <cctype>

enum { MF_JUMP = 1, MF_BRANCH = 2, MF_RD_RS = 4, MF_RT_RS = 8, MF_RT_RD = 16, MF_FD_FS = 32, MF_VD_VS = 64, MF_ALIGN4 = 128, MF_NEG = 256,
	MF_VEC = 512, MF_MIXED = 1024, MF_SIX = 2048, MF_TRANSP = 4096, MF_DS = 8192, MF_NODS = 16384, MF_LOADS = 32768, MF_RTDEST = 65536 };
struct MipsRow { const char* name; const char* syn; uint32_t word; uint32_t systems; uint32_t flags; int vsize; int scale; };
static const MipsRow mipsSpec[] = {
#include "spec_mips_table.inc"
};
static const int mipsSpecCount = sizeof(mipsSpec) / sizeof(mipsSpec[0]);
static const char* const mipsSystems[5] = { ".psx", ".n64", ".ps2", ".psp", ".rsp" };
inline bool mipsBig(int sys) { return sys == 1 || sys == 4; }

// symbolic register contract (p03_regs_f.cpp): a spelled register 1..8 stands for an arbitrary number
struct MipsSym { bool on = false; uint32_t r[16] = {}; bool used[16] = {}; uint32_t R(uint32_t n) const { return on && n < 16 && used[n] ? r[n] : n; } };
static MipsSym mipsSym;

struct MipsDrive
{
	int sys = 0;
	int style = 0;      // register spelling
	unsigned seed = 0;  // which register numbers
	int field = -1;     // operand index to set explicitly ...
	uint32_t fieldValue = 0;
	bool symVal = true, symBase = true;
	int64_t base = 0x80010000;
	bool expectRefused = false;
};

namespace mipsspec {
static const char* const gprNames[32] = { "zero", "at", "v0", "v1", "a0", "a1", "a2", "a3", "t0", "t1", "t2", "t3", "t4", "t5", "t6", "t7",
	"s0", "s1", "s2", "s3", "s4", "s5", "s6", "s7", "t8", "t9", "k0", "k1", "gp", "sp", "fp", "ra" };
static const char* const cop0Names[32] = { "index", "random", "entrylo0", "entrylo1", "context", "pagemask", "wired", 0, "badvaddr", "count", "entryhi", "compare",
	"status", "cause", "epc", "prid", "config", "lladdr", "watchlo", "watchhi", "xcontext", 0, 0, "badpaddr", 0, 0, "ecc", "cacheerr", "taglo", "taghi", "errorepc", 0 };
static const char* const gteData[32] = { "vxy0", "vz0", "vxy1", "vz1", "vxy2", "vz2", "rgbc", "otz", "ir0", "ir1", "ir2", "ir3", "sxy0", "sxy1", "sxy2", "sxyp",
	"sz0", "sz1", "sz2", "sz3", "rgb0", "rgb1", "rgb2", "res1", "mac0", "mac1", "mac2", "mac3", "irgb", "orgb", "lzcs", "lzcr" };
static const char* const gteCtrl[32] = { "rt0", "rt1", "rt2", "rt3", "rt4", "trx", "try", "trz", "llm0", "llm1", "llm2", "llm3", "llm4", "rbk", "gbk", "bbk",
	"lcm0", "lcm1", "lcm2", "lcm3", "lcm4", "rfc", "gfc", "bfc", "ofx", "ofy", "h", "dqa", "dqb", "zsf3", "zsf4", "flag" };
static const char* const rspCop0[16] = { "sp_mem_addr", "sp_dram_addr", "sp_rd_len", "sp_wr_len", "sp_status", "sp_dma_full", "sp_dma_busy", "sp_semaphore",
	"dpc_start", "dpc_end", "dpc_current", "dpc_status", "dpc_clock", "dpc_bufbusy", "dpc_pipebusy", "dpc_tmem" };
static const char* const vfpuCtrl[16] = { "spfx", "tpfx", "dpfx", "cc", "inf4", "rsv5", "rsv6", "rev", "rcx0", "rcx1", "rcx2", "rcx3", "rcx4", "rcx5", "rcx6", "rcx7" };
static const char* const vfpuCond[16] = { "fl", "eq", "lt", "le", "tr", "ne", "ge", "gt", "ez", "en", "ei", "es", "nz", "nn", "ni", "ns" };
static const char* const rspElem[16] = { "", "", "0q", "1q", "0h", "1h", "2h", "3h", "0", "1", "2", "3w", "4", "5w", "6", "7w" };
inline std::string num(uint32_t n) { return std::to_string(n); }
inline std::string dollar(uint32_t n) { return "$" + num(n); }
inline std::string named(const char* n, uint32_t v, int style) { return style == 1 || !n ? dollar(v) : style == 2 ? std::string("$") + n : std::string(n); }
inline std::string gpr(uint32_t n, int style) { return style == 1 ? dollar(n) : style == 2 ? std::string("$") + gprNames[n] : style == 3 ? std::string(gprNames[n]) : style == 4 && n == 30 ? "s8" : "r" + num(n); }
inline std::string fpr(uint32_t n, int style) { return style == 1 ? dollar(n) : style == 2 ? "$f" + num(n) : style == 3 && n < 10 ? "f0" + num(n) : "f" + num(n); }
inline std::string rspv(uint32_t n, int style) { return (style == 2 ? "$v" : "v") + (style == 3 && n < 10 ? "0" + num(n) : num(n)); }
// vfpu register: code = mode*128 + mtx*16 + col*4 + row; the returned number is the 7 bit field (-1: not a register of that size)
inline int vfpuNum(bool matrix, int size, uint32_t code)
{
	unsigned row = code & 3, col = code >> 2 & 3, mtx = code >> 4 & 7;
	bool transposed = code >> 7 & 1;
	int n = mtx << 2 | (transposed ? 32 : 0);
	if (matrix)
	{
		if (size == 0) return -1;
		if (size == 2) { if (row > 1) return -1; return n | col | row << 6; }
		if (row & 1) return -1;
		return n | col | row << 5;
	}
	if (size == 0) return mtx << 2 | col | row << 5;
	unsigned c = transposed ? row : col, r = transposed ? col : row;
	if (size == 2) { if (r > 1) return -1; return n | c | r << 6; }
	if (r & 1) return -1;
	return n | c | r << 5;
}
inline std::string vfpuText(bool matrix, int size, uint32_t code)
{
	bool tr = code >> 7 & 1;
	const char* m = matrix ? (tr ? "e" : "m") : size == 0 ? "s" : tr ? "r" : "c";
	return std::string(m) + num(code >> 4 & 7) + num(code >> 2 & 3) + num(code & 3);
}
inline uint32_t pick(unsigned seed, unsigned k) { static const uint8_t t[] = { 1, 18, 30, 5, 8, 31, 16, 7, 2, 29, 4, 21, 26, 11, 3, 24 }; return t[(seed * 3 + k * 5 + seed / 16) & 15]; }
static const struct { const char* t; uint32_t v; } vcst[] = { { "maxfloat", 1 }, { "sqrt(2)", 2 }, { "sqrt(1/2)", 3 }, { "sqrt(0.5)", 3 }, { "2/sqrt(pi)", 4 }, { "2/pi", 5 }, { "1/pi", 6 },
	{ "pi/4", 7 }, { "pi/2", 8 }, { "pi", 9 }, { "e", 10 }, { "log2(e)", 11 }, { "log10(e)", 12 }, { "ln(2)", 13 }, { "ln(10)", 14 }, { "2*pi", 15 }, { "pi/6", 16 }, { "log10(2)", 17 },
	{ "log2(10)", 18 }, { "sqrt(3)/2", 19 } };
static const struct { const char* t; uint32_t v; } vpfxs[] = { { "x", 0 }, { "y", 1 }, { "z", 2 }, { "w", 3 }, { "|x|", 0x100 }, { "-y", 0x10001 }, { "-|z|", 0x10102 }, { "0", 0x1000 }, { "1", 0x1001 }, { "2", 0x1002 },
	{ "1/2", 0x1003 }, { "3", 0x1100 }, { "1/3", 0x1101 }, { "1/4", 0x1102 }, { "1/6", 0x1103 }, { "-1/4", 0x11102 } };
static const struct { const char* t; uint32_t v; } vpfxd[] = { { "", 0 }, { "m", 0x100 }, { "[0:1]", 1 }, { "[-1:1]", 3 } };
static const struct { const char* t; uint32_t v; int size; } vrot[] = { { "[c,s]", 4, 1 }, { "[s,c]", 1, 1 }, { "[-s,c]", 17, 1 }, { "[c,-s]", 20, 1 }, { "[c,s,0]", 4, 2 }, { "[c,0,s]", 8, 2 }, { "[0,c,s]", 9, 2 }, { "[s,c,s]", 5, 2 },
	{ "[c,s,0,0]", 4, 3 }, { "[0,-s,0,c]", 23, 3 }, { "[s,s,c,s]", 10, 3 }, { "[-s,-s,-s,c]", 31, 3 }, { "[0,0,c,s]", 14, 3 } };
inline int opLen(const char* p) { return *p == 'v' && strchr("SHDFQ", p[1]) ? 3 : *p == 'i' ? (p[1] == 'h' ? 2 : isdigit(p[2]) ? 3 : 2) : strchr("vmVgRjW", *p) ? 2 : *p == 'r' ? 2 : 1; }
}

// half precision value of an integer: round to nearest (ties away from zero), saturating at the largest finite value
inline uint32_t halfOfInt(int64_t v)
{
	uint32_t sign = v < 0 ? 0x8000 : 0;
	uint64_t m = v < 0 ? 0 - (uint64_t) v : (uint64_t) v;
	if (m == 0) return 0;
	if (m >= 65520) return sign | 0x7BFF;
	int e = 15;
	while (!(m >> e)) e--;
	uint32_t q = e <= 10 ? (uint32_t) m << (10 - e) : (uint32_t) ((m + (1u << (e - 11))) >> (e - 10));
	if (q == 0x800) { q = 0x400; e++; }
	return sign | (e + 15) << 10 | (q & 0x3FF);
}
inline void mipsE2e(const MipsRow& r, const MipsDrive& d)
{
	using namespace mipsspec;
	int64_t val = d.symVal ? (int64_t) __vc_any("val", 64) : (int64_t) (d.seed * 4);
	int64_t sec = 0;
	int64_t base = d.base;
	bool useVal = false, useSec = false;
	bool ok = true;         // an encoding exists
	uint32_t word = r.word;
	std::string t = r.name;
	uint32_t rs = 0, rt = 0, rd = 0, fs = 0, vs = 0;
	int immBits = 0, immPos = 0;
	bool negScaled = false;
	bool skip = false;
	auto build = [&]() {
	unsigned k = 0;
	bool first = true;
	word = r.word; t = r.name; ok = true;
	for (const char* p = r.syn; *p;)
	{
		if (first) { t += " "; first = false; }
		int n = opLen(p);
		uint32_t v = mipsSym.on ? k + 1 : (int) k == d.field ? d.fieldValue : pick(d.seed, k);
		switch (*p)
		{
		case ',': case '(': case ')': t += *p; n = 1; p += n; continue;
		case 't': v &= 31; rt = mipsSym.R(v); word |= rt << 16; t += gpr(v, d.style); break;
		case 's': v &= 31; rs = mipsSym.R(v); word |= rs << 21; t += gpr(v, d.style); break;
		case 'd': v &= 31; rd = mipsSym.R(v); word |= rd << 11; t += gpr(v, d.style); break;
		case 'T': v &= 31; word |= mipsSym.R(v) << 16; t += fpr(v, d.style); break;
		case 'S': v &= 31; fs = mipsSym.R(v); word |= fs << 11; t += fpr(v, d.style); break;
		case 'D': v &= 31; word |= mipsSym.R(v) << 6; t += fpr(v, d.style); break;
		case 'f': v &= 31; word |= mipsSym.R(v) << 11; t += v == 31 && d.style != 1 ? (d.style & 1 ? "fcr31" : "fcsr") : v == 0 && d.style != 1 ? (d.style & 1 ? "fcr0" : "fir") : dollar(v).c_str(); break;
		case 'z': v &= 31; word |= mipsSym.R(v) << 11; t += named(cop0Names[v], v, d.style); break;
		case 'r': t += "r0"; break;
		case 'v':
		{
			if (p[1] == 'c') { v &= 15; word |= v; t += d.style & 1 ? num(v) : std::string(vfpuCtrl[v]); break; }
			int size = r.vsize;
			char c = p[1];
			if (n == 3) { size = c == 'S' ? 0 : c == 'H' ? (size == 1 ? 0 : 1) : c == 'D' ? (size == 0 ? 1 : 3) : c == 'F' ? 0 : 3; c = p[2]; }
			uint32_t code = (int) k == d.field ? d.fieldValue & 255 : (v * 7 & 0x70) | (size ? (v & 1 ? 0x84 : 0x0C) : (v & 15));
			int q = vfpuNum(false, size, code);
			if (q < 0 || ((r.flags & MF_SIX) && (q & 0x40))) ok = false;
			else if (r.flags & MF_MIXED) word |= (q & 31) << 16 | q >> 5;
			else word |= q << (c == 's' ? 8 : c == 't' ? 16 : 0);
			t += vfpuText(false, size, code);
			break;
		}
		case 'm':
		{
			uint32_t code = (int) k == d.field ? d.fieldValue & 255 : (v * 7 & 0x70) | (v & 1 ? 0x80 : 0);
			int q = vfpuNum(true, r.vsize, code);
			if (q < 0) ok = false;
			else
			{
				if (p[1] == 's' && (r.flags & MF_TRANSP)) q ^= 32;
				word |= q << (p[1] == 's' ? 8 : p[1] == 't' ? 16 : 0);
			}
			t += vfpuText(true, r.vsize, code);
			break;
		}
		case 'V': v &= 31; word |= mipsSym.R(v) << 16; t += (d.style == 2 ? "$vf" : d.style == 3 && v < 10 ? "vf0" : "vf") + num(v); break;
		case 'g': v &= 31; word |= mipsSym.R(v) << (p[1] == 't' ? 16 : 11); t += named(p[1] == 'c' ? gteCtrl[v] : gteData[v], v, d.style); break;
		case 'R':
			switch (p[1])
			{
			case 'z': v &= 31; word |= mipsSym.R(v) << 11; t += named(v < 16 ? rspCop0[v] : 0, v, d.style); break;
			case 'c': { static const char* const nm[] = { "vco", "vcc", "vce" }; v &= 31; word |= mipsSym.R(v) << 11; t += named(v < 3 ? nm[v] : 0, v, d.style); break; }
			case 't': v &= 31; word |= mipsSym.R(v) << 16; t += rspv(v, d.style); break;
			case 's': v &= 31; vs = mipsSym.R(v); word |= vs << 11; t += rspv(v, d.style); break;
			case 'd': v &= 31; word |= mipsSym.R(v) << 6; t += rspv(v, d.style); break;
			case 'e': v &= 15; word |= v << 21; t += v < 2 ? (v ? "[$1]" : "") : d.style & 1 ? "[$" + num(v) + "]" : "[" + std::string(rspElem[v]) + "]"; break;
			case 'l': case 'm': v &= 15; if (v > 7) ok = false; word |= (v + 8 & 15) << (p[1] == 'l' ? 21 : 11); t += "[" + num(v) + "]"; break;
			case 'o': v &= 31; if (v > 15) ok = false; word |= (v & 15) << 7; t += v == 0 && d.style & 1 ? "" : "[" + num(v) + "]"; break;
			}
			break;
		case 'i':
			useVal = true;
			t += "val";
			if (p[1] == 'h') immBits = -16;
			else { immBits = 0; for (const char* q = p + 1; *q >= '0' && *q <= '9'; q++) immBits = immBits * 10 + *q - '0'; }
			immPos = immBits == 5 && (r.flags & MF_VEC) ? 16 : immBits == 5 || immBits == 10 || immBits == 20 ? 6 : 0;
			break;
		case 'j':
			if (p[1] == 'b') { v &= 7; if (v > 5) ok = false; word |= v << 18; static const char* const nm[] = { "x", "y", "z", "w", "any", "all", "6", "7" }; t += d.style & 1 ? num(v) : std::string(nm[v]); break; }
			useSec = true; t += "sec"; break;
		case 'C': v &= 15; word |= v; t += vfpuCond[v]; break;
		case 'W':
			if (p[1] == 'c') { v %= sizeof(vcst) / sizeof(vcst[0]); word |= vcst[v].v << 16; t += vcst[v].t; }
			else if (p[1] == 's') for (int i = 0; i < 4; i++) { unsigned q = (v * 5 + i * (d.seed + 3)) & 15; word |= (vpfxs[q].v & 3) << 2 * i | (vpfxs[q].v & ~3) << i; t += std::string(i ? "," : "") + vpfxs[q].t; }
			else if (p[1] == 'd') for (int i = 0; i < 4; i++) { unsigned q = v >> i & 3; word |= (vpfxd[q].v & 3) << 2 * i | (vpfxd[q].v & ~3) << i; t += std::string(i ? "," : "") + vpfxd[q].t; }
			else { unsigned q = v % 13, c = 0; while (vrot[q].size != r.vsize && c++ < 13) q = (q + 1) % 13; if (vrot[q].size != r.vsize) { skip = true; return; } word |= vrot[q].v << 16; t += vrot[q].t; }
			break;
		case 'w': t += "wb"; n = 1; break;
		default: skip = true; return;
		}
		k++;
		p += n;
	}
	if (r.flags & MF_RD_RS) word |= rs << 11;
	if (r.flags & MF_RT_RS) word |= rs << 16;
	if (r.flags & MF_RT_RD) word |= rd << 16;
	if (r.flags & MF_FD_FS) word |= fs << 6;
	if (r.flags & MF_VD_VS) word |= vs << 6;
	};
	build();
	if (skip) return;

	bool rel = (r.flags & MF_BRANCH) != 0;
	if (d.symBase) base = (int64_t) __vc_any("base", 64);
	int32_t prim = 0;
	uint32_t immWord = 0;
	if (useVal)
	{
		int32_t x = (int32_t) val;
		if (r.flags & MF_ALIGN4) ok = ok && (x & 3) == 0;
		if (r.flags & MF_NEG) x = (int32_t) (0u - (uint32_t) x);
		if (immBits == -16) prim = halfOfInt(val);
		else if (r.flags & MF_JUMP) { ok = ok && (x & 3) == 0; prim = (uint32_t) x >> 2 & 0x3FFFFFF; }
		else if (rel)
		{
			int32_t dist = (int32_t) ((uint32_t) x - (uint32_t) base - 4);
			ok = ok && (dist & 3) == 0 && dist >= -0x20000 && dist < 0x20000;
			prim = dist >> 2 & 0xFFFF;
		}
		else if (immBits > 0)
		{
			ok = ok && (x & ((1 << r.scale) - 1)) == 0;
			x >>= r.scale;
			int32_t lim = 1 << immBits;
			ok = ok && x > -lim && x < lim;
			prim = x & (lim - 1);
		}
		immWord |= (uint32_t) prim << immPos;
	}
	if (useSec)
	{
		sec = (int64_t) __vc_any("sec", 64);
		int32_t y = (int32_t) sec;
		if (strstr(r.syn, "jc")) { ok = ok && y >= 0 && y < 32; immWord |= (uint32_t) y << 16; }
		else if (strstr(r.syn, "je")) { ok = ok && y >= 1 && y <= 32; immWord |= (uint32_t) (y - 1) << 11; }
		else { ok = ok && y >= 1 && y <= 32 && prim + y <= 32; immWord |= (uint32_t) (prim + y - 1) << 11; }
	}
	ok = ok && (base & 3) == 0;

	Asm as;
	as.at(base);
	if (useVal) as.label("val", val);
	if (useSec) as.label("sec", sec);
	bool okAll = ok;
	bool res = as.run(std::string(mipsSystems[d.sys]) + "\n" + t + "\n");
	if (mipsSym.on) build();
	ok = okAll;
	word |= immWord;
	std::string lab = "mips " + std::string(mipsSystems[d.sys] + 1) + " '" + t + "': ";
	if (d.expectRefused)
	{
		__vc_assert(!res && as.f->writes == 0, (lab + "not available on this system").c_str());
		__vc_reach("refused");
		return;
	}
	__vc_assert(res == ok, (lab + "accepted exactly when an encoding exists").c_str());
	__vc_assert(res || as.f->writes == 0, (lab + "nothing written when rejected").c_str());
	if (!res) { __vc_reach("rejected"); return; }
	__vc_reach("accepted");
	__vc_assert(as.size() == 4, (lab + "one word").c_str());
	__vc_assert((mipsBig(d.sys) ? as.be32(0) : as.u32(0)) == word, (lab + "word").c_str());
}
