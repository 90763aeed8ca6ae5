// Independent specification of the Thumb (v4T/v5T) instructions armips supports, and the end-to-end
// contract of one instruction.  syntax: %d %s %n %o low registers, %D %S any register, %v value,
// %R register list
#pragma once
#include "common.h"

struct ThumbRow { const char* name; const char* syn; uint32_t base; char fmt; int bits; bool arm9; };
static const ThumbRow thumbSpec[] = {
	{ "lsl", "%d,%s,%v", 0x0000, '1', 0, false }, { "lsl", "%d,%v", 0x0000, '1', 0, false },
	{ "asl", "%d,%s,%v", 0x0000, '1', 0, false }, { "asl", "%d,%v", 0x0000, '1', 0, false },
	{ "lsr", "%d,%s,%v", 0x0800, '1', 1, false }, { "lsr", "%d,%v", 0x0800, '1', 1, false },
	{ "asr", "%d,%s,%v", 0x1000, '1', 1, false }, { "asr", "%d,%v", 0x1000, '1', 1, false },
	{ "add", "%d,%s,%n", 0x1800, '2', 0, false }, { "add", "%d,%n", 0x1800, '2', 0, false },
	{ "sub", "%d,%s,%n", 0x1A00, '2', 0, false }, { "sub", "%d,%n", 0x1A00, '2', 0, false },
	{ "add", "%d,%s,%v", 0x1C00, 'i', 0, false }, { "sub", "%d,%s,%v", 0x1E00, 'i', 0, false },
	{ "mov", "%d,%s", 0x1C00, '4', 0, false },
	{ "mov", "%d,%v", 0x2000, '3', 8, false }, { "cmp", "%d,%v", 0x2800, '3', 8, false },
	{ "add", "%d,%v", 0x3000, 'a', 0, false }, { "sub", "%d,%v", 0x3800, 'a', 0, false },
	{ "and", "%d,%s", 0x4000, '4', 0, false }, { "eor", "%d,%s", 0x4040, '4', 0, false }, { "xor", "%d,%s", 0x4040, '4', 0, false },
	{ "lsl", "%d,%s", 0x4080, '4', 0, false }, { "lsr", "%d,%s", 0x40C0, '4', 0, false }, { "asr", "%d,%s", 0x4100, '4', 0, false },
	{ "adc", "%d,%s", 0x4140, '4', 0, false }, { "sbc", "%d,%s", 0x4180, '4', 0, false }, { "ror", "%d,%s", 0x41C0, '4', 0, false },
	{ "tst", "%d,%s", 0x4200, '4', 0, false }, { "neg", "%d,%s", 0x4240, '4', 0, false }, { "cmp", "%d,%s", 0x4280, '4', 0, false },
	{ "cmn", "%d,%s", 0x42C0, '4', 0, false }, { "orr", "%d,%s", 0x4300, '4', 0, false }, { "mul", "%d,%s", 0x4340, '4', 0, false },
	{ "bic", "%d,%s", 0x4380, '4', 0, false }, { "mvn", "%d,%s", 0x43C0, '4', 0, false },
	{ "add", "%D,%S", 0x4400, '5', 0, false }, { "cmp", "%D,%S", 0x4500, '5', 0, false }, { "mov", "%D,%S", 0x4600, '5', 0, false },
	{ "nop", "", 0x46C0, '-', 0, false }, { "bx", "%S", 0x4700, '5', 0, false }, { "blx", "%S", 0x4780, '5', 0, true },
	{ "ldr", "%d,[r15]", 0x4800, '6', 0, false }, { "ldr", "%d,[pc,%v]", 0x4800, '6', 8, false },
	{ "ldr", "%d,[%v]", 0x4800, 'p', 0, false },
	{ "str", "%d,[%s,%o]", 0x5000, '7', 0, false }, { "strb", "%d,[%s,%o]", 0x5400, '7', 0, false }, { "ldr", "%d,[%s,%o]", 0x5800, '7', 0, false },
	{ "ldrb", "%d,[%s,%o]", 0x5C00, '7', 0, false }, { "strh", "%d,[%s,%o]", 0x5200, '7', 0, false }, { "ldsb", "%d,[%s,%o]", 0x5600, '7', 0, false },
	{ "ldrsb", "%d,[%s,%o]", 0x5600, '7', 0, false }, { "ldrh", "%d,[%s,%o]", 0x5A00, '7', 0, false }, { "ldsh", "%d,[%s,%o]", 0x5E00, '7', 0, false },
	{ "ldrsh", "%d,[%s,%o]", 0x5E00, '7', 0, false },
	{ "str", "%d,[%s,%v]", 0x6000, '9', 4, false }, { "str", "%d,[%s]", 0x6000, '9', 4, false },
	{ "ldr", "%d,[%s,%v]", 0x6800, '9', 4, false }, { "ldr", "%d,[%s]", 0x6800, '9', 4, false },
	{ "strb", "%d,[%s,%v]", 0x7000, '9', 1, false }, { "strb", "%d,[%s]", 0x7000, '9', 1, false },
	{ "ldrb", "%d,[%s,%v]", 0x7800, '9', 1, false }, { "ldrb", "%d,[%s]", 0x7800, '9', 1, false },
	{ "strh", "%d,[%s,%v]", 0x8000, '9', 2, false }, { "strh", "%d,[%s]", 0x8000, '9', 2, false },
	{ "ldrh", "%d,[%s,%v]", 0x8800, '9', 2, false }, { "ldrh", "%d,[%s]", 0x8800, '9', 2, false },
	{ "str", "%d,[sp,%v]", 0x9000, '6', 8, false }, { "str", "%d,[r13]", 0x9000, '6', 0, false },
	{ "ldr", "%d,[r13,%v]", 0x9800, '6', 8, false }, { "ldr", "%d,[sp]", 0x9800, '6', 0, false },
	{ "add", "%d,pc,%v", 0xA000, '6', 8, false }, { "add", "%d,=%v", 0xA000, 'p', 0, false }, { "add", "%d,sp,%v", 0xA800, '6', 8, false },
	{ "add", "sp,%v", 0xB000, 'g', 0, false }, { "sub", "sp,%v", 0xB080, 'g', 0, false },
	{ "add", "sp,r13,%v", 0xB000, 'g', 0, false }, { "sub", "r13,sp,%v", 0xB080, 'g', 0, false },
	{ "push", "%R", 0xB400, 'u', 14, false }, { "pop", "%R", 0xBC00, 'u', 15, false },
	{ "stmia", "[%d]!,%R", 0xC000, 'M', 0, false }, { "ldmia", "%d!,%R", 0xC800, 'M', 0, false },
	{ "beq", "%v", 0xD000, 'b', 8, false }, { "bne", "%v", 0xD100, 'b', 8, false }, { "bcs", "%v", 0xD200, 'b', 8, false }, { "bhs", "%v", 0xD200, 'b', 8, false },
	{ "bcc", "%v", 0xD300, 'b', 8, false }, { "blo", "%v", 0xD300, 'b', 8, false }, { "bmi", "%v", 0xD400, 'b', 8, false }, { "bpl", "%v", 0xD500, 'b', 8, false },
	{ "bvs", "%v", 0xD600, 'b', 8, false }, { "bvc", "%v", 0xD700, 'b', 8, false }, { "bhi", "%v", 0xD800, 'b', 8, false }, { "bls", "%v", 0xD900, 'b', 8, false },
	{ "bge", "%v", 0xDA00, 'b', 8, false }, { "blt", "%v", 0xDB00, 'b', 8, false }, { "bgt", "%v", 0xDC00, 'b', 8, false }, { "ble", "%v", 0xDD00, 'b', 8, false },
	{ "swi", "%v", 0xDF00, 'w', 8, false }, { "bkpt", "%v", 0xBE00, 'w', 8, true },
	{ "b", "%v", 0xE000, 'b', 11, false },
	{ "bl", "r14", 0xF800, '-', 0, false }, { "bl", "lr+%v", 0xF800, 'h', 0, false }, { "blh", "%v", 0xF800, 'h', 0, false },
	{ "bl", "%v", 0xF000, 'L', 0, false }, { "blx", "%v", 0xF000, 'X', 0, true },
};
static const int thumbSpecCount = sizeof(thumbSpec) / sizeof(thumbSpec[0]);

struct ThumbOps { uint32_t d = 0, s = 0, n = 0, o = 0, list = 0; int64_t v = 0, pos = 0; };
// symbolic register contract (p02_regs_f.cpp)
struct ThumbSym { bool on = false; uint32_t r[16]; bool ru[16] = {}; uint32_t list = 0; bool listUsed = false; uint32_t R(int i) const { return ru[i] ? r[i] : i; } };
static ThumbSym thumbSym;

namespace thumbspec {
inline bool has(const ThumbRow& r, char c) { for (const char* p = r.syn; *p; p++) if (*p == '%' && p[1] == c) return true; return false; }
inline std::string listText(uint32_t l, bool ranges)
{
	std::string t = "{";
	bool first = true;
	for (int i = 0; i < 16; i++)
		if (l >> i & 1)
		{
			int j = i;
			while (j < 15 && (l >> (j + 1) & 1)) j++;
			if (!first) t += ",";
			first = false;
			t += i == 14 && !ranges ? "lr" : "r" + std::to_string(i);
			if (j > i && ranges) { t += "-r" + std::to_string(j); i = j; }
		}
	return t + "}";
}
inline std::string text(const ThumbRow& r, const ThumbOps& o, unsigned style)
{
	std::string t = std::string(r.name) + " ";
	for (const char* p = r.syn; *p; p++)
	{
		if (*p != '%') { t += *p; continue; }
		switch (*++p)
		{
		case 'd': case 'D': t += "r" + std::to_string(o.d); break;
		case 's': case 'S': t += "r" + std::to_string(o.s); break;
		case 'n': t += "r" + std::to_string(o.n); break;
		case 'o': t += "r" + std::to_string(o.o); break;
		case 'v': t += style & 1 ? "#val" : "val"; break;
		case 'R': t += listText(o.list, style & 2); break;
		}
	}
	return t;
}
inline void check(const ThumbRow& r, const ThumbOps& o, bool ok, const Asm& as, const std::string& lab)
{
	const uint32_t v = (uint32_t) o.v, pc = (uint32_t) o.pos + 4;
	const int32_t sv = (int32_t) v;
	bool legal = true;
	uint32_t e = r.base;
	const uint32_t w = as.u16(0);
	const std::string l1 = lab + ": accepted iff encodable", l2 = lab + ": halfword";
	int64_t size = 2;
	const uint32_t s = has(r, 's') || has(r, 'S') ? o.s : o.d;
	switch (r.fmt)
	{
	case '-': break;
	case '1':
		legal = v <= (r.bits ? 32u : 31u);
		if (r.bits && v == 0) e = 0;
		e |= (v & 31) << 6 | s << 3 | o.d;
		break;
	case '2': e |= o.n << 6 | s << 3 | o.d; break;
	case 'i': case 'a': case 'g':
	{
		int32_t lim = r.fmt == 'i' ? 7 : r.fmt == 'a' ? 255 : 508;
		legal = sv >= -lim && sv <= lim && (r.fmt != 'g' || (v & 3) == 0);
		if (sv < 0) e ^= r.fmt == 'i' ? 0x200 : r.fmt == 'a' ? 0x800 : 0x80;
		uint32_t m = sv < 0 ? 0u - v : v;
		if (r.fmt == 'i') e |= (m & 7) << 6 | s << 3 | o.d;
		else if (r.fmt == 'a') e |= o.d << 8 | (m & 255);
		else e |= (m >> 2) & 127;
		break;
	}
	case '3': legal = v <= 255; e |= o.d << 8 | (v & 255); break;
	case '4': e |= s << 3 | o.d; break;
	case '5':
		if (has(r, 'D')) e |= (o.d & 7) | (o.d >> 3) << 7;
		e |= o.s << 3;
		break;
	case '6':
		if (r.bits) { legal = (v & 3) == 0 && v <= 1020; e |= (v >> 2) & 255; }
		e |= o.d << 8;
		break;
	case 'p':
	{
		uint32_t off = v - (pc & ~3u);
		legal = (v & 3) == 0 && off <= 1020;
		e |= o.d << 8 | ((off >> 2) & 255);
		break;
	}
	case '7': e |= o.o << 6 | s << 3 | o.d; break;
	case '9':
		if (has(r, 'v')) { legal = v % r.bits == 0 && v <= 31u * r.bits; e |= ((v / r.bits) & 31) << 6; }
		e |= s << 3 | o.d;
		break;
	case 'u': e |= (o.list & 255) | (o.list >> r.bits & 1) << 8; legal = (o.list & ~(255u | 1u << r.bits)) == 0; break;
	case 'M': e |= o.d << 8 | (o.list & 255); legal = o.list < 256; break;
	case 'b':
	{
		int32_t off = (int32_t) (v - pc), lim = 1 << r.bits;
		legal = (v & 1) == 0 && off >= -lim && off < lim;
		e |= ((uint32_t) off >> 1) & (lim - 1);
		break;
	}
	case 'w': legal = v <= 255; e |= v & 255; break;
	case 'h': legal = (v & 1) == 0 && v <= 4095; e |= (v >> 1) & 0x7FF; break;
	case 'L': case 'X':
	{
		uint32_t from = r.fmt == 'X' ? pc & ~3u : pc;
		int32_t off = (int32_t) (v - from);
		legal = (v & (r.fmt == 'X' ? 3 : 1)) == 0 && off >= -(1 << 22) && off < 1 << 22;
		__vc_assert(ok == legal, l1.c_str());
		if (!ok) return;
		uint32_t w2 = as.u16(2);
		__vc_assert((w & 0xF800) == 0xF000 && (w2 & 0xF800) == (r.fmt == 'X' ? 0xE800u : 0xF800u), (lab + ": fixed bits").c_str());
		int32_t dec = ((int32_t) (w << 21) >> 21) * 4096 + (int32_t) ((w2 & 0x7FF) * 2);
		__vc_assert(from + (uint32_t) dec == v, (lab + ": branch target").c_str());
		if (r.fmt == 'X') __vc_assert((w2 & 1) == 0, (lab + ": word aligned offset").c_str());
		__vc_assert(as.size() == 4 && !as.f->bad, (lab + ": two halfwords").c_str());
		return;
	}
	}
	__vc_assert(ok == legal, l1.c_str());
	if (!ok) return;
	__vc_assert(w == e, l2.c_str());
	__vc_assert(as.size() == size && !as.f->bad, (lab + ": one halfword").c_str());
}
}

struct ThumbDrive { const char* arch = ".nds"; bool symImm = true, symBase = true; int field = -1; unsigned fieldValue = 0; };
static void thumbE2e(int row, unsigned variant, const ThumbDrive& dr)
{
	using namespace thumbspec;
	const ThumbRow& r = thumbSpec[row];
	ThumbOps o;
	unsigned h = row * 11 + variant * 37 + 5;
	auto pick = [&](unsigned max) { h = h * 1103515245u + 12345u; return (h >> 16) % max; };
	o.d = pick(8); o.s = pick(8); o.n = pick(8); o.o = pick(8);
	if (r.fmt == '5') { o.d = 8 + pick(8); o.s = pick(16); if (variant & 1) { o.d = pick(16); o.s = 8 + pick(8); } }
	o.list = 1 + pick(255);
	if (r.fmt == 'u' && (variant & 1)) o.list |= 1u << r.bits;
	static const uint32_t bases[] = { 0, 0x08000002, 0xFFFFFFF0, 0x7FFFFFFE, 0x80000000 };
	o.pos = (int64_t) (dr.symBase ? (vc::any<uint32_t>("base") & ~1u) : bases[(row + variant) % 5]);
	if (has(r, 'v'))
	{
		if (dr.symImm) o.v = vc::any<int64_t>("val");
		else if (strchr("bLXp", r.fmt)) o.v = (int64_t) (uint32_t) ((((uint32_t) o.pos + 4) & ~3u) + 4 * pick(30));
		else o.v = r.fmt == 'i' ? pick(8) : r.fmt == '1' ? pick(32) : 4 * pick(8);
	}
	switch (dr.field) { case 0: o.d = dr.fieldValue; break; case 1: o.s = dr.fieldValue; break; case 2: o.n = dr.fieldValue; break; case 3: o.o = dr.fieldValue; break; case 4: o.list = 1u << dr.fieldValue | ((dr.fieldValue * 37) & 254); break; }
	if (thumbSym.on)
	{
		if (__vc_native()) { o.d = thumbSym.r[1]; o.s = thumbSym.r[2]; o.n = thumbSym.r[3]; o.o = thumbSym.r[4]; o.list = thumbSym.list; }
		else { o.d = 1; o.s = 2; o.n = 3; o.o = 4; o.list = 1; }
	}
	std::string t = text(r, o, variant);
	Asm as;
	as.at(o.pos);
	if (has(r, 'v')) as.label("val", o.v);
	bool ok = as.run(std::string(dr.arch) + "\n.thumb\n" + t + "\n");
	std::string lab = "thumb '" + t + "'";
	if (thumbSym.on && !__vc_native()) { o.d = thumbSym.R(1); o.s = thumbSym.R(2); o.n = thumbSym.R(3); o.o = thumbSym.R(4); if (thumbSym.listUsed) o.list = thumbSym.list; }
	if (dr.field >= 0 && dr.field < 4 && dr.fieldValue > 7 && r.fmt != '5') { __vc_assert(!ok, (lab + ": high register rejected").c_str()); }
	else check(r, o, ok, as, lab);
	__vc_assert(ok || as.f->writes == 0, (lab + ": nothing written when rejected").c_str());
	if (ok) vc::reach("accepted"); else vc::reach("rejected");
}
