// End-to-end contract of one ARM instruction (shared by p01_arm.cpp and p01_regs_f.cpp)
#pragma once
#include "common.h"
#include "spec_arm.h"

// symbolic register hook: when set (p01_regs_f.cpp) register names stand for arbitrary numbers
struct ArmSymRegs
{
	bool on = false;
	uint32_t r[16], c[16], p[16], list = 0; // number that the name r<i>, c<i>, p<i> stands for
	bool ru[16] = {}, cu[16] = {}, pu[16] = {}, listUsed = false; // the contract stub was consulted for it
	uint32_t R(int i) const { return ru[i] ? r[i] : i; }
	uint32_t Cr(int i) const { return cu[i] ? c[i] : i; }
	uint32_t P(int i) const { return pu[i] ? p[i] : i; }
};
static ArmSymRegs armSym;

struct ArmDrive { const char* arch = ".nds"; bool shortSwi = true, bigEndian = false; bool symImm = true, symBase = true; int field = -1; unsigned fieldValue = 0; };

static void armE2e(int row, unsigned variant, const ArmDrive& dr)
{
	const ArmRow& r = armSpec[row];
	ArmOps o;
	unsigned h = row * 7 + variant * 29;
	auto pick = [&](unsigned max) { h = h * 1103515245u + 12345u; return (h >> 16) % max; };
	if (armSym.on) { o.d = 1; o.n = 2; o.m = 3; o.s = 4; o.shiftReg = 5; }
	else { o.d = pick(15); o.n = pick(15); o.m = pick(15); o.s = pick(15); o.shiftReg = pick(15); }
	const bool z = r.fmt == 'z' || r.fmt == 'Z', sft = armspec::has(r.mask, 'S');
	if (z)
	{
		o.shiftKind = 1 + (variant & 1);
		for (const char* p = r.mask; *p; p++) if (*p == 'z') o.shiftType = (unsigned char) p[1];
	} else if (sft)
	{
		static const unsigned char forms[] = { 0x00, 0x01, 0x11, 0x21, 0x31, 0x41, 0x02, 0x12, 0x22, 0x32 };
		bool s1 = strstr(r.mask, "S1") != nullptr;
		unsigned k = variant % (s1 ? 6 : 10);
		o.shiftKind = forms[k] & 15; o.shiftType = forms[k] >> 4;
	}
	o.W = armspec::has(r.mask, 'W') && (variant & 1);
	o.p = armspec::has(r.mask, 'p') && (variant & 2);
	o.plus = !(armspec::has(r.mask, 'v') && (variant & 1));
	o.spsr = armspec::has(r.mask, 'P') && (variant & 1);
	if (strstr(r.mask, "P0")) o.field = 1 + pick(15);
	o.rlist = 1 + pick(0xFFFF);
	o.cd = pick(16); o.cn = pick(16); o.cm = pick(16); o.pn = pick(16);
	if (armSym.on) { o.cd = 1; o.cn = 2; o.cm = 3; o.pn = 1; o.rlist = 2; }
	if (armspec::has(r.name, 'C')) o.c = (variant * 3 + row) % 15;
	if (armspec::has(r.name, 'A')) o.a = (variant + row) % 8;
	if (r.name[0] && r.name[strlen(r.name) - 1] == 'S') o.S = (variant >> 1) & 1;
	if (armspec::has(r.name, 'X')) o.x = variant & 1;
	if (armspec::has(r.name, 'Y')) o.y = (variant >> 1) & 1;
	switch (dr.field) // one field set explicitly (register sweeps)
	{
	case 0: o.d = dr.fieldValue; break;
	case 1: o.n = dr.fieldValue; break;
	case 2: o.m = dr.fieldValue; break;
	case 3: o.s = dr.fieldValue; break;
	case 4: o.shiftReg = dr.fieldValue; break;
	case 5: o.cd = o.cn = dr.fieldValue; o.cm = 15 - dr.fieldValue; o.pn = dr.fieldValue ^ 5; break;
	case 6: if (armspec::has(r.name, 'C')) o.c = dr.fieldValue % 15; break;
	case 7: o.a = dr.fieldValue & 7; break;
	case 8: o.rlist = 1u << dr.fieldValue; break;
	}
	o.shortSwi = dr.shortSwi;
	static const uint32_t bases[] = { 0, 0x08000000, 0xFFFFFFF0, 0x7FFFFFFC, 0x80000000 };
	uint32_t cbase = bases[(row + variant) % 5];
	o.pos = (int64_t) (dr.symBase ? (vc::any<uint32_t>("base") & ~3u) : cbase);
	const bool hasImm = armspec::has(r.mask, 'i') || armspec::has(r.mask, 'I') || armspec::has(r.mask, 'j');
	if (dr.symImm)
	{
		if (hasImm) o.v = vc::any<int64_t>("val");
		if (o.shiftKind == 1) o.shiftAmount = vc::any<int64_t>("vsh");
		if (armspec::has(r.mask, 'Y')) o.cpop = vc::any<int64_t>("vcop");
		if (armspec::has(r.mask, 'Z')) o.cpinf = vc::any<int64_t>("vinf");
	} else
	{
		o.v = r.fmt == 'b' || r.fmt == 'B' || r.fmt == 'r' || r.fmt == 'a' || r.fmt == 'A' ? (int64_t) (uint32_t) ((uint32_t) o.pos + 8 + 4 * pick(20)) : (int64_t) pick(200);
		o.shiftAmount = o.shiftType == 4 ? 1 : pick(32); o.cpop = pick(8); o.cpinf = pick(8);
	}
	if (armSym.on && __vc_native()) // replay: the real register names instead of the contract
	{
		o.d = armSym.r[1]; o.n = armSym.r[2]; o.m = armSym.r[3]; o.s = armSym.r[4]; o.shiftReg = armSym.r[5];
		o.cd = armSym.c[1]; o.cn = armSym.c[2]; o.cm = armSym.c[3]; o.pn = armSym.p[1]; o.rlist = armSym.list;
	}
	std::string t = armspec::text(r, o, variant & 1, variant);
	Asm as;
	as.at(o.pos);
	if (hasImm) as.label("val", o.v);
	if (o.shiftKind == 1) as.label("vsh", o.shiftAmount);
	if (armspec::has(r.mask, 'Y')) as.label("vcop", o.cpop);
	if (armspec::has(r.mask, 'Z')) as.label("vinf", o.cpinf);
	bool ok = as.run(std::string(dr.arch) + "\n" + t + "\n");
	if (armSym.on && !__vc_native())
	{
		o.d = armSym.R(1); o.n = armSym.R(2); o.m = armSym.R(3); o.s = armSym.R(4); o.shiftReg = armSym.R(5);
		o.cd = armSym.Cr(1); o.cn = armSym.Cr(2); o.cm = armSym.Cr(3); o.pn = armSym.P(1);
		if (armSym.listUsed) o.rlist = armSym.list;
	}
	std::string lab = "asm '" + t + "'";
	armspec::check(r, o, ok, dr.bigEndian ? as.be32(0) : as.u32(0), lab);
	__vc_assert(!ok || (as.size() == 4 && !as.f->bad), (lab + ": exactly one word").c_str());
	__vc_assert(ok || as.f->writes == 0, (lab + ": nothing written when rejected").c_str());
	if (ok) vc::reach("accepted"); else vc::reach("rejected");
}
