// P03: every accepted MIPS instruction is encoded as the word the architecture defines
// assumes: operand values are taken modulo 2^32, as the assembler's 32-bit targets define them
#include "mips_e2e.h"
// expect: P03_e2e_forms_sh accepted rejected
VC_ENTRY(P03_e2e_forms_sh)
{
	unsigned k = __vc_choose(mipsSpecCount * 5, "shard");
	const MipsRow& r = mipsSpec[k % mipsSpecCount];
	MipsDrive d;
	d.sys = k / mipsSpecCount;
	if (!(r.systems >> d.sys & 1)) return;
	d.seed = k; d.style = k % 5;
	mipsE2e(r, d);
}
static void registerSweep(unsigned k, bool all)
{
	const MipsRow& r = mipsSpec[k % mipsSpecCount];
	int field = k / mipsSpecCount;
	MipsDrive d;
	while (!(r.systems >> d.sys & 1)) if (++d.sys == 5) return;
	const char* p = r.syn;
	int idx = 0;
	for (; *p; )
	{
		if (*p == ',' || *p == '(' || *p == ')') { p++; continue; }
		if (idx == field) break;
		p += *p == 'w' ? 1 : mipsspec::opLen(p);
		idx++;
	}
	if (!*p || *p == 'i' || *p == 'w' || *p == 'r' || (*p == 'j' && p[1] != 'b')) return;
	if (!all && !strchr("vmCWRj", *p)) return; // plain register operands: P03_fn_registers and P03_e2e_spellings
	d.symVal = d.symBase = false;
	d.field = field;
	unsigned n = (*p == 'v' && p[1] != 'c') || *p == 'm' ? 256 : 32;
	for (unsigned v = 0; v < n; v++)
	{
		if (!all && v != n - 1 && (v & (v - 1)) && v != k * 11 % n) continue;
		d.seed = v; d.style = (v + k) % 5; d.fieldValue = v;
		mipsE2e(r, d);
	}
}
// VFPU registers, prefixes, conditions and RSP elements: every bit of the number in every operand position
// expect: P03_e2e_registers_sh accepted rejected
VC_ENTRY(P03_e2e_registers_sh) { registerSweep(__vc_choose(mipsSpecCount * 4, "shard"), false); }
// every register operand: every number in every operand position, spellings rotating
VC_ENTRY(T03_e2e_registers_sh) { registerSweep(__vc_choose(mipsSpecCount * 4, "shard"), true); }
// every spelling of every register, one instruction per operand kind
VC_ENTRY(P03_e2e_spellings_sh)
{
	static const char* const rows[] = { "addu", "add.s", "mfc0", "cfc1", "mfc2", "cfc2", "lqc2", "vmulf", "mfvc" };
	unsigned k = __vc_choose(9 * 5 * 5, "shard");
	for (int i = 0; i < mipsSpecCount; i++)
	{
		const MipsRow& r = mipsSpec[i];
		if (strcmp(r.name, rows[k % 9]) || !(r.systems >> (k / 9 % 5) & 1)) continue;
		for (unsigned v = 0; v < 32; v++)
			for (int f = 0; f < 3; f++)
			{
				MipsDrive d;
				d.sys = k / 9 % 5; d.style = k / 45; d.symVal = d.symBase = false; d.field = f; d.fieldValue = v; d.seed = v;
				mipsE2e(r, d);
			}
	}
}
// instructions the selected system does not have are refused, whatever their operands
// expect: P03_e2e_unavailable_sh refused
VC_ENTRY(P03_e2e_unavailable_sh)
{
	unsigned k = __vc_choose(mipsSpecCount, "shard");
	const MipsRow& r = mipsSpec[k];
	uint32_t have = 0;
	for (int i = 0; i < mipsSpecCount; i++) if (!strcmp(mipsSpec[i].name, r.name)) have |= mipsSpec[i].systems;
	for (int s = 0; s < 5; s++)
	{
		if (have >> s & 1) continue;
		MipsDrive d;
		d.sys = s; d.symVal = d.symBase = false; d.seed = 4; d.expectRefused = true;
		mipsE2e(r, d);
	}
}
// PlayStation load delay: with .fixloaddelay a nop separates a load from an instruction that reads the
// loaded register in the next word, and nothing is inserted before one that does not mention it
// expect: P03_e2e_loaddelay_sh nop none
VC_ENTRY(P03_e2e_loaddelay_sh)
{
	static const char* const loads[] = { "lb", "lh", "lw", "lbu", "lhu", "lwl", "lwr" };
	unsigned k = __vc_choose(mipsSpecCount, "shard");
	const MipsRow& r = mipsSpec[k];
	if (!(r.systems & 1) || (r.flags & MF_JUMP)) return;
	for (unsigned bits = 0; bits < 8; bits++)
	{
		std::string t = r.name;
		bool reads = false, mentions = false, other = false, first = true, has[3] = {};
		for (const char* p = r.syn; *p;)
		{
			if (first) { t += " "; first = false; }
			if (*p == ',' || *p == '(' || *p == ')') { t += *p++; continue; }
			int i = *p == 's' ? 0 : *p == 't' ? 1 : *p == 'd' ? 2 : -1;
			if (i >= 0)
			{
				has[i] = true;
				bool hit = bits >> i & 1;
				t += hit ? "r9" : "r" + mipsspec::num(10 + i);
				if (hit) { mentions = true; if (i == 0 || (i == 1 && !(r.flags & (MF_RTDEST | MF_LOADS)))) reads = true; }
			}
			else if (*p == 'i') t += (r.flags & MF_BRANCH) ? "0x80010000" : "0";
			else if (*p == 'z' && strstr(r.syn, "t,z")) t += "$12";
			else if (*p == 'r') t += "r0";
			else other = true;
			p += *p == 'w' ? 1 : mipsspec::opLen(p);
		}
		if (other) return;
		bool redundant = false;
		for (int i = 0; i < 3; i++) redundant |= (bits >> i & 1) && !has[i];
		if (redundant) continue;
		bool writesRt = !strncmp(r.name, "mf", 2) || !strncmp(r.name, "cf", 2) || !strcmp(r.name, "lui") || !strcmp(r.name, "li");
		Asm as;
		as.at(0x80010000);
		bool res = as.run(std::string(".psx\n.fixloaddelay\n") + loads[(k + bits) % 7] + " r9,0(r8)\n" + t + "\n");
		std::string lab = "load delay before '" + t + "': ";
		__vc_assert(res, (lab + "accepted").c_str());
		if (reads && !writesRt) { __vc_assert(as.size() == 12 && as.u32(4) == 0, (lab + "nop inserted").c_str()); __vc_reach("nop"); }
		if (!mentions) { __vc_assert(as.size() == 8, (lab + "no nop inserted").c_str()); __vc_reach("none"); }
		if (as.size() == 12) __vc_assert(as.u32(4) == 0, (lab + "only a nop is inserted").c_str());
	}
}
// jumps, branches and trapping instructions are refused in the delay slot of a jump or branch
// expect: P03_e2e_delayslot_sh refused fine
VC_ENTRY(P03_e2e_delayslot_sh)
{
	unsigned k = __vc_choose(mipsSpecCount, "shard");
	const MipsRow& r = mipsSpec[k];
	for (int sys = 0; sys < 5; sys++)
	{
		if (!(r.systems >> sys & 1)) continue;
		std::string t = r.name;
		bool first = true;
		for (const char* p = r.syn; *p;)
		{
			if (first) { t += " "; first = false; }
			if (*p == ',' || *p == '(' || *p == ')') { t += *p++; continue; }
			if (strchr("std", *p)) t += "r5";
			else if (*p == 'i') t += (r.flags & (MF_BRANCH | MF_JUMP)) ? "0x80010000" : "0";
			else if (*p == 'r') t += "r0";
			else return;
			p += mipsspec::opLen(p);
		}
		Asm as;
		as.at(0x80010000);
		bool res = as.run(std::string(mipsSystems[sys]) + "\njr r31\n" + t + "\n");
		std::string lab = std::string("delay slot '") + t + "' on " + (mipsSystems[sys] + 1) + ": ";
		bool jump = (r.flags & (MF_BRANCH | MF_JUMP)) || !strncmp(r.name, "jr", 2) || !strncmp(r.name, "jalr", 4);
		if (jump) { __vc_assert(!res && as.f->writes == 0, (lab + "refused").c_str()); __vc_reach("refused"); }
		else if (!(r.flags & MF_NODS)) { __vc_assert(res && as.size() == 8, (lab + "accepted").c_str()); __vc_reach("fine"); }
	}
}
// register and element numbers outside their file are refused
// bounded: P03_e2e_badnumbers_sh a fixed list of malformed register numbers
VC_ENTRY(P03_e2e_badnumbers_sh)
{
	static const char* const t[][2] = { { ".psp", "mfvc r1,$$" }, { ".psp", "addu r1,r2,$$$" }, { ".psp", "add.s f1,f2,$$$" }, { ".psp", "mfc0 r1,$$$" }, { ".psx", "mfc2 r1,$$$" },
		{ ".rsp", "vmulf v1,v2,v3[$$]" }, { ".rsp", "lqv v1[$$],16(r1)" }, { ".rsp", "vmov v1[$$],v3[0]" }, { ".rsp", "mfc0 r1,$$$" }, { ".ps2", "bc2f $$,0x80010000" } };
	static const char* const nums[] = { "32", "33", "64", "255", "256", "4294967296", "0xFFFFFFFF", "0xFFFFFFFFFFFFFFFF", "0x8000000000000000", "0xFFFFFFFF00000001" };
	unsigned k = __vc_choose(10 * 10, "shard");
	std::string x = t[k % 10][1];
	size_t p = x.find("$$");
	x = x.substr(0, p) + nums[k / 10] + x.substr(p + 2);
	if (t[k % 10][1][p + 2] == '$') x = x.substr(0, p) + "$" + nums[k / 10];
	Asm as;
	as.at(0x80010000);
	bool res = as.run(std::string(t[k % 10][0]) + "\n" + x + "\n");
	__vc_assert(!res && as.f->writes == 0, ("number out of range refused: '" + x + "'").c_str());
}
