// P01: every accepted ARM instruction is encoded as the word the architecture defines for it, and
// operands without an encoding are rejected.
#include "arm_e2e.h"

static bool pcRelative(int row) { return strchr("bBraA", armSpec[row].fmt) != nullptr; }

// every instruction form, all 64-bit operand values and (first variant) all positions
// expect: P01_e2e_forms_sh accepted rejected
VC_ENTRY(P01_e2e_forms_sh)
{
	unsigned k = __vc_choose(armSpecCount * 3, "shard");
	unsigned row = k % armSpecCount, var = k / armSpecCount;
	ArmDrive d;
	d.arch = row % 3 == 0 ? ".nds" : ".3ds"; d.shortSwi = row % 3 == 0;
	d.symBase = armSpec[row].fmt == 'r' ? (var == 0 && row % 3 == 0) : (!pcRelative(row) ? false : var == 0);
	// shifts and condition names rotate through the variants
	armE2e(row, var * 5 + row % 5, d);
}
// every register, coprocessor register, condition and addressing mode in every operand place
// expect: P01_e2e_registers_sh accepted rejected
VC_ENTRY(P01_e2e_registers_sh)
{
	static const unsigned char masks[] = { 'd', 'n', 'm', 's', 'S', 'M', 0, 0, 'R' };
	unsigned k = __vc_choose(armSpecCount * 9 * 4, "shard");
	unsigned row = k % armSpecCount, fld = k / armSpecCount % 9, q = k / armSpecCount / 9;
	const ArmRow& r = armSpec[row];
	if (fld < 4 || fld == 8) { if (!armspec::has(r.mask, masks[fld])) return; }
	if (fld == 4 && !strstr(r.mask, "S0") && !armspec::has(r.mask, 'z')) return;
	if (fld == 5 && !armspec::has(r.mask, 'M')) return;
	if (fld == 6 && !armspec::has(r.name, 'C')) return;
	if (fld == 7 && !armspec::has(r.name, 'A')) return;
	for (unsigned v = q * 4; v < q * 4 + 4; v++)
	{
		ArmDrive d;
		d.symImm = d.symBase = false; d.field = fld; d.fieldValue = v;
		unsigned variant = fld == 4 ? 6 + (row + v) % 4 : fld == 7 ? v / 8 : (row * 3 + v) % 10;
		if (fld == 4 && armspec::has(r.mask, 'z')) variant |= 1;
		armE2e(row, variant, d);
	}
}
// expect: P01_e2e_bigendian_sh accepted rejected
VC_ENTRY(P01_e2e_bigendian_sh)
{
	unsigned k = __vc_choose(armSpecCount / 8, "shard");
	ArmDrive d;
	d.arch = ".arm.big"; d.shortSwi = false; d.bigEndian = true; d.symBase = false;
	armE2e(k * 8 + 3, k, d);
}
// expect: P01_e2e_gba_sh accepted rejected
VC_ENTRY(P01_e2e_gba_sh)
{
	unsigned k = __vc_choose(armSpecCount / 4, "shard");
	if (armSpec[k * 4].arm9) return;
	ArmDrive d;
	d.arch = ".gba\n.arm"; d.symBase = false;
	armE2e(k * 4, k, d);
}
VC_ENTRY(T01_e2e_all_sh) // thorough: ten variants of every form, all positions
{
	unsigned k = __vc_choose(armSpecCount * 10, "shard");
	ArmDrive d;
	d.arch = k & 1 ? ".arm.little" : ".nds"; d.shortSwi = !(k & 1);
	armE2e(k % armSpecCount, k / armSpecCount, d);
}

// bounded: P01_e2e_psrfields_sh every string of up to four field letters, and a list of malformed ones
// expect: P01_e2e_psrfields_sh accepted rejected
VC_ENTRY(P01_e2e_psrfields_sh)
{
	static const char* const bad[] = { "q", "fq", "fsxcf", "fsxcq", "fsxcctl", "ctlx", "flgf", "ctlflg", "_f", "f_" };
	unsigned k = __vc_choose(4 + 16 + 64 + 256 + sizeof(bad) / sizeof(bad[0]) + 2, "shard");
	const char* psr = k % 2 ? "spsr" : "cpsr";
	std::string fields;
	unsigned mask = 0;
	bool ok = true;
	if (k < 340)
	{
		unsigned n = 1, c = k, w = 4;
		while (c >= w) { c -= w; w *= 4; n++; }
		for (unsigned i = 0; i < n; i++, c /= 4)
		{
			unsigned bit = 1u << (c % 4);
			fields += "cxsf"[c % 4];
			if (mask & bit) ok = false;
			mask |= bit;
		}
	}
	else if (k < 342) { fields = k == 340 ? "ctl" : "flg"; mask = k == 340 ? 1 : 8; }
	else { fields = bad[k - 342]; ok = false; }
	for (int imm = 0; imm < 2; imm++)
	{
		Asm as;
		as.at(0x1000);
		std::string t = std::string("msr ") + psr + "_" + fields + (imm ? ",0xFF000" : ",r5");
		bool r = as.run(".gba\n.arm\n" + t + "\n");
		__vc_assert(r == ok, (t + ": accepted iff every field is named once").c_str());
		if (!ok || !r) { __vc_assert(as.f->writes == 0 || r, (t + ": nothing written").c_str()); __vc_reach("rejected"); continue; }
		__vc_assert(as.u32(0) == ((imm ? 0xE320FAFFu : 0xE120F005u) | mask << 16 | (k % 2) << 22), (t + ": the word").c_str());
		__vc_reach("accepted");
	}
}
