// P03, function contracts: MipsParser's register readers replaced by their contract (a spelled register
// stands for an arbitrary number 0..31); operand matching, implied operands and encoding proved for all numbers.
#include "mips_e2e.h"
#include "Archs/MIPS/MipsParser.h"
static void generalise(MipsRegisterValue& dest)
{
	unsigned n = (unsigned) dest.num & 31;
	if (mipsSym.on && n >= 1 && n <= 8) { mipsSym.used[n] = true; dest.num = (int) mipsSym.r[n]; }
}
// MipsParser::parseRegisterTable(Parser&, MipsRegisterValue&, MipsRegisterDescriptor const*, unsigned long)
extern "C" bool __stub___ZN10MipsParser18parseRegisterTableER6ParserR17MipsRegisterValuePK22MipsRegisterDescriptorm(MipsParser* t, Parser& p, MipsRegisterValue& dest, const MipsRegisterDescriptor* table, size_t count)
{
	bool ok = t->parseRegisterTable(p, dest, table, count);
	if (ok) generalise(dest);
	return ok;
}
// MipsParser::parseRegisterNumber(Parser&, MipsRegisterValue&, int)
extern "C" bool __stub___ZN10MipsParser19parseRegisterNumberER6ParserR17MipsRegisterValuei(MipsParser* t, Parser& p, MipsRegisterValue& dest, int numValues)
{
	bool ok = t->parseRegisterNumber(p, dest, numValues);
	if (ok && numValues == 32) generalise(dest);
	return ok;
}
// expect: P03_fn_registers_sh accepted
VC_ENTRY(P03_fn_registers_sh)
{
	unsigned k = __vc_choose(mipsSpecCount, "shard");
	const MipsRow& r = mipsSpec[k];
	MipsDrive d;
	while (!(r.systems >> d.sys & 1)) if (++d.sys == 5) return;
	mipsSym.on = true;
	for (int i = 0; i < 16; i++) { mipsSym.r[i] = i; mipsSym.used[i] = false; }
	for (int i = 1; i < 9; i++) mipsSym.r[i] = vc::any<uint8_t>("reg") & 31;
	d.symVal = d.symBase = false;
	d.seed = 1;
	d.style = k & 1;
	mipsE2e(r, d);
}
