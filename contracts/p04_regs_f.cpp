// P04, function contracts: the register reader is replaced by its contract (a register name stands for an arbitrary register
// number); matching, validation and encoding behind it proved for all register numbers.
#include "sh_e2e.h"
#include "Archs/SuperH/ShParser.h"
#include "Archs/SuperH/SuperH.h"
// ShParser::parseRegisterTable(Parser&, ShRegisterValue&, ShRegisterDescriptor const*, unsigned long)
extern "C" bool __stub___ZN8ShParser18parseRegisterTableER6ParserR15ShRegisterValuePK20ShRegisterDescriptorm(ShParser* t, Parser& p, ShRegisterValue& dest, const ShRegisterDescriptor* table, size_t count)
{
	bool ok = t->parseRegisterTable(p, dest, table, count);
	if (ok && shSym.on)
	{
		unsigned n = (unsigned) dest.num & 15;
		dest.num = (int) shSym.r[n];
		shSym.used[n] = true;
	}
	return ok;
}
// expect: P04_fn_registers_sh accepted
VC_ENTRY(P04_fn_registers_sh)
{
	unsigned row = __vc_choose(shSpecCount, "shard");
	shSym.on = true;
	for (int i = 0; i < 16; i++) shSym.r[i] = i;
	for (int i = 1; i < 3; i++) shSym.r[i] = vc::any<uint8_t>("reg") & 15;
	ShDrive d;
	d.symBase = false;
	shE2e(row, d);
}
