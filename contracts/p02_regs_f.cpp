// P02, function contracts: register readers replaced by their contract (a register name stands for an
// arbitrary number); matching, validation and encoding behind them proved for all register numbers.
#include "thumb_e2e.h"
#include "Archs/ARM/ArmParser.h"
#include "Archs/ARM/Arm.h"
// ArmParser::parseRegisterTable(Parser&, ArmRegisterValue&, ArmRegisterDescriptor const*, unsigned long)
extern "C" bool __stub___ZN9ArmParser18parseRegisterTableER6ParserR16ArmRegisterValuePK21ArmRegisterDescriptorm(ArmParser* t, Parser& p, ArmRegisterValue& dest, const ArmRegisterDescriptor* table, size_t count)
{
	bool ok = t->parseRegisterTable(p, dest, table, count);
	if (ok && thumbSym.on)
	{
		unsigned n = (unsigned) dest.num & 15;
		if (n >= 1 && n <= 4) { dest.num = (int) thumbSym.r[n]; thumbSym.ru[n] = true; }
	}
	return ok;
}
// ArmParser::parseRegisterList(Parser&, int&, int)
extern "C" bool __stub___ZN9ArmParser17parseRegisterListER6ParserRii(ArmParser* t, Parser& p, int& dest, int validMask)
{
	bool on = thumbSym.on;
	thumbSym.on = false;
	bool ok = t->parseRegisterList(p, dest, validMask);
	thumbSym.on = on;
	if (ok && on) { dest = (int) thumbSym.list; thumbSym.listUsed = true; return (validMask & dest) == dest; }
	return ok;
}
// expect: P02_fn_registers_sh accepted
VC_ENTRY(P02_fn_registers_sh)
{
	unsigned row = __vc_choose(thumbSpecCount, "shard");
	const ThumbRow& r = thumbSpec[row];
	thumbSym.on = true;
	for (int i = 0; i < 16; i++) thumbSym.r[i] = i;
	for (int i = 1; i < 5; i++) thumbSym.r[i] = vc::any<uint8_t>("reg") & (r.fmt == '5' ? 15 : 7);
	if (thumbspec::has(r, 'D')) vc::assume(thumbSym.r[1] > 7 || thumbSym.r[2] > 7);
	thumbSym.list = vc::any<uint16_t>("rlist");
	vc::assume(thumbSym.list != 0);
	ThumbDrive d;
	d.symBase = false;
	thumbE2e(row, 0, d);
}
