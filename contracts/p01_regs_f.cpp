// P01, function contracts: the register readers are replaced by their contract ("a register name stands
// for the number of that register", here an arbitrary number), and everything behind them - operand
// matching, validation, encoding - is proved for all register numbers and register lists at once.
#include "arm_e2e.h"
#include "Archs/ARM/ArmParser.h"
#include "Archs/ARM/Arm.h"

// ArmParser::parseRegisterTable(Parser&, ArmRegisterValue&, ArmRegisterDescriptor const*, unsigned long)
extern "C" bool __stub___ZN9ArmParser18parseRegisterTableER6ParserR16ArmRegisterValuePK21ArmRegisterDescriptorm(ArmParser* t, Parser& p, ArmRegisterValue& dest, const ArmRegisterDescriptor* table, size_t count)
{
	bool ok = t->parseRegisterTable(p, dest, table, count);
	if (ok && armSym.on)
	{
		char c = dest.name.string()[0];
		unsigned n = (unsigned) dest.num & 15;
		if (c == 'c') { dest.num = (int) armSym.c[n]; armSym.cu[n] = true; }
		else if (c == 'p') { dest.num = (int) armSym.p[n]; armSym.pu[n] = true; }
		else { dest.num = (int) armSym.r[n]; armSym.ru[n] = true; }
	}
	return ok;
}
// ArmParser::parseRegisterList(Parser&, int&, int)
extern "C" bool __stub___ZN9ArmParser17parseRegisterListER6ParserRii(ArmParser* t, Parser& p, int& dest, int validMask)
{
	bool on = armSym.on;
	armSym.on = false;
	bool ok = t->parseRegisterList(p, dest, validMask);
	armSym.on = on;
	if (ok && on) { dest = (int) armSym.list; armSym.listUsed = true; }
	return ok;
}
static void symRegs()
{
	armSym.on = true;
	for (int i = 0; i < 16; i++) armSym.r[i] = armSym.c[i] = armSym.p[i] = i;
	for (int i = 1; i < 6; i++) armSym.r[i] = vc::any<uint8_t>("reg") & 15;
	for (int i = 1; i < 4; i++) armSym.c[i] = vc::any<uint8_t>("copreg") & 15;
	armSym.p[1] = vc::any<uint8_t>("cop") & 15;
	armSym.list = vc::any<uint16_t>("rlist");
	vc::assume(armSym.list != 0);
}
// expect: P01_fn_registers_sh accepted rejected
VC_ENTRY(P01_fn_registers_sh)
{
	unsigned k = __vc_choose(armSpecCount * 3, "shard");
	unsigned row = k % armSpecCount, var = k / armSpecCount;
	symRegs();
	ArmDrive d;
	d.arch = ".nds"; d.symBase = false; d.symImm = false;
	armE2e(row, var * 3 + row % 3, d);
}
