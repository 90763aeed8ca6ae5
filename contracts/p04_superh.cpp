// P04: every accepted SuperH instruction is encoded as the halfword the architecture defines
#include "sh_e2e.h"
// expect: P04_e2e_forms_sh accepted rejected
VC_ENTRY(P04_e2e_forms_sh)
{
	unsigned k = __vc_choose(shSpecCount * 2, "shard");
	ShDrive d;
	unsigned row = k % shSpecCount;
	d.style = k / shSpecCount * 3;
	d.m = (row * 7 + 3 + d.style) % 16; d.n = (row * 5 + 9 + d.style) % 16;
	shE2e(row, d);
}
// expect: P04_e2e_registers_sh accepted
VC_ENTRY(P04_e2e_registers_sh)
{
	unsigned k = __vc_choose(shSpecCount * 2, "shard"), row = k % shSpecCount;
	bool second = k / shSpecCount;
	if (!shHas(shSpec[row], second ? 'n' : 'm')) return;
	for (unsigned v = 0; v < 16; v++)
	{
		ShDrive d;
		d.symImm = d.symBase = false;
		d.m = second ? (v * 3 + 1) % 16 : v;
		d.n = second ? v : (v * 3 + 1) % 16;
		d.style = v & 3;
		shE2e(row, d);
	}
}
// bounded: P04_e2e_badforms_sh a fixed list of malformed operands
// expect: P04_e2e_badforms_sh done
VC_ENTRY(P04_e2e_badforms_sh)
{
	static const char* const bad[] = {
		"add @r1,r2", "add r1,@r2", "mov @r1,r2", "mov r1,@r2", "mov.b r1,r2", "mov.l r1,r2", "mov.b @r1,@r2", "mov.b @r1+,@r2", "mov.b r3,@(1,r2)", "mov.w r3,@(2,r2)",
		"mov.b @(1,r2),r3", "mov.w @(2,r2),r3", "mov.l @(r1,r2),r3", "mov.b r3,@(r1,r2)", "mov.b r1,@(4,gbr)", "mov.l @(4,gbr),r1", "mov.b @(4,pc),r0", "mova 0x100,r1", "mova @(4,pc),r1",
		"and #1,r1", "or #1,r2", "xor 1,r3", "tst #1,r4", "and.b #1,@(r1,gbr)", "tst.b #1,r0", "cmp/eq #1,r2", "cmp/xx r1,r2", "cmp r1,r2", "cmp/hs #1,r0", "cmp/pl r1,r2",
		"mov.b r1,@r5-r2", "mov.b @r1-,r2", "mov.b r1,@+r2", "mov.b r1,@r2+", "mov.b r0,@x(1,r2)", "mov.b @x(1,r2),r0", "mac.l @r1+,@r2", "mac.w r1,r2", "tas.b r1",
		"mov.b @-r1,r2", "mov.b @@r1,r2", "sub #1,r0", "not r1", "movt", "movt 5", "swap.b r1", "swap r1,r2", "dt @r1", "rotl @r3", "shll4 r1", "shll 1",
		"bf/t 0x10", "bf/s", "bt", "bra r1", "bra @r1", "bsr", "jmp", "jmp @r1+", "jsr 0x100", "rts r0", "nop 1", "div0u r1", "ldc r1,pr", "ldc r1,mach", "ldc @r1,sr", "ldc.l r1,sr", "ldc.l @r1,sr",
		"lds r1,sr", "lds r1,gbr", "lds.l @r1,pr", "stc pr,r1", "stc sr,@-r1", "stc.l sr,@r1", "stc.l sr,r1", "sts sr,r1", "sts r1,pr", "sts.l pr,r1", "trapa 1", "trapa", "trapa r1",
		"add r16,r1", "add r1,r16", "add sr,r1", "mov pc,r1", "mov r1,pr", "add #\"a\",r1", "add 1.5,r1", "mov #undefinedlabel,r1", "add r1,r2,r3", "add r1", "add (r1),r2", "mul r1,r2", "ldrc r1" };
	const char* b = bad[__vc_choose(sizeof(bad) / sizeof(bad[0]), "shard")];
	{
		Asm as;
		as.at(0);
		bool ok = as.run(std::string(".saturn\n") + b + "\n");
		__vc_assert(!ok && as.f->writes == 0, ("superh '" + std::string(b) + "' is rejected").c_str());
	}
	__vc_reach("done");
}
