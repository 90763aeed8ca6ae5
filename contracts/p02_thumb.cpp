// P02: every accepted Thumb instruction is encoded as the halfword(s) the architecture defines
#include "thumb_e2e.h"
// expect: P02_e2e_forms_sh accepted rejected
VC_ENTRY(P02_e2e_forms_sh)
{
	unsigned k = __vc_choose(thumbSpecCount * 4, "shard");
	ThumbDrive d;
	thumbE2e(k % thumbSpecCount, k / thumbSpecCount, d);
}
// expect: P02_e2e_registers_sh accepted rejected
VC_ENTRY(P02_e2e_registers_sh)
{
	unsigned k = __vc_choose(thumbSpecCount * 5, "shard");
	unsigned row = k % thumbSpecCount, fld = k / thumbSpecCount;
	const ThumbRow& r = thumbSpec[row];
	static const char* const cs[] = { "dD", "sS", "n", "o", "R" };
	if (!thumbspec::has(r, cs[fld][0]) && !(cs[fld][1] && thumbspec::has(r, cs[fld][1]))) return;
	std::string nm = r.name;
	bool other = nm == "add" || nm == "sub" || nm == "mov" || nm == "cmp";
	for (unsigned v = 0; v < 16; v++)
	{
		if (fld < 4 && v > 7 && r.fmt != '5')
		{
			if (other) continue; // another form takes high registers
			if (fld == 1 && (v == 13 || v == 15)) continue; // sp and pc relative forms
		}
		ThumbDrive d;
		d.symImm = d.symBase = false; d.field = fld; d.fieldValue = v;
		thumbE2e(row, r.fmt == '5' ? (fld == 0 ? 1 : 0) : v + row, d);
	}
}
// expect: P02_e2e_gba_sh accepted rejected
VC_ENTRY(P02_e2e_gba_sh)
{
	unsigned k = __vc_choose(thumbSpecCount, "shard");
	ThumbDrive d;
	d.arch = ".gba"; d.symBase = false;
	if (thumbSpec[k].arm9)
	{
		// instructions the core does not have are refused
		ThumbOps o;
		o.d = o.s = 3;
		Asm as;
		as.at(0x8000000).label("val", 0);
		std::string t = thumbspec::text(thumbSpec[k], o, 0);
		bool ok = as.run(".gba\n.thumb\n" + t + "\n");
		__vc_assert(!ok && as.f->writes == 0, ("thumb '" + t + "': not available on ARM7").c_str());
		return;
	}
	thumbE2e(k, k + 1, d);
}
VC_ENTRY(T02_e2e_all_sh)
{
	unsigned k = __vc_choose(thumbSpecCount * 16, "shard");
	ThumbDrive d;
	d.arch = k & 1 ? ".3ds" : ".arm.little";
	thumbE2e(k % thumbSpecCount, k / thumbSpecCount + 4, d);
}
