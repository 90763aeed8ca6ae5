// P12: exactly the blocks whose conditions hold are assembled
// assumes: conditions do not depend on addresses that the conditional blocks themselves move
#include "common.h"
static std::string num(uint64_t v) { std::string n; do { n.insert(n.begin(), char('0' + v % 10)); v /= 10; } while (v); return n; }
// kinds of condition; text after ".if"/".elseif", and its value
enum { LIT0, LIT5, NEG, SYM, LATE, DEF, NDEF, NDEFT, CONSTEXP, KINDS };
struct Cond
{
	std::string tail;                // "" for .if, "def NAME", ...
	int known = -1;                  // -1: symbolic
	int64_t v = 0;
};
static Cond make(FileAsm& as, unsigned kind, unsigned idx, std::string& defs)
{
	Cond c;
	switch (kind)
	{
	case LIT0: c.tail = " 0"; c.known = 0; break;
	case LIT5: c.tail = " 5"; c.known = 1; break;
	case NEG: c.tail = " -1"; c.known = 1; break;
	case SYM: c.v = (int64_t) __vc_any("c", 64); c.tail = " " + as.val(c.v); break;
	case LATE: c.v = (int64_t) __vc_any("c", 64); c.tail = " late" + num(idx); defs += ".definelabel late" + num(idx) + "," + as.val(c.v) + "\n"; break;
	case DEF: c.tail = "def later"; c.known = 1; break;
	case NDEF: c.tail = "ndef later"; c.known = 0; break;
	case NDEFT: c.tail = "ndef nowhere"; c.known = 1; break;
	case CONSTEXP: c.tail = " 3*(4-2)-6"; c.known = 0; break;
	}
	return c;
}
static bool holds(const Cond& c) { return c.known >= 0 ? c.known : __vc_decide(c.v != 0); }
static bool same(const std::vector<uint8_t>& a, const std::vector<uint8_t>& b) { if (a.size() != b.size()) return false; bool g = true; for (size_t i = 0; i < a.size(); i++) g &= a[i] == b[i]; return g; }

// chains of .if/.elseif.../.else
// expect: P12_e2e_chain_sh chosen
// bounded: P12_e2e_chain_sh chains of up to three branches, symbolic conditions
VC_ENTRY(P12_e2e_chain_sh)
{
	unsigned k = __vc_choose(KINDS * KINDS * KINDS * 2, "shard"), els = k / (KINDS * KINDS * KINDS);
	unsigned kind[3] = { k % KINDS, k / KINDS % KINDS, k / (KINDS * KINDS) % KINDS };
	FileAsm as;
	std::string defs, t = ".sym off\n.gba\n.create \"out.bin\",0\n.d8 100\n";
	Cond c[3];
	for (unsigned i = 0; i < 3; i++)
	{
		c[i] = make(as, kind[i], i, defs);
		t += (i ? ".elseif" : ".if") + c[i].tail + "\n.d8 " + num(i + 1) + "\n";
	}
	if (els) t += ".else\n.d8 9\n";
	t += ".endif\n.d8 101\nlater:\n" + defs + ".close\n";
	bool res = as.run(t);
	std::string lab = "chain of conditions " + num(kind[0]) + "," + num(kind[1]) + "," + num(kind[2]) + (els ? " with else: " : ": ");
	__vc_assert(res, (lab + "assembles").c_str());
	if (!res) return;
	std::vector<uint8_t> want { 100 };
	if (holds(c[0])) want.push_back(1);
	else if (holds(c[1])) want.push_back(2);
	else if (holds(c[2])) want.push_back(3);
	else if (els) want.push_back(9);
	want.push_back(101);
	__vc_assert(same(as.get("out.bin")->data, want), (lab + "the first block whose condition holds, and no other").c_str());
	__vc_reach("chosen");
}
// nested blocks
// expect: P12_e2e_nested_sh chosen
// bounded: P12_e2e_nested_sh two levels of nesting, symbolic conditions
VC_ENTRY(P12_e2e_nested_sh)
{
	static const unsigned kinds[] = { LIT0, LIT5, SYM, LATE, DEF, NDEF };
	unsigned k = __vc_choose(6 * 6 * 6 * 2, "shard"), form = k / 216;
	FileAsm as;
	std::string defs;
	Cond a = make(as, kinds[k % 6], 0, defs), b = make(as, kinds[k / 6 % 6], 1, defs), c = make(as, kinds[k / 36 % 6], 2, defs);
	std::string t = ".sym off\n.gba\n.create \"out.bin\",0\n";
	if (form == 0)
		t += ".if" + a.tail + " :: .d8 1 :: .if" + b.tail + " :: .d8 2 :: .if" + c.tail + " :: .d8 3 :: .else :: .d8 4 :: .endif :: .d8 5 :: .endif :: .d8 6 :: .else :: .d8 7 :: .endif :: .d8 8\n";
	else
		t += ".if" + a.tail + "\n.d8 1\n.else\n.d8 2\n.if" + b.tail + "\n.else\n.d8 3\n.if" + c.tail + "\n.d8 4\n.endif\n.endif\n.endif\n.d8 8\n";
	t += "later:\n" + defs + ".close\n";
	bool res = as.run(t);
	std::string lab = "nested conditions " + num(k) + ": ";
	__vc_assert(res, (lab + "assembles").c_str());
	if (!res) return;
	std::vector<uint8_t> want;
	if (form == 0)
	{
		if (holds(a)) { want.push_back(1); if (holds(b)) { want.push_back(2); want.push_back(holds(c) ? 3 : 4); want.push_back(5); } want.push_back(6); }
		else want.push_back(7);
	}
	else if (holds(a)) want.push_back(1);
	else { want.push_back(2); if (!holds(b)) { want.push_back(3); if (holds(c)) want.push_back(4); } }
	want.push_back(8);
	__vc_assert(same(as.get("out.bin")->data, want), (lab + "exactly the blocks whose conditions hold").c_str());
	__vc_reach("chosen");
}
// what a block does takes effect exactly if it is assembled
struct Eff { const char* content; const char* after; int yes, no; };   // byte written by "after" if the block was used, or not; -1: failure
static const Eff effs[] = {
	{ "x equ 3", ".ifdef nothere :: .endif :: .d8 x", 3, -1 },
	{ "x equ 3", "x equ 4\n.d8 x", -1, 4 },
	{ ".macro m :: .d8 3 :: .endmacro", "m", 3, -1 },
	{ ".macro m :: .d8 3 :: .endmacro", ".macro m :: .d8 4 :: .endmacro :: m", -1, 4 },
	{ ".expfunc f(a),a+1", ".d8 f(6)", 7, -1 },
	{ ".include \"i.asm\"", ".d8 inclabel", 0, -1 },
	{ ".include \"missing.asm\"", ".d8 4", -1, 4 },
	{ ".definelabel x,3", ".d8 x", 3, -1 },
	{ ".definelabel x,3", ".ifdef x :: .d8 1 :: .else :: .d8 2 :: .endif", 1, 2 },
	{ ".definelabel x,3", ".definelabel x,4 :: .d8 x", -1, 4 },
	{ "x:", ".d8 defined(x)", 1, 0 },
	{ "x:", "x: .d8 5", -1, 5 },
	{ ".error \"no\"", ".d8 4", -1, 4 },
	{ ".loadtable \"u.tbl\"", ".strn \"a\"", 0x71, 0x41 },
	{ ".loadtable \"missing.tbl\"", ".d8 4", -1, 4 },
	{ ".d8 undefinedlabel :: .orga 0", ".d8 4", -1, 4 },
	{ ".d8 \"a\"-1", ".orga 0 :: .d8 4", -1, 4 },
	{ ".nocash on", ".orga 0 :: .dw 0x102", 1, 0 },
	{ "y:", "x: @@m:\n.if 0\nz:\n.endif\n.d8 @@m+6", 6, 6 },
	{ ".arm", ".skip 4 :: mov r0,1", 0xE3, 0x20 },
	{ ".arm\n.thumb\n.arm", ".skip 4 :: mov r0,1", 0xE3, 0x20 },
	{ ".nds", ".skip 4 :: mov r0,1", 0xE3, 0x20 },
	{ ".psx", ".skip 4 :: addiu a0,a1,1", 0x24, -1 },
	{ ".psx\naddiu a0,a1,1\n.n64\n.fixloaddelay", ".orga 0 :: .arm :: mov r0,1", -1, 0xE3 },
	{ ".saturn", ".orga 0 :: .d16 0x0102", 2, 1 },
	{ ".arm.big", ".orga 0 :: .d16 0x0102", 2, 1 },
	{ ".n64", ".orga 0 :: .d16 0x0102", 2, 1 },
	{ ".relativeinclude on", ".include \"sub/s.asm\"\n.d8 inclabel", 6, 0 },
	{ ".incbin \"missing.bin\"", ".d8 4", -1, 4 },
	{ ".area 0 :: .d8 5 :: .endarea", ".orga 0 :: .d8 4", -1, 4 },
	{ ".headersize 4", ".d8 org()", 4, 0 },
	{ ".skip 3", ".d8 orga()", 3, 0 },
	{ "@@l:", ".d8 defined(@@l)", 1, 0 },
	{ ".erroronwarning on", ".warning \"w\" :: .d8 4", -1, 4 },
	{ ".erroronwarning on", ".aligna 4 :: .warning \"w\" :: .d8 4", -1, 4 },
};
// expect: P12_e2e_effects used unused
// bounded: P12_e2e_effects a fixed list of statements, symbolic condition
VC_ENTRY(P12_e2e_effects)
{
	unsigned n = sizeof(effs) / sizeof(effs[0]), k = __vc_choose(n * 2 * 4, "case"), yes = k / n % 2, els = k / n / 2 % 2, inner = k / n / 4;
	auto& e = effs[k % n];
	FileAsm as;
	as.put("i.asm", std::string("inclabel:\n"));
	as.put("sub/s.asm", std::string(".include \"i.asm\"\n"));
	as.put("sub/i.asm", std::string(".definelabel inclabel,6\n"));
	as.put("t.tbl", std::string("41=a\n"));
	as.put("u.tbl", std::string("71=a\n"));
	std::string t = std::string(".gba\n.create \"out.bin\",0\n.loadtable \"t.tbl\"\n");
	std::string content = inner ? std::string(".if 1\n") + e.content + "\n.else\n.error \"no\"\n.endif" : std::string(e.content);
	t += els ? std::string(".if ") + (yes ? "0" : "1") + "\n.else\n" + content + "\n.endif\n" : std::string(".if ") + (yes ? "1" : "0") + "\n" + content + "\n.endif\n";
	t += std::string(e.after) + "\n.close\n";
	bool res = as.run(t);
	int want = yes ? e.yes : e.no;
	std::string lab = std::string(yes ? "used" : "unused") + (els ? " else block: " : " block: ") + (inner ? "(nested) " : "") + e.content + ": ";
	if (want < 0) { __vc_assert(!res && !as.exists("out.bin"), (lab + "assembly fails").c_str()); __vc_reach(yes ? "used" : "unused"); return; }
	__vc_assert(res, (lab + "assembles").c_str());
	if (!res) return;
	auto& d = as.get("out.bin")->data;
	__vc_assert(d.size() >= 1 && d.back() == want, (lab + "effect").c_str());
	__vc_reach(yes ? "used" : "unused");
}
// the same for conditions decided late: labels of unused blocks do not exist
// expect: P12_e2e_lateeffects used unused
// bounded: P12_e2e_lateeffects a fixed list of statements, symbolic late condition
VC_ENTRY(P12_e2e_lateeffects)
{
	static const Eff late[] = {
		{ ".definelabel x,3", ".d8 x", 3, -1 },
		{ "x:", ".d8 defined(x)", 1, 0 },
		{ ".definelabel x,3", ".ifdef x :: .d8 1 :: .else :: .d8 2 :: .endif", 1, 2 },
		{ ".error \"no\"", ".d8 4", -1, 4 },
		{ ".d8 undefinedlabel", ".d8 4", -1, 4 },
		{ ".headersize 4", ".d8 org()", 4, 0 },
		{ ".skip 3", ".d8 orga()", 3, 0 },
		{ ".skip 3", "y: .d8 y", 3, 0 },
		{ "x equ 3", ".d8 4", -1, -1 },
		{ ".macro m :: .d8 3 :: .endmacro", ".d8 4", -1, -1 },
		{ ".expfunc f(a),a+1", ".d8 4", -1, -1 },
		{ ".loadtable \"u.tbl\"", ".strn \"a\"", 0x71, 0x41 },
		{ ".area 0 :: .d8 5 :: .endarea", ".orga 0 :: .d8 4", -1, 4 },
	};
	unsigned n = sizeof(late) / sizeof(late[0]), k = __vc_choose(n * 2, "case"), els = k / n;
	auto& e = late[k % n];
	// a label keeps its definition from an earlier pass (so that a block can define the label it asks for)
	if (els && k % n < 3) return;
	FileAsm as;
	as.put("t.tbl", std::string("41=a\n"));
	as.put("u.tbl", std::string("71=a\n"));
	int64_t v = (int64_t) __vc_any("v", 64);
	bool used = __vc_decide(v != 0);
	if (els) used = !used;
	bool res = as.run(std::string(".sym off\n.gba\n.create \"out.bin\",0\n.loadtable \"t.tbl\"\n.if cond\n") + (els ? ".else\n" : "") + e.content + "\n.endif\n" + e.after + "\n.close\n.definelabel cond," + as.val(v) + "\n");
	int want = used ? e.yes : e.no;
	std::string lab = std::string(used ? "used" : "unused") + " late block: " + e.content + (els ? " (else): " : ": ");
	if (want < 0) { __vc_assert(!res && !as.exists("out.bin"), (lab + "assembly fails").c_str()); __vc_reach(used ? "used" : "unused"); return; }
	__vc_assert(res, (lab + "assembles").c_str());
	if (!res) return;
	auto& d = as.get("out.bin")->data;
	__vc_assert(d.size() >= 1 && d.back() == want, (lab + "effect").c_str());
	__vc_reach(used ? "used" : "unused");
}
// malformed blocks and conditions
// expect: P12_e2e_reject refused
// bounded: P12_e2e_reject a fixed list of malformed chains
VC_ENTRY(P12_e2e_reject)
{
	static const char* bad[] = {
		".if 1\n.d8 1", ".if 0\n.d8 1", ".d8 1\n.endif", ".d8 1\n.else\n.endif", ".d8 1\n.elseif 1\n.endif", ".if 1\n.else\n.else\n.endif", ".if 1\n.else\n.elseif 1\n.endif",
		".if\n.endif", ".if \"a\"\n.endif", ".if 1.5\n.endif", ".if nolabel\n.d8 1\n.endif", ".if 0\n.elseif nolabel\n.d8 1\n.endif", ".ifdef\n.endif", ".ifdef 5\n.endif", ".if 1 2\n.endif", ".if 1\n.if 1\n.endif",
		".if x\n.elseif \"s\"\n.endif\n.definelabel x,0", ".if 1.5+x\n.endif\n.definelabel x,0", ".ifdef 1x\n.endif", ".macro m\n.if 1\n.endmacro\nm\n.endif",
	};
	unsigned n = sizeof(bad) / sizeof(bad[0]), k = __vc_choose(n, "case");
	FileAsm as;
	bool res = as.run(std::string(".gba\n.create \"out.bin\",0\n") + bad[k] + "\n.close\n");
	__vc_assert(!res && !as.exists("out.bin"), (std::string("malformed conditional ") + num(k) + ": " + bad[k] + ": fails without output").c_str());
	__vc_reach("refused");
}
// the default value idiom
// expect: P12_e2e_default_sh default
VC_ENTRY(P12_e2e_default_sh)
{
	unsigned k = __vc_choose(6, "shard");
	FileAsm as;
	int64_t v = (int64_t) __vc_any("v", 64), w = (int64_t) __vc_any("w", 64);
	std::string idiom = k % 2 ? ".ifdef x\n.else\n.definelabel x," + as.val(v) + "\n.endif\n" : ".ifndef x\n.definelabel x," + as.val(v) + "\n.endif\n";
	std::string def = ".definelabel x," + as.val(w) + "\n";
	bool res = as.run(".sym off\n.gba\n.create \"out.bin\",0\n" + (k / 2 == 1 ? def : "") + idiom + ".d64 x\n.close\n" + (k / 2 == 2 ? idiom : ""));
	std::string lab = "default value of a label, form " + num(k) + ": ";
	__vc_assert(res, (lab + "assembles").c_str());
	if (!res) return;
	auto& d = as.get("out.bin")->data;
	uint64_t got = 0;
	for (int i = 7; i >= 0; i--) got = got << 8 | (d.size() == 8 ? d[i] : 0);
	__vc_assert(d.size() == 8 && got == (uint64_t) (k / 2 == 1 ? w : v), (lab + "the earlier definition, or else the default").c_str());
	__vc_reach("default");
}
