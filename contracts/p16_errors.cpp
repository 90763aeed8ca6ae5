// P16: an error anywhere makes the assembly fail before anything is written; what is reported is exactly what happened
// assumes: std::filesystem and std::fstream behave like contracts/vfs/Util/FileSystem.h (in-memory files, no disk errors)
// assumes: warnings about output files left open at the end of the assembly are reported after the output is written and are not claimed
#include "common.h"
static std::string num(uint64_t v) { std::string n; do { n.insert(n.begin(), char('0' + v % 10)); v /= 10; } while (v); return n; }
static bool has(const std::vector<std::string>& e, const std::string& t) { for (auto& s : e) if (s.find(t) != std::string::npos) return true; return false; }

// messages whose conditions are arbitrary values, on all their combinations: exactly those with a true condition are reported, in
// order, with file, line and kind; the assembly fails exactly if one of them is an error
// expect: P16_e2e_messages_sh failed passed
// bounded: P16_e2e_messages_sh three messages, arbitrary conditions
VC_ENTRY(P16_e2e_messages_sh)
{
	static const char* const dir[3] = { ".notice", ".warning", ".error" };
	static const char* const kind[3] = { "notice", "warning", "error" };
	unsigned k = __vc_choose(27 * 5 * 2, "shard"), kinds = k % 27, mode = k / 27 % 5;
	bool late = k / 135;
	bool promote = mode == 1 || mode == 2 || mode == 4;
	FileAsm as;
	as.a.errorOnWarning = mode == 2 || mode == 3;
	std::string text = ".gba\n";
	if (mode == 1) text += ".erroronwarning on\n"; else if (mode == 3) text += ".erroronwarning off\n"; else if (mode == 4) text += ".erroronwarning off\n.erroronwarning on\n"; else text += "\n";
	if (mode != 4) text += "\n";
	text += ".create \"out.bin\",0x100\n";
	std::vector<std::string> want;
	bool fail = false;
	unsigned line = 5;
	for (int i = 0; i < 3; i++)
	{
		int64_t c = (int64_t) __vc_any("c", 64);
		bool t = __vc_decide(c != 0);
		unsigned q = kinds % 3;
		kinds /= 3;
		// a condition that depends on a label behind it is decided late
		text += ".if " + as.val(c) + (late ? " * (end-end+1)" : "") + "\n" + dir[q] + " \"text " + num(i) + "\"\n.endif\n.byte 1\n";
		if (t)
		{
			want.push_back("in.asm(" + num(line + 1) + ") " + kind[q] + ": text " + num(i));
			if (q == 2 || (q == 1 && promote)) fail = true;
		}
		line += 4;
	}
	text += "end: .close\n";
	bool res = as.run(text);
	__vc_assert(res == !fail, "messages: fails exactly on an error");
	bool same = as.errors.size() == want.size();
	for (size_t i = 0; same && i < want.size(); i++) { const std::string& e = as.errors[i]; same = e.size() >= want[i].size() && e.compare(e.size() - want[i].size(), want[i].size(), want[i]) == 0; }
	__vc_assert(same, "messages: exactly those reported, in order, with file, line and kind");
	__vc_assert(as.exists("out.bin") == !fail, "messages: nothing is created on an error");
	if (!fail && as.exists("out.bin")) __vc_assert(as.get("out.bin")->data.size() == 3, "messages: everything is written without an error");
	__vc_reach(fail ? "failed" : "passed");
}

struct Bad { const char* text; bool line; };
static const Bad BAD[] = {
	{ ".error \"x\"", true }, { "bogus r0", true }, { "mov r0,r99", true }, { "mov r0,0x12345678,1", true }, { "b 0x10000000", true }, { "ldr r0,[r1,0x10000]", true },
	{ "add r0,r1,0x101", true }, { "dup1: dup1:", true }, { ".byte undefinedSymbol", true }, { ".word 1+", true }, { ".byte 1 2", true }, { ".float \"a\"", true },
	{ ".area 1 :: .word 1 :: .endarea", true }, { ".area \"a\" :: .endarea", true }, { ".fill -1", true }, { ".align 3", true }, { ".org undefinedSymbol", true }, { ".orga \"a\"", true },
	{ ".headersize undefinedSymbol", true }, { ".skip undefinedSymbol", true }, { ".else", true }, { ".endif", true }, { ".endarea", true }, { ".endregion", true }, { ".endautoregion", true },
	{ ".endfunc", true }, { ".endmacro", true }, { ".include \"nope.asm\"", true }, { ".incbin \"nope.bin\"", true }, { ".loadtable \"nope.tbl\"", true }, { ".importobj \"nope.o\"", true }, { ".definelabel 1x,2", true },
	{ ".definelabel x,undefinedSymbol", true }, { "eq1 equ 1\neq1 equ 2", false }, { ".macro m1,p :: .byte p :: .endmacro :: m1", true }, { ".macro m2 :: .byte 1 :: .endmacro :: m2 1", true },
	{ ".macro m3 :: m3 :: .endmacro :: m3", true }, { ".macro m4 :: .macro m4x :: .endmacro :: .endmacro :: m4 :: m4", true }, { ".byte \"abc", true }, { ".word 0xZZ", true }, { ".byte )", true }, { ".byte (1", true },
	{ ".if \"a\" :: .endif", true }, { ".if undefinedSymbol :: .endif", true }, { ".definelabel @@@x,1", true }, { ".byte org(undefinedSymbol)", true }, { ".byte undefinedFunction(1)", true },
	{ ".byte tostring()", true }, { ".byte readu8(\"nope.bin\")", true }, { ".word round(\"a\")", true }, { ".string 1.5", true }, { ".autoregion :: .byte 1 :: .endautoregion", true }, { ".region 1 :: .word 1 :: .endregion", true },
	{ ".if 1 :: .byte 1", false }, { ".area 8 :: .byte 1", false }, { ".macro m5 :: .byte 1", false }, { ".func f1 :: .byte 1", false }, { ".region 8 :: .byte 1", false },
	{ ".encoding 1", true }, { ".erroronwarning maybe", true }, { ".definelabel", true }, { ".open \"nope.bin\",0", true }, { ".create", true }, { ".thumb :: mov r0,0x100", true }, { ".psx :: addiu a0,a1,0x123456", true },
	{ ".psx :: bogus a0", true }, { ".saturn :: mov r0,r99", true }, { ".n64 :: lw t0,t1", true }, { ".ps2 :: j 1", true }, { ".psp :: vadd.s s000", true }, { ".rsp :: vadd v1", true },
};
static const unsigned NBAD = sizeof(BAD) / sizeof(*BAD);
static const unsigned PLACES = 8;
// one erroneous statement in a program that is right otherwise: nothing is created or changed, whatever was assembled before and behind it
// expect: P16_e2e_gate_sh refused
// bounded: P16_e2e_gate_sh a list of erroneous statements at eight places of a program, any data
VC_ENTRY(P16_e2e_gate_sh)
{
	unsigned k = __vc_choose(NBAD * PLACES, "shard"), place = k / NBAD;
	const Bad& b = BAD[k % NBAD];
	std::string st = b.text;
	// these end or continue the block they stand in
	if ((place == 1 || place == 2) && (st == ".else" || st == ".endif")) return;
	if (place == 4 && (st == ".endarea" || st == ".endregion")) return;
	if (place == 3 && st == ".endmacro") return;
	FileAsm as;
	int64_t v = (int64_t) __vc_any("v", 64);
	as.put("old.bin", std::vector<uint8_t>{ 1, 2, 3, 4 });
	auto old = as.get("old.bin");
	std::string val = as.val(v);
	auto here = [&](unsigned p) { return place == p ? st : std::string(".byte 0"); };
	std::string t = ".gba\n.create \"out.bin\",0x100\n.dword " + val + "\n";
	t += here(0) + "\n";                                     // line 4: in the first file
	t += ".if 1\n" + here(1) + "\n.endif\n";                 // line 6: in a block
	t += ".if end != 0\n" + here(2) + "\n.endif\n";          // line 9: in a block decided late
	t += ".macro mac\n.byte 0\n" + here(3) + "\n.endmacro\nmac\n"; // line 13: in a macro, called in line 15
	t += ".area 0x1000\n" + here(4) + "\n.endarea\n";        // line 17
	t += ".close\n.open \"old.bin\",0x200\n.dword " + val + "\n" + here(5) + "\nend: .close\n"; // line 22: in the second file
	t += ".create \"third.bin\",0\n.include \"inc.asm\"\n.close\n";
	as.put("inc.asm", ".byte 0\n" + here(6) + "\n");
	t += here(7) == st ? ".create \"fourth.bin\",0\n" + st + "\n.close\n" : ""; // line 28
	static const char* const LINE[8] = { "in.asm(4)", "in.asm(6)", "in.asm(9)", "in.asm(1", "in.asm(17)", "in.asm(22)", "inc.asm(2)", "in.asm(28)" };
	bool res = as.run(t);
	std::string lab = "'" + st + "' (place " + num(place) + "): ";
	__vc_assert(!res, (lab + "the assembly fails").c_str());
	bool err = false, where = false;
	for (auto& e : as.errors) { bool x = e.find("error: ") != std::string::npos; err |= x; where |= x && e.find(LINE[place]) != std::string::npos; }
	__vc_assert(err, (lab + "an error is reported").c_str());
	if (b.line) __vc_assert(where, (lab + "the error names file and line").c_str());
	__vc_assert(!as.exists("out.bin") && !as.exists("third.bin") && !as.exists("fourth.bin"), (lab + "no file is created").c_str());
	__vc_assert(old->data.size() == 4 && old->log.empty(), (lab + "no file is changed").c_str());
	__vc_reach("refused");
}

// the command line: the exit code is 0 exactly if the assembly succeeded, options arrive
// expect: P16_e2e_cli_sh failed passed
int runFromCommandLine(const std::vector<std::string>& arguments, ArmipsArguments settings);
// bounded: P16_e2e_cli_sh a fixed set of command lines, any condition
VC_ENTRY(P16_e2e_cli_sh)
{
	unsigned k = __vc_choose(2 * 3 * 2 * 2, "shard");
	bool eow = k & 1, sub = k / 12 & 1, lateEow = k / 6 & 1;
	unsigned msg = k / 2 % 3;
	FileAsm as;
	int64_t c = (int64_t) __vc_any("c", 64);
	bool t = __vc_decide(c != 0);
	static const char* const dir[3] = { ".notice", ".warning", ".error" };
	as.put("in.asm", ".gba\n.create \"out.bin\",0\n.byte five,six,NAME :: .ascii txt\n.if " + as.val(c) + "\n" + dir[msg] + " \"x\"\n.endif\n.close\n");
	as.a.inputFileName = fs::path();
	std::vector<std::string> a{ "armips" };
	if (eow && !lateEow) a.push_back("-erroronwarning");
	for (const char* s : { "-definelabel", "five", "5", "-equ", "six", "3+3", "-definelabel", "Name", "0x7f", "-strequ", "txt", "a b" }) a.push_back(s);
	if (sub) a.push_back("--");
	if (eow && lateEow && !sub) a.push_back("-erroronwarning");
	bool on = eow && (!lateEow || !sub);
	a.push_back("/w/in.asm");
	Logger::setSilent(true);
	int rc = runFromCommandLine(a, as.a);
	bool fail = t && (msg == 2 || (msg == 1 && on));
	__vc_assert(rc == (fail ? 1 : 0), "command line: exit code");
	__vc_assert(as.exists("out.bin") == !fail, "command line: output exactly on success");
	if (!fail && as.exists("out.bin"))
	{
		auto& d = as.get("out.bin")->data;
		static const uint8_t W[6] = { 5, 6, 0x7f, 'a', ' ', 'b' };
		__vc_assert(d.size() == 6, "command line: size of the output");
		for (int i = 0; i < 6 && d.size() == 6; i++) __vc_assert(d[i] == W[i], "command line: labels and equs");
	}
	__vc_reach(fail ? "failed" : "passed");
}
// the list of errors is filled whatever the reason of the failure
// expect: P16_e2e_reported done
// bounded: P16_e2e_reported two failures before parsing
VC_ENTRY(P16_e2e_reported)
{
	{
		FileAsm as;
		as.a.inputFileName = "/w/nope.asm";
		bool ok = runArmips(as.a);
		__vc_assert(!ok, "missing input: fails");
		__vc_assert(has(as.errors, "error: "), "missing input: reported");
	}
	{
		FileAsm as;
		as.a.equList.push_back({ Identifier("x"), "x+1" });
		bool ok = as.run(".gba\n.create \"out.bin\",0\n.byte 1\n.close\n");
		__vc_assert(!ok, "recursive equ given: fails");
		__vc_assert(has(as.errors, "error: "), "recursive equ given: reported");
		__vc_assert(!as.exists("out.bin"), "recursive equ given: nothing is created");
	}
	__vc_reach("done");
}

// what an earlier run in the same process set, defined or reported has no effect
// bounded: P16_e2e_again_sh every pair of eighteen first and twelve second programs
// expect: P16_e2e_again_sh done
VC_ENTRY(P16_e2e_again_sh)
{
	static const char* const first[] = { ".psx\n.fixloaddelay\nlw a0,(a1)\naddu a2,a0,a0", ".psx\n.resetdelay\nnop", ".psx\nlw a0,(a1)", ".psx\nbeq a0,a1,0x100", ".gba\n.thumb\nldr r0,=0x12345678", ".gba\n.arm\nnop", ".n64\n.erroronwarning on\n.d8 1", ".psx\n.nocash on",
		".psx\nsomename equ 5\n.d8 somename", ".psx\n.macro somename\n.d8 9\n.endmacro\nsomename", ".psx\nsomename: .d8 1", ".psx\n.definelabel somename,3", ".psx\n.expfunc f(x),x+1\n.d8 f(1)", ".psx\n.relativeinclude on", ".psx\n.d8 undefinedname", ".psx\n.if 1\n.d8 1",
		".psx\n.warning \"w\"\n.d8 1", ".psx\n.error \"e\"" };
	static const struct { const char* t; const char* hex; } second[] = { { ".psx\nlw a0,(a1)\naddu a2,a0,a0", "0000a48c21308400" }, { ".psx\naddu a2,a0,a0", "21308400" }, { ".psx\nj 0x100\nnop", "4000000800000000" }, { ".gba\nnop", "c046" }, { ".nds\nnop", "0000a0e1" },
		{ ".psx\nsomename: .d32 somename", "00000000" }, { ".psx\n.d8 somename", nullptr }, { ".psx\n.d8 defined(somename)", "00" }, { ".psx\n.d8 f(1)", nullptr }, { ".psx\n.warning \"w\"\n.d8 7", "07" }, { "nop", nullptr }, { ".psx\n.expfunc f(x),x+2\nsomename equ 1\n.d8 f(somename)", "03" } };
	const unsigned nf = sizeof(first) / sizeof(first[0]), ns = sizeof(second) / sizeof(second[0]);
	unsigned k = __vc_choose(nf * ns, "shard");
	{ Asm as; as.at(0); as.run(std::string(first[k / ns]) + "\n"); }
	Asm as;
	as.at(0);
	bool ok = as.run(std::string(second[k % ns].t) + "\n");
	std::string l = std::string("after '") + first[k / ns] + "', '" + second[k % ns].t + "'", hex;
	for (char& c : l) if (c == '\n') c = ';';
	__vc_assert(ok == (second[k % ns].hex != nullptr), (l + ": result as in a first run").c_str());
	if (ok && second[k % ns].hex)
	{
		for (int64_t i = 0; i < as.size(); i++) { hex += "0123456789abcdef"[as.f->buf[i] >> 4]; hex += "0123456789abcdef"[as.f->buf[i] & 15]; }
		__vc_assert(hex == second[k % ns].hex, (l + ": output " + hex + " as in a first run").c_str());
	}
	__vc_reach("done");
}
