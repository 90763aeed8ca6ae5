// P17: the symbol files list the labels, function sizes and data of the program at their addresses, in order.
// assumes: std::fstream behaves like contracts/vfs/Util/FileSystem.h (no disk errors)
#include "common.h"
#include <algorithm>
extern "C" int __tfm_symhex;
struct Ent { int64_t off; bool rel; std::string text; };	// at base+off or at off
static void hex8(std::string& o, uint32_t v)
{
	for (int s = 28; s >= 0; s -= 4) { int d = (int) (v >> s & 15); o += (char) ('0' + d + ((9 - d) >> 31 & 7)); }
}
static std::string hexn(unsigned v, int w) { std::string s; do { s.insert(s.begin(), "0123456789ABCDEF"[v & 15]); v >>= 4; } while (v); while ((int) s.size() < w) s.insert(s.begin(), '0'); return s; }
static void compare(std::vector<Ent> es, uint32_t base, const vfs::File& f, const std::string& l)
{
	std::sort(es.begin(), es.end(), [](const Ent& a, const Ent& b) { return a.rel != b.rel ? !a.rel : a.off != b.off ? a.off < b.off : a.text < b.text; });
	std::string want = "00000000 0\n";
	for (Ent& e : es) { hex8(want, (uint32_t) ((e.rel ? base : 0) + e.off)); want += " " + e.text + "\n"; }
	want += '\x1A';
	__vc_assert(f.exists && f.data.size() == want.size(), (l + " entries").c_str());
	if (!f.exists || f.data.size() != want.size()) return;
	bool same = true;
	for (size_t i = 0; i < want.size(); i++) same = same & (f.data[i] == (uint8_t) want[i]);
	__vc_assert(same, (l + " entries").c_str());
}
static void program(unsigned k, unsigned n, int version)
{
	static const unsigned K = 8;
	const char* arch = k % 3 == 1 ? ".psx" : k % 3 == 2 ? ".gba" : ".n64";
	const bool arm = k % 3 == 2;
	FileAsm as;
	__tfm_symhex = 1;
	uint32_t base = vc::any<uint32_t>("base");
	vc::assume(base >= 0x10000 && base < 0x7FFFF000u && (base & 3) == 0);
	std::string t = std::string(arch) + "\n.create \"out.bin\"," + as.val(base) + "\nStart:\n";
	std::vector<Ent> es;
	struct Fn { int64_t at, size; };
	std::vector<Fn> fns;
	bool on = true, fn = false, late = false;
	int64_t pos = 0;
	auto lab = [&](const std::string& s) { if (!on) return; for (Ent& e : es) if (e.rel && e.off == pos && e.text == s) return; es.push_back({ pos, true, s }); };
	auto data = [&](const char* type, unsigned sz) { if (on) es.push_back({ pos, true, std::string(type) + hexn(sz, 4) }); pos += sz; };
	lab("Start");
	for (unsigned i = 0; i < n; i++)
	{
		std::string id = std::to_string(i);
		unsigned kind = k % K;
		k /= K;
		if (kind == 2 && !fn) kind = 3;
		if (kind == 7 && !arm) kind = 3;
		switch (kind)
		{
		case 0:
			if (i % 2) { t += "@@Loc" + id + ":\n"; lab("@@Loc" + id); }
			else { t += "@Stat" + id + ":\n"; lab("@Stat" + id); }
			break;
		case 1:
			if (fn) fns.back().size = pos - fns.back().at;
			t += (i % 2 ? ".func Fun" : ".function Fun") + id + "\n";
			lab("Fun" + id);
			fns.push_back({ pos, 0 });
			fn = true;
			break;
		case 2:
			t += i % 2 ? ".endfunc\n" : ".endfunction\n";
			fns.back().size = pos - fns.back().at;
			fn = false;
			break;
		case 3:
			switch (i)
			{
			case 0: t += ".d8 1,2,3,4\n"; data(".byt:", 4); break;
			case 1: t += ".d32 5,6\n"; data(".dbl:", 8); break;
			case 2: t += ".ascii \"abc\",0\n"; data(".asc:", 4); break;
			case 3: t += ".d64 1\n"; data(".dbl:", 8); break;
			default: t += ".d16 1,2\n"; data(".wrd:", 4); break;
			}
			break;
		case 4:
			on = !on;
			t += on ? ".sym on\n" : ".sym off\n";
			break;
		case 5:
			late = true;
			t += "\t.if later == 1\nNo" + id + ": .d8 1\n.else\nYes" + id + ": .d16 7,8\n.endif\n";
			lab("Yes" + id);
			data(".wrd:", 4);
			break;
		case 6:
			if (i % 2) { t += ".definelabel Def" + id + ",0x123" + id + "\n"; if (on) es.push_back({ 0x1230 + i, false, "Def" + id }); }
			else if (i) { t += ".fill 0x14\n"; data(".byt:", 20); }
			else { t += ".float 1.5\n.skip 0x10\n"; data(".dbl:", 4); pos += 16; }
			break;
		case 7:
			t += i % 2 ? ".thumb\n" : ".arm\n";
			lab(i % 2 ? ".thumb" : ".arm");
			break;
		}
	}
	if (fn) { t += ".endfunc\n"; fns.back().size = pos - fns.back().at; }
	t += ".close\n";
	if (late) { t += ".sym on\n.definelabel later,0x77\n"; es.push_back({ 0x77, false, "later" }); }
	as.a.symFileName = "/w/out.sym";
	as.a.symFileVersion = version;
	bool ok = as.run(t);
	std::string l = std::string("sym") + (version == 2 ? "2: " : ": ") + t;
	for (char& c : l) if (c == '\n') c = ';';
	__vc_assert(ok, (l + " accepted").c_str());
	if (!ok) return;
	for (Ent& e : es)
	{
		const bool dat = e.text[0] == '.' && e.text != ".arm" && e.text != ".thumb";
		if (version == 2 && e.rel && !dat) for (Fn& f : fns) if (f.at == e.off && f.size) { e.text += "," + hexn((unsigned) f.size, 8); break; }
		if (version == 1 && e.text.find(':') == std::string::npos) for (char& c : e.text) if (c >= 'A' && c <= 'Z') c += 32;
	}
	compare(es, base, *as.get("out.sym"), l);
	__vc_reach(version == 2 ? "sym2" : "sym");
}
// bounded: P17_e2e_sequence_sh programs of four statements
// expect: P17_e2e_sequence_sh sym sym2
VC_ENTRY(P17_e2e_sequence_sh) { unsigned k = __vc_choose(8 * 8 * 8 * 8, "shard"); program(k, 4, 2); if (k % 4 == 0) program(k / 4 * 7 % 4096, 4, 1); }
// bounded: T17_e2e_sequence_sh programs of five statements
VC_ENTRY(T17_e2e_sequence_sh) { program(__vc_choose(8 * 8 * 8 * 8 * 8, "shard"), 5, 2); }

// bounded: P17_e2e_files_sh three files at one address, each with or without a function of several sizes
// expect: P17_e2e_files_sh done
VC_ENTRY(P17_e2e_files_sh)
{
	unsigned k = __vc_choose(4 * 4 * 4 * 4, "shard"), arch = k / 64;
	FileAsm as;
	__tfm_symhex = 1;
	const uint32_t base = 0x02000000;
	static const char* const archs[4] = { ".psx", ".ps2", ".nds", ".saturn" };
	std::string t = std::string(archs[arch]) + "\n";
	std::vector<Ent> es;
	as.label("cmdLine", 0x40);
	es.push_back({ 0x40, false, "cmdLine" });
	for (unsigned i = 0, c = k; i < 3; i++, c /= 4)
	{
		std::string id(1, (char) ('A' + i));
		t += ".create \"" + id + ".bin\"," + "0x02000000\n";
		int64_t pos = 0;
		switch (c % 4)
		{
		case 0: t += "Plain" + id + ": .d32 1\n.area 8,0x11\nIn" + id + ": .d32 2\n.endarea\n";
			es.push_back({ 0, true, "Plain" + id }); es.push_back({ 0, true, ".dbl:0004" }); es.push_back({ 4, true, "In" + id }); es.push_back({ 4, true, ".dbl:0004" }); es.push_back({ 8, true, ".byt:0004" });
			break;
		case 1: case 2: case 3:
			for (unsigned j = 0; j < c % 4; j++)
			{
				unsigned sz = 4 * (j + 1 + i);
				t += ".func Fn" + id + std::to_string(j) + "\n.fill " + std::to_string(sz) + "\n" + (j % 2 ? ".endfunc\n" : "") ;
				es.push_back({ pos, true, "Fn" + id + std::to_string(j) + "," + hexn(sz, 8) });
				es.push_back({ pos, true, ".byt:" + hexn(sz, 4) });
				pos += sz;
			}
			if (c % 2) t += ".endfunc\n";	// the function left open
			break;
		}
		t += ".close\n";
	}
	t += ".definelabel After," + std::string("0x50\n");
	es.push_back({ 0x50, false, "After" });
	as.a.symFileName = "/w/out.sym";
	as.a.symFileVersion = 2;
	bool ok = as.run(t);
	std::string l = "sym2 files: " + t;
	for (char& c : l) if (c == '\n') c = ';';
	__vc_assert(ok, (l + " accepted").c_str());
	if (!ok) return;
	compare(es, base, *as.get("out.sym"), l);
	__vc_reach("done");
}

// bounded: P17_e2e_kinds_sh one program per kind of statement
// expect: P17_e2e_kinds_sh done
VC_ENTRY(P17_e2e_kinds_sh)
{
	struct Row { const char* text; const char* want; };	// want: offset:text, separated by blanks
	static const Row rows[] = {
		{ ".d8 1", "0:.byt:0001" }, { ".byte 1,2", "0:.byt:0002" }, { ".db \"abc\"", "0:.byt:0003" }, { ".ascii \"abcde\"", "0:.asc:0005" }, { ".asciiz \"abcde\"", "0:.asc:0006" },
		{ ".d16 1,2,3", "0:.wrd:0006" }, { ".halfword 1", "0:.wrd:0002" }, { ".d32 1,2,3", "0:.dbl:000C" }, { ".word 1", "0:.dbl:0004" }, { ".d64 1", "0:.dbl:0008" },
		{ ".float 1,2", "0:.dbl:0008" }, { ".double 1", "0:.dbl:0008" },
		{ ".fill 300,1", "0:.byt:012C" }, { ".incbin \"data.bin\"", "0:.byt:0005" }, { ".incbin \"data.bin\",1,3", "0:.byt:0003" }, { ".d8 1\n.align 4\n.d8 2", "0:.byt:0001 4:.byt:0001" },
		{ ".skip 16\nX: .d8 1", "10:X 10:.byt:0001" }, { ".org 0x02000040\nX: .d16 1", "40:X 40:.wrd:0002" }, { ".orga 0x20\nX: .d16 1", "20:X 20:.wrd:0002" },
		{ ".area 16\nX: .d16 1\n.endarea\nY:", "0:X 0:.wrd:0002 2:Y" }, { ".area 16,0xFF\nX: .d16 1\n.endarea\nY:", "0:X 0:.wrd:0002 2:.byt:000E 10:Y" },
		{ ".defineregion 0x02000080,0x20\n.autoregion\nX: .d16 1\n.endautoregion", "80:X 80:.wrd:0002" },
		{ ".region 0x20\n.d32 9\n.endregion\n.autoregion\nX: .d16 1\n.endautoregion\nY:", "0:.dbl:0004 4:X 4:.wrd:0002 20:Y" },
		{ "ldr r0,=0x12345678\n.pool\nX:", "4:.pool 4:.dbl:0004 8:X" }, { ".pool\nX:", "0:X" }, { "X: nop\nnop\nY: nop", "0:X 4:Y" },
		{ ".func F\nnop\n.endfunc\nX:", "0:F,00000002 2:X" }, { ".func F\nnop\n.func G\nnop\nnop\n.endfunc", "0:F,00000002 2:G,00000004" }, { ".func F\n.sym off\nX: nop\n.sym on\n.endfunc", "0:F,00000002" },
		{ ".sym off\n.func F\nnop\n.endfunc\n.sym on\nX:", "2:X" }, { ".if 0\nX: .d8 1\n.func F\nnop\n.endfunc\n.endif\nY:", "0:Y" }, { ".if 1\n.func F\nnop\n.endfunc\n.else\n.func F\n.endfunc\n.endif", "0:F,00000002" },
		{ "X:\nY:\nA: .d8 1", "0:X 0:Y 0:A 0:.byt:0001" }, { "X: .definelabel Z,X", "0:X 0:Z" }, { ".arm\nX: nop\n.thumb\nY: nop", "0:.arm 0:X 4:.thumb 4:Y" },
		{ ".macro m\n.d16 7\n.endmacro\nm\nm", "0:.wrd:0002 2:.wrd:0002" }, { ".include \"inc.asm\"\nY:", "0:FromInc 0:.dbl:0004 4:Y" }, { "{:}", nullptr },
	};
	const unsigned n = sizeof(rows) / sizeof(rows[0]);
	unsigned k = __vc_choose(n * 2, "shard");
	const Row& r = rows[k / 2];
	const int version = 1 + k % 2;
	const uint32_t base = 0x02000000;
	FileAsm as;
	as.put("data.bin", "12345");
	as.put("inc.asm", "FromInc: .d32 4\n");
	as.a.symFileName = "/w/out.sym";
	as.a.symFileVersion = version;
	bool ok = as.run(".gba\n.create \"out.bin\",0x02000000\n" + std::string(r.text) + "\n.close\n");
	std::string l = std::string("sym") + (version == 2 ? "2: " : ": ") + r.text;
	for (char& c : l) if (c == '\n') c = ';';
	__vc_assert(ok == (r.want != nullptr), (l + " accepted").c_str());
	if (!r.want) { __vc_assert(!as.get("out.sym")->exists, (l + " no symbol file when rejected").c_str()); return; }
	if (!ok) return;
	std::vector<Ent> es;
	for (const char* p = r.want; *p; )
	{
		Ent e; e.off = 0; e.rel = true;
		while (*p != ':') { e.off = e.off * 16 + (*p <= '9' ? *p - '0' : *p - 'A' + 10); p++; }
		p++;
		while (*p && *p != ' ') e.text += *p++;
		if (*p) p++;
		if (version == 1 && e.text.find(',') != std::string::npos) e.text.resize(e.text.find(','));
		if (version == 1 && e.text.find(':') == std::string::npos) for (char& c : e.text) if (c >= 'A' && c <= 'Z') c += 32;
		es.push_back(e);
	}
	compare(es, base, *as.get("out.sym"), l);
	__vc_reach("done");
}
