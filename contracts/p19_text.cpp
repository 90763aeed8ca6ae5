// P19: source text is decoded to the characters it contains, whatever its encoding and length
// assumes: files do not change while they are read; UTF-16 text stays within the basic multilingual plane
#include "common.h"
#include "Util/FileClasses.h"
static std::string num(uint64_t v) { std::string n; do { n.insert(n.begin(), char('0' + v % 10)); v /= 10; } while (v); return n; }
static void u8(std::string& s, uint32_t c)
{
	if (c < 0x80) s += (char) c;
	else if (c < 0x800) { s += (char) (0xC0 | c >> 6); s += (char) (0x80 | (c & 63)); }
	else if (c < 0x10000) { s += (char) (0xE0 | c >> 12); s += (char) (0x80 | (c >> 6 & 63)); s += (char) (0x80 | (c & 63)); }
	else { s += (char) (0xF0 | c >> 18); s += (char) (0x80 | (c >> 12 & 63)); s += (char) (0x80 | (c >> 6 & 63)); s += (char) (0x80 | (c & 63)); }
}
static bool same(const std::string& a, const std::string& b)
{
	if (a.size() != b.size()) return false;
	bool g = true;
	for (size_t i = 0; i < a.size(); i++) g &= a[i] == b[i];
	return g;
}
// reads the file and compares its lines
static void lines(const std::string& content, TextFile::Encoding e, const std::vector<std::string>& want, const std::string& lab, bool memory = false)
{
	TextFile f;
	if (memory) f.openMemory(content);
	else
	{
		vfs::state().reset();
		vfs::state().put("/w/t.txt", content);
		bool o = f.open(fs::path("/w/t.txt"), TextFile::Read, e);
		__vc_assert(o, (lab + "opened").c_str());
		if (!o) return;
	}
	for (size_t i = 0; i < want.size(); i++)
	{
		bool more = !f.atEnd();
		__vc_assert(more, (lab + "does not end early").c_str());
		if (!more) return;
		__vc_assert(same(f.readLine(), want[i]), (lab + "line " + num(i)).c_str());
	}
	__vc_assert(f.atEnd(), (lab + "ends after the last line").c_str());
	__vc_reach("read");
}
static const unsigned offs[] = { 0, 1, 3, 4089, 4090, 4091, 4092, 4093, 4094, 4095, 4096, 4097, 8189, 8190, 8191, 8192 };
static const uint32_t lim[5] = { 0, 0x80, 0x800, 0x10000, 0x110000 };

// UTF-8: any code point, with and without byte order mark, at and around every read buffer boundary
// expect: P19_text_utf8_sh read
VC_ENTRY(P19_text_utf8_sh)
{
	unsigned k = __vc_choose(16 * 4 * 3, "shard"), off = offs[k % 16], len = k / 16 % 4 + 1, how = k / 64;
	uint32_t c = (uint32_t) __vc_any("c", 32);
	__vc_assume(c >= lim[len - 1] && c < lim[len] && c != '\n' && c != '\r' && c);
	std::string ch;
	if (len == 1) ch += (char) c;
	else
	{
		static const int lead[] = { 0, 0, 0xC0, 0xE0, 0xF0 };
		ch += (char) (lead[len] | c >> (6 * (len - 1)));
		for (int i = (int) len - 2; i >= 0; i--) ch += (char) (0x80 | (c >> (6 * i) & 63));
	}
	std::string t(off, 'a'), l1 = t + ch + "z";
	if (how == 0 && off == 0) __vc_assume(c != 0xFEFF);
	lines((how == 1 ? "\xEF\xBB\xBF" : "") + l1 + "\nsecond", how == 1 ? TextFile::SJIS : TextFile::GUESS, { l1, "second" },
		"UTF-8 character of " + num(len) + " bytes at offset " + num(off) + (how == 1 ? " with BOM: " : how == 2 ? " in memory: " : ": "), how == 2);
}
// UTF-16: any unit of the basic multilingual plane
// expect: P19_text_utf16_sh read
VC_ENTRY(P19_text_utf16_sh)
{
	static const unsigned o16[] = { 0, 1, 2044, 2045, 2046, 2047, 2048, 4094, 4095, 4096 };
	unsigned k = __vc_choose(10 * 3 * 2 * 2, "shard"), off = o16[k % 10], cls = k / 10 % 3, be = k / 30 % 2, bom = k / 60;
	uint32_t c = (uint32_t) __vc_any("c", 16);
	__vc_assume(c >= lim[cls] && c < lim[cls + 1] && c != '\n' && c != '\r' && c && (c < 0xD800 || c > 0xDFFF));
	__vc_assume(bom || off || (c != 0xFEFF && c != 0xFFFE && c != 0xBBEF));
	std::string t;
	auto unit = [&](uint32_t u) { if (be) { t += (char) (u >> 8); t += (char) u; } else { t += (char) u; t += (char) (u >> 8); } };
	if (bom) unit(0xFEFF);
	for (unsigned i = 0; i < off; i++) unit('a');
	unit(c);
	for (char x : std::string("z\r\nsecond")) unit(x);
	std::string l1(off, 'a');
	u8(l1, c);
	lines(t, bom ? TextFile::GUESS : be ? TextFile::UTF16BE : TextFile::UTF16LE, { l1 + "z", "second" }, std::string("UTF-16") + (be ? "BE" : "LE") + " at offset " + num(off) + ": ");
}
// Shift-JIS: every character
struct SjisRow { uint8_t lead; uint16_t c[189]; };
static const SjisRow sjis[] = {
#include "spec_sjis.inc"
};
// expect: P19_text_sjis_sh read
VC_ENTRY(P19_text_sjis_sh)
{
	unsigned n = sizeof(sjis) / sizeof(sjis[0]), k = __vc_choose(n + 2, "shard");
	std::string t, want;
	if (k < n)
	{
		for (unsigned i = 0; i < 189; i++) if (sjis[k].c[i])
		{
			t += (char) sjis[k].lead; t += (char) (0x40 + i); t += 'x';
			u8(want, sjis[k].c[i]); want += 'x';
		}
	}
	else if (k == n) for (unsigned b = 0xA1; b < 0xE0; b++) { t += (char) b; u8(want, 0xFF61 + b - 0xA1); }
	else for (unsigned b = 1; b < 0x80; b++) if (b != '\n' && b != '\r') { t += (char) b; want += (char) b; }
	lines(t + "\nlast", TextFile::SJIS, { want, "last" }, "Shift-JIS row " + num(k) + ": ");
	if (k < n)
	{
		// across the read buffer boundary
		std::string pad(4095, 'a');
		lines(pad + t + "\n", TextFile::SJIS, { pad + want }, "Shift-JIS row " + num(k) + " across the buffer end: ");
	}
}
// expect: P19_text_ascii_sh read
VC_ENTRY(P19_text_ascii_sh)
{
	unsigned k = __vc_choose(16, "shard"), off = offs[k];
	uint8_t c = (uint8_t) __vc_any("c", 8), d = (uint8_t) __vc_any("d", 8);
	__vc_assume(c < 0x80 && c != '\n' && c != '\r' && c && d < 0x80 && d != '\n' && d != '\r' && d);
	std::string l1 = std::string(off, 'a') + (char) c + (char) d;
	lines(l1 + "\nsecond\n", TextFile::ASCII, { l1, "second" }, "ASCII at offset " + num(off) + ": ");
}
// line ends: every combination of characters, LF, CR LF and lone CR, around the start of the file and the buffer boundary
// expect: P19_text_lines_sh read
// bounded: P19_text_lines_sh texts of a few characters around a buffer boundary, all characters
VC_ENTRY(P19_text_lines_sh)
{
	static const unsigned o[] = { 0, 1, 2, 4092, 4093, 4094, 4095 };
	unsigned k = __vc_choose(7 * 4 * 4 * 2, "shard"), off = o[k % 7], a = k / 7 % 4, b = k / 28 % 4, mem = k / 112;
	if (mem && off > 2) { __vc_reach("read"); return; }
	static const char* piece[] = { "b", "\n", "\r\n", "\r" };
	for (unsigned r = 0; r < (off > 2 ? 8 : 64); r++)
	{
		std::string t(off, 'a');
		unsigned seq[5] = { a, b, r % 4, r / 4 % 4, r / 16 };
		for (unsigned i = 0; i < (off > 2 ? 4 : 5); i++) t += piece[seq[i]];
		std::vector<std::string> want;
		std::string cur;
		for (size_t i = 0; i < t.size(); i++)
		{
			if (t[i] == '\r' && i + 1 < t.size() && t[i + 1] == '\n') continue;
			if (t[i] == '\n') { want.push_back(cur); cur.clear(); }
			else cur += t[i];
		}
		if (!cur.empty()) want.push_back(cur);
		lines(t, TextFile::GUESS, want, "line ends " + num(seq[0]) + num(seq[1]) + num(seq[2]) + num(seq[3]) + num(seq[4]) + " at offset " + num(off) + ": ", mem);
	}
}
// short files, as input and as include
// expect: P19_e2e_short short
// bounded: P19_e2e_short files of at most three bytes
VC_ENTRY(P19_e2e_short)
{
	static const char* c[] = { "", " ", "\n", "\t", ";", " ;", "\r\n", ";x", "; ", " \n", "\n\n", "//", "x:", "\n;\n", "xy:", "\xEF\xBB\xBF", "\xFF\xFE", "\xFE\xFF" };
	unsigned k = __vc_choose(18 * 2, "case"), inc = k / 18;
	FileAsm as;
	std::string t = c[k % 18];
	if (inc) as.put("i.asm", t);
	bool res = as.run(inc ? ".gba\n.create \"out.bin\",0\n.d8 1\n.include \"i.asm\"\n.d8 2\n.close\n" : t);
	std::string lab = std::string(inc ? "include" : "input") + " file of " + num(t.size()) + " bytes, case " + num(k) + ": ";
	__vc_assert(res, (lab + "assembles").c_str());
	if (inc) __vc_assert(as.get("out.bin")->data == std::vector<uint8_t>({ 1, 2 }), (lab + "contributes nothing").c_str());
	__vc_reach("short");
}
// included text in any encoding assembles to the same bytes, and line numbers are kept
static const struct { const char* name; int kind; } encs[] = { { "", 0 }, { "utf8", 0 }, { "utf-8", 0 }, { "UTF8", 0 }, { "utf16", 1 }, { "UTF-16", 1 }, { "utf16-be", 2 }, { "utf-16-be", 2 }, { "sjis", 3 }, { "shift-jis", 3 }, { "Shift-JIS", 3 }, { "ascii", 4 }, { "", 5 }, { "sjis", 5 }, { "", 6 }, { "ascii", 6 }, { "", 7 } };
// expect: P19_e2e_include_sh included
// bounded: P19_e2e_include_sh two files
VC_ENTRY(P19_e2e_include_sh)
{
	unsigned n = sizeof(encs) / sizeof(encs[0]), k = __vc_choose(n * 2, "shard"), crlf = k / n;
	auto& e = encs[k % n];
	static const uint32_t text[] = { '.', 's', 't', 'r', 'n', ' ', '"', 'a', 0x3042, 0x4E9C, 0xFF71, 'b', '"', '\n', ';', 0x3044, '\n', '.', 'd', '8', ' ', '5', '\n', '.', 'd', '8', ' ', 'l', 'n', '\n' };
	std::string t, want;
	bool instr = false;
	if (e.kind == 5) t = "\xEF\xBB\xBF";
	else if (e.kind == 6) t = "\xFF\xFE";
	else if (e.kind == 7) t = "\xFE\xFF";
	auto sj = [](std::string& o, uint32_t c) { if (c == 0x3042) o += "\x82\xA0"; else if (c == 0x3044) o += "\x82\xA2"; else if (c == 0x4E9C) o += "\x88\x9F"; else if (c == 0xFF71) o += "\xB1"; else o += (char) c; };
	auto put = [&](uint32_t c) {
		switch (e.kind)
		{
		case 0: case 5: u8(t, c); break;
		case 1: case 6: t += (char) c; t += (char) (c >> 8); break;
		case 2: case 7: t += (char) (c >> 8); t += (char) c; break;
		case 3: sj(t, c); break;
		case 4: t += (char) (c < 0x80 ? c : '?'); break;
		}
	};
	for (uint32_t c : text)
	{
		if (c == '\n' && crlf) put('\r');
		put(c);
		if (c == '"') instr = !instr;
		else if (instr) want += (char) (e.kind == 4 && c >= 0x80 ? 0x3F : c == 'a' ? 0xA : c == 'b' ? 0xB : c == 0x3042 ? 0xC : c == 0x4E9C ? 0xD : 0xE);
	}
	want += (char) 5; want += (char) 7;
	FileAsm as;
	as.put("i.asm", t);
	as.put("t.tbl", std::string("0A=a\n0B=b\n0C=\xE3\x81\x82\n0D=\xE4\xBA\x9C\n0E=\xEF\xBD\xB1\n3F=?\n"));
	bool res = as.run(std::string(".gba\n.loadtable \"t.tbl\"\nln equ 7\n.create \"out.bin\",0\n.include \"i.asm\"") + (e.name[0] ? std::string(",\"") + e.name + "\"" : std::string()) + "\n.close\n");
	std::string lab = "included file in encoding \"" + std::string(e.name) + "\", form " + num(e.kind) + (crlf ? ", CR LF: " : ", LF: ");
	__vc_assert(res, (lab + "assembles").c_str());
	if (!res) return;
	auto& d = as.get("out.bin")->data;
	__vc_assert(same(std::string(d.begin(), d.end()), want), (lab + "characters").c_str());
	__vc_reach("included");
}
// source lines longer than the read buffer, in the input file itself
// expect: P19_e2e_long_sh long
// bounded: P19_e2e_long_sh one character at every position around the buffer boundaries
VC_ENTRY(P19_e2e_long_sh)
{
	unsigned k = __vc_choose(24, "shard"), total = 4084 + k;
	FileAsm as;
	// a comment pads the statements across the buffer boundary
	std::string head = ".gba\n.create \"out.bin\",0\n;";
	std::string t = head + std::string(total - head.size(), '-') + "\r\n.d8 1,2,\\\r\n3 ; \xE3\x81\x82\r\n.d8 \"x\"\n";
	bool res = as.run(t);
	std::string lab = "statements at file offset " + num(total) + ": ";
	__vc_assert(res, (lab + "assembles").c_str());
	if (!res) return;
	__vc_assert(as.get("out.bin")->data == std::vector<uint8_t>({ 1, 2, 3, 'x' }), (lab + "bytes").c_str());
	__vc_reach("long");
}
