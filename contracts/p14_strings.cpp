// P14: strings are encoded by the loaded table (longest match), or as Shift-JIS
// assumes: table lines have an even number of hexadecimal digits
#include "common.h"
#include "Util/EncodingTable.h"
static std::string num(uint64_t v) { std::string n; do { n.insert(n.begin(), char('0' + v % 10)); v /= 10; } while (v); return n; }
typedef std::vector<uint8_t> Bytes;
static bool same(const Bytes& a, const Bytes& b)
{
	if (a.size() != b.size()) return false;
	bool g = true;
	for (size_t i = 0; i < a.size(); i++) g &= a[i] == b[i];
	return g;
}
static Bytes bytesOf(ByteArray b) { Bytes r; for (size_t i = 0; i < b.size(); i++) r.push_back(b[i]); return r; }

// EncodingTable: every set of up to six keys, any code bytes, every text up to four units
static const char* keys[] = { "a", "b", "ab", "ba", "aab", "abb\xC3\xA9" };
struct Ent { std::string key; Bytes code; };
static bool spec(const std::vector<Ent>& es, const std::string& t, Bytes& out)
{
	size_t pos = 0;
	while (pos < t.size())
	{
		const Ent* best = nullptr;
		for (auto& e : es) if (t.compare(pos, e.key.size(), e.key) == 0 && (!best || e.key.size() > best->key.size())) best = &e;
		if (!best) return false;
		out.insert(out.end(), best->code.begin(), best->code.end());
		pos += best->key.size();
	}
	return true;
}
// expect: P14_table_match_sh encoded unencodable
// bounded: P14_table_match_sh tables of a few entries and texts of a few characters, all characters
VC_ENTRY(P14_table_match_sh)
{
	unsigned k = __vc_choose(64 * 2, "shard"), set = k % 64, rev = k / 64;
	EncodingTable tab;
	std::vector<Ent> es;
	for (unsigned j = 0; j < 6; j++)
	{
		unsigned i = rev ? 5 - j : j;
		if (!(set >> i & 1)) continue;
		Ent e { keys[i], {} };
		for (unsigned b = 0; b < 1 + (i + set) % 4; b++) e.code.push_back((uint8_t) __vc_any("code", 8));
		tab.addEntry(e.code.data(), e.code.size(), e.key);
		es.push_back(e);
	}
	Bytes term;
	for (unsigned b = 0; b < set % 3; b++) term.push_back((uint8_t) __vc_any("term", 8));
	tab.setTerminationEntry(term.data(), term.size());
	static const char* unit[] = { "a", "b", "\xC3\xA9" };
	for (unsigned len = 0; len <= 4; len++) for (unsigned w = 0; w < (len == 0 ? 1u : len == 1 ? 3u : len == 2 ? 9u : len == 3 ? 27u : 81u); w++)
	{
		std::string t;
		for (unsigned i = 0, x = w; i < len; i++, x /= 3) t += unit[x % 3];
		Bytes want;
		bool can = spec(es, t, want);
		std::string lab = "table of keys " + num(set) + (rev ? " reversed" : "") + ", text " + num(len) + "/" + num(w) + ": ";
		Bytes plain = bytesOf(tab.encodeString(t, false)), full = bytesOf(tab.encodeString(t, true));
		if (!can) { __vc_assert(plain.empty() && full.empty(), (lab + "not encodable").c_str()); __vc_reach("unencodable"); continue; }
		__vc_assert(same(plain, want), (lab + "longest matches").c_str());
		want.insert(want.end(), term.begin(), term.end());
		__vc_assert(same(full, want), (lab + "with termination").c_str());
		__vc_reach("encoded");
	}
	__vc_assert(same(bytesOf(tab.encodeTermination()), term), "termination sequence");
}
// directives with tables
struct Case { const char* table; const char* stmts; const char* want; };   // want: hexadecimal, or null for failure
static const Case cases[] = {
	{ "41=a\n42=b\n", ".string \"ab\"", "414200" },
	{ "41=a\n42=b\n", ".str \"ab\"", "414200" },
	{ "41=a\n42=b\n", ".stringn \"ab\"", "4142" },
	{ "41=a\n42=b\n", ".strn \"ab\"", "4142" },
	{ "41=a\n42=b\n", ".string \"a\",10,\"b\"", "410a4200" },
	{ "41=a\n42=b\n", ".stringn 1,2,\"b\",0x1FF", "010242ff" },
	{ "41=a\n42=b\n", ".string \"\"", "00" },
	{ "41=a\n/FE01\n", ".string \"a\",\"a\"", "4141fe01" },
	{ "/FE\n41=a\n/FD\n", ".string \"a\"", "41fd" },
	{ "/0102030405060708\n41=a\n", ".string \"\" :: .stringn \"a\"", "010203040506070841" },
	{ "41=a\r\n42=b\r\n/ff\r\n", ".string \"ba\"", "4241ff" },
	{ "* comment 43=c\n\n41=a\n", ".stringn \"a\"", "41" },
	{ "* comment 43=c\n\n41=a\n", ".stringn \"c\"", nullptr },
	{ "41=a\n41=b\n", ".stringn \"ab\"", "4141" },
	{ "aBcD=a\nEf=b\n", ".stringn \"ab\"", "abcdef" },
	{ "3D==\n41=a\n", ".stringn \"a=a\"", "413d41" },
	{ "01=a=b\n02=a\n03==\n04=b\n", ".stringn \"a=b=a\"", "010302" },
	{ "20= \n41=a\n", ".stringn \"a a\"", "412041" },
	{ "01=a\n02=aa\n03=aaa\n", ".stringn \"aaaaaaaa\"", "030302" },
	{ "01=a\n03=aaa\n", ".stringn \"aaaaa\"", "030101" },
	{ "01=ab\n02=abcd\n03=c\n", ".stringn \"abcab\"", "010301" },
	{ "01=[name]\n02=a\n", ".stringn \"a[name]a\"", "020102" },
	{ "01=[name]\n02=a\n", ".stringn \"a[nam]a\"", nullptr },
	{ "8140=\xE3\x81\x82\n8141=\xE3\x81\x84\n", ".string \"\xE3\x81\x84\xE3\x81\x82\"", "8141814000" },
	{ "000102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f=a\n", ".stringn \"aa\"", "000102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f000102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f" },
	{ "/000102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f\n41=a\n", ".string \"a\"", "41000102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f" },
	{ "zz=q\n41=a\n", ".stringn \"a\"", "41" },
	{ "zz=q\n41=a\n", ".stringn \"q\"", nullptr },
	{ "00=a\n", ".string \"a\"", "0000" },
	{ "41=a\n", ".string \"b\"", nullptr },
	{ "41=a\n", ".stringn \"ab\"", nullptr },
	{ "41=a\n", ".stringn \"a\",\"ba\"", nullptr },
	{ "41=a\n", ".stringn 1.5", nullptr },
	{ "41=a\n", ".stringn nosuchlabel", nullptr },
	{ "41=a\n", ".stringn", nullptr },
	{ "41=A\n42=a\n", ".stringn \"aA\"", "4241" },
	{ "41=a\n", ".stringn \"a\" :: .loadtable \"u.tbl\" :: .stringn \"a\" :: .loadtable \"t.tbl\" :: .stringn \"a\"", "417141" },
	{ "41=a\n", ".loadtable \"u.tbl\" :: .string \"ab\"", "7172fe" },
	{ "41=a\n", ".table \"u.tbl\" :: .string \"ab\"", "7172fe" },
	{ "41=a\n43=c\n", ".loadtable \"u.tbl\" :: .stringn \"c\"", nullptr },
	{ "41=a\n", ".loadtable \"missing.tbl\" :: .stringn \"a\"", nullptr },
	{ "41=a\n", ".loadtable 5", nullptr },
	{ "41=a\n", ".if 0 :: .loadtable \"u.tbl\" :: .endif :: .stringn \"a\"", "41" },
	{ "41=a\n", "x: .stringn \"aa\" :: y: .d8 y-x", "414102" },
	{ "5c=\\\n22=\"\n", ".stringn \"\\\\\\\"\"", "5c22" },
};
static Bytes unhex(const char* h) { auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }; Bytes r; for (; *h; h += 2) r.push_back((uint8_t) (v(h[0]) * 16 + v(h[1]))); return r; }
// expect: P14_e2e_table encoded refused
// bounded: P14_e2e_table fixed tables
VC_ENTRY(P14_e2e_table)
{
	unsigned n = sizeof(cases) / sizeof(cases[0]), k = __vc_choose(n, "case");
	auto& c = cases[k];
	FileAsm as;
	as.put("t.tbl", std::string(c.table));
	as.put("u.tbl", std::string("71=a\n72=b\n/fe\n"));
	bool res = as.run(std::string(".gba\n.create \"out.bin\",0\n.loadtable \"t.tbl\"\n") + c.stmts + "\n.close\n");
	std::string lab = "table case " + num(k) + ": " + c.stmts + ": ";
	if (!c.want) { __vc_assert(!res && !as.exists("out.bin"), (lab + "refused without output").c_str()); __vc_reach("refused"); return; }
	__vc_assert(res, (lab + "accepted").c_str());
	if (!res) return;
	__vc_assert(same(as.get("out.bin")->data, unhex(c.want)), (lab + "bytes").c_str());
	__vc_reach("encoded");
}
// integers between the strings, at every arrangement, with any values
// expect: P14_e2e_mixed_sh encoded
// bounded: P14_e2e_mixed_sh fixed strings, symbolic integers between them
VC_ENTRY(P14_e2e_mixed_sh)
{
	unsigned k = __vc_choose(81 * 2, "shard"), term = k / 81;
	FileAsm as;
	as.put("t.tbl", std::string("4161=a\n42=b\n/fe01\n"));
	std::string t = term ? ".string " : ".stringn ";
	Bytes want;
	for (unsigned i = 0, x = k % 81; i < 4; i++, x /= 3)
	{
		if (i) t += ",";
		if (x % 3 == 0) { uint64_t v = __vc_any("v", 64); t += as.val((int64_t) v); want.push_back((uint8_t) v); }
		else if (x % 3 == 1) { t += "\"ab\""; want.insert(want.end(), { 0x41, 0x61, 0x42 }); }
		else { t += "\"b\""; want.push_back(0x42); }
	}
	if (term) want.insert(want.end(), { 0xfe, 0x01 });
	want.push_back((uint8_t) want.size());
	bool res = as.run(".sym off\n.gba\n.create \"out.bin\",0\n.loadtable \"t.tbl\"\n" + t + "\n.d8 orga()\n.close\n");
	std::string lab = "mixed string arguments " + num(k) + ": ";
	__vc_assert(res, (lab + "accepted").c_str());
	if (!res) return;
	__vc_assert(same(as.get("out.bin")->data, want), (lab + "bytes").c_str());
	__vc_reach("encoded");
}
// Shift-JIS output: what is written decodes to the text
struct SjisRow { uint8_t lead; uint16_t c[189]; };
static const SjisRow sjis[] = {
#include "spec_sjis.inc"
};
static void u8(std::string& s, uint32_t c)
{
	if (c < 0x80) s += (char) c;
	else if (c < 0x800) { s += (char) (0xC0 | c >> 6); s += (char) (0x80 | (c & 63)); }
	else { s += (char) (0xE0 | c >> 12); s += (char) (0x80 | (c >> 6 & 63)); s += (char) (0x80 | (c & 63)); }
}
// expect: P14_e2e_sjis encoded
// steps: P14_e2e_sjis 3000000000
// bounded: P14_e2e_sjis a fixed list of texts
VC_ENTRY(P14_e2e_sjis)
{
	std::string text;
	std::vector<uint32_t> cps;
	auto add = [&](uint32_t c) { cps.push_back(c); u8(text, c); };
	for (unsigned c = 0x20; c < 0x7F; c++) if (c != '"' && c != '\\') add(c);
	for (unsigned c = 0xFF61; c <= 0xFF9F; c++) add(c);
	for (auto& r : sjis) for (unsigned i = 0; i < 189; i++) if (r.c[i]) add(r.c[i]);
	FileAsm as;
	bool res = as.run(".gba\n.create \"out.bin\",0\n.sjisn \"" + text + "\"\n.sjis \"a\xE3\x81\x82\",5\n.sjisn \"\"\n.close\n");
	__vc_assert(res, "Shift-JIS: every character is accepted");
	if (!res) return;
	auto& d = as.get("out.bin")->data;
	static const uint8_t tail[] = { 'a', 0x82, 0xA0, 5, 0 };
	size_t end = d.size() - 5;
	bool good = d.size() >= 5 && !memcmp(&d[end], tail, 5);
	__vc_assert(good, "Shift-JIS: terminated after the last argument, .sjisn is not");
	if (!good) return;
	size_t at = 0, n = 0;
	for (; n < cps.size() && at < end; n++)
	{
		uint8_t b = d[at++];
		uint32_t c = 0;
		if (b < 0x80) c = b;
		else if (b >= 0xA1 && b <= 0xDF) c = 0xFF61 + b - 0xA1;
		else if (at < end) { uint8_t t = d[at++]; for (auto& r : sjis) if (r.lead == b && t >= 0x40 && t < 0xFD) c = r.c[t - 0x40]; }
		if (c != cps[n]) { __vc_assert(false, ("Shift-JIS: character " + num(cps[n])).c_str()); return; }
	}
	__vc_assert(n == cps.size() && at == end, "Shift-JIS: no character is missing or extra");
	__vc_reach("encoded");
}

// the table of an earlier run in the same process is not in effect
// expect: P14_e2e_again encoded refused
// bounded: P14_e2e_again four first and eight second runs
VC_ENTRY(P14_e2e_again)
{
	static const char* const first[] = { ".loadtable \"t.tbl\"\n.string \"ab\"", ".loadtable \"t.tbl\"\n.error \"e\"", ".loadtable \"t.tbl\"\n.loadtable \"u.tbl\"\n.stringn \"ab\"", ".d8 1" };
	static const struct { const char* t; const char* want; } second[] = { { ".string \"a\"", nullptr }, { ".stringn \"b\"", nullptr }, { ".stringn \"ab\",1", nullptr }, { ".d8 9\n.string \"\"", "09" }, { ".loadtable \"u.tbl\"\n.string \"ab\"", "7172fe" },
		{ ".loadtable \"u.tbl\"\n.string \"c\"", nullptr }, { ".ascii \"ab\"", "6162" }, { ".loadtable \"v.tbl\"\n.stringn \"b\"", "31" } };
	for (const char* x : first) for (auto& y : second)
	{
		FileAsm as;
		as.put("t.tbl", std::string("4161=a\n42=b\n43=c\n/fe01\n"));
		as.put("u.tbl", std::string("71=a\n72=b\n/fe\n"));
		as.put("v.tbl", std::string("31=b\n"));
		as.run(std::string(".gba\n.create \"one.bin\",0\n") + x + "\n.close\n");
		as.errors.clear();
		bool res = as.run(std::string(".gba\n.create \"out.bin\",0\n") + y.t + "\n.close\n");
		std::string lab = std::string("'") + y.t + "' after a run with '" + x + "': ";
		for (char& c : lab) if (c == '\n') c = ';';
		if (!y.want) { __vc_assert(!res && !as.exists("out.bin"), (lab + "refused without output").c_str()); __vc_reach("refused"); continue; }
		__vc_assert(res, (lab + "accepted").c_str());
		if (!res) continue;
		__vc_assert(same(as.get("out.bin")->data, unhex(y.want)), (lab + "bytes").c_str());
		__vc_reach("encoded");
	}
}
