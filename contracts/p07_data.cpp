// P07: data directives write each value at its width in the byte order of the current architecture
#include "common.h"
struct Arch { const char* name; bool big; unsigned word; };
static const Arch archs[] = { { ".gba", false, 4 }, { ".nds", false, 4 }, { ".3ds", false, 4 }, { ".arm.little", false, 4 }, { ".arm.big", true, 4 }, { ".psx", false, 4 }, { ".ps2", false, 4 }, { ".psp", false, 4 }, { ".n64", true, 4 }, { ".rsp", true, 4 }, { ".saturn", true, 2 }, { ".32x", true, 2 } };
static const unsigned nArch = 12;
struct Dir { const char* name; int size; };   // negative: multiples of half a word
static const Dir dirs[] = { { ".byte", 1 }, { ".db", 1 }, { ".dcb", 1 }, { "db", 1 }, { "dcb", 1 }, { ".d8", 1 }, { ".ascii", 1 }, { ".d16", 2 }, { ".d32", 4 }, { ".d64", 8 },
	{ ".halfword", -1 }, { ".hword", -1 }, { ".dh", -1 }, { "dh", -1 }, { ".dcw", -1 }, { "dcw", -1 }, { ".word", -2 }, { ".dw", -2 }, { "dw", -2 }, { ".dcd", -2 }, { "dcd", -2 }, { ".doubleword", -4 }, { ".dword", -4 }, { ".dd", -4 }, { "dd", -4 }, { ".dcq", -4 }, { "dcq", -4 } };
static const unsigned nDir = sizeof(dirs) / sizeof(dirs[0]);
static unsigned sizeOf(const Dir& d, const Arch& a) { return d.size > 0 ? d.size : -d.size * a.word / 2; }
static uint64_t get(const Asm& as, int off, unsigned size, bool big)
{
	uint64_t v = 0;
	for (unsigned i = 0; i < size; i++) v = v << 8 | as.u8(off + (big ? i : size - 1 - i));
	return v;
}
static uint64_t low(uint64_t v, unsigned size) { return size == 8 ? v : v & ((1ull << (size * 8)) - 1); }
static uint64_t bitsOf(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }
static uint32_t bitsOfF(float d) { uint32_t v; memcpy(&v, &d, 4); return v; }
// every directive on every architecture, all 64-bit values, at every address
// expect: P07_e2e_ints_sh written
VC_ENTRY(P07_e2e_ints_sh)
{
	unsigned k = __vc_choose(nDir * nArch, "shard");
	const Dir& d = dirs[k % nDir];
	const Arch& a = archs[k / nDir];
	uint64_t v[3];
	Asm as;
	v[0] = __vc_any("a", 64); v[1] = __vc_any("b", 64); v[2] = 0 - v[0];
	as.label("a", v[0]).label("b", v[1]);
	as.at((int64_t) (uint32_t) __vc_any("base", 32));
	std::string text = std::string(d.name) + " a,b,-a", lab = std::string(a.name) + " '" + text + "': ";
	unsigned n = sizeOf(d, a);
	bool res = as.run(std::string(a.name) + "\n" + text + "\n");
	__vc_assert(res && as.size() == 3 * (int64_t) n, (lab + "accepted, three values").c_str());
	if (!res) return;
	for (int i = 0; i < 3; i++) __vc_assert(get(as, i * n, n, a.big) == low(v[i], n), (lab + "value").c_str());
	__vc_reach("written");
}
// the byte order is the one of the architecture in force where the directive stands
VC_ENTRY(P07_e2e_switch_sh)
{
	unsigned k = __vc_choose(nArch * nArch, "shard");
	const Arch &x = archs[k % nArch], &y = archs[k / nArch];
	uint64_t v = __vc_any("a", 64);
	Asm as;
	as.label("a", v);
	bool res = as.run(std::string(x.name) + "\n.d32 a\n" + y.name + "\n.d16 a\n.d64 a\n" + x.name + "\n.word a,fwd\nfwd:\n");
	std::string lab = std::string(x.name) + ", " + y.name + ": ";
	int w = x.word;
	__vc_assert(res && as.size() == 14 + 2 * w, (lab + "accepted").c_str());
	if (!res) return;
	__vc_assert(get(as, 0, 4, x.big) == low(v, 4) && get(as, 4, 2, y.big) == low(v, 2) && get(as, 6, 8, y.big) == v && get(as, 14, w, x.big) == low(v, w) && get(as, 14 + w, w, x.big) == (uint64_t) (14 + 2 * w), (lab + "byte order of the architecture in force").c_str());
	__vc_reach("written");
}
// strings: one unit per character; .asciiz appends one zero byte
// expect: P07_e2e_strings_sh written
// bounded: P07_e2e_strings_sh fixed strings, symbolic terminators and widths
VC_ENTRY(P07_e2e_strings_sh)
{
	unsigned k = __vc_choose((nDir + 1) * nArch, "shard");
	const Arch& a = archs[k / (nDir + 1)];
	Dir d = k % (nDir + 1) == nDir ? Dir{ ".asciiz", 1 } : dirs[k % (nDir + 1)];
	unsigned n = sizeOf(d, a);
	uint64_t v = __vc_any("a", 64);
	static const std::string strs[] = { "", "x", "Hello, World", "~\\ \"q\"", "\t!" };
	for (auto& s : strs)
	{
		Asm as;
		as.label("a", v);
		std::string q;
		for (char c : s) { if (c == '"' || c == '\\') q += '\\'; q += c; }
		std::string text = std::string(d.name) + " \"" + q + "\",a,\"" + q + "\"", lab = std::string(a.name) + " '" + text + "': ";
		bool res = as.run(std::string(a.name) + "\n" + text + "\n");
		bool z = !strcmp(d.name, ".asciiz");
		__vc_assert(res && as.size() == (int64_t) ((2 * s.size() + 1 + z) * n), (lab + "accepted, size").c_str());
		if (!res) return;
		bool good = true;
		for (size_t i = 0; i < s.size(); i++) good = good & (get(as, i * n, n, a.big) == (uint8_t) s[i]) & (get(as, (s.size() + 1 + i) * n, n, a.big) == (uint8_t) s[i]);
		__vc_assert(good & (get(as, s.size() * n, n, a.big) == low(v, n)), (lab + "characters and value").c_str());
		if (z) __vc_assert(as.u8(2 * s.size() + 1) == 0, (lab + "terminated").c_str());
		__vc_reach("written");
	}
}
// floats
// expect: P07_e2e_floats_sh written
VC_ENTRY(P07_e2e_floats_sh)
{
	unsigned k = __vc_choose(nArch * 8, "shard"), c = k / nArch;
	const Arch& a = archs[k % nArch];
	int64_t v = (int64_t) __vc_any("a", 64);
	__vc_abstract_arith(1);
	static const char* const text[] = { ".float a", ".double a", ".float float(a) / 3", ".double float(a) / 3", ".d32 float(a) / 3", ".d64 float(a) / 3", ".word float(a) / 3", ".dword float(a) / 3" };
	double q = (double) v / 3;
	if (a.word == 2 && c >= 6) return;
	uint64_t want[] = { bitsOfF((float) v), bitsOf((double) v), bitsOfF((float) q), bitsOf(q), bitsOfF((float) q), bitsOf(q), bitsOfF((float) q), bitsOf(q) };
	unsigned n = c & 1 ? 8 : 4;
	Asm as;
	as.label("a", v);
	std::string lab = std::string(a.name) + " '" + text[c] + "': ";
	bool res = as.run(std::string(a.name) + "\n" + text[c] + "\n");
	__vc_assert(res && as.size() == n, (lab + "accepted").c_str());
	if (!res) return;
	__vc_assert(get(as, 0, n, a.big) == want[c], (lab + "bits of the nearest float").c_str());
	__vc_reach("written");
}
// .nocash changes dw/dd and removes dh; other directives keep their size
VC_ENTRY(P07_e2e_nocash_sh)
{
	unsigned k = __vc_choose(nDir * 2, "shard");
	const Dir& d = dirs[k % nDir];
	const Arch& a = archs[k / nDir ? 8 : 0];
	uint64_t v = __vc_any("a", 64);
	std::string nm = d.name[0] == '.' ? d.name + 1 : d.name;
	for (int on = 0; on < 3; on++)   // 0 off (default), 1 on, 2 off again
	{
		Asm as;
		as.label("a", v);
		bool res = as.run(std::string(a.name) + "\n.nocash on\n" + (on == 1 ? "" : ".nocash off\n") + d.name + " a\n.nocash off\n");
		std::string lab = std::string(".nocash ") + (on == 1 ? "on, " : "off, ") + d.name + ": ";
		if (on == 1 && nm == "dh") { __vc_assert(!res && as.f->writes == 0, (lab + "rejected").c_str()); continue; }
		unsigned n = on == 1 && nm == "dw" ? 2 : on == 1 && nm == "dd" ? 4 : sizeOf(d, a);
		__vc_assert(res && as.size() == n, (lab + "size").c_str());
		if (res) __vc_assert(get(as, 0, n, a.big) == low(v, n), (lab + "value").c_str());
	}
}
// operands with no representation are rejected and nothing is written
// bounded: P07_e2e_reject a fixed list of malformed directives
VC_ENTRY(P07_e2e_reject)
{
	for (const char* t : { ".float \"x\"", ".double \"x\"", ".d8 \"\xc3\xa4\"", ".d16 \"\xc3\xa4\"", ".d8", ".d32 1,", ".d16 1 2", ".d32 undefinedname", ".d8 1.5", ".d16 1.5", ".byte 2.5", ".halfword 0.5", ".ascii \"abc", ".d8 \"a\",undefinedname" })
	{
		Asm as;
		bool res = as.run(std::string(".psx\n.d32 1\n") + t + "\n");
		__vc_assert(!res && as.f->writes == 0, (std::string("'") + t + "': rejected without output").c_str());
	}
}
