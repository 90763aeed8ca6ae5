// P13: labels stand for the address of their definition, in their scope
// assumes: header sizes are not negative and below 2^39
#include "common.h"
static std::string num(uint64_t v) { std::string n; do { n.insert(n.begin(), char('0' + v % 10)); v /= 10; } while (v); return n; }
typedef std::vector<uint8_t> Bytes;
static bool same(const Bytes& a, const Bytes& b) { if (a.size() != b.size()) return false; bool g = true; for (size_t i = 0; i < a.size(); i++) g &= a[i] == b[i]; return g; }
static uint64_t le(const Bytes& b, size_t o) { uint64_t v = 0; for (int i = 7; i >= 0; i--) v = v << 8 | b[o + i]; return v; }

// values of labels and of org(), orga(), headersize() of labels, before and after their definition
// expect: P13_e2e_value_sh value
VC_ENTRY(P13_e2e_value_sh)
{
	unsigned k = __vc_choose(6 * 4 * 3, "shard"), n1 = k % 6, n2 = k / 6 % 4, form = k / 24;
	static const char* forms[3][2] = { { "lab:", "lab" }, { "@lab:", "@lab" }, { ".func lab", "lab" } };
	FileAsm as;
	int64_t h = (int64_t) (__vc_any("h", 64) & 0x7FFFFFFFFF), v = (int64_t) __vc_any("v", 64);
	std::string l = forms[form][1], refs = ".d64 " + l + ",org(" + l + "),orga(" + l + "),headersize(" + l + "),dl,.,org(),orga(),LAB2\n";
	bool res = as.run(".sym off\n.gba\n.create \"out.bin\"," + as.val(h) + "\n" + refs + ".fill " + num(n1) + ",1\n" + forms[form][0] + "\n.fill " + num(n2) + ",2\n" + (form == 2 ? ".endfunc\n" : "") + "lab2:\n" + refs + ".definelabel dl," + as.val(v) + "\n.close\n");
	std::string lab = std::string("label ") + forms[form][0] + " after " + num(n1) + " bytes, " + num(n2) + " before the next: ";
	__vc_assert(res, (lab + "assembles").c_str());
	if (!res) return;
	auto& d = as.get("out.bin")->data;
	__vc_assert(d.size() == 144 + n1 + n2, (lab + "size").c_str());
	if (d.size() != 144 + n1 + n2) return;
	uint64_t at = 72 + n1;
	for (unsigned second = 0; second < 2; second++)
	{
		size_t o = second ? 72 + n1 + n2 : 0;
		std::string w = lab + (second ? "after: " : "before: ");
		__vc_assert(le(d, o) == h + at, (w + "label").c_str());
		__vc_assert(le(d, o + 8) == h + at, (w + "org(label)").c_str());
		__vc_assert(le(d, o + 16) == at, (w + "orga(label)").c_str());
		__vc_assert(le(d, o + 24) == (uint64_t) h, (w + "headersize(label)").c_str());
		__vc_assert(le(d, o + 32) == (uint64_t) v, (w + ".definelabel").c_str());
		__vc_assert(le(d, o + 40) == h + o && le(d, o + 48) == h + o && le(d, o + 56) == o, (w + "current address").c_str());
		__vc_assert(le(d, o + 64) == h + at + n2, (w + "case does not matter").c_str());
	}
	__vc_reach("value");
}
// scopes of local labels: every sequence of four statements (five in the thorough check)
static void scope(unsigned len)
{
	enum { G, L, M, R, Q, O, ST, D, N };
	unsigned k = __vc_choose(N * N, "shard"), r = __vc_choose(len == 5 ? N * N * N : N * N, "rest");
	unsigned seq[5] = { k % N, k / N, r % N, r / N % N, r / (N * N) };
	std::string t = ".gba\n.create \"out.bin\",0x40\n", lab = "statements ";
	int sec = 0, pos = 0;
	int def[2][6];
	for (auto& x : def) for (int& y : x) y = -1;
	struct Use { int pos, which, sec; };
	std::vector<Use> uses;
	Bytes want;
	bool bad = false;
	for (unsigned i = 0; i < len; i++)
	{
		lab += num(seq[i]);
		switch (seq[i])
		{
		case G: t += "g" + num(i) + ":\n.d8 1\n"; sec++; want.push_back(1); pos++; break;
		case ST: t += "@s" + num(i) + ":\n.d8 2\n"; sec++; want.push_back(2); pos++; break;
		case D: t += ".definelabel d" + num(i) + ",5\n.d8 3\n"; sec++; want.push_back(3); pos++; break;
		case O: t += ".org org()+1\n.d8 4\n"; sec++; want.push_back(0); want.push_back(4); pos += 2; break;
		case L: case M: t += seq[i] == L ? "@@l:\n" : "@@m:\n"; if (def[seq[i] - L][sec] >= 0) bad = true; def[seq[i] - L][sec] = 0x40 + pos; t += ".d8 7\n"; want.push_back(7); pos++; break;
		case R: case Q: t += seq[i] == R ? ".d8 @@l\n" : ".d8 @@M\n"; uses.push_back({ pos, (int) seq[i] - R, sec }); want.push_back(0); pos++; break;
		}
	}
	for (auto& u : uses) { int v = def[u.which][u.sec]; if (v < 0) bad = true; want[u.pos] = (uint8_t) v; }
	FileAsm as;
	bool res = as.run(t + ".close\n");
	lab += ": ";
	if (bad) { __vc_assert(!res && !as.exists("out.bin"), (lab + "local label undefined in its scope, or defined twice: fails").c_str()); __vc_reach("refused"); return; }
	__vc_assert(res, (lab + "assembles").c_str());
	if (res) __vc_assert(same(as.get("out.bin")->data, want), (lab + "local labels resolve within their scope").c_str());
	__vc_reach("resolved");
}
// expect: P13_e2e_scope_sh resolved refused
// bounded: P13_e2e_scope_sh programs of four statements
VC_ENTRY(P13_e2e_scope_sh) { scope(4); }
// expect: T13_e2e_scope5_sh resolved refused
// bounded: T13_e2e_scope5_sh programs of five statements
VC_ENTRY(T13_e2e_scope5_sh) { scope(5); }
// static labels belong to their file: main file and two includes, each may define and use @s
// expect: P13_e2e_static_sh resolved refused
// bounded: P13_e2e_static_sh two files
VC_ENTRY(P13_e2e_static_sh)
{
	unsigned k = __vc_choose(64 * 4, "shard"), form = k / 64;
	FileAsm as;
	Bytes want;
	bool bad = false;
	int pos = 0;
	auto part = [&](unsigned bits, unsigned tag) {
		// bit 0: defines, bit 1: uses (after, or before the definition)
		std::string t = ".d8 " + num(tag) + "\n";
		want.push_back((uint8_t) tag); pos++;
		int use = -1, def = -1;
		if ((bits & 2) && form & 1) { t += ".d8 @s\n"; use = pos; want.push_back(0); pos++; }
		if (bits & 1) { t += "@s:\n"; def = pos; }
		t += ".d8 9\n"; want.push_back(9); pos++;
		if ((bits & 2) && !(form & 1)) { t += ".d8 @S\n"; use = pos; want.push_back(0); pos++; }
		if (use >= 0) { if (def < 0) bad = true; else want[use] = (uint8_t) def; }
		return t;
	};
	std::string main = part(k & 3, 1), b = part(k >> 2 & 3, 2), c = part(k >> 4 & 3, 3);
	// form bit 1: c is included by b instead of by main
	as.put("b.asm", form & 2 ? b + ".include \"c.asm\"\n" : b);
	as.put("c.asm", c);
	bool res = as.run(".gba\n.create \"out.bin\",0\n" + main + ".include \"b.asm\"\n" + (form & 2 ? "" : ".include \"c.asm\"\n") + ".close\n");
	std::string lab = "static labels in three files, case " + num(k) + ": ";
	if (bad) { __vc_assert(!res && !as.exists("out.bin"), (lab + "not defined in the file that uses it: fails").c_str()); __vc_reach("refused"); return; }
	__vc_assert(res, (lab + "assembles").c_str());
	if (res) __vc_assert(same(as.get("out.bin")->data, want), (lab + "each file has its own").c_str());
	__vc_reach("resolved");
}
// addresses that depend on sizes that depend on labels: what is written agrees with where it is
struct Conv { const char* text; const char* want; };
static const Conv conv[] = {
	{ ".fill b-a,7\n.d8 end\na: .d8 1,2,3\nb: .d8 b\nend:", "0707070801020307" },
	{ ".if end > 3\n.d8 1,1,1\n.endif\n.d8 end\n.d8 2\nend:", "0202" },
	{ "a:\n.if b-a > 2\n.d8 1\n.endif\n.d8 b\nb:", "01" },
	{ ".skip x\n.d8 y\ny:\n.d8 5,6\nz:\n.definelabel x,z-y", "0000030506" },
	{ ".align 8\na: .d8 a,b\n.align 4\nb: .d8 c\nc:", "0004000005" },
	{ ".area e-s,0xEE\n.d8 1\n.endarea\n.d8 s,e\ns: .d8 2,3,4\ne:", "01eeee0508020304" },
	{ ".org t\n.d8 u\n.definelabel t,4\nu:", "0000000005" },
	{ ".d8 u\n.orga 3\n.d8 4\nu: .d8 u", "040000040" "4" },
	{ ".ifdef later\n.d8 1\n.endif\n.d8 later\n.d8 2\nlater:", "010302" },
	{ ".fill x,1\n.definelabel z,2\n.definelabel y,z+1\n.definelabel x,y+1\n.d8 x,y,z,e\ne:", "010101010403020" "8" },
};
// expect: P13_e2e_consistent consistent
// bounded: P13_e2e_consistent a fixed list of programs, symbolic sizes
VC_ENTRY(P13_e2e_consistent)
{
	// two labels around content whose size depends on labels defined later; whatever is written must be true
	unsigned k = __vc_choose(8 * 4, "case"), a = k % 8, b = k / 8;
	FileAsm as;
	bool res = as.run(".gba\n.create \"out.bin\",0\ns:\n.if e-m > " + num(b) + "\n.fill m-s-2-" + num(a % 3) + "+" + num(a % 3) + "\n.d8 1\n.else\n.d8 2,2\n.endif\n.d8 m,e,x\nm:\n.fill x-" + num(3 - a / 4) + ",9\ne:\n.d8 m,e\n.close\n.definelabel x," + num(a) + "\n");
	std::string lab = "sizes that depend on labels, case " + num(k) + ": ";
	if (res)
	{
		auto& d = as.get("out.bin")->data;
		__vc_assert(d.size() >= 5, (lab + "size").c_str());
		if (d.size() < 5) return;
		unsigned e = d.size() - 2, m = d[d.size() - 2];
		__vc_assert(d[e + 1] == e, (lab + "label at the end").c_str());
		__vc_assert(m >= 3 && m <= e && d[m - 3] == m && d[m - 2] == e && d[m - 1] == a, (lab + "label in the middle").c_str());
		__vc_assert(e - m == a - (3 - a / 4), (lab + "content between them").c_str());
	}
	else __vc_assert(!as.exists("out.bin"), (lab + "no output on failure").c_str());
	__vc_reach("consistent");
}
// expect: P13_e2e_converge fixed
// bounded: P13_e2e_converge a fixed list of programs, symbolic sizes
VC_ENTRY(P13_e2e_converge)
{
	unsigned n = sizeof(conv) / sizeof(conv[0]), k = __vc_choose(n, "case");
	FileAsm as;
	bool res = as.run(std::string(".gba\n.create \"out.bin\",0\n") + conv[k].text + "\n.close\n");
	std::string lab = "sizes that depend on later labels, " + num(k) + ": ";
	auto& d = as.get("out.bin")->data;
	std::string hex;
	for (uint8_t x : d) { hex += "0123456789abcdef"[x >> 4]; hex += "0123456789abcdef"[x & 15]; }
	__vc_assert(res && conv[k].want && hex == conv[k].want, (lab + "got " + hex).c_str());
	__vc_reach("fixed");
}
// names: every byte, as first and as later character
// expect: P13_e2e_names_sh valid invalid
// bounded: P13_e2e_names_sh names of up to three characters
VC_ENTRY(P13_e2e_names_sh)
{
	unsigned k = __vc_choose(128, "shard");
	for (unsigned where = 0; where < 2; where++)
	{
		char c = (char) k;
		bool alpha = (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_', digit = c >= '0' && c <= '9';
		if (c == '.' || c == '@' || c == '\n' || c == '\r' || c == ';' || c == '/' || c == '\\' || c == ':' || c == ' ' || c == '\t' || c == 0) continue;
		std::string name = where ? std::string("q") + c + "x" : std::string(1, c) + "qx";
		FileAsm as;
		bool res = as.run(".gba\n.create \"out.bin\",0\n.d8 9\n" + name + ":\n.d8 " + name + "\n.close\n");
		std::string lab = "label name with character " + num(k) + (where ? " inside: " : " in front: ");
		if (alpha || (digit && where))
		{
			__vc_assert(res && same(as.get("out.bin")->data, { 9, 1 }), (lab + "valid").c_str());
			__vc_reach("valid");
		}
		else { __vc_assert(!res && !as.exists("out.bin"), (lab + "refused").c_str()); __vc_reach("invalid"); }
	}
	if (k == '\n') __vc_assert(true, "line end");
}
// duplicate and missing definitions
// expect: P13_e2e_reject refused
// bounded: P13_e2e_reject a fixed list of malformed definitions
VC_ENTRY(P13_e2e_reject)
{
	static const char* bad[] = {
		"a:\n.d8 1\na:", "a:\nA:", "a:\n.definelabel a,0", ".definelabel a,0\n.definelabel a,0", ".definelabel a,1\n.definelabel A,2", "@a:\n@A:", "g: @@a:\n@@a:", ".func a\n.endfunc\na:", "a:\n.func a\n.endfunc",
		"a equ 5\na:", "a:\na equ 5", ".d8 a", ".d8 @a", ".d8 @@a", ".definelabel a,b", ".definelabel a,\"x\"", ".definelabel a,1.5", ".definelabel 5,1", ".definelabel a", ".definelabel @@,1", "@@: .d8 1", "@: .d8 1", ".d8 org(a)", ".d8 orga(a)", ".d8 headersize(a)",
		"@@a: .d8 1\ng:\n.d8 @@a", ".d8 @@a\ng: @@a:", ".include \"i.asm\"\n.d8 @inc", "g: .include \"j.asm\"\n.d8 @inc", ".definelabel pre,5", "pre: .d8 1", ".include \"i.asm\"\n.include \"i.asm\"", ".macro m\nglob:\n.endmacro\nm\n.d8 glob", ".func a\n.d8 1", ".endfunc",
		"a: .d8 orga(b)\n.definelabel b,5",
	};
	unsigned n = sizeof(bad) / sizeof(bad[0]), k = __vc_choose(n, "case");
	FileAsm as;
	as.label("pre", 7);
	as.put("i.asm", std::string("@inc:\nincglobal:\n"));
	as.put("j.asm", std::string("@inc:\n"));
	bool res = as.run(std::string(".gba\n.create \"out.bin\",0\n") + bad[k] + "\n.close\n");
	__vc_assert(!res && !as.exists("out.bin"), (std::string("labels, refused case ") + num(k) + ": " + bad[k]).c_str());
	__vc_reach("refused");
}
// labels given by the caller
// expect: P13_e2e_given_sh given
VC_ENTRY(P13_e2e_given_sh)
{
	unsigned k = __vc_choose(4, "shard");
	FileAsm as;
	int64_t v = (int64_t) __vc_any("v", 64);
	as.label("Pre", v).label("other", 3);
	bool res = as.run(k == 0 ? ".gba\n.create \"out.bin\",0\n.d64 pre\n.close\n" : k == 1 ? ".gba\n.create \"out.bin\",0\n@@x: .d64 PRE+@@x+other-3\n.close\n" :
		k == 2 ? ".gba\n.create \"out.bin\",0\n.ifdef pre\n.d64 pre\n.endif\n.close\n" : ".gba\n.create \"out.bin\",0\n.definelabel l,pre\n.d64 l\n.close\n");
	__vc_assert(res, "given label: assembles");
	if (!res) return;
	auto& d = as.get("out.bin")->data;
	__vc_assert(d.size() == 8 && le(d, 0) == (uint64_t) v, "given label: value");
	__vc_reach("given");
}
// what ends the scope of local labels, and what does not
// expect: P13_e2e_section ends keeps
// bounded: P13_e2e_section a fixed list of programs
VC_ENTRY(P13_e2e_section)
{
	static const struct { const char* stmt; bool ends; } s[] = {
		{ "g:", true }, { "@s:", true }, { ".definelabel d,5", true }, { ".func f :: .endfunc", true }, { ".org 0x44", true }, { ".orga 4", true }, { "org 0x44", true }, { "orga 4", true }, { ".close :: .open \"other.bin\",0x40", true }, { ".close :: .create \"third.bin\",0x40", true },
		{ ".macro m :: mg: :: .endmacro :: m", true },
		{ "@@other:", false }, { ".d8 1", false }, { ".align 4", false }, { ".fill 3", false }, { ".area 8 :: .d8 1 :: .endarea", false }, { ".if 1 :: .d8 1 :: .endif", false }, { ".if 0 :: g: :: .endif", false }, { "e equ 5", false }, { ".macro m2 :: .d8 1 :: .endmacro :: m2", false },
		{ ".macro m3 :: @@ml: .d8 1 :: .endmacro :: m3", false }, { ".include \"i.asm\"", false }, { "nop", false }, { ".arm", false }, { ".expfunc f(a),a", false },
	};
	unsigned n = sizeof(s) / sizeof(s[0]), k = __vc_choose(n * 3, "case"), form = k / n;
	auto& c = s[k % n];
	FileAsm as;
	as.put("i.asm", std::string(".d8 4\n"));
	as.put("other.bin", std::string("abcdefgh"));
	// form 0: use after; 1: use before the definition; 2: define again
	static const char* before[] = { "h: @@l: .d8 9\n", "h: .d8 @@l\n", "h: @@l: .d8 9\n" };
	static const char* after[] = { ".d8 @@l\n", "@@l: .d8 9\n", "@@l: .d8 9\n" };
	bool res = as.run(std::string(".gba\n.create \"out.bin\",0x40\n") + before[form] + c.stmt + "\n" + after[form] + ".close\n");
	std::string lab = std::string("local label across ") + c.stmt + ", form " + num(form) + ": ";
	__vc_assert(res == (c.ends == (form == 2)), (lab + (c.ends ? "the scope ends" : "the scope goes on")).c_str());
	if (res && form == 1) __vc_assert(as.get("out.bin")->data[0] > 0x40, (lab + "value").c_str());
	__vc_reach(c.ends ? "ends" : "keeps");
}
