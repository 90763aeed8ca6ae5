// P18: macros, equ and include stand for their text
// assumes: an equ defined in a macro does not mention a parameter whose argument mentions the equ
#include "common.h"
static std::string num(uint64_t v) { std::string n; do { n.insert(n.begin(), char('0' + v % 10)); v /= 10; } while (v); return n; }
typedef std::vector<uint8_t> Bytes;
static bool same(const Bytes& a, const Bytes& b) { if (a.size() != b.size()) return false; bool g = true; for (size_t i = 0; i < a.size(); i++) g &= a[i] == b[i]; return g; }
static std::string hex8(unsigned v) { std::string s; for (int i = 28; i >= 0; i -= 4) s += "0123456789abcdef"[v >> i & 15]; return s; }
static const char* head = ".sym off\n.gba\n.create \"out.bin\",0x40\n";
// the text of a macro or equ, with $0..$9 standing for its parameters
static std::string expand(const std::string& body, const std::vector<std::string>& args)
{
	std::string r;
	for (size_t i = 0; i < body.size(); i++)
		if (body[i] == '$') r += args[body[++i] - '0']; else r += body[i];
	return r;
}
static Bytes output(const std::string& text, int64_t v, bool& ok)
{
	FileAsm as;
	as.val(v);
	ok = as.run(text);
	if (!ok) { __vc_assert(!as.exists("out.bin"), "a failed assembly leaves no output"); return {}; }
	return as.get("out.bin")->data;
}
// a call assembles to the body with the argument text in place of the parameters
static const char* bodies[] = {
	".d32 $0\n.d8 $1\n", ".d8 $1,$0\n.d64 $0*2+$1\n", "mov r0,r1\n$0: .d8 1\n.d32 $0\n.d8 $1\n", ".if $0 > 1\n.d8 $1\n.else\n.d8 $0,7\n.endif\n",
	".ascii \"p q P\" :: .d8 $0 :: .d8 pq,p_,qp\n.d8 $1\n", ".fill $1 & 3,$0\n$2\n.d8 1\n", "add r0,$2\n.d8 $1\n", "$3 $0,$1\n", ".d8 min($0,$1),max($1,$0)\n", "ldr r0,$2\n.d8 $0,$1\n", "push $2\npop $2\n.d8 $0\n",
};
static const int bodyUses[] = { 0, 0, 1, 0, 0, 2, 3, 4, 0, 5, 6 };
static const char* values[] = { "5", "-1", "1+2", "(3,4)", "p", "q", "P+1", "1+q", "lab", "lab-p*2", "reads64(\"args\",0)", "min(3,lab)", "'x'", "pq", "(q)", "max(q,p)+p" };
static const char* names[] = { "lab2", "n_1", "main", "q2" };
static const char* stmts[] = { "nop", "swi 5", ".d8 1", "lab3:" };
static const char* ops[] = { ".d8", ".d16", ".d32" };
// expect: P18_e2e_args_sh expanded
// bounded: P18_e2e_args_sh macros of up to two parameters, fixed argument shapes with symbolic values
VC_ENTRY(P18_e2e_args_sh)
{
	unsigned k = __vc_choose(11 * 16, "shard"), b = k % 11, x = k / 11, y = __vc_choose(8, "second argument"), z = __vc_choose(3, "form");
	y = (y * 2 + (x + z) % 2) % 16;
	int64_t v = (int64_t) __vc_any("v", 64);
	if (b == 3 && (x == 10 || x == 8 || x == 9 || x == 11)) return; // late conditions belong to P12
	std::vector<std::string> a = { values[x], values[y], stmts[(x + y) % 4], ops[(x + y + z) % 3] };
	if (bodyUses[b] == 1) a[0] = names[x % 4];
	if (bodyUses[b] == 3) a[2] = x & 1 ? "-(1,4)" : "r1";
	if (bodyUses[b] == 5) a[2] = x & 1 ? "[r1,4]" : "[r2,r3]";
	if (bodyUses[b] == 6) a[2] = x & 1 ? "{r0,r1}" : "{r2-r4,r6}";
	if (bodyUses[b] == 2) { if (y == 8 || y == 9 || y == 10 || y == 11) return; }
	bool third = bodyUses[b] >= 2;
	static const char* par[3][4] = { { "p", "q", "st", "op" }, { "P", "Q", "ST", "OP" }, { "pp", "q", "x1", "x2" } };
	std::vector<std::string> ps(par[z], par[z] + 4);
	std::string pre = "lab:\n.definelabel P,3\n.definelabel q,4\n.definelabel pq,5\n.definelabel p_,6\n.definelabel qp,7\n", call = "mac " + a[0] + "," + a[1], def = ".macro mac," + ps[0] + "," + ps[1];
	if (third) { call += "," + a[2] + "," + a[3]; def += "," + ps[2] + "," + ps[3]; }
	if (bodyUses[b] == 4 || bodyUses[b] == 1) pre += ".d8 0\n";
	bool ok1, ok2;
	std::string t1 = std::string(head) + def + "\n" + expand(bodies[b], ps) + ".endmacro\n" + pre + call + "\n.d8 9\n.close\n";
	std::string t2 = std::string(head) + pre + expand(bodies[b], a) + ".d8 9\n.close\n";
	Bytes o2 = output(t2, v, ok2), o1 = output(t1, v, ok1);
	std::string lab = "body " + num(b) + ", arguments " + a[0] + " , " + a[1] + ", parameters " + ps[0] + ": ";
	__vc_assert(ok1 == ok2, (lab + "assembles if and only if the expanded text does").c_str());
	if (ok1 && ok2) { __vc_assert(same(o1, o2), (lab + "assembles to the expanded text").c_str()); __vc_reach("expanded"); }
}
// the same macro called two or three times, with other arguments: no call depends on an earlier one
// expect: P18_e2e_again_sh expanded
// bounded: P18_e2e_again_sh two calls
VC_ENTRY(P18_e2e_again_sh)
{
	static const char* bd[] = {
		"$0: .d8 $0,$1,first\n", ".if $1 & 1\n.d8 $1\n.else\n.d16 $1\n.endif\n$0:\n", "nop\n.arm\nnop\n.d8 $1,0\n$0: .d16 $1\n.thumb\n", ".if $1 & 1\nv equ $1+1\n.d8 v\n.endif\n$0: .d8 $1\n",
		"inner $1\n$0: .d8 $0\ninner $0\n", ".d8 $1,$1\n.relativeinclude on\n.nocash on\ndd 1\n$0:\n", "@@x: .d8 @@x\n$0: .d8 $1\n.d8 @@y\n@@y:\n",
	};
	unsigned k = __vc_choose(7 * 4, "shard"), b = k % 7, z = k / 7, w = __vc_choose(16, "arguments");
	static const char* a1[] = { "0", "1", "first", "4+first" };
	std::vector<std::vector<std::string>> calls = { { "first", a1[w & 1] }, { "second", a1[w >> 1 & 3] }, { "third", a1[w >> 3 & 1 ? 3 : 1] } };
	if (b == 1 || b == 3) calls[1][1] = w & 2 ? "2" : "3", calls[2][1] = w & 8 ? "6" : "5"; // late conditions belong to P12
	if (z & 1) std::swap(calls[1][0], calls[2][0]);
	std::string t1 = head, t2 = head, inner = ".d8 0x40,$0\n";
	t1 += ".macro inner,n\n" + expand(inner, { "n" }) + ".endmacro\n.macro mac,n,v1\n" + expand(bd[b], { "n", "v1" }) + ".endmacro\n";
	int i = 0;
	for (auto& c : calls)
	{
		if (i == 2 && !(z & 2)) break;
		t1 += "mac " + c[0] + "," + c[1] + "\n.nocash off\n";
		std::string e = expand(bd[b], c);
		// what the macro names itself is its own at every call
		for (const char* own : { "@@x", "@@y", "v equ", ".d8 v\n" })
			for (size_t p = 0; (p = e.find(own, p)) != std::string::npos; p += 6)
				e.insert(p + (own[0] == '@' ? 3 : own[0] == '.' ? 5 : 1), "zz" + num(i));
		for (size_t p = 0; (p = e.find("inner ", p)) != std::string::npos;) { size_t q = e.find('\n', p); e = e.substr(0, p) + expand(inner, { e.substr(p + 6, q - p - 6) }) + e.substr(q + 1); }
		t2 += e + ".nocash off\n";
		i++;
	}
	bool ok1, ok2;
	Bytes o2 = output(t2 + ".d8 9\n.close\n", 0, ok2), o1 = output(t1 + ".d8 9\n.close\n", 0, ok1);
	std::string lab = "body " + num(b) + ", " + num(i) + " calls, arguments " + num(w) + ": ";
	__vc_assert(ok2, (lab + "the expanded text assembles").c_str());
	__vc_assert(ok1, (lab + "assembles").c_str());
	if (ok1 && ok2) { __vc_assert(same(o1, o2), (lab + "assembles to the expanded text").c_str()); __vc_reach("expanded"); }
}
// labels of macros: every sequence of statements; own name at every call, by the documented name from outside
static void labels(unsigned len)
{
	enum { MG, ML, MS, DL, UL, G, NEST, U0, OWN, N };
	unsigned k = __vc_choose(N * N, "shard"), r = __vc_choose(len == 5 ? N * N * N : N * N, "rest");
	unsigned seq[5] = { k % N, k / N, r % N, r / N % N, r / (N * N) };
	std::string t = head, lab = "statements ";
	t += ".macro mg\nL: .d8 l,0xF0\n.endmacro\n.macro ml\n.d8 @@L\n@@l: .d8 0xF1\n.endmacro\n.macro ms\n.d8 0xF2\n@l: .d8 @L\n.endmacro\n.macro nest,a\nml\n.d8 a\n@@k: mg\n.d8 l2\nl2:\n.endmacro\n.macro own,a\n@@l: .d8 @@l,a\n.endmacro\n";
	int sec = 0, pos = 0x40, cg = 0, cn = 0, ncall = 0;
	std::vector<int> gpos, gref, def(32, -1);
	struct Use { int pos, sec, which; };
	std::vector<Use> uses;
	Bytes want;
	bool bad = false;
	auto put = [&](int v) { want.push_back((uint8_t) v); pos++; };
	for (unsigned i = 0; i < len; i++)
	{
		lab += num(seq[i]);
		switch (seq[i])
		{
		case MG: t += "mg\n"; gpos.push_back(pos); sec++; put(pos); put(0xF0); cg++; break;
		case ML: t += "ml\n"; put(pos + 1); put(0xF1); break;
		case MS: t += "MS\n"; put(0xF2); sec++; put(pos); break;
		case DL: t += "@@l: .d8 0x11\n"; if (def[sec] >= 0) bad = true; def[sec] = pos; put(0x11); break;
		case UL: t += ".d8 @@L\n"; uses.push_back({ pos, sec, -1 }); put(0); break;
		case G: t += "g" + num(i) + ": .d8 0x22\n"; sec++; put(0x22); break;
		// the local label passed is the one at the call
		case NEST: t += "nest @@l\n"; ncall++; put(pos + 1); put(0xF1); uses.push_back({ pos, sec, -1 }); put(0); gpos.push_back(pos); sec++; put(pos); put(0xF0); cg++; put(pos + 1); sec++; break;
		// the argument means the label at the call even though the macro has one of that name
		case OWN: t += "own @@l+0\n"; put(pos); uses.push_back({ pos, sec, -1 }); put(0); break;
		case U0: t += ".d8 mg_l_" + hex8(cg) + ",nest_l2_" + hex8(0) + "-nest_L2_" + hex8(0) + "\n"; uses.push_back({ pos, -1, cg }); put(0); put(0); cn++; break;
		}
	}
	for (auto& u : uses)
	{
		int v = u.sec >= 0 ? def[u.sec] : u.which < (int) gpos.size() ? gpos[u.which] : -1;
		if (v < 0 || (u.sec < 0 && !ncall)) bad = true;
		want[u.pos - 0x40] = (uint8_t) v;
	}
	bool ok;
	Bytes o = output(t + ".close\n", 0, ok);
	lab += ": ";
	if (bad) { __vc_assert(!ok, (lab + "a label undefined in its scope, or defined twice: fails").c_str()); __vc_reach("refused"); return; }
	__vc_assert(ok, (lab + "assembles").c_str());
	if (ok) __vc_assert(same(o, want), (lab + "labels of macros are unique to the call").c_str());
	__vc_reach("resolved");
}
// expect: P18_e2e_labels_sh resolved refused
// bounded: P18_e2e_labels_sh programs of four statements
VC_ENTRY(P18_e2e_labels_sh) { labels(4); }
// expect: T18_e2e_labels5_sh resolved refused
// bounded: T18_e2e_labels5_sh programs of five statements
VC_ENTRY(T18_e2e_labels5_sh) { labels(5); }
// many calls: the counter in the name is hexadecimal, eight digits
// expect: P18_e2e_counter_sh counted
// steps: P18_e2e_counter_sh 2000000000
// bounded: P18_e2e_counter_sh a few calls
VC_ENTRY(P18_e2e_counter_sh)
{
	unsigned k = __vc_choose(7, "shard");
	unsigned n = k < 6 ? 12 + k : 257;
	std::string t = head, names;
	t += ".macro test\n@@mainloop: mainloop: .d8 (mainloop-0x40) & 0xFF\n.endmacro\n";
	Bytes want;
	for (unsigned i = 0; i < n; i++) { t += "test\n"; want.push_back((uint8_t) i); }
	for (unsigned i : { 0u, n - 1, n / 2 }) { t += ".d16 test_mainloop_" + hex8(i) + "-0x40\n"; want.push_back(i); want.push_back(i >> 8); }
	bool ok;
	Bytes o = output(t + ".close\n", 0, ok);
	std::string lab = num(n) + " calls: ";
	__vc_assert(ok && same(o, want), (lab + "labels are numbered from 0 in hexadecimal").c_str());
	bool ok2;
	output(t + ".d16 test_mainloop_" + hex8(n) + "\n.close\n", 0, ok2);
	__vc_assert(!ok2, (lab + "the next number does not exist").c_str());
	__vc_reach("counted");
}
// recursion
// expect: P18_e2e_recursion_sh recursed
// bounded: P18_e2e_recursion_sh depths around the limit
VC_ENTRY(P18_e2e_recursion_sh)
{
	unsigned k = __vc_choose(12, "shard");
	static const unsigned depth[] = { 0, 1, 2, 3, 7, 20, 45, 60 };
	std::string lab;
	bool ok;
	if (k < 8)
	{
		Bytes want, o;
		for (unsigned i = depth[k]; i > 0; i--) want.push_back((uint8_t) i);
		o = output(std::string(head) + ".macro rec,n\n.if n > 0\n.d8 n\nrec n-1\n.endif\n.endmacro\nrec " + num(depth[k]) + "\n.close\n", 0, ok);
		__vc_assert(ok && same(o, want), ("recursion of depth " + num(depth[k])).c_str());
	} else if (k < 11)
	{
		// calls nested up to the documented depth
		static const unsigned nest[] = { 30, 90, 127 };
		std::string t = head;
		Bytes want, o;
		for (unsigned i = 0; i <= nest[k - 8]; i++) { t += ".macro m" + num(i) + "\n.d8 " + num(i) + "\n" + (i ? "m" + num(i - 1) + "\n" : "") + ".endmacro\n"; want.insert(want.begin(), (uint8_t) i); }
		o = output(t + "m" + num(nest[k - 8]) + "\n.close\n", 0, ok);
		__vc_assert(ok && same(o, want), (num(nest[k - 8] + 1) + " nested calls assemble").c_str());
	} else
	{
		output(std::string(head) + ".macro m\n.d8 1\nm\n.endmacro\nm\n.close\n", 0, ok);
		__vc_assert(!ok, "endless recursion of a macro fails");
		FileAsm as;
		as.put("x.inc", ".d8 1\n.include \"x.inc\"\n");
		__vc_assert(!as.run(std::string(head) + ".include \"x.inc\"\n.close\n") && !as.exists("out.bin"), "a file that includes itself fails");
	}
	__vc_reach("recursed");
}
// numbers of arguments
// expect: P18_e2e_argcount_sh accepted refused
// bounded: P18_e2e_argcount_sh up to a few parameters
VC_ENTRY(P18_e2e_argcount_sh)
{
	unsigned k = __vc_choose(4 * 5, "shard"), np = k % 4, na = k / 4, form = __vc_choose(6, "form"), place = __vc_choose(5, "place");
	static const char* forms[] = { "1", "1+2", "min(1,2)", "", "(1", "1)" };
	if (form >= 3 && place >= na) return;
	std::string t = std::string(head) + ".macro mac", call = "mac";
	for (unsigned i = 0; i < np; i++) t += ",p" + num(i);
	t += "\n.d8 7";
	for (unsigned i = 0; i < np; i++) t += ",p" + num(i);
	t += "\n.endmacro\n.d8 1\n";
	for (unsigned i = 0; i < na; i++) call += (i ? "," : " ") + std::string(i == place ? forms[form] : "5");
	bool ok, want = np == na && form < 3;
	if (form == 3 && na == 1 && np == 0) want = true;
	Bytes o = output(t + call + "\n.close\n", 0, ok);
	std::string lab = num(np) + " parameters, call '" + call + "': ";
	__vc_assert(ok == want, (lab + (want ? "accepted" : "refused")).c_str());
	if (ok && want)
	{
		Bytes w = { 1, 7 };
		for (unsigned i = 0; i < np; i++) w.push_back(i == place ? form == 0 ? 1 : form == 1 ? 3 : 1 : 5);
		__vc_assert(same(o, w), (lab + "arguments in order").c_str());
		__vc_reach("accepted");
	} else __vc_reach("refused");
}
// malformed definitions and uses
// expect: P18_e2e_reject refused
// bounded: P18_e2e_reject a fixed list of malformed macros
VC_ENTRY(P18_e2e_reject)
{
	static const char* bad[] = {
		".macro m\n.d8 1\n", ".macro m\n.d8 1\n.endmacro\n.macro m\n.d8 2\n.endmacro\nm", ".macro m\n.macro n\n.d8 1\n.endmacro\n.endmacro\nm", ".macro\n.d8 1\n.endmacro", ".macro 5\n.d8 1\n.endmacro",
		".macro m,5\n.d8 1\n.endmacro", "m 5\n.macro m,x\n.d8 x\n.endmacro", ".macro m,x\n.d8 y\n.endmacro\nm 1", ".macro m\n.error \"e\"\n.endmacro\nm", ".macro m\nbogus r0\n.endmacro\nm", ".macro m\nbogus r0\n.endmacro\n.d8 1\nm",
		".endmacro", ".macro m,x\nx\n.endmacro\nm .error \"e\"", "x equ 1\nx equ 2", "x equ x+1", "x equ 1\ny equ x\nx equ 3", ".d8 x\nx equ 1", "@x equ 1\n@X equ 2", "@@x equ 1\n@@x equ 2", "x: .d8 1\nx equ 1\n.d8 x", "x equ 1\nlab: .d8 y", "5 equ 1", "x equ y\ny equ x\n.d8 x",
		".include \"missing.inc\"", ".include", ".include 5", ".include \"bad.inc\"", "x equ 1\n.definelabel y,2\ny equ 3", "@@x equ 1\nlab:\n.d8 @@x", "x equ a b\n.d8 x", ".macro m\n.d8 1\n.endif\n.endmacro\nm",
	};
	unsigned k = __vc_choose(sizeof(bad) / sizeof(*bad), "text");
	FileAsm as;
	as.put("bad.inc", ".d8 1\n.error \"x\"\n");
	bool res = as.run(std::string(head) + ".d8 1\n" + bad[k] + "\n.close\n");
	__vc_assert(!res, (std::string(bad[k]) + ": refused").c_str());
	__vc_assert(!as.exists("out.bin"), (std::string(bad[k]) + ": no output").c_str());
	__vc_reach("refused");
}
// a macro that is only defined, or called in unused blocks, does nothing
// expect: P18_e2e_uncalled done
// bounded: P18_e2e_uncalled a fixed list of bodies
VC_ENTRY(P18_e2e_uncalled)
{
	static const char* ok[] = { ".macro m\nbogus r0\n.endmacro", ".macro m\n.error \"e\"\n.endmacro", ".macro m\n.d8 1\n.endmacro\n.if 0\nm\n.endif", ".macro m\nlab: .d8 1\n.endmacro\nlab:", ".macro m,x\n.arm\n.endmacro\nnop", ".macro m\nx equ 2\n.endmacro\nx equ 3", "; x equ 1\n.definelabel x,4" };
	unsigned k = __vc_choose(7, "text");
	bool res;
	Bytes o = output(std::string(head) + ok[k] + "\n.d8 5\n.close\n", 0, res);
	__vc_assert(res && same(o, k == 4 ? Bytes { 0xC0, 0x46, 5 } : Bytes { 5 }), (std::string(ok[k]) + ": no effect").c_str());
	__vc_reach("done");
}
// equ: every value in every context, as text
// expect: P18_e2e_equtext_sh expanded
// bounded: P18_e2e_equtext_sh fixed replacement texts
VC_ENTRY(P18_e2e_equtext_sh)
{
	static const char* vals[] = { "5", "1+2", "(3", "\"a,b\"", "1,2,3", "r1", "lab", "reads64(\"args\",0)", "-1 ; comment", "+", "e2", "E2+e2", "'c'", "mov r0", "[r1,4]", "0x20" };
	static const char* uses[] = { ".d8 $0", ".d8 2*$0", ".d8 $0)", ".d8 1,$0,2", ".ascii $0", "$0,r1", "ldr r0,$0", ".d8 1$0", ".d8 1 $0 2", "mov r0,$0", ".d8 $0,$0+$0", ".ascii \"e1\" :: .d8 $0", ".if $0 == 3 :: .d8 4 :: .else :: .d8 5 :: .endif", "mac $0", ".d8 $0 :: .d8 7" };
	unsigned k = __vc_choose(16 * 4, "shard"), vi = k % 16, z = k / 16, u = __vc_choose(15, "use");
	if (u == 7) return;
	if (u == 12 && (vi == 6 || vi == 7)) return; // late conditions belong to P12
	int64_t v = (int64_t) __vc_any("v", 64);
	static const char* names[] = { "e1", "@e1", "@@e1", "E1" };
	std::string pre = std::string(head) + "lab:\ne2 equ 6\n.macro mac,x\n.d8 x,x\n.endmacro\n", val = vals[vi];
	std::string plain = val.find(';') != std::string::npos ? "-1 " : val;
	bool ok1, ok2;
	std::string use = z == 3 ? "e1" : names[z];
	Bytes o2 = output(pre + expand(uses[u], { plain }) + "\n.d8 9\n.close\n", v, ok2), o1 = output(pre + names[z] + " equ " + val + "\n" + expand(uses[u], { use }) + "\n.d8 9\n.close\n", v, ok1);
	std::string lab = std::string(names[z]) + " equ " + val + ", used in " + uses[u] + ": ";
	__vc_assert(ok1 == ok2, (lab + "assembles if and only if the replaced text does").c_str());
	if (ok1 && ok2) { __vc_assert(same(o1, o2), (lab + "assembles to the replaced text").c_str()); __vc_reach("expanded"); }
}
// scopes of equs: every sequence of four statements
// expect: P18_e2e_equscope_sh resolved refused
// bounded: P18_e2e_equscope_sh programs of a few statements
VC_ENTRY(P18_e2e_equscope_sh)
{
	enum { EG, ES, EL, UG, US, UL, G, I, N };
	unsigned k = __vc_choose(N * N, "shard"), r = __vc_choose(N * N, "rest");
	unsigned seq[4] = { k % N, k / N, r % N, r / N };
	FileAsm as;
	// the included file defines and uses its own static equ and defines a global one
	as.put("x.inc", "@s equ 0x77\n.d8 @s\nig equ 0x66\n");
	as.put("y.inc", ".d8 @s\n");
	std::string t = head, lab = "statements ";
	int g = -1, s = -1, l = -1;
	bool bad = false, inc = false;
	Bytes want;
	for (unsigned i = 0; i < 4; i++)
	{
		lab += num(seq[i]);
		std::string v = num(i + 1);
		switch (seq[i])
		{
		case EG: t += "Eg equ " + v + "\n"; bad |= g >= 0; g = i + 1; break;
		case ES: t += "@s equ " + v + "\n"; bad |= s >= 0; s = i + 1; break;
		case EL: t += "@@l equ " + v + "\n"; bad |= l >= 0; l = i + 1; break;
		case UG: t += ".d8 eg\n"; bad |= g < 0; want.push_back(g); break;
		case US: t += ".d8 @S\n"; bad |= s < 0; want.push_back(s); break;
		case UL: t += ".d8 @@L\n"; bad |= l < 0; want.push_back(l); break;
		case G: t += "lab" + v + ":\n"; l = -1; break;
		case I: t += inc ? ".d8 ig\n" : ".include \"x.inc\"\n"; want.push_back(inc ? 0x66 : 0x77); inc = true; break;
		}
	}
	bool res = as.run(t + ".close\n");
	lab += ": ";
	if (bad) { __vc_assert(!res && !as.exists("out.bin"), (lab + "an equ used outside its scope or defined twice: fails").c_str()); __vc_reach("refused"); return; }
	__vc_assert(res, (lab + "assembles").c_str());
	if (res) __vc_assert(same(as.get("out.bin")->data, want), (lab + "equs are replaced within their scope").c_str());
	__vc_reach("resolved");
}
// equs given by the caller
// expect: P18_e2e_given given
// bounded: P18_e2e_given names given on the command line, fixed list
VC_ENTRY(P18_e2e_given)
{
	unsigned k = __vc_choose(4, "case");
	FileAsm as;
	if (k != 3) as.a.equList.push_back({ Identifier(k == 2 ? "name" : "NAME"), k == 1 ? "\"ab\"" : k == 2 ? "1,2,lab" : "5" });
	bool res = as.run(std::string(head) + "lab: .d8 Name\n.close\n");
	if (k == 3) __vc_assert(!res, "name not given: fails");
	else __vc_assert(res && same(as.get("out.bin")->data, k == 0 ? Bytes { 5 } : k == 1 ? Bytes { 'a', 'b' } : Bytes { 1, 2, 0x40 }), "equ given by the caller");
	__vc_reach("given");
}
// an included file stands for its text (static names excepted), and what it defines stays defined
// expect: P18_e2e_include_sh included
// bounded: P18_e2e_include_sh include depths of a few files
VC_ENTRY(P18_e2e_include_sh)
{
	static const char* parts[] = { ".d8 1", "x equ 5", ".d8 x", ".macro m,a\n.d8 a\n.endmacro", "m 3", "g: .d8 g", ".thumb\nnop", ".arm\nnop", ".align 4", "@@l: .d8 @@l", "/* c */ .d8 6", ".d8 'a' ; c", ".org org()+2", ".expfunc f(a),a+1\n.d8 f(2)", ".include \"z.inc\"", "" };
	const unsigned N = 16;
	unsigned k = __vc_choose(N * N, "shard"), split = __vc_choose(4, "split"), c = __vc_choose(4, "third");
	c = (c * 4 + (k + k / N + split) % 4) % N;
	unsigned p[3] = { k % N, k / N, c };
	for (int i = 0; i < 3; i++) for (int j = 0; j < i; j++) if (p[i] == p[j]) return;
	std::string a = std::string(parts[p[0]]) + "\n", b = std::string(parts[p[1]]) + (split & 2 ? "" : "\n"), d = std::string(parts[p[2]]) + "\n";
	bool ok[2];
	Bytes o[2];
	for (int i = 0; i < 2; i++)
	{
		FileAsm as;
		as.put("z.inc", "z: .d8 0x33\nzq equ 8\n.d8 zq");
		as.put("x.inc", split & 1 ? a + b : b);
		as.put("y.inc", ".include \"x.inc\"");
		std::string inc = i ? std::string(split & 1 ? ".include \"y.inc\"" : ".include \"x.inc\"") + "\n" : split & 1 ? a + b + "\n" : b + "\n";
		ok[i] = as.run(std::string(head) + (split & 1 ? "" : a) + inc + d + ".close\n");
		if (ok[i]) o[i] = as.get("out.bin")->data;
	}
	std::string lab = num(p[0]) + "," + num(p[1]) + "," + num(p[2]) + (split & 1 ? ", nested" : "") + ": ";
	__vc_assert(ok[0] == ok[1], (lab + "assembles if and only if the text in its place does").c_str());
	if (ok[0] && ok[1]) { __vc_assert(same(o[0], o[1]), (lab + "assembles to the text in its place").c_str()); __vc_reach("included"); }
}
