// P06: expressions have the value C gives them over 64-bit integers, doubles and strings
// assumes: shift amounts outside 0..63 have no defined value
#include "spec_expr.h"
static const char* const binops[] = { "+", "-", "*", "/", "%", "<<", ">>", "<", "<=", ">", ">=", "==", "!=", "&", "^", "|", "&&", "||" };
static const int nb = 18;
// every pair of binary operators, all operand values
// expect: P06_e2e_pairs_sh evaluated
VC_ENTRY(P06_e2e_pairs_sh)
{
	unsigned k = __vc_choose(nb * nb, "shard");
	exprCase(std::string("a ") + binops[k % nb] + " b " + binops[k / nb] + " c", 3);
}
// brackets override precedence
VC_ENTRY(P06_e2e_brackets_sh)
{
	unsigned k = __vc_choose(nb * nb, "shard");
	exprCase(std::string("a ") + binops[k % nb] + " ( b " + binops[k / nb] + " c )", 3);
}
VC_ENTRY(P06_e2e_unary_sh)
{
	static const char* const un[] = { "-", "~", "!", "+" };
	unsigned k = __vc_choose(nb * 4 * 3, "shard"), v = k / (nb * 4);
	k %= nb * 4;
	if (v == 0) exprCase(std::string(un[k % 4]) + " a " + binops[k / 4] + " b", 2);
	if (v == 1) exprCase(std::string("a ") + binops[k / 4] + " " + un[k % 4] + " b", 2);
	if (v == 2) exprCase(std::string(un[k % 4]) + " ( a " + binops[k / 4] + " b )", 2);
}
VC_ENTRY(P06_e2e_ternary_sh)
{
	static const char* const x[] = { "a ? b : c", "a ? b : c ? d : a", "a ? b ? c : d : b", "a == b ? c : d", "a || b ? c : d", "a ? b , c : d", "a ? b + c : b - c", "( a ? b : c ) + d", "a + b ? c : d",
		"a < b ? a : b ? c : d", "a & b ? c | d : c ^ d", "a ? ( b ) : ( c )", "! a ? b : c", "- a ? ~ b : - c", "a ? 1 : 0", "a ? b : c == d", "a ? b : c || d", "a >= b && c < d", "a && b || c && d", "a || b && c || d",
		"a - b - c - d", "a / 3 * 3 + a % 3", "a << 3 >> 2 << 1", "a | b ^ c & d", "a == b != c", "a < b == c > d", "a + b << 2 & c", "- a * - b", "a * b + c * d", "( a + b ) * ( c - d )", "( ( ( a ) ) )",
		"a % 7 - b % 5 + c", "a & 255 == b", "a + 1 << 4", "~ a + 1 == - a", "18446744073709551615 == a", "9223372036854775808 - a", "a ^ b ^ c ^ d", "a & b | c & d", "a <= b == ! ( b < a )" };
	unsigned k = __vc_choose(sizeof(x) / sizeof(x[0]), "shard");
	if (strchr(x[k], ',')) return;
	exprCase(x[k], 4);
}
// constants are folded while parsing; the value must not differ from the late evaluation
VC_ENTRY(P06_e2e_constants_sh)
{
	static const char* const v[] = { "0", "1", "2", "7", "63", "255", "2147483648", "4294967295", "9223372036854775807", "9223372036854775808", "18446744073709551615", "1000000007" };
	unsigned k = __vc_choose(nb * 12, "shard");
	for (int i = 0; i < 12; i++)
	{
		if (binops[k % nb][0] == binops[k % nb][1] && strchr("<>", binops[k % nb][0]) && i > 4) continue;
		exprCase(std::string(v[k / nb]) + " " + binops[k % nb] + " " + v[i], 0);
		if (i < 4 || !strchr("<>", binops[k % nb][0])) exprCase(std::string("- ") + v[k / nb] + " " + binops[k % nb] + " " + v[i] + " ? 5 : 6", 0);
	}
}
// floating point operands: the double arithmetic of C, integers converted to double
static double D(int64_t v) { return (double) v; }
static uint64_t bitsOf(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }
// expect: P06_e2e_float_sh evaluated
VC_ENTRY(P06_e2e_float_sh)
{
	static const char* const ops[] = { "+", "-", "*", "/", "<", "<=", ">", ">=", "==", "!=", "&&", "||" };
	static const char* const shape[][2] = { { "float(a)", "b" }, { "a", "float(b)" }, { "float(a)", "float(b)" } };
	unsigned k = __vc_choose(12 * 3, "shard"), o = k % 12, sh = k / 12;
	int64_t a = (int64_t) __vc_any("a", 64), b = (int64_t) __vc_any("b", 64);
	__vc_abstract_arith(1);
	Asm as;
	as.label("a", a).label("b", b);
	std::string text = std::string(shape[sh][0]) + " " + ops[o] + " " + shape[sh][1], lab = "'" + text + "': ";
	double x = D(a), y = D(b);
	bool res = as.run(std::string(".gba\n") + (o < 4 ? ".double " : ".d64 ") + text + "\n");
	__vc_assert(res && as.size() == 8, (lab + "accepted").c_str());
	if (!res) return;
	uint64_t want = 0;
	switch (o)
	{
	case 0: want = bitsOf(x + y); break;
	case 1: want = bitsOf(x - y); break;
	case 2: want = bitsOf(x * y); break;
	case 3: want = bitsOf(x / y); break;
	case 4: want = x < y; break;
	case 5: want = x <= y; break;
	case 6: want = x > y; break;
	case 7: want = x >= y; break;
	case 8: want = x == y; break;
	case 9: want = x != y; break;
	case 10: want = (x != 0) & (y != 0); break;
	case 11: want = (x != 0) | (y != 0); break;
	}
	__vc_assert(as.u64(0) == want, (lab + "value").c_str());
	__vc_reach("evaluated");
}
static void value(const std::string& pre, const std::string& dir, const std::string& text, uint64_t want, int64_t a = 0, int64_t b = 0, int64_t c = 0, unsigned used = 0)
{
	Asm as;
	if (used > 0) as.label("a", a);
	if (used > 1) as.label("b", b);
	if (used > 2) as.label("c", c);
	std::string lab = "'" + text + "': ";
	bool res = as.run(pre + "\n" + dir + " " + text + "\n");
	__vc_assert(res && as.size() == 8, (lab + "accepted").c_str());
	if (!res) return;
	__vc_assert(as.u64(0) == want, (lab + "value").c_str());
	__vc_reach("evaluated");
}
static void strval(const std::string& text, const std::string& want)
{
	Asm as;
	std::string lab = "'" + text + "': ";
	bool res = as.run(".gba\n.ascii " + text + "\n");
	__vc_assert(res && as.size() == (int64_t) want.size() && memcmp(as.f->buf, want.data(), want.size()) == 0, (lab + "value").c_str());
	__vc_reach("evaluated");
}
static void rejected(const std::string& text)
{
	Asm as;
	bool res = as.run(".gba\n.d64 " + text + "\n");
	__vc_assert(!res && as.f->writes == 0, ("'" + text + "': rejected without output").c_str());
}
// expect: P06_e2e_functions_sh evaluated
VC_ENTRY(P06_e2e_functions_sh)
{
	unsigned k = __vc_choose(22, "shard");
	__vc_abstract_arith(1);
	int64_t a = 0, b = 0, c = 0;
	if (k < 17) a = (int64_t) __vc_any("a", 64);
	auto bc = [&](unsigned n) { b = (int64_t) __vc_any("b", 64); if (n > 2) c = (int64_t) __vc_any("c", 64); };
	std::string g = ".gba";
	switch (k)
	{
	case 0: value(g, ".d64", "abs(a)", a < 0 ? 0 - (uint64_t) a : a, a, 0, 0, 1); break;
	case 1: bc(2); value(g, ".d64", "min(a,b)", a < b ? a : b, a, b, 0, 2); break;
	case 2: bc(3); value(g, ".d64", "min(a,b,c)", std::min(std::min(a, b), c), a, b, c, 3); break;
	case 3: bc(2); value(g, ".d64", "max(a,b)", a > b ? a : b, a, b, 0, 2); break;
	case 4: bc(3); value(g, ".d64", "max(a,b,c)", std::max(std::max(a, b), c), a, b, c, 3); break;
	case 5: value(g, ".d64", "int(a)", a, a, 0, 0, 1); break;
	case 6: value(g, ".d64", "round(a)", a, a, 0, 0, 1); break;
	case 7: value(g, ".double", "float(a)", bitsOf(D(a)), a, 0, 0, 1); break;
	case 8: value(".psx", ".d64", "((hi(a) << 16) + lo(a)) & 0xFFFFFFFF", (uint32_t) a, a, 0, 0, 1); break;
	case 9: value(".psx", ".d64", "lo(a)", (uint64_t) (int64_t) (int16_t) a, a, 0, 0, 1); break;
	case 10: value(".psx", ".d64", "hi(a) & 0xFFFF", ((uint32_t) a + 0x8000) >> 16, a, 0, 0, 1); break;
	case 11: bc(2); value(g, ".double", "max(float(a),b)", bitsOf(D(a) > D(b) ? D(a) : D(b)), a, b, 0, 2); break;
	case 12: bc(2); value(g, ".double", "min(a,float(b))", bitsOf(D(a) < D(b) ? D(a) : D(b)), a, b, 0, 2); break;
	case 13: value(g, ".double", "abs(float(a))", bitsOf(D(a)) & INT64_MAX, a, 0, 0, 1); break;
	case 14: value(g, ".double", "-float(a)", bitsOf(D(a)) ^ (1ull << 63), a, 0, 0, 1); break;
	case 15: value(g, ".d64", "!float(a)", D(a) == 0, a, 0, 0, 1); break;
	case 16: value(".gba\n.expfunc f(x,y),(x ? x * 3 - y : y)\n.expfunc g(x),f(x,1) + f(0,x)", ".d64", "g(a)", a != 0 ? (uint64_t) a * 3 - 1 + a : 1 + (uint64_t) a, a, 0, 0, 1); break;
	case 17: value(".gba\n.expfunc fac(n),n > 1 ? n * fac(n - 1) : 1", ".d64", "fac(10)", 3628800); value(".gba\n.expfunc cat(x,y),x + y", ".d64", "strlen(cat(\"abc\",cat(12,\"z\")))", 6); value(".gba\n.expfunc k(x),5", ".d64", "k(1) + k(\"s\")", 10); break;
	case 18:
	{
		int64_t base = (int64_t) __vc_any("base", 64);
		vc::assume(base > -0x100000000 && base < 0x100000000);
		Asm as;
		as.at(base);
		bool res = as.run(".gba\n.d64 org(),orga(),headersize(),.\nx: .d64 org(x),orga(x),headersize(x),x,org(y),orga(y),headersize(y),defined(x),defined(q)\ny:\n");
		__vc_assert(res && as.size() == 13 * 8, "org(), orga(), headersize(), defined(): accepted");
		if (!res) return;
		uint64_t w[13] = { (uint64_t) base, 0, (uint64_t) base, (uint64_t) base, (uint64_t) base + 32, 32, (uint64_t) base, (uint64_t) base + 32, (uint64_t) base + 104, 104, (uint64_t) base, 1, 0 };
		for (int i = 0; i < 13; i++) __vc_assert(as.u64(i * 8) == w[i], "org(), orga(), headersize(), defined(): value");
		break;
	}
	case 19: value(".arm.little", ".d64", "endianness() == \"little\"", 1); value(".arm.big", ".d64", "(endianness() == \"big\") << 56", 1); value(".n64", ".d64", "(endianness() == \"big\") << 56", 1); value(".psx", ".d64", "endianness() == \"big\"", 0); value(".gba", ".d64", "isarm() * 2 + isthumb()", 1); value(".gba\n.arm", ".d64", "isarm() * 2 + isthumb()", 2); break;
	case 20: for (const char* t : { "abs()", "abs(1,2)", "abs(\"x\")", "min()", "strlen(5)", "strlen()", "substr(\"abc\",4,1)", "substr(\"abc\",-1,1)", "substr(1,2,3)", "find(\"a\")", "nosuch(1)", "version(1)", "hi(1)", "undefinedlabel", "\"abc\" - 1", "1.5 % 2", "1.5 << 1", "~1.5", "\"a\" * \"b\"", "1.5 & 1", "frac(1)", "int(\"x\")" }) rejected(t); break;
	case 21: for (const char* t : { "1 +", "(1", "1)", "1 2", "* 3", "1 ? 2", "1 ? : 2", "1 : 2", "()", "min(1,)", "!", "a b", "1 === 2", "1 <> 2", "0xG", "12q", "0b2", "0o8", "9o", "2b", "1..2", "'ab'", "''" }) rejected(t); break;
	}
}
// expect: P06_e2e_strings_sh evaluated
// bounded: P06_e2e_strings_sh fixed ASCII strings, symbolic integer arguments
VC_ENTRY(P06_e2e_strings_sh)
{
	static const std::string s[] = { "", "a", "b", "ab", "ba", "abc", "abab", "Ab", "aa", "bab", "zzy", "abcabcab" };
	unsigned k = __vc_choose(12, "shard");
	auto q = [](const std::string& x) { return "\"" + x + "\""; };
	auto val = [](const std::string& t, int64_t v) { value(".gba", ".d64", t, (uint64_t) v); };
	const std::string& x = s[k];
	val("strlen(" + q(x) + ")", (int64_t) x.size());
	for (auto& y : s)
	{
		strval(q(x) + " + " + q(y) + " + \"!\"", x + y + "!");
		val(q(x) + " < " + q(y), x < y); val(q(x) + " <= " + q(y), x <= y); val(q(x) + " > " + q(y), x > y); val(q(x) + " >= " + q(y), x >= y); val(q(x) + " == " + q(y), x == y); val(q(x) + " != " + q(y), x != y);
		val("find(" + q(x) + "," + q(y) + ")", (int64_t) x.find(y)); val("rfind(" + q(x) + "," + q(y) + ")", (int64_t) x.rfind(y));
		for (int i = 0; i < 4; i++) { val("find(" + q(x) + "," + q(y) + "," + std::to_string(i) + ")", (int64_t) x.find(y, i)); val("rfind(" + q(x) + "," + q(y) + "," + std::to_string(i) + ")", (int64_t) x.rfind(y, i)); }
	}
	for (size_t i = 0; i <= x.size(); i++) for (int n = 0; n < 5; n++) strval("substr(" + q(x) + "," + std::to_string(i) + "," + std::to_string(n) + ") + \".\"", x.substr(i, n) + ".");
	static const int64_t nums[] = { 0, 1, -1, 42, INT64_MAX, INT64_MIN, 255, 4294967296, -65536, 10, 99, 1000000007 };
	int64_t v = nums[k];
	std::string d = std::to_string(v);
	strval(q(x) + " + (" + (k == 5 ? "1 << 63" : d) + ") + \"e\"", x + d + "e");
	strval("tostring(" + std::string(k == 5 ? "1 << 63" : d) + ")", d);
	val(q(d) + " == " + (k == 5 ? "(1 << 63)" : d), 1);
	val(q("0" + d) + " == " + (k == 5 ? "(1 << 63)" : d), 0);
	std::string h;
	for (uint64_t u = v; u; u >>= 4) h.insert(h.begin(), "0123456789ABCDEF"[u & 15]);
	for (unsigned n = 1; n <= 16; n += 5) { std::string p = h; while (p.size() < n) p = "0" + p; strval("tohex(" + (k == 5 ? "1 << 63" : d) + "," + std::to_string(n) + ")", p); }
	while (h.size() < 8) h = "0" + h;
	strval("tohex(" + (k == 5 ? "1 << 63" : d) + ")", h);
}
// literals in every base; the grid is a bounded set of values around every power of two
// expect: P06_e2e_literals_sh evaluated
// bounded: P06_e2e_literals_sh literals of at most a fixed number of digits
VC_ENTRY(P06_e2e_literals_sh)
{
	unsigned k = __vc_choose(64, "shard");
	for (int dlt = -1; dlt <= 1; dlt++)
	{
		uint64_t v = (1ull << k) + dlt;
		auto in = [](uint64_t x, int base, bool up) { std::string r; do { r.insert(r.begin(), (up ? "0123456789ABCDEF" : "0123456789abcdef")[x % base]); x /= base; } while (x); return r; };
		std::string x = in(v, 16, k & 1), pre = x[0] > '9' ? "0" : "";
		std::string all = in(v, 10, false) + "," + (k & 2 ? "0x" : "0X") + x + "," + pre + x + (k & 4 ? "h" : "H") + "," + (k & 2 ? "0o" : "0O") + in(v, 8, false) + "," + in(v, 8, false) + (k & 4 ? "o" : "O") + "," + (k & 2 ? "0b" : "0B") + in(v, 2, false) + "," + in(v, 2, false) + (k & 4 ? "b" : "B") + ",000" + in(v, 10, false);
		Asm as;
		bool res = as.run(".gba\n.d64 " + all + "\n");
		__vc_assert(res && as.size() == 64, ("literal " + all + ": accepted").c_str());
		if (!res) return;
		for (int i = 0; i < 8; i++) __vc_assert(as.u64(i * 8) == v, ("literal " + all + ": value").c_str());
		__vc_reach("evaluated");
	}
	static const struct { const char* t; double v; } fl[] = { { "2.5", 2.5 }, { "0.1", 0.1 }, { "11.5", 11.5 }, { "0xB.8", 11.5 }, { "314e-2", 3.14 }, { "5e3", 5000 }, { "5e+3", 5000 }, { "0.0", 0 }, { "1.0", 1 }, { "123456789.125", 123456789.125 }, { "1.7976931348623157e308", 1.7976931348623157e308 }, { "1e22", 1e22 }, { "4.9e-324", 4.9e-324 }, { "0.30000000000000004", 0.30000000000000004 }, { "1.5e1", 15 }, { "100.001", 100.001 } };
	if (k < 16) value(".gba", ".double", fl[k].t, bitsOf(fl[k].v));
	static const struct { const char* t; int64_t v; } iv[] = { { "'a'", 97 }, { "'\"'", 34 }, { "' '", 32 }, { "'\xc3\xa4'", 0xe4 }, { "int(2.9)", 2 }, { "int(-2.9)", -2 }, { "round(2.5)", 3 }, { "round(-2.5)", -3 }, { "round(2.49)", 2 }, { "int(1e15)", 1000000000000000 }, { "int(frac(3.25) * 100)", 25 }, { "int(-0.5)", 0 }, { "round(0.5)", 1 }, { "version() / 1000 >= 0", 1 }, { "2.5 * 2 == 5", 1 }, { "7 / 2.0 == 3.5", 1 }, { "0x1e+5", 35 }, { "1eh+5", 35 }, { "0xE-1", 13 }, { "0x1E-0x0e", 16 }, { "1-1", 0 }, { "1-- 1", 2 }, { "0b11+0b1", 4 }, { "0bh", 11 }, { "0b1h", 0xb1 }, { "1e1 == 10", 1 }, { "5+'a'", 102 }, { "'''", 39 } };
	if (k < 28) value(".gba", ".d64", iv[k].t, (uint64_t) iv[k].v);
}
// comparisons of quotients: covers infinities and NaN
VC_ENTRY(P06_e2e_fcompare_sh)
{
	static const char* const ops[] = { "<", "<=", ">", ">=", "==", "!=" };
	unsigned k = __vc_choose(12, "shard"), o = k % 6;
	int64_t a = (int64_t) __vc_any("a", 64), b = (int64_t) __vc_any("b", 64), c = (int64_t) __vc_any("c", 64);
	__vc_abstract_arith(1);
	double x = D(a) / D(b), y = D(c);
	if (k >= 6) std::swap(x, y);
	uint64_t want = o == 0 ? x < y : o == 1 ? x <= y : o == 2 ? x > y : o == 3 ? x >= y : o == 4 ? x == y : x != y;
	value(".gba", ".d64", k < 6 ? std::string("float(a) / b ") + ops[o] + " c" : std::string("c ") + ops[o] + " float(a) / b", want, a, b, c, 3);
}
