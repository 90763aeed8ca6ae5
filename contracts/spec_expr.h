// Independent evaluator of armips expressions over 64-bit integers: C precedence and associativity,
// two's complement wrap-around, logical right shift, division by zero yielding -1 (and the dividend for %).
#pragma once
#include "common.h"
struct SpecExpr
{
	const std::vector<std::string>& t;
	const int64_t* env;         // values of the single-letter operands a..h
	size_t p = 0;
	bool defined = true;        // every shift amount within 0..63
	SpecExpr(const std::vector<std::string>& tokens, const int64_t* e) : t(tokens), env(e) {}
	bool is(const char* s) const { return p < t.size() && t[p] == s; }
	static int prec(const std::string& o)
	{
		static const char* const lv[][5] = { { "||" }, { "&&" }, { "|" }, { "^" }, { "&" }, { "==", "!=" }, { "<", "<=", ">", ">=" }, { "<<", ">>" }, { "+", "-" }, { "*", "/", "%" } };
		for (int i = 0; i < 10; i++) for (auto s : lv[i]) if (s && o == s) return i + 1;
		return 0;
	}
	int64_t apply(const std::string& o, int64_t x, int64_t y)
	{
		uint64_t a = x, b = y;
		if (o == "+") return a + b;
		if (o == "-") return a - b;
		if (o == "*") return a * b;
		if (o == "/") { if (y == 0) return -1; if (x == INT64_MIN && y == -1) return x; return x / y; }
		if (o == "%") { if (y == 0) return x; if (x == INT64_MIN && y == -1) return 0; return x % y; }
		if (o == "<<") { defined = defined & (b < 64); return a << (b & 63); }
		if (o == ">>") { defined = defined & (b < 64); return a >> (b & 63); }
		if (o == "<") return x < y;
		if (o == "<=") return x <= y;
		if (o == ">") return x > y;
		if (o == ">=") return x >= y;
		if (o == "==") return x == y;
		if (o == "!=") return x != y;
		if (o == "&") return a & b;
		if (o == "^") return a ^ b;
		if (o == "|") return a | b;
		if (o == "&&") return (x != 0) & (y != 0);
		return (x != 0) | (y != 0);
	}
	int64_t primary()
	{
		std::string s = t[p++];
		if (s == "(") { int64_t v = conditional(); p++; return v; }
		if (s == "-") return 0 - (uint64_t) primary();
		if (s == "~") return ~primary();
		if (s == "!") return primary() == 0;
		if (s == "+") return primary();
		if (s[0] >= 'a' && s[0] <= 'h') return env[s[0] - 'a'];
		uint64_t v = 0;
		for (char c : s) v = v * 10 + (c - '0');
		return v;
	}
	int64_t binary(int min)
	{
		int64_t l = primary();
		while (p < t.size())
		{
			int pr = prec(t[p]);
			if (pr == 0 || pr < min) break;
			std::string o = t[p++];
			int64_t r = binary(pr + 1);
			l = apply(o, l, r);
		}
		return l;
	}
	int64_t conditional()
	{
		int64_t c = binary(1);
		if (!is("?")) return c;
		p++;
		int64_t x = conditional();
		p++;
		int64_t y = conditional();
		return c != 0 ? x : y;
	}
};
inline std::vector<std::string> words(const char* s)
{
	std::vector<std::string> r;
	std::string cur;
	for (; ; s++)
	{
		if (*s == ' ' || !*s) { if (!cur.empty()) r.push_back(cur); cur.clear(); if (!*s) return r; }
		else cur += *s;
	}
}
// runs ".d64 <text>" with labels a.. bound to env and compares with the evaluator
inline void exprCase(const std::string& text, unsigned used)
{
	static const char* const names[] = { "a", "b", "c", "d" };
	__vc_abstract_arith(1);
	int64_t env[8] = {};
	Asm as;
	for (unsigned i = 0; i < used; i++) { env[i] = (int64_t) __vc_any(names[i], 64); as.label(names[i], env[i]); }
	auto w = words(text.c_str());
	SpecExpr e(w, env);
	int64_t want = e.conditional();
	vc::assume(e.defined);
	std::string lab = "'" + text + "': ";
	bool res = as.run(".gba\n.d64 " + text + "\n");
	__vc_assert(res && as.size() == 8, (lab + "accepted").c_str());
	if (!res) return;
	__vc_assert(as.u64(0) == (uint64_t) want, (lab + "value").c_str());
	__vc_reach("evaluated");
}
