// P13, function contracts of the symbol table: for all file and section numbers, a name denotes the same symbol from two places
// exactly if it is global, or static and the files agree, or local and the sections agree; names ignore case; equs and labels
// exclude each other.
// assumes: file numbers are at least 0 and section numbers at least 0
#include "common.h"
#include "Core/SymbolTable.h"
static const char* const NAMES[6][2] = { { "name", "NaMe" }, { "@name", "@NAME" }, { "@@name", "@@nAME" }, { "_a.1", "_A.1" }, { "@@_", "@@_" }, { "@.x", "@.X" } };
static int any31(const char* n) { return (int) (__vc_any(n, 32) & 0x7FFFFFFF); }
// expect: P13_fn_scope_sh same different
VC_ENTRY(P13_fn_scope_sh)
{
	unsigned k = __vc_choose(6 * 3 * 2, "shard"), n = k % 6, m = k / 6 % 3, other = k / 18;
	SymbolTable t;
	int f1 = any31("f1"), s1 = any31("s1"), f2 = any31("f2"), s2 = any31("s2");
	// other symbols must not matter
	if (other)
	{
		int f3 = any31("f3"), s3 = any31("s3");
		t.getLabel(Identifier("name2"), f3, s3); t.getLabel(Identifier("@name2"), f3, s3); t.getLabel(Identifier("@@nam"), f3, s3);
	}
	std::string a = NAMES[n][0], b = m == 0 ? NAMES[n][0] : m == 1 ? NAMES[n][1] : "x" ;
	if (m == 2) b = a + "x";
	int kind = a[0] != '@' ? 0 : a[1] != '@' ? 1 : 2;
	bool equal = m != 2 && (kind == 0 || (kind == 1 ? __vc_decide(f1 == f2) : __vc_decide(s1 == s2)));
	auto l1 = t.getLabel(Identifier(a), f1, s1);
	__vc_assert(l1 != nullptr && !l1->isDefined(), "symbols: a new name is an undefined label");
	if (!l1) return;
	__vc_assert(t.symbolExists(Identifier(b), f2, s2) == equal, "symbols: visible exactly in its scope");
	auto l2 = t.getLabel(Identifier(b), f2, s2);
	__vc_assert(l2 != nullptr && (l1 == l2) == equal, "symbols: the same label exactly in the same scope");
	int64_t v = (int64_t) __vc_any("v", 64);
	l1->setValue(v); l1->setDefined(true);
	if (l2) __vc_assert(equal ? l2->isDefined() && l2->getValue() == v : !l2->isDefined(), "symbols: value of the label");
	__vc_assert(t.getLabel(Identifier(a), f1, s1) == l1, "symbols: a label stays");
	__vc_reach(equal ? "same" : "different");
}
// expect: P13_fn_equ_sh same different
VC_ENTRY(P13_fn_equ_sh)
{
	unsigned k = __vc_choose(6 * 3, "shard"), n = k % 6, m = k / 6;
	SymbolTable t;
	int f1 = any31("f1"), s1 = any31("s1"), f2 = any31("f2"), s2 = any31("s2");
	size_t ref = (size_t) __vc_any("ref", 64), got = 0;
	std::string a = NAMES[n][0], b = m == 1 ? NAMES[n][1] : a;
	if (m == 2) b = a + "0";
	int kind = a[0] != '@' ? 0 : a[1] != '@' ? 1 : 2;
	bool equal = m != 2 && (kind == 0 || (kind == 1 ? __vc_decide(f1 == f2) : __vc_decide(s1 == s2)));
	__vc_assert(t.addEquation(Identifier(a), f1, s1, ref), "equ: a new name");
	bool found = t.findEquation(Identifier(b), f2, s2, got);
	__vc_assert(found == equal, "equ: visible exactly in its scope");
	if (found) __vc_assert(got == ref, "equ: its text");
	__vc_assert((t.getLabel(Identifier(b), f2, s2) == nullptr) == equal, "equ: the name of an equ is no label");
	__vc_assert(!t.addEquation(Identifier(a), f1, s1, 0), "equ: not defined twice");
	__vc_assert(!t.addEquation(Identifier(b), f2, s2, 0), "equ: no equ with the name of a label or equ");
	__vc_reach(equal ? "same" : "different");
}
// all names of up to two (thorough: three) characters behind up to two @
static void names(unsigned maxLen)
{
	unsigned k = __vc_choose((maxLen + 1) * 3, "shard"), len = k % (maxLen + 1), pre = k / (maxLen + 1);
	char c[4] = {};
	std::string s(pre, '@');
	for (unsigned i = 0; i < len; i++) { c[i] = (char) vc::any<uint8_t>("c"); __vc_assume(c[i] != 0); s += c[i]; }
	bool good = len > 0;
	for (unsigned i = 0; i < len; i++)
	{
		bool d = (c[i] >= '0') & (c[i] <= '9'), a = ((c[i] >= 'a') & (c[i] <= 'z')) | ((c[i] >= 'A') & (c[i] <= 'Z')) | (c[i] == '_') | (c[i] == '.');
		good = good & (a | (d & (i > 0)));
	}
	if (len && pre < 2) __vc_assume(c[0] != '@');
	bool v = SymbolTable::isValidSymbolName(Identifier(s));
	__vc_assert(v == good, "names: letters, digits, _ and . behind up to two @, not starting with a digit");
	__vc_reach(v ? "valid" : "invalid");
}
// expect: P13_fn_names_sh valid invalid
// bounded: P13_fn_names_sh names of up to two characters, all bytes
VC_ENTRY(P13_fn_names_sh) { names(2); }
// bounded: T13_fn_names_sh names of up to three characters, all bytes
VC_ENTRY(T13_fn_names_sh) { names(3); }
