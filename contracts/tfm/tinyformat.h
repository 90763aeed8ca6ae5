// Stand-in for the bundled third-party tinyformat library, used only in the verifier's build (the
// stream machinery behind the original is library machine code).  Implements the printf subset the
// repository uses.  A number that is symbolic prints as "?" (texts are only compared when concrete).
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <string_view>
#include <type_traits>
#include <algorithm>
#include <cassert>
#include <sstream>
#include <iosfwd>
#include <iostream>
extern "C" int __vc_is_sym(uint64_t v);
extern "C" int __tfm_symhex;	// set by a contract that compares formatted addresses: %08X of a symbolic 32-bit number becomes its digits
extern "C" int __vc_fmt_double(char* out, const char* fmt, double v);
namespace tinyformat {
namespace detail {
struct Spec { bool zero = false, left = false, alt = false; int width = 0, prec = -1; char conv = 0; };
inline void pad(std::string& out, const std::string& s, const Spec& sp)
{
	int n = sp.width - (int) s.size();
	if (n <= 0) { out += s; return; }
	if (sp.left) { out += s; out.append(n, ' '); }
	else if (sp.zero) { size_t k = (!s.empty() && s[0] == '-') ? 1 : 0; out += s.substr(0, k); out.append(n, '0'); out += s.substr(k); }
	else { out.append(n, ' '); out += s; }
}
inline std::string num(unsigned long long u, unsigned base, bool upper)
{
	char b[72]; int p = 71; b[p] = 0;
	do { unsigned d = (unsigned) (u % base); b[--p] = (char) (d < 10 ? '0' + d : (upper ? 'A' : 'a') + d - 10); u /= base; } while (u);
	return std::string(b + p);
}
template<class T, class = void> struct HasString : std::false_type {};
template<class T> struct HasString<T, std::void_t<decltype(std::declval<const T&>().string())>> : std::true_type {};
template<class T> inline void one(std::string& out, const Spec& sp, const T& v)
{
	if constexpr (std::is_convertible_v<const T&, std::string_view>) { std::string_view s = v; std::string t(s); if (sp.prec >= 0 && t.size() > (size_t) sp.prec) t.resize(sp.prec); pad(out, t, sp); }
	else if constexpr (std::is_same_v<T, bool>) pad(out, sp.conv == 's' ? (v ? "true" : "false") : (v ? "1" : "0"), sp);
	else if constexpr (std::is_enum_v<T>) one(out, sp, (long long) v);
	else if constexpr (std::is_floating_point_v<T>)
	{
		uint64_t bits = 0; double dv = v; memcpy(&bits, &dv, 8);
		if (__vc_is_sym(bits)) { out += "?"; return; }
		char f[32], b[64]; int p = 0; f[p++] = '%'; if (sp.alt) f[p++] = '#';
		if (sp.prec >= 0) { f[p++] = '.'; if (sp.prec >= 10) f[p++] = (char) ('0' + sp.prec / 10); f[p++] = (char) ('0' + sp.prec % 10); }
		f[p++] = sp.conv == 'd' || sp.conv == 's' || sp.conv == 'X' || sp.conv == 'x' ? 'g' : sp.conv; f[p] = 0;
		__vc_fmt_double(b, f, dv); pad(out, b, sp);
	}
	else if constexpr (std::is_integral_v<T>)
	{
		if (__vc_is_sym((uint64_t) v))
		{
			if (!__tfm_symhex || sp.conv != 'X' || sp.width != 8 || !sp.zero || sizeof(T) < 4 || (uint64_t) v >> 32) { out += "?"; return; }
			for (int sh = 28; sh >= 0; sh -= 4) { int d = (int) ((uint64_t) v >> sh & 15); out += (char) ('0' + d + ((9 - d) >> 31 & 7)); }
			return;
		}
		if (sp.conv == 'c' || (sizeof(T) == 1 && (sp.conv == 's') && (std::is_same_v<T, char> || std::is_same_v<T, signed char> || std::is_same_v<T, unsigned char>))) { pad(out, std::string(1, (char) v), sp); return; }
		std::string s;
		if (sp.conv == 'x' || sp.conv == 'X') s = num((unsigned long long) (std::make_unsigned_t<T>) v, 16, sp.conv == 'X');
		else if (sp.conv == 'o') s = num((unsigned long long) (std::make_unsigned_t<T>) v, 8, false);
		else if (std::is_signed_v<T> && (long long) v < 0) s = "-" + num(0ull - (unsigned long long) (long long) v, 10, false);
		else s = num((unsigned long long) v, 10, false);
		pad(out, s, sp);
	}
	else if constexpr (HasString<T>::value) { std::string t(v.string()); pad(out, t, sp); }
	else out += "?";
}
template<class T> inline int asInt(const T& v) { if constexpr (std::is_integral_v<T>) return (int) v; else return 0; }
struct Arg { const void* p; void (*f)(std::string&, const Spec&, const void*); int (*i)(const void*); };
inline void run(std::string& out, const char* f, const Arg* a, int n)
{
	int k = 0;
	while (*f)
	{
		if (*f != '%') { out += *f++; continue; }
		f++;
		if (*f == '%') { out += '%'; f++; continue; }
		Spec sp;
		for (;; f++) { if (*f == '0') sp.zero = true; else if (*f == '-') sp.left = true; else if (*f == '#') sp.alt = true; else if (*f == '+' || *f == ' ') {} else break; }
		if (*f == '*') { if (k < n) { sp.width = a[k].i(a[k].p); k++; } f++; }
		else while (*f >= '0' && *f <= '9') sp.width = sp.width * 10 + (*f++ - '0');
		if (*f == '.') { f++; sp.prec = 0; while (*f >= '0' && *f <= '9') sp.prec = sp.prec * 10 + (*f++ - '0'); }
		while (*f == 'l' || *f == 'h' || *f == 'z' || *f == 'j' || *f == 't' || *f == 'L') f++;
		sp.conv = *f == 'S' ? 's' : (*f == 'i' || *f == 'u' ? 'd' : *f);
		if (*f) f++;
		if (k < n) { a[k].f(out, sp, a[k].p); k++; }
	}
}
template<class T> inline Arg mk(const T& v)
{
	return Arg{ (const void*) &v, [](std::string& o, const Spec& s, const void* p) { one<T>(o, s, *(const T*) p); }, [](const void* p) { return asInt<T>(*(const T*) p); } };
}
template<size_t N> inline Arg mk(const char (&v)[N])
{
	return Arg{ (const void*) v, [](std::string& o, const Spec& s, const void* p) { const char* q = (const char*) p; one<const char*>(o, s, q); }, [](const void*) { return 0; } };
}
}
template<class... A> inline std::string format(const char* fmt, const A&... args)
{
	std::string out;
	if constexpr (sizeof...(A) == 0) detail::run(out, fmt, nullptr, 0);
	else { detail::Arg a[] = { detail::mk(args)... }; detail::run(out, fmt, a, (int) sizeof...(A)); }
	return out;
}
template<class... A> inline std::string format(const std::string& fmt, const A&... args) { return format(fmt.c_str(), args...); }
template<class... A> inline void format(std::ostream&, const char*, const A&...) {}
template<class... A> inline void printf(const char*, const A&...) {}
}
namespace tfm = tinyformat;
