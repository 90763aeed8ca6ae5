// Verification intrinsics. Under the verifier (dvc) they are symbolic; compiled natively with
// VC_NATIVE they replay a counterexample file ("name bits hex" lines, in order) on the real code.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
extern "C" {
uint64_t __vc_any(const char* name, unsigned bits);
void __vc_assume(bool c);
void __vc_assert(bool c, const char* label);
void __vc_reach(const char* label);
unsigned __vc_choose(unsigned n, const char* name);
void __vc_note(const char* name, uint64_t v);
uint64_t __vc_concretize(uint64_t v);
int __vc_decide(bool c);
int __vc_native();
int __vc_is_sym(uint64_t v);
void __vc_stop();
int __vc_abstract_arith(int on);  // multiplication and division as uninterpreted functions (re-decided exactly on failure)
}
namespace vc {
template<class T> inline T any(const char* name) { return (T) __vc_any(name, sizeof(T) * 8); }
inline bool anyBool(const char* name) { return (__vc_any(name, 8) & 1) != 0; }
inline unsigned anyBelow(const char* name, unsigned n) { unsigned v = (unsigned) __vc_any(name, 32); __vc_assume(v < n); return v; }
inline void assume(bool c) { __vc_assume(c); }
inline void ensure(bool c, const char* label) { __vc_assert(c, label); }
inline void reach(const char* l) { __vc_reach(l); }
}
#define VC_ENTRY(name) extern "C" __attribute__((used, noinline)) void vc_##name()
