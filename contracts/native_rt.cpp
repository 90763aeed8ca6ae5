// native implementation of the verification intrinsics: replays the values of a counterexample
#include "vc.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fstream>
#include <map>
#include <sstream>
#include <vector>
static std::map<std::string, std::vector<uint64_t>> vals;
static std::map<std::string, size_t> used;
static bool failed = false;
static uint64_t next(const char* n) { auto& v = vals[n]; size_t i = used[n]++; return i < v.size() ? v[i] : 0; }
extern "C" {
uint64_t __vc_any(const char* name, unsigned bits) { uint64_t v = next(name); return bits >= 64 ? v : v & ((1ull << bits) - 1); }
void __vc_assume(bool c) { if (!c) { printf("REPLAY assume-not-met\n"); fflush(stdout); _Exit(failed ? 1 : 77); } }
void __vc_assert(bool c, const char* label) { if (!c) { printf("REPLAY FAILED %s\n", label); fflush(stdout); failed = true; } }
void __vc_reach(const char* label) {}
unsigned __vc_choose(unsigned n, const char* name) { return (unsigned) next(name); }
void __vc_note(const char* name, uint64_t v) { printf("NOTE %s = 0x%llx (%lld)\n", name, (unsigned long long) v, (long long) v); }
uint64_t __vc_concretize(uint64_t v) { return v; }
int __vc_decide(bool c) { return c; }
int __vc_abstract_arith(int) { return 0; }
int __vc_native() { return 1; }
int __vc_is_sym(uint64_t v) { return 0; }
void __vc_stop() { fflush(stdout); _Exit(failed ? 1 : 0); }
}
int main(int argc, char** argv)
{
	std::ifstream in(argv[2]); std::string line;
	while (std::getline(in, line)) { if (line.empty() || line[0] == '#') continue; std::istringstream is(line); std::string n, w, v; is >> n >> w >> v; vals[n].push_back(strtoull(v.c_str(), nullptr, 16)); }
	auto f = (void (*)()) dlsym(nullptr, argv[1]); if (!f) { printf("no entry %s\n", argv[1]); return 3; }
	f(); fflush(stdout); _Exit(failed ? 1 : 0);
}
extern "C" { int __tfm_symhex = 0; }
