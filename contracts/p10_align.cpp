// P10: .align, .aligna and .fill write exactly the bytes that are missing
// assumes: memory addresses are not negative and below 2^40
#include "common.h"
static std::string num(uint64_t v) { std::string n; do { n.insert(n.begin(), char('0' + v % 10)); v /= 10; } while (v); return n; }
// every alignment up to 128, every address and file position
// expect: P10_e2e_align_sh aligned
// bounded: P10_e2e_align_sh alignments up to a fixed size at symbolic positions
VC_ENTRY(P10_e2e_align_sh)
{
	unsigned k = __vc_choose(9 * 2 * 3, "shard");
	unsigned lg = k % 9, phys = k / 9 % 2, form = k / 18;
	if (lg == 8 && form != 0) return;
	unsigned n = lg == 8 ? 4 : 1u << lg;
	int64_t fill = (int64_t) __vc_any("fill", 64), head = (int64_t) ((__vc_any("head", 64) & 0xFFFFFFFF) << 8);
	// file position and low bits of the header size
	unsigned offs[] = { 0, 1, 2, 3, n / 2, n / 2 + 1, n - 1, n > 1 ? n - 2 : 5, n + 1 };
	unsigned r = __vc_choose(9, "position"), o = __vc_choose(2, "other");
	unsigned p = phys ? offs[r] : o * 5, h = phys ? o * 3 : offs[r];
	FileAsm as;
	std::string text = ".sym off\n.gba\n.create \"out.bin\"," + as.val(head + h) + "\n.orga " + num(p) + "\n" + (phys ? ".aligna" : ".align");
	std::string shown = std::string(phys ? ".aligna" : ".align") + (lg == 8 ? "" : " " + num(n)) + (form ? ",fill" : ""), lab = "'" + shown + "' at file position " + num(p) + ", address ...+" + num(h + p) + ": ";
	if (lg != 8) text += " " + num(n) + (form == 1 ? "," + as.val(fill) : form == 2 ? ",fillvalue" : "");
	if (form == 2) text = ".definelabel fillvalue," + as.val(fill) + "\n" + text;
	bool res = as.run(text + "\nlab: .d64 lab\n.close\n");
	__vc_assert(res, (lab + "accepted").c_str());
	if (!res) return;
	auto f = as.get("out.bin");
	unsigned at = phys ? p : p + h, pad = (n - at % n) % n;
	std::vector<uint8_t> got;
	bool seq = true;
	for (auto& op : f->log) for (size_t i = 0; i < op.bytes.size(); i++) { seq &= op.pos + (int64_t) i == (int64_t) (p + got.size()); got.push_back(op.bytes[i]); }
	__vc_assert(seq && got.size() == pad + 8, (lab + "padding up to the next multiple").c_str());
	if (got.size() != pad + 8) return;
	bool good = true;
	for (unsigned i = 0; i < pad; i++) good &= got[i] == (form ? (uint8_t) fill : 0);
	__vc_assert(good, (lab + "padding bytes").c_str());
	uint64_t v = 0;
	for (int i = 7; i >= 0; i--) v = v << 8 | got[pad + i];
	__vc_assert(v == (uint64_t) (head + h + p + pad), (lab + "address after the padding").c_str());
	__vc_reach("aligned");
}
// alignments that are no power of two
// expect: P10_e2e_alignbad rejected
VC_ENTRY(P10_e2e_alignbad)
{
	unsigned phys = __vc_choose(2, "directive");
	FileAsm as;
	int64_t n = (int64_t) __vc_any("n", 64);
	__vc_assume(n <= 0 || (n & (n - 1)) != 0);
	bool res = as.run(std::string(".gba\n.create \"out.bin\",0\n.d8 1,2,3\n") + (phys ? ".aligna " : ".align ") + as.val(n) + "\n.close\n");
	__vc_assert(!res && !as.exists("out.bin"), "an alignment that is not a power of two is rejected");
	__vc_reach("rejected");
}
// .fill
// expect: P10_e2e_fill_sh filled
// bounded: P10_e2e_fill_sh fill lengths up to a few hundred bytes
VC_ENTRY(P10_e2e_fill_sh)
{
	static const unsigned sizes[] = { 0, 1, 2, 3, 7, 16, 100, 127, 128, 129, 130, 255, 256, 257, 384, 400 };
	unsigned k = __vc_choose(16 * 4, "shard"), n = sizes[k % 16], form = k / 16;
	FileAsm as;
	int64_t fill = (int64_t) __vc_any("fill", 64), h = (int64_t) (__vc_any("h", 64) & 0xFFFFFFFFFF);
	std::string text = std::string(form & 1 ? "defs " : ".fill ") + num(n) + (form & 2 ? "," + as.val(fill) : ""), lab = std::string(form & 1 ? "'defs " : "'.fill ") + num(n) + (form & 2 ? ",value': " : "': ");
	bool res = as.run(".sym off\n.gba\n.create \"out.bin\"," + as.val(h) + "\n.d8 0xA5\n" + text + "\nlab: .d64 lab\n.close\n");
	__vc_assert(res, (lab + "accepted").c_str());
	if (!res) return;
	auto f = as.get("out.bin");
	__vc_assert(f->data.size() == n + 9, (lab + "length").c_str());
	if (f->data.size() != n + 9) return;
	bool good = f->data[0] == 0xA5;
	for (unsigned i = 0; i < n; i++) good &= f->data[1 + i] == (form & 2 ? (uint8_t) fill : 0);
	__vc_assert(good, (lab + "fill bytes").c_str());
	uint64_t v = 0;
	for (int i = 7; i >= 0; i--) v = v << 8 | f->data[n + 1 + i];
	__vc_assert(v == (uint64_t) (h + n + 1), (lab + "address after the fill").c_str());
	__vc_reach("filled");
}
// negative lengths and missing or wrong operands
// expect: P10_e2e_reject rejected
// bounded: P10_e2e_reject a fixed list of malformed directives
VC_ENTRY(P10_e2e_reject)
{
	static const char* const cs[] = { ".fill", ".fill \"x\"", ".fill 2,\"x\"", ".fill undefinedlabel", ".fill 1,2,3", ".align 3,1", ".align \"4\"", ".align 4,undefinedlabel", ".align 1,2,3", ".fill 1.5", ".align 2.0", ".fill 4 5", ".skip", ".skip \"a\"", ".skip undefinedlabel", ".fill 2,undefinedlabel" };
	unsigned k = __vc_choose(sizeof(cs) / sizeof(cs[0]) + 2, "case");
	FileAsm as;
	int64_t n = (int64_t) __vc_any("n", 64);
	__vc_assume(n < 0);
	std::string t = k < sizeof(cs) / sizeof(cs[0]) ? std::string(cs[k]) : (k & 1 ? ".fill " : "defs ") + as.val(n) + ",7";
	bool res = as.run(".gba\n.create \"out.bin\",0x8000000\n.d8 1,2,3\n" + t + "\n.d8 4\n.close\n");
	__vc_assert(!res && !as.exists("out.bin"), ("'" + (k < sizeof(cs) / sizeof(cs[0]) ? t : std::string(".fill negative")) + "': rejected without output").c_str());
	__vc_reach("rejected");
}
