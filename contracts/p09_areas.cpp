// P09: areas bound their content, regions hand out disjoint space
// assumes: header sizes are not negative and below 2^39
// assumes: content does not move the output position with .org inside an area
#include "common.h"
static std::string num(uint64_t v) { std::string n; do { n.insert(n.begin(), char('0' + v % 10)); v /= 10; } while (v); return n; }
static std::string bytes(unsigned n, unsigned first) { std::string t = ".d8 "; for (unsigned i = 0; i < n; i++) t += (i ? "," : "") + num(first + i); return n ? t + "\n" : ""; }
static int64_t anyHead(const char* n) { return (int64_t) (__vc_any(n, 64) & 0x7FFFFFFFFF); }
static int64_t le(const std::vector<uint8_t>& b, size_t o, int n) { uint64_t v = 0; for (int i = n - 1; i >= 0; i--) v = v << 8 | b[o + i]; return (int64_t) v; }
typedef std::vector<std::pair<int64_t, uint8_t>> Log;
static Log logOf(vfs::File& f) { Log r; for (auto& op : f.log) for (size_t i = 0; i < op.bytes.size(); i++) r.push_back({ op.pos + (int64_t) i, op.bytes[i] }); return r; }

// one area of any size around n bytes
// expect: P09_e2e_area_sh fits overflow
VC_ENTRY(P09_e2e_area_sh)
{
	unsigned k = __vc_choose(8 * 2 * 2, "shard"), n = k % 8, region = k / 8 % 2, late = k / 16;
	FileAsm as;
	int64_t h = anyHead("h"), s = (int64_t) __vc_any("s", 64);
	__vc_assume(s < 1ll << 39);
	std::string size = late ? "sizelabel-5" : as.val(s);
	std::string text = ".sym off\n.gba\n.create \"out.bin\"," + as.val(h) + "\n.d8 0xA5\n" + (region ? ".region " : ".area ") + size + "\n" + bytes(n, 1) + (region ? ".endregion\n" : ".endarea\n") + "lab: .d64 lab\n.close\n";
	if (late) { __vc_assume(s > -(1ll << 60)); text += ".definelabel sizelabel," + as.val(s + 5) + "\n"; }
	bool res = as.run(text);
	std::string lab = std::string(region ? ".region" : ".area") + " around " + num(n) + " bytes: ";
	if (!__vc_decide(s >= (int64_t) n))
	{
		__vc_assert(!res && !as.exists("out.bin"), (lab + "content larger than the area is rejected without output").c_str());
		__vc_reach("overflow");
		return;
	}
	__vc_assert(res, (lab + "accepted").c_str());
	if (!res) return;
	Log g = logOf(*as.get("out.bin"));
	__vc_assert(g.size() == n + 9, (lab + "bytes written").c_str());
	if (g.size() != n + 9) return;
	bool good = g[0].first == 0 && g[0].second == 0xA5;
	for (unsigned i = 0; i < n; i++) good &= (g[1 + i].first == 1 + i) & (g[1 + i].second == 1 + i);
	int64_t next = region ? 1 + s : 1 + (int64_t) n;     // a region reserves its whole size
	uint64_t v = 0;
	for (int i = 7; i >= 0; i--) { v = v << 8 | g[n + 1 + i].second; good &= g[n + 1 + i].first == next + i; }
	__vc_assert(good, (lab + "content and what follows are in place").c_str());
	__vc_assert(v == (uint64_t) (h + next), (lab + "address after the area").c_str());
	__vc_reach("fits");
}
// areas with fill value
// expect: P09_e2e_fill_sh filled
// bounded: P09_e2e_fill_sh areas of a few bytes
VC_ENTRY(P09_e2e_fill_sh)
{
	static const unsigned sizes[] = { 0, 1, 2, 5, 8, 63, 64, 65, 128, 130, 200 };
	unsigned k = __vc_choose(11 * 4 * 2, "shard"), s = sizes[k % 11], n = k / 11 % 4 * 2, region = k / 44;
	FileAsm as;
	int64_t h = anyHead("h"), fill = (int64_t) __vc_any("fill", 64);
	bool res = as.run(".sym off\n.gba\n.create \"out.bin\"," + as.val(h) + "\n.d8 0xA5\n" + (region ? ".region " : ".area ") + num(s) + "," + as.val(fill) + "\n" + bytes(n, 1) + (region ? ".endregion\n" : ".endarea\n") + "lab: .d64 lab\n.close\n");
	std::string lab = std::string(region ? ".region " : ".area ") + num(s) + ",fill around " + num(n) + " bytes: ";
	if (s < n) { __vc_assert(!res && !as.exists("out.bin"), (lab + "rejected").c_str()); return; }
	__vc_assert(res, (lab + "accepted").c_str());
	if (!res) return;
	std::vector<uint8_t> d;
	bool seq = true;
	for (auto& b : logOf(*as.get("out.bin"))) { seq &= b.first == (int64_t) d.size(); d.push_back(b.second); }
	__vc_assert(seq && d.size() == 1 + s + 8, (lab + "size").c_str());
	if (d.size() != 1 + s + 8) return;
	bool good = d[0] == 0xA5;
	for (unsigned i = 0; i < s; i++) good &= d[1 + i] == (i < n ? (uint8_t) (1 + i) : (uint8_t) fill);
	__vc_assert(good, (lab + "content, then fill bytes").c_str());
	__vc_assert(le(d, 1 + s, 8) == h + 1 + s, (lab + "address after the area").c_str());
	__vc_reach("filled");
}
// nested areas: both bounds hold
// expect: P09_e2e_nested_sh fits overflow
// bounded: P09_e2e_nested_sh two levels of nesting
VC_ENTRY(P09_e2e_nested_sh)
{
	unsigned k = __vc_choose(4 * 4, "shard"), a = k % 4, b = k / 4;
	FileAsm as;
	int64_t s1 = (int64_t) __vc_any("s1", 64), s2 = (int64_t) __vc_any("s2", 64);
	bool res = as.run(".sym off\n.gba\n.create \"out.bin\",0\n.area " + as.val(s1) + "\n" + bytes(a, 1) + ".area " + as.val(s2) + "\n" + bytes(b, 10) + ".endarea\n" + bytes(1, 20) + ".endarea\n.close\n");
	std::string lab = "nested areas around " + num(a) + "+" + num(b) + "+1 bytes: ";
	bool fits = __vc_decide(s1 >= (int64_t) (a + b + 1)) && __vc_decide(s2 >= (int64_t) b);
	__vc_assert(res == fits && as.exists("out.bin") == fits, (lab + "accepted exactly if both are large enough").c_str());
	if (fits && res)
	{
		__vc_assert(as.get("out.bin")->data.size() == a + b + 1, (lab + "size").c_str());
		__vc_reach("fits");
	}
	else __vc_reach("overflow");
}
// two regions of any size, three auto regions: every auto region gets its own space inside a region
static void autoRegions(bool anyHeader)
{
	static const unsigned sizes[][3] = { { 1, 1, 1 }, { 4, 4, 4 }, { 2, 7, 1 }, { 9, 2, 5 }, { 0, 3, 3 }, { 1, 8, 8 } };
	unsigned k = __vc_choose(6 * 3 * 2 * 2, "shard");
	const unsigned* n = sizes[k % 6];
	unsigned order = k / 6 % 3, c = k / 18 % 2 * 3, swap = k / 36;
	FileAsm as;
	int64_t h = anyHeader ? anyHead("h") : 0x8000000, s[2];
	s[0] = (int64_t) (__vc_any("s1", 64) & 0x3F); s[1] = (int64_t) (__vc_any("s2", 64) & 0x3F);
	int64_t at[2] = { 0x100, 0x200 };
	std::string reg[2], aut;
	for (int i = 0; i < 2; i++) reg[i] = ".orga " + num(at[i]) + "\n.region " + as.val(s[i]) + "\n" + bytes(c, 0x40 + i * 16) + ".endregion\n";
	for (int i = 0; i < 3; i++) aut += ".autoregion\nx" + num(i) + ":\n" + bytes(n[i], 1 + i * 16) + ".endautoregion\n.d8 " + num(0xE0 + i) + "\n";
	std::string text = swap ? reg[1] + reg[0] : reg[0] + reg[1];
	aut = ".orga 0\n" + aut;
	text = order == 0 ? text + aut : order == 1 ? aut + text : (swap ? reg[1] : reg[0]) + aut + (swap ? reg[0] : reg[1]);
	bool res = as.run(".sym off\n.gba\n.create \"out.bin\"," + as.val(h) + "\n" + text + ".orga 0x300\n.d64 x0,x1,x2\n.close\n");
	std::string lab = "auto regions of " + num(n[0]) + ", " + num(n[1]) + ", " + num(n[2]) + " bytes, order " + num(order) + (swap ? "b" : "a") + ": ";
	for (int i = 0; i < 2; i++) if (!__vc_decide(s[i] >= (int64_t) c)) { __vc_assert(!res, (lab + "content does not fit its region").c_str()); return; }
	unsigned all = n[0] + n[1] + n[2];
	bool must = __vc_decide(s[0] >= (int64_t) (c + all)) || __vc_decide(s[1] >= (int64_t) (c + all));
	bool cannot = __vc_decide(s[0] + s[1] < (int64_t) (2 * c + all));
	for (int i = 0; i < 3; i++) if (!__vc_decide(s[0] >= (int64_t) (c + n[i])) && !__vc_decide(s[1] >= (int64_t) (c + n[i]))) cannot = true;
	if (must) __vc_assert(res, (lab + "accepted if one region has room for all").c_str());
	if (cannot) __vc_assert(!res && !as.exists("out.bin"), (lab + "rejected if there is not enough space").c_str());
	if (!res) { __vc_assert(!as.exists("out.bin"), (lab + "no output on error").c_str()); __vc_reach("full"); return; }
	Log g = logOf(*as.get("out.bin"));
	__vc_assert(g.size() == 2 * c + all + 3 + 24, (lab + "bytes written").c_str());
	if (g.size() != 2 * c + all + 3 + 24) return;
	int64_t x[3];
	for (int i = 0; i < 3; i++) { uint64_t v = 0; for (int j = 7; j >= 0; j--) v = v << 8 | g[g.size() - 24 + i * 8 + j].second; x[i] = (int64_t) v - h; }
	bool where = true, apart = true;
	for (int i = 0; i < 3; i++)
	{
		bool in = false;
		for (int r = 0; r < 2; r++) in |= (x[i] >= at[r] + c) & (x[i] + (int64_t) n[i] <= at[r] + s[r]);
		where &= in;
		for (int j = 0; j < i; j++) apart &= (x[i] + (int64_t) n[i] <= x[j]) | (x[j] + (int64_t) n[j] <= x[i]) | (n[i] == 0) | (n[j] == 0);
	}
	__vc_assert(where, (lab + "each lies in the free space of a region").c_str());
	__vc_assert(apart, (lab + "they do not overlap").c_str());
	// contents: the bytes of each auto region at its label, of each region at its start, the markers outside
	bool good = true;
	for (auto& b : g)
	{
		if (&b >= &g[g.size() - 24]) break;
		int64_t want;
		uint8_t v = b.second;
		if (v >= 0xE0) want = v - 0xE0;
		else if (v >= 0x40) want = at[(v - 0x40) / 16] + (v & 15);
		else want = x[(v - 1) / 16] + (v - 1) % 16;
		good &= b.first == want;
	}
	__vc_assert(good, (lab + "contents are where the labels say; the position is restored afterwards").c_str());
	__vc_reach("placed");
}
// expect: P09_e2e_auto_sh placed full
// bounded: P09_e2e_auto_sh two regions and two auto regions, symbolic sizes
VC_ENTRY(P09_e2e_auto_sh) { autoRegions(false); }
// bounded: T09_e2e_auto_sh two regions and three auto regions, symbolic sizes
VC_ENTRY(T09_e2e_auto_sh) { autoRegions(true); }
// start address ranges
// expect: P09_e2e_range_sh placed full
VC_ENTRY(P09_e2e_range_sh)
{
	unsigned k = __vc_choose(3 * 2 * 2, "shard"), form = k % 3, n = k / 3 % 2 ? 5 : 1, used = k / 6 * 3;
	FileAsm as;
	int64_t h = anyHead("h"), lo = (int64_t) __vc_any("lo", 64), hi = (int64_t) __vc_any("hi", 64), s1 = (int64_t) (__vc_any("s1", 64) & 31), s2 = (int64_t) (__vc_any("s2", 64) & 31);
	__vc_assume(lo >= 0); __vc_assume(hi >= 0); __vc_assume(lo < 1ll << 40); __vc_assume(hi < 1ll << 40);
	std::string args = form == 0 ? "" : form == 1 ? " " + as.val(lo) : " " + as.val(lo) + "," + as.val(hi);
	bool res = as.run(".sym off\n.gba\n.create \"out.bin\"," + as.val(h) + "\n" +
		(used ? ".orga 0x100\n.region " + as.val(s1) + "\n.d8 7,7,7\n.endregion\n.orga 0x200\n.region " + as.val(s2) + "\n.d8 7,7,7\n.endregion\n" : ".defineregion " + as.val(h + 0x100) + "," + as.val(s1) + "\n.defineregion " + as.val(h + 0x200) + "," + as.val(s2) + "\n") + ".orga 0\n.autoregion" + args + "\nx:\n" + bytes(n, 1) + ".endautoregion\n.d64 x\n.close\n");
	std::string lab = std::string(".autoregion") + (form == 0 ? "" : form == 1 ? " min" : " min,max") + " of " + num(n) + " bytes: ";
	int64_t at[2] = { h + 0x100 + used, h + 0x200 + used }, s[2] = { s1 - used, s2 - used };
	if (!__vc_decide(s[0] >= 0 && s[1] >= 0)) { __vc_assert(!res, (lab + "content does not fit its region").c_str()); return; }
	bool can = false;
	for (int r = 0; r < 2; r++)
	{
		bool c = s[r] >= (int64_t) n;
		if (form >= 1) c = c & (at[r] >= lo);
		if (form == 2) c = c & (at[r] <= hi);
		can = can | c;
	}
	if (!__vc_decide(can))
	{
		__vc_assert(!res && !as.exists("out.bin"), (lab + "rejected if no region in range has space").c_str());
		__vc_reach("full");
		return;
	}
	__vc_assert(res, (lab + "accepted if a region starts in range and has space").c_str());
	if (!res) return;
	Log g = logOf(*as.get("out.bin"));
	__vc_assert(g.size() == 2 * used + n + 8, (lab + "bytes written").c_str());
	if (g.size() != 2 * used + n + 8) return;
	g.erase(g.begin(), g.begin() + 2 * used);
	uint64_t v = 0;
	for (int j = 7; j >= 0; j--) v = v << 8 | g[n + j].second;
	int64_t x = (int64_t) v;
	bool in = false, good = true;
	for (int r = 0; r < 2; r++) in |= (x >= at[r]) & (x + (int64_t) n <= at[r] + s[r]);
	if (form >= 1) in = in & (x >= lo);
	if (form == 2) in = in & (x <= hi);
	__vc_assert(in, (lab + "placed in a region and in range").c_str());
	for (unsigned i = 0; i < n; i++) good &= (g[i].first == x - h + i) & (g[i].second == 1 + i);
	for (unsigned i = 0; i < 8; i++) good &= g[n + i].first == i;
	__vc_assert(good, (lab + "content at the label, position restored").c_str());
	__vc_reach("placed");
}
// filled regions: auto regions survive the fill, the rest is filled; regions of another file are not used
// bounded: P09_e2e_autofill one region
VC_ENTRY(P09_e2e_autofill)
{
	for (int def = 0; def < 2; def++) for (int before = 0; before < 2; before++)
	{
		FileAsm as;
		int64_t fill = (int64_t) __vc_any("fill", 64), y = (int64_t) __vc_any("y", 64);
		std::string reg = def ? ".defineregion 8,20," + as.val(fill) + "\n" : ".org 8\n.region 20," + as.val(fill) + "\n.endregion\n", aut = ".org 0\n.autoregion\nx: .d32 " + as.val(y) + "\n.endautoregion\n.autoregion\nz: .d8 x,z\n.endautoregion\n.d8 x,z\n";
		bool res = as.run(".sym off\n.gba\n.create \"other.bin\",0\n.defineregion 4,64\n.close\n.create \"out.bin\",0\n" + (before ? aut + reg : reg + aut) + ".close\n");
		std::string lab = std::string(def ? ".defineregion" : ".region") + " with fill" + (before ? ", used before its definition: " : ": ");
		__vc_assert(res, (lab + "accepted").c_str());
		if (!res) continue;
		auto& d = as.get("out.bin")->data;
		__vc_assert(d.size() == 28 && as.get("other.bin")->log.empty(), (lab + "size, other file not used").c_str());
		if (d.size() != 28) continue;
		unsigned x = d[0], z = d[1];
		__vc_assert(x >= 8 && x + 4 <= 28 && z >= 8 && z + 2 <= 28 && (x + 4 <= z || z + 2 <= x), (lab + "inside and disjoint").c_str());
		if (!(x >= 8 && x + 4 <= 28 && z >= 8 && z + 2 <= 28)) continue;
		bool good = true;
		for (unsigned i = 8; i < 28; i++)
		{
			uint8_t want = i - x < 4 ? (uint8_t) (y >> (8 * (i - x))) : i - z < 2 ? (uint8_t) (i == z ? x : z) : (uint8_t) fill;
			good &= d[i] == want;
		}
		__vc_assert(good, (lab + "auto region contents and fill bytes").c_str());
	}
}
// bounded: P09_e2e_reject a fixed list of malformed directives
VC_ENTRY(P09_e2e_reject)
{
	for (const char* t : { ".area 4\n.d32 1\n.d8 1\n.endarea", ".area -1\n.endarea", ".area 4", ".endarea", ".region 4\n.d8 1", ".area\n.endarea", ".area \"x\"\n.endarea", ".area undefinedlabel\n.endarea", ".area 4,undefinedlabel\n.endarea", ".area 4,\"f\"\n.endarea", ".autoregion\n.d8 1\n.endautoregion", ".autoregion\n.d8 1",
		".area 8\n.close\n.endarea", ".area 8\n.create \"new.bin\",0\n.endarea", ".area 8\n.open \"old.bin\",0\n.endarea", ".region 16\n.endregion\n.autoregion\n.close\n.endautoregion", ".region 16\n.endregion\n.autoregion\n.create \"new.bin\",0\n.endautoregion", ".defineregion 4", ".defineregion", ".defineregion undefinedlabel,4", ".defineregion 4,-4",
		".region 4\n.endregion\n.autoregion\n.d8 1,2,3,4,5\n.endautoregion", ".region 4\n.endregion\n.autoregion undefinedlabel\n.d8 1\n.endautoregion", ".area 4\n.d8 1,2,3,4\n.endarea\n.autoregion\n.d8 1\n.endautoregion" })
	{
		FileAsm as;
		auto old = as.put("old.bin", std::string("abc"));
		bool res = as.run(std::string(".gba\n.create \"out.bin\",0\n") + t + "\n.close\n");
		__vc_assert(!res && !as.exists("out.bin") && !as.exists("new.bin") && old->data.size() == 3, (std::string("'") + t + "': rejected without output").c_str());
	}
}

// bounded: P09_e2e_again eight first runs and eight second runs in one process
// expect: P09_e2e_again done
VC_ENTRY(P09_e2e_again)
{
	static const char* const first[] = { ".defineregion 0x100,0x40", ".area 0x20\n.d32 1\n.endarea", ".region 0x20\n.endregion\n.autoregion\n.d32 1\n.endautoregion", ".area 4\n.d64 1\n.endarea", ".area 0x20,0x55\n.d32 1\n.endarea",
		".defineregion 0x100,0x40\n.autoregion\n.fill 0x30\n.endautoregion", ".region 0x20", ".area 0x10\n.autoregion\n.endautoregion\n.endarea" };
	static const struct { const char* t; bool ok; unsigned at; } second[] = { { ".autoregion\n.d32 0x11223344\n.endautoregion", false, 0 }, { ".area 0x10\n.d32 0x11223344\n.endarea\n", true, 0 }, { ".region 8\n.endregion\n.autoregion\n.d32 0x11223344\n.endautoregion", true, 0 },
		{ ".defineregion 0x110,0x10\n.autoregion\n.d32 0x11223344\n.endautoregion", true, 0x110 }, { ".defineregion 0x100,4\n.autoregion\n.d32 0x11223344\n.endautoregion", true, 0x100 }, { ".area 3\n.d32 0x11223344\n.endarea", false, 0 },
		{ ".org 0x18\n.area 0x20\n.d32 0x11223344\n.endarea", true, 0x18 }, { ".d32 0x11223344", true, 0 } };
	for (const char* a : first) for (const auto& b : second)
	{
		Asm one, as; // both write the same file object: regions belong to one
		one.at(0);
		one.run(std::string(".psx\n") + a + "\n");
		as.f = one.f; as.a.memoryFile = one.f;
		for (int64_t i = 0; i < 0x200; i++) one.f->buf[i] = 0;
		one.f->pos = one.f->end = 0;
		as.a.errorOnWarning = true;
		bool ok = as.run(std::string(".psx\n") + b.t + "\n");
		std::string l = "after '" + std::string(a) + "', '" + b.t + "'";
		for (char& c : l) if (c == '\n') c = ';';
		__vc_assert(ok == b.ok, (l + ": as in a first run").c_str());
		if (ok && b.ok) __vc_assert(as.u32(b.at) == 0x11223344, (l + ": content as in a first run").c_str());
	}
	__vc_reach("done");
}
