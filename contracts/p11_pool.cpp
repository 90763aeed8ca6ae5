// P11: ldr rx,=value loads the value: as mov or mvn if that can express it (ARM), else from the pool that follows.  The emitted
// words are executed by the specification below.
#include "common.h"
// records every write with its address
struct RecFile : MemFile
{
	struct W { int64_t at; uint8_t b[8]; size_t n; };
	std::vector<W> w;
	bool write(void* d, size_t n) override
	{
		writes++;
		for (size_t o = 0; o < n; o += 8)
		{
			W x;
			x.at = base + pos + (int64_t) o;
			x.n = n - o < 8 ? n - o : 8;
			memcpy(x.b, (uint8_t*) d + o, x.n);
			w.push_back(x);
		}
		pos += n;
		return true;
	}
};
static uint32_t word(const RecFile::W& x) { uint32_t v; memcpy(&v, x.b, 4); return v; }
static uint32_t ror32(uint32_t v, unsigned n) { n &= 31; return n ? v >> n | v << (32 - n) : v; }
static bool armImm(uint32_t v) { bool r = false; for (unsigned i = 0; i < 32; i += 2) r = r | ((v & ror32(0xFFFFFF00u, i)) == 0); return r; }
static const char* const ARCHS[4] = { ".gba", ".nds", ".arm.big", ".3ds" };
static const char* const CONDS[15] = { "eq", "ne", "cs", "cc", "mi", "pl", "vs", "vc", "hi", "ls", "ge", "lt", "gt", "le", "" };

// one literal: any value, any address of the instruction, any address of the pool, either order of definition
static void literal(unsigned k, bool all)
{
	unsigned cond = k % 15, thumb = k / 15 % 2, away = k / 30 % 2, arch = k / 60 % 4, flt = k / 240;
	if (cond != 14 && (thumb || away)) return;
	if (!all && away && arch & 1) return;
	if (flt && (thumb || cond < 13)) return;
	bool big = arch == 2;
	unsigned rd = thumb ? (k / 15 + arch) % 8 : (cond + arch) % 15;
	uint32_t base = vc::any<uint32_t>("base") & (thumb ? ~1u : ~3u);
	int64_t val = flt ? 0x3FC00000 + 0x40000000ll * (cond - 13) : vc::any<int64_t>("val");
	int64_t org = away ? (int64_t) vc::any<uint32_t>("org") : 0;
	Asm as;
	auto f = std::make_shared<RecFile>();
	as.f = f; as.a.memoryFile = f;
	as.at(base);
	as.label("val", val);
	if (away) as.label("tgt", org);
	std::string t = std::string("ldr") + CONDS[cond] + " r" + std::to_string(rd) + ",=" + (flt ? (cond == 13 ? "1.5" : "float(6)") : "val");
	if (flt && cond == 14) val = 0x40C00000;
	bool ok = as.run(std::string(ARCHS[arch]) + "\n" + (thumb ? ".thumb\n" : ".arm\n") + t + "\n" + (away ? ".org tgt\n" : "") + ".pool\n.d8 0x77\n");
	std::string lab = "literal '" + t + "'";
	const uint32_t v = (uint32_t) val;
	const uint32_t at = away ? (uint32_t) org : base + (thumb ? 2 : 4), pool = (at + 3) & ~3u;
	bool direct = !thumb && (armImm(v) | armImm(~v));
	uint32_t pc = thumb ? (base + 4) & ~3u : base + 8;
	int32_t dist = (int32_t) (pool - pc);
	bool reach = thumb ? (dist >= 0) & (dist <= 1020) : (dist >= -4095) & (dist <= 4095);
	__vc_assert(ok == (direct | reach), (lab + ": accepted iff the pool is in reach or not needed").c_str());
	if (!__vc_decide(ok)) { __vc_assert(f->writes == 0, (lab + ": nothing written when rejected").c_str()); __vc_reach("refused"); return; }
	__vc_assert(f->w.size() >= 2 && (uint32_t) f->w[0].at == base && f->w[0].n == (thumb ? 2u : 4u), (lab + ": one instruction").c_str());
	if (f->w.size() < 2) return;
	auto rd32 = [&](const RecFile::W& x) { uint32_t r = word(x); return big ? __builtin_bswap32(r) : r; };
	const RecFile::W& last = f->w.back();
	__vc_assert(last.n == 1 && last.b[0] == 0x77, (lab + ": what follows").c_str());
	if (thumb)
	{
		uint16_t h = (uint16_t) (f->w[0].b[0] | f->w[0].b[1] << 8);
		if (big) h = (uint16_t) (h >> 8 | h << 8);
		__vc_assert((h & 0xFF00) == (0x4800u | rd << 8) && pc + (h & 255) * 4 == pool, (lab + ": loads from the pool").c_str());
	} else {
		uint32_t w = rd32(f->w[0]);
		__vc_assert((w >> 28) == cond + (cond == 14 ? 0 : 0) && (w >> 12 & 15) == rd, (lab + ": condition and register").c_str());
		if (__vc_decide(armImm(v)))
		{
			__vc_assert((w & 0x0FFF0000) == 0x03A00000 && ror32(w & 255, (w >> 8 & 15) * 2) == v, (lab + ": mov").c_str());
			__vc_assert((uint32_t) last.at == pool, (lab + ": no pool entry").c_str());
			__vc_reach("mov");
			return;
		}
		if (__vc_decide(armImm(~v)))
		{
			__vc_assert((w & 0x0FFF0000) == 0x03E00000 && ~ror32(w & 255, (w >> 8 & 15) * 2) == v, (lab + ": mvn").c_str());
			__vc_assert((uint32_t) last.at == pool, (lab + ": no pool entry").c_str());
			__vc_reach("mvn");
			return;
		}
		__vc_assert((w & 0x0F7F0000) == 0x051F0000 && (w >> 23 & 1 ? pc + (w & 0xFFF) : pc - (w & 0xFFF)) == pool, (lab + ": loads from the pool").c_str());
	}
	const RecFile::W& e = f->w[f->w.size() - 2];
	__vc_assert((uint32_t) e.at == pool && e.n == 4 && rd32(e) == v, (lab + ": value in the pool").c_str());
	__vc_assert((uint32_t) last.at == pool + 4, (lab + ": one pool entry").c_str());
	for (size_t i = 1; i + 2 < f->w.size(); i++) for (size_t j = 0; j < f->w[i].n; j++) __vc_assert(f->w[i].b[j] == 0, (lab + ": zeros before the pool").c_str());
	__vc_reach("pool");
}

// expect: P11_e2e_literal_sh mov mvn pool refused
VC_ENTRY(P11_e2e_literal_sh) { literal(__vc_choose(15 * 2 * 2 * 4 * 2, "shard"), false); }
VC_ENTRY(T11_e2e_literal_sh) { literal(__vc_choose(15 * 2 * 2 * 4 * 2, "shard"), true); }

// several literals and pools
static void sequence(unsigned k, unsigned n)
{
	unsigned kinds[8];
	for (unsigned i = 0; i < n; i++) { kinds[i] = k % 8; k /= 8; }
	for (int thumb = 0; thumb < 2; thumb++)
	{
		std::string t = thumb ? ".gba\n.thumb\n" : ".gba\n.arm\n";
		struct L { uint32_t at, v; unsigned rd; bool direct; uint32_t pool; };
		std::vector<L> ls;
		std::vector<size_t> open;
		std::vector<std::pair<uint32_t, uint32_t>> words;
		uint32_t pos = 0x1000;
		bool defLate = false;
		for (unsigned i = 0; i < n; i++)
		{
			unsigned rd = 1 + i % 6;
			std::string r = "r" + std::to_string(rd);
			switch (kinds[i])
			{
			case 0: case 1: case 2: case 3:
			{
				static const char* const ex[4] = { "0x12345678", "later", "0xFF00", "0x12340000+0x5678" };
				static const uint32_t va[4] = { 0x12345678, 0x76543210, 0xFF00, 0x12345678 };
				t += "ldr " + r + ",=" + ex[kinds[i]] + "\n";
				ls.push_back({ pos, va[kinds[i]], rd, !thumb && kinds[i] == 2, 0 });
				if (!ls.back().direct) open.push_back(ls.size() - 1);
				pos += thumb ? 2 : 4;
				break;
			}
			case 4:
				t += ".pool\n";
				pos = (pos + 3) & ~3u;
				{
					std::vector<uint32_t> vs;
					for (size_t o : open)
					{
						size_t j = 0;
						while (j < vs.size() && vs[j] != ls[o].v) j++;
						if (j == vs.size()) vs.push_back(ls[o].v);
						ls[o].pool = pos + 4 * (uint32_t) j;
					}
					for (uint32_t v : vs) { words.push_back({ pos, v }); pos += 4; }
				}
				open.clear();
				break;
			case 5: t += thumb ? "nop\n" : ".d32 0\n"; pos += thumb ? 2 : 4; break;
			case 6: t += ".if later == 0\nldr r7,=0x11112222\n.pool\n.endif\n"; break;
			case 7: t += ".skip 0x100\n"; pos += 0x100; break;
			}
		}
		(void) defLate;
		t += "end: .d32 end\n.definelabel later,0x76543210\n";
		Asm as;
		auto f = std::make_shared<RecFile>();
		as.f = f; as.a.memoryFile = f;
		as.at(0x1000);
		bool ok = as.run(t);
		std::string lab = "pools: " + t;
		for (char& c : lab) if (c == '\n') c = ';';
		__vc_assert(ok == open.empty(), (lab + " accepted iff every literal has a pool").c_str());
		if (!ok) { __vc_assert(f->writes == 0, (lab + " nothing written when rejected").c_str()); __vc_reach("refused"); continue; }
		auto mem = [&](uint32_t a, unsigned sz) { for (auto& x : f->w) if ((uint32_t) x.at == a && x.n == sz) return (uint64_t) (sz == 2 ? (x.b[0] | x.b[1] << 8) : word(x)); return ~(uint64_t) 0; };
		for (auto& l : ls)
		{
			if (thumb)
			{
				uint64_t h = mem(l.at, 2);
				__vc_assert((h >> 8) == (0x48u | l.rd) && ((l.at + 4) & ~3u) + (uint32_t) (h & 255) * 4 == l.pool, (lab + " loads its value").c_str());
			} else {
				uint64_t h = mem(l.at, 4);
				if (l.direct) __vc_assert((h >> 12) == (0xE3A00u | l.rd) && ror32(h & 255, (h >> 8 & 15) * 2) == l.v, (lab + " moves its value").c_str());
				else __vc_assert((h & ~0x800FFFull) == (0xE51F0000u | l.rd << 12) && (h >> 23 & 1 ? l.at + 8 + (uint32_t) (h & 0xFFF) : l.at + 8 - (uint32_t) (h & 0xFFF)) == l.pool, (lab + " loads its value").c_str());
			}
		}
		for (auto& w : words) __vc_assert(mem(w.first, 4) == w.second, (lab + " pool contents").c_str());
		__vc_assert(mem(pos, 4) == pos, (lab + " what follows stands behind the pools").c_str());
		__vc_reach("accepted");
	}
}
// bounded: P11_e2e_many_sh programs of four statements
// expect: P11_e2e_many_sh accepted refused
VC_ENTRY(P11_e2e_many_sh) { sequence(__vc_choose(8 * 8 * 8 * 8, "shard"), 4); }
// bounded: T11_e2e_many_sh programs of five statements
VC_ENTRY(T11_e2e_many_sh) { sequence(__vc_choose(8 * 8 * 8 * 8 * 8, "shard"), 5); }
// bounded: P11_e2e_reject a fixed list of malformed literals
// expect: P11_e2e_reject done
VC_ENTRY(P11_e2e_reject)
{
	static const char* const bad[] = { "ldr r0,=", "ldr r0,=undefinedlabel\n.pool", "ldr r0,=\"text\"\n.pool", "str r0,=5\n.pool", "ldr =5\n.pool", "ldrh r0,=0x12345678\n.pool", "ldr r0,=0x12345678", ".pool\nldr r0,=0x12345678",
		".thumb\nldr r8,=0x12345678\n.pool", ".thumb\nldr r0,=5", ".thumb\nldr r0,=undefinedlabel\n.pool", "ldr r0,[=5]\n.pool", ".thumb\nldr r0,=5\n.pool 1", ".psx\n.pool" };
	for (const char* b : bad)
	{
		Asm as;
		as.at(0);
		bool ok = as.run(std::string(".gba\n.arm\n") + b + "\n");
		__vc_assert(!ok && as.f->writes == 0, ("literal: '" + std::string(b) + "' is rejected").c_str());
	}
	__vc_reach("done");
}
