// P08: what is assembled lands in the right file at the right offset, and nothing else changes
// assumes: std::filesystem and std::fstream behave like contracts/vfs/Util/FileSystem.h (in-memory files, no disk errors except missing and write-protected files)
// assumes: memory addresses are not negative (header sizes may be); addresses, header sizes and skip lengths lie within +-2^39 (no 64-bit wrap-around of positions)
#include "common.h"
static int64_t anyAddr(const char* n)
{
	return (int64_t) (__vc_any(n, 64) << 24) >> 24;
}
static int64_t le(const std::vector<uint8_t>& b, size_t o, int n) { uint64_t v = 0; for (int i = n - 1; i >= 0; i--) v = v << 8 | b[o + i]; return (int64_t) v; }

// every sequence of n position commands; a marker is written after each
static int64_t anyAddrOf(const char* n, int bits) { return (int64_t) (__vc_any(n, 64) << (64 - bits)) >> (64 - bits); }
static void positions(unsigned k, int n, int bits)
{
	static const char* const cmd[] = { ".org ", ".orga ", ".skip ", ".headersize ", "org " };
	static const char* const nm[] = { "va", "vb", "vc" };
	FileAsm as;
	int64_t h = anyAddrOf("h", bits), arg[3];
	std::string text = ".sym off\n.gba\n.create \"out.bin\"," + as.val(h) + "\n", lab = "'";
	unsigned kind[3] = { k % 5, k / 5 % 5, k / 25 };
	// the meaning of the sequence; the text ends with the first command that has no meaning
	int64_t v = h, head = h, va[3], hd[3];
	bool good = true;
	for (int i = 0; i < n && good; i++)
	{
		arg[i] = anyAddrOf(nm[i], bits);
		switch (kind[i])
		{
		case 0: case 4: v = arg[i]; break;
		case 1: v = arg[i] + head; break;
		case 2: v += arg[i]; break;
		case 3: v = v - head + arg[i]; head = arg[i]; break;
		}
		good = __vc_decide(v - head >= 0);
		if (good) __vc_assume(v >= 0);    // a negative memory address is accepted with a warning; not part of the claim
		va[i] = v; hd[i] = head;
		v += 24;
		lab += std::string(i ? " / " : "") + cmd[kind[i]] + nm[i];
		text += cmd[kind[i]] + as.val(arg[i]) + "\n" + (i == n - 2 ? "lab: " : "") + ".d64 org(),orga(),headersize()\n";
	}
	if (good) text += ".d64 lab,orga(lab),headersize(lab)\n";
	bool res = as.run(text + ".close\n");
	lab += "': ";
	auto f = as.get("out.bin");
	if (!good)
	{
		__vc_assert(!res, (lab + "a position before the start of the file is rejected").c_str());
		__vc_assert(!as.exists("out.bin"), (lab + "nothing is created on error").c_str());
		__vc_reach("rejected");
		return;
	}
	__vc_assert(res, (lab + "accepted").c_str());
	if (!res) return;
	__vc_reach("accepted");
	std::vector<std::pair<int64_t, uint8_t>> got;
	for (auto& op : f->log) for (size_t i = 0; i < op.bytes.size(); i++) got.push_back({ op.pos + (int64_t) i, op.bytes[i] });
	__vc_assert(got.size() == (n + 1) * 24, (lab + "number of bytes written").c_str());
	if (got.size() != (n + 1) * 24) return;
	for (int i = 0; i <= n; i++)
	{
		bool at = true;
		int64_t base = i < n ? va[i] - hd[i] : va[n - 1] - hd[n - 1] + 24, w[3];
		for (int j = 0; j < 24; j++) at &= got[i * 24 + j].first == base + j;
		for (int j = 0; j < 3; j++) { uint64_t x = 0; for (int l = 7; l >= 0; l--) x = x << 8 | got[i * 24 + j * 8 + l].second; w[j] = (int64_t) x; }
		__vc_assert(at, (lab + "file offset is address minus header size").c_str());
		int m = i == n ? n - 2 : i;
		__vc_assert((w[0] == va[m]) & (w[1] == va[m] - hd[m]) & (w[2] == hd[m]), (lab + (i == n ? "org, orga, headersize of a label" : "org, orga, headersize at the position")).c_str());
	}
}
// any state of a file is reached by .create h / .org a, so pairs cover one command from every state
// expect: P08_e2e_positions_sh accepted rejected
VC_ENTRY(P08_e2e_positions_sh) { positions(__vc_choose(25, "shard"), 2, 40); }
// three commands, 14-bit operands (bounded)
VC_ENTRY(T08_e2e_positions3_sh) { positions(__vc_choose(125, "shard"), 3, 14); }
// .open, .open with two names and .create: what happens to the files
// expect: P08_e2e_modes_sh done
// bounded: P08_e2e_modes_sh files of a few bytes, symbolic contents
VC_ENTRY(P08_e2e_modes_sh)
{
	// mode, size of the existing file, position of the patch, existing target
	unsigned k = __vc_choose(3 * 6 * 10 * 2, "shard");
	unsigned mode = k % 3, size = k / 3 % 6, at = k / 18 % 10, existing = k / 180;
	static const char* const open[] = { ".open \"b.bin\",h\n", ".open \"a.bin\",\"b.bin\",h\n", ".create \"b.bin\",h\n" };
	FileAsm as;
	int64_t h = anyAddr("h"), x = (int64_t) __vc_any("x", 64);
	as.label("h", h).label("x", x);
	std::vector<uint8_t> a, b;
	for (unsigned i = 0; i < size; i++) { a.push_back((uint8_t) __vc_any("a", 8)); b.push_back((uint8_t) __vc_any("b", 8)); }
	b.push_back((uint8_t) __vc_any("b", 8));
	as.put("a.bin", a);
	as.put("other.bin", a);
	if (existing) as.put("b.bin", b); else b.clear();
	char num[8]; num[0] = '0' + at / 10; num[1] = '0' + at % 10; num[2] = 0;
	bool res = as.run(std::string(".gba\n") + open[mode] + ".orga " + num + "\n.d16 x\n.close\n");
	std::string lab = std::string(open[mode], strlen(open[mode]) - 1) + ", patch at " + num + ": ";
	__vc_assert(as.get("a.bin")->data == a && as.get("other.bin")->data == a && as.get("a.bin")->truncated == 0 && as.get("other.bin")->opened == 0, (lab + "other files are untouched").c_str());
	if (mode == 0 && !existing)
	{
		__vc_assert(!res && !as.exists("b.bin"), (lab + "a missing file is an error and is not created").c_str());
		return;
	}
	__vc_assert(res, (lab + "accepted").c_str());
	if (!res) return;
	std::vector<uint8_t> want = mode == 0 ? b : mode == 1 ? a : std::vector<uint8_t>();
	if (want.size() < at + 2) want.resize(at + 2, 0);
	want[at] = (uint8_t) x; want[at + 1] = (uint8_t) (x >> 8);
	auto f = as.get("b.bin");
	bool same = f->exists && f->data.size() == want.size();
	__vc_assert(same, (lab + "file size").c_str());
	if (same) for (size_t i = 0; i < want.size(); i++) __vc_assert(f->data[i] == want[i], (lab + "only the patched bytes change").c_str());
	__vc_reach("done");
}
// files that cannot be opened
// bounded: P08_e2e_refused a fixed list of refused commands
VC_ENTRY(P08_e2e_refused)
{
	struct C { const char* text; int ro; } static const cs[] = {   // ro: 1 out.bin write-protected, 2 in.bin unreadable
		{ ".open \"out.bin\",0\n.d8 1\n.close", 1 }, { ".create \"out.bin\",0\n.d8 1\n.close", 1 }, { ".open \"in.bin\",\"out.bin\",0\n.d8 1\n.close", 1 }, { ".open \"in.bin\",\"out.bin\",0\n.d8 1\n.close", 2 },
		{ ".open \"none.bin\",\"out.bin\",0\n.d8 1\n.close", 0 }, { ".open \"out.bin\",\"out.bin\",0\n.d8 1\n.close", 0 }, { ".open \"./out.bin\",\"x/../out.bin\",0\n.d8 1\n.close", 0 }, { ".open \"none.bin\",0\n.d8 1\n.close", 0 },
		{ ".d8 1", 0 }, { ".org 4", 0 }, { ".orga 4", 0 }, { ".skip 4", 0 }, { ".headersize 4", 0 }, { ".fill 4", 0 }, { ".align 4", 0 }, { ".incbin \"in.bin\"", 0 }, { "nop", 0 }, { ".area 4\n.endarea", 0 },
		{ ".create \"new.bin\",0\n.d8 1\n.close\n.open \"none.bin\",0\n.close", 0 }, { ".create \"new.bin\",0\n.d8 1\n.close\n.d8 1", 0 }, { ".open \"out.bin\",0\n.d8 9\n.close\n.orga 1", 0 },
		{ ".create \"out.bin\",0\n.d8 undefinedlabel\n.close", 0 }, { ".open \"in.bin\",\"out.bin\",0\n.d8 undefinedlabel\n.close", 0 }, { ".open \"out.bin\",0\n.d8 undefinedlabel\n.close", 0 }, { ".open \"in.bin\",\"new.bin\",0\n.d8 undefinedlabel\n.close", 0 }, { ".create \"out.bin\",0\n.area 1\n.d16 1\n.endarea\n.close", 0 },
		{ ".create \"new.bin\"", 0 }, { ".create 1,2", 0 }, { ".open \"out.bin\"", 0 }, { ".create \"new.bin\",undefinedlabel\n.close", 0 }, { ".create \"new.bin\",\"0\"\n.close", 0 } };
	for (auto& c : cs)
	{
		FileAsm as;
		auto o = as.put("out.bin", std::string("\x05\x06\x07")), i = as.put("in.bin", std::string("abcd"));
		if (c.ro == 1) o->readOnly = true;
		if (c.ro == 2) i->noOpen = true;
		bool res = as.run(std::string(".gba\n") + c.text + "\n");
		std::string lab = std::string("'") + c.text + "': ";
		__vc_assert(!res && !as.errors.empty(), (lab + "rejected with an error").c_str());
		__vc_assert(o->exists && o->data.size() == 3 && o->data[0] == 5 && o->data[1] == 6 && o->data[2] == 7 && o->truncated == 0 && i->data.size() == 4 && !as.exists("new.bin") && !as.exists("none.bin"), (lab + "no file changes").c_str());
	}
}
// several files: each takes the data assembled while it is open; labels work across them; reopening continues
// expect: P08_e2e_many done
// bounded: P08_e2e_many two output files
VC_ENTRY(P08_e2e_many)
{
	FileAsm as;
	int64_t h1 = anyAddr("h1"), h2 = anyAddr("h2"), x = (int64_t) __vc_any("x", 64);
	__vc_assume(h1 >= 0); __vc_assume(h2 >= 0);
	std::string H1 = as.val(h1), H2 = as.val(h2), X = as.val(x);
	as.put("a.bin", std::string(3, 'z'));
	bool res = as.run(".sym off\n.psx\n.create \"a.bin\"," + H1 + "\n.d8 1\nla: .d64 lb," + X + "\n.close\n.create \"b.bin\"," + H2 + "\n.d16 2\nlb: .d64 la,orga(la),headersize(la),orga(lc)\n.closefile\n"
		".openfile \"a.bin\"," + H2 + "\n.orga 2\nlc: .d8 7\n.d64 lc,la\n.close\n.n64\n.createfile \"c.bin\",0\n.d16 lc\n.headersize 0x100\n.close\n.create \"d.bin\"," + H1 + "\n.d64 org()\n.close\n");
	__vc_assert(res, "several files: accepted");
	if (!res) return;
	auto a = as.get("a.bin"), b = as.get("b.bin"), c = as.get("c.bin"), d = as.get("d.bin");
	__vc_assert(a->data.size() == 19 && b->data.size() == 34 && c->data.size() == 2 && d->data.size() == 8, "several files: sizes");
	if (!(a->data.size() == 19 && b->data.size() == 34 && c->data.size() == 2 && d->data.size() == 8)) return;
	int64_t la = h1 + 1, lb = h2 + 2, lc = h2 + 2;
	__vc_assert(a->data[0] == 1 && a->data[1] == (uint8_t) lb && a->data[2] == 7 && le(a->data, 3, 8) == lc && le(a->data, 11, 8) == la, "several files: first file, patched when reopened");
	__vc_assert(le(b->data, 0, 2) == 2 && le(b->data, 2, 8) == la && le(b->data, 10, 8) == 1 && le(b->data, 18, 8) == h1 && le(b->data, 26, 8) == 2, "several files: second file");
	__vc_assert(c->data[0] == (uint8_t) (lc >> 8) && c->data[1] == (uint8_t) lc, "several files: third file");
	bool dd = true;
	for (int i = 0; i < 8; i++) dd &= d->data[i] == (uint8_t) (h1 >> (56 - 8 * i));
	__vc_assert(dd, "several files: the header size is the one of the file");
	__vc_reach("done");
}
// .incbin
// expect: P08_e2e_incbin_sh written rejected
// bounded: P08_e2e_incbin_sh inputs of a few bytes, symbolic start and size
VC_ENTRY(P08_e2e_incbin_sh)
{
	unsigned k = __vc_choose(3 * 6, "shard");
	unsigned form = k % 3, n = k / 3;
	static const char* const text[] = { ".incbin \"in.bin\"\n", ".import \"in.bin\",start\n", ".incbin \"in.bin\",start,count\n" };
	FileAsm as;
	int64_t start = (int64_t) __vc_any("start", 64), count = (int64_t) __vc_any("count", 64);
	for (unsigned i = 0; i <= n; i++)     // each value inside the file by itself, all others at once
	{
		if (form >= 1 && __vc_decide(start == i)) start = i;
		if (form == 2 && __vc_decide(count == i)) count = i;
	}
	as.label("start", start).label("count", count);
	std::vector<uint8_t> in;
	for (unsigned i = 0; i < n; i++) in.push_back((uint8_t) __vc_any("in", 8));
	as.put("in.bin", in);
	bool res = as.run(std::string(".gba\n.create \"out.bin\",0\n.d8 0xAA\n") + text[form] + "lab: .d16 lab\n.close\n");
	std::string lab = std::string(text[form], strlen(text[form]) - 1) + " of " + char('0' + n) + " bytes: ";
	__vc_assert(as.get("in.bin")->data == in, (lab + "input unchanged").c_str());
	if (form == 0) start = 0;
	bool good = true;
	if (form >= 1 && !__vc_decide(start >= 0 && start <= (int64_t) n)) good = false;
	if (good && form == 2 && !__vc_decide(count >= 0)) good = false;
	if (!good)
	{
		__vc_assert(!res && !as.exists("out.bin"), (lab + "negative size or position outside the file is rejected").c_str());
		__vc_reach("rejected");
		return;
	}
	__vc_assert(res, (lab + "accepted").c_str());
	if (!res) return;
	int64_t want = (int64_t) n - start;
	if (form == 2 && __vc_decide(count < want)) want = count;    // a longer size is truncated with a warning
	auto f = as.get("out.bin");
	int64_t size = (int64_t) f->data.size();
	__vc_assert(size == want + 3, (lab + "size").c_str());
	if (!__vc_decide(size == want + 3)) return;
	__vc_assert(f->data[0] == 0xAA && le(f->data, size - 2, 2) == size - 2, (lab + "position after the data").c_str());
	bool good2 = true;
	for (unsigned i = 0; i < n; i++)
		if ((int64_t) i < size - 3)
		{
			uint8_t w = 0;
			for (unsigned j = 0; j < n; j++) if (start + i == j) w = in[j];
			good2 &= f->data[1 + i] == w;
		}
	__vc_assert(good2, (lab + "the bytes from start").c_str());
	__vc_reach("written");
}
// reading values from files
// expect: P08_e2e_read_sh value rejected
VC_ENTRY(P08_e2e_read_sh)
{
	unsigned k = __vc_choose(9 * 10, "shard");
	unsigned fn = k % 9, n = k / 9;
	static const char* const name[] = { "readbyte", "readu8", "readu16", "readu32", "readu64", "reads8", "reads16", "reads32", "reads64" };
	static const unsigned size[] = { 1, 1, 2, 4, 8, 1, 2, 4, 8 };
	FileAsm as;
	int64_t pos = (int64_t) __vc_any("pos", 64);
	for (unsigned i = 0; i <= n; i++) if (__vc_decide(pos == i)) pos = i;
	as.label("pos", pos);
	std::vector<uint8_t> in;
	for (unsigned i = 0; i < n; i++) in.push_back((uint8_t) __vc_any("in", 8));
	as.put("in.bin", in);
	bool res = as.run(std::string(".gba\n.create \"out.bin\",0\n.d64 ") + name[fn] + "(\"in.bin\",pos)" + (n >= size[fn] ? std::string(",") + name[fn] + "(\"in.bin\")" : "") + ",filesize(\"in.bin\"),fileexists(\"in.bin\"),fileexists(\"none\")\n.close\n");
	std::string lab = std::string(name[fn]) + " from " + char('0' + n) + " bytes: ";
	if (__vc_decide(pos < 0 || pos > (int64_t) n) || pos + size[fn] > n)
	{
		__vc_assert(!res && !as.exists("out.bin"), (lab + "reading outside the file is rejected").c_str());
		__vc_reach("rejected");
		return;
	}
	auto f = as.get("out.bin");
	__vc_assert(res && f->data.size() == 40, (lab + "accepted").c_str());
	if (!res) return;
	auto want = [&](int64_t at) { int64_t v = le(in, at, size[fn]); unsigned sh = 64 - 8 * size[fn]; return fn >= 5 ? (int64_t) ((uint64_t) v << sh) >> sh : v; };
	__vc_assert(le(f->data, 0, 8) == want(pos) && le(f->data, 8, 8) == want(0), (lab + "little-endian value, sign or zero extended").c_str());
	__vc_assert(le(f->data, 16, 8) == n && le(f->data, 24, 8) == 1 && le(f->data, 32, 8) == 0, (lab + "filesize and fileexists").c_str());
	__vc_reach("value");
}
// bounded: P08_e2e_readascii inputs of a few bytes
VC_ENTRY(P08_e2e_readascii)
{
	struct C { const char* args; const char* want; } static const cs[] = { { "", "Hello" }, { ",1", "ello" }, { ",0,3", "Hel" }, { ",2,2", "ll" }, { ",6", "World" }, { ",6,99", "World" }, { ",10,1", "d" }, { ",5", "" }, { ",-1", nullptr } };
	for (auto& c : cs)
	{
		FileAsm as;
		as.put("in.bin", std::string("Hello\0World", 11));
		bool res = as.run(std::string(".gba\n.create \"out.bin\",0\n.ascii readascii(\"in.bin\"") + c.args + ")\n.d8 0x7f\n.close\n");
		std::string lab = std::string("readascii(file") + c.args + "): ";
		if (!c.want) { __vc_assert(!res && !as.exists("out.bin"), (lab + "rejected").c_str()); continue; }
		std::string want = std::string(c.want) + "\x7f";
		auto f = as.get("out.bin");
		__vc_assert(res && f->data == std::vector<uint8_t>(want.begin(), want.end()), (lab + "text up to the terminator").c_str());
	}
}
// which file a name means: the working directory, or with .relativeinclude the directory of the source file
// bounded: P08_e2e_paths a fixed list of paths
VC_ENTRY(P08_e2e_paths)
{
	for (int rel = 0; rel < 2; rel++) for (int depth = 0; depth < 3; depth++) for (int abs = 0; abs < 2; abs++)
	{
		FileAsm as;
		static const char* const dir[] = { "", "d1/", "d1/d2/" };
		std::string body = std::string(".create \"") + (abs ? "/o/" : "") + "out.bin\",0\n.incbin \"" + (abs ? "/o/" : "") + "in.bin\"\n.ascii outputname()\n.close\n";
		for (int d = 0; d < 3; d++) as.put(std::string(dir[d]) + "in.bin", std::string(1, char('0' + d)));
		vfs::state().put("/o/in.bin", "9");
		std::string inc = rel ? std::string(depth == 1 ? "d1/a.asm" : "d1/b.asm") : std::string(dir[depth]) + "a.asm";
		as.put(std::string(dir[depth]) + "a.asm", body);
		if (depth == 2) as.put("d1/b.asm", rel ? ".include \"d2/a.asm\"\n" : ".include \"d1/d2/a.asm\"\n");
		if (depth == 2 && !rel) inc = "d1/b.asm";
		bool res = as.run(std::string(".gba\n.relativeinclude on\n") + (rel ? "" : ".relativeinclude off\n") + (depth ? ".include \"" + inc + "\"\n" : body));
		std::string where = abs ? std::string("/o/") : std::string("/w/") + (rel ? dir[depth] : ""), lab = std::string(rel ? "relative include, " : "") + "source in /w/" + dir[depth] + (abs ? ", absolute name: " : ": ");
		auto f = vfs::state().find(where + "out.bin");
		__vc_assert(res && f != nullptr, (lab + "file found and created in the right directory").c_str());
		if (!f) continue;
		std::string want = std::string(1, abs ? '9' : rel ? char('0' + depth) : '0') + (abs ? "/o/" : "") + "out.bin";
		__vc_assert(f->data[0] == (uint8_t) want[0], (lab + "content of the right file").c_str());
		int n = 0;
		for (auto& x : vfs::state().files) n += x->exists && x->created;
		__vc_assert(n == 1, (lab + "no other file").c_str());
	}
}
