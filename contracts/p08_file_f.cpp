// P08, function contracts of the output file: for every state of an output file (every position and header size, reached
// by any history) each operation moves the position as documented.  The invariant "file offset = address - header size,
// never negative" is kept by every operation, so it holds after any number of them.
#include "common.h"
static int64_t within(const char* n) { return (int64_t) (__vc_any(n, 64) << 24) >> 24; }
// expect: P08_fn_file moved refused written
VC_ENTRY(P08_fn_file)
{
	vfs::state().reset();
	bool opened = __vc_choose(2, "open");
	int64_t h0 = within("h0"), p0 = within("p0"), h = within("h"), a = within("a");
	__vc_assume(p0 >= 0);
	GenericAssemblerFile f("/w/out.bin", h0, true);
	__vc_assert(f.open(!opened) && f.isOpen() == opened, "file: opens");
	// an arbitrary state: physical position p0, header size h
	__vc_assert(f.getVirtualAddress() == h0 && f.getPhysicalAddress() == 0 && f.getHeaderSize() == h0, "file: starts at the header size");
	f.setHeaderSize(h);
	__vc_assert(f.seekPhysical(p0), "file: seek to a position in the file");
	__vc_assert(f.getPhysicalAddress() == p0 && f.getVirtualAddress() == p0 + h && f.getHeaderSize() == h, "file: address = position + header size");
	auto rec = vfs::state().rec("/w/out.bin");
	switch (__vc_choose(4, "operation"))
	{
	case 0:
	{
		bool ok = f.seekVirtual(a);
		__vc_assert(ok == (a - h >= 0), "file: seeking to an address before the file is refused");
		if (!ok) { __vc_assert(f.getPhysicalAddress() == p0, "file: a refused seek changes nothing"); __vc_reach("refused"); return; }
		__vc_assert(f.getVirtualAddress() == a && f.getPhysicalAddress() == a - h && f.getHeaderSize() == h, "file: seek to an address");
		break;
	}
	case 1:
	{
		bool ok = f.seekPhysical(a);
		__vc_assert(ok == (a >= 0), "file: seeking before the file is refused");
		if (!ok) { __vc_assert(f.getPhysicalAddress() == p0, "file: a refused seek changes nothing"); __vc_reach("refused"); return; }
		__vc_assert(f.getVirtualAddress() == a + h && f.getPhysicalAddress() == a && f.getHeaderSize() == h, "file: seek to a position");
		break;
	}
	case 2:
	{
		int64_t nh = within("nh");
		f.setHeaderSize(nh);
		__vc_assert(f.getHeaderSize() == nh && f.getVirtualAddress() == p0 + h && f.getPhysicalAddress() == p0 + h - nh, "file: header size");
		break;
	}
	case 3:
	{
		uint8_t b[5];
		for (auto& x : b) x = vc::any<uint8_t>("b");
		unsigned n = __vc_choose(6, "n");
		bool ok = f.write(b, n);
		__vc_assert(ok == opened, "file: writes go to an open file");
		if (!ok) { __vc_assert(f.getPhysicalAddress() == p0, "file: a refused write moves nothing"); return; }
		__vc_assert(f.getPhysicalAddress() == p0 + n && f.getVirtualAddress() == p0 + h + n, "file: writing advances the position");
		std::vector<std::pair<int64_t, uint8_t>> got;
		for (auto& op : rec->log) for (size_t i = 0; i < op.bytes.size(); i++) got.push_back({ op.pos + (int64_t) i, op.bytes[i] });
		__vc_assert(got.size() == n, "file: number of bytes written");
		bool good = got.size() == n;
		for (unsigned i = 0; good && i < n; i++) good = (got[i].first == p0 + i) & (got[i].second == b[i]);
		__vc_assert(good, "file: the bytes are at the position");
		__vc_reach("written");
		return;
	}
	}
	__vc_reach("moved");
}
// the manager: positions and writes are those of the open file, in the selected byte order; without one everything is refused
// expect: P08_fn_manager done refused
VC_ENTRY(P08_fn_manager)
{
	FileManager m;
	auto f = std::make_shared<MemFile>();
	int64_t h = within("h");
	f->base = h;
	uint64_t v = vc::any<uint64_t>("v");
	Global.memoryMode = false;
	unsigned n = 1u << __vc_choose(4, "size");
	bool big = __vc_choose(2, "order"), open = __vc_choose(2, "open");
	if (open) { __vc_assert(m.openFile(f, false), "manager: opens"); f->pos = 7; }
	m.setEndianness(big ? Endianness::Big : Endianness::Little);
	bool ok = n == 1 ? m.writeU8((uint8_t) v) : n == 2 ? m.writeU16((uint16_t) v) : n == 4 ? m.writeU32((uint32_t) v) : m.writeU64(v);
	__vc_assert(ok == open && m.hasOpenFile() == open, "manager: writes go to the open file");
	if (!open)
	{
		__vc_assert(!m.seekVirtual(h + 3) && !m.seekPhysical(3) && !m.advanceMemory(1) && f->writes == 0, "manager: nothing without an open file");
		__vc_reach("refused");
		return;
	}
	bool good = f->pos == 7 + (int64_t) n && f->writes == 1;
	for (unsigned i = 0; i < n; i++) good &= f->buf[7 + i] == (uint8_t) (v >> (8 * (big ? n - 1 - i : i)));
	__vc_assert(good, "manager: the value in the selected byte order");
	__vc_assert(m.getVirtualAddress() == h + 7 + (int64_t) n && m.getPhysicalAddress() == 7 + (int64_t) n && m.getHeaderSize() == h, "manager: positions of the open file");
	int64_t s = within("s");
	__vc_assert(m.advanceMemory((size_t) s) && m.getVirtualAddress() == h + 7 + (int64_t) n + s, "manager: advancing");
	m.closeFile();
	__vc_assert(!f->isop && !m.hasOpenFile(), "manager: closes");
	__vc_reach("done");
}
