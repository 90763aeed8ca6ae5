// P10, function contract of the alignment directives: for every address and file position and every power of two the position
// moves to the next multiple, and not at all if it is one.
#include "common.h"
#include "Commands/CDirectiveFile.h"
// expect: P10_fn_align_sh aligned
VC_ENTRY(P10_fn_align_sh)
{
	unsigned k = __vc_choose(41 * 2, "shard"), lg = k % 41;
	bool phys = k / 41;
	Logger::setSilent(true);
	auto f = std::make_shared<MemFile>();
	int64_t h = (int64_t) (__vc_any("h", 64) & 0xFFFFFFFFFFFF), p = (int64_t) (__vc_any("p", 64) & 0xFFFFFFFFFFFF), n = 1ll << lg;
	g_fileManager->openFile(f, true);
	f->isop = true; f->base = h; f->pos = p;
	CDirectiveAlignFill c(n, phys ? CDirectiveAlignFill::AlignPhysical : CDirectiveAlignFill::AlignVirtual);
	ValidateState st;
	c.Validate(st);
	int64_t q = f->pos, x = phys ? q : q + h;
	__vc_assert(((x & (n - 1)) == 0) & (q >= p) & (q - p < n), "align: moves to the next multiple");
	c.Validate(st);
	__vc_assert(f->pos == q, "align: an aligned position stays");
	g_fileManager->closeFile();
	__vc_reach("aligned");
}
// expect: P10_fn_fill filled
VC_ENTRY(P10_fn_fill)
{
	Logger::setSilent(true);
	auto f = std::make_shared<MemFile>();
	int64_t p = (int64_t) (__vc_any("p", 64) & 0xFFFFFFFFFFFF), n = (int64_t) (__vc_any("n", 64) & 0xFFFFFFFFFFFF);
	g_fileManager->openFile(f, true);
	f->isop = true; f->pos = p;
	CDirectiveAlignFill c(n, CDirectiveAlignFill::Fill);
	ValidateState st;
	c.Validate(st);
	__vc_assert(f->pos == p + n, "fill: what follows is behind the filled bytes");
	g_fileManager->closeFile();
	__vc_reach("filled");
}
