// P09, function contract of the allocator: whatever is already in a region (its content and any number of auto regions are
// summarised by where they end), a new auto region is placed behind it, inside the region and in range; so auto regions of a
// region are disjoint for any number of them.  Regions of other files and areas that are not regions are never used.
#include "common.h"
#include "Core/Allocations.h"
static int64_t size48(const char* n) { return (int64_t) (__vc_any(n, 64) & 0xFFFFFFFFFFFF); }
// expect: P09_fn_allocate_sh placed full
VC_ENTRY(P09_fn_allocate_sh)
{
	unsigned k = __vc_choose(2 * 2 * 2 * 2 * 2, "shard");
	bool two = k & 1, before = k & 2, again = k & 4, hasMin = k & 8, hasMax = k & 16;
	Allocations::clear();
	Allocations::clearSubAreas();
	if (again) Allocations::clearSubAreas();     // positions of the pass before are kept
	int64_t P = size48("P"), S = size48("S"), U = size48("U");
	__vc_assume(U <= S);
	Allocations::setArea(1, P, S, U, false, true);
	int64_t Q = size48("Q"), T = size48("T"), V = size48("V");
	if (two)
	{
		__vc_assume(V <= T); __vc_assume(Q != P);
		// not a region, or of another file
		Allocations::setArea(1, Q, T, V, false, false);
		Allocations::setArea(2, Q, T, V, false, true);
	}
	int64_t end = P + U;
	if (before)
	{
		int64_t s1 = size48("s1"), p1 = again ? size48("p1") : -1;
		if (__vc_decide(Allocations::allocateSubArea(1, p1, -1, -1, s1)))
		{
			__vc_assert((p1 >= P + U) & (p1 + s1 <= P + S), "allocator: inside the free space of the region");
			end = p1 + s1;
		}
	}
	int64_t lo = hasMin ? size48("lo") : -1, hi = hasMax ? size48("hi") : -1, size = size48("size");
	int64_t old = again ? size48("old") : -1, p = old;
	bool ok = Allocations::allocateSubArea(1, p, lo, hi, size);
	bool free = end + size <= P + S;
	if (hasMin) free = free & (end >= lo);
	if (hasMax) free = free & (end <= hi);
	if (!__vc_decide(ok))
	{
		__vc_assert(!free, "allocator: refused only if nothing fits");
		__vc_reach("full");
		return;
	}
	__vc_assert((p >= end) & (p + size <= P + S), "allocator: behind what is there, inside the region");
	if (hasMin) __vc_assert(p >= lo, "allocator: not before the minimum");
	if (hasMax) __vc_assert(p <= hi, "allocator: not after the maximum");
	if (!again) __vc_assert(p == end, "allocator: first free position");
	__vc_assert(Allocations::getSubAreaUsage(1, P) == p + size - P - U, "allocator: the space is taken");
	__vc_reach("placed");
}
