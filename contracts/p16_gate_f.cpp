// P16, function contract of the validation loop: for any program (its commands are known only by what a pass reports and whether it
// asks for another pass) and any number of passes, it is encoded exactly once if the last pass reported no error, and not at all if
// it did or if the passes do not come to an end; messages of earlier passes do not count.
#include "common.h"
#include "Commands/CAssemblerCommand.h"
#include "Core/SymbolData.h"
#include "Core/Allocations.h"
bool encodeAssembly(std::unique_ptr<CAssemblerCommand> content, SymbolData& symData, TempData& tempData);
struct Seen { int passes = 0, last = 0, encoded = 0, sym = 0; int when = 0; int type = 0; bool open = false; };
struct AnyProgram : CAssemblerCommand
{
	Seen& s;
	AnyProgram(Seen& s) : s(s) {}
	bool Validate(const ValidateState& state) override
	{
		__vc_assert(state.passes == s.passes, "validation: passes are counted");
		__vc_assert(s.encoded == 0, "validation: nothing is encoded before the last pass");
		if (s.type && s.passes == s.when) Logger::queueError(s.type == 1 ? Logger::Notice : s.type == 2 ? Logger::Warning : s.type == 3 ? Logger::Error : Logger::FatalError, "x");
		return s.passes++ < s.last;
	}
	void Encode() const override { s.encoded++; s.open = g_fileManager->hasOpenFile(); }
	void writeTempData(TempData&) const override {}
	void writeSymData(SymbolData&) const override { s.sym++; }
};
// expect: P16_fn_gate_sh encoded refused endless
VC_ENTRY(P16_fn_gate_sh)
{
	unsigned k = __vc_choose(103 * 5 * 2 * 2, "shard");
	Seen s;
	s.last = k % 103;
	s.type = k / 103 % 5;
	bool promote = k / 515 % 2, early = k / 1030;
	s.when = early ? s.last - 1 : s.last;
	Logger::clear();
	Logger::setSilent(true);
	Logger::setErrorOnWarning(promote);
	Allocations::clear();
	Global.memoryMode = true;
	Global.memoryFile = std::make_shared<MemFile>();
	Global.multiThreading = true;
	SymbolData sym;
	TempData temp;
	bool ok = encodeAssembly(std::make_unique<AnyProgram>(s), sym, temp);
	bool endless = s.last >= 100, error = endless || (!early && (s.type >= 3 || (s.type == 2 && promote)));
	__vc_assert(ok == !error, "validation: fails exactly if the last pass reports an error or there is none");
	__vc_assert(s.encoded == (error ? 0 : 1), "validation: encoded once, and only without an error");
	__vc_assert(s.sym == (error ? 0 : 1), "validation: symbol data written once, and only without an error");
	if (!error) __vc_assert(s.open && s.passes == s.last + 1, "validation: encoded after the last pass with the output open");
	__vc_assert(!g_fileManager->hasOpenFile(), "validation: the output is closed");
	__vc_reach(endless ? "endless" : error ? "refused" : "encoded");
}
