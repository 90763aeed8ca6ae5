// P12, function contract of the conditional: in every state (whatever the condition was in the pass before) and for every value
// of the condition, exactly one of the two blocks is validated, encoded and listed, and a change of the condition asks for
// another pass.  A chain .if/.elseif/.else is a conditional in the else block of the one before, so the contract composes to
// chains and nestings of any length.
#include "common.h"
#include "Commands/CDirectiveConditional.h"
#include "Core/SymbolData.h"
#include "Util/FileClasses.h"
struct Probe : CAssemblerCommand
{
	int* v; int* e; int* t; int* s; bool r;
	Probe(int* c, bool r) : v(c), e(c + 1), t(c + 2), s(c + 3), r(r) {}
	bool Validate(const ValidateState&) override { ++*v; return r; }
	void Encode() const override { ++*e; }
	void writeTempData(TempData&) const override { ++*t; }
	void writeSymData(SymbolData&) const override { ++*s; }
};
// expect: P12_fn_conditional_sh first second none
VC_ENTRY(P12_fn_conditional_sh)
{
	unsigned k = __vc_choose(3 * 2 * 4, "shard"), kind = k % 3;
	bool els = k / 3 % 2, ra = k / 6 % 2, rb = k / 12;
	int c[8] = {};
	auto label = Global.symbolTable.getLabel(Identifier("cond"), 0, 0);
	int64_t v0 = (int64_t) __vc_any("before", 64), v1 = (int64_t) __vc_any("now", 64);
	std::unique_ptr<CDirectiveConditional> d;
	if (kind == 0) d = std::make_unique<CDirectiveConditional>(ConditionType::IF, Expression(std::make_unique<ExpressionInternal>(Identifier("cond")), true));
	else d = std::make_unique<CDirectiveConditional>(kind == 1 ? ConditionType::IFDEF : ConditionType::IFNDEF, Identifier("cond"));
	d->setContent(std::make_unique<Probe>(c, ra), els ? std::make_unique<Probe>(c + 4, rb) : nullptr);
	auto set = [&](int64_t v) { label->setValue(v); label->setDefined(kind == 0 || v != 0); };
	auto want = [&](int64_t v) { return kind == 2 ? v == 0 : v != 0; };
	ValidateState st;
	set(v0);
	d->Validate(st);
	for (int& x : c) x = 0;
	set(v1);
	bool again = d->Validate(st);
	bool w = __vc_decide(want(v1)), w0 = __vc_decide(want(v0));
	__vc_assert(c[0] == (w ? 1 : 0) && c[4] == (!w && els ? 1 : 0), "conditional: exactly the selected block is validated");
	if (w != w0) __vc_assert(again, "conditional: a changed condition asks for another pass");
	if ((w && ra) || (!w && els && rb)) __vc_assert(again, "conditional: a change in the selected block asks for another pass");
	if (w == w0 && !(w ? ra : els && rb)) __vc_assert(!again, "conditional: settled if nothing changed");
	TempData td; SymbolData sd;
	d->Encode(); d->writeTempData(td); d->writeSymData(sd);
	for (int i = 1; i < 4; i++) __vc_assert(c[i] == (w ? 1 : 0) && c[4 + i] == (!w && els ? 1 : 0), "conditional: exactly the selected block is written");
	__vc_reach(w ? "first" : els ? "second" : "none");
}
