// C24: random pipes (generated by tools/gen_pipes.py) against the model.
#include "pipemodel.h"
extern void (*const pipeFunctions[])(Env&);
extern char const* const pipeNames[];
extern unsigned const pipeCount;

int main(int argc, char** argv)
{
	return runMain(argc, argv, [](Rng& r) {
		unsigned i = ctx().arg("pipe", "").empty() ? (unsigned)r.below(pipeCount) : (unsigned)atoi(ctx().arg("pipe", "").c_str());
		FakeClock::t = 1000;
		label(pipeNames[i]);
		Env e(r);
		e.trace = std::string(pipeNames[i]) + " | ";
		try { pipeFunctions[i](e); }
		catch(Borderline&) { count("borderline comparisons"); }
		count("pipes");
		sig(e.trace);
		if(ctx().caseNo < 30) sample(e.trace.substr(0, 600));
	}, [] { countMax("compositions", pipeCount); });
}
