// C25: components on random subsets of their objects (generated by vc/gen_comps.py) against their models.
#include "compmodel.h"
extern void (*const comps[])(Rng&, CompStore&);
extern unsigned const compCount;
extern char const* const compKinds[];

// Ramps have most state.
static unsigned pick(Rng& r)
{
	unsigned i = (unsigned)r.below(compCount);
	if(r.chance(1, 3)) while(strcmp(compKinds[i], "Ramp")) i = (unsigned)r.below(compCount);
	return i;
}

int main(int argc, char** argv)
{
	return runMain(argc, argv, [](Rng& r) {
		unsigned i = ctx().arg("comp", "").empty() ? pick(r) : (unsigned)atoi(ctx().arg("comp", "").c_str());
		auto store = std::unique_ptr<CompStore>(new CompStore());
		g_freq[i] = 10;
		g_pin[i] = false;
		g_pinSet[i].clear();
		// The store has no other objects changed by a component than its own.
		try { comps[i](r, *store); } catch(int) {}
	}, [] { countMax("components", compCount); });
}
