#include "fifocheck.h"

int main(int argc, char** argv)
{
	static std::vector<Fn> single, threads;
	for(auto* p : {part1, part2, part3, part4, part5, part6, part7, part8}) p(single, threads);
	return runMain(argc, argv, [](Rng& r) {
		if(ctx().counts["violations"] > 3 && ctx().only < 0) return; // every further one may take long
		auto& l = ctx().arg("kind") == "threads" ? threads : single;
		l[ctx().caseNo % l.size()](r);
		if(ctx().caseNo < 3) sample(fmt("case %llu: %s", (unsigned long long)ctx().caseNo, ctx().status->label));
	});
}
