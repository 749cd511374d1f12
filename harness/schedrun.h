// what a check needs to run its threads under a generated schedule
#pragma once
#include "vt.h"

namespace sched {
struct Plan {
	struct Switch {
		unsigned long gap; // points that pass before it
		int to; // which of the other threads goes on
	};
	std::vector<Switch> cuts;
	unsigned long long seed = 0;
	int chance = 0;
};
Plan plan(vt::Src &s);
std::string show(const Plan &p);
// runs the functions as threads; the first one starts, the others follow as the plan says
void run(vt::Ctx &c, const Plan &p, std::vector<std::function<void()>> fs);
} // namespace sched
