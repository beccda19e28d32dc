// C34: results depend on the arguments alone, not on the calls made before. -DHIST_* selects the areas; other properties
// run the areas they are about.
#define MC_NO_ALARM // waits for child processes
#include "hist_calls.hpp"
static void Body() {
	hist::Alphabet a;
	hist::AddCalls<double>(a);
	hist::AddCalls<float>(a);
#ifdef HIST_ALL
	// One call of each function, the earlier and the last one in any area.
	hist::Alphabet one;
	for (auto& c : a) {
		const auto kind = c.name.substr(0, c.name.find(','));
		if (std::none_of(one.begin(), one.end(), [&](auto& o) { return o.name.substr(0, o.name.find(',')) == kind; })) one.push_back(c);
	}
	hist::Explore(one, false, mc::Tier(2, 2));
#else
	hist::Explore(a, true, 2);
	if (mc::Thorough()) {
		hist::Alphabet some;
		for (size_t i = 0; i < a.size(); i += 3) some.push_back(a[i]);
		hist::Explore(some, true, 3);
	}
#endif
}
MC_MAIN(Body)
