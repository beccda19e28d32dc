#pragma once
// Controlled execution of small multi-threaded programs: every synchronization operation is a scheduling point decided by
// the explorer, every memory access of the instrumented code is checked for happens-before races.
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sched {

constexpr int MAX_THREADS = 3; // workers; index 0 of the clocks is the main thread
constexpr int MAX_POINTS = 4000;
constexpr int MAX_RESULT = 400;

struct Program {
	std::function<void()> prelude;                            // run by the main thread before the workers
	std::vector<std::function<std::vector<double>()>> bodies; // one per worker
};
struct Stats {
	uint64_t schedules = 0, points = 0, accesses = 0, syncs = 0, contended = 0, maxPreemptions = 0, stopped = 0;
	uint64_t bounds[8] = {}; // programs explored at each preemption bound
};
using Results = std::vector<std::vector<double>>;
// Runs the workers one after the other (in worker order).
Results Sequential(const Program& p, std::string& error);
// Every schedule with at most `bound` preemptions (fewer, but at least one, when that many cost more than `affordable` runs). Returns the description of the first failure, empty if there is none.
// `judge` decides whether the results of the workers are right.
std::string Explore(const Program& p, int bound, double affordable, uint64_t limit, const std::function<std::string(const Results&)>& judge, Stats& stats);

} // namespace sched
