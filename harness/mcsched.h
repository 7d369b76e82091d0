// Controlled threads: OpenMP workers (own __kmpc runtime) and harness threads run as fibers on one OS
// thread; every switch is decided by a policy. Memory accesses of code compiled with -fsanitize=thread
// (whose runtime is replaced by mcsched_tsan.cpp) can be logged per thread and used as switch points.
#pragma once
#include <stdint.h>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace sched {

enum Mode {
	Direct,     // a fiber runs until it ends or blocks; next one by `order`
	Explore,    // switch points before accesses to `hot` addresses and at lock operations; `pick` decides
};

struct Access { uintptr_t addr; uint32_t size; bool write; bool atomic; const void* pc; };

struct Conflict { uintptr_t addr; int a, b; bool write_write; const void* pc_a; const void* pc_b; };

struct State {
	Mode mode;
	int order;                 // Direct: 0 ascending, 1 descending, k>1 rotations
	bool log;                  // collect accesses and compute conflicts per parallel region
	int default_threads;       // team size when num_threads is not given
	int preempt_bound;         // Explore: most preemptions per execution
	int preemptions;
	// Explore: choose among n enabled fibers; index 0 is the running one when it is still enabled
	std::function<int(int n)> pick;
	std::set<uintptr_t> hot;   // 8-byte granules with a conflict (scheduling points)
	std::vector<Conflict> conflicts;   // unsynchronised ones of the last execution
	long long regions, accesses, switches, points, max_team;
	int explore_region, region_no;     // Explore: only this parallel region of the execution (-1: all)
	bool deadlock;
	std::string problem;
	State();
	void reset_run();          // before one execution
};
extern State S;

// runs the functions as threads 0..n-1 under the current policy, returns when all have ended
void run_threads(const std::vector<std::function<void()> >& fns);
int current();                 // fiber id or -1
int team_size();
void point();                  // explicit switch point
void on_access(const void* addr, uint32_t size, bool write, bool atomic, const void* pc);
void on_alloc(void* p, size_t n);    // fresh memory has no history
void on_free(void* p, size_t n);     // freeing conflicts with every use
void no_preempt(int d);        // +1 / -1 nesting
}
