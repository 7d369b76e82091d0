// T03 and T12: threads that share matrices or the cache, under every interleaving of their lock operations (and atomic
// accesses) up to a number of preemptions; accesses are logged, so that unsynchronised ones are found in any of them
#define MC_COUNTS_BLOCKS 1
extern "C" { extern long long mc_live, mc_blocks; }
#include "mat_common.h"
#include "mcsched.h"
#include <dlfcn.h>
#include <pthread.h>
// every thread has an identity of its own, never seen before
static unsigned long round_no = 1;
extern "C" pthread_t pthread_self() {
	static pthread_t (*real)() = (pthread_t(*)())dlsym(RTLD_NEXT, "pthread_self");
	return sched::current() >= 0 ? (pthread_t)(round_no * 64 + sched::current()) : real();
}

static std::string describe_conflicts() {
	std::ostringstream o;
	for (size_t i = 0; i < sched::S.conflicts.size() && i < 3; ++i) {
		const sched::Conflict& x = sched::S.conflicts[i];
		Dl_info a, b;
		memset(&a, 0, sizeof a); memset(&b, 0, sizeof b);
		dladdr(x.pc_a, &a); dladdr(x.pc_b, &b);
		o << " thread " << x.a << " in " << (a.dli_sname ? a.dli_sname : "?") << ", thread " << x.b << " in " << (b.dli_sname ? b.dli_sname : "?") << (x.write_write ? " (write)" : " (read)") << ";";
	}
	return o.str();
}
// what went wrong in a thread is told at the end
static string wrong;
static void note(const string& s) { if (wrong.empty()) wrong = s; }

static void run_all(Ctx& c, const vector<std::function<void()>>& fns, int bound, const string& what) {
	wrong.clear();
	++round_no;
	sched::S.reset_run();
	sched::S.hot.clear();
	sched::S.mode = sched::Explore;
	sched::S.explore_region = -1;
	sched::S.preempt_bound = bound;
	sched::S.log = true;
	uint64_t h = 1;
	sched::S.pick = [&](int n) { int k = c.choose(n); h = mix(h, k); return k; };
	sched::run_threads(fns);
	sched::S.mode = sched::Direct;
	sched::S.log = false;
	sched::S.pick = nullptr;
	c.transitions += sched::S.accesses;
	sched::S.accesses = 0;
	c.schedules++;
	c.outcome(h);
	if (sched::S.deadlock) c.fail("deadlock", what);
	if (!sched::S.problem.empty()) c.fail("lock", what + ": " + sched::S.problem);
	if (!sched::S.conflicts.empty()) c.fail("unsynchronised", what + ":" + describe_conflicts());
	if (!wrong.empty()) c.fail("wrong", what + ": " + wrong);
}

// ---- one memory, several matrices
static const int OPS = 11;
static const char* NAME[OPS] = { "copy", "view", "drop", "clone", "flip and write", "count", "new", "reshape", "add", "take from other", "swap" };
static const Ints SIZE = { 4, 3 };
struct World {
	mt_mat base;                     // only read by the threads
	mt_mat mine[3];                  // one for each thread, all on the same memory at the start
	i32 at(int r, int col) const { return r * 10 + col; }
	bool whole(const mt_mat& m) const {
		for (int r = 0; r < 4; ++r) for (int k = 0; k < 3; ++k) if (r != 0 && r != 1 && r != 2 && m.at<i32>(r, k, 0) != at(r, k)) return false;
		return true;
	}
};
static void act(World& world, int t, int op) {
	const World& w = world;
	mt_mat& v = world.mine[t];
	switch (op) {
	case 0: { mt_mat x = v.is_empty() ? w.base : v; mt_mat y(x); if (!y.is_same_size(x)) note("copy"); break; }
	case 1: { mt_mat x = w.base.sub(t, t + 1, 0); v = x.sub(1, 3, 1); if (v.size()[0] != 1 || v.size()[1] != 2) note("view"); if (v.at<i32>(0, 0, 0) % 100 != w.at(t, 1)) note("view shows " + num(v.at<i32>(0, 0, 0))); break; }
	case 2: v = mt_mat(); break;
	case 3: { mt_mat x = w.base.sub(3, 4, 0).clone(); if (x.at<i32>(0, 2, 0) != w.at(3, 2)) note("clone"); v = x; break; }
	case 4: {                            // the row of this thread is its own
		if (v.is_empty() || v.dim() != 2 || v.size()[0] != 4 || v.size()[1] != 3 || &v.at<i32>(t, 2, 0) != &w.base.at<i32>(t, 2, 0) || &v.at<i32>(t, 0, 0) != &w.base.at<i32>(t, 0, 0)) break;
		mt_mat row = v.sub(t, t + 1, 0).flip(1);
		for (int k = 0; k < 3; ++k) row.at<i32>(0, k, 0) = w.at(t, 2 - k) + 100 * (t + 1);
		for (int k = 0; k < 3; ++k) if (v.at<i32>(t, k, 0) != w.at(t, k) + 100 * (t + 1)) note("write");
		break;
	}
	case 5: { i32 n = w.base.reference_number(); if (n < 1 || n > 40) note("count " + num(n)); break; }
	case 6: { mt_mat x(2, 2, mt_Depth_Channel(mt_I32, 1)); x.set(7); if (x.at<i32>(1, 1, 0) != 7 || x.reference_number() != 1) note("new"); v = x; break; }
	case 7: { mt_mat x = w.base.reshape(Ints{ 3, 4 }); mt_mat y = x.swap_dim(0, 1); v = y; if (v.size()[0] != 4 || v.size()[1] != 3) note("reshape"); break; }
	case 8: { mt_mat x = w.base.sub(3, 4, 0) + 1; if (x.at<i32>(0, 1, 0) != w.at(3, 1) + 1) note("add"); break; }
	case 9: { mt_mat x; x = v; x = w.base; v = x; break; }
	default: { mt_mat x = w.base; std::swap(x, v); }
	}
}
static void shared(Ctx& c, int threads, int ops, int bound) {
	int op[3][3];
	for (int t = 0; t < threads; ++t) for (int k = 0; k < ops; ++k) op[t][k] = c.choose(OPS);
	bool keep = c.choose(2);
	// threads alike but for the row they write: one order is enough
	for (int k = 0; k < ops; ++k) { if (op[0][k] < op[1][k]) break; if (op[0][k] > op[1][k]) return; }
	if (!c.shard()) return;
	string what;
	for (int t = 0; t < threads; ++t) { what += (t ? " | " : ""); for (int k = 0; k < ops; ++k) what += string(k ? ", " : "") + NAME[op[t][k]]; }
	what.reserve(2000);
	// static things are made by a first run
	static bool first = true;
	if (first) { first = false; World w; w.base = mt_mat(4, 3, mt_Depth_Channel(mt_I32, 1), 1); for (int k = 0; k < OPS; ++k) act(w, 0, k); }
	vector<i32> cells;
	{
		std::unique_ptr<World> w(new World);
		w->base = mt_mat(4, 3, mt_Depth_Channel(mt_I32, 1));
		for (int r = 0; r < 4; ++r) for (int k = 0; k < 3; ++k) w->base.at<i32>(r, k, 0) = w->at(r, k);
		for (int t = 0; t < threads; ++t) w->mine[t] = w->base;
		vector<std::function<void()>> fns;
		for (int t = 0; t < threads; ++t) fns.push_back([&, t]() {
			for (int k = 0; k < ops; ++k) act(*w, t, op[t][k]);
			if (!keep) w->mine[t] = mt_mat();
		});
		run_all(c, fns, bound, what);
		int refs = 1;
		for (int t = 0; t < threads; ++t) {
			mt_mat& m = w->mine[t];
			if (!m.is_empty() && m.data() >= w->base.data() && m.data() < w->base.data() + 48) ++refs;
			int last = -1;
			bool wrote = false;
			for (int k = 0; k < ops; ++k) { if (op[t][k] == 4) wrote = true; last = op[t][k]; }
			(void)last;
			for (int k = 0; k < 3; ++k) { i32 x = w->base.at<i32>(t, k, 0); if (x != w->at(t, k) && !(wrote && x == w->at(t, k) + 100 * (t + 1))) c.fail("content", what + ": " + num(x)); }
		}
		for (int k = 0; k < 3; ++k) if (w->base.at<i32>(3, k, 0) != w->at(3, k)) c.fail("content", what);
		if (w->base.reference_number() != refs) c.fail("references", what + ": " + num(w->base.reference_number()) + " instead of " + num(refs));
		fns.clear();
	}
	c.nontrivial++;
	if (c.want_sample()) c.sample(what);
}
// the threads hold the only references: the last one to drop gives the memory back, exactly once
static void last(Ctx& c, int threads, int bound) {
	int op[3];
	for (int t = 0; t < threads; ++t) op[t] = c.choose(6);
	if (!c.shard()) return;
	string what;
	for (int t = 0; t < threads; ++t) what += string(t ? " | " : "") + num(op[t]);
	what.reserve(2000);
	static bool first = true;
	if (first) { first = false; mt_mat x(3, 2, mt_Depth_Channel(mt_I32, 1), 5); mt_mat y = x.clone(); y = x.sub(0, 1, 0); }
	{
		vector<mt_mat> m(threads);
		{ mt_mat x(3, 2, mt_Depth_Channel(mt_I32, 1), 5); for (int t = 0; t < threads; ++t) m[t] = op[t] == 5 ? x.sub(t, t + 1, 0) : x; }
		vector<std::function<void()>> fns;
		for (int t = 0; t < threads; ++t) fns.push_back([&, t]() {
			mt_mat& v = m[t];
			if (v.at<i32>(0, 0, 0) != 5) note("content");
			switch (op[t]) {
			case 0: v = mt_mat(); break;
			case 1: { mt_mat x = v.clone(); v = x; if (v.at<i32>(2, 1, 0) != 5 || v.reference_number() != 1 + 1) note("clone"); break; }
			case 2: { mt_mat x = v; v = mt_mat(); if (x.at<i32>(2, 1, 0) != 5) note("copy"); break; }
			case 3: { mt_mat* p = new mt_mat(v.sub(1, 2, 0)); v = *p; delete p; if (v.at<i32>(0, 1, 0) != 5) note("view"); break; }
			case 4: { vector<mt_mat> all(3, v); all.push_back(v.flip(0)); v = mt_mat(); if (all[3].at<i32>(0, 0, 0) != 5) note("several"); break; }
			default: v = v.clone(); if (v.at<i32>(0, 1, 0) != 5) note("view clone");
			}
			v = mt_mat();
		});
		run_all(c, fns, bound, what);
		fns.clear();
	}
	c.nontrivial++;
	if (c.want_sample()) c.sample(what);
}

// ---- the cache
struct Cached { std::unique_ptr<mt_auto_mat_cache> on; mt_mat slot[2]; i32 value[2]; };
static const int COPS = 7;
static const char* CNAME[COPS] = { "on", "take small", "take big", "take second", "drop", "limit", "off" };
static vector<std::pair<u8*, int>> held;     // memory in use, by thread
static void fill_own(mt_mat& m, i32 v) { i32* p = (i32*)m.data(); for (int i = 0; i < m.element_number(); ++i) p[i] = v; }
static bool own(const mt_mat& m, i32 v) { const i32* p = (const i32*)m.data(); for (int i = 0; i < m.element_number(); ++i) if (p[i] != v) return false; return true; }
static void cache_act(Cached& w, int t, int op, int step) {
	auto take = [&](int s, int n) {
		if (!w.slot[s].is_empty() && !own(w.slot[s], w.value[s])) note("a matrix in use changed");
		w.slot[s] = mt_mat(n, 2, mt_Depth_Channel(mt_I32, 1));
		if (w.slot[s].size()[0] != n || w.slot[s].size()[1] != 2) note("shape");
		w.value[s] = t * 100 + step * 10 + s + 1;
		fill_own(w.slot[s], w.value[s]);
	};
	switch (op) {
	case 0: if (!w.on) w.on.reset(new mt_auto_mat_cache); break;
	case 1: take(0, 2); break;
	case 2: take(0, 5); break;
	case 3: take(1, 2); break;
	case 4: for (int s = 0; s < 2; ++s) { if (!w.slot[s].is_empty() && !own(w.slot[s], w.value[s])) note("a matrix in use changed"); w.slot[s] = mt_mat(); } break;
	case 5: mt_mat_cache::set_memory_size(t == 0 ? 20 : 50); { i64 l = mt_mat_cache::get_memory_size(); if (l != 20 && l != 50) note("limit"); } break;
	default: w.on.reset();
	}
	for (int s = 0; s < 2; ++s) if (!w.slot[s].is_empty() && !own(w.slot[s], w.value[s])) note("a matrix in use changed");
}
static void cache(Ctx& c, int threads, int ops, int bound) {
	int op[3][4];
	for (int t = 0; t < threads; ++t) for (int k = 0; k < ops; ++k) op[t][k] = c.choose(COPS - 1) + 1;
	if (!c.shard()) return;
	string what;
	for (int t = 0; t < threads; ++t) { what += (t ? " | " : ""); for (int k = 0; k < ops; ++k) what += string(k ? ", " : "") + CNAME[op[t][k]]; }
	what.reserve(2000);
	auto all = [&](bool explore) {
		mt_mat_cache::set_memory_size(1 << 20);
		vector<std::unique_ptr<Cached>> w;
		for (int t = 0; t < threads; ++t) w.emplace_back(new Cached);
		vector<std::function<void()>> fns;
		for (int t = 0; t < threads; ++t) fns.push_back([&, t]() {
			cache_act(*w[t], t, 0, 0);
			for (int k = 0; k < ops; ++k) cache_act(*w[t], t, op[t][k], k + 1);
			cache_act(*w[t], t, 6, 0);
			for (int s = 0; s < 2; ++s) w[t]->slot[s] = mt_mat();
		});
		if (explore) run_all(c, fns, bound, what);
		else { sched::S.reset_run(); sched::S.mode = sched::Direct; sched::S.log = false; sched::run_threads(fns); }
	};
	// the threads are known to the cache from here on
	static bool first = true;
	if (first) { first = false; for (int i = 0; i < 2; ++i) { vector<std::function<void()>> f; for (int t = 0; t < 3; ++t) f.push_back([]() { mt_auto_mat_cache a; mt_mat x[4]; for (int k = 0; k < 4; ++k) x[k] = mt_mat(2 + k, 2, mt_Depth_Channel(mt_I32, 1)); }); sched::S.mode = sched::Direct; sched::run_threads(f); } }
	all(true);
	c.nontrivial++;
	if (c.want_sample()) c.sample(what);
}

static void two_one(Ctx& c) { shared(c, 2, 1, 3); }
static void two_two(Ctx& c) { shared(c, 2, 2, c.thorough ? 2 : 1); }
static void three_one(Ctx& c) { shared(c, 3, 1, c.thorough ? 2 : 1); }
static void last_two(Ctx& c) { last(c, 2, c.thorough ? 3 : 2); }
static void last_three(Ctx& c) { last(c, 3, c.thorough ? 2 : 1); }
static void cache_two(Ctx& c) { cache(c, 2, c.thorough ? 3 : 2, c.thorough ? 2 : 1); }
static void cache_three(Ctx& c) { cache(c, 3, 1, c.thorough ? 2 : 1); }

int main(int argc, char** argv) {
	Suite s;
	s.groups = { { "matrices shared by two, one each", two_one }, { "matrices shared by two, two each", two_two }, { "matrices shared by three", three_one }, { "matrices, last of two", last_two }, { "matrices, last of three", last_three }, { "cache of two", cache_two }, { "cache of three", cache_three } };
	s.leaks = true;
	s.init = []() { log_logger::release(); };
	return run(s, argc, argv);
}
