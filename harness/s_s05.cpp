// S05: counters shared by threads, timers and counts of test conditions report exactly what happened
#define MC_COUNTS_BLOCKS 1
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#undef MC_COUNTS_BLOCKS
#endif
#endif
extern "C" { extern long long mc_live; }
#include <thread>
#include <atomic>
#include "repo.h"
#include "mc.h"
#include "mcsched.h"
#include <dlfcn.h>
#include <sys/time.h>
#include <sys/syscall.h>
using namespace mc;
static string num(long long a) { return std::to_string(a); }

// ---- the clock is ours
static bool fake; static long long now_us;
extern "C" int gettimeofday(struct timeval* tv, void*) throw() {
	if (fake) { tv->tv_sec = now_us / 1000000; tv->tv_usec = now_us % 1000000; }
	else { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; }
	return 0;
}

class Own : public log_logger {
public:
	vector<string>& out;
	Own(vector<string>& o) : log_logger(""), out(o) {}
	using log_logger::print;
protected:
	virtual void print(const string& s) { out.push_back(s); }
};
// the level, tag and text of what was logged, without place and time
static string essence(const vector<string>& pieces) {
	string all; for (auto& p : pieces) all += p;
	string r;
	size_t k = all.find(']');
	if (all.empty()) return "";
	r = all.substr(0, k + 1);
	size_t t = all.find('<'), u = all.find('>');
	r += all.substr(t, u - t + 1);
	size_t m = all.find(">, ", u);
	return r + all.substr(m + 3);
}

// ---- counters
typedef std::map<string, i64> Counts;
static const i64 VALUE[] = { 1, -2, 5, 0x7000000000LL, 0 };
static const char* KEY[] = { "a", "b", "" };
static void apply(Counts& c, int op, const string& key, i64 v) {
	Counts::iterator i = c.find(key);
	if (i == c.end()) { c[key] = v; return; }
	if (op == 0) i->second = v; else if (op == 1) i->second += v; else i->second = std::max(i->second, v);
}
static void call(int op, const string& key, i64 v) {
	if (op == 0) sys_alg_analyzer::set(key, v); else if (op == 1) sys_alg_analyzer::add(key, v); else sys_alg_analyzer::max_(key, v);
}
static string told(const Counts& c) {
	string s = "[sys_alg_analyzer]<sys_alg_analyzer>{\n";
	for (auto& x : c) s += x.first + ":" + num(x.second) + "\n";
	return s + "}\n";
}
// every history of beginning, counting and ending
static void counters(Ctx& c, int depth) {
	int on_at_end = c.choose(2);
	vector<int> ops;
	// 0..8: set, add, max of "a" with three values; 9, 10: another name; 11: begin, 12: end, 13: logger on and off
	for (int i = 0; i < depth; ++i) ops.push_back(c.choose(14));
	if (!c.shard()) return;
	Counts model; bool on = false, logger = true;
	vector<string> out;
	log_logger::init_logger(new Own(out));
	string what;
	auto end = [&]() {
		out.clear();
		sys_alg_analyzer::release();
		string want = on && logger ? told(model) : "", got = essence(out);
		if (got != want) c.fail("counters", what + ": reported " + got + " instead of " + want);
		on = false; model.clear();
	};
	for (int op : ops) {
		what += num(op) + " ";
		if (op < 9) { call(op / 3, KEY[0], VALUE[op % 3]); if (on) apply(model, op / 3, KEY[0], VALUE[op % 3]); }
		else if (op == 9) { call(1, KEY[1], VALUE[3]); if (on) apply(model, 1, KEY[1], VALUE[3]); }
		else if (op == 10) { call(2, KEY[2], VALUE[4]); if (on) apply(model, 2, KEY[2], VALUE[4]); }
		else if (op == 11) { sys_alg_analyzer::init(); on = true; }
		else if (op == 12) end();
		else { if (logger) log_logger::release(); else log_logger::init_logger(new Own(out)); logger = !logger; }
		c.transitions++;
		if (op < 12 && logger && !out.empty() && op != 12) { out.clear(); }
	}
	if (!logger) { log_logger::init_logger(new Own(out)); logger = true; }
	if (on_at_end && !on) { sys_alg_analyzer::init(); on = true; }
	end();
	log_logger::release();
	c.nontrivial++;
	c.outcome(hash_bytes(what.data(), what.size()));
	if (c.want_sample()) c.sample(what);
}
// threads: the result is that of some order of the operations
static void threads(Ctx& c, int n, int each, int bound) {
	int op[3][3];
	for (int t = 0; t < n; ++t) for (int k = 0; k < each; ++k) op[t][k] = c.choose(8);
	if (!c.shard()) return;
	string what; what.reserve(500);
	for (int t = 0; t < n; ++t) { what += t ? " | " : ""; for (int k = 0; k < each; ++k) what += num(op[t][k]) + " "; }
	vector<string> out; out.reserve(8);
	log_logger::init_logger(new Own(out));
	sys_alg_analyzer::init();
	// 0,1: add 1, 5 to a; 2: set a; 3,4: max a; 5: add to b; 6: set b; 7: max of c
	auto one = [](int o, Counts* m, int t) {
		static const int OP[] = { 1, 1, 0, 2, 2, 1, 0, 2 }; static const char* K[] = { "a", "a", "a", "a", "a", "b", "b", "c" }; static const int V[] = { 1, 5, 3, 2, 7, 4, 9, 1 };
		if (m) apply(*m, OP[o], K[o], V[o] + t * 10); else call(OP[o], K[o], V[o] + t * 10);
	};
	vector<std::function<void()>> fns;
	for (int t = 0; t < n; ++t) fns.push_back([&, t]() { for (int k = 0; k < each; ++k) one(op[t][k], NULL, t); });
	sched::S.reset_run();
	sched::S.hot.clear();
	sched::S.mode = sched::Explore; sched::S.explore_region = -1; sched::S.preempt_bound = bound; sched::S.log = true;
	uint64_t h = 1;
	sched::S.pick = [&](int k) { int x = c.choose(k); h = mix(h, x); return x; };
	sched::run_threads(fns);
	sched::S.mode = sched::Direct; sched::S.log = false; sched::S.pick = nullptr;
	c.transitions += sched::S.accesses; sched::S.accesses = 0;
	c.schedules++;
	c.outcome(h);
	out.clear();
	sys_alg_analyzer::release();
	log_logger::release();
	if (sched::S.deadlock || !sched::S.problem.empty()) c.fail("deadlock", what + sched::S.problem);
	if (!sched::S.conflicts.empty()) {
		const sched::Conflict& x = sched::S.conflicts[0];
		Dl_info a, b; memset(&a, 0, sizeof a); memset(&b, 0, sizeof b);
		dladdr(x.pc_a, &a); dladdr(x.pc_b, &b);
		c.fail("unsynchronised", what + ": " + (a.dli_sname ? a.dli_sname : "?") + " and " + (b.dli_sname ? b.dli_sname : "?"));
	}
	string got = essence(out);
	std::set<string> allowed;
	std::function<void(vector<int>, Counts)> go = [&](vector<int> at, Counts m) {
		bool done = true;
		for (int t = 0; t < n; ++t) if (at[t] < each) { done = false; vector<int> b = at; Counts k = m; one(op[t][b[t]++], &k, t); go(b, k); }
		if (done) allowed.insert(told(m));
	};
	go(vector<int>(n, 0), Counts());
	if (!allowed.count(got)) c.fail("lost", what + ": reported " + got + ", which no order gives");
	c.nontrivial++;
	if (c.want_sample()) c.sample(what);
}

// ---- timers
static void timers(Ctx& c, int depth) {
	int auto_out = c.choose(2), debug = c.choose(2), levels = c.choose(4), name = c.choose(3);
	vector<int> ops;
	for (int i = 0; i < depth; ++i) ops.push_back(c.choose(9));
	if (!c.shard()) return;
	static const long long GAP[] = { 0, 999, 1000, 1999, 2500000, 3600LL * 1000000 };
	static const string NAME[] = { "timer", "", string(3000, 'x') + " %d" };
	fake = true; now_us = 1700000000999500LL;
	vector<string> out;
	if (levels == 3) log_logger::release();
	else { Own* o = new Own(out); if (levels & 1) o->enable_debug(false); if (levels & 2) o->enable_info(false); log_logger::init_logger(o); }
	string what = num(auto_out) + num(debug) + num(levels) + num(name) + ":", got, want;
	long long cost = 0, count = 0;
	auto line = [&](bool d) {
		if (levels == 3 || (d ? levels & 1 : levels & 2)) return string();
		return string(d ? "[debug]" : "[info]") + "<>" + NAME[name] + " cost " + num(cost) + " ms, count = " + num(count) + "\n";
	};
	{
		sys_timer t(NAME[name], auto_out != 0, debug != 0);
		for (int op : ops) {
			what += " " + num(op);
			out.clear(); want.clear();
			if (op < 6) {
				t.begin(); now_us += GAP[op]; t.end(); ++count; cost += GAP[op] / 1000; now_us += 700;
			} else if (op == 6) { t.reset(); cost = count = 0; }
			else { t.out(op == 7); want = line(op == 7); }
			if (t.get_cost() != cost) c.fail("cost", what + ": " + num(t.get_cost()) + " instead of " + num(cost));
			if (sys_timer::get_tick_cout() != now_us / 1000) c.fail("tick", what);
			got = essence(out);
			if (got != want) c.fail("report", what + ": " + got + " instead of " + want);
			c.transitions++;
		}
		out.clear();
	}
	want = auto_out ? line(debug) : "";
	got = essence(out);
	if (got != want) c.fail("report", what + " at the end: " + got + " instead of " + want);
	log_logger::release();
	fake = false;
	c.nontrivial++;
	c.outcome(mix(cost * 16 + count, levels * 4 + auto_out * 2 + debug));
	if (c.want_sample()) c.sample(what);
}

// ---- test conditions
static void conditions(Ctx& c, int depth) {
	int type = c.choose(3), n = c.choose(depth + 1); vector<int> ops;
	for (int i = 0; i < n; ++i) ops.push_back(c.choose(5));
	if (!c.shard()) return;
	vector<string> out;
	if (type == 2) log_logger::release(); else log_logger::init_logger(new Own(out));
	sys_tester::init(type == 1 ? sys_tester::Test_Type_Assert : sys_tester::Test_Type_Slience);
	if (sys_tester::get_instance()->get_test_type() != (type == 1 ? sys_tester::Test_Type_Assert : sys_tester::Test_Type_Slience)) c.fail("conditions", "type");
	int total = 0, right = 0;
	string what = num(type) + ":";
	for (int op : ops) {
		what += " " + num(op);
		out.clear();
		int evaluated = 0; bool holds = op == 0 || op == 2 || op == 4;
		switch (op) {
		case 0: sys_test(++evaluated > 0); break;
		case 1: sys_test(evaluated > 0); break;
		case 2: sys_test_equal(2 + 2, 4); break;
		case 3: sys_test_equal(string("a"), "b"); break;
		default: sys_tester::get_instance()->add_case_condition(true);
		}
		string got = essence(out), want;
		if (!holds && type == 0) want = op == 1 ? "[info]<SYS_TEST>wrong condition\n" : "[info]<SYS_TEST_EQUAL>string(\"a\") is not equal to \"b\"\n";
		if (!holds && type == 1) want = "[error]<>\n";
		if (got != want) c.fail("conditions", what + ": logged " + got + " instead of " + want);
		if (type != 1 || op == 4) { ++total; right += holds; }
		c.transitions++;
	}
	out.clear();
	sys_tester::release();
	string want = type ? "" : total ? "[info]<sys_tester>total case: " + num(total) + " correct case: " + num(right) + " correct ratio: " : "[info]<sys_tester>no test case\n";
	string got = essence(out);
	if (total && !type) {
		if (got.compare(0, want.size(), want)) c.fail("conditions", what + ": " + got + " instead of " + want);
		char* e; double r = strtod(got.c_str() + want.size(), &e);
		if (strcmp(e, "\n") || fabs(r - right / (double)total) > 1e-3) c.fail("conditions", what + ": ratio " + got);
	} else if (got != want) c.fail("conditions", what + ": " + got + " instead of " + want);
	if (sys_tester::get_instance() != NULL) c.fail("conditions", "instance left");
	log_logger::release();
	c.nontrivial++;
	c.outcome(total * 1000 + right * 4 + type);
	if (c.want_sample()) c.sample(what);
}
static void thread_ids(Ctx& c) {
	if (!c.shard()) return;
	u64 mine = sys_os::current_thread_id(), other[3];
	vector<std::thread> t;
	std::atomic<int> ready(0);
	for (int i = 0; i < 3; ++i) t.push_back(std::thread([&, i]() { other[i] = sys_os::current_thread_id(); ++ready; while (ready < 3) std::this_thread::yield(); if (other[i] != sys_os::current_thread_id()) other[i] = mine; }));
	for (auto& x : t) x.join();
	std::set<u64> all(other, other + 3); all.insert(mine);
	if (all.size() != 4 || mine != sys_os::current_thread_id()) c.fail("ids", "threads share an id");
	c.nontrivial++; c.transitions += 4;
}
static void counters5(Ctx& c) { counters(c, c.thorough ? 5 : 4); }
static void timers4(Ctx& c) { timers(c, c.thorough ? 5 : 4); }
static void conditions6(Ctx& c) { conditions(c, c.thorough ? 7 : 6); }
static void two(Ctx& c) { threads(c, 2, 2, 2); }
static void two3(Ctx& c) { if (c.thorough) threads(c, 2, 3, 1); }
static void three(Ctx& c) { threads(c, 3, 1, 2); }

int main(int argc, char** argv) {
	Suite s;
	s.groups = { { "counters", counters5 }, { "timers", timers4 }, { "conditions", conditions6 }, { "ids", thread_ids },
		{ "threads, two", two }, { "threads, three", three }, { "threads, two with three", two3 } };
	s.init = []() { log_logger::release(); };
	s.leaks = true;
	return run(s, argc, argv);
}
