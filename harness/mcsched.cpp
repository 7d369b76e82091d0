#include "mcsched.h"
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define MC_ASAN 1
#include <sanitizer/common_interface_defs.h>
#endif
#endif

namespace sched {

State S;

State::State() : mode(Direct), order(0), log(false), default_threads(4), preempt_bound(2), preemptions(0), regions(0), accesses(0), switches(0), points(0), max_team(0), explore_region(-1), region_no(0), deadlock(false) {}

void State::reset_run() {
	preemptions = 0;
	region_no = 0;
	conflicts.clear();
	deadlock = false;
	problem.clear();
}

static const size_t STACK = 2048 * 1024;

extern "C" void mc_switch(void** save_sp, void* new_sp);
asm(R"(
.text
.globl mc_switch
.type mc_switch,@function
mc_switch:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	movq %rsp, (%rdi)
	movq %rsi, %rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
)");

typedef std::map<int, uint32_t> Clock;

struct Fiber {
	int id;
	void* sp;
	char* stack;
	std::function<void()> fn;
	bool done;
	void* wait_mutex;       // blocked on
	bool wait_barrier;
	std::map<int, uint32_t> clock;   // vector clock by fiber id
	// OpenMP
	int tid, team;
	int disp_seq;
	void* asan_fake;
	Fiber() : id(0), sp(NULL), stack(NULL), done(false), wait_mutex(NULL), wait_barrier(false), tid(0), team(1), disp_seq(0), asan_fake(NULL) {}
};

struct Dispatch { long long lb, ub, st, chunk; bool init; Dispatch() : init(false) {} };

struct Shadow {   // one byte: the last write, the last read and, if several threads have read it since, all of them
	int16_t wf, rf; bool watomic;
	uint32_t wc, rc;
	const void* wpc; const void* rpc;
	std::map<int, std::pair<uint32_t, const void*> >* more;
};
enum { PAGE = 256 };
struct Page { Shadow b[PAGE]; };

// a vector outside malloc, for what the scheduler keeps between regions
template <class T> struct Uncounted {
	typedef T value_type;
	Uncounted() {}
	template <class U> Uncounted(const Uncounted<U>&) {}
	T* allocate(size_t n) {
		void* p = mmap(NULL, n * sizeof(T), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		if (p == MAP_FAILED) abort();
		return (T*)p;
	}
	void deallocate(T* p, size_t n) { munmap(p, n * sizeof(T)); }
	template <class U> bool operator==(const Uncounted<U>&) const { return true; }
	template <class U> bool operator!=(const Uncounted<U>&) const { return false; }
};
typedef std::vector<Page*, Uncounted<Page*> > Pages;

// shadow bytes by address; pages are recycled between parallel regions
struct ShadowMap {
	std::unordered_map<uintptr_t, Page*> pages;
	uintptr_t last_key; Page* last;
	static Pages pool;
	// how many pages are touched depends on where the blocks lie, so they must not be counted among the blocks of the code
	// under test (mc_live): they come from mmap
	static void more_pages() {
		enum { N = 64 };
		Page* p = (Page*)mmap(NULL, N * sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		if (p == (Page*)MAP_FAILED) abort();
		for (int i = 0; i < N; ++i) pool.push_back(p + i);
	}
	ShadowMap() : last_key(0), last(NULL) {}
	~ShadowMap() { for (std::unordered_map<uintptr_t, Page*>::iterator i = pages.begin(); i != pages.end(); ++i) drop(i->second); }
	static void clean(Shadow& s) { delete s.more; s.more = NULL; s.wf = s.rf = -1; s.watomic = false; s.wc = s.rc = 0; }
	static void drop(Page* p) { for (int i = 0; i < PAGE; ++i) if (p->b[i].more) { delete p->b[i].more; p->b[i].more = NULL; } pool.push_back(p); }
	Shadow& at(uintptr_t a) {
		uintptr_t k = a / PAGE;
		if (last && last_key == k) return last->b[a % PAGE];
		Page*& p = pages[k];
		if (!p) {
			if (pool.empty()) more_pages();
			p = pool.back(); pool.pop_back();
			for (int i = 0; i < PAGE; ++i) clean(p->b[i]);
		}
		last_key = k; last = p;
		return p->b[a % PAGE];
	}
	void forget(uintptr_t a, size_t n) {
		uintptr_t e = a + n;
		if (n / PAGE > pages.size()) {
			std::vector<uintptr_t> ks;
			for (std::unordered_map<uintptr_t, Page*>::iterator i = pages.begin(); i != pages.end(); ++i) if (i->first * PAGE < e && (i->first + 1) * PAGE > a) ks.push_back(i->first);
			for (size_t i = 0; i < ks.size(); ++i) part(ks[i], a, e);
		} else for (uintptr_t k = a / PAGE; k * PAGE < e; ++k) part(k, a, e);
	}
	void part(uintptr_t k, uintptr_t a, uintptr_t e) {
		std::unordered_map<uintptr_t, Page*>::iterator i = pages.find(k);
		if (i == pages.end()) return;
		for (int j = 0; j < PAGE; ++j) if (k * PAGE + j >= a && k * PAGE + j < e) clean(i->second->b[j]);
	}
};
Pages ShadowMap::pool;

struct Region {
	std::vector<Fiber*> f;
	Fiber* cur;
	int barrier_waiting;
	std::vector<Dispatch> disp;
	ShadowMap shadow;
	std::unordered_map<void*, int> owner;                     // mutex -> fiber
	std::unordered_set<void*> gone;                           // destroyed mutexes
	std::unordered_map<void*, std::map<int, uint32_t> > lock_clock;
	std::unordered_map<uintptr_t, std::map<int, uint32_t> > atomic_clock;
	Region() : cur(NULL), barrier_waiting(0) {}
};

static Region* R = NULL;
static void* main_sp = NULL;
static std::vector<char*, Uncounted<char*> > stack_pool;
static int nopreempt = 0;
static bool inside = false;   // in the runtime itself: ignore accesses
static int next_threads = 0;

struct Inside { bool o; Inside() : o(inside) { inside = true; } ~Inside() { inside = o; } };

static char* get_stack() {
	if (!stack_pool.empty()) { char* s = stack_pool.back(); stack_pool.pop_back(); return s; }
	char* s = (char*)mmap(NULL, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	return s;
}

static const void* main_bottom; static size_t main_size;

static void to_main(bool dying) {
	Fiber* f = R->cur;
#ifdef MC_ASAN
	__sanitizer_start_switch_fiber(dying ? NULL : &f->asan_fake, main_bottom, main_size);
#endif
	mc_switch(&f->sp, main_sp);
#ifdef MC_ASAN
	__sanitizer_finish_switch_fiber(f->asan_fake, &main_bottom, &main_size);
#endif
}

static void entry() {
#ifdef MC_ASAN
	__sanitizer_finish_switch_fiber(NULL, &main_bottom, &main_size);
#endif
	Fiber* f = R->cur;
	inside = false;
	f->fn();
	inside = true;
	f->done = true;
	to_main(true);
	abort();
}

static void resume(Fiber* f) {
	R->cur = f;
	bool o = inside;
	inside = false;
#ifdef MC_ASAN
	void* fake = NULL;
	__sanitizer_start_switch_fiber(&fake, f->stack, STACK);
#endif
	mc_switch(&main_sp, f->sp);
#ifdef MC_ASAN
	__sanitizer_finish_switch_fiber(fake, NULL, NULL);
#endif
	inside = o;
	R->cur = NULL;
	++S.switches;
}

static void join_clock(std::map<int, uint32_t>& a, const std::map<int, uint32_t>& b) {
	for (std::map<int, uint32_t>::const_iterator i = b.begin(); i != b.end(); ++i) if (a[i->first] < i->second) a[i->first] = i->second;
}

static bool enabled(Fiber* f) {
	if (f->done) return false;
	if (f->wait_barrier) return false;
	if (f->wait_mutex && R->owner.count(f->wait_mutex)) return false;
	return true;
}

static void release_barrier() {
	int live = 0, waiting = 0;
	for (size_t i = 0; i < R->f.size(); ++i) { if (!R->f[i]->done) ++live; if (R->f[i]->wait_barrier) ++waiting; }
	if (live > 0 && waiting == live) {
		std::map<int, uint32_t> all;
		for (size_t i = 0; i < R->f.size(); ++i) join_clock(all, R->f[i]->clock);
		for (size_t i = 0; i < R->f.size(); ++i) { Fiber* f = R->f[i]; f->wait_barrier = false; f->clock = all; f->clock[f->id]++; }
	}
}

static void run_region(std::vector<std::function<void()> > fns, bool omp) {
	Inside in;
	Region reg;
	Region* saved = R;
	R = &reg;
	++S.regions;
	int n = (int)fns.size();
	if (n > S.max_team) S.max_team = n;
	std::vector<Fiber> fibers(n);
	for (int i = 0; i < n; ++i) {
		Fiber* f = &fibers[i];
		f->id = i; f->tid = i; f->team = n;
		f->fn = fns[i];
		f->clock[i] = 1;
		f->stack = get_stack();
		uintptr_t* sp = (uintptr_t*)(f->stack + STACK);
		*--sp = 0;
		*--sp = (uintptr_t)&entry;
		for (int k = 0; k < 6; ++k) *--sp = 0;
		f->sp = sp;
		reg.f.push_back(f);
	}
	std::vector<int> ord;
	for (int i = 0; i < n; ++i) {
		if (S.order == 0) ord.push_back(i);
		else if (S.order == 1) ord.push_back(n - 1 - i);
		else ord.push_back((i + S.order - 1) % n);
	}
	Fiber* last = NULL;
	const bool explore = S.mode == Explore && (S.explore_region < 0 || S.explore_region == S.region_no);
	++S.region_no;
	for (;;) {
		release_barrier();
		std::vector<Fiber*> en;
		if (last && enabled(last)) en.push_back(last);
		for (int i = 0; i < n; ++i) { Fiber* f = &fibers[ord[i]]; if (f != last && enabled(f)) en.push_back(f); }
		if (en.empty()) {
			bool all = true;
			for (int i = 0; i < n; ++i) if (!fibers[i].done) all = false;
			if (!all) {
				S.deadlock = true;
				S.problem = "deadlock: every unfinished thread waits for a lock or barrier";
				// the blocked threads are abandoned
			}
			break;
		}
		Fiber* f = en[0];
		if (explore && en.size() > 1 && S.pick) {
			bool running = last && en[0] == last;
			if (!(running && S.preemptions >= S.preempt_bound)) {
				++S.points;
				int k = S.pick((int)en.size());
				f = en[k];
				if (running && k > 0) ++S.preemptions;
			}
		}
		last = f;
		resume(f);
	}
	for (int i = 0; i < n; ++i) stack_pool.push_back(fibers[i].stack);
	R = saved;
}

void run_threads(const std::vector<std::function<void()> >& fns) { run_region(fns, false); }

int current() { return R && R->cur ? R->cur->id : -1; }
int team_size() { return R && R->cur ? R->cur->team : 1; }
void no_preempt(int d) { nopreempt += d; }

static void yield_main() { bool o = inside; to_main(false); inside = o; }

void point() {
	if (!R || !R->cur || nopreempt || S.mode != Explore) return;
	yield_main();
}

static void clash(uintptr_t a, int x, int y, bool ww, const void* px, const void* py) {
	if (S.conflicts.size() >= 64) return;
	Conflict c = { a, x, y, ww, px, py };
	S.conflicts.push_back(c);
}

void on_access(const void* p, uint32_t size, bool write, bool atomic, const void* pc) {
	if (inside || !R || !R->cur) return;
	Fiber* f = R->cur;
	uintptr_t a = (uintptr_t)p;
	if (a >= (uintptr_t)f->stack && a < (uintptr_t)f->stack + STACK) return;
	if (S.mode == Explore && !nopreempt && !S.hot.empty()) {
		bool hot = false;
		for (uintptr_t g = a >> 3; g <= (a + size - 1) >> 3; ++g) if (S.hot.count(g)) hot = true;
		if (hot) yield_main();
		else if (atomic) yield_main();
	} else if (atomic && S.mode == Explore && !nopreempt) yield_main();
	if (!S.log) return;
	Inside in;
	++S.accesses;
	if (atomic) {
		std::map<int, uint32_t>& ac = R->atomic_clock[a];
		join_clock(f->clock, ac);
		if (write) { join_clock(ac, f->clock); f->clock[f->id]++; }
	}
	const uint32_t me = f->clock[f->id];
	for (uint32_t k = 0; k < size; ++k) {
		Shadow& s = R->shadow.at(a + k);
		if (s.wf >= 0 && s.wf != f->id && f->clock[s.wf] < s.wc) {
			if (!(atomic && s.watomic)) clash(a + k, s.wf, f->id, write, s.wpc, pc);
			S.hot.insert((a + k) >> 3);
		}
		if (write) {
			if (s.rf >= 0 && s.rf != f->id && f->clock[s.rf] < s.rc) { if (!atomic) clash(a + k, s.rf, f->id, false, s.rpc, pc); S.hot.insert((a + k) >> 3); }
			if (s.more) {
				for (std::map<int, std::pair<uint32_t, const void*> >::iterator i = s.more->begin(); i != s.more->end(); ++i)
					if (i->first != f->id && f->clock[i->first] < i->second.first) { if (!atomic) clash(a + k, i->first, f->id, false, i->second.second, pc); S.hot.insert((a + k) >> 3); }
				delete s.more;
				s.more = NULL;
			}
			s.wf = (int16_t)f->id; s.wc = me; s.wpc = pc; s.watomic = atomic;
			s.rf = -1;
		} else if (!atomic) {
			if (s.rf >= 0 && s.rf != f->id) {
				if (!s.more) s.more = new std::map<int, std::pair<uint32_t, const void*> >;
				(*s.more)[s.rf] = std::make_pair(s.rc, s.rpc);
			}
			s.rf = (int16_t)f->id; s.rc = me; s.rpc = pc;
		}
	}
}

void on_alloc(void* p, size_t n) {
	if (inside || !R || !R->cur) return;
	Inside in;
	for (std::unordered_set<void*>::iterator i = R->gone.begin(); i != R->gone.end();) {
		if ((uintptr_t)*i >= (uintptr_t)p && (uintptr_t)*i < (uintptr_t)p + n) i = R->gone.erase(i); else ++i;
	}
	if (S.log) R->shadow.forget((uintptr_t)p, n);
}
void on_free(void* p, size_t n) {
	if (inside || !S.log || !R || !R->cur) return;
	on_access(p, n > 1024 ? 1024 : (uint32_t)n, true, false, __builtin_return_address(0));
}

static void do_lock(void* m) {
	Fiber* f = R->cur;
	if (S.mode == Explore && !nopreempt) yield_main();
	if (R->gone.count(m) && S.problem.empty()) S.problem = "a lock is taken after it was destroyed";
	while (R->owner.count(m)) {
		f->wait_mutex = m;
		yield_main();
		f->wait_mutex = NULL;
	}
	Inside in;
	R->owner[m] = f->id;
	join_clock(f->clock, R->lock_clock[m]);
}

static void do_unlock(void* m) {
	Fiber* f = R->cur;
	{
		Inside in;
		R->owner.erase(m);
		join_clock(R->lock_clock[m], f->clock);
		f->clock[f->id]++;
	}
	if (S.mode == Explore && !nopreempt) yield_main();
}

}  // namespace sched

using namespace sched;

// ---- libc locks (interposed; outside controlled threads the real ones are used)
#define REAL(ret, name, ...) typedef ret (*name##_t)(__VA_ARGS__); static name##_t real_##name; \
	static name##_t get_##name() { if (!real_##name) real_##name = (name##_t)dlsym(RTLD_NEXT, #name); return real_##name; }
REAL(int, pthread_mutex_lock, pthread_mutex_t*)
REAL(int, pthread_mutex_unlock, pthread_mutex_t*)
REAL(int, pthread_mutex_trylock, pthread_mutex_t*)
REAL(int, pthread_mutex_destroy, pthread_mutex_t*)
REAL(int, pthread_mutex_init, pthread_mutex_t*, const pthread_mutexattr_t*)
#ifndef MC_NO_INTERPOSE
extern "C" int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
	if (!inside && R && R->cur) { Inside in; R->gone.erase(m); R->lock_clock.erase(m); }
	return get_pthread_mutex_init()(m, a);
}
extern "C" int pthread_mutex_destroy(pthread_mutex_t* m) {
	if (!inside && R && R->cur) {
		Inside in;
		if (R->owner.count(m) && S.problem.empty()) S.problem = "a lock is destroyed while it is held";
		for (size_t i = 0; i < R->f.size(); ++i) if (R->f[i]->wait_mutex == m && S.problem.empty()) S.problem = "a lock is destroyed while a thread waits for it";
		if (R->gone.count(m) && S.problem.empty()) S.problem = "a lock is destroyed twice";
		bool stack = false;
		for (size_t i = 0; i < R->f.size(); ++i) if ((char*)m >= R->f[i]->stack && (char*)m < R->f[i]->stack + STACK) stack = true;
		if (!stack) R->gone.insert(m);
	}
	return get_pthread_mutex_destroy()(m);
}
extern "C" int pthread_mutex_lock(pthread_mutex_t* m) {
	if (inside || !R || !R->cur) return get_pthread_mutex_lock()(m);
	do_lock(m);
	return 0;
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m) {
	if (inside || !R || !R->cur) return get_pthread_mutex_unlock()(m);
	if (!R->owner.count(m)) return get_pthread_mutex_unlock()(m);
	do_unlock(m);
	return 0;
}
extern "C" int pthread_mutex_trylock(pthread_mutex_t* m) {
	if (inside || !R || !R->cur) return get_pthread_mutex_trylock()(m);
	if (S.mode == Explore && !nopreempt) point();
	if (R->owner.count(m)) return EBUSY;
	do_lock(m);
	return 0;
}
// static locals: a switch inside an initialiser must block the others, not the process
extern "C" int __cxa_guard_acquire(uint64_t* g) {
	char* b = (char*)g;
	if (__atomic_load_n(b, __ATOMIC_ACQUIRE)) return 0;
	if (R && R->cur && !inside) {
		do_lock(g);
		if (*b) { do_unlock(g); return 0; }
		return 1;
	}
	return 1;
}
extern "C" void __cxa_guard_release(uint64_t* g) {
	__atomic_store_n((char*)g, 1, __ATOMIC_RELEASE);
	if (R && R->cur && !inside && R->owner.count(g)) do_unlock(g);
}
extern "C" void __cxa_guard_abort(uint64_t* g) {
	if (R && R->cur && !inside && R->owner.count(g)) do_unlock(g);
}
#endif

// ---- OpenMP (the part clang emits for parallel, for, critical, barrier, single, master, reduction)
extern "C" {
typedef int32_t kmp_int32;
typedef void (*micro_t)(kmp_int32*, kmp_int32*, ...);

int omp_get_num_procs(void) { return 8; }
int omp_get_max_threads(void) { return S.default_threads; }
int omp_get_num_threads(void) { return R && R->cur ? R->cur->team : 1; }
int omp_get_thread_num(void) { return R && R->cur ? R->cur->tid : 0; }
int omp_in_parallel(void) { return R && R->cur && R->cur->team > 1; }
void omp_set_num_threads(int n) { if (n > 0) S.default_threads = n; }
void omp_set_dynamic(int) {}
int omp_get_dynamic(void) { return 0; }
void omp_set_nested(int) {}
int omp_get_nested(void) { return 0; }
double omp_get_wtime(void) { return 0; }
int omp_get_thread_limit(void) { return 1 << 20; }
int omp_get_level(void) { return R && R->cur ? 1 : 0; }

struct omp_l { void* x; };
void omp_init_lock(void** l) { *l = NULL; }
void omp_destroy_lock(void**) {}
void omp_set_lock(void** l) { if (R && R->cur) do_lock(l); }
void omp_unset_lock(void** l) { if (R && R->cur) do_unlock(l); }

kmp_int32 __kmpc_global_thread_num(void*) { return R && R->cur ? R->cur->tid : 0; }
void __kmpc_push_num_threads(void*, kmp_int32, kmp_int32 n) { next_threads = n; }
void __kmpc_push_proc_bind(void*, kmp_int32, kmp_int32) {}
kmp_int32 __kmpc_ok_to_fork(void*) { return 1; }
void __kmpc_serialized_parallel(void*, kmp_int32) {}
void __kmpc_end_serialized_parallel(void*, kmp_int32) {}

static void invoke(micro_t m, int tid, int n, void** a) {
	kmp_int32 g = tid, b = tid;
	switch ((n + 7) / 8) {
	case 0: m(&g, &b); break;
	case 1: m(&g, &b, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]); break;
	case 2: m(&g, &b, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15]); break;
	default:
		m(&g, &b, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15],
		  a[16], a[17], a[18], a[19], a[20], a[21], a[22], a[23], a[24], a[25], a[26], a[27], a[28], a[29], a[30], a[31]);
	}
}

void __kmpc_fork_call(void*, kmp_int32 argc, micro_t micro, ...) {
	void* args[32] = { 0 };
	va_list ap;
	va_start(ap, micro);
	if (argc > 32) { fprintf(stderr, "omp: too many arguments\n"); _exit(9); }
	for (int i = 0; i < argc; ++i) args[i] = va_arg(ap, void*);
	va_end(ap);
	int n = next_threads > 0 ? next_threads : S.default_threads;
	next_threads = 0;
	if (R && R->cur) {
		// nested: the team is the calling thread alone
		Fiber* f = R->cur;
		int tid = f->tid, team = f->team;
		f->tid = 0; f->team = 1;
		invoke(micro, 0, argc, args);
		f->tid = tid; f->team = team;
		return;
	}
	std::vector<std::function<void()> > fns;
	void** pa = args;
	for (int i = 0; i < n; ++i) fns.push_back([=]() { invoke(micro, i, argc, pa); });
	run_region(fns, true);
}
void __kmpc_fork_call_if(void* loc, kmp_int32 argc, micro_t micro, kmp_int32 cond, void* a) {
	if (cond) __kmpc_fork_call(loc, 1, micro, a);
	else { kmp_int32 z = 0; micro(&z, &z, a); }
}

static int my_tid() { return R && R->cur ? R->cur->tid : 0; }
static int my_team() { return R && R->cur ? R->cur->team : 1; }

} template <class T, class ST>
static void static_init(kmp_int32 sched, kmp_int32* last, T* lower, T* upper, ST* stride, ST incr, ST chunk) {
	int tid = my_tid(), n = my_team();
	long long lo = (long long)*lower, hi = (long long)*upper, st = (long long)incr;
	long long trip = st > 0 ? (hi < lo ? 0 : (hi - lo) / st + 1) : (lo < hi ? 0 : (lo - hi) / (-st) + 1);
	if (trip == 0) {
		if (last) *last = 0;
		*stride = incr;
		if (st > 0) *upper = *lower - 1; else *upper = *lower + 1;
		return;
	}
	if (sched == 33 || sched == 45) {   // static, chunked
		long long span = (long long)chunk * st;
		*stride = (ST)(span * n);
		*lower = (T)(lo + span * tid);
		*upper = (T)(lo + span * tid + span - st);
		if (last) *last = tid == ((trip - 1) / chunk) % n;
		return;
	}
	long long small = trip / n, extra = trip % n;
	long long b = tid * small + (tid < extra ? tid : extra);
	long long c = small + (tid < extra ? 1 : 0);
	*stride = (ST)(trip * st);
	*lower = (T)(lo + b * st);
	*upper = (T)(lo + (b + c - 1) * st);
	if (last) *last = c > 0 && b + c == trip;
}
extern "C" {
void __kmpc_for_static_init_4(void*, kmp_int32, kmp_int32 s, kmp_int32* l, int32_t* lo, int32_t* up, int32_t* st, int32_t inc, int32_t ch) { static_init<int32_t, int32_t>(s, l, lo, up, st, inc, ch); }
void __kmpc_for_static_init_4u(void*, kmp_int32, kmp_int32 s, kmp_int32* l, uint32_t* lo, uint32_t* up, int32_t* st, int32_t inc, int32_t ch) { static_init<uint32_t, int32_t>(s, l, lo, up, st, inc, ch); }
void __kmpc_for_static_init_8(void*, kmp_int32, kmp_int32 s, kmp_int32* l, int64_t* lo, int64_t* up, int64_t* st, int64_t inc, int64_t ch) { static_init<int64_t, int64_t>(s, l, lo, up, st, inc, ch); }
void __kmpc_for_static_init_8u(void*, kmp_int32, kmp_int32 s, kmp_int32* l, uint64_t* lo, uint64_t* up, int64_t* st, int64_t inc, int64_t ch) { static_init<uint64_t, int64_t>(s, l, lo, up, st, inc, ch); }
void __kmpc_for_static_fini(void*, kmp_int32) {}

static Dispatch serial_disp;
static Dispatch& disp() {
	if (!R || !R->cur) return serial_disp;
	int k = R->cur->disp_seq;
	if ((int)R->disp.size() <= k) R->disp.resize(k + 1);
	return R->disp[k];
}
static void disp_init(long long lb, long long ub, long long st, long long chunk) {
	Inside in;
	Dispatch& d = disp();
	if (d.init) return;
	d.init = true; d.lb = lb; d.ub = ub; d.st = st; d.chunk = chunk > 0 ? chunk : 1;
}
static int disp_next(long long& lo, long long& hi, long long& st, kmp_int32* last) {
	sched::point();
	Inside in;
	Dispatch& d = disp();
	bool more = d.st > 0 ? d.lb <= d.ub : d.lb >= d.ub;
	if (!more) { if (R && R->cur) R->cur->disp_seq++; else serial_disp.init = false; return 0; }
	lo = d.lb;
	hi = d.lb + (d.chunk - 1) * d.st;
	if (d.st > 0 ? hi > d.ub : hi < d.ub) hi = d.ub;
	st = d.st;
	d.lb = hi + d.st;
	if (last) *last = d.st > 0 ? d.lb > d.ub : d.lb < d.ub;
	return 1;
}
#define DISP(suf, T, ST) \
	void __kmpc_dispatch_init_##suf(void*, kmp_int32, kmp_int32, T lb, T ub, ST st, ST ch) { disp_init((long long)lb, (long long)ub, st, ch); } \
	int __kmpc_dispatch_next_##suf(void*, kmp_int32, kmp_int32* l, T* lo, T* up, ST* st) { long long a, b, c; if (!disp_next(a, b, c, l)) return 0; *lo = (T)a; *up = (T)b; *st = (ST)c; return 1; } \
	void __kmpc_dispatch_fini_##suf(void*, kmp_int32) {}
DISP(4, int32_t, int32_t) DISP(4u, uint32_t, int32_t) DISP(8, int64_t, int64_t) DISP(8u, uint64_t, int64_t)
void __kmpc_dispatch_deinit(void*, kmp_int32) {}

void __kmpc_barrier(void*, kmp_int32) {
	if (!R || !R->cur || R->cur->team == 1) return;
	R->cur->wait_barrier = true;
	yield_main();
}
void __kmpc_critical(void*, kmp_int32, void* lck) { if (R && R->cur) do_lock(lck); }
void __kmpc_critical_with_hint(void*, kmp_int32, void* lck, uint32_t) { if (R && R->cur) do_lock(lck); }
void __kmpc_end_critical(void*, kmp_int32, void* lck) { if (R && R->cur) do_unlock(lck); }
kmp_int32 __kmpc_master(void*, kmp_int32) { return my_tid() == 0; }
void __kmpc_end_master(void*, kmp_int32) {}
kmp_int32 __kmpc_masked(void*, kmp_int32, kmp_int32 f) { return my_tid() == f; }
void __kmpc_end_masked(void*, kmp_int32) {}
kmp_int32 __kmpc_single(void*, kmp_int32) { return my_tid() == 0; }
void __kmpc_end_single(void*, kmp_int32) {}
void __kmpc_flush(void*) {}
static char reduce_lock;
kmp_int32 __kmpc_reduce(void*, kmp_int32, kmp_int32, size_t, void*, void (*)(void*, void*), void*) { if (R && R->cur) do_lock(&reduce_lock); return 1; }
kmp_int32 __kmpc_reduce_nowait(void*, kmp_int32, kmp_int32, size_t, void*, void (*)(void*, void*), void*) { if (R && R->cur) do_lock(&reduce_lock); return 1; }
void __kmpc_end_reduce(void* l, kmp_int32 g, void*) { if (R && R->cur) do_unlock(&reduce_lock); __kmpc_barrier(l, g); }
void __kmpc_end_reduce_nowait(void*, kmp_int32, void*) { if (R && R->cur) do_unlock(&reduce_lock); }
}
