// T11: block memory against a model: a list of slots in the order they were added, and a stack of given back ones
#include "mat_common.h"

struct Plain { i32 v; };
struct Odd { char c; i32 v; double pad; char d[5]; };
static int alive;
struct Counted {
	Counted() : v(0) { ++alive; p = new i32(7); }
	~Counted() { --alive; delete p; }
	i32 v; i32* p;
private:
	Counted(const Counted&); void operator=(const Counted&);
};

template<class T> struct Model {
	struct Slot { T* p; i32 v; bool live; };
	vector<Slot> slots;
	vector<int> back;
	int base, max_back; bool with_new;
	vector<T*> blocks;     // where the blocks were after the last begin, in order
	void begin() { slots.clear(); back.clear(); }
	int live() const { int n = 0; for (auto& s : slots) n += s.live; return n; }
};

template<class T> static T* add(mt_block_memory<T>& bm) {
	T* data;
	basicmath_block_memory_get(bm, data, T);
	basicmath_block_memory_add(bm);
	return data;
}
template<class T> static void give_back(mt_block_memory<T>& bm, T* p) { basicmath_block_memory_reuse(bm, p); }
// the next element of a visit, or NULL at its end
template<class T> static T* next(const mt_block_memory<T>& bm, typename mt_block_memory<T>::block_pos& bp) {
	for (;;) {
		basicmath_block_memory_visit(bm, bp);
		return bp.m_data;
	}
	return NULL;
}

template<class T> static void check(Ctx& c, mt_block_memory<T>& bm, Model<T>& m, const string& what) {
	c.transitions++;
	int n = (int)m.slots.size(), size = 1 << m.base;
	if (bm.m_element_number != n) c.fail("count", what + ": " + num(bm.m_element_number) + " elements instead of " + num(n));
	const mt_block_memory<T>& cb = bm;
	for (int i = 0; i < n; ++i) {
		if (&bm.at(i) != m.slots[i].p || &cb.at(i) != m.slots[i].p) c.fail("place", what + ": element " + num(i) + " is not where it was added");
		if (m.slots[i].live && bm.at(i).v != m.slots[i].v) c.fail("content", what + ": element " + num(i) + " changed");
		if (!bm.in_block(m.slots[i].p)) c.fail("inside", what + ": element " + num(i) + " is not in the memory");
		for (int j = 0; j < i; ++j) if (abs((char*)m.slots[i].p - (char*)m.slots[j].p) < (long)sizeof(T)) c.fail("overlap", what);
		if (i % size && m.slots[i].p != m.slots[i - 1].p + 1) c.fail("together", what + ": element " + num(i) + " is not beside the one before");
	}
	// neither the place after the last one, nor memory of somebody else
	T* beyond = n % size ? m.slots[n - 1].p + 1 : NULL;
	if (beyond && bm.in_block(beyond)) c.fail("outside", what + ": a place not added is in the memory");
	static char other[64];
	if (bm.in_block((T*)other)) c.fail("outside", what);
	typename mt_block_memory<T>::block_pos bp;
	for (int i = 0; i < n; ++i) if (next(bm, bp) != m.slots[i].p) c.fail("visit", what + ": visit " + num(i) + " is elsewhere");
	if (next(bm, bp) != NULL) c.fail("visit", what + ": the visit goes on");
	u64 had = bm.memory_size();
	if (had < (u64)n * sizeof(T) || had % (size * sizeof(T))) c.fail("size", what + ": " + std::to_string(had) + " bytes");
	c.state(mix(mix(mix(n, m.base * 8 + m.max_back), m.back.size()), m.live() * 2 + m.with_new));
}

template<class T> static void histories(Ctx& c, int depth, int flavours) {
	int first = c.choose(flavours);
	static const struct { int base; bool with_new; int back; } F[] = { { 0, false, 0 }, { 1, true, 1 }, { 1, false, 2 }, { 2, false, 1 }, { 0, true, 2 }, { 2, true, 0 } };
	int ops[16];
	for (int i = 0; i < 2; ++i) ops[i] = c.choose(9);
	if (!c.shard()) return;
	int before = alive;
	{
		Model<T> m; i32 value = 100;
		std::unique_ptr<mt_block_memory<T>> bm;
		if (first & 1) bm.reset(new mt_block_memory<T>(F[first].base, F[first].with_new, F[first].back));
		else { bm.reset(new mt_block_memory<T>); if (bm->in_block((T*)&m)) c.fail("outside", "nothing yet"); bm->init(F[first].base, F[first].with_new, F[first].back); }
		m.base = F[first].base; m.with_new = F[first].with_new; m.max_back = F[first].back;
		string what = "begin " + num(first);
		typename mt_block_memory<T>::block_pos visit; int visited = 0; bool visiting = true;
		check(c, *bm, m, what);
		for (int k = 0; k < depth; ++k) {
			int op = k < 2 ? ops[k] : c.choose(9);
			auto one = [&]() {
				u64 size = bm->memory_size();
				T* p = add(*bm);
				if (!m.back.empty()) {
					int i = m.back.back(); m.back.pop_back();
					if (m.slots[i].p != p) c.fail("again", what + ": a given back place was not taken");
					m.slots[i].v = p->v = ++value; m.slots[i].live = true;
					if (bm->memory_size() != size) c.fail("again", what + ": memory grew");
				} else {
					m.slots.push_back({ p, ++value, true }); p->v = value;
				}
			};
			if (op == 0) { what += ", add"; one(); }
			else if (op == 1) { what += ", add three"; one(); one(); one(); }
			else if (op <= 4) {                      // give back the newest, the oldest or a middle one
				vector<int> live;
				for (int i = 0; i < (int)m.slots.size(); ++i) if (m.slots[i].live) live.push_back(i);
				if (live.empty() || (op == 3 && live.size() < 2) || (op == 4 && live.size() < 3)) throw Stop();
				int i = op == 2 ? live.back() : op == 3 ? live.front() : live[live.size() / 2];
				what += ", give back " + num(i);
				give_back(*bm, m.slots[i].p);
				m.slots[i].live = false;
				if ((int)m.back.size() < m.max_back) m.back.push_back(i);
			} else if (op == 5) {
				what += ", reset";
				u64 size = bm->memory_size();
				bm->reset(); m.begin(); visit = typename mt_block_memory<T>::block_pos(); visited = 0;
				if (bm->memory_size() != size) c.fail("reset", what + ": memory is not kept");
			} else if (op == 6) {                    // other ways to begin
				int f = c.choose(flavours + 1);
				if (f == flavours) {                 // only more to give back
					what += ", begin with more to give back"; m.max_back = m.max_back == 3 ? 1 : 3;
				} else { what += ", begin " + num(f); m.base = F[f].base; m.with_new = F[f].with_new; m.max_back = F[f].back; }
				bm->init(m.base, m.with_new, m.max_back); m.begin();
				visit = typename mt_block_memory<T>::block_pos(); visited = 0;
			} else if (op == 7) {
				what += ", clear";
				bm->clear(); m.begin();
				if (bm->memory_size() != 0 || bm->m_element_number != 0 || alive != before) c.fail("clear", what);
				if (bm->in_block((T*)&m)) c.fail("outside", what);
				bm->init(m.base, m.with_new, m.max_back);
				visit = typename mt_block_memory<T>::block_pos(); visited = 0;
			} else {                                 // a visit that goes on between other operations
				if (visited >= (int)m.slots.size()) throw Stop();
				what += ", visit one";
				if (next(*bm, visit) != m.slots[visited].p) c.fail("visit", what);
				++visited;
			}
			check(c, *bm, m, what);
		}
		c.nontrivial++;
		if (c.want_sample()) c.sample(what);
		c.outcome(mix(m.slots.size(), mix(m.back.size(), m.base)));
	}
	if (alive != before) c.fail("destroyed", num(alive - before) + " elements were never destroyed");
}
// elements in many blocks keep their place and content; the memory is used again without growing
template<class T> static void many(Ctx& c) {
	int base = c.choose(7), count = c.choose(12), back = c.choose(4);
	bool with_new = c.choose(2);
	if (!c.shard()) return;
	static const int N[] = { 1, 2, 3, 4, 7, 8, 9, 31, 64, 65, 200, 1000 };
	int n = N[count];
	mt_block_memory<T> bm(base, with_new, back * 5);
	u64 size = 0;
	for (int round = 0; round < 3; ++round) {
		vector<T*> p;
		for (int i = 0; i < n; ++i) { p.push_back(add(bm)); p.back()->v = i * 3 + round; }
		for (int i = 0; i < n; ++i) if (&bm.at(i) != p[i] || p[i]->v != i * 3 + round) c.fail("content", "element " + num(i) + " of " + num(n) + " with base " + num(base));
		if (round && bm.memory_size() != size) c.fail("reset", "memory grew from " + std::to_string(size) + " to " + std::to_string(bm.memory_size()));
		size = bm.memory_size();
		u64 block = sizeof(T) << base;
		if (size > ((n >> base) + 1) * block) c.fail("size", std::to_string(size) + " bytes for " + num(n));
		typename mt_block_memory<T>::block_pos bp;
		for (int i = 0; i < n; ++i) if (next(bm, bp) != p[i]) c.fail("visit", num(i));
		if (next(bm, bp)) c.fail("visit", "goes on");
		// every second one back, then taken again in the reverse order, the rest new
		vector<T*> given;
		for (int i = 0; i < n; i += 2) { give_back(bm, p[i]); if ((int)given.size() < back * 5) given.push_back(p[i]); }
		for (int i = 0; i < 3 && !given.empty(); ++i) { if (add(bm) != given.back()) c.fail("again", num(i)); given.pop_back(); }
		for (int i = 1; i < n; i += 2) if (p[i]->v != i * 3 + round) c.fail("content", "element " + num(i) + " changed when others were given back");
		if (bm.m_element_number != n) c.fail("count", num(bm.m_element_number));
		bm.reset();
		c.transitions++;
	}
	c.nontrivial++;
	c.outcome(base * 100 + count);
}

static void plain(Ctx& c) { histories<Plain>(c, c.thorough ? 7 : 5, 6); }
static void odd(Ctx& c) { histories<Odd>(c, c.thorough ? 6 : 4, 6); }
static void many_plain(Ctx& c) { many<Plain>(c); }
static void many_odd(Ctx& c) { many<Odd>(c); }
// elements with a constructor need the way that constructs them
static void counted(Ctx& c) {
	int ops[8]; int n = c.thorough ? 7 : 6;
	for (int i = 0; i < n; ++i) ops[i] = c.choose(5);
	if (!c.shard()) return;
	int before = alive;
	{
		mt_block_memory<Counted> bm(1, sys_true, 1);
		int total = 0;
		for (int i = 0; i < n; ++i) {
			if (ops[i] == 0) { Counted* p = add(bm); p->v = ++total; if (*p->p != 7) c.fail("constructed", "an element was not constructed"); }
			else if (ops[i] == 1) { if (bm.m_element_number) give_back(bm, &bm.at(0)); else throw Stop(); }
			else if (ops[i] == 2) bm.reset();
			else if (ops[i] == 3) { bm.clear(); if (alive != before) c.fail("destroyed", "clear left elements"); bm.init(0, sys_true, 2); }
			else bm.init(2, sys_true, 0);
			for (int k = 0; k < bm.m_element_number; ++k) if (*bm.at(k).p != 7) c.fail("constructed", num(k));
			c.transitions++;
		}
		if ((u64)(alive - before) * sizeof(Counted) != bm.memory_size()) c.fail("size", "memory size differs from the elements constructed");
	}
	if (alive != before) c.fail("destroyed", num(alive - before) + " elements were never destroyed");
	c.nontrivial++;
	c.outcome(0);
}

int main(int argc, char** argv) {
	Suite s;
	s.groups = { { "plain", plain }, { "odd", odd }, { "many plain", many_plain }, { "many odd", many_odd }, { "counted", counted } };
	s.init = []() { log_logger::release(); };
	s.leaks = true;
	return run(s, argc, argv);
}
