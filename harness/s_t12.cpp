// T12: histories of taking, copying, viewing, dropping and writing matrices with the cache on and off, against a model of
// buffers; what the cache keeps is read off the allocator, in units of 64 KB
#include "mat_common.h"

static const int UNIT = 65536;
struct Shape { Ints size; mt_Depth depth; int ch; int units; };
static const Shape& shape(int k) {
	static const Shape S[] = {
		{ { 128, 512 }, mt_U8, 1, 1 }, { { 512, 128 }, mt_U8, 1, 1 }, { { 65536 }, mt_I8, 1, 1 }, { { 128, 128 }, mt_F32, 1, 1 },
		{ { 2, 128, 256 }, mt_U16, 1, 2 }, { { 128, 128, 2 }, mt_F64, 1, 4 }, { { 128, 256 }, mt_U8, 2, 1 }, { { 2, 2, 2, 2, 2, 2048 }, mt_U8, 1, 1 },
	};
	return S[k];
}
static const int SHAPES = 8;

struct Buffer { int shape, value, refs; u8* data; bool cached; };
struct Model {
	vector<Buffer> all;
	int on, limit, trims;
	Model() : on(0), limit(1 << 20), trims(0) {}
	int used() const { int n = 0; for (auto& b : all) if (b.refs && b.cached) n += shape(b.shape).units; return n; }
	int mine() const { int n = 0; for (auto& b : all) if (b.refs) n += shape(b.shape).units; return n; }
};
struct Slot { mt_mat m; int b; int kind; Slot() : b(-1), kind(0) {} };

static long long start;
// memory used over that at the start of the case, in units
static int units() { return (int)((allocated() - start + UNIT / 2) / UNIT); }

static void check(Ctx& c, Model& m, Slot* s, int n, const string& what) {
	c.transitions++;
	for (int i = 0; i < n; ++i) if (s[i].b >= 0) {
		Buffer& b = m.all[s[i].b];
		const Shape& sh = shape(b.shape);
		size_t bytes = (size_t)sh.units * UNIT;
		if (s[i].kind == 0) {
			if (!has_shape(s[i].m, sh.size, sh.ch, sh.depth)) c.fail("shape", what + ": matrix " + num(i));
			if (s[i].m.data() != b.data) c.fail("place", what + ": matrix " + num(i) + " moved");
		}
		for (size_t k = 0; k < bytes; k += 4093) if (b.data[k] != (u8)b.value) c.fail("content", what + ": matrix " + num(i) + " changed");
		if (b.data[bytes - 1] != (u8)b.value) c.fail("content", what + ": matrix " + num(i) + " changed at its end");
		for (int j = 0; j < i; ++j) if (s[j].b >= 0 && s[j].b != s[i].b) {
			Buffer& o = m.all[s[j].b];
			if (b.data < o.data + (size_t)shape(o.shape).units * UNIT && o.data < b.data + bytes) c.fail("shared", what + ": matrices " + num(j) + " and " + num(i));
		}
	}
	// what is kept beyond what is in use was released while the cache was on
	int kept = units() - m.mine(), may = 0;
	for (auto& b : m.all) if (!b.refs && b.cached) may += shape(b.shape).units;
	if (kept < 0) c.fail("memory", what + ": " + num(kept) + " units kept");
	if (kept > may) c.fail("returned", what + ": " + num(kept) + " units are kept, " + num(may) + " were released to the cache");
}
// the memory limit is applied when something is taken or the limit is set
static void limited(Ctx& c, Model& m, int before_kept, const string& what) {
	int kept = units() - m.mine(), total = kept + m.used();
	if (total > std::max(m.limit, 2 * m.used())) c.fail("limit", what + ": " + num(total) + " units, limit " + num(m.limit) + ", in use " + num(m.used()));
	(void)before_kept;
	if (total != kept + m.used()) c.fail("limit", what);
	int may = 0;
	for (auto& b : m.all) if (!b.refs && b.cached) may += shape(b.shape).units;
	if (kept < may) {
		m.trims++;                                // which ones were let go is not told
		if (may + m.used() <= std::max(m.limit, 2 * m.used())) c.fail("kept", what + ": " + num(kept) + " of " + num(may) + " units were kept below the limit");
		if (kept == 0) { vector<Buffer>& a = m.all; for (auto& b : a) if (!b.refs) b.cached = false; m.trims = 0; }
	}
}

static void histories(Ctx& c, int depth, int shapes, int slots, bool on) {
	static const int OPS = 12;
	int ops[16], first = 3;
	for (int i = 0; i < first; ++i) ops[i] = c.choose(OPS);
	if (!c.shard()) return;
	{
		string what; what.reserve(2000);
		vector<std::unique_ptr<mt_auto_mat_cache>> scopes; scopes.reserve(8);
		Model m; m.all.reserve(64);
		Slot s[3];
		int value = 1;
		start = allocated();
		mt_mat_cache::set_memory_size((i64)m.limit * UNIT);
		auto leave = [&]() {
			scopes.pop_back(); m.on--;
			if (m.on == 0) { for (auto& b : m.all) b.cached = false; m.trims = 0; }
		};
		if (on) { what += "cache on"; scopes.emplace_back(new mt_auto_mat_cache); m.on++; }
		auto drop = [&](int i) { if (s[i].b >= 0) m.all[s[i].b].refs--; s[i].b = -1; s[i].kind = 0; s[i].m = mt_mat(); };
		auto slot = [&](bool full) {
			int i = c.choose(slots);
			if ((s[i].b >= 0) != full) throw Stop();
			return i;
		};
		for (int k = 0; k < depth; ++k) {
			int op = k < first ? ops[k] : c.choose(OPS);
			if (op <= 2) {                       // take one, three ways
				int i = slot(false), sh = c.choose(shapes);
				if (shapes == 3 && sh) sh += 3;        // of one, two and four units
				const Shape& S = shape(sh);
				what += ", " + num(i) + " takes " + num(sh);
				int had = units();
				int kept = had - m.mine();
				int waiting = 0, released = 0;
				for (auto& b : m.all) if (!b.refs && b.cached) { released++; if (b.shape == sh) waiting++; }
				mt_Depth_Channel dc(S.depth, S.ch);
				if (op == 0) s[i].m = mt_mat(S.size, dc);
				else if (op == 1) s[i].m = s_mat_cache.get((i32)S.size.size(), &S.size[0], dc);
				else {
					Slot* like = NULL;
					for (int j = 0; j < slots; ++j) if (s[j].b >= 0 && s[j].kind == 0 && m.all[s[j].b].shape == sh) like = &s[j];
					if (!like) throw Stop();
					s[i].m = s_mat_cache.get_as(like->m);
				}
				u8* p = s[i].m.data();
				int b = -1;
				for (int j = 0; j < (int)m.all.size(); ++j) {
					Buffer& x = m.all[j];
					if (x.data != p) continue;
					if (x.refs) c.fail("shared", what + ": the memory belongs to a live matrix");
					if (x.cached && m.on && x.shape == sh) b = j;
					else x.data = NULL;
				}
				// a released matrix of the same kind is taken again
				if (m.on && waiting && !m.trims && b < 0) c.fail("again", what + ": a released matrix of the same kind was not taken");
				if (b < 0) { m.all.push_back({ sh, 0, 1, p, m.on > 0 }); b = (int)m.all.size() - 1; if (units() < had + S.units && !(m.on && released)) c.fail("memory", what + ": nothing was allocated"); }
				else { m.all[b].refs = 1; if (units() > had) c.fail("again", what + ": memory grew"); }
				s[i].b = b; s[i].kind = 0;
				if (!has_shape(s[i].m, S.size, S.ch, S.depth) || !s[i].m.is_continuous()) c.fail("shape", what);
				m.all[b].value = ++value;
				memset(p, value, (size_t)S.units * UNIT);
				if (m.on) limited(c, m, kept, what);
			} else if (op == 3 || op == 4) {
				int i = slot(true);
				what += ", drop " + num(i);
				drop(i);
			} else if (op == 5) {                // copy
				int i = slot(true), j = slot(false);
				what += ", " + num(j) + " is a copy of " + num(i);
				s[j].m = s[i].m; s[j].b = s[i].b; s[j].kind = s[i].kind; m.all[s[i].b].refs++;
			} else if (op == 6) {                // the matrix itself becomes a view of its part
				int i = slot(true);
				if (s[i].kind) throw Stop();
				what += ", " + num(i) + " becomes a view";
				s[i].m = s[i].m.sub(0, 1, 0);
				s[i].kind = 1;
			} else if (op == 7) {
				int i = slot(true);
				what += ", write " + num(i);
				Buffer& b = m.all[s[i].b];
				b.value = ++value;
				memset(b.data, value, (size_t)shape(b.shape).units * UNIT);
			} else if (op == 8) {
				if (scopes.size() >= 2) throw Stop();
				what += ", cache on";
				scopes.emplace_back(new mt_auto_mat_cache); m.on++;
			} else if (op == 9) {
				if (scopes.empty()) throw Stop();
				what += ", cache off";
				leave();
			} else if (op == 10 || op == 11) {
				int limit = op == 10 ? 0 : 1 + c.choose(3) * 2;
				what += ", limit " + num(limit);
				m.limit = limit;
				int kept = units() - m.mine();
				mt_mat_cache::set_memory_size((i64)limit * UNIT);
				if (mt_mat_cache::get_memory_size() != (i64)limit * UNIT) c.fail("limit", what + ": the limit was not set");
				limited(c, m, kept, what);
			}
			check(c, m, s, slots, what);
			c.state(mix(mix(m.used() * 8 + m.on, units()), m.limit));
		}
		what += ", at the end";
		while (!scopes.empty()) leave();
		check(c, m, s, slots, what);
		for (int i = 0; i < slots; ++i) drop(i);
		check(c, m, s, slots, what);
		mt_mat_cache::set_memory_size((i64)1 << 30);
		c.nontrivial++;
		if (c.want_sample()) c.sample(what);
		c.outcome(mix(m.all.size(), m.trims));
	}
}
static void cached(Ctx& c) { histories(c, c.thorough ? 6 : 4, 3, 2, true); }
static void kinds(Ctx& c) { histories(c, c.thorough ? 4 : 3, SHAPES, 3, true); }
static void off(Ctx& c) { histories(c, c.thorough ? 5 : 4, 2, 2, false); }

// any two shapes: one released, the other taken
static void pairs(Ctx& c) {
	static const Ints S[] = { { 6 }, { 1, 6 }, { 6, 1 }, { 2, 3 }, { 3, 2 }, { 1, 2, 3 }, { 2, 3, 1 }, { 3, 2, 1 }, { 2, 1, 3 }, { 1, 1, 2, 3 }, { 2, 3, 1, 1, 1 }, { 1, 1, 1, 2, 3 }, { 7 }, { 2, 4 }, { 3, 3 }, { 2, 3, 2 }, { 1, 4, 3 }, { 4, 2, 3 }, { 2, 3, 1, 1, 2 }, { 2, 3, 1, 2, 1 } };
	static const mt_Depth D[] = { mt_U8, mt_I8, mt_U16, mt_I16, mt_U32, mt_I32, mt_U64, mt_I64, mt_F32, mt_F64 };
	int a = c.choose(20), d = c.choose(10), ch = 1 + c.choose(3);
	if (!c.shard()) return;
	for (int b = 0; b < 20; ++b) for (int e = 0; e < 10; ++e) for (int h = 1; h <= 3; ++h) {
		mt_auto_mat_cache on;
		u8* was;
		{ mt_mat x(S[a], mt_Depth_Channel(D[d], ch)); was = x.data(); memset(was, 1, x.memory_size()); }
		mt_mat y(S[b], mt_Depth_Channel(D[e], h));
		string what = shape_name(S[a], ch, D[d], 0) + " then " + shape_name(S[b], h, D[e], 0);
		if (!has_shape(y, S[b], h, D[e])) c.fail("shape", what);
		memset(y.data(), 2, (size_t)total(S[b]) * y.element_size());
		bool same = a == b && d == e && ch == h;
		if (same && y.data() != was) c.fail("again", what);
		if (!same && y.data() == was) c.fail("shared", what);
		mt_mat z(S[a], mt_Depth_Channel(D[d], ch));
		if (z.data() == y.data()) c.fail("shared", what);
		if (!same && z.data() != was) c.fail("again", what + ": the first is still there");
		if (!has_shape(z, S[a], ch, D[d])) c.fail("shape", what);
		c.transitions++;
	}
	c.nontrivial++;
	c.outcome(a * 64 + d * 4 + ch);
}
// what operations give to each other while the cache is on: results do not change when more is computed
static void operations(Ctx& c) {
	int ops[4], n = 4;
	for (int i = 0; i < n; ++i) ops[i] = c.choose(7);
	if (!c.shard()) return;
	auto once = [&](bool on) {
		std::unique_ptr<mt_auto_mat_cache> scope;
		if (on) scope.reset(new mt_auto_mat_cache);
		vector<mt_mat> m;
		mt_mat a(2, 3, mt_Depth_Channel(mt_F32, 1), 1.0), b(2, 3, mt_Depth_Channel(mt_F32, 1), 2.0);
		for (int k = 0; k < 6; ++k) { cell<f32>(a, { 2, 3 }, k, 0) = k + 1.5f; cell<f32>(b, { 2, 3 }, k, 0) = 7.0f - k; }
		m.push_back(a); m.push_back(b);
		for (int i = 0; i < n; ++i) {
			mt_mat x = m[m.size() - 1], y = m[m.size() - 2];
			switch (ops[i]) {
			case 0: m.push_back(x + y); break;
			case 1: m.push_back(x * y); break;
			case 2: m.push_back(x.clone()); break;
			case 3: m.push_back(x - 3.0); break;
			case 4: m.push_back((x * 2.0 - y).abs()); break;
			case 5: m.push_back(x.flip(0).flip(1)); break;
			default: { mt_mat t = x.clone(); t += y; m.erase(m.begin()); m.push_back(t); }
			}
		}
		vector<f32> r;
		for (auto& x : m) { vector<f32> v = values<f32>(x, { 2, 3 }, 1); r.insert(r.end(), v.begin(), v.end()); }
		return r;
	};
	vector<f32> with = once(true), without = once(false);
	if (with != without) c.fail("operations", "results differ with the cache on");
	c.transitions += n;
	c.nontrivial++;
	c.outcome(hash_bytes(with.data(), with.size() * 4));
}

int main(int argc, char** argv) {
	Suite s;
	s.groups = { { "cached", cached }, { "kinds", kinds }, { "off", off }, { "pairs", pairs }, { "operations", operations } };
	s.init = []() { log_logger::release(); };
	s.leaks = true;
	return run(s, argc, argv);
}
