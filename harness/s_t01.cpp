// T01: matrices as views of shared memory: every sequence of view, copy and write operations against a model in which a
// view is a list of cells of a buffer.
#include "repo.h"
#include "mc.h"
#include <fstream>
#include <memory>
using namespace mc;

typedef vector<int> Ints;
struct View {
	std::shared_ptr<vector<double> > b;
	Ints size;
	int ch;
	mt_Depth depth;
	Ints cell;             // row-major over size, then channel
	bool external;         // memory given by the caller
	View() : ch(0), depth(mt_U8), external(false) {}
	int n() const { int r = 1; for (size_t i = 0; i < size.size(); ++i) r *= size[i]; return r; }
	int dims() const { return (int)size.size(); }
	double at(int k, int c) const { return (*b)[cell[k * ch + c]]; }
	// consecutive cells in order, or consecutive elements in reverse order
	int continuous() const {
		bool up = true, down = true;
		int e = n();
		for (int k = 0; k < e; ++k) for (int c = 0; c < ch; ++c) {
			if (cell[k * ch + c] != cell[0] + k * ch + c) up = false;
			if (cell[k * ch + c] != cell[0] - k * ch + c) down = false;
		}
		return up ? 1 : down ? -1 : 0;
	}
};
static Ints index_of(const Ints& size, int k) {
	Ints r(size.size());
	for (size_t i = size.size(); i-- > 0;) { r[i] = k % size[i]; k /= size[i]; }
	return r;
}
static void index_into(Ints& r, const Ints& size, int k) {
	r.resize(size.size());
	for (size_t i = size.size(); i-- > 0;) { r[i] = k % size[i]; k /= size[i]; }
}
static int flat(const Ints& size, const Ints& at) { int r = 0; for (size_t i = 0; i < size.size(); ++i) r = r * size[i] + at[i]; return r; }
static View like(const View& v, const Ints& size, int ch) {
	View r;
	r.b = v.b; r.size = size; r.ch = ch; r.depth = v.depth; r.external = v.external;
	r.cell.resize(r.n() * ch);
	return r;
}
// pick(index in the result) -> index in the source
template<class F> static View view(const View& v, const Ints& size, F pick) {
	View r = like(v, size, v.ch);
	int n = r.n();
	for (int k = 0; k < n; ++k) {
		int s = flat(v.size, pick(index_of(size, k)));
		for (int c = 0; c < v.ch; ++c) r.cell[k * v.ch + c] = v.cell[s * v.ch + c];
	}
	return r;
}
static View reshaped(const View& v, const Ints& size, int ch) { View r = like(v, size, ch); r.cell = v.cell; return r; }
static View fresh(const View& v) {
	View r = v;
	r.external = false;
	r.b = std::make_shared<vector<double> >(v.cell.size());
	for (size_t i = 0; i < v.cell.size(); ++i) { (*r.b)[i] = (*v.b)[v.cell[i]]; r.cell[i] = (int)i; }
	return r;
}
static View part(const View& v, int d, int a, int b) {
	Ints s = v.size;
	s[d] = b - a;
	return view(v, s, [&](Ints i) { i[d] += a; return i; });
}
static View flipped(const View& v, const vector<int>& ds) { return view(v, v.size, [&](Ints i) { for (size_t k = 0; k < ds.size(); ++k) i[ds[k]] = v.size[ds[k]] - 1 - i[ds[k]]; return i; }); }
static View swapped(const View& v, int a, int b) { Ints s = v.size; std::swap(s[a], s[b]); return view(v, s, [&](Ints i) { std::swap(i[a], i[b]); return i; }); }
static View channels(const View& v, int a, int b) {
	View r = like(v, v.size, b - a);
	int n = v.n();
	for (int k = 0; k < n; ++k) for (int c = a; c < b; ++c) r.cell[k * (b - a) + c - a] = v.cell[k * v.ch + c];
	return r;
}
static View repeated(const View& v, const Ints& times, int nch) {
	Ints s = v.size;
	for (size_t i = 0; i < s.size(); ++i) s[i] *= times[i];
	View w = view(v, s, [&](Ints i) { for (size_t k = 0; k < i.size(); ++k) i[k] %= v.size[k]; return i; });
	View r = like(w, s, v.ch * nch);
	int n = w.n();
	for (int k = 0; k < n; ++k) for (int c = 0; c < r.ch; ++c) r.cell[k * r.ch + c] = w.cell[k * v.ch + c % v.ch];
	return fresh(r);
}

enum Share { MUST, MUSTNOT, MAY };
struct Op { string name; std::function<mt_mat(const mt_mat&)> real; std::function<View()> model; Share share; };
struct Item { mt_mat m; View v; };

static string shape(const View& v) {
	std::ostringstream o;
	for (size_t i = 0; i < v.size.size(); ++i) o << (i ? "x" : "") << v.size[i];
	o << "c" << v.ch;
	return o.str();
}
static string num(int a) { return std::to_string(a); }

static vector<Op> all_ops(const View& v, bool few, bool continuous) {
	vector<Op> r;
	int D = v.dims();
	auto add = [&](const string& n, std::function<View()> m, Share s, std::function<mt_mat(const mt_mat&)> f) { Op o; o.name = n; o.model = std::move(m); o.share = s; o.real = std::move(f); r.push_back(std::move(o)); };
	for (int d = 0; d < D; ++d) {
		int z = v.size[d];
		string ds = num(d);
		for (int i = 0; i < z; ++i) if (z > 1 && (!few || i == z - 1)) add("index " + num(i) + " of " + ds, [=, &v]() { return part(v, d, i, i + 1); }, MUST, [=](const mt_mat& m) { return m.index(i, d); });
		if (z > 2) {
			add("sub of " + ds, [=, &v]() { return part(v, d, 1, z); }, MUST, [=](const mt_mat& m) { return m.sub(1, z, d); });
			if (!few) {
				add("sub to the end of " + ds, [=, &v]() { return part(v, d, 1, z); }, MUST, [=](const mt_mat& m) { mt_range g(0, 1); g.m_start = 1; g.m_end = z; return mt_mat(m, g, d); });
				add("front of " + ds, [=, &v]() { return part(v, d, 0, z - 1); }, MUST, [=](const mt_mat& m) { return m.front(z - 1, d); });
				add("back of " + ds, [=, &v]() { return part(v, d, 1, z); }, MUST, [=](const mt_mat& m) { return m.back(z - 1, d); });
			}
		}
		add("flip " + ds, [=, &v]() { return flipped(v, Ints(1, d)); }, MUST, [=](const mt_mat& m) { return m.flip(d); });
		if (z == 1 && D > 1) { Ints s = v.size; s.erase(s.begin() + d); add("decrease " + ds, [=, &v]() { return reshaped(v, s, v.ch); }, MAY, [=](const mt_mat& m) { return m.decrease_dim(d); }); }
		for (int e = d + 1; e < D; ++e) add("swap " + ds + " " + num(e), [=, &v]() { return swapped(v, d, e); }, MUST, [=](const mt_mat& m) { return e % 2 ? m.swap_dim(d, e) : m.swap_dim(e, d); });
		for (int a = 2; a < z && D < 6; ++a) if (z % a == 0) {
			Ints s = v.size;
			s[d] = a;
			s.insert(s.begin() + d + 1, z / a);
			add("split " + ds + " by " + num(a), [=, &v]() { return reshaped(v, s, v.ch); }, MUST, [=](const mt_mat& m) { int p[2] = { a, z / a }; return m.split_dim(d, 2, p); });
		}
		for (int k = 2; d + k <= D; ++k) {
			if (few && k > 2) continue;
			Ints s = v.size;
			for (int j = 1; j < k; ++j) s[d] *= s[d + j];
			s.erase(s.begin() + d + 1, s.begin() + d + k);
			add("combine " + num(k) + " from " + ds, [=, &v]() { return reshaped(v, s, v.ch); }, MAY, [=](const mt_mat& m) { return m.combine_dim(d, k); });
		}
		if (v.n() <= 12) { Ints t(D, 1); t[d] = 2; add("repeat " + ds, [=, &v]() { return repeated(v, t, 1); }, MUSTNOT, [=](const mt_mat& m) { return m.repeat(2, d); }); }
	}
	if (D < 6) for (int d = 0; d <= D; ++d) {
		if (few && d && d != D) continue;
		Ints s = v.size;
		s.insert(s.begin() + d, 1);
		add("increase " + num(d), [=, &v]() { return reshaped(v, s, v.ch); }, MUST, [=](const mt_mat& m) { return m.increase_dim(d); });
	}
	if (D == 2) {
		int h = v.size[0], w = v.size[1];
		if (!few) {
			add("row", [=, &v]() { return part(v, 0, h - 1, h); }, MUST, [=](const mt_mat& m) { return m.row(h - 1); });
			add("col", [=, &v]() { return part(v, 1, w - 1, w); }, MUST, [=](const mt_mat& m) { return m.col(w - 1); });
			add("t", [=, &v]() { return swapped(v, 0, 1); }, MUST, [=](const mt_mat& m) { return m.t(); });
			add("repeat 2d", [=, &v]() { return repeated(v, Ints({ 1, 3 }), 2); }, MUSTNOT, [=](const mt_mat& m) { return m.repeat_2d(1, 3, 2); });
		}
		if (h > 1 && w > 1) add("roi", [=, &v]() { return part(part(v, 0, 1, h), 1, 0, w - 1); }, MUST, [=](const mt_mat& m) { return mt_mat(m, mt_rect(0, 1, w - 1, h - 1)); });
	}
	if (D == 3 && !few) {
		int z = v.size[0];
		add("plane", [=, &v]() { return part(v, 0, z - 1, z); }, MUST, [=](const mt_mat& m) { return m.plane(z - 1); });
	}
	if (D > 1) {
		View w = v;
		vector<mt_range> g;
		for (int d = 0; d < D; ++d) { int z = v.size[d], a = z > 1 && d % 2 ? 1 : 0, b = z > 1 && !(d % 2) ? z - 1 : z; g.push_back(mt_range(a, b)); w = part(w, d, a, b); }
		add("sub ranges", [=, &v]() { return w; }, MUST, [=](const mt_mat& m) { return m.sub(g); });
		Ints all(D);
		for (int d = 0; d < D; ++d) all[d] = d;
		add("flip all", [=, &v]() { return flipped(v, all); }, MUST, [=](const mt_mat& m) { return m.flip_all_dim(); });
		Ints last(1, D - 1), ends({ D - 1, 0 });
		add("flip last of a list", [=, &v]() { return flipped(v, last); }, MUST, [=](const mt_mat& m) { return m.flip(last); });
		if (!few) add("flip ends of a list", [=, &v]() { return flipped(v, ends); }, MUST, [=](const mt_mat& m) { return m.flip(2, &ends[0]); });
		if (!few) { Ints t(D, 1); t[0] = 2; t[D - 1] = 2; if (v.n() <= 6) add("repeat ends", [=, &v]() { return repeated(v, t, 1); }, MUSTNOT, [=](const mt_mat& m) { return m.repeat(t); }); }
	}
	if (v.ch > 1) for (int a = 0; a < v.ch; ++a) for (int b = a + 1; b <= v.ch; ++b) {
		if (b - a == v.ch || (few && !(a == 1 && b == v.ch))) continue;
		if (b == a + 1) add("channel " + num(a), [=, &v]() { return channels(v, a, b); }, MUST, [=](const mt_mat& m) { return m.channel_at(a); });
		else add("channels " + num(a) + " to " + num(b), [=, &v]() { return channels(v, a, b); }, MUST, [=](const mt_mat& m) { return m.sub_channel(a, b); });
	}
	if (D < 6) { Ints s = v.size; s.push_back(v.ch); add("channel as dim", [=, &v]() { return reshaped(v, s, 1); }, MUST, [=](const mt_mat& m) { return m.channel_as_last_dim(); }); }
	if (D > 1 && v.ch == 1) {
		int z = v.size[D - 1];
		bool ok = z > 1;
		for (int k = 0; k < v.n(); ++k) if (k % z && v.cell[k] != v.cell[k - 1] + 1) ok = false;
		if (ok) { Ints s = v.size; s.pop_back(); add("dim as channel", [=, &v]() { return reshaped(v, s, z); }, MUST, [=](const mt_mat& m) { return m.last_dim_as_channel(); }); }
	}
	if (v.continuous() && continuous) {
		int n = v.n();
		add("flatten", [=, &v]() { return reshaped(v, Ints(1, n), v.ch); }, MUST, [=](const mt_mat& m) { return m.reshape(Ints(1, n)); });
		for (int a = 2; a <= n && a <= 3; ++a) if (n % a == 0) add("reshape to " + num(a) + " rows", [=, &v]() { return reshaped(v, Ints({ a, n / a }), v.ch); }, MUST, [=](const mt_mat& m) { return m.reshape_2d(a, n / a); });
		if (n % 2 == 0) add("reshape to 5 dims", [=, &v]() { return reshaped(v, Ints({ 1, 2, 1, n / 2, 1 }), v.ch); }, MUST, [=](const mt_mat& m) { return m.reshape(Ints({ 1, 2, 1, n / 2, 1 })); });
		if (v.continuous() > 0 || v.ch == 1) {
			if (!few) add("reshape 3d", [=, &v]() { return reshaped(v, Ints({ 1, n, 1 }), v.ch); }, MUST, [=](const mt_mat& m) { return m.reshape_3d(1, n, 1); });
		}
		if (v.continuous() > 0) for (int c = 1; c <= v.ch * 2; ++c) if (c != v.ch && v.size[D - 1] * v.ch % c == 0 && (c % v.ch == 0 || v.ch % c == 0)) {
			Ints s = v.size;
			s[D - 1] = s[D - 1] * v.ch / c;
			add("reshape to " + num(c) + " channels", [=, &v]() { return reshaped(v, s, c); }, MUST, [=](const mt_mat& m) { return m.reshape_channel(c); });
		}
	}
	add("clone", [=, &v]() { return fresh(v); }, MUSTNOT, [=](const mt_mat& m) { return m.clone(); });
	if (!few) {
		add("copy", [=, &v]() { return v; }, MUST, [=](const mt_mat& m) { mt_mat r(m); return r; });
		add("assign over another", [=, &v]() { return v; }, MUST, [=](const mt_mat& m) { int s[5] = { 1, 2, 1, 2, 1 }; mt_mat r(5, s, mt_I16C1, 3); r = m; return r; });
		add("assign over a small one", [=, &v]() { return v; }, MUST, [=](const mt_mat& m) { mt_mat r(2, mt_F32C1); r = m; return r; });
		add("copy from", [=, &v]() { return fresh(v); }, MUSTNOT, [=](const mt_mat& m) { mt_mat r(3, mt_F32C2); r.copy_from(m); return r; });
		if (v.ch > 1) { View w = fresh(channels(v, v.ch - 1, v.ch)); add("split channels", [=, &v]() { return w; }, MUSTNOT, [=](const mt_mat& m) { vector<mt_mat> s; m.split(s); return s.back(); }); }
		if (v.n() <= 8) add("repeat channels", [=, &v]() { return repeated(v, Ints(D, 1), 2); }, MUSTNOT, [=](const mt_mat& m) { return m.repeat(Ints(m.dim(), 1), 2); });
	}
	return r;
}

template<class T> static double cast_at(const u8* p) { return (double)*(const T*)p; }
static double read_at(const u8* p, mt_Depth d) {
	switch (d) {
	case mt_U8: return cast_at<u8>(p); case mt_I8: return cast_at<i8>(p); case mt_U16: return cast_at<u16>(p); case mt_I16: return cast_at<i16>(p);
	case mt_U32: return cast_at<u32>(p); case mt_I32: return cast_at<i32>(p); case mt_U64: return cast_at<u64>(p); case mt_I64: return cast_at<i64>(p);
	case mt_F32: return cast_at<f32>(p); default: return cast_at<f64>(p);
	}
}
static const int DSIZE[] = { 1, 1, 2, 2, 4, 4, 8, 8, 4, 8 };

static void values_match(Ctx& c, const mt_mat& m, const View& v, const string& what) {
	if (m.dim() != v.dims() || m.channel() != v.ch || m.depth() != v.depth) c.fail("shape", what + ": wrong dimensions, channels or depth");
	for (int d = 0; d < v.dims(); ++d) if (m.size()[d] != v.size[d]) c.fail("shape", what + ": size " + num(d) + " is " + num(m.size()[d]) + ", not " + num(v.size[d]));
	int n = v.n();
	vector<double> got;
	Ints at;
	for (int k = 0; k < n; ++k) {
		index_into(at, v.size, k);
		m.get(got, (int)at.size(), &at[0]);
		for (int ch = 0; ch < v.ch; ++ch) {
			double w = v.at(k, ch);
			if (got[ch] != w) c.fail("values", what + ": element " + num(k) + " channel " + num(ch) + " of " + shape(v) + " is " + std::to_string(got[ch]) + ", not " + std::to_string(w));
			if (at.size() == 2 && ch < 4 && m.get(at[0], at[1])[ch] != w) c.fail("values", what + ": first four channels of element " + num(k));
			if (read_at(m.ptr<u8>(at, ch), v.depth) != w) c.fail("values", what + ": pointer to element " + num(k));
		}
	}
}
static void walks_match(Ctx& c, const mt_mat& m, const View& v, const string& what) {
	int n = v.n(), ds = DSIZE[v.depth];
	if (m.element_number() != n || m.element_size() != ds * v.ch || m.memory_size() != n * ds * v.ch || m.channel_memory_size() != n * ds || m.element_channel_size() != ds) c.fail("sizes", what);
	{
		mt_array_element_const_iterator it(m);
		for (int k = 0; k <= n; ++k) {
			const u8* p = it.data();
			if (k == n ? p != NULL : p != m.ptr<u8>(index_of(v.size, k), 0)) c.fail("element iterator", what + ": step " + num(k) + " of " + shape(v));
			if (k < n && (it.index() != k || it.position() != index_of(v.size, k))) c.fail("element iterator", what + ": position at step " + num(k));
		}
	}
	{
		mt_array_memory_block_const_iterator it(m);
		int k = 0;
		while (const u8* p = it.data()) {
			for (int j = 0; j < it.block_element_number(); ++j, ++k) if (k >= n || p + j * it.block_element_step() != m.ptr<u8>(index_of(v.size, k), 0)) c.fail("block iterator", what + ": element " + num(k) + " of " + shape(v));
		}
		if (k != n) c.fail("block iterator", what + " ends after " + num(k));
		if (it.block_number() * it.block_element_number() != n) c.fail("block iterator", what + ": number of blocks");
	}
	{
		mt_array_index_iterator it(v.dims(), m.size());
		for (int k = 0; k < n; ++k) if (!it.next() || it.position() != index_of(v.size, k) || it.index() != k) c.fail("index iterator", what);
		if (it.next()) c.fail("index iterator", what + " does not end");
	}
	int cont = v.continuous();
	bool ones = false;
	for (int d = 0; d < v.dims(); ++d) if (v.size[d] == 1) ones = true;
	if (cont && !ones && !m.is_continuous()) c.fail("is_continuous", what + ": " + shape(v) + " is said not to be continuous");
	if (m.is_continuous()) {
		if (!cont) c.fail("is_continuous", what + ": " + shape(v) + " is said to be continuous");
		const u8* p = m.ptr<u8>(Ints(v.dims(), 0), 0);
		if (m.memory_data() != (cont > 0 ? p : p - (n - 1) * ds * v.ch)) c.fail("memory_data", what);
	}
	for (int k = 0; k < n; ++k) {
		Ints at = index_of(v.size, k);
		if (m.get_index(m.ptr<u8>(at, 0)) != at) c.fail("get_index", what + ": element " + num(k) + " of " + shape(v));
	}
	bool zero = true;
	for (int k = 0; k < n; ++k) for (int ch = 0; ch < v.ch; ++ch) if (v.at(k, ch) != 0) zero = false;
	if (m.is_zero() != zero) c.fail("is_zero", what);
}
static void equal_match(Ctx& c, const mt_mat& m, const View& v, const string& what) {
	mt_mat k = m.clone();
	if (!(k == m) || k != m || !(m == m)) c.fail("comparison", what + ": a clone is not equal");
	int n = v.n();
	for (int e = 0; e < n; ++e) {
		Ints at = index_of(v.size, e);
		u8* p = k.ptr<u8>(at, v.ch - 1);
		u8 old = *p;
		u8* q = p + DSIZE[v.depth] - 1;
		u8 old2 = *q;
		*q ^= 0x41;
		if (k == m || m == k) c.fail("comparison", what + ": element " + num(e) + " of " + shape(v) + " differs, but they compare equal");
		*q = old2;
		*p = old;
	}
}

// fresh writes: distinct values in range of every depth
static int g_next;
static double next_value(mt_Depth d) { g_next = (g_next + 7) % 120; double r = g_next + 1; if (d == mt_F32 || d == mt_F64) r += 0.5; return r; }

static void put(const View& v, int k, int ch, double x) { (*v.b)[v.cell[k * v.ch + ch]] = x; }

template<class T> static void put_at(mt_mat& m, const Ints& at, int ch, double x) { m.at<T>(at, ch) = (T)x; }

struct World {
	vector<std::unique_ptr<Item> > items;
	string trace;
	void all(Ctx& c, const string& what) { for (size_t i = 0; i < items.size(); ++i) values_match(c, items[i]->m, items[i]->v, trace + what + " seen through matrix " + num((int)i)); }
};

static void refs_match(Ctx& c, World& w) {
	for (size_t i = 0; i < w.items.size(); ++i) {
		const View& v = w.items[i]->v;
		int n = 0;
		for (size_t j = 0; j < w.items.size(); ++j) if (w.items[j]->v.b == v.b) {
			++n;
			if (!w.items[i]->m.is_memory_shared(w.items[j]->m)) c.fail("sharing", w.trace + ": matrices " + num((int)i) + " and " + num((int)j) + " should share memory");
		} else if (w.items[i]->m.is_memory_shared(w.items[j]->m)) c.fail("sharing", w.trace + ": matrices " + num((int)i) + " and " + num((int)j) + " should not share memory");
		if (!v.external && w.items[i]->m.reference_number() != n) c.fail("reference number", w.trace + ": matrix " + num((int)i) + " has " + num(w.items[i]->m.reference_number()) + " references, not " + num(n));
	}
}

static void writes(Ctx& c, World& w) {
	Item& t = *w.items.back();
	View& v = t.v;
	int n = v.n(), D = v.dims();
	for (int kind = 0; kind < 11; ++kind) {
		string what;
		if (kind == 0) {
			double x = next_value(v.depth);
			t.m.set(x);
			for (int k = 0; k < n; ++k) for (int ch = 0; ch < v.ch; ++ch) put(v, k, ch, x);
			what = "set one value";
		} else if (kind == 1) {
			vector<double> x;
			for (int ch = 0; ch < v.ch; ++ch) x.push_back(next_value(v.depth));
			if (v.ch <= 4) { double y[4] = { 1, 1, 1, 1 }; for (int ch = 0; ch < v.ch; ++ch) y[ch] = x[ch]; t.m.set(mt_scalar(y[0], y[1], y[2], y[3])); }
			else t.m.set(x);
			for (int k = 0; k < n; ++k) for (int ch = 0; ch < v.ch; ++ch) put(v, k, ch, x[ch]);
			what = "set one value per channel";
		} else if (kind == 2) {
			double x = 3;
			if (n + 3 > 127) continue;
			t.m.set_incremental(x);
			for (int k = 0; k < n; ++k) for (int ch = 0; ch < v.ch; ++ch) put(v, k, ch, x + k);
			what = "set incremental";
		} else if (kind == 3) {
			if (n * v.ch + 5 > 127 && v.depth < mt_U16) continue;
			t.m.set_incremental(5, sys_false);
			for (int k = 0; k < n; ++k) for (int ch = 0; ch < v.ch; ++ch) put(v, k, ch, 5 + k * v.ch + ch);
			what = "set incremental per channel";
		} else if (kind == 4 || kind == 5 || kind == 6) {
			// from another matrix: dense, reversed, or transposed
			mt_Depth od = kind == 6 ? (v.depth == mt_I16 ? mt_F64 : mt_I16) : v.depth;
			Ints rs(v.size.rbegin(), v.size.rend());
			mt_mat o;
			if (kind == 5) {
				o = mt_mat(rs, mt_Depth_Channel(od, v.ch), 0.0);
				for (int a = 0, b = D - 1; a < b; ++a, --b) o = o.swap_dim(a, b);
				o = o.flip(D - 1);
			} else o = mt_mat(v.size, mt_Depth_Channel(od, v.ch), 0.0);
			if (kind == 4) o = o.flip_all_dim();
			for (int k = 0; k < n; ++k) {
				Ints at = index_of(v.size, k);
				vector<double> x;
				for (int ch = 0; ch < v.ch; ++ch) { double y = kind == 6 ? (double)(int)next_value(mt_U8) : next_value(od); x.push_back(y); put(v, k, ch, y); }
				o.set(&x[0], D, &at[0]);
			}
			t.m.set(o);
			what = kind == 6 ? "set from another depth" : kind == 5 ? "set from a transposed matrix" : "set from a reversed matrix";
		} else if (kind == 7) {
			int k = n - 1;
			Ints at = index_of(v.size, k);
			double x = next_value(v.depth);
			t.m.set(x, D, &at[0]);
			for (int ch = 0; ch < v.ch; ++ch) put(v, k, ch, x);
			what = "set an element";
		} else if (kind == 8) {
			int k = n / 2;
			Ints at = index_of(v.size, k);
			double x = next_value(v.depth);
			int ch = v.ch - 1;
			switch (v.depth) {
			case mt_U8: put_at<u8>(t.m, at, ch, x); break; case mt_I8: put_at<i8>(t.m, at, ch, x); break; case mt_U16: put_at<u16>(t.m, at, ch, x); break; case mt_I16: put_at<i16>(t.m, at, ch, x); break;
			case mt_U32: put_at<u32>(t.m, at, ch, x); break; case mt_I32: put_at<i32>(t.m, at, ch, x); break; case mt_U64: put_at<u64>(t.m, at, ch, x); break; case mt_I64: put_at<i64>(t.m, at, ch, x); break;
			case mt_F32: put_at<f32>(t.m, at, ch, x); break; default: put_at<f64>(t.m, at, ch, x);
			}
			put(v, k, ch, x);
			what = "write through a reference";
		} else if (kind == 9) {
			if (D != 2 || v.ch != 1) continue;
			t.m.set_eye(c.sh->n % 2 == 0);
			for (int k = 0; k < n; ++k) { Ints at = index_of(v.size, k); put(v, k, 0, at[0] == (c.sh->n % 2 == 0 ? at[1] : v.size[1] - 1 - at[1]) ? 1 : 0); }
			what = "set eye";
		} else {
			t.m.set(0.0);
			for (int k = 0; k < n; ++k) for (int ch = 0; ch < v.ch; ++ch) put(v, k, ch, 0);
			if (!t.m.is_zero()) c.fail("is_zero", w.trace + " after zeros");
			what = "set zero";
		}
		c.transitions++;
		w.all(c, "; " + what);
	}
}

static void start(World& w, const Ints& size, int ch, mt_Depth depth, int how, vector<u8>& memory) {
	View v;
	v.size = size; v.ch = ch; v.depth = depth;
	int n = v.n() * ch;
	v.b = std::make_shared<vector<double> >(n);
	v.cell.resize(n);
	std::unique_ptr<Item> it(new Item());
	mt_Depth_Channel dc(depth, ch);
	if (how == 0) it->m = mt_mat(size, dc);
	if (how == 1) { it->m = mt_mat(2, mt_F32C1, 1.0); it->m.create((int)size.size(), &size[0], dc); }
	if (how == 2) { memory.assign(n * DSIZE[depth], 7); it->m = mt_mat((int)size.size(), &size[0], dc, &memory[0], NULL); v.external = true; }
	if (how == 3) { u8* p = (u8*)malloc(n * DSIZE[depth]); memset(p, 1, n * DSIZE[depth]); it->m = size.size() == 2 ? mt_mat(size[0], size[1], dc, p, NULL, p) : mt_mat(size, dc, p, Ints(), p); }
	for (int k = 0; k < v.n(); ++k) {
		Ints at = index_of(size, k);
		vector<double> x;
		for (int c = 0; c < ch; ++c) { double y = k * ch + c + 1 + (depth >= mt_F32 ? 0.25 : 0); x.push_back(y); v.cell[k * ch + c] = k * ch + c; (*v.b)[k * ch + c] = y; }
		it->m.set(&x[0], (int)size.size(), &at[0]);
	}
	it->v = v;
	w.items.push_back(std::move(it));
}

static void sequences(Ctx& c, const vector<Ints>& sizes, const Ints& chs, const vector<mt_Depth>& depths, int len, bool few, int hows, bool last_few = false) {
	const Ints& size = sizes[c.choose((int)sizes.size())];
	int ch = chs[c.choose((int)chs.size())];
	mt_Depth depth = depths[c.choose((int)depths.size())];
	int how = c.choose(hows);
	vector<u8> memory;
	{
		World w;
		g_next = 0;
		start(w, size, ch, depth, how, memory);
		w.trace = shape(w.items[0]->v) + " of depth " + num(depth);
		for (int step = 0; step < len; ++step) {
			vector<Op> ops = all_ops(w.items.back()->v, last_few || (few && step + 1 < len), w.items.back()->m.is_continuous());
			int o = c.choose((int)ops.size());
			if (step == 0 && len > 1) { if (!c.shard()) return; }
			Op& op = ops[o];
			w.trace += "; " + op.name;
			if (c.replay && getenv("MC_TRACE")) { std::ofstream o(getenv("MC_TRACE")); o << w.trace << "\n"; }
			std::unique_ptr<Item> it(new Item());
			it->m = op.real(w.items.back()->m);
			it->v = op.model();
			bool shared = it->m.is_memory_shared(w.items.back()->m);
			if (op.share == MUST && !shared) c.fail("sharing", w.trace + ": does not share memory");
			if (op.share == MUSTNOT && shared) c.fail("sharing", w.trace + ": shares memory");
			if (op.share == MAY && !shared) it->v = fresh(it->v);
			w.items.push_back(std::move(it));
			c.transitions++;
			if (step + 1 == len || c.replay) {
				values_match(c, w.items.back()->m, w.items.back()->v, w.trace);
			}
		}
		if (!c.shard()) return;
		const View& v = w.items.back()->v;
		walks_match(c, w.items.back()->m, v, w.trace);
		equal_match(c, w.items.back()->m, v, w.trace);
		refs_match(c, w);
		uint64_t h = mix(v.ch, v.depth);
		for (size_t i = 0; i < v.size.size(); ++i) h = mix(h, v.size[i]);
		for (size_t i = 0; i < v.cell.size(); ++i) h = mix(h, v.cell[i]);
		c.state(h);
		c.outcome(h);
		if (c.want_sample()) c.sample(w.trace);
		writes(c, w);
		c.nontrivial++;
		// the views outlive what they were made from
		while (w.items.size() > 1) {
			w.items.erase(w.items.begin());
			values_match(c, w.items[0]->m, w.items[0]->v, w.trace + ": after its sources are gone");
		}
		if (!w.items[0]->v.external) refs_match(c, w);
	}
}

// conversion between every pair of depths, of every shape of view
// sides beyond 32767, more than 65536 elements: element k of the source holds k; every view is read element by element
static void large(Ctx& c) {
	static const int S[][2] = { { 2, 40000 }, { 40000, 2 }, { 301, 250 }, { 70001, 1 }, { 1, 70001 } };
	const int* sz = S[c.choose(5)];
	int ch = 1 + c.choose(2), op = c.choose(14);
	if (!c.shard()) return;
	int R = sz[0], C = sz[1], n = R * C;
	string what = num(R) + "x" + num(C) + "c" + num(ch) + " operation " + num(op);
	mt_mat m(R, C, mt_Depth_Channel(mt_I32, ch));
	for (int y = 0; y < R; ++y) for (int x = 0; x < C; ++x) for (int q = 0; q < ch; ++q) m.at<i32>(y, x, q) = (y * C + x) * ch + q;
	mt_mat r;
	int H = R, W = C;
	std::function<int(int, int)> f;
	bool shares = true;
	switch (op) {
	case 0: r = m.flip(0); f = [=](int y, int x) { return (R - 1 - y) * C + x; }; break;
	case 1: r = m.flip(1); f = [=](int y, int x) { return y * C + C - 1 - x; }; break;
	case 2: r = m.t(); H = C; W = R; f = [=](int y, int x) { return x * C + y; }; break;
	case 3: r = m.clone(); shares = false; f = [=](int y, int x) { return y * C + x; }; break;
	case 4: r = m.flip(1).clone(); shares = false; f = [=](int y, int x) { return y * C + C - 1 - x; }; break;
	case 5: { int d = R > C ? 0 : 1, z = R > C ? R : C; r = m.sub(z - 20000 > 0 ? z - 20000 : z - 20, z - 1, d); int o = z - 20000 > 0 ? z - 20000 : z - 20; (d ? W : H) = z - 1 - o; f = [=](int y, int x) { return d ? y * C + x + o : (y + o) * C + x; }; break; }
	case 6: { int d = R > C ? 0 : 1, z = R > C ? R : C; r = m.index(z - 1, d); (d ? W : H) = 1; f = [=](int y, int x) { return d ? y * C + z - 1 : (z - 1) * C + x; }; break; }
	case 7: r = m.reshape_2d(1, n); H = 1; W = n; f = [=](int, int x) { return x; }; break;
	case 8: r = m.t().clone().reshape_2d(1, n); shares = false; H = 1; W = n; f = [=](int, int x) { return (x % R) * C + x / R; }; break;
	case 9: r = m.repeat(2, 0); shares = false; H = 2 * R; f = [=](int y, int x) { return (y % R) * C + x; }; break;
	case 10: { mt_mat k(C, R, mt_Depth_Channel(mt_I32, ch)); r = k.t(); r.set(m); shares = false; f = [=](int y, int x) { return y * C + x; }; break; }
	case 11: r = m.sub_channel(ch - 1, ch); f = [=](int y, int x) { return y * C + x; }; break;
	case 12: r = m.convert(mt_F64).convert(mt_I32); shares = false; f = [=](int y, int x) { return y * C + x; }; break;
	default: r = m.flip_all_dim(); f = [=](int y, int x) { return n - 1 - (y * C + x); };
	}
	int rc = op == 11 ? 1 : ch, q0 = op == 11 ? ch - 1 : 0;
	if (r.dim() != 2 || r.size()[0] != H || r.size()[1] != W || r.channel() != rc) c.fail("shape", what);
	if (shares != r.is_memory_shared(m)) c.fail("sharing", what);
	mt_array_element_const_iterator it(r);
	mt_mat same(H, W, mt_Depth_Channel(mt_I32, rc));
	for (int y = 0; y < H; ++y) for (int x = 0; x < W; ++x) {
		const i32* w = (const i32*)it.data();
		for (int q = 0; q < rc; ++q) {
			int want = f(y, x) * ch + q0 + q, got = r.at<i32>(y, x, q);
			if (got != want) c.fail("values", what + ": element " + num(y) + "," + num(x) + " channel " + num(q) + " is " + num(got) + ", not " + num(want));
			if (!w || w[q] != want) c.fail("iteration", what + ": element " + num(y) + "," + num(x));
			same.at<i32>(y, x, q) = want;
		}
	}
	if (it.data() != NULL) c.fail("iteration", what + " goes on behind the end");
	if (!(r == same) || r != same) c.fail("comparison", what);
	same.at<i32>(H - 1, W - 1, rc - 1) ^= 1;
	if (r == same) c.fail("comparison", what + " with another last element");
	c.transitions += 4; c.nontrivial++;
	c.outcome(mix(n, op * 2 + ch));
}
static void conversions(Ctx& c) {
	mt_Depth a = (mt_Depth)c.choose(10), b = (mt_Depth)c.choose(10);
	int kind = c.choose(6), ch = 1 + c.choose(5), into = c.choose(3);
	if (!c.shard()) return;
	static const double vals[] = { 0, 1, 127, 3, 255, 128, 200, 65535, 32768, 40000, 4294967295.0, 2147483648.0, 3000000000.0, -1, -128, -127, -32768, -30000, -2147483648.0, -2147483647.0, 9007199254740992.0, 0.5, -0.75, 1e10, 16777216.0 };
	static const double lo[] = { 0, -128, 0, -32768, 0, -2147483648.0, 0, -9.0e18, -3e38, -1e308 }, hi[] = { 255, 127, 65535, 32767, 4294967295.0, 2147483647.0, 1.8e19, 9.0e18, 3e38, 1e308 };
	vector<double> ok;
	for (int i = 0; i < 25; ++i) {
		double x = vals[i];
		if (x < lo[a] || x > hi[a] || x < lo[b] || x > hi[b]) continue;
		if (a < mt_F32 && x != floor(x)) continue;
		if ((a == mt_F32 || b == mt_F32) && (double)(float)x != x) continue;
		if (b < mt_F32 && x != floor(x) && x < 0 && b % 2 == 0) continue;
		ok.push_back(x);
	}
	Ints size = kind == 0 ? Ints({ 7 }) : kind == 1 ? Ints({ 3, 4 }) : kind == 2 ? Ints({ 4, 3 }) : kind == 3 ? Ints({ 2, 3, 2 }) : kind == 4 ? Ints({ 2, 1, 3, 2 }) : Ints({ 1, 2, 1, 2, 3 });
	mt_mat m(size, mt_Depth_Channel(a, ch), 0.0);
	if (kind == 2) m = m.t();
	if (kind == 3) m = m.flip(1);
	if (kind == 4) m = m.swap_dim(0, 3);
	Ints s(m.size(), m.size() + m.dim());
	int n = m.element_number();
	for (int k = 0; k < n; ++k) {
		Ints at = index_of(s, k);
		vector<double> x;
		for (int q = 0; q < ch; ++q) x.push_back(ok[(k * ch + q) % ok.size()]);
		m.set(&x[0], (int)s.size(), &at[0]);
	}
	mt_mat r;
	if (into == 0) r = m.convert(b);
	if (into == 1) { r = mt_mat(s, mt_Depth_Channel(b, ch), 9.0); r.set(m); }
	if (into == 2) { Ints big = s; big[0] += 1; r = mt_mat(big, mt_Depth_Channel(b, ch), 9.0).sub(1, big[0]); if (s.size() > 1) r = r.flip((int)s.size() - 1); r.set(m); }
	if (r.depth() != b || !r.is_same_size(m)) c.fail("conversion", "shape");
	vector<double> got;
	for (int k = 0; k < n; ++k) {
		Ints at = index_of(s, k);
		r.get(got, (int)s.size(), &at[0]);
		for (int q = 0; q < ch; ++q) {
			double x = ok[(k * ch + q) % ok.size()];
			if (b < mt_F32) x = trunc(x);
			if (got[q] != x) c.fail("conversion", "depth " + num(a) + " to " + num(b) + ", way " + num(into) + ", shape " + num(kind) + ", channels " + num(ch) + ": " + std::to_string(got[q]) + " instead of " + std::to_string(x));
		}
	}
	// numbers that only 64 bits hold
	if (a == b && (a == mt_U64 || a == mt_I64) && into != 1) {
		mt_mat z(2, mt_Depth_Channel(a, 1), 0.0);
		z.at<u64>(0, 0) = 9007199254740993ull;
		z.at<u64>(1, 0) = 9223372036854775807ull;
		mt_mat y = into ? z.clone() : z.convert(b);
		if (y.at<u64>(0, 0) != 9007199254740993ull || y.at<u64>(1, 0) != 9223372036854775807ull) c.fail("conversion", "64 bit numbers change");
	}
	c.transitions++; c.nontrivial++;
	c.outcome(mix(mix(a, b), mix(kind * 8 + ch, into)));
}

// comparison of matrices of different shapes, and of shared ones
static void comparing(Ctx& c) {
	static const vector<Ints> S = { { 1 }, { 2 }, { 2, 1 }, { 1, 2 }, { 2, 2 }, { 2, 2, 1 }, { 4 }, { 1, 1, 2, 2 }, { 1, 1, 1, 2, 2 } };
	int a = c.choose(9), b = c.choose(9), ca = 1 + c.choose(2), cb = 1 + c.choose(2), da = c.choose(10), db = c.choose(10);
	if (!c.shard()) return;
	mt_mat x(S[a], mt_Depth_Channel((mt_Depth)da, ca), 1.0), y(S[b], mt_Depth_Channel((mt_Depth)db, cb), 1.0);
	bool same = a == b && ca == cb && da == db;
	if ((x == y) != same || (x != y) == same) c.fail("comparison", "of shapes " + num(a) + " and " + num(b));
	if ((bool)x.is_same_size(y) != (a == b && ca == cb)) c.fail("is_same_size", num(a) + " " + num(b));
	if ((bool)x.is_same_memory_size(y) != same) c.fail("is_same_memory_size", num(a) + " " + num(b));
	if (x.is_same(y)) c.fail("is_same", "of unrelated matrices");
	mt_mat z = x;
	if (!x.is_same(z)) c.fail("is_same", "of a copy");
	if (S[a].size() > 1) {
		mt_mat f = x.flip(0);
		if (S[a][0] > 1 && x.is_same(f)) c.fail("is_same", "of a flipped view");
	}
	c.transitions++; c.nontrivial++;
	c.outcome(mix(a * 9 + b, ca * 2 + cb));
}

int main(int argc, char** argv) {
	Suite s;
	s.leaks = true;
	s.init = [] { log_logger::release(); };
	static const vector<Ints> small = { { 3 }, { 2, 3 }, { 2, 2, 2 }, { 1, 3, 2 } }, wide = { { 4 }, { 1 }, { 1, 1 }, { 3, 2 }, { 4, 1 }, { 2, 3, 2 }, { 2, 1, 3, 2 }, { 2, 2, 1, 1, 3 }, { 1, 2, 1, 2, 1, 2 } };
	static const vector<mt_Depth> all = { mt_U8, mt_I8, mt_U16, mt_I16, mt_U32, mt_I32, mt_U64, mt_I64, mt_F32, mt_F64 }, i16 = { mt_I16 };
	s.groups.push_back(Group("one operation, all depths", [](Ctx& c) { sequences(c, wide, { 1, 2, 3, 4, 5 }, all, 1, false, 1); }));
	s.groups.push_back(Group("one operation, given memory", [](Ctx& c) { sequences(c, wide, { 1, 3 }, { mt_U8, mt_F32 }, 1, false, 4); }));
	s.groups.push_back(Group("one operation, all depths and memory", [](Ctx& c) { sequences(c, wide, { 1, 2, 3, 4, 5, 6 }, all, 1, false, 4); }, false));
	s.groups.push_back(Group("two operations", [](Ctx& c) { sequences(c, wide, { 1, 2, 3, 5 }, i16, 2, false, 1); }));
	s.groups.push_back(Group("three operations", [](Ctx& c) { sequences(c, small, { 1, 2 }, { mt_U8 }, 3, true, 1); }));
	s.groups.push_back(Group("three operations, doubles", [](Ctx& c) { sequences(c, small, { 1, 2 }, { mt_F64 }, 3, true, 1); }, false));
	s.groups.push_back(Group("three operations, all", [](Ctx& c) { sequences(c, wide, { 1, 3 }, i16, 3, true, 1); }, false));
	s.groups.push_back(Group("four operations", [](Ctx& c) { sequences(c, { { 2, 3 }, { 2, 2, 2 } }, { 2 }, i16, 4, true, 1); }, false));
	static const vector<Ints> medium = { { 300 }, { 2, 260 }, { 260, 2 }, { 3, 2, 130 } };
	s.groups.push_back(Group("one operation on sides beyond 256", [](Ctx& c) { sequences(c, medium, { 1, 2 }, { mt_I32 }, 1, true, 1, true); }));
	s.groups.push_back(Group("more than 65536 elements", large));
	s.groups.push_back(Group("conversions", conversions));
	s.groups.push_back(Group("comparing", comparing));
	return run(s, argc, argv);
}
