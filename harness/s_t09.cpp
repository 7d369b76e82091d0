// T09: what is drawn follows from the raw numbers of the C library, which are enumerated here
#include "mat_common.h"

// ---- the raw numbers: given ones, or evenly spaced ones
static vector<i32> raw;
static size_t used;
static i32 seed_given;
extern "C" int rand(void) { if (used >= raw.size()) { ++used; return 0; } return raw[used++]; }
extern "C" void srand(unsigned s) { seed_given = (i32)s; }
static void give(const vector<i32>& r) { raw = r; used = 0; }
// the k-th of n parts of all raw numbers, in its middle
static i32 part(int k, int n) { return (i32)((k + 0.5) / n * 2147483648.0); }
static vector<i32> parts(const vector<int>& k, int n) { vector<i32> r; for (int x : k) r.push_back(part(x, n)); return r; }
static const i32 EDGE[] = { 0, 1, 2, 1073741823, 1073741824, 2147483645, 2147483646, 2147483647, 715827882, 77 };
static const int EDGES = 10;

static void integers(Ctx& c) {
	static const i32 lo[] = { 0, 1, -1, -7, 5, -2147483647 - 1, 2147483646, -1000000000, 0 }, width[] = { 1, 2, 3, 7, 10, 64, 100 };
	int i = c.choose(9), w = c.choose(9);
	if (!c.shard()) return;
	i32 min = lo[i];
	i64 max = w < 7 ? (i64)min + width[w] - 1 : w == 7 ? (i64)2147483647 : (i64)min + 2000000000;
	if (max > 2147483647) return;
	i64 n = max - min + 1;
	string what = "from " + std::to_string(min) + " to " + std::to_string(max);
	i64 last = min;
	vector<i32> r(EDGE, EDGE + EDGES);
	for (int k = 0; k < 1000; ++k) r.push_back(part(k, 1000));
	for (int k = 0; k < n && k < 200; ++k) { r.push_back((i32)std::min(2147483647.0, ceil(k * 2147483648.0 / n))); if (k) r.push_back((i32)(ceil(k * 2147483648.0 / n) - 1)); }
	std::sort(r.begin(), r.end());
	std::map<i64, int> hits;
	for (i32 x : r) {
		give({ x });
		i64 got = mt_random::random_next_i32(min, (i32)max);
		if (got < min || got > max) c.fail("range", what + " gives " + std::to_string(got) + " for " + num(x));
		if (used != 1) c.fail("draws", what);
		if (got < last) c.fail("order", what + " falls at " + num(x));
		i64 want = min + (i64)(x / 2147483648.0 * n);
		if (llabs(got - want) > 1 || (n <= 100 && got != want)) c.fail("even", what + " gives " + std::to_string(got) + " for " + num(x));
		last = got; ++hits[got];
		c.transitions++;
	}
	if (n <= 100 && (i64)hits.size() != n) c.fail("all", what);
	c.nontrivial++;
	c.outcome(i * 16 + w);
}
static void uniform(Ctx& c) {
	static const double lo[] = { 0, 1, -1, 2, -2.5, 1000, -1e15, 1e-300, -1e-9, 4096 }, width[] = { 1, 0.5, 3, 1e-12, 1e6, 1e15, 8 };
	double min = lo[c.choose(10)], max = min + width[c.choose(7)];
	bool a = c.choose(2), b = c.choose(2);
	if (!c.shard() || !(max > min) || std::nextafter(std::nextafter(std::nextafter(min, max), max), max) >= max) return;
	std::ostringstream o; o.precision(17); o << (a ? "(" : "[") << min << ", " << max << (b ? ")" : "]");
	vector<i32> r(EDGE, EDGE + EDGES);
	for (int k = 0; k < 200; ++k) r.push_back(part(k, 200));
	std::sort(r.begin(), r.end());
	double last = -HUGE_VAL;
	for (i32 x : r) {
		give({ x });
		double got = mt_random::random_uniform(min, a, max, b);
		std::ostringstream w; w.precision(17); w << o.str() << " gives " << got << " for " << x;
		if (a ? !(got > min) : !(got >= min)) c.fail("lower bound", w.str());
		if (b ? !(got < max) : !(got <= max)) c.fail("upper bound", w.str());
		if (used != 1) c.fail("draws", w.str());
		if (got < last) c.fail("order", w.str());
		double slack = 1e-8 * (max - min) + 1e-15 * std::max(fabs(min), fabs(max));
		if (fabs(got - (min + x / 2147483647.0 * (max - min))) > slack) c.fail("even", w.str());
		last = got;
		c.transitions++;
	}
	// closed bounds can be drawn
	give({ 0, 2147483647 });
	double first = mt_random::random_uniform(min, a, max, b), end = mt_random::random_uniform(min, a, max, b);
	if ((!a && first != min) || (!b && fabs(end - max) > 1e-15 * (fabs(max) + fabs(min)))) c.fail("closed bound", o.str());
	c.nontrivial++;
	c.outcome(mix((u64)(min * 1e6), mix((u64)(max * 3e6), a * 2 + b)));
}
// every order of the elements comes from equally many sequences of raw numbers
static void permutations(Ctx& c) {
	int n = c.choose(c.thorough ? 8 : 7), had = c.choose(3);
	if (!c.shard()) return;
	std::map<vector<i32>, int> count;
	long long orders = 1;
	for (int i = 2; i <= n; ++i) orders *= i;
	// how many draws it takes is found out first
	give({});
	vector<i32> first;
	mt_random::randperm(first, n);
	size_t draws = used;
	if (n > 1 && draws < (size_t)n - 1) c.fail("draws", num(n) + " elements from " + num((int)draws));
	// which ranges it draws from: every draw takes one of m elements for an m that it alone knows, m at most n
	bool each = draws == (size_t)std::max(n - 1, 0);
	vector<int> at(draws, 0);
	for (int form = 0; form < 2; ++form) {
		// from the largest range to the smallest or the other way round; the right one gives every order once
		count.clear();
		bool done = false;
		std::fill(at.begin(), at.end(), 0);
		if (!each) break;
		while (!done) {
			vector<i32> r;
			for (size_t i = 0; i < draws; ++i) { int m = form ? (int)i + 2 : n - (int)i; r.push_back(part(at[i], m)); }
			give(r);
			vector<i32> p(had * 4, 9);
			mt_random::randperm(p, n);
			if ((int)p.size() != n) c.fail("size", num(n));
			vector<i32> s = p;
			std::sort(s.begin(), s.end());
			for (int i = 0; i < n; ++i) if (s[i] != i) c.fail("permutation", "of " + num(n));
			if (used != draws) c.fail("draws", num(n));
			give(r);
			vector<i32> again;
			mt_random::randperm(again, n);
			if (again != p) c.fail("repeatable", num(n));
			++count[p];
			c.transitions++;
			done = true;
			for (size_t i = 0; i < draws; ++i) { int m = form ? (int)i + 2 : n - (int)i; if (++at[i] < m) { done = false; break; } at[i] = 0; }
		}
		if ((long long)count.size() == orders) break;
	}
	if (each && (long long)count.size() != orders) c.fail("orders", num(n) + " elements come in " + num((int)count.size()) + " orders");
	if (n > 1) c.nontrivial++;
	c.outcome(n * 4 + had);
}
static void samples(Ctx& c) {
	int n = c.choose(c.thorough ? 7 : 6);
	vector<int> k;
	for (int i = 0; i < n; ++i) k.push_back(c.choose(n));
	if (!c.shard()) return;
	give(parts(k, n));
	vector<i32> got(n % 2 * 9, 7);
	mt_random::randSample(n, got);
	if ((int)got.size() != n || (int)used != n) c.fail("size", num(n));
	for (int i = 0; i < n; ++i) if (got[i] != k[i]) c.fail("sample", num(i) + " of " + num(n) + " is " + num(got[i]));
	c.transitions++;
	if (n) c.nontrivial++;
	u64 h = n; for (int x : k) h = h * 9 + x;
	c.outcome(h);
}
static vector<double> binomial(int n, double p) {
	// probabilities of at most k
	vector<double> r;
	double sum = 0;
	for (int k = 0; k <= n; ++k) {
		double x;
		if (p == 0) x = k == 0; else if (p == 1) x = k == n;
		else x = exp(lgamma(n + 1.0) - lgamma(k + 1.0) - lgamma(n - k + 1.0) + k * log(p) + (n - k) * log1p(-p));
		sum += x;
		r.push_back(sum);
	}
	return r;
}
static void bernoulli(Ctx& c) {
	static const int ns[] = { 0, 1, 2, 3, 10, 13, 20, 33, 34, 40, 60, 100 };
	static const double ps[] = { 0, 1, 0.5, 0.1, 0.9, 0.25, 0.999, 1e-6 };
	int n = ns[c.choose(12)];
	double p = ps[c.choose(8)];
	bool matrix = c.choose(2);
	if (!c.shard()) return;
	vector<double> below = binomial(n, p);
	string what = num(n) + " with " + std::to_string(p);
	int K = matrix ? 50 : 1000, last = 0;
	vector<i32> r;
	for (int k = 0; k < K; ++k) r.push_back(part(k, K));
	r.push_back(2147483647); r.insert(r.begin(), 0);
	vector<double> got;
	if (matrix) {
		give(r);
		mt_mat m = mt_random::bernoulli_iid(4, 13, mt_F32C1, n, p);
		if (!has_shape(m, { 4, 13 }, 1, mt_F32)) c.fail("shape", what);
		for (f32 x : values<f32>(m, { 4, 13 }, 1)) got.push_back(x);
		if (used != 52) c.fail("draws", what);
	} else for (i32 x : r) { give({ x }); got.push_back(mt_random::bernoulli(n, p)); if (used != 1) c.fail("draws", what); }
	for (size_t i = 0; i < r.size(); ++i) {
		double u = r[i] / 2147483647.0;
		int k = (int)got[i];
		string w = what + " gives " + num(k) + " for " + num(r[i]);
		if (k != got[i] || k < 0 || k > n) c.fail("range", w);
		if (k < last) c.fail("order", w);
		last = k;
		if (i == 0 || i + 1 == r.size()) continue;
		// the least number of which the probability of at most it reaches u
		if (below[k] < u - 1e-7 || (k && below[k - 1] > u + 1e-7)) c.fail("distribution", w);
		c.transitions++;
	}
	c.nontrivial++;
	c.outcome(mix(n, mix((u64)(p * 1e7), matrix)));
}
// normal numbers: distribution over a grid of pairs of raw numbers, and finite for every pair of edges
static void normal(Ctx& c) {
	static const double means[] = { 0, 5, -100 }, deviations[] = { 1, 0.01, 30, 0 };
	double mean = means[c.choose(3)], dev = deviations[c.choose(4)];
	if (!c.shard()) return;
	string what = "mean " + std::to_string(mean) + " deviation " + std::to_string(dev);
	for (int i = 0; i < EDGES; ++i) for (int j = 0; j < EDGES; ++j) {
		give({ EDGE[i], EDGE[j] });
		double x = mt_random::gaussian(mean, dev);
		if (!(fabs(x - mean) <= 40 * dev)) c.fail("finite", what + " gives " + std::to_string(x));
		c.transitions++;
	}
	const int K = 200;
	vector<double> v;
	for (int i = 0; i < K; ++i) for (int j = 0; j < K; ++j) { give({ part(i, K), part(j, K) }); v.push_back((mt_random::gaussian(mean, dev) - mean) / (dev ? dev : 1)); c.transitions++; if (used != 2) c.fail("draws", what); }
	std::sort(v.begin(), v.end());
	for (double z = -2.5; z <= 2.5; z += 0.25) {
		double want = dev ? 0.5 * erfc(-z / sqrt(2.0)) : z >= 0, got = (double)(std::upper_bound(v.begin(), v.end(), z + 1e-12) - v.begin()) / v.size();
		if (fabs(want - got) > 0.006) c.fail("distribution", what + ": " + std::to_string(got) + " instead of " + std::to_string(want) + " below " + std::to_string(z));
	}
	c.nontrivial++;
	c.outcome(mix((u64)(mean * 10 + 5000), (u64)(dev * 100)));
}
template<class T> static void check_cells(Ctx& c, const mt_mat& m, const Ints& size, int ch, const vector<double>& want, const string& what) {
	if (!has_shape(m, size, ch, Depth_Of<T>::d)) c.fail("shape", what);
	vector<T> got = values<T>(m, size, ch);
	for (size_t i = 0; i < want.size(); ++i) if (!(got[i] == (T)want[i])) c.fail("element", what + ": " + num((int)i) + " is " + std::to_string(got[i]) + ", not " + std::to_string(want[i]));
}
// every channel of every element is drawn on its own, in order, like single numbers
static void matrices(Ctx& c) {
	static const vector<Ints> sizes = { { 3, 2 }, { 1, 1 }, { 2, 3, 2 }, { 5 }, { 2, 1, 2, 2 }, { 1, 2, 1, 2, 2 } };
	static const int chs[] = { 1, 2, 4, 5, 9 };
	static const mt_Depth depths[] = { mt_F64, mt_F32, mt_I32, mt_U8, mt_I16 };
	int kind = c.choose(6), s = c.choose((int)sizes.size()), ch = chs[c.choose(5)], d = c.choose(5), form = c.choose(2), salt = c.choose(c.thorough ? 30 : 6);
	if (!c.shard()) return;
	const Ints& size = sizes[s];
	int n = total(size) * ch;
	mt_Depth_Channel dc(depths[d], ch);
	vector<i32> r;
	for (int i = 0; i < 2 * n + 3; ++i) r.push_back(EDGE[(i * 7 + salt + i / 5) % EDGES] ^ (i % 3 == 2 ? i * 40503 & 0xffffff : 0));
	string what = "kind " + num(kind) + " of " + shape_name(size, ch, depths[d], form);
	vector<double> want;
	give(r);
	mt_mat m;
	size_t took;
	bool two = size.size() == 2, three = size.size() == 3;
	switch (kind) {
	case 0: case 1: {
		bool a = salt & 1, b = salt & 2;
		double lo = kind ? 3 : 0, hi = kind ? 250 : 1;
		if (form && two) m = mt_random::random_uniform_iid(size[0], size[1], dc, lo, a, hi, b);
		else if (form && three) m = mt_random::random_uniform_iid(size[0], size[1], size[2], dc, lo, a, hi, b);
		else m = mt_random::random_uniform_iid((i32)size.size(), &size[0], dc, lo, a, hi, b);
		took = used; give(r);
		for (int i = 0; i < n; ++i) want.push_back(mt_random::random_uniform(lo, a, hi, b));
		break;
	}
	case 2: {
		if (depths[d] == mt_U8) return;
		m = mt_random::random_zero_center_uniform_iid((i32)size.size(), &size[0], dc, 10);
		took = used; give(r);
		double e = sqrt(3.0) * 10;
		for (int i = 0; i < n; ++i) { want.push_back(mt_random::random_uniform(-e, sys_false, e, sys_false)); }
		if (depths[d] <= mt_F32 && depths[d] != mt_F32) for (auto& x : want) x = (double)(i64)x;
		break;
	}
	case 3: {
		if (form && two) m = mt_random::bernoulli_iid(size[0], size[1], dc, 5, 0.4);
		else m = mt_random::bernoulli_iid((i32)size.size(), &size[0], dc, 5, 0.4);
		took = used; give(r);
		for (int i = 0; i < n; ++i) want.push_back(mt_random::bernoulli(5, 0.4));
		break;
	}
	case 4: {
		double mean = 100, dev = salt % 3 == 2 ? 0 : 3;
		if (form && two) m = mt_random::gaussian_iid(size[0], size[1], dc, mean, dev);
		else if (form && three) m = mt_random::gaussian_iid(size[0], size[1], size[2], dc, mean, dev);
		else if (form) m = mt_random::gaussian_iid(size, dc, mean, dev);
		else m = mt_random::gaussian_iid((i32)size.size(), &size[0], dc, mean, dev);
		took = used; give(r);
		for (int i = 0; i < n; ++i) want.push_back(dev ? mt_random::gaussian(mean, dev) : mean);
		break;
	}
	default: {
		// several matrices with a mean and a deviation of their own for every channel of every element
		int many = salt % 4;
		if (depths[d] != mt_F64 && depths[d] != mt_F32) return;
		mt_mat mean(size, dc), dev(size, dc);
		vector<double> mv, dv;
		for (int i = 0; i < n; ++i) mv.push_back(i * 3 - 4), dv.push_back(i % 4 * 0.25);
		for (int i = 0; i < n; ++i) {
			if (depths[d] == mt_F64) cell<f64>(mean, size, i / ch, i % ch) = mv[i], cell<f64>(dev, size, i / ch, i % ch) = dv[i];
			else cell<f32>(mean, size, i / ch, i % ch) = (f32)mv[i], cell<f32>(dev, size, i / ch, i % ch) = (f32)dv[i];
		}
		r.resize(0);
		for (int i = 0; i < 2 * n * many; ++i) r.push_back(EDGE[(i * 7 + salt + i / 5) % EDGES]);
		vector<mt_mat> res(salt % 2 * 5);
		give(r);
		mt_random::gaussian_iid(res, many, mean, dev);
		took = used; give(r);
		if ((int)res.size() != many || (int)took != 2 * n * many) c.fail("number", what);
		vector<vector<double>> all(many);
		for (int k = 0; k < total(size); ++k) for (int i = 0; i < many; ++i) for (int j = 0; j < ch; ++j) all[i].push_back(mt_random::gaussian(mv[k * ch + j], dv[k * ch + j]));
		for (int i = 0; i < many; ++i) { if (depths[d] == mt_F64) check_cells<f64>(c, res[i], size, ch, all[i], what); else check_cells<f32>(c, res[i], size, ch, all[i], what); }
		c.transitions += many; c.nontrivial++;
		c.outcome(mix(mix(kind, s), mix(ch * 8 + d, salt)));
		return;
	}
	}
	if (took != used && !(kind == 4 && used == 0)) c.fail("draws", what);
	switch (depths[d]) {
	case mt_F64: check_cells<f64>(c, m, size, ch, want, what); break;
	case mt_F32: check_cells<f32>(c, m, size, ch, want, what); break;
	case mt_I32: check_cells<i32>(c, m, size, ch, want, what); break;
	case mt_U8: check_cells<u8>(c, m, size, ch, want, what); break;
	default: check_cells<i16>(c, m, size, ch, want, what);
	}
	c.transitions++; c.nontrivial++;
	c.outcome(mix(mix(kind, s), mix(ch * 8 + d, salt * 2 + form)));
}
static void seed(Ctx& c) {
	static const u32 s[] = { 0, 1, 12345, 0x7fffffff, 0x80000000u, 0xffffffffu };
	u32 x = s[c.choose(6)];
	if (!c.shard()) return;
	mt_random::set_seed(x);
	if ((u32)seed_given != x) c.fail("seed", std::to_string(x));
	c.transitions++; c.nontrivial++;
	c.outcome(x);
}
int main(int argc, char** argv) {
	Suite s;
	s.leaks = true;
	s.init = [] { log_logger::release(); };
	s.groups = { { "integers", integers }, { "uniform", uniform }, { "permutations", permutations }, { "samples", samples }, { "binomial", bernoulli }, { "normal", normal }, { "matrices", matrices }, { "seed", seed } };
	return run(s, argc, argv);
}
