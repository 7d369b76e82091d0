// T08: helpers on numbers and vectors, histograms, rectangles and angles
#include "repo.h"
#include "mt_angle_helper.h"
#include "mc.h"
using namespace mc;

template<class T> static string show(const vector<T>& v) { std::ostringstream o; o << "("; for (size_t i = 0; i < v.size(); ++i) o << (i ? " " : "") << +v[i]; o << ")"; return o.str(); }
static string num(long long a) { return std::to_string(a); }
template<class T> static bool same(const vector<T>& a, const vector<T>& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!(a[i] == b[i])) return false; return true; }
template<class T> static u64 digest(const vector<T>& v) { u64 h = v.size(); for (auto& x : v) h = h * 1000003 + std::hash<T>()(x); return h; }

// ---- comparisons
template<class T> static vector<T> edges() {
	typedef std::numeric_limits<T> L;
	vector<T> v = { 0, 1, 2, (T)7, (T)100, (T)127, (T)128, (T)200, (T)255, L::max(), (T)(L::max() - 1), (T)(L::max() / 2), (T)(L::max() / 2 + 1), L::min(), (T)(L::min() + 1), (T)-1, (T)-2, (T)-100, (T)-128 };
	return v;
}
template<class T> static void order_of(Ctx& c) {
	vector<T> v = edges<T>();
	T a = v[c.choose((int)v.size())], b = v[c.choose((int)v.size())];
	if (!c.shard()) return;
	int want = a < b ? -1 : b < a ? 1 : 0;
	std::ostringstream o; o << +a << " and " << +b;
	if (mt_helper::compare_value<T>(a, b) != want) c.fail("order", o.str());
	if (mt_helper::max<T>(a, b) != (a < b ? b : a) || mt_helper::min<T>(a, b) != (a < b ? a : b)) c.fail("extremes", o.str());
	vector<T> x = { a, b }, y = { a, a }, z = { a };
	if ((basicmath::operator==(x, y)) != (a == b) || basicmath::operator==(x, z) || !basicmath::operator==(x, x)) c.fail("equality of vectors", o.str());
	if (mt_helper::is_vec_value<T>(x, a) != (a == b) || mt_helper::is_vec_value<T>(x, b) != (a == b) || !mt_helper::is_vec_value<T>(y, a) || !mt_helper::is_vec_value<T>(vector<T>(), a)) c.fail("vector of one value", o.str());
	if (mt_helper::is_same_symbol<T>(a, b) != !((a < 0 && b > 0) || (a > 0 && b < 0))) c.fail("sign", o.str());
	c.transitions += 5; c.nontrivial++;
	c.outcome(mix(std::hash<T>()(a), std::hash<T>()(b)));
}
// reals are equal up to a relative or absolute difference
template<class T> static void reals_of(Ctx& c) {
	double eps = sizeof(T) == 4 ? 1e-6 : 1e-11;
	static const double base[] = { 0, 1, 1000, 1e9, 1e-3, 1e30, 1e-30, 0.3, 123456.789, HUGE_VAL }, step[] = { 0, 0.3, 0.05, 3, 50, 1e4, 1e5 };
	int i = c.choose(10), j = c.choose(7), sa = c.choose(2), sb = c.choose(2);
	bool relative = c.choose(2);
	if (!c.shard()) return;
	T a = (T)(sa ? -base[i] : base[i]);
	T b = (T)((sb ? -base[i] : base[i]) + step[j] * eps * (relative && base[i] < 1e300 ? base[i] : 1));
	double d = fabs((double)a - (double)b), m = std::max(fabs((double)a), fabs((double)b));
	std::ostringstream o; o.precision(17); o << a << " and " << b;
	int r = sizeof(T) == 4 ? mt_helper::compare_float((f32)a, (f32)b) : mt_helper::compare_double((f64)a, (f64)b), v = mt_helper::compare_value<T>(a, b);
	if (r != v) c.fail("compare_value", o.str());
	int back = mt_helper::compare_value<T>(b, a);
	if (back != -r) c.fail("antisymmetric", o.str());
	int want = a < b ? -1 : b < a ? 1 : 0;
	if (a == b || d < 0.9 * eps || d < 0.9 * eps * m) { if (!(m > 1e300 && a != b) && r != 0) c.fail("equal reals", o.str()); }
	else if ((d > 1.1 * eps && d > 1.1 * eps * m) || m > 1e300) { if (r != want) c.fail("order of reals", o.str()); }
	vector<T> x = { 5, a }, y = { 5, b };
	if (basicmath::operator==(x, y) != (r == 0)) c.fail("equality of vectors", o.str());
	if (mt_helper::is_vec_value<T>(vector<T>(2, a), b) != (r == 0)) c.fail("vector of one value", o.str());
	bool inf = std::isinf((double)a);
	if (mt_helper::is_infinity(a) != inf || mt_helper::is_nan(a) || mt_helper::is_number(a) == inf) c.fail("kind", o.str());
	T n = std::numeric_limits<T>::quiet_NaN();
	if (mt_helper::is_infinity(n) || !mt_helper::is_nan(n) || mt_helper::is_number(n)) c.fail("kind", "not a number");
	c.transitions += 6; c.nontrivial++;
	c.outcome(mix(mix(i * 8 + j, sa * 4 + sb * 2 + relative), sizeof(T)));
}
static void rounding(Ctx& c) {
	int whole = c.choose(61) - 30, part = c.choose(8);
	if (!c.shard()) return;
	// the nearest integer, halves away from zero
	double x = whole + part / 8.0;
	if (mt_helper::neibour_float(x) != (i64)std::round(x) || mt_helper::neibour_float((f32)x) != (i64)std::round(x) || mt_helper::neibour_float(x * 1e9) != (i64)std::round(x * 1e9)) c.fail("nearest integer", std::to_string(x));
	c.transitions += 3; c.nontrivial++;
	c.outcome(whole * 8 + part);
}
static void order(Ctx& c) {
	switch (c.choose(11)) {
	case 0: order_of<u8>(c); break;
	case 1: order_of<i8>(c); break;
	case 2: order_of<u16>(c); break;
	case 3: order_of<i16>(c); break;
	case 4: order_of<u32>(c); break;
	case 5: order_of<i32>(c); break;
	case 6: order_of<u64>(c); break;
	case 7: order_of<i64>(c); break;
	case 8: reals_of<f32>(c); break;
	case 9: reals_of<f64>(c); break;
	default: rounding(c);
	}
}
// ---- whole numbers
static void numbers_(Ctx& c) {
	int kind = c.choose(4);
	switch (kind) {
	case 0: {
		// every pair whose result fits
		int n = c.choose(c.thorough ? 67 : 35), k = c.choose(n + 1);
		if (!c.shard()) return;
		static u64 p[70][70];
		if (!p[0][0]) for (int i = 0; i < 70; ++i) for (int j = 0; j <= i; ++j) { p[i][j] = j == 0 || j == i ? 1 : p[i - 1][j - 1] + p[i - 1][j]; if (p[i][j] > 1ull << 40) p[i][j] = 1ull << 40; }
		if (p[n][k] > 2147483647ull) return;
		i32 got = mt_helper::combination(n, k);
		if (got != (i32)p[n][k]) c.fail("combinations", num(n) + " over " + num(k) + " is " + num(got));
		i32 f = 1;
		if (n <= 12) { for (int i = 2; i <= n; ++i) f *= i; if (mt_helper::factorial(n) != f) c.fail("factorial", num(n)); }
		c.outcome(n * 100 + k);
		break;
	}
	case 1: {
		// bits and bytes: all patterns of two bytes at every place
		int at = c.choose(7), hi = c.choose(256), step = c.thorough ? 1 : 3, lo = c.choose(256 / step) * step;
		if (!c.shard()) return;
		u64 v = (((u64)hi << 8 | lo) << (8 * at)) | (at % 2 ? 1 : 0);
		int bits = 0;
		for (int i = 0; i < 64; ++i) bits += v >> i & 1;
		if (mt_helper::number_of_1((i64)v) != bits) c.fail("bits", num((i64)v));
		int low = 0;
		for (int i = 0; i < 32; ++i) low += v >> i & 1;
		i32 w = (i32)(u32)v;
		if (mt_helper::number_of_1(w) != low) c.fail("bits", num(w));
		u8 b[4], r[4];
		memcpy(b, &w, 4);
		for (int i = 0; i < 4; ++i) r[i] = b[3 - i];
		i32 back; memcpy(&back, r, 4);
		if (mt_helper::reverse_i32(w) != back) c.fail("reversed bytes", num(w) + " is " + num(mt_helper::reverse_i32(w)));
		c.outcome(v);
		break;
	}
	case 2: {
		int n = c.choose(c.thorough ? 5000 : 1200);
		if (!c.shard()) return;
		u32 want = 0;
		for (int i = 1; i <= n; ++i) for (int x = i; x; x /= 10) want += x % 10 == 1;
		if (mt_helper::one_number(n) != want) c.fail("ones", num(n) + " is " + num(mt_helper::one_number(n)));
		c.outcome(n);
		break;
	}
	default: {
		// a five put anywhere into the digits gives nothing greater
		static const int scale[] = { 1, 1, 37, 811, 14143 };
		int s = c.choose(5), n = (c.choose(c.thorough ? 5001 : 1301)) * scale[s], sign = c.choose(2);
		if (!c.shard() || n >= 99999999) return;
		i32 v = sign ? -n : n;
		string d = num(n);
		long long best = -1000000000000LL;
		for (size_t i = 0; i <= d.size(); ++i) { string e = d; e.insert(i, "5"); long long x = atoll(e.c_str()); if (v < 0) x = -x; best = std::max(best, x); }
		if (mt_helper::add_five(v) != best) c.fail("five", num(v) + " is " + num(mt_helper::add_five(v)) + ", not " + num(best));
		c.outcome(v);
	}
	}
	c.transitions++; c.nontrivial++;
}
// ---- vectors
template<class T> static void vectors_of(Ctx& c, const vector<T>& alphabet, int longest) {
	int n = c.choose(longest + 1);
	vector<T> v;
	for (int i = 0; i < n; ++i) v.push_back(alphabet[c.choose((int)alphabet.size())]);
	if (!c.shard()) return;
	string what = show(v);
	vector<T> a = v, sums(1, 0);
	mt_helper::flip_vector(a);
	if (!same(a, vector<T>(v.rbegin(), v.rend()))) c.fail("flip", what + " gives " + show(a));
	for (int i = 0; i < n; ++i) sums.push_back((T)(sums[i] + v[i]));
	for (int had = 0; had <= n + 2; had += n + 2) {
		a.assign(had, (T)9);
		mt_helper::integral_array(a, v);
		if ((int)a.size() < n + 1 || !same(vector<T>(a.begin(), a.begin() + n + 1), sums)) c.fail("sums", what + " gives " + show(a));
	}
	a.assign(n + 1, (T)9);
	if (n) mt_helper::integral_array(&a[0], &v[0], &v[0] + n);
	else { T none = 0; mt_helper::integral_array(&a[0], &none, &none); }
	if (!same(a, sums)) c.fail("sums", what + " gives " + show(a));
	T sum = 0, product = 1;
	for (T x : v) sum += x, product *= x;
	if (!(mt_helper::add(v) == sum)) c.fail("sum", what);
	if (n && !(mt_helper::mutiply(v) == product)) c.fail("product", what);
	for (int had = 0; had <= n + 1; had += n + 1) {
		vector<T*> p(had, (T*)NULL);
		mt_helper::pointer_from_instance(p, v);
		if ((int)p.size() != n) c.fail("pointers", what);
		for (int i = 0; i < n; ++i) if (p[i] != &v[i]) c.fail("pointers", what);
		a.assign(n + 1 - had, (T)9);
		mt_helper::instance_from_pointer(a, p);
		if (!same(a, v)) c.fail("instances", what + " gives " + show(a));
		a.assign(had, (T)9);
		mt_helper::vec_from_array<T>(a, n, v.data());
		if (!same(a, v) || !same(mt_helper::vec_from_array<T>(n, v.data()), v)) c.fail("from array", what + " gives " + show(a));
	}
	for (int i = 0; i <= n; ++i) for (int j = i; j <= n; ++j) {
		a.assign(j, (T)9);
		mt_helper::sub_vector(a, v, mt_range(i, j));
		if (!same(a, vector<T>(v.begin() + i, v.begin() + j))) c.fail("part", what + " gives " + show(a));
	}
	c.transitions += 10;
	if (n > 1) c.nontrivial++;
	c.outcome(digest(v));
}
template<class T> static void parity_of(Ctx& c, const vector<T>& alphabet, int longest) {
	int n = c.choose(longest + 1);
	vector<T> v;
	for (int i = 0; i < n; ++i) v.push_back(alphabet[c.choose((int)alphabet.size())]);
	if (!c.shard()) return;
	for (int odd = 0; odd < 2; ++odd) for (int stable = 0; stable < 2; ++stable) {
		vector<T> a = v, want;
		for (int front = 1; front >= 0; --front) for (T x : v) if ((x % 2 != 0) == (front ? odd : !odd)) want.push_back(x);
		mt_helper::odd_even_sort(a, odd, stable);
		string what = show(v) + (odd ? " odd first" : " even first") + (stable ? " in order" : "") + " gives " + show(a);
		if (stable ? !same(a, want) : false) c.fail("parity", what);
		size_t front = 0;
		for (T x : v) front += (x % 2 != 0) == odd;
		if (a.size() != v.size()) c.fail("parity", what);
		for (size_t i = 0; i < a.size(); ++i) if (((a[i] % 2 != 0) == odd) != (i < front)) c.fail("parity", what);
		vector<T> x = a, y = v;
		std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end());
		if (!same(x, y)) c.fail("parity", what);
		c.transitions++;
	}
	if (n > 1) c.nontrivial++;
	c.outcome(digest(v));
}
static void split(Ctx& c) {
	static const i32 alphabet[] = { 0, 1, -1, 5, -8, 100, 16777217 };
	int n = c.choose(c.thorough ? 7 : 6), k = c.thorough ? 7 : 6;
	vector<i32> v;
	for (int i = 0; i < n; ++i) v.push_back(alphabet[c.choose(k)]);
	int had = c.choose(2);
	if (!c.shard()) return;
	vector<i32> a(had * 3, 77), b(had * 2, 78);
	mt_helper::split_array_to_max_mean_sub_arrays(a, b, v);
	string what = show(v) + " gives " + show(a) + " and " + show(b);
	vector<i32> x = a, y = v;
	x.insert(x.end(), b.begin(), b.end());
	std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end());
	if (!same(x, y)) c.fail("split elements", what);
	if (n >= 2) {
		if (a.empty() || b.empty()) c.fail("split empty", what);
		double best = 0;
		for (int set = 1; set < (1 << n) - 1; ++set) {
			double s = 0, t = 0; int p = 0, q = 0;
			for (int i = 0; i < n; ++i) if (set >> i & 1) s += v[i], ++p; else t += v[i], ++q;
			best = std::max(best, fabs(s / p - t / q));
		}
		double s = 0, t = 0;
		for (i32 e : a) s += e;
		for (i32 e : b) t += e;
		double got = fabs(s / a.size() - t / b.size());
		if (got < best - 1e-6 * (1 + best)) c.fail("split means", what + ": difference " + std::to_string(got) + ", not " + std::to_string(best));
	}
	c.transitions++;
	if (n > 1) c.nontrivial++;
	c.outcome(digest(v));
}
static void vectors(Ctx& c) {
	switch (c.choose(7)) {
	case 0: vectors_of<i32>(c, { 0, 1, -2, 3 }, c.thorough ? 7 : 5); break;
	case 1: vectors_of<f64>(c, { 0.5, -1.25, 4 }, c.thorough ? 7 : 5); break;
	case 2: vectors_of<i64>(c, { 3000000000LL, -1, 2 }, c.thorough ? 7 : 5); break;
	case 3: parity_of<i32>(c, { 0, 1, -1, 2, -2, 3, -2147483647 }, c.thorough ? 6 : 5); break;
	case 4: parity_of<u8>(c, { 0, 1, 254, 255 }, c.thorough ? 8 : 6); break;
	case 5: parity_of<i64>(c, { 4294967296LL, 4294967297LL, -1, -4 }, c.thorough ? 7 : 5); break;
	default: split(c);
	}
}
// ---- positions in arrays of several dimensions
static void positions(Ctx& c) {
	int D = 1 + c.choose(c.thorough ? 5 : 4);
	vector<i32> size, at;
	int all = 1;
	for (int i = 0; i < D; ++i) { size.push_back(1 + c.choose(4)); all *= size[i]; }
	if (!c.shard()) return;
	std::set<i32> seen;
	for (int k = 0; k < all; ++k) {
		vector<i32> a(k % 3, 9), want(D);
		int r = k;
		for (int i = D; i-- > 0;) want[i] = r % size[i], r /= size[i];
		mt_helper::multi_index_from_index(a, k, D, &size[0]);
		if (!same(a, want)) c.fail("position", num(k) + " of " + show(size) + " is " + show(a));
		if (mt_helper::index_from_multi_index(want, D, &size[0]) != k) c.fail("number", show(want) + " of " + show(size));
		c.transitions++;
	}
	c.nontrivial++;
	c.outcome(digest(size));
}
// ---- histograms
static void hist(Ctx& c) {
	static const double alphabet[] = { 0, 1, -1, 2.5, -100, 1e6, 1e-9, 0.30000000000000004 };
	int n = 1 + c.choose(c.thorough ? 6 : 5), k = c.thorough ? 8 : 6;
	vector<f64> v;
	for (int i = 0; i < n; ++i) v.push_back(alphabet[c.choose(k)]);
	static const int bins_[] = { 1, 2, 3, 7, 16 };
	if (!c.shard()) return;
	for (int bins : bins_) for (int had = 0; had < 2; ++had) {
		vector<mt_range_t<f64>> r(had * 20);
		vector<i32> count(had * 20, 5);
		mt_hist::hist(r, count, v, bins);
		string what = num(bins) + " bins of " + show(v) + " hold " + show(count);
		if ((int)r.size() != bins || (int)count.size() != bins) c.fail("bins", what);
		double lo = *std::min_element(v.begin(), v.end()), hi = *std::max_element(v.begin(), v.end());
		double slack = 1e-9 * (1 + std::max(fabs(lo), fabs(hi)));
		if (r[0].m_start != lo || r[bins - 1].m_end < hi - slack || r[bins - 1].m_end > hi + fabs(hi) / 50 + slack) c.fail("range", what);
		int left = 0;
		for (int i = 0; i < bins; ++i) {
			left += count[i];
			if (i && r[i].m_start != r[i - 1].m_end) c.fail("gap", what);
			if (fabs(r[i].size() - (r[bins - 1].m_end - lo) / bins) > slack) c.fail("width", what);
			int sure = 0, maybe = 0;
			for (double x : v) { bool first = i == 0, last = i == bins - 1; sure += (x > r[i].m_start + slack && x < r[i].m_end - slack); maybe += (first || x >= r[i].m_start - slack) && (last || x <= r[i].m_end + slack); }
			if (count[i] < sure || count[i] > maybe) c.fail("count", what);
			// exactly those from its start up to before its end, except for rounding at the very end
			if (i < bins - 1 && r[i].size() > slack) { int exact = 0; for (double x : v) exact += x >= r[i].m_start && x < r[i].m_end; if (count[i] != exact) c.fail("count", what); }
		}
		if (left != n) c.fail("total", what);
		c.transitions++;
	}
	if (n > 1) c.nontrivial++;
	c.outcome(digest(v));
}
// ---- rectangles
struct Box { int l, t, r, b; };
static Box box(const mt_rect& r) { return { r.m_left, r.m_top, r.m_left + r.m_width - 1, r.m_top + r.m_height - 1 }; }
static string show(const mt_rect& r) { return "[" + num(r.m_left) + " " + num(r.m_top) + " " + num(r.m_width) + " " + num(r.m_height) + "]"; }
static void rectangles(Ctx& c) {
	static const int pos[] = { -3, 0, 1, 4 }, len[] = { 1, 2, 3, 6, 7 };
	int l = pos[c.choose(4)], t = pos[c.choose(4)], w = len[c.choose(5)], h = len[c.choose(5)];
	if (!c.shard()) return;
	mt_rect r(l, t, w, h);
	Box q = box(r);
	string what = show(r);
	if (r.m_left != l || r.m_top != t || r.m_width != w || r.m_height != h || r.right() != q.r || r.bottom() != q.b) c.fail("rectangle", what);
	if (!(r.tl() == mt_point(l, t)) || !(r.tr() == mt_point(q.r, t)) || !(r.bl() == mt_point(l, q.b)) || !(r.br() == mt_point(q.r, q.b))) c.fail("corners", what);
	mt_rect s;
	if (!s.empty() || r.empty()) c.fail("empty", what);
	s.set_rect(mt_point(l, t), mt_size(w, h)); if (s != r || !(s == r)) c.fail("set", what);
	s = mt_rect(); s.set_rect(mt_point(l, t), mt_point(q.r, q.b)); if (s != r) c.fail("set", what);
	s = mt_rect(); s.set_rect(l, t, w, h); if (s != r) c.fail("set", what);
	if (mt_rect(mt_point(l, t), mt_size(w, h)) != r || mt_rect(mt_point(l, t), mt_point(q.r, q.b)) != r || mt_rect(r) != r || r.toRect() != r) c.fail("set", what);
	s = mt_rect(); s.set_tl(mt_point(l, t)); s.set_size(mt_size(w, h)); if (s != r) c.fail("set", what);
	if (r.getArea() != w * h || r.max_size() != std::max(w, h) || r.min_size() != std::min(w, h) || r.aspect() != (double)w / h) c.fail("measures", what);
	if (r.size().m_width != w || r.size().m_height != h || !(r.center() == mt_point(l + w / 2, t + h / 2))) c.fail("measures", what);
	s = r; s.set_empty(); if (!s.empty() || s.getArea() != 0) c.fail("empty", what);
	for (int dx = -2; dx <= 2; dx += 2) for (int dy = -1; dy <= 1; ++dy) {
		if (r + mt_point(dx, dy) != mt_rect(l + dx, t + dy, w, h)) c.fail("moved", what);
		for (int d2 = 0; d2 < 3; ++d2) {
			s = r; s.adjust(dx, dy, d2, 3 - d2);
			if (s != mt_rect(l - dx, t - dy, w + dx + d2, h + dy + 3 - d2)) c.fail("adjusted", what + " to " + show(s));
		}
	}
	for (int x = l - 3; x <= q.r + 3; ++x) for (int y = t - 3; y <= q.b + 3; ++y) {
		bool in = x >= l && x <= q.r && y >= t && y <= q.b;
		if (r.contain(mt_point(x, y)) != in) c.fail("contained", what + " of " + num(x) + " " + num(y));
		s = r; s.adjust_by_append_point(mt_point(x, y));
		if (s != mt_rect(mt_point(std::min(l, x), std::min(t, y)), mt_point(std::max(q.r, x), std::max(q.b, y)))) c.fail("appended point", what + " with " + num(x) + " " + num(y) + " is " + show(s));
		s.set_empty(); s.adjust_by_append_point(mt_point(x, y));
		if (s != mt_rect(x, y, 1, 1)) c.fail("appended point", show(s));
		c.transitions += 2;
	}
	for (int l2 = -4; l2 <= 6; l2 += 2) for (int t2 = -3; t2 <= 6; t2 += 3) for (int w2 : { 1, 4, 9 }) for (int h2 : { 1, 5 }) {
		mt_rect o(l2, t2, w2, h2);
		s = r; s.adjust_by_append_rect(o);
		if (s != mt_rect(mt_point(std::min(l, l2), std::min(t, t2)), mt_point(std::max(q.r, o.right()), std::max(q.b, o.bottom())))) c.fail("appended rectangle", what + " with " + show(o) + " is " + show(s));
		s.set_empty(); s.adjust_by_append_rect(o);
		if (s != o) c.fail("appended rectangle", what + " with " + show(o));
		// the least distance of a column of one to a column of the other
		int d = 1000;
		for (int x = l; x <= q.r; ++x) for (int y = l2; y <= o.right(); ++y) d = std::min(d, std::abs(x - y));
		if (r.horizontal_dist(o) != d || o.horizontal_dist(r) != d) c.fail("distance", what + " and " + show(o) + " is " + num(r.horizontal_dist(o)));
		if ((r == o) != (l == l2 && t == t2 && w == w2 && h == h2) || (r == o) == (r != o)) c.fail("equality", what + " and " + show(o));
		c.transitions += 3;
	}
	s = r; s.expand();
	int big = std::max(w, h), small = std::min(w, h);
	Box e = box(s);
	if (s.m_width != big || s.m_height != big || e.l > l || e.t > t || e.r < q.r || e.b < q.b || std::abs((l - e.l) - (e.r - q.r)) > 1 || std::abs((t - e.t) - (e.b - q.b)) > 1) c.fail("expanded", what + " to " + show(s));
	s = r; s.shrink(); e = box(s);
	if (s.m_width != small || s.m_height != small || e.l < l || e.t < t || e.r > q.r || e.b > q.b || std::abs((l - e.l) - (e.r - q.r)) > 1 || std::abs((t - e.t) - (e.b - q.b)) > 1) c.fail("shrunk", what + " to " + show(s));
	s = r; s *= mt_point2d(2, 0.5); if (s != mt_rect(l * 2, (int)(t * 0.5), w * 2, (int)(h * 0.5))) c.fail("scaled", what + " to " + show(s));
	s = r; s /= mt_point2d(0.5, 2); if (s != mt_rect(l * 2, (int)(t * 0.5), w * 2, (int)(h * 0.5))) c.fail("scaled", what + " to " + show(s));
	c.nontrivial++;
	c.outcome(mix(mix(l, t), mix(w, h)));
}
// ---- points, scalars, angles
static void points(Ctx& c) {
	int ax = c.choose(7) - 3, ay = c.choose(7) - 3, bx = c.choose(7) - 3, by = c.choose(7) - 3;
	if (!c.shard()) return;
	mt_point a(ax, ay), b(bx, by);
	string what = num(ax) + " " + num(ay) + " and " + num(bx) + " " + num(by);
	if (!(a + b == mt_point(ax + bx, ay + by)) || !(a - b == mt_point(ax - bx, ay - by)) || (a == b) != (ax == bx && ay == by)) c.fail("points", what);
	double d = sqrt((double)((ax - bx) * (ax - bx) + (ay - by) * (ay - by)));
	if (fabs(a.distance_to(b) - d) > 1e-12) c.fail("distance of points", what);
	mt_scalar s(ax, ay, bx, by), o(ax, ay, bx, by + 1), p(ax + 1, ay, bx, by), q(ax, ay + 0.5, bx, by), u(ax, ay, bx - 1, by);
	vector<f64> v(2, 5);
	s.to_vector(v);
	if (!same(v, vector<f64>({ (f64)ax, (f64)ay, (f64)bx, (f64)by })) || s[0] != ax || s[1] != ay || s[2] != bx || s[3] != by) c.fail("scalar", what);
	if (!(s == mt_scalar(ax, ay, bx, by)) || s == o || s == p || s == q || s == u) c.fail("equality of scalars", what);
	c.transitions += 6; c.nontrivial++;
	c.outcome(((ax * 7 + ay) * 7 + bx) * 7 + by);
}
static void angles(Ctx& c) {
	int a = c.choose(360);
	if (!c.shard()) return;
	double r = a * 3.14159265358979323846 / 180;
	if (fabs(mt_trigonometric_function::angle_cos(a) - cos(r)) > 1e-9 || fabs(mt_trigonometric_function::angle_sin(a) - sin(r)) > 1e-9) c.fail("sine and cosine", num(a));
	if (fabs(mt_angle_helper::radian_from_angle(a) - r) > 1e-9 || fabs(mt_angle_helper::angle_from_radian(r) - a) > 1e-6 || fabs(mt_angle_helper::angle_from_radian(mt_angle_helper::radian_from_angle(-a * 1.5)) + a * 1.5) > 1e-9) c.fail("radians", num(a));
	c.transitions += 2; c.nontrivial++;
	c.outcome(a);
}
// ---- ships on a board, and shots at them
static void ships(Ctx& c) {
	int n = 1 + c.choose(2), h = 1 + c.choose(c.thorough ? 4 : 3);
	vector<Box> s;
	string ship, hit;
	for (int i = 0; i < n; ++i) {
		// the second one lies to the right of the first
		int l = i * 2 + 1, t = 1 + c.choose(2), w = 1 + c.choose(2), H = 1 + c.choose(2);
		s.push_back({ l, t, l + w - 1, t + H - 1 });
		ship += (i ? ";" : "") + num(t) + (char)('A' + l - 1) + "," + num(t + H - 1) + (char)('A' + l + w - 2);
	}
	vector<std::pair<int, int>> shots;
	for (int i = 0; i < h; ++i) { int k = c.choose(12); if (i == 1 && !c.shard()) return; shots.push_back({ 1 + k % 4, 1 + k / 4 }); hit += (i ? "," : "") + num(shots[i].second) + (char)('A' + shots[i].first - 1); }
	if (h == 1 && !c.shard()) return;
	int sunk = 0, struck = 0;
	for (auto& b : s) {
		int cells = (b.r - b.l + 1) * (b.b - b.t + 1);
		std::set<std::pair<int, int>> on;
		for (auto& p : shots) if (p.first >= b.l && p.first <= b.r && p.second >= b.t && p.second <= b.b) on.insert(p);
		if ((int)on.size() == cells) ++sunk; else if (on.size()) ++struck;
	}
	string got = mt_helper::battle_ship(ship, hit), want = num(sunk) + "," + num(struck);
	if (got != want) c.fail("ships", ship + " and " + hit + " gives " + got + ", not " + want);
	c.transitions++; c.nontrivial++;
	c.outcome(std::hash<string>()(ship + " " + hit));
}
int main(int argc, char** argv) {
	Suite s;
	s.leaks = true;
	s.init = [] { log_logger::release(); };
	s.groups = { { "order", order }, { "whole numbers", numbers_ }, { "vectors", vectors }, { "positions", positions }, { "histograms", hist }, { "rectangles", rectangles }, { "points", points }, { "angles", angles }, { "ships", ships } };
	return run(s, argc, argv);
}
