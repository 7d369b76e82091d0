// T05: pooling and its reverse, every shape, window, stride, kind and view against their definition on the elements
#include "mat_common.h"

static const mt_Pooling_Type KINDS[] = { mt_Pooling_Type_Mean, mt_Pooling_Type_Sum, mt_Pooling_Type_Max, mt_Pooling_Type_Min, mt_Pooling_Type_First_Value, mt_Pooling_Type_Index };
static const char* NAMES[] = { "mean", "sum", "max", "min", "first", "index" };

// windows along one dimension: they start at multiples of the stride until one reaches the end
static int windows(int n, int k, int s) { int r = 0; for (int p = 0; p < n; p += s) { ++r; if (p + k >= n) break; } return r; }
// the elements below a window, in row order
static void members(vector<int>& r, const Ints& size, const Ints& at, const Ints& kernel, const Ints& stride) {
	r.clear();
	int n = total(kernel);
	for (int k = 0; k < n; ++k) {
		Ints o = index_of(kernel, k);
		bool in = true;
		for (size_t i = 0; i < size.size(); ++i) { o[i] += at[i] * stride[i]; if (o[i] >= size[i]) in = false; }
		if (in) r.push_back(flat(size, o));
	}
}
template<class T> struct Wide { typedef int64_t t; };
template<> struct Wide<u64> { typedef uint64_t t; };
template<> struct Wide<f32> { typedef double t; };
template<> struct Wide<f64> { typedef double t; };

template<class T> static void expect(Ctx& c, const mt_mat& m, const Ints& size, int ch, const vector<T>& want, const string& what, bool exact) {
	if (!has_shape(m, size, ch, Depth_Of<T>::d)) c.fail("shape", what);
	vector<T> got = values<T>(m, size, ch);
	for (size_t i = 0; i < want.size(); ++i) if (exact ? got[i] != want[i] : !near(got[i], want[i])) c.fail("result", what + ": value " + num((int)i) + " is " + std::to_string(got[i]) + " instead of " + std::to_string(want[i]));
}
static string dims_text(const Ints& v) { string r; for (size_t i = 0; i < v.size(); ++i) r += (i ? "x" : "") + num(v[i]); return r; }

template<class T> static void pool(Ctx& c, const Ints& size, int ch, int va, const Ints& kernel, const Ints& stride, const vector<T>& a, const vector<T>& p, int vb) {
	mt_Depth d = Depth_Of<T>::d;
	int D = (int)size.size(), n = total(size);
	bool whole = std::is_integral<T>::value;
	Ints rs(D);
	for (int i = 0; i < D; ++i) { rs[i] = windows(size[i], kernel[i], stride[i]); if (mt_mat_helper::get_pooling_result_size(size[i], kernel[i], stride[i]) != rs[i]) c.fail("size", num(size[i]) + " with " + num(kernel[i]) + " and " + num(stride[i])); }
	Ints rs2(D, -1);
	mt_mat_helper::get_pooling_result_size(D, &rs2[0], &size[0], &kernel[0], &stride[0]);
	if (rs2 != rs) c.fail("size", dims_text(size) + " with " + dims_text(kernel) + " and " + dims_text(stride));
	int m = total(rs);
	string base = shape_name(size, ch, d, va) + " with windows " + dims_text(kernel) + " every " + dims_text(stride);
	mt_mat w, A = make_view(size, d, ch, va, &w);
	fill(A, size, ch, a);
	Rest rest(w, A, size, ch, sizeof(T));
	// what goes back
	mt_mat P = make_view(rs, d, ch, vb);
	vector<T> pv(p.begin(), p.begin() + m * ch);
	fill(P, rs, ch, pv);
	vector<int> in;
	for (int t = 0; t < 6; ++t) {
		mt_Pooling_Type kind = KINDS[t];
		bool masked = kind == mt_Pooling_Type_Max || kind == mt_Pooling_Type_Min, index = kind == mt_Pooling_Type_Index;
		string what = string(NAMES[t]) + " pooling of " + base;
		vector<T> want(m * ch);
		vector<i32> mask(m * ch);
		typedef typename Wide<T>::t W;
		for (int k = 0; k < m; ++k) {
			members(in, size, index_of(rs, k), kernel, stride);
			for (int q = 0; q < ch; ++q) {
				if (t < 2) { W s = 0; for (size_t i = 0; i < in.size(); ++i) s += a[in[i] * ch + q]; want[k * ch + q] = (T)(t == 0 ? s / (W)in.size() : s); }
				else if (masked) {
					int b = in[0];
					for (size_t i = 1; i < in.size(); ++i) if (t == 2 ? a[in[i] * ch + q] > a[b * ch + q] : a[in[i] * ch + q] < a[b * ch + q]) b = in[i];
					want[k * ch + q] = a[b * ch + q]; mask[k * ch + q] = b;
				}
				else if (index) { int b = (k * 7 + q * 5 + 3) % n; want[k * ch + q] = a[b * ch + q]; mask[k * ch + q] = b; }
				else want[k * ch + q] = a[in[0] * ch + q];
			}
		}
		mt_mat M, R;
		if (index) { M = make_view(rs, mt_I32, ch, vb); fill<i32>(M, rs, ch, mask); }
		R = A.pooling(M, kind, kernel, stride);
		expect<T>(c, R, rs, ch, want, what, whole);
		if (R.is_memory_shared(A)) c.fail("sharing", what);
		expect<T>(c, A, size, ch, a, what + ": operand afterwards", true);
		if (masked || index) expect<i32>(c, M, rs, ch, mask, what + ": mask", true);
		else if (!M.is_empty()) c.fail("mask", what);
		if (!index) {
			mt_mat M2;
			expect<T>(c, A.pooling(kind, kernel, stride), rs, ch, want, what + " without a mask", whole);
			expect<T>(c, A.pooling(kind, D, &kernel[0], &stride[0]), rs, ch, want, what + " from pointers", whole);
			expect<T>(c, A.pooling(M2, kind, D, &kernel[0], &stride[0]), rs, ch, want, what + " with a mask from pointers", whole);
		}
		// the reverse
		vector<T> back(n * ch, (T)0);
		for (int k = 0; k < m; ++k) {
			members(in, size, index_of(rs, k), kernel, stride);
			for (int q = 0; q < ch; ++q) {
				T x = pv[k * ch + q];
				if (masked || index) back[mask[k * ch + q] * ch + q] += x;
				else if (t == 4) back[in[0] * ch + q] += x;
				else for (size_t i = 0; i < in.size(); ++i) back[in[i] * ch + q] += t == 0 ? (T)((W)x / (W)in.size()) : x;
			}
		}
		mt_mat M3;
		if (masked || index) { M3 = make_view(rs, mt_I32, ch, va); fill<i32>(M3, rs, ch, mask); }
		what = "reverse of " + what;
		mt_mat B = P.unpooling(&size[0], M3, kind, kernel, stride);
		expect<T>(c, B, size, ch, back, what, whole);
		expect<T>(c, P.unpooling(&size[0], M3, kind, D, &kernel[0], &stride[0]), size, ch, back, what + " from pointers", whole);
		if (B.is_memory_shared(P)) c.fail("sharing", what);
		expect<T>(c, P, rs, ch, pv, what + ": operand afterwards", true);
		c.transitions += 2;
	}
	if (!rest.same()) c.fail("outside", base);
}
template<class T> static void one(Ctx& c, const Ints& size, int ch, int va, int vb, const Ints& kernel, const Ints& stride) {
	int n = total(size) * ch;
	pool<T>(c, size, ch, va, kernel, stride, numbers<T>(n, 1, false), numbers<T>(n, 2, false), vb);
}
static const vector<Ints> SIZES[] = {
	{ { 1 }, { 5 }, { 8 } },
	{ { 3, 4 }, { 5, 2 }, { 1, 6 }, { 6, 1 } },
	{ { 2, 3, 4 }, { 4, 2, 3 }, { 3, 1, 5 } },
	{ { 2, 3, 2, 3 }, { 1, 4, 1, 3 } },
	{ { 2, 1, 3, 2, 2 } },
};
// every window and stride
static void shapes(Ctx& c, int D, const Ints& chs, int kmax, int smax, int depths) {
	const vector<Ints>& sizes = SIZES[D - 1];
	int d = c.choose(depths);
	const Ints& size = sizes[c.choose((int)sizes.size())];
	Ints kernel(D), stride(D);
	for (int i = 0; i < D; ++i) { kernel[i] = 1 + c.choose(std::min(kmax, size[i] + 1)); stride[i] = 1 + c.choose(std::min(smax, size[i] + 1)); }
	int ch = chs[c.choose((int)chs.size())];
	if (!c.shard()) return;
	uint64_t h = mix(d, ch);
	int e = 0;
	for (int i = 0; i < D; ++i) { h = mix(h, size[i] * 64 + kernel[i] * 8 + stride[i]); e += kernel[i] * 3 + stride[i] * 5; }
	// a view is used by every window and stride with one of the depths
	int va = (d + ch + e) % VIEWS, vb = (d * 3 + ch + e / 2) % VIEWS;
	switch (depths == 4 ? (d == 0 ? mt_U8 : d == 1 ? mt_I16 : d == 2 ? mt_I64 : mt_F32) : d) {
	case mt_U8: one<u8>(c, size, ch, va, vb, kernel, stride); break;
	case mt_I8: one<i8>(c, size, ch, va, vb, kernel, stride); break;
	case mt_U16: one<u16>(c, size, ch, va, vb, kernel, stride); break;
	case mt_I16: one<i16>(c, size, ch, va, vb, kernel, stride); break;
	case mt_U32: one<u32>(c, size, ch, va, vb, kernel, stride); break;
	case mt_I32: one<i32>(c, size, ch, va, vb, kernel, stride); break;
	case mt_U64: one<u64>(c, size, ch, va, vb, kernel, stride); break;
	case mt_I64: one<i64>(c, size, ch, va, vb, kernel, stride); break;
	case mt_F32: one<f32>(c, size, ch, va, vb, kernel, stride); break;
	case mt_F64: one<f64>(c, size, ch, va, vb, kernel, stride); break;
	}
	c.nontrivial++;
	c.outcome(h);
}
// every pair of views
static void views(Ctx& c) {
	static const vector<Ints> S = { { 5 }, { 3, 4 }, { 2, 3, 4 }, { 2, 3, 2, 3 } };
	const Ints& size = S[c.choose((int)S.size())];
	int D = (int)size.size(), ch = 1 + c.choose(3), va = c.choose(VIEWS), vb = c.choose(VIEWS), k = 1 + c.choose(3), s = 1 + c.choose(2), d = c.choose(3);
	if (!c.shard()) return;
	Ints kernel(D, k), stride(D, s);
	if (D > 1) kernel[D - 1] = 2;
	if (d == 0) one<u8>(c, size, ch, va, vb, kernel, stride);
	else if (d == 1) one<i32>(c, size, ch, va, vb, kernel, stride);
	else one<f64>(c, size, ch, va, vb, kernel, stride);
	c.nontrivial++;
	c.outcome(mix(mix(D * 4 + ch, va * 8 + vb), k * 16 + s * 4 + d));
}
// more than 65536 elements, sides beyond 32767
static void large(Ctx& c) {
	static const vector<Ints> S = { { 70001 }, { 2, 40000 }, { 40000, 2 }, { 301, 250 }, { 3, 5, 5001 }, { 2, 3, 2, 6001 } };
	const Ints& size = S[c.choose((int)S.size())];
	int pick = c.choose(c.thorough ? 4 : 2), D = (int)size.size(), ch = 1 + pick % 2, va = (pick * 3 + size[0]) % VIEWS, k = 1 + (pick + D) % 3, s = 1 + (pick + size[0]) % 2, d = pick / 2;
	if (!c.shard()) return;
	Ints kernel(D, k), stride(D, s);
	if (d == 0) one<u8>(c, size, ch, va, (va + k) % VIEWS, kernel, stride);
	else one<i32>(c, size, ch, va, (va + k) % VIEWS, kernel, stride);
	c.nontrivial++;
	c.outcome(mix(mix(D * 4 + ch, size[0] * 8 + va), k * 16 + s * 4 + d));
}
// every matrix of small numbers
template<class T> static void contents(Ctx& c, const Ints& size, int ch, const Ints& alphabet, const Ints& kernel, const Ints& stride) {
	int n = total(size) * ch;
	vector<T> a(n);
	for (int i = 0; i < n; ++i) a[i] = (T)alphabet[c.choose((int)alphabet.size())];
	if (!c.shard()) return;
	uint64_t h = n;
	for (int i = 0; i < n; ++i) h = mix(h, (uint64_t)(int64_t)a[i]);
	pool<T>(c, size, ch, 0, kernel, stride, a, a, 0);
	c.nontrivial++;
	c.outcome(mix(h, flat(Ints(kernel.size(), 8), kernel)));
}
int main(int argc, char** argv) {
	Suite s;
	s.leaks = true;
	s.init = []() { log_logger::release(); };
	s.groups.push_back(Group("one dimension", [](Ctx& c) { shapes(c, 1, { 1, 2 }, 9, 4, 10); }));
	s.groups.push_back(Group("two dimensions", [](Ctx& c) { shapes(c, 2, { 1, 3 }, 3, 3, c.thorough ? 10 : 4); }));
	s.groups.push_back(Group("three dimensions", [](Ctx& c) { shapes(c, 3, { 1, 2 }, c.thorough ? 3 : 2, c.thorough ? 3 : 2, c.thorough ? 4 : 10); }));
	s.groups.push_back(Group("four dimensions", [](Ctx& c) { shapes(c, 4, { 1, 2 }, 2, 2, 4); }));
	s.groups.push_back(Group("five dimensions", [](Ctx& c) { shapes(c, 5, { 2 }, 2, 2, 4); }, false));
	s.groups.push_back(Group("all depths in two dimensions", [](Ctx& c) { shapes(c, 2, { 1, 2 }, 2, 2, 10); }));
	s.groups.push_back(Group("views", views));
	s.groups.push_back(Group("matrices of more than 65536 elements", large));
	s.groups.push_back(Group("contents of a row", [](Ctx& c) { int k = 1 + c.choose(4), t = 1 + c.choose(3); contents<i16>(c, { 6 }, 1, { -3, 0, 2 }, { k }, { t }); }));
	s.groups.push_back(Group("contents of a plane", [](Ctx& c) { int k = 1 + c.choose(3), t = 1 + c.choose(2); contents<u8>(c, { 2, 3 }, 1, { 0, 200, 255 }, { 2, k }, { t, t }); }));
	s.groups.push_back(Group("contents of a plane of signed values", [](Ctx& c) { int k = 1 + c.choose(3), t = 1 + c.choose(2); contents<i8>(c, { 3, 2 }, 1, { -128, -5, 127 }, { k, 2 }, { t, t }); }));
	s.groups.push_back(Group("contents of two channels", [](Ctx& c) { int k = 1 + c.choose(2), t = 1 + c.choose(2); contents<i32>(c, { 2, 2 }, 2, { -3, 1, 4 }, { k, 2 }, { t, 1 }); }));
	s.groups.push_back(Group("contents of a cube", [](Ctx& c) { int k = 1 + c.choose(2), t = 1 + c.choose(2); contents<i8>(c, { 2, 2, 2 }, 1, { -7, 0, 5 }, { k, 2, 2 }, { t, 1, 2 }); }));
	s.groups.push_back(Group("contents of a cube of two channels", [](Ctx& c) { int k = 1 + c.choose(2), t = 1 + c.choose(2); contents<i8>(c, { 2, 1, 2 }, 2, { -7, 0, 5 }, { k, 1, 2 }, { t, 1, 1 }); }));
	s.groups.push_back(Group("wide windows in two dimensions", [](Ctx& c) { shapes(c, 2, { 1, 2, 4 }, 5, 5, 10); }, false));
	s.groups.push_back(Group("contents of a larger plane", [](Ctx& c) { int k = 1 + c.choose(3), t = 1 + c.choose(2); contents<u8>(c, { 3, 3 }, 1, { 0, 200, 255 }, { 2, k }, { t, t }); }, false));
	s.groups.push_back(Group("contents of a row of four dimensions", [](Ctx& c) { int k = 1 + c.choose(2), t = 1 + c.choose(2); contents<i8>(c, { 2, 1, 2, 1 }, 2, { -7, 0, 5 }, { k, 1, 2, 1 }, { t, 1, 1, 1 }); }, false));
	return run(s, argc, argv);
}
