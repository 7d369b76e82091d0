// T06: matrix products, convolutions and blurs by definition, for every layout, boundary, arrangement of channels and stride
#include "mat_common.h"
#include <mkl.h>
#include "mcsched.h"

static const int TURNS = 6;
// further turned views of a matrix, that keep the wanted size: the argument is made with the size this returns
static Ints before_turn(const Ints& s, int t) { Ints r = s; if (t == 1 || t == 4) std::reverse(r.begin(), r.end()); return r; }
static mt_mat turn(const mt_mat& m, int t) {
	int D = m.dim();
	mt_mat r = m;
	if (t == 1 || t == 4) for (int a = 0, b = D - 1; a < b; ++a, --b) r = r.swap_dim(a, b);
	if (t == 2) r = r.flip(0);
	if (t == 3 || t == 4) r = r.flip(D - 1);
	if (t == 5) r = r.flip_all_dim();
	return r;
}
template<class T> static mt_mat operand(const Ints& size, int ch, int kind, int t, const vector<T>& v) {
	mt_mat m = turn(make_view(before_turn(size, t), Depth_Of<T>::d, ch, kind), t);
	fill<T>(m, size, ch, v);
	return m;
}
template<class T> static vector<T> whole_numbers(int n, int salt) {
	vector<T> r;
	for (int i = 0; i < n; ++i) r.push_back((T)(((i * 7 + salt * 5 + i * i * (salt % 3)) % 17) - 8));
	return r;
}
struct Quiet { long e; Quiet() : e(mkl_standin::errors()) {} void check(Ctx& c, const string& where) {
	if (mkl_standin::errors() != e) c.fail("arguments", "the library refuses the arguments: " + where);
	if (mkl_standin::tasks() != 0) c.fail("tasks", "a task is left: " + where);
} };
static string sizes_of(const Ints& s) { string r; for (size_t i = 0; i < s.size(); ++i) r += (i ? "x" : "") + num(s[i]); return r; }

template<class T> static void product(Ctx& c, int m, int k, int n, int ch, int ka, int ta, int kb, int tb) {
	Quiet q;
	Ints sa{m, k}, sb{k, n};
	vector<T> va = whole_numbers<T>(m * k * ch, 1), vb = whole_numbers<T>(k * n * ch, 2);
	const mt_mat a = operand<T>(sa, ch, ka, ta, va), b = operand<T>(sb, ch, kb, tb, vb);
	mt_mat r = a.mul(b);
	c.transitions++;
	string where = num(m) + "x" + num(k) + " by " + num(k) + "x" + num(n) + " in " + num(ch) + " channels of depth " + num(Depth_Of<T>::d) + ", views " + num(ka) + " turned " + num(ta) + " and " + num(kb) + " turned " + num(tb);
	q.check(c, where);
	if (!has_shape(r, Ints{m, n}, ch, Depth_Of<T>::d)) { c.fail("shape of a product", where); return; }
	for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) for (int l = 0; l < ch; ++l) {
		T s = 0;
		for (int x = 0; x < k; ++x) s += va[(i * k + x) * ch + l] * vb[(x * n + j) * ch + l];
		if (cell<T>(r, Ints{m, n}, i * n + j, l) != s) { c.fail("a product", where + ": row " + num(i) + " column " + num(j) + " channel " + num(l)); return; }
	}
	if (values<T>(a, sa, ch) != va || values<T>(b, sb, ch) != vb) c.fail("a factor", "changed: " + where);
}
static void products(Ctx& c, int most) {
	int m = 1 + c.choose(most), k = 1 + c.choose(most), n = 1 + c.choose(most), ch = 1 + c.choose(most > 3 ? 3 : 2), ka = c.choose(VIEWS), ta = c.choose(TURNS);
	if (!c.shard()) return;
	c.nontrivial++;
	for (int kb = 0; kb < VIEWS; ++kb) for (int tb = 0; tb < TURNS; ++tb) {
		if ((ka + kb + ta + tb) % 2) product<f32>(c, m, k, n, ch, ka, ta, kb, tb); else product<f64>(c, m, k, n, ch, ka, ta, kb, tb);
		if (most > 3) { if ((ka + kb + ta + tb) % 2) product<f64>(c, m, k, n, ch, ka, ta, kb, tb); else product<f32>(c, m, k, n, ch, ka, ta, kb, tb); }
	}
}
// factors that share memory
static void own_products(Ctx& c) {
	int n = 1 + c.choose(4), ch = 1 + c.choose(2), kind = c.choose(VIEWS), t = c.choose(TURNS), what = c.choose(4);
	if (!c.shard()) return;
	c.nontrivial++; c.transitions++;
	Quiet q;
	Ints s{n, n};
	vector<f64> v = whole_numbers<f64>(n * n * ch, 1);
	mt_mat a = operand<f64>(s, ch, kind, t, v), r;
	if (what == 0) r = a.mul(a); else if (what == 1) r = a.mul(a.t()); else if (what == 2) r = a.t().mul(a); else { a = a.mul(a); r = a; }
	string where = "a " + num(n) + "x" + num(n) + " matrix as view " + num(kind) + " turned " + num(t) + " by itself, way " + num(what);
	q.check(c, where);
	for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int l = 0; l < ch; ++l) {
		f64 sum = 0;
		for (int x = 0; x < n; ++x) sum += (what == 2 ? v[(x * n + i) * ch + l] : v[(i * n + x) * ch + l]) * (what == 1 ? v[(j * n + x) * ch + l] : v[(x * n + j) * ch + l]);
		if (cell<f64>(r, s, i * n + j, l) != sum) { c.fail("a product with itself", where); return; }
	}
}

enum { VALID, FULL, SAME };
static Ints conv_size(const Ints& x, const Ints& k, int b, const Ints& st) {
	Ints r;
	for (size_t i = 0; i < x.size(); ++i) { int n = b == VALID ? x[i] - k[i] + 1 : b == FULL ? x[i] + k[i] - 1 : x[i]; r.push_back((n - 1) / st[i] + 1); }
	return r;
}
// rows: the kernels of one channel of the source follow each other; columns: those of one channel of the result; crosses: every pair
static int conv_channels(int s, int k, int align) { return align < 2 ? k / s : k * s; }
template<class T> static vector<T> conv_values(const Ints& xs, int xc, const vector<T>& x, const Ints& ks, int kc, const vector<T>& k, int b, int align, const Ints& st) {
	Ints rs = conv_size(xs, ks, b, st);
	int D = (int)xs.size(), rc = conv_channels(xc, kc, align), n = total(rs), m = total(ks);
	vector<T> r(n * rc, 0);
	for (int p = 0; p < n; ++p) {
		Ints at = index_of(rs, p);
		for (int j = 0; j < m; ++j) {
			Ints kj = index_of(ks, j), xi(D);
			bool in = true;
			for (int d = 0; d < D && in; ++d) { int first = b == FULL ? 0 : b == VALID ? ks[d] - 1 : ks[d] / 2; xi[d] = first + at[d] * st[d] - kj[d]; in = xi[d] >= 0 && xi[d] < xs[d]; }
			if (!in) continue;
			int f = flat(xs, xi);
			for (int o = 0; o < rc; ++o) {
				if (align == mt_Conv_Kernel_Align_Type_Row) for (int s = 0; s < xc; ++s) r[p * rc + o] += x[f * xc + s] * k[j * kc + s * rc + o];
				else if (align == mt_Conv_Kernel_Align_Type_Col) for (int s = 0; s < xc; ++s) r[p * rc + o] += x[f * xc + s] * k[j * kc + o * xc + s];
				else if (align == mt_Conv_Kernel_Align_Type_Cross_Row) r[p * rc + o] += x[f * xc + o / kc] * k[j * kc + o % kc];
				else r[p * rc + o] += x[f * xc + o % xc] * k[j * kc + o / xc];
			}
		}
	}
	return r;
}
// targets: none, one of the same kind, one of another kind, a view, the source itself, the kernel itself, another header of the source
static const int TARGETS = 7;
struct Conv { Ints xs, ks, st; int xc, kc, b, align, kx, tx, kk, tk, target; };
static string text(const Conv& v) {
	return sizes_of(v.xs) + " in " + num(v.xc) + " channels (view " + num(v.kx) + " turned " + num(v.tx) + ") by " + sizes_of(v.ks) + " in " + num(v.kc) + " (view " + num(v.kk) + " turned " + num(v.tk) + "), boundary " + num(v.b) + " arrangement " + num(v.align) + " strides " + sizes_of(v.st) + " target " + num(v.target);
}
template<class T> static void convolve(Ctx& c, const Conv& v) {
	for (size_t i = 0; i < v.xs.size(); ++i) if (v.b == VALID && v.ks[i] > v.xs[i]) return;
	if (v.align < 2 && v.kc % v.xc) return;
	Quiet q;
	vector<T> vx = whole_numbers<T>(total(v.xs) * v.xc, 1), vk = whole_numbers<T>(total(v.ks) * v.kc, 2);
	mt_mat x = operand<T>(v.xs, v.xc, v.kx, v.tx, vx), k = operand<T>(v.ks, v.kc, v.kk, v.tk, vk), r, whole;
	Ints rs = conv_size(v.xs, v.ks, v.b, v.st);
	int rc = conv_channels(v.xc, v.kc, v.align);
	mt_mat other = x;
	switch (v.target) {
	case 1: r = mt_mat(rs, mt_Depth_Channel(Depth_Of<T>::d, rc), 9.0); break;
	case 2: r = mt_mat(3, 2, mt_U8C3); break;
	case 3: r = make_view(rs, Depth_Of<T>::d, rc, 4, &whole); break;
	}
	mt_mat& res = v.target == 4 ? x : v.target == 5 ? k : v.target == 6 ? other : r;
	mt_mat keep = res;
	Rest* rest = v.target == 3 ? new Rest(whole, res, rs, rc, sizeof(T)) : NULL;
	bool plain = true;
	for (int s : v.st) plain = plain && s == 1;
	if (v.target == 0 && (v.kx + v.kk) % 2) r = x.conv(k, (mt_Conv_Boundary_Type)v.b, (mt_Conv_Kernel_Align_Type)v.align, plain ? NULL : &v.st[0]);
	else x.conv(res, k, (mt_Conv_Boundary_Type)v.b, (mt_Conv_Kernel_Align_Type)v.align, plain ? NULL : &v.st[0]);
	c.transitions++;
	string where = text(v);
	q.check(c, where);
	if (!has_shape(res, rs, rc, Depth_Of<T>::d)) { c.fail("shape of a convolution", where); delete rest; return; }
	if (values<T>(res, rs, rc) != conv_values<T>(v.xs, v.xc, vx, v.ks, v.kc, vk, v.b, v.align, v.st)) c.fail("a convolution", where);
	if (rest) { if (!rest->same()) c.fail("memory beside a convolution", where); delete rest; }
	if (v.target == 3 && !(res.data() == keep.data())) c.fail("a view as the target", "was replaced: " + where);
	if (v.target != 4 && v.target != 6 && values<T>(x, v.xs, v.xc) != vx) c.fail("the source", "changed: " + where);
	if (v.target != 5 && values<T>(k, v.ks, v.kc) != vk) c.fail("the kernel", "changed: " + where);
	// the size that is promised
	vector<i32> promised(v.xs.size());
	mt_mat_helper::get_conv_result_size((i32)v.xs.size(), &promised[0], &v.xs[0], &v.ks[0], plain ? NULL : &v.st[0], (mt_Conv_Boundary_Type)v.b);
	if (Ints(promised.begin(), promised.end()) != rs) c.fail("the promised size", where);
}
static void convolutions(Ctx& c, int D, int xmost, int kmost, int smost) {
	Conv v; v.xs.resize(D); v.ks.resize(D); v.st.resize(D);
	for (int i = 0; i < D; ++i) v.xs[i] = 1 + c.choose(xmost);
	for (int i = 0; i < D; ++i) v.ks[i] = 1 + c.choose(kmost);
	for (int i = 0; i < D; ++i) v.st[i] = 1 + c.choose(smost);
	v.b = c.choose(3);
	if (!c.shard()) return;
	c.nontrivial++;
	v.kx = v.tx = v.kk = v.tk = v.target = 0;
	for (v.xc = 1; v.xc <= 2; ++v.xc) for (int o = 1; o <= 2; ++o) for (v.align = 0; v.align < 4; ++v.align) {
		v.kc = v.align < 2 ? v.xc * o : o;
		if (D > 1 && (v.xc == 2 || o == 2) && !c.thorough && v.align != (v.xs[0] + v.ks[0] + v.st[0]) % 4) continue;
		if ((v.xc + o + v.align) % 2) convolve<f32>(c, v); else convolve<f64>(c, v);
	}
}
static void layouts(Ctx& c, int D) {
	Conv v;
	int s = c.choose(3);
	v.kx = c.choose(VIEWS); v.tx = c.choose(TURNS); v.kk = c.choose(VIEWS);
	if (!c.shard()) return;
	c.nontrivial++;
	static const int X[3][3] = { { 4, 3, 2 }, { 3, 3, 3 }, { 2, 5, 1 } }, K[3][3] = { { 2, 3, 1 }, { 2, 2, 2 }, { 2, 1, 1 } };
	v.xs.assign(X[s], X[s] + D); v.ks.assign(K[s], K[s] + D);
	for (v.tk = 0; v.tk < TURNS; ++v.tk) for (v.b = 0; v.b < 3; ++v.b) for (v.align = 0; v.align < 4; ++v.align) for (v.target = 0; v.target < TARGETS; ++v.target) {
		if (!c.thorough && v.target > 0 && (v.target + v.tk + v.tx + v.b + v.align) % 6) continue;
		v.xc = 1 + (v.align + v.b + v.target) % 2; v.kc = v.xc * (1 + (v.tk + v.align) % 2);
		v.st.assign(D, 1);
		if ((v.tk + v.b) % 3 == 0) v.st[0] = 2;
		if ((v.tk + v.b) % 3 == 1 && D > 1) v.st[1] = 2;
		convolve<f32>(c, v);
		if (c.thorough) convolve<f64>(c, v);
	}
}
// targets of every arrangement in the exact size of the operands
static void targets(Ctx& c) {
	Conv v;
	int D = 1 + c.choose(3), n = 1 + c.choose(4), k = 1 + c.choose(4);
	v.b = c.choose(3); v.align = c.choose(4); v.target = c.choose(TARGETS); v.xc = 1 + c.choose(3);
	if (!c.shard()) return;
	c.nontrivial++;
	v.xs.assign(D, n); v.ks.assign(D, k); v.ks[0] = 1; v.st.assign(D, 1);
	v.kx = v.tx = v.kk = v.tk = 0;
	for (int o = 1; o < 3; ++o) { v.kc = v.align < 2 ? v.xc * o : o; convolve<f64>(c, v); convolve<f32>(c, v); }
}
// so many channels that they are copied apart
static void many_channels(Ctx& c) {
	Conv v;
	static const int N[] = { 1, 2, 15, 16, 17, 20 };
	v.xc = N[c.choose(6)]; int o = N[c.choose(6)]; v.align = c.choose(4); v.b = c.choose(3); v.target = c.choose(TARGETS); int kind = c.choose(c.thorough ? 8 : 3);
	if (!c.shard()) return;
	c.nontrivial++;
	v.xs = Ints{3, 2}; v.ks = Ints{2, 2}; v.st = Ints{1, 1 + v.b % 2};
	v.kc = v.align < 2 ? v.xc * o : o;
	v.kx = kind; v.tx = kind % 3; v.kk = (kind * 3) % 8; v.tk = kind % 2;
	convolve<f64>(c, v);
	if (c.thorough) convolve<f32>(c, v);
}
static void many_dimensions(Ctx& c) {
	Conv v;
	int D = 4 + c.choose(3);
	v.xs.assign(D, 1); v.ks.assign(D, 1); v.st.assign(D, 1);
	for (int i = 0; i < D; ++i) { v.xs[i] = 2; v.ks[i] = 1 + c.choose(2); }
	v.b = c.choose(3); v.align = c.choose(4); v.kx = c.choose(3); v.target = c.choose(2) * 3;
	if (!c.shard()) return;
	c.nontrivial++;
	v.xc = 1 + v.align % 2; v.kc = v.xc; v.tx = v.kk = v.tk = 0; v.st[D - 1] = 1 + v.b % 2; v.st[0] = 1 + D % 2;
	convolve<f64>(c, v);
}
// the channels of the result are divided among workers: in every order of them the same, and no two touch the same memory
static void workers(Ctx& c) {
	static const int N[] = { 1, 2, 3, 17 };
	int xc = N[c.choose(4)], o = N[c.choose(4)], align = c.choose(4), b = c.choose(3), kind = c.choose(c.thorough ? 8 : 2), target = c.choose(2), team = 2 + c.choose(c.thorough ? 3 : 2);
	int kc = align < 2 ? xc * o : o;
	Ints xs{3, 2}, ks{2, 1}, st{1, 1}, rs = conv_size(xs, ks, b, st);
	int rc = conv_channels(xc, kc, align);
	if (!c.shard() || rc < 2) return;
	c.nontrivial++;
	vector<f32> vx = whole_numbers<f32>(6 * xc, 1), vk = whole_numbers<f32>(2 * kc, 2), want = conv_values<f32>(xs, xc, vx, ks, kc, vk, b, align, st);
	for (int order = 0; order < 3; ++order) {
		Quiet q;
		const mt_mat x = operand<f32>(xs, xc, kind, 0, vx), k = operand<f32>(ks, kc, kind * 3 % 8, 0, vk);
		mt_mat r = target ? make_view(rs, mt_F32, rc, 4) : mt_mat();
		sched::S.reset_run();
		sched::S.mode = sched::Direct; sched::S.order = order; sched::S.default_threads = team; sched::S.log = true; sched::S.hot.clear();
		x.conv(r, k, (mt_Conv_Boundary_Type)b, (mt_Conv_Kernel_Align_Type)align);
		sched::S.log = false; sched::S.order = 0;
		c.transitions += sched::S.accesses; sched::S.accesses = 0; c.schedules++;
		string where = num(xc) + " channels by " + num(kc) + " arrangement " + num(align) + " boundary " + num(b) + " view " + num(kind) + " target " + num(target) + " with " + num(team) + " workers in order " + num(order);
		q.check(c, where);
		if (!sched::S.conflicts.empty()) c.fail("workers touch the same memory", where);
		if (!has_shape(r, rs, rc, mt_F32) || values<f32>(r, rs, rc) != want) c.fail("a convolution by workers", where);
	}
}
// blurring: rows, then columns, by the normal distribution; nothing lies outside of the picture
static void blurs(Ctx& c) {
	int h = 1 + c.choose(4), w = 1 + c.choose(4), kw = c.choose(4), kh = c.choose(4), sx = c.choose(4), sy = c.choose(4), kind = c.choose(VIEWS);
	if (!c.shard()) return;
	static const int K[] = { 1, 3, 5, -1 };
	static const double S[] = { 0.5, 1.25, 0, -1 };
	if (S[sx] < 0) return;
	c.nontrivial++;
	double gx = S[sx], gy = S[sy] < 0 ? gx : S[sy];
	for (int depth = 0; depth < 3; ++depth) {
		Quiet q;
		mt_Depth d = depth == 0 ? mt_F64 : depth == 1 ? mt_F32 : mt_U8;
		mt_mat m = make_view(Ints{h, w}, d, 1, kind), r;
		vector<double> v;
		for (int i = 0; i < h * w; ++i) v.push_back((i * 37 + i * i * 11) % 200);
		for (int i = 0; i < h * w; ++i) { if (depth == 0) cell<f64>(m, Ints{h, w}, i, 0) = v[i]; else if (depth == 1) cell<f32>(m, Ints{h, w}, i, 0) = (f32)v[i]; else cell<u8>(m, Ints{h, w}, i, 0) = (u8)v[i]; }
		struct L { static vector<double> kernel(int n, double s, bool bytes) {
			if (n < 0) n = s == 0 ? 1 : (int)floor(s * (bytes ? 3 : 4) * 2 + 1 + 0.5) | 1;
			vector<double> k; double sum = 0;
			for (int i = 0; i < n; ++i) { double t = i == n / 2 ? 0 : s == 0 ? 1e9 : (i - n / 2) / s; k.push_back(exp(-0.5 * t * t)); sum += k.back(); }
			for (double& x : k) x /= sum;
			return k;
		} };
		vector<double> x = L::kernel(K[kw], gx, depth == 2), y = L::kernel(K[kh], gy, depth == 2);
		if (kind % 2) r = img_img::gaussian_blur(m, mt_size(K[kw], K[kh]), gx, S[sy]); else img_img::gaussian_blur(r, m, mt_size(K[kw], K[kh]), gx, S[sy]);
		c.transitions++;
		string where = num(h) + "x" + num(w) + " of depth " + num(d) + " as view " + num(kind) + " by " + num(K[kw]) + "x" + num(K[kh]) + " with " + std::to_string(gx) + " and " + std::to_string(gy);
		q.check(c, where);
		if (!has_shape(r, Ints{h, w}, 1, d)) { c.fail("shape of a blurred picture", where); continue; }
		int nx = (int)x.size(), ny = (int)y.size();
		for (int i = 0; i < h; ++i) for (int j = 0; j < w; ++j) {
			double want = 0;
			for (int a = 0; a < ny; ++a) for (int b = 0; b < nx; ++b) { int p = i + a - ny / 2, o = j + b - nx / 2; if (p >= 0 && o >= 0 && p < h && o < w) want += v[p * w + o] * y[a] * x[b]; }
			double got = depth == 0 ? cell<f64>(r, Ints{h, w}, i * w + j, 0) : depth == 1 ? cell<f32>(r, Ints{h, w}, i * w + j, 0) : cell<u8>(r, Ints{h, w}, i * w + j, 0);
			if (!(fabs(got - want) <= (depth == 0 ? 1e-9 : depth == 1 ? 1e-3 : 1.01))) { c.fail("a blurred picture", where + ": " + std::to_string(got) + " instead of " + std::to_string(want) + " at row " + num(i) + " column " + num(j)); break; }
			double was = depth == 0 ? cell<f64>(m, Ints{h, w}, i * w + j, 0) : depth == 1 ? cell<f32>(m, Ints{h, w}, i * w + j, 0) : cell<u8>(m, Ints{h, w}, i * w + j, 0);
			if (was != v[i * w + j]) { c.fail("the picture", "changed: " + where); break; }
		}
	}
}
int main(int argc, char** argv) {
	Suite s;
	s.leaks = true;
	s.init = []() { basiclog::log_logger::release(); };
	s.groups.push_back(Group("products", [](Ctx& c) { products(c, c.thorough ? 4 : 3); }));
	s.groups.push_back(Group("products with itself", own_products));
	s.groups.push_back(Group("convolutions of one dimension", [](Ctx& c) { convolutions(c, 1, c.thorough ? 9 : 7, c.thorough ? 7 : 5, 4); }));
	s.groups.push_back(Group("convolutions of two dimensions", [](Ctx& c) { convolutions(c, 2, c.thorough ? 5 : 4, c.thorough ? 4 : 3, 2); }));
	s.groups.push_back(Group("convolutions of three dimensions", [](Ctx& c) { convolutions(c, 3, c.thorough ? 3 : 2, 2, 2); }));
	s.groups.push_back(Group("layouts in one dimension", [](Ctx& c) { layouts(c, 1); }));
	s.groups.push_back(Group("layouts in two dimensions", [](Ctx& c) { layouts(c, 2); }));
	s.groups.push_back(Group("layouts in three dimensions", [](Ctx& c) { layouts(c, 3); }));
	s.groups.push_back(Group("targets", targets));
	s.groups.push_back(Group("many channels", many_channels));
	s.groups.push_back(Group("many dimensions", many_dimensions));
	s.groups.push_back(Group("blurs", blurs));
	s.groups.push_back(Group("workers", workers));
	return run(s, argc, argv);
}
