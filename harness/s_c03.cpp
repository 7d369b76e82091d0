// C03: edges with local thresholds: the mean of the windows over each place, dense places, small weak groups, tracing
#include "mat_common.h"
struct Field { int w, h; vector<int> x, y, m; };
struct Set { int window = 16, mx = 160, mn = 40, density = 120, noise = 3, overlap = 3; float low = 0.5f, flag = 0.3f, mean = 0.9f; };
static bool ambiguous;
static vector<char> plain(const Field& g, int low, int high) {
	auto mag = [&](int x, int y) { return x < 0 || y < 0 || x >= g.w || y >= g.h ? 0 : g.m[y * g.w + x]; };
	vector<char> cand(g.w * g.h, 0), r(g.w * g.h, 0);
	vector<int> todo;
	for (int y = 0; y < g.h; ++y) for (int x = 0; x < g.w; ++x) {
		int k = y * g.w + x, m = g.m[k];
		if (m <= low) continue;
		bool ok = g.y[k] == 0 ? m > mag(x - 1, y) && m >= mag(x + 1, y) : g.x[k] == 0 ? m > mag(x, y - 1) && m >= mag(x, y + 1) : m > mag(x - 1, y - 1) && m > mag(x + 1, y + 1);
		if (!ok) continue;
		cand[k] = 1;
		if (m > high) { r[k] = 1; todo.push_back(k); }
	}
	while (!todo.empty()) {
		int k = todo.back(); todo.pop_back();
		for (int dy = -1; dy <= 1; ++dy) for (int dx = -1; dx <= 1; ++dx) {
			int x = k % g.w + dx, y = k / g.w + dy;
			if (x < 0 || y < 0 || x >= g.w || y >= g.h || !cand[y * g.w + x] || r[y * g.w + x]) continue;
			r[y * g.w + x] = 1; todo.push_back(y * g.w + x);
		}
	}
	return r;
}
// closure over neighbours; pass(k) says whether a pixel is taken, on(k) whether it is followed
template<class A, class B> static vector<int> grow(const Field& g, int start, A take, B follow) {
	vector<int> r(1, start), todo(1, start);
	while (!todo.empty()) {
		int k = todo.back(); todo.pop_back();
		for (int dy = -1; dy <= 1; ++dy) for (int dx = -1; dx <= 1; ++dx) {
			int x = k % g.w + dx, y = k / g.w + dy, n = y * g.w + x;
			if ((!dx && !dy) || x < 0 || y < 0 || x >= g.w || y >= g.h || !take(n)) continue;
			r.push_back(n);
			if (follow(n)) todo.push_back(n);
		}
	}
	return r;
}
static vector<char> edges(const Field& g, const Set& s) {
	int W = g.w, H = g.h;
	ambiguous = false;
	vector<char> temp = plain(g, (int)(s.mn * s.low), s.mn), e(W * H, 0);
	int step = s.window / 4, NR = std::max(1, H / step), NC = std::max(1, W / step);
	vector<double> sum(NR * NC, 0); vector<int> count(NR * NC, 0), dense(NR * NC, 0);
	for (int i = 0; i + 4 <= NR; ++i) for (int j = 0; j + 4 <= NC; ++j) {
		int r1 = i + 4 == NR ? H - 1 : i * step + s.window - 1, c1 = j + 4 == NC ? W - 1 : j * step + s.window - 1, n = 0; double t = 0;
		for (int y = i * step; y <= r1; ++y) for (int x = j * step; x <= c1; ++x) if (temp[y * W + x]) { ++n; t += g.m[y * W + x]; }
		for (int a = i; a < i + 4; ++a) for (int b = j; b < j + 4; ++b) {
			sum[a * NC + b] += t; count[a * NC + b] += n;
			if (n && n >= (int)(s.window * s.window * s.flag)) dense[a * NC + b]++;
		}
	}
	vector<double> th(W * H, 0);
	for (int y = 0; y < H; ++y) for (int x = 0; x < W; ++x) {
		int k = y * W + x, cell = std::min(y / step, NR - 1) * NC + std::min(x / step, NC - 1);
		if (!temp[k]) continue;
		double t = count[cell] ? sum[cell] / count[cell] * s.mean : 0;
		if (dense[cell] > s.overlap) t = s.density;
		t = std::min(std::max(t, (double)s.mn), (double)s.mx);
		th[k] = t;
		if (t != s.mn && t != s.mx && t != s.density && fabs(g.m[k] - t) < 1e-2) ambiguous = true;
		e[k] = g.m[k] > t;
	}
	// small groups of weak pixels, followed through inner pixels
	vector<char> seen(W * H, 0);
	auto border = [&](int k) { return k % W == 0 || k / W == 0 || k % W == W - 1 || k / W == H - 1; };
	for (int k = 0; k < W * H; ++k) {
		if (border(k) || !e[k] || g.m[k] >= 100 || seen[k]) continue;
		bool high = false;
		seen[k] = 1;
		vector<int> p = grow(g, k, [&](int n) { if (!e[n] || seen[n]) return false; seen[n] = 1; if (g.m[n] >= 100) high = true; return true; }, [&](int n) { return !border(n); });
		if (!high && (int)p.size() <= s.noise) for (int n : p) e[n] = 0;
	}
	for (int k = 0; k < W * H; ++k) if (e[k] && temp[k]) {
		double low = th[k] * s.low;
		temp[k] = 0;
		grow(g, k, [&](int n) { if (fabs(g.m[n] - low) < 1e-2 && low != floor(low)) ambiguous = true; if (e[n] || !temp[n] || g.m[n] < low) return false; e[n] = 1; temp[n] = 0; return true; }, [](int) { return true; });
	}
	return e;
}
static string text(const Field& g, const Set& s) {
	string r = num(g.w) + "x" + num(g.h);
	for (size_t i = 0; i < g.m.size() && i < 60; ++i) r += " " + num(g.m[i]);
	return r + " window " + num(s.window) + " limits " + num(s.mn) + " " + num(s.mx) + " density " + num(s.density) + " noise " + num(s.noise) + " overlap " + num(s.overlap);
}
static void apply(img_auto_threshold_canny& t, const Set& s) {
	t.set_auto_threshold_window_size(s.window); t.set_auto_threshold_max(s.mx); t.set_auto_threshold_min(s.mn); t.set_auto_threshold_density(s.density);
	t.set_low_to_high_ratio(s.low); t.set_density_flag_number_to_window_ratio(s.flag); t.set_density_window_flag_overlap_number_threshold(s.overlap);
	t.set_auto_threshold_to_mean_ratio(s.mean); t.set_m_noise_edge_number_threshold(s.noise);
}
static mt_mat floats(const vector<int>& v, int w, int h, int kind) {
	mt_mat m = make_view(Ints{ h, w }, mt_F32, 1, kind);
	for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) m.at<f32>(y, x, 0) = (f32)v[y * w + x];
	return m;
}
static bool same(const mt_mat& m, const vector<int>& v, int w, int h) { for (int i = 0; i < w * h; ++i) if (m.at<f32>(i / w, i % w, 0) != v[i]) return false; return true; }
static void one(Ctx& c, const Field& g, const Set& s, img_auto_threshold_canny* used = NULL, int kind = 0, int ke = 0) {
	vector<char> want = edges(g, s);
	if (ambiguous) return;   // a magnitude that is as good as its threshold
	img_auto_threshold_canny fresh;
	img_auto_threshold_canny& t = used ? *used : fresh;
	apply(t, s);
	mt_mat x = floats(g.x, g.w, g.h, kind), y = floats(g.y, g.w, g.h, kind), m = floats(g.m, g.w, g.h, kind), src(g.h, g.w, mt_U8C1, 5.0), e;
	if (ke) e = make_view(Ints{ g.h, g.w }, mt_U8, 1, ke);
	t.edge_detection(e, src, x, y, m);
	c.transitions++;
	if (!has_shape(e, Ints{ g.h, g.w }, 1, mt_U8)) c.fail("shape", text(g, s));
	int n = 0;
	for (int i = 0; i < g.w * g.h; ++i) {
		int v = e.at<u8>(i / g.w, i % g.w, 0);
		n += want[i];
		if (v != (want[i] ? 255 : 0)) c.fail("edges", num(v) + " at row " + num(i / g.w) + " column " + num(i % g.w) + " of " + text(g, s));
	}
	if (!same(x, g.x, g.w, g.h) || !same(y, g.y, g.w, g.h) || !same(m, g.m, g.w, g.h)) c.fail("input", "changed: " + text(g, s));
	if (n) c.nontrivial++;
	uint64_t h = 0;
	for (char q : want) h = h * 3 + q;
	c.outcome(h);
}
// fields of lines: which pixels lie on a line, and across which direction
static void lines(Field& g, int pattern) {
	g.x.assign(g.w * g.h, 100); g.y.assign(g.w * g.h, 0);
	for (int i = 0; i < g.w * g.h; ++i) {
		int x = i % g.w, y = i / g.w;
		if (pattern == 1 || (pattern == 2 && x % 2)) { g.x[i] = 0; g.y[i] = 100; }
		if (pattern == 3) { g.y[i] = 100; }
	}
}
static bool on(const Field& g, int pattern, int i) {
	int x = i % g.w, y = i / g.w;
	return pattern == 0 ? x % 2 == 0 : pattern == 1 ? y % 2 == 0 : pattern == 2 ? x % 2 == 0 || y == g.h / 2 : (x + y) % 2 == 0;
}
static const int M[] = { 0, 90, 130, 30, 200 };
static void fields(Ctx& c) {
	// shape, pattern, number of magnitudes
	static const int S[][4] = { { 1, 1, 0, 5 }, { 7, 1, 0, 5 }, { 1, 7, 1, 5 }, { 4, 4, 0, 3 }, { 5, 5, 2, 2 }, { 4, 5, 3, 3 }, { 5, 4, 1, 3 }, { 6, 6, 0, 2 } };
	int s = c.choose(c.thorough ? 8 : 7);
	Field g; g.w = S[s][0]; g.h = S[s][1];
	lines(g, S[s][2]);
	for (int i = 0; i < g.w * g.h; ++i) g.m.push_back(on(g, S[s][2], i) ? S[s][3] == 2 ? (c.choose(2) ? 130 : 90) : M[c.choose(S[s][3])] : 0);
	if (S[s][3] == 2) for (size_t i = 0; i < g.m.size(); ++i) if ((i * 7 + i / 3) % 5 == 0 && g.m[i] == 90) g.m[i] = 30;
	if (!c.shard()) return;
	Set a; a.window = 4; one(c, g, a);
	a.low = 0.8f; a.mean = 1.2f; a.noise = 1; one(c, g, a);
	a.flag = 0.1f; a.overlap = 0; a.mean = 0.7f; a.noise = 2; one(c, g, a);
	a.mn = 20; a.mx = 95; a.window = 8; a.noise = 0; one(c, g, a);
}
// larger fields by a rule, every setting
static void settings(Ctx& c) {
	Set a;
	static const int W[] = { 4, 8, 16, 12, 20 };
	int shape = c.choose(5), pattern = c.choose(4), salt = c.choose(c.thorough ? 12 : 5);
	a.window = W[c.choose(5)];
	a.noise = c.choose(2) * 3; a.overlap = c.choose(3) * 2; a.density = c.choose(2) ? 120 : 60;
	int k = c.choose(6);
	if (k == 1) a.low = 0.9f; if (k == 2) a.mean = 1.3f; if (k == 3) a.flag = 0.05f; if (k == 4) { a.mn = 70; a.mx = 90; } if (k == 5) { a.flag = 0.2f; a.low = 0.3f; }
	if (!c.shard()) return;
	static const int S[][2] = { { 17, 13 }, { 9, 22 }, { 33, 18 }, { 3, 19 }, { 16, 16 } };
	Field g; g.w = S[shape][0]; g.h = S[shape][1];
	lines(g, pattern);
	for (int i = 0; i < g.w * g.h; ++i) {
		int x = i % g.w, y = i / g.w;
		static const int V[] = { 45, 0, 75, 110, 60, 150, 230, 95, 0, 52 };
		g.m.push_back(on(g, pattern, i) ? V[(x * (3 + salt) + y * (1 + salt % 3) + x * y % (2 + salt)) % 10] : 0);
	}
	one(c, g, a);
}
static void views(Ctx& c) {
	int kind = c.choose(8), ke = c.choose(8), pattern = c.choose(4);
	if (!c.shard()) return;
	Field g; g.w = 9; g.h = 7;
	lines(g, pattern);
	for (int i = 0; i < 63; ++i) g.m.push_back(on(g, pattern, i) ? M[i * 3 % 5] + i % 4 : 0);
	Set a; a.window = 4; a.noise = 2;
	one(c, g, a, NULL, kind, ke);
}
// one detector for several fields of different sizes and settings
static void histories(Ctx& c) {
	int depth = c.thorough ? 4 : 3, op[4];
	for (int i = 0; i < depth; ++i) op[i] = c.choose(9);
	if (!c.shard()) return;
	img_auto_threshold_canny t;
	for (int i = 0; i < depth; ++i) {
		if (op[i] == 8) { t.clear_memory_cache(); continue; }
		Field g; g.w = op[i] % 3 == 0 ? 9 : op[i] % 3 == 1 ? 7 : 3; g.h = op[i] % 3 == 0 ? 7 : op[i] % 3 == 1 ? 9 : 2;
		lines(g, op[i] % 4);
		for (int k = 0; k < g.w * g.h; ++k) g.m.push_back(on(g, op[i] % 4, k) ? M[(k * (op[i] + 1) + k / 3) % 5] : 0);
		Set a; a.window = op[i] & 1 ? 4 : 8; if (op[i] & 2) { a.noise = 0; a.low = 0.8f; a.overlap = 0; a.flag = 0.1f; }
		one(c, g, a, &t);
	}
}
int main(int argc, char** argv) {
	Suite s;
	s.groups = { { "fields", fields }, { "settings", settings }, { "views", views }, { "histories", histories } };
	s.init = []() { log_logger::release(); };
	s.leaks = true;
	return run(s, argc, argv);
}
