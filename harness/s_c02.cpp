// C02: edges: exactly the ridge pixels of the gradient that are linked to a strong one, whatever the layout and the history
#include "mat_common.h"

struct Grad { int w, h; vector<int> x, y, m; };   // whole numbers
static int mag_at(const Grad& g, int x, int y) { return x < 0 || y < 0 || x >= g.w || y >= g.h ? 0 : g.m[y * g.w + x]; }
// the definition
static vector<char> edges(const Grad& g, int low, int high) {
	vector<char> cand(g.w * g.h, 0), r(g.w * g.h, 0);
	vector<int> todo;
	for (int y = 0; y < g.h; ++y) for (int x = 0; x < g.w; ++x) {
		int k = y * g.w + x, m = g.m[k];
		if (m <= low) continue;
		double ax = fabs((double)g.x[k]), ay = fabs((double)g.y[k]), t = 0.41421356237309504880;   // tan of 22.5 degrees
		bool ok;
		if (ay < ax * t) ok = m > mag_at(g, x - 1, y) && m >= mag_at(g, x + 1, y);
		else if (ay > ax * (t + 2)) ok = m > mag_at(g, x, y - 1) && m >= mag_at(g, x, y + 1);
		else { int s = (g.x[k] < 0) != (g.y[k] < 0) ? -1 : 1; ok = m > mag_at(g, x - s, y - 1) && m > mag_at(g, x + s, y + 1); }
		if (!ok) continue;
		cand[k] = 1;
		if (m > high) { r[k] = 1; todo.push_back(k); }
	}
	while (!todo.empty()) {
		int k = todo.back(); todo.pop_back();
		for (int dy = -1; dy <= 1; ++dy) for (int dx = -1; dx <= 1; ++dx) {
			int x = k % g.w + dx, y = k / g.w + dy;
			if (x < 0 || y < 0 || x >= g.w || y >= g.h || !cand[y * g.w + x] || r[y * g.w + x]) continue;
			r[y * g.w + x] = 1; todo.push_back(y * g.w + x);
		}
	}
	return r;
}
static string text(const Grad& g) {
	string s = num(g.w) + "x" + num(g.h);
	for (size_t i = 0; i < g.m.size() && i < 40; ++i) s += " " + num(g.m[i]) + "(" + num(g.x[i]) + "," + num(g.y[i]) + ")";
	return s;
}
static mt_mat floats(const vector<int>& v, int w, int h, int kind) {
	mt_mat m = make_view(Ints{ h, w }, mt_F32, 1, kind);
	for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) m.at<f32>(y, x, 0) = (f32)v[y * w + x];
	return m;
}
static vector<f32> floats_of(const mt_mat& m, int w, int h) { vector<f32> r; for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) r.push_back(m.at<f32>(y, x, 0)); return r; }
static void compare(Ctx& c, const mt_mat& e, const Grad& g, int low, int high, const string& what) {
	c.transitions++;
	if (!has_shape(e, Ints{ g.h, g.w }, 1, mt_U8)) c.fail("shape", what);
	vector<char> w = edges(g, low, high);
	for (int y = 0; y < g.h; ++y) for (int x = 0; x < g.w; ++x) {
		int v = e.at<u8>(y, x, 0);
		if (v != (w[y * g.w + x] ? 255 : 0)) c.fail("edges", what + ": " + num(v) + " at row " + num(y) + " column " + num(x) + " of " + text(g) + " low " + num(low) + " high " + num(high));
	}
}
// every direction a pixel may have: multiples of 22.5 degrees and just beside them, in all quadrants
static const int DIRS[][2] = { { 100, 0 }, { 10000, 4142 }, { 10000, 4143 }, { 100, 100 }, { 4142, 10000 }, { 4143, 10000 }, { 0, 100 },
	{ -4142, 10000 }, { -4143, 10000 }, { -100, 100 }, { -10000, 4143 }, { -10000, 4142 }, { -100, 0 }, { -10000, -4142 }, { -10000, -4143 }, { -7, -7 }, { -4143, -10000 }, { -4142, -10000 }, { 0, -3 },
	{ 4142, -10000 }, { 4143, -10000 }, { 1, -1 }, { 10000, -4143 }, { 10000, -4142 } };
static const int ND = sizeof DIRS / sizeof DIRS[0];
static const int MAGS[] = { 0, 41, 101, 102, 40, 100 };
static void run_given(Ctx& c, const Grad& g, int low, int high, int kind, img_canny* used = NULL) {
	mt_mat x = floats(g.x, g.w, g.h, kind), y = floats(g.y, g.w, g.h, kind), m = floats(g.m, g.w, g.h, kind), e;
	img_canny fresh(low, high);
	img_canny& t = used ? *used : fresh;
	t.edge_detection(e, mt_mat(g.h, g.w, mt_U8C1, mt_scalar(0)), x, y, m);
	compare(c, e, g, low, high, "gradient of kind " + num(kind));
}
static void directions(Ctx& c) {
	// one pixel of every direction between neighbours of every order
	int d = c.choose(ND);
	Grad g; g.w = g.h = 3;
	g.x.assign(9, DIRS[d][0]); g.y.assign(9, DIRS[d][1]); g.m.assign(9, 0);
	int kind = c.choose(4);
	for (int i = 0; i < 9; ++i) g.m[i] = kind == 0 ? c.choose(2) * 61 : 0;
	static const int V[] = { 59, 60, 61 };
	g.m[4] = 60;
	if (kind == 1) { for (int i = 0; i < 9; ++i) if (i != 4 && i % 2 == 0) g.m[i] = V[c.choose(3)]; }
	if (kind == 2) { for (int i = 0; i < 9; ++i) if (i % 2 == 1) g.m[i] = V[c.choose(3)]; }
	if (kind == 3) { for (int i = 0; i < 9; ++i) if (i != 4) g.m[i] = 59 + 2 * c.choose(2); }
	if (!c.shard()) return;
	c.nontrivial++;
	run_given(c, g, 40, 50, 0);
	run_given(c, g, 59, 59, 0);
	run_given(c, g, 40, 60, 0);
}
// every picture of magnitudes, with uniform or mixed directions
static const int SHAPES[][3] = { { 1, 1, 6 }, { 2, 1, 6 }, { 1, 2, 6 }, { 5, 1, 4 }, { 1, 5, 4 }, { 2, 2, 6 }, { 3, 2, 4 }, { 2, 3, 4 }, { 3, 3, 3 }, { 4, 3, 2 }, { 3, 4, 2 }, { 7, 2, 2 } };
static void magnitudes(Ctx& c) {
	int s = c.choose(12);
	Grad g; g.w = SHAPES[s][0]; g.h = SHAPES[s][1];
	int n = g.w * g.h, L = SHAPES[s][2];
	for (int i = 0; i < n; ++i) g.m.push_back(L == 2 ? (c.choose(2) ? 101 : 41) : MAGS[c.choose(L)]);
	if (!c.shard()) return;
	c.nontrivial++;
	{ uint64_t v = 0; for (char q : edges([&] { Grad k = g; k.x.assign(n, 100); k.y.assign(n, 0); return k; }(), 40, 100)) v = v * 2 + q; c.outcome(v); }
	int D = c.thorough ? 16 : 7;
	for (int d = 0; d < D; ++d) {
		g.x.resize(n); g.y.resize(n);
		for (int i = 0; i < n; ++i) {
			int q = d < 4 ? d * 3 : d == 4 ? i * 3 : d == 5 ? (i * 7 + 2) : d == 6 ? (i % g.w) * 6 + (i / g.w) * 3 : i * d + d;
			g.x[i] = DIRS[q % ND][0]; g.y[i] = DIRS[q % ND][1];
		}
		run_given(c, g, 40, 100, 0);
		if (d == 0) run_given(c, g, 100, 100, 0);
		if (d == 1) run_given(c, g, 0, 40, 0);
	}
}
// chains of weak pixels in every direction to a strong one
static void chains(Ctx& c) {
	int w = 5, h = 5;
	int at = c.choose(25), len = 1 + c.choose(c.thorough ? 7 : 6);
	Grad g; g.w = w; g.h = h; g.m.assign(25, 0); g.x.assign(25, 0); g.y.assign(25, 0);
	g.m[at] = 200;
	int p = at; bool ok = true;
	vector<int> path(1, at);
	for (int i = 0; i < len && ok; ++i) {
		int k = c.choose(8); if (k >= 4) ++k;
		int x = p % w + k % 3 - 1, y = p / w + k / 3 - 1;
		if (x < 0 || y < 0 || x >= w || y >= h || g.m[y * w + x]) { ok = false; break; }
		p = y * w + x; g.m[p] = 50; path.push_back(p);
	}
	if (!c.shard() || !ok) return;
	c.nontrivial++;
	// each pixel points where its neighbours on the axis are lower
	for (int k : path) {
		static const int A[][2] = { { 1, 0 }, { 0, 1 }, { 1, 1 }, { -1, 1 } };
		int x = k % w, y = k / w;
		int a = 0;
		for (; a < 3; ++a) if (mag_at(g, x + A[a][0], y + A[a][1]) < g.m[k] && mag_at(g, x - A[a][0], y - A[a][1]) < g.m[k]) break;
		g.x[k] = A[a][0] * 100; g.y[k] = A[a][1] * 100;
	}
	run_given(c, g, 40, 100, 0);
}
static Grad of_image(const vector<int>& px, int w, int h, bool l2) {
	Grad g; g.w = w; g.h = h;
	struct B { static int at(int p, int n) { if (n == 1) return 0; while (p < 0 || p >= n) p = p < 0 ? -p : 2 * n - 2 - p; return p; } };
	for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
		int gx = 0, gy = 0;
		for (int j = -1; j <= 1; ++j) for (int i = -1; i <= 1; ++i) {
			int v = px[B::at(y + j, h) * w + B::at(x + i, w)];
			gx += v * i * (j ? 1 : 2); gy += v * j * (i ? 1 : 2);
		}
		g.x.push_back(gx); g.y.push_back(gy);
		g.m.push_back(l2 ? (int)sqrt((double)(f32)((double)gx * gx + (double)gy * gy)) : abs(gx) + abs(gy));
	}
	return g;
}
static mt_mat bytes(const vector<int>& px, int w, int h, int kind) {
	mt_mat m = make_view(Ints{ h, w }, mt_U8, 1, kind);
	for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) m.at<u8>(y, x, 0) = (u8)px[y * w + x];
	return m;
}
static void pictures(Ctx& c) {
	static const int S[][3] = { { 3, 3, 3 }, { 4, 3, 2 }, { 3, 4, 2 }, { 4, 4, 2 }, { 2, 5, 2 }, { 1, 6, 3 }, { 6, 1, 3 } };
	int s = c.choose(7);
	int w = S[s][0], h = S[s][1];
	vector<int> px;
	static const int V[] = { 0, 30, 90 };
	for (int i = 0; i < w * h; ++i) px.push_back(V[c.choose(S[s][2])]);
	if (!c.shard()) return;
	c.nontrivial++;
	for (int l2 = 0; l2 < 2; ++l2) {
		Grad g = of_image(px, w, h, l2);
		img_canny t(40, 100, 3, l2);
		mt_mat e = t.edge_detection(bytes(px, w, h, 0));
		compare(c, e, g, 40, 100, "picture");
	}
}
// all kinds of views of the picture, the gradients and the result
static void views(Ctx& c) {
	int which = c.choose(5), kind = c.choose(8), s = c.choose(4), salt = c.choose(6), l2 = c.choose(2);
	if (!c.shard()) return;
	c.nontrivial++;
	static const int S[][2] = { { 5, 4 }, { 4, 6 }, { 1, 5 }, { 5, 1 } };
	int w = S[s][0], h = S[s][1];
	vector<int> px;
	for (int i = 0; i < w * h; ++i) px.push_back(((i * (7 + salt) + i * i * salt) % 5) * 20);
	Grad g = of_image(px, w, h, l2);
	img_canny t(40, 100, 3, l2);
	mt_mat src = bytes(px, w, h, which == 0 ? kind : 0), x, y, m, e, whole;
	if (which == 1 || which == 4) x = floats(g.x, w, h, kind);
	if (which == 2 || which == 4) y = floats(g.y, w, h, kind);
	if (which == 4) { m = floats(g.m, w, h, kind); }
	if (which == 3) e = make_view(Ints{ h, w }, mt_U8, 1, kind, &whole);
	mt_mat keep = e;
	vector<f32> bx, by, bm;
	if (!x.is_empty()) bx = floats_of(x, w, h);
	if (!y.is_empty()) by = floats_of(y, w, h);
	if (!m.is_empty()) bm = floats_of(m, w, h);
	Rest* rest = which == 3 ? new Rest(whole, keep, Ints{ h, w }, 1, 1) : NULL;
	t.edge_detection(e, src, x, y, m);
	compare(c, e, g, 40, 100, "part " + num(which) + " as view " + num(kind));
	if (rest && !rest->same()) c.fail("beside", "memory beside the result changed, view " + num(kind));
	delete rest;
	if ((!x.is_empty() && floats_of(x, w, h) != bx) || (!y.is_empty() && floats_of(y, w, h) != by) || (!m.is_empty() && floats_of(m, w, h) != bm)) c.fail("gradients", "the given gradients changed");
	for (int i = 0; i < w * h; ++i) if (src.at<u8>(i / w, i % w, 0) != px[i]) c.fail("source", "the picture changed");
}
// histories of one detector: pictures, given gradients in part, settings, the cache
static void histories(Ctx& c) {
	int depth = c.thorough ? 4 : 3;
	static const int S[][2] = { { 4, 4 }, { 5, 3 }, { 4, 4 } };
	int ops[4];
	for (int i = 0; i < depth; ++i) ops[i] = c.choose(c.thorough ? 12 : 14);
	if (!c.shard()) return;
	c.nontrivial++;
	img_canny t(40, 100);
	int low = 40, high = 100; bool l2 = true;
	vector<mt_mat> given; vector<vector<f32> > before; vector<std::pair<int, int> > sizes;
	for (int i = 0; i < depth; ++i) {
		int op = ops[i];
		if (op < 3 || (op >= 3 && op < 9) || op >= 12) {
			int im = op < 3 ? op : op < 9 ? (op - 3) % 2 * 2 : 0, what = op < 3 ? 0 : op < 9 ? 1 + (op - 3) / 2 : op - 8;   // 0 none 1 x 2 y 3 all 4 magnitude 5 x and y
			int w = S[im][0], h = S[im][1];
			vector<int> px;
			for (int k = 0; k < w * h; ++k) px.push_back(((k * (5 + im) + k * k * (im + 1)) % 5) * 25);
			Grad g = of_image(px, w, h, l2);
			mt_mat x, y, m;
			if (what == 1 || what == 3 || what == 5) { x = floats(g.x, w, h, 0); given.push_back(x); sizes.push_back({ w, h }); before.push_back(floats_of(x, w, h)); }
			if (what == 2 || what == 3 || what == 5) { y = floats(g.y, w, h, 0); given.push_back(y); sizes.push_back({ w, h }); before.push_back(floats_of(y, w, h)); }
			if (what == 3 || what == 4) { m = floats(g.m, w, h, 0); given.push_back(m); sizes.push_back({ w, h }); before.push_back(floats_of(m, w, h)); }
			mt_mat e;
			t.edge_detection(e, bytes(px, w, h, 0), x, y, m);
			compare(c, e, g, low, high, "step " + num(i));
			for (size_t k = 0; k < given.size(); ++k) if (floats_of(given[k], sizes[k].first, sizes[k].second) != before[k]) c.fail("gradients", "given gradients changed at step " + num(i));
		} else if (op == 9) { low = low == 40 ? 20 : 40; high = high == 100 ? 70 : 100; t.set_low_threshold(low); t.set_high_threshold(high); if (t.low_threshold() != low || t.high_threshold() != high) c.fail("settings", "thresholds"); }
		else if (op == 10) { l2 = !l2; t.set_l2_gradient(l2); if (!!t.is_l2_gradient() != l2) c.fail("settings", "gradient"); }
		else { t.clear_memory_cache(); }
	}
}
// every picture of magnitudes after another one of the same, a larger or a smaller size, in one detector
static void successions(Ctx& c) {
	static const int S[][3] = { { 2, 2, 6 }, { 3, 2, 3 }, { 2, 3, 3 }, { 1, 3, 6 }, { 3, 1, 6 }, { 3, 3, 2 } };
	int s = c.choose(6), first = c.choose(5), dir = c.choose(4);
	Grad g; g.w = S[s][0]; g.h = S[s][1];
	int n = g.w * g.h, L = S[s][2];
	for (int i = 0; i < n; ++i) { g.m.push_back(L == 2 ? (c.choose(2) ? 101 : 41) : MAGS[c.choose(L)]); g.x.push_back(DIRS[dir * 3][0]); g.y.push_back(DIRS[dir * 3][1]); }
	if (!c.shard()) return;
	c.nontrivial++;
	Grad a; a.w = g.w + (first == 1 ? 2 : first == 2 && g.w > 1 ? -1 : 0); a.h = g.h + (first == 1 ? 2 : first == 2 && g.h > 1 ? -1 : 0);
	for (int i = 0; i < a.w * a.h; ++i) { a.m.push_back(first == 3 ? 150 + i * 7 % 13 : first == 4 ? 45 + i * 31 % 99 : 300); a.x.push_back(DIRS[(dir + (first == 3)) % 4 * 3][0]); a.y.push_back(DIRS[(dir + (first == 3)) % 4 * 3][1]); }
	img_canny t(40, 100);
	run_given(c, a, 40, 100, 0, &t);
	run_given(c, g, 40, 100, 0, &t);
	run_given(c, a, 40, 100, 0, &t);
}
// what is kept: nothing after clearing, or with the cache turned off
static void memory(Ctx& c) {
	int how = c.choose(3), given = c.choose(3), n = 1 + c.choose(2);
	if (!c.shard()) return;
	c.nontrivial++;
	int w = 40, h = 30;
	vector<int> px;
	for (int k = 0; k < w * h; ++k) px.push_back(((k * 5 + k * k) % 5) * 25);
	const mt_mat src = bytes(px, w, h, 0);   // const: otherwise the source is taken for the result
	Grad g = of_image(px, w, h, true);
	mt_mat x = floats(g.x, w, h, 0), y = floats(g.y, w, h, 0), m = floats(g.m, w, h, 0);
	img_canny t(40, 100, how != 1);
	for (int i = 0; i < n; ++i) {
		if (given == 0) t.edge_detection(src);
		else if (given == 1) t.edge_detection(src, x);
		else t.edge_detection(src, x, y, m);
	}
	if (how == 2) t.clear_memory_cache();
	bool kept = !t.gradient_x().is_empty() || !t.gradient_y().is_empty() || !t.gradient_mag().is_empty();
	if (how != 0 && kept) c.fail("kept", "gradients are kept though the cache is off or cleared");
	if (how == 0) {
		if (!kept) c.fail("kept", "gradients are not kept though the cache is on");
		for (int k = 0; k < w * h; ++k) if (t.gradient_x().at<f32>(k / w, k % w, 0) != g.x[k] || t.gradient_y().at<f32>(k / w, k % w, 0) != g.y[k]) c.fail("gradient", "the gradient of the picture: " + std::to_string(t.gradient_x().at<f32>(k / w, k % w, 0)) + " " + num(g.x[k]) + ", " + std::to_string(t.gradient_y().at<f32>(k / w, k % w, 0)) + " " + num(g.y[k]) + " at " + num(k));
	}
}
// large pictures: many strong pixels in one row, long chains, spirals
static void large(Ctx& c) {
	int k = c.choose(14);
	if (!c.shard()) return;
	c.nontrivial++;
	Grad g;
	if (k < 8) {
		static const int W[] = { 1, 2, 1023, 1024, 2049, 3073, 5000, 9001 };
		g.w = W[k]; g.h = 1; 
		for (int i = 0; i < g.w; ++i) { g.m.push_back(i % 2 ? 0 : 150); g.x.push_back(100); g.y.push_back(0); }
	} else if (k < 11) {
		g.w = k == 8 ? 3000 : k == 9 ? 2050 : 5; g.h = k == 8 ? 3 : k == 9 ? 4 : 4000;
		for (int i = 0; i < g.w * g.h; ++i) { g.m.push_back(i % g.w % 2 ? 0 : 150 + i / g.w % 2); g.x.push_back(100); g.y.push_back(0); }
	} else {
		// a comb of weak pixels hanging on one strong pixel, or everything strong
		g.w = 120; g.h = 100;
		for (int i = 0; i < g.w * g.h; ++i) {
			int x = i % g.w, y = i / g.w;
			bool on = k == 13 ? true : k == 12 ? (y == 0 || x % 2 == 0) : (x % 4 == 0 || (y == (x / 4 % 2 ? 0 : 99)));
			g.m.push_back(on ? (i == 0 ? 200 : 60) : 0);
			g.x.push_back(on && k != 13 && x % 2 == 0 && (y != 0 && y != 99) ? 100 : 0); g.y.push_back(g.x.back() ? 0 : 100);
		}
		if (k == 13) for (int i = 0; i < g.w * g.h; ++i) { g.m[i] = 101 + (i % g.w + i / g.w) % 2; g.x[i] = i % 3 ? 100 : 50; g.y[i] = i % 2 ? 60 : -60; }
	}
	run_given(c, g, 40, 100, 0);
	run_given(c, g, 40, 100, 4);
	img_canny t(40, 100);
	Grad q; q.w = q.h = 2; q.m.assign(4, 150); q.x.assign(4, 100); q.y.assign(4, 0);
	run_given(c, q, 40, 100, 0, &t);
	run_given(c, g, 40, 100, 0, &t);
	run_given(c, q, 40, 100, 0, &t);
}
// magnitudes of gradients by definition, on any view
static void magnitude_kinds(Ctx& c) {
	int a = c.choose(8), b = c.choose(8), t = c.choose(3), s = c.choose(3), same = c.choose(2), deep = c.choose(2);
	if (!c.shard()) return;
	c.nontrivial++;
	static const int S[][2] = { { 3, 2 }, { 1, 4 }, { 5, 3 } };
	int w = S[s][0], h = S[s][1];
	mt_Depth d = deep ? mt_F64 : mt_F32;
	mt_mat x = make_view(Ints{ h, w }, d, 1, a), y = make_view(Ints{ h, w }, d, 1, b), r;
	vector<double> vx, vy;
	for (int i = 0; i < w * h; ++i) { vx.push_back((i * 37 % 23) - 11); vy.push_back(5 - (i * 11 % 13)); }
	for (int i = 0; i < w * h; ++i) if (deep) { x.at<f64>(i / w, i % w, 0) = vx[i]; y.at<f64>(i / w, i % w, 0) = vy[i]; } else { x.at<f32>(i / w, i % w, 0) = (f32)vx[i]; y.at<f32>(i / w, i % w, 0) = (f32)vy[i]; }
	if (same) r = mt_mat(h, w, mt_Depth_Channel(d, 1), mt_scalar(3));
	img_img::Gradient_Mag_Type T = t == 0 ? img_img::Gradient_Mag_Type_L1 : t == 1 ? img_img::Gradient_Mag_Type_L2 : img_img::Gradient_Mag_Type_L2_Square;
	img_img::generate_gradient_mag(r, x, y, T);
	c.transitions++;
	if (!has_shape(r, Ints{ h, w }, 1, d)) c.fail("magnitude", "shape");
	for (int i = 0; i < w * h; ++i) {
		double want = t == 0 ? fabs(vx[i]) + fabs(vy[i]) : t == 1 ? sqrt(vx[i] * vx[i] + vy[i] * vy[i]) : vx[i] * vx[i] + vy[i] * vy[i];
		double got = deep ? r.at<f64>(i / w, i % w, 0) : r.at<f32>(i / w, i % w, 0);
		if (fabs(got - want) > 1e-4 * (1 + want)) c.fail("magnitude", "of kind " + num(t) + ": " + std::to_string(got) + " instead of " + std::to_string(want));
		double ox = deep ? x.at<f64>(i / w, i % w, 0) : x.at<f32>(i / w, i % w, 0), oy = deep ? y.at<f64>(i / w, i % w, 0) : y.at<f32>(i / w, i % w, 0);
		if (ox != vx[i] || oy != vy[i]) c.fail("magnitude", "a gradient changed");
	}
}
int main(int argc, char** argv) {
	Suite s;
	s.groups = { { "directions", directions }, { "magnitudes", magnitudes }, { "chains", chains }, { "pictures", pictures }, { "views", views }, { "histories", histories }, { "successions", successions }, { "memory", memory }, { "large", large }, { "kinds", magnitude_kinds } };
	s.init = []() { log_logger::release(); };
	s.leaks = true;
	return run(s, argc, argv);
}
