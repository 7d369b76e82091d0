// C04: stroke widths: rays from edge to opposite edge, the smallest width over each pixel, corrected by the median of each ray
#include "mat_common.h"
struct Field { int w, h; vector<char> e; vector<int> x, y; };
typedef std::pair<int, int> P;   // column, row
static const int NONE = 32767;
// the definition; *rays counts them
static vector<int> widths(const Field& f, bool dark, double limit, int* rays = NULL, int none = NONE) {
	const double PI = 3.14159265358979323846;
	auto in = [&](P p) { return p.first >= 0 && p.second >= 0 && p.first < f.w && p.second < f.h; };
	auto edge = [&](P p) { return f.e[p.second * f.w + p.first] != 0; };
	auto unit = [&](P p, double& x, double& y) {
		x = f.x[p.second * f.w + p.first]; y = f.y[p.second * f.w + p.first];
		double n = sqrt(x * x + y * y);
		if (n == 0) return false;
		x /= n; y /= n; if (dark) { x = -x; y = -y; }
		return true;
	};
	vector<std::pair<vector<P>, int> > all;
	for (int r = 0; r < f.h; ++r) for (int k = 0; k < f.w; ++k) {
		P start(k, r); double ux, uy;
		if (!edge(start) || !unit(start, ux, uy)) continue;
		double cx = k, cy = r; P at = start; bool first = true, gap = false, found = false;
		vector<P> path(1, start);
		for (bool stop = false; !stop;) {
			cx += ux; cy += uy;
			P now((int)(cx > 0 ? cx + 0.5 : cx - 0.5), (int)(cy > 0 ? cy + 0.5 : cy - 0.5));
			if (now == at) continue;
			vector<P> cells(1, now);
			if (now.first != at.first && now.second != at.second) {
				// the corner passed is the same in both directions
				bool along = fabs(uy) <= fabs(ux), plus = along ? ux > 0 : uy > 0;
				cells.push_back(along == plus ? P(now.first, at.second) : P(at.first, now.second));
			}
			at = now;
			bool outside = true, pushed = false;
			for (size_t i = 0; i < cells.size(); ++i) {
				P q = cells[i];
				if (!in(q)) continue;
				outside = false;
				if (!edge(q)) { gap = true; path.push_back(q); if (!i) pushed = true; continue; }
				if (first) continue;
				stop = true;
				if (gap) for (int d = 0; d < 9 && !found; ++d) {
					static const int DX[] = { 0, 1, 1, 0, -1, -1, -1, 0, 1 }, DY[] = { 0, 0, -1, -1, -1, 0, 1, 1, 1 };
					P s(q.first + DX[d], q.second + DY[d]);
					if (d && (!in(s) || (abs(s.first - k) <= 1 && abs(s.second - r) <= 1) || !edge(s))) continue;
					double vx, vy;
					if (!unit(s, vx, vy)) continue;
					if (-(ux * vx + uy * vy) < cos(limit * PI / 180) - 1e-6) continue;
					found = true;
					if (i && pushed) path.back() = s; else path.push_back(s);
				}
				break;
			}
			first = false;
			if (outside) stop = true;
		}
		if (found && path.size() > 2) {
			int dx = path.front().first - path.back().first, dy = path.front().second - path.back().second;
			all.push_back(std::make_pair(path, std::max(1, (int)(sqrt((double)(dx * dx + dy * dy)) + 0.5) - 1)));
		}
	}
	if (rays) *rays = (int)all.size();
	vector<int> v(f.w * f.h, none);
	auto put = [&] { for (auto& a : all) for (P p : a.first) { int& o = v[p.second * f.w + p.first]; o = std::min(o, a.second); } };
	put();
	for (auto& a : all) {
		vector<int> s;
		for (P p : a.first) s.push_back(v[p.second * f.w + p.first]);
		std::sort(s.begin(), s.end());
		a.second = s[(s.size() - 1) / 2];
	}
	put();
	return v;
}
static string text(const Field& f) {
	string s = num(f.w) + "x" + num(f.h);
	for (size_t i = 0; i < f.e.size() && i < 40; ++i) s += f.e[i] ? " (" + num(f.x[i]) + "," + num(f.y[i]) + ")" : " -";
	return s;
}
static void check_one(Ctx& c, const Field& f, bool dark, int angle, int ke = 0, int kx = 0, int ky = 0, int none = NONE) {
	Ints size = { f.h, f.w };
	mt_mat e = make_view(size, mt_U8, 1, ke), x = make_view(size, mt_F32, 1, kx), y = make_view(size, mt_F32, 1, ky);
	for (int i = 0; i < f.w * f.h; ++i) { int r = i / f.w, k = i % f.w; e.at<u8>(r, k, 0) = f.e[i] ? 255 : (i % 3) * 100; x.at<f32>(r, k, 0) = (f32)f.x[i]; y.at<f32>(r, k, 0) = (f32)f.y[i]; }
	img_stroke_width_transform::params p;
	p.m_dark_on_light = dark; p.m_pair_intersect_angle = angle; p.m_invalid_stroke_width = (i16)none;
	mt_mat r = img_stroke_width_transform::swt(e, x, y, p);
	int rays = 0;
	vector<int> want = widths(f, dark, angle, &rays, none);
	c.transitions++;
	if (rays) c.nontrivial++;
	if (!has_shape(r, size, 1, mt_I16)) c.fail("shape", text(f));
	string what = text(f) + (dark ? " dark" : " light") + " angle " + num(angle) + " views " + num(ke) + num(kx) + num(ky);
	for (int i = 0; i < f.w * f.h; ++i) {
		int got = r.at<i16>(i / f.w, i % f.w, 0);
		if (got != want[i]) c.fail("widths", num(got) + " instead of " + num(want[i]) + " at row " + num(i / f.w) + " column " + num(i % f.w) + " of " + what);
		if (e.at<u8>(i / f.w, i % f.w, 0) != (f.e[i] ? 255 : (i % 3) * 100) || x.at<f32>(i / f.w, i % f.w, 0) != f.x[i] || y.at<f32>(i / f.w, i % f.w, 0) != f.y[i]) c.fail("input", "changed: " + what);
	}
	uint64_t h = 0;
	for (int v : want) h = h * 31 + v;
	c.outcome(h);
}
// directions whose pixels are clear of rounding
static const int D[][2] = { { 10, 0 }, { 0, 10 }, { 10, 10 }, { 20, 10 }, { 3, 4 }, { 40, 30 }, { 1, 2 }, { 30, 10 } };
static const int ND = 8;
static void turn(int d, int q, int& x, int& y) { int a = D[d][0], b = D[d][1]; x = q & 1 ? -a : a; y = q & 2 ? -b : b; }
// every set of edge pixels of small shapes, with the gradients of several patterns
static void small(Ctx& c) {
	static const int S[][2] = { { 1, 1 }, { 5, 1 }, { 1, 5 }, { 7, 1 }, { 3, 3 }, { 4, 3 }, { 3, 4 }, { 6, 2 } };
	int s = c.choose(c.thorough ? 8 : 7), pattern = c.choose(c.thorough ? 24 : 6);
	Field f; f.w = S[s][0]; f.h = S[s][1];
	int n = f.w * f.h;
	for (int i = 0; i < n; ++i) f.e.push_back((char)c.choose(2));
	if (!c.shard()) return;
	for (int i = 0; i < n; ++i) {
		int x, y, r = i / f.w, k = i % f.w;
		// halves face each other, the whole one way, or a mixture
		if (pattern < 3) turn(pattern == 2 ? 2 : pattern, (k * 2 < f.w ? 0 : 1) + (r * 2 < f.h ? 0 : 2), x, y);
		else turn((i * pattern + pattern) % ND, (i * (pattern + 3) / 2 + i * i) % 4, x, y);
		f.x.push_back(x); f.y.push_back(y);
	}
	check_one(c, f, true, 46);
	check_one(c, f, false, 46);
}
// two edge pixels, one ray: every direction and every direction at the other end, every angle
static void pairs(Ctx& c) {
	bool T = c.thorough;
	int d = c.choose(ND), q = c.choose(4), d2 = c.choose(T ? ND : 4), q2 = c.choose(4), at = T ? c.choose(3) : 1, third = c.choose(T ? 4 : 2);
	Field f; f.w = 7; f.h = 6;
	f.e.assign(42, 0); f.x.assign(42, 0); f.y.assign(42, 0);
	if (!c.shard()) return;
	int start = at == 0 ? 0 : at == 1 ? 2 * 7 + 3 : 5 * 7 + 6;
	for (int end = 0; end < 42; ++end) {
		if (end == start) continue;
		Field g = f;
		g.e[start] = g.e[end] = 1;
		turn(d, q, g.x[start], g.y[start]);
		turn(d2, q2, g.x[end], g.y[end]);
		if (third) { int k = (end + (third == 1 ? 1 : third == 2 ? 7 : 36)) % 42; g.e[k] = 1; turn(d2, q2 ^ third, g.x[k], g.y[k]); turn(d, q, g.x[start], g.y[start]); }
		static const int A[] = { 46, 1, 10, 30, 60, 89 };
		for (int k = 0; k < (third ? (T ? 2 : 1) : (T ? 6 : 3)); ++k) check_one(c, g, k % 2, A[k]);
	}
}
// bars, wedges and rings of several widths: many rays over each pixel
static void shapes(Ctx& c) {
	int kind = c.choose(5), w = 6 + c.choose(7) * 3, h = 5 + c.choose(4) * 4, a = 1 + c.choose(5), b = c.choose(4), dark = c.choose(2);
	if (!c.shard()) return;
	Field f; f.w = w; f.h = h;
	vector<int> in(w * h, 0);
	for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
		bool on = kind == 0 ? x >= b && x < b + a : kind == 1 ? y >= b && y < b + a : kind == 2 ? abs(x - y - b) <= a : kind == 3 ? abs(x - w / 2) <= a && abs(y - h / 2) <= b + 1 : (x - w / 2) * (x - w / 2) + (y - h / 2) * (y - h / 2) <= a * a * 4 && (x - w / 2) * (x - w / 2) + (y - h / 2) * (y - h / 2) > b * b;
		in[y * w + x] = on;
	}
	auto at = [&](int x, int y) { x = std::max(0, std::min(w - 1, x)); y = std::max(0, std::min(h - 1, y)); return in[y * w + x] ? 0 : 10; };
	for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
		int gx = at(x + 1, y) - at(x - 1, y), gy = at(x, y + 1) - at(x, y - 1);
		f.e.push_back(in[y * w + x] && (gx || gy));
		f.x.push_back(gx); f.y.push_back(gy);
	}
	check_one(c, f, dark, 46);
	check_one(c, f, dark, 80, 0, 0, 0, 9);
}
static void views(Ctx& c) {
	int ke = c.choose(8), kx = c.choose(8), ky = c.choose(8), s = c.choose(3);
	if (!c.shard()) return;
	Field f; f.w = s == 0 ? 6 : s == 1 ? 4 : 1; f.h = s == 0 ? 4 : s == 1 ? 5 : 6;
	for (int i = 0; i < f.w * f.h; ++i) {
		int x, y; turn(i % 3, (i % f.w * 2 < f.w ? 0 : 1) + (i / f.w * 2 < f.h ? 0 : 2), x, y);
		f.e.push_back(i % f.w == 0 || i % f.w == f.w - 1 || i / f.w == 0 || i / f.w == f.h - 1); f.x.push_back(x); f.y.push_back(y);
	}
	check_one(c, f, false, 46, ke, kx, ky);
	check_one(c, f, true, 60, ke, kx, ky);
}
// edge pixels without a gradient have no ray
static void flat_ones(Ctx& c) {
	int which = c.choose(64), start = c.choose(4);
	if (!c.shard()) return;
	Field f; f.w = 6; f.h = 1 + start;
	for (int i = 0; i < f.w * f.h; ++i) { f.e.push_back(which >> (i % 6) & 1); f.x.push_back((which >> (i % 6) & 1) && i % 6 != start ? (i % 6 < 3 ? 10 : -10) : 0); f.y.push_back(0); }
	check_one(c, f, false, 46);
	check_one(c, f, true, 46);
}
// widths as a picture: spread over the gray levels, the rest white
static void normal(Ctx& c) {
	static const int V[] = { 1, 0, 5, 199, 200, 201, 202, 300, 3000, 32766, 77 };
	int kind = c.choose(8), n = 1 + c.choose(4), inv = c.choose(2), shape = c.choose(2);
	vector<int> v;
	for (int i = 0; i < n; ++i) { int k = c.choose(c.thorough || n < 4 ? 12 : 6); v.push_back(k == 11 ? (inv ? 77 : 32767) : V[k]); }
	if (!c.shard()) return;
	int none = inv ? 77 : 32767;
	c.nontrivial++;
	Ints size = shape ? Ints{ n, 1 } : Ints{ 1, n };
	mt_mat m = make_view(size, mt_I16, 1, kind);
	for (int i = 0; i < n; ++i) *(i16*)const_cast<u8*>(m.ptr<u8>(index_of(size, i), 0)) = (i16)v[i];
	mt_mat r = img_stroke_width_transform::normalize_swt_image(m, (i16)none);
	c.transitions++;
	if (!has_shape(r, size, 1, mt_U8)) c.fail("picture", "shape");
	int lo = 1 << 20, hi = -1;
	for (int x : v) if (x != none) { lo = std::min(lo, x); hi = std::max(hi, x); }
	int range = std::max(200, hi - lo);
	for (int i = 0; i < n; ++i) {
		int got = cell<u8>(r, size, i, 0), want = v[i] == none ? 255 : 255 * (v[i] - lo) / range;
		if (abs(got - want) > (v[i] == none ? 0 : (255 * (v[i] - lo)) % range == 0 ? 1 : 0)) c.fail("picture", num(got) + " instead of " + num(want) + " for " + num(v[i]) + " of " + num(lo) + " to " + num(hi));
		if (*(i16*)const_cast<u8*>(m.ptr<u8>(index_of(size, i), 0)) != v[i]) c.fail("picture", "the widths changed");
	}
}
int main(int argc, char** argv) {
	Suite s;
	s.groups = { { "small", small }, { "pairs", pairs }, { "shapes", shapes }, { "views", views }, { "flat", flat_ones }, { "normal", normal } };
	s.init = []() { log_logger::release(); };
	s.leaks = true;
	return run(s, argc, argv);
}
