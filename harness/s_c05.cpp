// C05: pictures on their way to OpenCV, to files and back; picture helpers
#include "mat_common.h"
#include "cv_stub.h"
#include <opencv2/core.hpp>

static string f(const char* t, ...) { char b[300]; va_list a; va_start(a, t); vsnprintf(b, sizeof b, t, a); va_end(a); return b; }
static const mt_Depth DEPTHS[] = {mt_U8, mt_I8, mt_U16, mt_I16, mt_I32, mt_F32, mt_F64};
static const int CV[] = {CV_8U, CV_8S, CV_16U, CV_16S, CV_32S, CV_32F, CV_64F}, BYTES[] = {1, 1, 2, 2, 4, 4, 8};

// fills the cells with bytes that all differ as far as they can
static vector<u8> stamp(mt_mat& m, const Ints& size, int ch, int es, int salt) {
	vector<u8> v;
	int n = total(size);
	for (int k = 0; k < n; ++k) for (int c = 0; c < ch; ++c) {
		u8* p = const_cast<u8*>(m.ptr<u8>(index_of(size, k), c));
		for (int b = 0; b < es; ++b) { p[b] = (u8)((k * ch + c) * 37 + b * 101 + salt); v.push_back(p[b]); }
	}
	return v;
}
static vector<u8> content(const mt_mat& m, const Ints& size, int ch, int es) {
	vector<u8> v;
	int n = total(size);
	for (int k = 0; k < n; ++k) for (int c = 0; c < ch; ++c) { const u8* p = m.ptr<u8>(index_of(size, k), c); v.insert(v.end(), p, p + es); }
	return v;
}
// a result to write to: none, the same shape, a view of the same shape, other shapes
static const int TARGETS = 6;
static mt_mat target(int kind, const Ints& size, mt_Depth d, int ch, mt_mat* whole = NULL) {
	switch (kind) {
	case 0: return mt_mat();
	case 1: return make_view(size, d, ch, 0);
	case 2: return make_view(size, d, ch, 4, whole);
	case 3: return make_view(size, d, ch, 3, whole);
	case 4: return make_view(Ints{size[0] + 1, size[1]}, d, ch, 0);
	default: return make_view(size, d == mt_U8 ? mt_F32 : mt_U8, ch + 1, 0);
	}
}
static mt_mat stamped(const Ints& size, mt_Depth d, int ch, int es, int kind, int salt, vector<u8>& v) { mt_mat m = make_view(size, d, ch, kind); v = stamp(m, size, ch, es, salt); return m; }

static void to_opencv(Ctx& c, int most) {
	int h = 1 + c.choose(most), w = 1 + c.choose(most), ch = 1 + c.choose(5), kind = c.choose(VIEWS), d = c.choose(7);
	if (!c.shard()) return;
	Ints size = {h, w};
	vector<u8> v;
	mt_mat m = stamped(size, DEPTHS[d], ch, BYTES[d], kind, 5, v);
	string where = shape_name(size, ch, DEPTHS[d], kind);
	{
		cv::Mat o = img_img::from_basiccv(m);
		if (o.dims != 2 || o.rows != h || o.cols != w || o.depth() != CV[d] || o.channels() != ch) { c.fail("shape for OpenCV", where); return; }
		for (int r = 0; r < h; ++r) for (int x = 0; x < w; ++x)
			if (memcmp(o.data + o.step.p[0] * r + o.step.p[1] * x, &v[(r * w + x) * ch * BYTES[d]], ch * BYTES[d])) { c.fail("content for OpenCV", where + f(" at row %d column %d", r, x)); return; }
		c.transitions++;
	}
	if (content(m, size, ch, BYTES[d]) != v) c.fail("a matrix given to OpenCV changed", where);
	c.nontrivial++;
}
static void files(Ctx& c, int most) {
	int h = 1 + c.choose(most), w = 1 + c.choose(most), ch = 1 + c.choose(4), kind = c.choose(VIEWS);
	if (!c.shard()) return;
	Ints size = {h, w};
	vector<u8> v, old;
	mt_mat m = stamped(size, mt_U8, ch, 1, kind, 9, v);
	string where = shape_name(size, ch, mt_U8, kind);
	cv_stub::written.clear();
	cv_stub::fail_write = true;
	if (img_img::save("no.png", m)) c.fail("success of a failed save", where);
	cv_stub::fail_write = false;
	if (!img_img::save("a.png", m)) c.fail("failure of a save", where);
	if (!img_img::save("b.png", stamped(size, mt_U8, ch, 1, 0, 100, old))) c.fail("failure of a save", where);
	if (cv_stub::written.size() != 2 || cv_stub::written[0].name != "a.png" || cv_stub::written[0].rows != h || cv_stub::written[0].cols != w || cv_stub::written[0].channels != ch || cv_stub::written[0].data != v) c.fail("what was saved", where);
	if (content(m, size, ch, 1) != v) c.fail("a saved picture changed", where);
	for (int t = 0; t < TARGETS; ++t) {
		mt_mat r = target(t, size, mt_U8, ch), kept;
		img_img::load(r, "a.png", img_img::Load_Grayscale);
		if (cv_stub::read_kind != 0) c.fail("kind of loading", where);
		if (!has_shape(r, size, ch, mt_U8) || content(r, size, ch, 1) != v) c.fail("what was loaded", where + f(" to target %d", t));
		kept = r;
		img_img::load(r, "b.png");
		if (cv_stub::read_kind != -1) c.fail("kind of loading", where);
		if (content(r, size, ch, 1) != old || content(kept, size, ch, 1) != v) c.fail("an earlier picture changed when another one was loaded", where);
		img_img::load(r, "missing.png", img_img::Load_Color);
		if (cv_stub::read_kind != 1) c.fail("kind of loading", where);
		if (!r.is_empty() || content(kept, size, ch, 1) != v) c.fail("a missing picture", where + f(" to target %d", t));
		c.transitions += 3;
	}
	mt_mat r = img_img::load("a.png");
	cv_stub::written.clear();
	if (!has_shape(r, size, ch, mt_U8) || content(r, size, ch, 1) != v) c.fail("what was loaded", where);
	c.nontrivial++;
}
static void resizing(Ctx& c, int most) {
	int h = 1 + c.choose(most), w = 1 + c.choose(most), H = 1 + c.choose(most), W = 1 + c.choose(most), kind = c.choose(VIEWS), t = c.choose(TARGETS + 3);
	if (!c.shard()) return;
	for (int d = 0; d < 7; d += d ? 5 : 5) for (int ch = 1; ch < 4; ++ch) {
		int es = BYTES[d];
		Ints size = {h, w}, to = {H, W};
		vector<u8> v, want;
		mt_mat m = stamped(size, DEPTHS[d], ch, es, kind, 3, v), whole;
		for (int y = 0; y < H; ++y) for (int x = 0; x < W; ++x) { const u8* p = &v[((y * h / H) * w + x * w / W) * ch * es]; want.insert(want.end(), p, p + ch * es); }
		string where = shape_name(size, ch, DEPTHS[d], kind) + f(" to %dx%d target %d", H, W, t);
		mt_mat r;
		if (t < TARGETS) r = target(t, to, DEPTHS[d], ch, &whole);
		else if (t == TARGETS) r = m;                               // shares all
		else if (t == TARGETS + 1) r = m.sub(h - 1, h, 0);          // shares a part
		if (t == TARGETS + 2) r = img_img::resize(m, mt_size(W, H), img_img::Inter_Type_Nearest);
		else if (whole.is_empty()) img_img::resize(r, m, mt_size(W, H), img_img::Inter_Type_Nearest);
		else {
			Rest rest(whole, r, to, ch, es);
			img_img::resize(r, m, mt_size(W, H), img_img::Inter_Type_Nearest);
			if (!rest.same()) c.fail("memory beside the result changed", where);
		}
		if (cv_stub::resize_kind != 0) c.fail("kind of resizing", where);
		if (!has_shape(r, to, ch, DEPTHS[d]) || content(r, to, ch, es) != want) c.fail("a resized picture", where);
		if (content(m, size, ch, es) != v) c.fail("a picture changed when it was resized", where);
		img_img::resize(m, m, mt_size(W, H), img_img::Inter_Type_Linear);
		if (cv_stub::resize_kind != 1) c.fail("kind of resizing", where);
		if (!has_shape(m, to, ch, DEPTHS[d]) || content(m, to, ch, es) != want) c.fail("a picture resized in place", where);
		if (!has_shape(r, to, ch, DEPTHS[d]) || content(r, to, ch, es) != want) c.fail("an earlier result changed", where);
		img_img::resize(r, m, mt_size(H, W));
		if (cv_stub::resize_kind != 2) c.fail("kind of resizing", where);
		c.transitions += 2;
	}
	c.nontrivial++;
}
struct Conversion { img_img::Color_Covert_Type type; int from, to; };
static const Conversion CONVERSIONS[] = {{img_img::Color_Covert_Type_BGR2BGRA, 3, 4}, {img_img::Color_Covert_Type_BGRA2BGR, 4, 3}, {img_img::Color_Covert_Type_BGR2Gray, 3, 1}, {img_img::Color_Covert_Type_GRAY2BGRA, 1, 4}, {img_img::Color_Covert_Type_BGRA2Gray, 4, 1}};
static u8 gray(int b, int g, int r) { return (u8)((b * 1868 + g * 9617 + r * 4899 + 8192) >> 14); }
static vector<u8> converted(const u8* p, int from, int to) {
	vector<u8> r;
	if (to == 1) r.push_back(gray(p[0], p[1], p[2]));
	else for (int c = 0; c < to; ++c) r.push_back(c == 3 ? 255 : from == 1 ? p[0] : p[c]);
	return r;
}
static void colors(Ctx& c, int most) {
	int h = 1 + c.choose(most), w = 1 + c.choose(most), k = c.choose(5), kind = c.choose(VIEWS), t = c.choose(TARGETS + 2);
	if (!c.shard()) return;
	const Conversion& x = CONVERSIONS[k];
	Ints size = {h, w};
	vector<u8> v, want;
	mt_mat m = stamped(size, mt_U8, x.from, 1, kind, 77, v), whole, r;
	for (int i = 0; i < h * w; ++i) { vector<u8> p = converted(&v[i * x.from], x.from, x.to); want.insert(want.end(), p.begin(), p.end()); }
	string where = shape_name(size, x.from, mt_U8, kind) + f(" conversion %d target %d", (int)x.type, t);
	if (t < TARGETS) r = target(t, size, mt_U8, x.to, &whole);
	else if (t == TARGETS) r = m;
	if (t == TARGETS + 1) r = img_img::cvt_color(m, x.type);
	else if (whole.is_empty()) img_img::cvt_color(r, m, x.type);
	else {
		Rest rest(whole, r, size, x.to, 1);
		img_img::cvt_color(r, m, x.type);
		if (!rest.same()) c.fail("memory beside the result changed", where);
	}
	if (!has_shape(r, size, x.to, mt_U8) || content(r, size, x.to, 1) != want) c.fail("colors of a picture", where);
	if (content(m, size, x.from, 1) != v) c.fail("a picture changed when its colors were converted", where);
	img_img::cvt_color(m, m, x.type);
	if (!has_shape(m, size, x.to, mt_U8) || content(m, size, x.to, 1) != want) c.fail("colors of a picture converted in place", where);
	c.transitions += 2; c.nontrivial++;
}
static void one_color(Ctx& c) {
	static const int V[] = {0, 1, 2, 63, 127, 128, 200, 254, 255};
	u8 p[4]; for (int i = 0; i < 4; ++i) p[i] = (u8)V[c.choose(9)];
	if (!c.shard()) return;
	for (int k = 0; k < 5; ++k) {
		const Conversion& x = CONVERSIONS[k];
		vector<u8> want = converted(p, x.from, x.to);
		mt_scalar r = img_img::cvt_color(mt_scalar(p[0], p[1], p[2], p[3]), x.type);
		for (size_t i = 0; i < want.size(); ++i) if (r.value[i] != want[i]) c.fail("a color", f("%d %d %d %d by conversion %d is %g in channel %zu, not %d", p[0], p[1], p[2], p[3], (int)x.type, r.value[i], i, want[i]));
		c.transitions++;
	}
	c.nontrivial++;
}
template<class T> static void magnitude(Ctx& c, const Ints& size, int ch, int kx, int ky, int t, int salt) {
	mt_Depth d = Depth_Of<T>::d;
	int n = total(size) * ch;
	vector<T> x(n), y(n);
	for (int i = 0; i < n; ++i) { x[i] = (T)((i * 7 + salt) % 15 - 7); y[i] = (T)((i * 4 + salt * 3) % 13 - 6); if (!std::is_integral<T>::value) { x[i] /= 4; y[i] *= 3; } }
	for (int type = 0; type < 3; ++type) {
		if (type == 1 && std::is_integral<T>::value) continue;
		mt_mat gx = make_view(size, d, ch, kx), gy = make_view(size, d, ch, ky), r, share_y, whole;
		fill<T>(gx, size, ch, x); fill<T>(gy, size, ch, y);
		string where = shape_name(size, ch, d, kx) + f(" and view %d, type %d, target %d", ky, type, t);
		img_img::Gradient_Mag_Type mt = type == 0 ? img_img::Gradient_Mag_Type_L1 : type == 1 ? img_img::Gradient_Mag_Type_L2 : img_img::Gradient_Mag_Type_L2_Square;
		if (t < TARGETS) { r = target(t, size, d, ch, &whole); img_img::generate_gradient_mag(r, gx, gy, mt); }
		else if (t == TARGETS) { img_img::generate_gradient_mag(gx, gx, gy, mt); r = gx; }
		else if (t == TARGETS + 1) { img_img::generate_gradient_mag(gy, gx, gy, mt); r = gy; }
		else if (t == TARGETS + 2) { r = gy; img_img::generate_gradient_mag(r, gx, gy, mt); }
		else r = img_img::generate_gradient_mag(gx, gy, mt);
		if (!has_shape(r, size, ch, d)) { c.fail("shape of magnitudes", where); continue; }
		vector<T> got = ::values<T>(r, size, ch);
		for (int i = 0; i < n; ++i) {
			double a = x[i], b = y[i];
			T want = (T)(type == 0 ? fabs(a) + fabs(b) : type == 1 ? sqrt(a * a + b * b) : a * a + b * b);
			if (!near<T>(got[i], want)) { c.fail("a magnitude", where + f(": %g and %g give %g", a, b, (double)got[i])); break; }
		}
		if (t != TARGETS && ::values<T>(gx, size, ch) != x) c.fail("a gradient changed", where + ", first");
		if (t != TARGETS + 1 && t != TARGETS + 2 && ::values<T>(gy, size, ch) != y) c.fail("a gradient changed", where + ", second");
		c.transitions++;
	}
}
static void sobel(Ctx& c, int most) {
	int h = 1 + c.choose(most), w = 1 + c.choose(most), kind = c.choose(VIEWS), t = c.choose(TARGETS + 1), order = c.choose(3), k3 = c.choose(2);
	if (!c.shard()) return;
	int dx = order != 1, dy = order != 0, ch = 1 + (h + w) % 3;
	static const int SMOOTH3[] = {1, 2, 1}, DIFF3[] = {-1, 0, 1}, SMOOTH5[] = {1, 4, 6, 4, 1}, DIFF5[] = {-1, -2, 0, 2, 1};
	int ks = k3 ? 3 : 5;
	const int* KX = k3 ? (dx ? DIFF3 : SMOOTH3) : (dx ? DIFF5 : SMOOTH5), *KY = k3 ? (dy ? DIFF3 : SMOOTH3) : (dy ? DIFF5 : SMOOTH5);
	Ints size = {h, w};
	vector<u8> v;
	mt_mat m = stamped(size, mt_U8, ch, 1, kind, 41, v);
	auto at = [](int p, int n) { if (n == 1) return 0; while (p < 0 || p >= n) p = p < 0 ? -p : 2 * n - 2 - p; return p; };
	for (int d = 3; d < 6; ++d) {
		string where = shape_name(size, ch, mt_U8, kind) + f(" order %d size %d target %d depth %d", order, ks, t, d);
		mt_mat r;
		if (t < TARGETS) { r = target(t, size, DEPTHS[d], ch); img_img::sobel(r, m, DEPTHS[d], dx, dy, ks); }
		else r = img_img::sobel(m, DEPTHS[d], dx, dy, ks);
		if (!has_shape(r, size, ch, DEPTHS[d])) { c.fail("shape of a gradient", where); continue; }
		for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) for (int l = 0; l < ch; ++l) {
			int want = 0;
			for (int j = 0; j < ks; ++j) for (int i = 0; i < ks; ++i) want += KY[j] * KX[i] * v[(at(y + j - ks / 2, h) * w + at(x + i - ks / 2, w)) * ch + l];
			const u8* p = r.ptr<u8>(Ints{y, x}, l);
			double got = d == 3 ? *(i16*)p : d == 4 ? *(i32*)p : *(f32*)p;
			if (got != want) { c.fail("a gradient", where + f(" at row %d column %d: %g, not %d", y, x, got, want)); return; }
		}
		if (content(m, size, ch, 1) != v) c.fail("a picture changed when its gradient was taken", where);
		c.transitions++;
	}
	c.nontrivial++;
}
static void chessboard(Ctx& c, int most) {
	int h = 1 + c.choose(most), w = 1 + c.choose(most), n = 1 + c.choose(most), ch = 1 + c.choose(5), t = c.choose(TARGETS);
	if (!c.shard()) return;
	Ints size = {h, w};
	mt_mat whole, r = target(t, size, mt_U8, ch, &whole);
	img_img::genarate_chessboard(r, mt_size(w, h), n, ch);
	string where = f("%dx%d of %d in %d channels to target %d", h, w, n, ch, t);
	if (!has_shape(r, size, ch, mt_U8)) { c.fail("shape of a chessboard", where); return; }
	vector<u8> v = content(r, size, ch, 1);
	for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) for (int l = 0; l < ch; ++l)
		if (v[(y * w + x) * ch + l] != ((y / n + x / n) % 2 ? 255 : 0)) { c.fail("a chessboard", where + f(" at row %d column %d", y, x)); return; }
	if (t == 2 || t == 3) {
		Rest rest(whole, r, size, ch, 1);
		for (size_t i = 0; i < rest.bytes.size(); ++i) if (!rest.mine[i] && rest.bytes[i] != 9) { c.fail("memory beside a chessboard", where); break; }
	}
	c.transitions++; c.nontrivial++;
}

int main(int argc, char** argv) {
	Suite s;
	s.leaks = true;
	s.init = []() { basiclog::log_logger::release(); };
	s.groups.push_back(Group("matrices to OpenCV", [](Ctx& c) { to_opencv(c, c.thorough ? 7 : 4); }));
	s.groups.push_back(Group("files", [](Ctx& c) { files(c, c.thorough ? 7 : 4); }));
	s.groups.push_back(Group("sizes", [](Ctx& c) { resizing(c, c.thorough ? 5 : 3); }));
	s.groups.push_back(Group("colors of pictures", [](Ctx& c) { colors(c, c.thorough ? 7 : 4); }));
	s.groups.push_back(Group("colors", one_color));
	s.groups.push_back(Group("magnitudes", [](Ctx& c) {
		int h = 1 + c.choose(3), w = 1 + c.choose(3), ch = 1 + c.choose(2), kx = c.choose(VIEWS), ky = c.choose(VIEWS), t = c.choose(TARGETS + 4);
		if (!c.shard()) return;
		for (int v = 0; v < (c.thorough ? 15 : 2); ++v) {
			magnitude<f32>(c, Ints{h, w}, ch, kx, ky, t, v);
			magnitude<f64>(c, Ints{h, w}, ch, kx, ky, t, v);
			magnitude<i32>(c, Ints{h, w}, ch, kx, ky, t, v);
			magnitude<i16>(c, Ints{h, w}, ch, kx, ky, t, v);
		}
		c.nontrivial++;
	}));
	s.groups.push_back(Group("gradients", [](Ctx& c) { sobel(c, c.thorough ? 6 : 4); }));
	s.groups.push_back(Group("chessboards", [](Ctx& c) { chessboard(c, c.thorough ? 12 : 7); }));
	s.groups.push_back(Group("points of a picture", [](Ctx& c) {
		int h = 1 + c.choose(5), w = 1 + c.choose(5), kind = c.choose(VIEWS);
		if (!c.shard()) return;
		mt_mat m = make_view(Ints{h, w}, mt_U8, 2, kind);
		static const int FAR[] = {-2147483647 - 1, -100, -2, -1, 0, 1, 2, 3, 4, 5, 6, 100, 2147483647};
		for (int y : FAR) for (int x : FAR) {
			bool in = y >= 0 && x >= 0 && y < h && x < w, edge = in && (y == 0 || x == 0 || y == h - 1 || x == w - 1);
			if ((bool)img_img::point_in_image(mt_point(x, y), m) != in || (bool)img_img::point_in_image_boundary(mt_point(x, y), m) != edge) c.fail("a point", f("column %d row %d of %dx%d", x, y, h, w));
		}
		for (int dy = -3; dy < 4; ++dy) for (int dx = -3; dx < 4; ++dx) for (int es = 1; es < 5; ++es)
			if (img_img::image_pixel_offset(w * es, es, dx, dy) != dx + dy * w) c.fail("an offset", f("%d %d", dx, dy));
		c.transitions++; c.nontrivial++;
	}));
	return run(s, argc, argv);
}
