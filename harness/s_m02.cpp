// M02: the result does not depend on the number of threads.
#include "mser_suite.h"
using namespace mc;

static const int T1[] = { 2, 4, 8, 16, 32, 3, 7, 64 };
static const int T2[] = { 4, 32, 2, 16 };

static img_mser_base* EXT[2][65];   // one extractor per thread number

static std::vector<Params> grid() {
	std::vector<Params> g;
	g.push_back(Params(0, -1,   0.5f,    -1,   1, 1));
	g.push_back(Params(1, -1,   1.0f,    0,    1, 1));
	g.push_back(Params(2, 0.3f, 2.0f,    0.1f, 2, 0.75f));
	g.push_back(Params(1, 0.5f, 0.5f,    -1,   3, 1));
	return g;
}

static void all_threads(Ctx& c, const Image& im, int np, bool odd, int conn = 4) {
	static const std::vector<Params> g = grid();
	mt_mat src = mat_of(im);
	for (int i = 0; i < np; ++i) {
		for (int a = 0; a < 2; ++a) {
			Alg alg = a ? V2 : V1;
			Params p = g[i];
			p.conn = conn;
			Regions base[2];
			int n = a ? (odd ? 4 : 2) : (odd ? 8 : 5);
			for (int k = -1; k < n; ++k) {
				p.threads = k < 0 ? 1 : a ? T2[k] : T1[k];
				img_multi_msers res;
				img_mser_base*& m = EXT[a][p.threads];
				if (!m) m = new_alg(alg);
				set_params(m, p);
				m->extract(res, src);
				c.transitions++;
				for (int q = 0; q < 2; ++q) {
					std::string why;
					Regions r;
					std::string where = std::string(alg_name[alg]) + " " + p.str() + (q ? " bright" : " dark") + " image " + im.str();
					if (!to_regions(res, q, im.w, im.h, r, why)) c.fail("unreadable result", where + ": " + why);
					c.outcome(hash_regions(r, 7));
					if (k < 0) { base[q] = r; continue; }
					if (!same(r, base[q])) c.fail("regions depend on the thread number", where + "\n got " + regions_str(r, im.w) + "\n with one thread " + regions_str(base[q], im.w));
					std::string e = rect_check(r, im.w);
					if (e.empty()) e = consistency(r, im.w);
					if (!e.empty()) c.fail("region depends on the thread number", where + ": " + e);
				}
			}
		}
	}
	c.nontrivial++;
	c.state(hash_bytes(im.px.data(), im.px.size(), im.w));
	if (c.want_sample()) c.sample(im.str());
}

int main(int argc, char** argv) {
	Suite s;
	s.init = no_log;
	s.groups.push_back(Group("every 4x4 two-level pattern over a 17x13 image", [](Ctx& c) {
		// both polarities are extracted, so a pattern and its inverse are one case
		Image pat(4, 4, LV_NEAR[0]);
		for (int i = 1; i < 16; ++i) pat.px[i] = LV_NEAR[c.choose(2)];
		if (!c.shard()) return;
		all_threads(c, blocks(pat, 17, 13), 1, false);
	}));
	s.groups.push_back(Group("every 3x3 three-level pattern over a 9x6 image", [](Ctx& c) {
		Image pat = all_images(c, 3, 3, 3, LEVELS[0]);
		if (!c.shard()) return;
		all_threads(c, blocks(pat, 9, 6), 2, false);
	}));
	// a rectangle anywhere and a pixel or hole anywhere
	for (int big = 0; big < 2; ++big) s.groups.push_back(Group(big ? "every rectangle with every extra pixel, 10x6" : "every rectangle with every extra pixel, 8x4", [big](Ctx& c) {
		const int W = big ? 10 : 8, H = big ? 6 : 4;
		int x0 = c.choose(W), x1 = x0 + c.choose(W - x0), y0 = c.choose(H), y1 = y0 + c.choose(H - y0);
		if (!c.shard()) return;
		for (int q = 0; q < W * H; ++q) {
			Image im(W, H, 12);
			for (int y = y0; y <= y1; ++y) for (int x = x0; x <= x1; ++x) im.at(x, y) = 10;
			im.px[q] = 11;
			all_threads(c, im, 2, false);
		}
	}, !big));
	s.groups.push_back(Group("one row, one column", [](Ctx& c) {
		int k = c.choose(2);
		Image im = k ? all_images(c, 8, 1, 3, LEVELS[0]) : all_images(c, 1, 8, 3, LEVELS[0]);
		if (!c.shard()) return;
		all_threads(c, im, 4, true);
	}));
	s.groups.push_back(Group("every image smaller than the partitions", [](Ctx& c) {
		static const int SH[][3] = { { 1, 1, 3 }, { 2, 1, 3 }, { 2, 2, 3 }, { 4, 2, 2 }, { 2, 4, 2 }, { 4, 3, 2 }, { 3, 4, 2 }, { 5, 2, 2 } };
		int k = c.choose(8), conn = c.choose(2);
		Image im = all_images(c, SH[k][0], SH[k][1], SH[k][2], LEVELS[0]);
		if (!c.shard()) return;
		all_threads(c, im, 4, true, conn ? 8 : 4);
	}));
	s.groups.push_back(Group("structured images, all sizes modulo the partitions", [](Ctx& c) {
		int w = 40 + c.choose(9), h = 24 + c.choose(5), kind = c.choose(7), inv = c.choose(2);
		if (!c.shard()) return;
		Image im(w, h);
		for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
			int v = 0;
			if (kind == 0) v = (x * y) & 255;
			if (kind == 1) v = ((x ^ y) * 5) & 255;
			if (kind == 2) v = (x * x + y * y) / 8 & 255;
			if (kind == 3) v = (int)((unsigned)(x * 2654435761u ^ y * 40503u) >> 11) & 255;
			if (kind == 4) v = std::min(255, x * h + y);
			if (kind == 5) v = (y & 1) ? 200 : (x & 7) == 7 ? 180 : x * 3;
			if (kind == 6) v = (x & 1) ? (y == h / 2 ? 90 : 200) : y * 5 & 63;
			im.at(x, y) = (uint8_t)v;
		}
		if (inv) im = im.inverted();
		all_threads(c, im, c.thorough ? 4 : 2, true);
	}));
	s.groups.push_back(Group("spirals through all partitions", [](Ctx& c) {
		int n = 16 + c.choose(18), step = c.choose(4), lo = c.choose(2) * 100, inv = c.choose(2);
		if (!c.shard()) return;
		Image im = spiral(n, lo, step, 255);
		if (inv) im = im.inverted();
		all_threads(c, im, 4, true);
	}));
	s.groups.push_back(Group("large images", [](Ctx& c) {
		int kind = c.choose(6), inv = c.choose(2);
		if (!c.shard()) return;
		int w = (c.thorough ? 331 : 130) + kind, h = (c.thorough ? 219 : 90) + kind;
		Image im(w, h, 200);
		for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
			if (kind == 0) im.at(x, y) = (uint8_t)((x * y / 16) & 255);
			if (kind == 1 && ((x + y) & 1) == 0) im.at(x, y) = (uint8_t)(10 + (x * 5 + y * 3) % 7);
			if (kind == 2 && (y & 1) == 0) im.at(x, y) = (uint8_t)(x * 255 / w);
			if (kind == 3) im.at(x, y) = (uint8_t)((unsigned)(x * 2654435761u ^ y * 40503u) >> 13);
			if (kind == 4 && (x & 1) == 0) im.at(x, y) = (uint8_t)(y * 255 / h);
			if (kind == 5 && ((x & 1) == 0 || y == 5)) im.at(x, y) = (uint8_t)(y == 5 ? 150 : 20 + ((x * 7) & 63));
		}
		if (inv) im = im.inverted();
		all_threads(c, im, 3, false);
	}));
	s.groups.push_back(Group("images of more than 65536 pixels, long ones and wide ones", [](Ctx& c) {
		int shape = c.choose(6), kind = c.choose(3);
		if (!c.shard()) return;
		all_threads(c, vast(shape, kind), 1, false);
	}));
	s.groups.push_back(Group("every 4x4 two-level pattern over a 17x13 image, more settings", [](Ctx& c) {
		Image pat = all_images(c, 4, 4, 2, LEVELS[1]);
		if (!c.shard()) return;
		all_threads(c, blocks(pat, 13, 17), 4, false);
	}, false));
	s.groups.push_back(Group("every 3x3 three-level pattern over a 8x4 image", [](Ctx& c) {
		Image pat = all_images(c, 3, 3, 3, LEVELS[0]);
		if (!c.shard()) return;
		all_threads(c, blocks(pat, 8, 4), 3, false);
	}, false));
	s.groups.push_back(Group("every 8x4 image with two dark rows or columns patterns", [](Ctx& c) {
		Image im(8, 4, 12);
		int r = c.choose(4), q = c.choose(4);
		for (int x = 0; x < 8; ++x) { im.at(x, r) = 10 + c.choose(2); im.at(x, q) = 10 + 2 * c.choose(2); }
		if (!c.shard()) return;
		all_threads(c, im, 2, false);
	}, false));
	return run(s, argc, argv);
}
