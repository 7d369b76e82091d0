// M01: the extractors against the definition of (maximally) stable extremal regions.
#include "mser_suite.h"
using namespace mc;

static std::vector<Params> grid() {
	std::vector<Params> g;
	//               delta dup   stable   nms  min max
	g.push_back(Params(0, -1,   0.5f,    -1,   1, 1));      // every extremal region
	g.push_back(Params(1, -1,   FLT_MAX, -1,   1, 1));
	g.push_back(Params(1, -1,   1.0f,    -1,   1, 1));
	g.push_back(Params(1, -1,   1.0f,    0,    1, 1));
	g.push_back(Params(2, 0.5f, 1.0f,    0,    1, 1));
	g.push_back(Params(2, 0.3f, 2.0f,    0.1f, 1, 1));
	g.push_back(Params(1, 0.9f, 0.5f,    -1,   2, 1));
	g.push_back(Params(3, -1,   2.0f,    0.25f, 2, 0.5f));
	g.push_back(Params(0, 0.5f, 0.5f,    -1,   3, 0.75f));
	g.push_back(Params(1, 0.1f, 0.25f,   0,    1, 0.4f));
	g.push_back(Params(1, -1,   0.5f,    0,    1, 1));
	g.push_back(Params(2, -1,   1.0f,    0.5f, 1, 1));
	return g;
}

static const Alg ALGS[] = { V1, V2, Linked, Ms };

static void whole_grid(Ctx& c, const Image& im, bool eight, const char* what, int every = 1, int threads = 4) {
	Refs refs(im);
	mt_mat src = mat_of(im);
	static const std::vector<Params> g = grid();
	// the two references agree
	{
		RefTree slow = ref_tree(im, eight ? 8 : 4, 0), fast = ref_tree_fast(im, eight ? 8 : 4, 0);
		for (size_t i = 0; i < slow.n.size(); ++i) { slow.n[i].sig = 0; for (size_t k = 0; k < slow.n[i].px.size(); ++k) slow.n[i].sig += px_hash(slow.n[i].px[k]); }
		if (!same_sigs(ref_sigs(slow, g[4], 0), ref_sigs(fast, g[4], 0)) || slow.n.size() != fast.n.size()) { fprintf(stderr, "references disagree on %s\n", im.str().c_str()); _exit(9); }
	}
	for (int conn = 4; conn <= (eight ? 8 : 4); conn += 4)
		for (size_t i = 0; i < g.size(); i += every) {
			Params p = g[i];
			p.conn = conn;
			p.threads = threads;
			for (int a = 0; a < 4; ++a) compare(c, ALGS[a], p, im, refs, src, what);
		}
	c.nontrivial++;
	c.state(hash_bytes(im.px.data(), im.px.size(), im.w));
	if (c.want_sample()) c.sample(im.str());
}

struct Shape { int w, h, k; bool quick; };

static void small(Ctx& c, const Shape* s, int n, bool eight, int maps) {
	const Shape& t = s[c.choose(n)];
	int lv = maps > 1 ? c.choose(maps) : 0;
	Image im = all_images(c, t.w, t.h, t.k, LEVELS[lv]);
	if (!c.shard()) return;
	whole_grid(c, im, eight, "small images");
}

int main(int argc, char** argv) {
	Suite s;
	s.init = no_log;
	s.groups.push_back(Group("every image of a small shape", [](Ctx& c) {
		static const Shape sh[] = { { 1, 1, 3 }, { 2, 1, 3 }, { 1, 2, 3 }, { 2, 2, 4 }, { 3, 2, 3 }, { 2, 3, 3 }, { 6, 1, 3 }, { 1, 6, 3 } };
		small(c, sh, 8, true, 3);
	}));
	s.groups.push_back(Group("every 3x3 image of three levels", [](Ctx& c) {
		static const Shape sh[] = { { 3, 3, 3 } };
		small(c, sh, 1, false, 1);
	}));
	s.groups.push_back(Group("every two-level image", [](Ctx& c) {
		static const Shape sh[] = { { 4, 3, 2 }, { 5, 2, 2 } };
		small(c, sh, 2, true, 1);
	}));
	s.groups.push_back(Group("every two-level image, larger", [](Ctx& c) {
		static const Shape sh[] = { { 5, 3, 2 }, { 4, 4, 2 }, { 3, 3, 4 }, { 3, 5, 2 }, { 4, 3, 3 } };
		small(c, sh, 5, false, 1);
	}, false));
	// each pixel of a pattern becomes a block, so that regions cross the partitions at many positions
	s.groups.push_back(Group("block patterns across partitions", [](Ctx& c) {
		static const int WH[][2] = { { 17, 13 }, { 9, 7 }, { 12, 16 } };
		int k = c.choose(3);
		Image pat = all_images(c, 3, 3, 2, LEVELS[c.choose(2)]);
		if (!c.shard()) return;
		whole_grid(c, blocks(pat, WH[k][0], WH[k][1]), true, "block patterns", 2);
	}));
	s.groups.push_back(Group("three-level block patterns across partitions", [](Ctx& c) {
		Image pat = all_images(c, 3, 3, 3, LEVELS[0]);
		if (!c.shard()) return;
		whole_grid(c, blocks(pat, 13, 11), false, "block patterns");
	}, false));
	s.groups.push_back(Group("ramps and spirals through all grey levels", [](Ctx& c) {
		static const int N[] = { 5, 16, 17, 24, 33 };
		int n = N[c.choose(5)];
		int kind = c.choose(6), step = 1 + c.choose(3);
		if (!c.shard()) return;
		Image im(n, n);
		if (kind == 0) for (int i = 0; i < n * n; ++i) im.px[i] = (uint8_t)std::min(255, i * step);
		if (kind == 1) for (int i = 0; i < n * n; ++i) im.px[i] = (uint8_t)(255 - std::min(255, i * step));
		if (kind == 2) im = spiral(n, 0, step, 255);
		if (kind == 3) im = spiral(n, 0, step, 255).inverted();
		if (kind == 4) for (int y = 0; y < n; ++y) for (int x = 0; x < n; ++x) im.at(x, y) = (uint8_t)((x * 7 + y * 13 * step) & 255);
		if (kind == 5) for (int y = 0; y < n; ++y) for (int x = 0; x < n; ++x) { int d = std::max(abs(x - n / 2), abs(y - n / 2)); im.at(x, y) = (uint8_t)(d * step * 5); }
		whole_grid(c, im, n < 20, "ramps", 3);
	}));
	// all 256 levels in a row or a column: the deepest component stack there is
	s.groups.push_back(Group("256 nested levels", [](Ctx& c) {
		int kind = c.choose(4), extra = c.choose(3), inv = c.choose(2);
		if (!c.shard()) return;
		int n = 256 + extra * 44;
		Image im = kind == 0 ? Image(n, 1) : kind == 1 ? Image(1, n) : kind == 2 ? Image(n, 5, 255) : Image(7, n, 255);
		for (int i = 0; i < n; ++i) {
			uint8_t g = (uint8_t)(255 - std::min(255, i));
			if (inv) g = 255 - g;
			if (kind == 0) im.at(i, 0) = g;
			if (kind == 1) im.at(0, i) = g;
			if (kind == 2) { im.at(i, 2) = g; if (inv) for (int y = 0; y < 5; ++y) if (y != 2) im.at(i, y) = 0; }
			if (kind == 3) for (int x = 0; x < 7; ++x) im.at(x, i) = g;
		}
		whole_grid(c, im, false, "256 levels", 4);
	}));
	// combs: many one-pixel leaves joining one spine, so that merge lists grow
	s.groups.push_back(Group("combs with many branches", [](Ctx& c) {
		static const int W[] = { 40, 90, 130 };
		int w = W[c.choose(3)], spine = c.choose(3), dir = c.choose(2), inv = c.choose(2);
		if (!c.shard()) return;
		int h = 41;
		Image im(w, h, 200);
		for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) if (((x + y) & 1) == 0) im.at(x, y) = 10 + (x * 3 + y) % 5;
		int m = spine == 0 ? 0 : spine == 1 ? h / 2 : h - 1;
		for (int x = 0; x < w; ++x) im.at(x, m) = 60;
		if (dir) { Image t(h, w); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) t.at(y, x) = im.at(x, y); im = t; }
		if (inv) im = im.inverted();
		whole_grid(c, im, false, "combs", 6);
	}));
	// more regions in one partition than one pool block holds; longer merge and duplicate lists
	s.groups.push_back(Group("images beyond the block size of the pools", [](Ctx& c) {
		int a = c.choose(4), kind = c.choose(4), pi = c.choose(3);
		if (!c.shard()) return;
		static const int PI[] = { 0, 3, 6 };
		Params p = grid()[PI[pi]];
		bool one = ALGS[a] == Linked || ALGS[a] == Ms;
		for (int thr = 1; thr <= (one ? 1 : 4); thr += 3) {
			p.threads = thr;
			p.recursive = 20;
			int n = thr == 1 ? (kind < 2 ? 370 : 424) : (kind < 2 ? 740 : 848);
			Image im(n, n, 200);
			for (int y = 0; y < n; ++y) for (int x = 0; x < n; ++x) {
				if (kind < 2) { if (((x + y) & 1) == 0) im.at(x, y) = (uint8_t)(10 + (x * 5 + y * 3) % 7); }
				else if ((y & 1) == 0 && (x & 3) != 3) im.at(x, y) = (uint8_t)(10 + 20 * (x & 3) / (kind == 2 ? 1 : 20));
			}
			if (kind & 1) im = im.inverted();
			RefTree t[2] = { ref_tree_fast(im, 4, 0), ref_tree_fast(im, 4, 1) };
			compare_large(c, ALGS[a], p, im, t, mat_of(im), "many regions");
			G_ext.m[ALGS[a]].reset();
		}
		c.nontrivial++;
	}));
	// structured images of photograph size, against the fast reference
	s.groups.push_back(Group("structured images of some hundred pixels a side", [](Ctx& c) {
		int kind = c.choose(6), inv = c.choose(2), pi = c.choose(6), conn = c.choose(2);
		if (!c.shard()) return;
		int w = 149 + 16 * kind, h = 113 + 8 * kind;
		Image im(w, h);
		for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
			int v = 0;
			if (kind == 0) v = (x * y) & 255;
			if (kind == 1) v = ((x ^ y) * 5) & 255;
			if (kind == 2) v = (x * x + y * y) / 64 & 255;
			if (kind == 3) v = (int)((unsigned)(x * 2654435761u ^ y * 40503u) >> 11) & 255;
			if (kind == 4) v = (((x / 9) * 37 + (y / 7) * 91) & 127) + ((x * 7 + y * 3) & 15);
			if (kind == 5) v = ((x & y) * 3) & 255;
			im.at(x, y) = (uint8_t)v;
		}
		if (inv) im = im.inverted();
		Params p = grid()[pi * 2];
		p.conn = conn ? 8 : 4;
		if (pi > 2) { p.min_point = 20; p.max_ratio = 0.25f; }
		RefTree t[2] = { ref_tree_fast(im, p.conn, 0), ref_tree_fast(im, p.conn, 1) };
		mt_mat src = mat_of(im);
		for (int a = 0; a < 4; ++a) compare_large(c, ALGS[a], p, im, t, src, "structured images");
		c.nontrivial++;
		c.state(hash_bytes(im.px.data(), im.px.size(), conn));
	}));
	s.groups.push_back(Group("images of more than 65536 pixels, long ones and wide ones", [](Ctx& c) {
		int shape = c.choose(6), kind = c.choose(3), conn = c.choose(2), a = c.choose(4);
		if (!c.shard()) return;
		Image im = vast(shape, kind);
		RefTree t[2] = { ref_tree_fast(im, conn ? 8 : 4, 0), ref_tree_fast(im, conn ? 8 : 4, 1) };
		mt_mat src = mat_of(im);
		for (int k = 0; k < 2; ++k) {
			Params p = grid()[k * 2];
			p.conn = conn ? 8 : 4;
			p.recursive = k ? 1000 : 20;
			p.threads = ALGS[a] == Linked || ALGS[a] == Ms ? 1 : k ? 4 : 1;
			compare_large(c, ALGS[a], p, im, t, src, "vast images");
		}
		G_ext.m[ALGS[a]].reset();
		c.nontrivial++;
		c.state(hash_bytes(im.px.data(), im.px.size(), conn));
	}));
	s.groups.push_back(Group("one polarity only, and views into larger matrices", [](Ctx& c) {
		int pol = c.choose(4), view = c.choose(3);
		Image im = all_images(c, 3, 2, 3, LEVELS[0]);
		if (!c.shard()) return;
		Refs refs(im);
		// the pixels sit inside a larger matrix
		int ox = view == 1 ? 1 : 0, oy = view == 2 ? 2 : 0;
		mt_mat big(im.h + 3, im.w + 3, mt_U8C1);
		for (int y = 0; y < big.size()[0]; ++y) for (int x = 0; x < big.size()[1]; ++x) *big.ptr<u8>(y, x, 0) = (u8)(y * 31 + x * 17);
		for (int y = 0; y < im.h; ++y) for (int x = 0; x < im.w; ++x) *big.ptr<u8>(y + oy, x + ox, 0) = im.at(x, y);
		mt_mat src = big.sub(oy, oy + im.h, 0).sub(ox, ox + im.w, 1);
		for (int a = 0; a < 4; ++a) {
			Params p(1, -1, 1.0f, -1, 1, 1);
			p.from_min = (pol & 1) != 0;
			p.from_max = (pol & 2) != 0;
			compare(c, ALGS[a], p, im, refs, src, "views and polarity");
		}
		c.nontrivial++;
	}));
	s.groups.push_back(Group("nested storage thresholds", [](Ctx& c) {
		static const int T[] = { 0, 1, 2, 3, 20, 1 << 30 };
		int t = T[c.choose(6)];
		int kind = c.choose(2);
		Image pat = all_images(c, 3, kind ? 3 : 2, kind ? 2 : 3, LEVELS[0]);
		if (!c.shard()) return;
		Image im = kind ? blocks(pat, 9, 8) : pat;
		Refs refs(im);
		mt_mat src = mat_of(im);
		for (int k = 0; k < 3; ++k) {
			Params p = grid()[k * 4];
			p.recursive = t;
			for (int thr = 1; thr <= 32; thr *= 32) { p.threads = thr; compare(c, V2, p, im, refs, src, "recursive threshold"); }
			p.threads = 4;
			compare(c, V2, p, im, refs, src, "recursive threshold");
			compare(c, Ms, p, im, refs, src, "recursive threshold");
			p.recursive = -1;
			compare(c, Ms, p, im, refs, src, "recursive threshold");
		}
		c.nontrivial++;
	}));
	return run(s, argc, argv);
}
