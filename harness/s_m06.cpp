// M06: the comparison extractors. The original extractor follows the definition exactly; the port of OpenCV 3 reports only
// extremal regions of the interior of the image, of admissible size, none twice. The port of OpenCV 2 reports consistent regions.
#include "mser_suite.h"
using namespace mc;

static std::vector<Params> grid() {
	std::vector<Params> g;
	g.push_back(Params(1, -1,   FLT_MAX, -1,   1, 1));
	g.push_back(Params(1, -1,   1.0f,    0,    1, 1));
	g.push_back(Params(2, 0.3f, 2.0f,    0.1f, 1, 1));
	g.push_back(Params(3, -1,   2.0f,    0.25f, 2, 0.5f));
	g.push_back(Params(1, 0.9f, 0.5f,    -1,   2, 1));
	g.push_back(Params(0, 0.5f, 0.5f,    -1,   3, 0.75f));
	g.push_back(Params(0, -1,   0.5f,    -1,   1, 1));
	return g;
}

// every reported region is a component of the tree (or the whole image), with its grey level, size and place.
// The newer OpenCV port leaves the one-pixel frame of the image out: its regions are those of the interior.
static void sound(Ctx& c, Alg a, const Params& p, const Image& im, Refs& refs, const mt_mat& src) {
	img_multi_msers res;
	img_mser_base* m = G_ext.get(a);
	set_params(m, p);
	m->extract(res, src);
	c.transitions++;
	int off = a == Opencv3 ? 1 : 0, w = im.w - 2 * off, h = im.h - 2 * off;
	for (int q = 0; q < 2; ++q) {
		std::string where = std::string(alg_name[a]) + " " + p.str() + (q ? " bright" : " dark") + " image " + im.str();
		if (w < 1 || h < 1) { if (!res.m_msers[q].empty()) c.fail("regions of an image without interior", where); continue; }
		Params every = p;
		every.delta = 0; every.dup = -1; every.stable = FLT_MAX; every.nms = -1; every.min_point = 1; every.max_ratio = 1;
		Regions er = refs.select(every, q), got;
		std::string why;
		if (!to_regions(res, q, im.w, im.h, got, why)) c.fail("unreadable result", where + ": " + why);
		if (!(q ? p.from_max : p.from_min) && !got.empty()) c.fail("regions of a polarity that was not asked for", where);
		std::string e = consistency(got, im.w);
		if (e.empty() && a == Opencv) e = rect_check(got, im.w);
		if (!e.empty()) c.fail("inconsistent region", where + ": " + e);
		// with settings that keep every region, the port reports every extremal region of the interior (and the interior itself)
		if (a == Opencv3 && p.stable == FLT_MAX && p.nms < 0 && p.min_point == 1 && p.max_ratio == 1 && (q ? p.from_max : p.from_min)) {
			size_t n = er.size();
			if (got.size() != n && got.size() != n + 1) c.fail("an extremal region is missing", where + ": " + regions_str(got, im.w) + " of " + regions_str(er, w));
		}
		for (size_t i = 0; i < got.size(); ++i) {
			Region r = got[i];
			bool ok = true;
			for (size_t k = 0; k < r.px.size(); ++k) {
				int x = r.px[k] % im.w - off, y = r.px[k] / im.w - off;
				if (x < 0 || y < 0 || x >= w || y >= h) ok = false;
				r.px[k] = y * w + x;
			}
			int n = (int)r.px.size();
			if (n < p.min_point || n > (int)(p.max_ratio * im.w * im.h)) c.fail("reported region of inadmissible size", where + ": " + region_str(got[i], im.w));
			bool found = n == w * h;
			for (size_t k = 0; k < er.size() && !found; ++k) found = er[k].same(r);
			// the older port takes the pixels gathered so far for a region when two regions merge, so its regions need not be extremal
			if (a == Opencv) found = ok;
			if (!ok || !found) c.fail("reported region is no extremal region", where + ": " + region_str(got[i], im.w) + " of " + regions_str(er, w));
			for (size_t k = 0; k < i; ++k) if (got[k].same(got[i])) c.fail("a region is reported twice", where + ": " + region_str(got[i], im.w));
			c.outcome(mc::mix(n, got[i].gray));
		}
	}
}

static void all(Ctx& c, const Image& im, bool orig, int stride = 0) {
	Refs refs(im);
	Image in(std::max(1, im.w - 2), std::max(1, im.h - 2));
	for (int y = 0; y < im.h - 2; ++y) for (int x = 0; x < im.w - 2; ++x) in.at(x, y) = im.at(x + 1, y + 1);
	Refs irefs(in);
	mt_mat big, src;
	std::vector<uint8_t> before;
	if (stride) {
		big = mt_mat(im.h + 2, im.w + stride, mt_U8C1);
		memset(big.data(), 77, (size_t)big.step()[0] * big.size()[0]);
		src = big.sub(mt_rect(1, 1, im.w, im.h));
		for (int y = 0; y < im.h; ++y) for (int x = 0; x < im.w; ++x) *src.ptr<u8>(y, x) = im.at(x, y);
	} else src = mat_of(im);
	std::vector<Params> g = grid();
	for (int conn = 4; conn <= 8; conn += 4) for (size_t i = 0; i < g.size(); ++i) {
		Params p = g[i];
		p.conn = conn;
		p.root = orig;
		if (i == 2) p.from_min = false;
		if (i == 3) p.from_max = false;
		if (orig) compare(c, Original, p, im, refs, src, "original");
		else if (conn == 4) { sound(c, Opencv, p, im, refs, src); sound(c, Opencv3, p, im, irefs, src); }
	}
	for (int y = 0; y < im.h; ++y) for (int x = 0; x < im.w; ++x) if (*src.ptr<u8>(y, x) != im.at(x, y)) c.fail("the image was changed", im.str());
	c.nontrivial++;
	c.state(hash_bytes(im.px.data(), im.px.size(), im.w));
	if (c.want_sample()) c.sample(im.str());
}

int main(int argc, char** argv) {
	Suite s;
	s.init = no_log;
	for (int k = 0; k < 2; ++k) {
		std::string who = k ? "ports" : "original";
		s.groups.push_back(Group("every image of a small shape, " + who, [k](Ctx& c) {
			static const int SH[][3] = { { 1, 1, 3 }, { 2, 1, 3 }, { 1, 2, 3 }, { 2, 2, 4 }, { 3, 2, 3 }, { 2, 3, 3 }, { 6, 1, 3 }, { 1, 6, 3 }, { 4, 3, 2 }, { 3, 3, 2 } };
			int t = c.choose(10);
			Image im = all_images(c, SH[t][0], SH[t][1], SH[t][2], LEVELS[c.choose(2)]);
			if (!c.shard()) return;
			all(c, im, k == 0);
		}));
		s.groups.push_back(Group("every 3x3 interior over 3 levels, " + who, [k](Ctx& c) {
			int l = c.choose(2);
			Image in = all_images(c, 3, 3, 3, LEVELS[l]);
			int frame = c.choose(2);
			if (!c.shard()) return;
			Image im(5, 5, frame ? 255 : LEVELS[l][1]);
			for (int y = 0; y < 3; ++y) for (int x = 0; x < 3; ++x) im.at(x + 1, y + 1) = in.at(x, y);
			all(c, im, k == 0, frame ? 3 : 0);
		}));
		s.groups.push_back(Group("structured images, " + who, [k](Ctx& c) {
			int kind = c.choose(12), w = c.choose(4), h = c.choose(4);
			if (!c.shard()) return;
			static const int S[] = { 7, 12, 17, 30 };
			w = S[w]; h = S[h];
			Image im(w, h);
			for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
				int v = 0;
				switch (kind) {
				case 0: v = x * 8 + y; break;
				case 1: v = (x ^ y) * 9; break;
				case 2: v = std::min(std::min(x, y), std::min(w - 1 - x, h - 1 - y)) * 3; break;
				case 3: v = 255 - std::min(std::min(x, y), std::min(w - 1 - x, h - 1 - y)) * 2; break;
				case 4: v = (x + y) & 1 ? 0 : 255; break;
				case 5: v = (y & 1) ? 250 : x * 5; break;
				case 6: v = x * x + y * y * 3; break;
				case 7: v = x * y; break;
				case 8: v = (x % 5 == 0 || y % 4 == 0) ? 200 + x % 3 : (x / 5 + y / 4) * 2; break;
				case 9: v = 128; break;
				case 10: v = y * w + x; break;
				case 11: v = 255 - (y * w + x); break;
				}
				im.at(x, y) = (uint8_t)v;
			}
			all(c, im, k == 0, kind & 1 ? 5 : 0);
		}));
		s.groups.push_back(Group("images of more than 65536 pixels, long ones and wide ones, " + who, [k](Ctx& c) {
			int shape = c.choose(6), kind = c.choose(3);
			if (!c.shard()) return;
			Image im = vast(shape, kind);
			if (k) {
				for (int conn = 4; conn <= 8; conn += 4) {
					RefTree t[2] = { ref_tree_fast(im, conn, 0), ref_tree_fast(im, conn, 1) };
					Params p = grid()[1];
					p.conn = conn; p.root = true;
					compare_large(c, Original, p, im, t, mat_of(im), "vast images");
				}
			} else {
				Image in(std::max(1, im.w - 2), std::max(1, im.h - 2));
				for (int y = 0; y < im.h - 2; ++y) for (int x = 0; x < im.w - 2; ++x) in.at(x, y) = im.at(x + 1, y + 1);
				Refs refs(im), irefs(in);
				mt_mat src = mat_of(im);
				for (int i = 0; i < 2; ++i) { sound(c, Opencv, grid()[i], im, refs, src); sound(c, Opencv3, grid()[i], im, irefs, src); }
			}
			c.nontrivial++;
			c.state(hash_bytes(im.px.data(), im.px.size(), im.w));
		}));
		s.groups.push_back(Group("every 4x4 image over 2 levels and 3x4 over 3, " + who, [k](Ctx& c) {
			int t = c.choose(2);
			Image im = t ? all_images(c, 3, 4, 3, LEVELS[1]) : all_images(c, 4, 4, 2, LEVELS[0]);
			if (!c.shard()) return;
			all(c, im, k == 0);
		}, false));
	}
	return run(s, argc, argv);
}
