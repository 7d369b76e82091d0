// Shared by the mser suites: extractors of one worker, comparison with the reference, image families.
#pragma once
#include "mser_common.h"

inline void no_log() { log_logger::release(); }

struct Extractors {
	std::unique_ptr<img_mser_base> m[9];
	img_mser_base* get(Alg a) { if (!m[a]) m[a].reset(new_alg(a)); return m[a].get(); }
};
static Extractors G_ext;

struct Refs {       // reference trees of one image, made once
	const Image& im;
	const Mask mask;
	std::unique_ptr<RefTree> t[2][2];
	Refs(const Image& i, const Mask& m = Mask()) : im(i), mask(m) {}
	Regions select(const Params& p, int pol) {
		std::unique_ptr<RefTree>& x = t[p.conn == 8][pol];
		if (!x) x.reset(new RefTree(ref_tree(im, p.conn, pol, mask)));
		ref_select(*x, p);
		Regions out;
		for (size_t i = 0; i < x->n.size(); ++i) {
			if (x->n[i].state != 1) continue;
			Region r;
			r.gray = pol ? 255 - x->n[i].gray : x->n[i].gray;
			r.size = x->n[i].size;
			r.px = x->n[i].px;
			out.push_back(r);
		}
		std::sort(out.begin(), out.end());
		return out;
	}
};

inline uint64_t hash_regions(const Regions& r, uint64_t h) {
	for (size_t i = 0; i < r.size(); ++i) { h = mc::mix(h, r[i].gray); h = mc::hash_bytes(r[i].px.data(), r[i].px.size() * sizeof(int), h); }
	return h;
}

// extra consistency of one result: sizes, distinct points, bounding boxes, unused polarity empty
inline std::string consistency(const Regions& g, int w) {
	for (size_t i = 0; i < g.size(); ++i) {
		const Region& r = g[i];
		if (r.size != (int)r.px.size()) return "the reported size is not the number of points " + region_str(r, w);
		if (r.px.empty()) return "empty region";
		for (size_t k = 1; k < r.px.size(); ++k) if (r.px[k] == r.px[k - 1]) return "a point is listed twice " + region_str(r, w);
	}
	return "";
}
inline std::string rect_check(const Regions& g, int w) {
	for (size_t i = 0; i < g.size(); ++i) {
		const Region& r = g[i];
		int l = 1 << 30, t = 1 << 30, rr = -1, b = -1;
		for (size_t k = 0; k < r.px.size(); ++k) {
			l = std::min(l, r.px[k] % w); rr = std::max(rr, r.px[k] % w);
			t = std::min(t, r.px[k] / w); b = std::max(b, r.px[k] / w);
		}
		if (r.l != l || r.r != rr || r.t != t || r.b != b) {
			std::ostringstream o;
			o << "bounding box " << r.l << "," << r.t << ".." << r.r << "," << r.b << " should be " << l << "," << t << ".." << rr << "," << b << " " << region_str(r, w);
			return o.str();
		}
	}
	return "";
}

// one extraction against the reference, both polarities
inline void compare(mc::Ctx& c, Alg a, const Params& p, const Image& im, Refs& refs, const mt_mat& src, const char* what) {
	img_multi_msers res;
	img_mser_base* m = G_ext.get(a);
	set_params(m, p);
	m->extract(res, src);
	c.transitions++;
	for (int q = 0; q < 2; ++q) {
		Regions got, want;
		std::string why;
		std::string where = std::string(alg_name[a]) + " " + p.str() + (q ? " bright" : " dark") + " image " + im.str();
		if (!to_regions(res, q, im.w, im.h, got, why)) c.fail(std::string(what) + ": unreadable result", where + ": " + why);
		if (q ? p.from_max : p.from_min) want = refs.select(p, q);
		c.outcome(hash_regions(want, 77));
		if (!same(got, want)) c.fail(std::string(what) + ": regions differ from the definition", where + "\n got " + regions_str(got, im.w) + "\n want " + regions_str(want, im.w));
		std::string e = consistency(got, im.w);
		if (e.empty() && (a == V1 || a == V2 || a == Linked || a == Ms)) e = rect_check(got, im.w);
		if (!e.empty()) c.fail(std::string(what) + ": inconsistent region", where + ": " + e);
	}
}

// the same on large images, where pixel sets are compared by hash
inline void compare_large(mc::Ctx& c, Alg a, const Params& p, const Image& im, RefTree* trees, const mt_mat& src, const char* what) {
	img_multi_msers res;
	img_mser_base* m = G_ext.get(a);
	set_params(m, p);
	m->extract(res, src);
	c.transitions++;
	for (int q = 0; q < 2; ++q) {
		std::string where = std::string(alg_name[a]) + " " + p.str() + (q ? " bright" : " dark") + " image " + im.str();
		Regions got;
		std::string why;
		if (!to_regions(res, q, im.w, im.h, got, why)) c.fail(std::string(what) + ": unreadable result", where + ": " + why);
		std::vector<Sig> want, have;
		if (q ? p.from_max : p.from_min) want = ref_sigs(trees[q], p, q);
		for (size_t i = 0; i < got.size(); ++i) {
			Sig s = { got[i].gray, (int)got[i].px.size(), 0 };
			for (size_t k = 0; k < got[i].px.size(); ++k) s.h += px_hash(got[i].px[k]);
			have.push_back(s);
		}
		std::sort(have.begin(), have.end());
		c.outcome(mc::mix(want.size(), want.empty() ? 0 : want[want.size() / 2].h));
		if (!same_sigs(have, want)) {
			std::ostringstream o;
			o << " got " << have.size() << " regions, want " << want.size();
			for (size_t i = 0; i < have.size() && i < want.size(); ++i) if (!(have[i] == want[i])) { o << "; first difference at " << i << ": got gray " << have[i].gray << " size " << have[i].size << ", want gray " << want[i].gray << " size " << want[i].size; break; }
			c.fail(std::string(what) + ": regions differ from the definition", where + o.str());
		}
		std::string e = consistency(got, im.w);
		if (e.empty() && a != Original) e = rect_check(got, im.w);
		if (!e.empty()) c.fail(std::string(what) + ": inconsistent region", where + ": " + e);
	}
}

// few regions on more than 65536 pixels: long strips (of sides that Fast MSER V1 can hold, it keeps them in 16 bits) and pictures
inline Image vast(int shape, int kind) {
	static const int WH[][2] = { { 65535, 2 }, { 2, 65535 }, { 33000, 3 }, { 3, 33000 }, { 331, 219 }, { 230, 300 } };
	Image im(WH[shape][0], WH[shape][1]);
	for (int y = 0; y < im.h; ++y) for (int x = 0; x < im.w; ++x) {
		int u = (int)((long long)x * 40 / im.w), v = (int)((long long)y * 40 / im.h), s = im.w > im.h ? u : v, z = 0;
		if (kind == 0) z = s < 20 ? s * 6 : (39 - s) * 6 + 3;                      // one valley
		if (kind == 1) z = (s % 5) * 50 + (u ^ v) % 3;                             // several hills
		if (kind == 2) z = s == 1 || s == 38 || (u == 20 && v == 20) ? 10 : s % 7 == 0 ? 220 : 100 + s;
		im.at(x, y) = (uint8_t)z;
	}
	return im;
}

// every image of a shape over k grey values
inline Image all_images(mc::Ctx& c, int w, int h, int k, const uint8_t* levels) {
	Image im(w, h);
	for (int i = 0; i < w * h; ++i) im.px[i] = levels[c.choose(k)];
	return im;
}

static const uint8_t LV_NEAR[] = { 10, 11, 12, 13 };
static const uint8_t LV_GAP[] = { 0, 1, 3, 255 };
static const uint8_t LV_ENDS[] = { 0, 127, 255, 254 };
static const uint8_t* LEVELS[] = { LV_NEAR, LV_GAP, LV_ENDS };

// scale each pixel of a pattern to a block: block borders at the given columns and rows
inline Image blocks(const Image& pat, int w, int h) {
	Image im(w, h);
	for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) im.at(x, y) = pat.at(x * pat.w / w, y * pat.h / h);
	return im;
}

inline Image spiral(int n, int corridor_lo, int step, int wall) {
	// a one-pixel corridor spiralling inwards with rising grey, walls between
	Image im(n, n, (uint8_t)wall);
	std::vector<char> seen((size_t)n * n, 0);
	int x = 0, y = 0, dx = 1, dy = 0, g = corridor_lo;
	std::vector<std::pair<int, int> > path;
	for (int guard = 0; guard < n * n; ++guard) {
		path.push_back(std::make_pair(x, y));
		seen[(size_t)y * n + x] = 1;
		bool moved = false;
		for (int t = 0; t < 2 && !moved; ++t) {
			int X = x + dx, Y = y + dy, XX = X + dx, YY = Y + dy;
			bool ok = X >= 0 && Y >= 0 && X < n && Y < n && !seen[(size_t)Y * n + X];
			if (ok && XX >= 0 && YY >= 0 && XX < n && YY < n && seen[(size_t)YY * n + XX]) ok = false;
			if (ok) { x = X; y = Y; moved = true; }
			else { int k = dx; dx = -dy; dy = k; }
		}
		if (!moved) break;
	}
	for (size_t i = 0; i < path.size(); ++i) im.at(path[i].first, path[i].second) = (uint8_t)std::min(255, g + (int)i * step);
	return im;
}
