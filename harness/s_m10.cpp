// M10: masks. Only the pixels a mask admits take part; what is reported follows the definition on them.
#include "mser_suite.h"
using namespace mc;

static std::vector<Params> grid() {
	std::vector<Params> g;
	g.push_back(Params(1, -1,   FLT_MAX, -1,   1, 1));
	g.push_back(Params(1, -1,   1.0f,    0,    1, 1));
	g.push_back(Params(2, 0.3f, 2.0f,    0.1f, 1, 1));
	g.push_back(Params(3, -1,   2.0f,    0.25f, 2, 0.5f));
	g.push_back(Params(0, 0.5f, 0.5f,    -1,   2, 0.75f));
	g.push_back(Params(300, -1, 1.0f,    -1,   1, 1));
	return g;
}

// tree of the admitted pixels; for the linked extractor the others form the brightest level of the image
static RefTree tree(const Image& im, int conn, int pol, const Mask& m, Alg a) {
	RefTree t = ref_tree(im, conn, pol, m);
	if (a != Linked) return t;
	int N = im.w * im.h, ex = 0;
	for (int i = 0; i < N; ++i) ex += m.excluded(im, i);
	if (!ex) return t;
	RefNode r;
	r.gray = 256; r.size = N; r.parent = -1; r.var = -1; r.state = 0; r.sig = 0;
	for (int i = 0; i < N; ++i) r.px.push_back(i);
	int id = (int)t.n.size();
	for (int i = 0; i < id; ++i) if (t.n[i].parent < 0) t.n[i].parent = id;
	t.n.push_back(r);
	return t;
}

static Regions selected(RefTree& t, const Params& p, int pol) {
	ref_select(t, p);
	Regions out;
	for (size_t i = 0; i < t.n.size(); ++i) {
		if (t.n[i].state != 1) continue;
		Region r;
		r.gray = pol ? 255 - t.n[i].gray : t.n[i].gray;
		r.size = t.n[i].size;
		r.px = t.n[i].px;
		out.push_back(r);
	}
	std::sort(out.begin(), out.end());
	return out;
}

static mt_mat strided(const Image& im, int pad) {
	if (!pad) return mat_of(im);
	mt_mat big(im.h + 2, im.w + pad, mt_U8C1);
	memset(big.data(), 1, (size_t)big.step()[0] * big.size()[0]);
	mt_mat m = big.sub(mt_rect(1, 1, im.w, im.h));
	for (int y = 0; y < im.h; ++y) for (int x = 0; x < im.w; ++x) *m.ptr<u8>(y, x) = im.at(x, y);
	return m;
}

// kind: 0 none, 1 image, 2 value, 3 rectangle
static void check(Ctx& c, Alg a, const Image& im, const Mask& mask, const mt_rect& rect, int pad, const Params* only = NULL) {
	mt_mat src = strided(im, pad);
	img_mask_info<u8> info;
	Mask used = mask;
	std::ostringstream what;
	if (mask.kind == 1) { info = img_mask_info<u8>(strided(mask.im, pad ? pad + 1 : 0)); what << " mask " << mask.im.str(); }
	else if (mask.kind == 2) { info = img_mask_info<u8>((u8)mask.value); what << " without value " << mask.value; }
	else if (mask.kind == 3) {
		info = img_mask_info<u8>(rect);
		what << " inside " << rect.m_left << "," << rect.m_top << " " << rect.m_width << "x" << rect.m_height;
		used.kind = 1;
		used.im = Image(im.w, im.h);
		for (int y = 0; y < im.h; ++y) for (int x = 0; x < im.w; ++x) used.im.at(x, y) = x >= rect.m_left && y >= rect.m_top && x < rect.m_left + rect.m_width && y < rect.m_top + rect.m_height;
	}
	img_mser_base* m = G_ext.get(a);
	std::vector<Params> g = grid();
	if (only) g.assign(1, *only);
	for (int conn = 4; conn <= 8; conn += 4) {
		std::unique_ptr<RefTree> t[2];
		for (size_t i = 0; i < g.size(); ++i) {
			Params p = g[i];
			p.conn = conn;
			p.root = a == Original;
			if (i == 2) p.from_min = false;
			if (i == 3) p.from_max = false;
			img_multi_msers res;
			set_params(m, p);
			m->extract(res, src, info);
			c.transitions++;
			for (int q = 0; q < 2; ++q) {
				std::string where = std::string(alg_name[a]) + " " + p.str() + (q ? " bright" : " dark") + " image " + im.str() + what.str() + (pad ? " (view of a larger image)" : "");
				Regions got, want;
				std::string why;
				if (!to_regions(res, q, im.w, im.h, got, why)) c.fail("unreadable result", where + ": " + why);
				if (q ? p.from_max : p.from_min) {
					if (!t[q]) t[q].reset(new RefTree(tree(im, conn, q, used, mask.kind == 3 ? Original : a)));
					want = selected(*t[q], p, q);
				}
				c.outcome(hash_regions(want, a));
				if (!same(got, want)) c.fail("regions of a masked image differ from the definition", where + "\n got " + regions_str(got, im.w) + "\n want " + regions_str(want, im.w));
				std::string e = consistency(got, im.w);
				if (e.empty() && a == Linked) e = rect_check(got, im.w);
				if (!e.empty()) c.fail("inconsistent region", where + ": " + e);
			}
		}
	}
	for (int y = 0; y < im.h; ++y) for (int x = 0; x < im.w; ++x) if (*src.ptr<u8>(y, x) != im.at(x, y)) c.fail("the image was changed", im.str());
	static long long counted = -1;
	if (counted != c.evaluations) { counted = c.evaluations; c.nontrivial++; }
	c.state(mix(hash_bytes(im.px.data(), im.px.size(), im.w), hash_bytes(used.im.px.data(), used.im.px.size(), mask.kind * 256 + mask.value)));
	if (c.want_sample()) c.sample(im.str() + what.str());
}

int main(int argc, char** argv) {
	Suite s;
	s.init = no_log;
	static const Alg A[] = { Linked, Original };
	for (int k = 0; k < 2; ++k) {
		Alg a = A[k];
		std::string n = alg_name[a];
		s.groups.push_back(Group("every mask of every small image, " + n, [a](Ctx& c) {
			static const int SH[][3] = { { 1, 1, 3 }, { 3, 1, 3 }, { 1, 3, 3 }, { 2, 2, 3 }, { 3, 2, 2 }, { 2, 3, 2 } };
			int t = c.choose(6);
			Image im = all_images(c, SH[t][0], SH[t][1], SH[t][2], LEVELS[c.choose(2) + 1]);
			Mask m;
			m.kind = 1;
			static const uint8_t B[] = { 0, 1 };
			m.im = all_images(c, SH[t][0], SH[t][1], 2, B);
			if (!c.shard()) return;
			int par = 0;
			for (size_t i = 0; i < im.px.size(); ++i) par ^= m.im.px[i] ^ (im.px[i] == im.px[0]);
			for (int k = 0; k < 2; ++k) if (c.thorough || im.w * im.h < 6 || k == par) check(c, a, im, m, mt_rect(), k * 3);
		}));
		s.groups.push_back(Group("every value of every small image, " + n, [a](Ctx& c) {
			static const int SH[][3] = { { 1, 1, 3 }, { 3, 1, 3 }, { 1, 3, 3 }, { 2, 2, 3 }, { 3, 2, 3 }, { 2, 3, 3 }, { 3, 3, 3 } };
			int t = c.choose(7), l = c.choose(2) + 1;
			if (t == 6 && !c.thorough) l = 2;
			Image im = all_images(c, SH[t][0], SH[t][1], SH[t][2], LEVELS[l]);
			if (!c.shard()) return;
			for (int v = 0; v < 4; ++v) {
				Mask m;
				m.kind = 2;
				m.value = LEVELS[l][v];
				check(c, a, im, m, mt_rect(), v & 1 ? 3 : 0);
			}
		}));
		s.groups.push_back(Group("every rectangle of small images, " + n, [a](Ctx& c) {
			Image im = all_images(c, 3, 3, 2, LEVELS[2]);
			if (!c.shard()) return;
			for (int l = 0; l < 3; ++l) for (int t = 0; t < 3; ++t) for (int w = 1; l + w <= 3; ++w) for (int h = 1; t + h <= 3; ++h) {
				Mask m;
				m.kind = 3;
				check(c, a, im, m, mt_rect(l, t, w, h), (l + t) & 1 ? 3 : 0);
			}
		}));
		s.groups.push_back(Group("structured masks of structured images, " + n, [a](Ctx& c) {
			int kind = c.choose(7), mk = c.choose(9), size = c.choose(3);
			if (!c.shard()) return;
			static const int WH[][2] = { { 13, 9 }, { 8, 16 }, { 21, 20 } };
			Image im(WH[size][0], WH[size][1]);
			Mask m;
			m.kind = mk < 6 || mk == 8 ? 1 : mk == 6 ? 2 : 3;     // 8: nothing is admitted
			m.im = Image(im.w, im.h);
			for (int y = 0; y < im.h; ++y) for (int x = 0; x < im.w; ++x) {
				int v = 0, b = 0;
				switch (kind) {
				case 0: v = x * 8 + y; break;
				case 1: v = (x ^ y) * 9; break;
				case 2: v = std::min(std::min(x, y), std::min(im.w - 1 - x, im.h - 1 - y)) * 3; break;
				case 3: v = (x + y) & 1 ? 0 : 255; break;
				case 4: v = x * x + y * y * 3; break;
				case 5: v = 255 - (x / 3 + y / 3) % 4; break;
				}
				if (kind == 6) v = 200;
				switch (mk) {
				case 0: b = (x + y) & 1; break;
				case 1: b = x > im.w / 3 && y > 2; break;
				case 2: b = !(x > 2 && x < im.w - 3 && y > 2 && y < im.h - 3); break;
				case 3: b = x % 4 != 0 && y % 5 != 0; break;
				case 4: b = x % 2; break;
				case 5: b = y * 3 > x; break;
				}
				im.at(x, y) = (uint8_t)v;
				m.im.at(x, y) = (uint8_t)b;
			}
			m.value = im.at(im.w / 2, im.h / 2);
			check(c, a, im, m, mt_rect(2, 1, im.w - 4, im.h - 3), kind & 1 ? 5 : 0);
		}));
		s.groups.push_back(Group("images of more than 65536 pixels, long ones and wide ones, " + n, [a](Ctx& c) {
			int shape = c.choose(6), kind = c.choose(3), mk = c.choose(3);
			if (!c.shard()) return;
			Image im = vast(shape, kind);
			Mask m;
			m.kind = mk + 1;
			m.value = kind == 0 ? 60 : 100;
			if (mk == 0) {
				m.im = Image(im.w, im.h);
				for (int y = 0; y < im.h; ++y) for (int x = 0; x < im.w; ++x) m.im.at(x, y) = (uint8_t)((im.w > im.h ? x * 9ll / im.w : y * 9ll / im.h) % 3 != 1);
			}
			static const Params P(1, -1, 1.0f, 0, 1, 1);
			check(c, a, im, m, mt_rect(im.w / 20, im.h / 20, im.w - im.w / 10, im.h - im.h / 10), 0, &P);
		}));
		s.groups.push_back(Group("nothing admitted, every size, " + n, [a](Ctx& c) {
			int w = c.choose(9) + 1, h = c.choose(9) + 1, k = c.choose(2);
			if (!c.shard()) return;
			Image im(w, h, 5);
			Mask m;
			m.kind = k + 1;
			m.value = 5;
			m.im = Image(w, h);
			check(c, a, im, m, mt_rect(), 0);
		}));
		s.groups.push_back(Group("every mask of every larger image, " + n, [a](Ctx& c) {
			int t = c.choose(2);
			Image im = all_images(c, 3, 3, 2, LEVELS[t + 1]);
			Mask m;
			m.kind = 1;
			static const uint8_t B[] = { 0, 1 };
			m.im = all_images(c, 3, 3, 2, B);
			if (!c.shard()) return;
			check(c, a, im, m, mt_rect(), t * 3);
		}, false));
	}
	return run(s, argc, argv);
}
