// M07: a result is a value. Copies, assignments and moves through vectors keep what was reported, nothing done later to the
// extractor, the image or the result it was copied from changes it, and every region can be drawn.
#include "mser_suite.h"
#include "cv_stub.h"
using namespace mc;

typedef std::pair<Regions, Regions> Both;
static bool both(const img_multi_msers& r, const Image& im, Both& b, std::string& why) {
	return to_regions(r, 0, im.w, im.h, b.first, why) && to_regions(r, 1, im.w, im.h, b.second, why);
}
static bool same_all(const Regions& a, const Regions& b) {
	if (!same(a, b)) return false;
	for (size_t i = 0; i < a.size(); ++i) if (a[i].size != b[i].size || a[i].l != b[i].l || a[i].t != b[i].t || a[i].r != b[i].r || a[i].b != b[i].b) return false;
	return true;
}

static Image gen(int kind) {
	static const int WH[][2] = { { 8, 8 }, { 13, 6 }, { 5, 9 }, { 1, 1 }, { 20, 17 }, { 9, 9 } };
	Image im(WH[kind][0], WH[kind][1]);
	for (int y = 0; y < im.h; ++y) for (int x = 0; x < im.w; ++x) {
		int v = 128;
		if (kind == 0) v = (x ^ y) * 37;
		if (kind == 1) v = x * x + y * y * 3;
		if (kind == 2) v = (y & 1) ? 250 : x * 3;
		if (kind == 4) v = (x / 3) * 9 + (y / 4) * 20;
		if (kind == 5) v = std::min(std::min(x, y), std::min(8 - x, 8 - y)) * 40;
		im.at(x, y) = (uint8_t)v;
	}
	return im;
}
static std::vector<Params> sets() {
	std::vector<Params> g;
	g.push_back(Params(1, -1, FLT_MAX, -1, 1, 1, 4, 4));         // everything, points shared
	g.push_back(Params(0, -1, 0.5f, -1, 1, 1, 8, 1));
	g.back().recursive = 2;                                      // linked storage
	g.push_back(Params(2, 0.3f, 1.0f, 0, 2, 0.9f, 4, 16));
	g.back().recursive = 1;
	g.push_back(Params(1, -1, FLT_MAX, -1, 1, 1, 4, 4));
	g.back().from_min = false;
	g.back().recursive = 4;
	g.push_back(Params(1, -1, FLT_MAX, -1, 500, 1, 4, 4));       // nothing
	return g;
}

struct World {
	std::unique_ptr<img_mser_base> m;
	std::unique_ptr<img_multi_msers> slot[3];
	Both want[3];
	Image im[3];
	std::vector<std::string> log;
};
static std::string story(Alg a, const World& w) {
	std::string s = alg_name[a];
	for (size_t i = 0; i < w.log.size(); ++i) s += "; " + w.log[i];
	return s;
}

static void examine(Ctx& c, Alg a, World& w) {
	uint64_t h = a;
	for (int i = 0; i < 3; ++i) {
		if (!w.slot[i]) { h = mix(h, 3); continue; }
		Both b;
		std::string why;
		if (!both(*w.slot[i], w.im[i], b, why)) c.fail("a result can no longer be read", story(a, w) + ": result " + std::to_string(i) + ": " + why);
		if (!same_all(b.first, w.want[i].first) || !same_all(b.second, w.want[i].second))
			c.fail("a result changed", story(a, w) + ": result " + std::to_string(i) + "\n now dark " + regions_str(b.first, w.im[i].w) + " bright " + regions_str(b.second, w.im[i].w)
				+ "\n was dark " + regions_str(w.want[i].first, w.im[i].w) + " bright " + regions_str(w.want[i].second, w.im[i].w));
		h = hash_regions(b.second, hash_regions(b.first, h));
	}
	c.state(h);
	c.outcome(h);
}

// operations on three results and one extractor
static void histories(Ctx& c, Alg a, int depth, int n_img, int n_set) {
	World w;
	std::vector<Params> P = sets();
	int p = c.choose(n_set);
	std::vector<int> ops;
	for (int i = 0; i < depth; ++i) ops.push_back(c.choose(n_img * 2 + 9));
	if (!c.shard()) return;
	w.m.reset(new_alg(a));
	bool tree = false;
	for (int q = 0; q < depth; ++q) {
		int o = ops[q];
		std::ostringstream t;
		if (o < n_img * 2) {                 // extract into result 0 (used) or a new result 1
			int k = o % n_img, s = o / n_img;
			t << "extract image " << k << " into result " << s << " with " << P[p].str();
			w.log.push_back(t.str());
			if (!w.slot[s]) w.slot[s].reset(new img_multi_msers);
			if (!w.m) w.m.reset(new_alg(a));
			w.im[s] = gen(k);
			set_params(w.m.get(), P[p]);
			{
				mt_mat src = mat_of(w.im[s]);
				w.m->extract(*w.slot[s], src);
			}
			c.transitions++;
			std::string why;
			if (!both(*w.slot[s], w.im[s], w.want[s], why)) c.fail("a fresh result cannot be read", story(a, w) + ": " + why);
			if (w.want[s].first.size() + w.want[s].second.size() > 1) tree = true;
		} else {
			o -= n_img * 2;
			static const char* N[] = { "copy 0 to 1", "copy 1 to 0", "result 2 as a new copy of 0", "assign 0 to itself", "destroy 0", "destroy the extractor", "clear the cache", "grow a vector that holds 0", "copy 2 to 1" };
			w.log.push_back(N[o]);
			switch (o) {
			case 0: case 1: case 8: {
				int f = o == 0 ? 0 : o == 1 ? 1 : 2, g = o == 1 ? 0 : 1;
				if (!w.slot[f]) break;
				if (!w.slot[g]) w.slot[g].reset(new img_multi_msers);
				*w.slot[g] = *w.slot[f];
				w.want[g] = w.want[f];
				w.im[g] = w.im[f];
				break;
			}
			case 2: if (w.slot[0]) { w.slot[2].reset(new img_multi_msers(*w.slot[0])); w.want[2] = w.want[0]; w.im[2] = w.im[0]; } break;
			case 3: if (w.slot[0]) { img_multi_msers& r = *w.slot[0]; *w.slot[0] = r; } break;
			case 4: w.slot[0].reset(); break;
			case 5: w.m.reset(); break;
			case 6: if (w.m) w.m->clear_memory_cache(); break;
			case 7: if (w.slot[0]) {
				std::vector<img_multi_msers> v(1, *w.slot[0]);
				for (int i = 0; i < 3; ++i) v.push_back(img_multi_msers());
				v.insert(v.begin(), img_multi_msers());
				*w.slot[0] = v[1];
			}
			}
		}
		examine(c, a, w);
	}
	if (tree) c.nontrivial++;
	if (c.want_sample()) c.sample(story(a, w));
}

// the picture of every region
static void pictures(Ctx& c, Alg a, const Image& im, const Params& p, const std::string& where) {
	img_multi_msers res;
	img_mser_base* m = G_ext.get(a);
	set_params(m, p);
	mt_mat src = mat_of(im);
	m->extract(res, src);
	c.transitions++;
	std::vector<const img_mser*> list;
	img_mser_helper::shallow_copy_msers(list, res);
	size_t n = res.m_msers[0].size() + res.m_msers[1].size();
	if (list.size() != n) c.fail("the list of regions is incomplete", where);
	for (size_t i = 0; i < n; ++i) {
		size_t d = res.m_msers[0].size();
		if (list[i] != (i < d ? &res.m_msers[0][i] : &res.m_msers[1][i - d])) c.fail("the list of regions is out of order", where);
	}
	vector<i32> helper;
	std::vector<std::vector<uint8_t> > drawn;      // gray, as save_msers writes them
	for (int q = 0; q < 2; ++q) for (size_t i = 0; i < res.m_msers[q].size(); ++i) {
		const img_mser& r = res.m_msers[q][i];
		std::vector<mt_point> pts;
		std::string why;
		if (!decode(res.m_msers[q], (int)i, pts, &why)) c.fail("unreadable result", where + ": " + why);
		int l = 1 << 30, t = 1 << 30, rr = -1, b = -1;
		for (size_t k = 0; k < pts.size(); ++k) { l = std::min(l, (int)pts[k].m_x); rr = std::max(rr, (int)pts[k].m_x); t = std::min(t, (int)pts[k].m_y); b = std::max(b, (int)pts[k].m_y); }
		int w = rr - l + 1, h = b - t + 1, ex = h > w ? (h - w) / 2 : 0, ey = w > h ? (w - h) / 2 : 0;
		int W = w + 2 * ex, H = h + 2 * ey;
		for (int mode = 0; mode < 4; ++mode) {
			bool gray = mode & 1;
			mt_scalar fg = mode < 2 ? img_Color_Black : mt_scalar(10, 20, 30), bg = mode < 2 ? img_Color_White : mt_scalar(200, 210, 220);
			mt_mat pic(1, 1, mt_U8C1);
			if (mode == 0) img_mser_helper::image_from_mser(pic, r, mt_size(0, 0), fg, bg, gray);
			else img_mser_helper::image_from_mser(pic, r, mt_size(0, 0), fg, bg, gray, &helper);
			int cn = gray ? 1 : 3;
			if (pic.size()[0] != H || pic.size()[1] != W || pic.channel() != cn) c.fail("wrong shape of the picture of a region", where + " region " + std::to_string(i));
			std::vector<uint8_t> want((size_t)W * H * cn);
			for (int y = 0; y < H; ++y) for (int x = 0; x < W; ++x) for (int k = 0; k < cn; ++k) want[((size_t)y * W + x) * cn + k] = (uint8_t)bg[k];
			for (size_t k = 0; k < pts.size(); ++k) for (int z = 0; z < cn; ++z) want[((size_t)(pts[k].m_y - t + ey) * W + pts[k].m_x - l + ex) * cn + z] = (uint8_t)fg[z];
			for (int y = 0; y < H; ++y) if (memcmp(pic.ptr<u8>(y, 0), &want[(size_t)y * W * cn], (size_t)W * cn) != 0)
				c.fail("wrong picture of a region", where + (q ? " bright" : " dark") + " region " + std::to_string(i) + " of " + std::to_string(res.m_msers[q].size()) + ", " + std::to_string(pts.size()) + " points, storage " + std::to_string(r.m_memory_type) + ", mode " + std::to_string(mode) + ", row " + std::to_string(y));
			if (mode == 1) drawn.push_back(want);
			static const int to[][2] = { { 7, 3 }, { 2, 5 }, { 1, 1 }, { 4, 4 } };
			int tw = to[(i + mode) % 4][0], th = to[(i + mode) % 4][1];
			img_mser_helper::image_from_mser(pic, r, mt_size(tw, th), fg, bg, gray);
			if (pic.size()[0] != th || pic.size()[1] != tw || pic.channel() != cn) c.fail("wrong shape of the resized picture of a region", where + " region " + std::to_string(i));
			for (int y = 0; y < th; ++y) for (int x = 0; x < tw; ++x) if (memcmp(pic.ptr<u8>(y, x, 0), &want[((size_t)(y * H / th) * W + x * W / tw) * cn], cn) != 0)
				c.fail("wrong resized picture of a region", where + " region " + std::to_string(i) + ", mode " + std::to_string(mode));
		}
	}
	c.outcome(mix(n, res.m_memory_size[0]));
	// the same as files
	cv_stub::written.clear();
	std::string top = run_dir() + "/pictures." + std::to_string((long)getpid()), dir = top + "/of/";      // does not exist yet
	img_mser_helper::save_msers(res, dir, mt_size(0, 0));
	if (access(dir.c_str(), W_OK) != 0) c.fail("the directory of the pictures was not created", where);
	rmdir(dir.c_str()); rmdir(top.c_str());
	if (cv_stub::written.size() != n) c.fail("not every region was written", where);
	for (size_t i = 0; i < n; ++i) {
		std::ostringstream o;
		size_t d = res.m_msers[0].size();
		if (i < d) o << dir << "from_min_" << i << ".png";
		else o << dir << "from_max_" << i - d << ".png";
		if (cv_stub::written[i].name != o.str() || cv_stub::written[i].data != drawn[i] || cv_stub::written[i].channels != 1) c.fail("wrong file of a region", where + " " + cv_stub::written[i].name);
	}
	c.nontrivial++;
}

static void grid(Ctx& c, Alg a, const Image& im) {
	static const int T[] = { 1, 4, 32 }, R[] = { 0, 1, 2, 20 };
	for (int t = 0; t < (a == V1 || a == V2 ? 3 : 1); ++t) for (int r = 0; r < 4; ++r) for (int k = 0; k < 2; ++k) {
		Params p = k ? Params(1, -1, FLT_MAX, -1, 1, 1, 4, T[t]) : Params(0, 0.5f, 0.5f, -1, 2, 1, 8, T[t]);
		p.recursive = R[r];
		if (k && r == 3) continue;
		std::string where = std::string(alg_name[a]) + " " + p.str() + " image " + im.str();
		pictures(c, a, im, p, where);
	}
	c.state(hash_bytes(im.px.data(), im.px.size(), im.w));
	if (c.want_sample()) c.sample(im.str());
}

// single regions taken out of a result
static void regions(Ctx& c, Alg a) {
	int k = c.choose(6), s = c.choose(3);
	if (!c.shard()) return;
	Image im = gen(k);
	Params p = sets()[s];
	p.recursive = 1000;       // no region refers to another
	img_multi_msers res;
	img_mser_base* m = G_ext.get(a);
	set_params(m, p);
	mt_mat src = mat_of(im);
	m->extract(res, src);
	std::string where = std::string(alg_name[a]) + " " + p.str() + " image " + im.str();
	for (int q = 0; q < 2; ++q) for (size_t i = 0; i < res.m_msers[q].size(); ++i) {
		const img_mser& r = res.m_msers[q][i];
		std::vector<mt_point> pts;
		if (!decode(res.m_msers[q], (int)i, pts)) continue;
		img_mser own;                       // a region with its own points
		own.m_gray_level = r.m_gray_level;
		own.m_size = (i32)pts.size();
		own.m_rect = r.m_rect;
		own.m_points = new mt_point[pts.size()];
		for (size_t j = 0; j < pts.size(); ++j) own.m_points[j] = pts[j];
		std::vector<img_mser> v;
		{
			img_mser copy(own), over;
			over.m_size = 1;
			over.m_points = new mt_point[1];
			over = copy;
			copy.m_points[0] = mt_point(-7, -7);
			img_mser& self = over;
			over = self;
			for (int t = 0; t < 4; ++t) v.push_back(over);
			over = img_mser();
			if (over.m_size != 0 || over.m_points != NULL) c.fail("an empty region was copied wrongly", where);
		}
		own = img_mser();
		for (size_t t = 0; t < v.size(); ++t) {
			bool ok = v[t].m_size == (i32)pts.size() && v[t].m_gray_level == r.m_gray_level && v[t].m_rect == r.m_rect && v[t].m_memory_type == img_mser::Memory_Type_Self;
			for (size_t j = 0; ok && j < pts.size(); ++j) ok = v[t].m_points[j] == pts[j];
			if (!ok) c.fail("a copied region differs", where + " region " + std::to_string(i));
			for (size_t u = 0; u < t; ++u) if (v[t].m_points == v[u].m_points) c.fail("copied regions share their points", where);
		}
		c.transitions++;
	}
	c.nontrivial++;
	c.outcome(mix(k, s));
}

// every sequence of copies, assignments and moves of two results gives back all memory with the last of them
static void given_back(Ctx& c, Alg a, int most, bool all_pairs) {
	int k = c.choose(6), k2 = all_pairs ? c.choose(6) : (k + 1) % 6, s = c.choose(5), n = 1 + c.choose(most);
	int ops[3];
	for (int i = 0; i < n; ++i) ops[i] = c.choose(7);
	if (!c.shard()) return;
	img_mser_base* m = G_ext.get(a);
	Params p = sets()[s];
	set_params(m, p);
	mt_mat one = mat_of(gen(k)), two = mat_of(gen(k2));
	img_multi_msers x, y;
	m->extract(x, one); m->extract(y, two);
	std::string where = std::string(alg_name[a]) + " " + p.str() + " images " + std::to_string(k) + " and " + std::to_string(k2);
	for (int round = 0; round < 2; ++round) {      // the first warms up whatever is kept
		long long live = allocated();
		{
			img_multi_msers b;
			std::vector<img_multi_msers> v;
			for (int i = 0; i < n; ++i) switch (ops[i]) {
			case 0: b = x; break;
			case 1: b = y; break;
			case 2: { img_multi_msers t(b); b = t; break; }
			case 3: { img_multi_msers& t = b; b = t; break; }
			case 4: b = img_multi_msers(); break;
			case 5: v.push_back(b); v.push_back(x); v.erase(v.begin()); break;
			case 6: if (v.empty()) v.push_back(y); b = v.back(); v.resize(v.size() + 2); break;
			}
			c.transitions += n;
		}
		if (round && allocated() > live) { std::string o; for (int i = 0; i < n; ++i) o += " " + std::to_string(ops[i]); c.fail("memory of copies is not given back", where + ":" + o); }
	}
	c.nontrivial++;
}
int main(int argc, char** argv) {
	Suite s;
	s.init = no_log;
	static const Alg A[] = { V1, V2, Linked, Ms, Original, Opencv, Opencv3 };
	for (int k = 0; k < 7; ++k) {
		Alg a = A[k];
		std::string n = alg_name[a];
		bool cheap = a != V1;
		s.groups.push_back(Group("every history of operations on three results, " + n, [a, cheap](Ctx& c) { histories(c, a, 3, 2, cheap ? 3 : 2); }));
		s.groups.push_back(Group("every longer history of operations on three results, " + n, [a](Ctx& c) { histories(c, a, 4, 2, 5); }, false));
		s.groups.push_back(Group("pictures of every 3x3 image over 2 levels, " + n, [a](Ctx& c) {
			static const uint8_t L[] = { 3, 9, 10 };
			Image im = all_images(c, 3, 3, 2, L);
			if (!c.shard()) return;
			grid(c, a, im);
		}, a == V2 || a == Linked));
		s.groups.push_back(Group("pictures of the regions of larger images, " + n, [a](Ctx& c) {
			int k = c.choose(6);
			if (!c.shard()) return;
			grid(c, a, gen(k));
		}));
		s.groups.push_back(Group("copies given back, " + n, [a](Ctx& c) { given_back(c, a, 2, false); }));
		s.groups.push_back(Group("copies given back, longer histories, " + n, [a](Ctx& c) { given_back(c, a, 3, true); }, false));
		s.groups.push_back(Group("single regions, " + n, [a](Ctx& c) { regions(c, a); }));
	}
	return run(s, argc, argv);
}
