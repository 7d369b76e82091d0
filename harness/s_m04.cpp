// M04: what an extractor returns depends on the image and the settings, never on what it did before.
#include "mser_suite.h"
using namespace mc;

struct Setting { Params p; };
static std::vector<Image> IMGS;
static std::vector<Params> SETS;

static Image gen(int w, int h, int kind) {
	Image im(w, h);
	for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
		int v = 0;
		if (kind == 0) v = ((x ^ y) * 37) & 255;
		if (kind == 1) v = (x * x + y * y * 3) & 255;
		if (kind == 2) v = (y & 1) ? 250 : (x * 3) & 255;
		if (kind == 3) v = 128;
		if (kind == 4) v = (x + y) & 1 ? 0 : 255;
		im.at(x, y) = (uint8_t)v;
	}
	return im;
}

static void make() {
	no_log();
	IMGS.push_back(gen(8, 8, 0));
	IMGS.push_back(gen(16, 4, 1));     // same area, other shape
	IMGS.push_back(gen(8, 8, 1));      // same shape, other content
	IMGS.push_back(gen(21, 13, 2));
	IMGS.push_back(gen(5, 3, 4));
	IMGS.push_back(gen(1, 1, 3));
	IMGS.push_back(gen(40, 30, 1));
	SETS.push_back(Params(1, -1, FLT_MAX, -1, 1, 1, 4, 1));
	SETS.push_back(Params(0, -1, 0.5f, -1, 1, 1, 8, 4));
	SETS.push_back(Params(2, 0.2f, 1.0f, 0, 2, 0.5f, 4, 4));
	SETS.push_back(Params(1, -1, FLT_MAX, -1, 1, 1, 4, 16));
	SETS.back().from_max = false;
	SETS.push_back(Params(3, 0, 2.0f, -1, 1, 0.9f, 4, 32));
	SETS.back().from_min = false;
	SETS.push_back(Params(1, 0.1f, 1.0f, 0.1f, 1, 1, 8, 1));
	SETS.back().recursive = 3;
}

typedef std::pair<Regions, Regions> Both;
static bool both(const img_multi_msers& r, const Image& im, Both& b, std::string& why) {
	return to_regions(r, 0, im.w, im.h, b.first, why) && to_regions(r, 1, im.w, im.h, b.second, why);
}
static bool same_all(const Regions& a, const Regions& b) {
	if (!same(a, b)) return false;
	for (size_t i = 0; i < a.size(); ++i) if (a[i].size != b[i].size || a[i].l != b[i].l || a[i].t != b[i].t || a[i].r != b[i].r || a[i].b != b[i].b) return false;
	return true;
}

struct Op { int img, set; };   // img -1: clear the cache
static std::string str(Alg a, const std::vector<Op>& ops) {
	std::ostringstream o;
	o << alg_name[a];
	for (size_t i = 0; i < ops.size(); ++i) {
		if (ops[i].img < 0) o << "; clear_memory_cache";
		else o << "; extract " << IMGS[ops[i].img].w << "x" << IMGS[ops[i].img].h << " #" << ops[i].img << " with " << SETS[ops[i].set].str();
	}
	return o.str();
}

static std::map<int, Both> FRESH;
static const Both& fresh(Ctx& c, Alg a, Op o) {
	int k = (a * 100 + o.img) * 100 + o.set;
	std::map<int, Both>::iterator i = FRESH.find(k);
	if (i != FRESH.end()) return i->second;
	std::unique_ptr<img_mser_base> m(new_alg(a));
	set_params(m.get(), SETS[o.set]);
	mt_mat src = mat_of(IMGS[o.img]);
	img_multi_msers res;
	m->extract(res, src);
	Both& b = FRESH[k];
	std::string why;
	if (!both(res, IMGS[o.img], b, why)) c.fail("unreadable result", str(a, std::vector<Op>(1, o)) + ": " + why);
	return b;
}

static std::vector<Op> ops_of(bool thorough, int n_img) {
	std::vector<Op> v;
	for (int i = 0; i < n_img; ++i) for (size_t s = 0; s < SETS.size(); ++s) {
		if (!thorough && (i + s) % 2) continue;
		Op o = { i, (int)s };
		v.push_back(o);
	}
	Op clear = { -1, 0 };
	v.push_back(clear);
	return v;
}

static void history(Ctx& c, Alg a, bool dense) {
	std::vector<Op> ops = ops_of(dense, (int)IMGS.size());
	int i = c.choose((int)ops.size()), j = c.choose((int)ops.size());
	if (!c.shard()) return;
	std::unique_ptr<img_mser_base> m(new_alg(a));
	std::vector<Op> done;
	img_multi_msers kept;
	uint64_t h = 1;
	for (size_t k = 0; k < ops.size(); ++k) {
		Op w[3] = { ops[i], ops[j], ops[k] };
		for (int q = 0; q < 3; ++q) {
			done.push_back(w[q]);
			if (w[q].img < 0) { m->clear_memory_cache(); continue; }
			const Image& im = IMGS[w[q].img];
			set_params(m.get(), SETS[w[q].set]);
			mt_mat src = mat_of(im);
			img_multi_msers one;
			img_multi_msers& res = (k & 1) ? kept : one;
			m->extract(res, src);
			c.transitions++;
			Both b;
			std::string why;
			if (done.size() > 12) done.erase(done.begin());
			if (!both(res, im, b, why)) c.fail("unreadable result", str(a, done) + ": " + why);
			const Both& f = fresh(c, a, w[q]);
			h = hash_regions(b.first, h);
			if (!same_all(b.first, f.first) || !same_all(b.second, f.second))
				c.fail("result depends on the history", str(a, done) + (k & 1 ? " (into a used result)" : "") + "\n got dark " + regions_str(b.first, im.w) + " bright " + regions_str(b.second, im.w)
					+ "\n fresh dark " + regions_str(f.first, im.w) + " bright " + regions_str(f.second, im.w));
			c.state(hash_regions(b.second, h));
		}
	}
	c.outcome(h);
	c.nontrivial++;
	if (c.want_sample()) c.sample(str(a, done));
}

// one extraction on a used extractor against a fresh one
static void again(Ctx& c, img_mser_base* m, Alg a, const Image& im, const Params& p, const Both& f, const std::string& what, img_multi_msers* into = 0) {
	set_params(m, p);
	mt_mat src = mat_of(im);
	img_multi_msers one;
	img_multi_msers& res = into ? *into : one;
	m->extract(res, src);
	c.transitions++;
	Both b;
	std::string why, where = std::string(alg_name[a]) + " " + what + " then " + im.str() + " with " + p.str();
	if (!both(res, im, b, why)) c.fail("unreadable result", where + ": " + why);
	if (!same_all(b.first, f.first) || !same_all(b.second, f.second))
		c.fail("result depends on the history", where + "\n got dark " + regions_str(b.first, im.w) + " bright " + regions_str(b.second, im.w)
			+ "\n fresh dark " + regions_str(f.first, im.w) + " bright " + regions_str(f.second, im.w));
	c.state(hash_regions(b.second, hash_regions(b.first, 1)));
}
static Both once(Ctx& c, Alg a, const Image& im, const Params& p) {
	std::unique_ptr<img_mser_base> m(new_alg(a));
	set_params(m.get(), p);
	mt_mat src = mat_of(im);
	img_multi_msers res;
	m->extract(res, src);
	Both b;
	std::string why;
	if (!both(res, im, b, why)) c.fail("unreadable result", why);
	return b;
}

// every ordered pair of shapes up to n x n
static void shapes(Ctx& c, Alg a, int n) {
	static const Params P[] = { Params(1, -1, FLT_MAX, -1, 1, 1, 4, 1), Params(2, 0.3f, 1.0f, 0, 1, 1, 8, 4) };
	int t = c.choose(2), first = c.choose(n * n);
	if (!c.shard()) return;
	std::unique_ptr<img_mser_base> m(new_alg(a));
	Image f = gen(first % n + 1, first / n + 1, 1);
	Both ff = once(c, a, f, P[t]);
	static std::map<int, Both> memo;
	for (int second = 0; second < n * n; ++second) {
		Image s = gen(second % n + 1, second / n + 1, 0);
		int key = ((int)a * 2 + t) * 1000 + second;
		if (!memo.count(key)) memo[key] = once(c, a, s, P[t]);
		again(c, m.get(), a, f, P[t], ff, "an image of another shape");
		again(c, m.get(), a, s, P[t], memo[key], f.str());
	}
	c.nontrivial++;
	if (c.want_sample()) c.sample(f.str());
}

// every ordered pair of settings on one image
static void settings(Ctx& c, Alg a) {
	std::vector<Params> g;
	for (int d = 0; d < 3; ++d) for (int conn = 4; conn <= 8; conn += 4) for (int k = 0; k < 4; ++k) {
		Params p(d == 0 ? 0 : d == 1 ? 1 : 7, k & 1 ? 0.4f : -1, d == 2 ? 1.5f : FLT_MAX, k & 1 ? 0.05f : -1, k & 2 ? 3 : 1, k & 2 ? 0.6f : 1, conn, k == 0 ? 1 : k == 1 ? 4 : 32);
		if (k == 3) { p.from_min = d != 1; p.from_max = d == 1; }
		g.push_back(p);
	}
	Image im = gen(11, 9, c.choose(2));
	int i = c.choose((int)g.size());
	if (!c.shard()) return;
	std::unique_ptr<img_mser_base> m(new_alg(a));
	Both f = once(c, a, im, g[i]);
	img_multi_msers kept;
	for (size_t j = 0; j < g.size(); ++j) {
		again(c, m.get(), a, im, g[i], f, "other settings", &kept);
		again(c, m.get(), a, im, g[j], once(c, a, im, g[j]), g[i].str(), j & 1 ? &kept : 0);
	}
	c.nontrivial++;
}

// long runs: one image once, another n times, the first again
static void runs(Ctx& c, Alg a, int n) {
	int i = c.choose((int)IMGS.size()), j = c.choose((int)IMGS.size()), s = c.choose(3);
	if (!c.shard()) return;
	std::unique_ptr<img_mser_base> m(new_alg(a));
	Op A = { i, s == 0 ? 0 : s == 1 ? 1 : 4 }, B = { j, s == 0 ? 0 : s == 1 ? 1 : 3 };
	img_multi_msers kept;
	std::string at = IMGS[i].str();
	for (int round = 0; round < 2; ++round) {
		again(c, m.get(), a, IMGS[i], SETS[A.set], fresh(c, a, A), "a run of another image", &kept);
		for (int k = 0; k < n; ++k) again(c, m.get(), a, IMGS[j], SETS[B.set], fresh(c, a, B), at + " once and a run of another image");
	}
	c.nontrivial++;
}

int main(int argc, char** argv) {
	Suite s;
	s.init = make;
	static const Alg A[] = { V1, V2, Linked, Ms };
	for (int k = 0; k < 4; ++k) {
		Alg a = A[k];
		s.groups.push_back(Group(std::string("every sequence of three operations, ") + alg_name[a], [a](Ctx& c) { history(c, a, false); }));
		s.groups.push_back(Group(std::string("every ordered pair of shapes, ") + alg_name[a], [a](Ctx& c) { shapes(c, a, 6); }));
		s.groups.push_back(Group(std::string("every ordered pair of larger shapes, ") + alg_name[a], [a](Ctx& c) { shapes(c, a, 14); }, false));
		s.groups.push_back(Group(std::string("every ordered pair of settings, ") + alg_name[a], [a](Ctx& c) { settings(c, a); }));
		s.groups.push_back(Group(std::string("runs of 14 extractions, ") + alg_name[a], [a](Ctx& c) { runs(c, a, 14); }));
		s.groups.push_back(Group(std::string("every sequence of three operations, all settings, ") + alg_name[a], [a](Ctx& c) { history(c, a, true); }, false));
	}
	return run(s, argc, argv);
}
