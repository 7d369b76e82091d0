// M03: the parallel extractors' workers never touch the same memory unsynchronised, and no interleaving changes the result.
#include "mser_suite.h"
#include <dlfcn.h>
using namespace mc;

static std::string describe_conflicts() {
	std::ostringstream o;
	for (size_t i = 0; i < sched::S.conflicts.size() && i < 4; ++i) {
		const sched::Conflict& x = sched::S.conflicts[i];
		Dl_info a, b;
		memset(&a, 0, sizeof a); memset(&b, 0, sizeof b);
		dladdr(x.pc_a, &a); dladdr(x.pc_b, &b);
		o << " address " << (void*)x.addr << ": worker " << x.a << " in " << (a.dli_sname ? a.dli_sname : "?") << ", worker " << x.b << " in " << (b.dli_sname ? b.dli_sname : "?") << (x.write_write ? " (write)" : " (read)") << ";";
	}
	return o.str();
}

static Regions one(Ctx& c, img_mser_base* m, const Params& p, const mt_mat& src, const Image& im, int q, img_multi_msers& res) {
	Regions r;
	std::string why;
	if (!to_regions(res, q, im.w, im.h, r, why)) c.fail("unreadable result", p.str() + " image " + im.str() + ": " + why);
	return r;
}

struct Conf { Alg a; int threads; };
static const Conf CONF[] = { { V1, 2 }, { V1, 4 }, { V2, 4 }, { V1, 8 }, { V1, 16 }, { V1, 32 }, { V2, 32 } };

// logged runs in several worker orders: any conflicting pair of accesses that is not ordered by synchronisation is a violation
static void logged(Ctx& c, const Image& im, const Params& base, int ncf, int orders) {
	mt_mat src = mat_of(im);
	for (int k = 0; k < ncf; ++k) {
		Params p = base;
		p.threads = CONF[k].threads;
		img_mser_base* m = G_ext.get(CONF[k].a);
		set_params(m, p);
		std::string where = std::string(alg_name[CONF[k].a]) + " " + p.str() + " image " + im.str();
		Regions first[2];
		for (int o = 0; o < orders; ++o) {
			sched::S.reset_run();
			sched::S.mode = sched::Direct;
			sched::S.order = o;
			sched::S.log = true;
			sched::S.hot.clear();
			img_multi_msers res;
			m->extract(res, src);
			sched::S.log = false;
			sched::S.order = 0;
			c.transitions += sched::S.accesses;
			sched::S.accesses = 0;
			c.schedules++;
			if (!sched::S.conflicts.empty()) c.fail("data race between workers", where + ":" + describe_conflicts());
			for (int q = 0; q < 2; ++q) {
				Regions r = one(c, m, p, src, im, q, res);
				if (o == 0) { first[q] = r; c.outcome(hash_regions(r, 5)); }
				else if (!same(r, first[q])) c.fail("result depends on the order of the workers", where);
			}
		}
	}
	c.nontrivial++;
	c.state(hash_bytes(im.px.data(), im.px.size(), im.w));
	if (c.want_sample()) c.sample(im.str());
}

// one parallel region of the extraction under every interleaving of its workers (bounded preemptions) at lock operations
// and worker ends; accesses are logged, so that unsynchronised conflicts, which would need finer interleavings, are found too
static void explored(Ctx& c, const Image& im, Params p, Alg a, int bound) {
	mt_mat src = mat_of(im);
	img_mser_base* m = G_ext.get(a);
	set_params(m, p);
	std::string where = std::string(alg_name[a]) + " " + p.str() + " image " + im.str();
	img_multi_msers ref;
	sched::S.reset_run();
	sched::S.mode = sched::Direct;
	sched::S.order = 0;
	m->extract(ref, src);
	int r = c.choose(sched::S.region_no);
	if (!c.shard()) return;
	sched::S.reset_run();
	sched::S.hot.clear();
	sched::S.mode = sched::Explore;
	sched::S.explore_region = r;
	sched::S.preempt_bound = bound;
	sched::S.log = true;
	uint64_t h = r + 1;
	sched::S.pick = [&](int n) { int k = c.choose(n); h = mix(h, k); return k; };
	img_multi_msers res;
	m->extract(res, src);
	sched::S.mode = sched::Direct;
	sched::S.explore_region = -1;
	sched::S.log = false;
	sched::S.pick = nullptr;
	c.transitions += sched::S.accesses;
	sched::S.accesses = 0;
	c.schedules++;
	c.nontrivial++;
	c.outcome(h);
	if (sched::S.deadlock) c.fail("deadlock", where);
	if (!sched::S.conflicts.empty()) c.fail("data race between workers", where + ":" + describe_conflicts());
	for (int q = 0; q < 2; ++q) if (!same(one(c, m, p, src, im, q, res), one(c, m, p, src, im, q, ref))) c.fail("result depends on the interleaving", where);
}

int main(int argc, char** argv) {
	Suite s;
	s.init = no_log;
	s.groups.push_back(Group("logged runs, every 3x3 two-level pattern over a 9x5 image", [](Ctx& c) {
		int pi = c.choose(2);
		Image pat(3, 3, LV_NEAR[0]);
		for (int i = 1; i < 9; ++i) pat.px[i] = LV_NEAR[c.choose(2)];
		if (!c.shard()) return;
		Params p = pi ? Params(0, -1, .5f, -1, 1, 1) : Params(1, 0.5f, 1.0f, 0, 1, 1);
		logged(c, blocks(pat, 9, 5), p, 7, 2);
	}));
	s.groups.push_back(Group("logged runs, every 2x2 four-level pattern over small images", [](Ctx& c) {
		static const int WH[][2] = { { 4, 4 }, { 8, 4 }, { 2, 2 }, { 5, 3 }, { 12, 9 } };
		int k = c.choose(5);
		Image pat = all_images(c, 2, 2, 4, LEVELS[0]);
		if (!c.shard()) return;
		logged(c, blocks(pat, WH[k][0], WH[k][1]), Params(1, -1, 1.0f, -1, 1, 1), 7, 3);
	}));
	s.groups.push_back(Group("logged runs, spirals, ramps and combs", [](Ctx& c) {
		int n = 9 + 4 * c.choose(4), kind = c.choose(5), pi = c.choose(3);
		if (!c.shard()) return;
		Image im = kind < 2 ? spiral(n, 0, 3, 255) : Image(n, n);
		if (kind >= 2) for (int y = 0; y < n; ++y) for (int x = 0; x < n; ++x) im.at(x, y) = (uint8_t)(kind == 2 ? x * y : kind == 3 ? ((x ^ y) * 9) : (((x + y) & 1) ? 200 : x * 3 + y));
		if (kind == 1) im = im.inverted();
		Params p = pi == 0 ? Params(0, -1, .5f, -1, 1, 1) : pi == 1 ? Params(1, 0.5f, 1.0f, 0, 1, 1) : Params(2, -1, 1.0f, 0.1f, 2, 0.5f);
		if (pi == 2) p.recursive = 2;
		logged(c, im, p, 7, 3);
	}));
	s.groups.push_back(Group("all interleavings at locks and worker ends, V1 with two workers", [](Ctx& c) {
		Image im = all_images(c, 4, 2, 2, LEVELS[0]);
		explored(c, im, Params(1, -1, 1.0f, -1, 1, 1, 4, 2), V1, 2);
	}));
	s.groups.push_back(Group("all interleavings at locks and worker ends, V1 with four workers", [](Ctx& c) {
		Image pat = all_images(c, 2, 2, 2, LEVELS[0]);
		explored(c, blocks(pat, 5, 4), Params(1, -1, 1.0f, -1, 1, 1, 4, 4), V1, 1);
	}));
	s.groups.push_back(Group("all interleavings at locks and worker ends, V2 with four workers", [](Ctx& c) {
		Image pat = all_images(c, 2, 2, 2, LEVELS[0]);
		explored(c, blocks(pat, 5, 4), Params(1, -1, 1.0f, -1, 1, 1, 4, 4), V2, 1);
	}));
	return run(s, argc, argv);
}
