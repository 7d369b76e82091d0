// M08: extraction touches no memory but the image's pixels and its own, depends on nothing it never wrote, and gives everything back.
// Built with AddressSanitizer (accesses) and without (contents of fresh memory, leaks).
#include "mser_suite.h"
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define MC_ASAN 1
#include <sanitizer/asan_interface.h>
#endif
#endif
#ifndef MC_ASAN
extern "C" { extern unsigned char mc_fill; extern long long mc_live, mc_blocks; }
#endif
using namespace mc;

static const Alg ALGS[] = { V1, V2, Linked, Ms, Original, Opencv, Opencv3 };

static Image gen(int w, int h, int kind) {
	Image im(w, h);
	for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
		int v = 128;
		if (kind == 0) v = (x ^ y) * 37;
		if (kind == 1) v = x * x + y * y * 3;
		if (kind == 2) v = (x + y) & 1 ? 0 : 255;
		if (kind == 3) v = y * w + x;
		if (kind == 4) v = std::min(std::min(x, y), std::min(w - 1 - x, h - 1 - y)) * 3;
		im.at(x, y) = (uint8_t)v;
	}
	return im;
}

// the image inside exactly sized caller memory: dense, or rows apart with memory between them that must not be touched
struct Source {
	uint8_t* mem;
	size_t n;
	mt_mat mat;
	std::vector<uint8_t> before;
	std::vector<char> inside;
	Source(const Image& im, int pad) {
		size_t step = im.w + pad;
		n = (size_t)step * (im.h - 1) + im.w;
		mem = (uint8_t*)malloc(n);
		memset(mem, 0x3C, n);
		for (int y = 0; y < im.h; ++y) memcpy(mem + y * step, &im.px[(size_t)y * im.w], im.w);
		std::vector<i32> size(2), st(2);
		size[0] = im.h; size[1] = im.w; st[0] = (i32)step; st[1] = 1;
		mat = mt_mat(size, mt_U8C1, mem, st);
		before.assign(mem, mem + n);
#ifdef MC_ASAN
		// poisoning works in units of eight bytes: rows are aligned, so every gap keeps whole units
		for (int y = 0; y + 1 < im.h; ++y) if (pad) __asan_poison_memory_region(mem + y * step + im.w, pad);
#endif
	}
	bool changed() {
#ifdef MC_ASAN
		__asan_unpoison_memory_region(mem, n);
#endif
		return memcmp(mem, before.data(), n) != 0;
	}
	~Source() {
#ifdef MC_ASAN
		__asan_unpoison_memory_region(mem, n);
#endif
		mat = mt_mat();
		free(mem);
	}
};

static std::vector<Params> grid(Alg a, bool few) {
	std::vector<Params> g;
	if (a == V1) for (int t = 1; t <= 32; t *= 2) { if (few && t != 1 && t != 4 && t != 32) continue; g.push_back(Params(1, -1, FLT_MAX, -1, 1, 1, t & 5 ? 4 : 8, t)); }
	else if (a == V2) { g.push_back(Params(1, -1, FLT_MAX, -1, 1, 1, 4, 1)); g.push_back(Params(1, -1, FLT_MAX, -1, 1, 1, 4, 4)); g.push_back(Params(0, -1, .5f, -1, 1, 1, 8, 32)); }
	else { g.push_back(Params(1, -1, FLT_MAX, -1, 1, 1, 4, 1)); g.push_back(Params(0, -1, .5f, -1, 1, 1, a == Opencv || a == Opencv3 ? 4 : 8, 1)); }
	g.push_back(Params(2, 0.3f, 1.0f, 0, 1, 0.9f, 4, 4));
	g.back().recursive = 2;
	return g;
}

static void extraction(Ctx& c, img_mser_base* m, Alg a, const Params& p, const Image& im, int pad, Regions* out) {
	Source s(im, pad);
	img_multi_msers res;
	set_params(m, p);
	m->extract(res, s.mat);
	c.transitions++;
	std::string where = std::string(alg_name[a]) + " " + p.str() + " row distance " + std::to_string(im.w + pad) + " image " + im.str();
	if (s.changed()) c.fail("the image was changed", where);
	for (int q = 0; q < 2; ++q) {
		std::string why;
		if (!to_regions(res, q, im.w, im.h, out[q], why)) c.fail("unreadable result", where + ": " + why);
	}
}

// every size
static void sizes(Ctx& c, Alg a, int n, bool few) {
	int w = c.choose(n) + 1, h = c.choose(n) + 1;
	if (!c.shard()) return;
	std::vector<Params> g = grid(a, few);
	for (int kind = 0; kind < 5; ++kind) {
		Image im = gen(w, h, kind);
		std::string where = std::string(alg_name[a]) + " image " + im.str();
		for (size_t i = 0; i < g.size(); ++i) {
			if (few && (kind + i) % 2) continue;
#ifdef MC_ASAN
			// a fresh extractor (its memory fits this image exactly)
			std::unique_ptr<img_mser_base> m(new_alg(a));
			Regions r[2], s[2];
			extraction(c, m.get(), a, g[i], im, 0, r);
			m->clear_memory_cache();
			extraction(c, m.get(), a, g[i], im, 16 - w % 8, s);
			if (!same(r[0], s[0]) || !same(r[1], s[1])) c.fail("the result depends on the distance of the rows", where + " " + g[i].str());
			c.outcome(hash_regions(r[0], hash_regions(r[1], a)));
#else
			Regions r[3][2];
			static const unsigned char FILL[] = { 0xA5, 0x00, 0xFF };
			for (int f = 0; f < 3; ++f) {
				long long live = mc_live, blocks = mc_blocks;
				{
					mc_fill = FILL[f];
					std::unique_ptr<img_mser_base> m(new_alg(a));
					{
						Source s(im, f * 3);
						img_multi_msers res;
						set_params(m.get(), g[i]);
						m->extract(res, s.mat);
						c.transitions++;
						mc_fill = 0xA5;
						for (int q = 0; q < 2; ++q) {
							std::string why;
							if (!to_regions(res, q, w, h, r[f][q], why)) c.fail("unreadable result", where + " " + g[i].str() + ": " + why);
						}
						set_params(m.get(), g[(i + 1) % g.size()]);
						m->extract(res, s.mat);
						if (f == 1) m->clear_memory_cache();
					}
				}
				mc_fill = 0xA5;
				long long d = mc_blocks - blocks, e = mc_live - live;
				for (int q = 0; q < 2; ++q) { d -= 0; (void)e; }
				c.state(mix(d, i));
				// the regions kept for the comparison are the harness's own
				long long mine = 0;
				for (int q = 0; q < 2; ++q) { if (r[f][q].capacity()) ++mine; for (size_t k = 0; k < r[f][q].size(); ++k) if (r[f][q][k].px.capacity()) ++mine; }
				if (d - mine > 0 && f > 0) c.fail("memory was not given back", where + " " + g[i].str() + ": " + std::to_string(d - mine) + " blocks");
				if (f && (!same(r[0][0], r[f][0]) || !same(r[0][1], r[f][1]))) c.fail("the result depends on memory that was never written", where + " " + g[i].str() + " fill " + std::to_string(FILL[f])
					+ "\n got " + regions_str(r[f][0], w) + " / " + regions_str(r[f][1], w) + "\n and " + regions_str(r[0][0], w) + " / " + regions_str(r[0][1], w));
			}
			c.outcome(hash_regions(r[0][0], hash_regions(r[0][1], a)));
#endif
		}
	}
	c.nontrivial++;
	c.state(mix(w, h));
	if (c.want_sample()) c.sample(std::string(alg_name[a]) + " " + std::to_string(w) + "x" + std::to_string(h));
}

// every small image
static void smalls(Ctx& c, Alg a) {
	static const int SH[][3] = { { 1, 1, 3 }, { 2, 1, 3 }, { 1, 3, 3 }, { 2, 2, 3 }, { 3, 2, 3 }, { 2, 3, 3 }, { 3, 3, 2 }, { 5, 1, 3 }, { 1, 5, 3 }, { 4, 3, 2 } };
	int t = c.choose(10);
	Image im = all_images(c, SH[t][0], SH[t][1], SH[t][2], LV_ENDS);
	if (!c.shard()) return;
	std::vector<Params> g = grid(a, true);
	img_mser_base* m = G_ext.get(a);
	m->clear_memory_cache();
	for (size_t i = 0; i < g.size(); ++i) {
		Regions r[2], s[2];
		extraction(c, m, a, g[i], im, 0, r);
		extraction(c, m, a, g[i], im, 16 - im.w % 8, s);
		if (!same(r[0], s[0]) || !same(r[1], s[1])) c.fail("the result depends on the distance of the rows", std::string(alg_name[a]) + " " + g[i].str() + " image " + im.str());
		c.outcome(hash_regions(r[0], hash_regions(r[1], a)));
	}
	c.nontrivial++;
	c.state(hash_bytes(im.px.data(), im.px.size(), im.w));
}

// images that need the most of everything
static void extremes(Ctx& c, Alg a) {
	int k = c.choose(10);
	if (!c.shard()) return;
	Image im;
	switch (k) {
	case 0: im = Image(300, 1); for (int x = 0; x < 300; ++x) im.at(x, 0) = (uint8_t)x; break;
	case 1: im = Image(1, 300); for (int y = 0; y < 300; ++y) im.at(0, y) = (uint8_t)(255 - y); break;
	case 2: im = Image(64, 64); for (int i = 0; i < 64 * 64; ++i) im.px[i] = (uint8_t)(((i % 64) + (i / 64)) & 1 ? i * 7 : 0); break;
	case 3: im = spiral(41, 0, 1, 255); break;
	case 4: im = spiral(41, 0, 1, 255).inverted(); break;
	case 5: im = Image(90, 70, 255); for (int y = 0; y < 70; y += 2) for (int x = 0; x < 90; x += 2) im.at(x, y) = (uint8_t)(x + y); break;
	case 6: im = Image(128, 3); for (int i = 0; i < 384; ++i) im.px[i] = (uint8_t)(i % 128 * 2); break;
	case 7: im = Image(97, 61, 7); break;
	case 8: im = Image(128, 128); for (int i = 0; i < 128 * 128; ++i) im.px[i] = (uint8_t)((i % 128) ^ (i / 128)); break;
	case 9: im = Image(33, 257); for (int i = 0; i < 33 * 257; ++i) im.px[i] = (uint8_t)(i / 33); break;
	}
	std::vector<Params> g = grid(a, false);
	for (size_t i = 0; i < g.size(); ++i) {
		std::unique_ptr<img_mser_base> m(new_alg(a));
		Regions r[2], s[2];
		extraction(c, m.get(), a, g[i], im, 0, r);
		extraction(c, m.get(), a, g[i], im, 24, s);
		if (!same(r[0], s[0]) || !same(r[1], s[1])) c.fail("the result depends on the distance of the rows", std::string(alg_name[a]) + " " + g[i].str() + " image " + im.str());
		c.outcome(hash_regions(r[0], hash_regions(r[1], a)));
	}
	c.nontrivial++;
	c.state(k);
}

int main(int argc, char** argv) {
	Suite s;
	s.init = no_log;
	for (int k = 0; k < 7; ++k) {
		Alg a = ALGS[k];
		std::string n = alg_name[a];
#ifdef MC_ASAN
		int quick = a == V1 ? 6 : 9;
#else
		int quick = a == V1 ? 6 : 10;
#endif
		s.groups.push_back(Group("every small size, " + n, [a, quick](Ctx& c) { sizes(c, a, quick, true); }));
		s.groups.push_back(Group("every size, " + n, [a](Ctx& c) { sizes(c, a, a == V1 ? 14 : 24, false); }, false));
#ifdef MC_ASAN
		s.groups.push_back(Group("every image of a small shape, " + n, [a](Ctx& c) { smalls(c, a); }));
		s.groups.push_back(Group("extreme images, " + n, [a](Ctx& c) { extremes(c, a); }));
#endif
	}
	return run(s, argc, argv);
}
