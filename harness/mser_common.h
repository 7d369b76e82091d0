// Images, parameters, results and the reference definition of MSER for the harnesses.
#pragma once
#include "repo.h"
#include "mc.h"
#include "mcsched.h"
#include <float.h>
#include <malloc.h>
#include <algorithm>
#include <memory>


struct Image {
	int w, h;
	std::vector<uint8_t> px;
	Image() : w(0), h(0) {}
	Image(int W, int H, uint8_t v = 0) : w(W), h(H), px((size_t)W * H, v) {}
	uint8_t& at(int x, int y) { return px[(size_t)y * w + x]; }
	uint8_t at(int x, int y) const { return px[(size_t)y * w + x]; }
	std::string str() const {
		std::ostringstream o;
		o << w << "x" << h << "[";
		if (px.size() <= 400) for (size_t i = 0; i < px.size(); ++i) o << (i ? (i % w ? " " : " / ") : "") << (int)px[i];
		else o << "hash " << mc::hash_bytes(px.data(), px.size());
		o << "]";
		return o.str();
	}
	Image inverted() const { Image r = *this; for (size_t i = 0; i < px.size(); ++i) r.px[i] = 255 - px[i]; return r; }
};

struct Params {
	int delta; float dup, stable, nms; int min_point; float max_ratio; int conn; bool from_min, from_max; int threads;
	int recursive;
	bool root = false;     // reference only: the whole image counts as a region
	Params() : delta(1), dup(0.1f), stable(0.5f), nms(0), min_point(20), max_ratio(0.25f), conn(4), from_min(true), from_max(true), threads(4), recursive(20) {}
	Params(int d, float du, float st, float n, int mi, float ma, int c = 4, int t = 4) : delta(d), dup(du), stable(st), nms(n), min_point(mi), max_ratio(ma), conn(c), from_min(true), from_max(true), threads(t), recursive(20) {}
	std::string str() const {
		std::ostringstream o;
		o << "delta=" << delta << " dup=" << dup << " stable=" << stable << " nms=" << nms << " min=" << min_point << " max_ratio=" << max_ratio << " conn=" << conn << " min/max=" << from_min << from_max << " threads=" << threads << " rec=" << recursive;
		return o.str();
	}
};

enum Alg { V1, V2, Linked, Ms, Original, Opencv, Opencv3, Vlfeat, Idiap };
static const char* alg_name[] = { "fast_mser_v1", "fast_mser_v2", "linked_linear", "ms_mser", "original", "opencv", "opencv3", "vlfeat", "idiap" };

inline img_mser_base* new_alg(Alg a) {
	switch (a) {
	case V1: return img_mser_alg_factory(typeid(img_fast_mser_v1).name()).new_instance();
	case V2: return img_mser_alg_factory(typeid(img_fast_mser_v2).name()).new_instance();
	case Linked: return img_mser_alg_factory(typeid(img_linked_linear_mser).name()).new_instance();
	case Ms: return img_mser_alg_factory(typeid(img_ms_mser).name()).new_instance();
	case Original: return img_mser_alg_factory(typeid(img_original_mser).name()).new_instance();
	case Opencv: return img_mser_alg_factory(typeid(img_opencv_mser).name()).new_instance();
	case Opencv3: return img_mser_alg_factory(typeid(img_opencv3_mser).name()).new_instance();
	case Vlfeat: return img_mser_alg_factory(typeid(img_vlfeat_mser).name()).new_instance();
	default: return img_mser_alg_factory(typeid(img_idiap_mser).name()).new_instance();
	}
}

inline void set_params(img_mser_base* m, const Params& p) {
	m->set_stable_delta(p.delta);
	m->set_duplicated_variation(p.dup);
	m->set_stable_max_variation(p.stable);
	m->set_nms_similarity(p.nms);
	m->set_min_max_point(p.min_point, p.max_ratio);
	m->set_connected_type(p.conn == 8 ? img_Connected_Type_8_Neibour : img_Connected_Type_4_Neibour);
	m->enable_extraction(p.from_min, p.from_max);
	m->set_parallel_thread_number(p.threads);
	m->set_recursive_point_threshold(p.recursive);
}

struct Region {
	int gray, size;
	std::vector<int> px;      // sorted y*w+x
	int l, t, r, b;           // bounding box reported (inclusive)
	bool has_rect;
	Region() : gray(0), size(0), l(0), t(0), r(0), b(0), has_rect(false) {}
	bool operator<(const Region& o) const { if (gray != o.gray) return gray < o.gray; return px < o.px; }
	bool same(const Region& o) const { return gray == o.gray && px == o.px; }
};
typedef std::vector<Region> Regions;
inline bool same(const Regions& a, const Regions& b) {
	if (a.size() != b.size()) return false;
	for (size_t i = 0; i < a.size(); ++i) if (!a[i].same(b[i])) return false;
	return true;
}

inline std::string region_str(const Region& r, int w) {
	std::ostringstream o;
	o << "{gray " << r.gray << " size " << r.px.size() << ":";
	for (size_t i = 0; i < r.px.size() && i < 40; ++i) o << " " << r.px[i] % w << "," << r.px[i] / w;
	o << "}";
	return o.str();
}
inline std::string regions_str(const Regions& v, int w) {
	std::ostringstream o;
	o << v.size() << " regions ";
	for (size_t i = 0; i < v.size() && i < 12; ++i) o << region_str(v[i], w) << " ";
	return o.str();
}

// the pixels of the mser at index i of a result vector, in storage order; false when a link leaves the vector
inline bool decode(const std::vector<img_mser>& v, int i, std::vector<mt_point>& out, std::string* why = NULL) {
	std::vector<int> todo(1, i);
	size_t guard = 0;
	while (!todo.empty()) {
		int k = todo.back();
		todo.pop_back();
		if (k < 0 || k >= (int)v.size()) { if (why) *why = "child index out of the result"; return false; }
		if (++guard > v.size() + 1) { if (why) *why = "child links form a cycle"; return false; }
		const img_mser& m = v[k];
		switch (m.m_memory_type) {
		case img_mser::Memory_Type_Self:
		case img_mser::Memory_Type_Share:
		case img_mser::Memory_Type_Range:
			for (int j = 0; j < m.m_size; ++j) out.push_back(m.m_points[j]);
			break;
		case img_mser::Memory_Type_Share_Parallel_4:
		case img_mser::Memory_Type_Recursive_Parallel_4:
			for (int q = 0; q < 4; ++q) for (const mt_point* p = m.m_points + m.m_points[q].m_x; p < m.m_points + m.m_points[q].m_y; ++p) out.push_back(*p);
			if (m.m_memory_type == img_mser::Memory_Type_Recursive_Parallel_4) {
				const i32* c = (const i32*)(m.m_points + 4);
				for (int q = 0; q < c[0]; ++q) todo.push_back(c[q + 1] + k);
			}
			break;
		case img_mser::Memory_Type_Recursive: {
			for (int j = 0; j < m.m_points[0].m_x; ++j) out.push_back(m.m_points[1 + j]);
			const i32* c = (const i32*)(m.m_points + 1 + m.m_points[0].m_x);
			for (int q = 0; q < m.m_points[0].m_y; ++q) todo.push_back(c[q] + k);
			break;
		}
		default:
			if (why) *why = "unknown storage kind";
			return false;
		}
		if (out.size() > (1u << 24)) { if (why) *why = "unbounded point list"; return false; }
	}
	return true;
}

inline bool to_regions(const img_multi_msers& res, int side, int w, int h, Regions& out, std::string& why) {
	out.clear();
	const std::vector<img_mser>& v = res.m_msers[side];
	for (size_t i = 0; i < v.size(); ++i) {
		std::vector<mt_point> pts;
		if (!decode(v, (int)i, pts, &why)) return false;
		Region r;
		r.gray = v[i].m_gray_level;
		r.size = v[i].m_size;
		for (size_t k = 0; k < pts.size(); ++k) {
			if (pts[k].m_x < 0 || pts[k].m_y < 0 || pts[k].m_x >= w || pts[k].m_y >= h) {
				std::ostringstream o;
				o << "point (" << pts[k].m_x << "," << pts[k].m_y << ") outside the image";
				why = o.str();
				return false;
			}
			r.px.push_back(pts[k].m_y * w + pts[k].m_x);
		}
		std::sort(r.px.begin(), r.px.end());
		r.l = v[i].m_rect.m_left; r.t = v[i].m_rect.m_top;
		r.r = v[i].m_rect.m_left + v[i].m_rect.m_width - 1; r.b = v[i].m_rect.m_top + v[i].m_rect.m_height - 1;
		r.has_rect = true;
		out.push_back(r);
	}
	std::sort(out.begin(), out.end());
	return true;
}

// a matrix over the caller's pixels (kept alive by the caller)
inline mt_mat mat_of(const Image& im) {
	mt_mat m(im.h, im.w, mt_U8C1);
	for (int y = 0; y < im.h; ++y) memcpy(m.ptr<u8>(y, 0, 0), &im.px[(size_t)y * im.w], im.w);
	return m;
}

struct Mask {
	int kind;            // 0 none, 1 image (0 = excluded), 2 value excluded
	Image im;
	int value;
	Mask() : kind(0), value(0) {}
	bool excluded(const Image& img, int i) const { return kind == 1 ? im.px[i] == 0 : kind == 2 ? img.px[i] == value : false; }
};

// ---- reference: the component tree by flooding every level, and the selection as documented
struct RefNode {
	int gray, size, parent;
	std::vector<int> px;
	uint64_t sig;   // sum of pixel hashes
	float var;
	int state;   // 0 unknown 1 valid 2 invalid
};
struct RefTree { std::vector<RefNode> n; int w, h; };

inline void flood(const Image& im, const std::vector<uint8_t>& g, const std::vector<char>& ex, int level, int conn, std::vector<int>& label, std::vector<std::vector<int> >& comps) {
	int N = im.w * im.h;
	label.assign(N, -1);
	comps.clear();
	std::vector<int> st;
	for (int s = 0; s < N; ++s) {
		if (ex[s] || label[s] >= 0 || g[s] > level) continue;
		int id = (int)comps.size();
		comps.push_back(std::vector<int>());
		st.assign(1, s);
		label[s] = id;
		while (!st.empty()) {
			int p = st.back();
			st.pop_back();
			comps[id].push_back(p);
			int x = p % im.w, y = p / im.w;
			for (int dy = -1; dy <= 1; ++dy) for (int dx = -1; dx <= 1; ++dx) {
				if ((dx == 0 && dy == 0) || (conn == 4 && dx != 0 && dy != 0)) continue;
				int X = x + dx, Y = y + dy;
				if (X < 0 || Y < 0 || X >= im.w || Y >= im.h) continue;
				int q = Y * im.w + X;
				if (ex[q] || label[q] >= 0 || g[q] > level) continue;
				label[q] = id;
				st.push_back(q);
			}
		}
	}
}

// polarity 0: from dark to bright; 1: on the inverted image
inline RefTree ref_tree(const Image& im, int conn, int polarity, const Mask& mask = Mask()) {
	RefTree t;
	t.w = im.w; t.h = im.h;
	int N = im.w * im.h;
	std::vector<uint8_t> g(N);
	std::vector<char> ex(N);
	bool used[256] = { false };
	for (int i = 0; i < N; ++i) {
		g[i] = polarity ? 255 - im.px[i] : im.px[i];
		ex[i] = mask.excluded(im, i);
		if (!ex[i]) used[g[i]] = true;
	}
	std::vector<int> label;
	std::vector<std::vector<int> > comps;
	std::vector<int> top(N, -1);   // node that currently owns the pixel
	for (int L = 0; L < 256; ++L) {
		if (!used[L]) continue;
		flood(im, g, ex, L, conn, label, comps);
		for (size_t c = 0; c < comps.size(); ++c) {
			bool has = false;
			for (size_t k = 0; k < comps[c].size(); ++k) if (g[comps[c][k]] == L) has = true;
			if (!has) continue;
			RefNode n;
			n.gray = L;
			n.size = (int)comps[c].size();
			n.parent = -1;
			n.px = comps[c];
			std::sort(n.px.begin(), n.px.end());
			n.var = -1;
			n.state = 0;
			int id = (int)t.n.size();
			for (size_t k = 0; k < comps[c].size(); ++k) {
				int o = top[comps[c][k]];
				if (o >= 0) t.n[o].parent = id;
				top[comps[c][k]] = id;
			}
			t.n.push_back(n);
		}
	}
	// parents were overwritten by later levels only through the chain: a node's parent is the first that covers it
	for (size_t i = 0; i < t.n.size(); ++i) {
		t.n[i].parent = -1;
		for (size_t j = i + 1; j < t.n.size(); ++j)
			if (t.n[j].gray > t.n[i].gray && std::binary_search(t.n[j].px.begin(), t.n[j].px.end(), t.n[i].px[0])) { t.n[i].parent = (int)j; break; }
	}
	return t;
}

inline uint64_t px_hash(int i) { return mc::mix(0x51ed27, (uint64_t)i); }

// the same tree by union-find over the pixels in grey order; pixel sets only as hashes
inline RefTree ref_tree_fast(const Image& im, int conn, int polarity) {
	RefTree t;
	t.w = im.w; t.h = im.h;
	int N = im.w * im.h;
	std::vector<uint8_t> g(N);
	std::vector<int> order(N), start(257, 0), uf(N, -1), node(N, -1);
	for (int i = 0; i < N; ++i) { g[i] = polarity ? 255 - im.px[i] : im.px[i]; start[g[i] + 1]++; }
	for (int i = 0; i < 256; ++i) start[i + 1] += start[i];
	for (int i = 0; i < N; ++i) order[start[g[i]]++] = i;
	auto find = [&](int x) { while (uf[x] != x) { uf[x] = uf[uf[x]]; x = uf[x]; } return x; };
	for (int k = 0; k < N;) {
		int L = g[order[k]], e = k;
		while (e < N && g[order[e]] == L) ++e;
		std::vector<int> touched;      // nodes of lower levels that join a component of this level, by root later
		std::vector<int> low;
		for (int q = k; q < e; ++q) {
			int p = order[q];
			uf[p] = p;
			int x = p % im.w, y = p / im.w;
			for (int dy = -1; dy <= 1; ++dy) for (int dx = -1; dx <= 1; ++dx) {
				if ((!dx && !dy) || (conn == 4 && dx && dy)) continue;
				int X = x + dx, Y = y + dy;
				if (X < 0 || Y < 0 || X >= im.w || Y >= im.h) continue;
				int r = Y * im.w + X;
				if (uf[r] < 0) continue;
				int a = find(p), b = find(r);
				if (a == b) continue;
				if (node[a] >= 0 && t.n[node[a]].gray < L) low.push_back(node[a]);
				if (node[b] >= 0 && t.n[node[b]].gray < L) low.push_back(node[b]);
				uf[a] = b;
				node[b] = -1;
			}
		}
		for (int q = k; q < e; ++q) {
			int r = find(order[q]);
			if (node[r] < 0) {
				node[r] = (int)t.n.size();
				RefNode n;
				n.gray = L; n.size = 0; n.parent = -1; n.sig = 0; n.var = -1; n.state = 0;
				n.px.assign(1, order[q]);   // one pixel, to find the node again
				t.n.push_back(n);
			}
			t.n[node[r]].size++;
			t.n[node[r]].sig += px_hash(order[q]);
		}
		for (size_t i = 0; i < low.size(); ++i) {
			RefNode& c = t.n[low[i]];
			if (c.parent >= 0) continue;
			c.parent = node[find(c.px[0])];
			t.n[c.parent].size += c.size;
			t.n[c.parent].sig += c.sig;
		}
		k = e;
	}
	return t;
}

struct Sig { int gray, size; uint64_t h; bool operator<(const Sig& o) const { return gray != o.gray ? gray < o.gray : size != o.size ? size < o.size : h < o.h; } bool operator==(const Sig& o) const { return gray == o.gray && size == o.size && h == o.h; } };

inline bool same_sigs(const std::vector<Sig>& a, const std::vector<Sig>& b) { return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin()); }
inline std::vector<Sig> ref_sigs(RefTree& t, const Params& p, int polarity);

inline void ref_duplicates(std::vector<RefNode>& n, std::vector<int>& run, int stable, int begin, float dup, int max_point) {
	for (int q = n[begin].parent; q >= 0; q = n[q].parent) {
		if (n[q].size > max_point) break;
		if ((n[q].size - n[stable].size) / (double)n[stable].size > dup) break;
		if (n[q].state == 0) run.push_back(q);
	}
}

inline void ref_select(RefTree& t, const Params& p) {
	int max_point = (int)(p.max_ratio * t.h * t.w);
	std::vector<RefNode>& n = t.n;
	for (size_t i = 0; i < n.size(); ++i) {
		n[i].state = 0;
		n[i].var = -1;
		if (n[i].size < p.min_point || n[i].size > max_point || (n[i].parent < 0 && !p.root)) n[i].state = 2;
		if (p.delta > 0) {
			int a = (int)i;
			while (n[a].parent >= 0 && n[n[a].parent].gray <= n[i].gray + p.delta) a = n[a].parent;
			if (n[a].parent >= 0 || n[a].gray == n[i].gray + p.delta) n[i].var = (n[a].size - n[i].size) / (float)n[i].size;
			if (n[i].var > p.stable) n[i].state = 2;
		}
	}
	if (p.delta > 0 && p.nms >= 0) {
		std::vector<char> kill(n.size(), 0);
		for (size_t i = 0; i < n.size(); ++i) {
			int q = n[i].parent;
			if (q < 0 || n[q].gray != n[i].gray + 1 || n[i].var < 0 || n[q].var < 0) continue;
			float sub = n[q].var - n[i].var;
			if (sub > p.nms) kill[q] = 1;
			else if (-sub > p.nms) kill[i] = 1;
		}
		for (size_t i = 0; i < n.size(); ++i) if (kill[i]) n[i].state = 2;
	}
	// nodes are in ascending grey order
	for (size_t i = 0; i < n.size(); ++i) {
		if (n[i].state != 0) continue;
		if (p.dup <= 0) { n[i].state = 1; continue; }
		std::vector<int> run(1, (int)i);
		ref_duplicates(n, run, (int)i, (int)i, p.dup, max_point);
		size_t mid = run.size() / 2;
		if (mid > 0) ref_duplicates(n, run, run[mid], run.back(), p.dup, max_point);
		for (size_t k = 0; k < run.size(); ++k) n[run[k]].state = k == mid ? 1 : 2;
	}
}

inline std::vector<Sig> ref_sigs(RefTree& t, const Params& p, int polarity) {
	ref_select(t, p);
	std::vector<Sig> r;
	for (size_t i = 0; i < t.n.size(); ++i) if (t.n[i].state == 1) { Sig s = { polarity ? 255 - t.n[i].gray : t.n[i].gray, t.n[i].size, t.n[i].sig }; r.push_back(s); }
	std::sort(r.begin(), r.end());
	return r;
}

inline Regions ref_regions(const Image& im, const Params& p, int polarity, const Mask& mask = Mask()) {
	RefTree t = ref_tree(im, p.conn, polarity, mask);
	ref_select(t, p);
	Regions out;
	for (size_t i = 0; i < t.n.size(); ++i) {
		if (t.n[i].state != 1) continue;
		Region r;
		r.gray = polarity ? 255 - t.n[i].gray : t.n[i].gray;
		r.size = t.n[i].size;
		r.px = t.n[i].px;
		out.push_back(r);
	}
	std::sort(out.begin(), out.end());
	return out;
}

inline void extract(img_mser_base* m, const Params& p, const Image& im, img_multi_msers& res) {
	set_params(m, p);
	mt_mat src = mat_of(im);
	m->extract(res, src);
}
