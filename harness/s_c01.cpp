// C01: connected components: every pixel that counts in exactly one component, neighbours together, copies of their own, pictures exact
#include "mat_common.h"

struct Pic { int w, h; vector<int> px; string str() const { string s = num(w) + "x" + num(h) + "["; for (int p : px) s += num(p); return s + "]"; } };
typedef std::set<std::pair<int, int> > Pts;
// the components of the pixels that count, as sets of points
static std::set<Pts> parts(const Pic& im, const vector<char>& in, bool eight) {
	std::set<Pts> r;
	vector<char> seen(im.px.size(), 0);
	for (int s = 0; s < im.w * im.h; ++s) if (in[s] && !seen[s]) {
		Pts p; vector<int> todo(1, s); seen[s] = 1;
		while (!todo.empty()) {
			int k = todo.back(); todo.pop_back();
			int x = k % im.w, y = k / im.w;
			p.insert(std::make_pair(y, x));
			for (int dy = -1; dy <= 1; ++dy) for (int dx = -1; dx <= 1; ++dx) {
				if (!eight && dx && dy) continue;
				int a = x + dx, b = y + dy;
				if (a < 0 || b < 0 || a >= im.w || b >= im.h) continue;
				int n = b * im.w + a;
				if (in[n] && !seen[n]) { seen[n] = 1; todo.push_back(n); }
			}
		}
		r.insert(p);
	}
	return r;
}
static Pts points_of(Ctx& c, const img_connected_component& cc, const string& what) {
	Pts p;
	for (int i = 0; i < cc.m_size; ++i) if (!p.insert(std::make_pair(cc.m_points[i].m_y, cc.m_points[i].m_x)).second) c.fail("components", what + ": a point twice");
	if (p.empty()) c.fail("components", what + ": an empty component");
	int x0 = 1 << 30, x1 = -1, y0 = 1 << 30, y1 = -1;
	for (auto& q : p) { y0 = std::min(y0, q.first); y1 = std::max(y1, q.first); x0 = std::min(x0, q.second); x1 = std::max(x1, q.second); }
	if (cc.m_rect.m_left != x0 || cc.m_rect.m_top != y0 || cc.m_rect.m_width != x1 - x0 + 1 || cc.m_rect.m_height != y1 - y0 + 1) c.fail("box", what + ": " + num(cc.m_rect.m_left) + " " + num(cc.m_rect.m_top) + " " + num(cc.m_rect.m_width) + " " + num(cc.m_rect.m_height));
	return p;
}
static void compare(Ctx& c, const img_multi_connected_components& got, const std::set<Pts>& want, const string& what) {
	std::set<Pts> g;
	for (auto& cc : got.m_ccs) if (!g.insert(points_of(c, cc, what)).second) c.fail("components", what + ": a component twice");
	if (g != want) c.fail("components", what + ": " + num(g.size()) + " instead of " + num(want.size()));
	c.transitions++;
}
template<class T> static void put(mt_mat& m, const Pic& im, int C) {
	for (int y = 0; y < im.h; ++y) for (int x = 0; x < im.w; ++x) for (int k = 0; k < C; ++k) {
		int v = im.px[y * im.w + x];
		m.at<T>(y, x, k) = (T)(v == 0 ? 7 : v == 1 ? (k == C - 1 ? 8 : 7) : (k == 0 ? 9 : 7));
	}
}
static const int LAYOUTS[] = { 0, 1, 2, 3, 4, 5, 6 };
static mt_mat image_of(const Pic& im, int C, int kind, mt_mat* whole = NULL) {
	mt_mat m = make_view(Ints{ im.h, im.w }, mt_U8, C, kind, whole);
	put<u8>(m, im, C);
	return m;
}
static bool draw(Ctx& c, Pic& im, int levels) {
	im.px.resize(im.w * im.h);
	for (size_t i = 0; i < im.px.size(); ++i) im.px[i] = c.choose(levels);
	return c.shard();
}
static const int SHAPES[][3] = { { 1, 1, 3 }, { 2, 1, 3 }, { 1, 2, 3 }, { 5, 1, 3 }, { 1, 5, 3 }, { 2, 2, 3 }, { 3, 2, 3 }, { 2, 3, 3 }, { 3, 3, 2 }, { 4, 3, 2 }, { 3, 4, 2 }, { 7, 2, 2 }, { 4, 4, 2 }, { 5, 3, 2 } };
static void small(Ctx& c) {
	int s = c.choose(c.thorough ? 14 : 11);
	Pic im; im.w = SHAPES[s][0]; im.h = SHAPES[s][1];
	if (!draw(c, im, SHAPES[s][2])) return;
	static const int CH[] = { 1, 3, 4 };
	img_multi_connected_components again;
	for (int C : CH) for (int e = 0; e < 2; ++e) for (int back = 0; back < 3; ++back) {
		vector<char> in(im.px.size());
		for (size_t i = 0; i < in.size(); ++i) in[i] = im.px[i] != back;
		if (C == 1 && back) { for (size_t i = 0; i < in.size(); ++i) in[i] = im.px[i] != back; }
		std::set<Pts> want = parts(im, in, e);
		int kinds = back == 0 ? 7 : 2;
		for (int l = 0; l < kinds; ++l) {
			mt_mat whole, m = image_of(im, C, LAYOUTS[l], &whole);
			string what = im.str() + " channels " + num(C) + " layout " + num(l) + " background " + num(back) + (e ? " eight" : " four");
			mt_scalar color(7, 7, 7, 7);
			if (back == 1) color.value[C - 1] = 8;
			if (back == 2) color.value[0] = 9;
			if (C == 1 && back == 2) color.value[0] = 9;
			img_multi_connected_components fresh;
			img_connected_component_helper::connect_component(fresh, m, color, e ? img_Connected_Type_8_Neibour : img_Connected_Type_4_Neibour);
			compare(c, fresh, want, what);
			img_connected_component_helper::connect_component(again, m, color, e ? img_Connected_Type_8_Neibour : img_Connected_Type_4_Neibour);
			compare(c, again, want, what + " again");
			for (int y = 0; y < im.h; ++y) for (int x = 0; x < im.w; ++x) for (int k = 0; k < C; ++k) {
				int v = im.px[y * im.w + x];
				if (m.at<u8>(y, x, k) != (v == 0 ? 7 : v == 1 ? (k == C - 1 ? 8 : 7) : (k == 0 ? 9 : 7))) c.fail("changed", what + ": the image changed");
			}
		}
		c.outcome(mix(want.size(), hash_bytes(in.data(), in.size())));
	}
	c.nontrivial++;
	if (c.want_sample()) c.sample(im.str());
}
// pixels of other types, and all kinds of masks
template<class T> static void typed(Ctx& c, const Pic& im, const vector<char>& mask, int kind, int layout, bool e) {
	img_Connected_Type ct = e ? img_Connected_Type_8_Neibour : img_Connected_Type_4_Neibour;
	mt_mat m = make_view(Ints{ im.h, im.w }, Depth_Of<T>::d, 1, LAYOUTS[layout]);
	put<T>(m, im, 1);
	string what = im.str() + " type " + num(Depth_Of<T>::d) + " mask " + num(kind) + " layout " + num(layout) + (e ? " eight" : " four");
	ml_connected_component_base<T> base;
	img_multi_connected_components ccs;
	vector<char> in(im.px.size(), 1);
	if (kind == 0) {
		base.ture_normal_extract(ccs, m, img_mask_info<T>(), ct);
		compare(c, ccs, parts(im, in, e), what);
		for (int s = 0; s < im.w * im.h; ++s) {
			img_connected_component cc;
			base.ture_single_extract(cc, mt_point(s % im.w, s / im.w), m, img_mask_info<T>(), ct);
			if (points_of(c, cc, what + " single") != *parts(im, in, e).begin()) c.fail("single", what);
		}
	} else if (kind == 1) {
		mt_mat k = make_view(Ints{ im.h, im.w }, mt_U8, 1, LAYOUTS[(layout * 3 + 1) % 7]);
		string bits = " ";
		for (int i = 0; i < im.w * im.h; ++i) { k.at<u8>(i / im.w, i % im.w, 0) = in[i] = mask[i]; bits += num(mask[i]); }
		img_mask_info<T> info(k);
		base.ture_normal_extract(ccs, m, info, ct);
		compare(c, ccs, parts(im, in, e), what + bits);
		for (int s = 0; s < im.w * im.h; ++s) {
			img_connected_component cc;
			cc.init(3);
			base.ture_single_extract(cc, mt_point(s % im.w, s / im.w), m, info, ct);
			if (!in[s]) { if (cc.m_size != 0) c.fail("single", what + bits + ": a component of a pixel left out"); continue; }
			Pts p = points_of(c, cc, what + bits + " single"), w;
			for (auto& q : parts(im, in, e)) if (q.count(std::make_pair(s / im.w, s % im.w))) w = q;
			if (p != w) c.fail("single", what + bits + " from " + num(s));
		}
	} else if (kind == 2) {
		for (int x = 0; x < im.w; ++x) for (int y = 0; y < im.h; ++y) for (int rw = 1; x + rw <= im.w; ++rw) for (int rh = 1; y + rh <= im.h; ++rh) {
			for (int i = 0; i < im.w * im.h; ++i) in[i] = i % im.w >= x && i % im.w < x + rw && i / im.w >= y && i / im.w < y + rh;
			img_mask_info<T> info(mt_rect(x, y, rw, rh));
			string at = " " + num(x) + " " + num(y) + " " + num(rw) + " " + num(rh);
			base.ture_normal_extract(ccs, m, info, ct);
			compare(c, ccs, parts(im, in, e), what + at);
			for (int s = 0; s < im.w * im.h; ++s) {
				img_connected_component cc;
				base.ture_single_extract(cc, mt_point(s % im.w, s / im.w), m, info, ct);
				if (!in[s]) { if (cc.m_size != 0) c.fail("single", what + at + ": a component of a pixel left out"); continue; }
				if (points_of(c, cc, what + at + " single") != *parts(im, in, e).begin()) c.fail("single", what + at);
			}
		}
	} else {
		for (int v = 0; v < 3; ++v) {
			for (int i = 0; i < im.w * im.h; ++i) in[i] = im.px[i] != v;
			img_mask_info<T> info((T)(v == 0 ? 7 : v == 1 ? 8 : 9));
			base.ture_normal_extract(ccs, m, info, ct);
			std::set<Pts> all = parts(im, in, e);
			compare(c, ccs, all, what + " value " + num(v));
			for (int s = 0; s < im.w * im.h; ++s) {
				img_connected_component cc;
				base.ture_single_extract(cc, mt_point(s % im.w, s / im.w), m, info, ct);
				if (!in[s]) { if (cc.m_size != 0) c.fail("single", what + ": a component of a pixel left out"); continue; }
				Pts p = points_of(c, cc, what + " single"), w;
				for (auto& q : all) if (q.count(std::make_pair(s / im.w, s % im.w))) w = q;
				if (p != w) c.fail("single", what + " from " + num(s));
			}
		}
	}
}
static void masks(Ctx& c) {
	static const int SH[][2] = { { 1, 1 }, { 2, 2 }, { 4, 1 }, { 1, 4 }, { 3, 2 }, { 2, 3 }, { 3, 3 }, { 4, 2 }, { 4, 3 } };
	int s = c.choose(c.thorough ? 9 : 8), kind = c.choose(4), type = c.choose(4), layout = c.choose(7), e = c.choose(2);
	Pic im; im.w = SH[s][0]; im.h = SH[s][1]; im.px.assign(im.w * im.h, 0);
	vector<char> mask(im.px.size(), 1);
	if (kind == 1) for (size_t i = 0; i < im.px.size(); ++i) mask[i] = c.choose(2);
	if (kind == 3) for (size_t i = 0; i < im.px.size(); ++i) im.px[i] = c.choose(2) ? 1 + (int)(i % 2) : 0;
	if (!c.shard()) return;
	switch (type) {
	case 0: typed<u8>(c, im, mask, kind, layout, e); break;
	case 1: typed<i32>(c, im, mask, kind, layout, e); break;
	case 2: typed<f32>(c, im, mask, kind, layout, e); break;
	default: typed<f64>(c, im, mask, kind, layout, e);
	}
	c.nontrivial++;
	c.outcome(mix(s * 4 + kind, type * 16 + layout * 2 + e));
	if (c.want_sample()) c.sample(im.str());
}
static void large(Ctx& c) {
	int kind = c.choose(5), n = c.choose(4), e = c.choose(2);
	if (!c.shard()) return;
	static const int N[] = { 30, 63, 71, 101 };
	Pic im; im.w = N[n]; im.h = N[(n + 1) % 4]; im.px.assign(im.w * im.h, 0);
	for (int y = 0; y < im.h; ++y) for (int x = 0; x < im.w; ++x) {
		int& p = im.px[y * im.w + x];
		switch (kind) {
		case 0: p = (x + y) & 1; break;                                   // thousands of components
		case 1: p = 1; break;
		case 2: p = y % 2 == 0 || (x == (y / 2 % 2 ? 0 : im.w - 1)); break;     // one line through everything
		case 3: p = x % 4 == 1 && y % 3 != 0; break;
		default: p = (x * 7 + y * 5 + x * y) % 11 < 5;
		}
	}
	vector<char> in(im.px.begin(), im.px.end());
	std::set<Pts> want = parts(im, in, e);
	img_multi_connected_components ccs;
	img_connected_component_helper::connect_component(ccs, image_of(im, 1, kind % 2 ? 4 : 0), mt_scalar(7), e ? img_Connected_Type_8_Neibour : img_Connected_Type_4_Neibour);
	compare(c, ccs, want, "large " + num(kind) + " " + num(im.w) + "x" + num(im.h));
	c.nontrivial++;
	c.outcome(want.size());
}
// ---- copies
static Pts plain(const img_connected_component& cc) { Pts p; for (int i = 0; i < cc.m_size; ++i) p.insert(std::make_pair(cc.m_points[i].m_y, cc.m_points[i].m_x)); return p; }
static void copies(Ctx& c) {
	int n = c.thorough ? 5 : 4;
	vector<int> op(n);
	for (int& o : op) o = c.choose(9);
	if (!c.shard()) return;
	Pic im; im.w = 5; im.h = 3; im.px = { 1, 1, 0, 1, 0, 0, 1, 0, 0, 0, 1, 0, 0, 1, 1 };
	Pic im2; im2.w = 3; im2.h = 4; im2.px = { 0, 1, 0, 1, 1, 1, 0, 0, 0, 1, 0, 1 };
	vector<char> in(im.px.begin(), im.px.end()), in2(im2.px.begin(), im2.px.end());
	std::set<Pts> all[3] = { std::set<Pts>(), parts(im, in, false), parts(im2, in2, false) };
	std::unique_ptr<img_multi_connected_components> a(new img_multi_connected_components), b(new img_multi_connected_components);
	vector<img_connected_component> list; vector<Pts> wants;
	int ha = 0, hb = 0;
	string what;
	ml_connected_component_base<u8> base;
	for (int o : op) {
		what += " " + num(o);
		switch (o) {
		case 0: img_connected_component_helper::connect_component(*a, image_of(im, 1, 0), mt_scalar(7), img_Connected_Type_4_Neibour); ha = 1; break;
		case 1: img_connected_component_helper::connect_component(*b, image_of(im2, 1, 0), mt_scalar(7), img_Connected_Type_4_Neibour); hb = 2; break;
		case 2: *a = *b; ha = hb; break;
		case 3: b.reset(new img_multi_connected_components(*a)); hb = ha; break;
		case 4: *b = *b; { img_connected_component& s = list.empty() ? (list.push_back(img_connected_component()), wants.push_back(Pts()), list[0]) : list[0]; s = s; } break;
		case 5: { img_connected_component cc; base.ture_single_extract(cc, mt_point(1, 0), image_of(im, 1, 0), img_mask_info<u8>((u8)7), img_Connected_Type_4_Neibour); list.push_back(cc); Pts p; for (auto& q : all[1]) if (q.count(std::make_pair(0, 1))) p = q; wants.push_back(p); break; }
		case 6: if (!list.empty()) { list.insert(list.begin(), list.back()); wants.insert(wants.begin(), wants.back()); list.back() = list[0]; } break;
		case 7: if (!list.empty()) { list[0].release(); list[0].init(2); list[0].m_points[0] = mt_point(3, 4); list[0].m_points[1] = mt_point(5, 6); list[0].m_rect = mt_rect(3, 4, 3, 3); wants[0] = Pts(); wants[0].insert(std::make_pair(4, 3)); wants[0].insert(std::make_pair(6, 5)); } break;
		default: a.reset(new img_multi_connected_components); ha = 0;
		}
		c.transitions++;
		compare(c, *a, all[ha], what + " first");
		compare(c, *b, all[hb], what + " second");
		for (size_t i = 0; i < list.size(); ++i) { if (plain(list[i]) != wants[i]) c.fail("copies", what + ": component " + num(i)); if (list[i].m_size) points_of(c, list[i], what); }
	}
	c.nontrivial++;
	c.outcome(mix(ha * 4 + hb, list.size()));
	if (c.want_sample()) c.sample(what);
}
// ---- pictures
static void pictures(Ctx& c) {
	int s = c.choose(6);
	static const int SH[][2] = { { 1, 1 }, { 3, 1 }, { 1, 3 }, { 2, 2 }, { 4, 2 }, { 3, 3 } };
	Pic im; im.w = SH[s][0]; im.h = SH[s][1];
	if (!draw(c, im, 2)) return;
	vector<char> in(im.px.begin(), im.px.end());
	img_multi_connected_components ccs;
	img_connected_component_helper::connect_component(ccs, image_of(im, 1, 0), mt_scalar(7), img_Connected_Type_8_Neibour);
	mt_scalar fore(1, 2, 3, 4), back(10, 20, 30, 40);
	vector<img_connected_component*> ptr;
	for (auto& x : ccs.m_ccs) ptr.push_back(&x);
	for (int gray = 0; gray < 2; ++gray) for (int form = 0; form < 2; ++form) for (int top = -1; top < 2; ++top) for (int left = -1; left < 2; ++left) {
		mt_rect roi(left, top, im.w + 1, im.h + 1);
		mt_mat m = form ? img_connected_component_helper::image_from_connected_component(ptr, roi, fore, back, gray) : img_connected_component_helper::image_from_connected_component(ccs.m_ccs, roi, fore, back, gray);
		string what = im.str() + (gray ? " gray" : " colour") + " form " + num(form) + " at " + num(left) + " " + num(top);
		if (m.dim() != 2 || m.size()[0] != im.h + 1 || m.size()[1] != im.w + 1 || m.depth() != mt_U8 || m.channel() != (gray ? 1 : 3)) c.fail("picture", what + ": shape");
		for (int y = 0; y <= im.h; ++y) for (int x = 0; x <= im.w; ++x) for (int k = 0; k < m.channel(); ++k) {
			int a = x + left, b = y + top;
			bool f = a >= 0 && b >= 0 && a < im.w && b < im.h && im.px[b * im.w + a];
			if (m.at<u8>(y, x, k) != (f ? k + 1 : (k + 1) * 10)) c.fail("picture", what + ": pixel " + num(x) + " " + num(y));
		}
		c.transitions++;
	}
	for (auto& cc : ccs.m_ccs) for (int gray = 0; gray < 2; ++gray) {
		int W = cc.m_rect.m_width, H = cc.m_rect.m_height, ew = H > W ? (H - W) / 2 : 0, eh = W > H ? (W - H) / 2 : 0;
		mt_mat m = img_connected_component_helper::image_from_connected_component(cc, mt_size(W + 2 * ew, H + 2 * eh), fore, back, gray);
		string what = im.str() + " one component";
		if (m.size()[0] != H + 2 * eh || m.size()[1] != W + 2 * ew || m.channel() != (gray ? 1 : 3)) c.fail("picture", what + ": shape");
		Pts p = plain(cc);
		for (int y = 0; y < m.size()[0]; ++y) for (int x = 0; x < m.size()[1]; ++x) for (int k = 0; k < m.channel(); ++k) {
			bool f = p.count(std::make_pair(y - eh + cc.m_rect.m_top, x - ew + cc.m_rect.m_left));
			if (m.at<u8>(y, x, k) != (f ? k + 1 : (k + 1) * 10)) c.fail("picture", what + ": pixel " + num(x) + " " + num(y));
		}
		c.transitions++;
	}
	c.nontrivial++;
	c.outcome(ccs.m_ccs.size());
}
int main(int argc, char** argv) {
	Suite s;
	s.groups = { { "small", small }, { "masks", masks }, { "large", large }, { "copies", copies }, { "pictures", pictures } };
	s.init = []() { log_logger::release(); };
	s.leaks = true;
	return run(s, argc, argv);
}
