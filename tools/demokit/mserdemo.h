#pragma once
#include "basiclog.h"
#include "basicsys.h"
using namespace basiclog; using namespace basicsys;
#include "basicmath.h"
using namespace basicmath;
#include "basicimg.h"
#include <set>
#include <stdio.h>
#include <stdlib.h>
#include <float.h>
using namespace basiclog; using namespace basicsys; using namespace basicmath; using namespace basicimg;
typedef std::pair<int, std::vector<int> > Reg;
typedef std::multiset<Reg> Regs;
inline Regs got(const img_multi_msers& m, int q, int w) {
	Regs r;
	for (size_t i = 0; i < m.m_msers[q].size(); ++i) {
		const img_mser& a = m.m_msers[q][i];
		std::vector<int> p;
		for (int k = 0; k < (int)a.m_size; ++k) p.push_back(a.m_points[k].m_y * w + a.m_points[k].m_x);
		std::sort(p.begin(), p.end());
		r.insert(Reg(a.m_gray_level, p));
	}
	return r;
}
// every extremal region except the whole image
inline Regs all_er(const std::vector<int>& px, int w, int h, int q, bool eight) {
	Regs r;
	for (int t = 0; t < 256; ++t) {
		std::vector<char> seen(w * h, 0);
		for (int s = 0; s < w * h; ++s) {
			#define V(i) (q ? 255 - px[i] : px[i])
			if (seen[s] || V(s) > t) continue;
			std::vector<int> st(1, s), p; seen[s] = 1; bool at = false;
			while (!st.empty()) {
				int i = st.back(); st.pop_back(); p.push_back(i); if (V(i) == t) at = true;
				for (int dy = -1; dy <= 1; ++dy) for (int dx = -1; dx <= 1; ++dx) {
					if (!eight && dx && dy) continue;
					int x = i % w + dx, y = i / w + dy;
					if (x < 0 || y < 0 || x >= w || y >= h || seen[y * w + x] || V(y * w + x) > t) continue;
					seen[y * w + x] = 1; st.push_back(y * w + x);
				}
			}
			if (!at || (int)p.size() == w * h) continue;
			std::sort(p.begin(), p.end());
			r.insert(Reg(q ? 255 - t : t, p));
		}
	}
	return r;
}
inline mt_mat mat(const std::vector<int>& px, int w, int h) {
	mt_mat m(h, w, mt_U8C1);
	for (int i = 0; i < w * h; ++i) *m.ptr<u8>(i / w, i % w) = (u8)px[i];
	return m;
}
inline void setup(img_mser_base& e, bool eight, int threads, int delta = 0, float stable = FLT_MAX, float nms = -1, float dup = -1) {
	e.set_stable_delta(delta); e.set_duplicated_variation(dup); e.set_stable_max_variation(stable); e.set_nms_similarity(nms);
	e.set_min_max_point(1, 1.0f); e.enable_extraction(true, true); e.set_parallel_thread_number(threads);
	e.set_connected_type(eight ? img_Connected_Type_8_Neibour : img_Connected_Type_4_Neibour);
}
