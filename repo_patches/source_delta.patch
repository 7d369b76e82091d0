From 243c65965e660ac4a00588770510bf6d5bcd54f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:35 +0000
Subject: [PATCH 001/183] fix: fast mser v1 dropped the last top regions when
 regions were divided among the workers

---
 basicimg/src/img_fast_mser_v1.cpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/basicimg/src/img_fast_mser_v1.cpp b/basicimg/src/img_fast_mser_v1.cpp
index 03dda39..f4eb7bf 100644
--- a/basicimg/src/img_fast_mser_v1.cpp
+++ b/basicimg/src/img_fast_mser_v1.cpp
@@ -3091,13 +3091,8 @@ void img_fast_mser_v1::extract_pixel_parallel_k_fast(img_multi_msers& msers, u8
 		cur_size += cur_region->m_size;
 		parallel_stop_indexes[index] = i;
 
-		if (cur_size > parallel_size) {
+		if (cur_size > parallel_size && index + 1 < m_parallel_thread_number) {
 			++index;
-
-			if (index == m_parallel_thread_number) {
-				break;
-			}
-
 			memory_offsets[index] = cur_size;			
 			parallel_size += quarter_size;
 		}
-- 
2.43.0


From 9688cd150ab277c37551dadd82a9334a682de7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:02 +0000
Subject: [PATCH 002/183] fix: component stack had no room for the sentinel
 below 256 nested grey levels

---
 basicimg/include/img_fast_mser_v1.h | 2 +-
 basicimg/include/img_fast_mser_v2.h | 2 +-
 basicimg/include/img_ms_mser.h      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/basicimg/include/img_fast_mser_v1.h b/basicimg/include/img_fast_mser_v1.h
index 213498e..e4f012f 100644
--- a/basicimg/include/img_fast_mser_v1.h
+++ b/basicimg/include/img_fast_mser_v1.h
@@ -107,7 +107,7 @@ namespace basicimg {
 			mt_block_memory<mser_region> m_mser_regions;
 
 			i16** m_heap;
-			connected_comp m_comp[256];
+			connected_comp m_comp[257];
 			i16** m_heap_start[257];
 
 			mser_region** m_boundary_regions[4];	//left, right, top, bottom
diff --git a/basicimg/include/img_fast_mser_v2.h b/basicimg/include/img_fast_mser_v2.h
index 1798e77..d854669 100644
--- a/basicimg/include/img_fast_mser_v2.h
+++ b/basicimg/include/img_fast_mser_v2.h
@@ -80,7 +80,7 @@ namespace basicimg {
 			i32 m_er_number;
 			mt_block_memory<mser_region> m_mser_regions;
 			u32** m_heap;
-			connected_comp m_comp[256];
+			connected_comp m_comp[257];
 			u32** m_heap_start[257];
 
 			i32 m_dir[9];
diff --git a/basicimg/include/img_ms_mser.h b/basicimg/include/img_ms_mser.h
index 93ed626..86c7526 100644
--- a/basicimg/include/img_ms_mser.h
+++ b/basicimg/include/img_ms_mser.h
@@ -100,7 +100,7 @@ namespace basicimg {
 		u32 m_heap_size;
 		u32** m_heap_start[257];
 
-		connected_comp m_comp[256];
+		connected_comp m_comp[257];
 
 		mser_region** m_gray_order_regions;
 		u32 m_gray_order_regions_memory_size;
-- 
2.43.0


From 7ff817df4ac90c49c03a7b9f7cdfe8a80dcfc894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:02 +0000
Subject: [PATCH 003/183] fix: fast mser v1 with one thread stored indexes
 instead of points and no rectangle

---
 basicimg/src/img_fast_mser_v1.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/basicimg/src/img_fast_mser_v1.cpp b/basicimg/src/img_fast_mser_v1.cpp
index f4eb7bf..e05a864 100644
--- a/basicimg/src/img_fast_mser_v1.cpp
+++ b/basicimg/src/img_fast_mser_v1.cpp
@@ -2969,12 +2969,10 @@ void img_fast_mser_v1::extract_pixel_parallel_1_fast(img_multi_msers& msers, u8
 		cur_region = m_gray_order_regions[i];
 
 		cur_mser.m_size = cur_region->m_size;
+		cur_mser.m_rect.set_rect(cur_region->m_left, cur_region->m_top, i32(cur_region->m_right - cur_region->m_left + 1), i32(cur_region->m_bottom - cur_region->m_top + 1));
 		cur_mser.m_gray_level = cur_region->m_gray_level ^ gray_mask;
 		cur_mser.m_memory_type = img_mser::Memory_Type_Range;
-		
-		i32* pt_range = (i32*)&cur_mser.m_points;
-		pt_range[0] = m_linked_points[cur_region->m_head].m_ref;
-		pt_range[1] = m_linked_points[cur_region->m_tail].m_ref;
+		cur_mser.m_points = memory + m_linked_points[cur_region->m_head].m_ref;
 	}
 }
 
-- 
2.43.0


From 2dd2d35814d1913845f5e3b4bf47af6fc2289bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:02 +0000
Subject: [PATCH 004/183] fix: fast mser v1 wrote top regions past the heap
 when more than one did not fit

---
 basicimg/src/img_fast_mser_v1.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicimg/src/img_fast_mser_v1.cpp b/basicimg/src/img_fast_mser_v1.cpp
index e05a864..f27fd59 100644
--- a/basicimg/src/img_fast_mser_v1.cpp
+++ b/basicimg/src/img_fast_mser_v1.cpp
@@ -2890,7 +2890,7 @@ void img_fast_mser_v1::extract_pixel_parallel_1_fast(img_multi_msers& msers, u8
 		}
 
 		if (real_region == NULL) {
-			if (top_index == top_region_size) {
+			if (top_index >= top_region_size) {
 				if (top_backup.capacity() == 0) {
 					top_backup.reserve(100);
 				}
@@ -3008,7 +3008,7 @@ void img_fast_mser_v1::extract_pixel_parallel_k_fast(img_multi_msers& msers, u8
 		cur_region->m_parent = real_region;
 
 		if (real_region == NULL) {
-			if (top_index == top_region_size) {
+			if (top_index >= top_region_size) {
 				if (top_backup.capacity() == 0) {
 					top_backup.reserve(100);
 				}
-- 
2.43.0


From e409b1e22e119dfa5dd9c15d62ee8a10195c47c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:03 +0000
Subject: [PATCH 005/183] fix: copying mser results left them pointing into the
 source and mixed malloc with delete

---
 basicimg/src/img_mser_base.cpp | 41 +++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/basicimg/src/img_mser_base.cpp b/basicimg/src/img_mser_base.cpp
index f9441d2..cec742e 100644
--- a/basicimg/src/img_mser_base.cpp
+++ b/basicimg/src/img_mser_base.cpp
@@ -19,19 +19,26 @@ img_mser::~img_mser() {
 }
 
 img_mser::img_mser(const img_mser& other) {
+	m_memory_type = Memory_Type_Self;
 	m_points = NULL;
 	*this = other;
 }
 
 void img_mser::operator=(const img_mser& other) {
+	if (this == &other) {
+		return;
+	}
+
+	if (m_memory_type == Memory_Type_Self) {
+		basicsys_delete_array(m_points);
+	}
+
 	m_gray_level = other.m_gray_level;
 	m_memory_type = other.m_memory_type;
 	m_size = other.m_size;
 	m_rect = other.m_rect;
 
 	if (m_memory_type == Memory_Type_Self) {
-		basicsys_delete_array(m_points);
-
 		if (m_size > 0) {
 			m_points = new mt_point[m_size];
 			memcpy(m_points, other.m_points, sizeof(mt_point) * m_size);
@@ -51,23 +58,27 @@ img_multi_msers::img_multi_msers(const img_multi_msers& other) {
 }
 
 void img_multi_msers::operator=(const img_multi_msers& other) {
-	m_msers[0] = other.m_msers[0];
-	m_msers[1] = other.m_msers[1];
+	if (this == &other) {
+		return;
+	}
 
-	m_memory_size[0] = other.m_memory_size[0];
-	m_memory_size[1] = other.m_memory_size[1];
+	for (i32 i = 0; i < 2; ++i) {
+		m_msers[i] = other.m_msers[i];
+		m_memory_size[i] = other.m_memory_size[i];
 
-	basicsys_delete_array(m_memory[0]);
-	basicsys_delete_array(m_memory[1]);
+		basicsys_free(m_memory[i]);
 
-	if (m_memory_size[0] > 0) {
-		m_memory[0] = new mt_point[m_memory_size[0]];
-		memcpy(m_memory[0], other.m_memory[0], sizeof(mt_point) * m_memory_size[0]);
-	}
+		if (m_memory_size[i] > 0) {
+			m_memory[i] = (mt_point*)malloc(sizeof(mt_point) * m_memory_size[i]);
+			memcpy(m_memory[i], other.m_memory[i], sizeof(mt_point) * m_memory_size[i]);
 
-	if (m_memory_size[1] > 0) {
-		m_memory[1] = new mt_point[m_memory_size[1]];
-		memcpy(m_memory[1], other.m_memory[1], sizeof(mt_point) * m_memory_size[1]);
+			// the copied msers have to refer to the memory of this result
+			for (i32 j = 0; j < (i32)m_msers[i].size(); ++j) {
+				if (m_msers[i][j].m_memory_type != img_mser::Memory_Type_Self) {
+					m_msers[i][j].m_points = m_memory[i] + (other.m_msers[i][j].m_points - other.m_memory[i]);
+				}
+			}
+		}
 	}
 }
 
-- 
2.43.0


From addd6079c4b1ff6b0309eba86a32e68b6aa4c196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:03 +0000
Subject: [PATCH 006/183] fix: fast mser v1 leaked its border order and merge
 buffers

---
 basicimg/src/img_fast_mser_v1.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/basicimg/src/img_fast_mser_v1.cpp b/basicimg/src/img_fast_mser_v1.cpp
index f27fd59..639148e 100644
--- a/basicimg/src/img_fast_mser_v1.cpp
+++ b/basicimg/src/img_fast_mser_v1.cpp
@@ -57,6 +57,11 @@ img_fast_mser_v1::~img_fast_mser_v1() {
 	basicsys_free(m_linked_points);
 	basicsys_free(m_masked_image);
 	basicsys_free(m_boundary_regions);
+	basicsys_free(m_merged_points);
+
+	for (i32 i = 0; i < (i32)m_orderd_indexes.size(); ++i) {
+		basicsys_free(m_orderd_indexes[i]);
+	}
 }
 
 void img_fast_mser_v1::clear_memory_cache() {
@@ -66,6 +71,12 @@ void img_fast_mser_v1::clear_memory_cache() {
 	basicsys_free(m_boundary_regions);
 	basicsys_free(m_merged_points);
 
+	for (i32 i = 0; i < (i32)m_orderd_indexes.size(); ++i) {
+		basicsys_free(m_orderd_indexes[i]);
+	}
+
+	m_orderd_indexes.clear();
+
 	m_heap_size = 0;
 	m_masked_image_size = 0;
 	m_linked_point_size = 0;
@@ -87,6 +98,12 @@ void img_fast_mser_v1::allocate_memory(const mt_mat& img, const img_mask_info<u8
 		m_heap_size = h_size;
 		m_heap = (i16**)malloc(sizeof(i16*) * m_heap_size);
 	}
+
+	for (i32 i = 0; i < (i32)m_orderd_indexes.size(); ++i) {
+		basicsys_free(m_orderd_indexes[i]);
+	}
+
+	m_orderd_indexes.clear();
 	
 	if (m_parallel_thread_number == 1) {
 		allocate_memory_parallel_1(img, mask);
-- 
2.43.0


From 4c11032650a0c80aad73ded88dd30ff4cdba5edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:03 +0000
Subject: [PATCH 007/183] fix: fast mser v2 reported inverted grey levels for
 bright regions

---
 basicimg/src/img_fast_mser_v2.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/basicimg/src/img_fast_mser_v2.cpp b/basicimg/src/img_fast_mser_v2.cpp
index f25c1c6..ab9707e 100644
--- a/basicimg/src/img_fast_mser_v2.cpp
+++ b/basicimg/src/img_fast_mser_v2.cpp
@@ -1876,7 +1876,6 @@ void img_fast_mser_v2::extract_pixel_parallel_4_acceleration(img_multi_msers& ms
 			mser_block_info_pointer[3]->block_self_pixel_size = cur_mser.m_points[3].m_x;
 		}
 
-		cur_mser.m_gray_level = cur_region->m_gray_level;
 		cur_region->m_mser_index = i;
 
 		mser_block_info_pointer[0]->left = -1;
-- 
2.43.0


From 2c51367ec65285d86814f2f472b02b112f38ed91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:03 +0000
Subject: [PATCH 008/183] fix: fast mser v2 collected points of four partitions
 only, whatever the thread number

---
 basicimg/src/img_fast_mser_v2.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/basicimg/src/img_fast_mser_v2.cpp b/basicimg/src/img_fast_mser_v2.cpp
index ab9707e..957c4d3 100644
--- a/basicimg/src/img_fast_mser_v2.cpp
+++ b/basicimg/src/img_fast_mser_v2.cpp
@@ -1645,8 +1645,13 @@ void img_fast_mser_v2::extract_pixel_parallel_4_acceleration(img_multi_msers& ms
 	i32 one_block_mser_info_size = m_gray_order_region_size * 3 + 1;
 	i32 total_block_mser_info_size = one_block_mser_info_size * 4;
 
-	u32 partition_start_indexes[4] = {0, 1, 2, 3};
-	u32 partition_stop_indexes[4] = {1, 2, 3, 4};
+	u32 partition_start_indexes[4];
+	u32 partition_stop_indexes[4];
+
+	for (u32 i = 0; i < 4; ++i) {
+		partition_start_indexes[i] = i * (u32)m_pinfo.size() / 4;
+		partition_stop_indexes[i] = (i + 1) * (u32)m_pinfo.size() / 4;
+	}
 
 	i32** region_heap = (i32**)malloc(sizeof(i32*) * (i32)m_pinfo.size());
 	i32 total_region_size = 0;
-- 
2.43.0


From bb9571f20e7c18fcbfc40a53cb97de895d0642d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:03 +0000
Subject: [PATCH 009/183] fix: fast mser v2 rectangle missed the right or lower
 part of a region in several partitions

---
 basicimg/src/img_fast_mser_v2.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/basicimg/src/img_fast_mser_v2.cpp b/basicimg/src/img_fast_mser_v2.cpp
index 957c4d3..221a356 100644
--- a/basicimg/src/img_fast_mser_v2.cpp
+++ b/basicimg/src/img_fast_mser_v2.cpp
@@ -1990,13 +1990,17 @@ void img_fast_mser_v2::extract_pixel_parallel_4_acceleration(img_multi_msers& ms
 			} else {
 				if (mser_block_info_pointer[k]->left < left) {
 					left = mser_block_info_pointer[k]->left;
-				} else if (mser_block_info_pointer[k]->right > right) {
+				}
+
+				if (mser_block_info_pointer[k]->right > right) {
 					right = mser_block_info_pointer[k]->right;
 				}
 
 				if (mser_block_info_pointer[k]->top < top) {
 					top = mser_block_info_pointer[k]->top;
-				} else if (mser_block_info_pointer[k]->bottom > bottom) {
+				}
+
+				if (mser_block_info_pointer[k]->bottom > bottom) {
 					bottom = mser_block_info_pointer[k]->bottom;
 				}
 			}
-- 
2.43.0


From fb76f11315f33c5aca58110049520650336c1b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:03 +0000
Subject: [PATCH 010/183] fix: fast mser v2 leaked its region index tables on
 every extraction

---
 basicimg/src/img_fast_mser_v2.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/basicimg/src/img_fast_mser_v2.cpp b/basicimg/src/img_fast_mser_v2.cpp
index 221a356..1300d25 100644
--- a/basicimg/src/img_fast_mser_v2.cpp
+++ b/basicimg/src/img_fast_mser_v2.cpp
@@ -2056,6 +2056,12 @@ void img_fast_mser_v2::extract_pixel_parallel_4_acceleration(img_multi_msers& ms
 		mser_block_info_pointer[2] += 1;
 		mser_block_info_pointer[3] += 1;
 	}
+
+	if (mser_block_indexes != (i32*)(m_heap) + total_region_size) {
+		free(mser_block_indexes);
+	}
+
+	free(region_heap);
 }
 
 void img_fast_mser_v2::calculate_variation(mser_region* region) {
-- 
2.43.0


From a54549abbe58e3b4077580203919cc7b9ef8dbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:31 +0000
Subject: [PATCH 011/183] fix: fast mser v2 and ms mser visited four neighbours
 only in 8-neighbour mode

---
 basicimg/src/img_fast_mser_v2.cpp | 2 +-
 basicimg/src/img_ms_mser.cpp      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicimg/src/img_fast_mser_v2.cpp b/basicimg/src/img_fast_mser_v2.cpp
index 1300d25..79df937 100644
--- a/basicimg/src/img_fast_mser_v2.cpp
+++ b/basicimg/src/img_fast_mser_v2.cpp
@@ -273,7 +273,7 @@ void img_fast_mser_v2::make_tree_patch(parallel_info& pinfo, const mt_mat& img,
 		nbr_index = *points >> m_dir_shift;
 
 		// take tour of all the 4 or 8 directions
-		while (nbr_index <= 4) {
+		while (nbr_index < (i32)(m_boundary_pixel >> m_dir_shift)) {
 			// get the neighbor
 			nbr_points = points + dir[nbr_index];
 
diff --git a/basicimg/src/img_ms_mser.cpp b/basicimg/src/img_ms_mser.cpp
index 9d46482..9807e6d 100644
--- a/basicimg/src/img_ms_mser.cpp
+++ b/basicimg/src/img_ms_mser.cpp
@@ -251,7 +251,7 @@ void img_ms_mser::build_tree(const mt_mat& img, const img_mask_info<u8>& mask, u
 		nbr_index = *points >> m_dir_shift;
 
 		// take tour of all the 4 or 8 directions
-		while (nbr_index <= 4) {
+		while (nbr_index < (i32)(m_boundary_pixel >> m_dir_shift)) {
 			// get the neighbor
 			nbr_points = points + m_dir[nbr_index];
 
-- 
2.43.0


From 8c89dca8b5bde66e862647b23924b523b0f22ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:02 +0000
Subject: [PATCH 012/183] fix: fast mser counters were not initialised

---
 basicimg/src/img_fast_mser_v1.cpp | 1 +
 basicimg/src/img_fast_mser_v2.cpp | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/basicimg/src/img_fast_mser_v1.cpp b/basicimg/src/img_fast_mser_v1.cpp
index 639148e..801ece9 100644
--- a/basicimg/src/img_fast_mser_v1.cpp
+++ b/basicimg/src/img_fast_mser_v1.cpp
@@ -50,6 +50,7 @@ img_fast_mser_v1::img_fast_mser_v1()
 	m_merged_point_size = 0;
 
 	m_merged_points = NULL;
+	m_merged_number = 0;
 }
 
 img_fast_mser_v1::~img_fast_mser_v1() {
diff --git a/basicimg/src/img_fast_mser_v2.cpp b/basicimg/src/img_fast_mser_v2.cpp
index 79df937..760bc2a 100644
--- a/basicimg/src/img_fast_mser_v2.cpp
+++ b/basicimg/src/img_fast_mser_v2.cpp
@@ -25,6 +25,8 @@ img_fast_mser_v2::img_fast_mser_v2()
 	m_gray_order_regions = NULL;
 	m_gray_order_region_size = 0;
 	m_gray_order_regions_memory_size = 0;
+	m_exceed_times = 0;
+	m_merged_number = 0;
 }
 
 img_fast_mser_v2::~img_fast_mser_v2() {
-- 
2.43.0


From 8328a0a64ae1106c11881e5efa680713511f4ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:02 +0000
Subject: [PATCH 013/183] fix: block size of the region pools shifted by 2000
 bits

---
 basicimg/src/img_fast_mser_v1.cpp | 2 +-
 basicimg/src/img_fast_mser_v2.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicimg/src/img_fast_mser_v1.cpp b/basicimg/src/img_fast_mser_v1.cpp
index 801ece9..41158f6 100644
--- a/basicimg/src/img_fast_mser_v1.cpp
+++ b/basicimg/src/img_fast_mser_v1.cpp
@@ -1040,7 +1040,7 @@ void img_fast_mser_v1::make_tree_patch(parallel_info& pinfo, const mt_mat& img,
 	
 	i32 erCount = 0;
 
-	pinfo.m_mser_regions.init(2000, sys_false);
+	pinfo.m_mser_regions.init(16, sys_false);
 
 	i16*** heap_cur = pinfo.m_heap_start;
 	connected_comp* comptr = pinfo.m_comp; 
diff --git a/basicimg/src/img_fast_mser_v2.cpp b/basicimg/src/img_fast_mser_v2.cpp
index 760bc2a..c0e1bec 100644
--- a/basicimg/src/img_fast_mser_v2.cpp
+++ b/basicimg/src/img_fast_mser_v2.cpp
@@ -242,7 +242,7 @@ void img_fast_mser_v2::make_tree_patch(parallel_info& pinfo, const mt_mat& img,
 	
 #define get_gray(ptr)	((m_mask_mask == 0 || (*ptr & m_mask_mask) == 0) ? (*(pinfo.m_extended_image + (ptr - pinfo.m_points)) ^ gray_mask) : 256)
 
-	pinfo.m_mser_regions.init(2000, sys_false);
+	pinfo.m_mser_regions.init(16, sys_false);
 
 	u32*** heap_cur = pinfo.m_heap_start;
 	connected_comp* comptr = pinfo.m_comp; 
-- 
2.43.0


From 1643bb7ed4753e17a44682623c4be906a965b7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:05 +0000
Subject: [PATCH 014/183] fix: fast mser partitioned images with fewer pixels
 than partitions into empty patches

---
 basicimg/include/img_fast_mser_v1.h |  2 ++
 basicimg/include/img_fast_mser_v2.h |  2 ++
 basicimg/include/img_mser_base.h    |  6 ++++++
 basicimg/src/img_fast_mser_v1.cpp   | 13 +++++++++++++
 basicimg/src/img_fast_mser_v2.cpp   | 13 +++++++++++++
 basicimg/src/img_mser_base.cpp      |  5 +++++
 6 files changed, 41 insertions(+)

diff --git a/basicimg/include/img_fast_mser_v1.h b/basicimg/include/img_fast_mser_v1.h
index e4f012f..21138b5 100644
--- a/basicimg/include/img_fast_mser_v1.h
+++ b/basicimg/include/img_fast_mser_v1.h
@@ -152,6 +152,8 @@ namespace basicimg {
 
 		vector<i32*> m_orderd_indexes;
 
+		i32 valid_thread_number(const mt_mat& img) const;
+
 		void allocate_memory(const mt_mat& img, const img_mask_info<u8>& mask);
 		void allocate_memory_parallel_1(const mt_mat& img, const img_mask_info<u8>& mask);
 		void allocate_memory_parallel_2(const mt_mat& img, const img_mask_info<u8>& mask);
diff --git a/basicimg/include/img_fast_mser_v2.h b/basicimg/include/img_fast_mser_v2.h
index d854669..a76d842 100644
--- a/basicimg/include/img_fast_mser_v2.h
+++ b/basicimg/include/img_fast_mser_v2.h
@@ -118,6 +118,8 @@ namespace basicimg {
 
 		vector<u32> m_partition_indexes;
 
+		i32 valid_thread_number(const mt_mat& img) const;
+
 		void allocate_memory(const mt_mat& img, const img_mask_info<u8>& mask);
 
 		void build_tree(const mt_mat& src, const img_mask_info<u8>& mask, u8 gray_mask);
diff --git a/basicimg/include/img_mser_base.h b/basicimg/include/img_mser_base.h
index 904ccf8..837a723 100644
--- a/basicimg/include/img_mser_base.h
+++ b/basicimg/include/img_mser_base.h
@@ -147,6 +147,12 @@ namespace basicimg {
 
 	protected:
 
+		/** The thread number for the image: every partition of the image needs at least one pixel.
+		*/
+		virtual i32 valid_thread_number(const mt_mat& src) const {
+			return m_parallel_thread_number;
+		}
+
 		virtual void allocate_memory(const mt_mat& src, const img_mask_info<u8>& mask) = 0;
 		virtual void build_tree(const mt_mat& src, const img_mask_info<u8>& mask, u8 gray_mask) = 0;
 		virtual void recognize_mser() = 0;
diff --git a/basicimg/src/img_fast_mser_v1.cpp b/basicimg/src/img_fast_mser_v1.cpp
index 41158f6..ee08a3e 100644
--- a/basicimg/src/img_fast_mser_v1.cpp
+++ b/basicimg/src/img_fast_mser_v1.cpp
@@ -88,6 +88,19 @@ void img_fast_mser_v1::clear_memory_cache() {
 	m_pinfo.swap(temp);
 }
 
+i32 img_fast_mser_v1::valid_thread_number(const mt_mat& img) const {
+	//threads, columns and rows of the partition
+	static const i32 partitions[][3] = {{32, 8, 4}, {16, 4, 4}, {8, 4, 2}, {4, 2, 2}, {2, 2, 1}};
+
+	for (i32 i = 0; i < 5; ++i) {
+		if (m_parallel_thread_number >= partitions[i][0] && img.size()[1] >= partitions[i][1] && img.size()[0] >= partitions[i][2]) {
+			return partitions[i][0];
+		}
+	}
+
+	return 1;
+}
+
 void img_fast_mser_v1::allocate_memory(const mt_mat& img, const img_mask_info<u8>& mask) {
 	u32 h_size = img.size()[0] * img.size()[1] + 257 * m_parallel_thread_number;
 
diff --git a/basicimg/src/img_fast_mser_v2.cpp b/basicimg/src/img_fast_mser_v2.cpp
index c0e1bec..f3e3bb3 100644
--- a/basicimg/src/img_fast_mser_v2.cpp
+++ b/basicimg/src/img_fast_mser_v2.cpp
@@ -52,6 +52,19 @@ void img_fast_mser_v2::clear_memory_cache() {
 	m_pinfo.swap(temp);
 }
 
+i32 img_fast_mser_v2::valid_thread_number(const mt_mat& img) const {
+	//threads, columns and rows of the partition
+	static const i32 partitions[][3] = {{32, 8, 4}, {4, 2, 2}};
+
+	for (i32 i = 0; i < 2; ++i) {
+		if (m_parallel_thread_number >= partitions[i][0] && img.size()[1] >= partitions[i][1] && img.size()[0] >= partitions[i][2]) {
+			return partitions[i][0];
+		}
+	}
+
+	return 1;
+}
+
 void img_fast_mser_v2::allocate_memory(const mt_mat& img, const img_mask_info<u8>& mask) {
 	u32 horizontal_partition_number = 2;
 	u32 vertical_partition_number = 2;
diff --git a/basicimg/src/img_mser_base.cpp b/basicimg/src/img_mser_base.cpp
index cec742e..cc1c9f8 100644
--- a/basicimg/src/img_mser_base.cpp
+++ b/basicimg/src/img_mser_base.cpp
@@ -94,6 +94,9 @@ void img_mser_base::extract(img_multi_msers& res, const mt_mat& gray_src, const
 
 	m_channel_total_running_memory = 0;
 
+	const i32 thread_number = m_parallel_thread_number;
+	m_parallel_thread_number = valid_thread_number(gray_src);
+
 	i64 tick = sys_timer::get_tick_cout();
 	allocate_memory(gray_src, mask);
 	sys_alg_analyzer::add("initialization", sys_timer::get_tick_cout() - tick);
@@ -119,6 +122,8 @@ void img_mser_base::extract(img_multi_msers& res, const mt_mat& gray_src, const
 		}
 	}
 
+	m_parallel_thread_number = thread_number;
+
 	sys_alg_analyzer::max_("running_memory", m_channel_total_running_memory / 1024 / 1024);
 
 	sys_alg_analyzer::add("mser_number", res.m_msers[0].size() + res.m_msers[1].size());
-- 
2.43.0


From 1c11ad1be484ad81e649f092fe3f51a5e3d85847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:34 +0000
Subject: [PATCH 015/183] fix: fast mser lost diagonal links between partitions
 in 8-neighbour mode

---
 basicimg/src/img_fast_mser_v1.cpp | 5 +++++
 basicimg/src/img_fast_mser_v2.cpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/basicimg/src/img_fast_mser_v1.cpp b/basicimg/src/img_fast_mser_v1.cpp
index ee08a3e..654441f 100644
--- a/basicimg/src/img_fast_mser_v1.cpp
+++ b/basicimg/src/img_fast_mser_v1.cpp
@@ -89,6 +89,11 @@ void img_fast_mser_v1::clear_memory_cache() {
 }
 
 i32 img_fast_mser_v1::valid_thread_number(const mt_mat& img) const {
+	//only 4-neighbour links are merged across partitions
+	if (img_Connected_Type_8_Neibour == m_connected_type) {
+		return 1;
+	}
+
 	//threads, columns and rows of the partition
 	static const i32 partitions[][3] = {{32, 8, 4}, {16, 4, 4}, {8, 4, 2}, {4, 2, 2}, {2, 2, 1}};
 
diff --git a/basicimg/src/img_fast_mser_v2.cpp b/basicimg/src/img_fast_mser_v2.cpp
index f3e3bb3..2a26f59 100644
--- a/basicimg/src/img_fast_mser_v2.cpp
+++ b/basicimg/src/img_fast_mser_v2.cpp
@@ -53,6 +53,11 @@ void img_fast_mser_v2::clear_memory_cache() {
 }
 
 i32 img_fast_mser_v2::valid_thread_number(const mt_mat& img) const {
+	//only 4-neighbour links are merged across partitions
+	if (img_Connected_Type_8_Neibour == m_connected_type) {
+		return 1;
+	}
+
 	//threads, columns and rows of the partition
 	static const i32 partitions[][3] = {{32, 8, 4}, {4, 2, 2}};
 
-- 
2.43.0


From 100a7684659a47b9f2070ac60701c00912c1aad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:18 +0000
Subject: [PATCH 016/183] fix: linked linear mser ignored the value mask for
 dark regions

---
 basicimg/src/img_linked_linear_mser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicimg/src/img_linked_linear_mser.cpp b/basicimg/src/img_linked_linear_mser.cpp
index a6abff5..32d204b 100644
--- a/basicimg/src/img_linked_linear_mser.cpp
+++ b/basicimg/src/img_linked_linear_mser.cpp
@@ -391,8 +391,8 @@ void img_linked_linear_mser::pre_process_image(const mt_mat& src, u8 gray_mask,
 						srcValue = *srcptr;
 					}
 
-					level_size[*srcptr]++;
-					*imgptr = *srcptr;
+					level_size[srcValue]++;
+					*imgptr = srcValue;
 
 					imgptr++;
 					srcptr++;
-- 
2.43.0


From e180e0af1a8800cccf6f52c731b938718314070b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:28 +0000
Subject: [PATCH 017/183] fix: linked linear mser treated masked pixels as grey
 level 0 in the region tree

---
 basicimg/include/img_linked_linear_mser.h | 2 +-
 basicimg/src/img_linked_linear_mser.cpp   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/basicimg/include/img_linked_linear_mser.h b/basicimg/include/img_linked_linear_mser.h
index 77d3a0f..8d0c98a 100644
--- a/basicimg/include/img_linked_linear_mser.h
+++ b/basicimg/include/img_linked_linear_mser.h
@@ -52,7 +52,7 @@ namespace basicimg {
 			u8 m_calculated_var;
 			u8 m_has_child;
 
-			u8 m_gray_level;
+			u16 m_gray_level;	//masked pixels have level 256
 			i32 m_size;
 			
 			union {
diff --git a/basicimg/src/img_linked_linear_mser.cpp b/basicimg/src/img_linked_linear_mser.cpp
index 32d204b..407bf05 100644
--- a/basicimg/src/img_linked_linear_mser.cpp
+++ b/basicimg/src/img_linked_linear_mser.cpp
@@ -5,7 +5,7 @@
 // clear the connected component in stack
 void img_linked_linear_mser::init_comp(connected_comp* comptr, mser_region*& region) {
 	comptr->m_size = 0;
-	region->m_gray_level = (u8)comptr->m_gray_level;
+	region->m_gray_level = (u16)comptr->m_gray_level;
 	region->m_region_flag = mser_region::Flag_Unknow;
 
 	region->m_calculated_var = 0;
@@ -17,7 +17,7 @@ void img_linked_linear_mser::init_comp(connected_comp* comptr, mser_region*& reg
 }
 
 void img_linked_linear_mser::new_region(connected_comp* comptr, mser_region*& region) {
-	region->m_gray_level = (u8)comptr->m_gray_level;
+	region->m_gray_level = (u16)comptr->m_gray_level;
 	region->m_region_flag = mser_region::Flag_Unknow;
 
 	region->m_calculated_var = 0;
-- 
2.43.0


From 2f3a61b60c5ec87dd85454799793e5675fec6242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:43 +0000
Subject: [PATCH 018/183] fix: fast mser copied freed region pools when the
 thread number of an extractor grew

---
 basicimg/src/img_fast_mser_v1.cpp | 5 +++++
 basicimg/src/img_fast_mser_v2.cpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/basicimg/src/img_fast_mser_v1.cpp b/basicimg/src/img_fast_mser_v1.cpp
index 654441f..3da1a55 100644
--- a/basicimg/src/img_fast_mser_v1.cpp
+++ b/basicimg/src/img_fast_mser_v1.cpp
@@ -124,6 +124,11 @@ void img_fast_mser_v1::allocate_memory(const mt_mat& img, const img_mask_info<u8
 
 	m_orderd_indexes.clear();
 	
+	// growing the vector would copy the region pools of other patches
+	if ((i32)m_pinfo.size() != m_parallel_thread_number) {
+		m_pinfo.clear();
+	}
+
 	if (m_parallel_thread_number == 1) {
 		allocate_memory_parallel_1(img, mask);
 	} else if (m_parallel_thread_number == 2) {
diff --git a/basicimg/src/img_fast_mser_v2.cpp b/basicimg/src/img_fast_mser_v2.cpp
index 2a26f59..dc89425 100644
--- a/basicimg/src/img_fast_mser_v2.cpp
+++ b/basicimg/src/img_fast_mser_v2.cpp
@@ -88,6 +88,11 @@ void img_fast_mser_v2::allocate_memory(const mt_mat& img, const img_mask_info<u8
 		basiclog_assert2(sys_false);
 	}
 
+	// growing the vector would copy the region pools of other patches
+	if ((i32)m_pinfo.size() != m_parallel_thread_number) {
+		m_pinfo.clear();
+	}
+
 	m_pinfo.resize(m_parallel_thread_number);
 	m_partition_indexes.resize((horizontal_partition_number + vertical_partition_number) * 2);
 
-- 
2.43.0


From cd38c1c02035faba77886b157afee50708826c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:15 +0000
Subject: [PATCH 019/183] fix: ms mser ignored the row step of the image

---
 basicimg/src/img_ms_mser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/basicimg/src/img_ms_mser.cpp b/basicimg/src/img_ms_mser.cpp
index 9807e6d..ecc617e 100644
--- a/basicimg/src/img_ms_mser.cpp
+++ b/basicimg/src/img_ms_mser.cpp
@@ -181,6 +181,7 @@ void img_ms_mser::pre_process_image(const mt_mat& img, const img_mask_info<u8>&
 
 				*points++ = m_boundary_pixel;
 				extended_image_data += 2;
+				img_data += img.step()[0] - width;
 			}			
 		}
 
-- 
2.43.0


From 623cee030c1534c4cd70291ddf1a109d4ce6a7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:11 +0000
Subject: [PATCH 020/183] fix: fast mser v2 and ms mser sized their queues for
 the dark levels when only bright regions were extracted

---
 basicimg/src/img_fast_mser_v2.cpp | 2 +-
 basicimg/src/img_ms_mser.cpp      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicimg/src/img_fast_mser_v2.cpp b/basicimg/src/img_fast_mser_v2.cpp
index dc89425..9656c1b 100644
--- a/basicimg/src/img_fast_mser_v2.cpp
+++ b/basicimg/src/img_fast_mser_v2.cpp
@@ -454,7 +454,7 @@ void img_fast_mser_v2::process_tree_patch(parallel_info& pinfo, const mt_mat& im
 				*points++ = m_boundary_pixel;
 
 				for (col = 0; col < pinfo.m_width; ++col) {
-					level_size[*img_data]++;
+					level_size[*img_data ^ gray_mask]++;
 					*extended_image_data++ = *img_data++;
 					*points++ = 0;
 				}
diff --git a/basicimg/src/img_ms_mser.cpp b/basicimg/src/img_ms_mser.cpp
index ecc617e..03920b9 100644
--- a/basicimg/src/img_ms_mser.cpp
+++ b/basicimg/src/img_ms_mser.cpp
@@ -174,7 +174,7 @@ void img_ms_mser::pre_process_image(const mt_mat& img, const img_mask_info<u8>&
 				*points++ = m_boundary_pixel;
 
 				for (col = 0; col < width; ++col) {
-					m_level_size[*img_data]++;
+					m_level_size[*img_data ^ gray_mask]++;
 					*extended_image_data++ = *img_data++;
 					*points++ = 0;
 				}
-- 
2.43.0


From fd1074ccf053b37ff7aad8e6276fdbec362e10aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:52 +0000
Subject: [PATCH 021/183] fix: fast mser workers changed region parents, flags
 and a counter while other workers read them

---
 basicimg/include/img_fast_mser_v1.h | 12 ++++---
 basicimg/include/img_fast_mser_v2.h | 13 ++++----
 basicimg/src/img_fast_mser_v1.cpp   | 32 +++++++++++-------
 basicimg/src/img_fast_mser_v2.cpp   | 51 ++++++++++++++---------------
 4 files changed, 60 insertions(+), 48 deletions(-)

diff --git a/basicimg/include/img_fast_mser_v1.h b/basicimg/include/img_fast_mser_v1.h
index 21138b5..b02dd6a 100644
--- a/basicimg/include/img_fast_mser_v1.h
+++ b/basicimg/include/img_fast_mser_v1.h
@@ -40,11 +40,12 @@ namespace basicimg {
 				Gray_Mask = 0x000003ff,
 			};
 
-			u32 m_region_flag : 2;
-			u32 m_gray_level : 8;
-			u32 m_calculated_var : 1;
-			u32 m_boundary_region : 1;
-			u32 m_patch_index : 8;
+			// a worker changes the flags while others read the gray level and the patch, so they are no bit fields of one word
+			u8 m_region_flag;
+			u8 m_gray_level;
+			u8 m_patch_index;
+			u8 m_calculated_var : 1;
+			u8 m_boundary_region : 1;
 
 			union
 			{
@@ -207,6 +208,7 @@ namespace basicimg {
 
 		void recognize_mser_parallel();
 
+		void set_real_parents(i32 parallel_index);
 		void recognize_mser_parallel_worker(i32 parallel_index);
 		
 		void disconnect(mser_region* r);
diff --git a/basicimg/include/img_fast_mser_v2.h b/basicimg/include/img_fast_mser_v2.h
index a76d842..aa2cbe4 100644
--- a/basicimg/include/img_fast_mser_v2.h
+++ b/basicimg/include/img_fast_mser_v2.h
@@ -30,11 +30,12 @@ namespace basicimg {
 				Gray_Mask = 0x000003ff,
 			};
 
-			u32 m_gray_level : 8;
-			u32 m_region_flag : 2;
-			u32 m_calculated_var : 1;
-			u32 m_assigned_pointer : 1;
-			u32 m_patch_index : 8;
+			// a worker changes the flags while others read the gray level and the patch, so they are no bit fields of one word
+			u8 m_gray_level;
+			u8 m_region_flag;
+			u8 m_patch_index;
+			u8 m_calculated_var : 1;
+			u8 m_assigned_pointer : 1;
 					
 			union {
 				i32 m_size;
@@ -111,7 +112,6 @@ namespace basicimg {
 		u32 m_gray_order_region_size;
 		u32 m_exceed_times;
 
-		i32 m_merged_number;	//for debug
 
 		vector<mser_region*> m_remove_duplicated_memory_helper;
 		vector<mser_region*> m_merged_regions;
@@ -153,6 +153,7 @@ namespace basicimg {
 
 		void recognize_mser_serial();
 		void recognize_mser_parallel();
+		void set_real_parents(i32 parallel_index);
 		void recognize_mser_parallel_worker(i32 parallel_index);
 
 		void recognize_mser_parallel_4_acceleration();
diff --git a/basicimg/src/img_fast_mser_v1.cpp b/basicimg/src/img_fast_mser_v1.cpp
index 3da1a55..c95fd7d 100644
--- a/basicimg/src/img_fast_mser_v1.cpp
+++ b/basicimg/src/img_fast_mser_v1.cpp
@@ -2461,6 +2461,12 @@ void img_fast_mser_v1::recognize_mser_parallel() {
 	i32 tn = 0;
 	i32 nms_count = 0;
 
+	// the workers read the regions of all partitions, so their parents have to be set before
+#pragma omp parallel for num_threads(m_parallel_thread_number)
+	for (i32 i = 0; i < m_parallel_thread_number; ++i) {
+		set_real_parents(i);
+	}
+
 	if (m_parallel_thread_number == 1) {
 		recognize_mser_parallel_worker(0);
 	
@@ -2633,10 +2639,22 @@ void img_fast_mser_v1::recognize_mser_parallel() {
 	basiclog_info2(sys_strcombine()<<"m_gray_order_region_size: "<<m_gray_order_region_size);
 }
 
+void img_fast_mser_v1::set_real_parents(i32 parallel_index) {
+	mser_region* parent_region;
+
+	mt_block_memory<mser_region>::block_pos bp;
+	for (;;) {
+		basicmath_block_memory_visit(m_pinfo[parallel_index].m_mser_regions, bp);
+
+		if (bp.m_data->m_region_flag != mser_region::Flag_Merged) {
+			get_set_real_parent_for_merged(bp.m_data, parent_region);
+		}
+	}
+}
+
 void img_fast_mser_v1::recognize_mser_parallel_worker(i32 parallel_index) {
 	mser_region* parent_region;
 	mser_region* start_region;
-	mser_region* temp_region;
 
 	mt_block_memory<mser_region>::block_pos bp;
 
@@ -2652,19 +2670,11 @@ void img_fast_mser_v1::recognize_mser_parallel_worker(i32 parallel_index) {
 
 			gray_level_threshold = bp.m_data->m_gray_level + m_delta;
 			start_region = bp.m_data;
-			get_set_real_parent_for_merged(start_region, parent_region);
+			parent_region = start_region->m_parent;
 
 			while (parent_region != NULL && (i32)parent_region->m_gray_level <= gray_level_threshold) {
-				basiclog_assert2(parent_region->m_region_flag != mser_region::Flag_Merged);
-
 				start_region = parent_region;
-				if (parent_region->m_patch_index == parallel_index) {
-					get_set_real_parent_for_merged(parent_region, temp_region);
-				} else {
-					get_real_parent_for_merged(parent_region, temp_region);
-				}
-
-				parent_region = temp_region;
+				parent_region = parent_region->m_parent;
 			}
 
 			if (parent_region != NULL || start_region->m_gray_level == gray_level_threshold) {
diff --git a/basicimg/src/img_fast_mser_v2.cpp b/basicimg/src/img_fast_mser_v2.cpp
index 9656c1b..68a62c1 100644
--- a/basicimg/src/img_fast_mser_v2.cpp
+++ b/basicimg/src/img_fast_mser_v2.cpp
@@ -26,7 +26,6 @@ img_fast_mser_v2::img_fast_mser_v2()
 	m_gray_order_region_size = 0;
 	m_gray_order_regions_memory_size = 0;
 	m_exceed_times = 0;
-	m_merged_number = 0;
 }
 
 img_fast_mser_v2::~img_fast_mser_v2() {
@@ -657,7 +656,6 @@ void img_fast_mser_v2::connect(mser_region* bigger, mser_region* smaller) {
 		} else {
 			if (bigger->m_gray_level == smaller->m_gray_level) {
 				smaller->m_region_flag = mser_region::Flag_Merged;
-				m_merged_number += 1;
 			}
 
 			temp_pixel_size = smaller->m_size + pixel_size;
@@ -868,6 +866,12 @@ void img_fast_mser_v2::recognize_mser_serial() {
 }
 
 void img_fast_mser_v2::recognize_mser_parallel() {
+	// the workers read the regions of all partitions, so their parents have to be set before
+#pragma omp parallel for num_threads(m_parallel_thread_number)
+	for (i32 i = 0; i < m_parallel_thread_number; ++i) {
+		set_real_parents(i);
+	}
+
 	if (m_parallel_thread_number == 4) {
 		recognize_mser_parallel_4_acceleration();
 		return;
@@ -1038,10 +1042,22 @@ void img_fast_mser_v2::recognize_mser_parallel() {
 	basiclog_info2(sys_strcombine()<<"m_gray_order_region_size: "<<m_gray_order_region_size);
 }
 
+void img_fast_mser_v2::set_real_parents(i32 parallel_index) {
+	mser_region* parent_region;
+
+	mt_block_memory<mser_region>::block_pos bp;
+	for (;;) {
+		basicmath_block_memory_visit(m_pinfo[parallel_index].m_mser_regions, bp);
+
+		if (bp.m_data->m_region_flag != mser_region::Flag_Merged) {
+			get_set_real_parent_for_merged(bp.m_data, parent_region);
+		}
+	}
+}
+
 void img_fast_mser_v2::recognize_mser_parallel_worker(i32 parallel_index) {
 	mser_region* parent_region;
 	mser_region* start_region;
-	mser_region* temp_region;
 	i32 gray_level_threshold;
 
 	mt_block_memory<mser_region>::block_pos bp;
@@ -1054,19 +1070,11 @@ void img_fast_mser_v2::recognize_mser_parallel_worker(i32 parallel_index) {
 
 			gray_level_threshold = bp.m_data->m_gray_level + m_delta;
 			start_region = bp.m_data;
-			get_set_real_parent_for_merged(start_region, parent_region);
+			parent_region = start_region->m_parent;
 
 			while (parent_region != NULL && (i32)parent_region->m_gray_level <= gray_level_threshold) {
-				basiclog_assert2(parent_region->m_region_flag != mser_region::Flag_Merged);
-
 				start_region = parent_region;
-				if (parent_region->m_patch_index == parallel_index) {
-					get_set_real_parent_for_merged(parent_region, temp_region);
-				} else {
-					get_real_parent_for_merged(parent_region, temp_region);
-				}
-
-				parent_region = temp_region;
+				parent_region = parent_region->m_parent;
 			}
 
 			if (parent_region != NULL || start_region->m_gray_level == gray_level_threshold) {
@@ -1098,7 +1106,6 @@ void img_fast_mser_v2::recognize_mser_parallel_4_acceleration() {
 	for (i32 i = 0; i < 4; ++i) {
 		mser_region* parent_region;
 		mser_region* start_region;
-		mser_region* temp_region;
 		i32 gray_level_threshold;
 
 
@@ -1116,19 +1123,11 @@ void img_fast_mser_v2::recognize_mser_parallel_4_acceleration() {
 
 				gray_level_threshold = bp.m_data->m_gray_level + m_delta;
 				start_region = bp.m_data;
-				get_set_real_parent_for_merged(start_region, parent_region);
+				parent_region = start_region->m_parent;
 
 				while (parent_region != NULL && (i32)parent_region->m_gray_level <= gray_level_threshold) {
-					basiclog_assert2(parent_region->m_region_flag != mser_region::Flag_Merged);
-
 					start_region = parent_region;
-					if (parent_region->m_patch_index == i) {
-						get_set_real_parent_for_merged(parent_region, temp_region);
-					} else {
-						get_real_parent_for_merged(parent_region, temp_region);
-					}
-
-					parent_region = temp_region;
+					parent_region = parent_region->m_parent;
 				}
 
 				if (parent_region != NULL || start_region->m_gray_level == gray_level_threshold) {
@@ -1165,8 +1164,6 @@ void img_fast_mser_v2::recognize_mser_parallel_4_acceleration() {
 				continue;
 			}
 			
-			basiclog_assert2(parent_region->m_region_flag != mser_region::Flag_Merged);
-
 			// if parent is in other block, and it needs to nms
 			if (parent_region->m_patch_index != i) {
 
@@ -1177,6 +1174,8 @@ void img_fast_mser_v2::recognize_mser_parallel_4_acceleration() {
 				continue;
 			}
 
+			basiclog_assert2(parent_region->m_region_flag != mser_region::Flag_Merged);
+
 			if (m_nms_similarity < 0 || bp2.m_data->m_var < 0) {
 				continue;
 			}
-- 
2.43.0


From 3ae14c6db55e31cb37792cdca8803948ca19b3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:24 +0000
Subject: [PATCH 022/183] fix: original mser kept the regions of the previous
 image when the image area changed

---
 basicimg/src/img_origin_mser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicimg/src/img_origin_mser.cpp b/basicimg/src/img_origin_mser.cpp
index 43e41da..7769045 100644
--- a/basicimg/src/img_origin_mser.cpp
+++ b/basicimg/src/img_origin_mser.cpp
@@ -595,10 +595,10 @@ void img_original_mser::allocate_memory(const mt_mat& image, const img_mask_info
 		m_stack_helper_size = area;
 		basicsys_delete_array(m_stack_helper);
 		m_stack_helper = new i16*[area];
-	} else {
-		resetPreInfo();
 	}
 
+	resetPreInfo();
+
 	m_stack_top_index = -1;
 
 	for (i32 i = 1; i < m_window_size; ++i) {
-- 
2.43.0


From 75f68df6c31007a3e416b5984f890d2f261ed429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:00 +0000
Subject: [PATCH 023/183] fix: opencv mser extracted the opposite polarity and
 reported a gray level of a pixel outside the region

---
 basicimg/src/img_opencv_mser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicimg/src/img_opencv_mser.cpp b/basicimg/src/img_opencv_mser.cpp
index 230f582..68f8039 100644
--- a/basicimg/src/img_opencv_mser.cpp
+++ b/basicimg/src/img_opencv_mser.cpp
@@ -177,7 +177,7 @@ void img_opencv_mser::toMSERInfo(img_mser& mserInfo, ConnectedComp* comp, u8 gra
 	}
 
 	mserInfo.m_rect.set_rect(mt_point(colMin, rowMin), mt_point(colMax, rowMax));
-	mserInfo.m_gray_level = (gray_mask == 0) ? (comp->mGrayLevel & 0x00ff) : (0xff - (comp->mGrayLevel & 0x00ff));
+	mserInfo.m_gray_level = (gray_mask == 0) ? (comp->mHistory->mGrayLevel & 0x00ff) : (0xff - (comp->mHistory->mGrayLevel & 0x00ff));
 }
 
 void img_opencv_mser::preProcessImage(const mt_mat& src, u8 gray_mask) {
@@ -197,7 +197,7 @@ void img_opencv_mser::preProcessImage(const mt_mat& src, u8 gray_mask) {
 	imgptr += cpt_1;
 	u8* srcptr = (u8*)src.data();
 	
-	if (gray_mask) {
+	if (gray_mask == 0) {
 		for (int row = 0; row < src.size()[0]; ++row) {
 			*imgptr++ = -1;
 			for (int col = 0; col < src.size()[1]; ++col) {
-- 
2.43.0


From fb15054a56df4c6fdb6e17f9e3e00bc258fa0d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:10 +0000
Subject: [PATCH 024/183] fix: opencv mser computed rows with a step it never
 set

---
 basicimg/src/img_opencv_mser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/basicimg/src/img_opencv_mser.cpp b/basicimg/src/img_opencv_mser.cpp
index 68f8039..4de3082 100644
--- a/basicimg/src/img_opencv_mser.cpp
+++ b/basicimg/src/img_opencv_mser.cpp
@@ -379,6 +379,7 @@ void img_opencv_mser::allocate_memory(const mt_mat& src, const img_mask_info<u8>
 	}
 
 	m_step_mask = width - 1;
+	m_step_gap = stepgap;
 
 	// to speedup the process, make the width to be 2^N
 	m_temp_image.create(src.size()[0] + 2, width, mt_I16C1);
-- 
2.43.0


From f82a0eb1906d92517d10deedd0b58fa5002e4f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:10 +0000
Subject: [PATCH 025/183] fix: opencv3 mser read outside images without
 interior, left the gray level unset, sized its queues for dark levels only
 and wrote into the last image

---
 basicimg/include/img_opencv3_mser.h |  1 +
 basicimg/src/img_opencv3_mser.cpp   | 12 +++++++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/basicimg/include/img_opencv3_mser.h b/basicimg/include/img_opencv3_mser.h
index 886fdd4..e305ee2 100644
--- a/basicimg/include/img_opencv3_mser.h
+++ b/basicimg/include/img_opencv3_mser.h
@@ -51,6 +51,7 @@ namespace basicimg  {
 			u32* m_total_pixel_number;
 			Pixel* pix0;
 			int step;
+			u8 gray_mask;
 		};
 
 		struct CompHistory
diff --git a/basicimg/src/img_opencv3_mser.cpp b/basicimg/src/img_opencv3_mser.cpp
index d82d04d..00b9186 100644
--- a/basicimg/src/img_opencv3_mser.cpp
+++ b/basicimg/src/img_opencv3_mser.cpp
@@ -85,6 +85,7 @@ void img_opencv3_mser::CompHistory::checkAndCapture(WParams& wp )
 	img_mser& region = wp.msers->back();
 	*wp.m_total_pixel_number += (u32)size;
 	region.m_size = size;
+	region.m_gray_level = val ^ wp.gray_mask;
 
 	region.m_points = new mt_point[region.m_size];
 	region.m_memory_type = img_mser::Memory_Type_Self;
@@ -218,6 +219,8 @@ void img_opencv3_mser::allocate_memory(const mt_mat& src, const img_mask_info<u8
 	mt_mat temp = src;
 
 	if (!temp.is_continuous()) {
+		// the last image may still be referred to
+		m_tempsrc = mt_mat();
 		m_tempsrc.copy_from(temp);
 		temp = m_tempsrc;
 	} else {
@@ -245,6 +248,12 @@ void img_opencv3_mser::recognize_mser() {
 void img_opencv3_mser::extract_pixel(img_multi_msers& msers, u8 gray_mask) {
 	//basiclog_assert2(m_delta > 0);
 
+	if (m_tempsrc.size()[0] < 3 || m_tempsrc.size()[1] < 3) {
+		// boundary pixels are not processed
+		m_channel_total_pixel_number = 0;
+		return;
+	}
+
 	preprocess(m_tempsrc, m_level_size, gray_mask);
 
 	CompHistory* histptr = &m_histbuf[0];
@@ -262,6 +271,7 @@ void img_opencv3_mser::extract_pixel(img_multi_msers& msers, u8 gray_mask) {
 	wp.msers = &msers.m_msers[(gray_mask == 0) ? 0 : 1];
 	wp.pix0 = ptr0;
 	wp.step = step;
+	wp.gray_mask = gray_mask;
 	m_channel_total_pixel_number = 0;
 	wp.m_total_pixel_number = &m_channel_total_pixel_number;
 
@@ -387,7 +397,7 @@ void img_opencv3_mser::preprocess( const mt_mat& img, int* level_size, u8 mask)
 			pptr[0] = pptr[cols-1] = borderpix;
 			for( j = 1; j < cols-1; j++ )
 			{
-				int val = imgptr[j];
+				int val = imgptr[j] ^ mask;
 				level_size[val]++;
 				pptr[j].val = 0;
 			}
-- 
2.43.0


From 94ac5188876f739889c11dfa17e2421cb31e5d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:58 +0000
Subject: [PATCH 026/183] fix: [S02] fopen_s reported success when the file
 could not be opened

---
 basicsys/include/sys_basic_define.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicsys/include/sys_basic_define.h b/basicsys/include/sys_basic_define.h
index 6ad0bcf..b8f09b0 100644
--- a/basicsys/include/sys_basic_define.h
+++ b/basicsys/include/sys_basic_define.h
@@ -92,7 +92,7 @@ namespace basicsys {
 static int fopen_s(FILE ** fp, const char * path, const char * flag) {
 	*fp = fopen(path, flag);
 
-	if (*flag != NULL) {
+	if (*fp != NULL) {
 		return 0;
 	}
 
-- 
2.43.0


From f00e464164ccd813bbb21557fb03c94707ca99c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:58 +0000
Subject: [PATCH 027/183] fix: [S02] file buffers reported an uninitialised
 status

---
 basicsys/include/sys_buffer.h | 16 ----------------
 basicsys/src/sys_buffer.cpp   |  2 +-
 2 files changed, 1 insertion(+), 17 deletions(-)

diff --git a/basicsys/include/sys_buffer.h b/basicsys/include/sys_buffer.h
index f56ce7b..94df03f 100644
--- a/basicsys/include/sys_buffer.h
+++ b/basicsys/include/sys_buffer.h
@@ -260,15 +260,10 @@ namespace basicsys {
 
 		virtual sys_buffer_writer* seek(i64 offset, sys_File_Seek seek_type);
 
-		virtual sys_IO_Status get_status() {
-			return m_file_io_status;
-		}
-
 	protected:
 
 		FILE* m_file;
 		b8 m_need_close_file;
-		mutable sys_IO_Status m_file_io_status;
 	};
 
 	class sys_byte_file_buffer_reader : public sys_byte_buffer_reader {
@@ -283,10 +278,6 @@ namespace basicsys {
 			return m_file == NULL;
 		}
 
-		virtual sys_IO_Status get_status() const {
-			return m_file_io_status;
-		}
-
 		/**
 
 		@note the read operation will move the position of the FILE structure!
@@ -324,7 +315,6 @@ namespace basicsys {
 
 		FILE* m_file;
 		b8 m_need_close_file;
-		mutable sys_IO_Status m_file_io_status;
 	};
 
 
@@ -463,15 +453,10 @@ namespace basicsys {
 		
 		virtual sys_buffer_writer* seek(i64 offset, sys_File_Seek seek_type);
 
-		virtual sys_IO_Status get_status() {
-			return m_file_io_status;
-		}
-
 	protected:
 
 		FILE* m_file;
 		b8 m_need_close_file;
-		mutable sys_IO_Status m_file_io_status;
 	};
 
 	class sys_string_file_buffer_reader : public sys_string_buffer_reader {
@@ -503,7 +488,6 @@ namespace basicsys {
 
 		FILE* m_file;
 		b8 m_need_close_file;
-		mutable sys_IO_Status m_file_io_status;
 	};
 
 
diff --git a/basicsys/src/sys_buffer.cpp b/basicsys/src/sys_buffer.cpp
index c5aa3ce..ded8aa3 100644
--- a/basicsys/src/sys_buffer.cpp
+++ b/basicsys/src/sys_buffer.cpp
@@ -801,7 +801,7 @@ sys_buffer_writer* sys_string_file_buffer_writer::seek(i64 offset, sys_File_Seek
 sys_string_file_buffer_reader::sys_string_file_buffer_reader(const string& file_path)
 	: sys_string_buffer_reader(string()) {
 		if (fopen_s(&m_file, file_path.c_str(), "rb") != 0) {
-			m_file_io_status = sys_IO_Status_Error_File_Operation;
+			m_io_status = sys_IO_Status_Error_File_Operation;
 			basiclog_warning2("failed to _wfopen_s");
 		}
 
-- 
2.43.0


From 989ca7de7a03a596570ca0fc672db99c902babe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:58 +0000
Subject: [PATCH 028/183] fix: [S02] opening a file buffer to append erased the
 file

---
 basicsys/src/sys_buffer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicsys/src/sys_buffer.cpp b/basicsys/src/sys_buffer.cpp
index ded8aa3..5842b27 100644
--- a/basicsys/src/sys_buffer.cpp
+++ b/basicsys/src/sys_buffer.cpp
@@ -295,7 +295,7 @@ sys_buffer_reader* sys_byte_buffer_reader::seek(i64 offset, sys_File_Seek seek_t
 
 sys_byte_file_buffer_writer::sys_byte_file_buffer_writer(const string& file_path, b8 is_append /* = false */)
 	: sys_byte_buffer_writer(NULL) {
-		if (fopen_s(&m_file, file_path.c_str(), is_append ? "wb+" : "wb") != 0) {
+		if (fopen_s(&m_file, file_path.c_str(), is_append ? "ab" : "wb") != 0) {
 			m_io_status = sys_IO_Status_Error_File_Operation;
 			basiclog_warning2("failed to _wfopen_s");
 		}
@@ -730,7 +730,7 @@ sys_buffer_reader* sys_string_buffer_reader::seek(i64 offset, sys_File_Seek seek
 
 sys_string_file_buffer_writer::sys_string_file_buffer_writer(const string& file_path, b8 is_append /* = false */)
 : sys_string_buffer_writer(NULL) {
-	if (fopen_s(&m_file, file_path.c_str(), is_append ? "wb+" : "wb") != 0) {
+	if (fopen_s(&m_file, file_path.c_str(), is_append ? "ab" : "wb") != 0) {
 		m_io_status = sys_IO_Status_Error_File_Operation;
 		basiclog_warning2("failed to _wfopen_s");
 	}
-- 
2.43.0


From e6a6f336f544cbe589af39b60b1c95d75f1ce6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:58 +0000
Subject: [PATCH 029/183] fix: [S02] byte file reader never closed its file

---
 basicsys/include/sys_buffer.h | 2 ++
 basicsys/src/sys_buffer.cpp   | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/basicsys/include/sys_buffer.h b/basicsys/include/sys_buffer.h
index 94df03f..a80aced 100644
--- a/basicsys/include/sys_buffer.h
+++ b/basicsys/include/sys_buffer.h
@@ -274,6 +274,8 @@ namespace basicsys {
 
 		virtual ~sys_byte_file_buffer_reader();
 
+		virtual void close();
+
 		virtual b8 is_closed() const {
 			return m_file == NULL;
 		}
diff --git a/basicsys/src/sys_buffer.cpp b/basicsys/src/sys_buffer.cpp
index 5842b27..72c9974 100644
--- a/basicsys/src/sys_buffer.cpp
+++ b/basicsys/src/sys_buffer.cpp
@@ -375,6 +375,14 @@ sys_byte_file_buffer_reader::~sys_byte_file_buffer_reader() {
 	close();
 }
 
+void sys_byte_file_buffer_reader::close() {
+	if (m_file != NULL && m_need_close_file) {
+		fclose(m_file);
+	}
+
+	m_file = NULL;
+}
+
 //c16 sys_byte_file_buffer_reader::read_c16() const {
 //	c16 value;
 //	u8* ptr_value = (u8*)&value;
-- 
2.43.0


From 085e803fdcbaf4440cfe9d36728289059b153717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:58 +0000
Subject: [PATCH 030/183] fix: [S02] seeking from the end moved memory buffers
 the other way than file buffers

---
 basicsys/src/sys_buffer.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/basicsys/src/sys_buffer.cpp b/basicsys/src/sys_buffer.cpp
index 72c9974..d9d748f 100644
--- a/basicsys/src/sys_buffer.cpp
+++ b/basicsys/src/sys_buffer.cpp
@@ -121,7 +121,7 @@ sys_buffer_writer* sys_byte_buffer_writer::seek(i64 offset, sys_File_Seek seek_t
 	} else if (seek_type == sys_File_Seek_Cur) {
 		m_position += offset;
 	} else {
-		m_position = (i64)m_buffer->size() - offset;
+		m_position = (i64)m_buffer->size() + offset;
 	}
 
 	return this;
@@ -283,7 +283,7 @@ sys_buffer_reader* sys_byte_buffer_reader::seek(i64 offset, sys_File_Seek seek_t
 	} else if (seek_type == sys_File_Seek_Cur) {
 		m_position += offset;
 	} else {
-		m_position = (m_end - m_begin) - offset;
+		m_position = (m_end - m_begin) + offset;
 	}
 
 	return this;
@@ -654,7 +654,7 @@ sys_buffer_writer* sys_string_buffer_writer::seek(i64 offset, sys_File_Seek seek
 	} else if (seek_type == sys_File_Seek_Cur) {
 		m_position += offset;
 	} else {
-		m_position = (i64)m_str->size() * sizeof(i8) - offset;
+		m_position = (i64)m_str->size() * sizeof(i8) + offset;
 	}
 
 	return this;
@@ -724,7 +724,7 @@ sys_buffer_reader* sys_string_buffer_reader::seek(i64 offset, sys_File_Seek seek
 	} else if (seek_type == sys_File_Seek_Cur) {
 		m_position += offset;
 	} else {
-		m_position = (i64)m_str->size() * sizeof(i8) - offset;
+		m_position = (i64)m_str->size() * sizeof(i8) + offset;
 	}
 
 	return this;
-- 
2.43.0


From d4f969cbc6ae1d7908fd7fa821601442cd4e4747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:58 +0000
Subject: [PATCH 031/183] fix: [S02] reading a character from a string buffer
 did not move on

---
 basicsys/src/sys_buffer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/basicsys/src/sys_buffer.cpp b/basicsys/src/sys_buffer.cpp
index d9d748f..5188cfb 100644
--- a/basicsys/src/sys_buffer.cpp
+++ b/basicsys/src/sys_buffer.cpp
@@ -681,8 +681,10 @@ i8 sys_string_buffer_reader::read_char() const {
 		return 0;
 	}
 
-	return m_str->at(m_position / sizeof(i8));
+	i8 c = m_str->at(m_position / sizeof(i8));
 	m_position += sizeof(i8);
+
+	return c;
 }
 
 void sys_string_buffer_reader::read_str(string& str, i32 size) const {
-- 
2.43.0


From 091e15e0afccf0ba0aac361877ef703256224ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:58 +0000
Subject: [PATCH 032/183] fix: [S02] read_line read all lines into one

---
 basicsys/src/sys_buffer.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/basicsys/src/sys_buffer.cpp b/basicsys/src/sys_buffer.cpp
index 5188cfb..2e1d965 100644
--- a/basicsys/src/sys_buffer.cpp
+++ b/basicsys/src/sys_buffer.cpp
@@ -709,12 +709,16 @@ void sys_string_buffer_reader::read_line(string& str) const {
 		return;
 	}
 
+	str.clear();
+
 	while (!is_eof()) {
 		i8 c = read_char();
 
-		if (c != '\n') {
-			str.insert(str.end(), c);
+		if (c == '\n') {
+			break;
 		}
+
+		str.insert(str.end(), c);
 	}
 }
 
@@ -941,11 +945,15 @@ void sys_string_file_buffer_reader::read_line(string& str) const {
 		return;
 	}
 
+	str.clear();
+
 	while (!is_eof()) {
 		i8 c = read_char();
 
-		if (c != '\n') {
-			str.insert(str.end(), c);
+		if (c == '\n') {
+			break;
 		}
+
+		str.insert(str.end(), c);
 	}
 }
\ No newline at end of file
-- 
2.43.0


From 386816c3525a62972c4a9a2c7ce0a5500c61998e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:15 +0000
Subject: [PATCH 033/183] fix: [S02] read_str of buffers stopped at NUL, leaked
 and went past the end of a file

---
 basicsys/src/sys_buffer.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/basicsys/src/sys_buffer.cpp b/basicsys/src/sys_buffer.cpp
index 2e1d965..e9ee151 100644
--- a/basicsys/src/sys_buffer.cpp
+++ b/basicsys/src/sys_buffer.cpp
@@ -243,7 +243,7 @@ void sys_byte_buffer_reader::read_str(string& str, i32 size) const {
 	read((u8*)buffer, size);
 
 	if (m_io_status == sys_IO_Status_OK) {
-		str = string(buffer);
+		str = string(buffer, character_number);
 	}
 	
 	delete[] buffer;
@@ -841,7 +841,7 @@ void sys_string_file_buffer_reader::close() {
 }
 
 f64 sys_string_file_buffer_reader::read(i32 size) const {
-	if (is_eof()) {
+	if (remain_size() < size) {
 		m_io_status = sys_IO_Status_Error_Eof;
 		return 0;
 	}
@@ -868,7 +868,7 @@ i8 sys_string_file_buffer_reader::read_char() const {
 }
 
 void sys_string_file_buffer_reader::read_str(string& str, i32 size) const {
-	if (is_eof()) {
+	if (remain_size() < size) {
 		m_io_status = sys_IO_Status_Error_Eof;
 		return;
 	}
@@ -883,8 +883,8 @@ void sys_string_file_buffer_reader::read_str(string& str, i32 size) const {
 		basiclog_warning2("failed to fread");
 	}
 
-	temp[character_count] = 0;
-	str = temp;
+	str = string(temp, character_count);
+	delete[] temp;
 }
 
 i64 sys_string_file_buffer_reader::position() const {
-- 
2.43.0


From 9a00c50741249dbde0359ce86a15a24c01d97110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:15 +0000
Subject: [PATCH 034/183] fix: [S02] writing and reading nothing failed in byte
 buffers

---
 basicsys/src/sys_buffer.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/basicsys/src/sys_buffer.cpp b/basicsys/src/sys_buffer.cpp
index e9ee151..d13c00d 100644
--- a/basicsys/src/sys_buffer.cpp
+++ b/basicsys/src/sys_buffer.cpp
@@ -82,7 +82,7 @@ sys_buffer_writer* sys_byte_buffer_writer::write(f64 val) {
 }
 
 sys_buffer_writer* sys_byte_buffer_writer::write(const vector<u8>& buffer) {
-	u8* start = (u8*)&buffer[0];
+	u8* start = (u8*)buffer.data();
 	u8* stop = start + (i32)buffer.size();
 
 	return write(start, stop);
@@ -250,7 +250,7 @@ void sys_byte_buffer_reader::read_str(string& str, i32 size) const {
 }
 
 void sys_byte_buffer_reader::read(vector<u8>& data, i32 size) const {
-	basiclog_assert2(size > 0);
+	basiclog_assert2(size >= 0);
 
 	if (remain_size() < size) {
 		m_io_status = sys_IO_Status_Error_Eof;
@@ -260,7 +260,7 @@ void sys_byte_buffer_reader::read(vector<u8>& data, i32 size) const {
 
 	data.resize(size);
 
-	read(&data[0], size);
+	read(data.data(), size);
 }
 
 void sys_byte_buffer_reader::read(u8* data, i32 size) const {
@@ -322,8 +322,7 @@ void sys_byte_file_buffer_writer::close() {
 }
 
 sys_buffer_writer* sys_byte_file_buffer_writer::write(const u8* start, const u8* stop) {
-
-	if (fwrite(start, stop - start, 1, m_file) != 1) {
+	if (start != stop && fwrite(start, stop - start, 1, m_file) != 1) {
 		m_io_status = sys_IO_Status_Error_File_Operation;
 		basiclog_warning2("failed to fwrite");
 	}
-- 
2.43.0


From a552b195265014a8ee2f4c6f3d4d95bc56571d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:00 +0000
Subject: [PATCH 035/183] fix: [S02] file buffers without an open file crashed
 instead of reporting the error

---
 basicsys/src/sys_buffer.cpp | 85 +++++++++++++++++++++++++++++++++++++
 1 file changed, 85 insertions(+)

diff --git a/basicsys/src/sys_buffer.cpp b/basicsys/src/sys_buffer.cpp
index d13c00d..bfd1383 100644
--- a/basicsys/src/sys_buffer.cpp
+++ b/basicsys/src/sys_buffer.cpp
@@ -322,6 +322,11 @@ void sys_byte_file_buffer_writer::close() {
 }
 
 sys_buffer_writer* sys_byte_file_buffer_writer::write(const u8* start, const u8* stop) {
+	if (m_file == NULL) {
+		m_io_status = sys_IO_Status_Error_File_Operation;
+		return this;
+	}
+
 	if (start != stop && fwrite(start, stop - start, 1, m_file) != 1) {
 		m_io_status = sys_IO_Status_Error_File_Operation;
 		basiclog_warning2("failed to fwrite");
@@ -331,6 +336,11 @@ sys_buffer_writer* sys_byte_file_buffer_writer::write(const u8* start, const u8*
 }
 
 i64 sys_byte_file_buffer_writer::position() const {
+	if (m_file == NULL) {
+		m_io_status = sys_IO_Status_Error_File_Operation;
+		return -1;
+	}
+
 	i64 res = 0;
 
 	if (fgetpos(m_file, &res) != 0) {
@@ -342,6 +352,11 @@ i64 sys_byte_file_buffer_writer::position() const {
 }
 
 sys_buffer_writer* sys_byte_file_buffer_writer::seek(i64 offset, sys_File_Seek seek_type) {
+	if (m_file == NULL) {
+		m_io_status = sys_IO_Status_Error_File_Operation;
+		return this;
+	}
+
 	if (fseek(m_file, (long)offset, seek_type) != 0) {
 		m_io_status = sys_IO_Status_Error_File_Operation;
 		basiclog_warning2("failed to fseek");
@@ -510,6 +525,11 @@ void sys_byte_file_buffer_reader::close() {
 //}
 
 void sys_byte_file_buffer_reader::read(u8* start, i32 size) const {
+	if (m_file == NULL) {
+		m_io_status = sys_IO_Status_Error_File_Operation;
+		return;
+	}
+
 	if (remain_size() < size) {
 		m_io_status = sys_IO_Status_Error_Eof;
 		basiclog_assert2(false);
@@ -529,6 +549,11 @@ void sys_byte_file_buffer_reader::read(u8* start, i32 size) const {
 }
 
 i64 sys_byte_file_buffer_reader::position() const {
+	if (m_file == NULL) {
+		m_io_status = sys_IO_Status_Error_File_Operation;
+		return -1;
+	}
+
 	i64 res = 0;
 	if (fgetpos(m_file, &res) != 0) {
 		m_io_status = sys_IO_Status_Error_File_Operation;
@@ -541,6 +566,11 @@ i64 sys_byte_file_buffer_reader::position() const {
 }
 
 i64 sys_byte_file_buffer_reader::size() const {
+	if (m_file == NULL) {
+		m_io_status = sys_IO_Status_Error_File_Operation;
+		return -1;
+	}
+
 	i64 cur_pos = 0;
 	if (fgetpos(m_file, &cur_pos) != 0) {
 		m_io_status = sys_IO_Status_Error_File_Operation;
@@ -571,6 +601,11 @@ i64 sys_byte_file_buffer_reader::size() const {
 }
 
 sys_buffer_reader* sys_byte_file_buffer_reader::seek(i64 offset, sys_File_Seek seek_type) {
+	if (m_file == NULL) {
+		m_io_status = sys_IO_Status_Error_File_Operation;
+		return this;
+	}
+
 	if (fseek(m_file, (long)offset, seek_type) != 0) {
 		m_io_status = sys_IO_Status_Error_File_Operation;
 		basiclog_warning2("failed to fseek");
@@ -770,6 +805,11 @@ void sys_string_file_buffer_writer::close() {
 }
 
 sys_buffer_writer* sys_string_file_buffer_writer::write(const string& val) {
+	if (m_file == NULL) {
+		m_io_status = sys_IO_Status_Error_File_Operation;
+		return this;
+	}
+
 	i32 size = (i32)val.size() * sizeof(i8);
 	i32 f_res = val.empty() ? 0 : 1;
 
@@ -782,6 +822,11 @@ sys_buffer_writer* sys_string_file_buffer_writer::write(const string& val) {
 }
 
 i64 sys_string_file_buffer_writer::position() const {
+	if (m_file == NULL) {
+		m_io_status = sys_IO_Status_Error_File_Operation;
+		return -1;
+	}
+
 	i64 res = 0;
 
 	if (fgetpos(m_file, &res) != 0) {
@@ -793,6 +838,11 @@ i64 sys_string_file_buffer_writer::position() const {
 }
 
 sys_buffer_writer* sys_string_file_buffer_writer::seek(i64 offset, sys_File_Seek seek_type) {
+	if (m_file == NULL) {
+		m_io_status = sys_IO_Status_Error_File_Operation;
+		return this;
+	}
+
 	if (fseek(m_file, (long)offset, seek_type) != 0) {
 		m_io_status = sys_IO_Status_Error_File_Operation;
 		basiclog_warning2("failed to fseek");
@@ -840,6 +890,11 @@ void sys_string_file_buffer_reader::close() {
 }
 
 f64 sys_string_file_buffer_reader::read(i32 size) const {
+	if (m_file == NULL) {
+		m_io_status = sys_IO_Status_Error_File_Operation;
+		return 0;
+	}
+
 	if (remain_size() < size) {
 		m_io_status = sys_IO_Status_Error_Eof;
 		return 0;
@@ -852,6 +907,11 @@ f64 sys_string_file_buffer_reader::read(i32 size) const {
 }
 
 i8 sys_string_file_buffer_reader::read_char() const {
+	if (m_file == NULL) {
+		m_io_status = sys_IO_Status_Error_File_Operation;
+		return 0;
+	}
+
 	if (is_eof()) {
 		m_io_status = sys_IO_Status_Error_Eof;
 		return 0;
@@ -867,6 +927,11 @@ i8 sys_string_file_buffer_reader::read_char() const {
 }
 
 void sys_string_file_buffer_reader::read_str(string& str, i32 size) const {
+	if (m_file == NULL) {
+		m_io_status = sys_IO_Status_Error_File_Operation;
+		return;
+	}
+
 	if (remain_size() < size) {
 		m_io_status = sys_IO_Status_Error_Eof;
 		return;
@@ -887,6 +952,11 @@ void sys_string_file_buffer_reader::read_str(string& str, i32 size) const {
 }
 
 i64 sys_string_file_buffer_reader::position() const {
+	if (m_file == NULL) {
+		m_io_status = sys_IO_Status_Error_File_Operation;
+		return -1;
+	}
+
 	i64 res = 0;
 	if (fgetpos(m_file, &res) != 0) {
 		m_io_status = sys_IO_Status_Error_File_Operation;
@@ -899,6 +969,11 @@ i64 sys_string_file_buffer_reader::position() const {
 }
 
 i64 sys_string_file_buffer_reader::size() const {
+	if (m_file == NULL) {
+		m_io_status = sys_IO_Status_Error_File_Operation;
+		return -1;
+	}
+
 	i64 cur_pos = 0;
 	if (fgetpos(m_file, &cur_pos) != 0) {
 		m_io_status = sys_IO_Status_Error_File_Operation;
@@ -929,6 +1004,11 @@ i64 sys_string_file_buffer_reader::size() const {
 }
 
 sys_buffer_reader* sys_string_file_buffer_reader::seek(i64 offset, sys_File_Seek seek_type) {
+	if (m_file == NULL) {
+		m_io_status = sys_IO_Status_Error_File_Operation;
+		return this;
+	}
+
 	if (fseek(m_file, (long)offset, seek_type) != 0) {
 		m_io_status = sys_IO_Status_Error_File_Operation;
 		basiclog_warning2("failed to fseek");
@@ -939,6 +1019,11 @@ sys_buffer_reader* sys_string_file_buffer_reader::seek(i64 offset, sys_File_Seek
 }
 
 void sys_string_file_buffer_reader::read_line(string& str) const {
+	if (m_file == NULL) {
+		m_io_status = sys_IO_Status_Error_File_Operation;
+		return;
+	}
+
 	if (is_eof()) {
 		m_io_status = sys_IO_Status_Error_Eof;
 		return;
-- 
2.43.0


From 2db710c1974a98ebb2f747c70a0101a0097d3e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:00 +0000
Subject: [PATCH 036/183] fix: [S01] json nodes were loaded or not by an
 uninitialised flag, and their size was 0 before

---
 basicsys/include/sys_json.h | 2 ++
 basicsys/src/sys_json.cpp   | 1 +
 2 files changed, 3 insertions(+)

diff --git a/basicsys/include/sys_json.h b/basicsys/include/sys_json.h
index 50aac3a..a5d0740 100644
--- a/basicsys/include/sys_json.h
+++ b/basicsys/include/sys_json.h
@@ -165,6 +165,8 @@ namespace basicsys {
 		b8 has_key(const string& key_name) const;
 
 		i32 size() const {
+			(const_cast<sys_json_reader*>(this))->load();
+
 			if (is_map()) {
 				return (i32)m_map_nodes.size();
 			} else if (is_seq()) {
diff --git a/basicsys/src/sys_json.cpp b/basicsys/src/sys_json.cpp
index 64948d8..9753b74 100644
--- a/basicsys/src/sys_json.cpp
+++ b/basicsys/src/sys_json.cpp
@@ -421,6 +421,7 @@ sys_json_reader::sys_json_reader(sys_buffer_reader* reader, const string& node_n
 	m_offset = offset;
 	m_size = size;
 	m_node_type = node_type;
+	m_loaded = sys_false;
 
 	if (m_size == -1) {
 		m_size = (i32)reader->remain_size();
-- 
2.43.0


From a3b3e1070705f4fa45f80a74457648339c767662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:00 +0000
Subject: [PATCH 037/183] fix: [S01] json wrote i8 numbers as characters and
 read them as numbers

---
 basicsys/src/sys_json.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicsys/src/sys_json.cpp b/basicsys/src/sys_json.cpp
index 9753b74..5c57957 100644
--- a/basicsys/src/sys_json.cpp
+++ b/basicsys/src/sys_json.cpp
@@ -72,7 +72,7 @@ sys_json_writer& sys_json_writer::operator<<(const i8& val) {
 	basiclog_assert2(m_json_expected == sys_Json_Expected_Value);
 
 	if (m_writer->is_string_buffer()) {
-		text_write_str(sys_strcombine()<<val);
+		text_write_str(sys_strcombine()<<(i32)val);
 	} else {
 		m_writer->write(sys_Node_Type_Int);
 		m_writer->write((i32)sizeof(i8));
-- 
2.43.0


From aaa274975ed57a706ac9d67c8a08935e4a759a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:00 +0000
Subject: [PATCH 038/183] fix: [S01] json lost integers beyond 53 bits in
 binary and beyond 32 or 63 bits in text

---
 basicsys/include/sys_json.h |  2 ++
 basicsys/src/sys_json.cpp   | 70 +++++++++++++++++++------------------
 2 files changed, 38 insertions(+), 34 deletions(-)

diff --git a/basicsys/include/sys_json.h b/basicsys/include/sys_json.h
index a5d0740..08d5e66 100644
--- a/basicsys/include/sys_json.h
+++ b/basicsys/include/sys_json.h
@@ -267,6 +267,8 @@ namespace basicsys {
 		b8 m_loaded;
 		string m_node_name;
 
+		i64 read_integer() const;
+
 		void load();
 		void text_load_struct_info();
 		void binary_load_struct_info();
diff --git a/basicsys/src/sys_json.cpp b/basicsys/src/sys_json.cpp
index 5c57957..563df87 100644
--- a/basicsys/src/sys_json.cpp
+++ b/basicsys/src/sys_json.cpp
@@ -478,10 +478,7 @@ void sys_json_reader::operator>>(i8& val) const {
 		val = (i8)atoi(text.c_str());
 
 	} else {
-		f64 tmp = 0;
-		(*this)>>tmp;
-
-		val = (i8)tmp;
+		val = (i8)read_integer();
 	}
 }
 
@@ -495,10 +492,7 @@ void sys_json_reader::operator>>(u8& val) const {
 		val = (u8)atoi(text.c_str());
 
 	} else {
-		f64 tmp = 0;
-		(*this)>>tmp;
-
-		val = (u8)tmp;
+		val = (u8)read_integer();
 	}
 }
 
@@ -512,10 +506,7 @@ void sys_json_reader::operator>>(u16& val) const {
 		val = (u16)atoi(text.c_str());
 
 	} else {
-		f64 tmp = 0;
-		(*this)>>tmp;
-
-		val = (u16)tmp;
+		val = (u16)read_integer();
 	}
 }
 
@@ -529,10 +520,7 @@ void sys_json_reader::operator>>(i16& val) const {
 		val = (i16)atoi(text.c_str());
 
 	} else {
-		f64 tmp = 0;
-		(*this)>>tmp;
-
-		val = (i16)tmp;
+		val = (i16)read_integer();
 	}
 }
 
@@ -543,13 +531,10 @@ void sys_json_reader::operator>>(u32& val) const {
 
 		basiclog_assert2(!text.empty());
 
-		val = (u32)atoi(text.c_str());
+		val = (u32)_atoi64(text.c_str());
 
 	} else {
-		f64 tmp = 0;
-		(*this)>>tmp;
-
-		val = (u32)tmp;
+		val = (u32)read_integer();
 	}
 }
 
@@ -563,10 +548,7 @@ void sys_json_reader::operator>>(i32& val) const {
 		val = atoi(text.c_str());
 
 	} else {
-		f64 tmp = 0;
-		(*this)>>tmp;
-
-		val = (i32)tmp;
+		val = (i32)read_integer();
 	}
 }
 
@@ -577,13 +559,10 @@ void sys_json_reader::operator>>(u64& val) const {
 
 		basiclog_assert2(!text.empty());
 
-		val = (u64)_atoi64(text.c_str());
+		val = strtoull(text.c_str(), NULL, 10);
 
 	} else {
-		f64 tmp = 0;
-		(*this)>>tmp;
-
-		val = (u64)tmp;
+		val = (u64)read_integer();
 	}
 }
 
@@ -597,10 +576,7 @@ void sys_json_reader::operator>>(i64& val) const {
 		val = _atoi64(text.c_str());
 
 	} else {
-		f64 tmp = 0;
-		(*this)>>tmp;
-
-		val = (i64)tmp;
+		val = (i64)read_integer();
 	}
 }
 
@@ -659,6 +635,32 @@ void sys_json_reader::operator>>(f64& val) const {
 	}
 }
 
+i64 sys_json_reader::read_integer() const {
+	(const_cast<sys_json_reader*>(this))->load();
+
+	if (m_node_type == sys_Node_Type_Int) {
+		m_reader->seek(m_offset, sys_File_Seek_Set);
+		sys_byte_buffer_reader* byte_reader = (sys_byte_buffer_reader*)m_reader;
+
+		if (m_size == sizeof(i8)) {
+			return byte_reader->read_c8();
+		} else if (m_size == sizeof(i16)) {
+			return byte_reader->read_i16();
+		} else if (m_size == sizeof(i32)) {
+			return byte_reader->read_i32();
+		} else if (m_size == sizeof(i64)) {
+			return byte_reader->read_i64();
+		}
+	} else if (m_node_type == sys_Node_Type_Seq && (i32)m_seq_nodes.size() == 1) {
+		return m_seq_nodes[0].read_integer();
+	}
+
+	f64 val = 0;
+	(*this)>>val;
+
+	return (i64)val;
+}
+
 sys_json_reader sys_json_reader::operator[](const string& node_name) const {
 	(const_cast<sys_json_reader*>(this))->load();
 
-- 
2.43.0


From 4d406892da59750a227e0d84b77f58255d7e1533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:00 +0000
Subject: [PATCH 039/183] fix: [S01] json reported empty texts of binary maps
 as errors

---
 basicsys/src/sys_json.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/basicsys/src/sys_json.cpp b/basicsys/src/sys_json.cpp
index 563df87..816b296 100644
--- a/basicsys/src/sys_json.cpp
+++ b/basicsys/src/sys_json.cpp
@@ -403,7 +403,7 @@ void sys_json_writer::binary_write_str(const string& str) {
 
 			m_json_expected = sys_Json_Expected_Value;
 
-		} else if (m_json_expected = sys_Json_Expected_Value) {
+		} else if (m_json_expected == sys_Json_Expected_Value) {
 			m_writer->write(sys_Node_Type_Text);
 			m_writer->write((i32)(str.size() * sizeof(i8)));
 			m_writer->write(str);
@@ -875,10 +875,6 @@ void sys_json_reader::binary_load_struct_info() {
 
 			i32 node_data_size = reader->read_i32();
 
-			if (node_type != sys_Node_Type_Map && node_type != sys_Node_Type_Seq) {
-				basiclog_assert2(node_data_size > 0);
-			}
-
 			sys_json_reader node(reader, node_name, reader->position(), node_data_size, node_type);
 			m_map_nodes.insert(make_pair(node_name, node));
 
-- 
2.43.0


From 1ddae9d995c6dbda5cef266d1a273c6b61de4083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:00 +0000
Subject: [PATCH 040/183] fix: [S01] json appended a single value to the vector
 it was read into

---
 basicsys/include/sys_json.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/basicsys/include/sys_json.h b/basicsys/include/sys_json.h
index 08d5e66..dec3298 100644
--- a/basicsys/include/sys_json.h
+++ b/basicsys/include/sys_json.h
@@ -224,6 +224,7 @@ namespace basicsys {
 					++iter;
 				}
 			} else if (!is_map()) {
+				val.clear();
 				val.push_back(T());
 				(*this)>>val.back();
 			}
-- 
2.43.0


From 03f24fde9086ad65548ad794e96fffa1e85f757b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:00 +0000
Subject: [PATCH 041/183] fix: [S01] json lost empty texts at the start of a
 sequence and the last element of a sequence without an end

---
 basicsys/src/sys_json.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/basicsys/src/sys_json.cpp b/basicsys/src/sys_json.cpp
index 816b296..3a90726 100644
--- a/basicsys/src/sys_json.cpp
+++ b/basicsys/src/sys_json.cpp
@@ -770,20 +770,24 @@ void sys_json_reader::text_load_struct_info() {
 					last_index = node_data_stop_index + 2; //need skip } or ], and \n
 				}
 			} else {
-				//must be element!
-				int last_index = valid_index;
-				for (i32 i = last_index; i < (i32)text.size(); ++i) {
-					if (text.at(i) == '\t' || text.at(i) == '\n') {
-						//basiclog_assert2(i > last_index);
+				//must be element! the line of elements starts with the tabs that stand before the end of the sequence, and each element with one more
+				i32 line_stop_index = (i32)text.find('\n');
+				i32 tab_number = 0;
 
+				if (line_stop_index == -1) {
+					line_stop_index = (i32)text.size();
+				} else {
+					tab_number = (i32)text.size() - line_stop_index - 1;
+				}
+
+				int last_index = tab_number + 1;
+
+				for (i32 i = last_index; i <= line_stop_index; ++i) {
+					if (i == line_stop_index || text.at(i) == '\t') {
 						sys_json_reader node(m_reader, "", m_offset + last_index * sizeof(i8), (i32)(i - last_index) * sizeof(i8), sys_Node_Type_Text); //not include the last '\t'
 						m_seq_nodes.push_back(node);
 
 						last_index = i + 1; //need skip \t
-
-						if (text[i] == '\n') {
-							break;
-						}
 					}
 				}
 			}
-- 
2.43.0


From ec6823231622b140561e1784c3c2593a27579570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:04 +0000
Subject: [PATCH 042/183] fix: [S01] json readers cut the document by what was
 read from the buffer before

---
 basicsys/src/sys_json.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicsys/src/sys_json.cpp b/basicsys/src/sys_json.cpp
index 3a90726..2d0ee45 100644
--- a/basicsys/src/sys_json.cpp
+++ b/basicsys/src/sys_json.cpp
@@ -424,7 +424,7 @@ sys_json_reader::sys_json_reader(sys_buffer_reader* reader, const string& node_n
 	m_loaded = sys_false;
 
 	if (m_size == -1) {
-		m_size = (i32)reader->remain_size();
+		m_size = (i32)(reader->size() - offset);
 	}
 }
 
-- 
2.43.0


From 180429593b20b44796f2f7aab9637387b25f6830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:04 +0000
Subject: [PATCH 043/183] fix: [S02] closing a file buffer lost write errors

---
 basicsys/src/sys_buffer.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/basicsys/src/sys_buffer.cpp b/basicsys/src/sys_buffer.cpp
index bfd1383..c5f48ff 100644
--- a/basicsys/src/sys_buffer.cpp
+++ b/basicsys/src/sys_buffer.cpp
@@ -314,8 +314,8 @@ sys_byte_file_buffer_writer::~sys_byte_file_buffer_writer() {
 }
 
 void sys_byte_file_buffer_writer::close() {
-	if (m_file != NULL && m_need_close_file) {
-		fclose(m_file);
+	if (m_file != NULL && (m_need_close_file ? fclose(m_file) : fflush(m_file)) != 0) {
+		m_io_status = sys_IO_Status_Error_File_Operation;
 	}
 
 	m_file = NULL;
@@ -797,8 +797,8 @@ sys_string_file_buffer_writer::~sys_string_file_buffer_writer() {
 }
 
 void sys_string_file_buffer_writer::close() {
-	if (m_file != NULL && m_need_close_file) {
-		fclose(m_file);
+	if (m_file != NULL && (m_need_close_file ? fclose(m_file) : fflush(m_file)) != 0) {
+		m_io_status = sys_IO_Status_Error_File_Operation;
 	}
 
 	m_file = NULL;
-- 
2.43.0


From c42e3eca2a873beda2648a9ca52ea4771e7d3e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:00 +0000
Subject: [PATCH 044/183] fix: [S04] split kept the rest of tags of several
 characters and lost the text for an empty tag

---
 basicsys/src/sys_strhelper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicsys/src/sys_strhelper.cpp b/basicsys/src/sys_strhelper.cpp
index e61b0c1..4579cd1 100644
--- a/basicsys/src/sys_strhelper.cpp
+++ b/basicsys/src/sys_strhelper.cpp
@@ -32,7 +32,7 @@ void sys_strhelper::split(vector<string>& elements, const string& text, const st
 	}
 
 	if (split_tag.empty()) {
-		elements.push_back(split_tag);
+		elements.push_back(text);
 		return;
 	}
 
@@ -46,7 +46,7 @@ void sys_strhelper::split(vector<string>& elements, const string& text, const st
 		} else {
 			elements.push_back(text.substr(index, tempIndex - index));
 
-			index = tempIndex + 1;
+			index = tempIndex + split_tag.size();
 		}
 	}
 }
-- 
2.43.0


From 48c0327f44b6e6c2a4f8befba36422ebaedbc0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:00 +0000
Subject: [PATCH 045/183] fix: [S04] replacing an empty text did not end

---
 basicsys/src/sys_strhelper.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/basicsys/src/sys_strhelper.cpp b/basicsys/src/sys_strhelper.cpp
index 4579cd1..341c29e 100644
--- a/basicsys/src/sys_strhelper.cpp
+++ b/basicsys/src/sys_strhelper.cpp
@@ -52,6 +52,10 @@ void sys_strhelper::split(vector<string>& elements, const string& text, const st
 }
 
 void sys_strhelper::replace(string& text, const string& newValue, const string& oldValue) {
+	if (oldValue.empty()) {
+		return;
+	}
+
 	for(string::size_type pos = 0; pos != string::npos; pos += newValue.length())   {     
 		if ((pos = text.find(oldValue, pos)) != string::npos) {
 			text.replace(pos, oldValue.length(), newValue);     
-- 
2.43.0


From 889d9f76f7ed5389972360250f144f636512809f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:00 +0000
Subject: [PATCH 046/183] fix: [S04] combine cut long texts

---
 basicsys/src/sys_strhelper.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/basicsys/src/sys_strhelper.cpp b/basicsys/src/sys_strhelper.cpp
index 341c29e..6d9aca4 100644
--- a/basicsys/src/sys_strhelper.cpp
+++ b/basicsys/src/sys_strhelper.cpp
@@ -3,18 +3,22 @@
 
 
 string sys_strhelper::combine(const char* pszFormat, ...) {
-	char szBuffer[102400];
-
 	va_list ptr;
 	va_start(ptr, pszFormat);
-#ifdef _WIN32
-	vsprintf_s(szBuffer, sizeof(szBuffer) / sizeof(char), pszFormat, ptr);
-#else
-	vsprintf_s(szBuffer, pszFormat, ptr);
-#endif
+	i32 size = vsnprintf(NULL, 0, pszFormat, ptr);
+	va_end(ptr);
+
+	if (size <= 0) {
+		return string();
+	}
+
+	vector<char> buffer(size + 1);
+
+	va_start(ptr, pszFormat);
+	vsnprintf(&buffer[0], buffer.size(), pszFormat, ptr);
 	va_end(ptr);
 
-	return string(szBuffer);
+	return string(&buffer[0], size);
 }
 
 vector<string> sys_strhelper::split(const string& text, const string& split_tag) {
-- 
2.43.0


From 7c349a0fedb26f25122b1439465d29bcd0b7a438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:00 +0000
Subject: [PATCH 047/183] fix: [S04] levenshtein distance ignored the costs for
 empty words and mixed up insertion and deletion

---
 basicsys/src/sys_strhelper.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/basicsys/src/sys_strhelper.cpp b/basicsys/src/sys_strhelper.cpp
index 6d9aca4..dab8c94 100644
--- a/basicsys/src/sys_strhelper.cpp
+++ b/basicsys/src/sys_strhelper.cpp
@@ -84,9 +84,9 @@ int sys_strhelper::levenshtein_distance(const string& word1, const string& word2
 
 	//Process the exception
 	if (word1.empty()) {
-		return (int)word2.size();
+		return (int)word2.size() * insertCost;
 	} else if (word2.empty()) {
-		return (int)word1.size();
+		return (int)word1.size() * deleteCost;
 	}
 
 	//Select the small string as base to reduce the memory requirement
@@ -107,6 +107,9 @@ int sys_strhelper::levenshtein_distance(const string& word1, const string& word2
 
 	if (word1.size() > word2.size()) {
 		swap(smallString, largeString);
+	} else {
+		//the large string is changed to the small one, so that what is inserted to get word2 is deleted
+		swap(insertCost, deleteCost);
 	}
 
 	wstring::size_type size1 = largeString->size();
-- 
2.43.0


From f3de6e615a36f72f46819b02bdffe083d287e4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:00 +0000
Subject: [PATCH 048/183] fix: [S04] levenshtein distance overflowed for long
 or costly changes and leaked its buffers

---
 basicsys/src/sys_strhelper.cpp | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/basicsys/src/sys_strhelper.cpp b/basicsys/src/sys_strhelper.cpp
index dab8c94..b87b09b 100644
--- a/basicsys/src/sys_strhelper.cpp
+++ b/basicsys/src/sys_strhelper.cpp
@@ -151,29 +151,33 @@ int sys_strhelper::levenshtein_distance(const string& word1, const string& word2
 
 	//optimization
 	if (size2 < 16) {
-		STRING_DEFINE_BUFFER_ALLOC_STATIC(uint8_t, 16);
-		STRING_DEFINE_CALCULATE_DIST(uint8_t);
+		STRING_DEFINE_BUFFER_ALLOC_STATIC(uint32_t, 16);
+		STRING_DEFINE_CALCULATE_DIST(uint32_t);
 	} else if (size2 < 32) {
-		STRING_DEFINE_BUFFER_ALLOC_STATIC(uint8_t, 32);
-		STRING_DEFINE_CALCULATE_DIST(uint8_t);
+		STRING_DEFINE_BUFFER_ALLOC_STATIC(uint32_t, 32);
+		STRING_DEFINE_CALCULATE_DIST(uint32_t);
 	} else if (size2 < 64) {
-		STRING_DEFINE_BUFFER_ALLOC_STATIC(uint8_t, 64);
-		STRING_DEFINE_CALCULATE_DIST(uint8_t);
+		STRING_DEFINE_BUFFER_ALLOC_STATIC(uint32_t, 64);
+		STRING_DEFINE_CALCULATE_DIST(uint32_t);
 	} else if (size2 < 256) {
-		STRING_DEFINE_BUFFER_ALLOC_STATIC(uint8_t, 256);
-		STRING_DEFINE_CALCULATE_DIST(uint8_t);
+		STRING_DEFINE_BUFFER_ALLOC_STATIC(uint32_t, 256);
+		STRING_DEFINE_CALCULATE_DIST(uint32_t);
 	} else if (size2 < 1024) {
-		STRING_DEFINE_BUFFER_ALLOC_STATIC(uint16_t, 1024);
-		STRING_DEFINE_CALCULATE_DIST(uint16_t);
+		STRING_DEFINE_BUFFER_ALLOC_STATIC(uint32_t, 1024);
+		STRING_DEFINE_CALCULATE_DIST(uint32_t);
 	} else if (size2 < 4048) {
-		STRING_DEFINE_BUFFER_ALLOC_STATIC(uint16_t, 4048);
-		STRING_DEFINE_CALCULATE_DIST(uint16_t);
+		STRING_DEFINE_BUFFER_ALLOC_STATIC(uint32_t, 4048);
+		STRING_DEFINE_CALCULATE_DIST(uint32_t);
 	} else if (size2 < SHRT_MAX) {
-		STRING_DEFINE_BUFFER_ALLOC_DYMANAIC(uint16_t, size2 + 1);
-		STRING_DEFINE_CALCULATE_DIST(uint16_t);
+		STRING_DEFINE_BUFFER_ALLOC_DYMANAIC(uint32_t, size2 + 1);
+		STRING_DEFINE_CALCULATE_DIST(uint32_t);
+		delete[] p;
+		delete[] q;
 	} else {
 		STRING_DEFINE_BUFFER_ALLOC_DYMANAIC(uint32_t, size2 + 1);
 		STRING_DEFINE_CALCULATE_DIST(uint32_t);
+		delete[] p;
+		delete[] q;
 	}
 
 	return dist;
-- 
2.43.0


From 8edc31febf0e95b8be7577e8b6f371cad9e114e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:20 +0000
Subject: [PATCH 049/183] fix: [S03] listing files by extension took shorter
 names and missed names that repeat it

---
 basicsys/src/sys_path.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicsys/src/sys_path.cpp b/basicsys/src/sys_path.cpp
index d93ac39..269ac87 100644
--- a/basicsys/src/sys_path.cpp
+++ b/basicsys/src/sys_path.cpp
@@ -91,7 +91,7 @@ void sys_path::get_file_path(vector<string>& filePaths, const string& dirPath, c
 
 		string s_name(entry->d_name);
 
-		if (!expandName.empty() && (i32)s_name.find(expandName) != (i32)s_name.size() - (i32)expandName.size()) {
+		if (s_name.size() < expandName.size() || s_name.compare(s_name.size() - expandName.size(), expandName.size(), expandName) != 0) {
 			continue;
 		}
 
@@ -163,7 +163,7 @@ void sys_path::get_file_name(vector<string>& fileNames, const string& dirPath, c
 
 		string s_name(entry->d_name);
 
-		if (!expandName.empty() && (i32)s_name.find(expandName) != (i32)s_name.size() - (i32)expandName.size()) {
+		if (s_name.size() < expandName.size() || s_name.compare(s_name.size() - expandName.size(), expandName.size(), expandName) != 0) {
 			continue;
 		}
 
-- 
2.43.0


From f8e9e632bacd43298ecb329a2cb83b6bc55f41cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:20 +0000
Subject: [PATCH 050/183] fix: [S03] deleting a directory left its sub
 directories

---
 basicsys/src/sys_path.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicsys/src/sys_path.cpp b/basicsys/src/sys_path.cpp
index 269ac87..b411a94 100644
--- a/basicsys/src/sys_path.cpp
+++ b/basicsys/src/sys_path.cpp
@@ -394,8 +394,8 @@ void sys_path::delete_sub_dir(const string& dir) {
 	vector<string> subDirs;
 	get_dir_path(subDirs, dir);
 
-	for (int i = 0; i < (int)subFiles.size(); ++i) {
-		delete_dir(subFiles[i], true);
+	for (int i = 0; i < (int)subDirs.size(); ++i) {
+		delete_dir(subDirs[i], true);
 	}
 }
 
-- 
2.43.0


From 48708c17f60dba1e97ea83b6c9c8f12dc6717188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:20 +0000
Subject: [PATCH 051/183] fix: [S03] the extension of a file without one came
 from its directory

---
 basicsys/src/sys_path.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/basicsys/src/sys_path.cpp b/basicsys/src/sys_path.cpp
index b411a94..5eef9f9 100644
--- a/basicsys/src/sys_path.cpp
+++ b/basicsys/src/sys_path.cpp
@@ -286,10 +286,11 @@ string sys_path::get_file_extend_name(const string& path) {
 		return string((""));
 	}
 
-	string::size_type index = path.rfind('.');
+	string file_name = get_file_name(path);
+	string::size_type index = file_name.rfind('.');
 
 	if (string::npos != index) {
-		string extend_name = path.substr(index);
+		string extend_name = file_name.substr(index);
 		sys_strhelper::lower(extend_name);
 		return extend_name;
 	} else {
-- 
2.43.0


From c973acf4b6d73bdab17c8e6a8ee1a62b1b3a5877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:20 +0000
Subject: [PATCH 052/183] fix: [S03] creating a directory overran its buffer
 for long paths

---
 basicsys/src/sys_path.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/basicsys/src/sys_path.cpp b/basicsys/src/sys_path.cpp
index 5eef9f9..ff8ad55 100644
--- a/basicsys/src/sys_path.cpp
+++ b/basicsys/src/sys_path.cpp
@@ -322,18 +322,16 @@ bool sys_path::create_multi_dir(const string& dir) {
 	if (_access(dir.c_str(), 0) == 0)
 		return true;
 
-	char szTemp[1024] = {('\0')};
 	string::size_type nPos = dir.find(('/'));
 	while (string::npos != nPos)
 	{
-		strncpy_s(szTemp, 1024, dir.c_str(), nPos + 1);
-		szTemp[nPos + 1] = '\0';
-		if (_access(szTemp, 00) == -1) {
+		string sub_dir = dir.substr(0, nPos + 1);
+		if (_access(sub_dir.c_str(), 00) == -1) {
 #ifdef _WIN32
-			if (!CreateDirectoryA(szTemp, NULL))
+			if (!CreateDirectoryA(sub_dir.c_str(), NULL))
 				return false;
 #else
-			if (mkdir(szTemp, 0000777) != 0)
+			if (mkdir(sub_dir.c_str(), 0000777) != 0)
 				return false;
 #endif
 		}
-- 
2.43.0


From 17c59dadda37b5769d9a05f1c5473d65aaadac8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:20 +0000
Subject: [PATCH 053/183] fix: [S03] copying and moving files ignored
 fail_if_exist, and copying took names with blanks apart

---
 basicsys/src/sys_path.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/basicsys/src/sys_path.cpp b/basicsys/src/sys_path.cpp
index ff8ad55..d1594b7 100644
--- a/basicsys/src/sys_path.cpp
+++ b/basicsys/src/sys_path.cpp
@@ -428,12 +428,21 @@ bool sys_path::copy_file(const string& dst, const string& src, bool fail_if_exis
 #ifdef _WIN32
 	return ::CopyFileA(src.c_str(), dst.c_str(), fail_if_exist) == TRUE;
 #else
-	return system(((string)(sys_strcombine()<<"cp -r "<<src.c_str()<<" "<<dst.c_str())).c_str()) == 0;
+	if (fail_if_exist && is_exist(dst)) {
+		return false;
+	}
+
+	string quoted_src = src;
+	string quoted_dst = dst;
+	sys_strhelper::replace(quoted_src, "'\\''", "'");
+	sys_strhelper::replace(quoted_dst, "'\\''", "'");
+
+	return system(((string)(sys_strcombine()<<"cp -r -- '"<<quoted_src<<"' '"<<quoted_dst<<"'")).c_str()) == 0;
 #endif
 }
 
 bool sys_path::move_file(const string& dst, const string& src, bool fail_if_exist) {
-	if (is_exist(dst)) {
+	if (fail_if_exist && is_exist(dst)) {
 		return false;
 	}
 
-- 
2.43.0


From 39d320bc5c304e0f8c2729227cbb36c5ca4be913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:32 +0000
Subject: [PATCH 054/183] fix: [S02] read_line of a file did not end when the
 device failed

---
 basicsys/src/sys_buffer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicsys/src/sys_buffer.cpp b/basicsys/src/sys_buffer.cpp
index c5f48ff..fe0b8b6 100644
--- a/basicsys/src/sys_buffer.cpp
+++ b/basicsys/src/sys_buffer.cpp
@@ -1034,7 +1034,7 @@ void sys_string_file_buffer_reader::read_line(string& str) const {
 	while (!is_eof()) {
 		i8 c = read_char();
 
-		if (c == '\n') {
+		if (c == '\n' || m_io_status == sys_IO_Status_Error_File_Operation) {
 			break;
 		}
 
-- 
2.43.0


From 1673edb2da5c2f9a3ba6a628424272f0ec554b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:22 +0000
Subject: [PATCH 055/183] fix: [M08] V1 sorted the borders between upper and
 lower partitions by the pixels to the right, past the row

---
 basicimg/src/img_fast_mser_v1.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/basicimg/src/img_fast_mser_v1.cpp b/basicimg/src/img_fast_mser_v1.cpp
index c95fd7d..f8e6c19 100644
--- a/basicimg/src/img_fast_mser_v1.cpp
+++ b/basicimg/src/img_fast_mser_v1.cpp
@@ -1696,7 +1696,7 @@ void img_fast_mser_v1::merge_tree_parallel_4(const mt_mat& src, u8 gray_mask) {
 				u8 g = *data;
 
 				if ((gray_mask == 0) ? (* (data + row_step) < g) : (* (data + row_step) > g)) {
-					g = * (data + col_step);
+					g = * (data + row_step);
 				}
 
 				++gray_number[g];
@@ -1712,7 +1712,7 @@ void img_fast_mser_v1::merge_tree_parallel_4(const mt_mat& src, u8 gray_mask) {
 				u8 g = *data;
 
 				if ((gray_mask == 0) ? (* (data + row_step) < g) : (* (data + row_step) > g)) {
-					g = * (data + col_step);
+					g = * (data + row_step);
 				}
 
 				order_indexes[gray_integral[g]++] = col;
@@ -2215,7 +2215,7 @@ void img_fast_mser_v1::merge_tree_parallel_step(const mt_mat& src, u8 gray_mask,
 			u8 g = *data;
 
 			if ((gray_mask == 0) ? (* (data + row_step) < g) : (* (data + row_step) > g)) {
-				g = * (data + col_step);
+				g = * (data + row_step);
 			}
 
 			++gray_number[g];
@@ -2231,7 +2231,7 @@ void img_fast_mser_v1::merge_tree_parallel_step(const mt_mat& src, u8 gray_mask,
 			u8 g = *data;
 
 			if ((gray_mask == 0) ? (* (data + row_step) < g) : (* (data + row_step) > g)) {
-				g = * (data + col_step);
+				g = * (data + row_step);
 			}
 
 			order_indexes[gray_integral[g]++] = col;
-- 
2.43.0


From 8d7f2b78f1956808c8a4f2095ce9748e98bf4ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 056/183] fix: [M10] the linked extractor ignored rectangular
 masks

---
 basicimg/src/img_linked_linear_mser.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/basicimg/src/img_linked_linear_mser.cpp b/basicimg/src/img_linked_linear_mser.cpp
index 407bf05..8991664 100644
--- a/basicimg/src/img_linked_linear_mser.cpp
+++ b/basicimg/src/img_linked_linear_mser.cpp
@@ -118,6 +118,11 @@ void img_linked_linear_mser::calculate_variance_with_cache(mser_region& region)
 void img_linked_linear_mser::allocate_memory(const mt_mat& src, const img_mask_info<u8>& mask) {
 	i32 area = 0;
 	m_mask_activate_rect.set_rect(mt_point(0, 0), mt_size(src.size()[1], src.size()[0]));
+
+	if (img_Mask_Type_Rect == mask.m_mask_type) {
+		m_mask_activate_rect = mask.m_mask_rect;
+	}
+
 	area = m_mask_activate_rect.getArea();
 	/*
 	if (m_enable_memory_cache) {
@@ -503,8 +508,9 @@ void img_linked_linear_mser::extract_pass(i16* ioptr) {
 
 		// get the current location
 		i32 imsk = (i32)(imgptr-ioptr);		
-		ptsptr->m_point.m_y = imsk / mask_image_width;
-		ptsptr->m_point.m_x = imsk - (ptsptr->m_point.m_y * mask_image_width);
+		i32 point_row = imsk / mask_image_width;
+		ptsptr->m_point.m_y = point_row + m_mask_activate_rect.m_top;
+		ptsptr->m_point.m_x = imsk - (point_row * mask_image_width) + m_mask_activate_rect.m_left;
 
 		accumulate_comp( comptr, ptsptr );
 		ptsptr++;
-- 
2.43.0


From 33323dc610c94a4270f330fc63d1b12a0002d45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 057/183] fix: [M10] the original extractor looked for the
 value to leave out along wrong rows in a view

---
 basicimg/src/img_origin_mser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/basicimg/src/img_origin_mser.cpp b/basicimg/src/img_origin_mser.cpp
index 7769045..ec3c782 100644
--- a/basicimg/src/img_origin_mser.cpp
+++ b/basicimg/src/img_origin_mser.cpp
@@ -557,6 +557,8 @@ void img_original_mser::allocate_memory(const mt_mat& image, const img_mask_info
 						colMin = min(colMin, col);
 					}
 				}
+
+				imageData += image.step()[0] - image.size()[1];
 			}
 
 			mt_size targetImageSize(colMax - colMin + 1, rowMax - rowMin + 1);
-- 
2.43.0


From 648de26d2f73b0e91a31ab7f92b28ccdbf8b5e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:51 +0000
Subject: [PATCH 058/183] fix: [M10] a mask that admits no pixel crashed the
 original extractor

---
 basicimg/src/img_origin_mser.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/basicimg/src/img_origin_mser.cpp b/basicimg/src/img_origin_mser.cpp
index ec3c782..8673fe5 100644
--- a/basicimg/src/img_origin_mser.cpp
+++ b/basicimg/src/img_origin_mser.cpp
@@ -506,6 +506,12 @@ void img_original_mser::allocate_memory(const mt_mat& image, const img_mask_info
 				maskData += mask_append_offset;
 			}
 
+			if (rowMin > rowMax) {
+				// no pixel is considered
+				rowMin = colMin = 0;
+				rowMax = colMax = -1;
+			}
+
 			mt_size targetImageSize(colMax - colMin + 1, rowMax - rowMin + 1);
 			activate_rect.set_rect(mt_point(colMin, rowMin), targetImageSize);
 
@@ -561,6 +567,12 @@ void img_original_mser::allocate_memory(const mt_mat& image, const img_mask_info
 				imageData += image.step()[0] - image.size()[1];
 			}
 
+			if (rowMin > rowMax) {
+				// no pixel is considered
+				rowMin = colMin = 0;
+				rowMax = colMax = -1;
+			}
+
 			mt_size targetImageSize(colMax - colMin + 1, rowMax - rowMin + 1);
 			activate_rect.set_rect(mt_point(colMin, rowMin), targetImageSize);
 
-- 
2.43.0


From 3468415742e1f9f87f70fde27b5370c05530d676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:26 +0000
Subject: [PATCH 059/183] fix: [T01] setting a matrix from another depth read
 the source as its own depth

---
 basicmath/src/mt_mat.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index 7c6de64..b0d76fb 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -1520,7 +1520,7 @@ mt_mat& mt_mat::set(const mt_mat& other) {
 		}
 	} else {
 		if (depth() == mt_U8) {
-			switch (depth()) {
+			switch (other.depth()) {
 			case mt_U8:
 				private_mat::set<u8, u8>(*this, other);
 				break;
@@ -1556,7 +1556,7 @@ mt_mat& mt_mat::set(const mt_mat& other) {
 				break;
 			}
 		} else if (depth() == mt_I8) {
-			switch (depth()) {
+			switch (other.depth()) {
 			case mt_U8:
 				private_mat::set<i8, u8>(*this, other);
 				break;
@@ -1592,7 +1592,7 @@ mt_mat& mt_mat::set(const mt_mat& other) {
 				break;
 			}
 		} else if (depth() == mt_U16) {
-			switch (depth()) {
+			switch (other.depth()) {
 			case mt_U8:
 				private_mat::set<u16, u8>(*this, other);
 				break;
@@ -1628,7 +1628,7 @@ mt_mat& mt_mat::set(const mt_mat& other) {
 				break;
 			}
 		} else if (depth() == mt_I16) {
-			switch (depth()) {
+			switch (other.depth()) {
 			case mt_U8:
 				private_mat::set<i16, u8>(*this, other);
 				break;
@@ -1664,7 +1664,7 @@ mt_mat& mt_mat::set(const mt_mat& other) {
 				break;
 			}
 		} else if (depth() == mt_U32) {
-			switch (depth()) {
+			switch (other.depth()) {
 			case mt_U8:
 				private_mat::set<u32, u8>(*this, other);
 				break;
@@ -1700,7 +1700,7 @@ mt_mat& mt_mat::set(const mt_mat& other) {
 				break;
 			}
 		} else if (depth() == mt_I32) {
-			switch (depth()) {
+			switch (other.depth()) {
 			case mt_U8:
 				private_mat::set<i32, u8>(*this, other);
 				break;
@@ -1736,7 +1736,7 @@ mt_mat& mt_mat::set(const mt_mat& other) {
 				break;
 			}
 		} else if (depth() == mt_U64) {
-			switch (depth()) {
+			switch (other.depth()) {
 			case mt_U8:
 				private_mat::set<u64, u8>(*this, other);
 				break;
@@ -1772,7 +1772,7 @@ mt_mat& mt_mat::set(const mt_mat& other) {
 				break;
 			}
 		} else if (depth() == mt_I64) {
-			switch (depth()) {
+			switch (other.depth()) {
 			case mt_U8:
 				private_mat::set<i64, u8>(*this, other);
 				break;
@@ -1808,7 +1808,7 @@ mt_mat& mt_mat::set(const mt_mat& other) {
 				break;
 			}
 		} else if (depth() == mt_F32) {
-			switch (depth()) {
+			switch (other.depth()) {
 			case mt_U8:
 				private_mat::set<f32, u8>(*this, other);
 				break;
@@ -1844,7 +1844,7 @@ mt_mat& mt_mat::set(const mt_mat& other) {
 				break;
 			}
 		} else if (depth() == mt_F64) {
-			switch (depth()) {
+			switch (other.depth()) {
 			case mt_U8:
 				private_mat::set<f64, u8>(*this, other);
 				break;
-- 
2.43.0


From ebb773c70b574297b73b6aa19bf571bf45269bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:25 +0000
Subject: [PATCH 060/183] fix: [T01] matrices of more than four dimensions read
 and wrote outside their sizes

---
 basicmath/src/mt_mat.cpp | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index b0d76fb..34e5a7b 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -1113,7 +1113,7 @@ mt_mat::mt_mat(i32 dims, const i32* sizes, mt_Depth_Channel depth_channel, u8* d
 
 		if (m_dims > 4) {
 			m_dynamic_size_step_size = m_dims;
-			m_dynamic_size_steps = new int[m_dynamic_size_step_size * 2];
+			m_dynamic_size_steps = (i32*)malloc(sizeof(i32) * (m_dynamic_size_step_size * 2));
 		}
 
 		for (int i = 0; i < dims; ++i) {
@@ -2076,6 +2076,7 @@ void mt_mat::operator =(const mt_mat& other) {
 		}
 
 		m_dynamic_size_step_size = other.m_dims;
+		m_dynamic_size_steps = (i32*)malloc(sizeof(i32) * (m_dynamic_size_step_size * 2));
 	}
 
 	m_dims = other.m_dims;
@@ -2236,9 +2237,9 @@ mt_mat mt_mat::reshape(int dims, const int* sizes, i32 new_channel) const {
 	mt_mat res;
 	res.m_dims = dims;
 
-	if (res.m_dims > 4 && m_dynamic_size_step_size < res.m_dims) {
+	if (res.m_dims > 4) {
 		res.m_dynamic_size_step_size = res.m_dims;
-		res.m_dynamic_size_steps = new int[m_dynamic_size_step_size * 2];
+		res.m_dynamic_size_steps = (i32*)malloc(sizeof(i32) * (res.m_dynamic_size_step_size * 2));
 	}
 
 	for (int i = 0; i < res.m_dims; ++i) {
@@ -2302,7 +2303,7 @@ mt_mat mt_mat::split_dim(int dim, int splited_dims, int* splited_sizes) const {
 
 	if (res.m_dims > mt_Mat_Normal_Support_Dim) {
 		res.m_dynamic_size_step_size = res.m_dims;
-		res.m_dynamic_size_steps = new int[m_dynamic_size_step_size * 2];
+		res.m_dynamic_size_steps = (i32*)malloc(sizeof(i32) * (res.m_dynamic_size_step_size * 2));
 	}
 
 	for (int i = 0; i < splited_dims; ++i) {
@@ -2355,6 +2356,11 @@ mt_mat mt_mat::combine_dim(int combined_dim_start, int combined_dim_count) const
 
 	res.m_dims = m_dims - combined_dim_count + 1;
 
+	if (res.m_dims > mt_Mat_Normal_Support_Dim) {
+		res.m_dynamic_size_step_size = res.m_dims;
+		res.m_dynamic_size_steps = (i32*)malloc(sizeof(i32) * (res.m_dynamic_size_step_size * 2));
+	}
+
 	for (int i = 0; i < combined_dim_start; ++i) {
 		res.size()[i] = size()[i];
 		res.step()[i] = step()[i];
@@ -2574,7 +2580,7 @@ mt_mat mt_mat::channel_as_last_dim() const {
 
 	if (res.m_dims > mt_Mat_Normal_Support_Dim) {
 		res.m_dynamic_size_step_size = res.m_dims;
-		res.m_dynamic_size_steps = new int[m_dynamic_size_step_size * 2];
+		res.m_dynamic_size_steps = (i32*)malloc(sizeof(i32) * (res.m_dynamic_size_step_size * 2));
 	}
 
 	for (int i = 0; i < m_dims; ++i) {
@@ -2606,6 +2612,11 @@ mt_mat mt_mat::last_dim_as_channel() const {
 	mt_mat res;
 	res.m_dims = m_dims - 1;
 
+	if (res.m_dims > mt_Mat_Normal_Support_Dim) {
+		res.m_dynamic_size_step_size = res.m_dims;
+		res.m_dynamic_size_steps = (i32*)malloc(sizeof(i32) * (res.m_dynamic_size_step_size * 2));
+	}
+
 	for (int i = 0; i < res.m_dims; ++i) {
 		res.size()[i] = size()[i];
 		res.step()[i] = step()[i];
@@ -2726,7 +2737,7 @@ mt_mat mt_mat::sub(i32 dims, const mt_range* ranges) const {
 
 	if (res.m_dims > 4) {
 		res.m_dynamic_size_step_size = res.m_dims;
-		res.m_dynamic_size_steps = new int[res.m_dynamic_size_step_size * 2];
+		res.m_dynamic_size_steps = (i32*)malloc(sizeof(i32) * (res.m_dynamic_size_step_size * 2));
 	}
 
 	res.m_data = m_data;
@@ -2777,8 +2788,10 @@ mt_mat mt_mat::sub(const mt_range& range, int dim) const {
 		}
 	}
 
+	mt_mat res = sub(m_dims, ranges);
+
 	basicmath_mat_release(ranges);
-	return sub(m_dims, ranges);
+	return res;
 
 	/*basiclog_assert("mt_mat", range.is_valid() && (range.m_end <= this->size()[dim]));
 
-- 
2.43.0


From 7e9f5d1bc77990d7ec1e4ffd5997a01f4e581177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:25 +0000
Subject: [PATCH 061/183] fix: [T01] repeating a matrix of more than four
 dimensions leaked its sizes

---
 basicmath/src/mt_mat.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index 34e5a7b..1fca7ff 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -2412,9 +2412,10 @@ mt_mat mt_mat::repeat(i32 nsize, i32 dim, i32 nchannels) const {
 
 	nsizes[dim] = nsize;
 	
-	return repeat(this->dim(), nsizes, nchannels);
+	mt_mat res = repeat(this->dim(), nsizes, nchannels);
 
 	basicmath_mat_release(nsizes);
+	return res;
 }
 
 mt_mat mt_mat::repeat(const vector<i32>& nsizes, i32 nchannels) const {
@@ -2438,6 +2439,7 @@ mt_mat mt_mat::repeat(i32 dims, const i32* nsizes, i32 nchannels) const {
 	}
 
 	if (!size_changed && nchannels == 1) {
+		basicmath_mat_release(dst_sizes);
 		return clone();
 	}
 
-- 
2.43.0


From 8f2a4669c6a83f06feb32a4eb7d69df6888c43d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:25 +0000
Subject: [PATCH 062/183] fix: [T01] matrices over given memory never took its
 ownership

---
 basicmath/src/mt_mat.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index 1fca7ff..92f4945 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -1073,7 +1073,7 @@ mt_mat::mt_mat(int cols, mt_Depth_Channel depth, u8* data, const int* steps, u8*
 	, m_auto_derivative(NULL)
 	, m_shared_memory(NULL) {
 		int sizes[] = {cols};
-		*this = mt_mat(1, sizes, depth, data, steps);
+		*this = mt_mat(1, sizes, depth, data, steps, share_mmeory);
 }
 
 mt_mat::mt_mat(int row, int col, mt_Depth_Channel depth, u8* data, const int* steps, u8* share_mmeory) 
@@ -1085,7 +1085,7 @@ mt_mat::mt_mat(int row, int col, mt_Depth_Channel depth, u8* data, const int* st
 	, m_auto_derivative(NULL)
 	, m_shared_memory(NULL) {
 		int sizes[] = {row, col};
-		*this = mt_mat(2, sizes, depth, data, steps);
+		*this = mt_mat(2, sizes, depth, data, steps, share_mmeory);
 }
 
 mt_mat::mt_mat(int plane, int row, int col, mt_Depth_Channel depth, u8* data, const int* steps, u8* share_mmeory) 
@@ -1097,7 +1097,7 @@ mt_mat::mt_mat(int plane, int row, int col, mt_Depth_Channel depth, u8* data, co
 	, m_auto_derivative(NULL)
 	, m_shared_memory(NULL) {
 		int sizes[] = {plane, row, col};
-		*this = mt_mat(3, sizes, depth, data, steps);
+		*this = mt_mat(3, sizes, depth, data, steps, share_mmeory);
 }
 
 mt_mat::mt_mat(i32 dims, const i32* sizes, mt_Depth_Channel depth_channel, u8* data, const i32* steps, u8* share_mmeory) 
@@ -1144,7 +1144,7 @@ mt_mat::mt_mat(const vector<i32>& sizes, mt_Depth_Channel depth_channel, u8* dat
 	, m_dims(0)
 	, m_auto_derivative(NULL)
 	, m_shared_memory(NULL) {
-		*this = mt_mat((i32)sizes.size(), &sizes[0], depth_channel, data, steps.empty() ? NULL : &steps[0]);
+		*this = mt_mat((i32)sizes.size(), &sizes[0], depth_channel, data, steps.empty() ? NULL : &steps[0], share_mmeory);
 }
 
 mt_mat::mt_mat(const mt_mat& other, Construct_Type type)
-- 
2.43.0


From c91d5c3345a2de31022e49f96a2bd54cf6d12d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:25 +0000
Subject: [PATCH 063/183] fix: [T01] is_zero looked at the first bytes of an
 element only

---
 basicmath/src/mt_mat.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index 92f4945..35f9ef8 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -1333,7 +1333,10 @@ b8 mt_mat::is_zero() const {
 		}
 
 		for (i32 c = 0; c < channel(); ++c) {
-			if (ptr_data[c] != 0) {
+			f64 value = 0;
+			private_mat::get_data(&value, ptr_data + c * element_channel_size(), mt_Depth_Channel(depth(), 1));
+
+			if (value != 0) {
 				return sys_false;
 			}
 		}
-- 
2.43.0


From 676cc057c121eb0bbdaef404110b74a54c4a2fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:25 +0000
Subject: [PATCH 064/183] fix: [T01] set_eye had no body and no result

---
 basicmath/src/mt_mat.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index 35f9ef8..059e248 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -1353,6 +1353,14 @@ mt_mat& mt_mat::set_eye(b8 left_high) {
 	basiclog_assert2(dim() == 2);
 	on_vaule_changed();
 
+	set(0.0);
+
+	for (i32 row = 0; row < min(size()[0], size()[1]); ++row) {
+		i32 indexs[] = {row, left_high ? row : size()[1] - 1 - row};
+		set(1.0, 2, indexs);
+	}
+
+	return *this;
 }
 
 b8 mt_mat::operator==(const mt_mat& other) const {
-- 
2.43.0


From b7482602bdcf44f5191ff2df094bb591b7215a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:25 +0000
Subject: [PATCH 065/183] fix: [T01] comparing matrices ignored their number of
 dimensions

---
 basicmath/src/mt_mat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index 059e248..359a258 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -1364,7 +1364,7 @@ mt_mat& mt_mat::set_eye(b8 left_high) {
 }
 
 b8 mt_mat::operator==(const mt_mat& other) const {
-	if (other.depth_channel() != depth_channel()) {
+	if (other.depth_channel() != depth_channel() || other.dim() != dim()) {
 		return false;
 	}
 
-- 
2.43.0


From a04bc83fce831ff4eef980f28549ec8d886c6c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:25 +0000
Subject: [PATCH 066/183] fix: [T01] plane took a column

---
 basicmath/src/mt_mat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index 359a258..ccaabf6 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -2706,7 +2706,7 @@ mt_mat mt_mat::col(int col) const {
 mt_mat mt_mat::plane(int plane) const {
 	basiclog_assert("mt_mat", m_dims == 3);
 
-	return index(plane, 2);
+	return index(plane, 0);
 }
 
 mt_mat mt_mat::front(int number, int dim /* = 0 */) const {
-- 
2.43.0


From 3ab95f0c112860e27d2d122cf81cce06f626300c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:25 +0000
Subject: [PATCH 067/183] fix: [T01] flipping a list of dimensions flipped
 others at random

---
 basicmath/src/mt_mat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index ccaabf6..030a3cc 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -2533,7 +2533,7 @@ mt_mat mt_mat::flip(int size, const int* dims) const {
 
 	basicmath_mat_request_memory(b8, flip_flags, dim());
 
-	for (i32 i = 0; i < size; ++i) {
+	for (i32 i = 0; i < dim(); ++i) {
 		flip_flags[i] = sys_false;
 	}
 
-- 
2.43.0


From c37a3a119aa74b98d03a2e43b0a3bfbb3d2dac9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:25 +0000
Subject: [PATCH 068/183] fix: [T01] setting three dimensional views of more
 than four channels moved on after each channel

---
 basicmath/src/mt_mat.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index 030a3cc..db8f93e 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -478,9 +478,9 @@ namespace basicmath {
 
 								for (int c = 0; c < channels; ++c) {
 									ptr_data[c] = assign_values[c];
-
-									ptr_data += last_step;
 								}
+
+								ptr_data += last_step;
 							}
 
 							ptr_dim1 += mat.step()[1];
-- 
2.43.0


From 3f74cf0f60aa7497191f766de8a6de9bfe016217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:12 +0000
Subject: [PATCH 069/183] fix: [T01] the index of an element was taken from
 dimensions of size one

---
 basicmath/src/mt_mat.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index db8f93e..2fdb5a6 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -2883,7 +2883,15 @@ void mt_mat::get_index(vector<int>& index, const u8* ptr_data) const {
 
 		int count = 0;
 
-		for (;;) {
+		for (int i = 0; i < m_dims; ++i) {
+			if (size()[i] == 1) {
+				index[i] = 0;
+				flags[i] = sys_true;
+				++count;
+			}
+		}
+
+		while (count < m_dims) {
 			int max_abs_step = 0;
 			int max_index = -1;
 
@@ -2899,10 +2907,6 @@ void mt_mat::get_index(vector<int>& index, const u8* ptr_data) const {
 			flags[max_index] = sys_true;
 
 			++count;
-
-			if (count == m_dims) {
-				break;
-			}
 		}
 
 		basicmath_mat_release(flags);
-- 
2.43.0


From 4063eae358e24775cf3d136f3c643a6b8a68056d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:12 +0000
Subject: [PATCH 070/183] fix: [T01] combining dimensions that do not follow
 each other in memory showed other elements

---
 basicmath/src/mt_mat.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index 2fdb5a6..b996d21 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -2350,9 +2350,12 @@ mt_mat mt_mat::split_dim(int dim, int splited_dims, int* splited_sizes) const {
 
 mt_mat mt_mat::combine_dim(int combined_dim_start, int combined_dim_count) const {
 	bool order_dim = true;
+	bool leading_one = true;
 
 	for (int i = 0; i < combined_dim_count - 1; ++i) {
-		if (step()[combined_dim_start + i] < step()[i + combined_dim_start + 1]) {
+		leading_one = leading_one && size()[combined_dim_start + i] == 1;
+
+		if (!leading_one && step()[combined_dim_start + i] != step()[i + combined_dim_start + 1] * size()[i + combined_dim_start + 1]) {
 			order_dim = false;
 			break;
 		}
-- 
2.43.0


From 5119f9ea19dbe5fca98d13679b6d1fa95891d8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:12 +0000
Subject: [PATCH 071/183] fix: [T01] reshaping a matrix flipped in all
 dimensions read behind its memory

---
 basicmath/src/mt_mat.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index b996d21..899ba66 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -2275,6 +2275,12 @@ mt_mat mt_mat::reshape(int dims, const int* sizes, i32 new_channel) const {
 
 	res.fill_auto_step();
 
+	if (is_step_negative() && current_total_size > 1) {
+		for (int i = 0; i < res.m_dims; ++i) {
+			res.step()[i] = -res.step()[i];
+		}
+	}
+
 	if (m_auto_derivative != NULL && m_auto_derivative->stage() == mt_auto_derivative::Stage_Record_Computing) {
 		res.attach(m_auto_derivative);
 
-- 
2.43.0


From 83c84748f03b34d5b0475890b90b3631b0f00f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:12 +0000
Subject: [PATCH 072/183] fix: [T01] converting to the same depth lost digits
 of 64 bit numbers

---
 basicmath/src/mt_mat.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index 899ba66..e112678 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -2049,6 +2049,11 @@ mt_mat mt_mat::clone() const {
 void mt_mat::convert(mt_mat& res, mt_Depth depth) const {
 	res.create(dim(), size(), mt_Depth_Channel(depth, channel()));
 
+	if (depth == this->depth()) {
+		res.set(*this);
+		return;
+	}
+
 	mt_array_element_const_iterator cur_iter(*this);
 	mt_array_element_iterator other_iter(res);
 
-- 
2.43.0


From 3b5802c7d050dcdd68cf5c7b656b635fd7631e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:12 +0000
Subject: [PATCH 073/183] fix: [T01] comparing three and four dimensional views
 looked at some elements only

---
 basicmath/src/mt_array_iteration.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/basicmath/src/mt_array_iteration.cpp b/basicmath/src/mt_array_iteration.cpp
index e309d43..b0c71ce 100644
--- a/basicmath/src/mt_array_iteration.cpp
+++ b/basicmath/src/mt_array_iteration.cpp
@@ -54,8 +54,8 @@ namespace basicmath {
 					const u8* ptr_src_data_dim1 = ptr_src_data_dim0;
 
 					for (i32 row = 0; row < sizes[1]; ++row) {
-						ptr_dst_data = ptr_dst_data_dim0;
-						ptr_src_data = ptr_src_data_dim0;
+						ptr_dst_data = ptr_dst_data_dim1;
+						ptr_src_data = ptr_src_data_dim1;
 
 						for (i32 col = 0; col < sizes[2]; ++col) {
 							for (i32 c = 0; c < element_size; ++c) {
@@ -124,8 +124,8 @@ namespace basicmath {
 					const u8* ptr_src_data_dim1 = ptr_src_data_dim0;
 
 					for (i32 row = 0; row < sizes[1]; ++row) {
-						ptr_dst_data = ptr_dst_data_dim0;
-						ptr_src_data = ptr_src_data_dim0;
+						ptr_dst_data = ptr_dst_data_dim1;
+						ptr_src_data = ptr_src_data_dim1;
 
 						for (i32 col = 0; col < sizes[2]; ++col) {
 							for (i32 c = 0; c < element_size; ++c) {
@@ -187,16 +187,17 @@ b8 mt_array_iteration::array_iteration(u8* dst, const u8* src, int ndims, const
 	int max_continuous_dim = max(src_continuous_dim, dst_continuous_dim);
 
 	if (max_continuous_dim != 0) {
-		if (ndims <= 4) {
+		if (ndims <= 3) {
 			if (type == mt_Array_Copy) {
 				private_array_iteration::memcpy(dst, src, ndims, sizes, dst_steps, src_steps, element_size);
+				return sys_true;
 			} else {
 				return private_array_iteration::memcmp(dst, src, ndims, sizes, dst_steps, src_steps, element_size);
 			}
 		}		
 	}
 
-	if (mt_helper::is_same_symbol(src_steps[max_continuous_dim], dst_steps[max_continuous_dim])) {
+	if (max_continuous_dim != ndims && mt_helper::is_same_symbol(src_steps[max_continuous_dim], dst_steps[max_continuous_dim])) {
 		mt_array_memory_block_const_iterator src_iteartor(src, ndims, sizes, src_steps, max_continuous_dim, element_size);
 		mt_array_memory_block_iterator dst_iteartor(dst, ndims, sizes, dst_steps, max_continuous_dim, element_size);
 
-- 
2.43.0


From f4939c12b1b76f0cb438ecd2a0e701597be44f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:11 +0000
Subject: [PATCH 074/183] fix: [T02] a number minus or over a view took other
 elements

---
 basicmath/src/mt_mat_math_operation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicmath/src/mt_mat_math_operation.cpp b/basicmath/src/mt_mat_math_operation.cpp
index 5a5b303..70185ce 100644
--- a/basicmath/src/mt_mat_math_operation.cpp
+++ b/basicmath/src/mt_mat_math_operation.cpp
@@ -1451,8 +1451,8 @@ namespace basicmath {
 				type_b[i] = (T)b[i];
 			}
 
-			i32 last_res_step = res.step()[res.dim() - 1] > 0 ? channels : -channels;
-			i32 last_a_step = a.step()[a.dim() - 1] > 0 ? channels : -channels;
+			i32 last_res_step = res.last_dim_element_step();
+			i32 last_a_step = a.last_dim_element_step();
 
 			if (res.is_continuous() && a.is_continuous()) {
 				T* ptr_res = (T*)res.data();
-- 
2.43.0


From f435089edb904323ff071e8c814ba9fe0a2679b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:11 +0000
Subject: [PATCH 075/183] fix: [T02] comparing with an empty matrix, documented
 as zero, made an empty result

---
 basicmath/src/mt_mat_math_operation.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/basicmath/src/mt_mat_math_operation.cpp b/basicmath/src/mt_mat_math_operation.cpp
index 70185ce..54dc7c0 100644
--- a/basicmath/src/mt_mat_math_operation.cpp
+++ b/basicmath/src/mt_mat_math_operation.cpp
@@ -3005,15 +3005,15 @@ mt_mat mt_mat::reduce(mt_mat::Reduce_Type type, i32 reduce_dim) const {
 }
 
 mt_mat mt_mat::element_compared_mask(const mt_mat& other, mt_mat::Compare_Task task, f64 true_mask, f64 false_mask) const {
-	basiclog_assert2(is_same_size(other));
+	basiclog_assert2(other.is_empty() || is_same_size(other));
 	
-	if (other.depth() != depth()) {
+	if (!other.is_empty() && other.depth() != depth()) {
 		mt_mat temp = other.convert(depth());
 
 		return element_compared_mask(temp, task, true_mask, false_mask);
 	}
 
-	mt_mat res(other, mt_mat::Construct_Type_Create_As_Size);
+	mt_mat res(*this, mt_mat::Construct_Type_Create_As_Size);
 
 	switch (depth()) {
 	case mt_U8:
-- 
2.43.0


From 2db4cd9a01b1a3ac58d8f45dc01a74f0ae99b011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:11 +0000
Subject: [PATCH 076/183] fix: [T02] softmax took the elements of a view to
 follow each other

---
 basicmath/src/mt_mat_math_operation.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/basicmath/src/mt_mat_math_operation.cpp b/basicmath/src/mt_mat_math_operation.cpp
index 54dc7c0..e641897 100644
--- a/basicmath/src/mt_mat_math_operation.cpp
+++ b/basicmath/src/mt_mat_math_operation.cpp
@@ -209,16 +209,19 @@ namespace basicmath {
 			const u8* ptr_src_dim0 = src.data();
 			u8* ptr_dst_dim0 = res.data();
 
+			i32 src_last_step = src.last_dim_element_step();
+			i32 dst_last_step = res.last_dim_element_step();
+
 			for (i32 row = 0; row < src.size()[0]; ++row) {
 				const T* ptr_src = (T*)ptr_src_dim0;				
-				T max_value = *ptr_src++;
+				T max_value = *ptr_src;
 
-				for (int col = 1; col < src.size()[1]; ++col) {
+				for (int col = 0; col < src.size()[1]; ++col) {
 					if (*ptr_src > max_value) {
 						max_value = *ptr_src;
 					}
 
-					++ptr_src;
+					ptr_src += src_last_step;
 				}
 
 				ptr_src = (T*)ptr_src_dim0;
@@ -226,14 +229,18 @@ namespace basicmath {
 				T sum = (T)0.0;
 
 				for (i32 col = 0; col < src.size()[1]; ++col) {
-					*ptr_dst = exp(*ptr_src++ - max_value);
-					sum += *ptr_dst++;
+					*ptr_dst = exp(*ptr_src - max_value);
+					sum += *ptr_dst;
+
+					ptr_src += src_last_step;
+					ptr_dst += dst_last_step;
 				}
 
 				ptr_dst = (T*)ptr_dst_dim0;
 
 				for (i32 col = 0; col < src.size()[1]; ++col) {
-					*ptr_dst++ /= sum;
+					*ptr_dst /= sum;
+					ptr_dst += dst_last_step;
 				}
 
 				ptr_src_dim0 += src.step()[0];
-- 
2.43.0


From ad4a9c3f9bc83c0afca59ee50476b46cbd04feb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:11 +0000
Subject: [PATCH 077/183] fix: [T02] the quadratic loss compared every element
 with the first one

---
 basicmath/src/mt_mat_math_operation.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/basicmath/src/mt_mat_math_operation.cpp b/basicmath/src/mt_mat_math_operation.cpp
index e641897..ed375f9 100644
--- a/basicmath/src/mt_mat_math_operation.cpp
+++ b/basicmath/src/mt_mat_math_operation.cpp
@@ -291,7 +291,7 @@ namespace basicmath {
 			mt_array_element_const_iterator src_iter(src);
 			mt_array_element_const_iterator matching_iter(matching_mat);
 
-			mt_mat loss_res(1, 1, src.depth_channel());
+			mt_mat loss_res(1, 1, src.depth_channel(), 0.0);
 			T* ptr_dst = loss_res.ptr<T>(0, i32(0));
 
 			for (;;) {
@@ -301,9 +301,9 @@ namespace basicmath {
 					break;
 				}
 
-				const T* ptr_matching = (const T*)matching_mat.data();
+				const T* ptr_matching = (const T*)matching_iter.data();
 
-				for (i32 c = 0; c < src.dim(); ++c) {
+				for (i32 c = 0; c < src.channel(); ++c) {
 					if (mt_helper::is_number(ptr_matching[c])) {
 						ptr_dst[c] += (ptr_src[c] - ptr_matching[c]) * (ptr_src[c] - ptr_matching[c]) / 2;
 					}
-- 
2.43.0


From ea3984f9064025d929cf6e203d6864761b3e0f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:11 +0000
Subject: [PATCH 078/183] fix: [T02] the logarithmic loss took the elements of
 a view to follow each other

---
 basicmath/src/mt_mat_math_operation.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/basicmath/src/mt_mat_math_operation.cpp b/basicmath/src/mt_mat_math_operation.cpp
index ed375f9..52d6303 100644
--- a/basicmath/src/mt_mat_math_operation.cpp
+++ b/basicmath/src/mt_mat_math_operation.cpp
@@ -324,6 +324,9 @@ namespace basicmath {
 			const u8* ptr_src_dim0 = src.data();
 			const u8* ptr_matching_dim0 = matching_mat.data();
 
+			i32 src_last_step = src.last_dim_element_step();
+			i32 matching_last_step = matching_mat.last_dim_element_step();
+
 			if (1 == src.size()[1]) {
 				for (i32 row = 0; row < src.size()[0]; ++row) {
 					const T* ptr_src_dim1 = (const T*)ptr_src_dim0;
@@ -354,8 +357,8 @@ namespace basicmath {
 								*ptr_dst -= (T)log(*ptr_src_dim1 + DBL_EPSILON);
 								break;
 							} else {
-								++ptr_matching_dim1;
-								++ptr_src_dim1;
+								ptr_matching_dim1 += matching_last_step;
+								ptr_src_dim1 += src_last_step;
 							}
 						}
 
-- 
2.43.0


From e6eacb0039d35705188c257be93ca3a8fc8d7d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:11 +0000
Subject: [PATCH 079/183] fix: [T02] the extremes of a matrix with more
 channels than dimensions wrote outside a buffer

---
 basicmath/src/mt_mat_math_operation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicmath/src/mt_mat_math_operation.cpp b/basicmath/src/mt_mat_math_operation.cpp
index 52d6303..18ed3a3 100644
--- a/basicmath/src/mt_mat_math_operation.cpp
+++ b/basicmath/src/mt_mat_math_operation.cpp
@@ -621,10 +621,10 @@ namespace basicmath {
 			}
 
 			if (type == mt_mat::Reduce_Type_Max || type == mt_mat::Reduce_Type_Min) {
-				basicmath_mat_request_memory(f64, first_element, src.dim());
+				basicmath_mat_request_memory(f64, first_element, src.channel());
 				
 				src.get(first_element, 0);
-				dst.set(src.dim(), first_element);
+				dst.set(src.channel(), first_element);
 
 				basicmath_mat_release(first_element);
 			}
-- 
2.43.0


From 527d2b0a9984a57bd39601a59ee47440b3dc0e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:11 +0000
Subject: [PATCH 080/183] fix: [T02] bias operations left matrices of 64 bit
 numbers unset

---
 basicmath/src/mt_mat_math_operation.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/basicmath/src/mt_mat_math_operation.cpp b/basicmath/src/mt_mat_math_operation.cpp
index 18ed3a3..f887b61 100644
--- a/basicmath/src/mt_mat_math_operation.cpp
+++ b/basicmath/src/mt_mat_math_operation.cpp
@@ -1791,6 +1791,12 @@ namespace basicmath {
 				case mt_F64:
 					private_math_operation::operation_row_bias<f64>(res, src, bias, code);
 					break;
+				case mt_I64:
+					private_math_operation::operation_row_bias<i64>(res, src, bias, code);
+					break;
+				case mt_U64:
+					private_math_operation::operation_row_bias<u64>(res, src, bias, code);
+					break;
 				case mt_I32:
 					private_math_operation::operation_row_bias<i32>(res, src, bias, code);
 					break;
@@ -1821,6 +1827,12 @@ namespace basicmath {
 				case mt_F64:
 					private_math_operation::operation_normal_bias<f64>(res, src, bias, code);
 					break;
+				case mt_I64:
+					private_math_operation::operation_normal_bias<i64>(res, src, bias, code);
+					break;
+				case mt_U64:
+					private_math_operation::operation_normal_bias<u64>(res, src, bias, code);
+					break;
 				case mt_I32:
 					private_math_operation::operation_normal_bias<i32>(res, src, bias, code);
 					break;
-- 
2.43.0


From a55d6144e88fd70cbab30f81d7f5c28c515c09e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:11 +0000
Subject: [PATCH 081/183] fix: [T02] bias operations and expansion of more than
 four dimensions leaked

---
 basicmath/src/mt_mat_math_operation.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/basicmath/src/mt_mat_math_operation.cpp b/basicmath/src/mt_mat_math_operation.cpp
index f887b61..333f0b1 100644
--- a/basicmath/src/mt_mat_math_operation.cpp
+++ b/basicmath/src/mt_mat_math_operation.cpp
@@ -1761,6 +1761,8 @@ namespace basicmath {
 					}
 				}
 			}
+
+			basicmath_mat_release(bias_indexes);
 		}
 
 		static void operation_bias(mt_mat& res, const mt_mat& src, const mt_mat& bias, mt_mat_helper::Math_Op_Code code) {
@@ -2805,6 +2807,8 @@ mt_mat mt_mat::expand(i32 size, const i32* side_sizes_1, const i32* side_sizes_2
 		m_auto_derivative->expand(res, *this, size, ranges);
 	}
 
+	basicmath_mat_release(ranges);
+
 	return res;
 }
 
-- 
2.43.0


From 05efa9abc0e157cff7714132fe33f8b14557d5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:11 +0000
Subject: [PATCH 082/183] fix: [T02] joining matrices of different sizes put
 them at wrong places

---
 basicmath/src/mt_mat_helper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicmath/src/mt_mat_helper.cpp b/basicmath/src/mt_mat_helper.cpp
index 99c5ffc..0f62cee 100644
--- a/basicmath/src/mt_mat_helper.cpp
+++ b/basicmath/src/mt_mat_helper.cpp
@@ -28,8 +28,8 @@ mt_mat mt_mat_helper::merge_align_dim(const vector<mt_mat>& elements, i32 dim, b
 	i32 dim_start_index = 0;
 
 	for (i32 i = 0; i < (i32)elements.size(); ++i) {
-		mt_mat sub_mat = res.sub(dim_start_index, dim_start_index + elements[0].size()[dim], dim);
-		dim_start_index += elements[0].size()[dim];
+		mt_mat sub_mat = res.sub(dim_start_index, dim_start_index + elements[i].size()[dim], dim);
+		dim_start_index += elements[i].size()[dim];
 
 		sub_mat.set(elements[i]);
 	}
-- 
2.43.0


From 1e6909e35dde49d95d6b3ae316c0ca06d1619eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:11 +0000
Subject: [PATCH 083/183] fix: [T02] joining matrices of more than four
 dimensions leaked

---
 basicmath/src/mt_mat_helper.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/basicmath/src/mt_mat_helper.cpp b/basicmath/src/mt_mat_helper.cpp
index 0f62cee..9b77e10 100644
--- a/basicmath/src/mt_mat_helper.cpp
+++ b/basicmath/src/mt_mat_helper.cpp
@@ -44,6 +44,7 @@ mt_mat mt_mat_helper::merge_align_dim(const vector<mt_mat>& elements, i32 dim, b
 		auto_derivative->merge_align_dim(res, elements, dim);
 	}
 
+	basicmath_mat_release(res_size);
 
 	return res;
 }
-- 
2.43.0


From 6eee037687f8dc337346867a20a682193b653d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:42 +0000
Subject: [PATCH 084/183] fix: [T02] bias operations crashed without a logger

---
 basicmath/src/mt_mat_math_operation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/src/mt_mat_math_operation.cpp b/basicmath/src/mt_mat_math_operation.cpp
index 333f0b1..36ba3cd 100644
--- a/basicmath/src/mt_mat_math_operation.cpp
+++ b/basicmath/src/mt_mat_math_operation.cpp
@@ -1766,7 +1766,7 @@ namespace basicmath {
 		}
 
 		static void operation_bias(mt_mat& res, const mt_mat& src, const mt_mat& bias, mt_mat_helper::Math_Op_Code code) {
-			if (log_logger::get_logger()->is_enable_debug()) {
+			if (log_logger::get_logger() != NULL && log_logger::get_logger()->is_enable_debug()) {
 				for (i32 i = 0; i < bias.dim(); ++i) {
 					basiclog_assert2(src.size()[i] % bias.size()[i] == 0);
 				}
-- 
2.43.0


From a8ec1a837a484afb4387a3719bbbaadc412baf10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:19 +0000
Subject: [PATCH 085/183] fix: [T05] the position belonging to an element
 number was wrong

---
 basicmath/include/mt_helper.h | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/basicmath/include/mt_helper.h b/basicmath/include/mt_helper.h
index 331bf82..4a4aec0 100644
--- a/basicmath/include/mt_helper.h
+++ b/basicmath/include/mt_helper.h
@@ -226,18 +226,9 @@ namespace basicmath {
 		static void multi_index_from_index(vector<i32>& indexs, i32 index, i32 size, const i32* sizes) {
 			indexs.resize(size);
 
-			i32 dim_element_number = 1;
-
-			for (i32 i = 1; i < size; ++i) {
-				dim_element_number *= sizes[i];
-			}
-
-			for (i32 i = 0; i < size; ++i) {
-				i32 cur_dim_index = index % dim_element_number;
-				index = index - cur_dim_index * dim_element_number;
-				dim_element_number /= sizes[i + 1];
-
-				indexs[i] = cur_dim_index;
+			for (i32 i = size - 1; i >= 0; --i) {
+				indexs[i] = index % sizes[i];
+				index /= sizes[i];
 			}
 		}
 
-- 
2.43.0


From 55c22a681e324393c8356ace35b926d77c2e3f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:20 +0000
Subject: [PATCH 086/183] fix: [T05] pooling by index used the mask or the data
 of the first channel for all

---
 basicmath/src/mt_pooling.cpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/basicmath/src/mt_pooling.cpp b/basicmath/src/mt_pooling.cpp
index 648e262..22ebb41 100644
--- a/basicmath/src/mt_pooling.cpp
+++ b/basicmath/src/mt_pooling.cpp
@@ -115,14 +115,12 @@ namespace basicmath {
 					} else if (pooling_type == mt_Pooling_Type_Index) {
 						i32* ptr_mask_data = mask_mat.ptr<i32>(cur_indexs, 0);
 
-						mt_helper::multi_index_from_index(src_iter_indexs, *ptr_mask_data, src.dim(), src.size());
-
-						basiclog_assert2(src.is_valid_index(src_iter_indexs));
+						for (i32 c = 0; c < src.channel(); ++c) {
+							mt_helper::multi_index_from_index(src_iter_indexs, ptr_mask_data[c], src.dim(), src.size());
 
-						const T* ptr_src_data = src.ptr<T>(src_iter_indexs, 0);
+							basiclog_assert2(src.is_valid_index(src_iter_indexs));
 
-						for (i32 c = 0; c < src.channel(); ++c) {
-							ptr_data[c] = ptr_src_data[c];
+							ptr_data[c] = *src.ptr<T>(src_iter_indexs, c);
 						}
 					}
 				}
@@ -565,7 +563,7 @@ namespace basicmath {
 
 						for (int col = 0; col < res_cols; ++col) {
 							for (i32 c = 0; c < channels; ++c) {
-								ptr_result[c] = src.at<T>(ptr_mask[c] / src_cols, ptr_mask[c] % src_cols, 0);
+								ptr_result[c] = src.at<T>(ptr_mask[c] / src_cols, ptr_mask[c] % src_cols, c);
 							}
 
 							mat_start_col += strides[1];
@@ -1039,11 +1037,11 @@ namespace basicmath {
 							i32* ptr_mask = (i32*)ptr_mask_dim1;
 
 							for (int col = 0; col < res_cols; ++col) {
-								i32 src_plane = *ptr_mask / src_plane_element_number;
-								i32 src_row = (*ptr_mask - src_plane * src_plane_element_number) /  src_cols;
-								i32 src_col = *ptr_mask % src_cols;
-
 								for (i32 c = 0; c < channels; ++c) {
+									i32 src_plane = ptr_mask[c] / src_plane_element_number;
+									i32 src_row = (ptr_mask[c] - src_plane * src_plane_element_number) /  src_cols;
+									i32 src_col = ptr_mask[c] % src_cols;
+
 									ptr_result[c] = src.at<T>(src_plane, src_row, src_col, c);
 								}
 								
-- 
2.43.0


From 1f2cbe8868e6d8f6d59585919c3f33cd325c4222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:20 +0000
Subject: [PATCH 087/183] fix: [T05] pooling three dimensions started from an
 element behind the window

---
 basicmath/src/mt_pooling.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/basicmath/src/mt_pooling.cpp b/basicmath/src/mt_pooling.cpp
index 22ebb41..4ecd30c 100644
--- a/basicmath/src/mt_pooling.cpp
+++ b/basicmath/src/mt_pooling.cpp
@@ -662,8 +662,8 @@ namespace basicmath {
 							i32 mat_start_col = 0;
 
 							for (int col = 0; col < res_cols; ++col) {
-								*ptr_result = src.at<T>(mat_stop_plane, mat_start_row, mat_start_col, 0);
-								*ptr_mask = mat_stop_plane * src_plane_element_number + mat_start_row * src.size()[2] + mat_start_col;
+								*ptr_result = src.at<T>(mat_start_plane, mat_start_row, mat_start_col, 0);
+								*ptr_mask = mat_start_plane * src_plane_element_number + mat_start_row * src.size()[2] + mat_start_col;
 
 								i32 mat_stop_col = min(mat_start_col + kernel_sizes[2], src_cols);
 
@@ -718,7 +718,7 @@ namespace basicmath {
 
 							for (int col = 0; col < res_cols; ++col) {
 								*ptr_result = src.at<T>(mat_start_plane, mat_start_row, mat_start_col, 0);
-								*ptr_mask = mat_stop_plane * src_plane_element_number + mat_start_row * src.size()[2] + mat_start_col;
+								*ptr_mask = mat_start_plane * src_plane_element_number + mat_start_row * src.size()[2] + mat_start_col;
 
 								i32 mat_stop_col = min(mat_start_col + kernel_sizes[2], src_cols);
 
@@ -898,7 +898,7 @@ namespace basicmath {
 							for (int col = 0; col < res_cols; ++col) {
 								for (i32 c = 0; c < channels; ++c) {
 									ptr_result[c] = src.at<T>(mat_start_plane, mat_start_row, mat_start_col, c);
-									ptr_mask[c] = mat_stop_plane * src_plane_element_number + mat_start_row * src_cols + mat_start_col;
+									ptr_mask[c] = mat_start_plane * src_plane_element_number + mat_start_row * src_cols + mat_start_col;
 								}
 
 								i32 mat_stop_col = min(mat_start_col + kernel_sizes[2], src_cols);
@@ -957,8 +957,8 @@ namespace basicmath {
 
 							for (int col = 0; col < res_cols; ++col) {
 								for (i32 c = 0; c < channels; ++c) {
-									ptr_result[c] = src.at<T>(mat_stop_plane, mat_start_row, mat_start_col, 0);
-									ptr_mask[c] = mat_stop_plane * src_plane_element_number + mat_start_row * src_cols + mat_start_col;
+									ptr_result[c] = src.at<T>(mat_start_plane, mat_start_row, mat_start_col, c);
+									ptr_mask[c] = mat_start_plane * src_plane_element_number + mat_start_row * src_cols + mat_start_col;
 								}
 
 								i32 mat_stop_col = min(mat_start_col + kernel_sizes[2], src_cols);
-- 
2.43.0


From 7207514e16b684f528ba4a6ed9d9a86b283f6abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:20 +0000
Subject: [PATCH 088/183] fix: [T05] unpooling used the mask of the first
 channel for all

---
 basicmath/src/mt_pooling.cpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/basicmath/src/mt_pooling.cpp b/basicmath/src/mt_pooling.cpp
index 4ecd30c..6969bc9 100644
--- a/basicmath/src/mt_pooling.cpp
+++ b/basicmath/src/mt_pooling.cpp
@@ -222,11 +222,9 @@ namespace basicmath {
 					} else if (pooling_type == mt_Pooling_Type_Max || pooling_type == mt_Pooling_Type_Min || pooling_type == mt_Pooling_Type_Index) {
 						const i32* ptr_mask_data = mask_mat.ptr<i32>(cur_indexs, 0);
 
-						mt_helper::multi_index_from_index(src_iter_indexs, *ptr_mask_data, src.dim(), src.size());
-						T* ptr_src_data = src.ptr<T>(src_iter_indexs, 0);
-
 						for (i32 c = 0; c < src.channel(); ++c) {
-							ptr_src_data[c] += ptr_data[c];
+							mt_helper::multi_index_from_index(src_iter_indexs, ptr_mask_data[c], src.dim(), src.size());
+							*src.ptr<T>(src_iter_indexs, c) += ptr_data[c];
 						}
 					}
 				}
@@ -1193,10 +1191,10 @@ namespace basicmath {
 
 						for (int col = 0; col < res_cols; ++col) {
 
-							int src_row = (*ptr_mask_dim1) / src_cols;
-							int src_col = *ptr_mask_dim1 % src_cols;
-
 							for (i32 c = 0; c < channels; ++c) {
+								int src_row = ptr_mask_dim1[c] / src_cols;
+								int src_col = ptr_mask_dim1[c] % src_cols;
+
 								src.at<T>(src_row, src_col, c) += ptr_pooling_res[c];
 							}
 
@@ -1420,11 +1418,11 @@ namespace basicmath {
 
 							for (int col = 0; col < res_cols; ++col) {
 
-								i32 src_plane = *ptr_mask / src_plane_element_number;
-								i32 src_row = (*ptr_mask - src_plane * src_plane_element_number) /  src_cols;
-								i32 src_col = *ptr_mask % src_cols;
-
 								for (i32 c = 0; c < channels; ++c) {
+									i32 src_plane = ptr_mask[c] / src_plane_element_number;
+									i32 src_row = (ptr_mask[c] - src_plane * src_plane_element_number) /  src_cols;
+									i32 src_col = ptr_mask[c] % src_cols;
+
 									src.at<T>(src_plane, src_row, src_col, c) += ptr_pooling_res[c];
 								}
 								
-- 
2.43.0


From 2e47d533d7a41e7a764ff2d53b1cabcb783003f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:20 +0000
Subject: [PATCH 089/183] fix: [T05] unpooling three dimensions used the first
 mask of each row for all of it

---
 basicmath/src/mt_pooling.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicmath/src/mt_pooling.cpp b/basicmath/src/mt_pooling.cpp
index 6969bc9..24adfb0 100644
--- a/basicmath/src/mt_pooling.cpp
+++ b/basicmath/src/mt_pooling.cpp
@@ -1304,7 +1304,7 @@ namespace basicmath {
 
 								src.at<T>(src_plane, src_row, src_col, 0) += *ptr_pooling_res;
 								ptr_pooling_res += pooling_res_last_step;
-								ptr_mask_dim1 += mask_last_step;
+								ptr_mask += mask_last_step;
 							}
 
 							ptr_pooling_res_dim1 += pooling_res_mat.step()[1];
@@ -1427,7 +1427,7 @@ namespace basicmath {
 								}
 								
 								ptr_pooling_res += pooling_res_last_step;
-								ptr_mask_dim1 += mask_last_step;
+								ptr_mask += mask_last_step;
 							}
 
 							ptr_pooling_res_dim1 += pooling_res_mat.step()[1];
-- 
2.43.0


From 251b7dc8cb99b52fb775fec9ff665cdcd4702533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:20 +0000
Subject: [PATCH 090/183] fix: [T05] unpooling three dimensions took the sizes
 of the pooled matrix for those of the result

---
 basicmath/src/mt_pooling.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/basicmath/src/mt_pooling.cpp b/basicmath/src/mt_pooling.cpp
index 24adfb0..1d3fdf8 100644
--- a/basicmath/src/mt_pooling.cpp
+++ b/basicmath/src/mt_pooling.cpp
@@ -1352,9 +1352,9 @@ namespace basicmath {
 				i32 mat_start_plane = 0;
 				const u8* ptr_pooling_res_dim0 = pooling_res_mat.data();
 
-				i32 src_planes = pooling_res_mat.size()[0];
-				i32 src_rows = pooling_res_mat.size()[1];
-				i32 src_cols = pooling_res_mat.size()[2];
+				i32 src_planes = src.size()[0];
+				i32 src_rows = src.size()[1];
+				i32 src_cols = src.size()[2];
 				i32 res_planes = pooling_res_mat.size()[0];
 				i32 res_rows = pooling_res_mat.size()[1];
 				i32 res_cols = pooling_res_mat.size()[2];
-- 
2.43.0


From b3b172010d691f1d306faac5c3c7cff63bd4c103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:20 +0000
Subject: [PATCH 091/183] fix: [T05] unpooling of i8 divided as u8

---
 basicmath/src/mt_pooling.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/src/mt_pooling.cpp b/basicmath/src/mt_pooling.cpp
index 1d3fdf8..fb96eea 100644
--- a/basicmath/src/mt_pooling.cpp
+++ b/basicmath/src/mt_pooling.cpp
@@ -1557,7 +1557,7 @@ mt_mat mt_mat::unpooling(const int* src_size, const mt_mat& mask_mat, mt_Pooling
 		private_pooling::unpooling<u8>(src, mask_mat, *this, pooling_type, size, kernel_sizes, strides);
 		break;
 	case mt_I8:
-		private_pooling::unpooling<u8>(src, mask_mat, *this, pooling_type, size, kernel_sizes, strides);
+		private_pooling::unpooling<i8>(src, mask_mat, *this, pooling_type, size, kernel_sizes, strides);
 		break;
 	case mt_U16:
 		private_pooling::unpooling<u16>(src, mask_mat, *this, pooling_type, size, kernel_sizes, strides);
-- 
2.43.0


From 0bf6b7c2715110c25f7baff9cb28edc26d214a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:20 +0000
Subject: [PATCH 092/183] fix: [T05] unpooling with a mask was reported as an
 error

---
 basicmath/src/mt_pooling.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/src/mt_pooling.cpp b/basicmath/src/mt_pooling.cpp
index fb96eea..8f8f021 100644
--- a/basicmath/src/mt_pooling.cpp
+++ b/basicmath/src/mt_pooling.cpp
@@ -1548,7 +1548,7 @@ mt_mat mt_mat::pooling(mt_mat& mask_mat, mt_Pooling_Type pooling_type, const vec
 }
 
 mt_mat mt_mat::unpooling(const int* src_size, const mt_mat& mask_mat, mt_Pooling_Type pooling_type, i32 size, const int* kernel_sizes, const int* strides) const {	
-	basiclog_assert2(mask_mat.is_empty());
+	basiclog_assert2(!mask_mat.is_empty() || (pooling_type != mt_Pooling_Type_Max && pooling_type != mt_Pooling_Type_Min && pooling_type != mt_Pooling_Type_Index));
 	
 	mt_mat src(dim(), src_size, depth_channel(), 0);
 	
-- 
2.43.0


From 2b8725677b3414c9bb45fab58ad040cab233d26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:00 +0000
Subject: [PATCH 093/183] fix: [T05] unpooling of sums gave zeros for two and
 three dimensions

---
 basicmath/src/mt_pooling.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/basicmath/src/mt_pooling.cpp b/basicmath/src/mt_pooling.cpp
index 8f8f021..b021abd 100644
--- a/basicmath/src/mt_pooling.cpp
+++ b/basicmath/src/mt_pooling.cpp
@@ -1073,7 +1073,7 @@ namespace basicmath {
 				i32 res_rows = pooling_res_mat.size()[0];
 				i32 res_cols = pooling_res_mat.size()[1];
 
-				if (pooling_type == mt_Pooling_Type_Mean) {
+				if (pooling_type == mt_Pooling_Type_Mean || pooling_type == mt_Pooling_Type_Sum) {
 					for (int row = 0; row < res_rows; ++row) {
 						const T* ptr_pooling_res = (const T*)ptr_pooling_res_dim0;
 						int mat_stop_row = min(mat_start_row + kernel_sizes[0], src_rows);
@@ -1083,7 +1083,7 @@ namespace basicmath {
 						for (int col = 0; col < res_cols; ++col) {					
 							int mat_stop_col = min(mat_start_col + kernel_sizes[1], src_cols);
 
-							int area = (mat_stop_row - mat_start_row) * (mat_stop_col - mat_start_col);
+							int area = pooling_type == mt_Pooling_Type_Sum ? 1 : (mat_stop_row - mat_start_row) * (mat_stop_col - mat_start_col);
 							T unpooling_data = *ptr_pooling_res / area;
 
 							for (int pooling_row = mat_start_row; pooling_row < mat_stop_row; ++pooling_row) {
@@ -1153,7 +1153,7 @@ namespace basicmath {
 				i32 res_rows = pooling_res_mat.size()[0];
 				i32 res_cols = pooling_res_mat.size()[1];
 
-				if (pooling_type == mt_Pooling_Type_Mean) {
+				if (pooling_type == mt_Pooling_Type_Mean || pooling_type == mt_Pooling_Type_Sum) {
 					for (int row = 0; row < res_rows; ++row) {
 						const T* ptr_pooling_res = (const T*)ptr_pooling_res_dim0;
 						int mat_stop_row = min(mat_start_row + kernel_sizes[0], src_rows);
@@ -1162,7 +1162,7 @@ namespace basicmath {
 
 						for (int col = 0; col < res_cols; ++col) {					
 							int mat_stop_col = min(mat_start_col + kernel_sizes[1], src_cols);
-							int area = (mat_stop_row - mat_start_row) * (mat_stop_col - mat_start_col);
+							int area = pooling_type == mt_Pooling_Type_Sum ? 1 : (mat_stop_row - mat_start_row) * (mat_stop_col - mat_start_col);
 
 							for (int pooling_row = mat_start_row; pooling_row < mat_stop_row; ++pooling_row) {
 								T* ptr_src = src.ptr<T>(pooling_row, mat_start_col, 0);
@@ -1244,7 +1244,7 @@ namespace basicmath {
 
 				i32 src_plane_element_number = src.size()[1] * src.size()[2];
 
-				if (pooling_type == mt_Pooling_Type_Mean) {
+				if (pooling_type == mt_Pooling_Type_Mean || pooling_type == mt_Pooling_Type_Sum) {
 					for (i32 plane = 0; plane < res_planes; ++plane) {
 						const u8* ptr_pooling_res_dim1 = ptr_pooling_res_dim0;
 
@@ -1260,7 +1260,7 @@ namespace basicmath {
 							for (int col = 0; col < res_cols; ++col) {					
 								int mat_stop_col = min(mat_start_col + kernel_sizes[2], src_cols);
 
-								int area = (mat_stop_plane - mat_start_plane) * (mat_stop_row - mat_start_row) * (mat_stop_col - mat_start_col);
+								int area = pooling_type == mt_Pooling_Type_Sum ? 1 : (mat_stop_plane - mat_start_plane) * (mat_stop_row - mat_start_row) * (mat_stop_col - mat_start_col);
 								T unpooling_data = *ptr_pooling_res / area;
 
 								for (i32 pooling_plane = mat_start_plane; pooling_plane < mat_stop_plane; ++pooling_plane) {
@@ -1361,7 +1361,7 @@ namespace basicmath {
 
 				i32 src_plane_element_number = src.size()[1] * src.size()[2];
 
-				if (pooling_type == mt_Pooling_Type_Mean) {
+				if (pooling_type == mt_Pooling_Type_Mean || pooling_type == mt_Pooling_Type_Sum) {
 					for (i32 plane = 0; plane < res_planes; ++plane) {
 						const u8* ptr_pooling_res_dim1 = ptr_pooling_res_dim0;
 
@@ -1377,7 +1377,7 @@ namespace basicmath {
 							for (int col = 0; col < res_cols; ++col) {					
 								int mat_stop_col = min(mat_start_col + kernel_sizes[2], src_cols);
 
-								int area = (mat_stop_plane - mat_start_plane) * (mat_stop_row - mat_start_row) * (mat_stop_col - mat_start_col);
+								int area = pooling_type == mt_Pooling_Type_Sum ? 1 : (mat_stop_plane - mat_start_plane) * (mat_stop_row - mat_start_row) * (mat_stop_col - mat_start_col);
 
 								for (i32 pooling_plane = mat_start_plane; pooling_plane < mat_stop_plane; ++pooling_plane) {
 									for (int pooling_row = mat_start_row; pooling_row < mat_stop_row; ++pooling_row) {
-- 
2.43.0


From 7095f0701623bfcade307dec0b60cce33a47649d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:00 +0000
Subject: [PATCH 094/183] fix: [T05] means of small integers were computed from
 overflowing sums

---
 basicmath/src/mt_pooling.cpp | 51 ++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 26 deletions(-)

diff --git a/basicmath/src/mt_pooling.cpp b/basicmath/src/mt_pooling.cpp
index b021abd..7fd4ab4 100644
--- a/basicmath/src/mt_pooling.cpp
+++ b/basicmath/src/mt_pooling.cpp
@@ -2,6 +2,12 @@
 
 namespace basicmath {
 
+	// the sum of the elements below a kernel does not always fit into the type of an element
+	template<class T> struct private_pooling_sum { typedef i64 type; };
+	template<> struct private_pooling_sum<u64> { typedef u64 type; };
+	template<> struct private_pooling_sum<f32> { typedef f32 type; };
+	template<> struct private_pooling_sum<f64> { typedef f64 type; };
+
 	class private_pooling {
 	public:
 
@@ -53,6 +59,7 @@ namespace basicmath {
 						}
 					} else if (pooling_type == mt_Pooling_Type_Mean || pooling_type == mt_Pooling_Type_Sum) {
 						int in_src_number = 0;
+						vector<typename private_pooling_sum<T>::type> sums(src.channel());
 
 						for (i32 iter_index = 0; iter_index < (i32)all_indexes.size(); ++iter_index) {
 							for (int i = 0; i < src.dim(); ++i) {
@@ -64,15 +71,13 @@ namespace basicmath {
 								++in_src_number;
 
 								for (i32 c = 0; c < src.channel(); ++c) {
-									ptr_data[c] += ptr_src_data[c];
+									sums[c] += ptr_src_data[c];
 								}
 							}
 						}
 
-						if (pooling_type == mt_Pooling_Type_Mean) {
-							for (i32 c = 0; c < src.channel(); ++c) {
-								ptr_data[c] /= in_src_number;
-							}
+						for (i32 c = 0; c < src.channel(); ++c) {
+							ptr_data[c] = T(pooling_type == mt_Pooling_Type_Mean ? sums[c] / in_src_number : sums[c]);
 						}
 					} else if (pooling_type == mt_Pooling_Type_Max || pooling_type == mt_Pooling_Type_Min) {
 						i32* ptr_mask_data = mask_mat.ptr<i32>(cur_indexs, 0);
@@ -256,21 +261,20 @@ namespace basicmath {
 
 						for (i32 col = 0; col < res_cols; ++col) {
 							int valid_kernel_element_number = 0;
+							typename private_pooling_sum<T>::type sum = 0;
 
 							i32 mat_stop_col = min(mat_start_col + kernel_sizes[1], src_cols);
 
 							for (i32 pooling_row = mat_start_row; pooling_row < mat_stop_row; ++pooling_row) {
 								const T* ptr_mat = src.ptr<T>(pooling_row, mat_start_col, 0);
 								for (i32 pooling_col = mat_start_col; pooling_col < mat_stop_col; ++pooling_col) {
-									*ptr_result += *ptr_mat;
+									sum += *ptr_mat;
 									++valid_kernel_element_number;	
 									ptr_mat += src_last_step;
 								}
 							}
 
-							if (pooling_type == mt_Pooling_Type_Mean) {
-								*ptr_result /= valid_kernel_element_number;
-							}
+							*ptr_result = T(pooling_type == mt_Pooling_Type_Mean ? sum / valid_kernel_element_number : sum);
 
 							++ptr_result;
 							mat_start_col += strides[1];
@@ -411,7 +415,8 @@ namespace basicmath {
 						i32 mat_start_col = 0;
 
 						for (i32 col = 0; col < res_cols; ++col) {
-							int valid_kernel_element_number = 0;	
+							int valid_kernel_element_number = 0;
+							vector<typename private_pooling_sum<T>::type> sums(channels);
 							i32 mat_stop_col = min(mat_start_col + kernel_sizes[1], src_cols);
 
 							for (i32 pooling_row = mat_start_row; pooling_row < mat_stop_row; ++pooling_row) {
@@ -419,7 +424,7 @@ namespace basicmath {
 								for (i32 pooling_col = mat_start_col; pooling_col < mat_stop_col; ++pooling_col) {
 
 									for (i32 c = 0; c < src.channel(); ++c) {
-										ptr_result[c] += ptr_mat[c];
+										sums[c] += ptr_mat[c];
 									}
 
 									++valid_kernel_element_number;	
@@ -427,11 +432,8 @@ namespace basicmath {
 								}
 							}
 
-							if (pooling_type == mt_Pooling_Type_Mean) {
-								for (i32 c = 0; c < src.channel(); ++c) {
-									ptr_result[c] /= valid_kernel_element_number;
-								}
-								
+							for (i32 c = 0; c < channels; ++c) {
+								ptr_result[c] = T(pooling_type == mt_Pooling_Type_Mean ? sums[c] / valid_kernel_element_number : sums[c]);
 							}
 
 							// res mat is continuous and memory positive order
@@ -610,6 +612,7 @@ namespace basicmath {
 
 							for (i32 col = 0; col < res_cols; ++col) {
 								int valid_kernel_element_number = 0;
+								typename private_pooling_sum<T>::type sum = 0;
 
 								i32 mat_stop_col = min(mat_start_col + kernel_sizes[2], src_cols);
 
@@ -617,7 +620,7 @@ namespace basicmath {
 									for (i32 pooling_row = mat_start_row; pooling_row < mat_stop_row; ++pooling_row) {
 										const T* ptr_mat = src.ptr<T>(pooling_plane, pooling_row, mat_start_col, 0);
 										for (i32 pooling_col = mat_start_col; pooling_col < mat_stop_col; ++pooling_col) {
-											*ptr_result += *ptr_mat;
+											sum += *ptr_mat;
 											ptr_mat += src_last_step;
 
 											++valid_kernel_element_number;	
@@ -626,9 +629,7 @@ namespace basicmath {
 								}
 
 
-								if (pooling_type == mt_Pooling_Type_Mean) {
-									*ptr_result /= valid_kernel_element_number;
-								}
+								*ptr_result = T(pooling_type == mt_Pooling_Type_Mean ? sum / valid_kernel_element_number : sum);
 
 								++ptr_result;
 								mat_start_col += strides[2];
@@ -839,6 +840,7 @@ namespace basicmath {
 
 							for (i32 col = 0; col < res_cols; ++col) {
 								int valid_kernel_element_number = 0;
+								vector<typename private_pooling_sum<T>::type> sums(channels);
 
 								i32 mat_stop_col = min(mat_start_col + kernel_sizes[2], src_cols);
 
@@ -848,7 +850,7 @@ namespace basicmath {
 										for (i32 pooling_col = mat_start_col; pooling_col < mat_stop_col; ++pooling_col) {
 
 											for (i32 c = 0; c < channels; ++c) {
-												ptr_result[c] += ptr_mat[c];
+												sums[c] += ptr_mat[c];
 											}
 											
 											ptr_mat += src_last_step;
@@ -857,11 +859,8 @@ namespace basicmath {
 									}
 								}
 
-								if (pooling_type == mt_Pooling_Type_Mean) {
-									for (i32 c = 0; c < channels; ++c) {
-										ptr_result[c] /= valid_kernel_element_number;
-									}
-									
+								for (i32 c = 0; c < channels; ++c) {
+									ptr_result[c] = T(pooling_type == mt_Pooling_Type_Mean ? sums[c] / valid_kernel_element_number : sums[c]);
 								}
 
 								ptr_result += channels;
-- 
2.43.0


From 35de9b342e120406292cf546ce204ad63cc560ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:14 +0000
Subject: [PATCH 095/183] fix: [T07] sorting with indexes stopped half way

---
 basicmath/include/mt_sort.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/include/mt_sort.h b/basicmath/include/mt_sort.h
index 706addc..4f53117 100644
--- a/basicmath/include/mt_sort.h
+++ b/basicmath/include/mt_sort.h
@@ -16,7 +16,7 @@ namespace basicmath {
 			}
 
 			for (i32 i = 0; i < (i32)indexs.size() - 1; ++i) {
-				for (i32 j = 0; j < (i32)indexs.size() - j - 1; ++j) {
+				for (i32 j = 0; j < (i32)indexs.size() - i - 1; ++j) {
 					if ((increase && data[j] > data[j + 1])
 						|| (!increase && data[j] < data[j + 1])) {
 						swap(data[j], data[j + 1]);
-- 
2.43.0


From 94cb51e2fc99ca333b77889f003d401372f22bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:14 +0000
Subject: [PATCH 096/183] fix: [T07] common parts with the first element of the
 second sequence were overlooked

---
 .../mt_longest_common_substring.h                    | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/basicmath/include/dynamic_programming/mt_longest_common_substring.h b/basicmath/include/dynamic_programming/mt_longest_common_substring.h
index 8d58628..ef8d90a 100644
--- a/basicmath/include/dynamic_programming/mt_longest_common_substring.h
+++ b/basicmath/include/dynamic_programming/mt_longest_common_substring.h
@@ -19,15 +19,9 @@ namespace basicmath {
 			m_maxtrix.resize(m_a_size * m_b_size, 0);
 
 			for (i32 i = 0; i < m_a_size; ++i) {
-				m_maxtrix[i] = (str_b[0] == str_a[i] ? 1 : 0);
-
-				for (i32 j = 1; j < m_b_size; ++j) {
-					m_maxtrix[j * m_a_size] = (str_a[0] == str_b[j] ? 1 : 0);
-
-					if (i > 0 && j > 0) {
-						if (str_a[i] == str_b[j]) {
-							m_maxtrix[j * m_a_size + i] = m_maxtrix[(j - 1) * m_a_size + i - 1] + 1;
-						}
+				for (i32 j = 0; j < m_b_size; ++j) {
+					if (str_a[i] == str_b[j]) {
+						m_maxtrix[j * m_a_size + i] = (i > 0 && j > 0 ? m_maxtrix[(j - 1) * m_a_size + i - 1] : 0) + 1;
 					}
 
 					if (m_length < m_maxtrix[j * m_a_size + i]) {
-- 
2.43.0


From c513239a1b8af16277b0b47310b3eefa3e7c6b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:14 +0000
Subject: [PATCH 097/183] fix: [T07] the list of beginnings of common parts
 held their ends

---
 .../dynamic_programming/mt_longest_common_substring.h     | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/basicmath/include/dynamic_programming/mt_longest_common_substring.h b/basicmath/include/dynamic_programming/mt_longest_common_substring.h
index ef8d90a..dac7008 100644
--- a/basicmath/include/dynamic_programming/mt_longest_common_substring.h
+++ b/basicmath/include/dynamic_programming/mt_longest_common_substring.h
@@ -49,8 +49,8 @@ namespace basicmath {
 			indexes.clear();
 
 			for (i32 i = 0; i < (i32)m_maxtrix.size(); ++i) {
-				if (m_maxtrix[i] == m_length) {
-					indexes.push_back(i % m_a_size);
+				if (m_length > 0 && m_maxtrix[i] == m_length) {
+					indexes.push_back(i % m_a_size - m_length + 1);
 				}
 			}
 		}
@@ -59,8 +59,8 @@ namespace basicmath {
 			indexes.clear();
 
 			for (i32 i = 0; i < (i32)m_maxtrix.size(); ++i) {
-				if (m_maxtrix[i] == m_length) {
-					indexes.push_back(i / m_a_size);
+				if (m_length > 0 && m_maxtrix[i] == m_length) {
+					indexes.push_back(i / m_a_size - m_length + 1);
 				}
 			}
 		}
-- 
2.43.0


From e117e928c054cde487a703a0bdd51bb8f5e4101f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:14 +0000
Subject: [PATCH 098/183] fix: [T07] the elements chosen for the bag did not
 give its value or were too heavy

---
 .../include/dynamic_programming/mt_01_bag.h   | 30 ++++---------------
 1 file changed, 6 insertions(+), 24 deletions(-)

diff --git a/basicmath/include/dynamic_programming/mt_01_bag.h b/basicmath/include/dynamic_programming/mt_01_bag.h
index 0a4bcc6..98393c2 100644
--- a/basicmath/include/dynamic_programming/mt_01_bag.h
+++ b/basicmath/include/dynamic_programming/mt_01_bag.h
@@ -17,7 +17,7 @@ namespace basicmath {
 
 			m_max_value = calculate_value(weights, values, (i32)weights.size() - 1, max_weight);
 
-			detrermine_flag(values, (i32)weights.size() - 1, m_max_value);
+			detrermine_flag(weights, values, max_weight);
 		}
 
 		T_Value max_value() {
@@ -81,33 +81,15 @@ namespace basicmath {
 			return cur_cache_info.m_value;
 		}
 
-		void detrermine_flag(const vector<T_Value>& values, i32 considered_range, T_Value considered_value) {
-			for (i32 i = 0; i < (i32)m_caches.size(); ++i) {
-				if (mt_helper::compare_value(m_caches[i].m_value, considered_value) == 0
-					&& m_caches[i].m_considered_range <= considered_range 
-					&& find_value(considered_range - 1, considered_value - values[m_caches[i].m_considered_range])) {
-						m_flags[m_caches[i].m_considered_range] = sys_true;
-
-						detrermine_flag(values, considered_range - 1, considered_value - values[m_caches[i].m_considered_range]);
+		void detrermine_flag(const vector<T_Weight>& weights, const vector<T_Value>& values, T_Weight considered_weight) {
+			for (i32 i = (i32)weights.size() - 1; i >= 0; --i) {
+				if (calculate_value(weights, values, i, considered_weight) > calculate_value(weights, values, i - 1, considered_weight)) {
+					m_flags[i] = sys_true;
+					considered_weight -= weights[i];
 				}
 			}
 		}
 
-		b8 find_value(i32 considered_range, T_Value considered_value) {
-			if (considered_range < 0) {
-				return sys_true;
-			}
-
-			for (i32 i = 0; i < (i32)m_caches.size(); ++i) {
-				if (m_caches[i].m_considered_range <= considered_range
-					&& mt_helper::compare_value(m_caches[i].m_value, considered_value) == 0) {
-						return sys_true;
-				}
-			}
-
-			return sys_false;
-		}
-
 		vector<cache_info> m_caches;
 		T_Value m_max_value;
 		vector<b8> m_flags;
-- 
2.43.0


From 282b0bc3f991fd20ef21557dae4651f1d3c27637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:14 +0000
Subject: [PATCH 099/183] fix: [T08] comparing unsigned or distant integers
 wrapped around

---
 basicmath/include/mt_helper.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/basicmath/include/mt_helper.h b/basicmath/include/mt_helper.h
index 4a4aec0..90f3684 100644
--- a/basicmath/include/mt_helper.h
+++ b/basicmath/include/mt_helper.h
@@ -62,11 +62,9 @@ namespace basicmath {
 			} else if (typeid(T) == typeid(double)) {
 				return compare_double((double)a, (double)b);
 			} else {
-				T v = a - b;
-
-				if (v == 0) {
+				if (a == b) {
 					return 0;
-				} else if (v > 0) {
+				} else if (a > b) {
 					return 1;
 				} else {
 					return -1;
-- 
2.43.0


From 625133fe7d1af422f45d5b0be0b093d64fea320b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:14 +0000
Subject: [PATCH 100/183] fix: [T08] combinations of more than twelve elements
 overflowed

---
 basicmath/include/mt_helper.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/basicmath/include/mt_helper.h b/basicmath/include/mt_helper.h
index 90f3684..61e7394 100644
--- a/basicmath/include/mt_helper.h
+++ b/basicmath/include/mt_helper.h
@@ -241,7 +241,13 @@ namespace basicmath {
 
 		static i32 combination(i32 n, i32 k) {
 			basiclog_assert2(n >= k);
-			return factorial(n) / (factorial(k) * factorial(n - k));
+			i64 res = 1;
+
+			for (i32 i = 1; i <= k; ++i) {
+				res = res * (n - k + i) / i;
+			}
+
+			return (i32)res;
 		}
 
 		template<class T>
-- 
2.43.0


From f84ab4c89a2cf1fea25071bfef92c9a03eccc3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:14 +0000
Subject: [PATCH 101/183] fix: [T08] the sums of a vector were written behind
 the end of a shorter result

---
 basicmath/include/mt_helper.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/basicmath/include/mt_helper.h b/basicmath/include/mt_helper.h
index 61e7394..888e09b 100644
--- a/basicmath/include/mt_helper.h
+++ b/basicmath/include/mt_helper.h
@@ -320,6 +320,10 @@ namespace basicmath {
 
 		template<class T>
 		static void integral_array(vector<T>& res, const vector<T>& src) {
+			if (res.size() < src.size() + 1) {
+				res.resize(src.size() + 1);
+			}
+
 			res[0] = 0;
 
 			for (int i = 0; i < (int)src.size(); ++i) {
-- 
2.43.0


From d54860e9a85cd208f1f31b03305f056aba625088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:14 +0000
Subject: [PATCH 102/183] fix: [T08] instances from pointers were read from the
 size of the target

---
 basicmath/include/mt_helper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/include/mt_helper.h b/basicmath/include/mt_helper.h
index 888e09b..b8f4e04 100644
--- a/basicmath/include/mt_helper.h
+++ b/basicmath/include/mt_helper.h
@@ -352,7 +352,7 @@ namespace basicmath {
 
 		template<class T>
 		static void instance_from_pointer(vector<T>& res, const vector<T*>& src) {
-			res.resize(res.size());
+			res.resize(src.size());
 
 			for (int i = 0; i < (int)res.size(); ++i) {
 				res[i] = *src[i];
-- 
2.43.0


From 27b3f37e8c2edd06174d31867069b9801e30bf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:14 +0000
Subject: [PATCH 103/183] fix: [T08] negative odd numbers were not sorted as
 odd

---
 basicmath/include/mt_helper.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/basicmath/include/mt_helper.h b/basicmath/include/mt_helper.h
index b8f4e04..f7a8737 100644
--- a/basicmath/include/mt_helper.h
+++ b/basicmath/include/mt_helper.h
@@ -369,12 +369,12 @@ namespace basicmath {
 					
 					for (i32 j = 0; j < (i32)res.size() - 1 - i; ++j) {
 						if (odd_as_front) {
-							if (res[j] % 2 == 0 && res[j + 1] % 2 == 1) {
+							if (res[j] % 2 == 0 && res[j + 1] % 2 != 0) {
 								swap(res[j], res[j + 1]);
 								switch_flag = sys_true;
 							}
 						} else {
-							if (res[j] % 2 == 1 && res[j + 1] % 2 == 0) {
+							if (res[j] % 2 != 0 && res[j + 1] % 2 == 0) {
 								swap(res[j], res[j + 1]);
 								switch_flag = sys_true;
 							}
@@ -390,11 +390,11 @@ namespace basicmath {
 				i32 high = (i32)res.size() - 1;
 
 				while (low < high) {
-					while (low < high && ((odd_as_front && res[low] % 2 == 1) || (!odd_as_front && res[low] % 2 == 0))) {
+					while (low < high && ((odd_as_front && res[low] % 2 != 0) || (!odd_as_front && res[low] % 2 == 0))) {
 						++low;
 					}
 
-					while (low < high && ((odd_as_front && res[high] % 2 == 0) || (!odd_as_front && res[high] % 2 == 1))) {
+					while (low < high && ((odd_as_front && res[high] % 2 == 0) || (!odd_as_front && res[high] % 2 != 0))) {
 						--high;
 					}
 
-- 
2.43.0


From 1a0a4b58526f10f006f550dce4c6560296a3bebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:14 +0000
Subject: [PATCH 104/183] fix: [T08] flipping a vector exchanged everything
 with its last element

---
 basicmath/include/mt_helper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/include/mt_helper.h b/basicmath/include/mt_helper.h
index f7a8737..d21dc12 100644
--- a/basicmath/include/mt_helper.h
+++ b/basicmath/include/mt_helper.h
@@ -416,7 +416,7 @@ namespace basicmath {
 			i32 half_size = (i32)data.size()  / 2;
 			
 			for (i32 i = 0; i < half_size; ++i) {
-				swap(data[i], data[i + (i32)data.size() - i - 1]);
+				swap(data[i], data[(i32)data.size() - i - 1]);
 			}
 		}
 
-- 
2.43.0


From 8d2c902037c4deeae8d4dc78378c0a146f5b3a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:14 +0000
Subject: [PATCH 105/183] fix: [T08] splitting an array compared truncated
 means

---
 basicmath/src/mt_helper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicmath/src/mt_helper.cpp b/basicmath/src/mt_helper.cpp
index fa57be7..bd8e6e2 100644
--- a/basicmath/src/mt_helper.cpp
+++ b/basicmath/src/mt_helper.cpp
@@ -299,13 +299,13 @@ void mt_helper::split_array_to_max_mean_sub_arrays(vector<i32>& a, vector<i32>&b
 	for (i32 i = (i32)data.size() - 1; i >= 0; --i) {
 		right_sum += data[i];
 
-		a[i] = right_sum / ((i32)data.size()  - i);
+		a[i] = right_sum;
 	}
 
 	for (i32 i = 0; i < (i32)data.size() - 1; ++i) {
 		left_sum += data[i];
 
-		i32 right_mean = a[i + 1];
+		f32 right_mean = a[i + 1] / (f32)((i32)data.size() - i - 1);
 		f32 left_mean = left_sum / (f32)(i + 1);
 
 		if (right_mean - left_mean > max_sub) {
-- 
2.43.0


From 7755b6835e8d42d8a4940bd658d63004f7a1f4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:14 +0000
Subject: [PATCH 106/183] fix: [T08] histograms wrote behind their result and
 lost values that are not positive

---
 basicmath/src/mt_hist.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/basicmath/src/mt_hist.cpp b/basicmath/src/mt_hist.cpp
index babe0fd..8c69bde 100644
--- a/basicmath/src/mt_hist.cpp
+++ b/basicmath/src/mt_hist.cpp
@@ -7,13 +7,14 @@
 
 void mt_hist::hist(vector<mt_range_t<f64>>& ranges, vector<i32>& numbers, const vector<f64>& data, i32 hist_bin_number) {
 	f64 max_value = mt_helper::compute_max<f64>((i32)data.size(), &data[0]);
-	max_value += max_value / 100;
+	max_value += abs(max_value) / 100;
 
 	f64 min_value = mt_helper::compute_min<f64>((i32)data.size(), &data[0]);
 
 	f64 gap = (max_value - min_value) / hist_bin_number;
 
 	ranges.resize(hist_bin_number);
+	numbers.assign(hist_bin_number, 0);
 
 	f64 base_value = min_value;
 
@@ -25,8 +26,9 @@ void mt_hist::hist(vector<mt_range_t<f64>>& ranges, vector<i32>& numbers, const
 
 	for (i32 i = 0; i < (i32)data.size(); ++i) {
 		for (i32 j = 0; j < (i32)ranges.size(); ++j) {
-			if (data[i] >= ranges[j].m_start && data[i] < ranges[j].m_end) {
+			if (data[i] < ranges[j].m_end || j == (i32)ranges.size() - 1) {
 				++numbers[j];
+				break;
 			}
 		}
 	}
-- 
2.43.0


From df1b17f1ea84544d804ed1f92a17f2d3bf422b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:16 +0000
Subject: [PATCH 107/183] fix: [T08] equal infinities compared as different

---
 basicmath/src/mt_helper.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/basicmath/src/mt_helper.cpp b/basicmath/src/mt_helper.cpp
index bd8e6e2..11db597 100644
--- a/basicmath/src/mt_helper.cpp
+++ b/basicmath/src/mt_helper.cpp
@@ -36,6 +36,10 @@ double mt_helper::get_double_eps() {
 }
 
 int mt_helper::compare_float(float a, float b) {
+	if (a == b) {
+		return 0;
+	}
+
 	float value = a - b;
 
 	if (abs(value) < mt_float_eps) {
@@ -56,6 +60,10 @@ int mt_helper::compare_float(float a, float b) {
 }
 
 int mt_helper::compare_double(double a, double b) {
+	if (a == b) {
+		return 0;
+	}
+
 	double value = a - b;
 
 	if (abs(value) < mt_double_eps) {
-- 
2.43.0


From 439da7d4c36a05f9f50ba9bb9bc0402f36b8362f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:16 +0000
Subject: [PATCH 108/183] fix: [T08] splitting an array kept the earlier
 content of a result

---
 basicmath/src/mt_helper.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/basicmath/src/mt_helper.cpp b/basicmath/src/mt_helper.cpp
index 11db597..6fbb1ef 100644
--- a/basicmath/src/mt_helper.cpp
+++ b/basicmath/src/mt_helper.cpp
@@ -289,11 +289,15 @@ string mt_helper::battle_ship(const string& ships, const string& hits) {
 }
 
 void mt_helper::split_array_to_max_mean_sub_arrays(vector<i32>& a, vector<i32>&b , const vector<i32>& input_data) {
-	if (input_data.empty()) {
+	vector<i32> data = input_data;
+
+	a.clear();
+	b.clear();
+
+	if (data.empty()) {
 		return;
 	}
 
-	vector<i32> data = input_data;
 	sort(data.begin(), data.end());
 
 	i32 left_sum = 0;
-- 
2.43.0


From bfc8ccf5afbc8f73b7404b1c282f667c56ce3095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:53 +0000
Subject: [PATCH 109/183] fix: [T09] random integers lay outside their range
 where RAND_MAX is the largest int

---
 basicmath/src/mt_random.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicmath/src/mt_random.cpp b/basicmath/src/mt_random.cpp
index 709fc1e..b3996b6 100644
--- a/basicmath/src/mt_random.cpp
+++ b/basicmath/src/mt_random.cpp
@@ -8,8 +8,8 @@ void mt_random::set_seed(u32 seed) {
 }
 
 i32 mt_random::random_next_i32(i32 min, i32 max) {
-	f64 value = rand() / (f64)(RAND_MAX + 1);	//[0,1)
-	return (i32)(value * (max - min + 1)) + min;
+	f64 value = rand() / ((f64)RAND_MAX + 1);	//[0,1)
+	return (i32)((i64)(value * ((f64)max - min + 1)) + min);
 }
 
 f64 mt_random::random_uniform(f64 min, b8 min_opened, f64 max, b8 max_opened) {
-- 
2.43.0


From 8eed2611558f01ad6d9a42d172bb803c70437ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:53 +0000
Subject: [PATCH 110/183] fix: [T09] open bounds were drawn unless the interval
 was about one wide

---
 basicmath/src/mt_random.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/basicmath/src/mt_random.cpp b/basicmath/src/mt_random.cpp
index b3996b6..4dee7fd 100644
--- a/basicmath/src/mt_random.cpp
+++ b/basicmath/src/mt_random.cpp
@@ -14,14 +14,16 @@ i32 mt_random::random_next_i32(i32 min, i32 max) {
 
 f64 mt_random::random_uniform(f64 min, b8 min_opened, f64 max, b8 max_opened) {
 	if (min_opened) {
-		min += DBL_EPSILON;
+		min = nextafter(min, max);
 	}
 
 	if (max_opened) {
-		max -= DBL_EPSILON;
+		max = nextafter(max, min);
 	}
 
-	return rand() / (f64)RAND_MAX * (max - min) + min;
+	f64 value = rand() / (f64)RAND_MAX * (max - min) + min;
+
+	return mt_helper::max<f64>(min, mt_helper::min<f64>(max, value));
 }
 
 mt_mat mt_random::random_uniform_iid(i32 rows, i32 cols, mt_Depth_Channel depth_channel, f64 min /* = 0.0 */, b8 min_opened /* = sys_true */, f64 max /* = 1.0 */, b8 max_opened /* = sys_true */) {
-- 
2.43.0


From d57faf26e6885a1f2bded12669315cca341c95d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:53 +0000
Subject: [PATCH 111/183] fix: [T09] binomial probabilities overflowed for more
 than 33 trials

---
 basicmath/src/mt_random.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/basicmath/src/mt_random.cpp b/basicmath/src/mt_random.cpp
index 4dee7fd..ac65ce8 100644
--- a/basicmath/src/mt_random.cpp
+++ b/basicmath/src/mt_random.cpp
@@ -93,8 +93,11 @@ i32 mt_random::bernoulli(i32 n, f64 p) {
 	vector<f64> probabilitys;
 	probabilitys.resize(n + 1);
 
+	f64 combination = 1;
+
 	for (i32 k = 0; k <= n; ++k) {
-		probabilitys[k] = mt_helper::combination(n, k) * pow(p, k) * pow(1 - p, n - k);
+		probabilitys[k] = combination * pow(p, k) * pow(1 - p, n - k);
+		combination = combination * (n - k) / (k + 1);
 	}
 
 	for (i32 k = 1; k < n; ++k) {
@@ -127,8 +130,11 @@ mt_mat mt_random::bernoulli_iid(i32 dims, const i32* sizes, mt_Depth_Channel dep
 	vector<f64> probabilitys;
 	probabilitys.resize(n + 1);
 
+	f64 combination = 1;
+
 	for (i32 k = 0; k <= n; ++k) {
-		probabilitys[k] = mt_helper::combination(n, k) * pow(p, k) * pow(1 - p, n - k);
+		probabilitys[k] = combination * pow(p, k) * pow(1 - p, n - k);
+		combination = combination * (n - k) / (k + 1);
 	}
 
 	for (i32 k = 1; k < n; ++k) {
-- 
2.43.0


From b6ec677f0a94b7ff8eb9d39c8e2f248681ab2243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:53 +0000
Subject: [PATCH 112/183] fix: [T09] drawing a binomial matrix leaked

---
 basicmath/src/mt_random.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/basicmath/src/mt_random.cpp b/basicmath/src/mt_random.cpp
index ac65ce8..7a7144e 100644
--- a/basicmath/src/mt_random.cpp
+++ b/basicmath/src/mt_random.cpp
@@ -168,6 +168,8 @@ mt_mat mt_random::bernoulli_iid(i32 dims, const i32* sizes, mt_Depth_Channel dep
 		mat.set(random_values, dims, &iter.position()[0]);
 	}
 
+	basicmath_mat_release(random_values);
+
 	return mat;
 }
 
-- 
2.43.0


From c066b970978e2e798a6fe220faedadcd4dcb955d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:53 +0000
Subject: [PATCH 113/183] fix: [T09] permutations did not follow the seed

---
 basicmath/src/mt_random.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/basicmath/src/mt_random.cpp b/basicmath/src/mt_random.cpp
index 7a7144e..bdb1c87 100644
--- a/basicmath/src/mt_random.cpp
+++ b/basicmath/src/mt_random.cpp
@@ -77,7 +77,9 @@ void mt_random::randperm(vector<i32>& results, i32 size) {
 		results[i] = i;
 	}
 
-	random_shuffle(results.begin(), results.end());
+	for (i32 i = (i32)results.size() - 1; i > 0; --i) {
+		swap(results[i], results[random_next_i32(0, i)]);
+	}
 }
 
 void mt_random::randSample(i32 size, vector<i32>& results) {
-- 
2.43.0


From aa1ae2c2c1474b8fc32a6948478b0ca536965586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:17 +0000
Subject: [PATCH 114/183] fix: [T11] a block memory of single elements took its
 first block from none

---
 basicmath/include/mt_block_memory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/include/mt_block_memory.h b/basicmath/include/mt_block_memory.h
index 470c3ac..91e0a4d 100644
--- a/basicmath/include/mt_block_memory.h
+++ b/basicmath/include/mt_block_memory.h
@@ -108,7 +108,7 @@ namespace basicmath {
 		void init(i32 block_size_2_base, b8 use_new = sys_false, i32 max_reuse = 0) {
 			basiclog_assert2(block_size_2_base >= 0);
 
-			if (block_size_2_base == m_block_size_2_base && m_use_new == use_new) {
+			if (!m_datas.empty() && block_size_2_base == m_block_size_2_base && m_use_new == use_new) {
 				m_cur_block = 0;
 				m_cur_data = m_datas.front();
 				m_cur_block_end = m_cur_data + m_block_size;
-- 
2.43.0


From c60460bb953a052f84a71972e6312b60b328bd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:17 +0000
Subject: [PATCH 115/183] fix: [T11] addresses in earlier blocks were said to
 lie outside

---
 basicmath/include/mt_block_memory.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/basicmath/include/mt_block_memory.h b/basicmath/include/mt_block_memory.h
index 91e0a4d..5e4fe85 100644
--- a/basicmath/include/mt_block_memory.h
+++ b/basicmath/include/mt_block_memory.h
@@ -172,7 +172,7 @@ namespace basicmath {
 		}
 
 		b8 in_block(T* data) const {
-			if (m_cur_block == -1 || data < m_begin || data >= m_cur_data) {
+			if (m_cur_block == -1) {
 				return sys_false;
 			}
 
@@ -182,11 +182,11 @@ namespace basicmath {
 
 			for (i32 i = 0; i < m_cur_block; ++i) {
 				if (data >= m_datas[i] && data < m_datas[i] + m_block_size) {
-					return sys_false;
+					return sys_true;
 				}
 			}
 
-			return sys_true;
+			return sys_false;
 		}
 
 		u64 memory_size() {
-- 
2.43.0


From a8bc0e01be8be73b77bec59409d9764f0521b3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:17 +0000
Subject: [PATCH 116/183] fix: [T12] all threads had the same identity outside
 windows

---
 basicsys/src/sys_os.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/basicsys/src/sys_os.cpp b/basicsys/src/sys_os.cpp
index 80bf05a..feb089d 100644
--- a/basicsys/src/sys_os.cpp
+++ b/basicsys/src/sys_os.cpp
@@ -5,6 +5,7 @@
 #if defined _WIN32
 #include <windows.h>
 #else
+#include <pthread.h>
 #endif // DEBUG
 
 
@@ -16,6 +17,6 @@ u64 sys_os::current_thread_id() {
 #if defined _WIN32
 	return GetCurrentThreadId();
 #else
-	return 0;
+	return (u64)pthread_self();
 #endif // DEBUG
 }
\ No newline at end of file
-- 
2.43.0


From d948b3b3cbe341640a5582d78c46c1111366f4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:17 +0000
Subject: [PATCH 117/183] fix: [T12] the cache of matrices was changed by
 several threads at once

---
 basicmath/src/mt_mat_cache.cpp | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/basicmath/src/mt_mat_cache.cpp b/basicmath/src/mt_mat_cache.cpp
index 99c500b..df292d2 100644
--- a/basicmath/src/mt_mat_cache.cpp
+++ b/basicmath/src/mt_mat_cache.cpp
@@ -28,7 +28,7 @@ mt_mat_cache::~mt_mat_cache() {
 
 void mt_mat_cache::set_memory_size(i64 memory_size) {
 	{
-		sys_thread_lock (s_mat_cache.m_mutex);
+		sys_thread_lock lock(s_mat_cache.m_mutex);
 		s_mat_cache.m_memory_size = memory_size;
 
 		s_mat_cache.statistic_memory();
@@ -45,7 +45,7 @@ void mt_mat_cache::output_cache_statistic() {
 
 void mt_mat_cache::enable_cache(b8 enable) {
 	{
-		sys_thread_lock (s_mat_cache.m_mutex);
+		sys_thread_lock lock(s_mat_cache.m_mutex);
 		map<u64, thread_data>::iterator td = s_mat_cache.m_thread_data.find(sys_os::current_thread_id());
 
 		if (td == s_mat_cache.m_thread_data.end()) {
@@ -76,8 +76,6 @@ mt_mat mt_mat_cache::get(const vector<i32>& sizes, mt_Depth_Channel depth_channe
 }
 
 mt_mat mt_mat_cache::get(i32 dim, const i32* sizes, mt_Depth_Channel depth_channel) {
-	thread_data* data = NULL;
-	
 	{
 		sys_thread_lock lock(m_mutex);
 
@@ -85,13 +83,7 @@ mt_mat mt_mat_cache::get(i32 dim, const i32* sizes, mt_Depth_Channel depth_chann
 
 		map<u64, thread_data>::iterator td = m_thread_data.find(sys_os::current_thread_id());
 
-		if (td != m_thread_data.end()) {
-			data = &td->second;
-		}
-	}
-
-	if (data != NULL) {
-		if (data->m_enable) {
+		if (td != m_thread_data.end() && td->second.m_enable) {
 			for (i32 i = 0; i < (int)m_caches.size(); ++i) {
 				if (m_caches[i].reference_number() == 1 && m_caches[i].depth_channel() == depth_channel && m_caches[i].dim() == dim) {
 					b8 same_size = sys_true;
-- 
2.43.0


From 539fae999ecee752d8c45b8cb7d9ded090d2b68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:17 +0000
Subject: [PATCH 118/183] fix: [T12] the number of requests was never set

---
 basicmath/src/mt_mat_cache.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/basicmath/src/mt_mat_cache.cpp b/basicmath/src/mt_mat_cache.cpp
index df292d2..d1445c9 100644
--- a/basicmath/src/mt_mat_cache.cpp
+++ b/basicmath/src/mt_mat_cache.cpp
@@ -19,6 +19,7 @@ mt_auto_mat_cache::~mt_auto_mat_cache() {
 mt_mat_cache::mt_mat_cache() {
 	m_mutex = sys_thread_lock::create_mutex();
 	m_memory_size = 1024 * 1024 * 1024;
+	m_get_number = 0;
 	m_cache_number = 0;
 }
 
-- 
2.43.0


From 90cd8f43950b25683ba0f209dbe71c736252e4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:17 +0000
Subject: [PATCH 119/183] fix: [T12] the size of the cache overflowed above two
 gigabytes

---
 basicmath/src/mt_mat_cache.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/basicmath/src/mt_mat_cache.cpp b/basicmath/src/mt_mat_cache.cpp
index d1445c9..bc438ff 100644
--- a/basicmath/src/mt_mat_cache.cpp
+++ b/basicmath/src/mt_mat_cache.cpp
@@ -120,11 +120,11 @@ mt_mat mt_mat_cache::get(i32 dim, const i32* sizes, mt_Depth_Channel depth_chann
 }
 
 void mt_mat_cache::statistic_memory() {
-	i32 total_memory = 0;
-	i32 used_memory = 0;
+	i64 total_memory = 0;
+	i64 used_memory = 0;
 
 	for (i32 i = 0; i < (i32)m_caches.size(); ++i) {
-		i32 cur_memory = m_caches[i].element_size() * m_caches[i].element_number();
+		i64 cur_memory = (i64)m_caches[i].element_size() * m_caches[i].element_number();
 
 		if (m_caches[i].reference_number() > 1) {
 			used_memory += cur_memory;
@@ -136,13 +136,13 @@ void mt_mat_cache::statistic_memory() {
 	if (total_memory > m_memory_size && total_memory > used_memory * 2) {
 		basiclog_info2(sys_strcombine()<<", begin release memory in mt_mat_cache, before total memory: "<<total_memory<<", used memory: "<<used_memory);
 
-		i32 retain_memory = used_memory * 2;
+		i64 retain_memory = used_memory * 2;
 
 		vector<mt_mat>::iterator iter = m_caches.begin();
 
 		while (iter != m_caches.end()) {
 			if (iter->reference_number() == 1) {
-				i32 cur_memory = iter->element_size() * iter->element_number();
+				i64 cur_memory = (i64)iter->element_size() * iter->element_number();
 				iter = m_caches.erase(iter);
 				total_memory -= cur_memory;
 
-- 
2.43.0


From 077975740b48c507a9632da5a536c092f25f9975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:17 +0000
Subject: [PATCH 120/183] fix: [T03] the number of references was read while
 other threads changed it

---
 basicmath/include/mt_mat.h | 3 ++-
 basicmath/src/mt_mat.cpp   | 6 ++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/basicmath/include/mt_mat.h b/basicmath/include/mt_mat.h
index 705efe2..a5baf0b 100644
--- a/basicmath/include/mt_mat.h
+++ b/basicmath/include/mt_mat.h
@@ -97,7 +97,7 @@ class mt_mat {
 				return 0;
 			}
 
-			return m_reference->m_ref_number;
+			return m_reference->ref_number();
 		}
 			 
 		mt_mat derivative(const mt_mat& other) const;
@@ -652,6 +652,7 @@ class mt_mat {
 			~reference_info();
 			void add_ref();
 			b8 sub_ref();
+			i32 ref_number() const;
 
 			i32 m_ref_number;
 			void* m_ref_mutex;	//!< Even the mt_mat is not thread safety, however, we must make sure the =, sub, channel, reshape etc. operations (change the reference number while resuse the memory)
diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index e112678..f040a6e 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -786,6 +786,12 @@ void mt_mat::reference_info::add_ref() {
 	}
 }
 
+i32 mt_mat::reference_info::ref_number() const {
+	sys_thread_lock lock(m_ref_mutex);
+
+	return m_ref_number;
+}
+
 b8 mt_mat::reference_info::sub_ref() {
 	sys_thread_lock lock(m_ref_mutex);
 	{
-- 
2.43.0


From 83f1e599eaf173ea3b7b3e5d5923dd92d15b059a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:16 +0000
Subject: [PATCH 121/183] fix: [T12] the limit and the statistic of the cache
 were read while others change them

---
 basicmath/src/mt_mat_cache.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/basicmath/src/mt_mat_cache.cpp b/basicmath/src/mt_mat_cache.cpp
index bc438ff..0030a0c 100644
--- a/basicmath/src/mt_mat_cache.cpp
+++ b/basicmath/src/mt_mat_cache.cpp
@@ -37,10 +37,12 @@ void mt_mat_cache::set_memory_size(i64 memory_size) {
 }
 
 i64 mt_mat_cache::get_memory_size() {
+	sys_thread_lock lock(s_mat_cache.m_mutex);
 	return s_mat_cache.m_memory_size;
 }
 
 void mt_mat_cache::output_cache_statistic() {
+	sys_thread_lock lock(s_mat_cache.m_mutex);
 	basiclog_info2("m_get_number: "<<s_mat_cache.m_get_number<<"m_cache_number: "<<s_mat_cache.m_cache_number);
 }
 
-- 
2.43.0


From 917378ca8beac0157957f2042ca616d30a292277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:16 +0000
Subject: [PATCH 122/183] fix: [T12] leaving an inner scope disabled the cache
 for the outer one

---
 basicmath/include/mt_mat_cache.h | 2 +-
 basicmath/src/mt_mat_cache.cpp   | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/basicmath/include/mt_mat_cache.h b/basicmath/include/mt_mat_cache.h
index 397e3a8..36b6dbf 100644
--- a/basicmath/include/mt_mat_cache.h
+++ b/basicmath/include/mt_mat_cache.h
@@ -30,7 +30,7 @@ namespace basicmath {
 		void statistic_memory();
 
 		struct thread_data {
-			b8 m_enable;
+			i32 m_enable;
 		};
 
 		map<u64, thread_data> m_thread_data;
diff --git a/basicmath/src/mt_mat_cache.cpp b/basicmath/src/mt_mat_cache.cpp
index 0030a0c..00953a5 100644
--- a/basicmath/src/mt_mat_cache.cpp
+++ b/basicmath/src/mt_mat_cache.cpp
@@ -54,14 +54,14 @@ void mt_mat_cache::enable_cache(b8 enable) {
 		if (td == s_mat_cache.m_thread_data.end()) {
 			if (enable) {
 				thread_data data;
-				data.m_enable = enable;
+				data.m_enable = 1;
 
 				s_mat_cache.m_thread_data.insert(make_pair(sys_os::current_thread_id(), data));
 			}
 		} else {
-			td->second.m_enable = enable;
+			td->second.m_enable += enable ? 1 : -1;
 
-			if (!enable) {
+			if (td->second.m_enable == 0) {
 				s_mat_cache.m_caches.clear();
 			}
 		}
@@ -86,7 +86,7 @@ mt_mat mt_mat_cache::get(i32 dim, const i32* sizes, mt_Depth_Channel depth_chann
 
 		map<u64, thread_data>::iterator td = m_thread_data.find(sys_os::current_thread_id());
 
-		if (td != m_thread_data.end() && td->second.m_enable) {
+		if (td != m_thread_data.end() && td->second.m_enable > 0) {
 			for (i32 i = 0; i < (int)m_caches.size(); ++i) {
 				if (m_caches[i].reference_number() == 1 && m_caches[i].depth_channel() == depth_channel && m_caches[i].dim() == dim) {
 					b8 same_size = sys_true;
-- 
2.43.0


From 4f954af2aec8ecab1781f725508fe447b9f3e50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:25 +0000
Subject: [PATCH 123/183] fix: [T12] every thread that used the cache was
 remembered for ever

---
 basicmath/src/mt_mat_cache.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/basicmath/src/mt_mat_cache.cpp b/basicmath/src/mt_mat_cache.cpp
index 00953a5..fa49e90 100644
--- a/basicmath/src/mt_mat_cache.cpp
+++ b/basicmath/src/mt_mat_cache.cpp
@@ -62,6 +62,7 @@ void mt_mat_cache::enable_cache(b8 enable) {
 			td->second.m_enable += enable ? 1 : -1;
 
 			if (td->second.m_enable == 0) {
+				s_mat_cache.m_thread_data.erase(td);
 				s_mat_cache.m_caches.clear();
 			}
 		}
-- 
2.43.0


From 02823300ce150dd705f5141e92b6d4aad50eee4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:01 +0000
Subject: [PATCH 124/183] revert: flip flags are false by their type, nothing
 was wrong

This reverts commit 3ab95f0.
---
 basicmath/src/mt_mat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index f040a6e..48e53aa 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -2553,7 +2553,7 @@ mt_mat mt_mat::flip(int size, const int* dims) const {
 
 	basicmath_mat_request_memory(b8, flip_flags, dim());
 
-	for (i32 i = 0; i < dim(); ++i) {
+	for (i32 i = 0; i < size; ++i) {
 		flip_flags[i] = sys_false;
 	}
 
-- 
2.43.0


From b22796ebe6deb944c81c03cab9c043ea29e130e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:41 +0000
Subject: [PATCH 125/183] fix: [L01] adding a filter was declared only

---
 basiclog/src/basiclog.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/basiclog/src/basiclog.cpp b/basiclog/src/basiclog.cpp
index 1701c16..803629d 100644
--- a/basiclog/src/basiclog.cpp
+++ b/basiclog/src/basiclog.cpp
@@ -60,6 +60,11 @@ void log_logger::set_filter(const std::vector<string>& filters) {
 	m_filters = filters;
 }
 
+void log_logger::add_filter(const string& filter) {
+	sys_thread_lock lock(m_mutex);
+	m_filters.push_back(filter);
+}
+
 void log_logger::get_filter(vector<string>& filters) {
 	sys_thread_lock lock(m_mutex);
 	filters = m_filters;
-- 
2.43.0


From 4e1d16b9db3bb58d555dfba45ad7a20bd38daaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:41 +0000
Subject: [PATCH 126/183] fix: [L01] the console was silent after a character
 that is not ascii

---
 basiclog/src/basiclog.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basiclog/src/basiclog.cpp b/basiclog/src/basiclog.cpp
index 803629d..54e297d 100644
--- a/basiclog/src/basiclog.cpp
+++ b/basiclog/src/basiclog.cpp
@@ -182,7 +182,7 @@ string log_logger::format_timestamp() const {
 }
 
 void log_console_logger::print(const string& log_info) {
-	wcout<<log_info.c_str();
+	cout<<log_info<<flush;
 }
 
 void log_ide_console_logger::print(const string& log_info) {
-- 
2.43.0


From 1a38449ab8cea473793c81fe457e7eceeaf59374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:41 +0000
Subject: [PATCH 127/183] fix: [L01] the file logger ignored its directory

---
 basiclog/src/basiclog.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/basiclog/src/basiclog.cpp b/basiclog/src/basiclog.cpp
index 54e297d..4cc2312 100644
--- a/basiclog/src/basiclog.cpp
+++ b/basiclog/src/basiclog.cpp
@@ -204,6 +204,7 @@ log_file_logger::log_file_logger(const string& dir, int file_max_log_number /* =
 		m_cur_file = NULL;
 		m_cur_file_log_number = 0;
 
+		m_save_dir = dir;
 		sys_path::create_multi_dir(m_save_dir);
 }
 
-- 
2.43.0


From fac9086df0d02474697fd73fb4fc32cdf756988f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:41 +0000
Subject: [PATCH 128/183] fix: [L01] log files lay beside a directory given
 without separator

---
 basiclog/src/basiclog.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/basiclog/src/basiclog.cpp b/basiclog/src/basiclog.cpp
index 4cc2312..9e776fd 100644
--- a/basiclog/src/basiclog.cpp
+++ b/basiclog/src/basiclog.cpp
@@ -189,6 +189,12 @@ void log_ide_console_logger::print(const string& log_info) {
 	ide_console_print(log_info);
 }
 
+static void append_dir_separator(string& dir) {
+	if (!dir.empty() && dir[dir.size() - 1] != '/' && dir[dir.size() - 1] != '\\') {
+		dir += "/";
+	}
+}
+
 log_file_logger::~log_file_logger() {
 	if (m_cur_file != NULL) {
 		fclose(m_cur_file);
@@ -205,6 +211,7 @@ log_file_logger::log_file_logger(const string& dir, int file_max_log_number /* =
 		m_cur_file_log_number = 0;
 
 		m_save_dir = dir;
+		append_dir_separator(m_save_dir);
 		sys_path::create_multi_dir(m_save_dir);
 }
 
@@ -213,6 +220,7 @@ void log_file_logger::set_dir(const string& dir) {
 		sys_thread_lock lock(m_mutex);
 
 		m_save_dir = dir;
+		append_dir_separator(m_save_dir);
 		sys_path::create_multi_dir(m_save_dir);
 
 		m_list_files.clear();
-- 
2.43.0


From faf29510e67e1583b81fd0159887fa5c7983fa3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:41 +0000
Subject: [PATCH 129/183] fix: [L01] limits lowered below what was reached were
 never applied

---
 basiclog/src/basiclog.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/basiclog/src/basiclog.cpp b/basiclog/src/basiclog.cpp
index 9e776fd..8d709be 100644
--- a/basiclog/src/basiclog.cpp
+++ b/basiclog/src/basiclog.cpp
@@ -248,18 +248,19 @@ void log_file_logger::set_max_file_number(int max_number) {
 }
 
 void log_file_logger::print(const string& log_info) {
-	if (NULL == m_cur_file || m_cur_file_log_number == m_file_max_log_number) {
-		if ((int)m_list_files.size() == m_max_file_number) {
+	if (NULL == m_cur_file || m_cur_file_log_number >= m_file_max_log_number) {
+		if (m_cur_file != NULL) {
+			fclose(m_cur_file);
+			m_cur_file = NULL;
+		}
+
+		while (!m_list_files.empty() && (int)m_list_files.size() >= m_max_file_number) {
 			remove(m_list_files.front().c_str());
 			m_list_files.pop_front();
 		}
 
 		m_list_files.push_back(m_save_dir + generate_new_file_title() + ".txt");
 
-		if (m_cur_file != NULL) {
-			fclose(m_cur_file);
-		}
-
 		fopen_s(&m_cur_file, m_list_files.back().c_str(), "wb");
 		m_cur_file_log_number = 0;
 	}
-- 
2.43.0


From 661674f71a50aeebe02d99f1c34f5caa4170b678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:41 +0000
Subject: [PATCH 130/183] fix: [L01] a file begun within the same second
 replaced the one before

---
 basiclog/src/basiclog.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/basiclog/src/basiclog.cpp b/basiclog/src/basiclog.cpp
index 8d709be..08b8734 100644
--- a/basiclog/src/basiclog.cpp
+++ b/basiclog/src/basiclog.cpp
@@ -259,7 +259,15 @@ void log_file_logger::print(const string& log_info) {
 			m_list_files.pop_front();
 		}
 
-		m_list_files.push_back(m_save_dir + generate_new_file_title() + ".txt");
+		const string title = m_save_dir + generate_new_file_title();
+		string path = title + ".txt";
+
+		// several files may begin within one second
+		for (int i = 1; sys_path::is_exist(path); ++i) {
+			path = sys_strhelper::combine("%s (%d).txt", title.c_str(), i);
+		}
+
+		m_list_files.push_back(path);
 
 		fopen_s(&m_cur_file, m_list_files.back().c_str(), "wb");
 		m_cur_file_log_number = 0;
-- 
2.43.0


From e57d07441d477ea6bbbea22bf951fae9d16ea9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:41 +0000
Subject: [PATCH 131/183] fix: [L01] logging crashed when no file could be made

---
 basiclog/src/basiclog.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/basiclog/src/basiclog.cpp b/basiclog/src/basiclog.cpp
index 08b8734..1a15f43 100644
--- a/basiclog/src/basiclog.cpp
+++ b/basiclog/src/basiclog.cpp
@@ -271,6 +271,11 @@ void log_file_logger::print(const string& log_info) {
 
 		fopen_s(&m_cur_file, m_list_files.back().c_str(), "wb");
 		m_cur_file_log_number = 0;
+
+		if (m_cur_file == NULL) {
+			m_list_files.pop_back();
+			return;
+		}
 	}
 	
 	fprintf(m_cur_file, "%s", sys_strconvert::utf8_from_local(log_info).c_str());
-- 
2.43.0


From ccf24762e6e370490638707adf08670fdf6b877a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:41 +0000
Subject: [PATCH 132/183] fix: [L01] time zones beyond twelve hours and those
 with half hours were told wrong

---
 basiclog/src/basiclog.cpp | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/basiclog/src/basiclog.cpp b/basiclog/src/basiclog.cpp
index 1a15f43..5df9a24 100644
--- a/basiclog/src/basiclog.cpp
+++ b/basiclog/src/basiclog.cpp
@@ -154,6 +154,26 @@ void log_logger::print(const string& level, const string& tag, const string& msg
 	}
 }
 
+// hours east of UTC, with minutes if there are any
+static string utc_offset(const tm& tm_local, const tm& tm_utc, char separator) {
+	int minutes = (tm_local.tm_hour - tm_utc.tm_hour) * 60 + tm_local.tm_min - tm_utc.tm_min;
+
+	if (tm_local.tm_year != tm_utc.tm_year) {
+		minutes += tm_local.tm_year > tm_utc.tm_year ? 24 * 60 : -24 * 60;
+	} else {
+		minutes += (tm_local.tm_yday - tm_utc.tm_yday) * 24 * 60;
+	}
+
+	const char* sign = minutes > 0 ? "+" : minutes < 0 ? "-" : "";
+	minutes = abs(minutes);
+
+	if (minutes % 60 == 0) {
+		return sys_strhelper::combine("%s%d", sign, minutes / 60);
+	}
+
+	return sys_strhelper::combine("%s%d%c%02d", sign, minutes / 60, separator, minutes % 60);
+}
+
 string log_logger::format_timestamp() const {
 	time_t time_utc;  
 	tm tm_local;  
@@ -168,17 +188,10 @@ string log_logger::format_timestamp() const {
 	gmtime_r(&time_utc, &tm_utc);
 #endif
 
-	int time_zone = tm_local.tm_hour - tm_utc.tm_hour;  
-	if (time_zone < -12) {  
-		time_zone += 24;   
-	} else if (time_zone > 12) {  
-		time_zone -= 24;  
-	}  
-
 	char buffer[1024];
 	strftime(buffer, 1024, m_timestamp.c_str(), &tm_local);
 
-	return sys_strhelper::combine("%s UTC %s%d", buffer, time_zone > 0 ? "+" : "", time_zone);
+	return sys_strhelper::combine("%s UTC %s", buffer, utc_offset(tm_local, tm_utc, ':').c_str());
 }
 
 void log_console_logger::print(const string& log_info) {
@@ -298,15 +311,8 @@ string log_file_logger::generate_new_file_title() const {
 	gmtime_r(&time_utc, &tm_utc);
 #endif
 
-	int time_zone = tm_local.tm_hour - tm_utc.tm_hour;  
-	if (time_zone < -12) {  
-		time_zone += 24;   
-	} else if (time_zone > 12) {  
-		time_zone -= 24;  
-	}  
-
 	char buffer[1024];
 	strftime(buffer, 1024, "%Y-%m-%d %H-%M-%S", &tm_local);
 
-	return sys_strhelper::combine("%s UTC %s%d", buffer, time_zone > 0 ? "+" : "", time_zone);
+	return sys_strhelper::combine("%s UTC %s", buffer, utc_offset(tm_local, tm_utc, '-').c_str());
 }
\ No newline at end of file
-- 
2.43.0


From aad9f2686e5ae0cecc0ad4147a560a20c7f75e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:41 +0000
Subject: [PATCH 133/183] fix: [L01] an empty or too long time stamp showed
 what the stack held

---
 basiclog/src/basiclog.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/basiclog/src/basiclog.cpp b/basiclog/src/basiclog.cpp
index 5df9a24..4afd40c 100644
--- a/basiclog/src/basiclog.cpp
+++ b/basiclog/src/basiclog.cpp
@@ -189,7 +189,9 @@ string log_logger::format_timestamp() const {
 #endif
 
 	char buffer[1024];
-	strftime(buffer, 1024, m_timestamp.c_str(), &tm_local);
+	if (strftime(buffer, 1024, m_timestamp.c_str(), &tm_local) == 0) {
+		buffer[0] = 0;
+	}
 
 	return sys_strhelper::combine("%s UTC %s", buffer, utc_offset(tm_local, tm_utc, ':').c_str());
 }
-- 
2.43.0


From cf59b00f94ed7027fae04ac5df15c1524f7797b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:58 +0000
Subject: [PATCH 134/183] fix: [S05] ending the analyzer twice crashed

---
 basicsys/src/sys_alg_analyzer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/basicsys/src/sys_alg_analyzer.cpp b/basicsys/src/sys_alg_analyzer.cpp
index 17cb9a2..0d76cd9 100644
--- a/basicsys/src/sys_alg_analyzer.cpp
+++ b/basicsys/src/sys_alg_analyzer.cpp
@@ -7,6 +7,10 @@ map<string, i64> sys_alg_analyzer::m_info;
 void* sys_alg_analyzer::m_mutex = NULL;
 
 void sys_alg_analyzer::release() {
+	if (m_mutex == NULL) {
+		return;
+	}
+
 	if (basiclog::log_logger::get_logger() != NULL) {
 		basiclog::log_logger::get_logger()->print("sys_alg_analyzer", "sys_alg_analyzer", sys_strcombine()<<m_info, __FILE__, __LINE__);
 	}
-- 
2.43.0


From 65842f5fb8c29034dd95f0f48fa3e272a9762efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:58 +0000
Subject: [PATCH 135/183] fix: [S05] counters of an ended analysis were added
 to the next

---
 basicsys/src/sys_alg_analyzer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/basicsys/src/sys_alg_analyzer.cpp b/basicsys/src/sys_alg_analyzer.cpp
index 0d76cd9..b4a818e 100644
--- a/basicsys/src/sys_alg_analyzer.cpp
+++ b/basicsys/src/sys_alg_analyzer.cpp
@@ -17,6 +17,7 @@ void sys_alg_analyzer::release() {
 
 	sys_thread_lock::release_mutex(m_mutex);
 	m_mutex = NULL;
+	m_info.clear();
 }
 
 void sys_alg_analyzer::init() {
-- 
2.43.0


From 413285077838f1b71b8f0d69f22023ff7218b441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:58 +0000
Subject: [PATCH 136/183] fix: [S05] beginning the analyzer again left its lock
 behind

---
 basicsys/src/sys_alg_analyzer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/basicsys/src/sys_alg_analyzer.cpp b/basicsys/src/sys_alg_analyzer.cpp
index b4a818e..df2a584 100644
--- a/basicsys/src/sys_alg_analyzer.cpp
+++ b/basicsys/src/sys_alg_analyzer.cpp
@@ -21,7 +21,9 @@ void sys_alg_analyzer::release() {
 }
 
 void sys_alg_analyzer::init() {
-	m_mutex = sys_thread_lock::create_mutex();
+	if (m_mutex == NULL) {
+		m_mutex = sys_thread_lock::create_mutex();
+	}
 }
 
 void sys_alg_analyzer::set(const string& tag, i64 v) {
-- 
2.43.0


From fe27b321164490e0c56cd3b74e2743cf26511868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:17 +0000
Subject: [PATCH 137/183] fix: [C01] the component of one pixel was extracted
 into a copy and did not compile

---
 basicimg/include/img_connected_component.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicimg/include/img_connected_component.h b/basicimg/include/img_connected_component.h
index 58d35fb..dddf5af 100644
--- a/basicimg/include/img_connected_component.h
+++ b/basicimg/include/img_connected_component.h
@@ -58,7 +58,7 @@
 #define basicimg_cc_s_begin()	\
 	normal_connected_info preInfo;	\
 	normal_extract_start(preInfo, image, maskInfo, connect_type, 1);	\
-	image_pixel_type* start_image_data = preInfo.m_temp_image.ptr<image_pixel_type>(1, 1);	\
+	image_pixel_type* start_image_data = preInfo.m_temp_image.template ptr<image_pixel_type>(1, 1);	\
 	image_pixel_type* image_data = preInfo.m_temp_image.template ptr<image_pixel_type>(startPoint.m_y - preInfo.m_activate_rect.m_top + 1, startPoint.m_x - preInfo.m_activate_rect.m_left + 1);	\
 	image_pixel_type* top_image_data;	\
 	image_pixel_type* other_image_data;	\
@@ -302,7 +302,7 @@ namespace basicimg {
 			basicimg_cc_n_end();
 		}
 
-		virtual void ture_single_extract(img_connected_component cc, const mt_point& startPoint, const mt_mat& image, const img_mask_info<T>& maskInfo /* = MaskInfo<T>() */, img_Connected_Type connect_type /* = img_Connected_Type_8_Neibour */) {
+		virtual void ture_single_extract(img_connected_component& cc, const mt_point& startPoint, const mt_mat& image, const img_mask_info<T>& maskInfo = img_mask_info<T>(), img_Connected_Type connect_type = img_Connected_Type_8_Neibour) {
 			basicimg_cc_s_begin();
 			connect_condition = true;
 			basicimg_cc_s_end();
-- 
2.43.0


From 0be957027ce25f6808be51ea613d5ab022f98201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:17 +0000
Subject: [PATCH 138/183] fix: [C01] points of single components were freed as
 one and through a moved pointer

---
 basicimg/include/img_connected_component.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/basicimg/include/img_connected_component.h b/basicimg/include/img_connected_component.h
index dddf5af..32a6b80 100644
--- a/basicimg/include/img_connected_component.h
+++ b/basicimg/include/img_connected_component.h
@@ -93,7 +93,7 @@
 	}	\
 	currentRegion->m_y = preInfo.m_cache_point_index;	\
 	single_extract_stop(cc, preInfo);\
-	delete preInfo.m_cache_points;
+	delete[] preInfo.m_cache_points;
 
 namespace basicimg {
 	class img_connected_component {
@@ -264,7 +264,7 @@ namespace basicimg {
 			currentRegion = &preInfo.m_regions.back();
 			image_data->m_visit_flag = 1;
 			currentRegion->m_x = preInfo.m_cache_point_index;
-			*preInfo.m_cache_points++ = startPoint;
+			preInfo.m_cache_points[preInfo.m_cache_point_index++] = startPoint;
 
 			preInfo.m_stack_helper[++preInfo.m_stack_top_index] = image_data;
 
@@ -286,14 +286,14 @@ namespace basicimg {
 						offset = (i32)(other_image_data - start_image_data);
 						offset_y = offset / preInfo.m_temp_image.size()[1];	
 						offset_x = offset - offset_y * preInfo.m_temp_image.size()[1];	
-						*preInfo.m_cache_points++ = mt_point(offset_x + preInfo.m_activate_rect.m_left, offset_y + preInfo.m_activate_rect.m_top);	
+						preInfo.m_cache_points[preInfo.m_cache_point_index++] = mt_point(offset_x + preInfo.m_activate_rect.m_left, offset_y + preInfo.m_activate_rect.m_top);	
 					}
 				}
 			}
 
 			currentRegion->m_y = preInfo.m_cache_point_index;
 			single_extract_stop(cc, preInfo);
-			delete preInfo.m_cache_points;
+			delete[] preInfo.m_cache_points;
 		}
 
 		virtual void ture_normal_extract(img_multi_connected_components& ccs, const mt_mat& image, const img_mask_info<T>& maskInfo = img_mask_info<T>(), img_Connected_Type connect_type = img_Connected_Type_8_Neibour) {
-- 
2.43.0


From acb311b01f89778e7601dba116c420481f9f5c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:34 +0000
Subject: [PATCH 139/183] fix: [C01] connected components took columns for
 channels

---
 basicimg/include/img_connected_component.h | 30 +++++++++++-----------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/basicimg/include/img_connected_component.h b/basicimg/include/img_connected_component.h
index 32a6b80..a3cc66a 100644
--- a/basicimg/include/img_connected_component.h
+++ b/basicimg/include/img_connected_component.h
@@ -5,7 +5,7 @@
 #define basicimg_cc_n_begin()	\
 	normal_connected_info preInfo;\
 	normal_extract_start(preInfo, image, maskInfo, connect_type, 2000);\
-	image_pixel_type* start_image_data = preInfo.m_temp_image.template ptr<image_pixel_type>(1, 1);	\
+	image_pixel_type* start_image_data = preInfo.m_temp_image.template ptr<image_pixel_type>(1, 1, 0);	\
 	image_pixel_type* image_data = start_image_data;	\
 	image_pixel_type* top_image_data;	\
 	image_pixel_type* other_image_data;	\
@@ -58,8 +58,8 @@
 #define basicimg_cc_s_begin()	\
 	normal_connected_info preInfo;	\
 	normal_extract_start(preInfo, image, maskInfo, connect_type, 1);	\
-	image_pixel_type* start_image_data = preInfo.m_temp_image.template ptr<image_pixel_type>(1, 1);	\
-	image_pixel_type* image_data = preInfo.m_temp_image.template ptr<image_pixel_type>(startPoint.m_y - preInfo.m_activate_rect.m_top + 1, startPoint.m_x - preInfo.m_activate_rect.m_left + 1);	\
+	image_pixel_type* start_image_data = preInfo.m_temp_image.template ptr<image_pixel_type>(1, 1, 0);	\
+	image_pixel_type* image_data = preInfo.m_temp_image.template ptr<image_pixel_type>(startPoint.m_y - preInfo.m_activate_rect.m_top + 1, startPoint.m_x - preInfo.m_activate_rect.m_left + 1, 0);	\
 	image_pixel_type* top_image_data;	\
 	image_pixel_type* other_image_data;	\
 	b8 connect_condition = false;	\
@@ -185,7 +185,7 @@ namespace basicimg {
 		virtual void normal_extract(img_multi_connected_components& ccs, const mt_mat& image, const img_mask_info<T>& maskInfo = img_mask_info<T>(), img_Connected_Type connect_type = img_Connected_Type_8_Neibour) {
 			normal_connected_info preInfo;
 			normal_extract_start(preInfo, image, maskInfo, connect_type, 2000);
-			image_pixel_type* start_image_data = preInfo.m_temp_image.template ptr<image_pixel_type>(1, 1);
+			image_pixel_type* start_image_data = preInfo.m_temp_image.template ptr<image_pixel_type>(1, 1, 0);
 			image_pixel_type* image_data = start_image_data;
 			image_pixel_type* top_image_data;
 			image_pixel_type* other_image_data;
@@ -198,7 +198,7 @@ namespace basicimg {
 
 			for (i32 row = 1; row <= preInfo.m_activate_rect.m_height; ++row) {
 				for (i32 col = 1; col <= preInfo.m_activate_rect.m_width; ++col) {
-					basiclog_assert2(image_data == preInfo.m_temp_image.template ptr<image_pixel_type>(row, col));
+					basiclog_assert2(image_data == preInfo.m_temp_image.template ptr<image_pixel_type>(row, col, 0));
 
 					if (0 == image_data->m_visit_flag) {
 						startPoint.m_x = col - 1 + preInfo.m_activate_rect.m_left;
@@ -250,9 +250,9 @@ namespace basicimg {
 		virtual void single_extract(img_connected_component& cc, const mt_point& startPoint, mt_mat& image, const img_mask_info<T>& maskInfo = img_mask_info<T>(), img_Connected_Type connect_type = img_Connected_Type_8_Neibour) {
 			normal_connected_info preInfo;
 			normal_extract_start(preInfo, image, maskInfo, connect_type, 1);
-			image_pixel_type* start_image_data = preInfo.m_temp_image.template ptr<image_pixel_type>(1, 1);
+			image_pixel_type* start_image_data = preInfo.m_temp_image.template ptr<image_pixel_type>(1, 1, 0);
 
-			image_pixel_type* image_data = preInfo.m_temp_image.template ptr<image_pixel_type>(startPoint.m_y - preInfo.m_activate_rect.m_top + 1, startPoint.m_x - preInfo.m_activate_rect.m_left + 1);
+			image_pixel_type* image_data = preInfo.m_temp_image.template ptr<image_pixel_type>(startPoint.m_y - preInfo.m_activate_rect.m_top + 1, startPoint.m_x - preInfo.m_activate_rect.m_left + 1, 0);
 			image_pixel_type* top_image_data;
 			image_pixel_type* other_image_data;
 			b8 connect_condition = false;
@@ -389,7 +389,7 @@ namespace basicimg {
 				temp_image_append_offset = (i32)preInfo.m_temp_image.step()[0] / sizeof(image_pixel_type) - preInfo.m_temp_image.size()[1];
 
 				image_pixel_type* data = (image_pixel_type*)preInfo.m_temp_image.data();
-				const T* rawData = src.ptr<T>(preInfo.m_activate_rect.m_top, preInfo.m_activate_rect.m_left);
+				const T* rawData = src.ptr<T>(preInfo.m_activate_rect.m_top, preInfo.m_activate_rect.m_left, 0);
 
 				for (i32 col = 0; col < preInfo.m_temp_image.size()[1]; ++col) {
 					data->m_visit_flag = 1;
@@ -459,8 +459,8 @@ namespace basicimg {
 					image_pixel_type* data = (image_pixel_type*)preInfo.m_temp_image.data();
 
 					//��λ��Ч��������ĵ�һ������
-					const T* rawData = src.ptr<T>(rowMin, colMin);
-					maskData = maskInfo.m_mask_image.template ptr<u8>(rowMin, colMin);
+					const T* rawData = src.ptr<T>(rowMin, colMin, 0);
+					maskData = maskInfo.m_mask_image.template ptr<u8>(rowMin, colMin, 0);
 
 					for (i32 col = 0; col < preInfo.m_temp_image.size()[1]; ++col) {
 						data->m_visit_flag = 1;
@@ -511,7 +511,7 @@ namespace basicimg {
 					for (i32 row = 0; row < src.size()[0]; ++row) {
 						for (i32 col = 0; col < src.size()[1]; ++col) {
 
-							basiclog_assert2(image_data == src.ptr<T>(row, col));	
+							basiclog_assert2(image_data == src.ptr<T>(row, col, 0));	
 
 							if (*image_data++ != maskInfo.m_mask_value) {
 								rowMax = max(rowMax, row);
@@ -538,7 +538,7 @@ namespace basicimg {
 					image_pixel_type* data = (image_pixel_type*)preInfo.m_temp_image.data();
 
 					//��λ��Ч��������ĵ�һ������
-					const T* rawData = src.ptr<T>(rowMin, colMin);
+					const T* rawData = src.ptr<T>(rowMin, colMin, 0);
 
 					for (i32 col = 0; col < preInfo.m_temp_image.size()[1]; ++col) {
 						data->m_visit_flag = 1;
@@ -548,7 +548,7 @@ namespace basicimg {
 					data += temp_image_append_offset;
 
 					for (i32 row = 1; row <= preInfo.m_activate_rect.m_height; ++row) {
-						basiclog_assert2(data == preInfo.m_temp_image.template ptr<image_pixel_type>(row, 0));
+						basiclog_assert2(data == preInfo.m_temp_image.template ptr<image_pixel_type>(row, 0, 0));
 
 						data->m_visit_flag = 1;
 						++data;
@@ -556,8 +556,8 @@ namespace basicimg {
 						i32 col = 1;
 						for (; col <= preInfo.m_activate_rect.m_width; ++col) {
 
-							basiclog_assert2(rawData == src.ptr<T>(row - 1 + rowMin, col - 1 + colMin));
-							basiclog_assert2(data == preInfo.m_temp_image.template ptr<image_pixel_type>(row, col));
+							basiclog_assert2(rawData == src.ptr<T>(row - 1 + rowMin, col - 1 + colMin, 0));
+							basiclog_assert2(data == preInfo.m_temp_image.template ptr<image_pixel_type>(row, col, 0));
 
 							if (*rawData != maskInfo.m_mask_value) {
 								data->m_visit_flag = 0;
-- 
2.43.0


From bc20b6162cdc50f6936334bfec9673a42030646e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:38 +0000
Subject: [PATCH 140/183] fix: [C01] the number of component points began with
 what the stack held

---
 basicimg/include/img_connected_component.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/basicimg/include/img_connected_component.h b/basicimg/include/img_connected_component.h
index a3cc66a..78f3874 100644
--- a/basicimg/include/img_connected_component.h
+++ b/basicimg/include/img_connected_component.h
@@ -595,6 +595,7 @@ namespace basicimg {
 			preInfo.m_stack_helper = new image_pixel_type*[area];
 			preInfo.m_stack_top_index = -1;
 			preInfo.m_cache_points = new mt_point[area];
+			preInfo.m_cache_point_index = 0;
 		}
 
 		void normal_extract_stop(img_multi_connected_components& ccs, normal_connected_info& preInfo) {
-- 
2.43.0


From 0b69cfab24aeb24e8995fa073f09bca531c22567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:38 +0000
Subject: [PATCH 141/183] fix: [C01] a mask image of another row step was read
 along wrong rows and had no border below

---
 basicimg/include/img_connected_component.h | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/basicimg/include/img_connected_component.h b/basicimg/include/img_connected_component.h
index 78f3874..326dc64 100644
--- a/basicimg/include/img_connected_component.h
+++ b/basicimg/include/img_connected_component.h
@@ -429,11 +429,12 @@ namespace basicimg {
 					i32 rowMin = src.size()[0];
 					i32 colMin = src.size()[1];
 
-					i32 maskOffset = (i32)maskInfo.m_mask_image.step()[0] - maskInfo.m_mask_image.size()[1];
-					const u8* maskData = (u8*)maskInfo.m_mask_image.data();
+					const mt_mat mask = maskInfo.m_mask_image.step()[1] == 1 ? maskInfo.m_mask_image : maskInfo.m_mask_image.clone();
+					i32 maskOffset = (i32)mask.step()[0] - mask.size()[1];
+					const u8* maskData = mask.data();
 
-					for (i32 row = 0; row < maskInfo.m_mask_image.size()[0]; ++row) {
-						for (i32 col = 0; col < maskInfo.m_mask_image.size()[1]; ++col) {
+					for (i32 row = 0; row < mask.size()[0]; ++row) {
+						for (i32 col = 0; col < mask.size()[1]; ++col) {
 
 							if (1 == *maskData++) {
 								rowMax = max(rowMax, row);
@@ -460,7 +461,8 @@ namespace basicimg {
 
 					//��λ��Ч��������ĵ�һ������
 					const T* rawData = src.ptr<T>(rowMin, colMin, 0);
-					maskData = maskInfo.m_mask_image.template ptr<u8>(rowMin, colMin, 0);
+					maskData = mask.template ptr<u8>(rowMin, colMin, 0);
+					i32 maskAppendOffset = (i32)mask.step()[0] - targetImageSize.m_width;
 
 					for (i32 col = 0; col < preInfo.m_temp_image.size()[1]; ++col) {
 						data->m_visit_flag = 1;
@@ -495,9 +497,14 @@ namespace basicimg {
 						data->m_visit_flag = 1;
 						++data;
 						data += temp_image_append_offset;
-						maskData += rawImageAppendOffset;
+						maskData += maskAppendOffset;
 						rawData += rawImageAppendOffset;
 					}
+
+					for (i32 col = 0; col < preInfo.m_temp_image.size()[1]; ++col) {
+						data->m_visit_flag = 1;
+						++data;
+					}
 				} else if (img_Mask_Type_Value == maskInfo.m_mask_type) {
 					i32 srcByteOffset = (i32)src.step()[0] / sizeof(T) - src.size()[1];
 
-- 
2.43.0


From 233c15999f83a6d5e2f64ab75337faa00a4152cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:38 +0000
Subject: [PATCH 142/183] fix: [C01] the pixels of a view were taken to follow
 each other

---
 basicimg/include/img_connected_component.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/basicimg/include/img_connected_component.h b/basicimg/include/img_connected_component.h
index 326dc64..a2803b4 100644
--- a/basicimg/include/img_connected_component.h
+++ b/basicimg/include/img_connected_component.h
@@ -361,7 +361,7 @@ namespace basicimg {
 			u8* mMaskImageDataStopPointer;
 		};
 
-		void normal_extract_start(normal_connected_info& preInfo, const mt_mat& src, const img_mask_info<T>& maskInfo, img_Connected_Type connect_type, i32 suggestRegionCount) {		
+		void normal_extract_start(normal_connected_info& preInfo, const mt_mat& image, const img_mask_info<T>& maskInfo, img_Connected_Type connect_type, i32 suggestRegionCount) {		
 			preInfo.m_window_size = (img_Connected_Type_8_Neibour == connect_type ? 9 : 5);
 			preInfo.mDX = (img_Connected_Type_8_Neibour == connect_type ? img_DX_3_9 : img_DX_3_5);
 			preInfo.mDY = (img_Connected_Type_8_Neibour == connect_type ? img_DY_3_9 : img_DY_3_5);
@@ -373,6 +373,9 @@ namespace basicimg {
 			i32 area = 0;
 			i32 temp_image_append_offset;
 
+			// Pixels are visited one after another and rows by a whole number of pixels
+			const mt_mat src = image.step()[1] == (i32)sizeof(T) && image.step()[0] % (i32)sizeof(T) == 0 ? image : image.clone();
+
 			if (img_Mask_Type_Null == maskInfo.m_mask_type || img_Mask_Type_Rect == maskInfo.m_mask_type) {
 				if (img_Mask_Type_Null == maskInfo.m_mask_type) {
 					preInfo.m_activate_rect.set_rect(mt_point(0, 0), mt_size(src.size()[1], src.size()[0]));
-- 
2.43.0


From 14edaecbc21a1f6c690bb66f85eddf8e1ff4ddb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:38 +0000
Subject: [PATCH 143/183] fix: [C01] an image without anything to connect
 crashed

---
 basicimg/include/img_connected_component.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/basicimg/include/img_connected_component.h b/basicimg/include/img_connected_component.h
index a2803b4..409fe9a 100644
--- a/basicimg/include/img_connected_component.h
+++ b/basicimg/include/img_connected_component.h
@@ -450,6 +450,11 @@ namespace basicimg {
 						maskData += maskOffset;
 					}
 
+					if (colMin > colMax) {
+						rowMin = colMin = 0;
+						rowMax = colMax = -1;
+					}
+
 					mt_size targetImageSize(colMax - colMin + 1, rowMax - rowMin + 1);
 					preInfo.m_activate_rect.set_rect(mt_point(colMin, rowMin), targetImageSize);
 
@@ -534,6 +539,11 @@ namespace basicimg {
 						image_data += srcByteOffset;
 					}
 
+					if (colMin > colMax) {
+						rowMin = colMin = 0;
+						rowMax = colMax = -1;
+					}
+
 					mt_size targetImageSize(colMax - colMin + 1, rowMax - rowMin + 1);
 					preInfo.m_activate_rect.set_rect(mt_point(colMin, rowMin), targetImageSize);
 
-- 
2.43.0


From 728a704426ccee342709fe6d93dc757df4f49a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:38 +0000
Subject: [PATCH 144/183] fix: [C01] components of an earlier image widened the
 boxes of the next, leaked and stayed when there were none

---
 basicimg/include/img_connected_component.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/basicimg/include/img_connected_component.h b/basicimg/include/img_connected_component.h
index 409fe9a..5b07d86 100644
--- a/basicimg/include/img_connected_component.h
+++ b/basicimg/include/img_connected_component.h
@@ -623,8 +623,11 @@ namespace basicimg {
 				preInfo.m_regions.pop_back();
 			}
 
+			basicsys_delete_array(ccs.m_cache_points);
+			ccs.m_ccs.clear();
+			ccs.m_cache_points = preInfo.m_cache_points;
+
 			if (!preInfo.m_regions.empty()) {
-				ccs.m_cache_points = preInfo.m_cache_points;
 				ccs.m_ccs.resize(preInfo.m_regions.size());
 
 				for (i32 i = 0; i < (i32)preInfo.m_regions.size(); ++i) {
-- 
2.43.0


From 899e49b20ef8d3f3ce7934fa3d778bcb7e48448c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:38 +0000
Subject: [PATCH 145/183] fix: [C01] the component of a pixel left out was
 written behind its memory

---
 basicimg/include/img_connected_component.h | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/basicimg/include/img_connected_component.h b/basicimg/include/img_connected_component.h
index 5b07d86..8cae035 100644
--- a/basicimg/include/img_connected_component.h
+++ b/basicimg/include/img_connected_component.h
@@ -68,10 +68,12 @@
 	i32 offset_x;	\
 	i32 offset_y;	\
 	currentRegion = &preInfo.m_regions.back();	\
-	image_data->m_visit_flag = 1;	\
 	currentRegion->m_x = preInfo.m_cache_point_index;	\
-	preInfo.m_cache_points[preInfo.m_cache_point_index++] = startPoint;	\
-	preInfo.m_stack_helper[++preInfo.m_stack_top_index] = image_data;	\
+	if (preInfo.m_activate_rect.contain(startPoint) && 0 == image_data->m_visit_flag) {	\
+		image_data->m_visit_flag = 1;	\
+		preInfo.m_cache_points[preInfo.m_cache_point_index++] = startPoint;	\
+		preInfo.m_stack_helper[++preInfo.m_stack_top_index] = image_data;	\
+	}	\
 	while (preInfo.m_stack_top_index != -1) { \
 		top_image_data = preInfo.m_stack_helper[preInfo.m_stack_top_index--];	\
 		for (i32 i = 1; i < preInfo.m_window_size; ++i) { \
@@ -262,11 +264,14 @@ namespace basicimg {
 			i32 offset_y;
 
 			currentRegion = &preInfo.m_regions.back();
-			image_data->m_visit_flag = 1;
 			currentRegion->m_x = preInfo.m_cache_point_index;
-			preInfo.m_cache_points[preInfo.m_cache_point_index++] = startPoint;
 
-			preInfo.m_stack_helper[++preInfo.m_stack_top_index] = image_data;
+			if (preInfo.m_activate_rect.contain(startPoint) && 0 == image_data->m_visit_flag) {
+				image_data->m_visit_flag = 1;
+				preInfo.m_cache_points[preInfo.m_cache_point_index++] = startPoint;
+
+				preInfo.m_stack_helper[++preInfo.m_stack_top_index] = image_data;
+			}
 
 			while (preInfo.m_stack_top_index != -1) {
 				top_image_data = preInfo.m_stack_helper[preInfo.m_stack_top_index--];
@@ -648,9 +653,8 @@ namespace basicimg {
 		}
 
 		void single_extract_stop(img_connected_component& cc, normal_connected_info& preInfo) {
-			cc.m_share_memory = sys_false;
-			cc.m_size = preInfo.m_regions[0].m_y - preInfo.m_regions[0].m_x;
-			cc.m_points = new mt_point[cc.m_size];
+			cc.init(preInfo.m_regions[0].m_y - preInfo.m_regions[0].m_x);
+			cc.m_rect = mt_rect();
 
 			for (i32 j = preInfo.m_regions[0].m_x, k = 0; j < preInfo.m_regions[0].m_y; ++j, ++k) {
 				cc.m_points[k] = preInfo.m_cache_points[j];
-- 
2.43.0


From 255ed91c938d8dc23734eb2a23bcb00158655b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:38 +0000
Subject: [PATCH 146/183] fix: [C01] copies of components were given back twice
 or lost their box

---
 basicimg/include/img_connected_component.h |  6 +++
 basicimg/src/img_connected_component.cpp   | 46 ++++++++++++++++++++++
 2 files changed, 52 insertions(+)

diff --git a/basicimg/include/img_connected_component.h b/basicimg/include/img_connected_component.h
index 8cae035..d2d47fe 100644
--- a/basicimg/include/img_connected_component.h
+++ b/basicimg/include/img_connected_component.h
@@ -105,6 +105,8 @@ namespace basicimg {
 
 		~img_connected_component();
 
+		img_connected_component(const img_connected_component& other);
+
 		void operator = (const img_connected_component& other);
 
 		void release();
@@ -126,6 +128,10 @@ namespace basicimg {
 			m_cache_points = NULL;
 		}
 
+		img_multi_connected_components(const img_multi_connected_components& other);
+
+		void operator = (const img_multi_connected_components& other);
+
 		~img_multi_connected_components() {
 			basicsys_delete_array(m_cache_points);
 		}
diff --git a/basicimg/src/img_connected_component.cpp b/basicimg/src/img_connected_component.cpp
index 0eb2242..cb11788 100644
--- a/basicimg/src/img_connected_component.cpp
+++ b/basicimg/src/img_connected_component.cpp
@@ -33,10 +33,51 @@ img_connected_component::img_connected_component()
 
 }
 
+img_connected_component::img_connected_component(const img_connected_component& other)
+	: m_points(NULL)
+	, m_size(0)
+	, m_share_memory(sys_false) {
+	*this = other;
+}
+
 img_connected_component::~img_connected_component() {
 	release();
 }
 
+img_multi_connected_components::img_multi_connected_components(const img_multi_connected_components& other) {
+	m_cache_points = NULL;
+	*this = other;
+}
+
+void img_multi_connected_components::operator = (const img_multi_connected_components& other) {
+	if (this == &other) {
+		return;
+	}
+
+	basicsys_delete_array(m_cache_points);
+	m_ccs = other.m_ccs;
+
+	i32 size = 0;
+
+	for (i32 i = 0; i < (i32)m_ccs.size(); ++i) {
+		size += m_ccs[i].m_size;
+	}
+
+	m_cache_points = new mt_point[size];
+	mt_point* points = m_cache_points;
+
+	for (i32 i = 0; i < (i32)m_ccs.size(); ++i) {
+		i32 cc_size = m_ccs[i].m_size;
+
+		for (i32 j = 0; j < cc_size; ++j) {
+			points[j] = other.m_ccs[i].m_points[j];
+		}
+
+		m_ccs[i].init(points, cc_size);
+		points += cc_size;
+	}
+}
+
 void img_connected_component::operator = (const img_connected_component& other) {
 	if (this == &other) {
 		return;
@@ -44,6 +85,7 @@ void img_connected_component::operator = (const img_connected_component& other)
 
 	release();
 	m_share_memory = other.m_share_memory;
+	m_rect = other.m_rect;
 
 	if (other.m_share_memory) {
 		m_points = other.m_points;
@@ -63,6 +105,10 @@ void img_connected_component::release() {
 	if (!m_share_memory && m_points != NULL) {
 		delete[] m_points;
 	}
+
+	m_points = NULL;
+	m_size = 0;
+	m_share_memory = sys_false;
 }
 
 void img_connected_component::init(i32 size) {
-- 
2.43.0


From da886137b9185ae0ad935c41571de1b8c18acf82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:38 +0000
Subject: [PATCH 147/183] fix: [C01] pictures of components were always gray

---
 basicimg/src/img_connected_component.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicimg/src/img_connected_component.cpp b/basicimg/src/img_connected_component.cpp
index cb11788..851c941 100644
--- a/basicimg/src/img_connected_component.cpp
+++ b/basicimg/src/img_connected_component.cpp
@@ -140,7 +140,7 @@ mt_mat img_connected_component_helper::image_from_connected_component(const vect
 	vector<img_connected_component*> cc_pointers;
 	mt_helper::pointer_from_instance(cc_pointers, ccs);
 
-	return image_from_connected_component(cc_pointers, roi, forground_color, background_color);
+	return image_from_connected_component(cc_pointers, roi, forground_color, background_color, gray);
 }
 
 mt_mat img_connected_component_helper::image_from_connected_component(const vector<img_connected_component*>& ccs, const mt_rect& roi, const mt_scalar& forground_color /* = img_Color_Black */, const mt_scalar& background_color /* = img_Color_White */, b8 gray) {
-- 
2.43.0


From 465e409bfcd1ee99ea45dbb1f2757e530a99aa83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:38 +0000
Subject: [PATCH 148/183] fix: [C01] pictures of a part of the image wrote the
 other points outside

---
 basicimg/src/img_connected_component.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/basicimg/src/img_connected_component.cpp b/basicimg/src/img_connected_component.cpp
index 851c941..0372655 100644
--- a/basicimg/src/img_connected_component.cpp
+++ b/basicimg/src/img_connected_component.cpp
@@ -150,7 +150,11 @@ mt_mat img_connected_component_helper::image_from_connected_component(const vect
 		const mt_point* pts = ccs[i]->m_points;
 
 		for (int j = 0; j < ccs[i]->m_size; ++j) {
-			res.set(forground_color, pts[j].m_y - roi.m_top, pts[j].m_x - roi.m_left);
+			mt_point pt(pts[j].m_x - roi.m_left, pts[j].m_y - roi.m_top);
+
+			if (img_img::point_in_image(pt, res)) {
+				res.set(forground_color, pt.m_y, pt.m_x);
+			}
 		}
 	}
 
-- 
2.43.0


From b6e6e260cdfc025529c5fe386c28228d1c2d7180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:54 +0000
Subject: [PATCH 149/183] fix: [C02] pictures of a layout OpenCV does not know
 were given to it after their memory was released

---
 basicimg/src/img_img.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/basicimg/src/img_img.cpp b/basicimg/src/img_img.cpp
index a592f60..7e458da 100644
--- a/basicimg/src/img_img.cpp
+++ b/basicimg/src/img_img.cpp
@@ -74,7 +74,16 @@ Mat img_img::from_basiccv(const mt_mat& mat) {
 
 	i32 depth_channel = CV_MAKETYPE(depth, channel);
 
-	if (mat.is_step_positive() && mat.is_min_abs_step_equal_element_size()) {
+	//OpenCV lays out the last dimension densely and every dimension inside the one before
+	b8 opencv_layout = mat.step()[mat.dim() - 1] == mat.element_size();
+
+	for (i32 i = 0; i < mat.dim() - 1; ++i) {
+		if (mat.step()[i] < mat.step()[i + 1] * mat.size()[i + 1]) {
+			opencv_layout = sys_false;
+		}
+	}
+
+	if (opencv_layout) {
 		basicmath_mat_request_memory(size_t, steps, mat.dim());
 
 		for (i32 i = 0; i < mat.dim(); ++i) {
@@ -88,7 +97,12 @@ Mat img_img::from_basiccv(const mt_mat& mat) {
 		return res;
 	} else {
 		basiclog_warning(basiclog_performance_warning, "this will reduce the performance, please input the mat with positive steps and min abs step to be the channel size!");
-		return img_img::from_basiccv(mat.clone());
+		mt_mat dense = mat.clone();
+		Mat res;
+		res.create(dense.dim(), dense.size(), depth_channel);
+		memcpy(res.data, dense.data(), (size_t)dense.element_number() * dense.element_size());
+
+		return res;
 	}
 }
 
-- 
2.43.0


From 7431462ede1da8eac59961dccff24f293b53061b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:54 +0000
Subject: [PATCH 150/183] fix: [C02] gradients of the caller were overwritten
 by the next edge detection

---
 basicimg/include/img_canny.h | 9 +++++++++
 basicimg/src/img_canny.cpp   | 5 +++++
 2 files changed, 14 insertions(+)

diff --git a/basicimg/include/img_canny.h b/basicimg/include/img_canny.h
index 615d9fb..daa6556 100644
--- a/basicimg/include/img_canny.h
+++ b/basicimg/include/img_canny.h
@@ -11,6 +11,9 @@ namespace basicimg {
 			m_l2_gradient = sys_true;
 			m_enable_memory_cache = sys_true;
 
+			m_inner_gradient_x = sys_false;
+			m_inner_gradient_y = sys_false;
+			m_inner_gradient_mag = sys_false;
 			m_buffer = NULL;
 			m_buffer_size = 0;
 		}
@@ -23,6 +26,9 @@ namespace basicimg {
 			m_l2_gradient = sys_true;
 			m_enable_memory_cache = enable_memory_cache;
 
+			m_inner_gradient_x = sys_false;
+			m_inner_gradient_y = sys_false;
+			m_inner_gradient_mag = sys_false;
 			m_buffer = NULL;
 			m_buffer_size = 0;
 		}
@@ -34,6 +40,9 @@ namespace basicimg {
 			m_apeture_size = apeture_size;
 			m_l2_gradient = l2_gradient;
 			m_enable_memory_cache = enable_memory_cache;
+			m_inner_gradient_x = sys_false;
+			m_inner_gradient_y = sys_false;
+			m_inner_gradient_mag = sys_false;
 			m_buffer = NULL;
 			m_buffer_size = 0;
 		}
diff --git a/basicimg/src/img_canny.cpp b/basicimg/src/img_canny.cpp
index a1d542c..aec946b 100644
--- a/basicimg/src/img_canny.cpp
+++ b/basicimg/src/img_canny.cpp
@@ -30,6 +30,11 @@ mt_mat img_canny::edge_detection(const mt_mat& src, const mt_mat& gradient_x /*
 }
 
 void img_canny::edge_detection(mt_mat& edge, const mt_mat& src, const mt_mat& gradient_x /* = mt_mat() */, const mt_mat& gradient_y /* = mt_mat() */, const mt_mat& gradient_mag /* = mt_mat() */) {
+	//the memory of the gradients of the last call may belong to the caller
+	m_gradient_x = m_inner_gradient_x ? m_gradient_x : mt_mat();
+	m_gradient_y = m_inner_gradient_y ? m_gradient_y : mt_mat();
+	m_gradient_mag = m_inner_gradient_mag ? m_gradient_mag : mt_mat();
+
 	if (gradient_x.is_empty()) {
 		img_img::sobel(m_gradient_x, src, mt_F32, 1, 0, m_apeture_size);
 		m_inner_gradient_x = sys_true;
-- 
2.43.0


From 560577a0865002f27f91a60461a4656f812c642c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:54 +0000
Subject: [PATCH 151/183] fix: [C02] the memory of edge detection was released
 with its cache on and kept with it off

---
 basicimg/src/img_canny.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/basicimg/src/img_canny.cpp b/basicimg/src/img_canny.cpp
index aec946b..e2203ed 100644
--- a/basicimg/src/img_canny.cpp
+++ b/basicimg/src/img_canny.cpp
@@ -8,13 +8,9 @@ img_canny::~img_canny() {
 }
 
 void img_canny::clear_memory_cache() {
-	if (m_inner_gradient_x) {
-		m_gradient_x = mt_mat();
-	}
-
-	if (m_inner_gradient_y) {
-		m_gradient_y = mt_mat();
-	}
+	m_gradient_x = mt_mat();
+	m_gradient_y = mt_mat();
+	m_gradient_mag = mt_mat();
 
 	vector<u8*> temp;
 	m_stack.swap(temp);
@@ -67,7 +63,7 @@ void img_canny::edge_detection(mt_mat& edge, const mt_mat& src, const mt_mat& gr
 	
 	canny_impl(edge);
 
-	if (m_enable_memory_cache) {
+	if (!m_enable_memory_cache) {
 		clear_memory_cache();
 	}
 }
-- 
2.43.0


From 354a33e676b59dee98e749173f2b1534b37a54ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:54 +0000
Subject: [PATCH 152/183] fix: [C02] strong pixels of a row wider than the
 stack were written behind it

---
 basicimg/src/img_canny.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicimg/src/img_canny.cpp b/basicimg/src/img_canny.cpp
index e2203ed..4cd305f 100644
--- a/basicimg/src/img_canny.cpp
+++ b/basicimg/src/img_canny.cpp
@@ -162,7 +162,7 @@ void img_canny::canny_impl(mt_mat& edge) {
 
         if ((stack_top - stack_bottom) + cols > maxsize) {
             i32 sz = (i32)(stack_top - stack_bottom);
-            maxsize = maxsize * 3/2;
+            maxsize = max(maxsize * 3/2, sz + cols);
             m_stack.resize(maxsize);
             stack_bottom = &m_stack[0];
             stack_top = stack_bottom + sz;
-- 
2.43.0


From 91c0a8ed6e9ec965a3599a82ccd20325d152d9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:54 +0000
Subject: [PATCH 153/183] fix: [C02] the gradients and the edges of views were
 taken to follow each other

---
 basicimg/src/img_canny.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/basicimg/src/img_canny.cpp b/basicimg/src/img_canny.cpp
index 4cd305f..96dcbdd 100644
--- a/basicimg/src/img_canny.cpp
+++ b/basicimg/src/img_canny.cpp
@@ -134,11 +134,12 @@ void img_canny::canny_impl(mt_mat& edge) {
         i32* _norm = mag_buf[(i > 0) + 1] + 1;
         if (i < rows) {
 			const f32* value = m_gradient_mag.ptr<f32>(i, 0);
+			i32 value_step = m_gradient_mag.last_dim_element_step();
 			
             //for (int j = 0; j < dx.cols; j++)
             //   _norm[j] = int(_dx[j])*_dx[j] + int(_dy[j])*_dy[j];
 			for (i32 j = 0; j < cols; j++)
-			   _norm[j] = (i32)value[j];
+			   _norm[j] = (i32)value[j * value_step];
 
             _norm[-1] = _norm[cols] = 0;
         }
@@ -159,6 +160,8 @@ void img_canny::canny_impl(mt_mat& edge) {
 
         const f32* _x = m_gradient_x.ptr<f32>(i-1, 0);
         const f32* _y = m_gradient_y.ptr<f32>(i-1, 0);
+        i32 x_step = m_gradient_x.last_dim_element_step();
+        i32 y_step = m_gradient_y.last_dim_element_step();
 
         if ((stack_top - stack_bottom) + cols > maxsize) {
             i32 sz = (i32)(stack_top - stack_bottom);
@@ -177,8 +180,8 @@ void img_canny::canny_impl(mt_mat& edge) {
 
             if (m > low)
             {
-                i32 xs = (i32)_x[j];
-                i32 ys = (i32)_y[j];
+                i32 xs = (i32)_x[j * x_step];
+                i32 ys = (i32)_y[j * y_step];
                 i32 x = std::abs(xs);
                 i32 y = std::abs(ys) << CANNY_SHIFT;
 
@@ -253,6 +256,6 @@ __ocv_canny_push:
     for (int i = 0; i < rows; i++, pmap += mapstep, pdst += edge.step()[0])
     {
         for (int j = 0; j < cols; j++)
-            pdst[j] = (u8)-(pmap[j] >> 1);
+            pdst[j * edge.step()[1]] = (u8)-(pmap[j] >> 1);
     }
 }
\ No newline at end of file
-- 
2.43.0


From e5b0ae7e397a8961c5c41668a4c5d202485b69a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:55 +0000
Subject: [PATCH 154/183] fix: [C04] an edge pixel without gradient was
 followed for ever

---
 basicimg/src/img_stroke_width_transform.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/basicimg/src/img_stroke_width_transform.cpp b/basicimg/src/img_stroke_width_transform.cpp
index bf115d8..21b905d 100644
--- a/basicimg/src/img_stroke_width_transform.cpp
+++ b/basicimg/src/img_stroke_width_transform.cpp
@@ -57,6 +57,10 @@ mt_mat img_stroke_width_transform::swt(mt_mat& edge, mt_mat& gradient_x, mt_mat&
 			start_g_norm = start_g_x * start_g_x + start_g_y * start_g_y;
 			start_g_norm = sqrt(start_g_norm);
 
+			if (start_g_norm == 0) {
+				continue;	// no direction to look at
+			}
+
 			start_g_x /= start_g_norm;
 			start_g_y /= start_g_norm;
 
-- 
2.43.0


From 07df052d0f472b8b5c92bb546b8a023613279a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:55 +0000
Subject: [PATCH 155/183] fix: [C04] the angle between both ends of a ray was
 compared without the length of the gradient

---
 basicimg/src/img_stroke_width_transform.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/basicimg/src/img_stroke_width_transform.cpp b/basicimg/src/img_stroke_width_transform.cpp
index 21b905d..dbb1a6c 100644
--- a/basicimg/src/img_stroke_width_transform.cpp
+++ b/basicimg/src/img_stroke_width_transform.cpp
@@ -31,6 +31,7 @@ mt_mat img_stroke_width_transform::swt(mt_mat& edge, mt_mat& gradient_x, mt_mat&
 	i32 surround_y;
 	f32 stop_g_x;
 	f32 stop_g_y;
+	f32 stop_g_norm;
 	f32 gradient_value;
 
 	i32 nextPointIndex;
@@ -127,8 +128,9 @@ mt_mat img_stroke_width_transform::swt(mt_mat& edge, mt_mat& gradient_x, mt_mat&
 								}
 
 								gradient_value = start_g_x * -stop_g_x + start_g_y * -stop_g_y;
+								stop_g_norm = sqrt(stop_g_x * stop_g_x + stop_g_y * stop_g_y);
 
-								if (gradient_value >= mt_trigonometric_function::angle_cos(pars.m_pair_intersect_angle)) {
+								if (stop_g_norm > 0 && gradient_value / stop_g_norm >= mt_trigonometric_function::angle_cos(pars.m_pair_intersect_angle)) {
 									if (0 == nextPointIndex) {
 										ray_pts.push_back(mt_point(surround_x, surround_y));
 									} else if (isNextIndex0PushGoodRay) {
-- 
2.43.0


From 2173e208df22862aedc0c0b88337099ada3fb7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:55 +0000
Subject: [PATCH 156/183] fix: [C04] a ray that ends at the border of the
 picture lost its last point

---
 basicimg/src/img_stroke_width_transform.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/basicimg/src/img_stroke_width_transform.cpp b/basicimg/src/img_stroke_width_transform.cpp
index dbb1a6c..1b4b225 100644
--- a/basicimg/src/img_stroke_width_transform.cpp
+++ b/basicimg/src/img_stroke_width_transform.cpp
@@ -131,10 +131,10 @@ mt_mat img_stroke_width_transform::swt(mt_mat& edge, mt_mat& gradient_x, mt_mat&
 								stop_g_norm = sqrt(stop_g_x * stop_g_x + stop_g_y * stop_g_y);
 
 								if (stop_g_norm > 0 && gradient_value / stop_g_norm >= mt_trigonometric_function::angle_cos(pars.m_pair_intersect_angle)) {
-									if (0 == nextPointIndex) {
-										ray_pts.push_back(mt_point(surround_x, surround_y));
-									} else if (isNextIndex0PushGoodRay) {
+									if (0 != nextPointIndex && isNextIndex0PushGoodRay) {
 										ray_pts.back() = mt_point(surround_x, surround_y);
+									} else {
+										ray_pts.push_back(mt_point(surround_x, surround_y));
 									}
 
 									if (ray_pts.size() > 2) {
-- 
2.43.0


From 11772534a4781fc9f26b07376563b2fc1c78d283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:55 +0000
Subject: [PATCH 157/183] fix: [C04] the edges and widths of views were taken
 to follow each other

---
 basicimg/src/img_stroke_width_transform.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/basicimg/src/img_stroke_width_transform.cpp b/basicimg/src/img_stroke_width_transform.cpp
index 1b4b225..1075f56 100644
--- a/basicimg/src/img_stroke_width_transform.cpp
+++ b/basicimg/src/img_stroke_width_transform.cpp
@@ -101,11 +101,11 @@ mt_mat img_stroke_width_transform::swt(mt_mat& edge, mt_mat& gradient_x, mt_mat&
 						continue;
 					}
 
-					if (first && 255 == edge.at<uchar>(next_y, next_x)) {
+					if (first && 255 == edge.at<uchar>(next_y, next_x, 0)) {
 						continue;
 					} 
 
-					if (255 == edge.at<uchar>(next_y, next_x)) {	
+					if (255 == edge.at<uchar>(next_y, next_x, 0)) {	
 						if (has_non_edge_pixel) {
 							for (i32 surroundIndex = 0; surroundIndex < 9; ++surroundIndex) {
 								surround_x = next_x + img_DX_3_9[surroundIndex];
@@ -205,7 +205,7 @@ mt_mat img_stroke_width_transform::normalize_swt_image(mt_mat& swt_image, i16 in
 				minVal = min(*ptr, minVal);
 			}
 
-			ptr++;
+			ptr += swt_image.last_dim_element_step();
 		}
 	}
 
@@ -224,8 +224,8 @@ mt_mat img_stroke_width_transform::normalize_swt_image(mt_mat& swt_image, i16 in
 			} else {
 				*ptrout = (uchar)(255 * ((*ptrin) - minVal)/(f32)difference);
 			}
-			ptrout++;
-			ptrin++;
+			ptrout += ret.last_dim_element_step();
+			ptrin += swt_image.last_dim_element_step();
 		}
 	}
 
@@ -234,8 +234,8 @@ mt_mat img_stroke_width_transform::normalize_swt_image(mt_mat& swt_image, i16 in
 
 void img_stroke_width_transform::set_ray_width(mt_mat& swt_image, const swt_ray& ray) {
 	for (mt_point* iter = ray.m_start; iter < ray.m_stop; ++iter) {
-		if (ray.m_width < swt_image.at<i16>(iter->m_y, iter->m_x)) {
-			swt_image.at<i16>(iter->m_y, iter->m_x) = ray.m_width;
+		if (ray.m_width < swt_image.at<i16>(iter->m_y, iter->m_x, 0)) {
+			swt_image.at<i16>(iter->m_y, iter->m_x, 0) = ray.m_width;
 		}
 	}
 }
@@ -254,7 +254,7 @@ void img_stroke_width_transform::median_stroke_width(mt_mat& swt_image, vector<s
 		i32 index = 0;
 
 		for (mt_point* iter = rays[i].m_start; iter < rays[i].m_stop; ++iter) {
-			widths[index++] = swt_image.at<i16>(iter->m_y, iter->m_x);
+			widths[index++] = swt_image.at<i16>(iter->m_y, iter->m_x, 0);
 		}
 
 		rays[i].m_width = mt_helper::median_with_changed_order(widths);
-- 
2.43.0


From 17ff6356d3cb63c9127e7bc14f36d08b76e18e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:59 +0000
Subject: [PATCH 158/183] fix: [C03] a picture smaller than a quarter of the
 window had no threshold and was read outside

---
 basicimg/src/img_auto_threshold_canny.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicimg/src/img_auto_threshold_canny.cpp b/basicimg/src/img_auto_threshold_canny.cpp
index bc3a1f2..c4979bc 100644
--- a/basicimg/src/img_auto_threshold_canny.cpp
+++ b/basicimg/src/img_auto_threshold_canny.cpp
@@ -69,8 +69,8 @@ void img_auto_threshold_canny::edge_detection(mt_mat& edge, const mt_mat& src, c
 	i32 window_step = m_auto_threshold_window_size / window_step_number;
 	i32 half_window_size = m_auto_threshold_window_size / 2;
 
-	i32 image_window_row_number = rows / window_step + ((rows % window_step) > half_window_size ? 1 : 0);
-	i32 image_window_col_number = cols / window_step + ((rows % window_step) > half_window_size ? 1 : 0);
+	i32 image_window_row_number = max(1, rows / window_step + ((rows % window_step) > half_window_size ? 1 : 0));
+	i32 image_window_col_number = max(1, cols / window_step + ((cols % window_step) > half_window_size ? 1 : 0));
 
 #define REAL_ROW(row)	\
 	(min(((row) / window_step), rowStepSub1))
-- 
2.43.0


From 3f9ac6a401b85d71cf3bfa269c35cf5fe3d889d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:59 +0000
Subject: [PATCH 159/183] fix: [C03] the edges and magnitudes of views were
 taken to follow each other

---
 basicimg/src/img_auto_threshold_canny.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/basicimg/src/img_auto_threshold_canny.cpp b/basicimg/src/img_auto_threshold_canny.cpp
index c4979bc..05437a2 100644
--- a/basicimg/src/img_auto_threshold_canny.cpp
+++ b/basicimg/src/img_auto_threshold_canny.cpp
@@ -35,7 +35,7 @@ void img_auto_threshold_canny::edge_detection(mt_mat& edge, const mt_mat& src, c
 			m_edge_gradient_integral_sum_image.at<f32>(0, col, 0) = m_edge_gradient_integral_sum_image.at<f32>(0, col - 1, 0) + m_canny.gradient_mag().at<f32>(0, col, 0);
 			m_edge_gradient_integral_number_image.at<i32>(0, col, 0) = m_edge_gradient_integral_number_image.at<i32>(0, col - 1, 0) + 1;
 		} else {
-			m_edge_gradient_integral_sum_image.at<f32>(0, col) = m_edge_gradient_integral_sum_image.at<f32>(0, col - 1, 0);
+			m_edge_gradient_integral_sum_image.at<f32>(0, col, 0) = m_edge_gradient_integral_sum_image.at<f32>(0, col - 1, 0);
 			m_edge_gradient_integral_number_image.at<i32>(0, col, 0) = m_edge_gradient_integral_number_image.at<i32>(0, col - 1, 0);
 		}
 	}
@@ -172,7 +172,7 @@ void img_auto_threshold_canny::edge_detection(mt_mat& edge, const mt_mat& src, c
 
 				auto_high_threshold = gradient_mean.at<f32>(realRow, realCol, 0) * m_auto_threshold_to_mean_ratio;
 
-				if (destiny_flags.at<u8>(realRow, realCol) > m_density_window_flag_overlap_number_threshold) {
+				if (destiny_flags.at<u8>(realRow, realCol, 0) > m_density_window_flag_overlap_number_threshold) {
 					auto_high_threshold = m_auto_threshold_density;
 				}
 
@@ -246,7 +246,7 @@ void img_auto_threshold_canny::remove_small_edge(mt_mat& edgeImage, mt_mat& flag
 				continue;
 			}
 
-			if (255 == edgeImage.at<u8>(other.m_y, other.m_x)) {
+			if (255 == edgeImage.at<u8>(other.m_y, other.m_x, 0)) {
 				if (!hasHighGradientValue && m_canny.gradient_mag().at<f32>(other.m_y, other.m_x, 0) >= m_can_not_be_removed_threshold) {
 					hasHighGradientValue = true;
 				}
@@ -289,7 +289,7 @@ void img_auto_threshold_canny::trace_edge(mt_mat& edgeImage, f32 lowThreshold, c
 				continue;
 			}
 
-			if ((m_canny.gradient_mag().at<f32>(other.m_y, other.m_x) < lowThreshold)
+			if ((m_canny.gradient_mag().at<f32>(other.m_y, other.m_x, 0) < lowThreshold)
 				|| 255 == edgeImage.at<u8>(other.m_y, other.m_x, 0)
 				|| 0 == m_temp_edge.at<u8>(other.m_y, other.m_x, 0)) {
 					continue;
-- 
2.43.0


From 2e2b83c49ddae9b3639be42bdf5ccd6f0fe3d0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:46 +0000
Subject: [PATCH 160/183] fix: [T10] the derivative by a matrix that was never
 used followed a null pointer

---
 basicmath/src/mt_auto_derivative.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/src/mt_auto_derivative.cpp b/basicmath/src/mt_auto_derivative.cpp
index f73a278..f28d940 100644
--- a/basicmath/src/mt_auto_derivative.cpp
+++ b/basicmath/src/mt_auto_derivative.cpp
@@ -52,7 +52,7 @@ mt_mat mt_auto_derivative::derivative(const mt_mat& target, const mt_mat& src) {
 
 		mt_ad_tree_node* target_node = find_same(target);
 
-		for (i32 i = 0; i < (i32)m_nodes.size(); ++i) {
+		for (i32 i = 0; target_node != NULL && i < (i32)m_nodes.size(); ++i) {
 			if (m_nodes[i]->match(src)) {
 				m_nodes[i]->to_mat_tree_node()->add_derivative_res(mt_mat(src, 1), src);
 
-- 
2.43.0


From b9f8df69be19822c61f3aea9b2dcc16035fef9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:46 +0000
Subject: [PATCH 161/183] fix: [T10] recorded constants were never freed

---
 basicmath/src/mt_auto_derivative.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/basicmath/src/mt_auto_derivative.cpp b/basicmath/src/mt_auto_derivative.cpp
index f28d940..4b20209 100644
--- a/basicmath/src/mt_auto_derivative.cpp
+++ b/basicmath/src/mt_auto_derivative.cpp
@@ -335,6 +335,8 @@ mt_ad_tree_node* mt_auto_derivative::get_node(const mt_mat& mat) {
 
 mt_ad_tree_node* mt_auto_derivative::get_node(const vector<double>& const_value) {
 	mt_ad_tree_node* node = new mt_ad_const_leaf_tree_node(const_value);
+	m_nodes.push_back(node);
+
 	return node;
 }
 
-- 
2.43.0


From 16e21ddea92a46310846cc58c35e451ce20c9867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:46 +0000
Subject: [PATCH 162/183] fix: [T10] the derivative of a power lacked the
 exponent

---
 basicmath/include/mt_auto_derivative_tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/include/mt_auto_derivative_tree.h b/basicmath/include/mt_auto_derivative_tree.h
index 4614d5e..803cf00 100644
--- a/basicmath/include/mt_auto_derivative_tree.h
+++ b/basicmath/include/mt_auto_derivative_tree.h
@@ -721,7 +721,7 @@ namespace basicmath {
 		}
 
 		mt_mat derivate_child_on_operation( mt_ad_mat_tree_node* child_node, const mt_mat& derivative_res) {
-			return derivative_res * child_node->m_mat.pow(m_number - 1);
+			return derivative_res * child_node->m_mat.pow(m_number - 1) * m_number;
 		}
 
 	protected:
-- 
2.43.0


From 5fc5a96c6691edf94d987c8dadd8c96aa860b31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:46 +0000
Subject: [PATCH 163/183] fix: [T10] the derivative of a logarithm was
 multiplied by that of its base instead of divided

---
 basicmath/src/mt_auto_derivative_tree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/src/mt_auto_derivative_tree.cpp b/basicmath/src/mt_auto_derivative_tree.cpp
index a06a3ea..31cc483 100644
--- a/basicmath/src/mt_auto_derivative_tree.cpp
+++ b/basicmath/src/mt_auto_derivative_tree.cpp
@@ -250,7 +250,7 @@ mt_mat mt_ad_log_tree_node::derivate_child_on_operation(mt_ad_mat_tree_node* chi
 	mt_mat child_derivative = 1 / child_node->m_mat;
 	
 	if (mt_helper::compare_double(m_base, mt_E) != 0) {
-		child_derivative *= log(m_base);	
+		child_derivative /= log(m_base);	
 	}
 
 	return child_derivative * derivative_res;
-- 
2.43.0


From 1a4380bcfff4c66304438a9daf29b46300d81795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:42 +0000
Subject: [PATCH 164/183] fix: [T10] turning a single dimension round was not
 recorded

---
 basicmath/src/mt_mat.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index 48e53aa..76b16fe 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -2536,10 +2536,15 @@ void mt_mat::on_vaule_changed() {
 }
 
 mt_mat mt_mat::flip(int dim) const {
-	mt_mat res = *this;
+	basicmath_mat_request_memory(b8, flip_flags, this->dim());
+
+	for (i32 i = 0; i < this->dim(); ++i) {
+		flip_flags[i] = i == dim;
+	}
+
+	mt_mat res = flip(this->dim(), flip_flags);
 
-	res.m_data += (res.size()[dim] - 1) * res.step()[dim];
-	res.step()[dim] = -res.step()[dim];
+	basicmath_mat_release(flip_flags);
 
 	return res;
 }
-- 
2.43.0


From ab16eeff4cce8df86addc9715a7c60a83b4ab24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:58 +0000
Subject: [PATCH 165/183] fix: [T10] an operation that uses a matrix twice had
 the derivative of a single use

---
 basicmath/include/mt_auto_derivative.h |  1 +
 basicmath/src/mt_auto_derivative.cpp   | 78 ++++++++++++++++++++------
 2 files changed, 61 insertions(+), 18 deletions(-)

diff --git a/basicmath/include/mt_auto_derivative.h b/basicmath/include/mt_auto_derivative.h
index 3ef4027..d0d4b3a 100644
--- a/basicmath/include/mt_auto_derivative.h
+++ b/basicmath/include/mt_auto_derivative.h
@@ -120,6 +120,7 @@ namespace basicmath {
 		mt_ad_tree_node* find_same(const mt_mat& mat) const;
 
 		mt_ad_tree_node* get_node(const mt_mat& mat);
+		mt_ad_tree_node* get_node(const mt_mat& mat, const vector<mt_ad_tree_node*>& other_childs);
 		mt_ad_tree_node* get_node(const vector<double>& const_value);
 
 		void derivative(mt_mat& derivated_mat, const mt_mat& target_mat, const mt_mat& src_mat, mt_ad_tree_node* src_node, const mt_ad_tree_node* src_parent_node);
diff --git a/basicmath/src/mt_auto_derivative.cpp b/basicmath/src/mt_auto_derivative.cpp
index 4b20209..432c2db 100644
--- a/basicmath/src/mt_auto_derivative.cpp
+++ b/basicmath/src/mt_auto_derivative.cpp
@@ -125,34 +125,49 @@ void mt_auto_derivative::add(const mt_mat& res, const mt_mat& a, const vector<do
 }
 
 void mt_auto_derivative::add(const mt_mat& res, const mt_mat& a, const mt_mat& b) {
-	m_nodes.push_back(new mt_ad_add_tree_node(res, get_node(a), get_node(b), m_max_cache_size));
+	mt_ad_tree_node* node_a = get_node(a);
+	mt_ad_tree_node* node_b = get_node(b, vector<mt_ad_tree_node*>(1, node_a));
+
+	m_nodes.push_back(new mt_ad_add_tree_node(res, node_a, node_b, m_max_cache_size));
 }
 
 void mt_auto_derivative::add(const mt_mat& res, const vector<mt_mat>& elements) {
 	vector<mt_ad_tree_node*> child_nodes;
-	child_nodes.resize(elements.size());
+	child_nodes.reserve(elements.size());
 
 	for (i32 i = 0; i < (i32)elements.size(); ++i) {
-		child_nodes[i] = get_node(elements[i]);
+		child_nodes.push_back(get_node(elements[i], child_nodes));
 	}
 
 	m_nodes.push_back(new mt_ad_add_tree_node(res, child_nodes, m_max_cache_size));
 }
 
 void mt_auto_derivative::add_bias(const mt_mat& res, const mt_mat& a, const mt_mat& b) {
-	m_nodes.push_back(new mt_ad_add_bias_tree_node(res, get_node(a), get_node(b), m_max_cache_size));
+	mt_ad_tree_node* node_a = get_node(a);
+	mt_ad_tree_node* node_b = get_node(b, vector<mt_ad_tree_node*>(1, node_a));
+
+	m_nodes.push_back(new mt_ad_add_bias_tree_node(res, node_a, node_b, m_max_cache_size));
 }
 
 void mt_auto_derivative::substract_bias(const mt_mat& res, const mt_mat& a, const mt_mat& b) {
-	m_nodes.push_back(new mt_ad_substract_bias_tree_node(res, get_node(a), get_node(b), m_max_cache_size));
+	mt_ad_tree_node* node_a = get_node(a);
+	mt_ad_tree_node* node_b = get_node(b, vector<mt_ad_tree_node*>(1, node_a));
+
+	m_nodes.push_back(new mt_ad_substract_bias_tree_node(res, node_a, node_b, m_max_cache_size));
 }
 
 void mt_auto_derivative::mul_bias(const mt_mat& res, const mt_mat& a, const mt_mat& b) {
-	m_nodes.push_back(new mt_ad_mul_bias_tree_node(res, get_node(a), get_node(b), m_max_cache_size));
+	mt_ad_tree_node* node_a = get_node(a);
+	mt_ad_tree_node* node_b = get_node(b, vector<mt_ad_tree_node*>(1, node_a));
+
+	m_nodes.push_back(new mt_ad_mul_bias_tree_node(res, node_a, node_b, m_max_cache_size));
 }
 
 void mt_auto_derivative::div_bias(const mt_mat& res, const mt_mat& a, const mt_mat& b) {
-	m_nodes.push_back(new mt_ad_div_bias_tree_node(res, get_node(a), get_node(b), m_max_cache_size));
+	mt_ad_tree_node* node_a = get_node(a);
+	mt_ad_tree_node* node_b = get_node(b, vector<mt_ad_tree_node*>(1, node_a));
+
+	m_nodes.push_back(new mt_ad_div_bias_tree_node(res, node_a, node_b, m_max_cache_size));
 }
 
 void mt_auto_derivative::dot(const mt_mat& res, const mt_mat& a, const vector<double>& b) {
@@ -160,22 +175,28 @@ void mt_auto_derivative::dot(const mt_mat& res, const mt_mat& a, const vector<do
 }
 
 void mt_auto_derivative::dot(const mt_mat& res, const mt_mat& a, const mt_mat& b) {
-	m_nodes.push_back(new mt_ad_dot_tree_node(res, get_node(a), get_node(b), m_max_cache_size));
+	mt_ad_tree_node* node_a = get_node(a);
+	mt_ad_tree_node* node_b = get_node(b, vector<mt_ad_tree_node*>(1, node_a));
+
+	m_nodes.push_back(new mt_ad_dot_tree_node(res, node_a, node_b, m_max_cache_size));
 }
 
 void mt_auto_derivative::dot(const mt_mat& res, const vector<mt_mat>& elements) {
 	vector<mt_ad_tree_node*> child_nodes;
-	child_nodes.resize(elements.size());
+	child_nodes.reserve(elements.size());
 
 	for (i32 i = 0; i < (i32)elements.size(); ++i) {
-		child_nodes[i] = get_node(elements[i]);
+		child_nodes.push_back(get_node(elements[i], child_nodes));
 	}
 
 	m_nodes.push_back(new mt_ad_dot_tree_node(res, child_nodes, m_max_cache_size));
 }
 
 void mt_auto_derivative::div(const mt_mat& res, const mt_mat& a, const mt_mat& b) {
-	m_nodes.push_back(new mt_ad_div_tree_node(res, get_node(a), get_node(b), m_max_cache_size));
+	mt_ad_tree_node* node_a = get_node(a);
+	mt_ad_tree_node* node_b = get_node(b, vector<mt_ad_tree_node*>(1, node_a));
+
+	m_nodes.push_back(new mt_ad_div_tree_node(res, node_a, node_b, m_max_cache_size));
 }
 
 void mt_auto_derivative::div(const mt_mat& res, const mt_mat& a, const vector<double>& b) {
@@ -188,10 +209,10 @@ void mt_auto_derivative::div(const mt_mat& res, const vector<double>& b, const m
 
 void mt_auto_derivative::merge_align_channel(const mt_mat& res, const vector<mt_mat>& elements) {
 	vector<mt_ad_tree_node*> child_nodes;
-	child_nodes.resize(elements.size());
+	child_nodes.reserve(elements.size());
 
 	for (i32 i = 0; i < (i32)elements.size(); ++i) {
-		child_nodes[i] = get_node(elements[i]);
+		child_nodes.push_back(get_node(elements[i], child_nodes));
 	}
 
 	m_nodes.push_back(new mt_ad_merge_align_channel_tree_node(res, child_nodes, m_max_cache_size));
@@ -199,17 +220,20 @@ void mt_auto_derivative::merge_align_channel(const mt_mat& res, const vector<mt_
 
 void mt_auto_derivative::merge_align_dim(const mt_mat& res, const vector<mt_mat>& elements, i32 dim) {
 	vector<mt_ad_tree_node*> child_nodes;
-	child_nodes.resize(elements.size());
+	child_nodes.reserve(elements.size());
 
 	for (i32 i = 0; i < (i32)elements.size(); ++i) {
-		child_nodes[i] = get_node(elements[i]);
+		child_nodes.push_back(get_node(elements[i], child_nodes));
 	}
 
 	m_nodes.push_back(new mt_ad_merge_align_dim_tree_node(res, child_nodes, dim, m_max_cache_size));
 }
 
 void mt_auto_derivative::subtract(const mt_mat& res, const mt_mat& a, const mt_mat& b) {
-	m_nodes.push_back(new mt_ad_subtract_tree_node(res, get_node(a), get_node(b), m_max_cache_size));
+	mt_ad_tree_node* node_a = get_node(a);
+	mt_ad_tree_node* node_b = get_node(b, vector<mt_ad_tree_node*>(1, node_a));
+
+	m_nodes.push_back(new mt_ad_subtract_tree_node(res, node_a, node_b, m_max_cache_size));
 }
 
 void mt_auto_derivative::subtract(const mt_mat& res, const mt_mat& a, const vector<double>& b) {
@@ -221,7 +245,10 @@ void mt_auto_derivative::subtract(const mt_mat& res, const vector<double>& a, co
 }
 
 void mt_auto_derivative::mul(const mt_mat& res, const mt_mat& a, const mt_mat& b) {
-	m_nodes.push_back(new mt_ad_mul_tree_node(res, get_node(a), get_node(b), m_max_cache_size));
+	mt_ad_tree_node* node_a = get_node(a);
+	mt_ad_tree_node* node_b = get_node(b, vector<mt_ad_tree_node*>(1, node_a));
+
+	m_nodes.push_back(new mt_ad_mul_tree_node(res, node_a, node_b, m_max_cache_size));
 }
 
 void mt_auto_derivative::cnov(const mt_mat& res, const mt_mat& src, const mt_mat& kernel, mt_Conv_Boundary_Type boundary_type, const i32* strides) {
@@ -229,7 +256,10 @@ void mt_auto_derivative::cnov(const mt_mat& res, const mt_mat& src, const mt_mat
 		basiclog_unsupport2();
 	}
 	
-	m_nodes.push_back(new mt_ad_conv_tree_node(res, get_node(src), get_node(kernel), strides, m_max_cache_size));
+	mt_ad_tree_node* node_a = get_node(src);
+	mt_ad_tree_node* node_b = get_node(kernel, vector<mt_ad_tree_node*>(1, node_a));
+
+	m_nodes.push_back(new mt_ad_conv_tree_node(res, node_a, node_b, strides, m_max_cache_size));
 }
 
 void mt_auto_derivative::flip(const mt_mat& res, const mt_mat& src, i32 size, const b8* flip_flags) {
@@ -333,6 +363,18 @@ mt_ad_tree_node* mt_auto_derivative::get_node(const mt_mat& mat) {
 	return node;
 }
 
+mt_ad_tree_node* mt_auto_derivative::get_node(const mt_mat& mat, const vector<mt_ad_tree_node*>& other_childs) {
+	mt_ad_tree_node* node = get_node(mat);
+
+	if (find(other_childs.begin(), other_childs.end(), node) != other_childs.end()) {
+		//a child is known by its node, so a mat used twice by one operation needs a node for every use
+		node = new mt_ad_clone_tree_node(mat, node, m_max_cache_size);
+		m_nodes.push_back(node);
+	}
+
+	return node;
+}
+
 mt_ad_tree_node* mt_auto_derivative::get_node(const vector<double>& const_value) {
 	mt_ad_tree_node* node = new mt_ad_const_leaf_tree_node(const_value);
 	m_nodes.push_back(node);
-- 
2.43.0


From 2d4052085b4a96519597a3ca5360c63c54576b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:00 +0000
Subject: [PATCH 166/183] fix: [T10] the derivative of softmax left out how its
 elements depend on each other

---
 basicmath/include/mt_auto_derivative_tree.h | 26 +++++++--------------
 basicmath/src/mt_auto_derivative_tree.cpp   | 11 +++++----
 2 files changed, 16 insertions(+), 21 deletions(-)

diff --git a/basicmath/include/mt_auto_derivative_tree.h b/basicmath/include/mt_auto_derivative_tree.h
index 803cf00..7542310 100644
--- a/basicmath/include/mt_auto_derivative_tree.h
+++ b/basicmath/include/mt_auto_derivative_tree.h
@@ -910,27 +910,19 @@ namespace basicmath {
 	public:
 
 		template<class T>
-		static mt_mat softmax_derivate(const mt_mat& softmax_res) {
-			mt_mat res(softmax_res, 0);
-			const u8* ptr_softmax_res_dim0 = softmax_res.data();
-			u8* ptr_derivate_dim0 = res.data();
+		static mt_mat softmax_derivate(const mt_mat& softmax_res, const mt_mat& derivative_res) {
+			mt_mat res(softmax_res, mt_mat::Construct_Type_Create_As_Size);
 
 			for (i32 row = 0; row < softmax_res.size()[0]; ++row) {
-				const T* ptr_softmax_res_dim1 = (const T*)ptr_softmax_res_dim0;
-				T* ptr_derivate_dim1 = (T*)ptr_derivate_dim0;
+				f64 sum = 0;
 
-				for (i32 col = 0; col < softmax_res.size()[1]; ++col) {
-					for (i32 i = 0; i < softmax_res.size()[1]; ++i) {
-						if (col == i) {
-							ptr_derivate_dim1[col] += ptr_softmax_res_dim1[i] * (1 - ptr_softmax_res_dim1[i]);
-						} else {
-							ptr_derivate_dim1[col] += -ptr_softmax_res_dim1[i] * ptr_softmax_res_dim1[col];
-						}
-					}
+				for (i32 i = 0; i < softmax_res.size()[1]; ++i) {
+					sum += (f64)derivative_res.at<T>(row, i) * softmax_res.at<T>(row, i);
 				}
 
-				ptr_softmax_res_dim0 += softmax_res.step()[0];
-				ptr_derivate_dim0 += res.step()[0];
+				for (i32 col = 0; col < softmax_res.size()[1]; ++col) {
+					res.at<T>(row, col) = (T)(softmax_res.at<T>(row, col) * (derivative_res.at<T>(row, col) - sum));
+				}
 			}
 
 			return res;
@@ -1037,7 +1029,7 @@ namespace basicmath {
 			return res;
 		}
 
-		static mt_mat softmax_derivate(const mt_mat& src);
+		static mt_mat softmax_derivate(const mt_mat& src, const mt_mat& derivative_res);
 
 		static mt_mat relu_derivate(const mt_mat& src, const vector<f64>& activated_params);
 
diff --git a/basicmath/src/mt_auto_derivative_tree.cpp b/basicmath/src/mt_auto_derivative_tree.cpp
index 31cc483..13a7732 100644
--- a/basicmath/src/mt_auto_derivative_tree.cpp
+++ b/basicmath/src/mt_auto_derivative_tree.cpp
@@ -269,6 +269,9 @@ mt_mat mt_ad_activate_tree_node::derivate_child_on_operation(mt_ad_mat_tree_node
 	} else {
 		if (m_activate_type == mt_Activate_Type_Linear) {
 			return derivative_res;
+		} else if (m_activate_type == mt_Activate_Type_Softmax) {
+			//every element of a row depends on all the elements of the source row
+			return mt_ad_helper::softmax_derivate(m_mat, derivative_res);
 		} else {
 			return derivative_res * mt_ad_helper::activate_derivative(m_mat, m_activate_type, m_activated_params);
 		}
@@ -348,14 +351,14 @@ mt_mat mt_ad_merge_align_channel_tree_node::derivate_child_on_operation(mt_ad_ma
 
 
 
-mt_mat mt_ad_helper::softmax_derivate(const mt_mat& src) {
+mt_mat mt_ad_helper::softmax_derivate(const mt_mat& src, const mt_mat& derivative_res) {
 	basiclog_assert2(src.dim() == 2);
 	basiclog_assert2(src.channel() == 1);
 
 	if (src.depth() == mt_F32) {
-		return mt_ad_helper::softmax_derivate<f32>(src);
+		return mt_ad_helper::softmax_derivate<f32>(src, derivative_res);
 	} else if (src.depth() == mt_F64) {
-		return mt_ad_helper::softmax_derivate<f64>(src);
+		return mt_ad_helper::softmax_derivate<f64>(src, derivative_res);
 	} else {
 		basiclog_unsupport2();
 		return mt_mat();
@@ -397,7 +400,7 @@ mt_mat mt_ad_helper::activate_derivative(const mt_mat& src, mt_Activate_Type act
 	case mt_Activate_Type_Relu:
 		return relu_derivate(src, activated_params);
 	case mt_Activate_Type_Softmax:
-		return softmax_derivate(src);
+		return softmax_derivate(src, mt_mat(src, 1));
 	default:
 		return mt_mat();
 	}
-- 
2.43.0


From 51f2d3926a7805cb1f13800dd676af36cbd3f0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:35 +0000
Subject: [PATCH 167/183] fix: [T10] the derivative of a loss took one
 channel's for all and was not a number where the target was missing

---
 basicmath/include/mt_auto_derivative_tree.h | 36 +++++++++++++++++++++
 basicmath/src/mt_auto_derivative_tree.cpp   | 26 +++++++++++----
 2 files changed, 55 insertions(+), 7 deletions(-)

diff --git a/basicmath/include/mt_auto_derivative_tree.h b/basicmath/include/mt_auto_derivative_tree.h
index 7542310..db5e3f6 100644
--- a/basicmath/include/mt_auto_derivative_tree.h
+++ b/basicmath/include/mt_auto_derivative_tree.h
@@ -995,6 +995,40 @@ namespace basicmath {
 			}
 		}
 
+		/** predicted_mat - matching_mat, or 0 where the matching value is missing, for those values are not a part of the loss
+		*/
+		template<class T>
+		static mt_mat loss_difference(const mt_mat& predicted_mat, const mt_mat& matching_mat, mt_Loss_Type type) {
+			mt_mat res = predicted_mat - matching_mat;
+			mt_array_element_const_iterator matching_iter(matching_mat);
+			mt_array_element_iterator res_iter(res);
+			i32 position = 0;
+			b8 row_matched = sys_true;
+
+			for (;;) {
+				T* ptr_res = (T*)res_iter.data();
+
+				if (ptr_res == NULL) {
+					break;
+				}
+
+				const T* ptr_matching = (const T*)matching_iter.data();
+
+				if (position++ % res.size()[res.dim() - 1] == 0) {
+					row_matched = mt_helper::is_number(ptr_matching[0]);
+				}
+
+				for (i32 c = 0; c < res.channel(); ++c) {
+					//The logarithmic loss leaves out whole rows
+					if (type == mt_Loss_Type_Logarithmic ? !row_matched : !mt_helper::is_number(ptr_matching[c])) {
+						ptr_res[c] = 0;
+					}
+				}
+			}
+
+			return res;
+		}
+
 		template<class T>
 		static mt_mat repeat_derivative(const mt_mat& src, const mt_mat& derivative_res) {
 			mt_mat res = mt_mat(src, 0);
@@ -1033,6 +1067,8 @@ namespace basicmath {
 
 		static mt_mat relu_derivate(const mt_mat& src, const vector<f64>& activated_params);
 
+		static mt_mat loss_difference(const mt_mat& predicted_mat, const mt_mat& matching_mat, mt_Loss_Type type);
+
 		static mt_mat activate_derivative(const mt_mat& src, mt_Activate_Type activate_type, const vector<f64>& activated_params);
 
 	};
diff --git a/basicmath/src/mt_auto_derivative_tree.cpp b/basicmath/src/mt_auto_derivative_tree.cpp
index 13a7732..57db6b4 100644
--- a/basicmath/src/mt_auto_derivative_tree.cpp
+++ b/basicmath/src/mt_auto_derivative_tree.cpp
@@ -279,18 +279,19 @@ mt_mat mt_ad_activate_tree_node::derivate_child_on_operation(mt_ad_mat_tree_node
 }
 
 mt_mat mt_ad_loss_tree_node::derivate_child_on_operation(mt_ad_mat_tree_node* child_node, const mt_mat& derivative_res) {
-	f64 loss_derivative_value = derivative_res.get(0, 0)[0];
-	
-	//basiclog_info2(loss_derivative_value);
+	//every channel has a loss of its own
+	vector<f64> loss_derivative_values;
+	const i32 first_index[] = {0, 0};
+	derivative_res.get(loss_derivative_values, 2, first_index);
 
 	switch (m_loss_type) {
 	case mt_Loss_Type_Logarithmic:
 		
 		if (child_node == m_childs[0]) {
 			if (derivative_res.depth() == mt_F32) {
-				return mt_ad_helper::logarithmic_loss_derivative<f32>(m_childs[0]->to_mat_tree_node()->m_mat, m_childs[1]->to_mat_tree_node()->m_mat) * loss_derivative_value;
+				return mt_ad_helper::logarithmic_loss_derivative<f32>(m_childs[0]->to_mat_tree_node()->m_mat, m_childs[1]->to_mat_tree_node()->m_mat) * loss_derivative_values;
 			} else if (derivative_res.depth() == mt_F64) {
-				return mt_ad_helper::logarithmic_loss_derivative<f64>(m_childs[0]->to_mat_tree_node()->m_mat, m_childs[1]->to_mat_tree_node()->m_mat) * loss_derivative_value;
+				return mt_ad_helper::logarithmic_loss_derivative<f64>(m_childs[0]->to_mat_tree_node()->m_mat, m_childs[1]->to_mat_tree_node()->m_mat) * loss_derivative_values;
 			} else {
 				basiclog_unsupport2();
 			}
@@ -303,7 +304,7 @@ mt_mat mt_ad_loss_tree_node::derivate_child_on_operation(mt_ad_mat_tree_node* ch
 	case mt_Loss_Type_Quadratic:
 		
 		if (child_node == m_childs[0]) {
-			return (m_childs[0]->to_mat_tree_node()->m_mat - m_childs[1]->to_mat_tree_node()->m_mat) * loss_derivative_value;
+			return mt_ad_helper::loss_difference(m_childs[0]->to_mat_tree_node()->m_mat, m_childs[1]->to_mat_tree_node()->m_mat, m_loss_type) * loss_derivative_values;
 		} else if (child_node == m_childs[1]) {
 			basiclog_assert2(sys_false);
 			return mt_mat();
@@ -315,7 +316,7 @@ mt_mat mt_ad_loss_tree_node::derivate_child_on_operation(mt_ad_mat_tree_node* ch
 }
 
 mt_mat mt_ad_fake_loss_tree_node::derivate_child_on_operation(mt_ad_mat_tree_node* child_node, const mt_mat& derivative_res) {
-	return (m_childs[0]->to_mat_tree_node()->m_mat - m_childs[1]->to_mat_tree_node()->m_mat) * derivative_res.get(0, 0)[0];
+	return mt_ad_helper::loss_difference(m_childs[0]->to_mat_tree_node()->m_mat, m_childs[1]->to_mat_tree_node()->m_mat, m_loss_type) * derivative_res.get(0, 0)[0];
 }
 
 mt_mat mt_ad_merge_align_channel_tree_node::derivate_child_on_operation(mt_ad_mat_tree_node* child_node, const mt_mat& derivative_res) {
@@ -376,6 +377,17 @@ mt_mat mt_ad_helper::relu_derivate(const mt_mat& src, const vector<f64>& activat
 	}
 }
 
+mt_mat mt_ad_helper::loss_difference(const mt_mat& predicted_mat, const mt_mat& matching_mat, mt_Loss_Type type) {
+	if (predicted_mat.depth() == mt_F32) {
+		return mt_ad_helper::loss_difference<f32>(predicted_mat, matching_mat, type);
+	} else if (predicted_mat.depth() == mt_F64) {
+		return mt_ad_helper::loss_difference<f64>(predicted_mat, matching_mat, type);
+	} else {
+		basiclog_unsupport2();
+		return mt_mat();
+	}
+}
+
 mt_mat mt_ad_helper::activate_derivative(const mt_mat& src, mt_Activate_Type activate_type, const vector<f64>& activated_params) {
 	switch (activate_type)
 	{
-- 
2.43.0


From a24564bac57bfe56484783f54cd98474b14c2e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:47 +0000
Subject: [PATCH 168/183] fix: [T10] an operation was not recorded when only
 its right operand was attached, and lists were recorded in every stage

---
 basicmath/include/mt_mat_helper.h       |  5 ++
 basicmath/src/mt_mat_helper.cpp         | 16 +++++
 basicmath/src/mt_mat_math_operation.cpp | 88 ++++++++++++++++---------
 3 files changed, 77 insertions(+), 32 deletions(-)

diff --git a/basicmath/include/mt_mat_helper.h b/basicmath/include/mt_mat_helper.h
index 9301185..e3373f0 100644
--- a/basicmath/include/mt_mat_helper.h
+++ b/basicmath/include/mt_mat_helper.h
@@ -46,9 +46,14 @@ namespace basicmath {
 
 		static b8 need_omp_for_multi_channel(const mt_mat& mat);
 
+		/** The auto derivative the operation on the mats must be recorded in, or NULL
+		*/
+		static mt_auto_derivative* check_mat_auto_derivative(const mt_mat& a, const mt_mat& b);
+
 		protected:
 
 			static mt_auto_derivative* check_mat_array_auto_derivative(const vector<mt_mat>& elements);
+			static mt_auto_derivative* check_stage(mt_auto_derivative* auto_derivative);
 
 	//static 
 	};
diff --git a/basicmath/src/mt_mat_helper.cpp b/basicmath/src/mt_mat_helper.cpp
index 9b77e10..efd5477 100644
--- a/basicmath/src/mt_mat_helper.cpp
+++ b/basicmath/src/mt_mat_helper.cpp
@@ -267,6 +267,22 @@ mt_auto_derivative* mt_mat_helper::check_mat_array_auto_derivative(const vector<
 		}
 	}
 
+	return check_stage(auto_derivative);
+}
+
+mt_auto_derivative* mt_mat_helper::check_mat_auto_derivative(const mt_mat& a, const mt_mat& b) {
+	if (a.m_auto_derivative != NULL && b.m_auto_derivative != NULL && a.m_auto_derivative != b.m_auto_derivative) {
+		basiclog_assert_message2(sys_false, "all mats must have only one auto_derivative!");
+	}
+
+	return check_stage(a.m_auto_derivative != NULL ? a.m_auto_derivative : b.m_auto_derivative);
+}
+
+mt_auto_derivative* mt_mat_helper::check_stage(mt_auto_derivative* auto_derivative) {
+	if (auto_derivative != NULL && auto_derivative->stage() != mt_auto_derivative::Stage_Record_Computing) {
+		return NULL;
+	}
+
 	return auto_derivative;
 }
 
diff --git a/basicmath/src/mt_mat_math_operation.cpp b/basicmath/src/mt_mat_math_operation.cpp
index 36ba3cd..daccf08 100644
--- a/basicmath/src/mt_mat_math_operation.cpp
+++ b/basicmath/src/mt_mat_math_operation.cpp
@@ -2542,11 +2542,14 @@ mt_mat mt_mat::operator+(const mt_mat& value) const {
 
 	private_math_operation::mat_operation<mt_mat, mt_mat>(res, *this, value, mt_mat_helper::Math_Op_Code_Add);
 
-	if (m_auto_derivative != NULL && m_auto_derivative->stage() == mt_auto_derivative::Stage_Record_Computing) {
-		res.m_auto_derivative = m_auto_derivative;
-		value.m_auto_derivative = m_auto_derivative;
+	mt_auto_derivative* auto_derivative = mt_mat_helper::check_mat_auto_derivative(*this, value);
 
-		m_auto_derivative->add(res, *this, value);
+	if (auto_derivative != NULL) {
+		res.m_auto_derivative = auto_derivative;
+		m_auto_derivative = auto_derivative;
+		value.m_auto_derivative = auto_derivative;
+
+		auto_derivative->add(res, *this, value);
 	}
 
 	return res;
@@ -2591,11 +2594,14 @@ mt_mat mt_mat::operator-(const mt_mat& value) const {
 	
 	private_math_operation::mat_operation<mt_mat, mt_mat>(res, *this, value, mt_mat_helper::Math_Op_Code_Subtract);
 
-	if (m_auto_derivative != NULL && m_auto_derivative->stage() == mt_auto_derivative::Stage_Record_Computing) {
-		res.m_auto_derivative = m_auto_derivative;
-		value.m_auto_derivative = m_auto_derivative;
+	mt_auto_derivative* auto_derivative = mt_mat_helper::check_mat_auto_derivative(*this, value);
+
+	if (auto_derivative != NULL) {
+		res.m_auto_derivative = auto_derivative;
+		m_auto_derivative = auto_derivative;
+		value.m_auto_derivative = auto_derivative;
 
-		m_auto_derivative->subtract(res, *this, value);
+		auto_derivative->subtract(res, *this, value);
 	}
 
 	return res;
@@ -2636,11 +2642,14 @@ mt_mat mt_mat::operator*(const mt_mat& value) const {
 
 	private_math_operation::mat_operation<mt_mat, mt_mat>(res, *this, value, mt_mat_helper::Math_Op_Code_Dot_Mul);
 
-	if (m_auto_derivative != NULL && m_auto_derivative->stage() == mt_auto_derivative::Stage_Record_Computing) {
-		res.m_auto_derivative = m_auto_derivative;
-		value.m_auto_derivative = m_auto_derivative;
+	mt_auto_derivative* auto_derivative = mt_mat_helper::check_mat_auto_derivative(*this, value);
 
-		m_auto_derivative->dot(res, *this, value);
+	if (auto_derivative != NULL) {
+		res.m_auto_derivative = auto_derivative;
+		m_auto_derivative = auto_derivative;
+		value.m_auto_derivative = auto_derivative;
+
+		auto_derivative->dot(res, *this, value);
 	}
 
 	return res;
@@ -2682,11 +2691,14 @@ mt_mat mt_mat::operator/(const mt_mat& value) const {
 
 	private_math_operation::mat_operation<mt_mat, mt_mat>(res, *this, value, mt_mat_helper::Math_Op_Code_Div);
 
-	if (m_auto_derivative != NULL && m_auto_derivative->stage() == mt_auto_derivative::Stage_Record_Computing) {
-		res.m_auto_derivative = m_auto_derivative;
-		value.m_auto_derivative = m_auto_derivative;
+	mt_auto_derivative* auto_derivative = mt_mat_helper::check_mat_auto_derivative(*this, value);
 
-		m_auto_derivative->div(res, *this, value);
+	if (auto_derivative != NULL) {
+		res.m_auto_derivative = auto_derivative;
+		m_auto_derivative = auto_derivative;
+		value.m_auto_derivative = auto_derivative;
+
+		auto_derivative->div(res, *this, value);
 	}
 
 	return res;
@@ -2697,11 +2709,14 @@ mt_mat mt_mat::add_bias(const mt_mat& bias) const {
 
 	private_math_operation::operation_bias(res, *this, bias, mt_mat_helper::Math_Op_Code_Add);
 
-	if (m_auto_derivative != NULL && m_auto_derivative->stage() == mt_auto_derivative::Stage_Record_Computing) {
-		res.m_auto_derivative = m_auto_derivative;
-		bias.m_auto_derivative = m_auto_derivative;
+	mt_auto_derivative* auto_derivative = mt_mat_helper::check_mat_auto_derivative(*this, bias);
+
+	if (auto_derivative != NULL) {
+		res.m_auto_derivative = auto_derivative;
+		m_auto_derivative = auto_derivative;
+		bias.m_auto_derivative = auto_derivative;
 
-		m_auto_derivative->add_bias(res, *this, bias);
+		auto_derivative->add_bias(res, *this, bias);
 	}
 
 	return res;
@@ -2712,11 +2727,14 @@ mt_mat mt_mat::substract_bias(const mt_mat& bias) const {
 
 	private_math_operation::operation_bias(res, *this, bias, mt_mat_helper::Math_Op_Code_Subtract);
 
-	if (m_auto_derivative != NULL && m_auto_derivative->stage() == mt_auto_derivative::Stage_Record_Computing) {
-		res.m_auto_derivative = m_auto_derivative;
-		bias.m_auto_derivative = m_auto_derivative;
+	mt_auto_derivative* auto_derivative = mt_mat_helper::check_mat_auto_derivative(*this, bias);
+
+	if (auto_derivative != NULL) {
+		res.m_auto_derivative = auto_derivative;
+		m_auto_derivative = auto_derivative;
+		bias.m_auto_derivative = auto_derivative;
 
-		m_auto_derivative->substract_bias(res, *this, bias);
+		auto_derivative->substract_bias(res, *this, bias);
 	}
 
 	return res;
@@ -2727,11 +2745,14 @@ mt_mat mt_mat::mul_bias(const mt_mat& bias) const {
 
 	private_math_operation::operation_bias(res, *this, bias, mt_mat_helper::Math_Op_Code_Dot_Mul);
 
-	if (m_auto_derivative != NULL && m_auto_derivative->stage() == mt_auto_derivative::Stage_Record_Computing) {
-		res.m_auto_derivative = m_auto_derivative;
-		bias.m_auto_derivative = m_auto_derivative;
+	mt_auto_derivative* auto_derivative = mt_mat_helper::check_mat_auto_derivative(*this, bias);
+
+	if (auto_derivative != NULL) {
+		res.m_auto_derivative = auto_derivative;
+		m_auto_derivative = auto_derivative;
+		bias.m_auto_derivative = auto_derivative;
 
-		m_auto_derivative->mul_bias(res, *this, bias);
+		auto_derivative->mul_bias(res, *this, bias);
 	}
 
 	return res;
@@ -2742,11 +2763,14 @@ mt_mat mt_mat::div_bias(const mt_mat& bias) const {
 
 	private_math_operation::operation_bias(res, *this, bias, mt_mat_helper::Math_Op_Code_Div);
 
-	if (m_auto_derivative != NULL && m_auto_derivative->stage() == mt_auto_derivative::Stage_Record_Computing) {
-		res.m_auto_derivative = m_auto_derivative;
-		bias.m_auto_derivative = m_auto_derivative;
+	mt_auto_derivative* auto_derivative = mt_mat_helper::check_mat_auto_derivative(*this, bias);
+
+	if (auto_derivative != NULL) {
+		res.m_auto_derivative = auto_derivative;
+		m_auto_derivative = auto_derivative;
+		bias.m_auto_derivative = auto_derivative;
 
-		m_auto_derivative->div_bias(res, *this, bias);
+		auto_derivative->div_bias(res, *this, bias);
 	}
 
 	return res;
-- 
2.43.0


From 71bec875211ff38b0c1d3ee359db5a3aa27228f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:47 +0000
Subject: [PATCH 169/183] fix: [T10] taking a part of a matrix was recorded in
 every stage

---
 basicmath/src/mt_mat.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index 76b16fe..0a75238 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -2707,7 +2707,7 @@ mt_mat mt_mat::sub_channel(i32 start_channel, i32 stop_channel) const {
 
 	res.m_data += start_channel * element_channel_size();
 
-	if (m_auto_derivative != NULL) {
+	if (m_auto_derivative != NULL && m_auto_derivative->stage() == mt_auto_derivative::Stage_Record_Computing) {
 		res.attach(m_auto_derivative);
 
 		m_auto_derivative->sub_channel(res, *this, start_channel, stop_channel);
@@ -2793,7 +2793,7 @@ mt_mat mt_mat::sub(i32 dims, const mt_range* ranges) const {
 		}
 	}		
 
-	if (m_auto_derivative != NULL) {
+	if (m_auto_derivative != NULL && m_auto_derivative->stage() == mt_auto_derivative::Stage_Record_Computing) {
 		res.attach(m_auto_derivative);
 
 		m_auto_derivative->sub(res, *this, dims, ranges);
-- 
2.43.0


From 0f8950f9fa2a50457615cad1523ec5b241a40478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:53 +0000
Subject: [PATCH 170/183] fix: [T10] changing a returned derivative, or summing
 over several sources, changed the kept derivatives; many targets used the
 wrong ones

---
 basicmath/src/mt_auto_derivative.cpp | 29 ++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/basicmath/src/mt_auto_derivative.cpp b/basicmath/src/mt_auto_derivative.cpp
index 432c2db..be01724 100644
--- a/basicmath/src/mt_auto_derivative.cpp
+++ b/basicmath/src/mt_auto_derivative.cpp
@@ -60,6 +60,11 @@ mt_mat mt_auto_derivative::derivative(const mt_mat& target, const mt_mat& src) {
 
 				res = target_node->to_mat_tree_node()->derivative_res(src);
 
+				if (!res.is_empty()) {
+					//the node keeps its result, so the caller must not get hold of it
+					res = res.clone();
+				}
+
 				break;
 			}
 		}
@@ -75,10 +80,20 @@ mt_mat mt_auto_derivative::derivative(const mt_mat& target, const mt_mat& src) {
 }
 
 mt_mat mt_auto_derivative::derivative(const mt_mat& target, const vector<mt_mat>& srcs) {
-	mt_mat res = derivative(target, srcs[0]);
+	mt_mat res;
+
+	for (i32 i = 0; i < (i32)srcs.size(); ++i) {
+		mt_mat src_res = derivative(target, srcs[i]);
+
+		if (src_res.is_empty()) {
+			continue;
+		}
 
-	for (i32 i = 1; i < (i32)srcs.size(); ++i) {
-		res += derivative(target, srcs[i]);
+		if (res.is_empty()) {
+			res = src_res;
+		} else {
+			res += src_res;
+		}
 	}
 
 	return res;
@@ -100,12 +115,10 @@ vector<mt_mat> mt_auto_derivative::derivative(vector<mt_mat>& targets, const mt_
 }
 
 void mt_auto_derivative::derivative(vector<mt_mat>& reses, const vector<mt_mat>& targets, const vector<mt_mat>& srcs) {
-	derivative(reses, targets, srcs[0]);
+	reses.resize(targets.size());
 
-	for (i32 i = 1; i < (i32)srcs.size(); ++i) {
-		for (i32 j = 0; j < (i32)targets.size(); ++j) {
-			reses[j] += derivative(targets[i], srcs[i]);
-		}
+	for (i32 i = 0; i < (i32)targets.size(); ++i) {
+		reses[i] = derivative(targets[i], srcs);
 	}
 }
 
-- 
2.43.0


From 503d0074fbdfd7ccba34294b45a7d38a71d816f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:52 +0000
Subject: [PATCH 171/183] fix: [T01] flipping fewer dimensions than there are
 read flags that were never set

---
 basicmath/src/mt_mat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index 0a75238..0e2e66b 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -2558,7 +2558,7 @@ mt_mat mt_mat::flip(int size, const int* dims) const {
 
 	basicmath_mat_request_memory(b8, flip_flags, dim());
 
-	for (i32 i = 0; i < size; ++i) {
+	for (i32 i = 0; i < dim(); ++i) {
 		flip_flags[i] = sys_false;
 	}
 
-- 
2.43.0


From 576dc372cfc77eada57caaa45cec961b0ef58d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:52 +0000
Subject: [PATCH 172/183] fix: [T01] reading an element with more than four
 channels as a scalar wrote past its end

---
 basicmath/src/mt_mat.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index 0e2e66b..186ee3c 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -2014,7 +2014,13 @@ mt_scalar mt_mat::get(basicsys::i32 index0, basicsys::i32 index1) const {
 	i32 indexes[] = {index0, index1};
 	mt_scalar res;
 
-	get(res.value, 2, indexes);
+	//the mat may have more channels than the scalar
+	vector<double> values;
+	get(values, 2, indexes);
+
+	for (i32 i = 0; i < (i32)values.size() && i < (i32)(sizeof(res.value) / sizeof(res.value[0])); ++i) {
+		res.value[i] = values[i];
+	}
 
 	return res;
 }
-- 
2.43.0


From e414900e54dcd3047b920823ae4abae7efd891d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:31 +0000
Subject: [PATCH 173/183] fix: [T05] reversing a pooling without a mask read
 the depth of an empty matrix out of bounds and divided by it

---
 basicmath/src/mt_pooling.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/basicmath/src/mt_pooling.cpp b/basicmath/src/mt_pooling.cpp
index 7fd4ab4..ffea1d5 100644
--- a/basicmath/src/mt_pooling.cpp
+++ b/basicmath/src/mt_pooling.cpp
@@ -1061,7 +1061,7 @@ namespace basicmath {
 
 			template<class T>
 			static void unpooling_2d_channel_1(mt_mat& src, const mt_mat& mask_mat, const mt_mat& pooling_res_mat, mt_Pooling_Type pooling_type, i32 size, const i32* kernel_sizes, const i32* strides) {
-				i32 mask_last_step = mask_mat.last_dim_element_step();
+				i32 mask_last_step = mask_mat.is_empty() ? 0 : mask_mat.last_dim_element_step();
 				i32 pooling_res_last_step = pooling_res_mat.last_dim_element_step();
 
 				i32 mat_start_row = 0;
@@ -1141,7 +1141,7 @@ namespace basicmath {
 
 			template<class T>
 			static void unpooling_2d_channel_n(mt_mat& src, const mt_mat& mask_mat, const mt_mat& pooling_res_mat, mt_Pooling_Type pooling_type, i32 size, const i32* kernel_sizes, const i32* strides) {
-				i32 mask_last_step = mask_mat.last_dim_element_step();
+				i32 mask_last_step = mask_mat.is_empty() ? 0 : mask_mat.last_dim_element_step();
 				i32 pooling_res_last_step = pooling_res_mat.last_dim_element_step();
 				i32 channels = pooling_res_mat.channel();
 				i32 mat_start_row = 0;
@@ -1228,7 +1228,7 @@ namespace basicmath {
 
 			template<class T>
 			static void unpooling_3d_channel_1(mt_mat& src, const mt_mat& mask_mat, const mt_mat& pooling_res_mat, mt_Pooling_Type pooling_type, i32 size, const i32* kernel_sizes, const i32* strides) {
-				i32 mask_last_step = mask_mat.last_dim_element_step();
+				i32 mask_last_step = mask_mat.is_empty() ? 0 : mask_mat.last_dim_element_step();
 				i32 pooling_res_last_step = pooling_res_mat.last_dim_element_step();
 
 				i32 mat_start_plane = 0;
@@ -1345,7 +1345,7 @@ namespace basicmath {
 
 			template<class T>
 			static void unpooling_3d_channel_n(mt_mat& src, const mt_mat& mask_mat, const mt_mat& pooling_res_mat, mt_Pooling_Type pooling_type, i32 size, const i32* kernel_sizes, const i32* strides) {
-				i32 mask_last_step = mask_mat.last_dim_element_step();
+				i32 mask_last_step = mask_mat.is_empty() ? 0 : mask_mat.last_dim_element_step();
 				i32 pooling_res_last_step = pooling_res_mat.last_dim_element_step();
 				i32 channels = src.channel();
 				i32 mat_start_plane = 0;
-- 
2.43.0


From fba6d017a4b360f5f913d52415faa941af8a38e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:42 +0000
Subject: [PATCH 174/183] fix: [S06] converting a text changed the locale of
 the whole process, which other threads read and write numbers by

---
 basicsys/src/sys_strconvert.cpp | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/basicsys/src/sys_strconvert.cpp b/basicsys/src/sys_strconvert.cpp
index 5ba431e..aad5459 100644
--- a/basicsys/src/sys_strconvert.cpp
+++ b/basicsys/src/sys_strconvert.cpp
@@ -4,6 +4,29 @@
 #include <windows.h>
 #else
 #include <locale.h>
+#ifdef __APPLE__
+#include <xlocale.h>
+#endif
+
+//the characters of the user's locale hold for the calling thread as long as this lives, the locale of the process stays as it is
+class private_user_locale {
+public:
+
+	private_user_locale() {
+		m_locale = newlocale(LC_CTYPE_MASK, "", (locale_t)0);
+		m_last_locale = m_locale != (locale_t)0 ? uselocale(m_locale) : (locale_t)0;
+	}
+
+	~private_user_locale() {
+		if (m_locale != (locale_t)0) {
+			uselocale(m_last_locale);
+			freelocale(m_locale);
+		}
+	}
+
+	locale_t m_locale;
+	locale_t m_last_locale;
+};
 #endif
 
 string sys_strconvert::utf8_from_utf16(const wstring& utf16) {
@@ -84,7 +107,7 @@ string sys_strconvert::local_from_utf16(const wstring& utf16) {
 
 
 #else
-	setlocale(LC_ALL, "");
+	private_user_locale user_locale;
 	wcstombs(mBuffer, utf16.c_str(), nLengthA);
 #endif
 	string res(mBuffer);
@@ -114,7 +137,7 @@ wstring sys_strconvert::utf16_from_local(const string& ansi) {
 		}			
 	}
 #else
-	setlocale(LC_ALL, "");
+	private_user_locale user_locale;
 	mbstowcs(mBuffer, ansi.c_str(), nLengthW);
 #endif
 
-- 
2.43.0


From c7339106066f5257bd8ad311de6077a3868a5628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:26 +0000
Subject: [PATCH 175/183] fix: [S06] texts converted to and from UTF-8 were
 empty everywhere but on Windows

---
 basicsys/src/sys_strconvert.cpp | 83 +++++++++++++++++++++++++++++++++
 1 file changed, 83 insertions(+)

diff --git a/basicsys/src/sys_strconvert.cpp b/basicsys/src/sys_strconvert.cpp
index aad5459..bbe6ef4 100644
--- a/basicsys/src/sys_strconvert.cpp
+++ b/basicsys/src/sys_strconvert.cpp
@@ -27,6 +27,71 @@ public:
 	locale_t m_locale;
 	locale_t m_last_locale;
 };
+
+static const u32 replacement_character = 0xFFFD;
+
+static b8 is_surrogate(u32 code, u32 begin) {
+	return code >= begin && code < begin + 0x400;
+}
+
+//what is no character is replaced, as Windows does
+static void append_utf8(char*& buffer, u32 code) {
+	if (code > 0x10FFFF || is_surrogate(code, 0xD800) || is_surrogate(code, 0xDC00)) {
+		code = replacement_character;
+	}
+
+	if (code < 0x80) {
+		*buffer++ = (char)code;
+	} else if (code < 0x800) {
+		*buffer++ = (char)(0xC0 | (code >> 6));
+		*buffer++ = (char)(0x80 | (code & 0x3F));
+	} else if (code < 0x10000) {
+		*buffer++ = (char)(0xE0 | (code >> 12));
+		*buffer++ = (char)(0x80 | ((code >> 6) & 0x3F));
+		*buffer++ = (char)(0x80 | (code & 0x3F));
+	} else {
+		*buffer++ = (char)(0xF0 | (code >> 18));
+		*buffer++ = (char)(0x80 | ((code >> 12) & 0x3F));
+		*buffer++ = (char)(0x80 | ((code >> 6) & 0x3F));
+		*buffer++ = (char)(0x80 | (code & 0x3F));
+	}
+}
+
+//reads one character, or the longest beginning of one that is broken off, at position
+static u32 next_utf8(const string& utf8, size_t& position) {
+	u32 code = (u8)utf8[position++];
+
+	if (code < 0x80) {
+		return code;
+	}
+
+	i32 follow = code >= 0xC2 && code < 0xE0 ? 1 : code >= 0xE0 && code < 0xF0 ? 2 : code >= 0xF0 && code < 0xF5 ? 3 : 0;
+
+	if (follow == 0) {
+		return replacement_character;
+	}
+
+	//the second byte also tells too long forms, surrogates and codes behind the last character
+	u32 low = code == 0xE0 ? 0xA0 : code == 0xF0 ? 0x90 : 0x80;
+	u32 high = code == 0xED ? 0x9F : code == 0xF4 ? 0x8F : 0xBF;
+
+	code &= 0x3F >> follow;
+
+	for (i32 i = 0; i < follow; ++i) {
+		u32 byte = position < utf8.size() ? (u8)utf8[position] : 0;
+
+		if (byte < low || byte > high) {
+			return replacement_character;
+		}
+
+		code = (code << 6) | (byte & 0x3F);
+		low = 0x80;
+		high = 0xBF;
+		++position;
+	}
+
+	return code;
+}
 #endif
 
 string sys_strconvert::utf8_from_utf16(const wstring& utf16) {
@@ -50,6 +115,18 @@ string sys_strconvert::utf8_from_utf16(const wstring& utf16) {
 		}			
 	}
 
+#else
+	char* position = mBuffer;
+
+	for (size_t i = 0; i < utf16.size(); ++i) {
+		u32 code = (u32)utf16[i];
+
+		if (is_surrogate(code, 0xD800) && i + 1 < utf16.size() && is_surrogate((u32)utf16[i + 1], 0xDC00)) {
+			code = 0x10000 + ((code - 0xD800) << 10) + ((u32)utf16[++i] - 0xDC00);
+		}
+
+		append_utf8(position, code);
+	}
 #endif
 
 	string res(mBuffer);
@@ -77,6 +154,12 @@ wstring sys_strconvert::utf16_from_utf8(const string& utf8) {
 			bFailed=(0 == ::MultiByteToWideChar( CP_UTF8, 0, utf8.c_str(), nLengthA, mBuffer, nLengthW));
 		}			
 	}
+#else
+	wchar_t* position = mBuffer;
+
+	for (size_t i = 0; i < utf8.size();) {
+		*position++ = (wchar_t)next_utf8(utf8, i);
+	}
 #endif
 
 	wstring res(mBuffer);
-- 
2.43.0


From 2361edb322a7ffda88be179bdded19251e755d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:00 +0000
Subject: [PATCH 176/183] fix: [C05] converting a color to gray read values
 behind the converted pixel

---
 basicimg/src/img_img.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/basicimg/src/img_img.cpp b/basicimg/src/img_img.cpp
index 7e458da..438472d 100644
--- a/basicimg/src/img_img.cpp
+++ b/basicimg/src/img_img.cpp
@@ -222,8 +222,13 @@ mt_scalar img_img::cvt_color(const mt_scalar& src, Color_Covert_Type type) {
 	cvtColor(temp_buffer, temp_buffer, type);
 
 	u8* ptr_data = temp_buffer.data;
+	mt_scalar res(0);
 
-	return mt_scalar(ptr_data[0], ptr_data[1], ptr_data[2], ptr_data[3]);
+	for (i32 i = 0; i < temp_buffer.channels(); ++i) {
+		res.value[i] = ptr_data[i];
+	}
+
+	return res;
 }
 
 mt_mat img_img::sobel(const mt_mat& src, mt_Depth dst_depth, i32 horizontal_order, i32 vertical_order, i32 kernel_size) {
-- 
2.43.0


From f59f0b0e546c34491615a59dd7b880d451d52777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:00 +0000
Subject: [PATCH 177/183] fix: [C05] the gradient magnitude was that of one
 gradient twice when it was written over the other

---
 basicimg/src/img_img.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/basicimg/src/img_img.cpp b/basicimg/src/img_img.cpp
index 438472d..5fd0ae8 100644
--- a/basicimg/src/img_img.cpp
+++ b/basicimg/src/img_img.cpp
@@ -260,9 +260,10 @@ void img_img::generate_gradient_mag(mt_mat& dst, const mt_mat& gradient_x, const
 	//TODO. 
 	//optimize memory
 	
-	dst.copy_from(gradient_x);
+	//dst may share the memory of gradient_y
 	mt_mat y_helper;
 	y_helper.copy_from(gradient_y);
+	dst.copy_from(gradient_x);
 
 	switch (gradient_mag_type) {
 	case img_img::Gradient_Mag_Type_L1:
-- 
2.43.0


From faa1b8cc6f63b5d792c5e87e61780dc95ea9e0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:06 +0000
Subject: [PATCH 178/183] fix: [T06] multiplying a flipped, turned or partly
 strided matrix recursed without end or gave wrong row distances

---
 basicmath/src/ml_multiplication.cpp | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/basicmath/src/ml_multiplication.cpp b/basicmath/src/ml_multiplication.cpp
index b9ad7f0..f60ad9a 100644
--- a/basicmath/src/ml_multiplication.cpp
+++ b/basicmath/src/ml_multiplication.cpp
@@ -8,10 +8,7 @@ namespace basicmath {
 		static void mul(mt_mat& res, const mt_mat& a, const mt_mat& b) {
 			basiclog_assert2(a.channel() == 1);
 
-			if (a.is_step_positive() 
-				&& b.is_step_positive()
-				&& a.is_min_abs_step_equal_element_size()
-				&& b.is_min_abs_step_equal_element_size()) {
+			if (is_gemm_layout(a) && is_gemm_layout(b)) {
 					i32 row_a = a.size()[0];
 					i32 col_a = a.size()[1];
 
@@ -31,12 +28,12 @@ namespace basicmath {
 					i32 other_ld = (b.step()[0] / b.element_size());
 					i32 res_ld = (res.step()[0] / res.element_size());
 
-					if (a.step()[0] < a.step()[1]) {
+					if (!is_row_layout(a)) {
 						cur_transpose = sys_true;
 						cur_ld = (a.step()[1] / a.element_size());
 					}
 
-					if (b.step()[0] < b.step()[1]) {
+					if (!is_row_layout(b)) {
 						other_transpose = sys_true;
 						other_ld = (b.step()[1] / b.element_size());
 					}
@@ -48,19 +45,19 @@ namespace basicmath {
 					}
 			} else {
 				mt_mat temp_cur = a;
-				if (a.is_step_negative()) {
+				if (!a.is_step_positive()) {
 					basiclog_warning(basiclog_performance_warning, "the step of current mat has negative values, this will reduce the performance, you should better input a mat with all positive steps!");
 					temp_cur = a.clone();
-				} else if (!a.is_min_abs_step_equal_element_size()) {
+				} else if (!is_gemm_layout(a)) {
 					basiclog_warning(basiclog_performance_warning, "this mat is result of the channel_at() on a mat with more than 1 channel, this will reduce the performance!");
 					temp_cur = a.clone();
 				}
 
 				mt_mat temp_value = b;
-				if (b.is_step_negative()) {
+				if (!b.is_step_positive()) {
 					basiclog_warning(basiclog_performance_warning, "the step of other mat has negative values, this will reduce the performance, you should better input a mat with all positive steps!");
 					temp_value = b.clone();
-				} else if (!b.is_min_abs_step_equal_element_size()) {
+				} else if (!is_gemm_layout(b)) {
 					basiclog_warning(basiclog_performance_warning, "other mat is result of the channel_at() on a mat with more than 1 channel, this will reduce the performance!");
 					temp_value = b.clone();
 				}
@@ -73,6 +70,15 @@ namespace basicmath {
 
 	private:
 
+		// The elements of a row lie one after another, and the rows do not overlap
+		static b8 is_row_layout(const mt_mat& m) {
+			return m.step()[1] == m.element_size() && m.step()[0] >= m.size()[1] * m.element_size();
+		}
+
+		static b8 is_gemm_layout(const mt_mat& m) {
+			return is_row_layout(m) || (m.step()[0] == m.element_size() && m.step()[1] >= m.size()[0] * m.element_size());
+		}
+
 		static void basicmath_sgemm(b8 trans_a, b8 trans_b, i32 m, i32 n, i32 k, const f32* a, i32 lda, const f32* b, i32 ldb, f32* c, i32 ldc) {
 #if defined basicsys_enable_mkl
 			cblas_sgemm(CblasRowMajor, trans_a ? CblasTrans : CblasNoTrans, trans_b ? CblasTrans : CblasNoTrans, m, n, k, 1.0f, a, lda, b, ldb, 0.0f, c, ldc);
-- 
2.43.0


From d2bd65a511cc73bc0aa97cd2de74f6ed7c3ae2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:24 +0000
Subject: [PATCH 179/183] fix: [T06] a convolution written over its kernel, or
 over memory shared with the source, read values it had already replaced

---
 basicmath/src/mt_convolution.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/basicmath/src/mt_convolution.cpp b/basicmath/src/mt_convolution.cpp
index ce3e9eb..4d03260 100644
--- a/basicmath/src/mt_convolution.cpp
+++ b/basicmath/src/mt_convolution.cpp
@@ -144,11 +144,16 @@ namespace basicmath {
 }
 
 void mt_mat::conv(mt_mat& res, const mt_mat& kernel, mt_Conv_Boundary_Type boundary_type /* = mt_Conv_Boundary_Type_Valid */, mt_Conv_Kernel_Align_Type align_type /* = mt_Conv_Kernel_Align_Type_Row */, const int* conv_strides /* = NULL */) const {
-	if (&res == this) {
+	if (&res == this || &res == &kernel || (!res.is_empty() && (res.is_memory_shared(*this) || res.is_memory_shared(kernel)))) {
 		mt_mat temp;
 		conv(temp, kernel, boundary_type, align_type, conv_strides);
 
-		res = temp;
+		if (&res == this || &res == &kernel || !res.is_same_memory_size(temp)) {
+			res = temp;
+		} else {
+			res.set(temp);
+		}
+
 		return;
 	}
 	
-- 
2.43.0


From 4040c2073d05f0065a001ba55f1aaac482a86d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:52 +0000
Subject: [PATCH 180/183] fix: [T06] blurring used the width for columns too,
 and a deviation of zero gave no numbers

---
 basicimg/src/img_img.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicimg/src/img_img.cpp b/basicimg/src/img_img.cpp
index 5fd0ae8..10a1759 100644
--- a/basicimg/src/img_img.cpp
+++ b/basicimg/src/img_img.cpp
@@ -370,7 +370,7 @@ void img_img::gaussian_blur(mt_mat& res, const mt_mat& src, const mt_size& kerne
 	if (kernel_height == kernel_width && mt_helper::compare_double(sigma_x, sigma_y) == 0) {
 		kernel_y = kernel_x;
 	} else {
-		generate_gaussian_kernel(kernel_y, kernel_width, sigma_y);
+		generate_gaussian_kernel(kernel_y, kernel_height, sigma_y);
 	}
 
 	mt_mat temp;
@@ -399,7 +399,7 @@ void img_img::generate_gaussian_kernel(mt_mat& kernel, i32 size, f64 sigma) {
 	f64 sum = 0;
 
 	for (i32 i = 0; i < size; ++i) {
-		f64 temp = (i - half) / sigma;
+		f64 temp = i == half ? 0 : (i - half) / sigma;
 		*data = exp(-0.5 * temp * temp);
 		sum += *data;
 		data += kernel.last_dim_element_step();
-- 
2.43.0


From ddd00ffe92c0ba2494c7a56c2431615ebc87cedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:20 +0000
Subject: [PATCH 181/183] fix: [T06] a convolution of more than four dimensions
 was recorded with its strides after they were released

---
 basicmath/src/mt_convolution.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/basicmath/src/mt_convolution.cpp b/basicmath/src/mt_convolution.cpp
index 4d03260..8b81b59 100644
--- a/basicmath/src/mt_convolution.cpp
+++ b/basicmath/src/mt_convolution.cpp
@@ -281,18 +281,18 @@ void mt_mat::conv(mt_mat& res, const mt_mat& kernel, mt_Conv_Boundary_Type bound
 		}
 	}
 
-	basicmath_mat_release(full_sizes);
-	basicmath_mat_release(sizes);
-	basicmath_mat_release(starts);
-	basicmath_mat_release(temp_strides);
-	basicmath_mat_release(res_steps);
-
 	if (m_auto_derivative != NULL && m_auto_derivative->stage() == mt_auto_derivative::Stage_Record_Computing) {
 		res.m_auto_derivative = m_auto_derivative;
 		kernel.m_auto_derivative = m_auto_derivative;
 
 		m_auto_derivative->cnov(res, *this, kernel, boundary_type, temp_strides);
 	}
+
+	basicmath_mat_release(full_sizes);
+	basicmath_mat_release(sizes);
+	basicmath_mat_release(starts);
+	basicmath_mat_release(temp_strides);
+	basicmath_mat_release(res_steps);
 }
 
 mt_mat mt_mat::conv(const mt_mat& kernel, mt_Conv_Boundary_Type boundary_type /* = mt_Conv_Boundary_Type_Valid */, mt_Conv_Kernel_Align_Type align_type, const int* conv_strides /* = NULL */) const {	
-- 
2.43.0


From c3f8a0c6246aba13d6bb0dc0eb914e53996623fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:33 +0000
Subject: [PATCH 182/183] fix: [T06] a product or convolution by an attached
 matrix was not recorded unless its source was attached too

---
 basicmath/src/ml_multiplication.cpp | 11 +++++++----
 basicmath/src/mt_convolution.cpp    | 11 +++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/basicmath/src/ml_multiplication.cpp b/basicmath/src/ml_multiplication.cpp
index f60ad9a..a8d55e5 100644
--- a/basicmath/src/ml_multiplication.cpp
+++ b/basicmath/src/ml_multiplication.cpp
@@ -130,11 +130,14 @@ mt_mat mt_mat::mul(const mt_mat& value) const {
 		}
 	}
 	
-	if (m_auto_derivative != NULL && m_auto_derivative->stage() == mt_auto_derivative::Stage_Record_Computing) {
-		res.m_auto_derivative = m_auto_derivative;
-		value.m_auto_derivative = m_auto_derivative;
+	mt_auto_derivative* auto_derivative = mt_mat_helper::check_mat_auto_derivative(*this, value);
 
-		m_auto_derivative->mul(res, *this, value);
+	if (auto_derivative != NULL) {
+		res.m_auto_derivative = auto_derivative;
+		m_auto_derivative = auto_derivative;
+		value.m_auto_derivative = auto_derivative;
+
+		auto_derivative->mul(res, *this, value);
 	}
 
 	return res;
diff --git a/basicmath/src/mt_convolution.cpp b/basicmath/src/mt_convolution.cpp
index 8b81b59..96444ac 100644
--- a/basicmath/src/mt_convolution.cpp
+++ b/basicmath/src/mt_convolution.cpp
@@ -281,11 +281,14 @@ void mt_mat::conv(mt_mat& res, const mt_mat& kernel, mt_Conv_Boundary_Type bound
 		}
 	}
 
-	if (m_auto_derivative != NULL && m_auto_derivative->stage() == mt_auto_derivative::Stage_Record_Computing) {
-		res.m_auto_derivative = m_auto_derivative;
-		kernel.m_auto_derivative = m_auto_derivative;
+	mt_auto_derivative* auto_derivative = mt_mat_helper::check_mat_auto_derivative(*this, kernel);
 
-		m_auto_derivative->cnov(res, *this, kernel, boundary_type, temp_strides);
+	if (auto_derivative != NULL) {
+		res.m_auto_derivative = auto_derivative;
+		m_auto_derivative = auto_derivative;
+		kernel.m_auto_derivative = auto_derivative;
+
+		auto_derivative->cnov(res, *this, kernel, boundary_type, temp_strides);
 	}
 
 	basicmath_mat_release(full_sizes);
-- 
2.43.0


From c5ef5da203f827c0d3d4d920533eaef995710194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:28 +0000
Subject: [PATCH 183/183] fix: [M01] fast mser v2 reported wrong bounding boxes
 beyond column or row 32767

---
 basicimg/src/img_fast_mser_v2.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicimg/src/img_fast_mser_v2.cpp b/basicimg/src/img_fast_mser_v2.cpp
index 68a62c1..1e01d5f 100644
--- a/basicimg/src/img_fast_mser_v2.cpp
+++ b/basicimg/src/img_fast_mser_v2.cpp
@@ -1666,7 +1666,7 @@ void img_fast_mser_v2::extract_pixel_parallel(img_multi_msers& msers, u8 gray_ma
 
 void img_fast_mser_v2::extract_pixel_parallel_4_acceleration(img_multi_msers& msers, u8 gray_mask) {
 	//total block self pixel size, mser block self pixel size, self rect,
-	i32 one_block_mser_info_size = m_gray_order_region_size * 3 + 1;
+	i32 one_block_mser_info_size = m_gray_order_region_size * 5 + 1;
 	i32 total_block_mser_info_size = one_block_mser_info_size * 4;
 
 	u32 partition_start_indexes[4];
@@ -1783,7 +1783,7 @@ void img_fast_mser_v2::extract_pixel_parallel_4_acceleration(img_multi_msers& ms
 
 	struct mser_block_info {
 		i32 block_self_pixel_size;
-		i16 top, left, bottom, right;
+		i32 top, left, bottom, right;
 	};
 	
 	#pragma omp parallel for num_threads(4)
-- 
2.43.0

