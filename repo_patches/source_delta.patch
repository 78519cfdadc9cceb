From 1745d5e5495bdc7d0fe939f399024342068408e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:11 +0000
Subject: [PATCH 001/195] fix: regions below the minimum size must not take
 part in V1's local-minimum suppression

---
 basicimg/src/img_fast_mser_v1.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/basicimg/src/img_fast_mser_v1.cpp b/basicimg/src/img_fast_mser_v1.cpp
index 03dda39..59830c9 100644
--- a/basicimg/src/img_fast_mser_v1.cpp
+++ b/basicimg/src/img_fast_mser_v1.cpp
@@ -2482,7 +2482,9 @@ void img_fast_mser_v1::recognize_mser_parallel() {
 
 			basiclog_assert2(parent_region->m_region_flag != mser_region::Flag_Merged);
 
-			if (m_nms_similarity >= 0 && bp.m_data->m_var >= 0 && parent_region->m_var >= 0 && parent_region->m_gray_level == bp.m_data->m_gray_level + 1) {
+			// Regions below m_min_point are only kept when they touch the boundary of a patch. They must not suppress their
+			// parents, otherwise the result depends on how the image is divided.
+			if (m_nms_similarity >= 0 && bp.m_data->m_size >= m_min_point && bp.m_data->m_var >= 0 && parent_region->m_var >= 0 && parent_region->m_gray_level == bp.m_data->m_gray_level + 1) {
 				double subValue = parent_region->m_var - bp.m_data->m_var;
 				if (subValue > m_nms_similarity) {
 					if (mser_region::Flag_Unknow == parent_region->m_region_flag) {
-- 
2.43.0


From 5ecbb28357933b7d488d3fb8b9613c8c4aa687ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:36 +0000
Subject: [PATCH 002/195] fix: V1's parallel extraction left the pixels of the
 last regions unwritten

---
 basicimg/src/img_fast_mser_v1.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/basicimg/src/img_fast_mser_v1.cpp b/basicimg/src/img_fast_mser_v1.cpp
index 59830c9..2c6a34e 100644
--- a/basicimg/src/img_fast_mser_v1.cpp
+++ b/basicimg/src/img_fast_mser_v1.cpp
@@ -3093,13 +3093,9 @@ void img_fast_mser_v1::extract_pixel_parallel_k_fast(img_multi_msers& msers, u8
 		cur_size += cur_region->m_size;
 		parallel_stop_indexes[index] = i;
 
-		if (cur_size > parallel_size) {
+		if (cur_size > parallel_size && index < m_parallel_thread_number - 1) {
 			++index;
 
-			if (index == m_parallel_thread_number) {
-				break;
-			}
-
 			memory_offsets[index] = cur_size;			
 			parallel_size += quarter_size;
 		}
-- 
2.43.0


From 5156045a2544f0d9a8ec55f25091e27f182fd8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:36 +0000
Subject: [PATCH 003/195] fix: V2 reported inverted gray levels for regions
 extracted from the maximum

---
 basicimg/src/img_fast_mser_v2.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/basicimg/src/img_fast_mser_v2.cpp b/basicimg/src/img_fast_mser_v2.cpp
index f25c1c6..ab9707e 100644
--- a/basicimg/src/img_fast_mser_v2.cpp
+++ b/basicimg/src/img_fast_mser_v2.cpp
@@ -1876,7 +1876,6 @@ void img_fast_mser_v2::extract_pixel_parallel_4_acceleration(img_multi_msers& ms
 			mser_block_info_pointer[3]->block_self_pixel_size = cur_mser.m_points[3].m_x;
 		}
 
-		cur_mser.m_gray_level = cur_region->m_gray_level;
 		cur_region->m_mser_index = i;
 
 		mser_block_info_pointer[0]->left = -1;
-- 
2.43.0


From b16279805a2bba9a4b5b55b08b36b1a05327dfd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:36 +0000
Subject: [PATCH 004/195] fix: V2 missed the right or bottom of a region that
 spans several blocks

---
 basicimg/src/img_fast_mser_v2.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/basicimg/src/img_fast_mser_v2.cpp b/basicimg/src/img_fast_mser_v2.cpp
index ab9707e..5865294 100644
--- a/basicimg/src/img_fast_mser_v2.cpp
+++ b/basicimg/src/img_fast_mser_v2.cpp
@@ -1985,13 +1985,17 @@ void img_fast_mser_v2::extract_pixel_parallel_4_acceleration(img_multi_msers& ms
 			} else {
 				if (mser_block_info_pointer[k]->left < left) {
 					left = mser_block_info_pointer[k]->left;
-				} else if (mser_block_info_pointer[k]->right > right) {
+				}
+
+				if (mser_block_info_pointer[k]->right > right) {
 					right = mser_block_info_pointer[k]->right;
 				}
 
 				if (mser_block_info_pointer[k]->top < top) {
 					top = mser_block_info_pointer[k]->top;
-				} else if (mser_block_info_pointer[k]->bottom > bottom) {
+				}
+
+				if (mser_block_info_pointer[k]->bottom > bottom) {
 					bottom = mser_block_info_pointer[k]->bottom;
 				}
 			}
-- 
2.43.0


From 1c9b12f2e6b8076ad48b7a90499a6fa5268b0501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:31 +0000
Subject: [PATCH 005/195] fix: V2 extracted pixels of the first four partitions
 only, whatever the number of threads

---
 basicimg/src/img_fast_mser_v2.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/basicimg/src/img_fast_mser_v2.cpp b/basicimg/src/img_fast_mser_v2.cpp
index 5865294..7e85141 100644
--- a/basicimg/src/img_fast_mser_v2.cpp
+++ b/basicimg/src/img_fast_mser_v2.cpp
@@ -1645,8 +1645,14 @@ void img_fast_mser_v2::extract_pixel_parallel_4_acceleration(img_multi_msers& ms
 	i32 one_block_mser_info_size = m_gray_order_region_size * 3 + 1;
 	i32 total_block_mser_info_size = one_block_mser_info_size * 4;
 
-	u32 partition_start_indexes[4] = {0, 1, 2, 3};
-	u32 partition_stop_indexes[4] = {1, 2, 3, 4};
+	// The image may be divided into 1, 4 or 32 partitions
+	u32 partition_start_indexes[4];
+	u32 partition_stop_indexes[4];
+
+	for (u32 i = 0; i < 4; ++i) {
+		partition_start_indexes[i] = (u32)m_pinfo.size() * i / 4;
+		partition_stop_indexes[i] = (u32)m_pinfo.size() * (i + 1) / 4;
+	}
 
 	i32** region_heap = (i32**)malloc(sizeof(i32*) * (i32)m_pinfo.size());
 	i32 total_region_size = 0;
-- 
2.43.0


From ced06076da4c0a64b07e4f3e595546c50159a982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:29 +0000
Subject: [PATCH 006/195] fix: V2 visited only four of eight neighbours with
 8-connectivity

---
 basicimg/src/img_fast_mser_v2.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/basicimg/src/img_fast_mser_v2.cpp b/basicimg/src/img_fast_mser_v2.cpp
index 7e85141..81da39e 100644
--- a/basicimg/src/img_fast_mser_v2.cpp
+++ b/basicimg/src/img_fast_mser_v2.cpp
@@ -267,13 +267,14 @@ void img_fast_mser_v2::make_tree_patch(parallel_info& pinfo, const mt_mat& img,
 
 	i16 nbr_gray;
 	i32 nbr_index;
+	i32 nbr_end = m_boundary_pixel >> m_dir_shift;
 	u32* nbr_points;
 
 	for ( ; ; ) {
 		nbr_index = *points >> m_dir_shift;
 
 		// take tour of all the 4 or 8 directions
-		while (nbr_index <= 4) {
+		while (nbr_index < nbr_end) {
 			// get the neighbor
 			nbr_points = points + dir[nbr_index];
 
-- 
2.43.0


From 74fa2ac5e9ce0876878a99e9d336cbd97b8761c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:23 +0000
Subject: [PATCH 007/195] fix: V2 leaked its index tables on every extraction

---
 basicimg/src/img_fast_mser_v2.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/basicimg/src/img_fast_mser_v2.cpp b/basicimg/src/img_fast_mser_v2.cpp
index 81da39e..eba5c64 100644
--- a/basicimg/src/img_fast_mser_v2.cpp
+++ b/basicimg/src/img_fast_mser_v2.cpp
@@ -1635,6 +1635,8 @@ void img_fast_mser_v2::extract_pixel_serial(img_multi_msers& msers, u8 gray_mask
 			}
 		}
 	}
+
+	free(region_heap);
 }
 
 void img_fast_mser_v2::extract_pixel_parallel(img_multi_msers& msers, u8 gray_mask) {
@@ -2058,6 +2060,12 @@ void img_fast_mser_v2::extract_pixel_parallel_4_acceleration(img_multi_msers& ms
 		mser_block_info_pointer[2] += 1;
 		mser_block_info_pointer[3] += 1;
 	}
+
+	if (mser_block_indexes != (i32*)(m_heap) + total_region_size) {
+		free(mser_block_indexes);
+	}
+
+	free(region_heap);
 }
 
 void img_fast_mser_v2::calculate_variation(mser_region* region) {
-- 
2.43.0


From f44e8e2a87cfd3e11628ec1af2b21e4a9b7dfba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:23 +0000
Subject: [PATCH 008/195] fix: V2 counted on uninitialised members

---
 basicimg/src/img_fast_mser_v2.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/basicimg/src/img_fast_mser_v2.cpp b/basicimg/src/img_fast_mser_v2.cpp
index eba5c64..ac06470 100644
--- a/basicimg/src/img_fast_mser_v2.cpp
+++ b/basicimg/src/img_fast_mser_v2.cpp
@@ -25,6 +25,9 @@ img_fast_mser_v2::img_fast_mser_v2()
 	m_gray_order_regions = NULL;
 	m_gray_order_region_size = 0;
 	m_gray_order_regions_memory_size = 0;
+
+	m_exceed_times = 0;
+	m_merged_number = 0;
 }
 
 img_fast_mser_v2::~img_fast_mser_v2() {
-- 
2.43.0


From be853f53311602ef4dbade4251341019520734c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:23 +0000
Subject: [PATCH 009/195] fix: the exponent of the region block size was beyond
 the width of an int

---
 basicimg/src/img_fast_mser_v1.cpp | 2 +-
 basicimg/src/img_fast_mser_v2.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicimg/src/img_fast_mser_v1.cpp b/basicimg/src/img_fast_mser_v1.cpp
index 2c6a34e..b2ab71e 100644
--- a/basicimg/src/img_fast_mser_v1.cpp
+++ b/basicimg/src/img_fast_mser_v1.cpp
@@ -1022,7 +1022,7 @@ void img_fast_mser_v1::make_tree_patch(parallel_info& pinfo, const mt_mat& img,
 	
 	i32 erCount = 0;
 
-	pinfo.m_mser_regions.init(2000, sys_false);
+	pinfo.m_mser_regions.init(16, sys_false);
 
 	i16*** heap_cur = pinfo.m_heap_start;
 	connected_comp* comptr = pinfo.m_comp; 
diff --git a/basicimg/src/img_fast_mser_v2.cpp b/basicimg/src/img_fast_mser_v2.cpp
index ac06470..d724e10 100644
--- a/basicimg/src/img_fast_mser_v2.cpp
+++ b/basicimg/src/img_fast_mser_v2.cpp
@@ -243,7 +243,7 @@ void img_fast_mser_v2::make_tree_patch(parallel_info& pinfo, const mt_mat& img,
 	
 #define get_gray(ptr)	((m_mask_mask == 0 || (*ptr & m_mask_mask) == 0) ? (*(pinfo.m_extended_image + (ptr - pinfo.m_points)) ^ gray_mask) : 256)
 
-	pinfo.m_mser_regions.init(2000, sys_false);
+	pinfo.m_mser_regions.init(16, sys_false);
 
 	u32*** heap_cur = pinfo.m_heap_start;
 	connected_comp* comptr = pinfo.m_comp; 
-- 
2.43.0


From 0cac183c0151a061909ca253e561fc15f4838ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:23 +0000
Subject: [PATCH 010/195] fix: V1 leaked its border order tables on every
 extraction

---
 basicimg/include/img_fast_mser_v1.h |  1 +
 basicimg/src/img_fast_mser_v1.cpp   | 16 ++++++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/basicimg/include/img_fast_mser_v1.h b/basicimg/include/img_fast_mser_v1.h
index 213498e..200b279 100644
--- a/basicimg/include/img_fast_mser_v1.h
+++ b/basicimg/include/img_fast_mser_v1.h
@@ -14,6 +14,7 @@ namespace basicimg {
 	protected:
 
 		void clear_memory_cache();
+		void free_ordered_indexes();
 
 		enum {
 			Boundary_Yes_Mask = 0x4000,
diff --git a/basicimg/src/img_fast_mser_v1.cpp b/basicimg/src/img_fast_mser_v1.cpp
index b2ab71e..7decd3a 100644
--- a/basicimg/src/img_fast_mser_v1.cpp
+++ b/basicimg/src/img_fast_mser_v1.cpp
@@ -57,6 +57,16 @@ img_fast_mser_v1::~img_fast_mser_v1() {
 	basicsys_free(m_linked_points);
 	basicsys_free(m_masked_image);
 	basicsys_free(m_boundary_regions);
+	basicsys_free(m_merged_points);
+	free_ordered_indexes();
+}
+
+void img_fast_mser_v1::free_ordered_indexes() {
+	for (i32 i = 0; i < (i32)m_orderd_indexes.size(); ++i) {
+		free(m_orderd_indexes[i]);
+	}
+
+	m_orderd_indexes.clear();
 }
 
 void img_fast_mser_v1::clear_memory_cache() {
@@ -65,6 +75,7 @@ void img_fast_mser_v1::clear_memory_cache() {
 	basicsys_free(m_masked_image);
 	basicsys_free(m_boundary_regions);
 	basicsys_free(m_merged_points);
+	free_ordered_indexes();
 
 	m_heap_size = 0;
 	m_masked_image_size = 0;
@@ -190,6 +201,7 @@ void img_fast_mser_v1::allocate_memory_parallel_2(const mt_mat& img, const img_m
 	u32 horizontal_index[2] = {0, left_width};
 	u32 widths[2] = {left_width, right_width};
 
+	free_ordered_indexes();
 	m_orderd_indexes.resize(1);
 	m_orderd_indexes[0] = (i32*)malloc(sizeof(i32) * img.size()[0]);
 
@@ -313,6 +325,7 @@ void img_fast_mser_v1::allocate_memory_parallel_4(const mt_mat& img, const img_m
 	u32 widths[2] = {left_width, right_width};
 	u32 heights[2] = {top_height, bottom_height};
 
+	free_ordered_indexes();
 	m_orderd_indexes.resize(2);
 	m_orderd_indexes[0] = (i32*)malloc(sizeof(i32) * img.size()[0]);
 	m_orderd_indexes[1] = (i32*)malloc(sizeof(i32) * img.size()[1]);
@@ -455,6 +468,7 @@ void img_fast_mser_v1::allocate_memory_parallel_8(const mt_mat& img, const img_m
 	u32 widths[4] = {p_width, p_width, p_width, (u32)img.size()[1] - 3 * p_width};
 	u32 heights[2] = {p_height, (u32)img.size()[0] - p_height};
 
+	free_ordered_indexes();
 	m_orderd_indexes.resize(2);
 	m_orderd_indexes[0] = (i32*)malloc(sizeof(i32) * img.size()[0]);
 	m_orderd_indexes[1] = (i32*)malloc(sizeof(i32) * img.size()[1]);
@@ -616,6 +630,7 @@ void img_fast_mser_v1::allocate_memory_parallel_16(const mt_mat& img, const img_
 	u32 widths[4] = {p_width, p_width, p_width, (u32)img.size()[1] - 3 * p_width};
 	u32 heights[4] = {p_height, p_height, p_height, (u32)img.size()[0] - 3 * p_height};
 
+	free_ordered_indexes();
 	m_orderd_indexes.resize(2);
 	m_orderd_indexes[0] = (i32*)malloc(sizeof(i32) * img.size()[0]);
 	m_orderd_indexes[1] = (i32*)malloc(sizeof(i32) * img.size()[1]);
@@ -780,6 +795,7 @@ void img_fast_mser_v1::allocate_memory_parallel_32(const mt_mat& img, const img_
 	u32 widths[8] = {p_width, p_width, p_width, p_width, p_width, p_width, p_width, (u32)img.size()[1] - 7 * p_width};
 	u32 heights[4] = {p_height, p_height, p_height, (u32)img.size()[0] - 3 * p_height};
 
+	free_ordered_indexes();
 	m_orderd_indexes.resize(2);
 	m_orderd_indexes[0] = (i32*)malloc(sizeof(i32) * img.size()[0]);
 	m_orderd_indexes[1] = (i32*)malloc(sizeof(i32) * img.size()[1]);
-- 
2.43.0


From ccc138854608aa5adb9fd345fcb9fe4abddd6636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:23 +0000
Subject: [PATCH 011/195] fix: copied MSER results shared the points of the
 original and were released by the wrong function

---
 basicimg/src/img_mser_base.cpp | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/basicimg/src/img_mser_base.cpp b/basicimg/src/img_mser_base.cpp
index f9441d2..f76f60d 100644
--- a/basicimg/src/img_mser_base.cpp
+++ b/basicimg/src/img_mser_base.cpp
@@ -51,23 +51,34 @@ img_multi_msers::img_multi_msers(const img_multi_msers& other) {
 }
 
 void img_multi_msers::operator=(const img_multi_msers& other) {
+	if (this == &other) {
+		return;
+	}
+
 	m_msers[0] = other.m_msers[0];
 	m_msers[1] = other.m_msers[1];
 
 	m_memory_size[0] = other.m_memory_size[0];
 	m_memory_size[1] = other.m_memory_size[1];
 
-	basicsys_delete_array(m_memory[0]);
-	basicsys_delete_array(m_memory[1]);
-
-	if (m_memory_size[0] > 0) {
-		m_memory[0] = new mt_point[m_memory_size[0]];
-		memcpy(m_memory[0], other.m_memory[0], sizeof(mt_point) * m_memory_size[0]);
-	}
+	basicsys_free(m_memory[0]);
+	basicsys_free(m_memory[1]);
 
-	if (m_memory_size[1] > 0) {
-		m_memory[1] = new mt_point[m_memory_size[1]];
-		memcpy(m_memory[1], other.m_memory[1], sizeof(mt_point) * m_memory_size[1]);
+	for (i32 i = 0; i < 2; ++i) {
+		if (m_memory_size[i] > 0) {
+			// the algorithms allocate the memory by malloc
+			m_memory[i] = (mt_point*)malloc(sizeof(mt_point) * m_memory_size[i]);
+			memcpy(m_memory[i], other.m_memory[i], sizeof(mt_point) * m_memory_size[i]);
+
+			// the regions must refer to the copied memory
+			for (i32 k = 0; k < (i32)m_msers[i].size(); ++k) {
+				img_mser& cur_mser = m_msers[i][k];
+
+				if (cur_mser.m_memory_type != img_mser::Memory_Type_Self && cur_mser.m_points >= other.m_memory[i] && cur_mser.m_points < other.m_memory[i] + m_memory_size[i]) {
+					cur_mser.m_points = m_memory[i] + (cur_mser.m_points - other.m_memory[i]);
+				}
+			}
+		}
 	}
 }
 
-- 
2.43.0


From 00c50d2c09e81d89403918abf6e50c3f7757272c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:03 +0000
Subject: [PATCH 012/195] fix: assigning a region leaked the points it owned

---
 basicimg/src/img_mser_base.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/basicimg/src/img_mser_base.cpp b/basicimg/src/img_mser_base.cpp
index f76f60d..929ee31 100644
--- a/basicimg/src/img_mser_base.cpp
+++ b/basicimg/src/img_mser_base.cpp
@@ -19,19 +19,26 @@ img_mser::~img_mser() {
 }
 
 img_mser::img_mser(const img_mser& other) {
+	m_memory_type = Memory_Type_Self;
 	m_points = NULL;
 	*this = other;
 }
 
 void img_mser::operator=(const img_mser& other) {
+	if (this == &other) {
+		return;
+	}
+
+	if (m_memory_type == Memory_Type_Self) {
+		basicsys_delete_array(m_points);
+	}
+
 	m_gray_level = other.m_gray_level;
 	m_memory_type = other.m_memory_type;
 	m_size = other.m_size;
 	m_rect = other.m_rect;
 
 	if (m_memory_type == Memory_Type_Self) {
-		basicsys_delete_array(m_points);
-
 		if (m_size > 0) {
 			m_points = new mt_point[m_size];
 			memcpy(m_points, other.m_points, sizeof(mt_point) * m_size);
-- 
2.43.0


From 00cd12c44d7a2db9a7b5ef09b47a878518cf749f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:07 +0000
Subject: [PATCH 013/195] fix: the ms algorithm read past the rows of an image
 that is a part of a larger one

---
 basicimg/src/img_ms_mser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/basicimg/src/img_ms_mser.cpp b/basicimg/src/img_ms_mser.cpp
index 9d46482..4995767 100644
--- a/basicimg/src/img_ms_mser.cpp
+++ b/basicimg/src/img_ms_mser.cpp
@@ -173,6 +173,8 @@ void img_ms_mser::pre_process_image(const mt_mat& img, const img_mask_info<u8>&
 			for (row = 0; row < height; ++row) {
 				*points++ = m_boundary_pixel;
 
+				img_data = img.ptr<u8>(row, 0);
+
 				for (col = 0; col < width; ++col) {
 					m_level_size[*img_data]++;
 					*extended_image_data++ = *img_data++;
-- 
2.43.0


From 859358d99e803ec922b1948ef3af7a0f10a5986b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:07 +0000
Subject: [PATCH 014/195] fix: the ms algorithm visited only four of eight
 neighbours with 8-connectivity

---
 basicimg/src/img_ms_mser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/basicimg/src/img_ms_mser.cpp b/basicimg/src/img_ms_mser.cpp
index 4995767..3ae5dee 100644
--- a/basicimg/src/img_ms_mser.cpp
+++ b/basicimg/src/img_ms_mser.cpp
@@ -247,13 +247,14 @@ void img_ms_mser::build_tree(const mt_mat& img, const img_mask_info<u8>& mask, u
 	
 	i16 nbr_gray;
 	i32 nbr_index;
+	i32 nbr_end = m_boundary_pixel >> m_dir_shift;
 	u32* nbr_points;
 
 	for ( ; ; ) {
 		nbr_index = *points >> m_dir_shift;
 
 		// take tour of all the 4 or 8 directions
-		while (nbr_index <= 4) {
+		while (nbr_index < nbr_end) {
 			// get the neighbor
 			nbr_points = points + m_dir[nbr_index];
 
-- 
2.43.0


From a4357cb4903b0b9eb56cc9bc6f6721ef3998e0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:07 +0000
Subject: [PATCH 015/195] fix: the original algorithm kept the regions of the
 previous image when the image size changed

---
 basicimg/src/img_origin_mser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicimg/src/img_origin_mser.cpp b/basicimg/src/img_origin_mser.cpp
index 43e41da..7769045 100644
--- a/basicimg/src/img_origin_mser.cpp
+++ b/basicimg/src/img_origin_mser.cpp
@@ -595,10 +595,10 @@ void img_original_mser::allocate_memory(const mt_mat& image, const img_mask_info
 		m_stack_helper_size = area;
 		basicsys_delete_array(m_stack_helper);
 		m_stack_helper = new i16*[area];
-	} else {
-		resetPreInfo();
 	}
 
+	resetPreInfo();
+
 	m_stack_top_index = -1;
 
 	for (i32 i = 1; i < m_window_size; ++i) {
-- 
2.43.0


From 3fa0168d381afcc95a0f794ed797b7602f2d947c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:23 +0000
Subject: [PATCH 016/195] fix: the opencv algorithm swapped the two polarities

---
 basicimg/src/img_opencv_mser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicimg/src/img_opencv_mser.cpp b/basicimg/src/img_opencv_mser.cpp
index 230f582..5c67687 100644
--- a/basicimg/src/img_opencv_mser.cpp
+++ b/basicimg/src/img_opencv_mser.cpp
@@ -197,7 +197,7 @@ void img_opencv_mser::preProcessImage(const mt_mat& src, u8 gray_mask) {
 	imgptr += cpt_1;
 	u8* srcptr = (u8*)src.data();
 	
-	if (gray_mask) {
+	if (gray_mask == 0) {
 		for (int row = 0; row < src.size()[0]; ++row) {
 			*imgptr++ = -1;
 			for (int col = 0; col < src.size()[1]; ++col) {
-- 
2.43.0


From fdd9635839503cbf87efb2c06d067e8923b4c2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:23 +0000
Subject: [PATCH 017/195] fix: the idiap algorithm read past its boundary heaps

---
 basicimg/src/img_idiap_mser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicimg/src/img_idiap_mser.cpp b/basicimg/src/img_idiap_mser.cpp
index c924dac..91d564a 100644
--- a/basicimg/src/img_idiap_mser.cpp
+++ b/basicimg/src/img_idiap_mser.cpp
@@ -432,7 +432,7 @@ step_3:
 
 
 
-		while (boundaryPixels[priority].empty() && (priority < 256))
+		while ((priority < 256) && boundaryPixels[priority].empty())
 
 			++priority;
 
-- 
2.43.0


From 8ef19c1c7938420da577c3c72f79d64571e75597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:55 +0000
Subject: [PATCH 018/195] fix: V1's serial regions held an index pair in place
 of their points and no rectangle

---
 basicimg/src/img_fast_mser_v1.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/basicimg/src/img_fast_mser_v1.cpp b/basicimg/src/img_fast_mser_v1.cpp
index 7decd3a..ae85168 100644
--- a/basicimg/src/img_fast_mser_v1.cpp
+++ b/basicimg/src/img_fast_mser_v1.cpp
@@ -2987,12 +2987,12 @@ void img_fast_mser_v1::extract_pixel_parallel_1_fast(img_multi_msers& msers, u8
 		cur_region = m_gray_order_regions[i];
 
 		cur_mser.m_size = cur_region->m_size;
+		cur_mser.m_rect.set_rect(cur_region->m_left, cur_region->m_top, i32(cur_region->m_right - cur_region->m_left + 1), i32(cur_region->m_bottom - cur_region->m_top + 1));
 		cur_mser.m_gray_level = cur_region->m_gray_level ^ gray_mask;
 		cur_mser.m_memory_type = img_mser::Memory_Type_Range;
 		
-		i32* pt_range = (i32*)&cur_mser.m_points;
-		pt_range[0] = m_linked_points[cur_region->m_head].m_ref;
-		pt_range[1] = m_linked_points[cur_region->m_tail].m_ref;
+		// store start memory index
+		cur_mser.m_points = memory + m_linked_points[cur_region->m_head].m_ref;
 	}
 }
 
-- 
2.43.0


From 41f011ff7e8f9bd3f519c192a726d67658e25a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:28 +0000
Subject: [PATCH 019/195] fix: copying a connected component lost its rectangle
 and shared the points it owned

---
 basicimg/include/img_connected_component.h | 2 ++
 basicimg/src/img_connected_component.cpp   | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/basicimg/include/img_connected_component.h b/basicimg/include/img_connected_component.h
index 58d35fb..327f4b6 100644
--- a/basicimg/include/img_connected_component.h
+++ b/basicimg/include/img_connected_component.h
@@ -101,6 +101,8 @@ namespace basicimg {
 
 		img_connected_component();
 
+		img_connected_component(const img_connected_component& other);
+
 		~img_connected_component();
 
 		void operator = (const img_connected_component& other);
diff --git a/basicimg/src/img_connected_component.cpp b/basicimg/src/img_connected_component.cpp
index 0eb2242..98faa1a 100644
--- a/basicimg/src/img_connected_component.cpp
+++ b/basicimg/src/img_connected_component.cpp
@@ -33,6 +33,13 @@ img_connected_component::img_connected_component()
 
 }
 
+img_connected_component::img_connected_component(const img_connected_component& other)
+	: m_points(NULL)
+	, m_size(0)
+	, m_share_memory(sys_false) {
+	*this = other;
+}
+
 img_connected_component::~img_connected_component() {
 	release();
 }
@@ -44,6 +51,7 @@ void img_connected_component::operator = (const img_connected_component& other)
 
 	release();
 	m_share_memory = other.m_share_memory;
+	m_rect = other.m_rect;
 
 	if (other.m_share_memory) {
 		m_points = other.m_points;
-- 
2.43.0


From 5903b5c313289f7e3f10016de1aad391ac66fae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:28 +0000
Subject: [PATCH 020/195] fix: extracting connected components again leaked the
 earlier points and kept their rectangles

---
 basicimg/include/img_connected_component.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/basicimg/include/img_connected_component.h b/basicimg/include/img_connected_component.h
index 327f4b6..cea2e1d 100644
--- a/basicimg/include/img_connected_component.h
+++ b/basicimg/include/img_connected_component.h
@@ -604,8 +604,12 @@ namespace basicimg {
 				preInfo.m_regions.pop_back();
 			}
 
+			// the components of an earlier extraction refer to the earlier points
+			ccs.m_ccs.clear();
+			basicsys_delete_array(ccs.m_cache_points);
+			ccs.m_cache_points = preInfo.m_cache_points;
+
 			if (!preInfo.m_regions.empty()) {
-				ccs.m_cache_points = preInfo.m_cache_points;
 				ccs.m_ccs.resize(preInfo.m_regions.size());
 
 				for (i32 i = 0; i < (i32)preInfo.m_regions.size(); ++i) {
-- 
2.43.0


From 2a6a0abd0b52913557e38ecb97907f1b821b0665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:28 +0000
Subject: [PATCH 021/195] fix: connected components of an image of background
 alone computed a negative size

---
 basicimg/include/img_connected_component.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/basicimg/include/img_connected_component.h b/basicimg/include/img_connected_component.h
index cea2e1d..a08f438 100644
--- a/basicimg/include/img_connected_component.h
+++ b/basicimg/include/img_connected_component.h
@@ -526,6 +526,12 @@ namespace basicimg {
 						image_data += srcByteOffset;
 					}
 
+					if (rowMax < rowMin) {
+						// every pixel is masked
+						rowMin = colMin = 0;
+						rowMax = colMax = -1;
+					}
+
 					mt_size targetImageSize(colMax - colMin + 1, rowMax - rowMin + 1);
 					preInfo.m_activate_rect.set_rect(mt_point(colMin, rowMin), targetImageSize);
 
-- 
2.43.0


From de7a8251d0a57be383933b8204527b784359a076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:28 +0000
Subject: [PATCH 022/195] fix: the level image from the maximum took the levels
 of the regions from the minimum

---
 basicimg/src/img_mser_result.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicimg/src/img_mser_result.cpp b/basicimg/src/img_mser_result.cpp
index 19935f8..86c46dd 100644
--- a/basicimg/src/img_mser_result.cpp
+++ b/basicimg/src/img_mser_result.cpp
@@ -84,7 +84,7 @@ img_mser_channel_image img_mser_result::generate_mser_channel_image(const mt_mat
 				const mt_point& pt = m_msers[1][j].m_cc.m_points[k];
 
 				if (m_msers[1][j].m_level > channel_image.m_level_image.at<u8>(pt.m_y, pt.m_x, 0)) {
-					channel_image.m_level_image.at<u8>(pt.m_y, pt.m_x, 0) = m_msers[0][j].m_level;
+					channel_image.m_level_image.at<u8>(pt.m_y, pt.m_x, 0) = m_msers[1][j].m_level;
 					channel_image.m_mser_id_image.at<i32>(pt.m_y, pt.m_x, 0) = j;
 				}
 			}
-- 
2.43.0


From adb85c7b9befb45e83703647b726d9f201310d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:28 +0000
Subject: [PATCH 023/195] fix: the value mask was ignored from the minimum

---
 basicimg/src/img_linked_linear_mser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicimg/src/img_linked_linear_mser.cpp b/basicimg/src/img_linked_linear_mser.cpp
index a6abff5..32d204b 100644
--- a/basicimg/src/img_linked_linear_mser.cpp
+++ b/basicimg/src/img_linked_linear_mser.cpp
@@ -391,8 +391,8 @@ void img_linked_linear_mser::pre_process_image(const mt_mat& src, u8 gray_mask,
 						srcValue = *srcptr;
 					}
 
-					level_size[*srcptr]++;
-					*imgptr = *srcptr;
+					level_size[srcValue]++;
+					*imgptr = srcValue;
 
 					imgptr++;
 					srcptr++;
-- 
2.43.0


From 747c6d758a6e1a71d4596b57106a6db88454fadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:28 +0000
Subject: [PATCH 024/195] fix: copying a region without points (vlfeat reports
 none) read from NULL

---
 basicimg/src/img_mser_base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicimg/src/img_mser_base.cpp b/basicimg/src/img_mser_base.cpp
index 929ee31..1f4062f 100644
--- a/basicimg/src/img_mser_base.cpp
+++ b/basicimg/src/img_mser_base.cpp
@@ -39,7 +39,7 @@ void img_mser::operator=(const img_mser& other) {
 	m_rect = other.m_rect;
 
 	if (m_memory_type == Memory_Type_Self) {
-		if (m_size > 0) {
+		if (m_size > 0 && other.m_points != NULL) {
 			m_points = new mt_point[m_size];
 			memcpy(m_points, other.m_points, sizeof(mt_point) * m_size);
 		} else {
-- 
2.43.0


From bcb14cecfc3ca51bcc09ab4d1f4202ba236fcdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:53 +0000
Subject: [PATCH 025/195] fix: the opencv algorithm decoded rows by an
 uninitialised shift

---
 basicimg/src/img_opencv_mser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/basicimg/src/img_opencv_mser.cpp b/basicimg/src/img_opencv_mser.cpp
index 5c67687..53cb368 100644
--- a/basicimg/src/img_opencv_mser.cpp
+++ b/basicimg/src/img_opencv_mser.cpp
@@ -379,6 +379,7 @@ void img_opencv_mser::allocate_memory(const mt_mat& src, const img_mask_info<u8>
 	}
 
 	m_step_mask = width - 1;
+	m_step_gap = stepgap;
 
 	// to speedup the process, make the width to be 2^N
 	m_temp_image.create(src.size()[0] + 2, width, mt_I16C1);
-- 
2.43.0


From 9414d018e4e3c10983e2030d062201aa148a4f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:33 +0000
Subject: [PATCH 026/195] fix: the vlfeat algorithm leaked its filter, and its
 regions on every extraction

---
 basicimg/include/img_vlfeat_mser.h | 4 ++++
 basicimg/src/img_vlfeat_mser.cpp   | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/basicimg/include/img_vlfeat_mser.h b/basicimg/include/img_vlfeat_mser.h
index 3b1e251..2981f9f 100644
--- a/basicimg/include/img_vlfeat_mser.h
+++ b/basicimg/include/img_vlfeat_mser.h
@@ -13,6 +13,10 @@ namespace basicimg {
 
 		}
 
+		~img_vlfeat_mser() {
+			clear_memory_cache();
+		}
+
 	protected:
 
 		void allocate_memory(const mt_mat& src, const img_mask_info<u8>& mask);
diff --git a/basicimg/src/img_vlfeat_mser.cpp b/basicimg/src/img_vlfeat_mser.cpp
index 9f0ab70..c271529 100644
--- a/basicimg/src/img_vlfeat_mser.cpp
+++ b/basicimg/src/img_vlfeat_mser.cpp
@@ -1148,6 +1148,7 @@ void mser_new(void *&fv, int ndims, int const *dims) {
 	}
 
 	if (need_rellocate) {
+		mser_delete(f);
 		f = (MserFilt *) calloc(sizeof(MserFilt), 1);
 		fv = f;
 
@@ -1213,6 +1214,10 @@ void mser_new(void *&fv, int ndims, int const *dims) {
 		}
 	}
 
+	free(f->er);
+	free(f->mer);
+	free(f->ell);
+
 	f->er = 0;
 
 	f->rer = 0;
-- 
2.43.0


From 190e750bbb71b5fa7fe60f8f15aa3e6cc2ceb4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:48 +0000
Subject: [PATCH 027/195] fix: a copied block memory shared and freed the
 blocks of the original

---
 basicmath/include/mt_block_memory.h | 38 ++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/basicmath/include/mt_block_memory.h b/basicmath/include/mt_block_memory.h
index 470c3ac..798f537 100644
--- a/basicmath/include/mt_block_memory.h
+++ b/basicmath/include/mt_block_memory.h
@@ -79,6 +79,42 @@ namespace basicmath {
 			}
 		}
 
+		mt_block_memory(const mt_block_memory& other) {
+			default_param();
+			*this = other;
+		}
+
+		mt_block_memory& operator=(const mt_block_memory& other) {
+			if (this == &other) {
+				return *this;
+			}
+
+			clear();
+
+			if (other.m_datas.empty()) {
+				return *this;
+			}
+
+			init(other.m_block_size_2_base, other.m_use_new, other.m_resue_max_number);
+
+			for (i32 i = 0; i <= other.m_cur_block; ++i) {
+				if (i > 0) {
+					next_block();
+				}
+
+				i32 number = i == other.m_cur_block ? (i32)(other.m_cur_data - other.m_datas[i]) : m_block_size;
+
+				for (i32 j = 0; j < number; ++j) {
+					m_datas[i][j] = other.m_datas[i][j];
+				}
+			}
+
+			m_cur_data = m_datas[m_cur_block] + (other.m_cur_data - other.m_datas[other.m_cur_block]);
+			m_element_number = other.m_element_number;
+
+			return *this;
+		}
+
 		~mt_block_memory() {
 			clear();
 		}
@@ -108,7 +144,7 @@ namespace basicmath {
 		void init(i32 block_size_2_base, b8 use_new = sys_false, i32 max_reuse = 0) {
 			basiclog_assert2(block_size_2_base >= 0);
 
-			if (block_size_2_base == m_block_size_2_base && m_use_new == use_new) {
+			if (!m_datas.empty() && block_size_2_base == m_block_size_2_base && m_use_new == use_new) {
 				m_cur_block = 0;
 				m_cur_data = m_datas.front();
 				m_cur_block_end = m_cur_data + m_block_size;
-- 
2.43.0


From ee61cdd94b53ea37ece92957ea76d5668d8bedf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:48 +0000
Subject: [PATCH 028/195] fix: connected components were looked up by channel
 instead of by column, so that none was found

---
 basicimg/include/img_connected_component.h | 30 +++++++++++-----------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/basicimg/include/img_connected_component.h b/basicimg/include/img_connected_component.h
index a08f438..00bfbf4 100644
--- a/basicimg/include/img_connected_component.h
+++ b/basicimg/include/img_connected_component.h
@@ -5,7 +5,7 @@
 #define basicimg_cc_n_begin()	\
 	normal_connected_info preInfo;\
 	normal_extract_start(preInfo, image, maskInfo, connect_type, 2000);\
-	image_pixel_type* start_image_data = preInfo.m_temp_image.template ptr<image_pixel_type>(1, 1);	\
+	image_pixel_type* start_image_data = preInfo.m_temp_image.template ptr<image_pixel_type>(1, 1, 0);	\
 	image_pixel_type* image_data = start_image_data;	\
 	image_pixel_type* top_image_data;	\
 	image_pixel_type* other_image_data;	\
@@ -58,8 +58,8 @@
 #define basicimg_cc_s_begin()	\
 	normal_connected_info preInfo;	\
 	normal_extract_start(preInfo, image, maskInfo, connect_type, 1);	\
-	image_pixel_type* start_image_data = preInfo.m_temp_image.ptr<image_pixel_type>(1, 1);	\
-	image_pixel_type* image_data = preInfo.m_temp_image.template ptr<image_pixel_type>(startPoint.m_y - preInfo.m_activate_rect.m_top + 1, startPoint.m_x - preInfo.m_activate_rect.m_left + 1);	\
+	image_pixel_type* start_image_data = preInfo.m_temp_image.ptr<image_pixel_type>(1, 1, 0);	\
+	image_pixel_type* image_data = preInfo.m_temp_image.template ptr<image_pixel_type>(startPoint.m_y - preInfo.m_activate_rect.m_top + 1, startPoint.m_x - preInfo.m_activate_rect.m_left + 1, 0);	\
 	image_pixel_type* top_image_data;	\
 	image_pixel_type* other_image_data;	\
 	b8 connect_condition = false;	\
@@ -187,7 +187,7 @@ namespace basicimg {
 		virtual void normal_extract(img_multi_connected_components& ccs, const mt_mat& image, const img_mask_info<T>& maskInfo = img_mask_info<T>(), img_Connected_Type connect_type = img_Connected_Type_8_Neibour) {
 			normal_connected_info preInfo;
 			normal_extract_start(preInfo, image, maskInfo, connect_type, 2000);
-			image_pixel_type* start_image_data = preInfo.m_temp_image.template ptr<image_pixel_type>(1, 1);
+			image_pixel_type* start_image_data = preInfo.m_temp_image.template ptr<image_pixel_type>(1, 1, 0);
 			image_pixel_type* image_data = start_image_data;
 			image_pixel_type* top_image_data;
 			image_pixel_type* other_image_data;
@@ -200,7 +200,7 @@ namespace basicimg {
 
 			for (i32 row = 1; row <= preInfo.m_activate_rect.m_height; ++row) {
 				for (i32 col = 1; col <= preInfo.m_activate_rect.m_width; ++col) {
-					basiclog_assert2(image_data == preInfo.m_temp_image.template ptr<image_pixel_type>(row, col));
+					basiclog_assert2(image_data == preInfo.m_temp_image.template ptr<image_pixel_type>(row, col, 0));
 
 					if (0 == image_data->m_visit_flag) {
 						startPoint.m_x = col - 1 + preInfo.m_activate_rect.m_left;
@@ -252,9 +252,9 @@ namespace basicimg {
 		virtual void single_extract(img_connected_component& cc, const mt_point& startPoint, mt_mat& image, const img_mask_info<T>& maskInfo = img_mask_info<T>(), img_Connected_Type connect_type = img_Connected_Type_8_Neibour) {
 			normal_connected_info preInfo;
 			normal_extract_start(preInfo, image, maskInfo, connect_type, 1);
-			image_pixel_type* start_image_data = preInfo.m_temp_image.template ptr<image_pixel_type>(1, 1);
+			image_pixel_type* start_image_data = preInfo.m_temp_image.template ptr<image_pixel_type>(1, 1, 0);
 
-			image_pixel_type* image_data = preInfo.m_temp_image.template ptr<image_pixel_type>(startPoint.m_y - preInfo.m_activate_rect.m_top + 1, startPoint.m_x - preInfo.m_activate_rect.m_left + 1);
+			image_pixel_type* image_data = preInfo.m_temp_image.template ptr<image_pixel_type>(startPoint.m_y - preInfo.m_activate_rect.m_top + 1, startPoint.m_x - preInfo.m_activate_rect.m_left + 1, 0);
 			image_pixel_type* top_image_data;
 			image_pixel_type* other_image_data;
 			b8 connect_condition = false;
@@ -391,7 +391,7 @@ namespace basicimg {
 				temp_image_append_offset = (i32)preInfo.m_temp_image.step()[0] / sizeof(image_pixel_type) - preInfo.m_temp_image.size()[1];
 
 				image_pixel_type* data = (image_pixel_type*)preInfo.m_temp_image.data();
-				const T* rawData = src.ptr<T>(preInfo.m_activate_rect.m_top, preInfo.m_activate_rect.m_left);
+				const T* rawData = src.ptr<T>(preInfo.m_activate_rect.m_top, preInfo.m_activate_rect.m_left, 0);
 
 				for (i32 col = 0; col < preInfo.m_temp_image.size()[1]; ++col) {
 					data->m_visit_flag = 1;
@@ -461,8 +461,8 @@ namespace basicimg {
 					image_pixel_type* data = (image_pixel_type*)preInfo.m_temp_image.data();
 
 					//��λ��Ч��������ĵ�һ������
-					const T* rawData = src.ptr<T>(rowMin, colMin);
-					maskData = maskInfo.m_mask_image.template ptr<u8>(rowMin, colMin);
+					const T* rawData = src.ptr<T>(rowMin, colMin, 0);
+					maskData = maskInfo.m_mask_image.template ptr<u8>(rowMin, colMin, 0);
 
 					for (i32 col = 0; col < preInfo.m_temp_image.size()[1]; ++col) {
 						data->m_visit_flag = 1;
@@ -513,7 +513,7 @@ namespace basicimg {
 					for (i32 row = 0; row < src.size()[0]; ++row) {
 						for (i32 col = 0; col < src.size()[1]; ++col) {
 
-							basiclog_assert2(image_data == src.ptr<T>(row, col));	
+							basiclog_assert2(image_data == src.ptr<T>(row, col, 0));	
 
 							if (*image_data++ != maskInfo.m_mask_value) {
 								rowMax = max(rowMax, row);
@@ -546,7 +546,7 @@ namespace basicimg {
 					image_pixel_type* data = (image_pixel_type*)preInfo.m_temp_image.data();
 
 					//��λ��Ч��������ĵ�һ������
-					const T* rawData = src.ptr<T>(rowMin, colMin);
+					const T* rawData = src.ptr<T>(rowMin, colMin, 0);
 
 					for (i32 col = 0; col < preInfo.m_temp_image.size()[1]; ++col) {
 						data->m_visit_flag = 1;
@@ -556,7 +556,7 @@ namespace basicimg {
 					data += temp_image_append_offset;
 
 					for (i32 row = 1; row <= preInfo.m_activate_rect.m_height; ++row) {
-						basiclog_assert2(data == preInfo.m_temp_image.template ptr<image_pixel_type>(row, 0));
+						basiclog_assert2(data == preInfo.m_temp_image.template ptr<image_pixel_type>(row, 0, 0));
 
 						data->m_visit_flag = 1;
 						++data;
@@ -564,8 +564,8 @@ namespace basicimg {
 						i32 col = 1;
 						for (; col <= preInfo.m_activate_rect.m_width; ++col) {
 
-							basiclog_assert2(rawData == src.ptr<T>(row - 1 + rowMin, col - 1 + colMin));
-							basiclog_assert2(data == preInfo.m_temp_image.template ptr<image_pixel_type>(row, col));
+							basiclog_assert2(rawData == src.ptr<T>(row - 1 + rowMin, col - 1 + colMin, 0));
+							basiclog_assert2(data == preInfo.m_temp_image.template ptr<image_pixel_type>(row, col, 0));
 
 							if (*rawData != maskInfo.m_mask_value) {
 								data->m_visit_flag = 0;
-- 
2.43.0


From 2a0648dbcbc52d14ce8cfc21a4efc74d538a037e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:09 +0000
Subject: [PATCH 029/195] fix: the number of cached points of connected
 components started uninitialised

---
 basicimg/include/img_connected_component.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/basicimg/include/img_connected_component.h b/basicimg/include/img_connected_component.h
index 00bfbf4..faaee3d 100644
--- a/basicimg/include/img_connected_component.h
+++ b/basicimg/include/img_connected_component.h
@@ -602,6 +602,7 @@ namespace basicimg {
 			preInfo.m_row_step = (i32)preInfo.m_temp_image.step()[0] / sizeof(image_pixel_type) - preInfo.m_activate_rect.m_width;
 			preInfo.m_stack_helper = new image_pixel_type*[area];
 			preInfo.m_stack_top_index = -1;
+			preInfo.m_cache_point_index = 0;
 			preInfo.m_cache_points = new mt_point[area];
 		}
 
-- 
2.43.0


From afdca6a2933d9ade48b5089f13966526e8f43519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:42 +0000
Subject: [PATCH 030/195] fix: connected components of an image mask ran over
 the bottom border and stepped the mask by the image's rows

---
 basicimg/include/img_connected_component.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/basicimg/include/img_connected_component.h b/basicimg/include/img_connected_component.h
index faaee3d..f3ef8d5 100644
--- a/basicimg/include/img_connected_component.h
+++ b/basicimg/include/img_connected_component.h
@@ -497,9 +497,14 @@ namespace basicimg {
 						data->m_visit_flag = 1;
 						++data;
 						data += temp_image_append_offset;
-						maskData += rawImageAppendOffset;
+						maskData += (i32)maskInfo.m_mask_image.step()[0] - targetImageSize.m_width;
 						rawData += rawImageAppendOffset;
 					}
+
+					for (i32 col = 0; col < preInfo.m_temp_image.size()[1]; ++col) {
+						data->m_visit_flag = 1;
+						++data;
+					}
 				} else if (img_Mask_Type_Value == maskInfo.m_mask_type) {
 					i32 srcByteOffset = (i32)src.step()[0] / sizeof(T) - src.size()[1];
 
-- 
2.43.0


From 83f50a56093847df3226f4e023e97904dcad7583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:54 +0000
Subject: [PATCH 031/195] fix: extracting a single connected component released
 its points wrongly and dropped the result

---
 basicimg/include/img_connected_component.h | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/basicimg/include/img_connected_component.h b/basicimg/include/img_connected_component.h
index f3ef8d5..49ee90b 100644
--- a/basicimg/include/img_connected_component.h
+++ b/basicimg/include/img_connected_component.h
@@ -93,7 +93,7 @@
 	}	\
 	currentRegion->m_y = preInfo.m_cache_point_index;	\
 	single_extract_stop(cc, preInfo);\
-	delete preInfo.m_cache_points;
+	delete[] preInfo.m_cache_points;
 
 namespace basicimg {
 	class img_connected_component {
@@ -266,7 +266,7 @@ namespace basicimg {
 			currentRegion = &preInfo.m_regions.back();
 			image_data->m_visit_flag = 1;
 			currentRegion->m_x = preInfo.m_cache_point_index;
-			*preInfo.m_cache_points++ = startPoint;
+			preInfo.m_cache_points[preInfo.m_cache_point_index++] = startPoint;
 
 			preInfo.m_stack_helper[++preInfo.m_stack_top_index] = image_data;
 
@@ -288,14 +288,14 @@ namespace basicimg {
 						offset = (i32)(other_image_data - start_image_data);
 						offset_y = offset / preInfo.m_temp_image.size()[1];	
 						offset_x = offset - offset_y * preInfo.m_temp_image.size()[1];	
-						*preInfo.m_cache_points++ = mt_point(offset_x + preInfo.m_activate_rect.m_left, offset_y + preInfo.m_activate_rect.m_top);	
+						preInfo.m_cache_points[preInfo.m_cache_point_index++] = mt_point(offset_x + preInfo.m_activate_rect.m_left, offset_y + preInfo.m_activate_rect.m_top);	
 					}
 				}
 			}
 
 			currentRegion->m_y = preInfo.m_cache_point_index;
 			single_extract_stop(cc, preInfo);
-			delete preInfo.m_cache_points;
+			delete[] preInfo.m_cache_points;
 		}
 
 		virtual void ture_normal_extract(img_multi_connected_components& ccs, const mt_mat& image, const img_mask_info<T>& maskInfo = img_mask_info<T>(), img_Connected_Type connect_type = img_Connected_Type_8_Neibour) {
@@ -304,7 +304,7 @@ namespace basicimg {
 			basicimg_cc_n_end();
 		}
 
-		virtual void ture_single_extract(img_connected_component cc, const mt_point& startPoint, const mt_mat& image, const img_mask_info<T>& maskInfo /* = MaskInfo<T>() */, img_Connected_Type connect_type /* = img_Connected_Type_8_Neibour */) {
+		virtual void ture_single_extract(img_connected_component& cc, const mt_point& startPoint, const mt_mat& image, const img_mask_info<T>& maskInfo /* = MaskInfo<T>() */, img_Connected_Type connect_type /* = img_Connected_Type_8_Neibour */) {
 			basicimg_cc_s_begin();
 			connect_condition = true;
 			basicimg_cc_s_end();
@@ -642,9 +642,8 @@ namespace basicimg {
 		}
 
 		void single_extract_stop(img_connected_component& cc, normal_connected_info& preInfo) {
-			cc.m_share_memory = sys_false;
-			cc.m_size = preInfo.m_regions[0].m_y - preInfo.m_regions[0].m_x;
-			cc.m_points = new mt_point[cc.m_size];
+			cc.init(preInfo.m_regions[0].m_y - preInfo.m_regions[0].m_x);
+			cc.m_rect = mt_rect();
 
 			for (i32 j = preInfo.m_regions[0].m_x, k = 0; j < preInfo.m_regions[0].m_y; ++j, ++k) {
 				cc.m_points[k] = preInfo.m_cache_points[j];
-- 
2.43.0


From 857803285fcbb7fa4b3f71a53f21043b1a82a0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:10 +0000
Subject: [PATCH 032/195] fix: a copied set of connected components shared and
 released the points of the original

---
 basicimg/include/img_connected_component.h | 28 ++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/basicimg/include/img_connected_component.h b/basicimg/include/img_connected_component.h
index 49ee90b..a1df472 100644
--- a/basicimg/include/img_connected_component.h
+++ b/basicimg/include/img_connected_component.h
@@ -126,6 +126,34 @@ namespace basicimg {
 			m_cache_points = NULL;
 		}
 
+		img_multi_connected_components(const img_multi_connected_components& other) {
+			m_cache_points = NULL;
+			*this = other;
+		}
+
+		img_multi_connected_components& operator = (const img_multi_connected_components& other) {
+			if (this == &other) {
+				return *this;
+			}
+
+			m_ccs = other.m_ccs;
+			basicsys_delete_array(m_cache_points);
+
+			// the points of the other's components belong to the other
+			for (i32 i = 0; i < (i32)m_ccs.size(); ++i) {
+				if (m_ccs[i].m_share_memory) {
+					const mt_point* points = m_ccs[i].m_points;
+					m_ccs[i].init(m_ccs[i].m_size);
+
+					for (i32 j = 0; j < m_ccs[i].m_size; ++j) {
+						m_ccs[i].m_points[j] = points[j];
+					}
+				}
+			}
+
+			return *this;
+		}
+
 		~img_multi_connected_components() {
 			basicsys_delete_array(m_cache_points);
 		}
-- 
2.43.0


From da0fed477bf7813121f7652ea0117735535eebf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:10 +0000
Subject: [PATCH 033/195] fix: drawing connected components by value ignored
 the choice of gray or color

---
 basicimg/src/img_connected_component.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicimg/src/img_connected_component.cpp b/basicimg/src/img_connected_component.cpp
index 98faa1a..41ec835 100644
--- a/basicimg/src/img_connected_component.cpp
+++ b/basicimg/src/img_connected_component.cpp
@@ -102,7 +102,7 @@ mt_mat img_connected_component_helper::image_from_connected_component(const vect
 	vector<img_connected_component*> cc_pointers;
 	mt_helper::pointer_from_instance(cc_pointers, ccs);
 
-	return image_from_connected_component(cc_pointers, roi, forground_color, background_color);
+	return image_from_connected_component(cc_pointers, roi, forground_color, background_color, gray);
 }
 
 mt_mat img_connected_component_helper::image_from_connected_component(const vector<img_connected_component*>& ccs, const mt_rect& roi, const mt_scalar& forground_color /* = img_Color_Black */, const mt_scalar& background_color /* = img_Color_White */, b8 gray) {
-- 
2.43.0


From 831eba46523b2c8b18d2980d754221db4444e6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:20 +0000
Subject: [PATCH 034/195] fix: opencv3 laid out its heaps for the wrong
 polarity when only regions from the maximum are enabled

---
 basicimg/src/img_opencv3_mser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicimg/src/img_opencv3_mser.cpp b/basicimg/src/img_opencv3_mser.cpp
index d82d04d..8e6017b 100644
--- a/basicimg/src/img_opencv3_mser.cpp
+++ b/basicimg/src/img_opencv3_mser.cpp
@@ -387,7 +387,7 @@ void img_opencv3_mser::preprocess( const mt_mat& img, int* level_size, u8 mask)
 			pptr[0] = pptr[cols-1] = borderpix;
 			for( j = 1; j < cols-1; j++ )
 			{
-				int val = imgptr[j];
+				int val = imgptr[j] ^ mask;
 				level_size[val]++;
 				pptr[j].val = 0;
 			}
-- 
2.43.0


From 8d1e92b4140737215879513041791c52604aa571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:29 +0000
Subject: [PATCH 035/195] fix: ms laid out its heaps for the wrong polarity
 when only regions from the maximum are enabled

---
 basicimg/src/img_ms_mser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicimg/src/img_ms_mser.cpp b/basicimg/src/img_ms_mser.cpp
index 3ae5dee..ae36068 100644
--- a/basicimg/src/img_ms_mser.cpp
+++ b/basicimg/src/img_ms_mser.cpp
@@ -176,7 +176,7 @@ void img_ms_mser::pre_process_image(const mt_mat& img, const img_mask_info<u8>&
 				img_data = img.ptr<u8>(row, 0);
 
 				for (col = 0; col < width; ++col) {
-					m_level_size[*img_data]++;
+					m_level_size[*img_data ^ gray_mask]++;
 					*extended_image_data++ = *img_data++;
 					*points++ = 0;
 				}
-- 
2.43.0


From 013c0885d880328297b1310b86be7c5fa74cb5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:29 +0000
Subject: [PATCH 036/195] fix: V2 laid out its heaps for the wrong polarity
 when only regions from the maximum are enabled

---
 basicimg/src/img_fast_mser_v2.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicimg/src/img_fast_mser_v2.cpp b/basicimg/src/img_fast_mser_v2.cpp
index d724e10..d1ee2bb 100644
--- a/basicimg/src/img_fast_mser_v2.cpp
+++ b/basicimg/src/img_fast_mser_v2.cpp
@@ -433,7 +433,7 @@ void img_fast_mser_v2::process_tree_patch(parallel_info& pinfo, const mt_mat& im
 				*points++ = m_boundary_pixel;
 
 				for (col = 0; col < pinfo.m_width; ++col) {
-					level_size[*img_data]++;
+					level_size[*img_data ^ gray_mask]++;
 					*extended_image_data++ = *img_data++;
 					*points++ = 0;
 				}
-- 
2.43.0


From 5282ce432324403b3edcf6df1c0035824ca7c3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:56 +0000
Subject: [PATCH 037/195] fix: idiap converted areas out of the range of an int
 for a duplicated variation of 1 or more

---
 basicimg/src/img_idiap_mser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicimg/src/img_idiap_mser.cpp b/basicimg/src/img_idiap_mser.cpp
index 91d564a..960f602 100644
--- a/basicimg/src/img_idiap_mser.cpp
+++ b/basicimg/src/img_idiap_mser.cpp
@@ -169,7 +169,7 @@ void img_idiap_mser::mser_region::save(f32 minDiversity, f32 nms_similarity, vec
 
 	if (stable_) {
 
-		int minParentArea = minDiversity < 0 ? area_ : (i32)(area_ / (1.0 - minDiversity) + 0.5);
+		int minParentArea = minDiversity < 0 ? area_ : (minDiversity >= 1 ? INT_MAX : (i32)min(area_ / (1.0 - minDiversity) + 0.5, (f64)INT_MAX));
 
 		const mser_region * parent = this;
 
@@ -191,7 +191,7 @@ void img_idiap_mser::mser_region::save(f32 minDiversity, f32 nms_similarity, vec
 
 		if (stable_) {
 
-			int maxChildArea = minDiversity < 0 ? area_ : (i32)(area_ * (1.0 - minDiversity) + 0.5);
+			int maxChildArea = minDiversity < 0 ? area_ : (minDiversity >= 1 ? 0 : (i32)(area_ * (1.0 - minDiversity) + 0.5));
 
 
 
-- 
2.43.0


From 5604bcf9bbcfb1c8341b1553cd7ba9ab0f531a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:56 +0000
Subject: [PATCH 038/195] fix: opencv3 read past an image without interior
 pixels

---
 basicimg/src/img_opencv3_mser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/basicimg/src/img_opencv3_mser.cpp b/basicimg/src/img_opencv3_mser.cpp
index 8e6017b..bdd5c42 100644
--- a/basicimg/src/img_opencv3_mser.cpp
+++ b/basicimg/src/img_opencv3_mser.cpp
@@ -245,6 +245,11 @@ void img_opencv3_mser::recognize_mser() {
 void img_opencv3_mser::extract_pixel(img_multi_msers& msers, u8 gray_mask) {
 	//basiclog_assert2(m_delta > 0);
 
+	if (m_tempsrc.size()[0] < 3 || m_tempsrc.size()[1] < 3) {
+		// the outermost pixels are left out, so that no pixel remains
+		return;
+	}
+
 	preprocess(m_tempsrc, m_level_size, gray_mask);
 
 	CompHistory* histptr = &m_histbuf[0];
-- 
2.43.0


From 61fe263bc5085327702ed87da6bb46285a7327eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:56 +0000
Subject: [PATCH 039/195] fix: the parallel algorithms failed on an image with
 fewer columns or rows than partitions

---
 basicimg/src/img_mser_base.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/basicimg/src/img_mser_base.cpp b/basicimg/src/img_mser_base.cpp
index 1f4062f..93d0aa6 100644
--- a/basicimg/src/img_mser_base.cpp
+++ b/basicimg/src/img_mser_base.cpp
@@ -99,6 +99,15 @@ void img_mser_base::extract(img_multi_msers& res, const mt_mat& gray_src, const
 
 	res = img_multi_msers();
 
+	// every partition of the parallel algorithms needs a pixel
+	i32 thread_number = m_parallel_thread_number;
+	i32 horizontal_partition_number = thread_number >= 32 ? 8 : thread_number >= 8 ? 4 : thread_number >= 2 ? 2 : 1;
+	i32 vertical_partition_number = thread_number >= 16 ? 4 : thread_number >= 4 ? 2 : 1;
+
+	if (gray_src.size()[1] < horizontal_partition_number || gray_src.size()[0] < vertical_partition_number) {
+		m_parallel_thread_number = 1;
+	}
+
 	m_channel_total_running_memory = 0;
 
 	i64 tick = sys_timer::get_tick_cout();
@@ -126,6 +135,8 @@ void img_mser_base::extract(img_multi_msers& res, const mt_mat& gray_src, const
 		}
 	}
 
+	m_parallel_thread_number = thread_number;
+
 	sys_alg_analyzer::max_("running_memory", m_channel_total_running_memory / 1024 / 1024);
 
 	sys_alg_analyzer::add("mser_number", res.m_msers[0].size() + res.m_msers[1].size());
-- 
2.43.0


From be1742892673273c531328f97f7f2ecf0a2755f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:56 +0000
Subject: [PATCH 040/195] fix: vlfeat connected diagonal pixels of an image two
 columns wide with 4-connectivity

---
 basicimg/src/img_vlfeat_mser.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/basicimg/src/img_vlfeat_mser.cpp b/basicimg/src/img_vlfeat_mser.cpp
index c271529..2347c87 100644
--- a/basicimg/src/img_vlfeat_mser.cpp
+++ b/basicimg/src/img_vlfeat_mser.cpp
@@ -1583,8 +1583,12 @@ mser_process(MserFilt *f, unsigned char const *im) {
 			b8 valid_neibour = sys_true;
 
 			if (f->connect_type == img_Connected_Type_4_Neibour) {
-				i32 n_offset = abs((i32)n_idx - (i32)idx);
-				if (n_offset != 1 && n_offset % dims[0] != 0) {
+				i32 moved_dims = 0;
+
+				for (i32 d = 0; d < ndims; ++d) {
+					moved_dims += dsubs[d] != 0;
+				}
+				if (moved_dims > 1) {
 					valid_neibour = sys_false;
 				}
 			}
-- 
2.43.0


From 35246b2ff2f5db1222cd592c3998878853e96fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:33 +0000
Subject: [PATCH 041/195] fix: V1, V2 and ms overran the stack of components on
 an image that descends through all levels

---
 basicimg/include/img_fast_mser_v1.h | 2 +-
 basicimg/include/img_fast_mser_v2.h | 2 +-
 basicimg/include/img_ms_mser.h      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/basicimg/include/img_fast_mser_v1.h b/basicimg/include/img_fast_mser_v1.h
index 200b279..00bbd61 100644
--- a/basicimg/include/img_fast_mser_v1.h
+++ b/basicimg/include/img_fast_mser_v1.h
@@ -108,7 +108,7 @@ namespace basicimg {
 			mt_block_memory<mser_region> m_mser_regions;
 
 			i16** m_heap;
-			connected_comp m_comp[256];
+			connected_comp m_comp[257];
 			i16** m_heap_start[257];
 
 			mser_region** m_boundary_regions[4];	//left, right, top, bottom
diff --git a/basicimg/include/img_fast_mser_v2.h b/basicimg/include/img_fast_mser_v2.h
index 1798e77..d854669 100644
--- a/basicimg/include/img_fast_mser_v2.h
+++ b/basicimg/include/img_fast_mser_v2.h
@@ -80,7 +80,7 @@ namespace basicimg {
 			i32 m_er_number;
 			mt_block_memory<mser_region> m_mser_regions;
 			u32** m_heap;
-			connected_comp m_comp[256];
+			connected_comp m_comp[257];
 			u32** m_heap_start[257];
 
 			i32 m_dir[9];
diff --git a/basicimg/include/img_ms_mser.h b/basicimg/include/img_ms_mser.h
index 93ed626..86c7526 100644
--- a/basicimg/include/img_ms_mser.h
+++ b/basicimg/include/img_ms_mser.h
@@ -100,7 +100,7 @@ namespace basicimg {
 		u32 m_heap_size;
 		u32** m_heap_start[257];
 
-		connected_comp m_comp[256];
+		connected_comp m_comp[257];
 
 		mser_region** m_gray_order_regions;
 		u32 m_gray_order_regions_memory_size;
-- 
2.43.0


From 32bb79f7092a88015e17c9a8565cf6f3afadd8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:58 +0000
Subject: [PATCH 042/195] fix: the parallel recognition read parents and flags
 that other threads were writing

---
 basicimg/include/img_fast_mser_v1.h | 13 ++++--
 basicimg/include/img_fast_mser_v2.h | 14 +++---
 basicimg/src/img_fast_mser_v1.cpp   | 56 ++++++++++------------
 basicimg/src/img_fast_mser_v2.cpp   | 72 ++++++++++++++---------------
 4 files changed, 76 insertions(+), 79 deletions(-)

diff --git a/basicimg/include/img_fast_mser_v1.h b/basicimg/include/img_fast_mser_v1.h
index 00bbd61..78ef7d4 100644
--- a/basicimg/include/img_fast_mser_v1.h
+++ b/basicimg/include/img_fast_mser_v1.h
@@ -41,11 +41,13 @@ namespace basicimg {
 				Gray_Mask = 0x000003ff,
 			};
 
-			u32 m_region_flag : 2;
-			u32 m_gray_level : 8;
-			u32 m_calculated_var : 1;
-			u32 m_boundary_region : 1;
-			u32 m_patch_index : 8;
+			// The gray level and the patch index are read by other threads than the one that writes the flags,
+			// so they must not be bit-fields of the same word.
+			u8 m_gray_level;
+			u8 m_patch_index;
+			u8 m_region_flag;
+			u8 m_calculated_var : 1;
+			u8 m_boundary_region : 1;
 
 			union
 			{
@@ -206,6 +208,7 @@ namespace basicimg {
 
 		void recognize_mser_parallel();
 
+		void resolve_parent_parallel_worker(i32 parallel_index);
 		void recognize_mser_parallel_worker(i32 parallel_index);
 		
 		void disconnect(mser_region* r);
diff --git a/basicimg/include/img_fast_mser_v2.h b/basicimg/include/img_fast_mser_v2.h
index d854669..c90e3e2 100644
--- a/basicimg/include/img_fast_mser_v2.h
+++ b/basicimg/include/img_fast_mser_v2.h
@@ -30,11 +30,13 @@ namespace basicimg {
 				Gray_Mask = 0x000003ff,
 			};
 
-			u32 m_gray_level : 8;
-			u32 m_region_flag : 2;
-			u32 m_calculated_var : 1;
-			u32 m_assigned_pointer : 1;
-			u32 m_patch_index : 8;
+			// The gray level and the patch index are read by other threads than the one that writes the flags,
+			// so they must not be bit-fields of the same word.
+			u8 m_gray_level;
+			u8 m_patch_index;
+			u8 m_region_flag;
+			u8 m_calculated_var : 1;
+			u8 m_assigned_pointer : 1;
 					
 			union {
 				i32 m_size;
@@ -111,7 +113,6 @@ namespace basicimg {
 		u32 m_gray_order_region_size;
 		u32 m_exceed_times;
 
-		i32 m_merged_number;	//for debug
 
 		vector<mser_region*> m_remove_duplicated_memory_helper;
 		vector<mser_region*> m_merged_regions;
@@ -151,6 +152,7 @@ namespace basicimg {
 
 		void recognize_mser_serial();
 		void recognize_mser_parallel();
+		void resolve_parent_parallel_worker(i32 parallel_index);
 		void recognize_mser_parallel_worker(i32 parallel_index);
 
 		void recognize_mser_parallel_4_acceleration();
diff --git a/basicimg/src/img_fast_mser_v1.cpp b/basicimg/src/img_fast_mser_v1.cpp
index ae85168..1f629a0 100644
--- a/basicimg/src/img_fast_mser_v1.cpp
+++ b/basicimg/src/img_fast_mser_v1.cpp
@@ -2437,30 +2437,16 @@ void img_fast_mser_v1::recognize_mser_parallel() {
 	i32 nms_count = 0;
 
 	if (m_parallel_thread_number == 1) {
+		resolve_parent_parallel_worker(0);
 		recognize_mser_parallel_worker(0);
-	
-	} else if (m_parallel_thread_number == 2) {
-#pragma omp parallel for num_threads(2)
-		for (i32 i = 0; i < m_parallel_thread_number; ++i) {
-			recognize_mser_parallel_worker(i);
-		}
-	} else if (m_parallel_thread_number == 4) {
-#pragma omp parallel for num_threads(4)
-		for (i32 i = 0; i < m_parallel_thread_number; ++i) {
-			recognize_mser_parallel_worker(i);
-		}
-	} else if (m_parallel_thread_number == 8) {
-#pragma omp parallel for num_threads(8)
-		for (i32 i = 0; i < m_parallel_thread_number; ++i) {
-			recognize_mser_parallel_worker(i);
-		}
-	} else if (m_parallel_thread_number == 16) {
-#pragma omp parallel for num_threads(16)
+	} else {
+		// A worker reads the regions of the other patches, so all the parents must be settled before the recognition
+#pragma omp parallel for num_threads(m_parallel_thread_number)
 		for (i32 i = 0; i < m_parallel_thread_number; ++i) {
-			recognize_mser_parallel_worker(i);
+			resolve_parent_parallel_worker(i);
 		}
-	} else if (m_parallel_thread_number == 32) {
-#pragma omp parallel for num_threads(32)
+
+#pragma omp parallel for num_threads(m_parallel_thread_number)
 		for (i32 i = 0; i < m_parallel_thread_number; ++i) {
 			recognize_mser_parallel_worker(i);
 		}
@@ -2610,10 +2596,24 @@ void img_fast_mser_v1::recognize_mser_parallel() {
 	basiclog_info2(sys_strcombine()<<"m_gray_order_region_size: "<<m_gray_order_region_size);
 }
 
+void img_fast_mser_v1::resolve_parent_parallel_worker(i32 parallel_index) {
+	mser_region* parent_region;
+
+	mt_block_memory<mser_region>::block_pos bp;
+
+	for (;;) {
+		basicmath_block_memory_visit(m_pinfo[parallel_index].m_mser_regions, bp);
+
+		// Merged regions are read by all the workers and stay as they are
+		if (bp.m_data->m_region_flag != mser_region::Flag_Merged) {
+			get_set_real_parent_for_merged(bp.m_data, parent_region);
+		}
+	}
+}
+
 void img_fast_mser_v1::recognize_mser_parallel_worker(i32 parallel_index) {
 	mser_region* parent_region;
 	mser_region* start_region;
-	mser_region* temp_region;
 
 	mt_block_memory<mser_region>::block_pos bp;
 
@@ -2629,19 +2629,11 @@ void img_fast_mser_v1::recognize_mser_parallel_worker(i32 parallel_index) {
 
 			gray_level_threshold = bp.m_data->m_gray_level + m_delta;
 			start_region = bp.m_data;
-			get_set_real_parent_for_merged(start_region, parent_region);
+			parent_region = start_region->m_parent;
 
 			while (parent_region != NULL && (i32)parent_region->m_gray_level <= gray_level_threshold) {
-				basiclog_assert2(parent_region->m_region_flag != mser_region::Flag_Merged);
-
 				start_region = parent_region;
-				if (parent_region->m_patch_index == parallel_index) {
-					get_set_real_parent_for_merged(parent_region, temp_region);
-				} else {
-					get_real_parent_for_merged(parent_region, temp_region);
-				}
-
-				parent_region = temp_region;
+				parent_region = start_region->m_parent;
 			}
 
 			if (parent_region != NULL || start_region->m_gray_level == gray_level_threshold) {
diff --git a/basicimg/src/img_fast_mser_v2.cpp b/basicimg/src/img_fast_mser_v2.cpp
index d1ee2bb..d4f5448 100644
--- a/basicimg/src/img_fast_mser_v2.cpp
+++ b/basicimg/src/img_fast_mser_v2.cpp
@@ -27,7 +27,6 @@ img_fast_mser_v2::img_fast_mser_v2()
 	m_gray_order_regions_memory_size = 0;
 
 	m_exceed_times = 0;
-	m_merged_number = 0;
 }
 
 img_fast_mser_v2::~img_fast_mser_v2() {
@@ -636,7 +635,6 @@ void img_fast_mser_v2::connect(mser_region* bigger, mser_region* smaller) {
 		} else {
 			if (bigger->m_gray_level == smaller->m_gray_level) {
 				smaller->m_region_flag = mser_region::Flag_Merged;
-				m_merged_number += 1;
 			}
 
 			temp_pixel_size = smaller->m_size + pixel_size;
@@ -858,16 +856,15 @@ void img_fast_mser_v2::recognize_mser_parallel() {
 	i32 tn = 0;
 	i32 nms_count = 0;
 
-	if (m_parallel_thread_number == 4) {
-#pragma omp parallel for num_threads(4)
-		for (i32 i = 0; i < 4; ++i) {
-			recognize_mser_parallel_worker(i);
-		}
-	} else if (m_parallel_thread_number == 32) {
-#pragma omp parallel for num_threads(32)
-		for (i32 i = 0; i < 32; ++i) {
-			recognize_mser_parallel_worker(i);
-		}
+	// A worker reads the regions of the other patches, so all the parents must be settled before the recognition
+#pragma omp parallel for num_threads(m_parallel_thread_number)
+	for (i32 i = 0; i < m_parallel_thread_number; ++i) {
+		resolve_parent_parallel_worker(i);
+	}
+
+#pragma omp parallel for num_threads(m_parallel_thread_number)
+	for (i32 i = 0; i < m_parallel_thread_number; ++i) {
+		recognize_mser_parallel_worker(i);
 	}
 	
 	mser_region* parent_region;
@@ -1017,10 +1014,24 @@ void img_fast_mser_v2::recognize_mser_parallel() {
 	basiclog_info2(sys_strcombine()<<"m_gray_order_region_size: "<<m_gray_order_region_size);
 }
 
+void img_fast_mser_v2::resolve_parent_parallel_worker(i32 parallel_index) {
+	mser_region* parent_region;
+
+	mt_block_memory<mser_region>::block_pos bp;
+
+	for (;;) {
+		basicmath_block_memory_visit(m_pinfo[parallel_index].m_mser_regions, bp);
+
+		// Merged regions are read by all the workers and stay as they are
+		if (bp.m_data->m_region_flag != mser_region::Flag_Merged) {
+			get_set_real_parent_for_merged(bp.m_data, parent_region);
+		}
+	}
+}
+
 void img_fast_mser_v2::recognize_mser_parallel_worker(i32 parallel_index) {
 	mser_region* parent_region;
 	mser_region* start_region;
-	mser_region* temp_region;
 	i32 gray_level_threshold;
 
 	mt_block_memory<mser_region>::block_pos bp;
@@ -1033,19 +1044,11 @@ void img_fast_mser_v2::recognize_mser_parallel_worker(i32 parallel_index) {
 
 			gray_level_threshold = bp.m_data->m_gray_level + m_delta;
 			start_region = bp.m_data;
-			get_set_real_parent_for_merged(start_region, parent_region);
+			parent_region = start_region->m_parent;
 
 			while (parent_region != NULL && (i32)parent_region->m_gray_level <= gray_level_threshold) {
-				basiclog_assert2(parent_region->m_region_flag != mser_region::Flag_Merged);
-
 				start_region = parent_region;
-				if (parent_region->m_patch_index == parallel_index) {
-					get_set_real_parent_for_merged(parent_region, temp_region);
-				} else {
-					get_real_parent_for_merged(parent_region, temp_region);
-				}
-
-				parent_region = temp_region;
+				parent_region = start_region->m_parent;
 			}
 
 			if (parent_region != NULL || start_region->m_gray_level == gray_level_threshold) {
@@ -1073,11 +1076,16 @@ void img_fast_mser_v2::recognize_mser_parallel_4_acceleration() {
 	u32 global_region_level_sizes[4][257];
 	u32** raw_heap_start[4] = {m_pinfo[0].m_heap, m_pinfo[1].m_heap, m_pinfo[2].m_heap, m_pinfo[3].m_heap};
 
+	// A worker reads the regions of the other patches, so all the parents must be settled before the recognition
+#pragma omp parallel for num_threads(4)
+	for (i32 i = 0; i < 4; ++i) {
+		resolve_parent_parallel_worker(i);
+	}
+
 #pragma omp parallel for num_threads(4)
 	for (i32 i = 0; i < 4; ++i) {
 		mser_region* parent_region;
 		mser_region* start_region;
-		mser_region* temp_region;
 		i32 gray_level_threshold;
 
 
@@ -1095,19 +1103,11 @@ void img_fast_mser_v2::recognize_mser_parallel_4_acceleration() {
 
 				gray_level_threshold = bp.m_data->m_gray_level + m_delta;
 				start_region = bp.m_data;
-				get_set_real_parent_for_merged(start_region, parent_region);
+				parent_region = start_region->m_parent;
 
 				while (parent_region != NULL && (i32)parent_region->m_gray_level <= gray_level_threshold) {
-					basiclog_assert2(parent_region->m_region_flag != mser_region::Flag_Merged);
-
 					start_region = parent_region;
-					if (parent_region->m_patch_index == i) {
-						get_set_real_parent_for_merged(parent_region, temp_region);
-					} else {
-						get_real_parent_for_merged(parent_region, temp_region);
-					}
-
-					parent_region = temp_region;
+					parent_region = start_region->m_parent;
 				}
 
 				if (parent_region != NULL || start_region->m_gray_level == gray_level_threshold) {
@@ -1144,8 +1144,6 @@ void img_fast_mser_v2::recognize_mser_parallel_4_acceleration() {
 				continue;
 			}
 			
-			basiclog_assert2(parent_region->m_region_flag != mser_region::Flag_Merged);
-
 			// if parent is in other block, and it needs to nms
 			if (parent_region->m_patch_index != i) {
 
@@ -1156,6 +1154,8 @@ void img_fast_mser_v2::recognize_mser_parallel_4_acceleration() {
 				continue;
 			}
 
+			basiclog_assert2(parent_region->m_region_flag != mser_region::Flag_Merged);
+
 			if (m_nms_similarity < 0 || bp2.m_data->m_var < 0) {
 				continue;
 			}
-- 
2.43.0


From 2e2e66d7e8e189c2c156a2eac511242b001534f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:10 +0000
Subject: [PATCH 043/195] fix: the original algorithm looked for the unmasked
 rectangle of a value mask without stepping over the rows of a larger image

---
 basicimg/src/img_origin_mser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/basicimg/src/img_origin_mser.cpp b/basicimg/src/img_origin_mser.cpp
index 7769045..ec3c782 100644
--- a/basicimg/src/img_origin_mser.cpp
+++ b/basicimg/src/img_origin_mser.cpp
@@ -557,6 +557,8 @@ void img_original_mser::allocate_memory(const mt_mat& image, const img_mask_info
 						colMin = min(colMin, col);
 					}
 				}
+
+				imageData += image.step()[0] - image.size()[1];
 			}
 
 			mt_size targetImageSize(colMax - colMin + 1, rowMax - rowMin + 1);
-- 
2.43.0


From 0eebbe39123d54d51e673b739c2fd3342951993c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:21 +0000
Subject: [PATCH 044/195] fix: the original algorithm failed on an image whose
 pixels are all masked

---
 basicimg/src/img_origin_mser.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/basicimg/src/img_origin_mser.cpp b/basicimg/src/img_origin_mser.cpp
index ec3c782..65beb01 100644
--- a/basicimg/src/img_origin_mser.cpp
+++ b/basicimg/src/img_origin_mser.cpp
@@ -506,6 +506,14 @@ void img_original_mser::allocate_memory(const mt_mat& image, const img_mask_info
 				maskData += mask_append_offset;
 			}
 
+			if (rowMax < rowMin) {
+				// all the pixels are masked
+				rowMin = 0;
+				colMin = 0;
+				rowMax = -1;
+				colMax = -1;
+			}
+
 			mt_size targetImageSize(colMax - colMin + 1, rowMax - rowMin + 1);
 			activate_rect.set_rect(mt_point(colMin, rowMin), targetImageSize);
 
@@ -561,6 +569,14 @@ void img_original_mser::allocate_memory(const mt_mat& image, const img_mask_info
 				imageData += image.step()[0] - image.size()[1];
 			}
 
+			if (rowMax < rowMin) {
+				// all the pixels are masked
+				rowMin = 0;
+				colMin = 0;
+				rowMax = -1;
+				colMax = -1;
+			}
+
 			mt_size targetImageSize(colMax - colMin + 1, rowMax - rowMin + 1);
 			activate_rect.set_rect(mt_point(colMin, rowMin), targetImageSize);
 
-- 
2.43.0


From 03dfd9e4d2b6c043cb08706d80a9db87cdb8246c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:06 +0000
Subject: [PATCH 045/195] fix: matrices of more than four dimensions were given
 no or too little memory for their sizes and steps

---
 basicmath/src/mt_mat.cpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index 7c6de64..efe0bc4 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -1113,7 +1113,7 @@ mt_mat::mt_mat(i32 dims, const i32* sizes, mt_Depth_Channel depth_channel, u8* d
 
 		if (m_dims > 4) {
 			m_dynamic_size_step_size = m_dims;
-			m_dynamic_size_steps = new int[m_dynamic_size_step_size * 2];
+			m_dynamic_size_steps = (i32*)malloc(sizeof(i32) * (m_dynamic_size_step_size * 2));
 		}
 
 		for (int i = 0; i < dims; ++i) {
@@ -2076,6 +2076,7 @@ void mt_mat::operator =(const mt_mat& other) {
 		}
 
 		m_dynamic_size_step_size = other.m_dims;
+		m_dynamic_size_steps = (i32*)malloc(sizeof(i32) * (m_dynamic_size_step_size * 2));
 	}
 
 	m_dims = other.m_dims;
@@ -2236,9 +2237,9 @@ mt_mat mt_mat::reshape(int dims, const int* sizes, i32 new_channel) const {
 	mt_mat res;
 	res.m_dims = dims;
 
-	if (res.m_dims > 4 && m_dynamic_size_step_size < res.m_dims) {
+	if (res.m_dims > 4) {
 		res.m_dynamic_size_step_size = res.m_dims;
-		res.m_dynamic_size_steps = new int[m_dynamic_size_step_size * 2];
+		res.m_dynamic_size_steps = (i32*)malloc(sizeof(i32) * (res.m_dynamic_size_step_size * 2));
 	}
 
 	for (int i = 0; i < res.m_dims; ++i) {
@@ -2302,7 +2303,7 @@ mt_mat mt_mat::split_dim(int dim, int splited_dims, int* splited_sizes) const {
 
 	if (res.m_dims > mt_Mat_Normal_Support_Dim) {
 		res.m_dynamic_size_step_size = res.m_dims;
-		res.m_dynamic_size_steps = new int[m_dynamic_size_step_size * 2];
+		res.m_dynamic_size_steps = (i32*)malloc(sizeof(i32) * (res.m_dynamic_size_step_size * 2));
 	}
 
 	for (int i = 0; i < splited_dims; ++i) {
@@ -2355,6 +2356,11 @@ mt_mat mt_mat::combine_dim(int combined_dim_start, int combined_dim_count) const
 
 	res.m_dims = m_dims - combined_dim_count + 1;
 
+	if (res.m_dims > mt_Mat_Normal_Support_Dim) {
+		res.m_dynamic_size_step_size = res.m_dims;
+		res.m_dynamic_size_steps = (i32*)malloc(sizeof(i32) * (res.m_dynamic_size_step_size * 2));
+	}
+
 	for (int i = 0; i < combined_dim_start; ++i) {
 		res.size()[i] = size()[i];
 		res.step()[i] = step()[i];
@@ -2574,7 +2580,7 @@ mt_mat mt_mat::channel_as_last_dim() const {
 
 	if (res.m_dims > mt_Mat_Normal_Support_Dim) {
 		res.m_dynamic_size_step_size = res.m_dims;
-		res.m_dynamic_size_steps = new int[m_dynamic_size_step_size * 2];
+		res.m_dynamic_size_steps = (i32*)malloc(sizeof(i32) * (res.m_dynamic_size_step_size * 2));
 	}
 
 	for (int i = 0; i < m_dims; ++i) {
@@ -2606,6 +2612,11 @@ mt_mat mt_mat::last_dim_as_channel() const {
 	mt_mat res;
 	res.m_dims = m_dims - 1;
 
+	if (res.m_dims > mt_Mat_Normal_Support_Dim) {
+		res.m_dynamic_size_step_size = res.m_dims;
+		res.m_dynamic_size_steps = (i32*)malloc(sizeof(i32) * (res.m_dynamic_size_step_size * 2));
+	}
+
 	for (int i = 0; i < res.m_dims; ++i) {
 		res.size()[i] = size()[i];
 		res.step()[i] = step()[i];
@@ -2726,7 +2737,7 @@ mt_mat mt_mat::sub(i32 dims, const mt_range* ranges) const {
 
 	if (res.m_dims > 4) {
 		res.m_dynamic_size_step_size = res.m_dims;
-		res.m_dynamic_size_steps = new int[res.m_dynamic_size_step_size * 2];
+		res.m_dynamic_size_steps = (i32*)malloc(sizeof(i32) * (res.m_dynamic_size_step_size * 2));
 	}
 
 	res.m_data = m_data;
-- 
2.43.0


From aeea1414cf049223900194d5b30e26f1c53bd6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:06 +0000
Subject: [PATCH 046/195] fix: sub and repeat of a matrix of more than four
 dimensions used or leaked their temporary arrays

---
 basicmath/src/mt_mat.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index efe0bc4..331ae61 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -2412,9 +2412,10 @@ mt_mat mt_mat::repeat(i32 nsize, i32 dim, i32 nchannels) const {
 
 	nsizes[dim] = nsize;
 	
-	return repeat(this->dim(), nsizes, nchannels);
+	mt_mat res = repeat(this->dim(), nsizes, nchannels);
 
 	basicmath_mat_release(nsizes);
+	return res;
 }
 
 mt_mat mt_mat::repeat(const vector<i32>& nsizes, i32 nchannels) const {
@@ -2438,6 +2439,7 @@ mt_mat mt_mat::repeat(i32 dims, const i32* nsizes, i32 nchannels) const {
 	}
 
 	if (!size_changed && nchannels == 1) {
+		basicmath_mat_release(dst_sizes);
 		return clone();
 	}
 
@@ -2788,8 +2790,10 @@ mt_mat mt_mat::sub(const mt_range& range, int dim) const {
 		}
 	}
 
+	mt_mat res = sub(m_dims, ranges);
+
 	basicmath_mat_release(ranges);
-	return sub(m_dims, ranges);
+	return res;
 
 	/*basiclog_assert("mt_mat", range.is_valid() && (range.m_end <= this->size()[dim]));
 
-- 
2.43.0


From d1212d6347fb5e30f04fa2e262bcefe82a6595a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:06 +0000
Subject: [PATCH 047/195] fix: filling a non-continuous 3d matrix of more than
 four channels wrote to wrong addresses

---
 basicmath/src/mt_mat.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index 331ae61..4c3692b 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -478,9 +478,9 @@ namespace basicmath {
 
 								for (int c = 0; c < channels; ++c) {
 									ptr_data[c] = assign_values[c];
-
-									ptr_data += last_step;
 								}
+
+								ptr_data += last_step;
 							}
 
 							ptr_dim1 += mat.step()[1];
-- 
2.43.0


From 926c7f4db35d0c5af0f57eb5a82d3104ff07adc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:06 +0000
Subject: [PATCH 048/195] fix: setting a matrix from one of another depth read
 the source as if it had the destination's depth

---
 basicmath/src/mt_mat.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index 4c3692b..fe3c1a6 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -1520,7 +1520,7 @@ mt_mat& mt_mat::set(const mt_mat& other) {
 		}
 	} else {
 		if (depth() == mt_U8) {
-			switch (depth()) {
+			switch (other.depth()) {
 			case mt_U8:
 				private_mat::set<u8, u8>(*this, other);
 				break;
@@ -1556,7 +1556,7 @@ mt_mat& mt_mat::set(const mt_mat& other) {
 				break;
 			}
 		} else if (depth() == mt_I8) {
-			switch (depth()) {
+			switch (other.depth()) {
 			case mt_U8:
 				private_mat::set<i8, u8>(*this, other);
 				break;
@@ -1592,7 +1592,7 @@ mt_mat& mt_mat::set(const mt_mat& other) {
 				break;
 			}
 		} else if (depth() == mt_U16) {
-			switch (depth()) {
+			switch (other.depth()) {
 			case mt_U8:
 				private_mat::set<u16, u8>(*this, other);
 				break;
@@ -1628,7 +1628,7 @@ mt_mat& mt_mat::set(const mt_mat& other) {
 				break;
 			}
 		} else if (depth() == mt_I16) {
-			switch (depth()) {
+			switch (other.depth()) {
 			case mt_U8:
 				private_mat::set<i16, u8>(*this, other);
 				break;
@@ -1664,7 +1664,7 @@ mt_mat& mt_mat::set(const mt_mat& other) {
 				break;
 			}
 		} else if (depth() == mt_U32) {
-			switch (depth()) {
+			switch (other.depth()) {
 			case mt_U8:
 				private_mat::set<u32, u8>(*this, other);
 				break;
@@ -1700,7 +1700,7 @@ mt_mat& mt_mat::set(const mt_mat& other) {
 				break;
 			}
 		} else if (depth() == mt_I32) {
-			switch (depth()) {
+			switch (other.depth()) {
 			case mt_U8:
 				private_mat::set<i32, u8>(*this, other);
 				break;
@@ -1736,7 +1736,7 @@ mt_mat& mt_mat::set(const mt_mat& other) {
 				break;
 			}
 		} else if (depth() == mt_U64) {
-			switch (depth()) {
+			switch (other.depth()) {
 			case mt_U8:
 				private_mat::set<u64, u8>(*this, other);
 				break;
@@ -1772,7 +1772,7 @@ mt_mat& mt_mat::set(const mt_mat& other) {
 				break;
 			}
 		} else if (depth() == mt_I64) {
-			switch (depth()) {
+			switch (other.depth()) {
 			case mt_U8:
 				private_mat::set<i64, u8>(*this, other);
 				break;
@@ -1808,7 +1808,7 @@ mt_mat& mt_mat::set(const mt_mat& other) {
 				break;
 			}
 		} else if (depth() == mt_F32) {
-			switch (depth()) {
+			switch (other.depth()) {
 			case mt_U8:
 				private_mat::set<f32, u8>(*this, other);
 				break;
@@ -1844,7 +1844,7 @@ mt_mat& mt_mat::set(const mt_mat& other) {
 				break;
 			}
 		} else if (depth() == mt_F64) {
-			switch (depth()) {
+			switch (other.depth()) {
 			case mt_U8:
 				private_mat::set<f64, u8>(*this, other);
 				break;
-- 
2.43.0


From b06ee0c79cc6c24d33dbe932bc48e81e945c4674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:06 +0000
Subject: [PATCH 049/195] fix: flipping a list of dimensions left the flags of
 the others uninitialised

---
 basicmath/src/mt_mat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index fe3c1a6..e383ec8 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -2522,7 +2522,7 @@ mt_mat mt_mat::flip(int size, const int* dims) const {
 
 	basicmath_mat_request_memory(b8, flip_flags, dim());
 
-	for (i32 i = 0; i < size; ++i) {
+	for (i32 i = 0; i < dim(); ++i) {
 		flip_flags[i] = sys_false;
 	}
 
-- 
2.43.0


From bc03827ad70a10128b0396b1ec8bbf30b85c53a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:06 +0000
Subject: [PATCH 050/195] fix: plane selected a column instead of a plane

---
 basicmath/src/mt_mat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index e383ec8..414ba9f 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -2695,7 +2695,7 @@ mt_mat mt_mat::col(int col) const {
 mt_mat mt_mat::plane(int plane) const {
 	basiclog_assert("mt_mat", m_dims == 3);
 
-	return index(plane, 2);
+	return index(plane, 0);
 }
 
 mt_mat mt_mat::front(int number, int dim /* = 0 */) const {
-- 
2.43.0


From 91a5cc9147fb4cb81a1aa54a24ccf4cf6f438cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:06 +0000
Subject: [PATCH 051/195] fix: matrices of different numbers of dimensions were
 compared beyond the sizes of one of them

---
 basicmath/src/mt_mat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index 414ba9f..b2f6751 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -1353,7 +1353,7 @@ mt_mat& mt_mat::set_eye(b8 left_high) {
 }
 
 b8 mt_mat::operator==(const mt_mat& other) const {
-	if (other.depth_channel() != depth_channel()) {
+	if (other.depth_channel() != depth_channel() || other.dim() != dim()) {
 		return false;
 	}
 
-- 
2.43.0


From eb57aea46fd67af58cda38c4621f2868b3729433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:06 +0000
Subject: [PATCH 052/195] fix: is_zero looked at one byte of each channel only

---
 basicmath/src/mt_mat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index b2f6751..92f4627 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -1332,7 +1332,7 @@ b8 mt_mat::is_zero() const {
 			break;
 		}
 
-		for (i32 c = 0; c < channel(); ++c) {
+		for (i32 c = 0; c < element_size(); ++c) {
 			if (ptr_data[c] != 0) {
 				return sys_false;
 			}
-- 
2.43.0


From 1b4cecd073cee362a86e78b8134d8ab7e94c20f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:06 +0000
Subject: [PATCH 053/195] fix: combining dimensions that are not adjacent in
 memory gave a view of other elements

---
 basicmath/src/mt_mat.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index 92f4627..33a6964 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -2340,11 +2340,25 @@ mt_mat mt_mat::split_dim(int dim, int splited_dims, int* splited_sizes) const {
 mt_mat mt_mat::combine_dim(int combined_dim_start, int combined_dim_count) const {
 	bool order_dim = true;
 
-	for (int i = 0; i < combined_dim_count - 1; ++i) {
-		if (step()[combined_dim_start + i] < step()[i + combined_dim_start + 1]) {
+	int combined_size = size()[combined_dim_start + combined_dim_count - 1];
+	int combined_step = step()[combined_dim_start + combined_dim_count - 1];
+
+	for (int i = combined_dim_count - 2; i >= 0; --i) {
+		int cur_size = size()[combined_dim_start + i];
+		int cur_step = step()[combined_dim_start + i];
+
+		if (cur_size == 1) {
+			continue;
+		}
+
+		if (combined_size == 1) {
+			combined_step = cur_step;
+		} else if (cur_step != combined_step * combined_size) {
 			order_dim = false;
 			break;
 		}
+
+		combined_size *= cur_size;
 	}
 
 	if (!order_dim) {
@@ -2372,7 +2386,7 @@ mt_mat mt_mat::combine_dim(int combined_dim_start, int combined_dim_count) const
 		res.size()[combined_dim_start] *= size()[combined_dim_start + i];
 	}
 
-	res.step()[combined_dim_start] = step()[combined_dim_start + combined_dim_count - 1];
+	res.step()[combined_dim_start] = combined_step;
 
 	for (int i = combined_dim_start + 1; i < res.m_dims; ++i) {
 		res.size()[i] = size()[i + combined_dim_count - 1];
-- 
2.43.0


From f49dfdb985ac771cdff57b1552878a08f5a8bcbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:06 +0000
Subject: [PATCH 054/195] fix: reshaping a matrix flipped in all dimensions
 gave a view behind its memory

---
 basicmath/src/mt_mat.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index 33a6964..7806475 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -2264,6 +2264,14 @@ mt_mat mt_mat::reshape(int dims, const int* sizes, i32 new_channel) const {
 
 	res.fill_auto_step();
 
+	if (!is_step_positive()) {
+		basiclog_assert2(res.channel() == channel());
+
+		for (int i = 0; i < res.m_dims; ++i) {
+			res.step()[i] = -res.step()[i];
+		}
+	}
+
 	if (m_auto_derivative != NULL && m_auto_derivative->stage() == mt_auto_derivative::Stage_Record_Computing) {
 		res.attach(m_auto_derivative);
 
-- 
2.43.0


From 030f0035423e6feaa67d71b0fce8c995f0f35dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:06 +0000
Subject: [PATCH 055/195] fix: set_eye did nothing and returned no reference

---
 basicmath/src/mt_mat.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index 7806475..8239cd7 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -1350,6 +1350,13 @@ mt_mat& mt_mat::set_eye(b8 left_high) {
 	basiclog_assert2(dim() == 2);
 	on_vaule_changed();
 
+	set(0.0);
+
+	for (i32 i = 0; i < min(size()[0], size()[1]); ++i) {
+		set(1.0, i, left_high ? i : size()[1] - 1 - i);
+	}
+
+	return *this;
 }
 
 b8 mt_mat::operator==(const mt_mat& other) const {
-- 
2.43.0


From c5278cd0baac10f3ee4cc377886bac514a84b6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:06 +0000
Subject: [PATCH 056/195] fix: four constructors did not take over the memory
 they were given to share

---
 basicmath/src/mt_mat.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index 8239cd7..570fea6 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -1073,7 +1073,7 @@ mt_mat::mt_mat(int cols, mt_Depth_Channel depth, u8* data, const int* steps, u8*
 	, m_auto_derivative(NULL)
 	, m_shared_memory(NULL) {
 		int sizes[] = {cols};
-		*this = mt_mat(1, sizes, depth, data, steps);
+		*this = mt_mat(1, sizes, depth, data, steps, share_mmeory);
 }
 
 mt_mat::mt_mat(int row, int col, mt_Depth_Channel depth, u8* data, const int* steps, u8* share_mmeory) 
@@ -1085,7 +1085,7 @@ mt_mat::mt_mat(int row, int col, mt_Depth_Channel depth, u8* data, const int* st
 	, m_auto_derivative(NULL)
 	, m_shared_memory(NULL) {
 		int sizes[] = {row, col};
-		*this = mt_mat(2, sizes, depth, data, steps);
+		*this = mt_mat(2, sizes, depth, data, steps, share_mmeory);
 }
 
 mt_mat::mt_mat(int plane, int row, int col, mt_Depth_Channel depth, u8* data, const int* steps, u8* share_mmeory) 
@@ -1097,7 +1097,7 @@ mt_mat::mt_mat(int plane, int row, int col, mt_Depth_Channel depth, u8* data, co
 	, m_auto_derivative(NULL)
 	, m_shared_memory(NULL) {
 		int sizes[] = {plane, row, col};
-		*this = mt_mat(3, sizes, depth, data, steps);
+		*this = mt_mat(3, sizes, depth, data, steps, share_mmeory);
 }
 
 mt_mat::mt_mat(i32 dims, const i32* sizes, mt_Depth_Channel depth_channel, u8* data, const i32* steps, u8* share_mmeory) 
@@ -1144,7 +1144,7 @@ mt_mat::mt_mat(const vector<i32>& sizes, mt_Depth_Channel depth_channel, u8* dat
 	, m_dims(0)
 	, m_auto_derivative(NULL)
 	, m_shared_memory(NULL) {
-		*this = mt_mat((i32)sizes.size(), &sizes[0], depth_channel, data, steps.empty() ? NULL : &steps[0]);
+		*this = mt_mat((i32)sizes.size(), &sizes[0], depth_channel, data, steps.empty() ? NULL : &steps[0], share_mmeory);
 }
 
 mt_mat::mt_mat(const mt_mat& other, Construct_Type type)
-- 
2.43.0


From d3ac3fbc666be6ab9cd1cc0dde51b52b22074138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:27 +0000
Subject: [PATCH 057/195] fix: get_index took the index of a dimension of size
 one from the offset of another dimension

---
 basicmath/src/mt_mat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index 570fea6..6fdb405 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -2906,7 +2906,7 @@ void mt_mat::get_index(vector<int>& index, const u8* ptr_data) const {
 			int max_index = -1;
 
 			for (int i = 0; i < m_dims; ++i) {
-				if (flags[i] == 0 && std::abs(step()[i]) > max_abs_step) {
+				if (flags[i] == 0 && (max_index == -1 || size()[max_index] == 1 || (size()[i] > 1 && std::abs(step()[i]) > max_abs_step))) {
 					max_abs_step = std::abs(step()[i]);
 					max_index = i;
 				}
-- 
2.43.0


From 778db79688e90e53e3af894c2a611027ba6aa5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:27 +0000
Subject: [PATCH 058/195] fix: comparing and copying 3d and 4d arrays that are
 not continuous visited the first rows only or nothing

---
 basicmath/src/mt_array_iteration.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/basicmath/src/mt_array_iteration.cpp b/basicmath/src/mt_array_iteration.cpp
index e309d43..e0b3258 100644
--- a/basicmath/src/mt_array_iteration.cpp
+++ b/basicmath/src/mt_array_iteration.cpp
@@ -54,8 +54,8 @@ namespace basicmath {
 					const u8* ptr_src_data_dim1 = ptr_src_data_dim0;
 
 					for (i32 row = 0; row < sizes[1]; ++row) {
-						ptr_dst_data = ptr_dst_data_dim0;
-						ptr_src_data = ptr_src_data_dim0;
+						ptr_dst_data = ptr_dst_data_dim1;
+						ptr_src_data = ptr_src_data_dim1;
 
 						for (i32 col = 0; col < sizes[2]; ++col) {
 							for (i32 c = 0; c < element_size; ++c) {
@@ -124,8 +124,8 @@ namespace basicmath {
 					const u8* ptr_src_data_dim1 = ptr_src_data_dim0;
 
 					for (i32 row = 0; row < sizes[1]; ++row) {
-						ptr_dst_data = ptr_dst_data_dim0;
-						ptr_src_data = ptr_src_data_dim0;
+						ptr_dst_data = ptr_dst_data_dim1;
+						ptr_src_data = ptr_src_data_dim1;
 
 						for (i32 col = 0; col < sizes[2]; ++col) {
 							for (i32 c = 0; c < element_size; ++c) {
@@ -187,7 +187,7 @@ b8 mt_array_iteration::array_iteration(u8* dst, const u8* src, int ndims, const
 	int max_continuous_dim = max(src_continuous_dim, dst_continuous_dim);
 
 	if (max_continuous_dim != 0) {
-		if (ndims <= 4) {
+		if (ndims <= 3) {
 			if (type == mt_Array_Copy) {
 				private_array_iteration::memcpy(dst, src, ndims, sizes, dst_steps, src_steps, element_size);
 			} else {
@@ -196,7 +196,7 @@ b8 mt_array_iteration::array_iteration(u8* dst, const u8* src, int ndims, const
 		}		
 	}
 
-	if (mt_helper::is_same_symbol(src_steps[max_continuous_dim], dst_steps[max_continuous_dim])) {
+	if (max_continuous_dim < ndims && mt_helper::is_same_symbol(src_steps[max_continuous_dim], dst_steps[max_continuous_dim])) {
 		mt_array_memory_block_const_iterator src_iteartor(src, ndims, sizes, src_steps, max_continuous_dim, element_size);
 		mt_array_memory_block_iterator dst_iteartor(dst, ndims, sizes, dst_steps, max_continuous_dim, element_size);
 
-- 
2.43.0


From 2626585914cb525a9c7fa500b5292f6d333d958f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:27 +0000
Subject: [PATCH 059/195] fix: the matrix cache locked nothing when switched on
 or off, and its request counter was not initialised

---
 basicmath/src/mt_mat_cache.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/basicmath/src/mt_mat_cache.cpp b/basicmath/src/mt_mat_cache.cpp
index 99c500b..a320158 100644
--- a/basicmath/src/mt_mat_cache.cpp
+++ b/basicmath/src/mt_mat_cache.cpp
@@ -20,6 +20,7 @@ mt_mat_cache::mt_mat_cache() {
 	m_mutex = sys_thread_lock::create_mutex();
 	m_memory_size = 1024 * 1024 * 1024;
 	m_cache_number = 0;
+	m_get_number = 0;
 }
 
 mt_mat_cache::~mt_mat_cache() {
@@ -28,7 +29,7 @@ mt_mat_cache::~mt_mat_cache() {
 
 void mt_mat_cache::set_memory_size(i64 memory_size) {
 	{
-		sys_thread_lock (s_mat_cache.m_mutex);
+		sys_thread_lock lock(s_mat_cache.m_mutex);
 		s_mat_cache.m_memory_size = memory_size;
 
 		s_mat_cache.statistic_memory();
@@ -45,7 +46,7 @@ void mt_mat_cache::output_cache_statistic() {
 
 void mt_mat_cache::enable_cache(b8 enable) {
 	{
-		sys_thread_lock (s_mat_cache.m_mutex);
+		sys_thread_lock lock(s_mat_cache.m_mutex);
 		map<u64, thread_data>::iterator td = s_mat_cache.m_thread_data.find(sys_os::current_thread_id());
 
 		if (td == s_mat_cache.m_thread_data.end()) {
-- 
2.43.0


From 3165af20181c5e2de60ef44900f43f8390645de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:51 +0000
Subject: [PATCH 060/195] fix: threads that use the matrix cache at the same
 time changed its list of matrices unlocked

---
 basicmath/include/mt_mat.h     |  1 +
 basicmath/src/mt_mat_cache.cpp | 13 +++++--------
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/basicmath/include/mt_mat.h b/basicmath/include/mt_mat.h
index 705efe2..bd03ca4 100644
--- a/basicmath/include/mt_mat.h
+++ b/basicmath/include/mt_mat.h
@@ -97,6 +97,7 @@ class mt_mat {
 				return 0;
 			}
 
+			sys_thread_lock lock(m_reference->m_ref_mutex);
 			return m_reference->m_ref_number;
 		}
 			 
diff --git a/basicmath/src/mt_mat_cache.cpp b/basicmath/src/mt_mat_cache.cpp
index a320158..9b12bb8 100644
--- a/basicmath/src/mt_mat_cache.cpp
+++ b/basicmath/src/mt_mat_cache.cpp
@@ -78,17 +78,14 @@ mt_mat mt_mat_cache::get(const vector<i32>& sizes, mt_Depth_Channel depth_channe
 
 mt_mat mt_mat_cache::get(i32 dim, const i32* sizes, mt_Depth_Channel depth_channel) {
 	thread_data* data = NULL;
-	
-	{
-		sys_thread_lock lock(m_mutex);
+	sys_thread_lock lock(m_mutex);
 
-		++m_get_number;
+	++m_get_number;
 
-		map<u64, thread_data>::iterator td = m_thread_data.find(sys_os::current_thread_id());
+	map<u64, thread_data>::iterator td = m_thread_data.find(sys_os::current_thread_id());
 
-		if (td != m_thread_data.end()) {
-			data = &td->second;
-		}
+	if (td != m_thread_data.end()) {
+		data = &td->second;
 	}
 
 	if (data != NULL) {
-- 
2.43.0


From fd368f77f77c90582f074df781d3e51411c791d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:51 +0000
Subject: [PATCH 061/195] fix: the matrix cache added up its memory in 32 bits

---
 basicmath/src/mt_mat_cache.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/basicmath/src/mt_mat_cache.cpp b/basicmath/src/mt_mat_cache.cpp
index 9b12bb8..1babcbb 100644
--- a/basicmath/src/mt_mat_cache.cpp
+++ b/basicmath/src/mt_mat_cache.cpp
@@ -125,11 +125,11 @@ mt_mat mt_mat_cache::get(i32 dim, const i32* sizes, mt_Depth_Channel depth_chann
 }
 
 void mt_mat_cache::statistic_memory() {
-	i32 total_memory = 0;
-	i32 used_memory = 0;
+	i64 total_memory = 0;
+	i64 used_memory = 0;
 
 	for (i32 i = 0; i < (i32)m_caches.size(); ++i) {
-		i32 cur_memory = m_caches[i].element_size() * m_caches[i].element_number();
+		i64 cur_memory = (i64)m_caches[i].element_size() * m_caches[i].element_number();
 
 		if (m_caches[i].reference_number() > 1) {
 			used_memory += cur_memory;
@@ -141,13 +141,13 @@ void mt_mat_cache::statistic_memory() {
 	if (total_memory > m_memory_size && total_memory > used_memory * 2) {
 		basiclog_info2(sys_strcombine()<<", begin release memory in mt_mat_cache, before total memory: "<<total_memory<<", used memory: "<<used_memory);
 
-		i32 retain_memory = used_memory * 2;
+		i64 retain_memory = used_memory * 2;
 
 		vector<mt_mat>::iterator iter = m_caches.begin();
 
 		while (iter != m_caches.end()) {
 			if (iter->reference_number() == 1) {
-				i32 cur_memory = iter->element_size() * iter->element_number();
+				i64 cur_memory = (i64)iter->element_size() * iter->element_number();
 				iter = m_caches.erase(iter);
 				total_memory -= cur_memory;
 
-- 
2.43.0


From 6c8ba49132646a54db13a2f55bdeaac2a5772027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:05 +0000
Subject: [PATCH 062/195] fix: filling a matrix with a negative value converted
 it to an unsigned byte, which is undefined

---
 basicmath/src/mt_mat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index 6fdb405..7d29c4c 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -250,7 +250,7 @@ namespace basicmath {
 				}
 
 				if (can_use_memset) {
-					memset(mat.memory_data(), (u8)values[0], mat.memory_size());
+					memset(mat.memory_data(), (u8)assign_values[0], mat.memory_size());
 				} else {
 					T* ptr_data = (T*)mat.data();
 
-- 
2.43.0


From cc26f0003463326c1114c9f887a351c94ba06fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:55 +0000
Subject: [PATCH 063/195] fix: follow the real step of the last dimension in
 value - mat and value / mat

---
 basicmath/src/mt_mat_math_operation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicmath/src/mt_mat_math_operation.cpp b/basicmath/src/mt_mat_math_operation.cpp
index 5a5b303..70185ce 100644
--- a/basicmath/src/mt_mat_math_operation.cpp
+++ b/basicmath/src/mt_mat_math_operation.cpp
@@ -1451,8 +1451,8 @@ namespace basicmath {
 				type_b[i] = (T)b[i];
 			}
 
-			i32 last_res_step = res.step()[res.dim() - 1] > 0 ? channels : -channels;
-			i32 last_a_step = a.step()[a.dim() - 1] > 0 ? channels : -channels;
+			i32 last_res_step = res.last_dim_element_step();
+			i32 last_a_step = a.last_dim_element_step();
 
 			if (res.is_continuous() && a.is_continuous()) {
 				T* ptr_res = (T*)res.data();
-- 
2.43.0


From 1930a77c19206c11007efa1d0ae07c020441177b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:55 +0000
Subject: [PATCH 064/195] fix: release the index buffer of bias operations on
 more than 4 dimensions

---
 basicmath/src/mt_mat_math_operation.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/basicmath/src/mt_mat_math_operation.cpp b/basicmath/src/mt_mat_math_operation.cpp
index 70185ce..59fdd3a 100644
--- a/basicmath/src/mt_mat_math_operation.cpp
+++ b/basicmath/src/mt_mat_math_operation.cpp
@@ -1751,6 +1751,8 @@ namespace basicmath {
 					}
 				}
 			}
+
+			basicmath_mat_release(bias_indexes);
 		}
 
 		static void operation_bias(mt_mat& res, const mt_mat& src, const mt_mat& bias, mt_mat_helper::Math_Op_Code code) {
-- 
2.43.0


From b912207b74d30fbf13d2e531a0d0c89cb15b45de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:55 +0000
Subject: [PATCH 065/195] fix: bias operations must not require a logger

---
 basicmath/src/mt_mat_math_operation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/src/mt_mat_math_operation.cpp b/basicmath/src/mt_mat_math_operation.cpp
index 59fdd3a..7d4974d 100644
--- a/basicmath/src/mt_mat_math_operation.cpp
+++ b/basicmath/src/mt_mat_math_operation.cpp
@@ -1756,7 +1756,7 @@ namespace basicmath {
 		}
 
 		static void operation_bias(mt_mat& res, const mt_mat& src, const mt_mat& bias, mt_mat_helper::Math_Op_Code code) {
-			if (log_logger::get_logger()->is_enable_debug()) {
+			if (log_logger::get_logger() != NULL && log_logger::get_logger()->is_enable_debug()) {
 				for (i32 i = 0; i < bias.dim(); ++i) {
 					basiclog_assert2(src.size()[i] % bias.size()[i] == 0);
 				}
-- 
2.43.0


From ad126c4be552bb67e4fb69daee0b0b44b8fe3ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:30 +0000
Subject: [PATCH 066/195] fix: element_compared_mask compares with zero when
 the other mat is empty, as documented

---
 basicmath/src/mt_mat_math_operation.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/basicmath/src/mt_mat_math_operation.cpp b/basicmath/src/mt_mat_math_operation.cpp
index 7d4974d..5630e5b 100644
--- a/basicmath/src/mt_mat_math_operation.cpp
+++ b/basicmath/src/mt_mat_math_operation.cpp
@@ -3007,15 +3007,15 @@ mt_mat mt_mat::reduce(mt_mat::Reduce_Type type, i32 reduce_dim) const {
 }
 
 mt_mat mt_mat::element_compared_mask(const mt_mat& other, mt_mat::Compare_Task task, f64 true_mask, f64 false_mask) const {
-	basiclog_assert2(is_same_size(other));
+	basiclog_assert2(other.is_empty() || is_same_size(other));
 	
-	if (other.depth() != depth()) {
+	if (!other.is_empty() && other.depth() != depth()) {
 		mt_mat temp = other.convert(depth());
 
 		return element_compared_mask(temp, task, true_mask, false_mask);
 	}
 
-	mt_mat res(other, mt_mat::Construct_Type_Create_As_Size);
+	mt_mat res(*this, mt_mat::Construct_Type_Create_As_Size);
 
 	switch (depth()) {
 	case mt_U8:
-- 
2.43.0


From 99f1efd274b52811bfd351829c0dfc26b5c8605a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:30 +0000
Subject: [PATCH 067/195] fix: quadratic loss starts at zero and visits every
 element and channel

---
 basicmath/src/mt_mat_math_operation.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/basicmath/src/mt_mat_math_operation.cpp b/basicmath/src/mt_mat_math_operation.cpp
index 5630e5b..2aed040 100644
--- a/basicmath/src/mt_mat_math_operation.cpp
+++ b/basicmath/src/mt_mat_math_operation.cpp
@@ -284,7 +284,7 @@ namespace basicmath {
 			mt_array_element_const_iterator src_iter(src);
 			mt_array_element_const_iterator matching_iter(matching_mat);
 
-			mt_mat loss_res(1, 1, src.depth_channel());
+			mt_mat loss_res(1, 1, src.depth_channel(), 0.0);
 			T* ptr_dst = loss_res.ptr<T>(0, i32(0));
 
 			for (;;) {
@@ -294,9 +294,9 @@ namespace basicmath {
 					break;
 				}
 
-				const T* ptr_matching = (const T*)matching_mat.data();
+				const T* ptr_matching = (const T*)matching_iter.data();
 
-				for (i32 c = 0; c < src.dim(); ++c) {
+				for (i32 c = 0; c < src.channel(); ++c) {
 					if (mt_helper::is_number(ptr_matching[c])) {
 						ptr_dst[c] += (ptr_src[c] - ptr_matching[c]) * (ptr_src[c] - ptr_matching[c]) / 2;
 					}
-- 
2.43.0


From b1f6b3ca9df613b85625cfadca73b762c6ec61d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:30 +0000
Subject: [PATCH 068/195] fix: logarithmic loss follows the steps of its
 operands

---
 basicmath/src/mt_mat_math_operation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicmath/src/mt_mat_math_operation.cpp b/basicmath/src/mt_mat_math_operation.cpp
index 2aed040..575942e 100644
--- a/basicmath/src/mt_mat_math_operation.cpp
+++ b/basicmath/src/mt_mat_math_operation.cpp
@@ -347,8 +347,8 @@ namespace basicmath {
 								*ptr_dst -= (T)log(*ptr_src_dim1 + DBL_EPSILON);
 								break;
 							} else {
-								++ptr_matching_dim1;
-								++ptr_src_dim1;
+								ptr_matching_dim1 += matching_mat.last_dim_element_step();
+								ptr_src_dim1 += src.last_dim_element_step();
 							}
 						}
 
-- 
2.43.0


From 25b82cc64415f8cd89cbec58f2cc9e0275b832b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:30 +0000
Subject: [PATCH 069/195] fix: softmax follows the steps of its operands

---
 basicmath/src/mt_mat_math_operation.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/basicmath/src/mt_mat_math_operation.cpp b/basicmath/src/mt_mat_math_operation.cpp
index 575942e..6644f62 100644
--- a/basicmath/src/mt_mat_math_operation.cpp
+++ b/basicmath/src/mt_mat_math_operation.cpp
@@ -208,17 +208,20 @@ namespace basicmath {
 			
 			const u8* ptr_src_dim0 = src.data();
 			u8* ptr_dst_dim0 = res.data();
+			i32 src_last_step = src.last_dim_element_step();
+			i32 dst_last_step = res.last_dim_element_step();
 
 			for (i32 row = 0; row < src.size()[0]; ++row) {
 				const T* ptr_src = (T*)ptr_src_dim0;				
-				T max_value = *ptr_src++;
+				T max_value = *ptr_src;
+				ptr_src += src_last_step;
 
 				for (int col = 1; col < src.size()[1]; ++col) {
 					if (*ptr_src > max_value) {
 						max_value = *ptr_src;
 					}
 
-					++ptr_src;
+					ptr_src += src_last_step;
 				}
 
 				ptr_src = (T*)ptr_src_dim0;
@@ -226,14 +229,17 @@ namespace basicmath {
 				T sum = (T)0.0;
 
 				for (i32 col = 0; col < src.size()[1]; ++col) {
-					*ptr_dst = exp(*ptr_src++ - max_value);
-					sum += *ptr_dst++;
+					*ptr_dst = exp(*ptr_src - max_value);
+					sum += *ptr_dst;
+					ptr_src += src_last_step;
+					ptr_dst += dst_last_step;
 				}
 
 				ptr_dst = (T*)ptr_dst_dim0;
 
 				for (i32 col = 0; col < src.size()[1]; ++col) {
-					*ptr_dst++ /= sum;
+					*ptr_dst /= sum;
+					ptr_dst += dst_last_step;
 				}
 
 				ptr_src_dim0 += src.step()[0];
-- 
2.43.0


From 9c2390314b9fc8794973991168905cebc863f6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:30 +0000
Subject: [PATCH 070/195] fix: max and min over all elements start with every
 channel of the first element

---
 basicmath/src/mt_mat_math_operation.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/basicmath/src/mt_mat_math_operation.cpp b/basicmath/src/mt_mat_math_operation.cpp
index 6644f62..bb7c828 100644
--- a/basicmath/src/mt_mat_math_operation.cpp
+++ b/basicmath/src/mt_mat_math_operation.cpp
@@ -617,12 +617,10 @@ namespace basicmath {
 			}
 
 			if (type == mt_mat::Reduce_Type_Max || type == mt_mat::Reduce_Type_Min) {
-				basicmath_mat_request_memory(f64, first_element, src.dim());
+				vector<f64> first_element(src.channel());
 				
-				src.get(first_element, 0);
-				dst.set(src.dim(), first_element);
-
-				basicmath_mat_release(first_element);
+				src.get(&first_element[0], 0);
+				dst.set(first_element);
 			}
 
 			mt_array_element_const_iterator src_iter(src);
-- 
2.43.0


From b9b9c8b138be8aaf2b4e91d731421272f6a33773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:30 +0000
Subject: [PATCH 071/195] fix: reduce along the channels instead of reading
 before the sizes

---
 basicmath/src/mt_mat_math_operation.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/basicmath/src/mt_mat_math_operation.cpp b/basicmath/src/mt_mat_math_operation.cpp
index bb7c828..693268b 100644
--- a/basicmath/src/mt_mat_math_operation.cpp
+++ b/basicmath/src/mt_mat_math_operation.cpp
@@ -692,6 +692,8 @@ namespace basicmath {
 		static mt_mat reduce(const mt_mat& src, mt_mat::Reduce_Type type, i32 reduce_dim) {
 			if (reduce_dim == mt_mat::Reduce_Dim_Inner_Channel) {
 				return reduce_inner_channel<T>(src, type);
+			} else if (reduce_dim == mt_mat::Reduce_Dim_Align_Channel) {
+				return reduce<T>(src.channel_as_last_dim(), type, src.dim()).decrease_dim(src.dim());
 			}
 
 			basicmath_mat_request_memory(i32, dst_sizes, src.dim());
-- 
2.43.0


From 4542583fad8544101f78629fc56f2a33dd2a1e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:30 +0000
Subject: [PATCH 072/195] fix: reduce converts mats of other depths instead of
 reading them as f64

---
 basicmath/src/mt_mat_math_operation.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/basicmath/src/mt_mat_math_operation.cpp b/basicmath/src/mt_mat_math_operation.cpp
index 693268b..0da59b6 100644
--- a/basicmath/src/mt_mat_math_operation.cpp
+++ b/basicmath/src/mt_mat_math_operation.cpp
@@ -3007,8 +3007,10 @@ void mt_mat::symmetry_eigen(mt_mat& eigen_value, mt_mat& eigen_vector) const {
 mt_mat mt_mat::reduce(mt_mat::Reduce_Type type, i32 reduce_dim) const {
 	if (depth() == mt_F32) {
 		return private_math_operation::reduce<f32>(*this, type, reduce_dim);
-	} else {
+	} else if (depth() == mt_F64) {
 		return private_math_operation::reduce<f64>(*this, type, reduce_dim);
+	} else {
+		return private_math_operation::reduce<f64>(convert(mt_F64), type, reduce_dim);
 	}
 }
 
-- 
2.43.0


From e67b601ffaa7f0597d1761901a34e9d6c3b1d913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:21 +0000
Subject: [PATCH 073/195] fix: multi_index_from_index inverts
 index_from_multi_index and stays inside sizes

---
 basicmath/include/mt_helper.h | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/basicmath/include/mt_helper.h b/basicmath/include/mt_helper.h
index 331bf82..4a4aec0 100644
--- a/basicmath/include/mt_helper.h
+++ b/basicmath/include/mt_helper.h
@@ -226,18 +226,9 @@ namespace basicmath {
 		static void multi_index_from_index(vector<i32>& indexs, i32 index, i32 size, const i32* sizes) {
 			indexs.resize(size);
 
-			i32 dim_element_number = 1;
-
-			for (i32 i = 1; i < size; ++i) {
-				dim_element_number *= sizes[i];
-			}
-
-			for (i32 i = 0; i < size; ++i) {
-				i32 cur_dim_index = index % dim_element_number;
-				index = index - cur_dim_index * dim_element_number;
-				dim_element_number /= sizes[i + 1];
-
-				indexs[i] = cur_dim_index;
+			for (i32 i = size - 1; i >= 0; --i) {
+				indexs[i] = index % sizes[i];
+				index /= sizes[i];
 			}
 		}
 
-- 
2.43.0


From 30a82b5748229e64bf4999c12e32f0aaba988f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:21 +0000
Subject: [PATCH 074/195] fix: unpooling needs the mask for max, min and index
 pooling only

---
 basicmath/src/mt_pooling.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/basicmath/src/mt_pooling.cpp b/basicmath/src/mt_pooling.cpp
index 648e262..08ed7ee 100644
--- a/basicmath/src/mt_pooling.cpp
+++ b/basicmath/src/mt_pooling.cpp
@@ -1066,7 +1066,7 @@ namespace basicmath {
 
 			template<class T>
 			static void unpooling_2d_channel_1(mt_mat& src, const mt_mat& mask_mat, const mt_mat& pooling_res_mat, mt_Pooling_Type pooling_type, i32 size, const i32* kernel_sizes, const i32* strides) {
-				i32 mask_last_step = mask_mat.last_dim_element_step();
+				i32 mask_last_step = mask_mat.is_empty() ? 0 : mask_mat.last_dim_element_step();
 				i32 pooling_res_last_step = pooling_res_mat.last_dim_element_step();
 
 				i32 mat_start_row = 0;
@@ -1146,7 +1146,7 @@ namespace basicmath {
 
 			template<class T>
 			static void unpooling_2d_channel_n(mt_mat& src, const mt_mat& mask_mat, const mt_mat& pooling_res_mat, mt_Pooling_Type pooling_type, i32 size, const i32* kernel_sizes, const i32* strides) {
-				i32 mask_last_step = mask_mat.last_dim_element_step();
+				i32 mask_last_step = mask_mat.is_empty() ? 0 : mask_mat.last_dim_element_step();
 				i32 pooling_res_last_step = pooling_res_mat.last_dim_element_step();
 				i32 channels = pooling_res_mat.channel();
 				i32 mat_start_row = 0;
@@ -1233,7 +1233,7 @@ namespace basicmath {
 
 			template<class T>
 			static void unpooling_3d_channel_1(mt_mat& src, const mt_mat& mask_mat, const mt_mat& pooling_res_mat, mt_Pooling_Type pooling_type, i32 size, const i32* kernel_sizes, const i32* strides) {
-				i32 mask_last_step = mask_mat.last_dim_element_step();
+				i32 mask_last_step = mask_mat.is_empty() ? 0 : mask_mat.last_dim_element_step();
 				i32 pooling_res_last_step = pooling_res_mat.last_dim_element_step();
 
 				i32 mat_start_plane = 0;
@@ -1350,7 +1350,7 @@ namespace basicmath {
 
 			template<class T>
 			static void unpooling_3d_channel_n(mt_mat& src, const mt_mat& mask_mat, const mt_mat& pooling_res_mat, mt_Pooling_Type pooling_type, i32 size, const i32* kernel_sizes, const i32* strides) {
-				i32 mask_last_step = mask_mat.last_dim_element_step();
+				i32 mask_last_step = mask_mat.is_empty() ? 0 : mask_mat.last_dim_element_step();
 				i32 pooling_res_last_step = pooling_res_mat.last_dim_element_step();
 				i32 channels = src.channel();
 				i32 mat_start_plane = 0;
@@ -1552,7 +1552,7 @@ mt_mat mt_mat::pooling(mt_mat& mask_mat, mt_Pooling_Type pooling_type, const vec
 }
 
 mt_mat mt_mat::unpooling(const int* src_size, const mt_mat& mask_mat, mt_Pooling_Type pooling_type, i32 size, const int* kernel_sizes, const int* strides) const {	
-	basiclog_assert2(mask_mat.is_empty());
+	basiclog_assert2(!mask_mat.is_empty() || (pooling_type != mt_Pooling_Type_Max && pooling_type != mt_Pooling_Type_Min && pooling_type != mt_Pooling_Type_Index));
 	
 	mt_mat src(dim(), src_size, depth_channel(), 0);
 	
-- 
2.43.0


From bd58f3b933ca9ef8240254d57ec3c97016ec9f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:21 +0000
Subject: [PATCH 075/195] fix: unpooling of i8 mats is signed

---
 basicmath/src/mt_pooling.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/src/mt_pooling.cpp b/basicmath/src/mt_pooling.cpp
index 08ed7ee..5a8c760 100644
--- a/basicmath/src/mt_pooling.cpp
+++ b/basicmath/src/mt_pooling.cpp
@@ -1561,7 +1561,7 @@ mt_mat mt_mat::unpooling(const int* src_size, const mt_mat& mask_mat, mt_Pooling
 		private_pooling::unpooling<u8>(src, mask_mat, *this, pooling_type, size, kernel_sizes, strides);
 		break;
 	case mt_I8:
-		private_pooling::unpooling<u8>(src, mask_mat, *this, pooling_type, size, kernel_sizes, strides);
+		private_pooling::unpooling<i8>(src, mask_mat, *this, pooling_type, size, kernel_sizes, strides);
 		break;
 	case mt_U16:
 		private_pooling::unpooling<u16>(src, mask_mat, *this, pooling_type, size, kernel_sizes, strides);
-- 
2.43.0


From b08a9223ec39ce8e25c84e16b90ff3552b43ab76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:21 +0000
Subject: [PATCH 076/195] fix: unpooling of 3d mats reads every mask value and
 uses the sizes of the source

---
 basicmath/src/mt_pooling.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/basicmath/src/mt_pooling.cpp b/basicmath/src/mt_pooling.cpp
index 5a8c760..639df43 100644
--- a/basicmath/src/mt_pooling.cpp
+++ b/basicmath/src/mt_pooling.cpp
@@ -1308,7 +1308,7 @@ namespace basicmath {
 
 								src.at<T>(src_plane, src_row, src_col, 0) += *ptr_pooling_res;
 								ptr_pooling_res += pooling_res_last_step;
-								ptr_mask_dim1 += mask_last_step;
+								ptr_mask += mask_last_step;
 							}
 
 							ptr_pooling_res_dim1 += pooling_res_mat.step()[1];
@@ -1356,9 +1356,9 @@ namespace basicmath {
 				i32 mat_start_plane = 0;
 				const u8* ptr_pooling_res_dim0 = pooling_res_mat.data();
 
-				i32 src_planes = pooling_res_mat.size()[0];
-				i32 src_rows = pooling_res_mat.size()[1];
-				i32 src_cols = pooling_res_mat.size()[2];
+				i32 src_planes = src.size()[0];
+				i32 src_rows = src.size()[1];
+				i32 src_cols = src.size()[2];
 				i32 res_planes = pooling_res_mat.size()[0];
 				i32 res_rows = pooling_res_mat.size()[1];
 				i32 res_cols = pooling_res_mat.size()[2];
@@ -1431,7 +1431,7 @@ namespace basicmath {
 								}
 								
 								ptr_pooling_res += pooling_res_last_step;
-								ptr_mask_dim1 += mask_last_step;
+								ptr_mask += mask_last_step;
 							}
 
 							ptr_pooling_res_dim1 += pooling_res_mat.step()[1];
-- 
2.43.0


From 5090c9f6f89d71b9d4305cf0286804df58f0b57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:21 +0000
Subject: [PATCH 077/195] fix: unpooling uses the mask of each channel

---
 basicmath/src/mt_pooling.cpp | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/basicmath/src/mt_pooling.cpp b/basicmath/src/mt_pooling.cpp
index 639df43..5d9eaf9 100644
--- a/basicmath/src/mt_pooling.cpp
+++ b/basicmath/src/mt_pooling.cpp
@@ -224,11 +224,9 @@ namespace basicmath {
 					} else if (pooling_type == mt_Pooling_Type_Max || pooling_type == mt_Pooling_Type_Min || pooling_type == mt_Pooling_Type_Index) {
 						const i32* ptr_mask_data = mask_mat.ptr<i32>(cur_indexs, 0);
 
-						mt_helper::multi_index_from_index(src_iter_indexs, *ptr_mask_data, src.dim(), src.size());
-						T* ptr_src_data = src.ptr<T>(src_iter_indexs, 0);
-
 						for (i32 c = 0; c < src.channel(); ++c) {
-							ptr_src_data[c] += ptr_data[c];
+							mt_helper::multi_index_from_index(src_iter_indexs, ptr_mask_data[c], src.dim(), src.size());
+							src.at<T>(src_iter_indexs, c) += ptr_data[c];
 						}
 					}
 				}
@@ -1194,11 +1192,10 @@ namespace basicmath {
 						int* ptr_mask_dim1 = (int*)ptr_mask_dim0;
 
 						for (int col = 0; col < res_cols; ++col) {
-
-							int src_row = (*ptr_mask_dim1) / src_cols;
-							int src_col = *ptr_mask_dim1 % src_cols;
-
 							for (i32 c = 0; c < channels; ++c) {
+								int src_row = ptr_mask_dim1[c] / src_cols;
+								int src_col = ptr_mask_dim1[c] % src_cols;
+
 								src.at<T>(src_row, src_col, c) += ptr_pooling_res[c];
 							}
 
@@ -1421,12 +1418,11 @@ namespace basicmath {
 							const int* ptr_mask = (const int*)ptr_mask_dim1;
 
 							for (int col = 0; col < res_cols; ++col) {
-
-								i32 src_plane = *ptr_mask / src_plane_element_number;
-								i32 src_row = (*ptr_mask - src_plane * src_plane_element_number) /  src_cols;
-								i32 src_col = *ptr_mask % src_cols;
-
 								for (i32 c = 0; c < channels; ++c) {
+									i32 src_plane = ptr_mask[c] / src_plane_element_number;
+									i32 src_row = (ptr_mask[c] - src_plane * src_plane_element_number) /  src_cols;
+									i32 src_col = ptr_mask[c] % src_cols;
+
 									src.at<T>(src_plane, src_row, src_col, c) += ptr_pooling_res[c];
 								}
 								
-- 
2.43.0


From 0d2ed4572bcd9f573c7ff6eeecec099f01c0a2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:01 +0000
Subject: [PATCH 078/195] fix: unpooling of sums works for 2d and 3d mats as
 for the others

---
 basicmath/src/mt_pooling.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/basicmath/src/mt_pooling.cpp b/basicmath/src/mt_pooling.cpp
index 5d9eaf9..e43045c 100644
--- a/basicmath/src/mt_pooling.cpp
+++ b/basicmath/src/mt_pooling.cpp
@@ -1075,7 +1075,7 @@ namespace basicmath {
 				i32 res_rows = pooling_res_mat.size()[0];
 				i32 res_cols = pooling_res_mat.size()[1];
 
-				if (pooling_type == mt_Pooling_Type_Mean) {
+				if (pooling_type == mt_Pooling_Type_Mean || pooling_type == mt_Pooling_Type_Sum) {
 					for (int row = 0; row < res_rows; ++row) {
 						const T* ptr_pooling_res = (const T*)ptr_pooling_res_dim0;
 						int mat_stop_row = min(mat_start_row + kernel_sizes[0], src_rows);
@@ -1085,7 +1085,7 @@ namespace basicmath {
 						for (int col = 0; col < res_cols; ++col) {					
 							int mat_stop_col = min(mat_start_col + kernel_sizes[1], src_cols);
 
-							int area = (mat_stop_row - mat_start_row) * (mat_stop_col - mat_start_col);
+							int area = pooling_type == mt_Pooling_Type_Sum ? 1 : (mat_stop_row - mat_start_row) * (mat_stop_col - mat_start_col);
 							T unpooling_data = *ptr_pooling_res / area;
 
 							for (int pooling_row = mat_start_row; pooling_row < mat_stop_row; ++pooling_row) {
@@ -1155,7 +1155,7 @@ namespace basicmath {
 				i32 res_rows = pooling_res_mat.size()[0];
 				i32 res_cols = pooling_res_mat.size()[1];
 
-				if (pooling_type == mt_Pooling_Type_Mean) {
+				if (pooling_type == mt_Pooling_Type_Mean || pooling_type == mt_Pooling_Type_Sum) {
 					for (int row = 0; row < res_rows; ++row) {
 						const T* ptr_pooling_res = (const T*)ptr_pooling_res_dim0;
 						int mat_stop_row = min(mat_start_row + kernel_sizes[0], src_rows);
@@ -1164,7 +1164,7 @@ namespace basicmath {
 
 						for (int col = 0; col < res_cols; ++col) {					
 							int mat_stop_col = min(mat_start_col + kernel_sizes[1], src_cols);
-							int area = (mat_stop_row - mat_start_row) * (mat_stop_col - mat_start_col);
+							int area = pooling_type == mt_Pooling_Type_Sum ? 1 : (mat_stop_row - mat_start_row) * (mat_stop_col - mat_start_col);
 
 							for (int pooling_row = mat_start_row; pooling_row < mat_stop_row; ++pooling_row) {
 								T* ptr_src = src.ptr<T>(pooling_row, mat_start_col, 0);
@@ -1245,7 +1245,7 @@ namespace basicmath {
 
 				i32 src_plane_element_number = src.size()[1] * src.size()[2];
 
-				if (pooling_type == mt_Pooling_Type_Mean) {
+				if (pooling_type == mt_Pooling_Type_Mean || pooling_type == mt_Pooling_Type_Sum) {
 					for (i32 plane = 0; plane < res_planes; ++plane) {
 						const u8* ptr_pooling_res_dim1 = ptr_pooling_res_dim0;
 
@@ -1261,7 +1261,7 @@ namespace basicmath {
 							for (int col = 0; col < res_cols; ++col) {					
 								int mat_stop_col = min(mat_start_col + kernel_sizes[2], src_cols);
 
-								int area = (mat_stop_plane - mat_start_plane) * (mat_stop_row - mat_start_row) * (mat_stop_col - mat_start_col);
+								int area = pooling_type == mt_Pooling_Type_Sum ? 1 : (mat_stop_plane - mat_start_plane) * (mat_stop_row - mat_start_row) * (mat_stop_col - mat_start_col);
 								T unpooling_data = *ptr_pooling_res / area;
 
 								for (i32 pooling_plane = mat_start_plane; pooling_plane < mat_stop_plane; ++pooling_plane) {
@@ -1362,7 +1362,7 @@ namespace basicmath {
 
 				i32 src_plane_element_number = src.size()[1] * src.size()[2];
 
-				if (pooling_type == mt_Pooling_Type_Mean) {
+				if (pooling_type == mt_Pooling_Type_Mean || pooling_type == mt_Pooling_Type_Sum) {
 					for (i32 plane = 0; plane < res_planes; ++plane) {
 						const u8* ptr_pooling_res_dim1 = ptr_pooling_res_dim0;
 
@@ -1378,7 +1378,7 @@ namespace basicmath {
 							for (int col = 0; col < res_cols; ++col) {					
 								int mat_stop_col = min(mat_start_col + kernel_sizes[2], src_cols);
 
-								int area = (mat_stop_plane - mat_start_plane) * (mat_stop_row - mat_start_row) * (mat_stop_col - mat_start_col);
+								int area = pooling_type == mt_Pooling_Type_Sum ? 1 : (mat_stop_plane - mat_start_plane) * (mat_stop_row - mat_start_row) * (mat_stop_col - mat_start_col);
 
 								for (i32 pooling_plane = mat_start_plane; pooling_plane < mat_stop_plane; ++pooling_plane) {
 									for (int pooling_row = mat_start_row; pooling_row < mat_stop_row; ++pooling_row) {
-- 
2.43.0


From 8eb4a14f17e92768336dd3004898a13298317116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:01 +0000
Subject: [PATCH 079/195] fix: index pooling uses the mask of each channel

---
 basicmath/src/mt_pooling.cpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/basicmath/src/mt_pooling.cpp b/basicmath/src/mt_pooling.cpp
index e43045c..fd1ba4e 100644
--- a/basicmath/src/mt_pooling.cpp
+++ b/basicmath/src/mt_pooling.cpp
@@ -115,14 +115,12 @@ namespace basicmath {
 					} else if (pooling_type == mt_Pooling_Type_Index) {
 						i32* ptr_mask_data = mask_mat.ptr<i32>(cur_indexs, 0);
 
-						mt_helper::multi_index_from_index(src_iter_indexs, *ptr_mask_data, src.dim(), src.size());
-
-						basiclog_assert2(src.is_valid_index(src_iter_indexs));
+						for (i32 c = 0; c < src.channel(); ++c) {
+							mt_helper::multi_index_from_index(src_iter_indexs, ptr_mask_data[c], src.dim(), src.size());
 
-						const T* ptr_src_data = src.ptr<T>(src_iter_indexs, 0);
+							basiclog_assert2(src.is_valid_index(src_iter_indexs));
 
-						for (i32 c = 0; c < src.channel(); ++c) {
-							ptr_data[c] = ptr_src_data[c];
+							ptr_data[c] = src.ptr<T>(src_iter_indexs, 0)[c];
 						}
 					}
 				}
@@ -563,7 +561,7 @@ namespace basicmath {
 
 						for (int col = 0; col < res_cols; ++col) {
 							for (i32 c = 0; c < channels; ++c) {
-								ptr_result[c] = src.at<T>(ptr_mask[c] / src_cols, ptr_mask[c] % src_cols, 0);
+								ptr_result[c] = src.at<T>(ptr_mask[c] / src_cols, ptr_mask[c] % src_cols, c);
 							}
 
 							mat_start_col += strides[1];
@@ -1037,11 +1035,11 @@ namespace basicmath {
 							i32* ptr_mask = (i32*)ptr_mask_dim1;
 
 							for (int col = 0; col < res_cols; ++col) {
-								i32 src_plane = *ptr_mask / src_plane_element_number;
-								i32 src_row = (*ptr_mask - src_plane * src_plane_element_number) /  src_cols;
-								i32 src_col = *ptr_mask % src_cols;
-
 								for (i32 c = 0; c < channels; ++c) {
+									i32 src_plane = ptr_mask[c] / src_plane_element_number;
+									i32 src_row = (ptr_mask[c] - src_plane * src_plane_element_number) /  src_cols;
+									i32 src_col = ptr_mask[c] % src_cols;
+
 									ptr_result[c] = src.at<T>(src_plane, src_row, src_col, c);
 								}
 								
-- 
2.43.0


From 6eef194699bd2cfabd137d291cf57e62b23c3b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:02 +0000
Subject: [PATCH 080/195] fix: mean pooling of integer mats does not overflow

---
 basicmath/src/mt_pooling.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/basicmath/src/mt_pooling.cpp b/basicmath/src/mt_pooling.cpp
index fd1ba4e..58ac74e 100644
--- a/basicmath/src/mt_pooling.cpp
+++ b/basicmath/src/mt_pooling.cpp
@@ -1482,6 +1482,11 @@ mt_mat mt_mat::pooling(mt_Pooling_Type pooling_type, const vector<basicsys::i32>
 }
 
 mt_mat mt_mat::pooling(mt_mat& mask_mat, mt_Pooling_Type pooling_type, i32 size, const basicsys::i32* kernel_sizes, const basicsys::i32* strides) const {
+	if (pooling_type == mt_Pooling_Type_Mean && depth() != mt_F32 && depth() != mt_F64) {
+		// the sum of a window may exceed the range of an integer depth
+		return convert(mt_F64).pooling(mask_mat, pooling_type, size, kernel_sizes, strides).convert(depth());
+	}
+
 	basicmath_mat_request_memory(i32, res_sizes, dim());
 
 	for (int i = 0; i < dim(); ++i) {
-- 
2.43.0


From e0eeead8ca37fdb2235e18848fedc747e1dd79f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:30 +0000
Subject: [PATCH 081/195] fix: max and min pooling of 3d mats start from the
 first element of the window

---
 basicmath/src/mt_pooling.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/basicmath/src/mt_pooling.cpp b/basicmath/src/mt_pooling.cpp
index 58ac74e..c3684c8 100644
--- a/basicmath/src/mt_pooling.cpp
+++ b/basicmath/src/mt_pooling.cpp
@@ -660,8 +660,8 @@ namespace basicmath {
 							i32 mat_start_col = 0;
 
 							for (int col = 0; col < res_cols; ++col) {
-								*ptr_result = src.at<T>(mat_stop_plane, mat_start_row, mat_start_col, 0);
-								*ptr_mask = mat_stop_plane * src_plane_element_number + mat_start_row * src.size()[2] + mat_start_col;
+								*ptr_result = src.at<T>(mat_start_plane, mat_start_row, mat_start_col, 0);
+								*ptr_mask = mat_start_plane * src_plane_element_number + mat_start_row * src.size()[2] + mat_start_col;
 
 								i32 mat_stop_col = min(mat_start_col + kernel_sizes[2], src_cols);
 
@@ -716,7 +716,7 @@ namespace basicmath {
 
 							for (int col = 0; col < res_cols; ++col) {
 								*ptr_result = src.at<T>(mat_start_plane, mat_start_row, mat_start_col, 0);
-								*ptr_mask = mat_stop_plane * src_plane_element_number + mat_start_row * src.size()[2] + mat_start_col;
+								*ptr_mask = mat_start_plane * src_plane_element_number + mat_start_row * src.size()[2] + mat_start_col;
 
 								i32 mat_stop_col = min(mat_start_col + kernel_sizes[2], src_cols);
 
@@ -896,7 +896,7 @@ namespace basicmath {
 							for (int col = 0; col < res_cols; ++col) {
 								for (i32 c = 0; c < channels; ++c) {
 									ptr_result[c] = src.at<T>(mat_start_plane, mat_start_row, mat_start_col, c);
-									ptr_mask[c] = mat_stop_plane * src_plane_element_number + mat_start_row * src_cols + mat_start_col;
+									ptr_mask[c] = mat_start_plane * src_plane_element_number + mat_start_row * src_cols + mat_start_col;
 								}
 
 								i32 mat_stop_col = min(mat_start_col + kernel_sizes[2], src_cols);
@@ -955,8 +955,8 @@ namespace basicmath {
 
 							for (int col = 0; col < res_cols; ++col) {
 								for (i32 c = 0; c < channels; ++c) {
-									ptr_result[c] = src.at<T>(mat_stop_plane, mat_start_row, mat_start_col, 0);
-									ptr_mask[c] = mat_stop_plane * src_plane_element_number + mat_start_row * src_cols + mat_start_col;
+									ptr_result[c] = src.at<T>(mat_start_plane, mat_start_row, mat_start_col, c);
+									ptr_mask[c] = mat_start_plane * src_plane_element_number + mat_start_row * src_cols + mat_start_col;
 								}
 
 								i32 mat_stop_col = min(mat_start_col + kernel_sizes[2], src_cols);
-- 
2.43.0


From d8842522015d1f3db25196a46033a57a5072fa45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:18 +0000
Subject: [PATCH 082/195] fix: merge_align_dim places every element by its own
 size and releases the sizes

---
 basicmath/src/mt_mat_helper.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/basicmath/src/mt_mat_helper.cpp b/basicmath/src/mt_mat_helper.cpp
index 99c5ffc..de7f861 100644
--- a/basicmath/src/mt_mat_helper.cpp
+++ b/basicmath/src/mt_mat_helper.cpp
@@ -25,11 +25,13 @@ mt_mat mt_mat_helper::merge_align_dim(const vector<mt_mat>& elements, i32 dim, b
 
 	mt_mat res(elements[0].dim(), res_size, elements[0].depth_channel());
 
+	basicmath_mat_release(res_size);
+
 	i32 dim_start_index = 0;
 
 	for (i32 i = 0; i < (i32)elements.size(); ++i) {
-		mt_mat sub_mat = res.sub(dim_start_index, dim_start_index + elements[0].size()[dim], dim);
-		dim_start_index += elements[0].size()[dim];
+		mt_mat sub_mat = res.sub(dim_start_index, dim_start_index + elements[i].size()[dim], dim);
+		dim_start_index += elements[i].size()[dim];
 
 		sub_mat.set(elements[i]);
 	}
-- 
2.43.0


From 3addafa0f6a2d41cbb15090d53c99afad91008b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:38 +0000
Subject: [PATCH 083/195] fix: expand releases its ranges

---
 basicmath/src/mt_mat_math_operation.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/basicmath/src/mt_mat_math_operation.cpp b/basicmath/src/mt_mat_math_operation.cpp
index 0da59b6..fe07bb0 100644
--- a/basicmath/src/mt_mat_math_operation.cpp
+++ b/basicmath/src/mt_mat_math_operation.cpp
@@ -2791,6 +2791,8 @@ mt_mat mt_mat::expand(i32 size, const i32* side_sizes_1, const i32* side_sizes_2
 		m_auto_derivative->expand(res, *this, size, ranges);
 	}
 
+	basicmath_mat_release(ranges);
+
 	return res;
 }
 
-- 
2.43.0


From 32a77d3e581c233eec60dc125b594518fe1d6132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:13 +0000
Subject: [PATCH 084/195] fix: derivative with respect to a mat that was never
 used does not crash

---
 basicmath/src/mt_auto_derivative.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/src/mt_auto_derivative.cpp b/basicmath/src/mt_auto_derivative.cpp
index f73a278..f28d940 100644
--- a/basicmath/src/mt_auto_derivative.cpp
+++ b/basicmath/src/mt_auto_derivative.cpp
@@ -52,7 +52,7 @@ mt_mat mt_auto_derivative::derivative(const mt_mat& target, const mt_mat& src) {
 
 		mt_ad_tree_node* target_node = find_same(target);
 
-		for (i32 i = 0; i < (i32)m_nodes.size(); ++i) {
+		for (i32 i = 0; target_node != NULL && i < (i32)m_nodes.size(); ++i) {
 			if (m_nodes[i]->match(src)) {
 				m_nodes[i]->to_mat_tree_node()->add_derivative_res(mt_mat(src, 1), src);
 
-- 
2.43.0


From 97ba6912958eba78d3473d233bf4672e80817d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:13 +0000
Subject: [PATCH 085/195] fix: changing a derivative does not change the cached
 one

---
 basicmath/src/mt_auto_derivative.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/basicmath/src/mt_auto_derivative.cpp b/basicmath/src/mt_auto_derivative.cpp
index f28d940..132298c 100644
--- a/basicmath/src/mt_auto_derivative.cpp
+++ b/basicmath/src/mt_auto_derivative.cpp
@@ -60,6 +60,11 @@ mt_mat mt_auto_derivative::derivative(const mt_mat& target, const mt_mat& src) {
 
 				res = target_node->to_mat_tree_node()->derivative_res(src);
 
+				if (!res.is_empty()) {
+					// the caller may change the result, but not the cached one
+					res = res.clone();
+				}
+
 				break;
 			}
 		}
-- 
2.43.0


From b2ba21c16ef3e2a9c6172c4b8efceb66f0ad32d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:13 +0000
Subject: [PATCH 086/195] fix: derivatives of several sources are summed for
 every target

---
 basicmath/src/mt_auto_derivative.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/basicmath/src/mt_auto_derivative.cpp b/basicmath/src/mt_auto_derivative.cpp
index 132298c..25942d0 100644
--- a/basicmath/src/mt_auto_derivative.cpp
+++ b/basicmath/src/mt_auto_derivative.cpp
@@ -83,7 +83,13 @@ mt_mat mt_auto_derivative::derivative(const mt_mat& target, const vector<mt_mat>
 	mt_mat res = derivative(target, srcs[0]);
 
 	for (i32 i = 1; i < (i32)srcs.size(); ++i) {
-		res += derivative(target, srcs[i]);
+		mt_mat src_res = derivative(target, srcs[i]);
+
+		if (res.is_empty()) {
+			res = src_res;
+		} else if (!src_res.is_empty()) {
+			res += src_res;
+		}
 	}
 
 	return res;
@@ -105,12 +111,10 @@ vector<mt_mat> mt_auto_derivative::derivative(vector<mt_mat>& targets, const mt_
 }
 
 void mt_auto_derivative::derivative(vector<mt_mat>& reses, const vector<mt_mat>& targets, const vector<mt_mat>& srcs) {
-	derivative(reses, targets, srcs[0]);
+	reses.resize(targets.size());
 
-	for (i32 i = 1; i < (i32)srcs.size(); ++i) {
-		for (i32 j = 0; j < (i32)targets.size(); ++j) {
-			reses[j] += derivative(targets[i], srcs[i]);
-		}
+	for (i32 i = 0; i < (i32)targets.size(); ++i) {
+		reses[i] = derivative(targets[i], srcs);
 	}
 }
 
-- 
2.43.0


From 8a8cfef8d21f346d90f394d8173190ef2d069b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:13 +0000
Subject: [PATCH 087/195] fix: subtracting a constant is recorded as
 subtraction

---
 basicmath/src/mt_mat_math_operation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/src/mt_mat_math_operation.cpp b/basicmath/src/mt_mat_math_operation.cpp
index fe07bb0..8f45058 100644
--- a/basicmath/src/mt_mat_math_operation.cpp
+++ b/basicmath/src/mt_mat_math_operation.cpp
@@ -2560,7 +2560,7 @@ mt_mat mt_mat::operator-(const vector<double>& value) const {
 	if (m_auto_derivative != NULL && m_auto_derivative->stage() == mt_auto_derivative::Stage_Record_Computing) {
 		res.m_auto_derivative = m_auto_derivative;
 
-		m_auto_derivative->add(res, *this, value);
+		m_auto_derivative->subtract(res, *this, value);
 	}
 
 	return res;
-- 
2.43.0


From d5d585b13d80c408c0bb56f507fb7d832450127a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:13 +0000
Subject: [PATCH 088/195] fix: division by or of a constant is supported by
 auto derivative

---
 basicmath/src/mt_mat_math_operation.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/basicmath/src/mt_mat_math_operation.cpp b/basicmath/src/mt_mat_math_operation.cpp
index 8f45058..dca06d0 100644
--- a/basicmath/src/mt_mat_math_operation.cpp
+++ b/basicmath/src/mt_mat_math_operation.cpp
@@ -2342,7 +2342,6 @@ namespace basicmath {
 			res.attach(mat.auto_derivative());
 
 			mat.auto_derivative()->div(res, vec_other, mat);
-			basiclog_unsupport2();
 		}
 
 		return res;
@@ -2655,7 +2654,6 @@ mt_mat mt_mat::operator/(const vector<double>& value) const {
 		res.m_auto_derivative = m_auto_derivative;
 
 		m_auto_derivative->div(res, *this, value);
-		basiclog_unsupport2();
 	}
 
 	return res;
-- 
2.43.0


From 09034b3932ce9fae6e1531f4ff19c1d7411dff84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:13 +0000
Subject: [PATCH 089/195] fix: derivative of pow has the exponent as a factor

---
 basicmath/include/mt_auto_derivative_tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/include/mt_auto_derivative_tree.h b/basicmath/include/mt_auto_derivative_tree.h
index 4614d5e..803cf00 100644
--- a/basicmath/include/mt_auto_derivative_tree.h
+++ b/basicmath/include/mt_auto_derivative_tree.h
@@ -721,7 +721,7 @@ namespace basicmath {
 		}
 
 		mt_mat derivate_child_on_operation( mt_ad_mat_tree_node* child_node, const mt_mat& derivative_res) {
-			return derivative_res * child_node->m_mat.pow(m_number - 1);
+			return derivative_res * child_node->m_mat.pow(m_number - 1) * m_number;
 		}
 
 	protected:
-- 
2.43.0


From 50bbd3d8a2c0784bb8d42493c5b996d3fbd1b377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:13 +0000
Subject: [PATCH 090/195] fix: derivative of log is divided by the logarithm of
 the base

---
 basicmath/src/mt_auto_derivative_tree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/src/mt_auto_derivative_tree.cpp b/basicmath/src/mt_auto_derivative_tree.cpp
index a06a3ea..31cc483 100644
--- a/basicmath/src/mt_auto_derivative_tree.cpp
+++ b/basicmath/src/mt_auto_derivative_tree.cpp
@@ -250,7 +250,7 @@ mt_mat mt_ad_log_tree_node::derivate_child_on_operation(mt_ad_mat_tree_node* chi
 	mt_mat child_derivative = 1 / child_node->m_mat;
 	
 	if (mt_helper::compare_double(m_base, mt_E) != 0) {
-		child_derivative *= log(m_base);	
+		child_derivative /= log(m_base);	
 	}
 
 	return child_derivative * derivative_res;
-- 
2.43.0


From 553c13ec9eab896623b32ac7a59e72d8fe311512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:55 +0000
Subject: [PATCH 091/195] fix: derivative of softmax takes the derivative of
 every output of the row into account

---
 basicmath/include/mt_auto_derivative_tree.h | 25 +++++++++++----------
 basicmath/src/mt_auto_derivative_tree.cpp   | 10 ++++-----
 2 files changed, 18 insertions(+), 17 deletions(-)

diff --git a/basicmath/include/mt_auto_derivative_tree.h b/basicmath/include/mt_auto_derivative_tree.h
index 803cf00..4dcf72c 100644
--- a/basicmath/include/mt_auto_derivative_tree.h
+++ b/basicmath/include/mt_auto_derivative_tree.h
@@ -792,9 +792,6 @@ namespace basicmath {
 	protected:
 
 		mt_mat derivate_child_on_operation(mt_ad_mat_tree_node* child_node, const mt_mat& derivative_res);
-		mt_mat softmax_derivate(const mt_mat& softmax_res);
-		mt_mat relu_derivate(const mt_mat& relu_res);
-
 		mt_Activate_Type m_activate_type;
 		vector<f64> m_activated_params;
 		b8 m_mix_loss_derivative;
@@ -910,26 +907,30 @@ namespace basicmath {
 	public:
 
 		template<class T>
-		static mt_mat softmax_derivate(const mt_mat& softmax_res) {
+		static mt_mat softmax_derivate(const mt_mat& softmax_res, const mt_mat& derivative_res) {
 			mt_mat res(softmax_res, 0);
 			const u8* ptr_softmax_res_dim0 = softmax_res.data();
+			const u8* ptr_derivative_res_dim0 = derivative_res.data();
 			u8* ptr_derivate_dim0 = res.data();
 
 			for (i32 row = 0; row < softmax_res.size()[0]; ++row) {
 				const T* ptr_softmax_res_dim1 = (const T*)ptr_softmax_res_dim0;
+				const T* ptr_derivative_res_dim1 = (const T*)ptr_derivative_res_dim0;
 				T* ptr_derivate_dim1 = (T*)ptr_derivate_dim0;
 
+				// every output of the row depends on every input of the row
+				T sum = 0;
+
+				for (i32 i = 0; i < softmax_res.size()[1]; ++i) {
+					sum += ptr_softmax_res_dim1[i] * ptr_derivative_res_dim1[i];
+				}
+
 				for (i32 col = 0; col < softmax_res.size()[1]; ++col) {
-					for (i32 i = 0; i < softmax_res.size()[1]; ++i) {
-						if (col == i) {
-							ptr_derivate_dim1[col] += ptr_softmax_res_dim1[i] * (1 - ptr_softmax_res_dim1[i]);
-						} else {
-							ptr_derivate_dim1[col] += -ptr_softmax_res_dim1[i] * ptr_softmax_res_dim1[col];
-						}
-					}
+					ptr_derivate_dim1[col] = ptr_softmax_res_dim1[col] * (ptr_derivative_res_dim1[col] - sum);
 				}
 
 				ptr_softmax_res_dim0 += softmax_res.step()[0];
+				ptr_derivative_res_dim0 += derivative_res.step()[0];
 				ptr_derivate_dim0 += res.step()[0];
 			}
 
@@ -1037,7 +1038,7 @@ namespace basicmath {
 			return res;
 		}
 
-		static mt_mat softmax_derivate(const mt_mat& src);
+		static mt_mat softmax_derivate(const mt_mat& src, const mt_mat& derivative_res);
 
 		static mt_mat relu_derivate(const mt_mat& src, const vector<f64>& activated_params);
 
diff --git a/basicmath/src/mt_auto_derivative_tree.cpp b/basicmath/src/mt_auto_derivative_tree.cpp
index 31cc483..2d3b6a6 100644
--- a/basicmath/src/mt_auto_derivative_tree.cpp
+++ b/basicmath/src/mt_auto_derivative_tree.cpp
@@ -269,6 +269,8 @@ mt_mat mt_ad_activate_tree_node::derivate_child_on_operation(mt_ad_mat_tree_node
 	} else {
 		if (m_activate_type == mt_Activate_Type_Linear) {
 			return derivative_res;
+		} else if (m_activate_type == mt_Activate_Type_Softmax) {
+			return mt_ad_helper::softmax_derivate(m_mat, derivative_res);
 		} else {
 			return derivative_res * mt_ad_helper::activate_derivative(m_mat, m_activate_type, m_activated_params);
 		}
@@ -348,14 +350,14 @@ mt_mat mt_ad_merge_align_channel_tree_node::derivate_child_on_operation(mt_ad_ma
 
 
 
-mt_mat mt_ad_helper::softmax_derivate(const mt_mat& src) {
+mt_mat mt_ad_helper::softmax_derivate(const mt_mat& src, const mt_mat& derivative_res) {
 	basiclog_assert2(src.dim() == 2);
 	basiclog_assert2(src.channel() == 1);
 
 	if (src.depth() == mt_F32) {
-		return mt_ad_helper::softmax_derivate<f32>(src);
+		return mt_ad_helper::softmax_derivate<f32>(src, derivative_res);
 	} else if (src.depth() == mt_F64) {
-		return mt_ad_helper::softmax_derivate<f64>(src);
+		return mt_ad_helper::softmax_derivate<f64>(src, derivative_res);
 	} else {
 		basiclog_unsupport2();
 		return mt_mat();
@@ -396,8 +398,6 @@ mt_mat mt_ad_helper::activate_derivative(const mt_mat& src, mt_Activate_Type act
 		return alpha_mul_belta * (1 - src.pow(2.0) * alpha_square_inver);
 	case mt_Activate_Type_Relu:
 		return relu_derivate(src, activated_params);
-	case mt_Activate_Type_Softmax:
-		return softmax_derivate(src);
 	default:
 		return mt_mat();
 	}
-- 
2.43.0


From aaef97a177474374a2c22a0ddaa5d478489bc119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:55 +0000
Subject: [PATCH 092/195] fix: nodes of constants are released with the others

---
 basicmath/src/mt_auto_derivative.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/basicmath/src/mt_auto_derivative.cpp b/basicmath/src/mt_auto_derivative.cpp
index 25942d0..1ce9fa1 100644
--- a/basicmath/src/mt_auto_derivative.cpp
+++ b/basicmath/src/mt_auto_derivative.cpp
@@ -344,6 +344,7 @@ mt_ad_tree_node* mt_auto_derivative::get_node(const mt_mat& mat) {
 
 mt_ad_tree_node* mt_auto_derivative::get_node(const vector<double>& const_value) {
 	mt_ad_tree_node* node = new mt_ad_const_leaf_tree_node(const_value);
+	m_nodes.push_back(node);
 	return node;
 }
 
-- 
2.43.0


From 1901b16b04b78cd0618de7e3abfdcf8eb5fc1869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:55 +0000
Subject: [PATCH 093/195] fix: sub, sub_channel, merge, add and dot record in
 the recording stage only

---
 basicmath/src/mt_mat.cpp        | 4 ++--
 basicmath/src/mt_mat_helper.cpp | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index 7d29c4c..c91f9fe 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -2700,7 +2700,7 @@ mt_mat mt_mat::sub_channel(i32 start_channel, i32 stop_channel) const {
 
 	res.m_data += start_channel * element_channel_size();
 
-	if (m_auto_derivative != NULL) {
+	if (m_auto_derivative != NULL && m_auto_derivative->stage() == mt_auto_derivative::Stage_Record_Computing) {
 		res.attach(m_auto_derivative);
 
 		m_auto_derivative->sub_channel(res, *this, start_channel, stop_channel);
@@ -2786,7 +2786,7 @@ mt_mat mt_mat::sub(i32 dims, const mt_range* ranges) const {
 		}
 	}		
 
-	if (m_auto_derivative != NULL) {
+	if (m_auto_derivative != NULL && m_auto_derivative->stage() == mt_auto_derivative::Stage_Record_Computing) {
 		res.attach(m_auto_derivative);
 
 		m_auto_derivative->sub(res, *this, dims, ranges);
diff --git a/basicmath/src/mt_mat_helper.cpp b/basicmath/src/mt_mat_helper.cpp
index de7f861..27439c1 100644
--- a/basicmath/src/mt_mat_helper.cpp
+++ b/basicmath/src/mt_mat_helper.cpp
@@ -36,7 +36,7 @@ mt_mat mt_mat_helper::merge_align_dim(const vector<mt_mat>& elements, i32 dim, b
 		sub_mat.set(elements[i]);
 	}
 
-	if (auto_derivative != NULL) {
+	if (auto_derivative != NULL && auto_derivative->stage() == mt_auto_derivative::Stage_Record_Computing) {
 		res.attach(auto_derivative);
 
 		for (i32 i = 0; i < (i32)elements.size(); ++i) {
@@ -81,7 +81,7 @@ mt_mat mt_mat_helper::merge_align_channel(const vector<mt_mat>& elements, b8 can
 		start_channel += elements[i].channel();
 	}
 
-	if (auto_derivative != NULL) {
+	if (auto_derivative != NULL && auto_derivative->stage() == mt_auto_derivative::Stage_Record_Computing) {
 		res.attach(auto_derivative);
 
 		for (i32 i = 0; i < (i32)elements.size(); ++i) {
@@ -208,7 +208,7 @@ mt_mat mt_mat_helper::add(const vector<mt_mat>& elements, b8 can_share_memory) {
 		res += temp;
 	}
 
-	if (auto_derivative != NULL) {
+	if (auto_derivative != NULL && auto_derivative->stage() == mt_auto_derivative::Stage_Record_Computing) {
 		res.attach(auto_derivative);
 
 		for (i32 i = 0; i < (i32)elements.size(); ++i) {
@@ -242,7 +242,7 @@ mt_mat mt_mat_helper::dot(const vector<mt_mat>& elements, b8 can_share_memory) {
 		res *= temp;
 	}
 
-	if (auto_derivative != NULL) {
+	if (auto_derivative != NULL && auto_derivative->stage() == mt_auto_derivative::Stage_Record_Computing) {
 		res.attach(auto_derivative);
 
 		for (i32 i = 0; i < (i32)elements.size(); ++i) {
-- 
2.43.0


From 8356dd8bf9e16b67e4019559af259d2b42160308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:55 +0000
Subject: [PATCH 094/195] fix: flip of one dimension is recorded for auto
 derivative

---
 basicmath/src/mt_mat.cpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index c91f9fe..e12bbd8 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -2534,12 +2534,7 @@ void mt_mat::on_vaule_changed() {
 }
 
 mt_mat mt_mat::flip(int dim) const {
-	mt_mat res = *this;
-
-	res.m_data += (res.size()[dim] - 1) * res.step()[dim];
-	res.step()[dim] = -res.step()[dim];
-
-	return res;
+	return flip(1, &dim);
 }
 
 mt_mat mt_mat::flip(const vector<int>& dim_indexs) const {
-- 
2.43.0


From 8bf500fef46ff09b41bac2a557a807e70a9ac855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:04 +0000
Subject: [PATCH 095/195] fix: derivative of a loss uses the derivative of
 every channel

---
 basicmath/src/mt_auto_derivative_tree.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/basicmath/src/mt_auto_derivative_tree.cpp b/basicmath/src/mt_auto_derivative_tree.cpp
index 2d3b6a6..24c1107 100644
--- a/basicmath/src/mt_auto_derivative_tree.cpp
+++ b/basicmath/src/mt_auto_derivative_tree.cpp
@@ -278,8 +278,10 @@ mt_mat mt_ad_activate_tree_node::derivate_child_on_operation(mt_ad_mat_tree_node
 }
 
 mt_mat mt_ad_loss_tree_node::derivate_child_on_operation(mt_ad_mat_tree_node* child_node, const mt_mat& derivative_res) {
-	f64 loss_derivative_value = derivative_res.get(0, 0)[0];
-	
+	vector<f64> loss_derivative_value;
+	i32 loss_index[] = {0, 0};
+	derivative_res.get(loss_derivative_value, 2, loss_index);
+
 	//basiclog_info2(loss_derivative_value);
 
 	switch (m_loss_type) {
-- 
2.43.0


From 7df77b996d46f345b15a7f89f6566888c3f10193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:04 +0000
Subject: [PATCH 096/195] fix: elements without a matching value have no
 influence on the derivative of a loss

---
 basicmath/include/mt_auto_derivative_tree.h | 30 +++++++++++++++++++++
 basicmath/src/mt_auto_derivative_tree.cpp   | 15 +++++++++--
 2 files changed, 43 insertions(+), 2 deletions(-)

diff --git a/basicmath/include/mt_auto_derivative_tree.h b/basicmath/include/mt_auto_derivative_tree.h
index 4dcf72c..0332d1b 100644
--- a/basicmath/include/mt_auto_derivative_tree.h
+++ b/basicmath/include/mt_auto_derivative_tree.h
@@ -1040,6 +1040,36 @@ namespace basicmath {
 
 		static mt_mat softmax_derivate(const mt_mat& src, const mt_mat& derivative_res);
 
+		/** The loss does not depend on the elements whose matching value is not a number.
+		*/
+		template<class T>
+		static mt_mat labelled_difference(const mt_mat& predicted_mat, const mt_mat& matching_mat) {
+			mt_mat res = predicted_mat - matching_mat;
+
+			mt_array_element_const_iterator matching_iter(matching_mat);
+			mt_array_element_iterator res_iter(res);
+
+			for (;;) {
+				T* ptr_res = (T*)res_iter.data();
+
+				if (ptr_res == NULL) {
+					break;
+				}
+
+				const T* ptr_matching = (const T*)matching_iter.data();
+
+				for (i32 c = 0; c < res.channel(); ++c) {
+					if (!mt_helper::is_number(ptr_matching[c])) {
+						ptr_res[c] = 0;
+					}
+				}
+			}
+
+			return res;
+		}
+
+		static mt_mat labelled_difference(const mt_mat& predicted_mat, const mt_mat& matching_mat);
+
 		static mt_mat relu_derivate(const mt_mat& src, const vector<f64>& activated_params);
 
 		static mt_mat activate_derivative(const mt_mat& src, mt_Activate_Type activate_type, const vector<f64>& activated_params);
diff --git a/basicmath/src/mt_auto_derivative_tree.cpp b/basicmath/src/mt_auto_derivative_tree.cpp
index 24c1107..34ea747 100644
--- a/basicmath/src/mt_auto_derivative_tree.cpp
+++ b/basicmath/src/mt_auto_derivative_tree.cpp
@@ -304,7 +304,7 @@ mt_mat mt_ad_loss_tree_node::derivate_child_on_operation(mt_ad_mat_tree_node* ch
 	case mt_Loss_Type_Quadratic:
 		
 		if (child_node == m_childs[0]) {
-			return (m_childs[0]->to_mat_tree_node()->m_mat - m_childs[1]->to_mat_tree_node()->m_mat) * loss_derivative_value;
+			return mt_ad_helper::labelled_difference(m_childs[0]->to_mat_tree_node()->m_mat, m_childs[1]->to_mat_tree_node()->m_mat) * loss_derivative_value;
 		} else if (child_node == m_childs[1]) {
 			basiclog_assert2(sys_false);
 			return mt_mat();
@@ -316,7 +316,7 @@ mt_mat mt_ad_loss_tree_node::derivate_child_on_operation(mt_ad_mat_tree_node* ch
 }
 
 mt_mat mt_ad_fake_loss_tree_node::derivate_child_on_operation(mt_ad_mat_tree_node* child_node, const mt_mat& derivative_res) {
-	return (m_childs[0]->to_mat_tree_node()->m_mat - m_childs[1]->to_mat_tree_node()->m_mat) * derivative_res.get(0, 0)[0];
+	return mt_ad_helper::labelled_difference(m_childs[0]->to_mat_tree_node()->m_mat, m_childs[1]->to_mat_tree_node()->m_mat) * derivative_res.get(0, 0)[0];
 }
 
 mt_mat mt_ad_merge_align_channel_tree_node::derivate_child_on_operation(mt_ad_mat_tree_node* child_node, const mt_mat& derivative_res) {
@@ -366,6 +366,17 @@ mt_mat mt_ad_helper::softmax_derivate(const mt_mat& src, const mt_mat& derivativ
 	}
 }
 
+mt_mat mt_ad_helper::labelled_difference(const mt_mat& predicted_mat, const mt_mat& matching_mat) {
+	if (predicted_mat.depth() == mt_F32) {
+		return labelled_difference<f32>(predicted_mat, matching_mat);
+	} else if (predicted_mat.depth() == mt_F64) {
+		return labelled_difference<f64>(predicted_mat, matching_mat);
+	} else {
+		basiclog_unsupport2();
+		return mt_mat();
+	}
+}
+
 mt_mat mt_ad_helper::relu_derivate(const mt_mat& src, const vector<f64>& activated_params) {
 	if (src.depth() == mt_F32) {
 		return mt_ad_helper::relu_derivate<f32>(src, activated_params.empty() ? 0 : activated_params[0]);
-- 
2.43.0


From 061e536ca8a012925de1a872d7418243eefbf66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:20 +0000
Subject: [PATCH 097/195] fix: derivative of an operation that has the same
 operand more than once

---
 basicmath/include/mt_auto_derivative.h |  5 ++
 basicmath/src/mt_auto_derivative.cpp   | 89 +++++++++++++++-----------
 2 files changed, 58 insertions(+), 36 deletions(-)

diff --git a/basicmath/include/mt_auto_derivative.h b/basicmath/include/mt_auto_derivative.h
index 3ef4027..f0477c7 100644
--- a/basicmath/include/mt_auto_derivative.h
+++ b/basicmath/include/mt_auto_derivative.h
@@ -122,6 +122,11 @@ namespace basicmath {
 		mt_ad_tree_node* get_node(const mt_mat& mat);
 		mt_ad_tree_node* get_node(const vector<double>& const_value);
 
+		/** One node for each operand: an operand that is there more than once gets further nodes, since a node has one position among the childs of its parent
+		*/
+		vector<mt_ad_tree_node*> get_nodes(const vector<mt_mat>& mats);
+		vector<mt_ad_tree_node*> get_nodes(const mt_mat& a, const mt_mat& b);
+
 		void derivative(mt_mat& derivated_mat, const mt_mat& target_mat, const mt_mat& src_mat, mt_ad_tree_node* src_node, const mt_ad_tree_node* src_parent_node);
 		//void derivate(mt_mat& derivated_mat, const mt_mat& target_mat, mt_ad_mat_tree_node* target_nodes, mt_ad_tree_node* src_node);
 
diff --git a/basicmath/src/mt_auto_derivative.cpp b/basicmath/src/mt_auto_derivative.cpp
index 1ce9fa1..2ab3033 100644
--- a/basicmath/src/mt_auto_derivative.cpp
+++ b/basicmath/src/mt_auto_derivative.cpp
@@ -134,34 +134,34 @@ void mt_auto_derivative::add(const mt_mat& res, const mt_mat& a, const vector<do
 }
 
 void mt_auto_derivative::add(const mt_mat& res, const mt_mat& a, const mt_mat& b) {
-	m_nodes.push_back(new mt_ad_add_tree_node(res, get_node(a), get_node(b), m_max_cache_size));
+	vector<mt_ad_tree_node*> childs = get_nodes(a, b);
+	m_nodes.push_back(new mt_ad_add_tree_node(res, childs[0], childs[1], m_max_cache_size));
 }
 
 void mt_auto_derivative::add(const mt_mat& res, const vector<mt_mat>& elements) {
-	vector<mt_ad_tree_node*> child_nodes;
-	child_nodes.resize(elements.size());
-
-	for (i32 i = 0; i < (i32)elements.size(); ++i) {
-		child_nodes[i] = get_node(elements[i]);
-	}
+	vector<mt_ad_tree_node*> child_nodes = get_nodes(elements);
 
 	m_nodes.push_back(new mt_ad_add_tree_node(res, child_nodes, m_max_cache_size));
 }
 
 void mt_auto_derivative::add_bias(const mt_mat& res, const mt_mat& a, const mt_mat& b) {
-	m_nodes.push_back(new mt_ad_add_bias_tree_node(res, get_node(a), get_node(b), m_max_cache_size));
+	vector<mt_ad_tree_node*> childs = get_nodes(a, b);
+	m_nodes.push_back(new mt_ad_add_bias_tree_node(res, childs[0], childs[1], m_max_cache_size));
 }
 
 void mt_auto_derivative::substract_bias(const mt_mat& res, const mt_mat& a, const mt_mat& b) {
-	m_nodes.push_back(new mt_ad_substract_bias_tree_node(res, get_node(a), get_node(b), m_max_cache_size));
+	vector<mt_ad_tree_node*> childs = get_nodes(a, b);
+	m_nodes.push_back(new mt_ad_substract_bias_tree_node(res, childs[0], childs[1], m_max_cache_size));
 }
 
 void mt_auto_derivative::mul_bias(const mt_mat& res, const mt_mat& a, const mt_mat& b) {
-	m_nodes.push_back(new mt_ad_mul_bias_tree_node(res, get_node(a), get_node(b), m_max_cache_size));
+	vector<mt_ad_tree_node*> childs = get_nodes(a, b);
+	m_nodes.push_back(new mt_ad_mul_bias_tree_node(res, childs[0], childs[1], m_max_cache_size));
 }
 
 void mt_auto_derivative::div_bias(const mt_mat& res, const mt_mat& a, const mt_mat& b) {
-	m_nodes.push_back(new mt_ad_div_bias_tree_node(res, get_node(a), get_node(b), m_max_cache_size));
+	vector<mt_ad_tree_node*> childs = get_nodes(a, b);
+	m_nodes.push_back(new mt_ad_div_bias_tree_node(res, childs[0], childs[1], m_max_cache_size));
 }
 
 void mt_auto_derivative::dot(const mt_mat& res, const mt_mat& a, const vector<double>& b) {
@@ -169,22 +169,19 @@ void mt_auto_derivative::dot(const mt_mat& res, const mt_mat& a, const vector<do
 }
 
 void mt_auto_derivative::dot(const mt_mat& res, const mt_mat& a, const mt_mat& b) {
-	m_nodes.push_back(new mt_ad_dot_tree_node(res, get_node(a), get_node(b), m_max_cache_size));
+	vector<mt_ad_tree_node*> childs = get_nodes(a, b);
+	m_nodes.push_back(new mt_ad_dot_tree_node(res, childs[0], childs[1], m_max_cache_size));
 }
 
 void mt_auto_derivative::dot(const mt_mat& res, const vector<mt_mat>& elements) {
-	vector<mt_ad_tree_node*> child_nodes;
-	child_nodes.resize(elements.size());
-
-	for (i32 i = 0; i < (i32)elements.size(); ++i) {
-		child_nodes[i] = get_node(elements[i]);
-	}
+	vector<mt_ad_tree_node*> child_nodes = get_nodes(elements);
 
 	m_nodes.push_back(new mt_ad_dot_tree_node(res, child_nodes, m_max_cache_size));
 }
 
 void mt_auto_derivative::div(const mt_mat& res, const mt_mat& a, const mt_mat& b) {
-	m_nodes.push_back(new mt_ad_div_tree_node(res, get_node(a), get_node(b), m_max_cache_size));
+	vector<mt_ad_tree_node*> childs = get_nodes(a, b);
+	m_nodes.push_back(new mt_ad_div_tree_node(res, childs[0], childs[1], m_max_cache_size));
 }
 
 void mt_auto_derivative::div(const mt_mat& res, const mt_mat& a, const vector<double>& b) {
@@ -196,29 +193,20 @@ void mt_auto_derivative::div(const mt_mat& res, const vector<double>& b, const m
 }
 
 void mt_auto_derivative::merge_align_channel(const mt_mat& res, const vector<mt_mat>& elements) {
-	vector<mt_ad_tree_node*> child_nodes;
-	child_nodes.resize(elements.size());
-
-	for (i32 i = 0; i < (i32)elements.size(); ++i) {
-		child_nodes[i] = get_node(elements[i]);
-	}
+	vector<mt_ad_tree_node*> child_nodes = get_nodes(elements);
 
 	m_nodes.push_back(new mt_ad_merge_align_channel_tree_node(res, child_nodes, m_max_cache_size));
 }
 
 void mt_auto_derivative::merge_align_dim(const mt_mat& res, const vector<mt_mat>& elements, i32 dim) {
-	vector<mt_ad_tree_node*> child_nodes;
-	child_nodes.resize(elements.size());
-
-	for (i32 i = 0; i < (i32)elements.size(); ++i) {
-		child_nodes[i] = get_node(elements[i]);
-	}
+	vector<mt_ad_tree_node*> child_nodes = get_nodes(elements);
 
 	m_nodes.push_back(new mt_ad_merge_align_dim_tree_node(res, child_nodes, dim, m_max_cache_size));
 }
 
 void mt_auto_derivative::subtract(const mt_mat& res, const mt_mat& a, const mt_mat& b) {
-	m_nodes.push_back(new mt_ad_subtract_tree_node(res, get_node(a), get_node(b), m_max_cache_size));
+	vector<mt_ad_tree_node*> childs = get_nodes(a, b);
+	m_nodes.push_back(new mt_ad_subtract_tree_node(res, childs[0], childs[1], m_max_cache_size));
 }
 
 void mt_auto_derivative::subtract(const mt_mat& res, const mt_mat& a, const vector<double>& b) {
@@ -230,7 +218,8 @@ void mt_auto_derivative::subtract(const mt_mat& res, const vector<double>& a, co
 }
 
 void mt_auto_derivative::mul(const mt_mat& res, const mt_mat& a, const mt_mat& b) {
-	m_nodes.push_back(new mt_ad_mul_tree_node(res, get_node(a), get_node(b), m_max_cache_size));
+	vector<mt_ad_tree_node*> childs = get_nodes(a, b);
+	m_nodes.push_back(new mt_ad_mul_tree_node(res, childs[0], childs[1], m_max_cache_size));
 }
 
 void mt_auto_derivative::cnov(const mt_mat& res, const mt_mat& src, const mt_mat& kernel, mt_Conv_Boundary_Type boundary_type, const i32* strides) {
@@ -238,7 +227,8 @@ void mt_auto_derivative::cnov(const mt_mat& res, const mt_mat& src, const mt_mat
 		basiclog_unsupport2();
 	}
 	
-	m_nodes.push_back(new mt_ad_conv_tree_node(res, get_node(src), get_node(kernel), strides, m_max_cache_size));
+	vector<mt_ad_tree_node*> childs = get_nodes(src, kernel);
+	m_nodes.push_back(new mt_ad_conv_tree_node(res, childs[0], childs[1], strides, m_max_cache_size));
 }
 
 void mt_auto_derivative::flip(const mt_mat& res, const mt_mat& src, i32 size, const b8* flip_flags) {
@@ -278,10 +268,12 @@ void mt_auto_derivative::activate(const mt_mat& res, const mt_mat& src, mt_Activ
 }
 
 void mt_auto_derivative::loss(const mt_mat& res, const mt_mat& predicted_mat, const mt_mat& matching_mat, mt_Loss_Type type) {
+	vector<mt_ad_tree_node*> childs = get_nodes(predicted_mat, matching_mat);
+
 	if (type == mt_Loss_Type_Logarithmic) {
-		m_nodes.push_back(new mt_ad_fake_loss_tree_node(res, get_node(predicted_mat), get_node(matching_mat), type, m_max_cache_size));
+		m_nodes.push_back(new mt_ad_fake_loss_tree_node(res, childs[0], childs[1], type, m_max_cache_size));
 	} else {
-		m_nodes.push_back(new mt_ad_loss_tree_node(res, get_node(predicted_mat), get_node(matching_mat), type, m_max_cache_size));
+		m_nodes.push_back(new mt_ad_loss_tree_node(res, childs[0], childs[1], type, m_max_cache_size));
 	}	
 }
 
@@ -342,6 +334,31 @@ mt_ad_tree_node* mt_auto_derivative::get_node(const mt_mat& mat) {
 	return node;
 }
 
+vector<mt_ad_tree_node*> mt_auto_derivative::get_nodes(const vector<mt_mat>& mats) {
+	vector<mt_ad_tree_node*> nodes;
+
+	for (i32 i = 0; i < (i32)mats.size(); ++i) {
+		mt_ad_tree_node* node = get_node(mats[i]);
+
+		if (find(nodes.begin(), nodes.end(), node) != nodes.end()) {
+			node = new mt_ad_clone_tree_node(mats[i], node, m_max_cache_size);
+			m_nodes.push_back(node);
+		}
+
+		nodes.push_back(node);
+	}
+
+	return nodes;
+}
+
+vector<mt_ad_tree_node*> mt_auto_derivative::get_nodes(const mt_mat& a, const mt_mat& b) {
+	vector<mt_mat> mats;
+	mats.push_back(a);
+	mats.push_back(b);
+
+	return get_nodes(mats);
+}
+
 mt_ad_tree_node* mt_auto_derivative::get_node(const vector<double>& const_value) {
 	mt_ad_tree_node* node = new mt_ad_const_leaf_tree_node(const_value);
 	m_nodes.push_back(node);
-- 
2.43.0


From 969631adafebf111c246493f12855d3ef656c9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:57 +0000
Subject: [PATCH 098/195] fix: derivative of the multiplication of a single
 multi-channel matrix

---
 basicmath/src/mt_auto_derivative_tree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/src/mt_auto_derivative_tree.cpp b/basicmath/src/mt_auto_derivative_tree.cpp
index 34ea747..18705a6 100644
--- a/basicmath/src/mt_auto_derivative_tree.cpp
+++ b/basicmath/src/mt_auto_derivative_tree.cpp
@@ -178,7 +178,7 @@ mt_mat mt_ad_dot_tree_node::derivate_child_on_operation(mt_ad_mat_tree_node* chi
 	}
 
 	if (other_mats.empty()) {
-		return derivative_res * constant_value;
+		return constant_value.size() == 1 ? derivative_res * constant_value[0] : derivative_res * constant_value;
 	} else {
 		return mt_mat_helper::dot(other_mats, sys_false) * derivative_res;
 	}
-- 
2.43.0


From dd0f08b382b090ba3859866050a0807459c284e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:51 +0000
Subject: [PATCH 099/195] fix: splitting at an empty tag gives the text

---
 basicsys/src/sys_strhelper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicsys/src/sys_strhelper.cpp b/basicsys/src/sys_strhelper.cpp
index e61b0c1..9236981 100644
--- a/basicsys/src/sys_strhelper.cpp
+++ b/basicsys/src/sys_strhelper.cpp
@@ -32,7 +32,7 @@ void sys_strhelper::split(vector<string>& elements, const string& text, const st
 	}
 
 	if (split_tag.empty()) {
-		elements.push_back(split_tag);
+		elements.push_back(text);
 		return;
 	}
 
-- 
2.43.0


From dd1f671bad9b9d2edee1a9dbc1adf1d46ec77bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:51 +0000
Subject: [PATCH 100/195] fix: splitting skips the whole tag

---
 basicsys/src/sys_strhelper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicsys/src/sys_strhelper.cpp b/basicsys/src/sys_strhelper.cpp
index 9236981..4579cd1 100644
--- a/basicsys/src/sys_strhelper.cpp
+++ b/basicsys/src/sys_strhelper.cpp
@@ -46,7 +46,7 @@ void sys_strhelper::split(vector<string>& elements, const string& text, const st
 		} else {
 			elements.push_back(text.substr(index, tempIndex - index));
 
-			index = tempIndex + 1;
+			index = tempIndex + split_tag.size();
 		}
 	}
 }
-- 
2.43.0


From 934091113d3e46884aaf1108e19efbdf0f6b4101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:51 +0000
Subject: [PATCH 101/195] fix: edit distances above 255 do not overflow

---
 basicsys/src/sys_strhelper.cpp | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/basicsys/src/sys_strhelper.cpp b/basicsys/src/sys_strhelper.cpp
index 4579cd1..26c13c0 100644
--- a/basicsys/src/sys_strhelper.cpp
+++ b/basicsys/src/sys_strhelper.cpp
@@ -140,29 +140,29 @@ int sys_strhelper::levenshtein_distance(const string& word1, const string& word2
 
 	//optimization
 	if (size2 < 16) {
-		STRING_DEFINE_BUFFER_ALLOC_STATIC(uint8_t, 16);
-		STRING_DEFINE_CALCULATE_DIST(uint8_t);
+		STRING_DEFINE_BUFFER_ALLOC_STATIC(int, 16);
+		STRING_DEFINE_CALCULATE_DIST(int);
 	} else if (size2 < 32) {
-		STRING_DEFINE_BUFFER_ALLOC_STATIC(uint8_t, 32);
-		STRING_DEFINE_CALCULATE_DIST(uint8_t);
+		STRING_DEFINE_BUFFER_ALLOC_STATIC(int, 32);
+		STRING_DEFINE_CALCULATE_DIST(int);
 	} else if (size2 < 64) {
-		STRING_DEFINE_BUFFER_ALLOC_STATIC(uint8_t, 64);
-		STRING_DEFINE_CALCULATE_DIST(uint8_t);
+		STRING_DEFINE_BUFFER_ALLOC_STATIC(int, 64);
+		STRING_DEFINE_CALCULATE_DIST(int);
 	} else if (size2 < 256) {
-		STRING_DEFINE_BUFFER_ALLOC_STATIC(uint8_t, 256);
-		STRING_DEFINE_CALCULATE_DIST(uint8_t);
+		STRING_DEFINE_BUFFER_ALLOC_STATIC(int, 256);
+		STRING_DEFINE_CALCULATE_DIST(int);
 	} else if (size2 < 1024) {
-		STRING_DEFINE_BUFFER_ALLOC_STATIC(uint16_t, 1024);
-		STRING_DEFINE_CALCULATE_DIST(uint16_t);
+		STRING_DEFINE_BUFFER_ALLOC_STATIC(int, 1024);
+		STRING_DEFINE_CALCULATE_DIST(int);
 	} else if (size2 < 4048) {
-		STRING_DEFINE_BUFFER_ALLOC_STATIC(uint16_t, 4048);
-		STRING_DEFINE_CALCULATE_DIST(uint16_t);
+		STRING_DEFINE_BUFFER_ALLOC_STATIC(int, 4048);
+		STRING_DEFINE_CALCULATE_DIST(int);
 	} else if (size2 < SHRT_MAX) {
-		STRING_DEFINE_BUFFER_ALLOC_DYMANAIC(uint16_t, size2 + 1);
-		STRING_DEFINE_CALCULATE_DIST(uint16_t);
+		STRING_DEFINE_BUFFER_ALLOC_DYMANAIC(int, size2 + 1);
+		STRING_DEFINE_CALCULATE_DIST(int);
 	} else {
-		STRING_DEFINE_BUFFER_ALLOC_DYMANAIC(uint32_t, size2 + 1);
-		STRING_DEFINE_CALCULATE_DIST(uint32_t);
+		STRING_DEFINE_BUFFER_ALLOC_DYMANAIC(int, size2 + 1);
+		STRING_DEFINE_CALCULATE_DIST(int);
 	}
 
 	return dist;
-- 
2.43.0


From d561500020db3d1ebc68491e73132fa56734e3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:51 +0000
Subject: [PATCH 102/195] fix: edit distance of an empty word uses the costs

---
 basicsys/src/sys_strhelper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicsys/src/sys_strhelper.cpp b/basicsys/src/sys_strhelper.cpp
index 26c13c0..18ca30e 100644
--- a/basicsys/src/sys_strhelper.cpp
+++ b/basicsys/src/sys_strhelper.cpp
@@ -76,9 +76,9 @@ int sys_strhelper::levenshtein_distance(const string& word1, const string& word2
 
 	//Process the exception
 	if (word1.empty()) {
-		return (int)word2.size();
+		return (int)word2.size() * insertCost;
 	} else if (word2.empty()) {
-		return (int)word1.size();
+		return (int)word1.size() * deleteCost;
 	}
 
 	//Select the small string as base to reduce the memory requirement
-- 
2.43.0


From bf6d66a45130e4104796aeea357f67078cee5883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:51 +0000
Subject: [PATCH 103/195] fix: edit distance to a longer word does not mix up
 insert and delete costs

---
 basicsys/src/sys_strhelper.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/basicsys/src/sys_strhelper.cpp b/basicsys/src/sys_strhelper.cpp
index 18ca30e..0839f67 100644
--- a/basicsys/src/sys_strhelper.cpp
+++ b/basicsys/src/sys_strhelper.cpp
@@ -99,6 +99,9 @@ int sys_strhelper::levenshtein_distance(const string& word1, const string& word2
 
 	if (word1.size() > word2.size()) {
 		swap(smallString, largeString);
+	} else {
+		// the large string is the target, so that insert and delete change their roles
+		swap(insertCost, deleteCost);
 	}
 
 	wstring::size_type size1 = largeString->size();
-- 
2.43.0


From 1791624ddb5cd0a6275e9fa09aee0dd68bc7fb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:51 +0000
Subject: [PATCH 104/195] fix: edit distance of long words does not leak its
 buffers

---
 basicsys/src/sys_strhelper.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/basicsys/src/sys_strhelper.cpp b/basicsys/src/sys_strhelper.cpp
index 0839f67..3f8d072 100644
--- a/basicsys/src/sys_strhelper.cpp
+++ b/basicsys/src/sys_strhelper.cpp
@@ -163,9 +163,13 @@ int sys_strhelper::levenshtein_distance(const string& word1, const string& word2
 	} else if (size2 < SHRT_MAX) {
 		STRING_DEFINE_BUFFER_ALLOC_DYMANAIC(int, size2 + 1);
 		STRING_DEFINE_CALCULATE_DIST(int);
+		delete[] p;
+		delete[] q;
 	} else {
 		STRING_DEFINE_BUFFER_ALLOC_DYMANAIC(int, size2 + 1);
 		STRING_DEFINE_CALCULATE_DIST(int);
+		delete[] p;
+		delete[] q;
 	}
 
 	return dist;
-- 
2.43.0


From 96942904c9c1c2a87a69f829e92dee7ef389d055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:51 +0000
Subject: [PATCH 105/195] fix: conversion between utf8 and utf16 outside of
 Windows

---
 basicsys/src/sys_strconvert.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/basicsys/src/sys_strconvert.cpp b/basicsys/src/sys_strconvert.cpp
index 5ba431e..3f5a7ef 100644
--- a/basicsys/src/sys_strconvert.cpp
+++ b/basicsys/src/sys_strconvert.cpp
@@ -4,6 +4,8 @@
 #include <windows.h>
 #else
 #include <locale.h>
+#include <codecvt>
+#include <locale>
 #endif
 
 string sys_strconvert::utf8_from_utf16(const wstring& utf16) {
@@ -27,6 +29,9 @@ string sys_strconvert::utf8_from_utf16(const wstring& utf16) {
 		}			
 	}
 
+#else
+	delete[] mBuffer;
+	return std::wstring_convert<std::codecvt_utf8<wchar_t> >("").to_bytes(utf16);
 #endif
 
 	string res(mBuffer);
@@ -54,6 +59,9 @@ wstring sys_strconvert::utf16_from_utf8(const string& utf8) {
 			bFailed=(0 == ::MultiByteToWideChar( CP_UTF8, 0, utf8.c_str(), nLengthA, mBuffer, nLengthW));
 		}			
 	}
+#else
+	delete[] mBuffer;
+	return std::wstring_convert<std::codecvt_utf8<wchar_t> >("", L"").from_bytes(utf8);
 #endif
 
 	wstring res(mBuffer);
-- 
2.43.0


From 3641512ccb8b8783d42f1bcd4c4c8195c85016fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:30 +0000
Subject: [PATCH 106/195] fix: a file that cannot be opened is reported outside
 of Windows

---
 basicsys/include/sys_basic_define.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicsys/include/sys_basic_define.h b/basicsys/include/sys_basic_define.h
index 6ad0bcf..b8f09b0 100644
--- a/basicsys/include/sys_basic_define.h
+++ b/basicsys/include/sys_basic_define.h
@@ -92,7 +92,7 @@ namespace basicsys {
 static int fopen_s(FILE ** fp, const char * path, const char * flag) {
 	*fp = fopen(path, flag);
 
-	if (*flag != NULL) {
+	if (*fp != NULL) {
 		return 0;
 	}
 
-- 
2.43.0


From f9ea2adef53fcc3b3df35becebcdfa6d31703542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:30 +0000
Subject: [PATCH 107/195] fix: status of file buffers is the one their
 operations set

---
 basicsys/include/sys_buffer.h | 14 +++++---------
 basicsys/src/sys_buffer.cpp   |  2 +-
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/basicsys/include/sys_buffer.h b/basicsys/include/sys_buffer.h
index f56ce7b..6b283c7 100644
--- a/basicsys/include/sys_buffer.h
+++ b/basicsys/include/sys_buffer.h
@@ -260,15 +260,14 @@ namespace basicsys {
 
 		virtual sys_buffer_writer* seek(i64 offset, sys_File_Seek seek_type);
 
-		virtual sys_IO_Status get_status() {
-			return m_file_io_status;
+		virtual sys_IO_Status get_status() const {
+			return m_io_status;
 		}
 
 	protected:
 
 		FILE* m_file;
 		b8 m_need_close_file;
-		mutable sys_IO_Status m_file_io_status;
 	};
 
 	class sys_byte_file_buffer_reader : public sys_byte_buffer_reader {
@@ -284,7 +283,7 @@ namespace basicsys {
 		}
 
 		virtual sys_IO_Status get_status() const {
-			return m_file_io_status;
+			return m_io_status;
 		}
 
 		/**
@@ -324,7 +323,6 @@ namespace basicsys {
 
 		FILE* m_file;
 		b8 m_need_close_file;
-		mutable sys_IO_Status m_file_io_status;
 	};
 
 
@@ -463,15 +461,14 @@ namespace basicsys {
 		
 		virtual sys_buffer_writer* seek(i64 offset, sys_File_Seek seek_type);
 
-		virtual sys_IO_Status get_status() {
-			return m_file_io_status;
+		virtual sys_IO_Status get_status() const {
+			return m_io_status;
 		}
 
 	protected:
 
 		FILE* m_file;
 		b8 m_need_close_file;
-		mutable sys_IO_Status m_file_io_status;
 	};
 
 	class sys_string_file_buffer_reader : public sys_string_buffer_reader {
@@ -503,7 +500,6 @@ namespace basicsys {
 
 		FILE* m_file;
 		b8 m_need_close_file;
-		mutable sys_IO_Status m_file_io_status;
 	};
 
 
diff --git a/basicsys/src/sys_buffer.cpp b/basicsys/src/sys_buffer.cpp
index c5aa3ce..ded8aa3 100644
--- a/basicsys/src/sys_buffer.cpp
+++ b/basicsys/src/sys_buffer.cpp
@@ -801,7 +801,7 @@ sys_buffer_writer* sys_string_file_buffer_writer::seek(i64 offset, sys_File_Seek
 sys_string_file_buffer_reader::sys_string_file_buffer_reader(const string& file_path)
 	: sys_string_buffer_reader(string()) {
 		if (fopen_s(&m_file, file_path.c_str(), "rb") != 0) {
-			m_file_io_status = sys_IO_Status_Error_File_Operation;
+			m_io_status = sys_IO_Status_Error_File_Operation;
 			basiclog_warning2("failed to _wfopen_s");
 		}
 
-- 
2.43.0


From b017efb46fd31f41abb44bc6b0348d518465a6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:30 +0000
Subject: [PATCH 108/195] fix: appending to a file keeps what it contains

---
 basicsys/src/sys_buffer.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/basicsys/src/sys_buffer.cpp b/basicsys/src/sys_buffer.cpp
index ded8aa3..c98023e 100644
--- a/basicsys/src/sys_buffer.cpp
+++ b/basicsys/src/sys_buffer.cpp
@@ -295,9 +295,11 @@ sys_buffer_reader* sys_byte_buffer_reader::seek(i64 offset, sys_File_Seek seek_t
 
 sys_byte_file_buffer_writer::sys_byte_file_buffer_writer(const string& file_path, b8 is_append /* = false */)
 	: sys_byte_buffer_writer(NULL) {
-		if (fopen_s(&m_file, file_path.c_str(), is_append ? "wb+" : "wb") != 0) {
+		if (fopen_s(&m_file, file_path.c_str(), is_append ? "ab" : "wb") != 0) {
 			m_io_status = sys_IO_Status_Error_File_Operation;
 			basiclog_warning2("failed to _wfopen_s");
+		} else if (is_append) {
+			fseek(m_file, 0, SEEK_END);
 		}
 
 		m_need_close_file = true;
@@ -730,9 +732,11 @@ sys_buffer_reader* sys_string_buffer_reader::seek(i64 offset, sys_File_Seek seek
 
 sys_string_file_buffer_writer::sys_string_file_buffer_writer(const string& file_path, b8 is_append /* = false */)
 : sys_string_buffer_writer(NULL) {
-	if (fopen_s(&m_file, file_path.c_str(), is_append ? "wb+" : "wb") != 0) {
+	if (fopen_s(&m_file, file_path.c_str(), is_append ? "ab" : "wb") != 0) {
 		m_io_status = sys_IO_Status_Error_File_Operation;
 		basiclog_warning2("failed to _wfopen_s");
+	} else if (is_append) {
+		fseek(m_file, 0, SEEK_END);
 	}
 
 	m_need_close_file = true;
-- 
2.43.0


From 9d83b65856c5033e0f30bcf8e08505f826fea71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:30 +0000
Subject: [PATCH 109/195] fix: writing nothing to a byte file is not an error

---
 basicsys/src/sys_buffer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicsys/src/sys_buffer.cpp b/basicsys/src/sys_buffer.cpp
index c98023e..051192b 100644
--- a/basicsys/src/sys_buffer.cpp
+++ b/basicsys/src/sys_buffer.cpp
@@ -325,7 +325,7 @@ void sys_byte_file_buffer_writer::close() {
 
 sys_buffer_writer* sys_byte_file_buffer_writer::write(const u8* start, const u8* stop) {
 
-	if (fwrite(start, stop - start, 1, m_file) != 1) {
+	if (stop != start && fwrite(start, stop - start, 1, m_file) != 1) {
 		m_io_status = sys_IO_Status_Error_File_Operation;
 		basiclog_warning2("failed to fwrite");
 	}
-- 
2.43.0


From 54d2290a0a0398a1d22d13fe8b396761825bd367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:30 +0000
Subject: [PATCH 110/195] fix: writing an empty vector does not access its
 first element

---
 basicsys/src/sys_buffer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/basicsys/src/sys_buffer.cpp b/basicsys/src/sys_buffer.cpp
index 051192b..1f261e8 100644
--- a/basicsys/src/sys_buffer.cpp
+++ b/basicsys/src/sys_buffer.cpp
@@ -82,6 +82,10 @@ sys_buffer_writer* sys_byte_buffer_writer::write(f64 val) {
 }
 
 sys_buffer_writer* sys_byte_buffer_writer::write(const vector<u8>& buffer) {
+	if (buffer.empty()) {
+		return this;
+	}
+
 	u8* start = (u8*)&buffer[0];
 	u8* stop = start + (i32)buffer.size();
 
-- 
2.43.0


From 79fe07bb71c75c3eb641808f316172b574487c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:30 +0000
Subject: [PATCH 111/195] fix: reading a string from bytes keeps what follows a
 zero

---
 basicsys/src/sys_buffer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicsys/src/sys_buffer.cpp b/basicsys/src/sys_buffer.cpp
index 1f261e8..1716775 100644
--- a/basicsys/src/sys_buffer.cpp
+++ b/basicsys/src/sys_buffer.cpp
@@ -247,7 +247,7 @@ void sys_byte_buffer_reader::read_str(string& str, i32 size) const {
 	read((u8*)buffer, size);
 
 	if (m_io_status == sys_IO_Status_OK) {
-		str = string(buffer);
+		str = string(buffer, character_number);
 	}
 	
 	delete[] buffer;
-- 
2.43.0


From 49f8b49fb3383bbcbc434ab1fc63028240f1e710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:30 +0000
Subject: [PATCH 112/195] fix: reading a character moves on

---
 basicsys/src/sys_buffer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/basicsys/src/sys_buffer.cpp b/basicsys/src/sys_buffer.cpp
index 1716775..050c79c 100644
--- a/basicsys/src/sys_buffer.cpp
+++ b/basicsys/src/sys_buffer.cpp
@@ -679,8 +679,10 @@ i8 sys_string_buffer_reader::read_char() const {
 		return 0;
 	}
 
-	return m_str->at(m_position / sizeof(i8));
+	i8 c = m_str->at(m_position / sizeof(i8));
 	m_position += sizeof(i8);
+
+	return c;
 }
 
 void sys_string_buffer_reader::read_str(string& str, i32 size) const {
-- 
2.43.0


From 769221856e258d0a03d6c51ad45445979d5c3c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:30 +0000
Subject: [PATCH 113/195] fix: reading a line stops at its end

---
 basicsys/src/sys_buffer.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/basicsys/src/sys_buffer.cpp b/basicsys/src/sys_buffer.cpp
index 050c79c..a58f1b1 100644
--- a/basicsys/src/sys_buffer.cpp
+++ b/basicsys/src/sys_buffer.cpp
@@ -710,9 +710,11 @@ void sys_string_buffer_reader::read_line(string& str) const {
 	while (!is_eof()) {
 		i8 c = read_char();
 
-		if (c != '\n') {
-			str.insert(str.end(), c);
+		if (c == '\n') {
+			break;
 		}
+
+		str.insert(str.end(), c);
 	}
 }
 
@@ -944,8 +946,10 @@ void sys_string_file_buffer_reader::read_line(string& str) const {
 	while (!is_eof()) {
 		i8 c = read_char();
 
-		if (c != '\n') {
-			str.insert(str.end(), c);
+		if (c == '\n') {
+			break;
 		}
+
+		str.insert(str.end(), c);
 	}
 }
\ No newline at end of file
-- 
2.43.0


From ef60ab71a668b035f56189b2183b4b5ffe54900c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:30 +0000
Subject: [PATCH 114/195] fix: reading more characters than a file has is an
 end of file error

---
 basicsys/src/sys_buffer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicsys/src/sys_buffer.cpp b/basicsys/src/sys_buffer.cpp
index a58f1b1..f36f742 100644
--- a/basicsys/src/sys_buffer.cpp
+++ b/basicsys/src/sys_buffer.cpp
@@ -866,7 +866,7 @@ i8 sys_string_file_buffer_reader::read_char() const {
 }
 
 void sys_string_file_buffer_reader::read_str(string& str, i32 size) const {
-	if (is_eof()) {
+	if (remain_size() < size) {
 		m_io_status = sys_IO_Status_Error_Eof;
 		return;
 	}
-- 
2.43.0


From da7da61e47b4a3b7f2f733deca100df69ea10b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:30 +0000
Subject: [PATCH 115/195] fix: reading a string from a file keeps what follows
 a zero and does not leak

---
 basicsys/src/sys_buffer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicsys/src/sys_buffer.cpp b/basicsys/src/sys_buffer.cpp
index f36f742..975e914 100644
--- a/basicsys/src/sys_buffer.cpp
+++ b/basicsys/src/sys_buffer.cpp
@@ -881,8 +881,8 @@ void sys_string_file_buffer_reader::read_str(string& str, i32 size) const {
 		basiclog_warning2("failed to fread");
 	}
 
-	temp[character_count] = 0;
-	str = temp;
+	str = string(temp, character_count);
+	delete[] temp;
 }
 
 i64 sys_string_file_buffer_reader::position() const {
-- 
2.43.0


From 491d50611525ef517101cfbfcabe0b33a841050b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:30 +0000
Subject: [PATCH 116/195] fix: byte file reader closes its file

---
 basicsys/include/sys_buffer.h | 2 ++
 basicsys/src/sys_buffer.cpp   | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/basicsys/include/sys_buffer.h b/basicsys/include/sys_buffer.h
index 6b283c7..296eac2 100644
--- a/basicsys/include/sys_buffer.h
+++ b/basicsys/include/sys_buffer.h
@@ -278,6 +278,8 @@ namespace basicsys {
 
 		virtual ~sys_byte_file_buffer_reader();
 
+		virtual void close();
+
 		virtual b8 is_closed() const {
 			return m_file == NULL;
 		}
diff --git a/basicsys/src/sys_buffer.cpp b/basicsys/src/sys_buffer.cpp
index 975e914..4d5cb86 100644
--- a/basicsys/src/sys_buffer.cpp
+++ b/basicsys/src/sys_buffer.cpp
@@ -381,6 +381,14 @@ sys_byte_file_buffer_reader::~sys_byte_file_buffer_reader() {
 	close();
 }
 
+void sys_byte_file_buffer_reader::close() {
+	if (m_file != NULL && m_need_close_file) {
+		fclose(m_file);
+	}
+
+	m_file = NULL;
+}
+
 //c16 sys_byte_file_buffer_reader::read_c16() const {
 //	c16 value;
 //	u8* ptr_value = (u8*)&value;
-- 
2.43.0


From cd4d2f143463e4aed8d91a41062468304e3d489e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 117/195] fix: json reader does not depend on uninitialised
 memory

---
 basicsys/src/sys_json.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/basicsys/src/sys_json.cpp b/basicsys/src/sys_json.cpp
index 64948d8..9753b74 100644
--- a/basicsys/src/sys_json.cpp
+++ b/basicsys/src/sys_json.cpp
@@ -421,6 +421,7 @@ sys_json_reader::sys_json_reader(sys_buffer_reader* reader, const string& node_n
 	m_offset = offset;
 	m_size = size;
 	m_node_type = node_type;
+	m_loaded = sys_false;
 
 	if (m_size == -1) {
 		m_size = (i32)reader->remain_size();
-- 
2.43.0


From 5694208373f6cc9b30041b999134bb52a54f18b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 118/195] fix: size of a json node that was not accessed before

---
 basicsys/include/sys_json.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/basicsys/include/sys_json.h b/basicsys/include/sys_json.h
index 50aac3a..a5d0740 100644
--- a/basicsys/include/sys_json.h
+++ b/basicsys/include/sys_json.h
@@ -165,6 +165,8 @@ namespace basicsys {
 		b8 has_key(const string& key_name) const;
 
 		i32 size() const {
+			(const_cast<sys_json_reader*>(this))->load();
+
 			if (is_map()) {
 				return (i32)m_map_nodes.size();
 			} else if (is_seq()) {
-- 
2.43.0


From b0560fc4756c9de8e71602cc7197b0b06b1a0711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 119/195] fix: empty text in a binary json map

---
 basicsys/src/sys_json.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/basicsys/src/sys_json.cpp b/basicsys/src/sys_json.cpp
index 9753b74..500c7a5 100644
--- a/basicsys/src/sys_json.cpp
+++ b/basicsys/src/sys_json.cpp
@@ -873,10 +873,6 @@ void sys_json_reader::binary_load_struct_info() {
 
 			i32 node_data_size = reader->read_i32();
 
-			if (node_type != sys_Node_Type_Map && node_type != sys_Node_Type_Seq) {
-				basiclog_assert2(node_data_size > 0);
-			}
-
 			sys_json_reader node(reader, node_name, reader->position(), node_data_size, node_type);
 			m_map_nodes.insert(make_pair(node_name, node));
 
-- 
2.43.0


From 2a7dbe3b738a3e02cef25733fb9803fc6bdfadb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 120/195] fix: integers of a binary json document keep all
 their bits

---
 basicsys/include/sys_json.h |  1 +
 basicsys/src/sys_json.cpp   | 70 ++++++++++++++++++-------------------
 2 files changed, 35 insertions(+), 36 deletions(-)

diff --git a/basicsys/include/sys_json.h b/basicsys/include/sys_json.h
index a5d0740..9ed302a 100644
--- a/basicsys/include/sys_json.h
+++ b/basicsys/include/sys_json.h
@@ -270,6 +270,7 @@ namespace basicsys {
 		void load();
 		void text_load_struct_info();
 		void binary_load_struct_info();
+		i64 binary_read_int() const;
 
 		i32 find_match_character(const string& text, i8 need_matched_char, i32 start_index);
 
diff --git a/basicsys/src/sys_json.cpp b/basicsys/src/sys_json.cpp
index 500c7a5..570e9a8 100644
--- a/basicsys/src/sys_json.cpp
+++ b/basicsys/src/sys_json.cpp
@@ -460,10 +460,7 @@ void sys_json_reader::operator>>(b8& val) const {
 		}
 
 	} else {
-		f64 tmp = 0;
-		(*this)>>tmp;
-
-		val = b8((i32)tmp);
+		val = b8((i32)binary_read_int());
 	}
 }
 
@@ -478,10 +475,7 @@ void sys_json_reader::operator>>(i8& val) const {
 		val = (i8)atoi(text.c_str());
 
 	} else {
-		f64 tmp = 0;
-		(*this)>>tmp;
-
-		val = (i8)tmp;
+		val = (i8)binary_read_int();
 	}
 }
 
@@ -495,10 +489,7 @@ void sys_json_reader::operator>>(u8& val) const {
 		val = (u8)atoi(text.c_str());
 
 	} else {
-		f64 tmp = 0;
-		(*this)>>tmp;
-
-		val = (u8)tmp;
+		val = (u8)binary_read_int();
 	}
 }
 
@@ -512,10 +503,7 @@ void sys_json_reader::operator>>(u16& val) const {
 		val = (u16)atoi(text.c_str());
 
 	} else {
-		f64 tmp = 0;
-		(*this)>>tmp;
-
-		val = (u16)tmp;
+		val = (u16)binary_read_int();
 	}
 }
 
@@ -529,10 +517,7 @@ void sys_json_reader::operator>>(i16& val) const {
 		val = (i16)atoi(text.c_str());
 
 	} else {
-		f64 tmp = 0;
-		(*this)>>tmp;
-
-		val = (i16)tmp;
+		val = (i16)binary_read_int();
 	}
 }
 
@@ -546,10 +531,7 @@ void sys_json_reader::operator>>(u32& val) const {
 		val = (u32)atoi(text.c_str());
 
 	} else {
-		f64 tmp = 0;
-		(*this)>>tmp;
-
-		val = (u32)tmp;
+		val = (u32)binary_read_int();
 	}
 }
 
@@ -563,10 +545,7 @@ void sys_json_reader::operator>>(i32& val) const {
 		val = atoi(text.c_str());
 
 	} else {
-		f64 tmp = 0;
-		(*this)>>tmp;
-
-		val = (i32)tmp;
+		val = (i32)binary_read_int();
 	}
 }
 
@@ -580,10 +559,7 @@ void sys_json_reader::operator>>(u64& val) const {
 		val = (u64)_atoi64(text.c_str());
 
 	} else {
-		f64 tmp = 0;
-		(*this)>>tmp;
-
-		val = (u64)tmp;
+		val = (u64)binary_read_int();
 	}
 }
 
@@ -597,10 +573,7 @@ void sys_json_reader::operator>>(i64& val) const {
 		val = _atoi64(text.c_str());
 
 	} else {
-		f64 tmp = 0;
-		(*this)>>tmp;
-
-		val = (i64)tmp;
+		val = (i64)binary_read_int();
 	}
 }
 
@@ -659,6 +632,31 @@ void sys_json_reader::operator>>(f64& val) const {
 	}
 }
 
+i64 sys_json_reader::binary_read_int() const {
+	if (m_node_type != sys_Node_Type_Int) {
+		f64 val = 0;
+		(*this)>>val;
+
+		return (i64)val;
+	}
+
+	m_reader->seek(m_offset, sys_File_Seek_Set);
+	sys_byte_buffer_reader* byte_reader = (sys_byte_buffer_reader*)m_reader;
+
+	if (m_size == sizeof(i8)) {
+		return byte_reader->read_c8();
+	} else if (m_size == sizeof(i16)) {
+		return byte_reader->read_i16();
+	} else if (m_size == sizeof(i32)) {
+		return byte_reader->read_i32();
+	} else if (m_size == sizeof(i64)) {
+		return byte_reader->read_i64();
+	} else {
+		basiclog_assert2(false);
+		return 0;
+	}
+}
+
 sys_json_reader sys_json_reader::operator[](const string& node_name) const {
 	(const_cast<sys_json_reader*>(this))->load();
 
-- 
2.43.0


From a78f023c4ae23e1971b55088f3406ce9e2e6acd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 121/195] fix: large unsigned integers of a json text

---
 basicsys/src/sys_json.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicsys/src/sys_json.cpp b/basicsys/src/sys_json.cpp
index 570e9a8..3e78416 100644
--- a/basicsys/src/sys_json.cpp
+++ b/basicsys/src/sys_json.cpp
@@ -556,7 +556,7 @@ void sys_json_reader::operator>>(u64& val) const {
 
 		basiclog_assert2(!text.empty());
 
-		val = (u64)_atoi64(text.c_str());
+		val = (u64)strtoull(text.c_str(), NULL, 10);
 
 	} else {
 		val = (u64)binary_read_int();
-- 
2.43.0


From 7de8a10cf72711e6db2dfcbb9f4db525bd2a28a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 122/195] fix: a json text holds 8-bit integers as the numbers
 the reader expects

---
 basicsys/src/sys_json.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicsys/src/sys_json.cpp b/basicsys/src/sys_json.cpp
index 3e78416..b8bdec0 100644
--- a/basicsys/src/sys_json.cpp
+++ b/basicsys/src/sys_json.cpp
@@ -72,7 +72,7 @@ sys_json_writer& sys_json_writer::operator<<(const i8& val) {
 	basiclog_assert2(m_json_expected == sys_Json_Expected_Value);
 
 	if (m_writer->is_string_buffer()) {
-		text_write_str(sys_strcombine()<<val);
+		text_write_str(sys_strcombine()<<(i32)val);
 	} else {
 		m_writer->write(sys_Node_Type_Int);
 		m_writer->write((i32)sizeof(i8));
-- 
2.43.0


From 02dbd8328527f13f0fb0f39bd59a755d2ab6d0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 123/195] fix: a json text keeps the precision of real numbers

---
 basicsys/src/sys_json.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicsys/src/sys_json.cpp b/basicsys/src/sys_json.cpp
index b8bdec0..4027b64 100644
--- a/basicsys/src/sys_json.cpp
+++ b/basicsys/src/sys_json.cpp
@@ -198,7 +198,7 @@ sys_json_writer& sys_json_writer::operator<<(const f32& val) {
 	basiclog_assert2(m_json_expected == sys_Json_Expected_Value);
 
 	if (m_writer->is_string_buffer()) {
-		text_write_str(sys_strcombine()<<val);
+		text_write_str(sys_strhelper::combine("%.9g", val));
 	} else {
 		m_writer->write(sys_Node_Type_Real);
 		m_writer->write((i32)sizeof(f32));
@@ -216,7 +216,7 @@ sys_json_writer& sys_json_writer::operator<<(const f64& val) {
 	basiclog_assert2(m_json_expected == sys_Json_Expected_Value);
 
 	if (m_writer->is_string_buffer()) {
-		text_write_str(sys_strcombine()<<val);
+		text_write_str(sys_strhelper::combine("%.17g", val));
 	} else {
 		m_writer->write(sys_Node_Type_Real);
 		m_writer->write((i32)sizeof(f64));
-- 
2.43.0


From d7961e0b214e0562e6df24bb89affc7bd6af536d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 124/195] fix: a copy that a json iterator returns is complete

---
 basicsys/src/sys_json.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/basicsys/src/sys_json.cpp b/basicsys/src/sys_json.cpp
index 4027b64..4e8efaf 100644
--- a/basicsys/src/sys_json.cpp
+++ b/basicsys/src/sys_json.cpp
@@ -931,12 +931,12 @@ sys_json_reader_iteartor& sys_json_reader_iteartor::operator ++ () {
 }
 
 sys_json_reader_iteartor sys_json_reader_iteartor::operator ++ (int) {
-	sys_json_reader_iteartor other(m_node_type);
+	sys_json_reader_iteartor other(*this);
 
 	if (m_node_type == sys_Node_Type_Map) {
-		other.m_map_iterator = m_map_iterator++;
+		++m_map_iterator;
 	} else if (m_node_type == sys_Node_Type_Seq) {
-		other.m_seq_iterator = m_seq_iterator++;
+		++m_seq_iterator;
 	} else {
 		basiclog_assert2(false);
 	}
@@ -957,12 +957,12 @@ sys_json_reader_iteartor& sys_json_reader_iteartor::operator -- () {
 }
 
 sys_json_reader_iteartor sys_json_reader_iteartor::operator -- (int) {
-	sys_json_reader_iteartor other(m_node_type);
+	sys_json_reader_iteartor other(*this);
 
 	if (m_node_type == sys_Node_Type_Map) {
-		other.m_map_iterator = m_map_iterator--;
+		--m_map_iterator;
 	} else if (m_node_type == sys_Node_Type_Seq) {
-		other.m_seq_iterator = m_seq_iterator--;
+		--m_seq_iterator;
 	} else {
 		basiclog_assert2(false);
 	}
-- 
2.43.0


From dfc54898277384bab1b00649e68480044081e091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:11 +0000
Subject: [PATCH 125/195] fix: listing files by suffix compares the end of the
 name

---
 basicsys/src/sys_path.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicsys/src/sys_path.cpp b/basicsys/src/sys_path.cpp
index d93ac39..269ac87 100644
--- a/basicsys/src/sys_path.cpp
+++ b/basicsys/src/sys_path.cpp
@@ -91,7 +91,7 @@ void sys_path::get_file_path(vector<string>& filePaths, const string& dirPath, c
 
 		string s_name(entry->d_name);
 
-		if (!expandName.empty() && (i32)s_name.find(expandName) != (i32)s_name.size() - (i32)expandName.size()) {
+		if (s_name.size() < expandName.size() || s_name.compare(s_name.size() - expandName.size(), expandName.size(), expandName) != 0) {
 			continue;
 		}
 
@@ -163,7 +163,7 @@ void sys_path::get_file_name(vector<string>& fileNames, const string& dirPath, c
 
 		string s_name(entry->d_name);
 
-		if (!expandName.empty() && (i32)s_name.find(expandName) != (i32)s_name.size() - (i32)expandName.size()) {
+		if (s_name.size() < expandName.size() || s_name.compare(s_name.size() - expandName.size(), expandName.size(), expandName) != 0) {
 			continue;
 		}
 
-- 
2.43.0


From 1efcd386cb11d1f4056f40959ee928687c198e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:11 +0000
Subject: [PATCH 126/195] fix: a dot in a folder name is not the start of a
 file extension

---
 basicsys/src/sys_path.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/basicsys/src/sys_path.cpp b/basicsys/src/sys_path.cpp
index 269ac87..f50250b 100644
--- a/basicsys/src/sys_path.cpp
+++ b/basicsys/src/sys_path.cpp
@@ -286,10 +286,11 @@ string sys_path::get_file_extend_name(const string& path) {
 		return string((""));
 	}
 
-	string::size_type index = path.rfind('.');
+	string file_name = get_file_name(path);
+	string::size_type index = file_name.rfind('.');
 
 	if (string::npos != index) {
-		string extend_name = path.substr(index);
+		string extend_name = file_name.substr(index);
 		sys_strhelper::lower(extend_name);
 		return extend_name;
 	} else {
-- 
2.43.0


From a4b99809571ae141331ac966b8bd24e3533ec851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:11 +0000
Subject: [PATCH 127/195] fix: deleting a folder deletes the folders in it

---
 basicsys/src/sys_path.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicsys/src/sys_path.cpp b/basicsys/src/sys_path.cpp
index f50250b..5eef9f9 100644
--- a/basicsys/src/sys_path.cpp
+++ b/basicsys/src/sys_path.cpp
@@ -395,8 +395,8 @@ void sys_path::delete_sub_dir(const string& dir) {
 	vector<string> subDirs;
 	get_dir_path(subDirs, dir);
 
-	for (int i = 0; i < (int)subFiles.size(); ++i) {
-		delete_dir(subFiles[i], true);
+	for (int i = 0; i < (int)subDirs.size(); ++i) {
+		delete_dir(subDirs[i], true);
 	}
 }
 
-- 
2.43.0


From 70c1fa693653ae70d833dea774bcb3124cb8ecb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:11 +0000
Subject: [PATCH 128/195] fix: copying a file takes paths with spaces and does
 not overwrite unasked

---
 basicsys/src/sys_path.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/basicsys/src/sys_path.cpp b/basicsys/src/sys_path.cpp
index 5eef9f9..d2d1994 100644
--- a/basicsys/src/sys_path.cpp
+++ b/basicsys/src/sys_path.cpp
@@ -430,7 +430,23 @@ bool sys_path::copy_file(const string& dst, const string& src, bool fail_if_exis
 #ifdef _WIN32
 	return ::CopyFileA(src.c_str(), dst.c_str(), fail_if_exist) == TRUE;
 #else
-	return system(((string)(sys_strcombine()<<"cp -r "<<src.c_str()<<" "<<dst.c_str())).c_str()) == 0;
+	if (fail_if_exist && is_exist(dst)) {
+		return false;
+	}
+
+	// quoted, the shell takes each path as it is
+	string quoted_src;
+	string quoted_dst;
+
+	for (int i = 0; i < (int)src.size(); ++i) {
+		quoted_src += src[i] == '\'' ? string("'\\''") : string(1, src[i]);
+	}
+
+	for (int i = 0; i < (int)dst.size(); ++i) {
+		quoted_dst += dst[i] == '\'' ? string("'\\''") : string(1, dst[i]);
+	}
+
+	return system(("cp -r -- '" + quoted_src + "' '" + quoted_dst + "'").c_str()) == 0;
 #endif
 }
 
-- 
2.43.0


From 2e7aa4a236b08f8a4e7e60488742052c31607e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:11 +0000
Subject: [PATCH 129/195] fix: moving a file replaces an existing one when
 asked to

---
 basicsys/src/sys_path.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicsys/src/sys_path.cpp b/basicsys/src/sys_path.cpp
index d2d1994..481331c 100644
--- a/basicsys/src/sys_path.cpp
+++ b/basicsys/src/sys_path.cpp
@@ -451,7 +451,7 @@ bool sys_path::copy_file(const string& dst, const string& src, bool fail_if_exis
 }
 
 bool sys_path::move_file(const string& dst, const string& src, bool fail_if_exist) {
-	if (is_exist(dst)) {
+	if (fail_if_exist && is_exist(dst)) {
 		return false;
 	}
 
-- 
2.43.0


From 31a523a8793a6bacc5be78b5d0c7e87c446469c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:11 +0000
Subject: [PATCH 130/195] fix: creating folders takes paths of any length

---
 basicsys/src/sys_path.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/basicsys/src/sys_path.cpp b/basicsys/src/sys_path.cpp
index 481331c..cc249c4 100644
--- a/basicsys/src/sys_path.cpp
+++ b/basicsys/src/sys_path.cpp
@@ -322,18 +322,16 @@ bool sys_path::create_multi_dir(const string& dir) {
 	if (_access(dir.c_str(), 0) == 0)
 		return true;
 
-	char szTemp[1024] = {('\0')};
 	string::size_type nPos = dir.find(('/'));
 	while (string::npos != nPos)
 	{
-		strncpy_s(szTemp, 1024, dir.c_str(), nPos + 1);
-		szTemp[nPos + 1] = '\0';
-		if (_access(szTemp, 00) == -1) {
+		string temp = dir.substr(0, nPos + 1);
+		if (_access(temp.c_str(), 00) == -1) {
 #ifdef _WIN32
-			if (!CreateDirectoryA(szTemp, NULL))
+			if (!CreateDirectoryA(temp.c_str(), NULL))
 				return false;
 #else
-			if (mkdir(szTemp, 0000777) != 0)
+			if (mkdir(temp.c_str(), 0000777) != 0)
 				return false;
 #endif
 		}
-- 
2.43.0


From a4d591f9ad206fdb1dadfd35b129c9396615b37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 131/195] fix: a json text sequence keeps its leading empty
 texts

---
 basicsys/src/sys_json.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/basicsys/src/sys_json.cpp b/basicsys/src/sys_json.cpp
index 4e8efaf..6e76944 100644
--- a/basicsys/src/sys_json.cpp
+++ b/basicsys/src/sys_json.cpp
@@ -767,7 +767,14 @@ void sys_json_reader::text_load_struct_info() {
 				}
 			} else {
 				//must be element!
-				int last_index = valid_index;
+				//the line of the elements has the tabs of the closing ] and one more before its first element, which is possibly empty
+				i32 line_end_index = (i32)text.find('\n', valid_index);
+				i32 last_index = line_end_index == -1 ? valid_index : (i32)text.size() - line_end_index;
+
+				if (last_index > valid_index) {
+					last_index = valid_index;
+				}
+
 				for (i32 i = last_index; i < (i32)text.size(); ++i) {
 					if (text.at(i) == '\t' || text.at(i) == '\n') {
 						//basiclog_assert2(i > last_index);
-- 
2.43.0


From ba3688d550b69bbef281a9ffb365756aa0c76706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:53 +0000
Subject: [PATCH 132/195] fix: define add_filter, which is declared and
 recommended

---
 basiclog/src/basiclog.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/basiclog/src/basiclog.cpp b/basiclog/src/basiclog.cpp
index 1701c16..803629d 100644
--- a/basiclog/src/basiclog.cpp
+++ b/basiclog/src/basiclog.cpp
@@ -60,6 +60,11 @@ void log_logger::set_filter(const std::vector<string>& filters) {
 	m_filters = filters;
 }
 
+void log_logger::add_filter(const string& filter) {
+	sys_thread_lock lock(m_mutex);
+	m_filters.push_back(filter);
+}
+
 void log_logger::get_filter(vector<string>& filters) {
 	sys_thread_lock lock(m_mutex);
 	filters = m_filters;
-- 
2.43.0


From ad092811feade65536551137e4c9e52c7fef2dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:42 +0000
Subject: [PATCH 133/195] fix: a character outside ASCII does not silence the
 console logger

---
 basiclog/src/basiclog.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basiclog/src/basiclog.cpp b/basiclog/src/basiclog.cpp
index 803629d..5946e84 100644
--- a/basiclog/src/basiclog.cpp
+++ b/basiclog/src/basiclog.cpp
@@ -182,7 +182,7 @@ string log_logger::format_timestamp() const {
 }
 
 void log_console_logger::print(const string& log_info) {
-	wcout<<log_info.c_str();
+	cout<<log_info.c_str();
 }
 
 void log_ide_console_logger::print(const string& log_info) {
-- 
2.43.0


From 53dadf94bdf496174c379f6811be40644e5186db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:42 +0000
Subject: [PATCH 134/195] fix: log the time zone of places 12 and more hours
 from UTC

---
 basiclog/src/basiclog.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/basiclog/src/basiclog.cpp b/basiclog/src/basiclog.cpp
index 5946e84..c2d4663 100644
--- a/basiclog/src/basiclog.cpp
+++ b/basiclog/src/basiclog.cpp
@@ -169,10 +169,10 @@ string log_logger::format_timestamp() const {
 #endif
 
 	int time_zone = tm_local.tm_hour - tm_utc.tm_hour;  
-	if (time_zone < -12) {  
-		time_zone += 24;   
-	} else if (time_zone > 12) {  
-		time_zone -= 24;  
+	if (tm_local.tm_year != tm_utc.tm_year) {  
+		time_zone += tm_local.tm_year < tm_utc.tm_year ? -24 : 24;   
+	} else {  
+		time_zone += (tm_local.tm_yday - tm_utc.tm_yday) * 24;  
 	}  
 
 	char buffer[1024];
@@ -276,10 +276,10 @@ string log_file_logger::generate_new_file_title() const {
 #endif
 
 	int time_zone = tm_local.tm_hour - tm_utc.tm_hour;  
-	if (time_zone < -12) {  
-		time_zone += 24;   
-	} else if (time_zone > 12) {  
-		time_zone -= 24;  
+	if (tm_local.tm_year != tm_utc.tm_year) {  
+		time_zone += tm_local.tm_year < tm_utc.tm_year ? -24 : 24;   
+	} else {  
+		time_zone += (tm_local.tm_yday - tm_utc.tm_yday) * 24;  
 	}  
 
 	char buffer[1024];
-- 
2.43.0


From 5f2f1733879331e2f2a5e41973a1fe35d30592bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:42 +0000
Subject: [PATCH 135/195] fix: the file logger writes into the folder it is
 given

---
 basiclog/src/basiclog.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/basiclog/src/basiclog.cpp b/basiclog/src/basiclog.cpp
index c2d4663..1d129be 100644
--- a/basiclog/src/basiclog.cpp
+++ b/basiclog/src/basiclog.cpp
@@ -204,6 +204,7 @@ log_file_logger::log_file_logger(const string& dir, int file_max_log_number /* =
 		m_cur_file = NULL;
 		m_cur_file_log_number = 0;
 
+		m_save_dir = dir;
 		sys_path::create_multi_dir(m_save_dir);
 }
 
-- 
2.43.0


From 12f274b2ff1b03995cbd0aca541c815813b72f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:42 +0000
Subject: [PATCH 136/195] fix: log files begun within one second do not replace
 each other

---
 basiclog/src/basiclog.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/basiclog/src/basiclog.cpp b/basiclog/src/basiclog.cpp
index 1d129be..749a7c5 100644
--- a/basiclog/src/basiclog.cpp
+++ b/basiclog/src/basiclog.cpp
@@ -246,7 +246,15 @@ void log_file_logger::print(const string& log_info) {
 			m_list_files.pop_front();
 		}
 
-		m_list_files.push_back(m_save_dir + generate_new_file_title() + ".txt");
+		// files begun within one second have the same title
+		string file_title = m_save_dir + generate_new_file_title();
+		string file_path = file_title + ".txt";
+
+		for (int i = 2; sys_path::is_exist(file_path); ++i) {
+			file_path = file_title + sys_strhelper::combine(" (%d).txt", i);
+		}
+
+		m_list_files.push_back(file_path);
 
 		if (m_cur_file != NULL) {
 			fclose(m_cur_file);
-- 
2.43.0


From 4fcfb2d69ab222367e4bd4810c2871f6138a2717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:42 +0000
Subject: [PATCH 137/195] fix: lowered limits of the file logger take effect

---
 basiclog/src/basiclog.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basiclog/src/basiclog.cpp b/basiclog/src/basiclog.cpp
index 749a7c5..4fd3a01 100644
--- a/basiclog/src/basiclog.cpp
+++ b/basiclog/src/basiclog.cpp
@@ -240,8 +240,8 @@ void log_file_logger::set_max_file_number(int max_number) {
 }
 
 void log_file_logger::print(const string& log_info) {
-	if (NULL == m_cur_file || m_cur_file_log_number == m_file_max_log_number) {
-		if ((int)m_list_files.size() == m_max_file_number) {
+	if (NULL == m_cur_file || m_cur_file_log_number >= m_file_max_log_number) {
+		while (!m_list_files.empty() && (int)m_list_files.size() >= m_max_file_number) {
 			remove(m_list_files.front().c_str());
 			m_list_files.pop_front();
 		}
-- 
2.43.0


From 95b5be52e88f9a1d792edaa2f653dac3e962c948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:42 +0000
Subject: [PATCH 138/195] fix: the file logger survives a folder that it cannot
 write to

---
 basiclog/src/basiclog.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/basiclog/src/basiclog.cpp b/basiclog/src/basiclog.cpp
index 4fd3a01..00096d8 100644
--- a/basiclog/src/basiclog.cpp
+++ b/basiclog/src/basiclog.cpp
@@ -260,8 +260,14 @@ void log_file_logger::print(const string& log_info) {
 			fclose(m_cur_file);
 		}
 
+		m_cur_file = NULL;
 		fopen_s(&m_cur_file, m_list_files.back().c_str(), "wb");
 		m_cur_file_log_number = 0;
+
+		if (m_cur_file == NULL) {
+			m_list_files.pop_back();
+			return;
+		}
 	}
 	
 	fprintf(m_cur_file, "%s", sys_strconvert::utf8_from_local(log_info).c_str());
-- 
2.43.0


From 60cf6ebe887f396e21facc6a0c4a1b0be77a2409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:15 +0000
Subject: [PATCH 139/195] fix: sorting with indexes sorts the whole data

---
 basicmath/include/mt_sort.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/include/mt_sort.h b/basicmath/include/mt_sort.h
index 706addc..4f53117 100644
--- a/basicmath/include/mt_sort.h
+++ b/basicmath/include/mt_sort.h
@@ -16,7 +16,7 @@ namespace basicmath {
 			}
 
 			for (i32 i = 0; i < (i32)indexs.size() - 1; ++i) {
-				for (i32 j = 0; j < (i32)indexs.size() - j - 1; ++j) {
+				for (i32 j = 0; j < (i32)indexs.size() - i - 1; ++j) {
 					if ((increase && data[j] > data[j + 1])
 						|| (!increase && data[j] < data[j + 1])) {
 						swap(data[j], data[j + 1]);
-- 
2.43.0


From 12702ab71438ca961c5ccdc5b385a709db292037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:15 +0000
Subject: [PATCH 140/195] fix: flip_vector reverses the vector

---
 basicmath/include/mt_helper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/include/mt_helper.h b/basicmath/include/mt_helper.h
index 4a4aec0..3e267b6 100644
--- a/basicmath/include/mt_helper.h
+++ b/basicmath/include/mt_helper.h
@@ -408,7 +408,7 @@ namespace basicmath {
 			i32 half_size = (i32)data.size()  / 2;
 			
 			for (i32 i = 0; i < half_size; ++i) {
-				swap(data[i], data[i + (i32)data.size() - i - 1]);
+				swap(data[i], data[(i32)data.size() - i - 1]);
 			}
 		}
 
-- 
2.43.0


From b1ea734104b255e46e09512e013a9ad6e05870c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:15 +0000
Subject: [PATCH 141/195] fix: odd_even_sort counts negative odd numbers as odd

---
 basicmath/include/mt_helper.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/basicmath/include/mt_helper.h b/basicmath/include/mt_helper.h
index 3e267b6..1281a3f 100644
--- a/basicmath/include/mt_helper.h
+++ b/basicmath/include/mt_helper.h
@@ -361,12 +361,12 @@ namespace basicmath {
 					
 					for (i32 j = 0; j < (i32)res.size() - 1 - i; ++j) {
 						if (odd_as_front) {
-							if (res[j] % 2 == 0 && res[j + 1] % 2 == 1) {
+							if (res[j] % 2 == 0 && res[j + 1] % 2 != 0) {
 								swap(res[j], res[j + 1]);
 								switch_flag = sys_true;
 							}
 						} else {
-							if (res[j] % 2 == 1 && res[j + 1] % 2 == 0) {
+							if (res[j] % 2 != 0 && res[j + 1] % 2 == 0) {
 								swap(res[j], res[j + 1]);
 								switch_flag = sys_true;
 							}
@@ -382,11 +382,11 @@ namespace basicmath {
 				i32 high = (i32)res.size() - 1;
 
 				while (low < high) {
-					while (low < high && ((odd_as_front && res[low] % 2 == 1) || (!odd_as_front && res[low] % 2 == 0))) {
+					while (low < high && ((odd_as_front && res[low] % 2 != 0) || (!odd_as_front && res[low] % 2 == 0))) {
 						++low;
 					}
 
-					while (low < high && ((odd_as_front && res[high] % 2 == 0) || (!odd_as_front && res[high] % 2 == 1))) {
+					while (low < high && ((odd_as_front && res[high] % 2 == 0) || (!odd_as_front && res[high] % 2 != 0))) {
 						--high;
 					}
 
-- 
2.43.0


From a8cf1c6b105736839b58c7dcc2e8f9543e3d0338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:15 +0000
Subject: [PATCH 142/195] fix: instance_from_pointer returns an instance for
 every pointer

---
 basicmath/include/mt_helper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/include/mt_helper.h b/basicmath/include/mt_helper.h
index 1281a3f..1fbd9f8 100644
--- a/basicmath/include/mt_helper.h
+++ b/basicmath/include/mt_helper.h
@@ -344,7 +344,7 @@ namespace basicmath {
 
 		template<class T>
 		static void instance_from_pointer(vector<T>& res, const vector<T*>& src) {
-			res.resize(res.size());
+			res.resize(src.size());
 
 			for (int i = 0; i < (int)res.size(); ++i) {
 				res[i] = *src[i];
-- 
2.43.0


From 23d0bf7d6d50aaa0f82f8b3ea09a9d6fab5e60cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:15 +0000
Subject: [PATCH 143/195] fix: integral_array makes room for its result

---
 basicmath/include/mt_helper.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/basicmath/include/mt_helper.h b/basicmath/include/mt_helper.h
index 1fbd9f8..c8e5b52 100644
--- a/basicmath/include/mt_helper.h
+++ b/basicmath/include/mt_helper.h
@@ -316,6 +316,7 @@ namespace basicmath {
 
 		template<class T>
 		static void integral_array(vector<T>& res, const vector<T>& src) {
+			res.resize(src.size() + 1);
 			res[0] = 0;
 
 			for (int i = 0; i < (int)src.size(); ++i) {
-- 
2.43.0


From 185f87a92411898e978a2d8387aa18ed9b1b7613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:15 +0000
Subject: [PATCH 144/195] fix: compare_value orders unsigned and distant values

---
 basicmath/include/mt_helper.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/basicmath/include/mt_helper.h b/basicmath/include/mt_helper.h
index c8e5b52..07b5e9d 100644
--- a/basicmath/include/mt_helper.h
+++ b/basicmath/include/mt_helper.h
@@ -62,11 +62,9 @@ namespace basicmath {
 			} else if (typeid(T) == typeid(double)) {
 				return compare_double((double)a, (double)b);
 			} else {
-				T v = a - b;
-
-				if (v == 0) {
+				if (a == b) {
 					return 0;
-				} else if (v > 0) {
+				} else if (a > b) {
 					return 1;
 				} else {
 					return -1;
-- 
2.43.0


From 82c51f4e9e8d1b461a9d9c13f59d9fde2d9aea47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:16 +0000
Subject: [PATCH 145/195] fix: equal infinities compare as equal

---
 basicmath/src/mt_helper.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/basicmath/src/mt_helper.cpp b/basicmath/src/mt_helper.cpp
index fa57be7..3279c89 100644
--- a/basicmath/src/mt_helper.cpp
+++ b/basicmath/src/mt_helper.cpp
@@ -36,6 +36,10 @@ double mt_helper::get_double_eps() {
 }
 
 int mt_helper::compare_float(float a, float b) {
+	if (a == b) {
+		return 0;
+	}
+
 	float value = a - b;
 
 	if (abs(value) < mt_float_eps) {
@@ -56,6 +60,10 @@ int mt_helper::compare_float(float a, float b) {
 }
 
 int mt_helper::compare_double(double a, double b) {
+	if (a == b) {
+		return 0;
+	}
+
 	double value = a - b;
 
 	if (abs(value) < mt_double_eps) {
-- 
2.43.0


From 78c22b8d6895d11b3c2312e3b323c26a36079029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:16 +0000
Subject: [PATCH 146/195] fix: combination does not overflow through factorials

---
 basicmath/include/mt_helper.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/basicmath/include/mt_helper.h b/basicmath/include/mt_helper.h
index 07b5e9d..d13c3d7 100644
--- a/basicmath/include/mt_helper.h
+++ b/basicmath/include/mt_helper.h
@@ -241,7 +241,13 @@ namespace basicmath {
 
 		static i32 combination(i32 n, i32 k) {
 			basiclog_assert2(n >= k);
-			return factorial(n) / (factorial(k) * factorial(n - k));
+			i64 res = 1;
+
+			for (i32 i = 1; i <= k; ++i) {
+				res = res * (n - k + i) / i;
+			}
+
+			return (i32)res;
 		}
 
 		template<class T>
-- 
2.43.0


From 4fe66e0ce7abe0ae5599ee0678138d4dbffd9bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:16 +0000
Subject: [PATCH 147/195] fix: the flags of the 0-1 bag name a choice of the
 max value

---
 .../include/dynamic_programming/mt_01_bag.h   | 34 +++++++------------
 1 file changed, 12 insertions(+), 22 deletions(-)

diff --git a/basicmath/include/dynamic_programming/mt_01_bag.h b/basicmath/include/dynamic_programming/mt_01_bag.h
index 0a4bcc6..b8f6a11 100644
--- a/basicmath/include/dynamic_programming/mt_01_bag.h
+++ b/basicmath/include/dynamic_programming/mt_01_bag.h
@@ -17,7 +17,7 @@ namespace basicmath {
 
 			m_max_value = calculate_value(weights, values, (i32)weights.size() - 1, max_weight);
 
-			detrermine_flag(values, (i32)weights.size() - 1, m_max_value);
+			detrermine_flag(weights, values, max_weight);
 		}
 
 		T_Value max_value() {
@@ -81,31 +81,21 @@ namespace basicmath {
 			return cur_cache_info.m_value;
 		}
 
-		void detrermine_flag(const vector<T_Value>& values, i32 considered_range, T_Value considered_value) {
-			for (i32 i = 0; i < (i32)m_caches.size(); ++i) {
-				if (mt_helper::compare_value(m_caches[i].m_value, considered_value) == 0
-					&& m_caches[i].m_considered_range <= considered_range 
-					&& find_value(considered_range - 1, considered_value - values[m_caches[i].m_considered_range])) {
-						m_flags[m_caches[i].m_considered_range] = sys_true;
-
-						detrermine_flag(values, considered_range - 1, considered_value - values[m_caches[i].m_considered_range]);
-				}
-			}
-		}
+		/**
+		Walk back from the last element: an element is in the bag if the max value needs it.
+		*/
+		void detrermine_flag(const vector<T_Weight>& weights, const vector<T_Value>& values, T_Weight max_weight) {
+			T_Weight considered_weight = max_weight;
 
-		b8 find_value(i32 considered_range, T_Value considered_value) {
-			if (considered_range < 0) {
-				return sys_true;
-			}
+			for (i32 i = (i32)weights.size() - 1; i >= 0; --i) {
+				T_Value value = calculate_value(weights, values, i, considered_weight);
+				T_Value value_without_element = calculate_value(weights, values, i - 1, considered_weight);
 
-			for (i32 i = 0; i < (i32)m_caches.size(); ++i) {
-				if (m_caches[i].m_considered_range <= considered_range
-					&& mt_helper::compare_value(m_caches[i].m_value, considered_value) == 0) {
-						return sys_true;
+				if (mt_helper::compare_value(value, value_without_element) != 0) {
+					m_flags[i] = sys_true;
+					considered_weight -= weights[i];
 				}
 			}
-
-			return sys_false;
 		}
 
 		vector<cache_info> m_caches;
-- 
2.43.0


From 6b1d2396dae83428a77bf75dc17ccd01a3ecd77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:16 +0000
Subject: [PATCH 148/195] fix: a common substring may begin and end at the
 first element of b

---
 .../dynamic_programming/mt_longest_common_substring.h       | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/basicmath/include/dynamic_programming/mt_longest_common_substring.h b/basicmath/include/dynamic_programming/mt_longest_common_substring.h
index 8d58628..773c34f 100644
--- a/basicmath/include/dynamic_programming/mt_longest_common_substring.h
+++ b/basicmath/include/dynamic_programming/mt_longest_common_substring.h
@@ -21,6 +21,12 @@ namespace basicmath {
 			for (i32 i = 0; i < m_a_size; ++i) {
 				m_maxtrix[i] = (str_b[0] == str_a[i] ? 1 : 0);
 
+				if (m_length < m_maxtrix[i]) {
+					m_length = m_maxtrix[i];
+					m_a_begin_index = i;
+					m_b_begin_index = 0;
+				}
+
 				for (i32 j = 1; j < m_b_size; ++j) {
 					m_maxtrix[j * m_a_size] = (str_a[0] == str_b[j] ? 1 : 0);
 
-- 
2.43.0


From eb79ec7497a0a89ed53e086595b21652ddfd42f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:16 +0000
Subject: [PATCH 149/195] fix: all begin indexes of common substrings are begin
 indexes

---
 .../dynamic_programming/mt_longest_common_substring.h     | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/basicmath/include/dynamic_programming/mt_longest_common_substring.h b/basicmath/include/dynamic_programming/mt_longest_common_substring.h
index 773c34f..b2c8258 100644
--- a/basicmath/include/dynamic_programming/mt_longest_common_substring.h
+++ b/basicmath/include/dynamic_programming/mt_longest_common_substring.h
@@ -61,8 +61,8 @@ namespace basicmath {
 			indexes.clear();
 
 			for (i32 i = 0; i < (i32)m_maxtrix.size(); ++i) {
-				if (m_maxtrix[i] == m_length) {
-					indexes.push_back(i % m_a_size);
+				if (m_length > 0 && m_maxtrix[i] == m_length) {
+					indexes.push_back(i % m_a_size - m_length + 1);
 				}
 			}
 		}
@@ -71,8 +71,8 @@ namespace basicmath {
 			indexes.clear();
 
 			for (i32 i = 0; i < (i32)m_maxtrix.size(); ++i) {
-				if (m_maxtrix[i] == m_length) {
-					indexes.push_back(i / m_a_size);
+				if (m_length > 0 && m_maxtrix[i] == m_length) {
+					indexes.push_back(i / m_a_size - m_length + 1);
 				}
 			}
 		}
-- 
2.43.0


From ef14742868b17816afd7da9acbfd927e06a75f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:16 +0000
Subject: [PATCH 150/195] fix: splitting an array compares exact means and
 returns fresh parts

---
 basicmath/src/mt_helper.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/basicmath/src/mt_helper.cpp b/basicmath/src/mt_helper.cpp
index 3279c89..27b796c 100644
--- a/basicmath/src/mt_helper.cpp
+++ b/basicmath/src/mt_helper.cpp
@@ -289,6 +289,9 @@ string mt_helper::battle_ship(const string& ships, const string& hits) {
 }
 
 void mt_helper::split_array_to_max_mean_sub_arrays(vector<i32>& a, vector<i32>&b , const vector<i32>& input_data) {
+	a.clear();
+	b.clear();
+
 	if (input_data.empty()) {
 		return;
 	}
@@ -296,25 +299,25 @@ void mt_helper::split_array_to_max_mean_sub_arrays(vector<i32>& a, vector<i32>&b
 	vector<i32> data = input_data;
 	sort(data.begin(), data.end());
 
-	i32 left_sum = 0;
-	f32 max_sub = -FLT_MAX;
+	i64 left_sum = 0;
+	f64 max_sub = -DBL_MAX;
 	i32 split_index = -1;
 
-	a.resize(data.size());
+	vector<f64> right_means(data.size());
 
-	i32 right_sum = 0;
+	i64 right_sum = 0;
 
 	for (i32 i = (i32)data.size() - 1; i >= 0; --i) {
 		right_sum += data[i];
 
-		a[i] = right_sum / ((i32)data.size()  - i);
+		right_means[i] = right_sum / (f64)((i32)data.size()  - i);
 	}
 
 	for (i32 i = 0; i < (i32)data.size() - 1; ++i) {
 		left_sum += data[i];
 
-		i32 right_mean = a[i + 1];
-		f32 left_mean = left_sum / (f32)(i + 1);
+		f64 right_mean = right_means[i + 1];
+		f64 left_mean = left_sum / (f64)(i + 1);
 
 		if (right_mean - left_mean > max_sub) {
 			max_sub = right_mean - left_mean;
@@ -329,7 +332,6 @@ void mt_helper::split_array_to_max_mean_sub_arrays(vector<i32>& a, vector<i32>&b
 		b.push_back(data[i]);
 	}
 
-	a.clear();
 	for (i32 i = split_index + 1; i < (i32)data.size(); ++i) {
 		a.push_back(data[i]);
 	}
-- 
2.43.0


From 1271b4406052accba5c8a8809a60798bb7f0038c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:16 +0000
Subject: [PATCH 151/195] fix: random integers lie in the requested range

---
 basicmath/src/mt_random.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicmath/src/mt_random.cpp b/basicmath/src/mt_random.cpp
index 709fc1e..f6d1e91 100644
--- a/basicmath/src/mt_random.cpp
+++ b/basicmath/src/mt_random.cpp
@@ -8,8 +8,8 @@ void mt_random::set_seed(u32 seed) {
 }
 
 i32 mt_random::random_next_i32(i32 min, i32 max) {
-	f64 value = rand() / (f64)(RAND_MAX + 1);	//[0,1)
-	return (i32)(value * (max - min + 1)) + min;
+	f64 value = rand() / (RAND_MAX + 1.0);	//[0,1)
+	return (i32)floor(value * ((f64)max - min + 1) + min);
 }
 
 f64 mt_random::random_uniform(f64 min, b8 min_opened, f64 max, b8 max_opened) {
-- 
2.43.0


From 4fd4f3dc5decead56d8542fe5e052c362b06d96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:16 +0000
Subject: [PATCH 152/195] fix: random permutations follow the seed

---
 basicmath/src/mt_random.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/basicmath/src/mt_random.cpp b/basicmath/src/mt_random.cpp
index f6d1e91..33ba90a 100644
--- a/basicmath/src/mt_random.cpp
+++ b/basicmath/src/mt_random.cpp
@@ -75,7 +75,9 @@ void mt_random::randperm(vector<i32>& results, i32 size) {
 		results[i] = i;
 	}
 
-	random_shuffle(results.begin(), results.end());
+	for (i32 i = (i32)results.size() - 1; i > 0; --i) {
+		swap(results[i], results[random_next_i32(0, i)]);
+	}
 }
 
 void mt_random::randSample(i32 size, vector<i32>& results) {
-- 
2.43.0


From 2ce18927fd1e912fb48310e4d799db579a780a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:16 +0000
Subject: [PATCH 153/195] fix: bernoulli_iid releases its memory

---
 basicmath/src/mt_random.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/basicmath/src/mt_random.cpp b/basicmath/src/mt_random.cpp
index 33ba90a..5709e23 100644
--- a/basicmath/src/mt_random.cpp
+++ b/basicmath/src/mt_random.cpp
@@ -162,6 +162,8 @@ mt_mat mt_random::bernoulli_iid(i32 dims, const i32* sizes, mt_Depth_Channel dep
 		mat.set(random_values, dims, &iter.position()[0]);
 	}
 
+	basicmath_mat_release(random_values);
+
 	return mat;
 }
 
-- 
2.43.0


From 1788d1fc441cbaa258426ee98b48f9ae5facf6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:16 +0000
Subject: [PATCH 154/195] fix: in_block recognises the elements of every block

---
 basicmath/include/mt_block_memory.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/basicmath/include/mt_block_memory.h b/basicmath/include/mt_block_memory.h
index 798f537..0b233ca 100644
--- a/basicmath/include/mt_block_memory.h
+++ b/basicmath/include/mt_block_memory.h
@@ -208,7 +208,7 @@ namespace basicmath {
 		}
 
 		b8 in_block(T* data) const {
-			if (m_cur_block == -1 || data < m_begin || data >= m_cur_data) {
+			if (m_cur_block == -1) {
 				return sys_false;
 			}
 
@@ -218,11 +218,11 @@ namespace basicmath {
 
 			for (i32 i = 0; i < m_cur_block; ++i) {
 				if (data >= m_datas[i] && data < m_datas[i] + m_block_size) {
-					return sys_false;
+					return sys_true;
 				}
 			}
 
-			return sys_true;
+			return sys_false;
 		}
 
 		u64 memory_size() {
-- 
2.43.0


From e17280c17dfd75d266508343b0c21e3e87dd51c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:16 +0000
Subject: [PATCH 155/195] fix: a histogram counts every datum

---
 basicmath/src/mt_hist.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/basicmath/src/mt_hist.cpp b/basicmath/src/mt_hist.cpp
index babe0fd..74b4b0e 100644
--- a/basicmath/src/mt_hist.cpp
+++ b/basicmath/src/mt_hist.cpp
@@ -7,13 +7,14 @@
 
 void mt_hist::hist(vector<mt_range_t<f64>>& ranges, vector<i32>& numbers, const vector<f64>& data, i32 hist_bin_number) {
 	f64 max_value = mt_helper::compute_max<f64>((i32)data.size(), &data[0]);
-	max_value += max_value / 100;
-
 	f64 min_value = mt_helper::compute_min<f64>((i32)data.size(), &data[0]);
 
+	max_value += max_value > min_value ? (max_value - min_value) / 100 : 1;
+
 	f64 gap = (max_value - min_value) / hist_bin_number;
 
 	ranges.resize(hist_bin_number);
+	numbers.assign(hist_bin_number, 0);
 
 	f64 base_value = min_value;
 
-- 
2.43.0


From fe1e076f50cf7a92b0a21a010a2e01cb40d50a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:16 +0000
Subject: [PATCH 156/195] fix: the members of rectangles compile and subtract

---
 basicmath/include/mt_rect_t.h | 98 +++++++++++++++++------------------
 1 file changed, 49 insertions(+), 49 deletions(-)

diff --git a/basicmath/include/mt_rect_t.h b/basicmath/include/mt_rect_t.h
index d2115ba..cc1682b 100644
--- a/basicmath/include/mt_rect_t.h
+++ b/basicmath/include/mt_rect_t.h
@@ -47,35 +47,35 @@ public:
 	}
 
 	mt_rect_t<T> operator+(const mt_size_t<T>& other) const {
-		return mt_rect_t<T>(m_left, m_top, m_width + other.width, m_height + other.height);
+		return mt_rect_t<T>(m_left, m_top, m_width + other.m_width, m_height + other.m_height);
 	}
 
 	void operator+=(const mt_point_t<T>& other) {
-		m_left += other.x;
-		m_top += other.y;
+		m_left += other.m_x;
+		m_top += other.m_y;
 	}
 
 	void operator-=(const mt_point_t<T>& other) {
-		m_left += other.x;
-		m_top += other.y;
+		m_left -= other.m_x;
+		m_top -= other.m_y;
 	}
 
 	void operator+=(const mt_size_t<T>& other) {
-		m_width += other.width;
-		m_height += other.height;
+		m_width += other.m_width;
+		m_height += other.m_height;
 	}
 
 	void operator-=(const mt_size_t<T>& other) {
-		m_width += other.width;
-		m_height += other.height;
+		m_width -= other.m_width;
+		m_height -= other.m_height;
 	}
 
 	mt_rect_t<T> operator-(const mt_point_t<T>& other) const {
-		return mt_rect_t<T>(m_left - other.x, m_top - other.y, m_width, m_height);
+		return mt_rect_t<T>(m_left - other.m_x, m_top - other.m_y, m_width, m_height);
 	}
 
 	mt_rect_t<T> operator-(const mt_size_t<T>& other) const {
-		return mt_rect_t<T>(m_left, m_top, m_width - other.width, m_height - other.height);
+		return mt_rect_t<T>(m_left, m_top, m_width - other.m_width, m_height - other.m_height);
 	}
 
 	mt_rect_t(const mt_point_t<T>& left_top, const mt_size_t<T>& size) {
@@ -170,13 +170,13 @@ public:
 		currentNormlized.normlized();
 		otherNormlized.normlized();
 
-		int left = max(currentNormlized.mLeft, otherNormlized.mLeft);		
-		int right = min(currentNormlized.right(), otherNormlized.right());
-		int top = max(currentNormlized.mTop, otherNormlized.mTop);
-		int bottom = min(currentNormlized.bottom(), otherNormlized.bottom());
-		intersectRect.setRect(mt_point(left, top), mt_point(right, bottom));
+		T left = max(currentNormlized.m_left, otherNormlized.m_left);		
+		T right = min(currentNormlized.right(), otherNormlized.right());
+		T top = max(currentNormlized.m_top, otherNormlized.m_top);
+		T bottom = min(currentNormlized.bottom(), otherNormlized.bottom());
+		intersectRect.set_rect(mt_point_t<T>(left, top), mt_point_t<T>(right, bottom));
 
-		return (intersectRect.mWidth > 0) && (intersectRect.mHeight > 0);
+		return (intersectRect.m_width > 0) && (intersectRect.m_height > 0);
 	}
 
 	bool is_intersect(const mt_rect_t<T>& rect) const {
@@ -185,19 +185,19 @@ public:
 	}
 
 	bool contain(const mt_point_t<T>& point) const {
-		if (point.x < m_left) {
+		if (point.m_x < m_left) {
 			return false;
 		}
 
-		if (point.y < m_top) {
+		if (point.m_y < m_top) {
 			return false;
 		}
 
-		if (point.x > right()) {
+		if (point.m_x > right()) {
 			return false;
 		}
 
-		if (point.y > bottom()) {
+		if (point.m_y > bottom()) {
 			return false;
 		}
 
@@ -205,19 +205,19 @@ public:
 	}
 
 	bool boundary(const mt_point_t<T>& point) const {
-		if (point.x == m_left && point.y >= m_top && point.y <= bottom()) {
+		if (point.m_x == m_left && point.m_y >= m_top && point.m_y <= bottom()) {
 			return true;
 		}
 
-		if (point.x == right() && point.y >= m_top && point.y <= bottom()) {
+		if (point.m_x == right() && point.m_y >= m_top && point.m_y <= bottom()) {
 			return true;
 		}
 
-		if (point.y == m_top && point.x >= m_left && point.x <= right()) {
+		if (point.m_y == m_top && point.m_x >= m_left && point.m_x <= right()) {
 			return true;
 		}
 
-		if (point.y == bottom() && point.x >= m_left && point.x <= right()) {
+		if (point.m_y == bottom() && point.m_x >= m_left && point.m_x <= right()) {
 			return true;
 		}
 
@@ -229,7 +229,7 @@ public:
 	}
 	
 	bool in_boundary(const mt_point_t<T>& point) const {
-		return point.x == m_left || point.y == m_top || point.x == m_left + m_width - 1 || point.y == m_top + m_height - 1;
+		return point.m_x == m_left || point.m_y == m_top || point.m_x == m_left + m_width - 1 || point.m_y == m_top + m_height - 1;
 	}
 
 	bool is_intersect_area(const mt_rect_t<T>& r2, double threshold) const {
@@ -265,7 +265,7 @@ public:
 			return false;
 		}	
 
-		return intersectRect.mWidth / (double)r2.mWidth >= threshold; 
+		return intersectRect.m_width / (double)r2.m_width >= threshold; 
 	}
 
 	double get_intersect_width_ratio(const mt_rect_t<T>& r2) const {
@@ -274,7 +274,7 @@ public:
 			return false;
 		}	
 
-		return intersectRect.mWidth / (double)r2.mWidth; 
+		return intersectRect.m_width / (double)r2.m_width; 
 	}
 
 	bool is_intersect_height(const mt_rect_t<T>& r2, double threshold) const {
@@ -283,7 +283,7 @@ public:
 			return false;
 		}	
 
-		return intersectRect.mHeight / (double)r2.mHeight >= threshold; 
+		return intersectRect.m_height / (double)r2.m_height >= threshold; 
 	}
 
 	double get_intersect_height_ratio(const mt_rect_t<T>& r2) const {
@@ -292,7 +292,7 @@ public:
 			return false;
 		}	
 
-		return intersectRect.mHeight / (double)r2.mHeight; 
+		return intersectRect.m_height / (double)r2.m_height; 
 	}
 
 	/**
@@ -373,20 +373,20 @@ public:
 	}
 
 	void validate_point(mt_point_t<T>& pt) const{
-		if (pt.x < m_left) {
-			pt.x = m_left;
+		if (pt.m_x < m_left) {
+			pt.m_x = m_left;
 		}
 
-		if (pt.x > right()) {
-			pt.x = right();
+		if (pt.m_x > right()) {
+			pt.m_x = right();
 		}
 
-		if (pt.y < m_top) {
-			pt.y = m_top;
+		if (pt.m_y < m_top) {
+			pt.m_y = m_top;
 		}
 
-		if (pt.y > bottom()) {
-			pt.y = bottom();
+		if (pt.m_y > bottom()) {
+			pt.m_y = bottom();
 		}
 	}
 
@@ -397,7 +397,7 @@ public:
 		validate_point(tlPoint);
 		validate_point(brPoint);
 
-		rect.setRect(tlPoint, brPoint);
+		rect.set_rect(tlPoint, brPoint);
 	}
 
 	double aspect() const {
@@ -465,7 +465,7 @@ public:
 		mt_rect_t<T> top;
 		mt_rect_t<T> bottom;
 
-		if (m_top < other.mTop) {
+		if (m_top < other.m_top) {
 			top = *this;
 			bottom = other;
 		} else {
@@ -473,7 +473,7 @@ public:
 			bottom = *this;
 		}
 
-		T distance = bottom.mTop - top.bottom();
+		T distance = bottom.m_top - top.bottom();
 
 		if (distance < 0) {
 			distance = 0;
@@ -498,10 +498,10 @@ public:
 	
 	mt_rect_t<T> operator*(const mt_point2d& v) {
 		mt_rect_t<T> res;
-		res.mLeft = (T)(m_left * v.m_x);
-		res.mTop = (T)(m_top * v.m_y);
-		res.mWidth = (T)(m_width * v.m_x);
-		res.mHeight = (T)(m_height * v.m_y);
+		res.m_left = (T)(m_left * v.m_x);
+		res.m_top = (T)(m_top * v.m_y);
+		res.m_width = (T)(m_width * v.m_x);
+		res.m_height = (T)(m_height * v.m_y);
 
 		return res;
 	}
@@ -515,10 +515,10 @@ public:
 
 	mt_rect_t<T> operator/(const mt_point2d& v) {
 		mt_rect_t<T> res;
-		res.mLeft = (T)(m_left / v.m_x);
-		res.mTop = (T)(m_top / v.m_y);
-		res.mWidth = (T)(m_width / v.m_x);
-		res.mHeight = (T)(m_height / v.m_y);
+		res.m_left = (T)(m_left / v.m_x);
+		res.m_top = (T)(m_top / v.m_y);
+		res.m_width = (T)(m_width / v.m_x);
+		res.m_height = (T)(m_height / v.m_y);
 
 		return res;
 	}
-- 
2.43.0


From ea9f4c6b8fc04ad812648fb843d3e9fdeb36c4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:16 +0000
Subject: [PATCH 157/195] fix: sizes keep fractions

---
 basicmath/include/mt_size_t.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/include/mt_size_t.h b/basicmath/include/mt_size_t.h
index c7c1524..05c838c 100644
--- a/basicmath/include/mt_size_t.h
+++ b/basicmath/include/mt_size_t.h
@@ -7,7 +7,7 @@ namespace basicmath {
 	class mt_size_t {
 	public:
 
-		mt_size_t(int width = -1, int height = -1) {
+		mt_size_t(T width = -1, T height = -1) {
 			m_width = width;
 			m_height = height;
 		}
-- 
2.43.0


From c463911ae3a933f81bab532164b55704b8db2621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:45 +0000
Subject: [PATCH 158/195] fix: the text of a vector parts its elements from its
 type

---
 basicmath/src/mt_mat_serialize.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/src/mt_mat_serialize.cpp b/basicmath/src/mt_mat_serialize.cpp
index 37fa702..9c34686 100644
--- a/basicmath/src/mt_mat_serialize.cpp
+++ b/basicmath/src/mt_mat_serialize.cpp
@@ -92,7 +92,7 @@ namespace basicmath {
 		string depth_channel_str = string(", depth_channel: ") + mt_Depth_Channel::depth_channel_str(mat.depth_channel());
 
 		if (1 == mat.dim()) {
-			str<<"1d mat: "<<mat.size()[0]<<depth_channel_str;
+			str<<"1d mat: "<<mat.size()[0]<<depth_channel_str<<"\n";
 			switch (mat.depth()) {
 			case mt_U8:
 				write_1d_mat<u8>(str, mat);
-- 
2.43.0


From d68196c3462e211681490d64e23cc67b0ee443b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:45 +0000
Subject: [PATCH 159/195] fix: the empty matrix can be written

---
 basicmath/src/mt_mat_serialize.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/basicmath/src/mt_mat_serialize.cpp b/basicmath/src/mt_mat_serialize.cpp
index 9c34686..c27849f 100644
--- a/basicmath/src/mt_mat_serialize.cpp
+++ b/basicmath/src/mt_mat_serialize.cpp
@@ -89,6 +89,10 @@ namespace basicmath {
 	}
 
 	void write(sys_strcombine& str, const mt_mat& mat) {
+		if (mat.is_empty()) {
+			return;
+		}
+
 		string depth_channel_str = string(", depth_channel: ") + mt_Depth_Channel::depth_channel_str(mat.depth_channel());
 
 		if (1 == mat.dim()) {
@@ -229,6 +233,11 @@ namespace basicmath {
 
 		writer<<"]";
 
+		if (data.is_empty()) {
+			writer<<"}";
+			return;
+		}
+
 		writer<<"depth_channel"<<mt_Depth_Channel::depth_channel_str(data.depth_channel());
 		writer<<"data"<<"[";
 
-- 
2.43.0


From 25c43614393e99111de96c9fb065f44e03c38185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:13 +0000
Subject: [PATCH 160/195] fix: Canny neither writes into gradients given to a
 former call nor reads unset flags

---
 basicimg/include/img_canny.h | 12 ++++++++++++
 basicimg/src/img_canny.cpp   | 13 +++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/basicimg/include/img_canny.h b/basicimg/include/img_canny.h
index 615d9fb..dc08746 100644
--- a/basicimg/include/img_canny.h
+++ b/basicimg/include/img_canny.h
@@ -11,6 +11,10 @@ namespace basicimg {
 			m_l2_gradient = sys_true;
 			m_enable_memory_cache = sys_true;
 
+			m_inner_gradient_x = sys_false;
+			m_inner_gradient_y = sys_false;
+			m_inner_gradient_mag = sys_false;
+
 			m_buffer = NULL;
 			m_buffer_size = 0;
 		}
@@ -23,6 +27,10 @@ namespace basicimg {
 			m_l2_gradient = sys_true;
 			m_enable_memory_cache = enable_memory_cache;
 
+			m_inner_gradient_x = sys_false;
+			m_inner_gradient_y = sys_false;
+			m_inner_gradient_mag = sys_false;
+
 			m_buffer = NULL;
 			m_buffer_size = 0;
 		}
@@ -34,6 +42,10 @@ namespace basicimg {
 			m_apeture_size = apeture_size;
 			m_l2_gradient = l2_gradient;
 			m_enable_memory_cache = enable_memory_cache;
+			m_inner_gradient_x = sys_false;
+			m_inner_gradient_y = sys_false;
+			m_inner_gradient_mag = sys_false;
+
 			m_buffer = NULL;
 			m_buffer_size = 0;
 		}
diff --git a/basicimg/src/img_canny.cpp b/basicimg/src/img_canny.cpp
index a1d542c..76a72a5 100644
--- a/basicimg/src/img_canny.cpp
+++ b/basicimg/src/img_canny.cpp
@@ -31,6 +31,11 @@ mt_mat img_canny::edge_detection(const mt_mat& src, const mt_mat& gradient_x /*
 
 void img_canny::edge_detection(mt_mat& edge, const mt_mat& src, const mt_mat& gradient_x /* = mt_mat() */, const mt_mat& gradient_y /* = mt_mat() */, const mt_mat& gradient_mag /* = mt_mat() */) {
 	if (gradient_x.is_empty()) {
+		if (!m_inner_gradient_x) {
+			// Do not write into a gradient given to a former call
+			m_gradient_x = mt_mat();
+		}
+
 		img_img::sobel(m_gradient_x, src, mt_F32, 1, 0, m_apeture_size);
 		m_inner_gradient_x = sys_true;
 	} else {
@@ -39,6 +44,10 @@ void img_canny::edge_detection(mt_mat& edge, const mt_mat& src, const mt_mat& gr
 	}
 
 	if (gradient_y.is_empty()) {
+		if (!m_inner_gradient_y) {
+			m_gradient_y = mt_mat();
+		}
+
 		img_img::sobel(m_gradient_y, src, mt_F32, 0, 1, m_apeture_size);
 		m_inner_gradient_y = sys_true;
 	} else {
@@ -53,6 +62,10 @@ void img_canny::edge_detection(mt_mat& edge, const mt_mat& src, const mt_mat& gr
 			gradient_mag_type = img_img::Gradient_Mag_Type_L2;
 		}
 
+		if (!m_inner_gradient_mag) {
+			m_gradient_mag = mt_mat();
+		}
+
 		 img_img::generate_gradient_mag(m_gradient_mag, m_gradient_x, m_gradient_y, gradient_mag_type);
 		 m_inner_gradient_mag = sys_true;
 	} else {
-- 
2.43.0


From 38a41756c3fad437012097c7271448f03ab1e183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:13 +0000
Subject: [PATCH 161/195] fix: Canny reads gradients and writes edges by their
 column steps

---
 basicimg/src/img_canny.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/basicimg/src/img_canny.cpp b/basicimg/src/img_canny.cpp
index 76a72a5..bf03174 100644
--- a/basicimg/src/img_canny.cpp
+++ b/basicimg/src/img_canny.cpp
@@ -110,6 +110,14 @@ void img_canny::canny_impl(mt_mat& edge) {
     memset(map, 1, mapstep);
     memset(map + mapstep*(m_gradient_x.size()[0] + 1), 1, mapstep);
 
+	// The gradients may be views whose columns are not adjacent
+	const mt_mat& const_x = m_gradient_x;
+	const mt_mat& const_y = m_gradient_y;
+	const mt_mat& const_mag = m_gradient_mag;
+	basicsys::i64 x_step = const_x.step()[1] / (i32)sizeof(f32);
+	basicsys::i64 y_step = const_y.step()[1] / (i32)sizeof(f32);
+	basicsys::i64 mag_step = const_mag.step()[1] / (i32)sizeof(f32);
+
     int maxsize = max(1 << 10, cols * m_gradient_x.size()[0] / 10);
 	
 	if ((i32)m_stack.size() > maxsize * 4) {
@@ -150,7 +158,7 @@ void img_canny::canny_impl(mt_mat& edge) {
             //for (int j = 0; j < dx.cols; j++)
             //   _norm[j] = int(_dx[j])*_dx[j] + int(_dy[j])*_dy[j];
 			for (i32 j = 0; j < cols; j++)
-			   _norm[j] = (i32)value[j];
+			   _norm[j] = (i32)value[j * mag_step];
 
             _norm[-1] = _norm[cols] = 0;
         }
@@ -189,8 +197,8 @@ void img_canny::canny_impl(mt_mat& edge) {
 
             if (m > low)
             {
-                i32 xs = (i32)_x[j];
-                i32 ys = (i32)_y[j];
+                i32 xs = (i32)_x[j * x_step];
+                i32 ys = (i32)_y[j * y_step];
                 i32 x = std::abs(xs);
                 i32 y = std::abs(ys) << CANNY_SHIFT;
 
@@ -265,6 +273,6 @@ __ocv_canny_push:
     for (int i = 0; i < rows; i++, pmap += mapstep, pdst += edge.step()[0])
     {
         for (int j = 0; j < cols; j++)
-            pdst[j] = (u8)-(pmap[j] >> 1);
+            pdst[j * edge.step()[1]] = (u8)-(pmap[j] >> 1);
     }
 }
\ No newline at end of file
-- 
2.43.0


From 03a86885f777d5de98b97cdae10ec82e4b7cc2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:13 +0000
Subject: [PATCH 162/195] fix: Canny compares the directions of large gradients
 without overflow

---
 basicimg/src/img_canny.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/basicimg/src/img_canny.cpp b/basicimg/src/img_canny.cpp
index bf03174..3c38ec6 100644
--- a/basicimg/src/img_canny.cpp
+++ b/basicimg/src/img_canny.cpp
@@ -199,10 +199,10 @@ void img_canny::canny_impl(mt_mat& edge) {
             {
                 i32 xs = (i32)_x[j * x_step];
                 i32 ys = (i32)_y[j * y_step];
-                i32 x = std::abs(xs);
-                i32 y = std::abs(ys) << CANNY_SHIFT;
+                basicsys::i64 x = std::abs(xs);
+                basicsys::i64 y = (basicsys::i64)std::abs(ys) << CANNY_SHIFT;
 
-                i32 tg22x = x * TG22;
+                basicsys::i64 tg22x = x * TG22;
 
                 if (y < tg22x)
                 {
@@ -210,7 +210,7 @@ void img_canny::canny_impl(mt_mat& edge) {
                 }
                 else
                 {
-                    int tg67x = tg22x + (x << (CANNY_SHIFT+1));
+                    basicsys::i64 tg67x = tg22x + (x << (CANNY_SHIFT+1));
                     if (y > tg67x)
                     {
                         if (m > _mag[j+magstep2] && m >= _mag[j+magstep1]) goto __ocv_canny_push;
-- 
2.43.0


From aa91d20a81eead708bb44c23e9bb15b3c7eef8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:13 +0000
Subject: [PATCH 163/195] fix: the stack of Canny has room for a whole row

---
 basicimg/src/img_canny.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicimg/src/img_canny.cpp b/basicimg/src/img_canny.cpp
index 3c38ec6..d51c476 100644
--- a/basicimg/src/img_canny.cpp
+++ b/basicimg/src/img_canny.cpp
@@ -182,7 +182,7 @@ void img_canny::canny_impl(mt_mat& edge) {
 
         if ((stack_top - stack_bottom) + cols > maxsize) {
             i32 sz = (i32)(stack_top - stack_bottom);
-            maxsize = maxsize * 3/2;
+            maxsize = max(maxsize * 3/2, sz + cols);
             m_stack.resize(maxsize);
             stack_bottom = &m_stack[0];
             stack_top = stack_bottom + sz;
-- 
2.43.0


From 8d1321b741e2f998c8249724802a0d1fd350d330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:33 +0000
Subject: [PATCH 164/195] fix: adaptive edge thresholds have a window in images
 smaller than a step

---
 basicimg/src/img_auto_threshold_canny.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/basicimg/src/img_auto_threshold_canny.cpp b/basicimg/src/img_auto_threshold_canny.cpp
index bc3a1f2..9ce704b 100644
--- a/basicimg/src/img_auto_threshold_canny.cpp
+++ b/basicimg/src/img_auto_threshold_canny.cpp
@@ -72,6 +72,10 @@ void img_auto_threshold_canny::edge_detection(mt_mat& edge, const mt_mat& src, c
 	i32 image_window_row_number = rows / window_step + ((rows % window_step) > half_window_size ? 1 : 0);
 	i32 image_window_col_number = cols / window_step + ((rows % window_step) > half_window_size ? 1 : 0);
 
+	// An image smaller than a step still has a window
+	image_window_row_number = max(image_window_row_number, 1);
+	image_window_col_number = max(image_window_col_number, 1);
+
 #define REAL_ROW(row)	\
 	(min(((row) / window_step), rowStepSub1))
 #define REAL_COL(col)	\
-- 
2.43.0


From 90e58786c434179b90b18991c4ad07a2534ac564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:33 +0000
Subject: [PATCH 165/195] fix: a stroke is not followed from an edge pixel
 without gradient

---
 basicimg/src/img_stroke_width_transform.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/basicimg/src/img_stroke_width_transform.cpp b/basicimg/src/img_stroke_width_transform.cpp
index bf115d8..aafbd0a 100644
--- a/basicimg/src/img_stroke_width_transform.cpp
+++ b/basicimg/src/img_stroke_width_transform.cpp
@@ -57,6 +57,11 @@ mt_mat img_stroke_width_transform::swt(mt_mat& edge, mt_mat& gradient_x, mt_mat&
 			start_g_norm = start_g_x * start_g_x + start_g_y * start_g_y;
 			start_g_norm = sqrt(start_g_norm);
 
+			if (0 == start_g_norm) {
+				// No direction to follow
+				continue;
+			}
+
 			start_g_x /= start_g_norm;
 			start_g_y /= start_g_norm;
 
-- 
2.43.0


From c627cf290d76111b57daab41468f35c143a77ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:33 +0000
Subject: [PATCH 166/195] fix: the angle between two stroke ends is taken from
 unit gradients

---
 basicimg/src/img_stroke_width_transform.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/basicimg/src/img_stroke_width_transform.cpp b/basicimg/src/img_stroke_width_transform.cpp
index aafbd0a..032ebbc 100644
--- a/basicimg/src/img_stroke_width_transform.cpp
+++ b/basicimg/src/img_stroke_width_transform.cpp
@@ -31,6 +31,7 @@ mt_mat img_stroke_width_transform::swt(mt_mat& edge, mt_mat& gradient_x, mt_mat&
 	i32 surround_y;
 	f32 stop_g_x;
 	f32 stop_g_y;
+	f32 stop_g_norm;
 	f32 gradient_value;
 
 	i32 nextPointIndex;
@@ -127,7 +128,13 @@ mt_mat img_stroke_width_transform::swt(mt_mat& edge, mt_mat& gradient_x, mt_mat&
 									stop_g_y = -stop_g_y;
 								}
 
-								gradient_value = start_g_x * -stop_g_x + start_g_y * -stop_g_y;
+								stop_g_norm = sqrt(stop_g_x * stop_g_x + stop_g_y * stop_g_y);
+
+								if (0 == stop_g_norm) {
+									continue;
+								}
+
+								gradient_value = (start_g_x * -stop_g_x + start_g_y * -stop_g_y) / stop_g_norm;
 
 								if (gradient_value >= mt_trigonometric_function::angle_cos(pars.m_pair_intersect_angle)) {
 									if (0 == nextPointIndex) {
-- 
2.43.0


From a3fe288bf6cac68516eceebc39bc31358c9d060f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:33 +0000
Subject: [PATCH 167/195] fix: the picture of stroke widths is taken by column
 steps

---
 basicimg/src/img_stroke_width_transform.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/basicimg/src/img_stroke_width_transform.cpp b/basicimg/src/img_stroke_width_transform.cpp
index 032ebbc..4019550 100644
--- a/basicimg/src/img_stroke_width_transform.cpp
+++ b/basicimg/src/img_stroke_width_transform.cpp
@@ -201,6 +201,8 @@ mt_mat img_stroke_width_transform::swt(mt_mat& edge, mt_mat& gradient_x, mt_mat&
 
 mt_mat img_stroke_width_transform::normalize_swt_image(mt_mat& swt_image, i16 invalid_stroke_width) {
 	mt_mat ret(swt_image.size()[0], swt_image.size()[1], mt_U8C1);
+	const mt_mat& const_image = swt_image;
+	basicsys::i64 step = const_image.step()[1] / (i32)sizeof(i16);
 	i16 maxVal = 0;
 	i16 minVal = mt_I16_Max;
 	for( i32 row = 0; row < swt_image.size()[0]; row++ ){
@@ -211,7 +213,7 @@ mt_mat img_stroke_width_transform::normalize_swt_image(mt_mat& swt_image, i16 in
 				minVal = min(*ptr, minVal);
 			}
 
-			ptr++;
+			ptr += step;
 		}
 	}
 
@@ -231,7 +233,7 @@ mt_mat img_stroke_width_transform::normalize_swt_image(mt_mat& swt_image, i16 in
 				*ptrout = (uchar)(255 * ((*ptrin) - minVal)/(f32)difference);
 			}
 			ptrout++;
-			ptrin++;
+			ptrin += step;
 		}
 	}
 
-- 
2.43.0


From 4de2d7f5fda4d94adb19a63d38abd78f1b1a4299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:10 +0000
Subject: [PATCH 168/195] fix: adaptive edge thresholds address pixels by row
 and column

---
 basicimg/src/img_auto_threshold_canny.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/basicimg/src/img_auto_threshold_canny.cpp b/basicimg/src/img_auto_threshold_canny.cpp
index 9ce704b..d47e348 100644
--- a/basicimg/src/img_auto_threshold_canny.cpp
+++ b/basicimg/src/img_auto_threshold_canny.cpp
@@ -35,7 +35,7 @@ void img_auto_threshold_canny::edge_detection(mt_mat& edge, const mt_mat& src, c
 			m_edge_gradient_integral_sum_image.at<f32>(0, col, 0) = m_edge_gradient_integral_sum_image.at<f32>(0, col - 1, 0) + m_canny.gradient_mag().at<f32>(0, col, 0);
 			m_edge_gradient_integral_number_image.at<i32>(0, col, 0) = m_edge_gradient_integral_number_image.at<i32>(0, col - 1, 0) + 1;
 		} else {
-			m_edge_gradient_integral_sum_image.at<f32>(0, col) = m_edge_gradient_integral_sum_image.at<f32>(0, col - 1, 0);
+			m_edge_gradient_integral_sum_image.at<f32>(0, col, 0) = m_edge_gradient_integral_sum_image.at<f32>(0, col - 1, 0);
 			m_edge_gradient_integral_number_image.at<i32>(0, col, 0) = m_edge_gradient_integral_number_image.at<i32>(0, col - 1, 0);
 		}
 	}
@@ -176,7 +176,7 @@ void img_auto_threshold_canny::edge_detection(mt_mat& edge, const mt_mat& src, c
 
 				auto_high_threshold = gradient_mean.at<f32>(realRow, realCol, 0) * m_auto_threshold_to_mean_ratio;
 
-				if (destiny_flags.at<u8>(realRow, realCol) > m_density_window_flag_overlap_number_threshold) {
+				if (destiny_flags.at<u8>(realRow, realCol, 0) > m_density_window_flag_overlap_number_threshold) {
 					auto_high_threshold = m_auto_threshold_density;
 				}
 
@@ -250,7 +250,7 @@ void img_auto_threshold_canny::remove_small_edge(mt_mat& edgeImage, mt_mat& flag
 				continue;
 			}
 
-			if (255 == edgeImage.at<u8>(other.m_y, other.m_x)) {
+			if (255 == edgeImage.at<u8>(other.m_y, other.m_x, 0)) {
 				if (!hasHighGradientValue && m_canny.gradient_mag().at<f32>(other.m_y, other.m_x, 0) >= m_can_not_be_removed_threshold) {
 					hasHighGradientValue = true;
 				}
@@ -293,7 +293,7 @@ void img_auto_threshold_canny::trace_edge(mt_mat& edgeImage, f32 lowThreshold, c
 				continue;
 			}
 
-			if ((m_canny.gradient_mag().at<f32>(other.m_y, other.m_x) < lowThreshold)
+			if ((m_canny.gradient_mag().at<f32>(other.m_y, other.m_x, 0) < lowThreshold)
 				|| 255 == edgeImage.at<u8>(other.m_y, other.m_x, 0)
 				|| 0 == m_temp_edge.at<u8>(other.m_y, other.m_x, 0)) {
 					continue;
-- 
2.43.0


From 90c9bd4734e6e058ffebee43c1849a6a75fefd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:10 +0000
Subject: [PATCH 169/195] fix: stroke widths address pixels by row and column

---
 basicimg/src/img_stroke_width_transform.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/basicimg/src/img_stroke_width_transform.cpp b/basicimg/src/img_stroke_width_transform.cpp
index 4019550..f308f80 100644
--- a/basicimg/src/img_stroke_width_transform.cpp
+++ b/basicimg/src/img_stroke_width_transform.cpp
@@ -102,11 +102,11 @@ mt_mat img_stroke_width_transform::swt(mt_mat& edge, mt_mat& gradient_x, mt_mat&
 						continue;
 					}
 
-					if (first && 255 == edge.at<uchar>(next_y, next_x)) {
+					if (first && 255 == edge.at<uchar>(next_y, next_x, 0)) {
 						continue;
 					} 
 
-					if (255 == edge.at<uchar>(next_y, next_x)) {	
+					if (255 == edge.at<uchar>(next_y, next_x, 0)) {	
 						if (has_non_edge_pixel) {
 							for (i32 surroundIndex = 0; surroundIndex < 9; ++surroundIndex) {
 								surround_x = next_x + img_DX_3_9[surroundIndex];
@@ -242,8 +242,8 @@ mt_mat img_stroke_width_transform::normalize_swt_image(mt_mat& swt_image, i16 in
 
 void img_stroke_width_transform::set_ray_width(mt_mat& swt_image, const swt_ray& ray) {
 	for (mt_point* iter = ray.m_start; iter < ray.m_stop; ++iter) {
-		if (ray.m_width < swt_image.at<i16>(iter->m_y, iter->m_x)) {
-			swt_image.at<i16>(iter->m_y, iter->m_x) = ray.m_width;
+		if (ray.m_width < swt_image.at<i16>(iter->m_y, iter->m_x, 0)) {
+			swt_image.at<i16>(iter->m_y, iter->m_x, 0) = ray.m_width;
 		}
 	}
 }
@@ -262,7 +262,7 @@ void img_stroke_width_transform::median_stroke_width(mt_mat& swt_image, vector<s
 		i32 index = 0;
 
 		for (mt_point* iter = rays[i].m_start; iter < rays[i].m_stop; ++iter) {
-			widths[index++] = swt_image.at<i16>(iter->m_y, iter->m_x);
+			widths[index++] = swt_image.at<i16>(iter->m_y, iter->m_x, 0);
 		}
 
 		rays[i].m_width = mt_helper::median_with_changed_order(widths);
-- 
2.43.0


From 78b929636da12d6e6de5368410e03e73b5821cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:40 +0000
Subject: [PATCH 170/195] fix: a mask image that masks every pixel leaves no
 component

---
 basicimg/include/img_connected_component.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/basicimg/include/img_connected_component.h b/basicimg/include/img_connected_component.h
index a1df472..55dd9db 100644
--- a/basicimg/include/img_connected_component.h
+++ b/basicimg/include/img_connected_component.h
@@ -476,6 +476,12 @@ namespace basicimg {
 						maskData += maskOffset;
 					}
 
+					if (rowMax < rowMin) {
+						// every pixel is masked
+						rowMin = colMin = 0;
+						rowMax = colMax = -1;
+					}
+
 					mt_size targetImageSize(colMax - colMin + 1, rowMax - rowMin + 1);
 					preInfo.m_activate_rect.set_rect(mt_point(colMin, rowMin), targetImageSize);
 
-- 
2.43.0


From 10c0939be03bc1c3422971d8566055da73271bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:40 +0000
Subject: [PATCH 171/195] fix: components of images whose rows are no multiple
 of a pixel

---
 basicimg/include/img_connected_component.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/basicimg/include/img_connected_component.h b/basicimg/include/img_connected_component.h
index 55dd9db..9fe305e 100644
--- a/basicimg/include/img_connected_component.h
+++ b/basicimg/include/img_connected_component.h
@@ -410,7 +410,7 @@ namespace basicimg {
 					preInfo.m_activate_rect = maskInfo.m_mask_rect;
 				}
 
-				i32 srcByteOffset = (i32)src.step()[0] / sizeof(T) - preInfo.m_activate_rect.m_width;
+				i32 srcByteOffset = (i32)src.step()[0] - preInfo.m_activate_rect.m_width * (i32)sizeof(T);
 
 				preInfo.m_temp_image = mt_mat((preInfo.m_activate_rect.m_height + 2) * sizeof(image_pixel_type), (preInfo.m_activate_rect.m_width + 2) * sizeof(image_pixel_type), mt_U8C1);
 				preInfo.m_temp_image.size()[1] = preInfo.m_activate_rect.m_width + 2;
@@ -442,7 +442,7 @@ namespace basicimg {
 					data->m_visit_flag = 1;
 					++data;
 					data += temp_image_append_offset;
-					rawData += srcByteOffset;
+					rawData = (const T*)((const u8*)rawData + srcByteOffset);
 				}
 
 				for (i32 col = 0; col < preInfo.m_temp_image.size()[1]; ++col) {
@@ -491,7 +491,7 @@ namespace basicimg {
 					preInfo.m_temp_image.step()[1] = sizeof(image_pixel_type);
 					temp_image_append_offset = (i32)preInfo.m_temp_image.step()[0] / sizeof(image_pixel_type) - preInfo.m_temp_image.size()[1];
 
-					i32 rawImageAppendOffset = (i32)src.step()[0] / sizeof(T) - targetImageSize.m_width;
+					i32 rawImageAppendOffset = (i32)src.step()[0] - targetImageSize.m_width * (i32)sizeof(T);
 					image_pixel_type* data = (image_pixel_type*)preInfo.m_temp_image.data();
 
 					//��λ��Ч��������ĵ�һ������
@@ -532,7 +532,7 @@ namespace basicimg {
 						++data;
 						data += temp_image_append_offset;
 						maskData += (i32)maskInfo.m_mask_image.step()[0] - targetImageSize.m_width;
-						rawData += rawImageAppendOffset;
+						rawData = (const T*)((const u8*)rawData + rawImageAppendOffset);
 					}
 
 					for (i32 col = 0; col < preInfo.m_temp_image.size()[1]; ++col) {
@@ -540,7 +540,7 @@ namespace basicimg {
 						++data;
 					}
 				} else if (img_Mask_Type_Value == maskInfo.m_mask_type) {
-					i32 srcByteOffset = (i32)src.step()[0] / sizeof(T) - src.size()[1];
+					i32 srcByteOffset = (i32)src.step()[0] - src.size()[1] * (i32)sizeof(T);
 
 					i32 rowMax = 0;
 					i32 colMax = 0;
@@ -562,7 +562,7 @@ namespace basicimg {
 							}
 						}
 
-						image_data += srcByteOffset;
+						image_data = (T*)((u8*)image_data + srcByteOffset);
 					}
 
 					if (rowMax < rowMin) {
@@ -580,7 +580,7 @@ namespace basicimg {
 					preInfo.m_temp_image.step()[1] = sizeof(image_pixel_type);
 					temp_image_append_offset = (i32)preInfo.m_temp_image.step()[0] / sizeof(image_pixel_type) - preInfo.m_temp_image.size()[1];
 
-					i32 rawImageAppendOffset = (i32)src.step()[0] / sizeof(T) - targetImageSize.m_width;
+					i32 rawImageAppendOffset = (i32)src.step()[0] - targetImageSize.m_width * (i32)sizeof(T);
 
 					image_pixel_type* data = (image_pixel_type*)preInfo.m_temp_image.data();
 
@@ -622,7 +622,7 @@ namespace basicimg {
 						++data;
 						data += temp_image_append_offset;
 
-						rawData += rawImageAppendOffset;
+						rawData = (const T*)((const u8*)rawData + rawImageAppendOffset);
 					}
 
 					for (i32 col = 0; col < preInfo.m_temp_image.size()[1]; ++col) {
-- 
2.43.0


From 1804afaf253924380874357cdf8c2a51275f8f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:27 +0000
Subject: [PATCH 172/195] fix: sys_test evaluated its condition twice in the
 silent mode

---
 basicsys/include/sys_tester.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/basicsys/include/sys_tester.h b/basicsys/include/sys_tester.h
index ff15ea0..7d021a5 100644
--- a/basicsys/include/sys_tester.h
+++ b/basicsys/include/sys_tester.h
@@ -4,8 +4,9 @@
 	if (basicsys::sys_tester::get_instance()->get_test_type() == basicsys::sys_tester::Test_Type_Assert) {\
 		basiclog_assert2((condition));	\
 	} else {\
-		basicsys::sys_tester::get_instance()->add_case_condition((condition));	\
-		if (!(condition)) { \
+		const bool sys_test_holds = (condition) ? true : false;	\
+		basicsys::sys_tester::get_instance()->add_case_condition(sys_test_holds);	\
+		if (!sys_test_holds) { \
 			basiclog_info("SYS_TEST", "wrong condition");\
 		} \
 	}
-- 
2.43.0


From eb3f70a441d902907899303a06d5c33a8f4c9eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:31 +0000
Subject: [PATCH 173/195] fix: a matrix product with one flipped dimension
 never returned

---
 basicmath/src/ml_multiplication.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicmath/src/ml_multiplication.cpp b/basicmath/src/ml_multiplication.cpp
index b9ad7f0..11051dc 100644
--- a/basicmath/src/ml_multiplication.cpp
+++ b/basicmath/src/ml_multiplication.cpp
@@ -48,7 +48,7 @@ namespace basicmath {
 					}
 			} else {
 				mt_mat temp_cur = a;
-				if (a.is_step_negative()) {
+				if (!a.is_step_positive()) {
 					basiclog_warning(basiclog_performance_warning, "the step of current mat has negative values, this will reduce the performance, you should better input a mat with all positive steps!");
 					temp_cur = a.clone();
 				} else if (!a.is_min_abs_step_equal_element_size()) {
@@ -57,7 +57,7 @@ namespace basicmath {
 				}
 
 				mt_mat temp_value = b;
-				if (b.is_step_negative()) {
+				if (!b.is_step_positive()) {
 					basiclog_warning(basiclog_performance_warning, "the step of other mat has negative values, this will reduce the performance, you should better input a mat with all positive steps!");
 					temp_value = b.clone();
 				} else if (!b.is_min_abs_step_equal_element_size()) {
-- 
2.43.0


From 6639fad11b13dbf4b98b51f410dbdf7b400f2940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:31 +0000
Subject: [PATCH 174/195] fix: the product of a row without a pitch was
 rejected by MKL

---
 basicmath/src/ml_multiplication.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/basicmath/src/ml_multiplication.cpp b/basicmath/src/ml_multiplication.cpp
index 11051dc..1e60368 100644
--- a/basicmath/src/ml_multiplication.cpp
+++ b/basicmath/src/ml_multiplication.cpp
@@ -27,18 +27,19 @@ namespace basicmath {
 					b8 cur_transpose = sys_false;
 					b8 other_transpose = sys_false;
 
-					i32 cur_ld = (a.step()[0] / a.element_size());
-					i32 other_ld = (b.step()[0] / b.element_size());
+					//a single row may have any leading dimension, BLAS demands one which is not smaller than the row
+					i32 cur_ld = row_a == 1 ? col_a : (a.step()[0] / a.element_size());
+					i32 other_ld = row_b == 1 ? col_b : (b.step()[0] / b.element_size());
 					i32 res_ld = (res.step()[0] / res.element_size());
 
 					if (a.step()[0] < a.step()[1]) {
 						cur_transpose = sys_true;
-						cur_ld = (a.step()[1] / a.element_size());
+						cur_ld = col_a == 1 ? row_a : (a.step()[1] / a.element_size());
 					}
 
 					if (b.step()[0] < b.step()[1]) {
 						other_transpose = sys_true;
-						other_ld = (b.step()[1] / b.element_size());
+						other_ld = col_b == 1 ? row_b : (b.step()[1] / b.element_size());
 					}
 
 					if (mt_F32 == res.depth()) {
-- 
2.43.0


From 2e4a953a9cb491b7f16a01971b8d90f174d04c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:31 +0000
Subject: [PATCH 175/195] fix: a convolution into its own kernel lost the
 kernel

---
 basicmath/src/mt_convolution.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/src/mt_convolution.cpp b/basicmath/src/mt_convolution.cpp
index ce3e9eb..63802da 100644
--- a/basicmath/src/mt_convolution.cpp
+++ b/basicmath/src/mt_convolution.cpp
@@ -144,7 +144,7 @@ namespace basicmath {
 }
 
 void mt_mat::conv(mt_mat& res, const mt_mat& kernel, mt_Conv_Boundary_Type boundary_type /* = mt_Conv_Boundary_Type_Valid */, mt_Conv_Kernel_Align_Type align_type /* = mt_Conv_Kernel_Align_Type_Row */, const int* conv_strides /* = NULL */) const {
-	if (&res == this) {
+	if (&res == this || &res == &kernel) {
 		mt_mat temp;
 		conv(temp, kernel, boundary_type, align_type, conv_strides);
 
-- 
2.43.0


From 6de63420bf1fda77afed72fa6b7c4b92f59591fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:31 +0000
Subject: [PATCH 176/195] fix: a recorded convolution read the strides after
 they were released

---
 basicmath/src/mt_convolution.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/basicmath/src/mt_convolution.cpp b/basicmath/src/mt_convolution.cpp
index 63802da..729ac68 100644
--- a/basicmath/src/mt_convolution.cpp
+++ b/basicmath/src/mt_convolution.cpp
@@ -279,7 +279,6 @@ void mt_mat::conv(mt_mat& res, const mt_mat& kernel, mt_Conv_Boundary_Type bound
 	basicmath_mat_release(full_sizes);
 	basicmath_mat_release(sizes);
 	basicmath_mat_release(starts);
-	basicmath_mat_release(temp_strides);
 	basicmath_mat_release(res_steps);
 
 	if (m_auto_derivative != NULL && m_auto_derivative->stage() == mt_auto_derivative::Stage_Record_Computing) {
@@ -288,6 +287,8 @@ void mt_mat::conv(mt_mat& res, const mt_mat& kernel, mt_Conv_Boundary_Type bound
 
 		m_auto_derivative->cnov(res, *this, kernel, boundary_type, temp_strides);
 	}
+
+	basicmath_mat_release(temp_strides);
 }
 
 mt_mat mt_mat::conv(const mt_mat& kernel, mt_Conv_Boundary_Type boundary_type /* = mt_Conv_Boundary_Type_Valid */, mt_Conv_Kernel_Align_Type align_type, const int* conv_strides /* = NULL */) const {	
-- 
2.43.0


From 88ac307f1deb5d66c4954ef30a82ecc6428b4034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:31 +0000
Subject: [PATCH 177/195] fix: the derivative of a convolution ignored the
 alignment of its kernel

---
 basicmath/include/mt_auto_derivative.h      | 2 +-
 basicmath/include/mt_auto_derivative_tree.h | 4 +++-
 basicmath/src/mt_auto_derivative.cpp        | 8 ++++++--
 basicmath/src/mt_auto_derivative_tree.cpp   | 4 ++--
 basicmath/src/mt_convolution.cpp            | 2 +-
 5 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/basicmath/include/mt_auto_derivative.h b/basicmath/include/mt_auto_derivative.h
index f0477c7..61e2279 100644
--- a/basicmath/include/mt_auto_derivative.h
+++ b/basicmath/include/mt_auto_derivative.h
@@ -77,7 +77,7 @@ namespace basicmath {
 		void subtract(const mt_mat& res, const vector<double>& a, const mt_mat& b);
 		
 		void mul(const mt_mat& res, const mt_mat& a, const mt_mat& b);
-		void cnov(const mt_mat& res, const mt_mat& src, const mt_mat& kernel, mt_Conv_Boundary_Type boundary_type, const i32* strides);
+		void cnov(const mt_mat& res, const mt_mat& src, const mt_mat& kernel, mt_Conv_Boundary_Type boundary_type, mt_Conv_Kernel_Align_Type align_type, const i32* strides);
 
 		void flip(const mt_mat& res, const mt_mat& src, i32 size, const b8* flip_flags);
 		void reshape(const mt_mat& res, const mt_mat& src);
diff --git a/basicmath/include/mt_auto_derivative_tree.h b/basicmath/include/mt_auto_derivative_tree.h
index 0332d1b..37baa91 100644
--- a/basicmath/include/mt_auto_derivative_tree.h
+++ b/basicmath/include/mt_auto_derivative_tree.h
@@ -657,7 +657,7 @@ namespace basicmath {
 	class mt_ad_conv_tree_node : public mt_ad_mat_tree_node {
 	public:
 
-		mt_ad_conv_tree_node(const mt_mat& res, mt_ad_tree_node* src, mt_ad_tree_node* kernel, const i32* strides, i32 max_cache_size = mt_Auto_Derivative_Default_Max_Cache_Size) {
+		mt_ad_conv_tree_node(const mt_mat& res, mt_ad_tree_node* src, mt_ad_tree_node* kernel, mt_Conv_Kernel_Align_Type align_type, const i32* strides, i32 max_cache_size = mt_Auto_Derivative_Default_Max_Cache_Size) {
 			m_mat = res;
 			m_childs.push_back(src);
 			m_childs.push_back(kernel);
@@ -670,6 +670,7 @@ namespace basicmath {
 				m_strides.clear();
 			}
 
+			m_align_type = align_type;
 			m_max_cache_size = max_cache_size;
 		}
 
@@ -681,6 +682,7 @@ namespace basicmath {
 
 		mt_mat derivate_child_on_operation(mt_ad_mat_tree_node* child_node, const mt_mat& derivative_res);
 
+		mt_Conv_Kernel_Align_Type m_align_type;
 		vector<i32> m_strides;
 	};
 
diff --git a/basicmath/src/mt_auto_derivative.cpp b/basicmath/src/mt_auto_derivative.cpp
index 2ab3033..8403de0 100644
--- a/basicmath/src/mt_auto_derivative.cpp
+++ b/basicmath/src/mt_auto_derivative.cpp
@@ -222,13 +222,17 @@ void mt_auto_derivative::mul(const mt_mat& res, const mt_mat& a, const mt_mat& b
 	m_nodes.push_back(new mt_ad_mul_tree_node(res, childs[0], childs[1], m_max_cache_size));
 }
 
-void mt_auto_derivative::cnov(const mt_mat& res, const mt_mat& src, const mt_mat& kernel, mt_Conv_Boundary_Type boundary_type, const i32* strides) {
+void mt_auto_derivative::cnov(const mt_mat& res, const mt_mat& src, const mt_mat& kernel, mt_Conv_Boundary_Type boundary_type, mt_Conv_Kernel_Align_Type align_type, const i32* strides) {
 	if (boundary_type != mt_Conv_Boundary_Type_Valid) {
 		basiclog_unsupport2();
 	}
+
+	if (align_type != mt_Conv_Kernel_Align_Type_Col && align_type != mt_Conv_Kernel_Align_Type_Row && src.channel() > 1) {
+		basiclog_unsupport2();
+	}
 	
 	vector<mt_ad_tree_node*> childs = get_nodes(src, kernel);
-	m_nodes.push_back(new mt_ad_conv_tree_node(res, childs[0], childs[1], strides, m_max_cache_size));
+	m_nodes.push_back(new mt_ad_conv_tree_node(res, childs[0], childs[1], align_type, strides, m_max_cache_size));
 }
 
 void mt_auto_derivative::flip(const mt_mat& res, const mt_mat& src, i32 size, const b8* flip_flags) {
diff --git a/basicmath/src/mt_auto_derivative_tree.cpp b/basicmath/src/mt_auto_derivative_tree.cpp
index 18705a6..abb1c60 100644
--- a/basicmath/src/mt_auto_derivative_tree.cpp
+++ b/basicmath/src/mt_auto_derivative_tree.cpp
@@ -235,11 +235,11 @@ mt_mat mt_ad_conv_tree_node::derivate_child_on_operation(mt_ad_mat_tree_node* ch
 	}
 
 	if (child_node == m_childs[0]) {
-		return derivate_mat.conv(m_childs[1]->to_mat_tree_node()->m_mat.flip_all_dim(), mt_Conv_Boundary_Type_Full, mt_Conv_Kernel_Align_Type_Col);
+		return derivate_mat.conv(m_childs[1]->to_mat_tree_node()->m_mat.flip_all_dim(), mt_Conv_Boundary_Type_Full, m_align_type == mt_Conv_Kernel_Align_Type_Col ? mt_Conv_Kernel_Align_Type_Row : mt_Conv_Kernel_Align_Type_Col);
 	}
 
 	if (child_node == m_childs[1]) {
-		return m_childs[0]->to_mat_tree_node()->m_mat.flip_all_dim().conv(derivate_mat, mt_Conv_Boundary_Type_Valid, mt_Conv_Kernel_Align_Type_Cross_Row);
+		return m_childs[0]->to_mat_tree_node()->m_mat.flip_all_dim().conv(derivate_mat, mt_Conv_Boundary_Type_Valid, m_align_type == mt_Conv_Kernel_Align_Type_Col ? mt_Conv_Kernel_Align_Type_Cross_Col : mt_Conv_Kernel_Align_Type_Cross_Row);
 	}
 
 	basiclog_assert2(sys_false);
diff --git a/basicmath/src/mt_convolution.cpp b/basicmath/src/mt_convolution.cpp
index 729ac68..c85fd9d 100644
--- a/basicmath/src/mt_convolution.cpp
+++ b/basicmath/src/mt_convolution.cpp
@@ -285,7 +285,7 @@ void mt_mat::conv(mt_mat& res, const mt_mat& kernel, mt_Conv_Boundary_Type bound
 		res.m_auto_derivative = m_auto_derivative;
 		kernel.m_auto_derivative = m_auto_derivative;
 
-		m_auto_derivative->cnov(res, *this, kernel, boundary_type, temp_strides);
+		m_auto_derivative->cnov(res, *this, kernel, boundary_type, align_type, temp_strides);
 	}
 
 	basicmath_mat_release(temp_strides);
-- 
2.43.0


From b13cd88f59ffa08aa691e226d96797bc04af84fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:31 +0000
Subject: [PATCH 178/195] fix: drawing components wrote points outside the
 region of interest

---
 basicimg/src/img_connected_component.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/basicimg/src/img_connected_component.cpp b/basicimg/src/img_connected_component.cpp
index 41ec835..a1260b7 100644
--- a/basicimg/src/img_connected_component.cpp
+++ b/basicimg/src/img_connected_component.cpp
@@ -112,7 +112,11 @@ mt_mat img_connected_component_helper::image_from_connected_component(const vect
 		const mt_point* pts = ccs[i]->m_points;
 
 		for (int j = 0; j < ccs[i]->m_size; ++j) {
-			res.set(forground_color, pts[j].m_y - roi.m_top, pts[j].m_x - roi.m_left);
+			mt_point pt(pts[j].m_x - roi.m_left, pts[j].m_y - roi.m_top);
+
+			if (img_img::point_in_image(pt, res)) {
+				res.set(forground_color, pt.m_y, pt.m_x);
+			}
 		}
 	}
 
-- 
2.43.0


From c49de9ea9c9971be9be778cc2af54d7ad10e3e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:27 +0000
Subject: [PATCH 179/195] fix: a b8 made of a multiple of 256 was false

---
 basicsys/include/sys_basic_define.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicsys/include/sys_basic_define.h b/basicsys/include/sys_basic_define.h
index b8f09b0..f7e8e19 100644
--- a/basicsys/include/sys_basic_define.h
+++ b/basicsys/include/sys_basic_define.h
@@ -64,7 +64,7 @@ namespace basicsys {
 		}
 
 		b8(i32 data = 0)
-		: m_data(data) {
+		: m_data(data ? 1 : 0) {
 
 		}
 
-- 
2.43.0


From 3b6f75c433c65cad6f4c1bf803daaa7e1b4c4ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:27 +0000
Subject: [PATCH 180/195] fix: a time of more than 1023 characters in a log
 message was read beyond its buffer

---
 basiclog/src/basiclog.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/basiclog/src/basiclog.cpp b/basiclog/src/basiclog.cpp
index 00096d8..99d9e45 100644
--- a/basiclog/src/basiclog.cpp
+++ b/basiclog/src/basiclog.cpp
@@ -154,6 +154,21 @@ void log_logger::print(const string& level, const string& tag, const string& msg
 	}
 }
 
+/** The text of a time in a format, however long it is.
+*/
+static string time_text(const string& format, const tm& time) {
+	// one character more, so that a length of 0 always means that the buffer is too small
+	string format_with_end = format + " ";
+	vector<char> buffer(1024);
+
+	while (strftime(&buffer[0], buffer.size(), format_with_end.c_str(), &time) == 0) {
+		buffer.resize(buffer.size() * 2);
+	}
+
+	string text(&buffer[0]);
+	return text.substr(0, text.size() - 1);
+}
+
 string log_logger::format_timestamp() const {
 	time_t time_utc;  
 	tm tm_local;  
@@ -175,10 +190,7 @@ string log_logger::format_timestamp() const {
 		time_zone += (tm_local.tm_yday - tm_utc.tm_yday) * 24;  
 	}  
 
-	char buffer[1024];
-	strftime(buffer, 1024, m_timestamp.c_str(), &tm_local);
-
-	return sys_strhelper::combine("%s UTC %s%d", buffer, time_zone > 0 ? "+" : "", time_zone);
+	return time_text(m_timestamp, tm_local) + sys_strhelper::combine(" UTC %s%d", time_zone > 0 ? "+" : "", time_zone);
 }
 
 void log_console_logger::print(const string& log_info) {
-- 
2.43.0


From 88b54d6b2f14cce4e821b128136f790e9cbf8ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:27 +0000
Subject: [PATCH 181/195] fix: combining a text of more than 102399 characters
 lost its end

---
 basicsys/src/sys_strhelper.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/basicsys/src/sys_strhelper.cpp b/basicsys/src/sys_strhelper.cpp
index 3f8d072..c72ca3f 100644
--- a/basicsys/src/sys_strhelper.cpp
+++ b/basicsys/src/sys_strhelper.cpp
@@ -3,18 +3,24 @@
 
 
 string sys_strhelper::combine(const char* pszFormat, ...) {
-	char szBuffer[102400];
-
 	va_list ptr;
 	va_start(ptr, pszFormat);
-#ifdef _WIN32
-	vsprintf_s(szBuffer, sizeof(szBuffer) / sizeof(char), pszFormat, ptr);
-#else
-	vsprintf_s(szBuffer, pszFormat, ptr);
-#endif
+
+	va_list ptr_of_length;
+	va_copy(ptr_of_length, ptr);
+	int length = vsnprintf(NULL, 0, pszFormat, ptr_of_length);
+	va_end(ptr_of_length);
+
+	if (length < 0) {
+		va_end(ptr);
+		return string();
+	}
+
+	vector<char> buffer(length + 1);
+	vsnprintf(&buffer[0], buffer.size(), pszFormat, ptr);
 	va_end(ptr);
 
-	return string(szBuffer);
+	return string(&buffer[0]);
 }
 
 vector<string> sys_strhelper::split(const string& text, const string& split_tag) {
-- 
2.43.0


From 132620ab73641bdc6d133256dff226412e4889a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:27 +0000
Subject: [PATCH 182/195] fix: V1 lost the coordinates of images larger than
 65536 pixels in one direction

---
 basicimg/include/img_fast_mser_v1.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/basicimg/include/img_fast_mser_v1.h b/basicimg/include/img_fast_mser_v1.h
index 78ef7d4..b8c06fc 100644
--- a/basicimg/include/img_fast_mser_v1.h
+++ b/basicimg/include/img_fast_mser_v1.h
@@ -23,8 +23,8 @@ namespace basicimg {
 		class linked_point {
 		public:
 
-			u16 m_x;
-			u16 m_y;
+			i32 m_x;
+			i32 m_y;
 			i32 m_next;
 			i32 m_prev;
 			i32 m_ref;
@@ -71,7 +71,7 @@ namespace basicimg {
 
 
 
-			u16 m_left, m_right, m_top, m_bottom;
+			i32 m_left, m_right, m_top, m_bottom;
 
 			//img_mser* m_mser;
 			//mt_point* m_points;	//for debug
@@ -88,7 +88,7 @@ namespace basicimg {
 			i16 m_gray_level;	//to save value 256 we need the i16 type
 			i32 m_size;
 
-			u16 m_left, m_right, m_top, m_bottom;
+			i32 m_left, m_right, m_top, m_bottom;
 		};
 
 		class parallel_info {
-- 
2.43.0


From dadf59789de069725c25a10076728e9d952d6ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:27 +0000
Subject: [PATCH 183/195] fix: V2 gave wrong rectangles in images larger than
 32768 pixels in one direction

---
 basicimg/src/img_fast_mser_v2.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicimg/src/img_fast_mser_v2.cpp b/basicimg/src/img_fast_mser_v2.cpp
index d4f5448..45691e9 100644
--- a/basicimg/src/img_fast_mser_v2.cpp
+++ b/basicimg/src/img_fast_mser_v2.cpp
@@ -1648,7 +1648,7 @@ void img_fast_mser_v2::extract_pixel_parallel(img_multi_msers& msers, u8 gray_ma
 
 void img_fast_mser_v2::extract_pixel_parallel_4_acceleration(img_multi_msers& msers, u8 gray_mask) {
 	//total block self pixel size, mser block self pixel size, self rect,
-	i32 one_block_mser_info_size = m_gray_order_region_size * 3 + 1;
+	i32 one_block_mser_info_size = m_gray_order_region_size * 5 + 1;
 	i32 total_block_mser_info_size = one_block_mser_info_size * 4;
 
 	// The image may be divided into 1, 4 or 32 partitions
@@ -1766,7 +1766,7 @@ void img_fast_mser_v2::extract_pixel_parallel_4_acceleration(img_multi_msers& ms
 
 	struct mser_block_info {
 		i32 block_self_pixel_size;
-		i16 top, left, bottom, right;
+		i32 top, left, bottom, right;
 	};
 	
 	#pragma omp parallel for num_threads(4)
-- 
2.43.0


From bd3eba3ce455f0218b5132e2cfc7537b53b727dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:32 +0000
Subject: [PATCH 184/195] fix: the moments of idiap regions overflowed beyond
 the 46340th row or column

---
 basicimg/src/img_idiap_mser.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/basicimg/src/img_idiap_mser.cpp b/basicimg/src/img_idiap_mser.cpp
index 960f602..8aec8f5 100644
--- a/basicimg/src/img_idiap_mser.cpp
+++ b/basicimg/src/img_idiap_mser.cpp
@@ -37,11 +37,11 @@ void img_idiap_mser::mser_region::accumulate(int x, int y) {
 
 	moments_[1] += y;
 
-	moments_[2] += x * x;
+	moments_[2] += (f32)x * x;
 
-	moments_[3] += x * y;
+	moments_[3] += (f32)x * y;
 
-	moments_[4] += y * y;
+	moments_[4] += (f32)y * y;
 
 }
 
-- 
2.43.0


From 948c0fd48ce87b04c28346d233038b972d732fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:43 +0000
Subject: [PATCH 185/195] fix: the gaussian blur used the width of its kernel
 for the height too

---
 basicimg/src/img_img.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicimg/src/img_img.cpp b/basicimg/src/img_img.cpp
index a592f60..5b9893a 100644
--- a/basicimg/src/img_img.cpp
+++ b/basicimg/src/img_img.cpp
@@ -350,7 +350,7 @@ void img_img::gaussian_blur(mt_mat& res, const mt_mat& src, const mt_size& kerne
 	if (kernel_height == kernel_width && mt_helper::compare_double(sigma_x, sigma_y) == 0) {
 		kernel_y = kernel_x;
 	} else {
-		generate_gaussian_kernel(kernel_y, kernel_width, sigma_y);
+		generate_gaussian_kernel(kernel_y, kernel_height, sigma_y);
 	}
 
 	mt_mat temp;
-- 
2.43.0


From 5b88a78cf9f3b528f73c2642c4c4e6aa1de63294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:43 +0000
Subject: [PATCH 186/195] fix: a gaussian blur with a deviation of zero gave
 nan everywhere

---
 basicimg/src/img_img.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/basicimg/src/img_img.cpp b/basicimg/src/img_img.cpp
index 5b9893a..99e5042 100644
--- a/basicimg/src/img_img.cpp
+++ b/basicimg/src/img_img.cpp
@@ -379,8 +379,14 @@ void img_img::generate_gaussian_kernel(mt_mat& kernel, i32 size, f64 sigma) {
 	f64 sum = 0;
 
 	for (i32 i = 0; i < size; ++i) {
-		f64 temp = (i - half) / sigma;
-		*data = exp(-0.5 * temp * temp);
+		if (sigma > 0) {
+			f64 temp = (i - half) / sigma;
+			*data = exp(-0.5 * temp * temp);
+		} else {
+			//without a deviation only the center counts, 0 / 0 would give nan
+			*data = i == half ? 1 : 0;
+		}
+
 		sum += *data;
 		data += kernel.last_dim_element_step();
 	}
-- 
2.43.0


From 63a1aa34272e31cbbdaf4c089befee67bf02a263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:43 +0000
Subject: [PATCH 187/195] fix: a gaussian blur with a negative deviation asked
 for a kernel of negative size

---
 basicimg/src/img_img.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/basicimg/src/img_img.cpp b/basicimg/src/img_img.cpp
index 99e5042..a7d6389 100644
--- a/basicimg/src/img_img.cpp
+++ b/basicimg/src/img_img.cpp
@@ -322,6 +322,9 @@ void img_img::gaussian_blur(mt_mat& res, const mt_mat& src, const mt_size& kerne
 		sigma_y = sigma_x;
 	}
 
+	sigma_x = mt_helper::max(0., sigma_x);
+	sigma_y = mt_helper::max(0., sigma_y);
+
 	i32 kernel_width = kernel_size.m_width;
 	i32 kernel_height = kernel_size.m_height;
 
@@ -341,9 +344,6 @@ void img_img::gaussian_blur(mt_mat& res, const mt_mat& src, const mt_size& kerne
 		}	
 	}
 
-	sigma_x = mt_helper::max(0., sigma_x);
-	sigma_y = mt_helper::max(0., sigma_y);
-
 	mt_mat kernel_x, kernel_y;
 	generate_gaussian_kernel(kernel_x, kernel_width, sigma_x);
 
-- 
2.43.0


From 149de3d1857c4da0f804bcdb785bdb86c76050c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:43 +0000
Subject: [PATCH 188/195] fix: a gaussian blur lost a level of constant
 pictures and left the range of white ones

---
 basicimg/src/img_img.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/basicimg/src/img_img.cpp b/basicimg/src/img_img.cpp
index a7d6389..2af72ad 100644
--- a/basicimg/src/img_img.cpp
+++ b/basicimg/src/img_img.cpp
@@ -361,6 +361,16 @@ void img_img::gaussian_blur(mt_mat& res, const mt_mat& src, const mt_size& kerne
 
 	//basiclog_info2(temp);
 
+	if (src.depth() != mt_F32 && src.depth() != mt_F64) {
+		//the conversion cuts the fraction off, 99.99... shall become 100, and 255.00...1 must not leave the range
+		f64* data = (f64*)temp.data();
+		i32 count = temp.element_number();
+
+		for (i32 i = 0; i < count; ++i) {
+			data[i] = (f64)mt_helper::neibour_float(data[i]);
+		}
+	}
+
 	res = temp.convert(src.depth());
 }
 
-- 
2.43.0


From 0900f2237c6f58913be06a6940a802979460fb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:43 +0000
Subject: [PATCH 189/195] fix: the distance of integer points more than 32767
 apart overflowed

---
 basicmath/include/mt_point_t.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/basicmath/include/mt_point_t.h b/basicmath/include/mt_point_t.h
index 2b7e6c1..ad4c92c 100644
--- a/basicmath/include/mt_point_t.h
+++ b/basicmath/include/mt_point_t.h
@@ -30,8 +30,11 @@ namespace basicmath {
 		}
 
 		f64 distance_to(const mt_point_t& other) {
-			T square = (other.m_x - m_x) * (other.m_x - m_x) + (other.m_y - m_y) * (other.m_y - m_y);
-			return sqrt((f64)square);
+			//the squares of the differences need not fit T
+			f64 dx = (f64)other.m_x - (f64)m_x;
+			f64 dy = (f64)other.m_y - (f64)m_y;
+
+			return sqrt(dx * dx + dy * dy);
 		}
 
 		T m_x;
-- 
2.43.0


From 294f3e9fda68280a4179e61dcd362f8381b9253e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:43 +0000
Subject: [PATCH 190/195] fix: the overlap ratio of large rectangles overflowed
 in the sum of their areas

---
 basicmath/include/mt_rect_t.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/include/mt_rect_t.h b/basicmath/include/mt_rect_t.h
index cc1682b..c4c6839 100644
--- a/basicmath/include/mt_rect_t.h
+++ b/basicmath/include/mt_rect_t.h
@@ -247,7 +247,7 @@ public:
 			return 0;
 		}	
 
-		return intersectRect.getArea() / (double)(getArea() + r2.getArea() - intersectRect.getArea());
+		return intersectRect.getArea() / ((double)getArea() + r2.getArea() - intersectRect.getArea());
 	}
 
 	double get_intersect_aera_ratio(const mt_rect_t<T>& r2) const {
-- 
2.43.0


From 95dd059820fc28cdb19dd62a5979811a7a401025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:54 +0000
Subject: [PATCH 191/195] fix: vlfeat, idiap and opencv3 copied a part of a
 picture into the picture of the extraction before

---
 basicimg/src/img_idiap_mser.cpp   | 2 +-
 basicimg/src/img_opencv3_mser.cpp | 2 +-
 basicimg/src/img_vlfeat_mser.cpp  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/basicimg/src/img_idiap_mser.cpp b/basicimg/src/img_idiap_mser.cpp
index 8aec8f5..f0e3645 100644
--- a/basicimg/src/img_idiap_mser.cpp
+++ b/basicimg/src/img_idiap_mser.cpp
@@ -237,7 +237,7 @@ void img_idiap_mser::mser_region::detect(i32 delta, i32 minArea, i32 maxArea, f3
 
 void img_idiap_mser::allocate_memory(const mt_mat& src, const img_mask_info<u8>& mask) {
 	if (!src.is_continuous()) {
-		m_src.copy_from(src);
+		m_src = src.clone();
 
 		basiclog_assert2(sys_false);
 	} else {
diff --git a/basicimg/src/img_opencv3_mser.cpp b/basicimg/src/img_opencv3_mser.cpp
index bdd5c42..eb1cb61 100644
--- a/basicimg/src/img_opencv3_mser.cpp
+++ b/basicimg/src/img_opencv3_mser.cpp
@@ -218,7 +218,7 @@ void img_opencv3_mser::allocate_memory(const mt_mat& src, const img_mask_info<u8
 	mt_mat temp = src;
 
 	if (!temp.is_continuous()) {
-		m_tempsrc.copy_from(temp);
+		m_tempsrc = temp.clone();
 		temp = m_tempsrc;
 	} else {
 		m_tempsrc = temp;
diff --git a/basicimg/src/img_vlfeat_mser.cpp b/basicimg/src/img_vlfeat_mser.cpp
index 2347c87..92c1006 100644
--- a/basicimg/src/img_vlfeat_mser.cpp
+++ b/basicimg/src/img_vlfeat_mser.cpp
@@ -2362,7 +2362,7 @@ void mser_recogniztion(MserFilt* f) {
 
 void img_vlfeat_mser::allocate_memory(const mt_mat& src, const img_mask_info<u8>& mask) {
 	if (!src.is_continuous()) {
-		m_src.copy_from(src);
+		m_src = src.clone();
 	} else {
 		m_src = src;
 	}
-- 
2.43.0


From 26f7092c031ca384e44554a67558a58f6559714d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:54 +0000
Subject: [PATCH 192/195] fix: vlfeat compared the height of pixel 0 instead of
 that of the neighbour's root

---
 basicimg/src/img_vlfeat_mser.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/basicimg/src/img_vlfeat_mser.cpp b/basicimg/src/img_vlfeat_mser.cpp
index 92c1006..d806278 100644
--- a/basicimg/src/img_vlfeat_mser.cpp
+++ b/basicimg/src/img_vlfeat_mser.cpp
@@ -1622,9 +1622,9 @@ mser_process(MserFilt *f, unsigned char const *im) {
 
 						unsigned int nr_idx = 0;
 
-						int hgt = r[r_idx].height;
+						int hgt;
 
-						int n_hgt = r[nr_idx].height;
+						int n_hgt;
 
 
 
@@ -1650,6 +1650,10 @@ mser_process(MserFilt *f, unsigned char const *im) {
 
 						nr_idx = climb(r, n_idx);
 
+						hgt = r[r_idx].height;
+
+						n_hgt = r[nr_idx].height;
+
 
 
 
-- 
2.43.0


From d9428879ceb34bc75b3fcb7377432eb728e38d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:54 +0000
Subject: [PATCH 193/195] fix: a number read beyond the end of a byte buffer
 was whatever the stack held

---
 basicsys/src/sys_buffer.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/basicsys/src/sys_buffer.cpp b/basicsys/src/sys_buffer.cpp
index 4d5cb86..4ba2fc2 100644
--- a/basicsys/src/sys_buffer.cpp
+++ b/basicsys/src/sys_buffer.cpp
@@ -143,7 +143,7 @@ b8 sys_byte_buffer_reader::read_b8() const {
 }
 
 i8 sys_byte_buffer_reader::read_c8() const {
-	i8 value;
+	i8 value = 0;
 	u8* ptr_value = (u8*)&value;
 
 	read(ptr_value, sizeof(value));
@@ -152,7 +152,7 @@ i8 sys_byte_buffer_reader::read_c8() const {
 }
 
 u8 sys_byte_buffer_reader::read_u8() const {
-	u8 value;
+	u8 value = 0;
 	u8* ptr_value = (u8*)&value;
 
 	read(ptr_value, sizeof(value));
@@ -161,7 +161,7 @@ u8 sys_byte_buffer_reader::read_u8() const {
 }
 
 u16 sys_byte_buffer_reader::read_u16() const {
-	u16 value;
+	u16 value = 0;
 	u8* ptr_value = (u8*)&value;
 
 	read(ptr_value, sizeof(value));
@@ -170,7 +170,7 @@ u16 sys_byte_buffer_reader::read_u16() const {
 }
 
 i16 sys_byte_buffer_reader::read_i16() const {
-	i16 value;
+	i16 value = 0;
 	u8* ptr_value = (u8*)&value;
 
 	read(ptr_value, sizeof(value));
@@ -179,7 +179,7 @@ i16 sys_byte_buffer_reader::read_i16() const {
 }
 
 u32 sys_byte_buffer_reader::read_u32() const {
-	u32 value;
+	u32 value = 0;
 	u8* ptr_value = (u8*)&value;
 
 	read(ptr_value, sizeof(value));
@@ -188,7 +188,7 @@ u32 sys_byte_buffer_reader::read_u32() const {
 }
 
 i32 sys_byte_buffer_reader::read_i32() const {
-	i32 value;
+	i32 value = 0;
 	u8* ptr_value = (u8*)&value;
 
 	read(ptr_value, sizeof(value));
@@ -197,7 +197,7 @@ i32 sys_byte_buffer_reader::read_i32() const {
 }
 
 u64 sys_byte_buffer_reader::read_u64() const {
-	u64 value;
+	u64 value = 0;
 	u8* ptr_value = (u8*)&value;
 
 	read(ptr_value, sizeof(value));
@@ -206,7 +206,7 @@ u64 sys_byte_buffer_reader::read_u64() const {
 }
 
 i64 sys_byte_buffer_reader::read_i64() const {
-	i64 value;
+	i64 value = 0;
 	u8* ptr_value = (u8*)&value;
 
 	read(ptr_value, sizeof(value));
@@ -215,7 +215,7 @@ i64 sys_byte_buffer_reader::read_i64() const {
 }
 
 f32 sys_byte_buffer_reader::read_f32() const {
-	f32 value;
+	f32 value = 0;
 	u8* ptr_value = (u8*)&value;
 
 	read(ptr_value, sizeof(value));
@@ -224,7 +224,7 @@ f32 sys_byte_buffer_reader::read_f32() const {
 }
 
 f64 sys_byte_buffer_reader::read_f64() const {
-	f64 value;
+	f64 value = 0;
 	u8* ptr_value = (u8*)&value;
 
 	read(ptr_value, sizeof(value));
-- 
2.43.0


From b78f3b32c4747f9b61ffc1668471f4db3e315f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:56 +0000
Subject: [PATCH 194/195] fix: the original algorithm walked a long row of
 merged regions again for each of them, a large checkerboard took many minutes

---
 basicimg/src/img_origin_mser.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/basicimg/src/img_origin_mser.cpp b/basicimg/src/img_origin_mser.cpp
index 65beb01..be597e9 100644
--- a/basicimg/src/img_origin_mser.cpp
+++ b/basicimg/src/img_origin_mser.cpp
@@ -59,6 +59,13 @@ void img_original_mser::recognize_mser() {
 			parentRegion = parentRegion->mParent;
 		}
 
+		// Let the merged regions on the way know it too, a long row of them is walked only once then
+		for (mser_region* mergedRegion = m_regions[i].mParent; mergedRegion != parentRegion;) {
+			mser_region* nextRegion = mergedRegion->mParent;
+			mergedRegion->mParent = parentRegion;
+			mergedRegion = nextRegion;
+		}
+
 		m_regions[i].mParent = parentRegion;
 
 		if (NULL != parentRegion) {
-- 
2.43.0


From 1165c6e34911ee757d77807e01e58f3a66dfefe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:56 +0000
Subject: [PATCH 195/195] fix: time zones that are no whole number of hours
 were printed as one that changed with the minute

---
 basiclog/src/basiclog.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/basiclog/src/basiclog.cpp b/basiclog/src/basiclog.cpp
index 99d9e45..97f04be 100644
--- a/basiclog/src/basiclog.cpp
+++ b/basiclog/src/basiclog.cpp
@@ -169,6 +169,12 @@ static string time_text(const string& format, const tm& time) {
 	return text.substr(0, text.size() - 1);
 }
 
+static string zone_text(int minutes, char minute_tag) {
+	int size = minutes < 0 ? -minutes : minutes;
+	string text = sys_strhelper::combine("%s%d", minutes > 0 ? "+" : (minutes < 0 ? "-" : ""), size / 60);
+	return size % 60 == 0 ? text : text + sys_strhelper::combine("%c%02d", minute_tag, size % 60);
+}
+
 string log_logger::format_timestamp() const {
 	time_t time_utc;  
 	tm tm_local;  
@@ -190,7 +196,7 @@ string log_logger::format_timestamp() const {
 		time_zone += (tm_local.tm_yday - tm_utc.tm_yday) * 24;  
 	}  
 
-	return time_text(m_timestamp, tm_local) + sys_strhelper::combine(" UTC %s%d", time_zone > 0 ? "+" : "", time_zone);
+	return time_text(m_timestamp, tm_local) + " UTC " + zone_text(time_zone * 60 + tm_local.tm_min - tm_utc.tm_min, ':');
 }
 
 void log_console_logger::print(const string& log_info) {
@@ -312,5 +318,5 @@ string log_file_logger::generate_new_file_title() const {
 	char buffer[1024];
 	strftime(buffer, 1024, "%Y-%m-%d %H-%M-%S", &tm_local);
 
-	return sys_strhelper::combine("%s UTC %s%d", buffer, time_zone > 0 ? "+" : "", time_zone);
+	return string(buffer) + " UTC " + zone_text(time_zone * 60 + tm_local.tm_min - tm_utc.tm_min, '-');
 }
\ No newline at end of file
-- 
2.43.0

