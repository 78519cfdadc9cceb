"""Region extraction (basicimg)."""
ASAN = "AddressSanitizer + UndefinedBehaviorSanitizer, poisoned memory, "
B = "basicimg/"
ALL_ALGS = [B + "src/img_fast_mser_v1.cpp", B + "src/img_fast_mser_v2.cpp", B + "src/img_linked_linear_mser.cpp", B + "src/img_origin_mser.cpp", B + "src/img_ms_mser.cpp",
            B + "src/img_opencv_mser.cpp", B + "src/img_opencv3_mser.cpp", B + "src/img_vlfeat_mser.cpp", B + "src/img_idiap_mser.cpp", B + "src/img_mser_base.cpp"]
NO_TESTS = "basicimg has no test that runs here at all; a test could fix a handful of images and parameters, while "


def leg(name, quick, thorough, config="asan", **kw):
    d = {"name": name, "harness": "h_mser", "config": config, "prop": name, "quick": quick, "thorough": thorough}
    d.update(kw)
    return d


ARCHER = {"OMP_TOOL_LIBRARIES": "/usr/lib/llvm-18/lib/libarcher.so", "OMP_NUM_THREADS": "8", "KMP_BLOCKTIME": "0"}

PROPERTIES = [
    {
        "id": "M01", "title": "Serial Fast-MSER (V1 and V2) reports exactly the regions of the definition",
        "statement": "For every 8-bit image, 4- or 8-connectivity and setting of delta, area limits, maximum variation, local-minimum suppression and duplicate removal (below 1), a serial extraction by fast MSER V1 or V2 "
                     "returns exactly the regions that the definition selects from the component trees of the image and of its inverse. Each is reported once, with its exact set of pixels (whatever the recursive "
                     "point threshold, i.e. the way the pixels are stored), its gray level in the original image, its number of pixels and its bounding rectangle.",
        "quantifier": {"over": ["inputs", "configurations"], "text": "all images (any size from 1x1, dense or part of a larger matrix) and all extraction parameters"},
        "why": NO_TESTS + "the defects found here needed particular combinations of levels, sizes and thresholds (for example an image that descends through all 256 levels).",
        "anchors": {"files": [B + "src/img_fast_mser_v1.cpp", B + "src/img_fast_mser_v2.cpp"],
                    "mechanism": [{"name": "flooding of one image patch", "where": B + "src/img_fast_mser_v1.cpp: make_tree_patch"}, {"name": "selection by variation, suppression and duplicates", "where": B + "src/img_fast_mser_v1.cpp: recognize_mser_parallel"},
                                  {"name": "pixel lists, shared or recursive", "where": B + "src/img_fast_mser_v1.cpp: extract_pixel_parallel_1_fast; img_fast_mser_v2.cpp: extract_pixel"}],
                    "observe_at": ["img_multi_msers filled by img_mser_base::extract"], "hook_needed": None},
        "legs": [leg("serial_fast", 18000, 120000, thorough_seeds=2)],
        "technique": ASAN + "online oracle: component tree and selection recomputed naively for every image",
        "note": "Each extraction is decided completely (every expected region, its pixels by a 64-bit set hash, level, rectangle) but images and parameters are sampled: 17 families of images up to 360x360 (900x900 thorough) and up to 68000 pixels long when 1 to 3 wide.",
        "rule": "distinct (image, parameters) whose expected set of regions is not empty", "floor": {"huge_images": 50, "runs_fast_v1": 100, "runs_fast_v2": 100, "regions_reported": 1000, "ribbons": 15},
        "assumptions": ["the definition of V1 leaves regions below the minimum size out of the local-minimum suppression, that of V2 includes them, as each serial implementation does"],
    },
    {
        "id": "M02", "title": "The reference algorithms (linear, ms, original) report exactly the definition",
        "statement": "For every 8-bit image, connectivity and parameter setting, the linked linear, ms and original MSER algorithms return exactly the regions that the definition selects (the original one also the whole image "
                     "when it qualifies), each once, with its exact pixels, gray level and bounding rectangle. The comparison of the fast algorithms with them is therefore a comparison of like with like.",
        "quantifier": {"over": ["inputs", "configurations"], "text": "all images and all extraction parameters, with 4- and 8-connectivity"},
        "why": NO_TESTS + "these algorithms are the project's yardstick for the fast ones, so that an error in them goes unnoticed.",
        "anchors": {"files": [B + "src/img_linked_linear_mser.cpp", B + "src/img_ms_mser.cpp", B + "src/img_origin_mser.cpp"],
                    "mechanism": [{"name": "flooding", "where": B + "src/img_linked_linear_mser.cpp: build_tree"}, {"name": "selection", "where": B + "src/img_ms_mser.cpp: recognize_mser"}],
                    "observe_at": ["img_multi_msers filled by img_mser_base::extract"], "hook_needed": None},
        "legs": [leg("serial_reference", 30000, 250000, thorough_seeds=2)],
        "technique": ASAN + "online oracle: component tree and selection recomputed naively for every image",
        "note": "Each extraction is decided completely; images and parameters are sampled.",
        "rule": "distinct (image, parameters) whose expected set of regions is not empty", "floor": {"ribbons": 20, "runs_linked_linear": 100, "runs_ms": 100, "runs_origin": 100, "regions_reported": 1000},
    },
    {
        "id": "M03", "title": "Parallel extraction equals the definition for every thread count and schedule",
        "statement": "With 4-connectivity, fast MSER V1 with 2, 4, 8, 16 or 32 threads and V2 with 4 or 32 threads return, for every image and parameter setting, exactly the regions of the definition - the same set of regions, pixels, levels and "
                     "rectangles as the serial extraction - whatever the order in which the threads run. No two threads access the same memory unsynchronised during an extraction, and images with fewer rows or columns than partitions work, too.",
        "quantifier": {"over": ["inputs", "configurations", "schedules"], "text": "all images, parameters, supported thread counts and interleavings of the worker threads"},
        "why": NO_TESTS + "which tree merges and which threads meet depends on where regions cross the borders of the blocks and on the schedule.",
        "anchors": {"files": [B + "src/img_fast_mser_v1.cpp", B + "src/img_fast_mser_v2.cpp", B + "src/img_mser_base.cpp"],
                    "mechanism": [{"name": "merging of the trees of neighbouring patches", "where": B + "src/img_fast_mser_v1.cpp: merge_tree_*, connect; img_fast_mser_v2.cpp: merge_tree_parallel_step"},
                                  {"name": "parallel recognition", "where": B + "src/img_fast_mser_v2.cpp: recognize_mser_parallel_4_acceleration"}, {"name": "parallel pixel extraction", "where": B + "src/img_fast_mser_v1.cpp: extract_pixel_parallel_k_fast"}],
                    "observe_at": ["img_multi_msers filled by img_mser_base::extract"], "hook_needed": None},
        "legs": [leg("parallel_exact", 7000, 70000, thorough_seeds=2, env={"OMP_NUM_THREADS": "8", "KMP_BLOCKTIME": "0"}), leg("parallel_race", 1600, 20000, config="tsan", thorough_seeds=2, env=ARCHER)],
        "technique": ASAN + "online oracle for every image, CPU affinity varied between runs; ThreadSanitizer with the OpenMP tool archer for the races",
        "note": "Complete for each execution observed; images, parameters and schedules are sampled (affinity to 1, 2 or all CPUs, oversubscription up to 32 threads). TSan sees races on the executed paths whatever the timing. 8-connectivity in parallel is a known finding.",
        "rule": "distinct (image, parameters, threads) whose expected set of regions is not empty", "floor": {"ribbons": 5, "runs_fast_v1_2": 20, "runs_fast_v1_32": 20, "runs_fast_v2_32": 20, "regions_reported": 1000},
    },
    {
        "id": "M04", "title": "Ported third-party algorithms report genuine extremal regions only",
        "statement": "The opencv3 and vlfeat algorithms report only true extremal regions of the image or of its inverse, vlfeat with the exact size and gray level, opencv3 with the exact pixels. Every region of the opencv algorithm lies inside one connected component of the pixels up to its level, and its size and rectangle match its pixels; "
                     "sizes lie within the configured limits.",
        "quantifier": {"over": ["inputs", "configurations"], "text": "all images and parameters"},
        "why": NO_TESTS + "the ports were adapted to the project's own matrices and polarity flags.",
        "anchors": {"files": [B + "src/img_opencv_mser.cpp", B + "src/img_opencv3_mser.cpp", B + "src/img_vlfeat_mser.cpp"], "mechanism": [{"name": "ports of other libraries' detectors", "where": B + "src/img_opencv3_mser.cpp"}],
                    "observe_at": ["img_multi_msers filled by img_mser_base::extract"], "hook_needed": None},
        "legs": [leg("third_party", 40000, 1000000)],
        "technique": ASAN + "online oracle: membership in the naive component tree",
        "note": "Soundness of what is reported, not completeness (each port selects by its own rules; opencv3 ignores the outermost pixels).",
        "rule": "distinct (image, parameters) with at least one region", "floor": {"ribbons": 30, "runs_opencv": 100, "runs_opencv3": 100, "runs_vlfeat": 100},
    },
    {
        "id": "M05", "title": "What an extractor returns does not depend on what it did before",
        "statement": "For every sequence of extractions on one extractor - images of different sizes, shapes and contents, changed parameters, connectivity, thread counts and enabled polarities, cleared caches, a reused result object - each extraction returns what a new extractor with the same settings returns. "
                     "A disabled polarity yields no regions.",
        "quantifier": {"over": ["histories", "inputs", "configurations"], "text": "all sequences of configuration changes, cache clearing and extractions"},
        "why": NO_TESTS + "the extractors keep their buffers between images to save time, and decide by sizes whether to allocate them again.",
        "anchors": {"files": [B + "src/img_mser_base.cpp", B + "src/img_fast_mser_v1.cpp", B + "src/img_fast_mser_v2.cpp", B + "src/img_linked_linear_mser.cpp", B + "src/img_ms_mser.cpp"],
                    "mechanism": [{"name": "buffers kept between extractions", "where": B + "src/img_fast_mser_v1.cpp: allocate_memory_parallel_*"}, {"name": "cache clearing", "where": B + "src/img_fast_mser_v1.cpp: clear_memory_cache"}],
                    "state": [{"name": "m_heap, m_linked_points, m_masked_image, m_pinfo", "meaning": "buffers sized for the last image", "where": B + "include/img_fast_mser_v1.h"}],
                    "observe_at": ["img_multi_msers filled by img_mser_base::extract"], "hook_needed": None},
        "legs": [leg("history", 1600, 30000, env={"OMP_NUM_THREADS": "8", "KMP_BLOCKTIME": "0"})],
        "technique": ASAN + "differential monitor over random histories: used extractor against a fresh one",
        "note": "Histories of 3 to 10 steps are sampled.",
        "rule": "distinct (image, settings, position) with at least one region", "floor": {"steps_vlfeat": 300, "steps_fast_v1": 200, "steps_fast_v2": 200, "cache_clears": 20},
    },
    {
        "id": "M06", "title": "Extraction results own their pixels, and drawing them shows exactly these",
        "statement": "A result stays what it was when it is copied (constructed, assigned, in containers), when the original, the extractor or the image goes away, and when the extractor is used again; the image and everything around it stay unmodified. "
                     "Drawing a region paints exactly its pixels, and the level images of a result hold for every pixel the innermost region over it.",
        "quantifier": {"over": ["histories", "inputs"], "text": "all orders of copying, releasing and reuse, for all images and algorithms"},
        "why": NO_TESTS + "who owns the shared point memory shows only when the original is gone.",
        "anchors": {"files": [B + "src/img_mser_base.cpp", B + "src/img_mser_helper.cpp", B + "src/img_mser_result.cpp", B + "include/img_mser_base.h"],
                    "mechanism": [{"name": "copying of results", "where": B + "src/img_mser_base.cpp: img_multi_msers::operator=, img_mser::operator="}, {"name": "drawing", "where": B + "src/img_mser_helper.cpp: image_from_mser"}],
                    "observe_at": ["img_multi_msers", "img_mser_helper::image_from_mser", "img_mser_result::generate_mser_channel_image"], "hook_needed": None},
        "legs": [leg("results", 10000, 250000, env={"OMP_NUM_THREADS": "8", "KMP_BLOCKTIME": "0"})],
        "technique": ASAN + "monitor comparing decoded results before and after ownership changes; leak detection",
        "note": "Orders of copying and releasing are sampled; memory errors and leaks are decided by the sanitizers.",
        "rule": "distinct results with at least one region", "floor": {"picture_series": 800, "visits": 800, "result_pictures": 1000, "copies": 300, "drawings": 1000, "level_images": 100},
    },
    {
        "id": "M07", "title": "Masked extraction reports the regions of the unmasked pixels only",
        "statement": "With a rectangle, image or gray-value mask, the original algorithm returns exactly the regions of the definition on the unmasked pixels. The linear algorithm (image and value masks) reports only true extremal regions of the unmasked pixels, with their gray level and within the size limits; "
                     "masked pixels are in no region.",
        "quantifier": {"over": ["inputs", "configurations"], "text": "all images, masks and parameters"},
        "why": NO_TESTS + "masks split the image into arbitrary parts.",
        "anchors": {"files": [B + "src/img_origin_mser.cpp", B + "src/img_linked_linear_mser.cpp", B + "include/img_mask_info.h"], "mechanism": [{"name": "masked flooding", "where": B + "src/img_linked_linear_mser.cpp: process_tree_image"}],
                    "observe_at": ["img_multi_msers filled by img_mser_base::extract"], "hook_needed": None},
        "legs": [leg("masks", 50000, 1500000)],
        "technique": ASAN + "online oracle: component tree of the unmasked pixels",
        "note": "Complete per execution for the original algorithm; soundness only for the linear one, which passes the background level on.",
        "rule": "distinct (image, mask, parameters) with at least one region", "floor": {"ribbons": 40, "runs_origin_rect": 50, "runs_origin_image": 50, "runs_origin_value": 50, "runs_linked_linear_image": 50, "runs_linked_linear_value": 50},
    },
    {
        "id": "M08", "title": "Connected components are exactly the components of the foreground",
        "statement": "For every image of 1, 3 or 4 channels, background colour and connectivity, the connected components returned are exactly the maximal connected sets of pixels that differ from the background: each once, with its pixels and bounding rectangle; so are those found through ml_connected_component_base for any pixel type, condition and mask (none, rectangle, picture or value), all of them or the one of a given pixel. "
                     "Drawing all or some of them, whole or into a region of interest, gives back exactly their pixels, and copied components or lists of them own their points.",
        "quantifier": {"over": ["inputs", "configurations", "histories"], "text": "all images (also parts of larger ones), backgrounds, masks, conditions and connectivities, with new and reused result objects"},
        "why": NO_TESTS + "shapes that wind around each other and touch the borders are what breaks labelling.",
        "anchors": {"files": [B + "include/img_connected_component.h", B + "src/img_connected_component.cpp"], "mechanism": [{"name": "flood fill", "where": B + "include/img_connected_component.h"}],
                    "observe_at": ["img_multi_connected_components", "img_connected_component_helper::image_from_connected_component"], "hook_needed": None},
        "legs": [leg("components", 150000, 2500000), leg("masked_components", 150000, 2500000)],
        "technique": ASAN + "online oracle: naive flood fill; drawing compared pixel by pixel",
        "note": "Complete per execution; images are sampled.",
        "rule": "distinct images with at least two components", "floor": {"ribbons": 100, "region_drawings": 10000, "list_copies": 5000, "components": 5000, "masked_components": 50000, "single": 3000, "mask_0": 1000, "mask_1": 1000, "mask_2": 1000, "mask_3": 1000},
    },
    {
        "id": "M09", "title": "No image or setting makes an extractor err in memory, hang or leak",
        "statement": "For every algorithm, every image from one pixel on and every parameter setting, however extreme, an extraction terminates without reading or writing memory it does not own, without undefined arithmetic and without leaking. "
                     "Every region it returns refers to valid, distinct pixels inside the image, as many as it states.",
        "quantifier": {"over": ["inputs", "configurations", "histories"], "text": "all images including one-pixel-wide and constant ones, and extreme values of all parameters"},
        "why": NO_TESTS + "only instrumentation sees an access just outside a buffer.",
        "anchors": {"files": ALL_ALGS, "mechanism": [{"name": "image borders marked by sentinels", "where": B + "src/img_fast_mser_v1.cpp: process_tree_patch"}, {"name": "stack of open components of the flooding", "where": B + "include/img_fast_mser_v1.h: parallel_info"}],
                    "observe_at": ["sanitizer reports", "img_multi_msers"], "hook_needed": None},
        "legs": [leg("hostile", 20000, 300000, env={"OMP_NUM_THREADS": "8", "KMP_BLOCKTIME": "0"})],
        "technique": "AddressSanitizer, UndefinedBehaviorSanitizer and LeakSanitizer over hostile inputs, poisoned memory, structural check of every result",
        "note": "Decides the executions observed; overreads inside one allocation are seen only through their effect on the result.",
        "rule": "distinct (image, parameters, algorithm) extracted", "floor": {"ribbons": 12, "runs_idiap": 100, "runs_vlfeat": 100, "runs_fast_v1": 100, "runs_fast_v2": 100},
    },
    {
        "id": "M10", "title": "Extractors used by different threads at once do not affect each other",
        "statement": "When several threads each extract with an extractor of their own, of the same or of different algorithms, from one shared image, every extraction returns what it returns alone. No two threads access the same memory unsynchronised.",
        "quantifier": {"over": ["schedules", "inputs", "configurations"], "text": "all interleavings of extractions by separate extractors"},
        "why": NO_TESTS + "hidden static or shared state shows only under concurrency.",
        "anchors": {"files": ALL_ALGS + ["basicsys/src/sys_alg_analyzer.cpp", "basicmath/src/mt_mat.cpp"], "mechanism": [{"name": "state kept in the extractor, none in statics", "where": B + "src/*.cpp"}, {"name": "atomic reference count of shared matrices", "where": "basicmath/src/mt_mat.cpp"}],
                    "observe_at": ["img_multi_msers of every thread", "ThreadSanitizer reports"], "hook_needed": None},
        "legs": [leg("concurrent", 6000, 100000, config="tsan", env=ARCHER)],
        "technique": "ThreadSanitizer (with archer) over concurrent extractions, results compared with those obtained alone",
        "note": "Schedules are sampled; TSan's happens-before analysis does not depend on the timing of the conflicting accesses.",
        "rule": "distinct sets of concurrent extractions", "floor": {"threads_run": 500},
    },
]
