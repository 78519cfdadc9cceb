"""Helpers of basicmath: sorting, optimisation, random numbers, block memory, geometry, matrices in files."""
from spec.mat import leg, ASAN, B

NOTE = "Complete for each evaluation observed. Inputs are sampled. "

PROPERTIES = [
    {
        "id": "B01", "title": "Sorting, selection, comparison and indexing helpers return what they name",
        "statement": "For vectors of every number type and length (also empty, with repeated, sorted or extreme values), mt_sort (with or without indexes, bubble, heap) orders all data in the asked direction and indexes[i] is where datum i came from; mt_top_k holds exactly the k largest (smallest) values after every value; the median, extremes, their indexes, sub-vectors, reversal, odd-even order, running sums, pointers and multi-dimensional indexes are those of their definition. "
                     "compare_value gives the sign of a difference (floating point: equal within the relative precision), and the bit, rounding and range helpers of mt_helper are exact.",
        "quantifier": {"over": ["inputs"], "text": "all vectors and values of u8, i32, u32, i64, u64, f32 and f64"},
        "why": "errors appear only for certain lengths, repeated values, negative or extreme values; most of these helpers have no test",
        "anchors": {"files": [B + "include/mt_sort.h", B + "include/mt_top_k.h", B + "include/mt_helper.h", B + "src/mt_helper.cpp"],
                    "mechanism": [{"name": "heap", "where": B + "include/mt_sort.h: mt_sort::heap_adjust"}, {"name": "precision", "where": B + "src/mt_helper.cpp: compare_double"}],
                    "observe_at": ["results and arguments after each call"], "hook_needed": None},
        "legs": [leg("h_tools", "sort", 3000000, 30000000, thorough_seeds=2)],
        "technique": ASAN + "every result compared with the standard library or a direct evaluation of the definition, arguments that must not change compared too",
        "note": NOTE + "NaN values are outside the contract of sorting and comparing; running sums of 8-bit types are excluded.",
        "rule": "distinct (operation, vector)", "floor": {"long_vectors": 400, "op_sort_indexes": 20000, "op_heap": 20000, "op_top_k": 20000, "op_median": 20000, "op_extremes": 20000, "op_parity": 20000, "op_scalar": 20000, "op_index": 20000},
    },
    {
        "id": "B02", "title": "Optimisation and counting helpers find the best and count all",
        "statement": "mt_01_bag gives the greatest value that fits the capacity and flags of elements that weigh no more and are worth it; mt_longest_common_substring gives the greatest length and all places where such a substring begins; mt_max_sum_for_continuous_element gives the greatest sum of neighbours and where it is. "
                     "combination, factorial, one_number, add_five, max_lexi_order, battle_ship and split_array_to_max_mean_sub_arrays give the number or choice of their definition for every input whose result an i32 holds.",
        "quantifier": {"over": ["inputs"], "text": "all weights, values, capacities, texts, vectors and numbers"},
        "why": "an optimum is missed only for certain combinations; the tests use one or two examples of each",
        "anchors": {"files": [B + "include/dynamic_programming/mt_01_bag.h", B + "include/dynamic_programming/mt_longest_common_substring.h", B + "include/dynamic_programming/mt_max_sum_for_continuous_element.h", B + "src/mt_helper.cpp"],
                    "mechanism": [{"name": "recursion with cache", "where": B + "include/dynamic_programming/mt_01_bag.h: calculate_value"}],
                    "observe_at": ["results of each call"], "hook_needed": None},
        "legs": [leg("h_tools", "combi", 6000000, 40000000, thorough_seeds=2)],
        "technique": ASAN + "every result compared with an exhaustive search over all choices (subsets, pairs of places, ranges, splits)",
        "note": NOTE + "Bags of up to 9 elements, texts of up to 30.",
        "rule": "distinct inputs", "floor": {"large_bags": 10000, "large_lcs": 800, "large_sums": 500, "op_bag": 30000, "op_lcs": 20000, "op_max_sum": 10000, "op_combination": 5000, "op_split": 5000, "op_five": 5000, "op_ships": 5000},
    },
    {
        "id": "B03", "title": "Random numbers stay in range, follow the seed and the distribution",
        "statement": "Every number of random_next_i32, random_uniform, bernoulli and gaussian lies in its range (whole i32 range included), randperm gives a permutation, and the random matrices have the asked shape and depth with every element and channel drawn independently from the distribution with its mean and deviation. "
                     "After set_seed with the same seed, the same calls give the same values.",
        "quantifier": {"over": ["inputs", "histories"], "text": "all seeds, ranges, shapes, channel numbers and parameters (bernoulli: n up to 30)"},
        "why": "values out of range depend on the draw, and a test with random values cannot expect certain ones",
        "anchors": {"files": [B + "src/mt_random.cpp", B + "include/mt_random.h"],
                    "mechanism": [{"name": "draws", "where": B + "src/mt_random.cpp"}],
                    "observe_at": ["every value drawn"], "hook_needed": None},
        "legs": [leg("h_tools", "random", 300000, 3000000, thorough_seeds=2)],
        "technique": ASAN + "every value checked against its range, means and deviations of 100 to 600 values against the distribution (8 standard errors), all values of small ranges seen, and a second run from the same seed compared",
        "note": NOTE + "The distribution is checked by mean, deviation and coverage, not by a full test of randomness. gaussian_joint is not implemented by the code.",
        "rule": "distinct sequences of values", "floor": {"kind_0": 1000, "kind_2": 1000, "kind_6": 1000, "kind_8": 1000, "kind_9": 1000, "mat_elements": 500000},
    },
    {
        "id": "B04", "title": "Block memory keeps every element at its place until it is given back",
        "statement": "For every history of taking, adding, giving back, resetting, initialising anew, copying and clearing, mt_block_memory gives each new element memory of its own that holds its value and address until then, a given-back place again to the next element (last one first), at and visiting show the elements in the order of adding, and a copy has the same elements in memory of its own. "
                     "in_block tells exactly the places of added elements, the memory taken does not exceed the blocks needed, and all of it is released.",
        "quantifier": {"over": ["histories", "configurations"], "text": "all histories of two block memories, all block sizes, with new or malloc, with and without reuse"},
        "why": "the pools of the fast MSER algorithms rest on it; errors sit at the borders of blocks and in the second life of a pool",
        "anchors": {"files": [B + "include/mt_block_memory.h"],
                    "mechanism": [{"name": "next block", "where": B + "include/mt_block_memory.h: mt_block_memory::next_block"}, {"name": "macros", "where": B + "include/mt_block_memory.h: basicmath_block_memory_get, _add, _visit, _reuse"}],
                    "observe_at": ["addresses and values of all elements after each operation", "constructors and destructors"], "hook_needed": None},
        "legs": [leg("h_tools", "block", 80000, 800000, thorough_seeds=2)],
        "technique": ASAN + "a model of every element (value, order, live or given back) compared after each operation, addresses checked for overlap, constructor and destructor counts, leaks",
        "note": NOTE + "Only places of live elements are given back.",
        "rule": "distinct histories", "floor": {"large_blocks": 20, "op_init": 50000, "op_reset": 20000, "op_copy": 20000, "op_reuse": 10000, "op_reused": 8000, "op_clear": 5000, "op_construct": 15000},
    },
    {
        "id": "B05", "title": "Rectangles, points, histograms and angles agree with plain geometry",
        "statement": "For all rectangles of non-negative size (integer or floating point), intersection, containment, border, overlap ratios, joining, clipping, distances, moving, growing, scaling, expand and shrink agree with the set of their pixels. "
                     "mt_hist counts every datum in exactly the bin that holds it, the bins are equal and lie side by side from the minimum to beyond the maximum; angles are normalised by whole turns, and sine and cosine of whole degrees are exact to 1e-9.",
        "quantifier": {"over": ["inputs"], "text": "all rectangles, points, factors, data, bin numbers and angles (normalised: more than -360, less than 720)"},
        "why": "off-by-one errors show only for touching, nested or negative coordinates; no test covers them",
        "anchors": {"files": [B + "include/mt_rect_t.h", B + "include/mt_point_t.h", B + "include/mt_size_t.h", B + "src/mt_hist.cpp", B + "src/mt_trigonometric_function.cpp", B + "include/mt_angle_helper.h"],
                    "mechanism": [{"name": "intersection", "where": B + "include/mt_rect_t.h: mt_rect_t::is_intersect"}, {"name": "bins", "where": B + "src/mt_hist.cpp: mt_hist::hist"}],
                    "observe_at": ["results of each call"], "hook_needed": None},
        "legs": [leg("h_tools", "geometry", 3000000, 40000000, thorough_seeds=2)],
        "technique": ASAN + "every result compared with counting the pixels of both rectangles one by one, and with the definition of histogram and trigonometric functions",
        "note": NOTE + "Rectangles of negative size are outside the contract.",
        "rule": "distinct inputs", "floor": {"far_rectangles": 20000, "large_histograms": 2000, "op_rect": 100000, "intersections": 50000, "op_hist": 20000, "op_angle": 10000},
    },
    {
        "id": "B06", "title": "Small value types hold, compare and name what was put in",
        "statement": "mt_scalar_t, mt_range_t, sys_array_type, mt_Depth_Channel and the typed matrices of mt_mat_t hold exactly the values, type and channels they are made of for every number type, are equal exactly when all of these are equal, and give their sizes and texts; the name of a type and channel number stands for the same type again. "
                     "A b8 counts as true exactly when a bool would, in an array of its own bytes; the macros that loop over containers visit each index once in order, and those that delete release each pointer once and clear it.",
        "quantifier": {"over": ["inputs"], "text": "all ten number types, all values, 1 to 32768 channels, lists of up to 12 values"},
        "why": "every part of the library passes its values through them; a wrong channel, type or truth value shows only for certain numbers",
        "anchors": {"files": [B + "include/mt_data_type.h", B + "src/mt_data_type.cpp", B + "include/mt_scalar_t.h", B + "include/mt_range_t.h", B + "include/mt_mat_t.h", "basicsys/include/sys_array_type.h", "basicsys/include/sys_basic_define.h", "basicsys/include/sys_for_index.h"],
                    "mechanism": [{"name": "type and channels in one number", "where": B + "include/mt_data_type.h: mt_Depth_Channel"}, {"name": "truth in one byte", "where": "basicsys/include/sys_basic_define.h: b8"}, {"name": "lists of values", "where": B + "include/mt_mat_t.h: mt_mat_t::read"}],
                    "observe_at": ["results of each call", "every element of the matrix", "memory (AddressSanitizer)"], "hook_needed": None},
        "legs": [leg("h_tools", "values", 3000000, 40000000, thorough_seeds=2)],
        "technique": ASAN + "every value, comparison, size, name and text compared with the values given, for each number type",
        "note": NOTE + "The first value of a list is given as a double, as its declaration demands.",
        "rule": "distinct (type, operation, values)", "floor": {"op_scalar_type": 200000, "op_range_type": 200000, "op_array_type": 200000, "op_depth_type": 200000, "op_typed": 200000, "op_b8": 200000, "op_macros": 100000},
    },
    {
        "id": "A10", "title": "Matrices written to files, buffers and documents are read back the same",
        "statement": "A matrix of any depth, number of channels, dimensions and layout (also the empty one), saved as text or bytes in a file or buffer with mt_mat_helper::save, or written once, several times or as a vector among other values of a json document, is read back with the same sizes, depth, channels and every element exactly. "
                     "The text of a matrix of 1 to 3 dimensions shows its sizes and type and then every element, channel, row and plane in order.",
        "quantifier": {"over": ["inputs", "configurations"], "text": "all shapes, depths, channel numbers, layouts and finite values"},
        "why": "elements are written through iterators over any layout and read into dense memory, by code of its own for every depth; no test saves a matrix",
        "anchors": {"files": [B + "src/mt_mat_serialize.cpp", B + "src/mt_mat_helper.cpp", B + "src/mt_data_type.cpp"],
                    "mechanism": [{"name": "document", "where": B + "src/mt_mat_serialize.cpp: write, read"}, {"name": "names of types", "where": B + "src/mt_data_type.cpp: depth_channel_str, depth_channel_i32"}],
                    "observe_at": ["every element of the matrix read back", "operands and guard bytes afterwards", "files in a scratch directory"], "hook_needed": None},
        "legs": [leg("h_tools", "serial", 100000, 1500000, thorough_seeds=2)],
        "technique": ASAN + "every matrix read back compared element by element with the values written; the printed text parsed by a parser of its own",
        "note": NOTE + "Printed matrices of depth mt_I8 (shown as characters) are excluded, printed numbers are compared to 1e-6.",
        "rule": "distinct (form, layouts, depths)", "floor": {"op_file": 10000, "op_buffer": 10000, "op_document": 20000, "op_print": 8000, "empty": 2000, "as_text": 30000},
    },
]
