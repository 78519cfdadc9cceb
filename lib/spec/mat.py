"""Matrices (basicmath: mt_mat)."""
ASAN = "AddressSanitizer + UndefinedBehaviorSanitizer, poisoned memory, "
B = "basicmath/"
MAT = B + "src/mt_mat.cpp"


def leg(harness, name, quick, thorough, config="asan", **kw):
    d = {"name": name, "harness": harness, "config": config, "prop": name, "quick": quick, "thorough": thorough}
    d.update(kw)
    return d


PROPERTIES = [
    {
        "id": "A01", "title": "Matrix views address exactly the elements they name",
        "statement": "For every matrix (1 to 6 dimensions, any depth and number of channels, its own or the caller's memory with any steps) and every composition of sub, index, row, col, plane, front, back, flip, t, swap_dim, sub_channel, channel_at, reshape, reshape_channel, "
                     "increase_dim, decrease_dim, split_dim, combine_dim, channel_as_last_dim and last_dim_as_channel, element (i, j, ...) and channel c of the view is the element of the source that the operation names, and views share the memory of their source. "
                     "A value written through a view is seen through every other view of that element and changes nothing else; get, at, ptr, get_index and the iterators agree with each other.",
        "quantifier": {"over": ["inputs", "histories"], "text": "all matrices, all compositions of views, all sequences of reads and writes through them"},
        "why": "the tests look at one or two views of 3x3 and 4x4 matrices; the offsets and steps only go wrong in compositions (a reshape of a flipped matrix, merged dimensions of a part, more than four dimensions)",
        "anchors": {"files": [MAT, B + "include/mt_mat.h", B + "src/mt_array_iteration.cpp"],
                    "mechanism": [{"name": "sizes, steps and first element of a view", "where": MAT + ": sub, flip, swap_dim, reshape, split_dim, combine_dim, sub_channel"}, {"name": "iteration over any layout", "where": B + "src/mt_array_iteration.cpp: mt_array_element_const_iterator::data"}],
                    "observe_at": ["mt_mat::get, at, ptr and size of every live view after every operation"], "hook_needed": None},
        "legs": [leg("h_mat", "views", 20000, 600000, thorough_seeds=2)],
        "technique": ASAN + "online comparison of every live view with a reference model (views as lists of cells in shared stores) after every operation",
        "note": "Complete for each sequence observed: after every operation every element of every live view is read back through a random accessor and guard bytes between the elements of external buffers are checked. Sequences are sampled (12-90 operations on up to 9 views).",
        "rule": "distinct layouts (depth, channels, sizes, steps) among the views alive at the end", "floor": {"giant_matrices": 3, "views_compared": 100000, "op_reshape": 500, "op_combine_dim": 300, "op_flip": 500, "queries": 500},
    },
    {
        "id": "A02", "title": "Filling, copying, converting, repeating and comparing matrices is exact",
        "statement": "For every matrix and layout (dense, part of a larger one, transposed, flipped, any number of channels), set, set_incremental, set_eye, copy_from, clone, convert, repeat, split and array_copy give every element the value that the operation names - converted to the destination's depth by truncation - and change nothing else. "
                     "==, !=, is_zero, is_same_size, is_same_memory_size and array_cmp are true exactly when sizes and values say so, whatever the layouts of the two operands.",
        "quantifier": {"over": ["inputs", "configurations"], "text": "all shapes, layouts, depths, channel numbers and values that the destination can hold"},
        "why": "there is separate code for continuous, 2d, 3d and other layouts times 1, 2, 3, 4 and more channels times 10 depths (or 100 pairs of depths), of which the tests visit a handful",
        "anchors": {"files": [MAT, B + "src/mt_array_iteration.cpp"],
                    "mechanism": [{"name": "specialised loops per layout, channel number and depth", "where": MAT + ": private_mat::set"}, {"name": "element comparison", "where": B + "src/mt_array_iteration.cpp: array_iteration"}],
                    "observe_at": ["every element of every live view after every operation"], "hook_needed": None},
        "legs": [leg("h_mat", "content", 40000, 1000000, thorough_seeds=2)],
        "technique": ASAN + "online comparison with a reference model after every operation",
        "note": "Complete for each operation observed; shapes, layouts and values are sampled. Values outside the range of the destination are outside the contract (the code asserts), as are overlapping sources and destinations.",
        "rule": "distinct layouts (depth, channels, sizes, steps) among the views alive at the end", "floor": {"op_set_mat": 500, "op_set_mat_depth": 500, "op_convert": 500, "compared_equal": 300, "compared_different": 300},
    },
    {
        "id": "A03", "title": "Shared matrix memory lives exactly as long as its views, also across threads",
        "statement": "For every sequence of copying, assigning, self-assigning, re-creating and dropping matrices and views, the memory stays valid while a view of it exists and is released with the last one (also memory handed over by the caller; memory only lent by the caller is never released), and reference_number is the number of views that share it. "
                     "Deep copies (clone, copy_from, convert, repeat, split) never share memory. Threads may do this with views of the same matrices at the same time, with or without the matrix cache, and no cached matrix is given to two users at once.",
        "quantifier": {"over": ["histories", "schedules"], "text": "all sequences of handle operations and all interleavings of threads"},
        "why": "use after free, leaks and races of the reference counter depend on the order of drops and on the schedule; no test looks at them",
        "anchors": {"files": [MAT, B + "include/mt_mat.h", B + "src/mt_mat_cache.cpp"],
                    "mechanism": [{"name": "reference counting", "where": MAT + ": operator=, try_deallocate, reference_info"}, {"name": "cache of matrices per thread switch", "where": B + "src/mt_mat_cache.cpp: get"}],
                    "observe_at": ["allocations and releases (AddressSanitizer, LeakSanitizer), mt_mat::reference_number, memory accesses (ThreadSanitizer)"], "hook_needed": None},
        "legs": [leg("h_mat", "lifetime", 12000, 400000, thorough_seeds=2), leg("h_mat", "handles_race", 1500, 40000, config="tsan", thorough_seeds=2)],
        "technique": ASAN + "LeakSanitizer, ThreadSanitizer, reference counts compared with the model after every operation",
        "note": "Lifetime errors are detected on every executed path; races on every executed pair of accesses whatever the timing. Sequences and schedules are sampled.",
        "rule": "distinct layouts among the views alive at the end, distinct threaded runs", "floor": {"views_compared": 100000, "op_drop": 1000, "op_assign": 1000, "thread_runs": 400, "with_cache": 50},
    },
]
