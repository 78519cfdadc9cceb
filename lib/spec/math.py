"""Calculations on matrices (basicmath: mt_mat_math_operation.cpp, mt_pooling.cpp)."""
from spec.mat import leg, ASAN, B

OP = B + "src/mt_mat_math_operation.cpp"
ORACLE = ASAN + "guard bytes around and between the elements of every operand, every element of the result compared with a plain element by element evaluation"
NOTE = "Complete for each evaluation observed: every element of the result, every operand afterwards, and the bytes around them. Shapes, layouts, depths and values are sampled. "

PROPERTIES = [
    {
        "id": "A04", "title": "Element by element arithmetic and bias give every element its result",
        "statement": "For every matrix of any depth, number of channels and layout (dense, permuted, with gaps, flipped), + - * / with another matrix, a number, a scalar or vector of one value per channel, in place or not, with the number on either side, unary minus, and add_bias, substract_bias, mul_bias and div_bias, element i and channel c of the result are exactly what the operation on element i and channel c of the operands gives in the arithmetic of that depth. "
                     "Nothing but the result of an in-place operation changes.",
        "quantifier": {"over": ["inputs", "configurations"], "text": "all shapes, layouts of both operands, depths, channel numbers and values whose result the depth can hold"},
        "why": "there is a loop of its own for every combination of layout, dimensions, channel number, operation and operand kind; the tests run one or two of them on small dense matrices",
        "anchors": {"files": [OP],
                    "mechanism": [{"name": "specialised loops", "where": OP + ": private_math_operation::mat_operation"}, {"name": "bias by row or per element", "where": OP + ": operation_bias"}],
                    "observe_at": ["every element of results and operands"], "hook_needed": None},
        "legs": [leg("h_math", "arith", 400000, 6000000, thorough_seeds=2)],
        "technique": ORACLE,
        "note": NOTE + "Results that the depth cannot hold, division of integers by zero, and 64-bit integer bias (not supported by the code) are outside the contract.",
        "rule": "distinct (layouts, operation, kind of operand)", "floor": {"op_add": 4000, "op_divide": 4000, "op_bias": 1500, "in_place": 4000, "op_minus": 1500, "elements_compared": 800000},
    },
    {
        "id": "A05", "title": "Activations, exp, log, pow, abs and comparison masks match their definitions",
        "statement": "For every matrix and layout, exp, log (to any base), pow, abs, activate (linear, sigmoid, tanh, relu and softmax over channels or dimensions) and their in-place forms give every element the value of the mathematical function, within the precision of the depth, without overflow where the result is finite. "
                     "element_compared_mask has the true value exactly where the comparison of the elements (or with zero) holds.",
        "quantifier": {"over": ["inputs", "configurations"], "text": "all shapes, layouts, depths, channel numbers, parameters and values in the domain of the function"},
        "why": "separate loops per layout; large arguments and layouts with steps only occur outside the tests",
        "anchors": {"files": [OP],
                    "mechanism": [{"name": "activation loops", "where": OP + ": private_math_operation::activate"}, {"name": "comparison", "where": OP + ": element_compared_mask"}],
                    "observe_at": ["every element of results and operands"], "hook_needed": None},
        "legs": [leg("h_math", "funcs", 400000, 6000000, thorough_seeds=2)],
        "technique": ORACLE,
        "note": NOTE + "Compared with the C library in double precision with a tolerance of the depth (f32 1e-4, f64 1e-9, relative).",
        "rule": "distinct (layout, function)", "floor": {"op_softmax": 400, "op_relu": 2000, "op_mask": 2000, "op_log": 2000, "op_pow": 2000, "elements_compared": 800000},
    },
    {
        "id": "A06", "title": "Reductions, losses and eigenvectors match their definitions",
        "statement": "For every matrix and layout, reduce gives the sum, mean, maximum, minimum, (unbiased) variance or standard deviation over all elements of each channel, over the channels of each element, or along one dimension; loss gives the quadratic or logarithmic loss of two matrices. "
                     "symmetry_eigen of a symmetric matrix gives eigenvalues and orthonormal eigenvectors with A v = lambda v.",
        "quantifier": {"over": ["inputs", "configurations"], "text": "all shapes, layouts, depths, channel numbers and values"},
        "why": "the tests check sums of small dense matrices of one depth; one step or one channel mixed up shows only with other layouts",
        "anchors": {"files": [OP, B + "src/mt_mat.cpp"],
                    "mechanism": [{"name": "reduction loops", "where": OP + ": private_math_operation::reduce"}, {"name": "losses", "where": OP + ": private_math_operation::loss"}],
                    "observe_at": ["every element of results and operands"], "hook_needed": None},
        "legs": [leg("h_math", "reduce", 400000, 6000000, thorough_seeds=2)],
        "technique": ORACLE + "; for eigenvectors the defining equations",
        "note": NOTE,
        "rule": "distinct (layout, reduction, dimension)", "floor": {"op_reduce_all": 4000, "op_reduce_channels": 4000, "op_reduce_dim": 10000, "op_eigen": 4000, "op_quadratic_loss": 2000, "op_logarithmic_loss": 2000},
    },
    {
        "id": "A07", "title": "Pooling picks from every window, and unpooling gives back to its elements",
        "statement": "For every matrix, layout, window and stride, pooling gives for each window (also those cut by the border) the mean, sum, maximum, minimum or first value of its elements, or the element that the index mask names; the mask of max and min pooling holds the position of the chosen element in the source. "
                     "unpooling adds every value to exactly the elements it came from: the masked element, the first one, or all of the window (mean: divided by the number of its elements).",
        "quantifier": {"over": ["inputs", "configurations"], "text": "all shapes of 1 to 5 dimensions, layouts, depths, channel numbers, windows, strides and values"},
        "why": "there are five implementations (2d and 3d with one or more channels, and any other number of dimensions), windows overlap or leave gaps and are cut at borders; the tests use one 2d example",
        "anchors": {"files": [B + "src/mt_pooling.cpp", B + "include/mt_helper.h"],
                    "mechanism": [{"name": "windows and masks", "where": B + "src/mt_pooling.cpp: pooling_2d_channel_1, pooling_2d_channel_n, pooling_3d_channel_1, pooling_3d_channel_n, pooling"}, {"name": "inverse", "where": B + "src/mt_pooling.cpp: unpooling_*"}],
                    "observe_at": ["every element of results, masks and operands"], "hook_needed": None},
        "legs": [leg("h_math", "pooling", 600000, 6000000, thorough_seeds=2)],
        "technique": ORACLE,
        "note": NOTE + "Ties: the first element in row order. Sums that an integer depth cannot hold are outside the contract.",
        "rule": "distinct (layout, windows, strides, kind)", "floor": {"op_mean": 2000, "op_max": 2000, "op_sum": 2000, "op_index": 2000, "op_first": 2000, "op_unpooling": 15000},
    },
    {
        "id": "A08", "title": "Expanding, stepping, merging and adding up matrices places every element",
        "statement": "For every matrix and layout, expand surrounds the elements with the given values, sub_stride shares every n-th element with its source, merge_align_dim and merge_align_channel put their parts one after another along the dimension or channels, and add, dot and clone of a list give the element sums, products and copies. "
                     "Only sub_stride shares memory with its operands (and merging one part when sharing is allowed); the sizes that get_pooling_result_size and get_conv_result_size announce are those of the windows there are.",
        "quantifier": {"over": ["inputs", "configurations"], "text": "all shapes of 1 to 5 dimensions, layouts, depths, channel numbers, margins, strides, numbers of parts and values"},
        "why": "the tests merge and expand nothing and step through one dense matrix; misplacement depends on parts of different sizes and layouts with steps",
        "anchors": {"files": [B + "src/mt_mat_helper.cpp", B + "src/mt_mat.cpp", B + "include/mt_helper.h"],
                    "mechanism": [{"name": "placing parts", "where": B + "src/mt_mat_helper.cpp: merge_align_dim, merge_align_channel"}, {"name": "margins and steps", "where": B + "src/mt_mat.cpp: expand, sub_stride"}],
                    "observe_at": ["every element of results and operands", "shared memory"], "hook_needed": None},
        "legs": [leg("h_mat2", "assemble", 300000, 3000000, thorough_seeds=2)],
        "technique": ORACLE,
        "note": NOTE,
        "rule": "distinct (operation, layouts)", "floor": {"op_expand": 4000, "op_sub_stride": 4000, "op_merge_align_dim": 4000, "op_merge_align_channel": 4000, "op_add_all": 4000, "op_dot_all": 3000, "written_through": 1000},
    },
    {
        "id": "A09", "title": "Automatic derivatives are the derivatives of what was calculated",
        "statement": "While an mt_auto_derivative records, for every expression built from the recorded operations on the attached matrices, derivative(target, source) is the true derivative of the source (its elements added up, or of each source, added up) with respect to every element of the target: sums over all paths, also through the same operand twice, views of it, its parts, dropped intermediates and a new recording round after reset. "
                     "Recording leaves the calculated values as they are, a matrix with no influence has an empty derivative, operations done while not recording do not count, and what a caller does with one derivative (or the cache size) has no effect on the next.",
        "quantifier": {"over": ["inputs", "histories"], "text": "all expressions over add, sub, multiply, divide, bias, constants, exp, pow, log, abs, activations, losses, parts, channels, expand, repeat, flip, reshape, sub_stride, pooling, merging, lists and clone; all shapes, values and orders of queries"},
        "why": "the tests never record anything; a wrong derivative depends on which operations meet on a path, how often an operand is used and what the cache holds",
        "anchors": {"files": [B + "src/mt_auto_derivative.cpp", B + "src/mt_auto_derivative_tree.cpp", B + "include/mt_auto_derivative_tree.h"],
                    "mechanism": [{"name": "tree walk and cache", "where": B + "src/mt_auto_derivative.cpp: derivative"}, {"name": "rule of each operation", "where": B + "src/mt_auto_derivative_tree.cpp: derivate_child_on_operation"}],
                    "observe_at": ["every element of results and derivatives"], "hook_needed": None},
        "legs": [leg("h_ad", "derive", 160000, 3000000, thorough_seeds=2)],
        "technique": ASAN + "every value and derivative compared with a reverse-mode derivative of the same expression on single numbers, recorded next to the real one",
        "note": "Complete for each recording and query observed: every element. Expressions are sampled, up to about nine operations. A logarithmic loss is differentiated together with the activation it follows (as the code documents by design), so the activated matrix between them is not a target of its own. Points where a function has no derivative are avoided; matrix multiplication and convolution are in A11.",
        "rule": "distinct (expressions)", "floor": {"detached": 100000, "derivatives": 100000, "same_operand": 20000, "alias": 8000, "dropped": 8000, "ignored": 12000, "several_sources": 20000, "rounds_again": 8000, "unrelated": 30000, "derivative_written": 30000, "op_dot_all": 2000, "op_logarithmic_loss": 500, "op_softmax": 200, "op_pooling_max": 800},
    },
    {
        "id": "A11", "title": "Matrix product and convolution match their definitions, and so do derivatives",
        "statement": "With Intel MKL, for every pair of matrices that fit (any layout: rows or columns of a larger one, transposed, flipped, with gaps, single channels of several; up to 19 channels), mul gives the matrix product of every channel and conv the convolution for every boundary (valid, full, same), alignment of the kernel's channels, strides and number of dimensions, also when the result replaces an operand; operands and everything around them stay as they were. "
                     "Every call that MKL receives is one MKL accepts, its tasks are released, and the channels computed in parallel do not disturb each other. "
                     "Recorded products and valid convolutions have the true derivatives.",
        "quantifier": {"over": ["inputs", "configurations", "schedules", "histories"], "text": "all sizes, layouts, depths mt_F32 and mt_F64, channel numbers, boundaries, alignments, strides; all expressions that contain products and convolutions"},
        "why": "which steps, leading dimensions and copies are passed on depends on the layout and the number of channels; the code is only compiled with MKL, where the tests convolve a handful of dense matrices",
        "anchors": {"files": [B + "src/ml_multiplication.cpp", B + "src/mt_convolution.cpp", B + "src/mt_auto_derivative_tree.cpp"],
                    "mechanism": [{"name": "leading dimensions and transposition", "where": B + "src/ml_multiplication.cpp: private_multiplication::mul"}, {"name": "sizes, starts, steps and channels", "where": B + "src/mt_convolution.cpp: mt_mat::conv, private_convolution::conv"},
                                  {"name": "derivative of a convolution", "where": B + "src/mt_auto_derivative_tree.cpp: mt_ad_conv_tree_node::derivate_child_on_operation"}],
                    "observe_at": ["every element of results, operands and derivatives", "parameters passed to MKL", "memory and data races (sanitizers)"], "hook_needed": None},
        "legs": [leg("h_mkl", "mul", 150000, 1500000, config="mkl"), leg("h_mkl", "conv", 100000, 1000000, config="mkl"), leg("h_ad", "derive", 80000, 1500000, config="mkl"), leg("h_mkl", "conv_threads", 8000, 60000, config="tsanmkl", prop="conv", env={"OMP_TOOL_LIBRARIES": "/usr/lib/llvm-18/lib/libarcher.so", "OMP_NUM_THREADS": "8", "KMP_BLOCKTIME": "0"})],
        "technique": ORACLE + "; a stand-in for MKL that checks its parameters and tasks; ThreadSanitizer over the channels computed in parallel",
        "note": "MKL is not installed: the library is compiled as for MKL against harness/mkl/mkl.h, which computes with plain loops over the addresses it is given and rejects what MKL rejects. The expected results of the project's own tests of mul and conv, written with the real MKL, agree with it. Values are small whole numbers, so that results are exact. Excluded: results in memory shared with an operand, and derivatives of convolutions that are not valid ones or cross several channels (the library logs that they are not supported).",
        "rule": "distinct (operation, layouts, sizes)", "floor": {"products": 50000, "products_of_channels": 15000, "cut_out": 60000, "turned": 30000, "flipped": 8000, "many_channels": 2500, "strided": 15000, "into_kernel": 2000, "into_matrix": 5000, "op_conv": 8000, "op_mul": 4000, "conv_by_columns": 3000, "calls_of_mkl": 100000},
    },
]
