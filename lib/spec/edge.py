"""Edges, stroke widths and pictures of basicimg."""
from spec.mat import leg, ASAN

I = "basicimg/"
WHY = "basicimg has no test at all; "
LAY = "The memory around matrices given from outside is guarded, and all inputs (of former calls too) must stay as they were. Gradients are given by the harness because those calculated inside need OpenCV, which is not installed. "

PROPERTIES = [
    {
        "id": "E01", "title": "Canny marks exactly the pixels its definition marks",
        "statement": "For every pair of gradients (in any memory layout), with or without a given magnitude, and every pair of thresholds, img_canny marks 255 exactly where the magnitude is a maximum across the edge (of equal neighbours on an axis the first) above the low threshold and connected, by such pixels, to one above the high threshold, and 0 elsewhere. "
                     "A detector used again gives what a new one gives, in a new or a given matrix, and changes no gradient given to it or to a former call.",
        "quantifier": {"over": ["inputs", "configurations", "histories"], "text": "all gradients, thresholds, norms and layouts, and sequences of detections by one detector"},
        "why": WHY + "suppression and tracking depend on the exact neighbourhood, on sizes that change between calls and on very large gradients.",
        "anchors": {"files": [I + "src/img_canny.cpp", I + "include/img_canny.h", I + "src/img_img.cpp"], "mechanism": [{"name": "suppression and tracking", "where": I + "src/img_canny.cpp: canny_impl"}],
                    "observe_at": ["edge matrix, gradients and magnitude after each call"], "hook_needed": None},
        "legs": [leg("h_edge", "canny", 60000, 1500000)],
        "technique": ASAN + "online oracle: non-maximum suppression and hysteresis evaluated from their definition over every pixel",
        "note": LAY + "Complete for each picture observed; pictures are sampled.",
        "rule": "distinct (gradients, thresholds, result)", "floor": {"vast_pictures": 60, "dense": 300, "detections": 3000, "edge_pixels": 50000, "wide": 20, "given_magnitude": 800, "own_l1": 300, "own_l2": 800},
    },
    {
        "id": "E02", "title": "Adaptive edge thresholds follow the mean of the surroundings",
        "statement": "For every pair of gradients of any size (also smaller than the window) and every parameter, img_auto_threshold_canny keeps the Canny edges above the threshold given by the mean of the windows around them (or the density threshold where they are crowded), removes curves of at most the noise length without a strong pixel, and adds the weaker edges connected to kept ones. "
                     "A detector used again gives what a new one gives, and changes no input.",
        "quantifier": {"over": ["inputs", "configurations", "histories"], "text": "all gradients, sizes and parameters (window sizes multiple of 4, as documented), and sequences of detections"},
        "why": WHY + "window borders, images smaller than a window and reused matrices are where sums are taken from the wrong place.",
        "anchors": {"files": [I + "src/img_auto_threshold_canny.cpp", I + "include/img_auto_threshold_canny.h"], "mechanism": [{"name": "sums over windows", "where": I + "src/img_auto_threshold_canny.cpp: edge_detection"}, {"name": "curves", "where": I + "src/img_auto_threshold_canny.cpp: remove_small_edge, trace_edge"}],
                    "observe_at": ["edge matrix after each call"], "hook_needed": None},
        "legs": [leg("h_edge", "auto", 24000, 500000)],
        "technique": ASAN + "online oracle: thresholds from direct sums over every window, curves by naive search",
        "note": LAY + "Cases in which a magnitude lies within rounding distance of its threshold are counted as undecided and not compared.",
        "rule": "distinct (gradients, parameters, result)", "floor": {"vast_pictures": 40, "detections": 5000, "edge_pixels": 60000, "noise_removed": 500, "traced": 500, "smaller_than_window": 200},
    },
    {
        "id": "E03", "title": "Stroke widths are the distances between opposite edges",
        "statement": "For every edge picture and gradient field (in any layout), the stroke width transform gives every pixel the least width (at most the median along the ray) of the rays between opposite edges through it, for light or dark strokes and every angle, and the invalid width elsewhere; it ends for every gradient, zero ones too. "
                     "The picture of the widths is 255 where there is none and grows linearly with the width elsewhere.",
        "quantifier": {"over": ["inputs", "configurations"], "text": "all edge pictures, gradients, polarities, angles and invalid widths"},
        "why": WHY + "rays at odd angles, along the border and beside thick edges are rarely sampled.",
        "anchors": {"files": [I + "src/img_stroke_width_transform.cpp", I + "include/img_stroke_width_transform.h"], "mechanism": [{"name": "rays", "where": I + "src/img_stroke_width_transform.cpp: swt"}],
                    "observe_at": ["matrix of widths", "picture"], "hook_needed": None},
        "legs": [leg("h_edge", "swt", 24000, 500000)],
        "technique": ASAN + "online oracle: rays followed step by step from the definition, every pixel compared",
        "note": LAY + "Rays whose angle lies within rounding distance of the limit make a case undecided.",
        "rule": "distinct (edges, gradients, parameters, widths)", "floor": {"vast_pictures": 20, "transforms": 7000, "rays": 20000, "width_pixels": 20000},
    },
    {
        "id": "E04", "title": "Pictures drawn of regions show exactly their pixels",
        "statement": "image_from_mser draws, for the region of any algorithm and any colours, exactly its pixels over the background, centred in the least square that holds it, in one or three channels; chessboards, gradient magnitudes and the tests for points in the image or on its border are those of their definition for every size.",
        "quantifier": {"over": ["inputs", "configurations"], "text": "all regions, colours, sizes, channels and layouts"},
        "why": WHY + "drawing must undo every way an algorithm stores its regions.",
        "anchors": {"files": [I + "src/img_mser_helper.cpp", I + "src/img_img.cpp", I + "include/img_img.h"], "mechanism": [{"name": "drawing", "where": I + "src/img_mser_helper.cpp: image_from_mser"}],
                    "observe_at": ["every pixel of the picture"], "hook_needed": None},
        "legs": [leg("h_edge", "draw", 50000, 1000000)],
        "technique": ASAN + "every pixel compared with the set of pixels listed by the region",
        "note": "Complete for each picture observed.",
        "rule": "distinct (regions, colours)", "floor": {"pictures": 30000, "chessboards": 500, "magnitudes": 1000},
    },
    {
        "id": "E05", "title": "Gaussian blur is the weighted mean of the surroundings",
        "statement": "For every picture of one channel, of any size, depth and layout, and every kernel size and pair of deviations, gaussian_blur gives, rounded for whole depths, the convolution (zeros outside, same size) with normalised Gaussian weights of the given width along rows and of the given height along columns; without a deviation only the center counts. "
                     "A negative kernel size is chosen from the deviation (3 of them to each side for bytes, else 4), a negative vertical deviation is the horizontal one, and the picture given stays as it was unless it is also the result.",
        "quantifier": {"over": ["inputs", "configurations"], "text": "all pictures of one channel, depths, layouts, kernel sizes (odd, even, larger than the picture, different in both directions) and deviations"},
        "why": WHY + "it cannot even run where MKL is missing, and an error in one direction or at the border shows only with unequal arguments.",
        "anchors": {"files": [I + "src/img_img.cpp", I + "include/img_img.h", "basicmath/src/mt_convolution.cpp"], "mechanism": [{"name": "kernel and two convolutions", "where": I + "src/img_img.cpp: gaussian_blur, generate_gaussian_kernel"}],
                    "observe_at": ["every pixel of the result, the picture, and the memory around it"], "hook_needed": None},
        "legs": [leg("h_blur", "blur", 50000, 1500000, config="mkl")],
        "technique": ASAN + "online oracle: both passes evaluated directly with weights from the definition, every pixel compared",
        "note": "The convolution runs on the stand-in for Intel MKL of A11. Complete for each picture observed; pictures are sampled.",
        "rule": "distinct (pictures, kernels)", "floor": {"blurs": 45000, "different_sizes": 25000, "different_sigmas": 20000, "no_sigma": 7500, "own_size": 20000, "larger_kernel": 20000, "even_kernel": 15000, "given_matrix": 7500},
        "assumptions": ["MKL's convolution is the one of its documentation (the stand-in of harness/mkl)"],
    },
]
