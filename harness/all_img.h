#pragma once
#include <opencv/cv.h>
#include <opencv2/opencv.hpp>
#include "all_math.h"
using namespace cv;
#include <img_types.h>
#include <img_img.h>
#include <img_draw.h>
#include <img_canny.h>
#include <img_auto_threshold_canny.h>
#include <img_helper.h>
using namespace basicimg;
#include <img_connected_component.h>
#include <img_mser_base.h>
#include <img_mser_result.h>
#include <img_linked_linear_mser.h>
#include <img_origin_mser.h>
#include <img_opencv_mser.h>
#include <img_opencv3_mser.h>
#include <img_fast_mser_v1.h>
#include <img_fast_mser_v2.h>
#include <img_ms_mser.h>
#include <img_idiap_mser.h>
#include <img_vlfeat_mser.h>
#include <img_stroke_width_transform.h>
