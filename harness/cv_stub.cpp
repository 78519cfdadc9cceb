// OpenCV is not installed.  Stand-ins for the few symbols img_img.cpp and the inline headers refer to; none of them is
// meant to be reached by a harness (only the release of an empty cv::String is).
#include <stdio.h>
#include <stdlib.h>
#include <opencv2/opencv.hpp>
#define NEVER(name) { fprintf(stderr, "HARNESS-ERROR: OpenCV stand-in %s reached\n", name); abort(); }
namespace cv {
	void String::deallocate() { cstr_ = 0; len_ = 0; }
	char* String::allocate(size_t) NEVER("String::allocate")
	Mat::Mat(int, const int*, int, void*, const size_t*) : size(0) NEVER("Mat::Mat")
	Mat& Mat::operator=(const Scalar&) NEVER("Mat::operator=")
	void Mat::deallocate() {}
	void Mat::create(int, const int*, int) NEVER("Mat::create")
	void fastFree(void*) {}
	void Sobel(InputArray, OutputArray, int, int, int, int, double, double, int) NEVER("Sobel")
	Mat imread(const String&, int) NEVER("imread")
	bool imwrite(const String&, InputArray, const std::vector<int>&) NEVER("imwrite")
	void resize(InputArray, OutputArray, Size, double, double, int) NEVER("resize")
	void cvtColor(InputArray, OutputArray, int, int) NEVER("cvtColor")
}
