// modules: basiclog basicsys basicmath basicimg
// Gaussian blur of pictures (basicimg), with the stand-in for Intel MKL (config mkl).
#include "img_bench.h"
#include <math.h>
#if defined basicsys_enable_mkl
#include <mkl.h>

static vector<double> weights(int size, double sigma) {
	vector<double> k(size, 0); double sum = 0;
	for (int i = 0; i < size; ++i) sum += k[i] = sigma > 0 ? exp(-0.5 * ((i - size / 2) / sigma) * ((i - size / 2) / sigma)) : i == size / 2;
	for (int i = 0; i < size; ++i) k[i] /= sum;
	return k;
}
static int chosen(int given, double sigma, bool bytes) { return given >= 0 ? given : sigma <= 0 ? 1 : (int)floor(sigma * (bytes ? 3 : 4) * 2 + 1 + 0.5) | 1; }
static double some_sigma(Rng& r) { return r.chance(1, 6) ? 0 : r.chance(1, 8) ? r.in(1, 20) / 1024.0 : r.in(1, r.chance(1, 4) ? 640 : 160) / 64.0; }

template <class T> static void blur(Rng& r) {
	Judge j; Grid<T> g; bool whole = std::numeric_limits<T>::is_integer, bytes = sizeof(T) == 1;
	int h = (int)r.in(1, r.chance(1, 10) ? 60 : 12), w = (int)r.in(1, r.chance(1, 10) ? 60 : 12);
	g.make(r, h, w, r.chance(1, 4));
	int kind = (int)r.in(0, 3); double big = bytes ? 255 : whole ? (double)std::numeric_limits<T>::max() : r.chance(1, 5) ? 1e30 : 1000;
	for (size_t i = 0; i < g.v.size(); ++i) {
		double v = kind == 0 ? r.in(0, 255) : kind == 1 ? (r.chance(1, 12) ? big : 0) : kind == 2 ? big : (whole ? (double)r.in(0, (long)big) : r.in(-1000, 1000) / 7.0 * (big / 1000));
		if (kind == 0 && whole && !bytes && r.chance(1, 2)) v = -v;
		g.v[i] = (T)v;
	}
	g.store();
	double sx = some_sigma(r), sy = r.chance(1, 4) ? -(double)r.in(1, 3) : r.chance(1, 4) ? sx : some_sigma(r); if (r.chance(1, 30)) sx = -(double)r.in(1, 3);
	int kw = r.chance(1, 3) ? -(int)r.in(1, 2) : (int)r.in(1, 15), kh = r.chance(1, 3) ? -1 : r.chance(1, 4) && kw > 0 ? kw : (int)r.in(1, 15);
	j.what = vh::fmt("blur of %dx%d (depth %d, layout %d, kind %d), kernel %dx%d, sigma %g %g", h, w, (int)Grid<T>::depth(), g.layout, kind, kw, kh, sx, sy); vh::note(j.what);
	double ey = sy < 0 ? sx : sy, ex = std::max(0.0, sx); ey = std::max(0.0, ey);
	vector<double> x = weights(chosen(kw, ex, bytes), ex), y = weights(chosen(kh, ey, bytes), ey);
	vector<double> t((size_t)h * w, 0), want((size_t)h * w, 0); double scale = 1;
	int nx = (int)x.size(), ny = (int)y.size();
	for (int i = 0; i < h; ++i) for (int k = 0; k < w; ++k) for (int q = 0; q < nx; ++q) { int s = k + nx / 2 - q; if (s >= 0 && s < w) t[(size_t)i * w + k] += x[q] * (double)g.v[(size_t)i * w + s]; }
	for (int i = 0; i < h; ++i) for (int k = 0; k < w; ++k) for (int q = 0; q < ny; ++q) { int s = i + ny / 2 - q; if (s >= 0 && s < h) want[(size_t)i * w + k] += y[q] * t[(size_t)s * w + k]; }
	for (size_t i = 0; i < g.v.size(); ++i) scale = std::max(scale, fabs((double)g.v[i]));
	mt_mat res; int how = (int)r.in(0, 3);
	if (how == 1) { res = mt_mat(h, w, mt_Depth_Channel(Grid<T>::depth(), 1)); vh::stat("given_matrix"); }
	if (how == 2) res = g.m;
	if (how == 0) res = img_img::gaussian_blur(g.m, mt_size(kw, kh), sx, sy);
	else img_img::gaussian_blur(res, how == 2 && r.chance(1, 2) ? res : g.m, mt_size(kw, kh), sx, sy);
	if (j.check(res.dim() == 2 && res.size()[0] == h && res.size()[1] == w && res.depth_channel() == mt_Depth_Channel(Grid<T>::depth(), 1), "blur_shape", vh::fmt("%s of %d dimensions", "a matrix of another shape or type", res.dim())))
	for (int i = 0; i < h && !j.bad; ++i) for (int k = 0; k < w; ++k) {
		double a = want[(size_t)i * w + k], v = (double)get<T>(res, i, k), tol = scale * (sizeof(T) == 8 || whole ? 1e-9 : 1e-5); bool ok;
		if (whole) ok = v == floor(v) && fabs(v - a) <= 0.5 + tol;
		else ok = fabs(v - a) <= tol;
		vh::stat("pixels");
		if (!ok) { j.fail("blur", vh::fmt("(%d, %d) is %.12g, expected %.12g", i, k, v, a)); break; }
	}
	j.check(g.intact(), "inputs_changed", "the picture or memory around it was changed");
	j.check(mkl_stand_in::counts().rejected.exchange(0) == 0 && mkl_stand_in::counts().tasks.exchange(0) == 0, "mkl", "MKL rejects a call, or a task was not released");
	vh::stat("blurs"); vh::stat(whole ? "whole" : "floating"); if (nx != ny) vh::stat("different_sizes"); if (fabs(ex - ey) > 1e-3) vh::stat("different_sigmas"); if (ex == 0 || ey == 0) vh::stat("no_sigma"); if (kw < 0 || kh < 0) vh::stat("own_size"); if (nx > w || ny > h) vh::stat("larger_kernel"); if (nx % 2 == 0 || ny % 2 == 0) vh::stat("even_kernel");
	vh::dist("nontrivial", vh::hash_mem(&want[0], want.size() * sizeof(double), vh::hash_str(j.what)));
	j.quiet("blur");
}
static void prop_blur(Rng& r, long) {
	int k = (int)r.in(0, 4);
	if (k == 0) blur<u8>(r); else if (k == 1) blur<i16>(r); else if (k == 2) blur<i32>(r); else if (k == 3) blur<float>(r); else blur<double>(r);
}
int main(int argc, char** argv) {
	vector<vh::Prop> props; vh::Prop a[] = {{"blur", prop_blur}}; props.assign(a, a + 1);
	return vh::run_main(argc, argv, props, mm::setup_log, mm::teardown_log);
}
#else
int main() { return 3; }
#endif
