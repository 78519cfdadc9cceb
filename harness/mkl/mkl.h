// A stand-in for the part of Intel MKL which the library calls, with MKL's rules for the parameters: a call which MKL would reject is
// counted and computes nothing.  Straightforward loops over the addresses the caller describes, so that a sanitizer sees every access.
#pragma once
#include <algorithm>
#include <atomic>
#include <cstddef>
#include <vector>

enum CBLAS_LAYOUT { CblasRowMajor = 101, CblasColMajor = 102 };
enum CBLAS_TRANSPOSE { CblasNoTrans = 111, CblasTrans = 112, CblasConjTrans = 113 };

namespace mkl_stand_in {
	struct Counts { std::atomic<long> rejected, gemm, conv, tasks; int last; };
	inline Counts& counts() { static Counts c; return c; }
	inline bool reject(int parameter) { counts().last = parameter; ++counts().rejected; return true; }

	template <class T> void gemm(CBLAS_LAYOUT layout, CBLAS_TRANSPOSE ta, CBLAS_TRANSPOSE tb, int m, int n, int k, T alpha, const T* a, int lda, const T* b, int ldb, T beta, T* c, int ldc) {
		if (layout != CblasRowMajor) { reject(1); return; }
		if (ta != CblasNoTrans && ta != CblasTrans) { reject(2); return; }
		if (tb != CblasNoTrans && tb != CblasTrans) { reject(3); return; }
		if (m < 0) { reject(4); return; }
		if (n < 0) { reject(5); return; }
		if (k < 0) { reject(6); return; }
		if (lda < std::max(1, ta == CblasNoTrans ? k : m)) { reject(9); return; }
		if (ldb < std::max(1, tb == CblasNoTrans ? n : k)) { reject(11); return; }
		if (ldc < std::max(1, n)) { reject(14); return; }
		++counts().gemm;
		for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) {
			double s = 0;
			for (int x = 0; x < k; ++x) s += (double)a[ta == CblasNoTrans ? (ptrdiff_t)i * lda + x : (ptrdiff_t)x * lda + i] * (double)b[tb == CblasNoTrans ? (ptrdiff_t)x * ldb + j : (ptrdiff_t)j * ldb + x];
			T& d = c[(ptrdiff_t)i * ldc + j];
			d = (T)(alpha * s + (beta == 0 ? 0 : beta * d));
		}
	}

	struct Task { int bytes, dims; std::vector<int> x, y, z, start, dec; };

	// The address of the element with index zero: a negative stride starts at the highest address.
	inline ptrdiff_t first(const std::vector<int>& n, const int* stride) { ptrdiff_t o = 0; for (size_t i = 0; i < n.size(); ++i) if (stride[i] < 0) o -= (ptrdiff_t)(n[i] - 1) * stride[i]; return o; }
	inline bool next(std::vector<int>& i, const std::vector<int>& n) { for (int d = (int)n.size() - 1; d >= 0; --d) { if (++i[d] < n[d]) return true; i[d] = 0; } return false; }

	template <class T> int exec(void* task, const T* x, const int* xs, const T* y, const int* ys, T* z, const int* zs) {
		Task* t = (Task*)task;
		if (t == NULL || t->bytes != (int)sizeof(T)) { reject(-2); return -1; }
		++counts().conv;
		x += first(t->x, xs); y += first(t->y, ys); z += first(t->z, zs);
		std::vector<int> i(t->dims, 0);
		do {
			ptrdiff_t zo = 0; for (int d = 0; d < t->dims; ++d) zo += (ptrdiff_t)i[d] * zs[d];
			double s = 0;
			std::vector<int> j(t->dims, 0);
			do {
				ptrdiff_t xo = 0, yo = 0; bool in = true;
				for (int d = 0; d < t->dims && in; ++d) {
					int p = t->start[d] + i[d] * t->dec[d] - j[d];
					in = p >= 0 && p < t->x[d];
					xo += (ptrdiff_t)p * xs[d]; yo += (ptrdiff_t)j[d] * ys[d];
				}
				if (in) s += (double)x[xo] * (double)y[yo];
			} while (next(j, t->y));
			z[zo] = (T)s;
		} while (next(i, t->z));
		return 0;
	}
	inline int new_task(void** task, int bytes, int mode, int dims, const int* x, const int* y, const int* z) {
		*task = NULL;
		if (dims < 1 || dims > 7) { reject(-3); return -1; }                   // MKL handles up to seven dimensions
		for (int d = 0; d < dims; ++d) if (x[d] < 1 || y[d] < 1 || z[d] < 1) { reject(-4); return -1; }
		Task* t = new Task(); t->bytes = bytes; t->dims = dims;
		t->x.assign(x, x + dims); t->y.assign(y, y + dims); t->z.assign(z, z + dims); t->start.assign(dims, 0); t->dec.assign(dims, 1);
		*task = t; ++counts().tasks;
		return 0;
	}
}

inline void cblas_sgemm(CBLAS_LAYOUT l, CBLAS_TRANSPOSE ta, CBLAS_TRANSPOSE tb, int m, int n, int k, float alpha, const float* a, int lda, const float* b, int ldb, float beta, float* c, int ldc) { mkl_stand_in::gemm<float>(l, ta, tb, m, n, k, alpha, a, lda, b, ldb, beta, c, ldc); }
inline void cblas_dgemm(CBLAS_LAYOUT l, CBLAS_TRANSPOSE ta, CBLAS_TRANSPOSE tb, int m, int n, int k, double alpha, const double* a, int lda, const double* b, int ldb, double beta, double* c, int ldc) { mkl_stand_in::gemm<double>(l, ta, tb, m, n, k, alpha, a, lda, b, ldb, beta, c, ldc); }

typedef void* VSLConvTaskPtr;
enum { VSL_STATUS_OK = 0 };
enum { VSL_CONV_MODE_AUTO = 0, VSL_CONV_MODE_DIRECT = 1, VSL_CONV_MODE_FFT = 2 };
inline int vslsConvNewTask(VSLConvTaskPtr* task, int mode, int dims, const int* x, const int* y, const int* z) { return mkl_stand_in::new_task(task, 4, mode, dims, x, y, z); }
inline int vsldConvNewTask(VSLConvTaskPtr* task, int mode, int dims, const int* x, const int* y, const int* z) { return mkl_stand_in::new_task(task, 8, mode, dims, x, y, z); }
inline int vslConvSetStart(VSLConvTaskPtr task, const int* start) { mkl_stand_in::Task* t = (mkl_stand_in::Task*)task; if (t == NULL) { mkl_stand_in::reject(-5); return -1; } t->start.assign(start, start + t->dims); return 0; }
inline int vslConvSetDecimation(VSLConvTaskPtr task, const int* dec) {
	mkl_stand_in::Task* t = (mkl_stand_in::Task*)task;
	if (t == NULL) { mkl_stand_in::reject(-6); return -1; }
	for (int d = 0; d < t->dims; ++d) if (dec[d] < 1) { mkl_stand_in::reject(-7); return -1; }
	t->dec.assign(dec, dec + t->dims);
	return 0;
}
inline int vslsConvExec(VSLConvTaskPtr task, const float* x, const int* xs, const float* y, const int* ys, float* z, const int* zs) { return mkl_stand_in::exec<float>(task, x, xs, y, ys, z, zs); }
inline int vsldConvExec(VSLConvTaskPtr task, const double* x, const int* xs, const double* y, const int* ys, double* z, const int* zs) { return mkl_stand_in::exec<double>(task, x, xs, y, ys, z, zs); }
inline int vslConvDeleteTask(VSLConvTaskPtr* task) { if (*task != NULL) { delete (mkl_stand_in::Task*)*task; *task = NULL; --mkl_stand_in::counts().tasks; } return 0; }
inline void mkl_set_num_threads(int) {}
inline void mkl_set_dynamic(int) {}
