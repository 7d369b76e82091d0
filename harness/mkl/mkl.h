// a stand-in for the part of MKL that the repository calls: the documented meaning, argument checks included, in plain loops
#pragma once
#include <vector>
typedef int MKL_INT;
enum CBLAS_LAYOUT { CblasRowMajor = 101, CblasColMajor = 102 };
enum CBLAS_TRANSPOSE { CblasNoTrans = 111, CblasTrans = 112, CblasConjTrans = 113 };
namespace mkl_standin {
	inline long& errors() { static long n = 0; return n; }
	inline long& tasks() { static long n = 0; return n; }   // convolution tasks alive
	inline int fail() { __atomic_add_fetch(&errors(), 1, __ATOMIC_RELAXED); return -1; }
	template<class T> void gemm(int layout, int ta, int tb, int m, int n, int k, T alpha, const T* a, int lda, const T* b, int ldb, T beta, T* c, int ldc) {
		if (layout != CblasRowMajor || m < 0 || n < 0 || k < 0) { fail(); return; }
		int wa = ta == CblasNoTrans ? k : m, wb = tb == CblasNoTrans ? n : k;
		if (lda < (wa > 1 ? wa : 1) || ldb < (wb > 1 ? wb : 1) || ldc < (n > 1 ? n : 1)) { fail(); return; }   // as xerbla: nothing is computed
		for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) {
			T s = 0;
			for (int l = 0; l < k; ++l) s += (ta == CblasNoTrans ? a[i * lda + l] : a[l * lda + i]) * (tb == CblasNoTrans ? b[l * ldb + j] : b[j * ldb + l]);
			c[i * ldc + j] = alpha * s + (beta == 0 ? 0 : beta * c[i * ldc + j]);
		}
	}
	struct Task { int depth; std::vector<int> x, y, z, step, start; };
	inline int new_task(void** t, int depth, int mode, int dims, const int* x, const int* y, const int* z) {
		*t = 0;
		if (dims < 1 || dims > 7 || mode < 0 || mode > 2) return fail();   // VSL takes at most seven dimensions
		for (int i = 0; i < dims; ++i) if (x[i] < 1 || y[i] < 1 || z[i] < 1) return fail();
		Task* k = new Task;
		k->depth = depth; k->x.assign(x, x + dims); k->y.assign(y, y + dims); k->z.assign(z, z + dims);
		k->step.assign(dims, 1); k->start.assign(dims, 0);
		*t = k;
		__atomic_add_fetch(&tasks(), 1, __ATOMIC_RELAXED);
		return 0;
	}
	// arrays are given by their lowest address: along a dimension with a negative stride the first element is the farthest
	template<class T> const T* at(const T* p, const std::vector<int>& n, const int* stride, const int* i) {
		for (size_t d = 0; d < n.size(); ++d) p += stride[d] < 0 ? (i[d] - (n[d] - 1)) * stride[d] : i[d] * stride[d];
		return p;
	}
	inline bool next(std::vector<int>& i, const std::vector<int>& n) {
		for (size_t d = n.size(); d-- > 0;) { if (++i[d] < n[d]) return true; i[d] = 0; }
		return false;
	}
	template<class T> int exec(void* t, int depth, const T* x, const int* xs, const T* y, const int* ys, T* z, const int* zs) {
		Task* k = (Task*)t;
		if (!k || k->depth != depth) return fail();
		size_t D = k->x.size();
		for (size_t d = 0; d < D; ++d) if (k->step[d] < 1 || k->start[d] < 0) return fail();
		std::vector<int> p(D, 0);
		do {
			T s = 0;
			std::vector<int> j(D, 0), i(D);
			do {
				bool in = true;
				for (size_t d = 0; d < D && in; ++d) { i[d] = k->start[d] + p[d] * k->step[d] - j[d]; in = i[d] >= 0 && i[d] < k->x[d]; }
				if (in) s += *at(x, k->x, xs, &i[0]) * *at(y, k->y, ys, &j[0]);
			} while (next(j, k->y));
			*const_cast<T*>(at((const T*)z, k->z, zs, &p[0])) = s;
		} while (next(p, k->z));
		return 0;
	}
}
inline void cblas_sgemm(CBLAS_LAYOUT l, CBLAS_TRANSPOSE ta, CBLAS_TRANSPOSE tb, MKL_INT m, MKL_INT n, MKL_INT k, float alpha, const float* a, MKL_INT lda, const float* b, MKL_INT ldb, float beta, float* c, MKL_INT ldc) { mkl_standin::gemm<float>(l, ta, tb, m, n, k, alpha, a, lda, b, ldb, beta, c, ldc); }
inline void cblas_dgemm(CBLAS_LAYOUT l, CBLAS_TRANSPOSE ta, CBLAS_TRANSPOSE tb, MKL_INT m, MKL_INT n, MKL_INT k, double alpha, const double* a, MKL_INT lda, const double* b, MKL_INT ldb, double beta, double* c, MKL_INT ldc) { mkl_standin::gemm<double>(l, ta, tb, m, n, k, alpha, a, lda, b, ldb, beta, c, ldc); }
typedef void* VSLConvTaskPtr;
enum { VSL_STATUS_OK = 0, VSL_CONV_MODE_AUTO = 0, VSL_CONV_MODE_DIRECT = 1, VSL_CONV_MODE_FFT = 2 };
inline int vslsConvNewTask(VSLConvTaskPtr* t, MKL_INT mode, MKL_INT dims, const MKL_INT* x, const MKL_INT* y, const MKL_INT* z) { return mkl_standin::new_task(t, 4, mode, dims, x, y, z); }
inline int vsldConvNewTask(VSLConvTaskPtr* t, MKL_INT mode, MKL_INT dims, const MKL_INT* x, const MKL_INT* y, const MKL_INT* z) { return mkl_standin::new_task(t, 8, mode, dims, x, y, z); }
inline int vslConvSetStart(VSLConvTaskPtr t, const MKL_INT* start) { mkl_standin::Task* k = (mkl_standin::Task*)t; if (!k) return mkl_standin::fail(); k->start.assign(start, start + k->x.size()); return 0; }
inline int vslConvSetDecimation(VSLConvTaskPtr t, const MKL_INT* step) { mkl_standin::Task* k = (mkl_standin::Task*)t; if (!k) return mkl_standin::fail(); k->step.assign(step, step + k->x.size()); return 0; }
inline int vslsConvExec(VSLConvTaskPtr t, const float* x, const MKL_INT* xs, const float* y, const MKL_INT* ys, float* z, const MKL_INT* zs) { return mkl_standin::exec<float>(t, 4, x, xs, y, ys, z, zs); }
inline int vsldConvExec(VSLConvTaskPtr t, const double* x, const MKL_INT* xs, const double* y, const MKL_INT* ys, double* z, const MKL_INT* zs) { return mkl_standin::exec<double>(t, 8, x, xs, y, ys, z, zs); }
inline int vslConvDeleteTask(VSLConvTaskPtr* t) { if (!*t) return mkl_standin::fail(); delete (mkl_standin::Task*)*t; *t = 0; __atomic_sub_fetch(&mkl_standin::tasks(), 1, __ATOMIC_RELAXED); return 0; }
inline void mkl_set_num_threads(int) {}
inline void mkl_set_dynamic(int) {}
