// modules: basiclog basicsys basicmath
// The matrix product and the convolution, with a stand-in for Intel MKL (config mkl): values, operands, memory and what the library asks of MKL.
#include "bench.h"
#if defined basicsys_enable_mkl
#include <mkl.h>
#include <omp.h>

static void mkl_check(Bench& b, const char* op) {
	long n = mkl_stand_in::counts().rejected.exchange(0);
	if (n != 0) b.fail(std::string(op) + "_rejected", vh::fmt("MKL rejects parameter %d of a call", mkl_stand_in::counts().last));
	if (mkl_stand_in::counts().tasks.exchange(0) != 0) b.fail(std::string(op) + "_task", "a convolution task was not released");
	vh::stat("calls_of_mkl", mkl_stand_in::counts().gemm.exchange(0) + mkl_stand_in::counts().conv.exchange(0));
}

// Element order of the model: row major, channels innermost.
static double at(const View& v, int e, int c) { return cell(v, e * v.ch + c); }
static int position(const std::vector<int>& sizes, const std::vector<int>& p) { int o = 0; for (size_t i = 0; i < sizes.size(); ++i) o = o * sizes[i] + p[i]; return o; }

// The matrix as it is, or one cut out of it, turned or flipped.
static View dressed(Bench& b, Rng& r, int rows, int cols, int ch, int depth) {
	int how = (int)r.in(0, 5), turn = r.chance(1, 3);
	int h = turn ? cols : rows, w = turn ? rows : cols;
	if (how < 2) { std::vector<int> s; s.push_back(h); s.push_back(w); View v = b.make(s, ch, depth); b.keep(v); if (turn) { View t = v; t.m = v.m.t(); t.sizes[0] = w; t.sizes[1] = h; for (int i = 0; i < h; ++i) for (int j = 0; j < w; ++j) for (int c = 0; c < ch; ++c) t.cells[(j * h + i) * ch + c] = v.cells[(i * w + j) * ch + c]; vh::stat("turned"); return t; } return v; }
	int y0 = (int)r.in(0, 2), x0 = (int)r.in(0, 2), c0 = (int)r.in(0, how == 2 ? 2 : 0);
	std::vector<int> s; s.push_back(h + y0 + (int)r.in(0, 2)); s.push_back(w + x0 + (int)r.in(0, 2));
	View big = b.make(s, ch + c0 + (how == 2 ? (int)r.in(0, 2) : 0), depth); b.keep(big);
	View v; v.depth = depth; v.ch = ch; v.sizes.push_back(h); v.sizes.push_back(w); v.store = big.store;
	v.m = big.m.sub(y0, y0 + h, 0).sub(x0, x0 + w, 1); if (big.ch != ch) { v.m = ch == 1 ? v.m.channel_at(c0) : v.m.sub_channel(c0, c0 + ch); vh::stat("some_channels"); }
	bool fy = how == 4 && r.chance(1, 2), fx = how == 4 && r.chance(1, 2);
	if (fy) v.m = v.m.flip(0); if (fx) v.m = v.m.flip(1); if (fy || fx) vh::stat("flipped");
	for (int i = 0; i < h; ++i) for (int j = 0; j < w; ++j) for (int c = 0; c < ch; ++c) v.cells.push_back(big.cells[((y0 + (fy ? h - 1 - i : i)) * s[1] + x0 + (fx ? w - 1 - j : j)) * big.ch + c0 + c]);
	vh::stat("cut_out");
	if (!turn) return v;
	View t = v; t.m = v.m.t(); t.sizes[0] = w; t.sizes[1] = h; vh::stat("turned");
	for (int i = 0; i < h; ++i) for (int j = 0; j < w; ++j) for (int c = 0; c < ch; ++c) t.cells[(j * h + i) * ch + c] = v.cells[(i * w + j) * ch + c];
	return t;
}
static void fill(Bench& b, Rng& r) {       // small whole numbers: every sum is exact in both depths
	for (size_t i = 0; i < cells().size(); ++i) cells()[i] = (double)r.in(-9, 9);
	for (size_t i = 0; i < b.views.size(); ++i) store_raw(b.views[i]);
}

static void prop_mul(Rng& r, long) {
	Bench b(r);
	int depth = r.chance(1, 2) ? mt_F32 : mt_F64, ch = r.chance(1, 3) ? (int)r.in(2, 4) : 1, big = r.chance(1, 30) ? 40 : 6;
	int m = r.chance(1, 4) ? 1 : (int)r.in(1, big), k = r.chance(1, 4) ? 1 : (int)r.in(1, big), n = r.chance(1, 4) ? 1 : (int)r.in(1, big);
	View a = dressed(b, r, m, k, ch, depth);
	bool same = k == m && k == n && r.chance(1, 4);
	View c = same ? a : dressed(b, r, k, n, ch, depth);
	fill(b, r);
	b.what = "product of " + shape(a) + " and " + shape(c);
	std::vector<double> want(m * n * ch, 0);
	for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) for (int q = 0; q < ch; ++q) for (int x = 0; x < k; ++x) want[(i * n + j) * ch + q] += at(a, i * k + x, q) * at(c, x * n + j, q);
	std::vector<int> sizes; sizes.push_back(m); sizes.push_back(n);
	mt_mat res = a.m.mul(c.m);
	equals(b, "mul", res, sizes, ch, depth, want);
	if (!b.bad && r.chance(1, 4)) {       // the result takes the place of an operand
		mt_mat x = a.m; x = x.mul(c.m); equals(b, "mul_assigned", x, sizes, ch, depth, want); vh::stat("assigned");
	}
	mkl_check(b, "mul");
	b.check("mul");
	vh::stat("products"); if (ch > 1) vh::stat("products_of_channels"); if (m == 1 || n == 1 || k == 1) vh::stat("products_with_vectors");
	vh::dist("nontrivial", vh::hash_str(b.what));
	if (r.chance(1, 200)) vh::sample(b.what);
}

static void prop_conv(Rng& r, long) {
	Bench b(r);
	int depth = r.chance(1, 2) ? mt_F32 : mt_F64;
	int dims = (int)r.in(0, 9); dims = dims == 0 ? 1 : dims <= 6 ? 2 : dims <= 8 ? 3 : (int)r.in(4, 6);
	int boundary = (int)r.in(0, 2), align = (int)r.in(0, 3);
	static const mt_Conv_Boundary_Type bounds[] = {mt_Conv_Boundary_Type_Valid, mt_Conv_Boundary_Type_Full, mt_Conv_Boundary_Type_Same};
	static const mt_Conv_Kernel_Align_Type aligns[] = {mt_Conv_Kernel_Align_Type_Row, mt_Conv_Kernel_Align_Type_Col, mt_Conv_Kernel_Align_Type_Cross_Row, mt_Conv_Kernel_Align_Type_Cross_Col};
	int S = r.chance(1, 2) ? 1 : (int)r.in(1, 4), R = r.chance(1, 2) ? 1 : (int)r.in(1, 4), many = r.chance(1, 12);
	if (many) { int w = (int)r.in(0, 2); if (w == 0) S = (int)r.in(15, 19); else if (w == 1) R = (int)r.in(15, 19); else { S = (int)r.in(4, 5); R = (int)r.in(4, 5); } }
	bool cross = align >= 2;
	int K = cross ? R : S * R, out = cross ? S * K : R;
	int hi = dims == 1 ? 12 : dims == 2 ? 6 : dims == 3 ? 4 : 2;
	if (many) hi = std::min(hi, 3);
	std::vector<int> sx(dims), sk(dims), st(dims, 1), full(dims), sz(dims), start(dims, 0);
	bool strided = r.chance(1, 2);
	for (int d = 0; d < dims; ++d) {
		sx[d] = (int)r.in(1, hi); sk[d] = (int)r.in(1, boundary == 0 ? sx[d] : r.chance(1, 4) ? hi : std::min(hi, 3));
		if (strided) st[d] = (int)r.in(1, 3);
		full[d] = sx[d] + sk[d] - 1;
		sz[d] = boundary == 0 ? sx[d] - sk[d] + 1 : boundary == 1 ? full[d] : sx[d];
		start[d] = boundary == 1 ? 0 : (full[d] - sz[d] + 1) / 2;
		sz[d] = (sz[d] - 1) / st[d] + 1;
	}
	bool two = dims == 2 && r.chance(1, 2);
	View x = two ? dressed(b, r, sx[0], sx[1], S, depth) : b.make(sx, S, depth);
	if (!two) b.keep(x);
	bool itself = sx == sk && S == K && r.chance(1, 3);
	View k = itself ? x : two ? dressed(b, r, sk[0], sk[1], K, depth) : b.make(sk, K, depth);
	if (!two && !itself) b.keep(k);
	fill(b, r);
	static const char* names[] = {"row", "col", "cross_row", "cross_col"};
	b.what = vh::fmt("convolution (boundary %d, alignment %s, strides", boundary, names[align]); for (int d = 0; d < dims; ++d) b.what += vh::fmt(" %d", st[d]); b.what += ") of " + shape(x) + " and " + shape(k);
	int n = 1; for (int d = 0; d < dims; ++d) n *= sz[d];
	std::vector<double> want(n * out, 0);
	int kn = k.elements();
	std::vector<int> idx(dims, 0);
	for (int e = 0; e < n; ++e) {
		std::vector<int> j(dims, 0), p(dims);
		for (int q = 0; q < kn; ++q) {
			bool in = true;
			for (int d = 0; d < dims; ++d) { p[d] = start[d] + idx[d] * st[d] - j[d]; in = in && p[d] >= 0 && p[d] < sx[d]; }
			if (in) {
				int xe = position(sx, p);
				if (!cross) for (int o = 0; o < R; ++o) for (int s = 0; s < S; ++s) want[e * out + o] += at(x, xe, s) * at(k, q, align == 0 ? s * R + o : o * S + s);
				else for (int s = 0; s < S; ++s) for (int c = 0; c < K; ++c) want[e * out + (align == 2 ? s * K + c : c * S + s)] += at(x, xe, s) * at(k, q, c);
			}
			next_index(j, sk);
		}
		next_index(idx, sz);
	}
	const int* strides = strided || r.chance(1, 2) ? &st[0] : NULL;
	int how = (int)r.in(0, 5);
	mt_mat res;
	if (how == 0) { x.m.conv(res, k.m, bounds[boundary], aligns[align], strides); vh::stat("into_empty"); }
	else if (how == 1) {                 // into the memory of the result, which may lie anywhere
		View old = b.make(sz, out, depth); res = old.m; b.keep(old);
		View& kept = b.views.back();
		x.m.conv(res, k.m, bounds[boundary], aligns[align], strides);
		for (int i = 0; i < n * out; ++i) cells()[kept.cells[i]] = want[i];
		vh::stat("into_matrix");
	} else if (how == 2) {               // the result replaces an operand
		if (r.chance(1, 2)) { res = x.m; res.conv(res, k.m, bounds[boundary], aligns[align], strides); vh::stat("into_source"); }
		else { res = k.m.clone(); x.m.conv(res, res, bounds[boundary], aligns[align], strides); vh::stat("into_kernel"); }
	} else res = x.m.conv(k.m, bounds[boundary], aligns[align], strides);
	mkl_check(b, "conv");
	equals(b, "conv", res, sz, out, depth, want);
	b.check("conv");
	vh::stat(vh::fmt("convolutions_%d", boundary)); vh::stat(std::string("align_") + names[align]); if (many) vh::stat("many_channels"); if (strided) vh::stat("strided"); if (itself) vh::stat("with_itself");
	vh::dist("nontrivial", vh::hash_str(b.what));
	if (r.chance(1, 200)) vh::sample(b.what);
}

int main(int argc, char** argv) {
	std::vector<vh::Prop> props;
	vh::Prop p[] = {{"mul", prop_mul}, {"conv", prop_conv}};
	props.assign(p, p + 2);
	return vh::run_main(argc, argv, props, setup_log, teardown_log);
}
#else
int main() { return 3; }
#endif
