// modules: basiclog basicsys basicmath
// Automatic derivatives: programs of matrix operations are recorded by the library and, scalar by scalar, by a model; gradients are compared.
#include "bench.h"

struct Edge { int to; double d; };
struct Scalar { double v; std::vector<Edge> in; };

struct Var {
	mt_mat m; std::vector<int> sizes; int ch; std::vector<int> ids;
	std::vector<int> from;      // variables it was computed from
	bool dropped, recorded;
	const u8* data; std::vector<int> steps;   // how the library recognises it
	Var() : ch(1), dropped(false), recorded(false), data(NULL) {}
	void identify() { const mt_mat& c = m; data = c.data(); steps.assign(c.step(), c.step() + c.dim()); }
	int elements() const { int n = 1; for (size_t i = 0; i < sizes.size(); ++i) n *= sizes[i]; return n; }
};

static std::vector<int> index_of(const std::vector<int>& sizes, int e) { std::vector<int> p(sizes.size()); for (int i = (int)sizes.size() - 1; i >= 0; --i) { p[i] = e % sizes[i]; e /= sizes[i]; } return p; }
static int offset_of(const std::vector<int>& sizes, const std::vector<int>& p) { int o = 0; for (size_t i = 0; i < sizes.size(); ++i) o = o * sizes[i] + p[i]; return o; }
static int count_of(const std::vector<int>& sizes) { int n = 1; for (size_t i = 0; i < sizes.size(); ++i) n *= sizes[i]; return n; }
static std::string dims_str(const std::vector<int>& s, int ch) { std::string t; for (size_t i = 0; i < s.size(); ++i) t += vh::fmt(i ? "x%d" : "%d", s[i]); return t + vh::fmt("c%d", ch); }

struct Tape {
	Rng& r; Bench& b; int depth; double tol;
	mt_auto_derivative* ad;
	std::vector<Scalar> s;
	std::vector<Var> v;
	std::vector<int> leaves;
	std::string text;
	Tape(Rng& rr, Bench& bb, int d) : r(rr), b(bb), depth(d), tol(d == mt_F32 ? 2e-4 : 1e-9), ad(NULL) {}

	double val(const Var& x, int i) const { return s[x.ids[i]].v; }
	double rounded(double x) const { return depth == mt_F32 ? (double)(float)x : x; }

	// One value for every element: value and derivatives with respect to scalars.
	struct New { std::vector<Scalar> out; std::vector<int> sizes; int ch; std::vector<int> from; };
	bool sane(const New& n) const {
		for (size_t i = 0; i < n.out.size(); ++i) {
			if (!(fabs(n.out[i].v) < 50)) return false;
			for (size_t k = 0; k < n.out[i].in.size(); ++k) if (!(fabs(n.out[i].in[k].d) < 50)) return false;
		}
		return true;
	}
	static New& point(New& n, double v) { Scalar x; x.v = v; n.out.push_back(x); return n; }
	static void edge(New& n, int to, double d) { Edge e; e.to = to; e.d = d; n.out.back().in.push_back(e); }

	// The same memory seen in the same way is the same variable.
	int alias(const mt_mat& m) const {
		for (size_t i = 0; i < v.size(); ++i) {
			const Var& o = v[i];
			if (o.data != m.data() || (int)o.sizes.size() != m.dim() || o.ch != m.channel()) continue;
			bool same = true;
			for (int d = 0; d < m.dim(); ++d) same = same && o.sizes[d] == m.size()[d] && o.steps[d] == m.step()[d];
			if (same) return (int)i;
		}
		return -1;
	}
	int commit(const char* op, const mt_mat& m, New& n) {
		std::vector<double> want; for (size_t i = 0; i < n.out.size(); ++i) want.push_back(n.out[i].v);
		vh::stat(std::string("op_") + op);
		text += vh::fmt(" v%d=%s(", (int)v.size(), op); for (size_t i = 0; i < n.from.size(); ++i) text += vh::fmt(i ? ",v%d" : "v%d", n.from[i]); text += ")" + dims_str(n.sizes, n.ch);
		b.what = text;
		if (!equals(b, "forward", m, n.sizes, n.ch, depth, want, depth == mt_F32 ? 1e-3 : 1e-9)) return -1;
		Var x; x.m = m; x.sizes = n.sizes; x.ch = n.ch; x.from = n.from; x.recorded = true; x.identify();
		for (size_t i = 0; i < n.from.size(); ++i) v[n.from[i]].recorded = true;
		int a = alias(m);
		if (a >= 0) { vh::stat("alias"); x.ids = v[a].ids; x.from.assign(1, a); alias_of[(int)v.size()] = a; }
		else for (size_t i = 0; i < n.out.size(); ++i) { x.ids.push_back((int)s.size()); s.push_back(n.out[i]); }
		v.push_back(x);
		return (int)v.size() - 1;
	}
	std::map<int, int> alias_of;
	int real(int i) const { std::map<int, int>::const_iterator k = alias_of.find(i); return k == alias_of.end() ? i : k->second; }

	bool reaches(int src, int target) const {     // is target used on the way to src?
		src = real(src); target = real(target);
		if (src == target) return true;
		std::vector<char> seen(v.size(), 0); std::vector<int> todo(1, src);
		while (!todo.empty()) {
			int i = todo.back(); todo.pop_back();
			if (i == target) return true;
			if (seen[i]) continue;
			seen[i] = 1;
			for (size_t k = 0; k < v[i].from.size(); ++k) todo.push_back(real(v[i].from[k]));
		}
		return false;
	}
	// Gradient of the sum of src's elements; scale: the same with absolute values.
	void gradient(int src, std::vector<double>& g, std::vector<double>& scale) const {
		g.assign(s.size(), 0); scale = g;
		for (size_t i = 0; i < v[src].ids.size(); ++i) { g[v[src].ids[i]] += 1; scale[v[src].ids[i]] += 1; }
		for (int i = (int)s.size() - 1; i >= 0; --i) if (scale[i] != 0) for (size_t k = 0; k < s[i].in.size(); ++k) { g[s[i].in[k].to] += g[i] * s[i].in[k].d; scale[s[i].in[k].to] += scale[i] * fabs(s[i].in[k].d); }
	}

	bool compare(const mt_mat& got, int target, const std::vector<int>& srcs) {
		bool any = false;
		std::vector<double> want(v[target].ids.size(), 0), scale(want);
		for (size_t k = 0; k < srcs.size(); ++k) {
			if (!reaches(srcs[k], target)) continue;
			any = true;
			std::vector<double> g, sc; gradient(srcs[k], g, sc);
			for (size_t i = 0; i < want.size(); ++i) { want[i] += g[v[target].ids[i]]; scale[i] += sc[v[target].ids[i]]; }
		}
		b.what = text + vh::fmt(" ; derivative of v%d", srcs[0]); if (srcs.size() > 1) b.what += vh::fmt(" and %d more", (int)srcs.size() - 1); b.what += vh::fmt(" with respect to v%d", target);
		vh::stat("evaluations"); vh::stat("derivatives");
		if (!any) { vh::stat("unrelated"); if (!got.is_empty()) { b.fail("derivative_unrelated", "a matrix although the source does not depend on the target"); return false; } return true; }
		for (size_t i = 0; i < scale.size(); ++i) if (scale[i] > 1e5) { vh::stat("ill_conditioned"); return true; }
		if (got.is_empty()) { b.fail("derivative_empty", "no derivative"); return false; }
		const Var& t = v[target];
		if (got.dim() != (int)t.sizes.size() || got.channel() != t.ch || got.depth() != depth) { b.fail("derivative_shape", vh::fmt("the derivative has %d dimensions, %d channels", got.dim(), got.channel())); return false; }
		for (int i = 0; i < got.dim(); ++i) if (got.size()[i] != t.sizes[i]) { b.fail("derivative_shape", vh::fmt("size[%d] of the derivative is %d", i, got.size()[i])); return false; }
		if (got.auto_derivative() != NULL) { b.fail("derivative_attached", "the derivative itself is attached"); return false; }
		std::vector<int> idx(t.sizes.size(), 0);
		for (int e = 0; e < t.elements(); ++e) {
			const u8* p = addr(got, idx);
			for (int c = 0; c < t.ch; ++c) {
				double x = load(p + c * esize(depth), depth), y = want[e * t.ch + c];
				if (!(fabs(x - y) <= tol * std::max(1.0, scale[e * t.ch + c]))) { b.fail("derivative_value", vh::fmt("element %d channel %d is %.12g, expected %.12g", e, c, x, y)); return false; }
			}
			next_index(idx, t.sizes);
		}
		vh::stat("elements_compared", (long long)want.size());
		vh::dist("nontrivial", vh::hash_str(b.what));
		return true;
	}

	int pick() { for (int k = 0; k < 20; ++k) { int i = (int)r.in(r.chance(1, 2) ? (int64_t)v.size() * 2 / 3 : 0, (int64_t)v.size() - 1); if (!v[i].dropped) return i; } for (size_t i = 0; i < v.size(); ++i) if (!v[i].dropped) return (int)i; return 0; }

	int leaf(const std::vector<int>& sizes, int ch, double lo_v, double hi_v) {
		View a = b.make(sizes, ch, depth);
		Var x; x.sizes = sizes; x.ch = ch;
		for (size_t i = 0; i < a.cells.size(); ++i) cells()[a.cells[i]] = (double)r.in((int64_t)(lo_v * 64), (int64_t)(hi_v * 64)) / 64;
		b.keep(a);
		for (size_t i = 0; i < a.cells.size(); ++i) { Scalar k; k.v = cells()[a.cells[i]]; x.ids.push_back((int)s.size()); s.push_back(k); }
		x.m = a.m; x.identify();
		if (r.chance(1, 2)) ad->attach(x.m); else { std::vector<mt_mat> l(1, x.m); ad->attach(l); x.m = l[0]; }
		v.push_back(x);
		leaves.push_back((int)v.size() - 1);
		text += vh::fmt(" v%d=leaf %s", (int)v.size() - 1, dims_str(sizes, ch).c_str());
		return (int)v.size() - 1;
	}

	bool step();
	bool products(bool conv, int ia);
	bool query();
};

#if defined basicsys_enable_mkl
// The matrix product and the convolution, which need MKL.
bool Tape::products(bool conv, int ia) {
	Var a = v[ia];
	int dims = (int)a.sizes.size(), n = a.elements(), ch = a.ch;
	New w; w.sizes = a.sizes; w.ch = ch; w.from.push_back(ia);
	if (!conv) {
		if (dims != 2) return false;
		bool left = r.chance(1, 2);
		int m = a.sizes[0], k = a.sizes[1], other = (int)r.in(1, 4);
		std::vector<int> bs(2); bs[0] = left ? k : other; bs[1] = left ? other : m;
		int ib = -1;
		for (size_t i = 0; i < v.size(); ++i) if (!v[i].dropped && v[i].sizes.size() == 2 && v[i].ch == ch && (left ? v[i].sizes[0] == k : v[i].sizes[1] == m) && r.chance(1, 2)) ib = (int)i;
		if (ib < 0) ib = leaf(bs, ch, -2, 2);
		Var c = v[ib];
		if (left) w.from.push_back(ib); else w.from.insert(w.from.begin(), ib);
		const Var &x = left ? a : c, &y = left ? c : a;
		w.sizes[0] = x.sizes[0]; w.sizes[1] = y.sizes[1]; k = x.sizes[1];
		for (int i = 0; i < w.sizes[0]; ++i) for (int j = 0; j < w.sizes[1]; ++j) for (int q = 0; q < ch; ++q) {
			double t = 0; for (int p = 0; p < k; ++p) t += val(x, (i * k + p) * ch + q) * val(y, (p * w.sizes[1] + j) * ch + q);
			point(w, t);
			for (int p = 0; p < k; ++p) { int e = (i * k + p) * ch + q, f = (p * w.sizes[1] + j) * ch + q; edge(w, x.ids[e], val(y, f)); edge(w, y.ids[f], val(x, e)); }
		}
		if (!sane(w)) return false;
		if (ib == ia) vh::stat("same_operand");
		commit(ch > 1 ? "mul_channels" : "mul", x.m.mul(y.m), w);
		return true;
	}
	if (dims > 6) return false;
	std::vector<int> ks(dims), st(dims, 1); int out = (int)r.in(1, 3); bool strided = r.chance(1, 2); int align = (int)r.in(0, ch == 1 ? 3 : 1);     // a kernel which crosses the channels is supported for one channel only
	for (int d = 0; d < dims; ++d) { ks[d] = (int)r.in(1, std::min(3, a.sizes[d])); if (strided) st[d] = (int)r.in(1, 3); }
	int ib = -1;
	for (size_t i = 0; i < v.size(); ++i) if (!v[i].dropped && (int)v[i].sizes.size() == dims && v[i].ch % ch == 0 && v[i].ch <= 4 * ch && r.chance(1, 2)) { bool fits = true; for (int d = 0; d < dims; ++d) fits = fits && v[i].sizes[d] <= a.sizes[d]; if (fits) ib = (int)i; }
	if (ib < 0) ib = leaf(ks, ch * out, -2, 2);
	Var c = v[ib];
	ks = c.sizes; out = c.ch / ch;
	w.from.push_back(ib); w.ch = out;
	for (int d = 0; d < dims; ++d) w.sizes[d] = (a.sizes[d] - ks[d]) / st[d] + 1;
	if (count_of(w.sizes) * out > 150) return false;
	for (int e = 0; e < count_of(w.sizes); ++e) for (int o = 0; o < out; ++o) {
		std::vector<int> p = index_of(w.sizes, e); double t = 0; std::vector<std::pair<int, int> > at;
		for (int f = 0; f < c.elements(); ++f) {
			std::vector<int> q = index_of(ks, f); for (int d = 0; d < dims; ++d) q[d] = p[d] * st[d] + ks[d] - 1 - q[d];
			int x = offset_of(a.sizes, q);
			for (int i = 0; i < ch; ++i) { at.push_back(std::make_pair(x * ch + i, f * c.ch + (align == 1 ? o * ch + i : i * out + o))); t += val(a, at.back().first) * val(c, at.back().second); }
		}
		point(w, t);
		for (size_t i = 0; i < at.size(); ++i) { edge(w, a.ids[at[i].first], val(c, at[i].second)); edge(w, c.ids[at[i].second], val(a, at[i].first)); }
	}
	(void)n;
	if (!sane(w)) return false;
	if (ib == ia) vh::stat("same_operand");
	static const mt_Conv_Kernel_Align_Type aligns[] = {mt_Conv_Kernel_Align_Type_Row, mt_Conv_Kernel_Align_Type_Col, mt_Conv_Kernel_Align_Type_Cross_Row, mt_Conv_Kernel_Align_Type_Cross_Col};
	if (align == 1 && ch > 1) vh::stat("conv_by_columns");
	commit(strided ? "conv_strided" : "conv", a.m.conv(c.m, mt_Conv_Boundary_Type_Valid, aligns[align], strided ? &st[0] : NULL), w);
	return true;
}
#endif

// Computes one more variable; false if this choice was not possible.
bool Tape::step() {
	int ia = pick(); Var a = v[ia];
	int dims = (int)a.sizes.size(), n = a.elements(), ch = a.ch;
	New w; w.sizes = a.sizes; w.ch = ch; w.from.push_back(ia);
#if defined basicsys_enable_mkl
	int kind = (int)r.in(0, 31);
	if (kind >= 24) return products(kind >= 28, ia);
#else
	int kind = (int)r.in(0, 23);
#endif
	if (kind <= 3) {                                   // two matrices
		std::vector<int> l; for (size_t i = 0; i < v.size(); ++i) if (!v[i].dropped && v[i].sizes == a.sizes && v[i].ch == ch) l.push_back((int)i);
		int ib = r.chance(1, 6) ? ia : l[r.next() % l.size()]; Var c = v[ib];
		w.from.push_back(ib);
		for (int i = 0; i < n * ch; ++i) {
			double x = val(a, i), y = val(c, i);
			if (kind == 3 && fabs(y) < 0.2) return false;
			point(w, kind == 0 ? x + y : kind == 1 ? x - y : kind == 2 ? x * y : x / y);
			edge(w, a.ids[i], kind == 0 || kind == 1 ? 1 : kind == 2 ? y : 1 / y);
			edge(w, c.ids[i], kind == 0 ? 1 : kind == 1 ? -1 : kind == 2 ? x : -x / (y * y));
		}
		if (!sane(w)) return false;
		static const char* names[] = {"add", "subtract", "multiply", "divide"};
		if (ib == ia) vh::stat("same_operand");
		commit(names[kind], kind == 0 ? a.m + c.m : kind == 1 ? a.m - c.m : kind == 2 ? a.m * c.m : a.m / c.m, w);
	} else if (kind <= 5) {                            // with constants
		int op = (int)r.in(0, 3), how = (int)r.in(0, 3);   // 0 number, 1 vector, 2 scalar, 3 number on the left
		if (how == 2 && ch > 4) how = 1;
		std::vector<double> k(ch); for (int c = 0; c < ch; ++c) { k[c] = (double)r.in(-24, 24) / 8; if (fabs(k[c]) < 0.2) k[c] = 1; }
		if (how == 0 || how == 3) k.assign(ch, k[0]);
		for (int i = 0; i < n * ch; ++i) {
			double x = val(a, i), y = k[i % ch];
			if (how == 3) {
				if (op == 3 && fabs(x) < 0.2) return false;
				point(w, op == 0 ? y + x : op == 1 ? y - x : op == 2 ? y * x : y / x);
				edge(w, a.ids[i], op == 0 ? 1 : op == 1 ? -1 : op == 2 ? y : -y / (x * x));
			} else {
				point(w, op == 0 ? x + y : op == 1 ? x - y : op == 2 ? x * y : x / y);
				edge(w, a.ids[i], op <= 1 ? 1 : op == 2 ? y : 1 / y);
			}
		}
		if (!sane(w)) return false;
		mt_scalar sc; for (int c = 0; c < ch && c < 4; ++c) sc[c] = k[c];
		mt_mat m;
		if (how == 0) m = op == 0 ? a.m + k[0] : op == 1 ? a.m - k[0] : op == 2 ? a.m * k[0] : a.m / k[0];
		else if (how == 1) m = op == 0 ? a.m + k : op == 1 ? a.m - k : op == 2 ? a.m * k : a.m / k;
		else if (how == 2) m = op == 0 ? a.m + sc : op == 1 ? a.m - sc : op == 2 ? a.m * sc : a.m / sc;
		else m = op == 0 ? k[0] + a.m : op == 1 ? k[0] - a.m : op == 2 ? k[0] * a.m : k[0] / a.m;
		static const char* names[] = {"add_const", "subtract_const", "multiply_const", "divide_const"}, *left[] = {"const_add", "const_subtract", "const_multiply", "const_divide"};
		commit(how == 3 ? left[op] : names[op], m, w);
	} else if (kind == 6) {
		for (int i = 0; i < n * ch; ++i) { point(w, -val(a, i)); edge(w, a.ids[i], -1); }
		commit("minus", -a.m, w);
	} else if (kind <= 8) {                            // bias
		int op = (int)r.in(0, 3), how = (int)r.in(0, 2);
		std::vector<int> bs(a.sizes);
		for (int i = 0; i < dims; ++i) {
			if (how == 0) bs[i] = 1;
			else if (how == 1) { if (i == 0) bs[i] = 1; }
			else { std::vector<int> d; for (int k = 1; k <= a.sizes[i]; ++k) if (a.sizes[i] % k == 0) d.push_back(k); bs[i] = d[r.next() % d.size()]; }
		}
		int ib = -1;
		for (size_t i = 0; i < v.size(); ++i) if (!v[i].dropped && v[i].sizes == bs && v[i].ch == ch && r.chance(1, 2)) ib = (int)i;
		if (ib < 0) ib = leaf(bs, ch, 0.5, 3);
		Var c = v[ib];
		w.from.push_back(ib);
		for (int i = 0; i < n * ch; ++i) {
			std::vector<int> p = index_of(a.sizes, i / ch); for (int d = 0; d < dims; ++d) p[d] %= bs[d];
			int j = offset_of(bs, p) * ch + i % ch;
			double x = val(a, i), y = val(c, j);
			if (op == 3 && fabs(y) < 0.2) return false;
			point(w, op == 0 ? x + y : op == 1 ? x - y : op == 2 ? x * y : x / y);
			edge(w, a.ids[i], op <= 1 ? 1 : op == 2 ? y : 1 / y);
			edge(w, c.ids[j], op == 0 ? 1 : op == 1 ? -1 : op == 2 ? x : -x / (y * y));
		}
		if (!sane(w)) return false;
		static const char* names[] = {"add_bias", "substract_bias", "mul_bias", "div_bias"};
		commit(names[op], op == 0 ? a.m.add_bias(c.m) : op == 1 ? a.m.substract_bias(c.m) : op == 2 ? a.m.mul_bias(c.m) : a.m.div_bias(c.m), w);
	} else if (kind == 9) {                            // functions
		int f = (int)r.in(0, 3);
		double p = (double)r.in(-6, 8) / 2, base = r.chance(1, 2) ? mt_E : (double)r.in(2, 10);
		if (f == 1 && r.chance(1, 3)) p = (double)r.in(1, 3);
		for (int i = 0; i < n * ch; ++i) {
			double x = val(a, i);
			if (f == 0) { if (x > 4) return false; point(w, exp(x)); edge(w, a.ids[i], exp(x)); }
			else if (f == 1) { bool whole = p == floor(p) && p >= 1; if (!whole && x < 0.2) return false; point(w, pow(x, p)); edge(w, a.ids[i], p == 1 ? 1 : p * pow(x, p - 1)); }
			else if (f == 2) { if (x < 0.2) return false; point(w, log(x) / log(base)); edge(w, a.ids[i], 1 / (x * log(base))); }
			else { if (fabs(x) < 0.01) return false; point(w, fabs(x)); edge(w, a.ids[i], x > 0 ? 1 : -1); }
		}
		if (!sane(w)) return false;
		static const char* names[] = {"exp", "pow", "log", "abs"};
		commit(names[f], f == 0 ? a.m.exp() : f == 1 ? a.m.pow(p) : f == 2 ? a.m.log(base) : a.m.abs(), w);
	} else if (kind == 10) {                           // activations
		int f = (int)r.in(0, 4);
		std::vector<double> par; double p1 = 0, p2 = 0;
		if (f == 2) { p1 = mt_Tanh_Default_Alpha; p2 = mt_Tanh_Default_Beta; if (r.chance(1, 2)) { par.push_back(p1 = (double)r.in(4, 16) / 8); par.push_back(p2 = (double)r.in(4, 16) / 8); } }
		if (f == 3 && r.chance(1, 2)) par.push_back(p1 = (double)r.in(1, 8) / 8);
		if (f == 4 && (dims != 2 || ch != 1)) return false;
		for (int i = 0; i < n * ch; ++i) {
			double x = val(a, i);
			if (f == 0) { point(w, x); edge(w, a.ids[i], 1); }
			else if (f == 1) { double y = 1 / (1 + exp(-x)); point(w, y); edge(w, a.ids[i], y * (1 - y)); }
			else if (f == 2) { double y = tanh(p2 * x); point(w, p1 * y); edge(w, a.ids[i], p1 * p2 * (1 - y * y)); }
			else if (f == 3) { if (fabs(x) < 0.01) return false; point(w, x > 0 ? x : p1 * x); edge(w, a.ids[i], x > 0 ? 1 : p1); }
			else {
				int row = i / a.sizes[1], cols = a.sizes[1]; double m = -1e300, t = 0;
				for (int c = 0; c < cols; ++c) m = std::max(m, val(a, row * cols + c));
				for (int c = 0; c < cols; ++c) t += exp(val(a, row * cols + c) - m);
				double y = exp(x - m) / t;
				point(w, y);
				for (int c = 0; c < cols; ++c) { double z = exp(val(a, row * cols + c) - m) / t; edge(w, a.ids[row * cols + c], (row * cols + c == i ? y : 0) - y * z); }
			}
		}
		static const mt_Activate_Type types[] = {mt_Activate_Type_Linear, mt_Activate_Type_Sigmoid, mt_Activate_Type_Tanh, mt_Activate_Type_Relu, mt_Activate_Type_Softmax};
		static const char* names[] = {"linear", "sigmoid", "tanh", "relu", "softmax"};
		commit(names[f], par.empty() ? a.m.activate(types[f]) : a.m.activate(types[f], par), w);
	} else if (kind <= 12) {                           // part of the elements
		std::vector<mt_range> g(dims);
		int how = (int)r.in(0, 3), dim = (int)r.in(0, dims - 1);
		for (int d = 0; d < dims; ++d) {
			g[d].m_start = 0; g[d].m_end = a.sizes[d];
			if (how == 0 || d == dim) { g[d].m_start = (int)r.in(0, a.sizes[d] - 1); g[d].m_end = how == 2 ? g[d].m_start + 1 : (int)r.in(g[d].m_start + 1, a.sizes[d]); }
			if (how == 3 && d == dim) g[d].m_start = 0;
			w.sizes[d] = g[d].m_end - g[d].m_start;
		}
		for (int e = 0; e < count_of(w.sizes); ++e) {
			std::vector<int> p = index_of(w.sizes, e); for (int d = 0; d < dims; ++d) p[d] += g[d].m_start;
			for (int c = 0; c < ch; ++c) { int j = offset_of(a.sizes, p) * ch + c; point(w, val(a, j)); edge(w, a.ids[j], 1); }
		}
		commit("sub", how == 0 ? a.m.sub(g) : how == 1 ? a.m.sub(g[dim].m_start, g[dim].m_end, dim) : how == 2 ? a.m.index(g[dim].m_start, dim) : a.m.front(g[dim].m_end, dim), w);
	} else if (kind == 13) {
		int c0 = (int)r.in(0, ch - 1), c1 = (int)r.in(c0 + 1, ch);
		if (ch == 1) return false;
		w.ch = c1 - c0;
		for (int e = 0; e < n; ++e) for (int c = c0; c < c1; ++c) { point(w, val(a, e * ch + c)); edge(w, a.ids[e * ch + c], 1); }
		commit("sub_channel", c1 == c0 + 1 && r.chance(1, 2) ? a.m.channel_at(c0) : a.m.sub_channel(c0, c1), w);
	} else if (kind == 14) {
		std::vector<int> s1(dims), s2(dims); std::vector<double> f(ch, 0);
		for (int d = 0; d < dims; ++d) { s1[d] = (int)r.in(0, 2); s2[d] = (int)r.in(0, 2); w.sizes[d] += s1[d] + s2[d]; }
		if (r.chance(1, 2)) for (int c = 0; c < ch; ++c) f[c] = (double)r.in(-3, 3);
		if (count_of(w.sizes) * ch > 150) return false;
		for (int e = 0; e < count_of(w.sizes); ++e) {
			std::vector<int> p = index_of(w.sizes, e); bool in = true;
			for (int d = 0; d < dims; ++d) { p[d] -= s1[d]; in = in && p[d] >= 0 && p[d] < a.sizes[d]; }
			for (int c = 0; c < ch; ++c) if (in) { int j = offset_of(a.sizes, p) * ch + c; point(w, val(a, j)); edge(w, a.ids[j], 1); } else point(w, f[c]);
		}
		commit("expand", a.m.expand(dims, &s1[0], &s2[0], f), w);
	} else if (kind == 15) {
		std::vector<int> k(dims); int nc = (int)r.in(1, 2);
		for (int d = 0; d < dims; ++d) { k[d] = (int)r.in(1, 2); w.sizes[d] *= k[d]; }
		w.ch = ch * nc;
		if (count_of(w.sizes) * w.ch > 150) return false;
		for (int e = 0; e < count_of(w.sizes); ++e) {
			std::vector<int> p = index_of(w.sizes, e); for (int d = 0; d < dims; ++d) p[d] %= a.sizes[d];
			for (int c = 0; c < w.ch; ++c) { int j = offset_of(a.sizes, p) * ch + c % ch; point(w, val(a, j)); edge(w, a.ids[j], 1); }
		}
		commit("repeat", a.m.repeat(k, nc), w);
	} else if (kind == 16) {
		std::vector<b8> f(dims); std::vector<int> l;
		int how = (int)r.in(0, 2), dim = (int)r.in(0, dims - 1);
		for (int d = 0; d < dims; ++d) { f[d] = how == 2 ? d == dim : r.chance(1, 2); if (f[d]) l.push_back(d); }
		if (how == 1 && l.empty()) return false;
		for (int e = 0; e < n; ++e) {
			std::vector<int> p = index_of(a.sizes, e); for (int d = 0; d < dims; ++d) if (f[d]) p[d] = a.sizes[d] - 1 - p[d];
			for (int c = 0; c < ch; ++c) { int j = offset_of(a.sizes, p) * ch + c; point(w, val(a, j)); edge(w, a.ids[j], 1); }
		}
		commit("flip", how == 0 ? a.m.flip(f) : how == 1 ? a.m.flip(l) : a.m.flip(dim), w);
	} else if (kind == 17) {
		if (!a.m.is_continuous() || !a.m.is_step_positive()) return false;
		int total = n * ch, nd = (int)r.in(1, 4), rest = total;
		w.ch = 1;
		if (r.chance(1, 2)) { w.ch = ch; rest = n; } else { std::vector<int> d; for (int k = 1; k <= std::min(total, 6); ++k) if (total % k == 0) d.push_back(k); w.ch = d[r.next() % d.size()]; rest = total / w.ch; }
		w.sizes.assign(nd, 1);
		for (int d = 0; d < nd; ++d) { std::vector<int> q; for (int k = 1; k <= rest; ++k) if (rest % k == 0) q.push_back(k); w.sizes[d] = d == nd - 1 ? rest : q[r.next() % q.size()]; rest /= w.sizes[d]; }
		for (int i = 0; i < total; ++i) { point(w, val(a, i)); edge(w, a.ids[i], 1); }
		commit("reshape", w.ch == ch && r.chance(1, 2) ? a.m.reshape(w.sizes) : a.m.reshape(w.sizes, w.ch), w);
	} else if (kind == 18) {
		std::vector<int> k(dims);
		for (int d = 0; d < dims; ++d) { k[d] = (int)r.in(1, 3); w.sizes[d] = (a.sizes[d] + k[d] - 1) / k[d]; }
		for (int e = 0; e < count_of(w.sizes); ++e) {
			std::vector<int> p = index_of(w.sizes, e); for (int d = 0; d < dims; ++d) p[d] *= k[d];
			for (int c = 0; c < ch; ++c) { int j = offset_of(a.sizes, p) * ch + c; point(w, val(a, j)); edge(w, a.ids[j], 1); }
		}
		commit("sub_stride", a.m.sub_stride(dims, &k[0]), w);
	} else if (kind == 19) {                           // pooling
		std::vector<int> k(dims), st(dims); int type = (int)r.in(0, 4);
		for (int d = 0; d < dims; ++d) {
			k[d] = (int)r.in(1, std::min(3, a.sizes[d])); st[d] = (int)r.in(1, 3);
			int m = 0; for (int p = 0; p < a.sizes[d]; p += st[d]) { ++m; if (p + k[d] >= a.sizes[d]) break; } w.sizes[d] = m;
		}
		for (int e = 0; e < count_of(w.sizes); ++e) {
			std::vector<int> p = index_of(w.sizes, e), ks(dims); for (int d = 0; d < dims; ++d) { p[d] *= st[d]; ks[d] = std::min(k[d], a.sizes[d] - p[d]); }
			for (int c = 0; c < ch; ++c) {
				std::vector<int> in;
				for (int f = 0; f < count_of(ks); ++f) { std::vector<int> q = index_of(ks, f); for (int d = 0; d < dims; ++d) q[d] += p[d]; in.push_back(offset_of(a.sizes, q) * ch + c); }
				if (type <= 1) { double t = 0; for (size_t i = 0; i < in.size(); ++i) t += val(a, in[i]); double f = type == 0 ? 1.0 / in.size() : 1; point(w, t * f); for (size_t i = 0; i < in.size(); ++i) edge(w, a.ids[in[i]], f); }
				else if (type == 4) { point(w, val(a, in[0])); edge(w, a.ids[in[0]], 1); }
				else {
					int best = in[0]; for (size_t i = 1; i < in.size(); ++i) if (type == 2 ? val(a, in[i]) > val(a, best) : val(a, in[i]) < val(a, best)) best = in[i];
					for (size_t i = 0; i < in.size(); ++i) if (in[i] != best && fabs(val(a, in[i]) - val(a, best)) < 0.01) return false;
					point(w, val(a, best)); edge(w, a.ids[best], 1);
				}
			}
		}
		if (!sane(w)) return false;
		static const mt_Pooling_Type types[] = {mt_Pooling_Type_Mean, mt_Pooling_Type_Sum, mt_Pooling_Type_Max, mt_Pooling_Type_Min, mt_Pooling_Type_First_Value};
		static const char* names[] = {"pooling_mean", "pooling_sum", "pooling_max", "pooling_min", "pooling_first"};
		mt_mat mask;
		commit(names[type], r.chance(1, 2) ? a.m.pooling(mask, types[type], k, st) : a.m.pooling(types[type], k, st), w);
	} else if (kind == 20) {                           // losses
		bool quad = r.chance(1, 2);
		w.sizes.assign(2, 1);
		if (quad) {
			View t = b.make(a.sizes, ch, depth);
			for (size_t i = 0; i < t.cells.size(); ++i) cells()[t.cells[i]] = r.chance(1, 8) ? std::numeric_limits<double>::quiet_NaN() : (double)r.in(-16, 16) / 8;
			b.keep(t);
			for (int c = 0; c < ch; ++c) {
				double sum = 0; for (int e = 0; e < n; ++e) { double d = val(a, e * ch + c) - cell(t, e * ch + c); if (d == d) sum += d * d / 2; }
				point(w, sum);
				for (int e = 0; e < n; ++e) { double d = val(a, e * ch + c) - cell(t, e * ch + c); if (d == d) edge(w, a.ids[e * ch + c], d); }
			}
			if (!sane(w)) return false;
			commit("quadratic_loss", a.m.loss(t.m, mt_Loss_Type_Quadratic), w);
		} else {
			if (dims != 2 || ch != 1) return false;
			int cols = a.sizes[1];
			View t = b.make(a.sizes, 1, depth);
			point(w, 0);
			for (int row = 0; row < a.sizes[0]; ++row) {
				bool none = r.chance(1, 8); int label = cols == 1 ? (int)r.in(0, 1) : (int)r.in(0, cols - 1);
				double m = -1e300, q = 0;
				for (int c = 0; c < cols; ++c) m = std::max(m, val(a, row * cols + c));
				for (int c = 0; c < cols; ++c) q += exp(val(a, row * cols + c) - m);
				for (int c = 0; c < cols; ++c) {
					double x = val(a, row * cols + c), p = cols == 1 ? 1 / (1 + exp(-x)) : exp(x - m) / q, l = cols == 1 ? label : c == label;
					cells()[t.cells[row * cols + c]] = none ? std::numeric_limits<double>::quiet_NaN() : l;
					if (none) continue;
					edge(w, a.ids[row * cols + c], p - l);
					double y = cols == 1 && !label ? 1 - p : p;
					if (y < 1e-3) return false;
					if (cols == 1 || l == 1) w.out[0].v -= log(y);
				}
			}
			b.keep(t);
			if (!sane(w)) return false;
			mt_mat p = a.m.activate(cols == 1 ? mt_Activate_Type_Sigmoid : mt_Activate_Type_Softmax);
			commit("logarithmic_loss", p.loss(t.m, mt_Loss_Type_Logarithmic), w);
		}
	} else if (kind == 21) {                           // merging
		bool by_ch = r.chance(1, 2); int dim = (int)r.in(0, dims - 1), k = (int)r.in(1, 3);
		std::vector<int> l(1, ia);
		for (int t = 0; t < 30 && (int)l.size() < k; ++t) {
			int i = r.chance(1, 6) ? ia : pick(); if ((int)v[i].sizes.size() != dims) continue;
			bool ok = by_ch || v[i].ch == ch; for (int d = 0; d < dims; ++d) ok = ok && (v[i].sizes[d] == a.sizes[d] || (!by_ch && d == dim));
			if (ok) l.push_back(i);
		}
		std::vector<mt_mat> ms; w.from = l; int total = 0;
		for (size_t i = 0; i < l.size(); ++i) { ms.push_back(v[l[i]].m); total += by_ch ? v[l[i]].ch : v[l[i]].sizes[dim]; for (size_t j = 0; j < i; ++j) if (l[i] == l[j]) vh::stat("same_operand"); }
		if (by_ch) w.ch = total; else w.sizes[dim] = total;
		if (count_of(w.sizes) * w.ch > 150) return false;
		for (int e = 0; e < count_of(w.sizes); ++e) {
			if (by_ch) { for (size_t i = 0; i < l.size(); ++i) for (int c = 0; c < v[l[i]].ch; ++c) { int j = e * v[l[i]].ch + c; point(w, val(v[l[i]], j)); edge(w, v[l[i]].ids[j], 1); } }
			else { std::vector<int> p = index_of(w.sizes, e); size_t i = 0; while (p[dim] >= v[l[i]].sizes[dim]) p[dim] -= v[l[i++]].sizes[dim]; for (int c = 0; c < ch; ++c) { int j = offset_of(v[l[i]].sizes, p) * ch + c; point(w, val(v[l[i]], j)); edge(w, v[l[i]].ids[j], 1); } }
		}
		b8 share = r.chance(1, 3);
		commit(by_ch ? "merge_align_channel" : "merge_align_dim", by_ch ? mt_mat_helper::merge_align_channel(ms, share) : mt_mat_helper::merge_align_dim(ms, dim, share), w);
	} else if (kind == 22) {                           // lists
		std::vector<int> l; for (size_t i = 0; i < v.size(); ++i) if (!v[i].dropped && v[i].sizes == a.sizes && v[i].ch == ch) l.push_back((int)i);
		std::vector<int> f(1, ia); int k = (int)r.in(1, 4); while ((int)f.size() < k) f.push_back(l[r.next() % l.size()]);
		bool prod = r.chance(1, 2);
		std::vector<mt_mat> ms; w.from = f; for (int i = 0; i < k; ++i) { ms.push_back(v[f[i]].m); for (int j = 0; j < i; ++j) if (f[i] == f[j]) vh::stat("same_operand"); }
		for (int i = 0; i < n * ch; ++i) {
			double t = prod ? 1 : 0; for (int j = 0; j < k; ++j) { double x = val(v[f[j]], i); t = prod ? t * x : t + x; }
			point(w, t);
			for (int j = 0; j < k; ++j) { double d = 1; if (prod) for (int q = 0; q < k; ++q) if (q != j) d *= val(v[f[q]], i); edge(w, v[f[j]].ids[i], d); }
		}
		if (!sane(w)) return false;
		b8 share = r.chance(1, 3);
		commit(prod ? "dot_all" : "add_all", prod ? mt_mat_helper::dot(ms, share) : mt_mat_helper::add(ms, share), w);
	} else {
		for (int i = 0; i < n * ch; ++i) { point(w, val(a, i)); edge(w, a.ids[i], 1); }
		commit("clone", a.m.clone(), w);
	}
	return true;
}

bool Tape::query() {
	int how = (int)r.in(0, 4);
	std::vector<int> srcs(1, r.chance(2, 3) ? (int)v.size() - 1 : pick());
	if (v[srcs[0]].dropped || v[srcs[0]].m.auto_derivative() == NULL) return false;
	std::vector<int> targets;
	for (int k = (int)r.in(1, 3); k > 0; --k) { int t = r.chance(2, 3) ? leaves[r.next() % leaves.size()] : pick(); if (!v[t].dropped) targets.push_back(t); }
	if (targets.empty()) return false;
	if (how >= 3) { for (int k = (int)r.in(1, 2); k > 0; --k) { int i = pick(); if (v[i].m.auto_derivative() != NULL && v[i].recorded) srcs.push_back(i); } }
	for (size_t i = 0; i < srcs.size(); ++i) if (!v[srcs[i]].recorded) return false;
	b.what = text + vh::fmt(" ; derivative %d of v%d", how, srcs[0]); for (size_t i = 0; i < targets.size(); ++i) b.what += vh::fmt(" v%d", targets[i]);
	vh::note(b.what);
	std::vector<mt_mat> tm, sm, res;
	for (size_t i = 0; i < targets.size(); ++i) tm.push_back(v[targets[i]].m);
	for (size_t i = 0; i < srcs.size(); ++i) sm.push_back(v[srcs[i]].m);
	if (how == 0) { std::vector<int> one(1, srcs[0]); return compare(r.chance(1, 2) ? ad->derivative(tm[0], sm[0]) : sm[0].derivative(tm[0]), targets[0], one); }
	if (how == 1) { ad->derivative(res, tm, sm[0]); srcs.resize(1); }
	else if (how == 2) { res = ad->derivative(tm, sm[0]); srcs.resize(1); }
	else if (how == 3) { res.push_back(ad->derivative(tm[0], sm)); targets.resize(1); }
	else { if (r.chance(1, 2)) ad->derivative(res, tm, sm); else res = ad->derivative(tm, sm); }
	if (srcs.size() > 1) vh::stat("several_sources");
	if (res.size() != targets.size()) { b.fail("derivative_count", "number of derivatives"); return false; }
	for (size_t i = 0; i < targets.size(); ++i) if (!compare(res[i], targets[i], srcs)) return false;
	// What the caller does with a derivative does not matter to the next question.
	if (r.chance(1, 2)) for (size_t i = 0; i < res.size(); ++i) if (!res[i].is_empty()) { res[i] *= 3.0; vh::stat("derivative_written"); }
	return true;
}

static void prop_derive(Rng& r, long) {
	Bench b(r);
	int depth = r.chance(1, 3) ? mt_F32 : mt_F64;
	Tape t(r, b, depth);
	mt_auto_derivative* ad = new mt_auto_derivative((i32)(r.chance(1, 2) ? 30 : r.in(1, 4)));
	t.ad = ad;
	std::vector<int> sizes; int ch = r.chance(1, 2) ? 1 : (int)r.in(1, 5);
	do { sizes = pick_sizes(r); } while (count_of(sizes) * ch > 40);
	for (int k = (int)r.in(1, 3); k > 0; --k) t.leaf(sizes, ch, r.chance(1, 3) ? 0.25 : -3, 3);
	int rounds = (int)r.in(1, 2);
	for (int round = 0; round < rounds && !b.bad; ++round) {
		int steps = (int)r.in(1, 9);
		for (int k = 0; k < steps * 3 && steps > 0 && !b.bad; ++k) {
			vh::note(t.text + vh::fmt(" ; next"));
			if (t.step()) --steps; else vh::stat("op_not_possible");
			if (!b.bad && r.chance(1, 8)) t.query();
			if (!b.bad && r.chance(1, 10)) {   // what is computed while ignoring leaves no trace
				ad->set_stage(mt_auto_derivative::Stage_Ignore);
				Var& a = t.v[t.pick()];
				mt_mat x = a.m * 2.0 + 1.0; if (x.auto_derivative() != NULL) b.fail("ignored_attached", "computed while ignoring, but attached");
				mt_mat y = a.m.index(0, 0); mt_mat z = a.m.channel_at(0);
				ad->set_stage(mt_auto_derivative::Stage_Record_Computing);
				vh::stat("ignored");
			}
			if (!b.bad && r.chance(1, 8) && t.v.size() > 3) {   // the caller lets go of an intermediate result
				int i = t.pick(); if (!t.v[i].from.empty()) { if (t.alias_of.count(i) == 0) { t.v[i].dropped = true; t.v[i].m = mt_mat(); t.text += vh::fmt(" drop v%d", i); vh::stat("dropped"); } }
			}
		}
		for (int k = (int)r.in(1, 3); k > 0 && !b.bad; --k) t.query();
		if (!b.bad && round + 1 < rounds) {    // descend, forget, record again
			std::vector<int> ls; int src = (int)t.v.size() - 1;
			ad->set_stage(mt_auto_derivative::Stage_Ignore);
			for (size_t i = 0; i < t.leaves.size(); ++i) { t.v[t.leaves[i]].m *= 0.5; }
			ad->reset();
			(void)src;
			std::vector<Var> keep; for (size_t i = 0; i < t.leaves.size(); ++i) keep.push_back(t.v[t.leaves[i]]);
			// Leaves may share the order of the operands only; their new values are half of the old ones.
			std::vector<Scalar> s;
			for (size_t i = 0; i < keep.size(); ++i) { for (size_t j = 0; j < keep[i].ids.size(); ++j) { Scalar k; k.v = t.s[keep[i].ids[j]].v * 0.5; keep[i].ids[j] = (int)s.size(); s.push_back(k); } keep[i].recorded = false; keep[i].dropped = false; keep[i].from.clear(); }
			for (size_t i = 0; i < b.views.size(); ++i) for (size_t j = 0; j < keep.size(); ++j) if (addr(b.views[i].m, std::vector<int>(b.views[i].sizes.size(), 0)) == addr(keep[j].m, std::vector<int>(keep[j].sizes.size(), 0))) for (size_t c = 0; c < b.views[i].cells.size(); ++c) cells()[b.views[i].cells[c]] *= 0.5;
			t.s = s; t.v = keep; t.alias_of.clear();
			for (size_t i = 0; i < t.leaves.size(); ++i) t.leaves[i] = (int)i;
			t.text += " reset:"; for (size_t i = 0; i < keep.size(); ++i) t.text += vh::fmt(" v%d=leaf %s", (int)i, dims_str(keep[i].sizes, keep[i].ch).c_str());
			vh::stat("rounds_again");
		}
	}
	b.what = t.text;
	b.check("derive");
	if (r.chance(1, 50)) vh::sample(t.text);
	std::vector<mt_mat> group;
	for (size_t i = 0; i < t.v.size(); ++i) if (r.chance(1, 2)) { group.push_back(t.v[i].m); t.v[i].m = mt_mat(); } else { mt_auto_derivative::detach(t.v[i].m); if (t.v[i].m.auto_derivative() != NULL) b.fail("detach", "still attached"); }
	std::vector<mt_mat> before(group); mt_auto_derivative::detach(group);
	for (size_t i = 0; i < group.size(); ++i) if (group[i].auto_derivative() != NULL || !group[i].is_same(before[i])) b.fail("detach", "a matrix of a list is still attached, or another one");
	vh::stat("detached", (long long)group.size()); before.clear();
	delete ad;
}

int main(int argc, char** argv) {
	std::vector<vh::Prop> props;
	vh::Prop p[] = {{"derive", prop_derive}};
	props.assign(p, p + 1);
	return vh::run_main(argc, argv, props, setup_log, teardown_log);
}
