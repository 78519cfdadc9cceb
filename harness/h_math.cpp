// modules: basiclog basicsys basicmath
// Calculations on matrices against straightforward element by element evaluation.
#include "vh.h"
#include "all_math.h"
#include "bench.h"

// One operation in the arithmetic of a depth; false when the mathematical result does not fit.
static bool arith(int op, int depth, double a, double b, double& out) {
	if (depth == mt_F32) { float x = (float)a, y = (float)b, z = op == 0 ? x + y : op == 1 ? x - y : op == 2 ? x * y : x / y; out = z; return op != 3 || y != 0; }
	if (depth == mt_F64) { out = op == 0 ? a + b : op == 1 ? a - b : op == 2 ? a * b : a / b; return op != 3 || b != 0; }
	if (op == 3 && b == 0) return false;
	double z = op == 0 ? a + b : op == 1 ? a - b : op == 2 ? a * b : (a / b < 0 ? ceil(a / b) : floor(a / b));
	out = z + 0.0;
	return fits(depth, z) && fabs(z) < 9e15 && (op != 3 || fabs(a) < 4e9);
}
static double small_value(Rng& r, int depth, int op, bool second) {
	if (is_float(depth)) { double x = (double)r.in(-4000, 4000) / 16; return second && op == 3 && x == 0 ? 0.5 : x; }
	bool uns = lo(depth) == 0;
	double x;
	if (second) x = (double)r.in(uns ? 0 : -11, 11);
	else if (op == 2) x = (double)r.in(uns ? 0 : -11, 11);
	else if (uns && op == 1) x = (double)r.in(11, 200);
	else x = (double)r.in(uns ? 0 : -100, 100);
	if (second && op == 3 && x == 0) x = 3;
	if (esize(depth) >= 4 && r.chance(1, 4) && !(second && op == 2)) x *= 100003;
	return x;
}
static const char* op_name(int op) { static const char* n[] = {"add", "subtract", "multiply", "divide"}; return n[op]; }

static mt_mat apply(int op, const mt_mat& a, const mt_mat& b) { switch (op) { case 0: return a + b; case 1: return a - b; case 2: return a * b; default: return a / b; } }
static mt_mat apply(int op, const mt_mat& a, double b) { switch (op) { case 0: return a + b; case 1: return a - b; case 2: return a * b; default: return a / b; } }
static mt_mat apply(int op, const mt_mat& a, const mt_scalar& b) { switch (op) { case 0: return a + b; case 1: return a - b; case 2: return a * b; default: return a / b; } }
static mt_mat apply(int op, const mt_mat& a, const std::vector<double>& b) { switch (op) { case 0: return a + b; case 1: return a - b; case 2: return a * b; default: return a / b; } }
static mt_mat apply(int op, double a, const mt_mat& b) { switch (op) { case 0: return a + b; case 1: return a - b; case 2: return a * b; default: return a / b; } }
template <class B> static void self(int op, mt_mat& a, const B& b) { switch (op) { case 0: a += b; break; case 1: a -= b; break; case 2: a *= b; break; default: a /= b; } }

static void prop_arith(Rng& r, long) {
	Bench b(r);
	int op = (int)r.in(0, 3), kind = (int)r.in(0, 9), depth = pick_depth(r), ch = pick_channel(r);
	std::vector<int> sizes = pick_sizes(r);
	View a = b.make(sizes, ch, depth);
	for (size_t i = 0; i < a.cells.size(); ++i) cells()[a.cells[i]] = small_value(r, depth, op, kind == 7);
	std::vector<double> want(a.cells.size());
	const char* name = op_name(op);
	int n = a.elements();
	// Operand: 0-2 matrix, 3 number, 4 scalar, 5 vector, 6 in-place of 3-5, 7 number op matrix, 8 bias, 9 minus
	View o; bool with_mat = kind <= 2 || kind == 8;
	std::vector<double> vec(ch);
	double one = small_value(r, depth, op, kind != 7);
	for (int c = 0; c < ch; ++c) vec[c] = small_value(r, depth, op, true);
	if (!is_float(depth) && r.chance(1, 4)) { for (int c = 0; c < ch; ++c) vec[c] += vec[c] < 0 ? -0.5 : 0.5; }
	if (with_mat) {
		std::vector<int> bs(sizes);
		if (kind == 8) {
			int how = (int)r.in(0, 2);
			for (size_t i = 0; i < bs.size(); ++i) {
				if (how == 0) bs[i] = 1;
				else if (how == 1) { if (i == 0) bs[i] = 1; }
				else { std::vector<int> d; for (int k = 1; k <= sizes[i]; ++k) if (sizes[i] % k == 0) d.push_back(k); bs[i] = d[r.next() % d.size()]; }
			}
			if (depth == mt_U64 || depth == mt_I64) return;
		}
		o = b.make(bs, ch, depth);
		for (size_t i = 0; i < o.cells.size(); ++i) cells()[o.cells[i]] = small_value(r, depth, op, true);
	}
	for (int e = 0; e < n; ++e) {
		std::vector<int> q = a.index_of(e);
		int f = 0;
		if (with_mat) { std::vector<int> p(q); for (size_t i = 0; i < p.size(); ++i) p[i] %= o.sizes[i]; f = o.offset(p); }
		for (int c = 0; c < ch; ++c) {
			double x = cell(a, e * ch + c), y = with_mat ? cell(o, f * ch + c) : kind == 3 || kind == 7 ? one : vec[c];
			y = as_depth(depth, y);
			if (kind == 9) { if (!arith(1, depth, 0, x, want[e * ch + c])) { vh::stat("skipped"); return; } continue; }
			if (!(kind == 7 ? arith(op, depth, y, x, want[e * ch + c]) : arith(op, depth, x, y, want[e * ch + c]))) { vh::stat("skipped"); return; }
		}
	}
	b.keep(a);
	if (with_mat) b.keep(o);
	b.what = vh::fmt("%s kind %d of %s and %s", name, kind, shape(a).c_str(), with_mat ? shape(o).c_str() : "values");
	vh::note(b.what);
	mt_scalar s(0, 0, 0, 0);
	if (ch <= 4) for (int c = 0; c < ch; ++c) s[c] = vec[c];
	for (int c = ch; c < 4; ++c) s[c] = 1;
	bool in_place = kind == 1 || kind == 6;
	mt_mat res;
	View& va = b.views[0];
	if (kind == 0 || kind == 2) res = apply(op, a.m, o.m);
	else if (kind == 1) self(op, va.m, o.m);
	else if (kind == 3) res = apply(op, a.m, one);
	else if (kind == 4) { if (ch <= 4) res = apply(op, a.m, s); else res = apply(op, a.m, vec); }
	else if (kind == 5) res = apply(op, a.m, vec);
	else if (kind == 6) {
		int how = (int)r.in(0, 2);
		bool equal = true; for (int c = 1; c < ch; ++c) equal = equal && vec[c] == vec[0];
		if (how == 0 && equal) self(op, va.m, vec[0]); else if (how == 1 && ch <= 4) self(op, va.m, s); else self(op, va.m, vec);
	} else if (kind == 7) res = apply(op, one, a.m);
	else if (kind == 8) { switch (op) { case 0: res = a.m.add_bias(o.m); break; case 1: res = a.m.substract_bias(o.m); break; case 2: res = a.m.mul_bias(o.m); break; default: res = a.m.div_bias(o.m); } name = "bias"; }
	else { res = -a.m; name = "minus"; }
	vh::stat(std::string("op_") + name);
	if (in_place) { for (size_t i = 0; i < want.size(); ++i) cells()[va.cells[i]] = want[i]; vh::stat("in_place"); }
	else {
		equals(b, name, res, sizes, ch, depth, want);
		if (!b.bad && res.is_memory_shared(a.m) && a.m.reference_number() > 0) b.fail(std::string(name) + "_shared", "the result shares the memory of an operand");
	}
	b.check(name);
	vh::dist("nontrivial", layout_hash(a) ^ (op * 11 + kind) * 0x9e3779b97f4a7c15ull);
	if (r.chance(1, 50)) vh::sample(b.what);
}

// ---------------------------------------------------------------- functions of elements

static void prop_funcs(Rng& r, long) {
	Bench b(r);
	int f = (int)r.in(0, 9);
	int depth = r.chance(1, 2) ? mt_F32 : mt_F64, ch = pick_channel(r);
	std::vector<int> sizes = pick_sizes(r);
	if (f == 3 || f == 9) depth = pick_depth(r);
	View a = b.make(sizes, ch, depth);
	double tol = depth == mt_F32 ? 2e-5 : 1e-11;
	std::vector<double> want(a.cells.size());
	double p1 = 0, p2 = 0;
	bool positive = f == 1 || f == 2;
	for (size_t i = 0; i < a.cells.size(); ++i) {
		double x = f == 3 ? pick_value(r, depth) : f == 9 ? (double)r.in(lo(depth) == 0 ? 0 : -3, 3) : (double)r.in(-320, 320) / 32;
		if (f == 3 && x == lo(depth) && x < 0) x += 1;
		if (positive) x = fabs(x) + 0.125;
		cells()[a.cells[i]] = x;
	}
	bool in_place = r.chance(1, 2);
	const char* name = "?";
	b.keep(a);
	View& va = b.views[0];
	mt_mat res;
	b.what = vh::fmt("function %d of %s%s", f, shape(a).c_str(), in_place ? " in place" : "");
	vh::note(b.what);
	switch (f) {
	case 0: name = "exp"; for (size_t i = 0; i < want.size(); ++i) want[i] = exp(cell(a, (int)i)); if (in_place) va.m.self_exp(); else res = a.m.exp(); tol *= 4; break;
	case 1: {
		name = "log";
		int base = (int)r.in(0, 2);
		for (size_t i = 0; i < want.size(); ++i) want[i] = base == 0 ? log(cell(a, (int)i)) : base == 1 ? log10(cell(a, (int)i)) : log(cell(a, (int)i)) / log(2.5);
		if (base == 0) { if (in_place) va.m.self_log(); else res = a.m.log(); }
		else { double v = base == 1 ? 10 : 2.5; if (in_place) va.m.self_log(v); else res = a.m.log(v); }
		tol *= 4; break; }
	case 2: {
		name = "pow";
		static const double e[] = {2, 3, 0.5, -1, -0.5, 0, 1, 2.5};
		p1 = e[r.next() % 8];
		for (size_t i = 0; i < want.size(); ++i) want[i] = pow(cell(a, (int)i), p1);
		if (in_place) va.m.self_pow(p1); else res = a.m.pow(p1);
		tol *= 4; break; }
	case 3: name = "abs"; for (size_t i = 0; i < want.size(); ++i) want[i] = fabs(cell(a, (int)i)); if (in_place) va.m.self_abs(); else res = a.m.abs(); tol = 0; break;
	case 4: name = "linear"; for (size_t i = 0; i < want.size(); ++i) want[i] = cell(a, (int)i); if (in_place) va.m.self_activate(mt_Activate_Type_Linear, std::vector<double>()); else res = a.m.activate(mt_Activate_Type_Linear); tol = 0; break;
	case 5: {
		name = "relu";
		std::vector<double> p;
		if (r.chance(1, 2)) p.push_back(p1 = (double)r.in(0, 8) / 8);
		for (size_t i = 0; i < want.size(); ++i) { double x = cell(a, (int)i); want[i] = x > 0 ? x : x * p1; }
		if (in_place) va.m.self_activate(mt_Activate_Type_Relu, p); else res = a.m.activate(mt_Activate_Type_Relu, p);
		break; }
	case 6: name = "sigmoid"; for (size_t i = 0; i < want.size(); ++i) want[i] = 1 / (1 + exp(-cell(a, (int)i))); if (in_place) va.m.self_activate(mt_Activate_Type_Sigmoid, 0, NULL); else res = a.m.activate(mt_Activate_Type_Sigmoid); break;
	case 7: {
		name = "tanh";
		std::vector<double> p; p1 = mt_Tanh_Default_Alpha; p2 = mt_Tanh_Default_Beta;
		if (r.chance(1, 2)) { p1 = (double)r.in(1, 16) / 8; p2 = (double)r.in(1, 16) / 8; p.push_back(p1); p.push_back(p2); }
		for (size_t i = 0; i < want.size(); ++i) want[i] = p1 * tanh(p2 * cell(a, (int)i));
		if (in_place) va.m.self_activate(mt_Activate_Type_Tanh, p); else if (p.empty()) res = a.m.activate(mt_Activate_Type_Tanh); else res = a.m.activate(mt_Activate_Type_Tanh, (i32)p.size(), &p[0]);
		break; }
	case 8: {
		name = "softmax";
		if (sizes.size() != 2 || ch != 1) { vh::stat("skipped"); return; }
		for (int row = 0; row < sizes[0]; ++row) {
			double m = -1e300, s = 0;
			for (int c = 0; c < sizes[1]; ++c) m = std::max(m, cell(a, row * sizes[1] + c));
			for (int c = 0; c < sizes[1]; ++c) s += want[row * sizes[1] + c] = exp(cell(a, row * sizes[1] + c) - m);
			for (int c = 0; c < sizes[1]; ++c) want[row * sizes[1] + c] /= s;
		}
		if (in_place) va.m.self_activate(mt_Activate_Type_Softmax, std::vector<double>()); else res = a.m.activate(mt_Activate_Type_Softmax);
		break; }
	default: {
		name = "mask"; in_place = false; tol = 0;
		mt_mat::Compare_Task task = (mt_mat::Compare_Task)r.in(0, 4);
		bool zero = r.chance(1, 4);
		int od = r.chance(1, 4) ? pick_depth(r) : depth;
		View o = b.make(sizes, ch, od);
		for (size_t i = 0; i < o.cells.size(); ++i) cells()[o.cells[i]] = (double)r.in(lo(od) == 0 || lo(depth) == 0 ? 0 : -3, 3);
		b.keep(o);
		double t = (double)r.in(0, 5), ff = (double)r.in(6, 9);
		for (size_t i = 0; i < want.size(); ++i) {
			double x = cell(a, (int)i), y = zero ? 0 : cell(o, (int)i);
			bool is = task == mt_mat::Compare_Task_Bigger ? x > y : task == mt_mat::Compare_Task_Smaller ? x < y : task == mt_mat::Compare_Task_Same ? x == y : task == mt_mat::Compare_Task_Non_Bigger ? x <= y : x >= y;
			want[i] = is ? t : ff;
		}
		b.what += vh::fmt(" mask task %d %s", (int)task, zero ? "zero" : shape(o).c_str());
		res = a.m.element_compared_mask(zero ? mt_mat() : o.m, task, t, ff);
		break; }
	}
	vh::stat(std::string("op_") + name);
	if (in_place) {
		equals(b, name, b.views[0].m, sizes, ch, depth, want, tol);
		// The exact values that came out are taken over, the frame conditions remain.
		View& v = b.views[0];
		std::vector<int> idx(sizes.size(), 0);
		for (int e = 0; e < v.elements(); ++e) { const u8* p = addr(v.m, idx); for (int c = 0; c < ch; ++c) cells()[v.cells[e * ch + c]] = load(p + c * esize(depth), depth); next_index(idx, sizes); }
	} else {
		equals(b, name, res, sizes, ch, depth, want, tol);
		if (!b.bad && a.m.reference_number() > 0 && res.is_memory_shared(a.m)) b.fail(std::string(name) + "_shared", "the result shares the memory of the operand");
	}
	b.check(name);
	vh::dist("nontrivial", layout_hash(a) ^ (f + 1) * 0x9e3779b97f4a7c15ull);
	if (r.chance(1, 50)) vh::sample(b.what);
}

// ---------------------------------------------------------------- reductions, losses, eigenvectors

static void prop_reduce(Rng& r, long) {
	Bench b(r);
	int which = (int)r.in(0, 9);
	if (which <= 5) {
		int depth = r.chance(3, 4) ? (r.chance(1, 2) ? mt_F32 : mt_F64) : pick_depth(r), ch = pick_channel(r);
		std::vector<int> sizes = pick_sizes(r);
		View a = b.make(sizes, ch, depth);
		for (size_t i = 0; i < a.cells.size(); ++i) cells()[a.cells[i]] = is_float(depth) ? (double)r.in(-160, 160) / 8 : (double)r.in(lo(depth) == 0 ? 0 : -100, 100);
		b.keep(a);
		mt_mat::Reduce_Type type = (mt_mat::Reduce_Type)r.in(0, 7);
		int dim = (int)r.in(-2, (int)sizes.size() - 1);
		// groups of values that are reduced together
		std::vector<int> rs(sizes); int rch = ch;
		if (dim == -1) for (size_t i = 0; i < rs.size(); ++i) rs[i] = 1; else if (dim == -2) rch = 1; else rs[dim] = 1;
		int total = rch; for (size_t i = 0; i < rs.size(); ++i) total *= rs[i];
		std::vector<std::vector<double> > groups(total);
		for (int e = 0; e < a.elements(); ++e) {
			std::vector<int> q = a.index_of(e);
			if (dim == -1) q.assign(q.size(), 0); else if (dim >= 0) q[dim] = 0;
			int o = 0; for (size_t i = 0; i < rs.size(); ++i) o = o * rs[i] + q[i];
			for (int c = 0; c < ch; ++c) groups[o * rch + (dim == -2 ? 0 : c)].push_back(cell(a, e * ch + c));
		}
		bool unbias = type == mt_mat::Reduce_Type_Unbias_Variance || type == mt_mat::Reduce_Type_Standard_Unbias_Variance;
		if (unbias && groups[0].size() < 2) { vh::stat("skipped"); return; }
		std::vector<double> want(total);
		for (int g = 0; g < total; ++g) {
			const std::vector<double>& v = groups[g];
			double s = 0, mx = v[0], mn = v[0], q = 0;
			for (size_t i = 0; i < v.size(); ++i) { s += v[i]; mx = std::max(mx, v[i]); mn = std::min(mn, v[i]); }
			double mean = s / v.size();
			for (size_t i = 0; i < v.size(); ++i) q += (v[i] - mean) * (v[i] - mean);
			switch (type) {
			case mt_mat::Reduce_Type_Sum: want[g] = s; break;
			case mt_mat::Reduce_Type_Mean: want[g] = mean; break;
			case mt_mat::Reduce_Type_Max: want[g] = mx; break;
			case mt_mat::Reduce_Type_Min: want[g] = mn; break;
			case mt_mat::Reduce_Type_Variance: want[g] = q / v.size(); break;
			case mt_mat::Reduce_Type_Unbias_Variance: want[g] = q / (v.size() - 1); break;
			case mt_mat::Reduce_Type_Standard_Variance: want[g] = sqrt(q / v.size()); break;
			default: want[g] = sqrt(q / (v.size() - 1)); break;
			}
		}
		b.what = vh::fmt("reduce type %d dim %d of %s", (int)type, dim, shape(a).c_str());
		vh::note(b.what);
		mt_mat res = dim == mt_mat::Reduce_Dim_Inner_Channel && r.chance(1, 2) ? a.m.reduce(type) : a.m.reduce(type, dim);
		const char* name = dim == -1 ? "reduce_all" : dim == -2 ? "reduce_channels" : "reduce_dim";
		equals(b, name, res, rs, rch, is_float(depth) ? depth : (int)mt_F64, want, depth == mt_F32 ? 1e-3 : 1e-9);
		vh::stat(std::string("op_") + name);
		b.check(name);
		vh::dist("nontrivial", layout_hash(a) ^ ((int)type * 17 + dim + 3) * 0x9e3779b97f4a7c15ull);
	} else if (which <= 7) {
		int depth = r.chance(1, 2) ? mt_F32 : mt_F64;
		bool quad = r.chance(1, 2);
		std::vector<int> sizes = pick_sizes(r);
		int ch = quad ? pick_channel(r) : 1;
		if (!quad) { sizes.resize(2); sizes[0] = (int)r.in(1, 6); sizes[1] = (int)r.in(1, 5); }
		View a = b.make(sizes, ch, depth), t = b.make(sizes, ch, depth);
		std::vector<double> want(ch, 0.0);
		if (quad) {
			for (size_t i = 0; i < a.cells.size(); ++i) {
				double x = (double)r.in(-80, 80) / 8, y = (double)r.in(-80, 80) / 8;
				if (r.chance(1, 10)) y = r.chance(1, 2) ? std::numeric_limits<double>::quiet_NaN() : std::numeric_limits<double>::infinity();
				cells()[a.cells[i]] = x; cells()[t.cells[i]] = y;
				if (y - y == 0) want[i % ch] += (x - y) * (x - y) / 2;
			}
		} else {
			for (int row = 0; row < sizes[0]; ++row) {
				int label = sizes[1] == 1 ? (int)r.in(0, 1) : (int)r.in(0, sizes[1] - 1);
				bool unlabelled = r.chance(1, 6);
				for (int c = 0; c < sizes[1]; ++c) {
					double x = (double)r.in(1, 63) / 64;
					cells()[a.cells[row * sizes[1] + c]] = x;
					cells()[t.cells[row * sizes[1] + c]] = unlabelled ? std::numeric_limits<double>::quiet_NaN() : sizes[1] == 1 ? label : c == label ? 1 : 0;
					if (!unlabelled && sizes[1] == 1) want[0] -= log((label ? x : 1 - x) + 2.220446049250313e-16);
					else if (!unlabelled && c == label) want[0] -= log(x + 2.220446049250313e-16);
				}
			}
		}
		store_raw(a); store_raw(t);
		b.what = vh::fmt("%s loss of %s and %s", quad ? "quadratic" : "logarithmic", shape(a).c_str(), shape(t).c_str());
		vh::note(b.what);
		mt_mat res = a.m.loss(t.m, quad ? mt_Loss_Type_Quadratic : mt_Loss_Type_Logarithmic);
		std::vector<int> one(2, 1);
		const char* name = quad ? "quadratic_loss" : "logarithmic_loss";
		equals(b, name, res, one, ch, depth, want, depth == mt_F32 ? 1e-3 : 1e-9);
		vh::stat(std::string("op_") + name);
		b.check(name);
		vh::dist("nontrivial", layout_hash(a) ^ layout_hash(t) * 3);
	} else {
		int depth = r.chance(1, 2) ? mt_F32 : mt_F64, n = (int)r.in(1, 7);
		std::vector<int> sizes(2, n);
		View a = b.make(sizes, 1, depth);
		int how = (int)r.in(0, 4);
		for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) {
			double x = how == 0 ? (i == j ? (double)r.in(-8, 8) : 0) : how == 1 ? 1 : how == 2 ? (double)r.in(-1, 1) : (double)r.in(-80, 80) / 8;
			cells()[a.cells[i * n + j]] = cells()[a.cells[j * n + i]] = x;
		}
		b.keep(a);
		b.what = vh::fmt("eigenvectors of %s", shape(a).c_str());
		vh::note(b.what);
		mt_mat val, vec;
		a.m.symmetry_eigen(val, vec);
		double tol = depth == mt_F32 ? 2e-3 : 1e-8, scale = 1;
		for (size_t i = 0; i < a.cells.size(); ++i) scale = std::max(scale, fabs(cell(a, (int)i)));
		bool shape_ok = val.dim() == 2 && val.size()[0] == 1 && val.size()[1] == n && vec.dim() == 2 && vec.size()[0] == n && vec.size()[1] == n && val.depth() == depth && vec.depth() == depth;
		if (!shape_ok) b.fail("eigen_shape", "shape of the result");
		for (int k = 0; k < n && !b.bad; ++k) {
			std::vector<double> v(n); double l;
			for (int j = 0; j < n; ++j) v[j] = read_at(vec, depth, std::vector<int>{k, j}, 0, 1);
			l = read_at(val, depth, std::vector<int>{0, k}, 0, 1);
			double norm = 0;
			for (int i = 0; i < n; ++i) { double s = 0; for (int j = 0; j < n; ++j) s += cell(a, i * n + j) * v[j]; if (fabs(s - l * v[i]) > tol * scale * n) { b.fail("eigen", vh::fmt("A v - lambda v is %g in vector %d", s - l * v[i], k)); break; } norm += v[i] * v[i]; }
			if (!b.bad && fabs(norm - 1) > tol) b.fail("eigen", vh::fmt("vector %d has norm %g", k, norm));
			for (int o = 0; o < k && !b.bad; ++o) { double s = 0; for (int j = 0; j < n; ++j) s += v[j] * read_at(vec, depth, std::vector<int>{o, j}, 0, 1); if (fabs(s) > tol) b.fail("eigen", "vectors are not orthogonal"); }
			if (!b.bad && k > 0 && read_at(val, depth, std::vector<int>{0, k - 1}, 0, 1) < l) b.fail("eigen", "values are not sorted");
		}
		vh::stat("op_eigen");
		b.check("eigen");
		vh::dist("nontrivial", layout_hash(a) ^ vh::hash_mem(&cells()[a.cells[0]], sizeof(double) * a.cells.size()));
	}
	if (r.chance(1, 50)) vh::sample(b.what);
}

// ---------------------------------------------------------------- pooling

static void prop_pooling(Rng& r, long) {
	Bench b(r);
	int depth = pick_depth(r), ch = pick_channel(r);
	std::vector<int> sizes = pick_sizes(r);
	int dims = (int)sizes.size();
	bool wide = r.chance(1, 10);
	if (dims <= 2) for (int i = 0; i < dims; ++i) sizes[i] = (int)r.in(1, wide ? 24 : 9);
	std::vector<int> k(dims), st(dims), rs(dims);
	for (int i = 0; i < dims; ++i) {
		k[i] = (int)r.in(1, std::min(sizes[i] + 1, wide ? 12 : 4)); st[i] = (int)r.in(1, wide ? 12 : 4);
		// windows start at every multiple of the stride until one reaches the end
		int nn = 0; for (int p = 0; p < sizes[i]; p += st[i]) { ++nn; if (p + k[i] >= sizes[i]) break; }
		rs[i] = nn;
	}
	mt_Pooling_Type type = (mt_Pooling_Type)r.in(0, 5);
	static const char* names[] = {"mean", "max", "min", "sum", "first", "index"};
	View a = b.make(sizes, ch, depth);
	for (size_t i = 0; i < a.cells.size(); ++i) cells()[a.cells[i]] = is_float(depth) ? (double)r.in(-160, 160) / 8 : (double)r.in(lo(depth) == 0 ? 0 : -100, esize(depth) > 1 && r.chance(1, 3) ? 30000 : 120);
	int total = 1; for (int i = 0; i < dims; ++i) total *= rs[i];
	std::vector<double> want(total * ch);
	std::vector<std::vector<int> > window(total);      // element numbers of each window
	std::vector<int> arg(total * ch, -1);
	View rv; rv.sizes = rs;
	for (int e = 0; e < total; ++e) {
		std::vector<int> q = rv.index_of(e), w(dims, 0);
		int kn = 1; for (int i = 0; i < dims; ++i) kn *= k[i];
		for (int j = 0; j < kn; ++j) { std::vector<int> p(dims); bool in = true; for (int i = 0; i < dims; ++i) { p[i] = q[i] * st[i] + w[i]; in = in && p[i] < sizes[i]; } if (in) window[e].push_back(a.offset(p)); next_index(w, k); }
	}
	View mask;
	if (type == mt_Pooling_Type_Index) {
		mask = b.make(rs, ch, mt_I32);
		for (size_t i = 0; i < mask.cells.size(); ++i) cells()[mask.cells[i]] = (double)r.in(0, a.elements() - 1);
	}
	for (int e = 0; e < total; ++e) for (int c = 0; c < ch; ++c) {
		const std::vector<int>& w = window[e];
		double s = 0, x = cell(a, w[0] * ch + c); int at = w[0];
		for (size_t j = 0; j < w.size(); ++j) { double y = cell(a, w[j] * ch + c); s += y; if ((type == mt_Pooling_Type_Max && y > x) || (type == mt_Pooling_Type_Min && y < x)) { x = y; at = w[j]; } }
		double& o = want[e * ch + c];
		switch (type) {
		case mt_Pooling_Type_Mean: o = is_float(depth) ? s / w.size() : as_depth(depth, s / w.size()); break;
		case mt_Pooling_Type_Sum: o = s; if (!is_float(depth) && !fits(depth, s)) { vh::stat("skipped"); return; } break;
		case mt_Pooling_Type_Index: at = (int)cell(mask, e * ch + c); o = cell(a, at * ch + c); break;
		case mt_Pooling_Type_First_Value: at = w[0]; o = cell(a, at * ch + c); break;
		default: o = x; break;
		}
		arg[e * ch + c] = at;
	}
	b.keep(a);
	if (mask.dims()) b.keep(mask);
	b.what = vh::fmt("%s pooling of %s, windows", names[type], shape(a).c_str());
	for (int i = 0; i < dims; ++i) b.what += vh::fmt(" %d/%d", k[i], st[i]);
	vh::note(b.what);
	mt_mat m, res;
	if (mask.dims()) m = mask.m;
	int how = (int)r.in(0, 1);
	bool masked = type == mt_Pooling_Type_Max || type == mt_Pooling_Type_Min || type == mt_Pooling_Type_Index;
	if (!masked && r.chance(1, 2)) res = how ? a.m.pooling(type, dims, &k[0], &st[0]) : a.m.pooling(type, k, st);
	else res = how ? a.m.pooling(m, type, dims, &k[0], &st[0]) : a.m.pooling(m, type, k, st);
	double tol = depth == mt_F32 ? 1e-4 : depth == mt_F64 ? 1e-10 : 0;
	equals(b, names[type], res, rs, ch, depth, want, tol);
	if (type == mt_Pooling_Type_Max || type == mt_Pooling_Type_Min) { std::vector<double> pos(arg.begin(), arg.end()); if (!b.bad) equals(b, "mask", m, rs, ch, mt_I32, pos); }
	vh::stat(std::string("op_") + names[type]);
	b.check(names[type]);
	if (b.bad) return;
	// And back: every value is given to the elements it came from.
	View g = b.make(rs, ch, depth);
	for (size_t i = 0; i < g.cells.size(); ++i) cells()[g.cells[i]] = is_float(depth) ? (double)r.in(-160, 160) / 8 : (double)r.in(lo(depth) == 0 ? 0 : -3, 3);
	b.keep(g);
	std::vector<double> back(a.cells.size(), 0.0);
	for (int e = 0; e < total; ++e) for (int c = 0; c < ch; ++c) {
		double y = cell(g, e * ch + c);
		if (masked || type == mt_Pooling_Type_First_Value) back[arg[e * ch + c] * ch + c] += y;
		else for (size_t j = 0; j < window[e].size(); ++j) back[window[e][j] * ch + c] += type == mt_Pooling_Type_Sum ? y : is_float(depth) ? y / window[e].size() : as_depth(depth, y / window[e].size());
	}
	for (size_t i = 0; i < back.size(); ++i) if (!fits(depth, back[i])) { vh::stat("skipped"); return; }
	b.what = "un" + b.what + " from " + shape(g);
	vh::note(b.what);
	mt_mat un = how ? g.m.unpooling(&sizes[0], m, type, dims, &k[0], &st[0]) : g.m.unpooling(&sizes[0], m, type, k, st);
	equals(b, (std::string("un") + names[type]).c_str(), un, sizes, ch, depth, back, tol);
	vh::stat("op_unpooling");
	b.check((std::string("un") + names[type]).c_str());
	uint64_t h = layout_hash(a); for (int i = 0; i < dims; ++i) h = vh::mix(h ^ (k[i] * 8 + st[i]));
	vh::dist("nontrivial", h ^ type);
	if (r.chance(1, 50)) vh::sample(b.what);
}

int main(int argc, char** argv) {
	std::vector<vh::Prop> props;
	vh::Prop p[] = {{"arith", prop_arith}, {"funcs", prop_funcs}, {"reduce", prop_reduce}, {"pooling", prop_pooling}};
	for (size_t i = 0; i < sizeof p / sizeof p[0]; ++i) props.push_back(p[i]);
	return vh::run_main(argc, argv, props, setup_log, teardown_log);
}
