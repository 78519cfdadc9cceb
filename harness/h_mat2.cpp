// modules: basiclog basicsys basicmath
// Putting matrices together and taking them apart; automatic derivatives.
#include "bench.h"

static void fill(View& a, Rng& r, int lo_i = -100, int hi_i = 100) {
	for (size_t i = 0; i < a.cells.size(); ++i) cells()[a.cells[i]] = is_float(a.depth) ? (double)r.in(lo_i * 8, hi_i * 8) / 8 : (double)r.in(lo(a.depth) == 0 ? 0 : std::max(lo_i, -128), std::min(hi_i, 127));
}
static std::vector<double> values(const View& a) { std::vector<double> v(a.cells.size()); for (size_t i = 0; i < v.size(); ++i) v[i] = cells()[a.cells[i]]; return v; }

// ---------------------------------------------------------------- assemble

static void prop_assemble(Rng& r, long) {
	Bench b(r);
	int kind = (int)r.in(0, 8), depth = pick_depth(r), ch = pick_channel(r);
	std::vector<int> sizes = pick_sizes(r);
	int dims = (int)sizes.size();
	const char* op = "";
	if (kind == 0) {                  // expand
		op = "expand";
		View a = b.make(sizes, ch, depth); fill(a, r); b.keep(a);
		std::vector<int> s1(dims), s2(dims); std::vector<double> f(ch);
		for (int i = 0; i < dims; ++i) { s1[i] = (int)r.in(0, 3); s2[i] = (int)r.in(0, 3); }
		for (int c = 0; c < ch; ++c) f[c] = (double)r.in(0, 100);
		int how = (int)r.in(0, 4), use = (int)r.in(0, 3);    // use: 0,1 both; 2 first side only; 3 second side only
		if (use == 2) s2.assign(dims, 0);
		if (use == 3) s1.assign(dims, 0);
		if (how != 0 && ch > 4) how = 0;
		if (how >= 3) f.assign(ch, how == 3 ? 0.0 : f[0]);
		std::vector<int> ns(dims); for (int i = 0; i < dims; ++i) ns[i] = sizes[i] + s1[i] + s2[i];
		View rv; rv.sizes = ns; int n = rv.elements();
		std::vector<double> want(n * ch);
		for (int e = 0; e < n; ++e) {
			std::vector<int> p = rv.index_of(e); bool in = true;
			for (int i = 0; i < dims; ++i) { p[i] -= s1[i]; in = in && p[i] >= 0 && p[i] < sizes[i]; }
			for (int c = 0; c < ch; ++c) want[e * ch + c] = in ? cell(a, a.offset(p) * ch + c) : f[c];
		}
		b.what = "expand of " + shape(a); for (int i = 0; i < dims; ++i) b.what += vh::fmt(" %d+%d", s1[i], s2[i]);
		vh::note(b.what);
		const int* p1 = use == 3 ? NULL : &s1[0]; const int* p2 = use == 2 ? NULL : &s2[0];
		std::vector<int> v1, v2; if (p1) v1 = s1; if (p2) v2 = s2;
		mt_scalar sc; for (int c = 0; c < ch && c < 4; ++c) sc[c] = f[c];
		mt_mat res;
		if (how == 0) res = a.m.expand(dims, p1, p2, f);
		else if (how == 3) res = r.chance(1, 2) ? a.m.expand(dims, p1, p2) : a.m.expand(v1, v2);
		else res = r.chance(1, 2) ? a.m.expand(dims, p1, p2, sc) : a.m.expand(v1, v2, sc);
		equals(b, op, res, ns, ch, depth, want);
	} else if (kind == 1) {           // sub_stride
		op = "sub_stride";
		if (dims <= 2 && r.chance(9, 10)) for (int i = 0; i < dims; ++i) sizes[i] = (int)r.in(1, 9);
		View a = b.make(sizes, ch, depth); fill(a, r); b.keep(a);
		std::vector<int> st(dims), ns(dims); int far = r.chance(1, 10) ? 20 : 4;
		for (int i = 0; i < dims; ++i) { st[i] = (int)r.in(1, far); ns[i] = (sizes[i] + st[i] - 1) / st[i]; }
		View rv; rv.sizes = ns; int n = rv.elements();
		std::vector<double> want(n * ch);
		for (int e = 0; e < n; ++e) { std::vector<int> p = rv.index_of(e); for (int i = 0; i < dims; ++i) p[i] *= st[i]; for (int c = 0; c < ch; ++c) want[e * ch + c] = cell(a, a.offset(p) * ch + c); }
		b.what = "sub_stride of " + shape(a); for (int i = 0; i < dims; ++i) b.what += vh::fmt(" %d", st[i]);
		vh::note(b.what);
		mt_mat res = a.m.sub_stride(dims, &st[0]);
		equals(b, op, res, ns, ch, depth, want);
		if (!b.bad && a.m.is_memory_shared(a.m) && !res.is_memory_shared(a.m)) b.fail("sub_stride_shared", "the result does not share the memory");
		if (!b.bad && r.chance(1, 2)) {   // written through the result, seen in the source
			std::vector<double> nv(n * ch); for (int i = 0; i < n * ch; ++i) nv[i] = (double)r.in(0, 100);
			View w; w.m = res; w.sizes = ns; w.ch = ch; w.depth = depth;
			for (int e = 0; e < n; ++e) { std::vector<int> p = rv.index_of(e); for (int i = 0; i < dims; ++i) p[i] *= st[i]; for (int c = 0; c < ch; ++c) w.cells.push_back(a.cells[a.offset(p) * ch + c]); }
			mt_mat src(ns, mt_Depth_Channel((mt_Depth)depth, ch)); 
			View sv; sv.m = src; sv.sizes = ns; sv.ch = ch; sv.depth = depth; sv.store = new_store(n * ch, false);
			for (int i = 0; i < n * ch; ++i) { sv.cells.push_back((int)cells().size() - n * ch + i); cells()[sv.cells[i]] = nv[i]; }
			store_raw(sv);
			w.m.set(src);
			for (int i = 0; i < n * ch; ++i) cells()[w.cells[i]] = nv[i];
			vh::stat("written_through");
		}
	} else if (kind == 2 || kind == 3) {  // merge
		int k = (int)r.in(1, 5), dim = (int)r.in(0, dims - 1);
		op = kind == 2 ? "merge_align_dim" : "merge_align_channel";
		std::vector<View> parts; std::vector<mt_mat> ms;
		int total = 0;
		for (int i = 0; i < k; ++i) {
			std::vector<int> s = sizes; int c = ch;
			if (kind == 2) s[dim] = (int)r.in(1, 4); else c = (int)r.in(1, 5);
			View a = b.make(s, c, depth); fill(a, r); b.keep(a); parts.push_back(a); ms.push_back(a.m);
			total += kind == 2 ? s[dim] : c;
		}
		std::vector<int> ns = sizes; int nc = ch;
		if (kind == 2) ns[dim] = total; else nc = total;
		View rv; rv.sizes = ns; int n = rv.elements();
		std::vector<double> want;
		for (int e = 0; e < n; ++e) {
			std::vector<int> p = rv.index_of(e);
			if (kind == 2) { int i = 0; while (p[dim] >= parts[i].sizes[dim]) p[dim] -= parts[i++].sizes[dim]; for (int c = 0; c < ch; ++c) want.push_back(cell(parts[i], parts[i].offset(p) * ch + c)); }
			else for (int i = 0; i < k; ++i) for (int c = 0; c < parts[i].ch; ++c) want.push_back(cell(parts[i], e * parts[i].ch + c));
		}
		b.what = vh::fmt("%s of %d parts along %d, first %s", op, k, dim, shape(parts[0]).c_str());
		vh::note(b.what);
		b8 share = r.chance(1, 3);
		mt_mat res = !share && r.chance(1, 2) ? (kind == 2 ? mt_mat_helper::merge_align_dim(ms, dim) : mt_mat_helper::merge_align_channel(ms)) : kind == 2 ? mt_mat_helper::merge_align_dim(ms, dim, share) : mt_mat_helper::merge_align_channel(ms, share);
		equals(b, op, res, ns, nc, depth, want);
		if (!b.bad && !(k == 1 && share)) for (int i = 0; i < k; ++i) if (!parts[i].m.is_memory_shared(mt_mat()) && res.is_memory_shared(parts[i].m)) b.fail("merge_shared", "the result shares the memory of a part");
		if (!b.bad && k == 1 && share && !res.is_same(ms[0])) b.fail("merge_share_one", "the only part is not given back itself although memory may be shared");
	} else if (kind == 4 || kind == 5) {  // sum and product of matrices
		op = kind == 4 ? "add_all" : "dot_all";
		int k = (int)r.in(1, 4);
		std::vector<View> parts; std::vector<mt_mat> ms;
		for (int i = 0; i < k; ++i) { View a = b.make(sizes, ch, depth); fill(a, r, kind == 4 ? -30 : -3, kind == 4 ? 30 : 3); b.keep(a); parts.push_back(a); ms.push_back(a.m); }
		int same_part = k > 1 && r.chance(1, 4) ? (int)r.in(1, k - 1) : -1;
		if (same_part > 0) { ms[same_part] = ms[0]; }
		std::vector<double> want = values(parts[0]);
		for (int i = 1; i < k; ++i) { std::vector<double> v = values(parts[i == same_part ? 0 : i]); for (size_t j = 0; j < v.size(); ++j) { want[j] = kind == 4 ? want[j] + v[j] : want[j] * v[j]; } }
		for (size_t j = 0; j < want.size(); ++j) if (!fits(depth, want[j])) { vh::stat("skipped"); return; }
		b.what = vh::fmt("%s of %d, first %s", op, k, shape(parts[0]).c_str());
		vh::note(b.what);
		b8 share = r.chance(1, 3);
		mt_mat res = !share && r.chance(1, 2) ? (kind == 4 ? mt_mat_helper::add(ms) : mt_mat_helper::dot(ms)) : kind == 4 ? mt_mat_helper::add(ms, share) : mt_mat_helper::dot(ms, share);
		equals(b, op, res, sizes, ch, depth, want, is_float(depth) ? 1e-5 : 0);
		if (!b.bad && !(k == 1 && share)) for (int i = 0; i < k; ++i) if (!parts[i].m.is_memory_shared(mt_mat()) && res.is_memory_shared(parts[i].m)) b.fail("sum_shared", "the result shares the memory of an operand");
		if (!b.bad && k == 1 && share && !res.is_same(ms[0])) b.fail("sum_share_one", "the only operand is not given back itself although memory may be shared");
	} else if (kind == 6) {           // cloning a list
		op = "clone_all";
		std::vector<View> parts; std::vector<mt_mat> ms, out;
		int k = (int)r.in(0, 4);
		for (int i = 0; i < k; ++i) { View a = b.make(pick_sizes(r), pick_channel(r), pick_depth(r)); fill(a, r); b.keep(a); parts.push_back(a); ms.push_back(a.m); }
		out.resize(r.in(0, 6));
		b.what = vh::fmt("clone of %d matrices", k);
		vh::note(b.what);
		mt_mat_helper::clone(out, ms);
		if ((int)out.size() != k) b.fail("clone_count", vh::fmt("%d clones", (int)out.size()));
		for (int i = 0; i < k && !b.bad; ++i) { equals(b, op, out[i], parts[i].sizes, parts[i].ch, parts[i].depth, values(parts[i])); out[i].set(7); }
	} else if (kind == 7) {           // sizes of results
		op = "result_size";
		std::vector<int> k(dims), st(dims), got(dims), gotc(dims);
		for (int i = 0; i < dims; ++i) { sizes[i] = (int)r.in(1, 40); k[i] = (int)r.in(1, sizes[i]); st[i] = (int)r.in(1, 9); }
		int bt = (int)r.in(0, 2); static const mt_Conv_Boundary_Type bts[] = {mt_Conv_Boundary_Type_Valid, mt_Conv_Boundary_Type_Same, mt_Conv_Boundary_Type_Full};
		bool strides = r.chance(2, 3);
		mt_mat_helper::get_pooling_result_size(dims, &got[0], &sizes[0], &k[0], &st[0]);
		mt_mat_helper::get_conv_result_size(dims, &gotc[0], &sizes[0], &k[0], strides ? &st[0] : NULL, bts[bt]);
		for (int i = 0; i < dims; ++i) {
			int n = 0; for (int p = 0; p < sizes[i]; p += st[i]) { ++n; if (p + k[i] >= sizes[i]) break; }
			b.what = vh::fmt("size %d window %d stride %d", sizes[i], k[i], st[i]);
			if (got[i] != n) b.fail("pooling_size", vh::fmt("%d windows, expected %d", got[i], n));
			int full = bt == 0 ? sizes[i] - k[i] + 1 : bt == 1 ? sizes[i] : sizes[i] + k[i] - 1, m = 0;
			for (int p = 0; p < full; p += strides ? st[i] : 1) ++m;
			if (gotc[i] != m) b.fail("conv_size", vh::fmt("%d values of a convolution of kind %d, expected %d", gotc[i], bt, m));
		}
	} else {                          // typed wrapper
		op = "text";
		// Text of the depth and number of channels, and back.
		mt_Depth_Channel dc((mt_Depth)depth, (int)r.in(1, 300));
		std::string s = mt_Depth_Channel::depth_channel_str(dc);
		static const char* names[] = {"U8", "I8", "U16", "I16", "U32", "I32", "U64", "I64", "F32", "F64"};
		static const int ds[] = {mt_U8, mt_I8, mt_U16, mt_I16, mt_U32, mt_I32, mt_U64, mt_I64, mt_F32, mt_F64};
		for (int i = 0; i < 10; ++i) if (ds[i] == depth && s != vh::fmt("mt_%sC%d", names[i], dc.channel())) b.fail("depth_name", "the name of the depth and channels is " + s);
		mt_Depth_Channel back = mt_Depth_Channel::depth_channel_i32(s);
		if (!b.bad && (back.depth() != depth || back.channel() != dc.channel())) b.fail("depth_text", "read back from " + s + vh::fmt(" as depth %d, %d channels", (int)back.depth(), back.channel()));
		b.what = s;
	}
	vh::stat(std::string("op_") + op);
	b.check(op);
	uint64_t h = vh::hash_str(b.what); vh::dist("nontrivial", h);
	if (r.chance(1, 400)) vh::sample(b.what);
}

int main(int argc, char** argv) {
	std::vector<vh::Prop> props;
	vh::Prop p[] = {{"assemble", prop_assemble}};
	for (size_t i = 0; i < sizeof p / sizeof p[0]; ++i) props.push_back(p[i]);
	return vh::run_main(argc, argv, props, setup_log, teardown_log);
}
