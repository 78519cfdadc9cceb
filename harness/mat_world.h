// A pool of matrix views compared with the reference model after every operation.
#pragma once
#include "mat_model.h"
using namespace mm;

struct World {
	std::vector<View> pool;
	std::vector<Ext*> exts;
	Rng& r;
	std::string trace;
	bool bad;
	int checked_views;
	bool cached;	// matrices come from the cache, which refers to them too
	bool giant;	// the first matrix has more elements than 16 bits count, or nearly
	explicit World(Rng& rr) : r(rr), bad(false), checked_views(0), cached(false), giant(rr.chance(1, 3000) && getenv("VERIF_SMALL") == NULL) { cells().clear(); store_external().clear(); }
	~World() { pool.clear(); for (size_t i = 0; i < exts.size(); ++i) delete exts[i]; }

	void fail(const std::string& key, const std::string& detail) { bad = true; vh::viol(key, detail + " after " + (trace.size() > 900 ? "..." + trace.substr(trace.size() - 900) : trace)); }
	void log(const std::string& s) { trace += s + "; "; vh::note(trace.size() > 1500 ? trace.substr(trace.size() - 1500) : trace); }

	int refs(int store) const { int n = 0; for (size_t i = 0; i < pool.size(); ++i) n += pool[i].store == store; return n; }

	// Every live view shows what the model says; nothing else was written.
	void check_all(const char* op) {
		for (size_t i = 0; i < pool.size() && !bad; ++i) {
			std::string d;
			if (!same(pool[i], d, r)) fail(std::string("view_") + op, vh::fmt("view %d (%s): %s", (int)i, describe(pool[i]).c_str(), d.c_str()));
			int expected = store_external()[pool[i].store] ? 0 : refs(pool[i].store);
			int got = pool[i].m.reference_number();
			if (!bad && got != expected && !(cached && expected > 0 && got == expected + 1)) fail(std::string("reference_number_") + op, vh::fmt("view %d has reference number %d, %d views share its memory", (int)i, got, expected));
		}
		vh::stat("views_compared", (long long)pool.size());
		for (size_t i = 0; i < exts.size() && !bad; ++i) if (!exts[i]->intact()) fail(std::string("outside_write_") + op, "bytes of an external buffer that belong to no element were changed");
		if (!bad && log_lines() != 0) { fail(std::string("logged_") + op, "an error was logged: " + last_log()); clear_log(); }
		vh::stat("evaluations");
	}

	View& any() { return pool[r.next() % pool.size()]; }

	void add(View& v) {
		if (pool.size() >= 9) pool.erase(pool.begin() + r.next() % pool.size());
		pool.push_back(v);
		v.m = mt_mat();
	}

	template <class T, class A> mt_mat listed(const std::vector<int>& sizes, int ch, std::vector<double> x) {
		int how = sizes.size() == 2 && ch == 1 ? (int)r.in(0, 2) : 0; vh::stat("listed");
		if (how == 1) { std::vector<std::vector<T> > t(sizes[0], std::vector<T>(sizes[1])); for (size_t i = 0; i < x.size(); ++i) t[i / sizes[1]][i % sizes[1]] = (T)x[i]; return mt_mat_t<T>::read(t); }
		if (how == 2 && sizes[0] == 1) { std::vector<T> t(x.size()); for (size_t i = 0; i < x.size(); ++i) t[i] = (T)x[i]; return mt_mat_t<T>::read(t); }
		x.resize(12);
		mt_mat_t<T> t = sizes.size() == 2 ? mt_mat_t<T>(sizes[0], sizes[1], ch) : mt_mat_t<T>(sizes[0], sizes[1], sizes[2], ch);
		return t.read(x[0], (A)x[1], (A)x[2], (A)x[3], (A)x[4], (A)x[5], (A)x[6], (A)x[7], (A)x[8], (A)x[9], (A)x[10], (A)x[11]);
	}

	void new_base() {
		int dims = (int)r.in(1, 10); dims = dims <= 1 ? 1 : dims <= 5 ? 2 : dims <= 7 ? 3 : dims == 8 ? 4 : dims == 9 ? 5 : 6;
		int depth = pick_depth(r), ch = pick_channel(r);
		std::vector<int> sizes(dims); mt_Depth_Channel dc((mt_Depth)depth, ch);
		for (int i = 0; i < dims; ++i) sizes[i] = (int)r.in(1, dims <= 2 ? 7 : dims == 3 ? 5 : 3);
		if (cached && !pool.empty() && r.chance(2, 3)) { // sizes that begin like those of another one
			const View& o = any(); sizes = o.sizes; if (r.chance(3, 4)) { depth = o.depth; ch = o.ch; }
			int q = (int)r.in(0, 3); if (q == 0 && sizes.size() > 1) sizes.pop_back(); else if (q == 1 && sizes.size() < 4) sizes.push_back((int)r.in(1, 2)); else if (q == 2) sizes[(size_t)r.in(0, (int)sizes.size() - 1)] = (int)r.in(1, 4);
			long e = 1; for (size_t i = 0; i < sizes.size(); ++i) e *= sizes[i]; if (e > 400) sizes.resize(1); dims = (int)sizes.size();
			dc = mt_Depth_Channel((mt_Depth)depth, ch); vh::stat("cache_alike");
		}
		if (!cached && dims <= 3 && r.chance(1, 60)) { sizes[r.next() % dims] = (int)r.in(20, dims == 1 ? 300 : 60); vh::stat("long_sizes"); }
		if (giant && !cached && pool.empty()) { int d = (int)r.in(0, dims - 1), rest = 1; for (int i = 0; i < dims; ++i) if (i != d) rest *= sizes[i]; if (ch > 4) ch = 1 + ch % 4; sizes[d] = (int)r.in(30, 70) * 1000 / rest; vh::stat("giant_matrices"); }
		View v;
		v.sizes = sizes; v.ch = ch; v.depth = depth;
		dc = mt_Depth_Channel((mt_Depth)depth, ch);
		int n = v.elements();
		v.store = new_store(n * ch, false);
		int first = (int)cells().size() - n * ch;
		for (int i = 0; i < n * ch; ++i) v.cells.push_back(first + i);
		int how = (int)r.in(0, 5); bool list = (dims == 2 || dims == 3) && n * ch <= 12 && (depth == mt_U8 || depth == mt_I32 || depth == mt_I64 || is_float(depth)) && r.chance(1, 2);
		std::vector<double> vals(ch);
		for (int c = 0; c < ch; ++c) vals[c] = pick_value(r, depth);
		double one = pick_value(r, depth);
		if (list) {
			how = 9;
			std::vector<double> x(n * ch); for (size_t i = 0; i < x.size(); ++i) cells()[v.cells[i]] = x[i] = pick_value(r, depth);
			if (depth == mt_U8) v.m = listed<u8, int>(sizes, ch, x); else if (depth == mt_I32) v.m = listed<i32, i32>(sizes, ch, x); else if (depth == mt_I64) v.m = listed<i64, i64>(sizes, ch, x); else if (depth == mt_F32) v.m = listed<f32, double>(sizes, ch, x); else v.m = listed<f64, double>(sizes, ch, x);
			if (v.m.channel() != ch || v.m.depth() != depth) fail("listed", "another type");
		} else if (how == 0 || how > 4) {
			if (cached && r.chance(1, 4)) { if (r.chance(1, 2)) v.m = s_mat_cache.get(sizes, dc); else { mt_mat t(sizes, dc); v.m = s_mat_cache.get_as(t); } }
			else if (dims == 1) v.m = r.chance(1, 2) ? mt_mat(sizes[0], dc) : mt_mat(1, &sizes[0], dc);
			else if (dims == 2 && r.chance(1, 2)) v.m = mt_mat(sizes[0], sizes[1], dc);
			else if (dims == 3 && r.chance(1, 2)) v.m = mt_mat(sizes[0], sizes[1], sizes[2], dc);
			else if (r.chance(1, 2)) v.m = mt_mat(sizes, dc);
			else {
				// created anew in an object that was used before, or that shares its memory with other views
				mt_mat t; int old = (int)r.in(0, 4);
				if (old == 1) t.create(2, 2, mt_F32C1); else if (old == 2) { int s6[] = {1, 2, 1, 2, 1, 1}; t.create(6, s6, mt_U8C3); } else if (old == 3) { int s5[] = {1, 1, 1, 1, 2}; t = mt_mat(5, s5, mt_I16C1, 3.0); }
				else if (old == 4 && !pool.empty()) { const View& o = any(); t = o.m; if (o.depth == depth && o.ch == ch && o.sizes == sizes) t = mt_mat(); }
				if (dims == 1 && r.chance(1, 2)) t.create(sizes[0], dc); else if (dims == 2 && r.chance(1, 2)) t.create(sizes[0], sizes[1], dc); else if (dims == 3 && r.chance(1, 2)) t.create(sizes[0], sizes[1], sizes[2], dc); else t.create(dims, &sizes[0], dc);
				v.m = t;
				if (dims == 2) { mt_rect all = t.rect(); if (all.m_left != 0 || all.m_top != 0 || all.m_width != sizes[1] || all.m_height != sizes[0]) fail("rect", "the rectangle of a matrix is not the whole of it"); }
				vh::stat("created");
			}
			fill_raw(v, r);
		} else if (how == 1) {
			int f = (int)r.in(0, 2);
			if (f == 0) v.m = mt_mat(sizes, dc, one);
			else if (f == 1) v.m = mt_mat(dims, &sizes[0], dc, one);
			else if (dims == 1) v.m = mt_mat(sizes[0], dc, one);
			else if (dims == 2) v.m = mt_mat(sizes[0], sizes[1], dc, one);
			else if (dims == 3) v.m = mt_mat(sizes[0], sizes[1], sizes[2], dc, one);
			else v.m = mt_mat(sizes, dc, one);
			if (r.chance(1, 3)) { mt_mat t = v.m; v.m = mt_mat(); v.m = mt_mat(t, one); }
			for (size_t i = 0; i < v.cells.size(); ++i) cells()[v.cells[i]] = one;
		} else if (how == 2 && ch <= 4 && r.chance(1, 2)) {
			mt_scalar sc(vals[0], ch > 1 ? vals[1] : 77, ch > 2 ? vals[2] : 78, ch > 3 ? vals[3] : 79); int f = (int)r.in(0, 2);
			if (f == 0) v.m = mt_mat(sizes, dc, sc);
			else if (f == 1) v.m = mt_mat(dims, &sizes[0], dc, sc);
			else if (dims == 1) v.m = mt_mat(sizes[0], dc, sc);
			else if (dims == 2) v.m = mt_mat(sizes[0], sizes[1], dc, sc);
			else if (dims == 3) v.m = mt_mat(sizes[0], sizes[1], sizes[2], dc, sc);
			else v.m = mt_mat(sizes, dc, sc);
			if (r.chance(1, 3)) { mt_mat t = v.m; v.m = mt_mat(); v.m = mt_mat(t, sc); }
			for (size_t i = 0; i < v.cells.size(); ++i) cells()[v.cells[i]] = vals[i % ch];
			vh::stat("scalar_values");
		} else if (how == 2) {
			int f = (int)r.in(0, 2);
			if (f == 0) v.m = mt_mat(sizes, dc, vals);
			else if (f == 1) v.m = mt_mat(dims, &sizes[0], dc, vals);
			else if (dims == 1) v.m = mt_mat(sizes[0], dc, vals);
			else if (dims == 2) v.m = mt_mat(sizes[0], sizes[1], dc, vals);
			else if (dims == 3) v.m = mt_mat(sizes[0], sizes[1], sizes[2], dc, vals);
			else v.m = mt_mat(dims, &sizes[0], dc, vals);
			if (r.chance(1, 3)) { mt_mat t = v.m; v.m = mt_mat(); v.m = mt_mat(t, vals); }
			for (size_t i = 0; i < v.cells.size(); ++i) cells()[v.cells[i]] = vals[i % ch];
		} else if (how == 3) {
			// Memory handed over: it must be released by the matrix.
			int bytes = v.elements() * ch * esize(depth);
			u8* mem = (u8*)malloc(bytes);
			int which = (int)r.in(0, 2);
			if (which == 0) v.m = mt_mat(dims, &sizes[0], dc, mem, NULL, mem);
			else if (which == 1) v.m = mt_mat(sizes, dc, mem, std::vector<int>(), mem);
			else if (dims == 1) v.m = mt_mat(sizes[0], dc, mem, (const int*)NULL, mem);
			else if (dims == 2) v.m = mt_mat(sizes[0], sizes[1], dc, mem, (const int*)NULL, mem);
			else if (dims == 3) v.m = mt_mat(sizes[0], sizes[1], sizes[2], dc, mem, (const int*)NULL, mem);
			else v.m = mt_mat(dims, &sizes[0], dc, mem, NULL, mem);
			fill_raw(v, r);
		} else {
			// Memory of the caller with gaps between rows.
			store_external()[v.store] = true;
			Ext* e = new Ext();
			std::vector<int> steps(dims);
			int es = ch * esize(depth);
			int step = es;
			for (int i = dims - 1; i >= 0; --i) { steps[i] = step; step = step * sizes[i] + (int)r.in(0, 2) * es; }
			e->mem.assign(step + 64, 0xA5);
			exts.push_back(e);
			e->mine.assign(e->mem.size(), false);
			int off = 32;
			std::vector<int> idx(dims, 0);
			for (int k = 0; k < n; ++k) {
				int o = off;
				for (int i = 0; i < dims; ++i) o += idx[i] * steps[i];
				for (int b = 0; b < es; ++b) e->mine[o + b] = true;
				next_index(idx, sizes);
			}
			u8* p = &e->mem[off];
			if (dims == 1 && r.chance(1, 2)) v.m = mt_mat(sizes[0], dc, p, &steps[0]);
			else if (dims == 2 && r.chance(1, 2)) v.m = mt_mat(sizes[0], sizes[1], dc, p, &steps[0]);
			else if (dims == 3 && r.chance(1, 2)) v.m = mt_mat(sizes[0], sizes[1], sizes[2], dc, p, &steps[0]);
			else if (r.chance(1, 2)) v.m = mt_mat(sizes, dc, p, steps);
			else v.m = mt_mat(dims, &sizes[0], dc, p, &steps[0]);
			fill_raw(v, r);
		}
		log(vh::fmt("base %s how %d", describe(v).c_str(), how));
		add(v);
		check_all("construct");
	}

	// A view of v restricted to a box.
	static View boxed(const View& v, const std::vector<mt_range>& rg) {
		View w; w.ch = v.ch; w.depth = v.depth; w.store = v.store;
		for (int i = 0; i < v.dims(); ++i) w.sizes.push_back(rg[i].m_end - rg[i].m_start);
		std::vector<int> idx(v.dims(), 0);
		int n = w.elements();
		for (int k = 0; k < n; ++k) {
			std::vector<int> src(idx);
			for (int i = 0; i < v.dims(); ++i) src[i] += rg[i].m_start;
			int e = v.offset(src);
			for (int c = 0; c < v.ch; ++c) w.cells.push_back(v.cells[e * v.ch + c]);
			next_index(idx, w.sizes);
		}
		return w;
	}

	// One operation that makes a view sharing memory with its source.
	void view_op() {
		View& v = any();
		int op = (int)r.in(0, 21);
		View w;
		w.ch = v.ch; w.depth = v.depth; w.store = v.store;
		std::vector<mt_range> rg(v.dims());
		for (int i = 0; i < v.dims(); ++i) rg[i] = mt_range(0, v.sizes[i]);
		int d = (int)r.in(0, v.dims() - 1);
		const char* name = "?";
		switch (op) {
		case 0: { int a = (int)r.in(0, v.sizes[d] - 1), b = (int)r.in(a + 1, v.sizes[d]); rg[d] = mt_range(a, b); w = boxed(v, rg); int f = (int)r.in(0, 2);
			if (d == 0 && r.chance(1, 4)) w.m = f == 0 ? v.m.sub(a, b) : f == 1 ? v.m.sub(mt_range(a, b)) : mt_mat(v.m, mt_range(a, b)); else if (f == 0) w.m = v.m.sub(a, b, d); else if (f == 1) w.m = v.m.sub(mt_range(a, b), d); else w.m = mt_mat(v.m, mt_range(a, b), d); name = "sub_range"; break; }
		case 1: case 2: { for (int i = 0; i < v.dims(); ++i) { int a = (int)r.in(0, v.sizes[i] - 1), b = (int)r.in(a + 1, v.sizes[i]); rg[i] = mt_range(a, b); } w = boxed(v, rg); int f = (int)r.in(0, 4);
			if (f == 0) w.m = v.m.sub(rg); else if (f == 1) w.m = v.m.sub(v.dims(), &rg[0]); else if (f == 2) w.m = mt_mat(v.m, rg); else if (f == 3 || v.dims() != 2) w.m = mt_mat(v.m, v.dims(), &rg[0]);
			else { mt_rect roi(rg[1].m_start, rg[0].m_start, rg[1].size(), rg[0].size()); if (r.chance(1, 2)) w.m = v.m.sub(roi); else w.m = mt_mat(v.m, roi); } name = "sub_ranges"; break; }
		case 3: { int i = (int)r.in(0, v.sizes[d] - 1); rg[d] = mt_range(i, i + 1); w = boxed(v, rg); w.m = d == 0 && r.chance(1, 4) ? v.m.index(i) : v.m.index(i, d); name = "index"; break; }
		case 4: { int k = (int)r.in(1, v.sizes[d]); rg[d] = mt_range(0, k); w = boxed(v, rg); w.m = d == 0 && r.chance(1, 4) ? v.m.front(k) : v.m.front(k, d); name = "front"; break; }
		case 5: { int k = (int)r.in(1, v.sizes[d]); rg[d] = mt_range(v.sizes[d] - k, v.sizes[d]); w = boxed(v, rg); w.m = d == 0 && r.chance(1, 4) ? v.m.back(k) : v.m.back(k, d); name = "back"; break; }
		case 6: {
			if (v.dims() == 2) { int q = (int)r.in(0, 1), i = (int)r.in(0, v.sizes[q] - 1); rg[q] = mt_range(i, i + 1); w = boxed(v, rg); w.m = q == 0 ? v.m.row(i) : v.m.col(i); name = "row_col"; }
			else if (v.dims() == 3) { int i = (int)r.in(0, v.sizes[0] - 1); rg[0] = mt_range(i, i + 1); w = boxed(v, rg); w.m = v.m.plane(i); name = "plane"; }
			else return;
			break; }
		case 7: case 8: {
			std::vector<bool> f(v.dims()); std::vector<int> ds; std::vector<b8> fb;
			for (int i = 0; i < v.dims(); ++i) { f[i] = r.chance(1, 2); }
			int how = (int)r.in(0, 5);
			if (how == 0) { for (int i = 0; i < v.dims(); ++i) f[i] = i == d; }
			if (how == 1) for (int i = 0; i < v.dims(); ++i) f[i] = true;
			bool none = true;
			for (int i = 0; i < v.dims(); ++i) { fb.push_back(f[i] ? sys_true : sys_false); if (f[i]) { ds.push_back(i); none = false; } }
			if (none) { f[0] = true; fb[0] = sys_true; ds.push_back(0); }
			for (size_t i = ds.size(); i > 1; --i) std::swap(ds[i - 1], ds[r.next() % i]);
			w.sizes = v.sizes;
			std::vector<int> idx(v.dims(), 0);
			for (int k = 0; k < v.elements(); ++k) { std::vector<int> s(idx); for (int i = 0; i < v.dims(); ++i) if (f[i]) s[i] = v.sizes[i] - 1 - s[i]; int e = v.offset(s); for (int c = 0; c < v.ch; ++c) w.cells.push_back(v.cells[e * v.ch + c]); next_index(idx, v.sizes); }
			if (how == 0) w.m = v.m.flip(d); else if (how == 1) w.m = v.m.flip_all_dim(); else if (how == 2) w.m = v.m.flip(ds); else if (how == 3) w.m = v.m.flip((int)ds.size(), &ds[0]); else if (how == 4) w.m = v.m.flip(fb); else w.m = v.m.flip(v.dims(), &fb[0]);
			name = "flip"; break; }
		case 9: case 10: {
			int a = d, b = (int)r.in(0, v.dims() - 1);
			if (v.dims() == 2 && r.chance(1, 2)) { a = 0; b = 1; w.m = v.m.t(); name = "t"; } else { w.m = v.m.swap_dim(a, b); name = "swap_dim"; }
			w.sizes = v.sizes; std::swap(w.sizes[a], w.sizes[b]);
			std::vector<int> idx(v.dims(), 0);
			for (int k = 0; k < v.elements(); ++k) { std::vector<int> s(idx); std::swap(s[a], s[b]); int e = v.offset(s); for (int c = 0; c < v.ch; ++c) w.cells.push_back(v.cells[e * v.ch + c]); next_index(idx, w.sizes); }
			break; }
		case 11: case 12: {
			int a = (int)r.in(0, v.ch - 1), b = (int)r.in(a + 1, v.ch);
			w.sizes = v.sizes; w.ch = b - a;
			if (b == a + 1 && r.chance(1, 2)) { if (r.chance(1, 2)) w.m = v.m.channel_at(a); else { std::vector<mt_mat> all; v.m.all_channel(all); if ((int)all.size() != v.ch) { fail("all_channel", "wrong number"); return; } w.m = all[a]; } name = "channel_at"; }
			else { w.m = v.m.sub_channel(a, b); name = "sub_channel"; }
			for (int k = 0; k < v.elements(); ++k) for (int c = a; c < b; ++c) w.cells.push_back(v.cells[k * v.ch + c]);
			break; }
		case 13: case 14: {
			if (!v.m.is_continuous()) return;
			int total = v.elements();
			int nc = v.ch;
			if (v.m.is_step_positive() && r.chance(1, 2)) { std::vector<int> dv; for (int q = 1; q <= total * v.ch; ++q) if (total * v.ch % q == 0 && q <= 12) dv.push_back(q); nc = dv[r.next() % dv.size()]; }
			int left = total * v.ch / nc;
			int nd = (int)r.in(1, 5);
			std::vector<int> s;
			for (int i = 0; i + 1 < nd; ++i) { std::vector<int> dv; for (int q = 1; q <= left; ++q) if (left % q == 0) dv.push_back(q); int q = dv[r.next() % dv.size()]; s.push_back(q); left /= q; }
			s.push_back(left);
			w.sizes = s; w.ch = nc; w.cells = v.cells;
			if (nd == 2 && r.chance(1, 2)) w.m = v.m.reshape_2d(s[0], s[1], nc == v.ch && r.chance(1, 2) ? -1 : nc);
			else if (nd == 3 && r.chance(1, 2)) w.m = v.m.reshape_3d(s[0], s[1], s[2], nc == v.ch && r.chance(1, 2) ? -1 : nc);
			else if (r.chance(1, 2)) w.m = v.m.reshape(s, nc == v.ch && r.chance(1, 2) ? -1 : nc);
			else if (nc == v.ch && r.chance(1, 2)) { if (nd == 2) w.m = v.m.reshape_2d(s[0], s[1]); else if (nd == 3) w.m = v.m.reshape_3d(s[0], s[1], s[2]); else if (r.chance(1, 2)) w.m = v.m.reshape(s); else w.m = v.m.reshape(nd, &s[0]); }
			else w.m = v.m.reshape(nd, &s[0], nc);
			name = "reshape"; break; }
		case 15: {
			if (!v.m.is_continuous() || !v.m.is_step_positive()) return;
			std::vector<int> opts; int last = v.sizes.back();
			for (int q = 1; q <= 12; ++q) if ((q % v.ch == 0 || v.ch % q == 0) && last * v.ch % q == 0) opts.push_back(q);
			int q = opts[r.next() % opts.size()];
			w.sizes = v.sizes; w.sizes.back() = last * v.ch / q; w.ch = q; w.cells = v.cells; w.m = v.m.reshape_channel(q); name = "reshape_channel"; break; }
		case 16: { if (v.dims() > 5) return; int k = (int)r.in(0, v.dims()); w.sizes = v.sizes; w.sizes.insert(w.sizes.begin() + k, 1); w.cells = v.cells; w.m = v.m.increase_dim(k); name = "increase_dim"; break; }
		case 17: { int k = -1; for (int i = 0; i < v.dims(); ++i) if (v.sizes[i] == 1 && (k < 0 || r.chance(1, 2))) k = i; if (k < 0 || v.dims() < 2) return; w.sizes = v.sizes; w.sizes.erase(w.sizes.begin() + k); w.cells = v.cells; w.m = v.m.decrease_dim(k); name = "decrease_dim"; break; }
		case 18: {
			if (v.dims() > 4) return;
			int q = v.sizes[d]; std::vector<int> dv; for (int k = 1; k <= q; ++k) if (q % k == 0) dv.push_back(k);
			int a = dv[r.next() % dv.size()]; std::vector<int> s; s.push_back(a); s.push_back(q / a);
			if (r.chance(1, 3) && v.dims() < 4) s.insert(s.begin() + r.in(0, 2), 1);
			w.m = v.m.split_dim(d, (int)s.size(), &s[0]);
			w.sizes = v.sizes; w.sizes.erase(w.sizes.begin() + d); w.sizes.insert(w.sizes.begin() + d, s.begin(), s.end()); w.cells = v.cells; name = "split_dim"; break; }
		case 19: {
			if (v.dims() < 2) return;
			int k = (int)r.in(0, v.dims() - 2), n = (int)r.in(2, v.dims() - k);
			w.m = v.m.combine_dim(k, n); int p = 1; for (int i = 0; i < n; ++i) p *= v.sizes[k + i];
			w.sizes = v.sizes; w.sizes.erase(w.sizes.begin() + k, w.sizes.begin() + k + n); w.sizes.insert(w.sizes.begin() + k, p); w.cells = v.cells; name = "combine_dim"; break; }
		case 20: { if (v.dims() > 5) return; w.m = v.m.channel_as_last_dim(); w.sizes = v.sizes; w.sizes.push_back(v.ch); w.ch = 1; w.cells = v.cells; name = "channel_as_last_dim"; break; }
		default: {
			if (v.dims() < 2 || v.ch != 1 || v.sizes.back() > 100) return;
			if (v.m.step()[v.dims() - 1] != esize(v.depth)) return;
			w.m = v.m.last_dim_as_channel(); w.ch = v.sizes.back(); w.sizes = v.sizes; w.sizes.pop_back(); w.cells = v.cells; name = "last_dim_as_channel"; break; }
		}
		log(vh::fmt("%s of %s -> %s", name, describe(v).c_str(), describe(w).c_str()));
		vh::stat(std::string("op_") + name);
		bool shared = w.m.is_memory_shared(v.m);
		if (!shared) {
			bool may_copy = std::string(name) == "combine_dim" || std::string(name) == "decrease_dim";
			if (!may_copy) { fail(std::string("not_shared_") + name, "a view does not share the memory of its source"); return; }
			// The dimensions could not be merged in place: the result is a copy.
			own_copy(w);
			vh::stat("combined_by_copy");
		}
		add(w);
		check_all(name);
	}

	// Copies with memory of their own.
	void copy_op() {
		View v = any();
		int op = (int)r.in(0, 10);
		View w; w.ch = v.ch; w.depth = v.depth; w.sizes = v.sizes; w.cells = v.cells;
		const char* name = "?"; bool may_keep = false;
		switch (op) {
		case 0: case 1: w.m = v.m.clone(); own_copy(w); name = "clone"; break;
		case 2: { mt_mat t; if (r.chance(1, 2)) t.create(3, 2, mt_F64C1); t.copy_from(v.m); w.m = t; own_copy(w); name = "copy_from"; break; }
		case 3: case 4: case 5: {
			int d = pick_depth(r);
			for (size_t i = 0; i < v.cells.size(); ++i) if (!fits(d, cells()[v.cells[i]])) return;
			if (r.chance(1, 2)) w.m = v.m.convert((mt_Depth)d); else { mt_mat t; v.m.convert(t, (mt_Depth)d); w.m = t; }
			w.depth = d; own_copy(w); for (size_t i = 0; i < w.cells.size(); ++i) cells()[w.cells[i]] = as_depth(d, cells()[w.cells[i]]); name = "convert"; break; }
		case 6: case 7: {
			std::vector<int> n(v.dims()); int total = v.elements() * v.ch; int nch = (int)r.in(1, 3);
			for (int i = 0; i < v.dims(); ++i) { n[i] = (int)r.in(1, 3); total *= n[i]; }
			if (total * nch > 600) return;
			int how = (int)r.in(0, 6); if (how == 6) nch = 1;
			if (how == 6) { if (v.dims() == 2 && r.chance(1, 2)) w.m = v.m.repeat_2d(n[0], n[1]); else if (v.dims() == 3 && r.chance(1, 2)) w.m = v.m.repeat_3d(n[0], n[1], n[2]); else if (r.chance(1, 2)) w.m = v.m.repeat(v.dims(), &n[0]); else { for (int i = 1; i < v.dims(); ++i) n[i] = 1; w.m = v.m.repeat(n[0]); } }
			else if (how == 2 && v.dims() == 2) w.m = v.m.repeat_2d(n[0], n[1], nch);
			else if (how == 3 && v.dims() == 3) w.m = v.m.repeat_3d(n[0], n[1], n[2], nch);
			else if (how == 4) { int d = (int)r.in(0, v.dims() - 1); for (int i = 0; i < v.dims(); ++i) if (i != d) n[i] = 1; w.m = v.m.repeat(n[d], d, nch); }
			else if (how == 5) { nch = 1; w.m = v.m.repeat(n); }
			else if (how == 1) w.m = v.m.repeat(v.dims(), &n[0], nch);
			else w.m = v.m.repeat(n, nch);
			w.cells.clear(); w.ch = v.ch * nch;
			for (int i = 0; i < v.dims(); ++i) w.sizes[i] *= n[i];
			std::vector<int> idx(v.dims(), 0);
			for (int k = 0; k < w.elements(); ++k) { std::vector<int> s(idx); for (int i = 0; i < v.dims(); ++i) s[i] %= v.sizes[i]; int e = v.offset(s); for (int c = 0; c < w.ch; ++c) w.cells.push_back(v.cells[e * v.ch + c % v.ch]); next_index(idx, w.sizes); }
			own_copy(w); name = "repeat"; break; }
		case 8: {
			bool may = r.chance(1, 3); std::vector<mt_mat> parts((size_t)r.in(0, 3)); if (may) v.m.split(parts, sys_true); else if (r.chance(1, 2)) v.m.split(parts); else v.m.split(parts, sys_false);
			if ((int)parts.size() != v.ch) { fail("split", "wrong number of channels"); return; }
			int c = (int)r.in(0, v.ch - 1);
			bool kept = may && parts[c].is_memory_shared(v.m);
			for (int k = 0; !may && k < v.ch; ++k) if (parts[k].is_memory_shared(v.m)) { fail("split_shared", "split shares memory although that was not allowed"); return; }
			w.m = parts[c]; w.ch = 1; w.cells.clear(); for (int k = 0; k < v.elements(); ++k) w.cells.push_back(v.cells[k * v.ch + c]);
			parts.clear(); if (!kept) own_copy(w); else { vh::stat("split_kept"); may_keep = true; w.store = v.store; } name = "split"; break; }
		case 9: {
			// A new matrix of the same shape, filled before it is looked at.
			double x = pick_value(r, v.depth); int how = (int)r.in(0, 2); std::vector<double> xs(v.ch); for (int c = 0; c < v.ch; ++c) xs[c] = pick_value(r, v.depth);
			if (how == 0) w.m = mt_mat(v.m, x); else if (how == 1) w.m = mt_mat(v.m, xs); else { w.m = mt_mat(v.m, mt_mat::Construct_Type_Create_As_Size); w.m.set(x); }
			own_copy(w); for (size_t i = 0; i < w.cells.size(); ++i) cells()[w.cells[i]] = how == 1 ? xs[i % v.ch] : x; name = "same_shape"; break; }
		default: {
			// Reading from the type-safe constructors.
			mt_mat m; int rows = (int)r.in(1, 4), cols = (int)r.in(1, 4);
			std::vector<std::vector<i32> > data(rows, std::vector<i32>(cols));
			w.sizes.clear(); w.sizes.push_back(rows); w.sizes.push_back(cols); w.ch = 1; w.depth = mt_I32; w.cells.clear();
			std::vector<double> flat;
			for (int y = 0; y < rows; ++y) for (int x = 0; x < cols; ++x) { data[y][x] = (int)r.in(-1000, 1000); flat.push_back(data[y][x]); }
			if (rows == 1 && r.chance(1, 2)) w.m = mt_mat_t<i32>::read(data[0]); else w.m = mt_mat_t<i32>::read(data);
			w.store = new_store(rows * cols, false); int first = (int)cells().size() - rows * cols;
			for (int i = 0; i < rows * cols; ++i) { w.cells.push_back(first + i); cells()[first + i] = flat[i]; }
			name = "read"; break; }
		}
		log(vh::fmt("%s of %s -> %s", name, describe(v).c_str(), describe(w).c_str()));
		vh::stat(std::string("op_") + name);
		if (!may_keep && w.m.is_memory_shared(v.m)) { fail(std::string("shared_") + name, "a copy shares the memory of its source"); return; }
		v = View();
		add(w);
		check_all(name);
	}

	void put(View& v, int element, int c, double x) { cells()[v.cells[element * v.ch + c]] = x; }

	void write_op() {
		View& v = any();
		int op = (int)r.in(0, 13);
		int d = v.depth, n = v.elements();
		double x = pick_value(r, d);
		std::vector<double> xs(v.ch);
		for (int c = 0; c < v.ch; ++c) xs[c] = pick_value(r, d);
		if (r.chance(1, 5)) for (int c = 1; c < v.ch; ++c) xs[c] = xs[0];
		int e = (int)r.in(0, n - 1);
		std::vector<int> idx = v.index_of(e);
		const char* name = "?";
		switch (op) {
		case 0: case 1: v.m.set(x); for (int k = 0; k < n; ++k) for (int c = 0; c < v.ch; ++c) put(v, k, c, x); name = "set_value"; break;
		case 2: case 3: if (r.chance(1, 2)) v.m.set(xs); else v.m.set(v.ch, &xs[0]); for (int k = 0; k < n; ++k) for (int c = 0; c < v.ch; ++c) put(v, k, c, xs[c]); name = "set_channels"; break;
		case 4: { if (v.ch > 4) return; mt_scalar s(0, 0, 0, 0); for (int c = 0; c < 4; ++c) s[c] = c < v.ch ? xs[c] : 0; v.m.set(s); for (int k = 0; k < n; ++k) for (int c = 0; c < v.ch; ++c) put(v, k, c, xs[c]); name = "set_scalar"; break; }
		case 5: {
			if (v.dims() == 2 && r.chance(1, 2)) v.m.set(x, idx[0], idx[1]); else if (v.dims() == 3 && r.chance(1, 2)) v.m.set(x, idx[0], idx[1], idx[2]); else v.m.set(x, v.dims(), &idx[0]);
			for (int c = 0; c < v.ch; ++c) put(v, e, c, x); name = "set_element"; break; }
		case 6: {
			if (v.ch <= 4 && r.chance(1, 2)) { mt_scalar s(0, 0, 0, 0); for (int c = 0; c < v.ch; ++c) s[c] = xs[c]; if (v.dims() == 2 && r.chance(1, 2)) v.m.set(s, idx[0], idx[1]); else if (v.dims() == 3 && r.chance(1, 2)) v.m.set(s, idx[0], idx[1], idx[2]); else v.m.set(s, v.dims(), &idx[0]); }
			else v.m.set(&xs[0], v.dims(), &idx[0]);
			for (int c = 0; c < v.ch; ++c) put(v, e, c, xs[c]); name = "set_element_channels"; break; }
		case 7: { int c = (int)r.in(0, v.ch - 1); write_at(v, idx, c, x, r); put(v, e, c, x); name = "at"; break; }
		case 8: {
			bool same = r.chance(1, 2); int total = same ? n : n * v.ch;
			if (total > 100) return;
			double start = r.in(0, 20);
			if (same && r.chance(1, 2)) v.m.set_incremental(start); else v.m.set_incremental(start, same ? sys_true : sys_false);
			for (int k = 0; k < n; ++k) for (int c = 0; c < v.ch; ++c) put(v, k, c, same ? start + k : start + k * v.ch + c);
			name = "set_incremental"; break; }
		case 9: case 10: case 11: {
			// From another matrix of the same size, of any depth, laid out in any way.
			View s; bool found = false;
			for (int tries = 0; tries < 6 && !found; ++tries) { View& c = any(); if (c.store != v.store && c.ch == v.ch && c.sizes == v.sizes) { s = c; found = true; } }
			if (!found) s = laid_out(v.sizes, v.ch, r.chance(1, 3) ? v.depth : pick_depth(r), r);
			for (size_t i = 0; i < s.cells.size(); ++i) if (!fits(v.depth, cells()[s.cells[i]])) return;
			if (op == 11 && s.depth == v.depth) { v.m.copy_from(s.m); name = "copy_from_in_place"; }
			else { v.m.set(s.m); name = s.depth == v.depth ? "set_mat" : "set_mat_depth"; }
			for (size_t i = 0; i < v.cells.size(); ++i) cells()[v.cells[i]] = as_depth(v.depth, cells()[s.cells[i]]);
			break; }
		case 12: {
			if (v.dims() != 2 || v.ch != 1) return;
			bool left = r.chance(1, 2); if (left && r.chance(1, 2)) v.m.set_eye(); else v.m.set_eye(left ? sys_true : sys_false);
			for (int k = 0; k < n; ++k) { std::vector<int> q = v.index_of(k); put(v, k, 0, (left ? q[0] == q[1] : q[0] + q[1] == v.sizes[1] - 1) ? 1 : 0); }
			name = "set_eye"; break; }
		default: {
			// Raw array copies.
			View s = laid_out(v.sizes, v.ch, v.depth, r);
			mt_array_iteration::array_copy(v.m.data(), s.m.data(), v.dims(), v.m.size(), v.m.step(), s.m.step(), v.m.element_size());
			for (size_t i = 0; i < v.cells.size(); ++i) cells()[v.cells[i]] = cells()[s.cells[i]];
			name = "array_copy"; break; }
		}
		log(vh::fmt("%s to %s", name, describe(v).c_str()));
		vh::stat(std::string("op_") + name);
		check_all(name);
	}

	// A view with the given shape, and a layout of its own.
	View laid_out(std::vector<int> sizes, int ch, int depth, Rng& r) {
		View v; v.ch = ch; v.depth = depth; v.sizes = sizes;
		int dims = (int)sizes.size();
		std::vector<int> big(sizes); std::vector<mt_range> rg(dims); std::vector<b8> fl(dims);
		int layout = (int)r.in(0, 4);
		int a = (int)r.in(0, dims - 1), b = (int)r.in(0, dims - 1);
		if (layout == 1 || layout == 4) for (int i = 0; i < dims; ++i) big[i] += (int)r.in(0, 1);
		if (layout == 2 || layout == 4) std::swap(big[a], big[b]);
		mt_mat base(big, mt_Depth_Channel((mt_Depth)depth, ch + (layout == 4 ? 1 : 0)), 0.0);
		mt_mat m = base;
		if (layout == 4) m = m.sub_channel(1, ch + 1);
		if (layout == 2 || layout == 4) m = m.swap_dim(a, b);
		if (layout == 1 || layout == 4) { for (int i = 0; i < dims; ++i) { int free = m.size()[i] - sizes[i]; int s = (int)r.in(0, free); rg[i] = mt_range(s, s + sizes[i]); } m = m.sub(rg); }
		if (layout == 3) m = m.flip_all_dim();
		if (layout == 4) { for (int i = 0; i < dims; ++i) fl[i] = r.chance(1, 3) ? sys_true : sys_false; m = m.flip(fl); }
		v.m = m;
		int n = v.elements() * ch;
		v.store = new_store(n, false); int first = (int)cells().size() - n;
		for (int i = 0; i < n; ++i) v.cells.push_back(first + i);
		fill_raw(v, r);
		return v;
	}

	void handle_op() {
		int op = (int)r.in(0, 4);
		const char* name = "drop";
		if (op == 0 && pool.size() > 1) pool.erase(pool.begin() + r.next() % pool.size());
		else if (op == 1) { View w = any(); add(w); name = "copy_handle"; }
		else if (op == 2 && pool.size() > 1) { int i = (int)r.in(0, pool.size() - 1), j = (int)r.in(0, pool.size() - 1); View w = pool[j]; pool[i] = w; name = "assign"; }
		else if (op == 3) { View& v = any(); mt_mat& self = v.m; v.m = self; name = "self_assign"; }
		else if (op == 4) {
			// create() with another shape lets go of the old memory, with the same shape keeps it.
			View& v = any();
			if (r.chance(1, 2)) { v.m.create(v.dims(), v.m.size(), v.m.depth_channel()); name = "create_same"; }
			else { std::vector<int> s(v.sizes); s[0] += 1; v.m.create((int)s.size(), &s[0], v.m.depth_channel()); v.sizes = s; v.cells.clear(); int n = v.elements() * v.ch; v.store = new_store(n, false); int first = (int)cells().size() - n; for (int i = 0; i < n; ++i) v.cells.push_back(first + i); fill_raw(v, r); name = "create_other"; }
		}
		log(name);
		vh::stat(std::string("op_") + name);
		check_all(name);
	}

	// Predicates between pairs and iterators.
	void query_op() {
		View& a = any();
		View& b = any();
		View c;
		View* other = &b;
		if (r.chance(1, 2)) {
			// Same shape in another layout, equal or different in one value.
			c = laid_out(a.sizes, a.ch, a.depth, r);
			for (size_t i = 0; i < c.cells.size(); ++i) cells()[c.cells[i]] = cells()[a.cells[i]];
			if (r.chance(1, 2)) { int k = (int)r.in(0, c.cells.size() - 1); double x = pick_value(r, a.depth); cells()[c.cells[k]] = x; }
			store_raw(c);
			other = &c;
		}
		bool same_size = a.sizes == other->sizes && a.ch == other->ch;
		bool equal = same_size && a.depth == other->depth;
		if (equal) for (size_t i = 0; i < a.cells.size(); ++i) if (cells()[a.cells[i]] != cells()[other->cells[i]]) equal = false;
		std::string w = vh::fmt("%s and %s", describe(a).c_str(), describe(*other).c_str());
		if ((a.m == other->m) != equal) fail("equal", vh::fmt("== says %d, expected %d: %s", (int)(a.m == other->m), equal, w.c_str()));
		if ((a.m != other->m) == equal) fail("not_equal", w);
		if ((bool)a.m.is_same_size(other->m) != same_size) fail("is_same_size", w);
		if ((bool)a.m.is_same_memory_size(other->m) != (same_size && a.depth == other->depth)) fail("is_same_memory_size", w);
		if (!store_external()[a.store] && !store_external()[other->store] && (bool)a.m.is_memory_shared(other->m) != (a.store == other->store)) fail("is_memory_shared", w);
		if (same_size && a.depth == other->depth) {
			bool bytes = mt_array_iteration::array_cmp(a.m.data(), other->m.data(), a.dims(), a.m.size(), a.m.step(), other->m.step(), a.m.element_size());
			if (bytes != equal) fail("array_cmp", vh::fmt("array_cmp says %d, expected %d: %s", bytes, equal, w.c_str()));
			vh::stat(equal ? "compared_equal" : "compared_different");
		}
		bool zero = true;
		for (size_t i = 0; i < a.cells.size(); ++i) if (cells()[a.cells[i]] != 0) zero = false;
		if ((bool)a.m.is_zero() != zero) fail("is_zero", describe(a));
		// Layout predicates against real addresses.
		std::vector<const u8*> addr;
		std::vector<int> idx(a.dims(), 0);
		const mt_mat& cm = a.m;
		for (int k = 0; k < a.elements(); ++k) { addr.push_back(cm.ptr<u8>(a.dims(), &idx[0], 0)); next_index(idx, a.sizes); }
		bool consec = true; long es = a.ch * esize(a.depth);
		for (size_t k = 1; k < addr.size(); ++k) if (addr[k] - addr[k - 1] != addr[1] - addr[0] || labs(addr[k] - addr[k - 1]) != es) consec = false;
		bool no_ones = true; for (int i = 0; i < a.dims(); ++i) if (a.sizes[i] == 1) no_ones = false;
		if (a.m.is_continuous() && !consec) fail("is_continuous", "claims continuity: " + describe(a));
		if (no_ones && consec && !a.m.is_continuous()) fail("is_continuous", "denies continuity: " + describe(a));
		const u8* lo = addr[0]; for (size_t k = 0; k < addr.size(); ++k) lo = std::min(lo, addr[k]);
		if (cm.memory_data() != lo) fail("memory_data", describe(a));
		if (a.m.memory_size() != (int)(a.elements() * es) || a.m.channel_memory_size() != (int)(a.elements() * esize(a.depth)) || a.m.element_size() != es || a.m.element_channel_size() != esize(a.depth)) fail("memory_size", describe(a));
		{
			int k = (int)r.in(0, a.elements() - 1);
			std::vector<int> got = a.m.get_index(addr[k]);
			if (got != a.index_of(k)) fail("get_index", vh::fmt("element %d of %s", k, describe(a).c_str()));
		}
		{
			mt_array_element_const_iterator it(cm);
			size_t k = 0;
			for (;; ++k) { const u8* p = it.data(); if (p == NULL) break; if (k >= addr.size() || p != addr[k] || it.index() != (int)k || it.position() != a.index_of((int)k)) { fail("element_iterator", describe(a)); break; } }
			if (!bad && k != addr.size()) fail("element_iterator", "number of elements visited: " + describe(a));
			mt_array_memory_block_const_iterator bt(cm);
			k = 0;
			for (int guard = 0; guard < 100000 && !bad; ++guard) { const u8* p = bt.data(); if (p == NULL) break; for (int j = 0; j < bt.block_element_number(); ++j, ++k) if (k >= addr.size() || p + (long)j * bt.block_element_step() != addr[k]) { fail("block_iterator", describe(a)); break; } }
			if (!bad && k != addr.size()) fail("block_iterator", "number of elements visited: " + describe(a));
			mt_array_index_iterator ii(a.dims(), a.m.size());
			k = 0;
			while (ii.next() && !bad) { if (k >= addr.size() || ii.index() != (int)k || ii.position() != a.index_of((int)k)) fail("index_iterator", describe(a)); ++k; }
			if (!bad && (k != addr.size() || ii.size() != (int)addr.size())) fail("index_iterator", "number of indices visited: " + describe(a));
		}
		vh::stat("queries");
		if (!bad && log_lines() != 0) { fail("logged_query", "an error was logged: " + last_log()); clear_log(); }
	}
};
