// Operands in any layout and comparison of results: shared by the harnesses of matrix calculations.
#pragma once
#include "vh.h"
#include "all_math.h"
#include "mat_world.h"
#include <limits>

// ---------------------------------------------------------------- operands

// Matrices in memory of the caller: any order of the dimensions in memory, gaps between elements, negative steps; bytes between the elements are guarded.
struct Bench {
	Rng& r;
	std::vector<Ext*> exts;
	std::vector<View> views;
	std::string what;
	bool bad;
	explicit Bench(Rng& rr) : r(rr), bad(false) { cells().clear(); store_external().clear(); clear_log(); }
	~Bench() { views.clear(); for (size_t i = 0; i < exts.size(); ++i) delete exts[i]; }

	View make(const std::vector<int>& sizes, int ch, int depth) {
		View v; v.sizes = sizes; v.ch = ch; v.depth = depth;
		int dims = (int)sizes.size(), n = v.elements(), es = ch * esize(depth);
		bool external = r.chance(1, 2);
		v.store = new_store(n * ch, external);
		int first = (int)cells().size() - n * ch;
		for (int i = 0; i < n * ch; ++i) v.cells.push_back(first + i);
		if (!external) { v.m = mt_mat(sizes, mt_Depth_Channel((mt_Depth)depth, ch)); return v; }
		Ext* e = new Ext();
		std::vector<int> order(dims), steps(dims);
		for (int i = 0; i < dims; ++i) order[i] = i;
		if (r.chance(1, 2)) for (int i = dims - 1; i > 0; --i) std::swap(order[i], order[r.in(0, i)]);
		int es1 = r.chance(1, 3) ? es + esize(depth) * (int)r.in(0, 2) : es;
		int step = es1;
		for (int k = dims - 1; k >= 0; --k) { steps[order[k]] = step; step = step * sizes[order[k]] + (r.chance(1, 3) ? (int)r.in(0, 2) * es1 : 0); }
		e->mem.assign(step + 64, 0xA5); e->mine.assign(step + 64, false);
		exts.push_back(e);
		std::vector<int> idx(dims, 0);
		for (int k = 0; k < n; ++k) {
			int o = 32; for (int i = 0; i < dims; ++i) o += idx[i] * steps[i];
			for (int b = 0; b < es; ++b) e->mine[o + b] = true;
			next_index(idx, sizes);
		}
		v.m = mt_mat(sizes, mt_Depth_Channel((mt_Depth)depth, ch), &e->mem[32], steps);
		if (r.chance(1, 3)) { std::vector<b8> fl(dims); for (int i = 0; i < dims; ++i) fl[i] = r.chance(1, 2) ? sys_true : sys_false; v.m = v.m.flip(fl); }
		return v;
	}
	// The model's values are those given; the matrix gets them.
	View& keep(View& v) { store_raw(v); views.push_back(v); return views.back(); }

	void fail(const std::string& key, const std::string& detail) { if (!bad) vh::viol(key, detail + " in " + what); bad = true; }

	// Operands (and in-place results) show what the model says, nothing else was written, nothing was logged.
	void check(const char* op) {
		vh::stat("evaluations");
		for (size_t i = 0; i < views.size() && !bad; ++i) { std::string d; if (!same(views[i], d, r)) fail(std::string(op) + "_operand", vh::fmt("matrix %d (%s): %s", (int)i, describe(views[i]).c_str(), d.c_str())); }
		for (size_t i = 0; i < exts.size() && !bad; ++i) if (!exts[i]->intact()) fail(std::string(op) + "_outside_write", "bytes of an external buffer that belong to no element were changed");
		if (!bad && log_lines() != 0) fail(std::string(op) + "_logged", "an error was logged: " + last_log());
		clear_log();
	}
};

inline std::vector<int> pick_sizes(Rng& r, int lo_dim = 1, int hi_dim = 5) {
	int dims = (int)r.in(0, 9); dims = dims == 0 ? 1 : dims <= 4 ? 2 : dims <= 7 ? 3 : dims == 8 ? 4 : 5;
	dims = std::max(lo_dim, std::min(hi_dim, dims));
	std::vector<int> s(dims);
	for (int i = 0; i < dims; ++i) s[i] = (int)r.in(1, dims <= 2 ? 6 : dims == 3 ? 4 : 3);
	static bool small = getenv("VERIF_SMALL") != NULL;
	if (!small && r.chance(1, 5000)) { s[r.next() % dims] = (int)r.in(30, 70) * 1000 / dims; vh::stat("huge_sizes"); return s; }	// more elements than 16 bits count
	if (r.chance(1, 60)) { s[r.next() % dims] = (int)r.in(20, dims <= 2 ? 300 : 70); vh::stat("long_sizes"); }	// loops over more than a few elements
	return s;
}
inline std::string shape(const View& v) { std::string s = describe(v) + "steps"; for (int i = 0; i < v.dims(); ++i) s += vh::fmt(" %d", v.m.step()[i]); return s; }
inline double cell(const View& v, int i) { return cells()[v.cells[i]]; }

// Compares a result with expected values (element order, channels innermost); tol 0 is exact, otherwise relative to max(1, |expected|).
inline bool equals(Bench& b, const char* op, const mt_mat& m, const std::vector<int>& sizes, int ch, int depth, const std::vector<double>& want, double tol = 0) {
	if (m.dim() != (int)sizes.size() || m.channel() != ch || m.depth() != depth) { b.fail(std::string(op) + "_shape", vh::fmt("result has %d dimensions, %d channels, depth %d; expected %d, %d, %d", m.dim(), m.channel(), (int)m.depth(), (int)sizes.size(), ch, depth)); return false; }
	for (int i = 0; i < m.dim(); ++i) if (m.size()[i] != sizes[i]) { b.fail(std::string(op) + "_shape", vh::fmt("size[%d] of the result is %d, expected %d", i, m.size()[i], sizes[i])); return false; }
	std::vector<int> idx(sizes.size(), 0);
	for (size_t e = 0; e * ch < want.size(); ++e) {
		const u8* p = addr(m, idx);
		for (int c = 0; c < ch; ++c) {
			double x = load(p + c * esize(depth), depth), y = want[e * ch + c];
			bool ok = tol == 0 ? x == y || (x != x && y != y) : (x != x && y != y) || x == y || fabs(x - y) <= tol * std::max(1.0, fabs(y));
			if (!ok) { b.fail(op, vh::fmt("element %d channel %d is %.17g, expected %.17g", (int)e, c, x, y)); return false; }
		}
		next_index(idx, sizes);
	}
	vh::stat("elements_compared", (long long)want.size());
	return true;
}

