// modules: basiclog basicsys basicmath
// Helpers of basicmath: sorting, selection, combinatorics, random numbers, block memory, geometry.
#include "vh.h"
#include "all_math.h"
#include "bench.h"
#include <mt_angle_helper.h>
#include <float.h>

using std::string; using std::vector;

struct Judge {
	string what; bool bad;
	Judge() : bad(false) { mm::clear_log(); }
	void fail(const string& key, const string& d) { if (!bad) vh::viol(key, d + " in " + what); bad = true; }
	bool check(bool c, const string& key, const string& d) { vh::stat("evaluations"); if (!c) fail(key, d); return c; }
	void quiet(const string& key) { if (mm::log_lines() != 0) fail(key + "_logged", mm::last_log()); mm::clear_log(); }
};
template <class T> static string show(const vector<T>& v) { string s = "{"; for (size_t i = 0; i < v.size() && i < 24; ++i) s += vh::fmt("%.17g ", (double)v[i]); return s + (v.size() > 24 ? "...}" : "}"); }
template <class T> static bool same_vec(const vector<T>& a, const vector<T>& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (a[i] != b[i]) return false; return true; }

// ---------------------------------------------------------------- B01 sorting, selection, indexing

template <class T> static T some(Rng& r, int spread) {
	bool sig = std::numeric_limits<T>::is_signed;
	if (!std::numeric_limits<T>::is_integer) return (T)((double)r.in(-spread, spread) / 4);
	if (spread > 100 && r.chance(1, 4)) switch (r.in(0, 2)) { case 0: return std::numeric_limits<T>::max(); case 1: return std::numeric_limits<T>::min(); default: return (T)r.next(); }
	return (T)r.in(sig ? -std::min(spread, 100) : 0, std::min(spread, 100));
}
template <class T> static vector<T> some_vec(Rng& r, int lo_n = 0) {
	int n = (int)r.in(0, 9); n = n == 0 ? lo_n : n <= 6 ? (int)r.in(lo_n, 9) : (int)r.in(lo_n, 40); if (r.chance(1, 2000)) { n = (int)r.in(300, 3000); vh::stat("long_vectors"); }
	int spread = r.chance(1, 3) ? 2 : r.chance(1, 2) ? 20 : 1000;
	vector<T> v(n);
	for (int i = 0; i < n; ++i) v[i] = some<T>(r, spread);
	if (r.chance(1, 6)) std::sort(v.begin(), v.end()); else if (r.chance(1, 6)) std::sort(v.rbegin(), v.rend());
	return v;
}

template <class T> static void sort_case(Rng& r, Judge& j) {
	int kind = (int)r.in(0, 9);
	vector<T> v = some_vec<T>(r, kind == 3 || kind == 4 || kind == 5 ? 1 : 0), w(v), ref(v);
	b8 inc = r.chance(1, 2) ? sys_true : sys_false;
	if (inc) std::sort(ref.begin(), ref.end()); else std::sort(ref.rbegin(), ref.rend());
	j.what = vh::fmt("kind %d increase %d of ", kind, inc ? 1 : 0) + show(v);
	vh::note(j.what);
	vh::dist("nontrivial", vh::hash_mem(v.data(), v.size() * sizeof(T), kind * 4 + (inc ? 1 : 0)));
	switch (kind) {
	case 0: {
		vector<i32> idx((size_t)r.in(0, 50), 7);
		mt_sort::sort(idx, w, inc);
		j.check(same_vec(w, ref), "sort_indexes", "data sorted to " + show(w));
		bool ok = idx.size() == v.size(); vector<bool> seen(v.size(), false);
		for (size_t i = 0; ok && i < idx.size(); ++i) { ok = idx[i] >= 0 && idx[i] < (i32)v.size() && !seen[idx[i]] && v[idx[i]] == w[i]; if (ok) seen[idx[i]] = true; }
		j.check(ok, "sort_indexes_permutation", "indexes " + show(idx));
		vh::stat("op_sort_indexes"); break;
	}
	case 1: mt_sort::bubble_sort(w, inc); j.check(same_vec(w, ref), "bubble_sort", show(w)); vh::stat("op_bubble"); break;
	case 2: mt_sort::heap_sort(w, inc); j.check(same_vec(w, ref), "heap_sort", show(w)); vh::stat("op_heap"); break;
	case 3: {
		i32 k = (i32)r.in(1, (int)v.size() + 3);
		std::unique_ptr<mt_top_k<T> > tp(inc && r.chance(1, 2) ? new mt_top_k<T>(k) : new mt_top_k<T>(k, inc)); mt_top_k<T>& top = *tp;
		for (size_t i = 0; i < v.size(); ++i) {
			top.traverse(v[i]);
			vector<T> part(v.begin(), v.begin() + i + 1), got;
			if (inc) std::sort(part.rbegin(), part.rend()); else std::sort(part.begin(), part.end());
			if ((i32)part.size() > k) part.resize(k);
			top.get_sorted_top_k(got);
			j.check(same_vec(got, part), "top_k_sorted", vh::fmt("k %d after %d values: ", k, (int)i + 1) + show(got));
			vector<T> heap(top.get_top_k());
			if (inc) std::sort(heap.rbegin(), heap.rend()); else std::sort(heap.begin(), heap.end());
			j.check(same_vec(heap, part), "top_k", vh::fmt("k %d after %d values: ", k, (int)i + 1) + show(heap));
		}
		vh::stat("op_top_k"); break;
	}
	case 4: {
		std::sort(ref.begin(), ref.end());
		T med = ref[(ref.size() - 1) / 2];
		T a = mt_helper::median_with_unchanged_order(w);
		j.check(a == med, "median", vh::fmt("%.17g", (double)a));
		j.check(same_vec(w, v), "median_unchanged", show(w));
		j.check(mt_helper::median_with_changed_order(w) == med, "median_changed", "other value");
		std::sort(w.begin(), w.end());
		j.check(same_vec(w, ref), "median_permutes", show(w));
		vh::stat("op_median"); break;
	}
	case 5: {
		i32 n = (i32)v.size();
		size_t mx = 0, mn = 0;
		for (size_t i = 1; i < v.size(); ++i) { if (v[i] > v[mx]) mx = i; if (v[i] < v[mn]) mn = i; }
		j.check(mt_helper::index_of_max_value(n, v.data()) == (i32)mx, "index_of_max", "other index");
		j.check(mt_helper::index_of_min_value(n, v.data()) == (i32)mn, "index_of_min", "other index");
		j.check(mt_helper::compute_max(n, v.data()) == v[mx] && mt_helper::compute_min(n, v.data()) == v[mn], "compute_max_min", "other value");
		T a = v[r.next() % n], b = v[r.next() % n];
		j.check(mt_helper::max(a, b) == std::max(a, b) && mt_helper::min(a, b) == std::min(a, b), "max_min", "other value");
		if (a > b) std::swap(a, b);
		double gap = (double)b - (double)a;
		if (std::numeric_limits<T>::is_integer || a == b || gap > 1e-3) {
			int want = a == b ? 0 : 1;
			j.check(mt_helper::compare_value<T>(b, a) == want && mt_helper::compare_value<T>(a, b) == -want, "compare_value", vh::fmt("%d for %.17g and %.17g", mt_helper::compare_value<T>(b, a), (double)b, (double)a));
		}
		vh::stat("op_extremes"); break;
	}
	case 6: {
		i32 n = (i32)v.size(), a = (i32)r.in(0, n), b = (i32)r.in(a, n);
		vector<T> sub((size_t)r.in(0, 5), (T)1);
		mt_helper::sub_vector(sub, v, mt_range(a, b));
		j.check(same_vec(sub, vector<T>(v.begin() + a, v.begin() + b)), "sub_vector", show(sub));
		j.check(same_vec(mt_helper::vec_from_array(n, v.data()), v), "vec_from_array", "other elements");
		mt_helper::flip_vector(w); std::reverse(ref.begin(), ref.end());
		vector<T> rev(v.rbegin(), v.rend());
		j.check(same_vec(w, rev), "flip_vector", show(w));
		vh::stat("op_vectors"); break;
	}
	case 7: {
		vector<T*> ptrs; mt_helper::pointer_from_instance(ptrs, v);
		bool ok = ptrs.size() == v.size(); for (size_t i = 0; ok && i < v.size(); ++i) ok = ptrs[i] == &v[i];
		j.check(ok, "pointer_from_instance", "other pointers");
		vector<T> back((size_t)r.in(0, 5)); mt_helper::instance_from_pointer(back, ptrs);
		j.check(same_vec(back, v), "instance_from_pointer", show(back));
		b8 all = mt_helper::is_vec_value(v, v.empty() ? (T)0 : v[0]);
		bool want = true; for (size_t i = 0; i < v.size(); ++i) want = want && v[i] == v[0];
		j.check(bool(all) == want, "is_vec_value", "other answer");
		vector<T> z(v); if (!z.empty() && r.chance(1, 2)) z[r.next() % z.size()] = some<T>(r, 3); if (r.chance(1, 5)) z.push_back((T)0);
		bool eq = basicmath::operator==(v, z);
		j.check(eq == same_vec(v, z), "vectors_equal", "other answer for " + show(z));
		vh::stat("op_pointers"); break;
	}
	case 8: {
		vector<T> s(v);
		for (size_t i = 0; i < s.size(); ++i) s[i] = (T)(some<T>(r, 4));
		vector<T> want(s.size() + 1, (T)0); for (size_t i = 0; i < s.size(); ++i) want[i + 1] = (T)(want[i] + s[i]);
		if (std::numeric_limits<T>::is_integer && sizeof(T) == 1) return;
		vector<T> got((size_t)r.in(0, 60), (T)9); mt_helper::integral_array(got, s);
		j.check(same_vec(got, want), "integral_array", show(got));
		vector<T> raw(s.size() + 3, (T)77); mt_helper::integral_array(&raw[1], s.data(), s.data() + s.size());
		bool ok = raw.front() == (T)77 && raw.back() == (T)77; for (size_t i = 0; i < want.size(); ++i) ok = ok && raw[i + 1] == want[i];
		j.check(ok, "integral_array_pointer", show(raw));
		T sum = s.empty() ? (T)0 : want.back();
		j.check(mt_helper::add(s) == sum, "add", "other sum");
		vh::stat("op_integral"); break;
	}
	default: {
		// Multi-dimensional indexes.
		int dims = (int)r.in(1, 5); vector<i32> sizes(dims), idx(dims);
		i32 total = 1; for (int i = 0; i < dims; ++i) { sizes[i] = (i32)r.in(1, 7); total *= sizes[i]; }
		i32 want = (i32)r.in(0, total - 1), rest = want;
		for (int i = dims - 1; i >= 0; --i) { idx[i] = rest % sizes[i]; rest /= sizes[i]; }
		j.what += " sizes " + show(sizes);
		j.check(mt_helper::index_from_multi_index(idx, dims, sizes.data()) == want, "index_from_multi_index", show(idx));
		vector<i32> got((size_t)r.in(0, 7), 5); mt_helper::multi_index_from_index(got, want, dims, sizes.data());
		j.check(same_vec(got, idx), "multi_index_from_index", show(got));
		vh::stat("op_index");
	}
	}
}
template <class T> static void parity_case(Rng& r, Judge& j) {
	vector<T> v = some_vec<T>(r), w(v);
	b8 odd = r.chance(1, 2) ? sys_true : sys_false, keep = r.chance(1, 2) ? sys_true : sys_false;
	j.what = vh::fmt("odd_even_sort odd front %d keep order %d of ", odd ? 1 : 0, keep ? 1 : 0) + show(v);
	vh::note(j.what);
	mt_helper::odd_even_sort(w, odd, keep);
	vector<T> want;
	for (int pass = 0; pass < 2; ++pass) for (size_t i = 0; i < v.size(); ++i) if ((v[i] % 2 != 0) == ((pass == 0) == bool(odd))) want.push_back(v[i]);
	if (keep) j.check(same_vec(w, want), "odd_even_sort", show(w));
	else {
		bool split = w.size() == v.size(), second = false;
		for (size_t i = 0; split && i < w.size(); ++i) { bool front = (w[i] % 2 != 0) == bool(odd); if (front && second) split = false; if (!front) second = true; }
		j.check(split, "odd_even_split", show(w));
		std::sort(w.begin(), w.end()); std::sort(want.begin(), want.end());
		j.check(same_vec(w, want), "odd_even_permutes", show(w));
	}
	vh::stat("op_parity");
}
static void scalar_case(Rng& r, Judge& j) {
	double x = (double)r.in(-4000000, 4000000) / 8;
	j.what = vh::fmt("number %.17g", x);
	double want = x < 0 ? ceil(x - 0.5) : floor(x + 0.5);
	j.check(mt_helper::neibour_float<f64>(x) == (i64)want, "neibour_float", "other integer");
	j.check(mt_helper::neibour_float<f32>((f32)x) == (i64)((f32)x < 0 ? ceil((f32)x - 0.5) : floor((f32)x + 0.5)), "neibour_float", "other integer (f32)");
	double inf = std::numeric_limits<double>::infinity(), nan = std::numeric_limits<double>::quiet_NaN();
	static const int N = 8; double all[N] = {x, inf, -inf, nan, 0.0, DBL_MAX, -DBL_MAX, DBL_MIN};
	double t = all[r.next() % N];
	j.check(bool(mt_helper::is_nan(t)) == (t != t) && bool(mt_helper::is_infinity(t)) == (t == inf || t == -inf) && bool(mt_helper::is_number(t)) == (t == t && fabs(t) <= DBL_MAX), "number_kind", vh::fmt("of %g", t));
	double a = all[r.next() % N], b = all[r.next() % N];
	if (a == a && b == b) {
		int c = mt_helper::compare_double(a, b), d = mt_helper::compare_double(b, a);
		if (a == b) j.check(c == 0 && d == 0, "compare_double", vh::fmt("%g and %g differ", a, b));
		else if (fabs(a) > 1e-3 || fabs(b) > 1e-3) j.check(c == (a > b ? 1 : -1) && d == -c, "compare_double", vh::fmt("%g and %g: %d", a, b, c));
	}
	// relative precision
	double base = pow(10, (double)r.in(-6, 12)) * (r.chance(1, 2) ? 1 : -1) * (1 + r.unit()), eps = mt_helper::get_double_eps();
	double near = base * (1 + eps / 4), far = base * (1 + eps * 8);
	j.check(mt_helper::compare_double(base, near) == 0, "compare_near", vh::fmt("%.17g and %.17g differ", base, near));
	if (fabs(base - far) > eps * 2) j.check(mt_helper::compare_double(far, base) == (base > 0 ? 1 : -1), "compare_far", vh::fmt("%.17g and %.17g are equal", base, far));
	f32 fb = (f32)base, fe = mt_helper::get_float_eps(), fn = fb * (1 + fe / 4), ff = fb * (1 + fe * 8);
	j.check(mt_helper::compare_float(fb, fn) == 0, "compare_near", vh::fmt("%.9g and %.9g differ", fb, fn));
	if (fabs(fb - ff) > fe * 2) j.check(mt_helper::compare_float(ff, fb) == (fb > 0 ? 1 : -1), "compare_far", vh::fmt("%.9g and %.9g are equal", fb, ff));
	j.check(bool(mt_helper::valid_range<u8>(x)) == (x >= 0 && x <= 255) && bool(mt_helper::valid_range<i8>(x)) == (x >= -128 && x <= 127), "valid_range", "other answer");
	double small = (double)r.in(-300, 300);
	j.check(bool(mt_helper::valid_range<u8>(small)) == (small >= 0 && small <= 255) && bool(mt_helper::valid_range<i8>(small)) == (small >= -128 && small <= 127), "valid_range", vh::fmt("other answer for %g", small));
	i32 p = (i32)r.in(-3, 3), q = (i32)r.in(-3, 3);
	j.check(mt_helper::is_same_symbol(p, q) == ((p >= 0 && q >= 0) || (p <= 0 && q <= 0)), "is_same_symbol", vh::fmt("%d %d", p, q));
	vector<f64> v = some_vec<f64>(r, 1); size_t at = 0; for (size_t i = 1; i < v.size(); ++i) if (fabs(v[i]) < fabs(v[at])) at = i;
	j.check(mt_helper::compute_min_in_abs(v.data(), (int)v.size()) == v[at] && mt_helper::compute_abs_min(v.data(), (int)v.size()) == fabs(v[at]), "abs_min", show(v));
	u32 n = (u32)r.next(); i64 m = (i64)r.next(); if (r.chance(1, 3)) n = (u32)r.in(-2, 2); if (r.chance(1, 3)) m = (i64)1 << r.in(0, 63);
	j.check(mt_helper::number_of_1((i32)n) == __builtin_popcount(n) && mt_helper::number_of_1((i64)m) == __builtin_popcountll((u64)m), "number_of_1", vh::fmt("%u %lld", n, (long long)m));
	j.check((u32)mt_helper::reverse_i32((i32)n) == __builtin_bswap32(n), "reverse_i32", vh::fmt("%u", n));
	vh::dist("nontrivial", vh::hash_mem(&base, 8, n));
	vh::stat("op_scalar");
}
static void prop_sort(Rng& r, long) {
	Judge j;
	switch (r.in(0, 9)) {
	case 0: sort_case<u8>(r, j); break;
	case 1: sort_case<i64>(r, j); break;
	case 2: sort_case<f64>(r, j); break;
	case 3: sort_case<u32>(r, j); break;
	case 4: sort_case<f32>(r, j); break;
	case 5: sort_case<u64>(r, j); break;
	case 6: if (r.chance(1, 2)) parity_case<i32>(r, j); else if (r.chance(1, 2)) parity_case<i64>(r, j); else parity_case<u8>(r, j); break;
	case 7: scalar_case(r, j); break;
	default: sort_case<i32>(r, j);
	}
	j.quiet("sort");
}

// ---------------------------------------------------------------- B02 optimisation and counting

template <class W, class V> static void bag_case(Rng& r, Judge& j) {
	int n = (int)r.in(0, r.chance(1, 200) ? 15 : 9), heavy = r.chance(1, 30) ? (int)r.in(2, 60) : 1; if (n > 9 || heavy > 1) vh::stat("large_bags");
	bool fw = !std::numeric_limits<W>::is_integer, fv = !std::numeric_limits<V>::is_integer;
	vector<W> w(n); vector<V> v(n); double total = 0;
	for (int i = 0; i < n; ++i) { w[i] = (W)((double)(heavy * r.in(0, r.chance(1, 2) ? 4 : 12) + (heavy > 1 ? r.in(0, 1) : 0)) / (fw ? 2 : 1)); v[i] = (V)((double)r.in(0, r.chance(1, 2) ? 3 : 20) / (fv ? 4 : 1)); total += w[i]; }
	W cap = (W)(r.chance(1, 6) ? 0 : (double)r.in(0, (int)total + 2));
	j.what = "bag of weights " + show(w) + " values " + show(v) + vh::fmt(" capacity %g", (double)cap);
	vh::note(j.what);
	double best = 0; int ways = 0;
	for (int m = 0; m < 1 << n; ++m) { double sw = 0, sv = 0; for (int i = 0; i < n; ++i) if (m >> i & 1) { sw += w[i]; sv += v[i]; } if (sw <= cap) { if (sv > best) { best = sv; ways = 0; } if (sv == best) ++ways; } }
	mt_01_bag<W, V> bag(w, v, cap);
	j.check((double)bag.max_value() == best, "bag_max_value", vh::fmt("%g, best is %g", (double)bag.max_value(), best));
	const vector<b8>& f = bag.flag_01();
	double sw = 0, sv = 0; bool ok = (int)f.size() == n; string fs;
	for (int i = 0; ok && i < n; ++i) { fs += f[i] ? "1" : "0"; if (f[i]) { sw += w[i]; sv += v[i]; } }
	j.check(ok && sw <= cap && sv == best, "bag_flags", vh::fmt("flags %s weigh %g and are worth %g, best is %g", fs.c_str(), sw, sv, best));
	vh::dist("nontrivial", vh::hash_str(j.what));
	vh::stat("op_bag");
}
template <class T> static void lcs_case(Rng& r, Judge& j) {
	int na = (int)r.in(1, r.chance(1, 3) ? 30 : 7), nb = (int)r.in(1, r.chance(1, 3) ? 30 : 7); if (r.chance(1, 500)) { na = (int)r.in(1, 300); nb = (int)r.in(200, 300); vh::stat("large_lcs"); } int alphabet = (int)r.in(1, 4);
	vector<T> a(na), b(nb);
	for (int i = 0; i < na; ++i) a[i] = (T)('a' + r.in(0, alphabet)); for (int i = 0; i < nb; ++i) b[i] = (T)('a' + r.in(0, alphabet) + (r.chance(1, 6) ? 5 : 0));
	j.what = "common substring of " + show(a) + " and " + show(b);
	vh::note(j.what);
	int best = 0;
	vector<vector<int> > len(na + 1, vector<int>(nb + 1, 0));
	for (int i = na - 1; i >= 0; --i) for (int k = nb - 1; k >= 0; --k) { len[i][k] = a[i] == b[k] ? len[i + 1][k + 1] + 1 : 0; best = std::max(best, len[i][k]); }
	mt_longest_common_substring<T> lcs(a, b);
	j.check(lcs.length() == best, "lcs_length", vh::fmt("%d, longest is %d", lcs.length(), best));
	if (best == 0) j.check(lcs.a_begin_index() == -1 && lcs.b_begin_index() == -1, "lcs_none", "begin of nothing");
	else j.check(lcs.a_begin_index() >= 0 && lcs.a_begin_index() < na && lcs.b_begin_index() >= 0 && lcs.b_begin_index() < nb && len[lcs.a_begin_index()][lcs.b_begin_index()] == best, "lcs_begin", vh::fmt("begins at %d and %d", lcs.a_begin_index(), lcs.b_begin_index()));
	vector<i32> ia(2, 5), ib;
	lcs.all_a_begin_index(ia); lcs.all_b_begin_index(ib);
	std::multiset<std::pair<int,int> > dummy;
	vector<i32> wa, wb;
	if (best > 0) for (int i = 0; i < na; ++i) for (int k = 0; k < nb; ++k) if (len[i][k] == best) { wa.push_back(i); wb.push_back(k); }
	// the two lists name the same occurrences, in the same order
	bool ok = ia.size() == ib.size() && ia.size() == wa.size();
	std::set<std::pair<int,int> > got, want;
	for (size_t i = 0; ok && i < ia.size(); ++i) { got.insert(std::make_pair(ia[i], ib[i])); want.insert(std::make_pair(wa[i], wb[i])); }
	j.check(ok && got == want, "lcs_all", "begins " + show(ia) + " and " + show(ib));
	vh::dist("nontrivial", vh::hash_str(j.what));
	vh::stat("op_lcs");
}
template <class T> static void maxsum_case(Rng& r, Judge& j) {
	vector<T> v((size_t)r.in(1, r.chance(1, 500) ? 1500 : r.chance(1, 3) ? 40 : 8)); if (v.size() > 40) vh::stat("large_sums");
	for (size_t i = 0; i < v.size(); ++i) v[i] = (T)((double)r.in(r.chance(1, 5) ? -40 : -8, 8) / (std::numeric_limits<T>::is_integer ? 1 : 4));
	if (r.chance(1, 5)) for (size_t i = 0; i < v.size(); ++i) if (v[i] > 0) v[i] = -v[i];
	j.what = "continuous sum of " + show(v);
	vh::note(j.what);
	double best = -1e300;
	for (size_t i = 0; i < v.size(); ++i) { double s = 0; for (size_t k = i; k < v.size(); ++k) { s += v[k]; best = std::max(best, s); } }
	mt_max_sum_for_continuous_element<T> m(v);
	j.check((double)m.max_sum() == best, "max_sum", vh::fmt("%g, best is %g", (double)m.max_sum(), best));
	double s = 0; bool ok = m.length() >= 1 && m.begin_index() >= 0 && m.begin_index() + m.length() <= (i32)v.size();
	for (i32 k = 0; ok && k < m.length(); ++k) s += v[m.begin_index() + k];
	j.check(ok && s == best, "max_sum_range", vh::fmt("%d elements from %d sum up to %g, best is %g", m.length(), m.begin_index(), s, best));
	vh::dist("nontrivial", vh::hash_str(j.what));
	vh::stat("op_max_sum");
}
static void combi_case(Rng& r, Judge& j) {
	int kind = (int)r.in(0, 6);
	switch (kind) {
	case 0: {
		int n = (int)r.in(0, 33), k = (int)r.in(0, n);
		j.what = vh::fmt("combination of %d out of %d", k, n);
		static i64 pascal[34][34]; if (pascal[0][0] == 0) for (int a = 0; a < 34; ++a) for (int b = 0; b <= a; ++b) pascal[a][b] = b == 0 || b == a ? 1 : pascal[a - 1][b - 1] + pascal[a - 1][b];
		j.check(mt_helper::combination(n, k) == pascal[n][k], "combination", vh::fmt("%d, expected %lld", mt_helper::combination(n, k), (long long)pascal[n][k]));
		i64 f = 1; int m = (int)r.in(0, 12); for (int i = 2; i <= m; ++i) f *= i;
		j.check(mt_helper::factorial(m) == f, "factorial", vh::fmt("of %d", m));
		vh::stat("op_combination"); break;
	}
	case 1: {
		vector<i32> data((size_t)r.in(0, r.chance(1, 3) ? 30 : 7)), a(2, 3), b(1, 4);
		int lim = r.chance(1, 3) ? 1000000000 : 20;
		for (size_t i = 0; i < data.size(); ++i) data[i] = (i32)r.in(-lim, lim);
		vector<i32> in(data);
		j.what = "split of " + show(data); vh::note(j.what);
		mt_helper::split_array_to_max_mean_sub_arrays(a, b, data);
		j.check(same_vec(in, data), "split_input", "input changed");
		vector<i32> all(a); all.insert(all.end(), b.begin(), b.end()); std::sort(all.begin(), all.end()); std::sort(in.begin(), in.end());
		j.check(same_vec(all, in), "split_permutes", show(a) + " and " + show(b));
		if (in.size() >= 2) {
			double best = -1, got = -1;
			for (size_t k = 1; k < in.size(); ++k) { long double l = 0, h = 0; for (size_t i = 0; i < in.size(); ++i) (i < k ? l : h) += in[i]; best = std::max(best, (double)fabsl(h / (in.size() - k) - l / k)); }
			if (!a.empty() && !b.empty()) { long double x = 0, y = 0; for (size_t i = 0; i < a.size(); ++i) x += a[i]; for (size_t i = 0; i < b.size(); ++i) y += b[i]; got = (double)fabsl(x / a.size() - y / b.size()); }
			j.check(got >= best * (1 - 1e-12) - 1e-12, "split_means", vh::fmt("means differ by %.17g, best is %.17g: ", got, best) + show(a) + " and " + show(b));
		}
		vh::stat("op_split"); break;
	}
	case 2: {
		u32 n = (u32)r.in(0, r.chance(1, 4) ? 3000 : 150);
		u32 want = 0; for (u32 i = 0; i <= n; ++i) for (u32 d = i; d != 0; d /= 10) want += d % 10 == 1;
		j.what = vh::fmt("ones up to %u", n);
		j.check(mt_helper::one_number(n) == want, "one_number", vh::fmt("%u, expected %u", mt_helper::one_number(n), want));
		vh::stat("op_ones"); break;
	}
	case 3: {
		i32 n = (i32)r.in(-99999999, 99999999); if (r.chance(1, 2)) n = (i32)r.in(-2000, 2000);
		char s[32]; snprintf(s, sizeof s, "%d", n < 0 ? -n : n);
		string d = s; bool first = true; long long best = 0;
		for (size_t i = 0; i <= d.size(); ++i) { string e = d; e.insert(i, "5"); long long x = atoll(e.c_str()); if (n < 0) x = -x; if (first || x > best) best = x; first = false; }
		j.what = vh::fmt("add_five to %d", n);
		j.check(mt_helper::add_five(n) == best, "add_five", vh::fmt("%d, largest is %lld", mt_helper::add_five(n), best));
		vh::stat("op_five"); break;
	}
	case 4: {
		string s; int n = (int)r.in(0, 9); for (int i = 0; i < n; ++i) s += (char)('a' + r.in(0, 4));
		j.what = "max_lexi_order of " + s;
		string want = s; size_t i = 0; while (i + 1 < s.size() && s[i] <= s[i + 1]) ++i;
		if (s.size() <= 1) want = ""; else want.erase(i, 1);
		string got = mt_helper::max_lexi_order(s);
		// the smallest text that is left when one character is taken out
		string least; if (s.size() > 1) for (size_t k = 0; k < s.size(); ++k) { string t = s; t.erase(k, 1); if (k == 0 || t < least) least = t; }
		j.check(got == least && want == least, "max_lexi_order", got + ", smallest is " + least);
		vh::stat("op_lexi"); break;
	}
	case 5: {
		int n = (int)r.in(1, 4); string ships, hits; vector<std::set<std::pair<int,int> > > cells(n);
		for (int i = 0; i < n; ++i) {
			int t = (int)r.in(0, 7), l = (int)r.in(0, 9), b = (int)std::min<int64_t>(8, t + r.in(0, 2)), q = (int)std::min<int64_t>(11, l + r.in(0, 2));
			ships += vh::fmt("%s%c%c,%c%c", i ? ";" : "", '1' + t, 'A' + l, '1' + b, 'A' + q);
			for (int y = t; y <= b; ++y) for (int x = l; x <= q; ++x) cells[i].insert(std::make_pair(y, x));
		}
		std::set<std::pair<int,int> > hit; int m = (int)r.in(1, 12);
		for (int i = 0; i < m; ++i) {
			int y = (int)r.in(0, 8), x = (int)r.in(0, 11);
			if (r.chance(2, 3)) { const std::set<std::pair<int,int> >& c = cells[r.next() % n]; std::set<std::pair<int,int> >::const_iterator it = c.begin(); std::advance(it, r.next() % c.size()); y = it->first; x = it->second; }
			hit.insert(std::make_pair(y, x)); hits += vh::fmt("%s%c%c", i ? "," : "", '1' + y, 'A' + x);
		}
		int sunk = 0, touched = 0;
		for (int i = 0; i < n; ++i) { size_t k = 0; for (std::set<std::pair<int,int> >::iterator it = cells[i].begin(); it != cells[i].end(); ++it) k += hit.count(*it); if (k == cells[i].size()) ++sunk; else if (k) ++touched; }
		j.what = "battle_ship " + ships + " hits " + hits; vh::note(j.what);
		string got = mt_helper::battle_ship(ships, hits);
		j.check(got == vh::fmt("%d,%d", sunk, touched), "battle_ship", got + vh::fmt(", expected %d,%d", sunk, touched));
		vh::stat("op_ships"); break;
	}
	default: {
		vector<i32> v((size_t)r.in(0, 6)); for (size_t i = 0; i < v.size(); ++i) v[i] = (i32)r.in(-6, 6);
		i32 p = v.empty() ? 0 : 1; for (size_t i = 0; i < v.size(); ++i) p *= v[i];
		j.what = "product of " + show(v);
		j.check(mt_helper::mutiply(v) == p, "mutiply", vh::fmt("%d", mt_helper::mutiply(v)));
		vh::stat("op_product");
	}
	}
	vh::dist("nontrivial", vh::hash_str(j.what));
}
static void prop_combi(Rng& r, long) {
	Judge j;
	switch (r.in(0, 9)) {
	case 0: case 1: bag_case<i32, i32>(r, j); break;
	case 2: if (r.chance(1, 2)) bag_case<i32, f64>(r, j); else bag_case<f64, i32>(r, j); break;
	case 3: case 4: if (r.chance(1, 2)) lcs_case<i8>(r, j); else lcs_case<i32>(r, j); break;
	case 5: if (r.chance(1, 2)) maxsum_case<i32>(r, j); else if (r.chance(1, 2)) maxsum_case<f64>(r, j); else maxsum_case<i64>(r, j); break;
	default: combi_case(r, j);
	}
	j.quiet("combi");
}

// ---------------------------------------------------------------- B03 random numbers

static void moments(Judge& j, const vector<double>& v, double mean, double sd, const char* key) {
	double s = 0, q = 0; for (size_t i = 0; i < v.size(); ++i) s += v[i]; s /= v.size();
	for (size_t i = 0; i < v.size(); ++i) q += (v[i] - s) * (v[i] - s); q = sqrt(q / v.size());
	double n = (double)v.size();
	j.check(fabs(s - mean) <= 8 * sd / sqrt(n) + 1e-9, key, vh::fmt("mean of %d values is %g, expected %g", (int)n, s, mean));
	j.check(fabs(q - sd) <= sd * 10 / sqrt(n) + 1e-9, key, vh::fmt("standard deviation of %d values is %g, expected %g", (int)n, q, sd));
}
static vector<double> values_of(const mt_mat& m) {
	vector<double> out; vector<int> sizes(m.size(), m.size() + m.dim()), idx(m.dim(), 0); int n = 1; for (int i = 0; i < m.dim(); ++i) n *= sizes[i];
	for (int e = 0; e < n; ++e) { const u8* p = addr(m, idx); for (int c = 0; c < m.channel(); ++c) out.push_back(load(p + c * esize(m.depth()), m.depth())); next_index(idx, sizes); }
	return out;
}
static void prop_random(Rng& r, long) {
	Judge j;
	u32 seed = (u32)r.next();
	int kind = (int)r.in(0, 9);
	mt_random::set_seed(seed);
	vector<double> first;
	i32 lo = 0, hi = 0; double dlo = 0, dhi = 1; int n = (int)r.in(0, r.chance(1, 40) ? 3000 : 40), bn = (int)r.in(0, 30); double p = r.chance(1, 8) ? 0 : r.chance(1, 8) ? 1 : r.unit(), sd = r.chance(1, 8) ? 0 : r.unit() * 10;
	switch (r.in(0, 4)) {
	case 0: lo = std::numeric_limits<i32>::min(); hi = std::numeric_limits<i32>::max(); break;
	case 1: lo = (i32)r.next(); hi = (i32)r.next(); if (lo > hi) std::swap(lo, hi); break;
	default: lo = (i32)r.in(-20, 20); hi = lo + (i32)r.in(0, 10);
	}
	dlo = (double)r.in(-40, 40) / 4; dhi = dlo + (double)r.in(1, 40) / 4;
	int dims = (int)r.in(1, 4), ch = (int)r.in(1, 6), depth = r.chance(1, 4) ? mt_I32 : r.chance(1, 2) ? mt_F32 : mt_F64;
	vector<int> sizes(dims); for (int i = 0; i < dims; ++i) sizes[i] = (int)r.in(1, dims <= 2 ? 12 : 5);
	mt_Depth_Channel dc((mt_Depth)depth, ch);
	b8 o1 = r.chance(1, 2) ? sys_true : sys_false, o2 = r.chance(1, 2) ? sys_true : sys_false;
	bool plain = (kind == 1 || (kind == 6 && depth != mt_I32)) && r.chance(1, 4); if (plain) { dlo = 0; dhi = 1; o1 = o2 = sys_true; vh::stat("default_range"); }
	j.what = vh::fmt("kind %d seed %u range %d..%d or %g..%g, n %d %d p %g deviation %g, %d dimensions %d channels depth %d", kind, seed, lo, hi, dlo, dhi, n, bn, p, sd, dims, ch, depth);
	vh::note(j.what);
	for (int round = 0; round < 2 && !j.bad; ++round) {
		vector<double> v;
		mt_random::set_seed(seed);
		switch (kind) {
		case 0: {
			i64 range = (i64)hi - lo + 1; int draws = range <= 11 ? 60 * (int)range : 400; std::set<i32> seen;
			for (int i = 0; i < draws; ++i) { i32 x = mt_random::random_next_i32(lo, hi); v.push_back(x); seen.insert(x); if (!j.check(x >= lo && x <= hi, "next_i32_range", vh::fmt("%d", x))) break; }
			if (range <= 11) j.check((i64)seen.size() == range, "next_i32_all", vh::fmt("only %d values", (int)seen.size()));
			else { double sdr = (double)range / sqrt(12.0); moments(j, v, ((double)lo + hi) / 2, sdr, "next_i32_moments"); }
			break;
		}
		case 1: {
			for (int i = 0; i < 400; ++i) { double x = plain ? mt_random::random_uniform() : mt_random::random_uniform(dlo, o1, dhi, o2); v.push_back(x); if (!j.check(x >= dlo && x <= dhi, "uniform_range", vh::fmt("%.17g", x))) break; }
			moments(j, v, (dlo + dhi) / 2, (dhi - dlo) / sqrt(12.0), "uniform_moments"); break;
		}
		case 2: {
			vector<i32> res((size_t)r.in(0, 5), 9); mt_random::randperm(res, n);
			for (size_t i = 0; i < res.size(); ++i) v.push_back(res[i]);
			vector<i32> s(res); std::sort(s.begin(), s.end()); bool ok = (int)s.size() == n; for (int i = 0; ok && i < n; ++i) ok = s[i] == i;
			j.check(ok, "randperm", show(res));
			int m = n % 5 + 2; std::set<i32> firsts, lasts; for (int i = 0; i < 300; ++i) { mt_random::randperm(res, m); firsts.insert(res[0]); lasts.insert(res[m - 1]); }
			j.check((int)firsts.size() == m && (int)lasts.size() == m, "randperm_all", vh::fmt("permutations of %d begin with %d and end with %d different numbers", m, (int)firsts.size(), (int)lasts.size()));
			break;
		}
		case 3: {
			vector<i32> res; int m = n + 1; mt_random::randSample(m, res); bool ok = (int)res.size() == m;
			for (size_t i = 0; i < res.size(); ++i) { v.push_back(res[i]); ok = ok && res[i] >= 0 && res[i] < m; }
			j.check(ok, "randSample", show(res)); break;
		}
		case 4: {
			for (int i = 0; i < 400; ++i) { i32 x = mt_random::bernoulli(bn, p); v.push_back(x); if (!j.check(x >= 0 && x <= bn, "bernoulli_range", vh::fmt("%d", x))) break; }
			double want = bn * p, dev = sqrt(bn * p * (1 - p)), s = 0; for (size_t i = 0; i < v.size(); ++i) s += v[i];
			j.check(fabs(s / v.size() - want) <= 8 * dev / 20 + 1e-3 * bn, "bernoulli_mean", vh::fmt("%g, expected %g", s / v.size(), want)); break;
		}
		case 5: {
			for (int i = 0; i < 400; ++i) { double x = mt_random::gaussian(dlo, sd); v.push_back(x); if (!j.check(x == x && fabs(x - dlo) <= sd * 10 + 1e-9, "gaussian_value", vh::fmt("%g", x))) break; }
			moments(j, v, dlo, sd, "gaussian_moments"); break;
		}
		default: {
			mt_mat m; bool uniform = kind <= 7;
			if (plain) m = dims == 2 && r.chance(1, 2) ? mt_random::random_uniform_iid(sizes[0], sizes[1], dc) : dims == 3 ? mt_random::random_uniform_iid(sizes[0], sizes[1], sizes[2], dc) : mt_random::random_uniform_iid(dims, sizes.data(), dc); else
			if (kind == 6) m = dims == 2 && r.chance(1, 2) ? mt_random::random_uniform_iid(sizes[0], sizes[1], dc, dlo, o1, dhi, o2) : dims == 3 ? mt_random::random_uniform_iid(sizes[0], sizes[1], sizes[2], dc, dlo, o1, dhi, o2) : mt_random::random_uniform_iid(dims, sizes.data(), dc, dlo, o1, dhi, o2);
			else if (kind == 7) m = mt_random::random_zero_center_uniform_iid(dims, sizes.data(), dc, sd);
			else if (kind == 8) m = dims == 2 ? mt_random::bernoulli_iid(sizes[0], sizes[1], dc, bn, p) : mt_random::bernoulli_iid(dims, sizes.data(), dc, bn, p);
			else m = dims == 2 ? mt_random::gaussian_iid(sizes[0], sizes[1], dc, dlo, sd) : dims == 3 ? mt_random::gaussian_iid(sizes[0], sizes[1], sizes[2], dc, dlo, sd) : r.chance(1, 2) ? mt_random::gaussian_iid(sizes, dc, dlo, sd) : mt_random::gaussian_iid(dims, sizes.data(), dc, dlo, sd);
			bool shape_ok = m.dim() == dims && m.channel() == ch && m.depth() == depth; for (int i = 0; shape_ok && i < dims; ++i) shape_ok = m.size()[i] == sizes[i];
			if (!j.check(shape_ok, "mat_shape", "other shape")) break;
			v = values_of(m);
			double a = kind == 6 ? dlo : kind == 7 ? -sqrt(3.0) * sd : kind == 8 ? 0 : dlo - sd * 10, b = kind == 6 ? dhi : kind == 7 ? sqrt(3.0) * sd : kind == 8 ? bn : dlo + sd * 10, tol = 1e-5 * (1 + fabs(a) + fabs(b)) + (depth == mt_I32 ? 1 : 0);
			bool ok = true; for (size_t i = 0; ok && i < v.size(); ++i) { ok = v[i] >= a - tol && v[i] <= b + tol; if (!ok) j.check(false, "mat_range", vh::fmt("element %d is %.17g, range is %g..%g", (int)i, v[i], a, b)); }
			if (ok && v.size() >= 100 && depth != mt_I32 && kind != 8) moments(j, v, kind == 6 ? (dlo + dhi) / 2 : kind == 7 ? 0 : dlo, uniform ? (b - a) / sqrt(12.0) : sd, "mat_moments");
			if (ok && kind == 8 && depth != mt_I32 && v.size() >= 100) { double s = 0; for (size_t i = 0; i < v.size(); ++i) s += v[i]; s /= v.size(); j.check(fabs(s - bn * p) <= 8 * sqrt(bn * p * (1 - p) / v.size()) + 1e-3 * bn, "mat_bernoulli_mean", vh::fmt("%g", s)); }
			if (kind == 9 && ok && depth != mt_I32 && ch <= 4 && r.chance(1, 2)) {
				// one drawn matrix per number: independent of each other
				vector<mt_mat> drawn; mt_mat dev(m, mt_mat::Construct_Type_Create_As_Size); dev.set(sd);
				mt_random::gaussian_iid(drawn, 3, m, dev);
				bool dk = drawn.size() == 3;
				for (int k = 0; dk && k < 3; ++k) { vector<double> d = values_of(drawn[k]); dk = d.size() == v.size() && drawn[k].depth() == depth; for (size_t i = 0; dk && i < d.size(); ++i) dk = fabs(d[i] - v[i]) <= 10 * sd + tol; }
				j.check(dk, "drawn_mats", "values far from their mean");
				if (dk && sd == 0) j.check(same_vec(values_of(drawn[0]), v), "drawn_mats", "deviation 0 gives other values");
			}
			vh::stat("mat_elements", (long long)v.size());
		}
		}
		if (round == 0) first = v;
		else if (kind < 9) j.check(same_vec(first, v), "same_seed", "the same seed gave other values");
	}
	vh::dist("nontrivial", vh::hash_mem(first.data(), first.size() * 8, kind));
	vh::stat(vh::fmt("kind_%d", kind));
	j.quiet("random");
}

// ---------------------------------------------------------------- B04 block memory

static long g_live = 0;
struct Counted { i32 v; Counted() : v(-7) { ++g_live; } Counted(const Counted& o) : v(o.v) { ++g_live; } ~Counted() { --g_live; } };
struct Pod { i32 v; i32 pad[2]; };

template <class T> struct BlockModel {
	mt_block_memory<T> bm; bool init; int base; bool use_new; int max_reuse; int blocks;
	vector<i32> vals; vector<bool> live; vector<int> free_list;
	BlockModel() : init(false), base(0), use_new(false), max_reuse(0), blocks(0) {}
};
template <class T> static T* take(mt_block_memory<T>& bm) { T* p = NULL; basicmath_block_memory_get(bm, p, T); return p; }
template <class T> static void push(mt_block_memory<T>& bm) { basicmath_block_memory_add(bm); }
template <class T> static void give(mt_block_memory<T>& bm, T* p) { basicmath_block_memory_reuse(bm, p); }
template <class T> static vector<T*> visit(mt_block_memory<T>& bm) {
	vector<T*> out; typename mt_block_memory<T>::block_pos pos;
	for (;;) { basicmath_block_memory_visit(bm, pos); out.push_back(pos.m_data); if (out.size() > 100000) break; }
	if (pos.m_data != NULL || pos.m_index != -1 || pos.m_block_index != -1) out.push_back(NULL);
	return out;
}
template <class T> static void check_block(Judge& j, BlockModel<T>& m, int which) {
	if (!m.init) return;
	int n = (int)m.vals.size();
	j.check(m.bm.m_element_number == n, "element_number", vh::fmt("memory %d has %d elements, expected %d", which, m.bm.m_element_number, n));
	const mt_block_memory<T>& cb = m.bm;
	vector<T*> vis = visit(m.bm);
	if (!j.check((int)vis.size() == n, "visit_number", vh::fmt("memory %d: %d visited, expected %d", which, (int)vis.size(), n))) return;
	std::set<T*> distinct;
	for (int i = 0; i < n && !j.bad; ++i) {
		T* p = &m.bm.at(i);
		j.check(p == &cb.at(i) && p == vis[i], "visit_order", vh::fmt("memory %d: element %d visited elsewhere", which, i));
		j.check(p->v == m.vals[i], "element_value", vh::fmt("memory %d: element %d is %d, expected %d", which, i, p->v, m.vals[i]));
		j.check(bool(m.bm.in_block(p)), "in_block", vh::fmt("memory %d: element %d of %d is not in the block", which, i, n));
		distinct.insert(p);
		if (i % (1 << m.base) != 0) j.check(p == &m.bm.at(i - 1) + 1, "element_order", vh::fmt("memory %d: element %d does not follow", which, i));
	}
	j.check((int)distinct.size() == n, "element_overlap", vh::fmt("memory %d: %d elements at %d places", which, n, (int)distinct.size()));
	T other; T* heap = new T();
	j.check(!bool(m.bm.in_block(&other)) && !bool(m.bm.in_block(heap)) && !bool(m.bm.in_block(m.bm.m_cur_data)), "in_block_foreign", vh::fmt("memory %d claims other memory", which));
	delete heap;
	j.check(m.bm.memory_size() == (u64)m.blocks * (1 << m.base) * sizeof(T), "memory_size", vh::fmt("memory %d takes %llu, expected %d blocks", which, (unsigned long long)m.bm.memory_size(), m.blocks));
}
template <class T> static void block_case(Rng& r, bool use_new) {
	Judge j; long live_before = g_live;
	if (r.chance(1, 4)) {
		// what the constructors take
		int base = (int)r.in(0, 5), k = (int)r.in(0, 3); long made = use_new ? 1L << base : 0; j.what = vh::fmt("constructor %d with blocks of %d", k, 1 << base); T probe; long at = g_live;
		mt_block_memory<T> none; j.check(none.memory_size() == 0 && none.m_element_number == 0 && !bool(none.in_block(&probe)), "constructed_empty", "memory taken");
		std::unique_ptr<mt_block_memory<T> > bm(k == 0 ? new mt_block_memory<T>(base) : k == 1 ? new mt_block_memory<T>() : new mt_block_memory<T>(base, sys_true, 2));
		if (k == 1) bm->init(base);
		j.check(bm->memory_size() == (u64)(1 << base) * sizeof(T) && g_live - at == (k >= 2 ? made : 0), "constructed", vh::fmt("%llu bytes, %ld elements constructed", (unsigned long long)bm->memory_size(), g_live - at));
		T* p = take(*bm); p->v = 5; push(*bm); T* q = take(*bm); q->v = 6; push(*bm); give(*bm, p); T* t = take(*bm);
		j.check((t == p) == (k >= 2) && p->v == 5 && q->v == 6 && p != q, "constructed_reuse", "place of a given-back element"); vh::stat("op_construct");
	}
	{
		vector<BlockModel<T> > ms(2);
		bool huge = r.chance(1, 1500); if (huge) vh::stat("large_blocks"); int ops = (int)r.in(5, huge ? 400 : 60), next = 1; string trace;
		int max_base = (int)r.in(0, huge ? 6 : 4);
		for (int o = 0; o < ops && !j.bad; ++o) {
			int w = (int)r.in(0, 1); BlockModel<T>& m = ms[w];
			int op = m.init ? (int)r.in(0, 19) : 0; if (huge && m.init && op <= 4 && !r.chance(1, 12)) op = op & 1 ? 5 : 19;
			if (op <= 1) {
				int base = (int)r.in(0, max_base), reuse = r.chance(1, 2) ? (int)r.in(0, huge ? 100 : 6) : 0;
				trace += vh::fmt("%d:init(%d,%d) ", w, base, reuse);
				m.bm.init(base, use_new ? sys_true : sys_false, reuse);
				if (!(m.init && m.base == base && m.blocks > 0)) m.blocks = 1;
				m.init = true; m.base = base; m.use_new = use_new; m.max_reuse = reuse; m.vals.clear(); m.live.clear(); m.free_list.clear();
				vh::stat("op_init");
			} else if (op == 2) {
				trace += vh::fmt("%d:reset ", w); m.bm.reset(); m.vals.clear(); m.live.clear(); m.free_list.clear(); vh::stat("op_reset");
			} else if (op == 3 && r.chance(1, 3)) {
				trace += vh::fmt("%d:clear ", w); m.bm.clear(); m.init = false; m.vals.clear(); m.live.clear(); m.free_list.clear(); m.blocks = 0;
				j.check(m.bm.memory_size() == 0 && m.bm.m_element_number == 0, "clear", "memory left"); vh::stat("op_clear");
			} else if (op == 4) {
				BlockModel<T>& s = ms[1 - w];
				trace += vh::fmt("%d=%d ", w, 1 - w);
				if (r.chance(1, 2)) m.bm = s.bm; else { mt_block_memory<T> c(s.bm); m.bm = c; }
				m.init = s.init; m.base = s.base; m.use_new = s.use_new; m.max_reuse = s.max_reuse; m.vals = s.vals; m.live = s.live; m.free_list.clear();
				m.blocks = s.init ? (int)s.vals.size() / (1 << s.base) + 1 : 0;
				vh::stat("op_copy");
				check_block(j, s, 1 - w);
			} else if (op <= 6 && !m.vals.empty()) {
				int i = (int)(r.next() % m.vals.size());
				if (!m.live[i]) continue;
				trace += vh::fmt("%d:reuse(%d) ", w, i);
				give(m.bm, &m.bm.at(i));
				if ((int)m.free_list.size() < m.max_reuse) { m.free_list.push_back(i); m.live[i] = false; vh::stat("op_reuse"); }
			} else {
				int k = (int)r.in(1, 1 + (1 << m.base));
				trace += vh::fmt("%d:add*%d ", w, k);
				for (int q = 0; q < k && !j.bad; ++q) {
					T* p = take(m.bm); T* again = take(m.bm);
					j.check(p == again, "get_twice", "taking without adding moved on");
					int i;
					if (!m.free_list.empty()) { i = m.free_list.back(); m.free_list.pop_back(); m.live[i] = true; j.check(p == &m.bm.at(i), "reuse_address", vh::fmt("expected the place of element %d", i)); vh::stat("op_reused"); }
					else { i = (int)m.vals.size(); m.vals.push_back(0); m.live.push_back(true); }
					if (j.bad) break;
					p->v = next; push(m.bm);
					m.vals[i] = next++;
					m.blocks = std::max(m.blocks, (int)m.vals.size() / (1 << m.base) + 1);
				}
				vh::stat("op_add");
			}
			j.what = trace.size() > 600 ? trace.substr(trace.size() - 600) : trace; vh::note(j.what);
			if (!j.bad) { check_block(j, m, w); if (r.chance(1, 4)) check_block(j, ms[1 - w], 1 - w); }
		}
		if (ms[0].init && !j.bad) {
			sys_strcombine s; string want = "["; vector<i32> vv = ms[0].vals;
			mt_block_memory<i32> ints(ms[0].base); for (size_t i = 0; i < vv.size(); ++i) { *take(ints) = vv[i]; push(ints); want += vh::fmt("%s%d", i ? "," : "", vv[i]); }
			s << ints; string got = s; j.check(got == want + "]", "print", got);
		}
		vh::dist("nontrivial", vh::hash_str(trace));
	}
	j.check(g_live == live_before, "elements_destroyed", vh::fmt("%ld elements were not destroyed", g_live - live_before));
	j.quiet("block");
}
static void prop_block(Rng& r, long) { if (r.chance(1, 2)) block_case<Pod>(r, false); else block_case<Counted>(r, true); }

// ---------------------------------------------------------------- B05 geometry

typedef std::set<std::pair<int,int> > Pixels;
template <class T> static void rect_case(Rng& r, Judge& j) {
	typedef mt_rect_t<T> R; typedef mt_point_t<T> P; typedef mt_size_t<T> S;
	T fx = std::numeric_limits<T>::is_integer ? (T)0 : (T)((double)r.in(0, 3) / 4), fy = std::numeric_limits<T>::is_integer ? (T)0 : (T)((double)r.in(0, 3) / 4);
	if (r.chance(1, 4)) { fx += (T)r.in(-90000, 90000); fy += (T)r.in(-90000, 90000); vh::stat("far_rectangles"); }
	struct Box { int l, t, w, h; Pixels pixels() const { Pixels p; for (int y = t; y < t + h; ++y) for (int x = l; x < l + w; ++x) p.insert(std::make_pair(x, y)); return p; } };
	bool zero = r.chance(1, 8);
	Box a, b; Box* bs[2] = {&a, &b};
	for (int i = 0; i < 2; ++i) { bs[i]->l = (int)r.in(-4, 6); bs[i]->t = (int)r.in(-4, 6); bs[i]->w = (int)r.in(zero ? 0 : 1, 6); bs[i]->h = (int)r.in(zero ? 0 : 1, 6); }
	if (r.chance(1, 6)) b = a;
	R ra((T)(a.l + fx), (T)(a.t + fy), (T)a.w, (T)a.h), rb(P((T)(b.l + fx), (T)(b.t + fy)), S((T)b.w, (T)b.h));
	int px = (int)r.in(-6, 12), py = (int)r.in(-6, 12); if (r.chance(1, 2)) { px = a.l + (int)r.in(-1, a.w); py = a.t + (int)r.in(-1, a.h); }
	P p((T)(px + fx), (T)(py + fy));
	j.what = vh::fmt("rectangles %d %d %d %d and %d %d %d %d offset %g %g point %d %d", a.l, a.t, a.w, a.h, b.l, b.t, b.w, b.h, (double)fx, (double)fy, px, py);
	vh::note(j.what);
	vh::dist("nontrivial", vh::hash_str(j.what));
	Pixels pa = a.pixels(), pb = b.pixels(), both, any(pa);
	for (Pixels::iterator i = pa.begin(); i != pa.end(); ++i) if (pb.count(*i)) both.insert(*i);
	any.insert(pb.begin(), pb.end());
	bool has = pa.count(std::make_pair(px, py)) != 0;
	const R cra = ra;
	if (!zero) {
		j.check(cra.contain(p) == has && ra.contain(p) == has, "contain_point", "other answer");
		bool all = true; for (Pixels::iterator i = pb.begin(); i != pb.end(); ++i) all = all && pa.count(*i);
		j.check(cra.contain(rb) == all, "contain_rect", "other answer");
		bool edge = has && !(pa.count(std::make_pair(px - 1, py)) && pa.count(std::make_pair(px + 1, py)) && pa.count(std::make_pair(px, py - 1)) && pa.count(std::make_pair(px, py + 1)));
		j.check(cra.boundary(p) == edge, "boundary", "other answer");
		if (has) j.check(cra.in_boundary(p) == edge, "in_boundary", "other answer");
		j.check(ra.tl() == P((T)(a.l + fx), (T)(a.t + fy)) && ra.br() == P((T)(a.l + a.w - 1 + fx), (T)(a.t + a.h - 1 + fy)) && ra.tr() == P(ra.right(), ra.m_top) && ra.bl() == P(ra.m_left, ra.bottom()), "corners", "other corners");
		R c1; c1.set_rect(ra.tl(), ra.br()); R c2(ra.tl(), ra.br());
		j.check(c1 == ra && c2 == ra && !(c1 != ra), "rect_from_corners", "other rectangle");
		j.check(ra.getArea() == (T)pa.size() && ra.max_size() == (T)std::max(a.w, a.h) && ra.min_size() == (T)std::min(a.w, a.h) && ra.aspect() == a.w / (double)a.h, "measures", "other measures");
	}
	R common; bool inter = cra.is_intersect(common, rb);
	j.check(inter == !both.empty() && cra.is_intersect(rb) == !both.empty(), "is_intersect", "other answer");
	if (!both.empty() && inter) {
		int l = 99, t = 99, w = -99, h = -99; for (Pixels::iterator i = both.begin(); i != both.end(); ++i) { l = std::min(l, i->first); t = std::min(t, i->second); w = std::max(w, i->first); h = std::max(h, i->second); }
		j.check(common == R((T)(l + fx), (T)(t + fy), (T)(w - l + 1), (T)(h - t + 1)), "intersection", vh::fmt("%g %g %g %g", (double)common.m_left, (double)common.m_top, (double)common.m_width, (double)common.m_height));
		double iou = both.size() / (double)any.size(), part = both.size() / (double)pb.size(), wr = (w - l + 1) / (double)b.w, hr = (h - t + 1) / (double)b.h;
		j.check(fabs(cra.get_iou(rb) - iou) < 1e-12, "get_iou", vh::fmt("%g, expected %g", cra.get_iou(rb), iou));
		j.check(fabs(cra.get_intersect_aera_ratio(rb) - part) < 1e-12 && fabs(cra.get_intersect_width_ratio(rb) - wr) < 1e-12 && fabs(cra.get_intersect_height_ratio(rb) - hr) < 1e-12, "intersect_ratio", "other ratio");
		double th = (double)r.in(1, 8) / 8 + 0.001;
		j.check(cra.is_intersect_area(rb, th) == (part >= th) && cra.is_intersect_width(rb, th) == (wr >= th) && cra.is_intersect_height(rb, th) == (hr >= th), "intersect_threshold", vh::fmt("threshold %g", th));
		vh::stat("intersections");
		T big = (T)r.in(2, 7700);	// the same in large
		R la((T)(a.l * big), (T)(a.t * big), (T)(a.w * big), (T)(a.h * big)), lb((T)(b.l * big), (T)(b.t * big), (T)(b.w * big), (T)(b.h * big)), lc;
		j.check(la.is_intersect(lc, lb) && lc == R((T)(l * big), (T)(t * big), (T)((w - l + 1) * big), (T)((h - t + 1) * big)), "large_intersection", vh::fmt("%g %g %g %g at scale %g", (double)lc.m_left, (double)lc.m_top, (double)lc.m_width, (double)lc.m_height, (double)big));
		j.check(fabs(la.get_iou(lb) - iou) < 1e-6 && fabs(la.get_intersect_aera_ratio(lb) - part) < 1e-6 && fabs((double)la.getArea() - (double)pa.size() * (double)big * (double)big) <= 1e-6 * (double)la.getArea(), "large_ratio", vh::fmt("iou %g, expected %g at scale %g", la.get_iou(lb), iou, (double)big));
	} else if (both.empty()) j.check(cra.get_iou(rb) == 0 && cra.get_intersect_aera_ratio(rb) == 0 && !cra.is_intersect_area(rb, 0), "no_intersection", "nonzero ratio");
	if (!zero) {
		R g = ra; g.adjust_by_append_rect(rb);
		int l = std::min(a.l, b.l), t = std::min(a.t, b.t), ri = std::max(a.l + a.w, b.l + b.w), bo = std::max(a.t + a.h, b.t + b.h);
		j.check(g == R((T)(l + fx), (T)(t + fy), (T)(ri - l), (T)(bo - t)), "append_rect", "other rectangle");
		R q = ra; q.adjust_by_append_point(p);
		l = std::min(a.l, px); t = std::min(a.t, py); ri = std::max(a.l + a.w, px + 1); bo = std::max(a.t + a.h, py + 1);
		j.check(q == R((T)(l + fx), (T)(t + fy), (T)(ri - l), (T)(bo - t)), "append_point", "other rectangle");
		R e = ra; e.set_empty(); j.check(e.empty() && !ra.empty(), "empty", "other answer");
		e.adjust_by_append_point(p); j.check(e == R(p.m_x, p.m_y, (T)1, (T)1), "append_first_point", "other rectangle");
		R e2; e2.adjust_by_append_rect(rb); j.check(e2 == rb, "append_first_rect", "other rectangle");
		P v = p; cra.validate_point(v);
		j.check(v == P((T)(std::max(a.l, std::min(a.l + a.w - 1, px)) + fx), (T)(std::max(a.t, std::min(a.t + a.h - 1, py)) + fy)), "validate_point", "other point");
		if (!both.empty()) { R vr = rb; ra.validate_rect(vr); j.check(vr == common, "validate_rect", "other rectangle"); }
		T hd = (T)std::max(0, a.l < b.l ? b.l - (a.l + a.w - 1) : a.l - (b.l + b.w - 1)), vd = (T)std::max(0, a.t < b.t ? b.t - (a.t + a.h - 1) : a.t - (b.t + b.h - 1));
		j.check(ra.horizontal_dist(rb) == hd && ra.vertical_dist(rb) == vd, "distance", vh::fmt("%g %g, expected %g %g", (double)ra.horizontal_dist(rb), (double)ra.vertical_dist(rb), (double)hd, (double)vd));
		R ex = ra; ex.expand(); int side = std::max(a.w, a.h);
		j.check(ex.m_width == (T)side && ex.m_height == (T)side && ex.contain(ra), "expand", vh::fmt("%g %g %g %g", (double)ex.m_left, (double)ex.m_top, (double)ex.m_width, (double)ex.m_height));
		R sh = ra; sh.shrink(); side = std::min(a.w, a.h);
		j.check(sh.m_width == (T)side && sh.m_height == (T)side && ra.contain(sh), "shrink", vh::fmt("%g %g %g %g", (double)sh.m_left, (double)sh.m_top, (double)sh.m_width, (double)sh.m_height));
	}
	T dl = (T)r.in(-2, 3), dt = (T)r.in(-2, 3), dr = (T)r.in(-2, 3), db = (T)r.in(-2, 3);
	R ad = ra; ad.adjust(dl, dt, dr, db);
	j.check(ad.m_left == ra.m_left - dl && ad.m_top == ra.m_top - dt && ad.right() == ra.right() + dr && ad.bottom() == ra.bottom() + db, "adjust", "other rectangle");
	P q((T)r.in(-5, 5), (T)r.in(-5, 5)); S s((T)r.in(0, 5), (T)r.in(0, 5));
	R up(ra.m_left + q.m_x, ra.m_top + q.m_y, ra.m_width, ra.m_height), dn(ra.m_left - q.m_x, ra.m_top - q.m_y, ra.m_width, ra.m_height), gr(ra.m_left, ra.m_top, ra.m_width + s.m_width, ra.m_height + s.m_height), le(ra.m_left, ra.m_top, ra.m_width - s.m_width, ra.m_height - s.m_height);
	R t1 = ra, t2 = ra, t3 = ra, t4 = ra; t1 += q; t2 -= q; t3 += s; t4 -= s;
	j.check(ra + q == up && t1 == up, "plus_point", "other rectangle"); j.check(ra - q == dn && t2 == dn, "minus_point", "other rectangle");
	j.check(ra + s == gr && t3 == gr, "plus_size", "other rectangle"); j.check(ra - s == le && t4 == le, "minus_size", "other rectangle");
	mt_point2d k((double)r.in(1, 12) / 4, (double)r.in(1, 12) / 4);
	R sc((T)(ra.m_left * k.m_x), (T)(ra.m_top * k.m_y), (T)(ra.m_width * k.m_x), (T)(ra.m_height * k.m_y)), dv((T)(ra.m_left / k.m_x), (T)(ra.m_top / k.m_y), (T)(ra.m_width / k.m_x), (T)(ra.m_height / k.m_y));
	R s1 = ra, s2 = ra; s1 *= k; s2 /= k;
	j.check(ra * k == sc && s1 == sc, "scale", "other rectangle"); j.check(ra / k == dv && s2 == dv, "divide", "other rectangle");
	R st; st.set_tl(ra.tl()); st.set_size(ra.size()); R su; su.set_rect(ra.m_left, ra.m_top, ra.m_width, ra.m_height); R n = ra; n.normlized();
	j.check(st == ra && su == ra && ra.toRect() == ra && R(ra) == ra && n == ra, "set", "other rectangle");
	j.check(ra.center() == P(ra.m_left + ra.m_width / 2, ra.m_top + ra.m_height / 2), "center", "other point");
	double dx = (double)p.m_x - (double)q.m_x, dy = (double)p.m_y - (double)q.m_y;
	j.check(fabs(p.distance_to(q) - sqrt(dx * dx + dy * dy)) < 1e-4 * std::max(1.0, 1e-3 * sqrt(dx * dx + dy * dy)) && p + q - q == p, "points", "other distance");
	vh::stat("op_rect");
}
static void prop_geometry(Rng& r, long) {
	Judge j;
	int kind = (int)r.in(0, 9);
	if (kind <= 6) { if (kind <= 3) rect_case<i32>(r, j); else if (kind <= 5) rect_case<f64>(r, j); else rect_case<f32>(r, j); }
	else if (kind <= 8) {
		bool many = r.chance(1, 100); if (many) vh::stat("large_histograms"); vector<f64> data((size_t)r.in(1, many ? 3000 : 40)); double scale = pow(10, (double)r.in(-6, 9)), shift = (double)r.in(-3, 3) * scale;
		bool flat = r.chance(1, 8);
		for (size_t i = 0; i < data.size(); ++i) data[i] = flat ? shift : shift + scale * (double)r.in(many ? -2000 : -20, 20) / 10;
		int bins = (int)r.in(1, many ? 300 : 12);
		j.what = vh::fmt("histogram with %d bins of ", bins) + show(data); vh::note(j.what);
		vector<mt_range_t<f64> > rg((size_t)r.in(0, 15)); vector<i32> num((size_t)r.in(0, 15), 3);
		mt_hist::hist(rg, num, data, bins);
		double mn = *std::min_element(data.begin(), data.end()), mx = *std::max_element(data.begin(), data.end());
		if (j.check((int)rg.size() == bins && (int)num.size() == bins, "hist_size", vh::fmt("%d ranges, %d numbers", (int)rg.size(), (int)num.size()))) {
			int total = 0; double width = rg[0].size();
			j.check(rg[0].m_start == mn && rg[bins - 1].m_end > mx && width > 0, "hist_span", vh::fmt("from %.17g to %.17g", rg[0].m_start, rg[bins - 1].m_end));
			for (int k = 0; k < bins && !j.bad; ++k) {
				if (k) j.check(rg[k].m_start == rg[k - 1].m_end, "hist_gap", vh::fmt("bin %d", k));
				j.check(fabs(rg[k].size() - width) <= 1e-9 * (fabs(mn) + fabs(mx) + width), "hist_width", vh::fmt("bin %d", k));
				int c = 0; for (size_t i = 0; i < data.size(); ++i) c += data[i] >= rg[k].m_start && data[i] < rg[k].m_end;
				j.check(num[k] == c, "hist_count", vh::fmt("bin %d has %d, expected %d", k, num[k], c)); total += num[k];
			}
			j.check(total == (int)data.size(), "hist_total", vh::fmt("%d of %d data counted", total, (int)data.size()));
		}
		vh::dist("nontrivial", vh::hash_str(j.what)); vh::stat("op_hist");
	} else {
		f64 a = (double)r.in(-2876, 5760) / 8;
		j.what = vh::fmt("angle %g", a);
		f64 n = mt_angle_helper::normlize_angle(a);
		if (a > -360 && a < 720) j.check(n >= 0 && n <= 360 && (n == a || fabs(n - a) == 360), "normlize_angle", vh::fmt("%g", n));
		i32 ia = (i32)r.in(-359, 719), in = mt_angle_helper::normlize_angle(ia);
		j.check(in >= 0 && in <= 360 && (in - ia) % 360 == 0, "normlize_angle", vh::fmt("%d becomes %d", ia, in));
		j.check(fabs(mt_angle_helper::radian_from_angle(a) - a * M_PI / 180) < 1e-9 && fabs(mt_angle_helper::angle_from_radian(mt_angle_helper::radian_from_angle(a)) - a) < 1e-9, "radian", "other value");
		i32 d = (i32)r.in(0, 359);
		j.check(fabs(mt_trigonometric_function::angle_sin(d) - sin(d * M_PI / 180)) < 1e-9 && fabs(mt_trigonometric_function::angle_cos(d) - cos(d * M_PI / 180)) < 1e-9, "trigonometry", vh::fmt("of %d", d));
		mt_point none; mt_point2f nonef; mt_size ns, nw(d); mt_rect nr;
		j.check(none.m_x == -1 && none.m_y == -1 && nonef.m_x == -1 && nonef.m_y == -1 && ns.m_width == -1 && ns.m_height == -1 && nw.m_width == d && nw.m_height == -1, "default_values", "of points or sizes");
		j.check(nr.m_width == 0 && nr.m_height == 0, "default_values", "of rectangles");
		int far = r.chance(1, 3) ? 1000000 : 1000; mt_point pa((int)r.in(-far, far), (int)r.in(-far, far)), pb((int)r.in(-far, far), (int)r.in(-far, far)), ps = pa + pb, pd = pa - pb;
		j.check(ps.m_x == pa.m_x + pb.m_x && ps.m_y == pa.m_y + pb.m_y && pd.m_x == pa.m_x - pb.m_x && pd.m_y == pa.m_y - pb.m_y && (pa == pb) == (pa.m_x == pb.m_x && pa.m_y == pb.m_y) && pa == pd + pb, "points", vh::fmt("(%d, %d) and (%d, %d)", pa.m_x, pa.m_y, pb.m_x, pb.m_y));
		j.check(fabs(pa.distance_to(pb) - hypot((double)pd.m_x, (double)pd.m_y)) < 1e-9 * std::max(1, far / 1000), "points", "distance");
		vh::dist("nontrivial", vh::hash_mem(&a, 8, d)); vh::stat("op_angle");
	}
	j.quiet("geometry");
}

// ---------------------------------------------------------------- A10 matrices in files and texts

#include <dirent.h>
static string g_dir;
static void scratch() {
	if (!g_dir.empty()) return;
	char t[] = "/tmp/vh_tools_XXXXXX";
	if (mkdtemp(t) == NULL) { fprintf(stderr, "HARNESS-ERROR: no scratch directory\n"); exit(3); }
	g_dir = t;
}
static void teardown() {
	if (!g_dir.empty()) { static const char* names[] = {"/m.txt", "/m.bin"}; for (int i = 0; i < 2; ++i) unlink((g_dir + names[i]).c_str()); rmdir(g_dir.c_str()); }
	mm::teardown_log();
}
static View some_mat(Bench& b, Rng& r, int lo_dim, int hi_dim) {
	View v = b.make(pick_sizes(r, lo_dim, hi_dim), pick_channel(r), pick_depth(r));
	for (size_t i = 0; i < v.cells.size(); ++i) {
		double x = pick_value(r, v.depth);
		if (v.depth == mt_F64 && r.chance(1, 3)) x = (r.unit() - 0.5) * pow(10, (double)r.in(-30, 30));
		if (v.depth == mt_F32 && r.chance(1, 3)) x = (float)((r.unit() - 0.5) * pow(10, (double)r.in(-30, 30)));
		cells()[v.cells[i]] = x;
	}
	return v;
}
static vector<double> content(const View& v) { vector<double> w(v.cells.size()); for (size_t i = 0; i < w.size(); ++i) w[i] = cells()[v.cells[i]]; return w; }
static void expect(Bench& b, const char* key, const mt_mat& m, const View& v) { equals(b, key, m, v.sizes, v.ch, v.depth, content(v)); }

static void prop_serial(Rng& r, long) {
	scratch();
	Bench b(r);
	int kind = (int)r.in(0, 5), n = kind == 3 ? (int)r.in(0, 3) : kind == 2 ? 2 : 1;
	vector<View> vs;
	b.what = vh::fmt("kind %d", kind);
	for (int i = 0; i < n; ++i) { View v = some_mat(b, r, 1, kind == 4 ? 3 : 5); b.what += " " + shape(v); b.keep(v); vs.push_back(v); }
	vh::note(b.what);
	bool text = r.chance(1, 2), empty = r.chance(1, 10);
	string path = g_dir + (text ? "/m.txt" : "/m.bin");
	switch (kind) {
	case 0: case 1: {
		mt_mat got(1, 1, mt_U8C1);
		if (kind == 0) { bool plain = text && r.chance(1, 2); if (plain) mt_mat_helper::save(path, empty ? mt_mat() : vs[0].m); else mt_mat_helper::save(path, empty ? mt_mat() : vs[0].m, text ? sys_true : sys_false); got = text && r.chance(1, 2) ? mt_mat_helper::load(path) : mt_mat_helper::load(path, text ? sys_true : sys_false); vh::stat("op_file"); }
		else {
			string str; vector<u8> mem;
			if (text) { sys_string_buffer_writer w(&str); mt_mat_helper::save(&w, empty ? mt_mat() : vs[0].m); } else { sys_byte_buffer_writer w(&mem); mt_mat_helper::save(&w, empty ? mt_mat() : vs[0].m); }
			sys_buffer_reader* rd = text ? (sys_buffer_reader*)new sys_string_buffer_reader(str) : (sys_buffer_reader*)new sys_byte_buffer_reader(mem.data(), mem.data() + mem.size());
			got = mt_mat_helper::load(rd); delete rd;
			vh::stat("op_buffer");
		}
		if (empty) { vh::stat("empty"); if (!got.is_empty()) b.fail("load_empty", "the empty matrix is read back with elements"); }
		else expect(b, text ? "load_text" : "load_bytes", got, vs[0]);
		break;
	}
	case 2: case 3: {
		// among other values of a document
		string keep_text; vector<u8> keep_bytes;
		vector<mt_mat> all; for (int i = 0; i < n; ++i) all.push_back(vs[i].m);
		sys_string_buffer_writer sw(&keep_text); sys_byte_buffer_writer bw(&keep_bytes);
		{
			sys_json_writer w(text ? (sys_buffer_writer*)&sw : (sys_buffer_writer*)&bw);
			w << "before" << (i32)17;
			if (kind == 2) w << "first" << all[0] << "second" << all[1]; else w << "all" << all;
			w << "after" << string("end");
		}
		{
			sys_buffer_reader* br = text ? (sys_buffer_reader*)new sys_string_buffer_reader(keep_text) : (sys_buffer_reader*)new sys_byte_buffer_reader(keep_bytes.data(), keep_bytes.data() + keep_bytes.size());
			sys_json_reader rd(br);
			if (kind == 2) {
				mt_mat x, y;
				if (r.chance(1, 2)) { rd["second"] >> y; rd["first"] >> x; } else { rd["first"] >> x; rd["second"] >> y; }
				expect(b, "document_first", x, vs[0]); expect(b, "document_second", y, vs[1]);
			} else {
				vector<mt_mat> got((size_t)r.in(0, 4)); rd["all"] >> got;
				if ((int)got.size() != n) b.fail("document_vector", vh::fmt("%d matrices, expected %d", (int)got.size(), n));
				else for (int i = 0; i < n && !b.bad; ++i) expect(b, "document_vector", got[i], vs[i]);
			}
			i32 before = 0; rd["before"] >> before; string after = rd["after"].to_string();
			if (before != 17 || after != "end") b.fail("document_neighbours", vh::fmt("%d %s", before, after.c_str()));
			delete br;
		}
		vh::stat("op_document"); break;
	}
	case 4: {
		if (vs[0].depth == mt_I8) { vh::stat("skipped"); break; }
		if (empty) { sys_strcombine e; e << mt_mat(); string t = e; if (!t.empty()) b.fail("print_empty", t); vh::stat("empty"); }
		sys_strcombine sc; sc << vs[0].m; string s = sc;
		const View& v = vs[0]; string head = vh::fmt("%dd mat: ", v.dims());
		for (int i = 0; i < v.dims(); ++i) head += vh::fmt("%s%d", i ? " * " : "", v.sizes[i]);
		head += string(", depth_channel: ") + mt_Depth_Channel::depth_channel_str(v.m.depth_channel()) + "\n";
		if (s.substr(0, head.size()) != head) { b.fail("print_head", s.substr(0, 80)); break; }
		// lines of elements; elements are separated by ", ", channels by " "
		string body = s.substr(head.size()); vector<string> lines; size_t from = 0;
		while (from <= body.size()) { size_t to = body.find('\n', from); if (to == string::npos) to = body.size(); string l = body.substr(from, to - from); if (!l.empty()) lines.push_back(l); from = to + 1; }
		vector<string> rows; int planes = 0;
		for (size_t i = 0; i < lines.size(); ++i) if (lines[i].find("plane") != string::npos) { if (lines[i] != vh::fmt("%d-th plane mat:", planes) || (v.dims() == 3 && (int)rows.size() != planes * v.sizes[1])) b.fail("print_plane", lines[i]); ++planes; } else rows.push_back(lines[i]);
		int cols = v.sizes.back(), want_rows = v.elements() / cols;
		if ((int)rows.size() != want_rows || planes != (v.dims() == 3 ? v.sizes[0] : 0)) { b.fail("print_rows", vh::fmt("%d rows, %d planes", (int)rows.size(), planes)); break; }
		for (int i = 0; i < want_rows && !b.bad; ++i) {
			vector<string> el; size_t p = 0; const string& l = rows[i];
			for (;;) { size_t q = l.find(", ", p); el.push_back(l.substr(p, q == string::npos ? string::npos : q - p)); if (q == string::npos) break; p = q + 2; }
			if ((int)el.size() != cols) { b.fail("print_columns", l); break; }
			for (int k = 0; k < cols && !b.bad; ++k) {
				const char* c = el[k].c_str(); char* end = NULL;
				for (int q = 0; q < v.ch; ++q) {
					double x = strtod(c, &end), y = cells()[v.cells[(i * cols + k) * v.ch + q]];
					bool ok = end != c && fabs(x - y) <= 1e-6 * std::max(1.0, fabs(y)) && *end == (q == v.ch - 1 ? 0 : ' ');
					if (!ok) { b.fail("print_value", vh::fmt("element %d channel %d is '%s', expected %.17g", i * cols + k, q, el[k].c_str(), y)); break; }
					c = end + 1;
				}
			}
		}
		vh::stat("op_print"); break;
	}
	default: {
		mt_Depth_Channel dc = vs[0].m.depth_channel();
		string s = mt_Depth_Channel::depth_channel_str(dc); mt_Depth_Channel back = mt_Depth_Channel::depth_channel_i32(s);
		if (back.depth() != dc.depth() || back.channel() != dc.channel()) b.fail("depth_channel_name", s);
		vh::stat("op_names");
	}
	}
	b.check("serial");
	vh::dist("nontrivial", vh::hash_str(b.what));
	vh::stat(text ? "as_text" : "as_bytes");
}

// ---------------------------------------------------------------- B06 small values

template <class T> static string number(T v) { return std::numeric_limits<T>::is_integer ? vh::fmt("%lld", (long long)v) : vh::fmt("%.17g", (double)v); }
template <class T> struct ListArg { typedef T type; };
template <> struct ListArg<u8> { typedef int type; }; template <> struct ListArg<i8> { typedef int type; }; template <> struct ListArg<u16> { typedef int type; }; template <> struct ListArg<i16> { typedef int type; }; template <> struct ListArg<f32> { typedef double type; };

template <class T> static void small_values(Rng& r, Judge& j, mt_Depth depth, const char* name) {
	bool sig = std::numeric_limits<T>::is_signed, whole = std::numeric_limits<T>::is_integer;
	T x[4], y[4]; for (int i = 0; i < 4; ++i) { x[i] = r.chance(1, 4) ? (T)0 : (T)(r.in(sig ? -100 : 0, 100)); y[i] = x[i]; }
	int twist = (int)r.in(0, 7); if (twist < 4) { do y[twist] = (T)(r.in(sig ? -100 : 0, 100)); while (y[twist] == x[twist]); }
	int kind = (int)r.in(0, 6); bool same = twist >= 4;
	j.what = vh::fmt("%s kind %d {", name, kind); for (int i = 0; i < 4; ++i) j.what += number(x[i]) + "/" + number(y[i]) + " "; j.what += "}"; vh::note(j.what);
	vh::dist("nontrivial", vh::hash_str(j.what));
	switch (kind) {
	case 0: {
		int given = (int)r.in(0, 4); mt_scalar_t<T> s = given == 0 ? mt_scalar_t<T>() : given == 1 ? mt_scalar_t<T>(x[0]) : given == 2 ? mt_scalar_t<T>(x[0], x[1]) : given == 3 ? mt_scalar_t<T>(x[0], x[1], x[2]) : mt_scalar_t<T>(x[0], x[1], x[2], x[3]);
		const mt_scalar_t<T>& c = s; bool ok = true; for (int i = 0; i < 4; ++i) ok = ok && c[i] == (i < given ? x[i] : (T)0) && &s[i] == &s.value[i];
		j.check(ok, "scalar_values", vh::fmt("%d given", given));
		mt_scalar_t<T> a(x[0], x[1], x[2], x[3]), b(y[0], y[1], y[2], y[3]), k(a);
		j.check(bool(a == b) == same && bool(b == a) == same && k == a, "scalar_equal", vh::fmt("expected %d", (int)same));
		int w = (int)r.in(0, 3); k[w] = (T)(k[w] + 1); j.check(!(k == a) && a[w] == x[w], "scalar_assign", vh::fmt("channel %d", w));
		vector<T> v((size_t)r.in(0, 7), (T)9); a.to_vector(v);
		j.check(v.size() == 4 && v[0] == x[0] && v[1] == x[1] && v[2] == x[2] && v[3] == x[3], "scalar_vector", show(v)); vh::stat("op_scalar_type"); break;
	}
	case 1: {
		T lo = std::min(x[0], x[1]), hi = std::max(x[0], x[1]); if (!whole) { lo = (T)(lo / 4); hi = (T)(hi / 4); }
		mt_range_t<T> g(lo, hi), k(g), d; j.check(g.m_start == lo && g.m_end == hi && k.m_start == lo && k.m_end == hi && d.m_start == (T)-1 && d.m_end == (T)-1, "range_values", "other borders");
		j.check(g.size() == (T)(hi - lo), "range_size", number(g.size()));
		if (sizeof(T) > 1) { sys_strcombine s, a, b; s << "x" << g; a << lo; b << hi; string got = s, want = "x[" + (string)a + "," + (string)b + "]"; j.check(got == want, "range_text", got); }
		vh::stat("op_range_type"); break;
	}
	case 2: {
		double dx[4], dy[4]; for (int i = 0; i < 4; ++i) { dx[i] = (double)x[i]; dy[i] = (double)y[i]; }
		sys_array_type<T, 4> a(dx), b(dy), k(a), z; bool ok = true; for (int i = 0; i < 4; ++i) ok = ok && a.m_value[i] == x[i];
		j.check(ok, "array_values", "other values");
		j.check(bool(a == b) == same && bool(a != b) == !same && bool(b == a) == same && bool(k == a), "array_equal", vh::fmt("expected %d", (int)same));
		z = b; j.check(bool(z == b) && !bool(z != b), "array_assign", "other values");
		j.check(a.size() == 4 && a.memory_size() == (i32)(4 * sizeof(T)) && sizeof a == 4 * sizeof(T), "array_size", vh::fmt("%d %d", a.size(), a.memory_size()));
		sys_array_type<T, 3> t(dx), u(dy); bool same3 = twist >= 3; j.check(bool(t == u) == same3 && bool(t != u) == !same3 && t.size() == 3 && t.memory_size() == (i32)(3 * sizeof(T)), "array_three", vh::fmt("expected %d", (int)same3));
		sys_array_type<T> o(dx), p(dy); bool same1 = twist != 0; j.check(bool(o == p) == same1 && o.size() == 1, "array_one", vh::fmt("expected %d", (int)same1)); vh::stat("op_array_type"); break;
	}
	case 3: {
		static const int bytes[] = {1, 1, 2, 2, 4, 4, 8, 8, 4, 8};
		j.check(mt_mat_t<T>::depth_from_data_type() == depth && mt_Depth_Size[depth] == (int)sizeof(T) && bytes[depth] == (int)sizeof(T), "depth_of_type", vh::fmt("%d", (int)mt_mat_t<T>::depth_from_data_type()));
		int c = r.chance(1, 3) ? (int)r.in(1, 4) : r.chance(1, 10) ? 32768 : (int)r.in(1, 32768), c2 = r.chance(1, 2) ? c : (int)r.in(1, 4); mt_Depth d2 = r.chance(1, 2) ? depth : (mt_Depth)r.in(0, 9);
		mt_Depth_Channel a(depth, c), b(d2, c2), e, k(a);
		j.check(a.depth() == depth && a.channel() == c && a.depth_size() == (int)sizeof(T) && a.size() == (int)sizeof(T) * c, "depth_channel", vh::fmt("%d %d %d %d", (int)a.depth(), a.channel(), a.depth_size(), a.size()));
		bool eq = c == c2 && depth == d2; j.check((a == b) == eq && (a != b) == !eq && k == a && !(e == a) && e != a && e == mt_Depth_Channel(), "depth_channel_equal", vh::fmt("%d with %d channels", (int)d2, c2));
		string s = mt_Depth_Channel::depth_channel_str(a); mt_Depth_Channel back = mt_Depth_Channel::depth_channel_i32(s);
		j.check(back == a && s == vh::fmt("mt_%s%d", (string(name) + "C").c_str(), c), "depth_channel_name", s);
		j.check(mt_Depth_Channel::depth_i32(mt_Depth_Channel::depth_str(depth)) == depth && mt_Depth_Channel(depth) == mt_Depth_Channel(depth, 1), "depth_name", mt_Depth_Channel::depth_str(depth));
		static const mt_Depth_Channel named[4][10] = {
			{mt_U8C1, mt_I8C1, mt_U16C1, mt_I16C1, mt_U32C1, mt_I32C1, mt_U64C1, mt_I64C1, mt_F32C1, mt_F64C1}, {mt_U8C2, mt_I8C2, mt_U16C2, mt_I16C2, mt_U32C2, mt_I32C2, mt_U64C2, mt_I64C2, mt_F32C2, mt_F64C2},
			{mt_U8C3, mt_I8C3, mt_U16C3, mt_I16C3, mt_U32C3, mt_I32C3, mt_U64C3, mt_I64C3, mt_F32C3, mt_F64C3}, {mt_U8C4, mt_I8C4, mt_U16C4, mt_I16C4, mt_U32C4, mt_I32C4, mt_U64C4, mt_I64C4, mt_F32C4, mt_F64C4}};
		int q = (int)r.in(1, 4); j.check(named[q - 1][depth].depth() == depth && named[q - 1][depth].channel() == q && named[q - 1][depth] == mt_Depth_Channel(depth, q), "depth_channel_named", vh::fmt("%d channels", q));
		vh::stat("op_depth_type"); break;
	}
	case 4: {
		typedef typename ListArg<T>::type A; int form = (int)r.in(0, 3), rows = (int)r.in(1, 3), cols = (int)r.in(1, 12 / rows / (form == 1 ? 2 : 1)), planes = form == 1 ? (int)r.in(1, 2) : 1; if (cols < 1) cols = 1;
		int ch = form <= 1 ? (int)r.in(1, std::max(1, 12 / (rows * cols * planes))) : 1; if (form == 3) rows = 1; int n = planes * rows * cols * ch;
		T v[12]; for (int i = 0; i < 12; ++i) v[i] = r.chance(1, 6) ? std::numeric_limits<T>::max() : sig && whole && r.chance(1, 6) ? std::numeric_limits<T>::min() : (T)r.in(sig ? -100 : 0, 100);
		if (sizeof(T) == 8 && whole) v[0] = (T)(r.in(0, 1000));	// the first of a list is given as a double
		mt_mat m;
		if (form <= 1) { mt_mat_t<T> t = form == 0 ? mt_mat_t<T>(rows, cols, ch) : mt_mat_t<T>(planes, rows, cols, ch); m = t.read((double)v[0], (A)v[1], (A)v[2], (A)v[3], (A)v[4], (A)v[5], (A)v[6], (A)v[7], (A)v[8], (A)v[9], (A)v[10], (A)v[11]); j.check(m.data() == t.m_mat.data(), "typed_shared", "the list went to other memory"); }
		else if (form == 2) { vector<vector<T> > vv(rows); for (int i = 0; i < rows; ++i) vv[i].assign(v + i * cols, v + (i + 1) * cols); m = mt_mat_t<T>::read(vv); }
		else m = mt_mat_t<T>::read(vector<T>(v, v + cols));
		bool ok = m.dim() == (form == 1 ? 3 : 2) && m.depth() == depth && m.channel() == ch && m.size()[m.dim() - 1] == cols && m.size()[m.dim() - 2] == rows && (form != 1 || m.size()[0] == planes);
		if (j.check(ok, "typed_shape", vh::fmt("form %d", form))) { const T* d = (const T*)m.data(); for (int i = 0; i < n && ok; ++i) ok = d[i] == v[i]; j.check(ok, "typed_values", vh::fmt("form %d, %d x %d x %d, %d channels", form, planes, rows, cols, ch)); }
		vh::stat("op_typed"); break;
	}
	case 5: {
		// b8 stands for bool
		T v = r.chance(1, 2) ? x[0] : (T)((long long)r.in(0, 3) * 256); if (!whole || sizeof(T) > 4 || (sizeof(T) < 2)) { vh::stat("op_b8"); break; }
		i32 n = (i32)v, m = (i32)y[1]; if (r.chance(1, 4)) n = (i32)((u32)r.in(0, 255) << r.in(0, 24)); b8 a(n), b(m), c(n != 0), e; bool t = n != 0, u = m != 0;
		j.check((a ? true : false) == t && (c ? true : false) == t && (!a ? true : false) == !t && !(e ? true : false), "b8_value", vh::fmt("%d counts as %d", n, (int)(u8)a));
		j.check(bool(a == b) == (t == u) && bool(a != b) == (t != u) && bool(a && b) == (t && u) && bool(a || b) == (t || u) && bool(a == c), "b8_equal", vh::fmt("%d and %d", n, m));
		std::vector<b8> many(3, a); many[1] = sys_true; j.check(bool(many[0]) == t && bool(many[1]) && bool(many[2]) == t && sizeof(b8) == 1 && &many[1] == &many[0] + 1, "b8_vector", "elements of their own"); vh::stat("op_b8"); break;
	}
	default: {
		vector<T> v((size_t)r.in(0, 6)); vector<int> fw, bw; sys_for(i, v) fw.push_back(i); sys_rfor(i, v) bw.push_back(i);
		bool ok = fw.size() == v.size() && bw.size() == v.size(); for (size_t i = 0; ok && i < v.size(); ++i) ok = fw[i] == (int)i && bw[i] == (int)(v.size() - 1 - i);
		j.check(ok, "loop", vh::fmt("%d elements", (int)v.size()));
		T* one = new T(x[0]); T* arr = new T[3]; T* mal = (T*)malloc(sizeof(T)); vector<T*> ps(3), as(2); for (size_t i = 0; i < ps.size(); ++i) ps[i] = r.chance(1, 4) ? NULL : new T(); for (size_t i = 0; i < as.size(); ++i) as[i] = r.chance(1, 4) ? NULL : new T[2];
		basicsys_delete(one); basicsys_delete_array(arr); basicsys_free(mal); basicsys_delete_vector_ptr(ps); basicsys_delete_vector_array_ptr(as);
		basicsys_delete(one); basicsys_delete_array(arr); basicsys_free(mal);
		ok = one == NULL && arr == NULL && mal == NULL && ps.size() == 3 && as.size() == 2; for (size_t i = 0; i < ps.size(); ++i) ok = ok && ps[i] == NULL; for (size_t i = 0; i < as.size(); ++i) ok = ok && as[i] == NULL;
		j.check(ok, "delete_clears", "a pointer is kept"); vh::stat("op_macros");
	}
	}
	j.quiet("values");
}
static void prop_values(Rng& r, long) {
	Judge j;
	switch (r.in(0, 9)) {
	case 0: small_values<u8>(r, j, mt_U8, "U8"); break; case 1: small_values<i8>(r, j, mt_I8, "I8"); break;
	case 2: small_values<u16>(r, j, mt_U16, "U16"); break; case 3: small_values<i16>(r, j, mt_I16, "I16"); break;
	case 4: small_values<u32>(r, j, mt_U32, "U32"); break; case 5: small_values<i32>(r, j, mt_I32, "I32"); break;
	case 6: small_values<u64>(r, j, mt_U64, "U64"); break; case 7: small_values<i64>(r, j, mt_I64, "I64"); break;
	case 8: small_values<f32>(r, j, mt_F32, "F32"); break; default: small_values<f64>(r, j, mt_F64, "F64");
	}
}

int main(int argc, char** argv) {
	vector<vh::Prop> props;
	vh::Prop a[] = {{"sort", prop_sort}, {"combi", prop_combi}, {"random", prop_random}, {"block", prop_block}, {"geometry", prop_geometry}, {"serial", prop_serial}, {"values", prop_values}};
	props.assign(a, a + sizeof a / sizeof a[0]);
	return vh::run_main(argc, argv, props, mm::setup_log, teardown);
}
