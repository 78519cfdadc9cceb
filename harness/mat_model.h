// Reference model of mt_mat views: see h_mat.cpp.
#pragma once
#include "vh.h"
#include "all_math.h"
#include "math_log.h"
#include <math.h>

namespace mm {
using vh::Rng;

// ---- cells and stores
inline std::vector<double>& cells() { static std::vector<double> c; return c; }
inline std::vector<bool>& store_external() { static std::vector<bool> s; return s; }
inline int new_store(int n, bool external) { cells().resize(cells().size() + n, 0.0); store_external().push_back(external); return (int)store_external().size() - 1; }

struct Ext {
	std::vector<u8> mem;
	std::vector<bool> mine;
	bool intact() const { for (size_t i = 0; i < mem.size(); ++i) if (!mine[i] && mem[i] != 0xA5) return false; return true; }
};

struct View {
	mt_mat m;
	std::vector<int> sizes;
	int ch, depth;
	std::vector<int> cells;
	int store;
	View() : ch(0), depth(0), store(-1) {}
	int dims() const { return (int)sizes.size(); }
	int elements() const { int n = 1; for (size_t i = 0; i < sizes.size(); ++i) n *= sizes[i]; return n; }
	int offset(const std::vector<int>& idx) const { int o = 0; for (size_t i = 0; i < sizes.size(); ++i) o = o * sizes[i] + idx[i]; return o; }
	std::vector<int> index_of(int e) const { std::vector<int> r(sizes.size()); for (int i = (int)sizes.size() - 1; i >= 0; --i) { r[i] = e % sizes[i]; e /= sizes[i]; } return r; }
};

inline void next_index(std::vector<int>& idx, const std::vector<int>& sizes) {
	for (int i = (int)sizes.size() - 1; i >= 0; --i) { if (++idx[i] < sizes[i]) return; idx[i] = 0; }
}

inline int esize(int depth) {
	switch (depth) { case mt_U8: case mt_I8: return 1; case mt_U16: case mt_I16: return 2; case mt_U32: case mt_I32: case mt_F32: return 4; default: return 8; }
}

inline int pick_depth(Rng& r) { static const int d[] = {mt_U8, mt_U8, mt_I8, mt_U16, mt_I16, mt_U32, mt_I32, mt_U64, mt_I64, mt_F32, mt_F64, mt_F32, mt_F64}; return d[r.next() % (sizeof d / sizeof d[0])]; }
inline int pick_channel(Rng& r) { if (r.chance(1, 50)) { vh::stat("many_channels"); return (int)r.in(7, r.chance(1, 6) ? 200 : 30); } static const int c[] = {1, 1, 1, 2, 3, 4, 5, 6}; return c[r.next() % 8]; }

inline bool is_float(int d) { return d == mt_F32 || d == mt_F64; }
inline double lo(int d) { switch (d) { case mt_U8: case mt_U16: case mt_U32: case mt_U64: return 0; case mt_I8: return -128; case mt_I16: return -32768; case mt_I32: return -2147483648.0; default: return -9007199254740992.0; } }
inline double hi(int d) { switch (d) { case mt_U8: return 255; case mt_I8: return 127; case mt_U16: return 65535; case mt_I16: return 32767; case mt_U32: return 4294967295.0; case mt_I32: return 2147483647; default: return 9007199254740992.0; } }

// A value that the depth holds exactly; often small, sometimes at the limits.
inline double pick_value(Rng& r, int d) {
	if (is_float(d)) { switch (r.in(0, 5)) { case 0: return 0; case 1: return (double)r.in(-100000, 100000) / 8; case 2: return (double)r.in(0, 100); default: return (double)r.in(-800, 800) / 8; } }
	switch (r.in(0, 9)) {
	case 0: return 0; case 1: return lo(d); case 2: return hi(d);
	case 3: { double a = std::max(lo(d), -40000.0), b = std::min(hi(d), 40000.0); return (double)r.in((int64_t)a, (int64_t)b); }
	default: { double a = std::max(lo(d), -100.0); return (double)r.in((int64_t)a, 100); }
	}
}
inline double as_depth(int d, double x) { return d == mt_F64 ? x : d == mt_F32 ? (double)(float)x : (x < 0 ? ceil(x) : floor(x)) + 0.0; }
inline bool fits(int d, double x) { return x >= lo(d) && x <= hi(d); }

inline double load(const u8* p, int d) {
	switch (d) {
	case mt_U8: return *p; case mt_I8: return *(const i8*)p; case mt_U16: return *(const u16*)p; case mt_I16: return *(const i16*)p; case mt_U32: return *(const u32*)p; case mt_I32: return *(const i32*)p;
	case mt_U64: return (double)*(const u64*)p; case mt_I64: return (double)*(const i64*)p; case mt_F32: return *(const f32*)p; default: return *(const f64*)p;
	}
}
inline void save(u8* p, int d, double x) {
	switch (d) {
	case mt_U8: *p = (u8)x; break; case mt_I8: *(i8*)p = (i8)x; break; case mt_U16: *(u16*)p = (u16)x; break; case mt_I16: *(i16*)p = (i16)x; break; case mt_U32: *(u32*)p = (u32)x; break; case mt_I32: *(i32*)p = (i32)x; break;
	case mt_U64: *(u64*)p = (u64)x; break; case mt_I64: *(i64*)p = (i64)x; break; case mt_F32: *(f32*)p = (f32)x; break; default: *(f64*)p = x; break;
	}
}

// Address of an element from the public description of the layout.
inline const u8* addr(const mt_mat& m, const std::vector<int>& idx) { const u8* p = m.data(); for (size_t i = 0; i < idx.size(); ++i) p += (long)idx[i] * m.step()[i]; return p; }

// Writes the model's values through raw addresses.
inline void store_raw(View& v) {
	std::vector<int> idx(v.dims(), 0);
	for (int e = 0; e < v.elements(); ++e) {
		u8* p = const_cast<u8*>(addr(v.m, idx));
		for (int c = 0; c < v.ch; ++c) save(p + c * esize(v.depth), v.depth, cells()[v.cells[e * v.ch + c]]);
		next_index(idx, v.sizes);
	}
}
inline void fill_raw(View& v, Rng& r) {
	int flat = (int)r.in(0, 9);
	for (size_t i = 0; i < v.cells.size(); ++i) cells()[v.cells[i]] = flat == 0 ? 0 : flat == 1 ? std::min((double)i, hi(v.depth)) : pick_value(r, v.depth);
	store_raw(v);
}

// The view gets cells of its own with the values it has now.
inline void own_copy(View& w) {
	std::vector<double> vals(w.cells.size());
	for (size_t i = 0; i < w.cells.size(); ++i) vals[i] = cells()[w.cells[i]];
	w.store = new_store((int)vals.size(), false);
	int first = (int)(cells().size() - vals.size());
	for (size_t i = 0; i < vals.size(); ++i) { w.cells[i] = first + (int)i; cells()[first + i] = vals[i]; }
}

inline std::string describe(const View& v) {
	std::string s = "[";
	for (int i = 0; i < v.dims(); ++i) s += (i ? "x" : "") + std::to_string(v.sizes[i]);
	s += "]c" + std::to_string(v.ch) + "d" + std::to_string(v.depth) + "s" + std::to_string(v.store);
	return s;
}
inline uint64_t layout_hash(const View& v) {
	uint64_t h = v.depth * 31 + v.ch;
	for (int i = 0; i < v.dims(); ++i) h = vh::mix(h ^ ((uint64_t)v.sizes[i] << 32) ^ (uint32_t)v.m.step()[i]);
	return h;
}

template <class T> double at_as(const mt_mat& m, const std::vector<int>& i, int c, int how) {
	int n = (int)i.size();
	if (how == 0 && n == 1) return (double)m.at<T>(i[0], c);
	if (how == 0 && n == 2) return (double)m.at<T>(i[0], i[1], c);
	if (how == 0 && n == 3) return (double)m.at<T>(i[0], i[1], i[2], c);
	if (how == 1) return (double)m.at<T>(i, c);
	if (how == 2) return (double)m.at<T>(n, &i[0], c);
	if (how == 3) return (double)*m.ptr<T>(i, c);
	if (how == 4 && n == 1) return (double)*m.ptr<T>(i[0], c);
	if (how == 4 && n == 2) return (double)*m.ptr<T>(i[0], i[1], c);
	if (how == 4 && n == 3) return (double)*m.ptr<T>(i[0], i[1], i[2], c);
	return (double)*m.ptr<T>(n, &i[0], c);
}
inline double read_at(const mt_mat& m, int d, const std::vector<int>& i, int c, int how) {
	switch (d) {
	case mt_U8: return at_as<u8>(m, i, c, how); case mt_I8: return at_as<i8>(m, i, c, how); case mt_U16: return at_as<u16>(m, i, c, how); case mt_I16: return at_as<i16>(m, i, c, how); case mt_U32: return at_as<u32>(m, i, c, how);
	case mt_I32: return at_as<i32>(m, i, c, how); case mt_U64: return at_as<u64>(m, i, c, how); case mt_I64: return at_as<i64>(m, i, c, how); case mt_F32: return at_as<f32>(m, i, c, how); default: return at_as<f64>(m, i, c, how);
	}
}
template <class T> void put_as(mt_mat& m, const std::vector<int>& i, int c, double x, int how) {
	int n = (int)i.size();
	if (how == 0 && n == 1) m.at<T>(i[0], c) = (T)x;
	else if (how == 0 && n == 2) m.at<T>(i[0], i[1], c) = (T)x;
	else if (how == 0 && n == 3) m.at<T>(i[0], i[1], i[2], c) = (T)x;
	else if (how == 1) m.at<T>(i, c) = (T)x;
	else if (how == 2) m.at<T>(n, &i[0], c) = (T)x;
	else if (how == 3 && n == 2) *m.ptr<T>(i[0], i[1], c) = (T)x;
	else *m.ptr<T>(n, &i[0], c) = (T)x;
}
inline void write_at(View& v, const std::vector<int>& i, int c, double x, Rng& r) {
	int how = (int)r.in(0, 4);
	switch (v.depth) {
	case mt_U8: put_as<u8>(v.m, i, c, x, how); break; case mt_I8: put_as<i8>(v.m, i, c, x, how); break; case mt_U16: put_as<u16>(v.m, i, c, x, how); break; case mt_I16: put_as<i16>(v.m, i, c, x, how); break; case mt_U32: put_as<u32>(v.m, i, c, x, how); break;
	case mt_I32: put_as<i32>(v.m, i, c, x, how); break; case mt_U64: put_as<u64>(v.m, i, c, x, how); break; case mt_I64: put_as<i64>(v.m, i, c, x, how); break; case mt_F32: put_as<f32>(v.m, i, c, x, how); break; default: put_as<f64>(v.m, i, c, x, how); break;
	}
}

// Does the matrix show what the model says?  Every element is read through one of the public accessors.
inline bool same(const View& v, std::string& why, Rng& r) {
	const mt_mat& m = v.m;
	if (m.dim() != v.dims()) { why = vh::fmt("dim %d", m.dim()); return false; }
	for (int i = 0; i < v.dims(); ++i) if (m.size()[i] != v.sizes[i]) { why = vh::fmt("size[%d] is %d", i, m.size()[i]); return false; }
	if (m.channel() != v.ch || m.depth() != v.depth) { why = vh::fmt("%d channels of depth %d", m.channel(), (int)m.depth()); return false; }
	if (m.element_number() != v.elements() || m.is_empty()) { why = "number of elements"; return false; }
	std::vector<int> idx(v.dims(), 0);
	std::vector<double> vals;
	std::vector<double> room(std::max(v.ch, 4));
	double* buf = &room[0];
	int how = (int)r.in(0, 7);
	for (int e = 0; e < v.elements(); ++e) {
		if (how == 5) { m.get(vals, v.dims(), &idx[0]); if ((int)vals.size() != v.ch) { why = "get returned another number of channels"; return false; } }
		else if (how == 6) m.get(buf, v.dims(), &idx[0]);
		else if (how == 7 && v.dims() == 2 && v.ch <= 4) { mt_scalar s = m.get(idx[0], idx[1]); for (int c = 0; c < v.ch; ++c) buf[c] = s[c]; }
		else if (how == 7 && v.dims() == 1) m.get(buf, idx[0]);
		else if (how == 7) m.get(buf, v.dims(), &idx[0]);
		for (int c = 0; c < v.ch; ++c) {
			double x = how == 5 ? vals[c] : how >= 6 ? buf[c] : read_at(m, v.depth, idx, c, how);
			double y = cells()[v.cells[e * v.ch + c]];
			if (x != y && (x == x || y == y)) { why = vh::fmt("element %d channel %d is %.17g, expected %.17g", e, c, x, cells()[v.cells[e * v.ch + c]]); return false; }
		}
		next_index(idx, v.sizes);
	}
	vh::stat("elements_read", v.elements());
	return true;
}
}
