// Judgement of one case, and matrices of one channel in several layouts with guarded memory around them.
#pragma once
#include "vh.h"
#include "all_img.h"
#include "math_log.h"

using std::string; using std::vector; using vh::Rng;

struct Judge {
	string what; bool bad;
	Judge() : bad(false) { mm::clear_log(); }
	void fail(const string& key, const string& d) { if (!bad) vh::viol(key, d + " in " + what); bad = true; }
	bool check(bool c, const string& key, const string& d) { vh::stat("evaluations"); if (!c) fail(key, d); return c; }
	void quiet(const string& key) { if (mm::log_lines() != 0) fail(key + "_logged", mm::last_log()); mm::clear_log(); }
};

// A rows x cols matrix of one channel in one of several layouts; the memory around external elements is guarded.
template <class T> struct Grid {
	int rows, cols, layout; vector<T> v; vector<T> mem; mt_mat m; vector<int> steps; int origin;
	static mt_Depth depth() { return sizeof(T) == 8 ? mt_F64 : sizeof(T) == 1 ? mt_U8 : sizeof(T) == 2 ? mt_I16 : std::numeric_limits<T>::is_integer ? mt_I32 : mt_F32; }
	Grid() : rows(0), cols(0), layout(0), origin(0) {}
	void make(Rng& r, int h, int w, bool plain) {
		rows = h; cols = w; v.assign((size_t)h * w, T()); layout = plain ? 0 : (int)r.in(0, 5);
		if (layout <= 1) { m = mt_mat(h, w, mt_Depth_Channel(depth(), 1)); return; }
		int gap = (int)r.in(0, 3), pad = 7;
		bool cr = layout == 3; // columns in memory first
		int a = cr ? h : w, b = cr ? w : h;
		mem.assign((size_t)pad * 2 + (size_t)(a + gap) * b, (T)77);
		steps.resize(2); steps[cr ? 0 : 1] = 1; steps[cr ? 1 : 0] = a + gap;
		origin = pad;
		vector<i32> sz(2), st(2); sz[0] = h; sz[1] = w; st[0] = steps[0] * (int)sizeof(T); st[1] = steps[1] * (int)sizeof(T);
		m = mt_mat(sz, mt_Depth_Channel(depth(), 1), (u8*)&mem[pad], st);
		if (layout >= 4) { bool fr = layout == 4 || r.chance(1, 2), fc = layout == 5; vector<b8> fl(2); fl[0] = fr ? sys_true : sys_false; fl[1] = fc ? sys_true : sys_false; m = m.flip(fl); if (fr) { origin += (h - 1) * steps[0]; steps[0] = -steps[0]; } if (fc) { origin += (w - 1) * steps[1]; steps[1] = -steps[1]; } }
	}
	T* cell(int y, int x) { if (layout <= 1) return (T*)(const_cast<u8*>(((const mt_mat&)m).data()) + y * m.step()[0] + x * m.step()[1]); return &mem[origin + y * steps[0] + x * steps[1]]; }
	void store() { for (int y = 0; y < rows; ++y) for (int x = 0; x < cols; ++x) *cell(y, x) = v[(size_t)y * cols + x]; }
	// The matrix still shows v and nothing around it was written.
	bool intact() {
		for (int y = 0; y < rows; ++y) for (int x = 0; x < cols; ++x) if (memcmp(cell(y, x), &v[(size_t)y * cols + x], sizeof(T)) != 0) return false;
		return guarded();
	}
	bool guarded() {
		if (layout <= 1) return true;
		vector<T> w(mem.size(), (T)77);
		for (int y = 0; y < rows; ++y) for (int x = 0; x < cols; ++x) { size_t i = &*cell(y, x) - &mem[0]; w[i] = mem[i]; }
		return memcmp(&w[0], &mem[0], mem.size() * sizeof(T)) == 0;
	}
};
template <class T> static T get(const mt_mat& m, int y, int x, int c = 0) { T t; memcpy(&t, m.data() + y * m.step()[0] + x * m.step()[1] + c * (int)sizeof(T), sizeof(T)); return t; }
