// Runs the real MSER algorithms through their public interface and decodes what they return.
#pragma once
#include "all_img.h"
#include "mser_gen.h"
#include <memory>

namespace run {
using namespace basicsys;
using namespace basicmath;
using namespace basicimg;
using oracle::Image;
using oracle::Params;

enum Alg { V1, V2, LINEAR, OPENCV, OPENCV3, ORIGIN, IDIAP, VLFEAT, MS, ALGS };
inline const char* alg_name(int a) { static const char* n[] = {"fast_v1", "fast_v2", "linked_linear", "opencv", "opencv3", "origin", "idiap", "vlfeat", "ms"}; return n[a]; }
inline std::string alg_class(int a) {
	switch (a) {
	case V1: return typeid(img_fast_mser_v1).name();
	case V2: return typeid(img_fast_mser_v2).name();
	case LINEAR: return typeid(img_linked_linear_mser).name();
	case OPENCV: return typeid(img_opencv_mser).name();
	case OPENCV3: return typeid(img_opencv3_mser).name();
	case ORIGIN: return typeid(img_original_mser).name();
	case IDIAP: return typeid(img_idiap_mser).name();
	case VLFEAT: return typeid(img_vlfeat_mser).name();
	default: return typeid(img_ms_mser).name();
	}
}

inline void configure(img_mser_base* m, const Params& p, int threads) {
	m->set_stable_delta(p.delta);
	m->set_stable_max_variation(p.stable);
	m->set_nms_similarity(p.nms);
	m->set_duplicated_variation(p.dup);
	m->set_min_max_point(p.min_point, p.max_ratio);
	m->set_connected_type(p.conn == 4 ? img_Connected_Type_4_Neibour : img_Connected_Type_8_Neibour);
	m->set_parallel_thread_number(threads);
	m->set_recursive_point_threshold(p.recursive);
}

inline img_mser_base* make(int alg, const Params& p, int threads) {
	img_mser_base* m = img_mser_alg_factory(alg_class(alg)).new_instance();
	configure(m, p, threads);
	return m;
}

// How the pixels are handed over.
enum Layout { PLAIN, SUB, CHANNEL_ROWS, LAYOUTS };

inline mt_mat to_mat(const Image& im, int layout, vh::Rng* r) {
	if (layout == SUB) {
		int l = (int)r->in(0, 5), t = (int)r->in(0, 5), rr = (int)r->in(1, 7), b = (int)r->in(0, 5);
		mt_mat big(im.h + t + b, im.w + l + rr, mt_U8C1);
		u8* d = big.data();
		for (int y = 0; y < im.h + t + b; ++y) for (int x = 0; x < im.w + l + rr; ++x) d[y * big.step()[0] + x] = (u8)r->next();
		mt_mat s = big.sub(t, t + im.h, 0).sub(l, l + im.w, 1);
		for (int y = 0; y < im.h; ++y) for (int x = 0; x < im.w; ++x) s.ptr<u8>(y, 0)[x] = im.at(x, y);
		return s;
	}
	mt_mat m(im.h, im.w, mt_U8C1);
	for (int y = 0; y < im.h; ++y) for (int x = 0; x < im.w; ++x) m.ptr<u8>(y, 0)[x] = im.at(x, y);
	return m;
}

struct Region { int gray; int size; int left, top, width, height; uint64_t hash; std::vector<int> px; int type; };
struct Result { std::vector<Region> r[2]; std::string bad; };	// bad: the result itself is malformed

inline Result decode(const img_multi_msers& res, int w, int h, bool index_range, bool keep_pixels) {
	Result out;
	std::vector<int> stamp((size_t)w * h, -1);
	int serial = 0;
	for (int c = 0; c < 2; ++c) {
		const std::vector<img_mser>& v = res.m_msers[c];
		const mt_point* mem = res.m_memory[c];
		int mem_size = res.m_memory_size[c];
		for (size_t i = 0; i < v.size(); ++i) {
			const img_mser& m = v[i];
			Region rg; rg.gray = m.m_gray_level; rg.size = m.m_size; rg.left = m.m_rect.m_left; rg.top = m.m_rect.m_top; rg.width = m.m_rect.m_width; rg.height = m.m_rect.m_height; rg.hash = 0; rg.type = m.m_memory_type;
			++serial;
			long count = 0;
			bool broken = false;
			std::string where = vh::fmt("channel %d region %zu of %zu type %d", c, i, v.size(), m.m_memory_type);
			auto put = [&](const mt_point* p, const mt_point* e) {
				if (broken) return;
				if (m.m_memory_type != img_mser::Memory_Type_Self && p != e && (p < mem || e > mem + mem_size || e < p)) { broken = true; out.bad = "points-outside-memory: " + where; return; }
				for (; p < e; ++p) {
					++count;
					if (p->m_x < 0 || p->m_y < 0 || p->m_x >= w || p->m_y >= h) { if (!broken) out.bad = "point-outside-image: " + where + vh::fmt(" (%d,%d)", p->m_x, p->m_y); broken = true; continue; }
					int idx = p->m_y * w + p->m_x;
					if (stamp[idx] == serial) { if (!broken) out.bad = "repeated-point: " + where + vh::fmt(" (%d,%d)", p->m_x, p->m_y); broken = true; continue; }
					stamp[idx] = serial;
					rg.hash += oracle::pix_hash(p->m_x, p->m_y);
					if (keep_pixels) rg.px.push_back(idx);
				}
			};
			if (m.m_memory_type == img_mser::Memory_Type_Range && index_range) {
				i32 range[2]; memcpy(range, &m.m_points, sizeof range);
				if (range[0] < 0 || range[1] < range[0] || range[1] >= mem_size) { out.bad = "bad-range: " + where; broken = true; }
				else put(mem + range[0], mem + range[1] + 1);
			} else if (m.m_memory_type == img_mser::Memory_Type_Self || m.m_memory_type == img_mser::Memory_Type_Share || m.m_memory_type == img_mser::Memory_Type_Range) {
				put(m.m_points, m.m_points + m.m_size);
			} else {
				std::vector<int> stack(1, 0);
				size_t visited = 0;
				while (!stack.empty() && !broken) {
					int idx = stack.back(); stack.pop_back();
					if ((long)i + idx < 0 || (long)i + idx >= (long)v.size() || ++visited > v.size()) { out.bad = "bad-child-index: " + where; broken = true; break; }
					const img_mser* t = &m + idx;
					if (t->m_points < mem || t->m_points >= mem + mem_size) { out.bad = "points-outside-memory: " + where; broken = true; break; }
					if (t->m_memory_type == img_mser::Memory_Type_Share_Parallel_4 || t->m_memory_type == img_mser::Memory_Type_Recursive_Parallel_4) {
						for (int k = 0; k < 4; ++k) put(t->m_points + t->m_points[k].m_x, t->m_points + t->m_points[k].m_y);
						if (t->m_memory_type == img_mser::Memory_Type_Recursive_Parallel_4) {
							const i32* ci = (const i32*)(t->m_points + 4);
							for (int k = 0; k < ci[0]; ++k) stack.push_back(ci[k + 1] + (int)(t - &m));
						}
					} else if (t->m_memory_type == img_mser::Memory_Type_Recursive) {
						const mt_point* e = t->m_points + 1 + t->m_points[0].m_x;
						put(t->m_points + 1, e);
						const i32* ci = (const i32*)e;
						for (int k = 0; k < t->m_points[0].m_y; ++k) stack.push_back(ci[k] + (int)(t - &m));
					} else put(t->m_points, t->m_points + t->m_size);
				}
			}
			if (!broken && count != m.m_size) out.bad = "size-mismatch: " + where + vh::fmt(" m_size %d points %ld", m.m_size, count);
			out.r[c].push_back(rg);
		}
	}
	return out;
}

inline bool range_is_index(int alg, int threads) { return false; }

inline Result extract(img_mser_base* m, int alg, int threads, const Image& im, const mt_mat& mat, bool keep_pixels = false) {
	img_multi_msers res;
	m->extract(res, mat);
	return decode(res, im.w, im.h, range_is_index(alg, threads), keep_pixels);
}

inline Result extract_fresh(int alg, const Params& p, int threads, const Image& im, int layout, vh::Rng* r, bool keep_pixels = false) {
	std::unique_ptr<img_mser_base> m(make(alg, p, threads));
	return extract(m.get(), alg, threads, im, to_mat(im, layout, r), keep_pixels);
}

inline std::vector<uint64_t> signature(const Result& x, int c) {
	std::vector<uint64_t> s;
	for (size_t i = 0; i < x.r[c].size(); ++i) s.push_back(x.r[c][i].hash ^ vh::mix(x.r[c][i].gray));
	std::sort(s.begin(), s.end());
	return s;
}

// Receives what the code under test logs; only errors (failed internal assertions, unsupported operations) are enabled.
struct error_logger : public basiclog::log_logger {
	long lines; std::string last;
	error_logger() : lines(0) { enable_debug(false); enable_info(false); enable_warning(false); enable_error(true); }
	virtual void print(const std::string& s) { ++lines; last = s; }
};
inline error_logger*& logger() { static error_logger* l = NULL; return l; }
inline void setup() { logger() = new error_logger(); basiclog::log_logger::init_logger(logger()); }
inline void teardown() { basiclog::log_logger::release(); }
}
