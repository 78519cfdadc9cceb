// modules: basiclog basicsys basicmath basicimg
// Edge detection, stroke widths and drawing of regions (basicimg).
#include "vh.h"
#include "img_bench.h"
#include <img_mser_helper.h>
#include "mser_gen.h"
#include <math.h>

// ---------------------------------------------------------------- scenes

struct Scene { int h, w; vector<float> gx, gy; int kind; };
static void sobel_of(const gen::Image& im, Scene& s, float k) {
	for (int y = 0; y < s.h; ++y) for (int x = 0; x < s.w; ++x) {
		#define P(dx, dy) (float)im.v[(size_t)std::min(s.h - 1, std::max(0, y + dy)) * s.w + std::min(s.w - 1, std::max(0, x + dx))]
		s.gx[(size_t)y * s.w + x] = k * ((P(1, -1) + 2 * P(1, 0) + P(1, 1)) - (P(-1, -1) + 2 * P(-1, 0) + P(-1, 1)));
		s.gy[(size_t)y * s.w + x] = k * ((P(-1, 1) + 2 * P(0, 1) + P(1, 1)) - (P(-1, -1) + 2 * P(0, -1) + P(1, -1)));
		#undef P
	}
}
static Scene scene(Rng& r, int lo, int hi, bool allow_big = true) {
	Scene s;
	s.h = (int)r.in(lo, hi); s.w = (int)r.in(lo, hi);
	s.kind = (int)r.in(0, 9);
	if (allow_big && r.chance(1, 60)) { s.h = (int)r.in(std::max(1, lo), std::max(3, lo)); s.w = (int)r.in(2000, 9000); if (r.chance(1, 2)) s.kind = 1; }
	if (r.chance(1, 400) && getenv("VERIF_SMALL") == NULL) { s.h = (int)r.in(lo, 500); s.w = (int)r.in(lo, 500); if (r.chance(1, 2)) s.kind = (int)r.in(8, 9); vh::stat("vast_pictures"); }
	s.gx.assign((size_t)s.h * s.w, 0); s.gy = s.gx;
	size_t n = s.gx.size();
	if (s.kind >= 4) {
		gen::Image im(s.w, s.h);
		if (s.kind <= 7) im = gen::make(r, s.w, s.h, (int)r.in(0, gen::KINDS - 1));
		else { // strokes and boxes on a ground
			int ground = (int)r.in(100, 255), ink = (int)r.in(0, 90); if (r.chance(1, 2)) std::swap(ground, ink);
			for (size_t i = 0; i < n; ++i) im.v[i] = (uint8_t)ground;
			for (int k = (int)r.in(1, 6); k-- > 0;) {
				int x0 = (int)r.in(0, s.w - 1), y0 = (int)r.in(0, s.h - 1), bw = (int)r.in(1, std::max(1, s.w / 2)), bh = (int)r.in(1, std::max(1, s.h / 3)); if (r.chance(1, 2)) std::swap(bw, bh);
				int slope = (int)r.in(-2, 2);
				for (int y = y0; y < std::min(s.h, y0 + bh); ++y) for (int x = x0; x < x0 + bw; ++x) { int xx = x + slope * (y - y0) / 2; if (xx >= 0 && xx < s.w) im.v[(size_t)y * s.w + xx] = (uint8_t)ink; }
			}
			if (r.chance(1, 2)) gen::blur(im, (int)r.in(1, 2));
		}
		sobel_of(im, s, r.chance(2, 3) ? 1.f : r.chance(1, 2) ? 0.25f : r.chance(1, 2) ? 16.f : 160.f);
		return s;
	}
	int span = s.kind == 0 ? 3 : s.kind == 1 ? 300 : s.kind == 2 ? 1020 : 163200;
	for (size_t i = 0; i < n; ++i) { s.gx[i] = (float)r.in(-span, span); s.gy[i] = (float)r.in(-span, span); if (r.chance(1, 6)) s.gx[i] = 0; if (r.chance(1, 6)) s.gy[i] = 0; }
	if (s.kind == 1 && r.chance(1, 2)) for (size_t i = 0; i < n; ++i) { s.gy[i] = 0; s.gx[i] = (i & 1) ? 200.f + (float)(i % 7) : (float)(i % 5); } // every other pixel is a strong maximum
	if (s.kind == 2 && r.chance(1, 2)) for (size_t i = 0; i < n; ++i) { s.gx[i] += (float)r.unit() * 2 - 1; s.gy[i] += (float)r.unit() * 2 - 1; }
	if (s.kind == 0) for (size_t i = 0; i < n; ++i) { s.gx[i] *= 60; s.gy[i] *= 60; }
	return s;
}

// ---------------------------------------------------------------- the edge map of Canny

// mode 0: L1, 1: L2
static void model_canny(const Scene& s, const vector<float>& mag, int low, int high, vector<int>& kind) {
	int h = s.h, w = s.w;
	vector<int> m((size_t)(h + 2) * (w + 2), 0);
	for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) m[(size_t)(y + 1) * (w + 2) + x + 1] = (int)mag[(size_t)y * w + x];
	kind.assign((size_t)h * w, 0); // 1 candidate, 2 edge
	vector<int> work;
	for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
		const int* c = &m[(size_t)(y + 1) * (w + 2) + x + 1]; int W = w + 2, v = *c;
		if (v <= low) continue;
		long long xs = (long long)s.gx[(size_t)y * w + x], ys = (long long)s.gy[(size_t)y * w + x];
		long long ax = xs < 0 ? -xs : xs, ay = (ys < 0 ? -ys : ys) << 15, t22 = ax * 13573, t67 = t22 + (ax << 16);
		bool max;
		if (ay < t22) max = v > c[-1] && v >= c[1];
		else if (ay > t67) max = v > c[-W] && v >= c[W];
		else { int d = (xs < 0) != (ys < 0) ? -1 : 1; max = v > c[-W - d] && v > c[W + d]; }
		if (!max) continue;
		kind[(size_t)y * w + x] = 1;
		if (v > high) { kind[(size_t)y * w + x] = 2; work.push_back(y * w + x); }
	}
	while (!work.empty()) {
		int p = work.back(); work.pop_back();
		for (int dy = -1; dy <= 1; ++dy) for (int dx = -1; dx <= 1; ++dx) {
			int x = p % w + dx, y = p / w + dy;
			if (x < 0 || y < 0 || x >= w || y >= h || kind[(size_t)y * w + x] != 1) continue;
			kind[(size_t)y * w + x] = 2; work.push_back(y * w + x);
		}
	}
}

struct Case { Scene s; Grid<float> x, y, m; bool give_mag; vector<float> mag; };
static void build(Rng& r, Case& c, bool give_mag, bool plain) {
	c.give_mag = give_mag; size_t n = c.s.gx.size();
	c.x.make(r, c.s.h, c.s.w, plain); c.y.make(r, c.s.h, c.s.w, plain); c.x.v = c.s.gx; c.y.v = c.s.gy; c.x.store(); c.y.store();
	if (!give_mag) return;
	c.m.make(r, c.s.h, c.s.w, plain);
	bool own = r.chance(1, 3); // any magnitude, not only that of the gradient
	c.mag.resize(n);
	for (size_t i = 0; i < n; ++i) c.mag[i] = own ? (float)r.in(0, 300) : r.chance(1, 1) ? sqrtf(c.s.gx[i] * c.s.gx[i] + c.s.gy[i] * c.s.gy[i]) : 0;
	c.m.v = c.mag; c.m.store();
}
// The magnitude the detector calculated itself.
static bool read_mag(Judge& j, Case& c, const mt_mat& m, bool l2) {
	if (!j.check(!m.is_empty() && m.dim() == 2 && m.size()[0] == c.s.h && m.size()[1] == c.s.w && m.depth() == mt_F32, "magnitude_shape", "wrong shape")) return false;
	c.mag.resize(c.s.gx.size());
	for (int y = 0; y < c.s.h; ++y) for (int x = 0; x < c.s.w; ++x) {
		size_t i = (size_t)y * c.s.w + x; double a = c.s.gx[i], b = c.s.gy[i], want = l2 ? sqrt(a * a + b * b) : fabs(a) + fabs(b);
		c.mag[i] = get<float>(m, y, x);
		if (!(fabs(c.mag[i] - want) <= 1e-5 * std::max(1.0, want))) { j.fail("magnitude", vh::fmt("magnitude at (%d, %d) is %g, expected %g", x, y, c.mag[i], want)); return false; }
	}
	return true;
}
static bool same_edges(Judge& j, const char* key, const mt_mat& e, const vector<int>& want, int h, int w) {
	if (!j.check(!e.is_empty() && e.dim() == 2 && e.size()[0] == h && e.size()[1] == w && e.depth() == mt_U8 && e.channel() == 1, string(key) + "_shape", "the edge image has another shape")) return false;
	long edges = 0;
	for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
		int v = get<u8>(e, y, x), m = want[(size_t)y * w + x] == 2 ? 255 : 0;
		if (v != m) { j.fail(key, vh::fmt("pixel (%d, %d) is %d, expected %d", x, y, v, m)); return false; }
		edges += m != 0;
	}
	vh::stat("pixels", (long long)h * w); vh::stat("edge_pixels", edges);
	return true;
}

// Most pixels are maxima in the direction of their gradient, so that following the edges takes much memory.
static void dense_edges(Rng& r, Case& c) {
	int h = c.s.h, w = c.s.w, W = w + 2; vector<int> m((size_t)(h + 2) * W, 0);
	for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) m[(size_t)(y + 1) * W + x + 1] = (int)(c.mag[(size_t)y * w + x] = (float)r.in(41, 300));
	for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
		size_t i = (size_t)y * w + x; const int* q = &m[(size_t)(y + 1) * W + x + 1]; int v = *q, first = (int)r.in(0, 3); float one = (float)r.in(50, 500);
		for (int k = 0; k < 4; ++k) {
			int d = (first + k) % 4; bool top = d == 0 ? v > q[-1] && v >= q[1] : d == 1 ? v > q[-W] && v >= q[W] : d == 2 ? v > q[-W - 1] && v > q[W + 1] : v > q[-W + 1] && v > q[W - 1];
			c.s.gx[i] = d == 1 ? 0 : one; c.s.gy[i] = d == 0 ? 0 : d == 3 ? -one : one; if (d < 2 && r.chance(1, 2)) { c.s.gx[i] = -c.s.gx[i]; c.s.gy[i] = -c.s.gy[i]; }
			if (top) break;
		}
	}
	c.x.v = c.s.gx; c.y.v = c.s.gy; c.m.v = c.mag; c.x.store(); c.y.store(); c.m.store(); vh::stat("dense");
}

static void prop_canny(Rng& r, long) {
	Judge j;
	img_canny* det; int low = (int)r.in(0, 6), high;
	low = low == 0 ? 0 : low == 1 ? (int)r.in(0, 3000) : (int)r.in(1, 150); high = r.chance(1, 8) ? low : low + (int)r.in(0, r.chance(1, 4) ? 2000 : 150);
	b8 keep = r.chance(1, 2) ? sys_true : sys_false; bool l2 = true;
	int how = (int)r.in(0, 3);
	if (how == 0) { det = new img_canny(); low = det->low_threshold(); high = det->high_threshold(); }
	else if (how == 1) det = new img_canny(low, high, keep);
	else if (how == 2) { l2 = r.chance(1, 2); det = new img_canny(low, high, 3, l2 ? sys_true : sys_false, keep); }
	else { det = new img_canny(); det->set_low_threshold(low); det->set_high_threshold(high); det->enable_memory_cache(keep); l2 = r.chance(1, 2); det->set_l2_gradient(l2 ? sys_true : sys_false); }
	if (r.chance(1, 5)) det->clear_memory_cache();
	int calls = (int)r.in(1, 4); mt_mat edge; vector<Case> cs(calls);
	for (int k = 0; k < calls && !j.bad; ++k) {
		Case& c = cs[k];
		if (k > 0 && r.chance(1, 3)) { c.s = cs[k - 1].s; for (size_t i = 0; i < c.s.gx.size(); ++i) std::swap(c.s.gx[i], c.s.gy[c.s.gx.size() - 1 - i]); }
		else if (k > 0 && r.chance(1, 4)) { c.s = cs[k - 1].s; std::swap(c.s.w, c.s.h); }
		else c.s = scene(r, 1, r.chance(1, 6) ? 60 : 14);
		bool plain = r.chance(1, 2);
		bool dense = k == calls - 1 && r.chance(1, 60);
		if (dense) { c.s.h = (int)r.in(40, 110); c.s.w = (int)r.in(40, 110); c.s.kind = 10; c.s.gx.assign((size_t)c.s.h * c.s.w, 0); c.s.gy = c.s.gx; }
		build(r, c, dense || r.chance(1, 2), plain);
		if (dense) dense_edges(r, c);
		if (how != 0 && r.chance(1, 4)) { low = (int)r.in(0, 100); high = low + (int)r.in(0, 100); det->set_low_threshold(low); det->set_high_threshold(high); }
		Grid<u8> out; bool ext = false;
		if (r.chance(1, 4)) { out.make(r, c.s.h, c.s.w, plain); edge = out.m; ext = true; } else if (r.chance(1, 2)) edge = mt_mat();
		j.what = vh::fmt("call %d of %d, %dx%d kind %d thresholds %d %d l2 %d layouts %d %d %d out %d", k, calls, c.s.w, c.s.h, c.s.kind, low, high, (int)l2, c.x.layout, c.y.layout, c.give_mag ? c.m.layout : -1, ext ? out.layout : -1);
		vh::note(j.what);
		const mt_mat img(c.s.h, c.s.w, mt_U8C1);
		if (r.chance(1, 2)) det->edge_detection(edge, img, c.x.m, c.y.m, c.give_mag ? c.m.m : mt_mat()); else { mt_mat got = det->edge_detection(img, c.x.m, c.y.m, c.give_mag ? c.m.m : mt_mat()); edge = got; }
		if (!c.give_mag && !read_mag(j, c, det->gradient_mag(), l2)) break;
		vector<int> want; model_canny(c.s, c.mag, low, high, want);
		if (!same_edges(j, "edges", edge, want, c.s.h, c.s.w)) break;
		if (ext) j.check(out.guarded(), "outside_write", "memory around the edge image was changed");
		for (int q = 0; q <= k; ++q) j.check(cs[q].x.intact() && cs[q].y.intact() && (!cs[q].give_mag || cs[q].m.intact()), "inputs_changed", vh::fmt("the gradients of call %d were changed", q));
		if (ext) edge = mt_mat();
		j.quiet("edges");
		vh::dist("nontrivial", vh::hash_mem(&want[0], want.size() * sizeof(int), vh::hash_str(j.what)));
		vh::stat(c.give_mag ? "given_magnitude" : l2 ? "own_l2" : "own_l1"); if (c.s.w >= 2000) vh::stat("wide"); vh::stat("detections");
		if (r.chance(1, 5)) det->clear_memory_cache();
	}
	delete det;
	edge = mt_mat();
}

// ---------------------------------------------------------------- thresholds that follow the surroundings

struct AutoPeek : img_auto_threshold_canny { const mt_mat& mag() { return m_canny.gradient_mag(); } };
struct AutoParams { int win, tmax, tmin, density, overlap, noise; float ratio, flags; double mean; };

// false: some decision lies too close to a threshold to be predicted from exact numbers
static bool model_auto(const Scene& s, const vector<float>& mag, const AutoParams& p, vector<int>& want) {
	int h = s.h, w = s.w; size_t n = (size_t)h * w;
	vector<int> base; model_canny(s, mag, (int)(p.tmin * p.ratio), p.tmin, base);
	for (size_t i = 0; i < n; ++i) base[i] = base[i] == 2;
	int step = p.win / 4, R = std::max(1, h / step), C = std::max(1, w / step), flag_at = (int)(p.win * p.win * p.flags);
	vector<double> sum((size_t)R * C, 0); vector<long> cnt((size_t)R * C, 0); vector<int> dense((size_t)R * C, 0);
	for (int a = 0; a + 4 <= R; ++a) for (int b = 0; b + 4 <= C; ++b) {
		int y1 = a == R - 4 ? h : (a + 4) * step, x1 = b == C - 4 ? w : (b + 4) * step; double t = 0; long k = 0;
		for (int y = a * step; y < y1; ++y) for (int x = b * step; x < x1; ++x) if (base[(size_t)y * w + x]) { t += mag[(size_t)y * w + x]; ++k; }
		if (k == 0) continue;
		for (int i = a; i < a + 4; ++i) for (int q = b; q < b + 4; ++q) { sum[(size_t)i * C + q] += t; cnt[(size_t)i * C + q] += k; if (k >= flag_at) ++dense[(size_t)i * C + q]; }
	}
	vector<double> thr(n, 0); vector<char> edge(n, 0), todo(n, 0);
	for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
		size_t i = (size_t)y * w + x; if (!base[i]) continue;
		size_t b = (size_t)std::min(y / step, R - 1) * C + std::min(x / step, C - 1);
		double t = cnt[b] ? sum[b] / cnt[b] * p.mean : 0;
		if (dense[b] > p.overlap) t = p.density;
		bool exact = dense[b] > p.overlap || t < p.tmin - 0.01 || t > p.tmax + 0.01;
		t = std::min<double>(std::max<double>(t, p.tmin), p.tmax);
		thr[i] = t; todo[i] = 1;
		if (!exact && fabs(mag[i] - t) < 0.02 * std::max(1.0, t / 100)) return false;
		edge[i] = mag[i] > t;
	}
	vector<char> seen(n, 0);
	for (int y = 1; y < h - 1; ++y) for (int x = 1; x < w - 1; ++x) {
		size_t i = (size_t)y * w + x;
		if (!edge[i] || seen[i] || mag[i] >= 100) continue;
		vector<size_t> part(1, i); seen[i] = 1; bool high = false;
		for (size_t k = 0; k < part.size(); ++k) {
			int px = (int)(part[k] % w), py = (int)(part[k] / w);
			if (px == 0 || py == 0 || px == w - 1 || py == h - 1) continue; // the frame ends a curve
			for (int dy = -1; dy <= 1; ++dy) for (int dx = -1; dx <= 1; ++dx) { size_t o = (size_t)(py + dy) * w + px + dx; if (seen[o] || !edge[o]) continue; seen[o] = 1; part.push_back(o); high |= mag[o] >= 100; }
		}
		if (!high && (int)part.size() <= p.noise) { for (size_t k = 0; k < part.size(); ++k) edge[part[k]] = 0; vh::stat("noise_removed"); }
	}
	for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
		size_t i = (size_t)y * w + x; if (!edge[i] || !todo[i]) continue;
		float low = (float)thr[i] * p.ratio; todo[i] = 0;
		vector<size_t> work(1, i);
		while (!work.empty()) {
			size_t q = work.back(); work.pop_back();
			for (int dy = -1; dy <= 1; ++dy) for (int dx = -1; dx <= 1; ++dx) {
				int ox = (int)(q % w) + dx, oy = (int)(q / w) + dy; if (ox < 0 || oy < 0 || ox >= w || oy >= h) continue;
				size_t o = (size_t)oy * w + ox; if (edge[o] || !todo[o]) continue;
				if (fabs(mag[o] - low) < 0.02 * std::max(1.0f, low / 100) && mag[o] != low) return false;
				if (mag[o] == low && thr[i] != p.tmin && thr[i] != p.tmax && thr[i] != p.density) return false;
				if (mag[o] < low) continue;
				edge[o] = 1; todo[o] = 0; work.push_back(o); vh::stat("traced");
			}
		}
	}
	want.assign(n, 0); for (size_t i = 0; i < n; ++i) want[i] = edge[i] ? 2 : 0;
	return true;
}

static void prop_auto(Rng& r, long) {
	Judge j; AutoPeek det; AutoParams p = {16, 160, 40, 120, 3, 3, 0.5f, 0.3f, 0.9f};
	if (r.chance(2, 3)) {
		p.win = 4 * (int)r.in(1, r.chance(1, 30) ? 60 : 6); det.set_auto_threshold_window_size(p.win);
		if (r.chance(1, 2)) { p.tmin = (int)r.in(5, 90); det.set_auto_threshold_min(p.tmin); }
		if (r.chance(1, 2)) { p.tmax = p.tmin + (int)r.in(0, 300); det.set_auto_threshold_max(p.tmax); }
		if (r.chance(1, 2)) { p.density = (int)r.in(10, 300); det.set_auto_threshold_density(p.density); }
		if (r.chance(1, 2)) { p.overlap = (int)r.in(0, 12); det.set_density_window_flag_overlap_number_threshold(p.overlap); }
		if (r.chance(1, 2)) { p.noise = (int)r.in(0, 12); det.set_m_noise_edge_number_threshold(p.noise); }
		if (r.chance(1, 2)) { p.ratio = 0.25f * (float)r.in(1, 4); det.set_low_to_high_ratio(p.ratio); }
		if (r.chance(1, 2)) { p.flags = 0.05f * (float)r.in(0, 12); det.set_density_flag_number_to_window_ratio(p.flags); }
		if (r.chance(1, 2)) { float f = (float)r.in(2, 30) / 16; p.mean = f; det.set_auto_threshold_to_mean_ratio(f); }
	}
	p.tmax = std::max(p.tmax, p.tmin); det.set_auto_threshold_max(p.tmax);
	int calls = (int)r.in(1, 3); mt_mat edge; vector<Case> cs(calls);
	for (int k = 0; k < calls && !j.bad; ++k) {
		Case& c = cs[k];
		c.s = scene(r, r.chance(1, 5) ? 1 : 8, r.chance(1, 4) ? 90 : 36, false);
		bool plain = r.chance(1, 2); build(r, c, r.chance(2, 3), plain);
		Grid<u8> out; bool ext = false;
		if (r.chance(1, 5)) { out.make(r, c.s.h, c.s.w, plain); edge = out.m; ext = true; } else if (r.chance(1, 2)) edge = mt_mat();
		j.what = vh::fmt("call %d, %dx%d kind %d window %d min %d max %d density %d overlap %d noise %d ratio %g flags %g mean %g layouts %d %d %d", k, c.s.w, c.s.h, c.s.kind, p.win, p.tmin, p.tmax, p.density, p.overlap, p.noise, p.ratio, p.flags, p.mean, c.x.layout, c.y.layout, c.give_mag ? c.m.layout : -1);
		vh::note(j.what);
		const mt_mat img(c.s.h, c.s.w, mt_U8C1);
		if (r.chance(1, 2)) det.edge_detection(edge, img, c.x.m, c.y.m, c.give_mag ? c.m.m : mt_mat()); else { mt_mat got = det.edge_detection(img, c.x.m, c.y.m, c.give_mag ? c.m.m : mt_mat()); edge = got; }
		if (!c.give_mag && !read_mag(j, c, det.mag(), true)) break;
		vector<int> want;
		if (model_auto(c.s, c.mag, p, want)) { if (!same_edges(j, "auto_edges", edge, want, c.s.h, c.s.w)) break; vh::stat("detections"); vh::dist("nontrivial", vh::hash_mem(&want[0], want.size() * sizeof(int), vh::hash_str(j.what))); if (c.s.h / (p.win / 4) < 4 || c.s.w / (p.win / 4) < 4) vh::stat("smaller_than_window"); }
		else vh::stat("undecided");
		if (ext) j.check(out.guarded(), "outside_write", "memory around the edge image was changed");
		for (int q = 0; q <= k; ++q) j.check(cs[q].x.intact() && cs[q].y.intact() && (!cs[q].give_mag || cs[q].m.intact()), "inputs_changed", vh::fmt("the gradients of call %d were changed", q));
		if (ext) edge = mt_mat();
		j.quiet("auto_edges");
		if (r.chance(1, 5)) det.clear_memory_cache();
	}
}

// ---------------------------------------------------------------- stroke widths

typedef std::pair<int, int> XY;
static long half_away(double v) { return v > 0 ? (long)(v + 0.5) : (long)(v - 0.5); }

static bool model_swt(const vector<u8>& e, const Scene& s, int angle, int invalid, bool dark, vector<int>& out) {
	bool near = false;
	int h = s.h, w = s.w; out.assign((size_t)h * w, invalid);
	vector<vector<XY> > rays; vector<int> widths;
	#define IN(x, y) ((x) >= 0 && (y) >= 0 && (x) < w && (y) < h)
	#define EDGE(x, y) (e[(size_t)(y) * w + (x)] == 255)
	static const int SX[9] = {0, 1, 1, 0, -1, -1, -1, 0, 1}, SY[9] = {0, 0, -1, -1, -1, 0, 1, 1, 1};
	double need = cos(angle * M_PI / 180);
	for (int row = 0; row < h; ++row) for (int col = 0; col < w; ++col) {
		if (!EDGE(col, row)) continue;
		float gx = s.gx[(size_t)row * w + col], gy = s.gy[(size_t)row * w + col], norm = sqrtf(gx * gx + gy * gy);
		if (norm == 0) continue;
		gx /= norm; gy /= norm; if (dark) { gx = -gx; gy = -gy; }
		vector<XY> ray(1, XY(col, row)); float fx = (float)col, fy = (float)row; int px = col, py = row; bool first = true, left = false;
		for (;;) {
			fx += gx; fy += gy;
			int nx = (int)half_away(fx), ny = (int)half_away(fy);
			if (nx == px && ny == py) continue;
			XY next[2]; int nn = 0; next[nn++] = XY(nx, ny);
			if (nx != px && ny != py) { // a diagonal step also visits one of the two pixels beside it
				bool beside_y = fabsf(gy) <= fabsf(gx) ? gx > 0 : !(gy > 0);
				next[nn++] = beside_y ? XY(nx, py) : XY(px, ny);
			}
			px = nx; py = ny; bool inside = false, stop = false, good0 = false;
			for (int k = 0; k < nn; ++k) {
				int x = next[k].first, y = next[k].second;
				if (!IN(x, y)) continue;
				inside = true;
				if (!EDGE(x, y)) { left = true; if (k == 0) good0 = true; ray.push_back(XY(x, y)); continue; }
				if (first) continue;
				if (left) for (int q = 0; q < 9; ++q) {
					int sx = x + SX[q], sy = y + SY[q];
					if (q != 0 && (!IN(sx, sy) || (abs(sx - col) <= 1 && abs(sy - row) <= 1) || !EDGE(sx, sy))) continue;
					float tx = s.gx[(size_t)sy * w + sx], ty = s.gy[(size_t)sy * w + sx], tn = sqrtf(tx * tx + ty * ty);
					if (tn == 0) continue;
					if (dark) { tx = -tx; ty = -ty; }
					float dot = (gx * -tx + gy * -ty) / tn;
					if (fabs(dot - need) < 1e-5) near = true;
					if (!(dot >= need)) continue;
					if (k == 0) ray.push_back(XY(sx, sy)); else if (good0) ray.back() = XY(sx, sy);
					if (ray.size() > 2) { double dx = ray.front().first - ray.back().first, dy = ray.front().second - ray.back().second; rays.push_back(ray); widths.push_back(std::max(1, (int)half_away(sqrt(dx * dx + dy * dy)) - 1)); }
					break;
				}
				stop = true; break;
			}
			first = false;
			if (!inside || stop) break;
		}
	}
	for (size_t i = 0; i < rays.size(); ++i) for (size_t k = 0; k < rays[i].size(); ++k) { int& o = out[(size_t)rays[i][k].second * w + rays[i][k].first]; o = std::min(o, widths[i]); }
	vector<int> med(rays.size());
	for (size_t i = 0; i < rays.size(); ++i) { vector<int> t; for (size_t k = 0; k < rays[i].size(); ++k) t.push_back(out[(size_t)rays[i][k].second * w + rays[i][k].first]); std::sort(t.begin(), t.end()); med[i] = t[(t.size() - 1) / 2]; }
	for (size_t i = 0; i < rays.size(); ++i) for (size_t k = 0; k < rays[i].size(); ++k) { int& o = out[(size_t)rays[i][k].second * w + rays[i][k].first]; o = std::min(o, med[i]); }
	vh::stat("rays", (long long)rays.size());
	return !near;
	#undef IN
	#undef EDGE
}

static void prop_swt(Rng& r, long) {
	Judge j; Case c;
	c.s = scene(r, 1, r.chance(1, 5) ? 70 : 24, false); bool plain = r.chance(1, 2);
	int h = c.s.h, w = c.s.w; size_t n = (size_t)h * w;
	build(r, c, false, plain);
	Grid<u8> e; e.make(r, h, w, plain);
	if (r.chance(3, 4)) { vector<float> mag(n); for (size_t i = 0; i < n; ++i) mag[i] = sqrtf(c.s.gx[i] * c.s.gx[i] + c.s.gy[i] * c.s.gy[i]); vector<int> k; int low = (int)r.in(0, 60); model_canny(c.s, mag, low, low + (int)r.in(0, 60), k); for (size_t i = 0; i < n; ++i) e.v[i] = k[i] == 2 ? 255 : 0; }
	else { int den = (int)r.in(2, 20); for (size_t i = 0; i < n; ++i) e.v[i] = r.chance(1, den) ? 255 : r.chance(1, 30) ? (u8)r.in(1, 254) : 0; }
	e.store();
	img_stroke_width_transform::params p; int inv = mt_I16_Max;
	if (r.chance(1, 2)) p.m_dark_on_light = sys_false;
	if (r.chance(1, 2)) p.m_pair_intersect_angle = (int)r.in(0, 120);
	if (r.chance(1, 3)) p.m_invalid_stroke_width = (i16)(inv = (int)r.in(1000, 32767));
	j.what = vh::fmt("%dx%d kind %d angle %d dark %d invalid %d layouts %d %d %d", w, h, c.s.kind, p.m_pair_intersect_angle, p.m_dark_on_light ? 1 : 0, inv, e.layout, c.x.layout, c.y.layout);
	vh::note(j.what);
	mt_mat res = r.chance(1, 8) && inv == mt_I16_Max && p.m_dark_on_light && p.m_pair_intersect_angle == 45 ? img_stroke_width_transform::swt(e.m, c.x.m, c.y.m) : img_stroke_width_transform::swt(e.m, c.x.m, c.y.m, p);
	vector<int> want; if (!model_swt(e.v, c.s, p.m_pair_intersect_angle, inv, p.m_dark_on_light != 0, want)) { vh::stat("undecided"); return; }
	if (!j.check(res.dim() == 2 && res.size()[0] == h && res.size()[1] == w && res.depth() == mt_I16 && res.channel() == 1, "widths_shape", "another shape")) return;
	long valid = 0; int lo = mt_I16_Max, hi = 0;
	for (int y = 0; y < h && !j.bad; ++y) for (int x = 0; x < w; ++x) {
		int v = get<i16>(res, y, x), m = want[(size_t)y * w + x];
		if (v != m) { j.fail("widths", vh::fmt("width at (%d, %d) is %d, expected %d", x, y, v, m)); break; }
		if (v != inv) { ++valid; lo = std::min(lo, v); hi = std::max(hi, v); }
	}
	vh::stat("pixels", (long long)n); vh::stat("width_pixels", valid); if (hi > 255 && valid > 0) vh::stat("strokes_above_255");
	j.check(e.intact() && c.x.intact() && c.y.intact(), "inputs_changed", "an input was changed");
	// the picture of the widths, also of any others
	Grid<i16> g; g.make(r, h, w, plain);
	bool mine = r.chance(1, 3);
	for (size_t i = 0; i < n; ++i) g.v[i] = mine ? (i16)(r.chance(1, 4) ? inv : r.in(0, r.chance(1, 2) ? 900 : 60)) : (i16)want[i];
	lo = mt_I16_Max; hi = 0; for (size_t i = 0; i < n; ++i) if (g.v[i] != inv) { lo = std::min<int>(lo, g.v[i]); hi = std::max<int>(hi, g.v[i]); }
	g.store();
	mt_mat pic = img_stroke_width_transform::normalize_swt_image(g.m, (i16)inv);
	if (j.check(pic.dim() == 2 && pic.size()[0] == h && pic.size()[1] == w && pic.depth() == mt_U8, "picture_shape", "another shape"))
	for (int y = 0; y < h && !j.bad; ++y) for (int x = 0; x < w; ++x) {
		int v = get<u8>(pic, y, x), s = g.v[(size_t)y * w + x]; double m = s == inv ? 255 : 255.0 * (s - lo) / std::max(200, hi - lo);
		if (!(v <= m + 1e-3 && v > m - 1 - 1e-3)) { j.fail("picture", vh::fmt("gray at (%d, %d) is %d, expected %g (width %d of %d to %d), layout %d", x, y, v, m, s, lo, hi, g.layout)); break; }
	}
	j.check(g.intact(), "inputs_changed", "the widths were changed");
	j.quiet("widths");
	vh::stat("transforms"); if (std::max(h, w) > 200) vh::stat("vast_transforms"); vh::dist("nontrivial", vh::hash_mem(&want[0], want.size() * sizeof(int), vh::hash_str(j.what)));
}

// ---------------------------------------------------------------- pictures of regions

#include "h_edge_draw.h"

int main(int argc, char** argv) {
	vector<vh::Prop> props;
	vh::Prop a[] = {{"canny", prop_canny}, {"auto", prop_auto}, {"swt", prop_swt}, {"draw", prop_draw}};
	props.assign(a, a + sizeof a / sizeof a[0]);
	return vh::run_main(argc, argv, props, mm::setup_log, mm::teardown_log);
}
