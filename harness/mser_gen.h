// Test images with very different component trees.
#pragma once
#include "mser_oracle.h"
#include <math.h>

namespace gen {
using oracle::Image;
using vh::Rng;

inline void blur(Image& im, int times) {
	for (int t = 0; t < times; ++t) {
		Image o = im;
		for (int y = 0; y < im.h; ++y) for (int x = 0; x < im.w; ++x) {
			int s = 0, n = 0;
			for (int dy = -1; dy <= 1; ++dy) for (int dx = -1; dx <= 1; ++dx) {
				int xx = x + dx, yy = y + dy;
				if (xx < 0 || yy < 0 || xx >= im.w || yy >= im.h) continue;
				s += o.at(xx, yy); ++n;
			}
			im.at(x, y) = (uint8_t)(s / n);
		}
	}
}

inline void stretch(Image& im) {
	int lo = 255, hi = 0;
	for (size_t i = 0; i < im.v.size(); ++i) { lo = std::min<int>(lo, im.v[i]); hi = std::max<int>(hi, im.v[i]); }
	if (hi > lo) for (size_t i = 0; i < im.v.size(); ++i) im.v[i] = (uint8_t)((im.v[i] - lo) * 255 / (hi - lo));
}

inline const char* kind_name(int k) {
	static const char* n[] = {"noise", "few_levels", "blobs", "gradient", "checker", "stripes", "rings", "spiral", "constant", "impulses", "text", "steps", "border", "mixture", "plateaus", "comb", "descent"};
	return n[k];
}
enum { KINDS = 17 };

inline Image make(Rng& r, int w, int h, int kind) {
	Image im(w, h);
	switch (kind) {
	case 0: for (size_t i = 0; i < im.v.size(); ++i) im.v[i] = (uint8_t)r.next(); break;
	case 1: {
		int lv = (int)r.in(2, 6); uint8_t val[8];
		for (int i = 0; i < lv; ++i) val[i] = (uint8_t)r.next();
		if (r.chance(1, 2)) val[0] = 0;
		if (r.chance(1, 2)) val[1] = 255;
		if (r.chance(1, 3)) for (int i = 1; i < lv; ++i) val[i] = (uint8_t)(val[0] + i);
		for (size_t i = 0; i < im.v.size(); ++i) im.v[i] = val[r.next() % lv];
		break; }
	case 2: for (size_t i = 0; i < im.v.size(); ++i) im.v[i] = (uint8_t)r.next(); blur(im, (int)r.in(1, 6)); if (r.chance(2, 3)) stretch(im); break;
	case 3: {
		double ax = r.unit() * 4 - 2, ay = r.unit() * 4 - 2, c = r.unit() * 255; bool wrap = r.chance(1, 2);
		for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { int v = (int)(c + ax * x + ay * y); im.at(x, y) = (uint8_t)(wrap ? v : std::max(0, std::min(255, v))); }
		break; }
	case 4: { int cs = (int)r.in(1, 6); uint8_t a = (uint8_t)r.next(), b = (uint8_t)r.next(); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) im.at(x, y) = ((x / cs + y / cs) & 1) ? a : b; break; }
	case 5: { int cs = (int)r.in(1, 8); bool ver = r.chance(1, 2); uint8_t val[64]; for (int i = 0; i < 64; ++i) val[i] = (uint8_t)r.next(); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) im.at(x, y) = val[((ver ? x : y) / cs) & 63]; break; }
	case 6: { double cx = r.unit() * w, cy = r.unit() * h, f = 0.2 + r.unit() * 8; for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) im.at(x, y) = (uint8_t)(int)(sqrt((x - cx) * (x - cx) + (y - cy) * (y - cy)) * f); break; }
	case 7: { // a path winding through the image: one long thin region at many levels
		uint8_t bg = (uint8_t)r.in(128, 255); for (size_t i = 0; i < im.v.size(); ++i) im.v[i] = bg; int step = 0; int inc = (int)r.in(0, 3);
		for (int y = 0; y < h; ++y) { if (y % 2 == 0) for (int x = 0; x < w; ++x) im.at((y % 4 == 0) ? x : w - 1 - x, y) = (uint8_t)((step += inc) / 16 % 128); else im.at((y % 4 == 1) ? w - 1 : 0, y) = (uint8_t)((step += inc) / 16 % 128); }
		break; }
	case 8: { uint8_t a = r.chance(1, 3) ? 0 : r.chance(1, 2) ? 255 : (uint8_t)r.next(); for (size_t i = 0; i < im.v.size(); ++i) im.v[i] = a; break; }
	case 9: { uint8_t a = (uint8_t)r.next(); for (size_t i = 0; i < im.v.size(); ++i) im.v[i] = r.chance(1, 12) ? (uint8_t)r.next() : a; break; }
	case 10: { // dark "characters" on a bright ground with soft edges
		for (size_t i = 0; i < im.v.size(); ++i) im.v[i] = 220; int n = (int)r.in(3, 30);
		for (int k = 0; k < n; ++k) { int x0 = (int)r.in(0, w - 1), y0 = (int)r.in(0, h - 1), cw = (int)r.in(1, std::max(1, w / 3)), ch = (int)r.in(1, std::max(1, h / 3)); uint8_t v = (uint8_t)r.in(0, 120); bool hole = r.chance(1, 3);
			for (int y = y0; y < std::min(h, y0 + ch); ++y) for (int x = x0; x < std::min(w, x0 + cw); ++x) if (!hole || x == x0 || y == y0 || x == x0 + cw - 1 || y == y0 + ch - 1) im.at(x, y) = v; }
		if (r.chance(1, 2)) blur(im, 1);
		for (size_t i = 0; i < im.v.size(); ++i) im.v[i] = (uint8_t)std::max(0, std::min(255, (int)im.v[i] + (int)r.in(-3, 3)));
		break; }
	case 11: { // nested squares whose levels grow outwards by chosen steps
		int n = std::min(w, h) / 2 + 1; std::vector<int> lv(n + 1); int v = (int)r.in(0, 20); for (int i = n; i >= 0; --i) { lv[i] = v; v = std::min(255, v + (int)r.in(0, 4)); }
		bool inv = r.chance(1, 2);
		for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { int d = std::min(std::min(x, w - 1 - x), std::min(y, h - 1 - y)); int q = lv[std::min(d, n)]; im.at(x, y) = (uint8_t)(inv ? 255 - q : q); }
		break; }
	case 12: { for (size_t i = 0; i < im.v.size(); ++i) im.v[i] = (uint8_t)r.in(100, 140); blur(im, 1); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) if (x == 0 || y == 0 || x == w - 1 || y == h - 1 || x == w / 2 || y == h / 2) im.at(x, y) = (uint8_t)r.in(0, 30); break; }
	case 13: { Image a = make(r, w, h, 2), b = make(r, w, h, (int)r.in(0, 12)); for (size_t i = 0; i < im.v.size(); ++i) im.v[i] = (uint8_t)((a.v[i] * 3 + b.v[i]) / 4); break; }
	case 14: { for (size_t i = 0; i < im.v.size(); ++i) im.v[i] = (uint8_t)r.next(); blur(im, (int)r.in(2, 5)); stretch(im); int q = (int)r.in(2, 40); for (size_t i = 0; i < im.v.size(); ++i) im.v[i] = (uint8_t)(im.v[i] / q * q); break; }
	case 16: { // level after level downwards from the first pixel, so that the stack of open components gets as deep as it can
		int period = (int)r.in(1, 3); bool wrap = r.chance(1, 2), diag = r.chance(1, 2), back = r.chance(1, 2);
		for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { int t = diag ? x + y : (y % 2 == 0 ? y * w + x : y * w + w - 1 - x); if (back) t = (diag ? w + h - 2 : w * h - 1) - t; t /= period; im.at(x, y) = (uint8_t)(255 - (wrap ? t & 255 : std::min(255, t))); }
		break; }
	default: { // combs: teeth joined only at one side, so that far-apart pixels belong together across block borders
		bool ver = r.chance(1, 2); uint8_t a = (uint8_t)r.in(0, 100), b = (uint8_t)r.in(101, 255); int per = (int)r.in(2, 5);
		for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { int u = ver ? x : y, t = ver ? y : x; im.at(x, y) = (t == 0 || u % per == 0) ? (uint8_t)(a + (u / per) % 7) : b; }
		break; }
	}
	if (r.chance(1, 25)) for (size_t i = 0; i < im.v.size(); ++i) im.v[i] ^= 255;
	return im;
}

inline oracle::Params params(Rng& r) {
	oracle::Params p;
	static const int deltas[] = {0, 1, 1, 1, 2, 3, 5, 10, 40, 300};
	static const float stables[] = {0.1f, 0.25f, 0.5f, 0.5f, 1.0f, 3.0f, FLT_MAX};
	static const float nmss[] = {-1, -1, 0, 0, 0.05f, 0.2f};
	static const float dups[] = {-1, 0, 0.1f, 0.1f, 0.25f, 0.5f, 0.9f};
	static const int mins[] = {0, 1, 1, 2, 3, 5, 10, 20, 20, 30, 100};
	static const float ratios[] = {0.01f, 0.05f, 0.25f, 0.25f, 0.5f, 0.9f, 1.0f};
	static const int recs[] = {-1, INT_MAX, 0, 1, 5, 20, 20, 20, 60, 1000};
	p.recursive = r.pick(recs);
	p.delta = r.pick(deltas); p.stable = r.pick(stables); p.nms = r.pick(nmss); p.dup = r.pick(dups); p.min_point = r.pick(mins); p.max_ratio = r.pick(ratios);
	return p;
}
}
