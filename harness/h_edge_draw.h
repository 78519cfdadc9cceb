#include "mser_run.h"

static void draw_regions(Rng& r, Judge& j) {
	static const int algs[] = {run::V1, run::V2, run::LINEAR, run::ORIGIN, run::MS, run::OPENCV};
	int alg = r.pick(algs), threads = alg == run::V1 || alg == run::V2 ? (r.chance(1, 2) ? 1 : 4) : 1;
	oracle::Params p; p.delta = (int)r.in(0, 4); p.stable = r.chance(1, 2) ? 1e30f : 0.5f; p.nms = r.chance(1, 2) ? -1.f : 0.f; p.dup = r.chance(1, 2) ? -1.f : 0.1f; p.min_point = (int)r.in(1, 20); p.max_ratio = (float)r.in(1, 4) / 4; p.conn = threads > 1 || r.chance(2, 3) ? 4 : 8; p.recursive = r.chance(1, 2) ? (int)r.in(1, 30) : 0;
	int lo = threads > 1 ? 24 : 4;
	oracle::Image im = gen::make(r, (int)r.in(lo, lo + 30), (int)r.in(lo, lo + 30), (int)r.in(0, gen::KINDS - 1));
	j.what = vh::fmt("%s with %d threads, %dx%d, recursive %d", run::alg_name(alg), threads, im.w, im.h, p.recursive); vh::note(j.what);
	std::unique_ptr<img_mser_base> m(run::make(alg, p, threads));
	img_multi_msers res; m->extract(res, run::to_mat(im, run::PLAIN, &r));
	run::Result d = run::decode(res, im.w, im.h, false, true);
	if (!d.bad.empty()) { j.fail("regions", d.bad); return; }
	vector<const img_mser*> all((size_t)r.in(0, 2), NULL); size_t had = all.size();
	img_mser_helper::shallow_copy_msers(all, res);
	bool ok = all.size() == had + res.m_msers[0].size() + res.m_msers[1].size();
	for (size_t i = had; ok && i < all.size(); ++i) { size_t k = i - had, a = res.m_msers[0].size(); ok = all[i] == (k < a ? &res.m_msers[0][k] : &res.m_msers[1][k - a]); }
	j.check(ok, "region_pointers", "the pointers are not those of the regions");
	mt_mat pic; vector<i32> stack;
	for (int c = 0; c < 2; ++c) for (size_t i = 0; i < d.r[c].size() && !j.bad; ++i) {
		if (d.r[c].size() > 12 && !r.chance(12, (int)d.r[c].size())) continue;
		const run::Region& g = d.r[c][i]; const img_mser& e = res.m_msers[c][i];
		if (e.m_rect.m_width <= 0 || e.m_rect.m_height <= 0) continue;
		bool gray = r.chance(1, 2), def = r.chance(1, 4); if (def) gray = true;
		mt_scalar fg(r.in(0, 255), r.in(0, 255), r.in(0, 255), 255), bg(r.in(0, 255), r.in(0, 255), r.in(0, 255), 255);
		if (def) { fg = mt_scalar(0, 0, 0, 255); bg = mt_scalar(255, 255, 255, 255); }
		if (r.chance(1, 3)) pic = mt_mat();
		mt_size none(0, 0);
		if (def && r.chance(1, 2)) img_mser_helper::image_from_mser(pic, e, none);
		else img_mser_helper::image_from_mser(pic, e, none, fg, bg, gray ? sys_true : sys_false, r.chance(1, 2) ? &stack : NULL);
		int w = e.m_rect.m_width, h = e.m_rect.m_height, ox = w < h ? (h - w) / 2 : 0, oy = h < w ? (w - h) / 2 : 0, n = gray ? 1 : 3;
		if (!j.check(pic.dim() == 2 && pic.size()[0] == h + 2 * oy && pic.size()[1] == w + 2 * ox && pic.depth() == mt_U8 && pic.channel() == n, "picture_shape", vh::fmt("%dx%d with %d channels for a region of %dx%d", pic.size()[1], pic.size()[0], pic.channel(), w, h))) break;
		vector<char> want((size_t)pic.size()[0] * pic.size()[1], 0);
		for (size_t k = 0; k < g.px.size(); ++k) { int x = g.px[k] % im.w - e.m_rect.m_left + ox, y = g.px[k] / im.w - e.m_rect.m_top + oy; if (x < 0 || y < 0 || x >= pic.size()[1] || y >= pic.size()[0]) { j.fail("picture_rect", "a point of the region lies outside its rectangle"); break; } want[(size_t)y * pic.size()[1] + x] = 1; }
		for (int y = 0; y < pic.size()[0] && !j.bad; ++y) for (int x = 0; x < pic.size()[1]; ++x) for (int k = 0; k < n; ++k) {
			bool on = want[(size_t)y * pic.size()[1] + x] != 0; int v = get<u8>(pic, y, x, k), s = (int)(on ? fg : bg).value[k];
			if (v != s) { j.fail("picture", vh::fmt("pixel (%d, %d) channel %d is %d, expected %d (%s), region %d of type %d", x, y, k, v, s, on ? "in the region" : "ground", (int)i, g.type)); break; }
		}
		vh::stat(vh::fmt("type_%d", g.type)); vh::stat("pictures"); vh::dist("nontrivial", g.hash);
	}
}

static void prop_draw(Rng& r, long) {
	Judge j;
	int kind = (int)r.in(0, 5);
	if (kind <= 2) draw_regions(r, j);
	else if (kind == 3) {
		int w = (int)r.in(1, 30), h = (int)r.in(1, 30), s = (int)r.in(1, 9), ch = (int)r.in(1, 4);
		j.what = vh::fmt("chessboard %dx%d fields of %d, %d channels", w, h, s, ch); vh::note(j.what);
		Grid<u8> g; mt_mat m; bool ext = ch == 1 && r.chance(1, 2); if (ext) { g.make(r, h, w, false); m = g.m; }
		if (ch == 1 && r.chance(1, 2)) img_img::genarate_chessboard(m, mt_size(w, h), s); else img_img::genarate_chessboard(m, mt_size(w, h), s, ch);
		if (j.check(m.dim() == 2 && m.size()[0] == h && m.size()[1] == w && m.depth() == mt_U8 && m.channel() == ch, "chessboard_shape", "another shape"))
		for (int y = 0; y < h && !j.bad; ++y) for (int x = 0; x < w; ++x) for (int c = 0; c < ch; ++c) if (get<u8>(m, y, x, c) != ((y / s + x / s) % 2 ? 255 : 0)) { j.fail("chessboard", vh::fmt("pixel (%d, %d) is %d", x, y, get<u8>(m, y, x, c))); break; }
		if (ext) j.check(g.guarded(), "outside_write", "memory around the image was changed");
		for (int k = 0; k < 10; ++k) {
			int x = (int)r.in(-2, w + 1), y = (int)r.in(-2, h + 1); bool in = x >= 0 && y >= 0 && x < w && y < h, b = in && (x == 0 || y == 0 || x == w - 1 || y == h - 1);
			j.check((img_img::point_in_image(mt_point(x, y), m) != 0) == in, "point_in_image", vh::fmt("(%d, %d)", x, y));
			j.check((img_img::point_in_image_boundary(mt_point(x, y), m) != 0) == b, "point_in_boundary", vh::fmt("(%d, %d)", x, y));
		}
		vh::stat("chessboards"); vh::dist("nontrivial", vh::hash_str(j.what));
	} else {
		Case c; c.s = scene(r, 1, 14, false); bool plain = r.chance(1, 3); build(r, c, false, plain);
		img_img::Gradient_Mag_Type t[] = {img_img::Gradient_Mag_Type_L1, img_img::Gradient_Mag_Type_L2, img_img::Gradient_Mag_Type_L2_Square};
		int k = (int)r.in(0, 2); Grid<float> out; mt_mat m; bool ext = r.chance(1, 3); if (ext) { out.make(r, c.s.h, c.s.w, plain); m = out.m; }
		j.what = vh::fmt("magnitude %d of %dx%d kind %d layouts %d %d %d", k, c.s.w, c.s.h, c.s.kind, c.x.layout, c.y.layout, ext ? out.layout : -1); vh::note(j.what);
		if (!ext && r.chance(1, 2)) m = img_img::generate_gradient_mag(c.x.m, c.y.m, t[k]); else img_img::generate_gradient_mag(m, c.x.m, c.y.m, t[k]);
		if (j.check(m.dim() == 2 && m.size()[0] == c.s.h && m.size()[1] == c.s.w && m.depth() == mt_F32, "magnitude_shape", "another shape"))
		for (int y = 0; y < c.s.h && !j.bad; ++y) for (int x = 0; x < c.s.w; ++x) {
			double a = c.s.gx[(size_t)y * c.s.w + x], b = c.s.gy[(size_t)y * c.s.w + x], want = k == 0 ? fabs(a) + fabs(b) : k == 1 ? sqrt(a * a + b * b) : a * a + b * b, v = get<float>(m, y, x);
			if (!(fabs(v - want) <= 1e-5 * std::max(1.0, want))) { j.fail("magnitude", vh::fmt("(%d, %d) is %g, expected %g", x, y, v, want)); break; }
		}
		j.check(c.x.intact() && c.y.intact() && (!ext || out.guarded()), "inputs_changed", "a gradient or memory around the result was changed");
		vh::stat("magnitudes"); vh::dist("nontrivial", vh::hash_str(j.what));
	}
	j.quiet("draw");
}
