// Further monitors on MSER extraction: history independence, ownership of results, masks, components, hostile input, concurrency.
#pragma once
#include <thread>
#include <atomic>

// ---------------------------------------------------------------------------------------------------------------
// What an instance returns does not depend on what it did before.
static Params history_params(Rng& r) { Params p = gen::params(r); if (p.recursive == 0 && r.chance(1, 2)) p.recursive = 20; return p; }

static void history(Rng& r, long k) {
	static const int algs[] = {V1, V1, V1, V1, V2, V2, V2, LINEAR, MS, ORIGIN, OPENCV, OPENCV3, VLFEAT};
	int alg = r.pick(algs);
	static const int th1[] = {1, 2, 4, 8, 16, 32}, th2[] = {1, 4, 32};
	bool change_threads = (alg == V1 || alg == V2) && r.chance(1, 2);
	int threads = alg == V1 ? r.pick(th1) : alg == V2 ? r.pick(th2) : 1;
	std::unique_ptr<img_mser_base> m(make(alg, Params(), threads));
	bool conn8 = r.chance(1, 3);
	img_multi_msers kept;	// the caller's result object is used again, too
	bool reuse_result = r.chance(1, 2);
	// Some histories alternate between a large image and a long run of small ones, after which buffers are given back.
	bool waves = r.chance(1, 3), same_params = r.chance(2, 3);
	int steps = waves ? (int)r.in(9, 26) : (int)r.in(3, 10), lw = 0, lh = 0, wave_small = 0, wave_mid = 0;
	if (waves && r.chance(3, 4)) change_threads = false;
	Params wp = history_params(r);
	if (waves && r.chance(2, 3)) { wp.min_point = 1; wp.stable = FLT_MAX; wp.max_ratio = 0.9f; wp.nms = -1; wp.dup = -1; wp.delta = 1; }
	if (waves) vh::stat("wave_histories");
	Image im, prev;
	std::string trail;
	for (int s = 0; s < steps; ++s) {
		if (change_threads && r.chance(1, 3)) threads = alg == V1 ? r.pick(th1) : r.pick(th2);
		int kind = -1;
		if (waves) {
			int lo, hi;
			if (s == 0 || (wave_small == 0 && wave_mid == 0)) { wave_small = (int)r.in(5, 14); wave_mid = (int)r.in(0, 3); lo = 40; hi = 70; }
			else if (wave_small > 0) { --wave_small; lo = 3; hi = 12; }
			else { --wave_mid; lo = 10; hi = 36; }
			kind = r.chance(1, 2) ? 0 : (int)r.in(0, gen::KINDS - 1);
			im = gen::make(r, (int)r.in(lo, hi), (int)r.in(lo, hi), kind);
		}
		else if (lw > 0 && r.chance(1, 3)) { kind = (int)r.in(0, gen::KINDS - 1); im = gen::make(r, lw, lh, kind); }	// same size, another image
		else if (lw > 0 && r.chance(1, 6)) { kind = (int)r.in(0, gen::KINDS - 1); im = gen::make(r, lh, lw, kind); }	// same area, another shape
		else im = random_image(r, kind, 48);
		lw = im.w; lh = im.h;
		Params p = waves && same_params ? wp : history_params(r);
		p.conn = threads > 1 || alg == OPENCV3 || alg == VLFEAT || !conn8 ? 4 : (r.chance(1, 2) ? 8 : 4);
		bool en[2] = {r.chance(5, 6), r.chance(5, 6)};
		if (r.chance(1, waves ? 30 : 5)) { m->clear_memory_cache(); vh::stat("cache_clears"); }
		configure(m.get(), p, threads);
		m->enable_extraction(en[0], en[1]);
		std::string what = ctx(alg, threads, p, im, kind) + vh::fmt(" step %d en %d%d", s, en[0], en[1]);
		vh::note(what);
		mt_mat mat = to_mat(im, (int)r.in(0, 1), &r);
		if (alg == VLFEAT) {	// this one returns sizes and levels only
			img_multi_msers fresh_own; if (!reuse_result) kept = img_multi_msers();
			m->extract(kept, mat);
			std::unique_ptr<img_mser_base> f(make(alg, p, threads));
			f->enable_extraction(en[0], en[1]);
			f->extract(fresh_own, mat);
			for (int c = 0; c < 2; ++c) {
				bool same = kept.m_msers[c].size() == fresh_own.m_msers[c].size();
				for (size_t i = 0; same && i < kept.m_msers[c].size(); ++i) same = kept.m_msers[c][i].m_size == fresh_own.m_msers[c][i].m_size && kept.m_msers[c][i].m_gray_level == fresh_own.m_msers[c][i].m_gray_level;
				VH_CHECK(same, "history vlfeat/serial", what + vh::fmt(" channel %d: %zu regions against %zu, or others", c, kept.m_msers[c].size(), fresh_own.m_msers[c].size()));
				if (!en[c]) VH_CHECK(kept.m_msers[c].empty(), "disabled-channel vlfeat", what);
				if (!kept.m_msers[c].empty()) vh::dist("nontrivial", vh::hash_str(what) ^ kept.m_msers[c].size());
			}
			vh::stat("steps_vlfeat");
			continue;
		}
		Result got;
		if (reuse_result) { m->extract(kept, mat); got = decode(kept, im.w, im.h, false, false); }
		else got = extract(m.get(), alg, threads, im, mat);
		std::unique_ptr<img_mser_base> f(make(alg, p, threads));
		f->enable_extraction(en[0], en[1]);
		Result fresh = extract(f.get(), alg, threads, im, mat);
		std::string why;
		VH_CHECK(compare(got, fresh, why), vh::fmt("history %s/%s", alg_name(alg), threads == 1 ? "serial" : "parallel"), what + " " + why);
		for (int c = 0; c < 2; ++c) if (!en[c]) VH_CHECK(got.r[c].empty(), vh::fmt("disabled-channel %s", alg_name(alg)), what);
		vh::stat(std::string("steps_") + alg_name(alg));
		if (got.r[0].size() + got.r[1].size() > 0) vh::dist("nontrivial", result_hash(got) ^ vh::hash_str(what));
	}
	if (k < 3) vh::sample(vh::fmt("%s %d steps, threads change: %d", alg_name(alg), steps, change_threads));
}

// ---------------------------------------------------------------------------------------------------------------
// Results belong to the caller: they survive copies, the instance and the image; the image is left alone.
// Extractions of several pictures (whole ones and parts of larger ones) by one instance leave all of them as they were.
static void pictures_untouched(Rng& r) {
	int alg = (int)r.in(0, ALGS - 1), kind;
	static const int th1[] = {1, 2, 4, 8, 16, 32}, th2[] = {1, 4, 32};
	int threads = alg == V1 ? r.pick(th1) : alg == V2 ? r.pick(th2) : 1;
	Params p = gen::params(r); p.conn = 4;
	std::unique_ptr<img_mser_base> m(make(alg, p, threads));
	Image im = random_image(r, kind, 40);
	int n = (int)r.in(2, 5); std::string what = ctx(alg, threads, p, im, kind) + vh::fmt(" %d pictures", n);
	vh::note(what);
	std::vector<mt_mat> mats; std::vector<Image> ims; std::vector<std::vector<u8> > lent((size_t)n);
	img_multi_msers res;
	for (int i = 0; i < n; ++i) {
		if (i > 0) { if (r.chance(1, 4)) im = random_image(r, kind, 40); else im = gen::make(r, im.w, im.h, kind); }
		if (r.chance(1, 4)) {	// memory lent by the caller, which goes away after the extraction
			int pad = r.chance(1, 2) ? (int)r.in(1, 6) : 0; std::vector<u8> mem((size_t)(im.w + pad) * im.h, 77);
			for (int y = 0; y < im.h; ++y) for (int x = 0; x < im.w; ++x) mem[(size_t)y * (im.w + pad) + x] = im.at(x, y);
			std::vector<u8> before(mem); vector<i32> sz(2), st(2); sz[0] = im.h; sz[1] = im.w; st[0] = im.w + pad; st[1] = 1;
			mt_mat view(sz, mt_U8C1, &mem[0], st);
			m->extract(res, view);
			VH_CHECK(mem == before, vh::fmt("image modified by %s", alg_name(alg)), what); vh::stat("lent_pictures");
			continue;
		}
		ims.push_back(im); mats.push_back(to_mat(im, (int)r.in(0, 1), &r));
		m->extract(res, mats.back());
	}
	long wrong = 0;
	for (size_t i = 0; i < ims.size(); ++i) for (int y = 0; y < ims[i].h; ++y) for (int x = 0; x < ims[i].w; ++x) wrong += mats[i].data()[y * mats[i].step()[0] + x] != ims[i].at(x, y);
	VH_CHECK(wrong == 0, vh::fmt("former image modified by %s", alg_name(alg)), what + vh::fmt(": %ld pixels", wrong));
	vh::stat("picture_series");
}
static void results(Rng& r, long k) {
	if (r.chance(1, 4)) { pictures_untouched(r); return; }
	static const int algs[] = {V1, V1, V2, V2, LINEAR, MS, ORIGIN, OPENCV, OPENCV3, VLFEAT};
	int alg = r.pick(algs);
	static const int th1[] = {1, 2, 4, 8, 16, 32}, th2[] = {1, 4, 32};
	int threads = alg == V1 ? r.pick(th1) : alg == V2 ? r.pick(th2) : 1;
	int kind;
	Image im = random_image(r, kind, 56);
	Params p = gen::params(r);
	std::string what = ctx(alg, threads, p, im, kind);
	vh::note(what);
	if (k < 4) vh::sample(what);
	std::string a = vh::fmt("%s/%s", alg_name(alg), threads == 1 ? "serial" : "parallel");
	std::unique_ptr<img_mser_base> m(make(alg, p, threads));
	Result first;
	img_multi_msers copy, second;
	int mode = (int)r.in(0, 3);
	{
		img_multi_msers res;
		{
			// the image lies in a larger one; nothing in there may change
			int l = (int)r.in(0, 4), t = (int)r.in(0, 4), e = (int)r.in(0, 4), b = (int)r.in(0, 4);
			mt_mat big(im.h + t + b, im.w + l + e, mt_U8C1);
			for (int y = 0; y < big.size()[0]; ++y) for (int x = 0; x < big.size()[1]; ++x) big.ptr<u8>(y, 0)[x] = (u8)r.next();
			mt_mat sub = big.sub(t, t + im.h, 0).sub(l, l + im.w, 1);
			for (int y = 0; y < im.h; ++y) for (int x = 0; x < im.w; ++x) sub.ptr<u8>(y, 0)[x] = im.at(x, y);
			size_t bytes = (size_t)big.step()[0] * big.size()[0];
			std::vector<u8> before(big.data(), big.data() + bytes);
			m->extract(res, sub);
			VH_CHECK(memcmp(&before[0], big.data(), bytes) == 0, "image modified by " + a, what);
		}
		if (alg == VLFEAT) { copy = res; second = copy; VH_CHECK(second.m_msers[0].size() == res.m_msers[0].size() && second.m_msers[1].size() == res.m_msers[1].size(), "copy " + a, what); vh::stat("copies"); return; }
		first = decode(res, im.w, im.h, false, true);
		VH_CHECK(first.bad.empty(), "malformed " + a + " " + first.bad.substr(0, first.bad.find(':')), what + " " + first.bad);
		if (!first.bad.empty()) return;
		// copies in several ways; the original goes away before they are looked at
		if (mode == 0) { img_multi_msers c(res); copy = c; }
		else if (mode == 1) { copy = res; copy = *&copy; }
		else if (mode == 2) { m->extract(copy, to_mat(gen::make(r, 9, 7, 0), 0, NULL)); copy = res; }
		else { std::vector<img_multi_msers> v(3, res); v.push_back(res); v.erase(v.begin()); copy = v[(size_t)r.in(0, 2)]; }
		// the instance is used on something else meanwhile, or goes away
		if (r.chance(1, 2)) m->extract(second, to_mat(gen::make(r, (int)r.in(1, 40), (int)r.in(1, 40), 1), 0, NULL)); else m.reset();
		Result still = decode(res, im.w, im.h, false, false);
		std::string why;
		VH_CHECK(compare(first, still, why), "result changed by later use " + a, what + " " + why);
	}
	Result copied = decode(copy, im.w, im.h, false, true);
	std::string why;
	VH_CHECK(compare(first, copied, why), vh::fmt("copy %s mode %d", a.c_str(), mode), what + " " + why);
	vh::stat("copies");
	if (!copied.bad.empty()) return;
	// the helper that draws a region reads the same pixels
	vector<const img_mser*> ptrs;
	img_mser_helper::shallow_copy_msers(ptrs, copy);
	VH_CHECK(ptrs.size() == copied.r[0].size() + copied.r[1].size(), "shallow copy", what);
	vector<i32> stack;
	if (r.chance(1, 4)) { img_mser_helper::visit_pixel_test(copy); vh::stat("visits"); }   // reads every pixel
	for (size_t i = 0; i < ptrs.size() && i < 60; ++i) {
		size_t n0 = copied.r[0].size();
		const Region& g = i < n0 ? copied.r[0][i] : copied.r[1][i - n0];
		VH_CHECK(ptrs[i] == (i < n0 ? &copy.m_msers[0][i] : &copy.m_msers[1][i - n0]), "shallow copy", what);
		mt_mat img;
		bool gray = r.chance(2, 3);
		mt_scalar fg(7, 8, 9, 255), bg(200, 210, 220, 255);
		img_mser_helper::image_from_mser(img, *ptrs[i], mt_size(0, 0), fg, bg, gray, r.chance(1, 2) ? &stack : NULL);
		int eh = g.width > g.height ? (g.width - g.height) / 2 : 0, ew = g.height > g.width ? (g.height - g.width) / 2 : 0;
		bool ok = img.size()[0] == g.height + 2 * eh && img.size()[1] == g.width + 2 * ew && img.channel() == (gray ? 1 : 3);
		long wrong = 0;
		if (ok) {
			std::set<int> px(g.px.begin(), g.px.end());
			for (int y = 0; y < img.size()[0]; ++y) for (int x = 0; x < img.size()[1]; ++x) {
				int ix = x + g.left - ew, iy = y + g.top - eh;
				bool in = ix >= 0 && iy >= 0 && ix < im.w && iy < im.h && px.count(iy * im.w + ix);
				for (int c = 0; c < img.channel(); ++c) if (img.ptr<u8>(y, 0)[x * img.channel() + c] != (in ? 7 + c : 200 + 10 * c)) ++wrong;
			}
		}
		VH_CHECK(ok && wrong == 0, "drawing " + a, what + vh::fmt(" region %zu size %d: %ld wrong pixels", i, g.size, wrong));
		vh::stat("drawings");
	}
	if (first.r[0].size() + first.r[1].size() > 0) vh::dist("nontrivial", result_hash(first) ^ vh::hash_str(what));
	// the level images of a result made of components
	if (r.chance(1, 3)) {
		img_mser_result mr;
		for (int c = 0; c < 2; ++c) for (size_t i = 0; i < copied.r[c].size() && i < 40; ++i) {
			img_mser_component comp; comp.m_level = (u8)r.in(1, 254);
			comp.m_cc.init((i32)copied.r[c][i].px.size());
			for (size_t j = 0; j < copied.r[c][i].px.size(); ++j) comp.m_cc.m_points[j] = mt_point(copied.r[c][i].px[j] % im.w, copied.r[c][i].px[j] / im.w);
			mr.m_msers[c].push_back(comp);
		}
		vector<img_connected_component*> ccs;
		int type = (int)r.in(0, 2);
		mr.shallow_copy_cc(ccs, (img_mser_result::Result_Type)type);
		size_t want = (type != 1 ? mr.m_msers[0].size() : 0) + (type != 0 ? mr.m_msers[1].size() : 0);
		VH_CHECK(ccs.size() == want, "shallow_copy_cc", what);
		mt_mat src = to_mat(im, 0, NULL);
		for (int c = 0; c < 2; ++c) {
			img_mser_channel_image ci = mr.generate_mser_channel_image(src, c == 0);
			std::vector<int> lv((size_t)im.w * im.h, c == 0 ? 255 : 0), id((size_t)im.w * im.h, -1);
			for (size_t j = 0; j < mr.m_msers[c].size(); ++j) for (int q = 0; q < mr.m_msers[c][j].m_cc.m_size; ++q) {
				int at = mr.m_msers[c][j].m_cc.m_points[q].m_y * im.w + mr.m_msers[c][j].m_cc.m_points[q].m_x, l = mr.m_msers[c][j].m_level;
				if (c == 0 ? l < lv[at] : l > lv[at]) { lv[at] = l; id[at] = (int)j; }
			}
			long wrong = 0;
			for (int y = 0; y < im.h; ++y) for (int x = 0; x < im.w; ++x) if (ci.m_level_image.at<u8>(y, x, 0) != lv[y * im.w + x] || ci.m_mser_id_image.at<i32>(y, x, 0) != id[y * im.w + x]) ++wrong;
			VH_CHECK(wrong == 0, c == 0 ? "level image from min" : "level image from max", what + vh::fmt(" %ld wrong pixels", wrong));
			vh::stat("level_images");
		}
		vector<img_mser_component*> comps;
		mr.shallow_copy_cc(comps, (img_mser_result::Result_Type)type);
		bool same = comps.size() == ccs.size();
		for (size_t i = 0; same && i < comps.size(); ++i) same = &comps[i]->m_cc == ccs[i] && ccs[i] == &(type == 1 ? mr.m_msers[1][i] : i < mr.m_msers[0].size() ? mr.m_msers[0][i] : mr.m_msers[1][i - mr.m_msers[0].size()]).m_cc;
		VH_CHECK(same, "shallow_copy_cc order", what);
		// the picture of all components: black on white, apart from the frames around them
		std::vector<char> on((size_t)im.w * im.h, 0), frame(on);
		for (size_t i = 0; i < ccs.size(); ++i) {
			const mt_rect& q = ccs[i]->m_rect;
			for (int j = 0; j < ccs[i]->m_size; ++j) on[(size_t)ccs[i]->m_points[j].m_y * im.w + ccs[i]->m_points[j].m_x] = 1;
			for (int y = q.m_top; y <= q.m_top + q.m_height; ++y) for (int x = q.m_left; x <= q.m_left + q.m_width; ++x) if ((y <= q.m_top || y >= q.m_top + q.m_height - 1 || x <= q.m_left || x >= q.m_left + q.m_width - 1) && y >= 0 && x >= 0 && x < im.w && y < im.h) frame[(size_t)y * im.w + x] = 1;
		}
		mt_mat pic = mr.generate_mser_result_image(src, (img_mser_result::Result_Type)type);
		bool fits = pic.dim() == 2 && pic.size()[0] == im.h && pic.size()[1] == im.w && pic.channel() == 3; long wrong = 0;
		if (fits) for (int y = 0; y < im.h; ++y) for (int x = 0; x < im.w; ++x) for (int c = 0; c < 3; ++c) if (!frame[(size_t)y * im.w + x] && pic.ptr<u8>(y, 0)[x * 3 + c] != (on[(size_t)y * im.w + x] ? 0 : 255)) ++wrong;
		VH_CHECK(fits && wrong == 0, "result picture", what + vh::fmt(" %ld wrong pixels", wrong));
		vh::stat("result_pictures");
	}
}

// ---------------------------------------------------------------------------------------------------------------
// Masks: only unmasked pixels are reported, and those as the regions of the masked image.
static void masks(Rng& r, long k) {
	int alg = r.chance(1, 2) ? ORIGIN : LINEAR, kind;
	Image im = random_image(r, kind, 60);
	Params p = gen::params(r);
	p.conn = r.chance(1, 2) ? 4 : 8;
	int type = alg == ORIGIN ? (int)r.in(0, 2) : (int)r.in(1, 2);
	std::vector<uint8_t> mask((size_t)im.w * im.h, 1);
	img_mask_info<u8> info;
	mt_mat mm;
	if (type == 0) {
		int l = (int)r.in(0, im.w - 1), t = (int)r.in(0, im.h - 1), w = (int)r.in(1, im.w - l), h = (int)r.in(1, im.h - t);
		for (int y = 0; y < im.h; ++y) for (int x = 0; x < im.w; ++x) mask[y * im.w + x] = x >= l && x < l + w && y >= t && y < t + h;
		info = img_mask_info<u8>(mt_rect(l, t, w, h));
	} else if (type == 1) {
		int mk = (int)r.in(0, 3);
		Image pat = gen::make(r, im.w, im.h, (int)r.in(0, gen::KINDS - 1));
		int den = (int)r.in(2, 20), thr = (int)r.in(0, 255);
		for (size_t i = 0; i < mask.size(); ++i) mask[i] = mk == 0 ? !r.chance(1, den) : mk == 1 ? r.chance(1, den) : mk == 2 ? pat.v[i] >= thr : 1;
		if (std::count(mask.begin(), mask.end(), 1) == 0) vh::stat("all_masked");
		Image mi(im.w, im.h); mi.v = mask;
		mm = to_mat(mi, (int)r.in(0, 1), &r);
		info = img_mask_info<u8>(mm);
	} else {
		u8 v = im.v[(size_t)r.in(0, (int)im.v.size() - 1)];
		if (r.chance(1, 4)) v = (u8)r.next();
		for (size_t i = 0; i < mask.size(); ++i) mask[i] = im.v[i] != v;
		if (std::count(mask.begin(), mask.end(), 1) == 0) vh::stat("all_masked");
		info = img_mask_info<u8>(v);
	}
	static const char* tn[] = {"rect", "image", "value"};
	std::string what = ctx(alg, 1, p, im, kind) + vh::fmt(" mask %s, %ld of %zu pixels", tn[type], (long)std::count(mask.begin(), mask.end(), 1), mask.size());
	vh::note(what);
	if (k < 4) vh::sample(what);
	std::unique_ptr<img_mser_base> m(make(alg, p, 1));
	img_multi_msers raw;
	m->extract(raw, to_mat(im, (int)r.in(0, 1), &r), info);
	vh::stat(vh::fmt("runs_%s_%s", alg_name(alg), tn[type]));
	Result res = decode(raw, im.w, im.h, false, true);
	std::string a = vh::fmt("masked/%s/%s", alg_name(alg), tn[type]);
	VH_CHECK(res.bad.empty(), "malformed " + a + " " + res.bad.substr(0, res.bad.find(':')), what + " " + res.bad);
	if (!res.bad.empty()) return;
	if (alg == ORIGIN) {
		p.root_allowed = true;
		check_against(res, im, p, alg, 1, what, &mask);
		return;
	}
	long total = 0;
	for (int c = 0; c < 2; ++c) {
		oracle::Tree t;
		t.build(im, c ? 255 : 0, p.conn, &mask);
		int max_point = (int)(p.max_ratio * im.h * im.w);
		for (size_t i = 0; i < res.r[c].size(); ++i) {
			const Region& g = res.r[c][i];
			long masked = 0;
			for (size_t j = 0; j < g.px.size(); ++j) masked += !mask[g.px[j]];
			VH_CHECK(masked == 0, "masked pixels in a region " + a, what + vh::fmt(" channel %d size %d: %ld masked", c, g.size, masked));
			if (masked) continue;
			std::unordered_map<uint64_t, int>::iterator f = t.by_hash.find(g.hash);
			VH_CHECK(f != t.by_hash.end(), "not-extremal " + a, what + vh::fmt(" channel %d size %d gray %d", c, g.size, g.gray));
			if (f == t.by_hash.end()) continue;
			VH_CHECK((t.nodes[f->second].level ^ (c ? 255 : 0)) == g.gray, "gray-level " + a, what + vh::fmt(" channel %d size %d gray %d", c, g.size, g.gray));
			VH_CHECK(g.size >= p.min_point && g.size <= max_point, "size " + a, what + vh::fmt(" channel %d size %d", c, g.size));
			++total;
		}
	}
	if (total) vh::dist("nontrivial", result_hash(res) ^ vh::hash_str(what));
}

// ---------------------------------------------------------------------------------------------------------------
// Connected components partition the pixels that differ from the background.
static void components(Rng& r, long k) {
	int kind;
	Image im = random_image(r, kind, 60);
	if (r.chance(1, 3)) { int q = (int)r.in(2, 128); for (size_t i = 0; i < im.v.size(); ++i) im.v[i] = (u8)(im.v[i] / q * q); }
	static const int chs[] = {1, 3, 4};
	int ch = r.pick(chs);
	bool eight = r.chance(1, 2);
	int bgv = im.v[(size_t)r.in(0, (int)im.v.size() - 1)];
	if (r.chance(1, 8)) bgv = (int)r.in(0, 255);
	std::string what = vh::fmt("%dx%d %s channels %d conn %d background %d", im.w, im.h, gen::kind_name(kind), ch, eight ? 8 : 4, bgv);
	vh::note(what);
	if (k < 4) vh::sample(what);
	// a pixel is background when all its channels are; the others differ in one channel chosen at random
	int le = (int)r.in(0, 3), te = (int)r.in(0, 3), re = (int)r.in(0, 3);
	mt_mat big(im.h + te, im.w + le + re, ch == 1 ? mt_U8C1 : ch == 3 ? mt_U8C3 : mt_U8C4);
	for (int y = 0; y < big.size()[0]; ++y) for (int x = 0; x < big.size()[1] * ch; ++x) big.ptr<u8>(y, 0)[x] = (u8)r.next();
	mt_mat mat = big.sub(te, te + im.h, 0).sub(le, le + im.w, 1);
	int bg[4];
	for (int c = 0; c < ch; ++c) bg[c] = c == 0 ? bgv : (int)r.in(0, 255);
	for (int y = 0; y < im.h; ++y) for (int x = 0; x < im.w; ++x) {
		u8* q = mat.ptr<u8>(y, 0) + x * ch;
		for (int c = 0; c < ch; ++c) q[c] = (u8)bg[c];
		if (im.at(x, y) != bgv) q[r.in(0, ch - 1)] ^= (u8)r.in(1, 255);
	}
	mt_scalar sc(bg[0], ch > 1 ? bg[1] : 0, ch > 2 ? bg[2] : 0, ch > 3 ? bg[3] : 0);
	img_multi_connected_components ccs;
	if (r.chance(1, 4)) { mt_mat other(5, 7, mt_U8C1); other.set(3); img_connected_component_helper::connect_component(ccs, other, mt_scalar(1), img_Connected_Type_8_Neibour); }	// the result object is used again
	img_connected_component_helper::connect_component(ccs, mat, sc, eight ? img_Connected_Type_8_Neibour : img_Connected_Type_4_Neibour);
	// the reference: flood fill
	std::vector<int> label((size_t)im.w * im.h, -1);
	std::vector<std::pair<int, uint64_t> > want;	// size, hash
	std::unordered_map<uint64_t, int> idx;
	std::vector<int> L, T, R, B;
	static const int dx[8] = {1, 0, -1, 0, 1, 1, -1, -1}, dy[8] = {0, 1, 0, -1, 1, -1, 1, -1};
	for (int i = 0; i < im.w * im.h; ++i) {
		if (label[i] >= 0 || im.v[i] == bgv) continue;
		int id = (int)want.size(); uint64_t h = 0; int n = 0, l = 1 << 30, rr = -1, t = 1 << 30, b = -1;
		std::vector<int> st(1, i); label[i] = id;
		while (!st.empty()) {
			int q = st.back(); st.pop_back(); int x = q % im.w, y = q / im.w; ++n; h += oracle::pix_hash(x, y);
			l = std::min(l, x); rr = std::max(rr, x); t = std::min(t, y); b = std::max(b, y);
			for (int d = 0; d < (eight ? 8 : 4); ++d) { int xx = x + dx[d], yy = y + dy[d]; if (xx < 0 || yy < 0 || xx >= im.w || yy >= im.h) continue; int z = yy * im.w + xx; if (label[z] < 0 && im.v[z] != bgv) { label[z] = id; st.push_back(z); } }
		}
		want.push_back(std::make_pair(n, h)); idx[h] = id; L.push_back(l); R.push_back(rr); T.push_back(t); B.push_back(b);
	}
	VH_CHECK(ccs.m_ccs.size() == want.size(), "component count", what + vh::fmt(": %zu expected %zu", ccs.m_ccs.size(), want.size()));
	std::vector<char> seen(want.size(), 0);
	for (size_t i = 0; i < ccs.m_ccs.size(); ++i) {
		img_connected_component& c = ccs.m_ccs[i];
		uint64_t h = 0; bool out = false;
		std::set<std::pair<int, int> > px;
		for (int j = 0; j < c.m_size; ++j) { h += oracle::pix_hash(c.m_points[j].m_x, c.m_points[j].m_y); px.insert(std::make_pair(c.m_points[j].m_x, c.m_points[j].m_y)); if (c.m_points[j].m_x < 0 || c.m_points[j].m_y < 0 || c.m_points[j].m_x >= im.w || c.m_points[j].m_y >= im.h) out = true; }
		VH_CHECK(!out && (int)px.size() == c.m_size, "component points", what);
		std::unordered_map<uint64_t, int>::iterator f = idx.find(h);
		VH_CHECK(f != idx.end(), "not a component", what + vh::fmt(" size %d", c.m_size));
		if (f == idx.end()) continue;
		VH_CHECK(!seen[f->second], "component repeated", what);
		seen[f->second] = 1;
		VH_CHECK(c.m_rect.m_left == L[f->second] && c.m_rect.m_top == T[f->second] && c.m_rect.m_width == R[f->second] - L[f->second] + 1 && c.m_rect.m_height == B[f->second] - T[f->second] + 1, "component rect",
			what + vh::fmt(" %d %d %d %d expected %d %d %d %d", c.m_rect.m_left, c.m_rect.m_top, c.m_rect.m_width, c.m_rect.m_height, L[f->second], T[f->second], R[f->second], B[f->second]));
		vh::stat("components");
	}
	if (want.size() > 1) vh::dist("nontrivial", vh::hash_str(what) ^ (want.size() * 31));
	// drawing them all gives back the foreground
	{
		std::vector<img_connected_component*> ptr;
		for (size_t i = 0; i < ccs.m_ccs.size(); ++i) ptr.push_back(&ccs.m_ccs[i]);
		bool gray = r.chance(1, 2);
		mt_mat d = img_connected_component_helper::image_from_connected_component(ptr, mt_rect(0, 0, im.w, im.h), mt_scalar(1, 2, 3, 4), mt_scalar(9, 8, 7, 6), gray);
		long wrong = 0;
		int dc = d.channel();
		for (int y = 0; y < im.h; ++y) for (int x = 0; x < im.w; ++x) for (int c = 0; c < dc; ++c) if (d.ptr<u8>(y, 0)[x * dc + c] != (im.at(x, y) != bgv ? 1 + c : 9 - c)) ++wrong;
		VH_CHECK(wrong == 0 && dc == (gray ? 1 : 3), "component drawing", what + vh::fmt(" %ld", wrong));
	}
	// some of them, drawn into a region of interest that cuts the picture
	if (r.chance(1, 2)) {
		mt_rect roi((i32)r.in(-3, im.w - 1), (i32)r.in(-3, im.h - 1), (i32)r.in(1, im.w + 3), (i32)r.in(1, im.h + 3));
		bool gray = r.chance(1, 2), ptrs = r.chance(1, 2); int some = (int)r.in(1, 3);
		std::vector<img_connected_component> v; std::vector<img_connected_component*> vp; std::vector<char> in((size_t)im.w * im.h, 0);
		for (size_t i = 0; i < ccs.m_ccs.size(); ++i) if (r.chance(1, some)) { img_connected_component c; c.init(ccs.m_ccs[i].m_points, ccs.m_ccs[i].m_size); c.m_rect = ccs.m_ccs[i].m_rect; v.push_back(c); vp.push_back(&ccs.m_ccs[i]); for (int j = 0; j < c.m_size; ++j) in[(size_t)c.m_points[j].m_y * im.w + c.m_points[j].m_x] = 1; }
		mt_mat d = ptrs ? img_connected_component_helper::image_from_connected_component(vp, roi, mt_scalar(1, 2, 3, 4), mt_scalar(9, 8, 7, 6), gray) : img_connected_component_helper::image_from_connected_component(v, roi, mt_scalar(1, 2, 3, 4), mt_scalar(9, 8, 7, 6), gray);
		int dc = d.channel(); long wrong = 0;
		VH_CHECK(dc == (gray ? 1 : 3) && d.dim() == 2 && d.size()[0] == roi.m_height && d.size()[1] == roi.m_width, "region drawing size", what);
		for (int y = 0; y < roi.m_height; ++y) for (int x = 0; x < roi.m_width; ++x) for (int c = 0; c < dc; ++c) { int xx = x + roi.m_left, yy = y + roi.m_top; bool fg = xx >= 0 && yy >= 0 && xx < im.w && yy < im.h && in[(size_t)yy * im.w + xx]; if (d.ptr<u8>(y, 0)[x * dc + c] != (fg ? 1 + c : 9 - c)) ++wrong; }
		VH_CHECK(wrong == 0, "region drawing", what + vh::fmt(" (%d, %d) %dx%d: %ld", roi.m_left, roi.m_top, roi.m_width, roi.m_height, wrong));
		vh::stat("region_drawings");
	}
	// copies of the whole list own what they need
	if (r.chance(1, 3)) {
		std::vector<std::vector<mt_point> > pts; std::vector<mt_rect> rects;
		for (size_t i = 0; i < ccs.m_ccs.size(); ++i) { pts.push_back(std::vector<mt_point>(ccs.m_ccs[i].m_points, ccs.m_ccs[i].m_points + ccs.m_ccs[i].m_size)); rects.push_back(ccs.m_ccs[i].m_rect); }
		std::vector<img_multi_connected_components> list;
		{
			img_multi_connected_components first;
			mt_mat other(4, 3, mt_U8C1); other.set(3);
			img_connected_component_helper::connect_component(first, other, mt_scalar(1), img_Connected_Type_8_Neibour);
			img_multi_connected_components second(ccs);
			if (r.chance(1, 2)) { first = second; list.push_back(first); } else list.push_back(second);
			list[0] = list[0];
			list.push_back(list[0]); list.push_back(first);
			if (r.chance(1, 2)) { list[2] = second; img_multi_connected_components third; list[1] = third; list[1] = list[2]; }
			// what the copies were made from changes and goes
			for (size_t i = 0; i < second.m_ccs.size(); ++i) for (int j = 0; j < second.m_ccs[i].m_size; ++j) second.m_ccs[i].m_points[j] = mt_point(-7, -7);
			img_connected_component_helper::connect_component(second, other, mt_scalar(1), img_Connected_Type_8_Neibour);
		}
		for (int q = 0; q < 2; ++q) {
			const img_multi_connected_components& cp = list[q];
			bool same = cp.m_ccs.size() == pts.size();
			for (size_t i = 0; same && i < pts.size(); ++i) {
				same = cp.m_ccs[i].m_size == (int)pts[i].size() && cp.m_ccs[i].m_rect.m_left == rects[i].m_left && cp.m_ccs[i].m_rect.m_top == rects[i].m_top && cp.m_ccs[i].m_rect.m_width == rects[i].m_width && cp.m_ccs[i].m_rect.m_height == rects[i].m_height;
				for (size_t j = 0; same && j < pts[i].size(); ++j) same = cp.m_ccs[i].m_points[j].m_x == pts[i][j].m_x && cp.m_ccs[i].m_points[j].m_y == pts[i][j].m_y;
			}
			VH_CHECK(same, "component list copy", what);
		}
		vh::stat("list_copies");
	}
	// copies own what they need
	if (!ccs.m_ccs.empty() && r.chance(1, 2)) {
		img_connected_component& c0 = ccs.m_ccs[(size_t)r.in(0, (int)ccs.m_ccs.size() - 1)];
		img_connected_component own; own.init(c0.m_size); own.m_rect = c0.m_rect;
		for (int j = 0; j < c0.m_size; ++j) own.m_points[j] = c0.m_points[j];
		std::vector<img_connected_component> v;
		for (int j = 0; j < 5; ++j) v.push_back(own);
		v.erase(v.begin());
		own.m_points[0] = mt_point(-5, -5);
		img_connected_component last; last = v[3]; v.clear();
		bool same = last.m_size == c0.m_size && last.m_rect.m_left == c0.m_rect.m_left && last.m_rect.m_height == c0.m_rect.m_height;
		for (int j = 0; same && j < c0.m_size; ++j) same = last.m_points[j].m_x == c0.m_points[j].m_x && last.m_points[j].m_y == c0.m_points[j].m_y;
		VH_CHECK(same, "component copy", what);
	}
}

// ---------------------------------------------------------------------------------------------------------------
// Components by any condition, under any mask, of any element type.
template <class T> struct Elem { static T make(Rng& r, int q) { return (T)r.in(0, q); } static bool near(const T& a, const T& b, int d) { return (a > b ? a - b : b - a) <= (T)d; } static mt_Depth_Channel type() { return mt_Depth_Channel(sizeof(T) == 1 ? mt_U8 : sizeof(T) == 2 ? mt_I16 : std::numeric_limits<T>::is_integer ? mt_I32 : mt_F32, 1); } };
template <> struct Elem<sys_array_type<u8, 3> > { typedef sys_array_type<u8, 3> T; static T make(Rng& r, int q) { f64 v[3] = {(f64)r.in(0, std::min(q, 2)), (f64)r.in(0, 1), 7}; return T(v); } static bool near(const T& a, const T& b, int) { return a == b; } static mt_Depth_Channel type() { return mt_Depth_Channel(mt_U8, 3); } };
template <class T> struct CondCC;
// the macros of the library need a class that is no template
#define COND_CC(T) \
template <> struct CondCC<T > : ml_connected_component_base<T > { \
	int d; CondCC() : d(0) {} \
	virtual void normal_extract(img_multi_connected_components& ccs, const mt_mat& image, const img_mask_info<T >& maskInfo = img_mask_info<T >(), img_Connected_Type connect_type = img_Connected_Type_8_Neibour) { \
		basicimg_cc_n_begin(); \
		connect_condition = Elem<T >::near(top_image_data->m_image_value, other_image_data->m_image_value, d); \
		basicimg_cc_n_end(); \
	} \
	void single(img_connected_component& cc, const mt_point& startPoint, const mt_mat& image, const img_mask_info<T >& maskInfo, img_Connected_Type connect_type) { \
		basicimg_cc_s_begin(); \
		connect_condition = Elem<T >::near(top_image_data->m_image_value, other_image_data->m_image_value, d); \
		basicimg_cc_s_end(); \
	} \
};
typedef sys_array_type<u8, 3> u8x3;
COND_CC(u8) COND_CC(i16) COND_CC(i32) COND_CC(f32) COND_CC(u8x3)
template <class T> static void masked_components_of(Rng& r, const char* type) {
	int h = (int)r.in(1, r.chance(1, 4) ? 40 : 12), w = (int)r.in(1, r.chance(1, 4) ? 40 : 12), q = (int)r.in(1, 5), d = (int)r.in(0, 2), mode = (int)r.in(0, 2); // mode: 0 all connect, 1 condition, 2 none
	bool eight = r.chance(1, 2); int mask = (int)r.in(0, 3);
	std::vector<T> v((size_t)w * h); for (size_t i = 0; i < v.size(); ++i) v[i] = Elem<T>::make(r, q);
	if (r.chance(1, 12)) std::fill(v.begin(), v.end(), v[0]);
	// a whole matrix, a part of a larger one, or memory whose rows are padded
	int layout = (int)r.in(0, 2), es = (int)sizeof(T); mt_mat mat; std::vector<u8> mem;
	if (layout == 0) mat = mt_mat(h, w, Elem<T>::type());
	else if (layout == 1) { int l = (int)r.in(0, 3), t = (int)r.in(0, 3); mt_mat big(h + t + (int)r.in(0, 2), w + l + (int)r.in(0, 3), Elem<T>::type()); mat = big.sub(t, t + h, 0).sub(l, l + w, 1); }
	else { int pad = es == 3 ? (int)r.in(0, 9) : es * (int)r.in(0, 3); mem.resize((size_t)h * (w * es + pad) + 8); std::vector<i32> sz(2), st(2); sz[0] = h; sz[1] = w; st[0] = w * es + pad; st[1] = es; mat = mt_mat(sz, Elem<T>::type(), &mem[0], st); }
	for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) memcpy(mat.data() + y * mat.step()[0] + x * mat.step()[1], &v[(size_t)y * w + x], es);
	std::vector<char> on((size_t)w * h, 1); img_mask_info<T> info;
	mt_mat mm_img; std::vector<u8> mmem;
	if (mask == 1) { int l = (int)r.in(0, w - 1), t = (int)r.in(0, h - 1), rw = (int)r.in(1, w - l), rh = (int)r.in(1, h - t); info = img_mask_info<T>(mt_rect(l, t, rw, rh)); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) on[(size_t)y * w + x] = x >= l && x < l + rw && y >= t && y < t + rh; }
	else if (mask == 2) {
		int den = (int)r.in(1, 6); bool none = r.chance(1, 10);
		mt_mat big(h + 2, w + 3, mt_U8C1); big.set(1); bool part = r.chance(1, 2); mm_img = part ? big.sub(1, 1 + h, 0).sub(2, 2 + w, 1) : mt_mat(h, w, mt_U8C1);
		for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { bool o = !none && r.chance(1, den); on[(size_t)y * w + x] = o; mm_img.data()[y * mm_img.step()[0] + x] = o ? 1 : 0; }
		info = img_mask_info<T>(mm_img);
	} else if (mask == 3) { T b = r.chance(7, 8) ? v[(size_t)r.in(0, (int)v.size() - 1)] : Elem<T>::make(r, 200); info = img_mask_info<T>(b); for (size_t i = 0; i < v.size(); ++i) on[i] = v[i] != b; }
	std::string what = vh::fmt("%s %dx%d mask %d mode %d difference %d conn %d layout %d", type, w, h, mask, mode, d, eight ? 8 : 4, layout);
	vh::note(what);
	CondCC<T> cond; cond.d = d; ml_connected_component_base<T> base;
	img_Connected_Type ct = eight ? img_Connected_Type_8_Neibour : img_Connected_Type_4_Neibour;
	img_multi_connected_components ccs;
	if (r.chance(1, 4)) base.ture_normal_extract(ccs, mat);	// the result object is used again
	if (mode == 0) base.ture_normal_extract(ccs, mat, info, ct); else if (mode == 1) cond.normal_extract(ccs, mat, info, ct); else base.normal_extract(ccs, mat, info, ct);
	static const int dx[8] = {1, 0, -1, 0, 1, 1, -1, -1}, dy[8] = {0, 1, 0, -1, 1, -1, 1, -1};
	std::vector<int> label((size_t)w * h, -1); std::vector<std::vector<int> > want;
	for (int i = 0; i < w * h; ++i) {
		if (!on[i] || label[i] >= 0) continue;
		int id = (int)want.size(); want.push_back(std::vector<int>(1, i)); label[i] = id;
		for (size_t k = 0; k < want[id].size(); ++k) {
			int a = want[id][k], x = a % w, y = a / w;
			for (int n = 0; n < (eight ? 8 : 4) && mode != 2; ++n) { int xx = x + dx[n], yy = y + dy[n]; if (xx < 0 || yy < 0 || xx >= w || yy >= h) continue; int z = yy * w + xx; if (on[z] && label[z] < 0 && (mode == 0 || Elem<T>::near(v[a], v[z], d))) { label[z] = id; want[id].push_back(z); } }
		}
		std::sort(want[id].begin(), want[id].end());
	}
	VH_CHECK(ccs.m_ccs.size() == want.size(), "masked component count", what + vh::fmt(": %zu expected %zu", ccs.m_ccs.size(), want.size()));
	std::vector<char> seen(want.size(), 0);
	for (size_t i = 0; i <= ccs.m_ccs.size(); ++i) {
		img_connected_component one; const img_connected_component* c;
		if (i < ccs.m_ccs.size()) c = &ccs.m_ccs[i];
		else { // the component of one pixel
			if (want.empty() || mode == 2) break;
			int id = (int)r.in(0, (int)want.size() - 1), a = want[id][(size_t)r.in(0, (int)want[id].size() - 1)];
			if (r.chance(1, 3)) one.init(3);
			if (mode == 0) base.ture_single_extract(one, mt_point(a % w, a / w), mat, info, ct); else cond.single(one, mt_point(a % w, a / w), mat, info, ct);
			c = &one; seen[id] = 0; vh::stat("single");
		}
		std::vector<int> px; bool out = false; int l = w, t = h, rr = -1, b = -1;
		for (int j = 0; j < c->m_size; ++j) { int x = c->m_points[j].m_x, y = c->m_points[j].m_y; if (x < 0 || y < 0 || x >= w || y >= h) { out = true; break; } px.push_back(y * w + x); l = std::min(l, x); rr = std::max(rr, x); t = std::min(t, y); b = std::max(b, y); }
		std::sort(px.begin(), px.end());
		VH_CHECK(!out && !px.empty(), "masked component points", what);
		if (out || px.empty()) return;
		int id = label[px[0]];
		VH_CHECK(id >= 0 && px == want[id], "not a masked component", what + vh::fmt(" of %d points at (%d, %d)", c->m_size, px[0] % w, px[0] / w));
		if (id < 0 || px != want[id]) return;
		VH_CHECK(!seen[id], "masked component repeated", what); seen[id] = 1;
		VH_CHECK(c->m_rect.m_left == l && c->m_rect.m_top == t && c->m_rect.m_width == rr - l + 1 && c->m_rect.m_height == b - t + 1, "masked component rect", what);
		vh::stat("masked_components");
	}
	vh::stat(vh::fmt("mask_%d", mask)); vh::stat(vh::fmt("condition_%d", mode));
	if (want.size() > 1) vh::dist("nontrivial", vh::hash_str(what) ^ (want.size() * 31));
}
static void masked_components(Rng& r, long) {
	switch (r.in(0, 4)) {
	case 0: masked_components_of<u8>(r, "u8"); break;
	case 1: masked_components_of<i16>(r, "i16"); break;
	case 2: masked_components_of<i32>(r, "i32"); break;
	case 3: masked_components_of<f32>(r, "f32"); break;
	default: masked_components_of<sys_array_type<u8, 3> >(r, "u8x3");
	}
}

// ---------------------------------------------------------------------------------------------------------------
// No combination of image and parameters makes an algorithm touch memory it does not own, hang, or leak.
static bool tiny_run(int alg, int threads, int w, int h) {
	Params p; p.min_point = 1; p.max_ratio = 1; p.stable = FLT_MAX; p.nms = -1; p.dup = -1;
	Image im(w, h);
	for (size_t i = 0; i < im.v.size(); ++i) im.v[i] = (u8)(i * 37);
	Result res = extract_fresh(alg, p, threads, im, PLAIN, NULL);
	return res.bad.empty();
}
static void hostile(Rng& r, long k) {
	if (k == 0) {
		// fixed: images with fewer pixels than partitions, each in a process of its own
		static const int th1[] = {2, 4, 8, 16, 32};
		for (int i = 0; i < 5; ++i) VH_CHECK(survives([&] { return tiny_run(V1, th1[i], 1, 1); }), vh::fmt("1x1 image fast_v1 threads %d", th1[i]), "an image with fewer columns or rows than partitions makes the parallel extraction fail");
		for (int i = 2; i < 5; i += 2) { int t = i == 2 ? 4 : 32; VH_CHECK(survives([&] { return tiny_run(V2, t, 1, 1); }), vh::fmt("1x1 image fast_v2 threads %d", t), "an image with fewer columns or rows than partitions makes the parallel extraction fail"); }
		VH_CHECK(survives([&] { return tiny_run(OPENCV3, 1, 2, 2); }), "2x2 image opencv3", "an image without interior pixels makes opencv3 fail");
		return;
	}
	int alg = (int)r.in(0, ALGS - 1);
	static const int th1[] = {1, 2, 4, 8, 16, 32}, th2[] = {1, 4, 32};
	int threads = alg == V1 ? r.pick(th1) : alg == V2 ? r.pick(th2) : 1;
	int kind;
	Image im;
	switch (r.in(0, 5)) {
	case 0: kind = (int)r.in(0, gen::KINDS - 1); im = gen::make(r, 1, (int)r.in(1, 600), kind); break;
	case 1: kind = (int)r.in(0, gen::KINDS - 1); im = gen::make(r, (int)r.in(1, 600), 1, kind); break;
	case 2: kind = 8; im = gen::make(r, (int)r.in(1, 90), (int)r.in(1, 90), 8); break;
	default: im = random_image(r, kind, 90);
	}
	Params p = gen::params(r);
	static const float odd[] = {0, -1, 1, 1e-30f, 1e30f, FLT_MAX, 100, 0.5f};
	static const int oddi[] = {0, 1, 2, 255, 256, 257, 1000, 1 << 20};
	if (r.chance(1, 3)) p.delta = r.pick(oddi);
	if (r.chance(1, 3)) p.stable = r.pick(odd);
	if (r.chance(1, 3)) p.nms = r.pick(odd);
	if (r.chance(1, 3)) p.dup = r.pick(odd);
	if (r.chance(1, 3)) p.min_point = r.chance(1, 2) ? r.pick(oddi) : -5;
	if (r.chance(1, 3)) p.max_ratio = r.chance(1, 2) ? 0.0f : 2.0f;
	p.conn = r.chance(1, 2) && threads == 1 ? 8 : 4;
	std::string what = ctx(alg, threads, p, im, kind);
	vh::note(what);
	if (k < 5) vh::sample(what);
	std::unique_ptr<img_mser_base> m(make(alg, p, threads));
	int n = (int)r.in(1, 3);
	img_multi_msers kept;
	for (int i = 0; i < n; ++i) {
		img_multi_msers own;
		img_multi_msers& raw = r.chance(1, 2) ? kept : own;	// a result object may be used again, what it held is released
		m->extract(raw, to_mat(im, (int)r.in(0, 1), &r));
		vh::stat("evaluations");
		vh::stat(vh::fmt("runs_%s", alg_name(alg)));
		if (alg != VLFEAT && alg != IDIAP) {
			Result res = decode(raw, im.w, im.h, false, false);	// reads every pixel that was reported
			VH_CHECK(res.bad.empty(), vh::fmt("malformed %s/%s %s", alg_name(alg), threads == 1 ? "serial" : "parallel", res.bad.substr(0, res.bad.find(':')).c_str()), what + " " + res.bad);
			vh::stat("regions", res.r[0].size() + res.r[1].size());
			if (i == 0) vh::dist("nontrivial", result_hash(res) ^ vh::hash_str(what));
		} else vh::dist("nontrivial", vh::hash_str(what));
		if (i + 1 < n && r.chance(1, 2)) im = random_image(r, kind, 60);
	}
}

// ---------------------------------------------------------------------------------------------------------------
// Instances used by different threads do not affect each other.
static void concurrent(Rng& r, long k) {
	static const int algs[] = {V1, V1, V2, LINEAR, MS, ORIGIN, OPENCV, OPENCV3, IDIAP, VLFEAT};
	if (k == 0) sys_alg_analyzer::init();
	int n = (int)r.in(2, 5);
	struct Job { int alg, threads; Params p; Result want; img_multi_msers got; };
	std::vector<Job> jobs(n);
	int kind;
	Image im = random_image(r, kind, 40, 8, 8);
	mt_mat mat = to_mat(im, (int)r.in(0, 1), &r);
	std::string what = vh::fmt("%dx%d %s:", im.w, im.h, gen::kind_name(kind));
	for (int i = 0; i < n; ++i) {
		Job& j = jobs[i];
		j.alg = r.pick(algs); j.p = gen::params(r); j.threads = j.alg == V1 && r.chance(1, 4) ? 2 : 1;
		if (r.chance(1, 2) && i > 0) { j.alg = jobs[0].alg; j.threads = jobs[0].threads; }
		what += vh::fmt(" %s/%d", alg_name(j.alg), j.threads);
		std::unique_ptr<img_mser_base> m(make(j.alg, j.p, j.threads));
		img_multi_msers raw; m->extract(raw, mat);
		if (j.alg != IDIAP && j.alg != VLFEAT) j.want = decode(raw, im.w, im.h, false, false);
	}
	vh::note(what);
	if (k < 4) vh::sample(what);
	std::vector<std::thread> ts;
	std::atomic<int> go(0);
	for (int i = 0; i < n; ++i) {
		Job* j = &jobs[i];
		ts.push_back(std::thread([j, &mat, &go, n] {
			go.fetch_add(1, std::memory_order_relaxed);
			while (go.load(std::memory_order_relaxed) < n) sched_yield();
			std::unique_ptr<img_mser_base> m(make(j->alg, j->p, j->threads));
			for (int q = 0; q < 2; ++q) m->extract(j->got, mat);
		}));
	}
	for (int i = 0; i < n; ++i) ts[i].join();
	for (int i = 0; i < n; ++i) {
		Job& j = jobs[i];
		if (j.alg == IDIAP || j.alg == VLFEAT) continue;
		Result got = decode(j.got, im.w, im.h, false, false);
		std::string why;
		VH_CHECK(compare(j.want, got, why), vh::fmt("concurrent %s", alg_name(j.alg)), what + " " + why);
	}
	vh::stat("threads_run", n);
	vh::dist("nontrivial", vh::hash_str(what) ^ k);
}
