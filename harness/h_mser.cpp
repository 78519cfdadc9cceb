// modules: basiclog basicsys basicmath basicimg
// MSER extraction: monitors over what the real algorithms return, against the definition in mser_oracle.h.
#include "mser_run.h"
#include <img_mser_helper.h>
#include <img_mser_result.h>
#include <sched.h>
#include <dirent.h>
#include <sys/wait.h>
using namespace run;
using vh::Rng;

static std::string ctx(int alg, int threads, const Params& p, const Image& im, int kind) {
	return vh::fmt("%s threads=%d %dx%d %s ", alg_name(alg), threads, im.w, im.h, gen::kind_name(kind)) + p.str();
}

static bool small_only() { static bool v = getenv("VERIF_SMALL") != NULL; return v; }	// under memcheck, which is slow
static Image random_image(Rng& r, int& kind, int maxdim, int minw = 1, int minh = 1) {
	if (small_only()) maxdim = std::min(maxdim, 32);
	kind = (int)r.in(0, gen::KINDS - 1);
	int w, h;
	switch (r.in(0, 9)) {
	case 0: w = (int)r.in(1, 6); h = (int)r.in(1, 6); break;
	case 1: w = (int)r.in(1, 3); h = (int)r.in(1, maxdim); break;
	case 2: w = (int)r.in(1, maxdim); h = (int)r.in(1, 3); break;
	case 3: case 4: case 5: w = (int)r.in(4, 24); h = (int)r.in(4, 24); break;
	default: w = (int)r.in(8, maxdim); h = (int)r.in(8, maxdim); break;
	}
	if (maxdim > 40 && r.chance(1, 90)) { w = (int)r.in(1, 5); h = (int)r.in(200, 4000); if (r.chance(1, 2)) std::swap(w, h); vh::stat("long_images"); }	// coordinates of many bits
	if (maxdim > 56 && r.chance(1, 500)) { w = (int)r.in(1, 3); h = r.chance(1, 2) ? (int)r.in(32760, 34000) : (int)r.in(65530, 68000); if (r.chance(1, 2)) std::swap(w, h); vh::stat("ribbons"); }	// coordinates of 16 bits and more
	if (maxdim > 40 && r.chance(1, 400)) { w = (int)r.in(90, 320); h = (int)r.in(90, 320); vh::stat("sizeable_images"); }
	if (maxdim > 40 && r.chance(1, 6000)) { w = (int)r.in(1000, 1100); h = (1 << 20) / w + (int)r.in(1, 30); vh::stat("huge_images"); }
	return gen::make(r, std::max(w, minw), std::max(h, minh), kind);
}

// More pixels (and, mostly, regions) than 20 bits count.
static Image huge_image(Rng& r, int& kind) {
	kind = (int)r.in(0, gen::KINDS - 1); vh::stat("huge_images");
	int w = (int)r.in(1000, 1300); return gen::make(r, w, (1 << 20) / w + (int)r.in(1, 40), kind);
}

// Compares a result with the definition.
static void check_against(const Result& res, const Image& im, Params p, int alg, int threads, const std::string& what, const std::vector<uint8_t>* mask = NULL, const bool* enabled = NULL) {
	std::string a = vh::fmt("%s/%s", alg_name(alg), threads == 1 ? "serial" : "parallel");
	VH_CHECK(res.bad.empty(), "malformed " + a + " " + res.bad.substr(0, res.bad.find(':')), what + " " + res.bad);
	if (!res.bad.empty()) return;
	long all = 0;
	uint64_t sig = 0;
	for (int c = 0; c < 2; ++c) {
		if (enabled != NULL && !enabled[c]) {
			VH_CHECK(res.r[c].empty(), "disabled-channel " + a, what);
			continue;
		}
		oracle::Tree t;
		t.build(im, c ? 255 : 0, p.conn, mask);
		t.select(p, im.w, im.h);
		vh::stat("tree_nodes", t.nodes.size());
		std::vector<char> seen(t.nodes.size(), 0);
		long expected = 0;
		for (size_t i = 0; i < t.nodes.size(); ++i) expected += t.nodes[i].flag == 2;
		for (size_t i = 0; i < res.r[c].size(); ++i) {
			const Region& g = res.r[c][i];
			std::unordered_map<uint64_t, int>::iterator f = t.by_hash.find(g.hash);
			VH_CHECK(f != t.by_hash.end(), "not-extremal " + a, what + vh::fmt(" channel %d size %d gray %d", c, g.size, g.gray));
			if (f == t.by_hash.end()) continue;
			oracle::Node& n = t.nodes[f->second];
			VH_CHECK(!seen[f->second], "repeated-region " + a, what + vh::fmt(" channel %d size %d", c, g.size));
			seen[f->second] = 1;
			VH_CHECK(n.flag == 2, "extra " + a, what + vh::fmt(" channel %d size %d gray %d var %g", c, g.size, g.gray, n.var));
			VH_CHECK((n.level ^ (c ? 255 : 0)) == g.gray, "gray-level " + a, what + vh::fmt(" channel %d size %d gray %d expected %d", c, g.size, g.gray, n.level ^ (c ? 255 : 0)));
			VH_CHECK(n.left == g.left && n.top == g.top && n.right - n.left + 1 == g.width && n.bottom - n.top + 1 == g.height, "rect " + a,
				what + vh::fmt(" channel %d size %d rect %d %d %d %d expected %d %d %d %d", c, g.size, g.left, g.top, g.width, g.height, n.left, n.top, n.right - n.left + 1, n.bottom - n.top + 1));
			vh::dist("regions", g.hash);
			vh::stat(vh::fmt("memory_type_%d", g.type));
			sig += vh::mix(g.hash + c);
		}
		for (size_t i = 0; i < t.nodes.size(); ++i) if (t.nodes[i].flag == 2) VH_CHECK(seen[i], "missing " + a, what + vh::fmt(" channel %d size %d level %d", c, t.nodes[i].size, t.nodes[i].level));
		vh::stat("regions_expected", expected);
		vh::stat("regions_reported", (long)res.r[c].size());
		if (expected > vh::st().stats["max_regions_of_one_image"]) vh::st().stats["max_regions_of_one_image"] = expected;
		all += expected;
	}
	if (all > 0) vh::dist("nontrivial", sig ^ vh::hash_str(what));
}

static bool compare(const Result& a, const Result& b, std::string& why) {
	if (!a.bad.empty() || !b.bad.empty()) { why = "malformed: " + a.bad + " / " + b.bad; return false; }
	for (int c = 0; c < 2; ++c) {
		if (a.r[c].size() != b.r[c].size()) { why = vh::fmt("channel %d: %zu regions against %zu", c, a.r[c].size(), b.r[c].size()); return false; }
		if (signature(a, c) != signature(b, c)) { why = vh::fmt("channel %d: the regions differ", c); return false; }
	}
	return true;
}

static uint64_t result_hash(const Result& a) {
	uint64_t h = 1;
	for (int c = 0; c < 2; ++c) { std::vector<uint64_t> s = signature(a, c); h = vh::hash_mem(s.data(), s.size() * 8, h + c); }
	return h;
}

// Runs f in a child process; true when it ended normally with 0.
template <class F> static bool survives(F f) {
	fflush(stdout); fflush(stderr);
	pid_t pid = fork();
	if (pid == 0) {
		int dn = open("/dev/null", O_WRONLY);
		dup2(dn, 1); dup2(dn, 2);
		alarm(60);
		_exit(f() ? 0 : 1);
	}
	int st = 0;
	waitpid(pid, &st, 0);
	return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}

static void use_cpus(Rng& r) {
	cpu_set_t set; CPU_ZERO(&set);
	int n = (int)sysconf(_SC_NPROCESSORS_ONLN);
	int k = r.chance(1, 3) ? 1 : r.chance(1, 2) ? 2 : n;
	for (int i = 0; i < k; ++i) CPU_SET((int)r.in(0, n - 1), &set);
	if (k == n) for (int i = 0; i < n; ++i) CPU_SET(i, &set);
	DIR* d = opendir("/proc/self/task");
	if (d == NULL) return;
	while (dirent* e = readdir(d)) if (e->d_name[0] != '.') sched_setaffinity(atoi(e->d_name), sizeof set, &set);
	closedir(d);
	vh::dist("cpu_counts", k);
}

// ---------------------------------------------------------------------------------------------------------------
// The serial algorithms report exactly the MSERs of the definition.
static void serial_case(Rng& r, long k, const int* algs, int nalgs, int conn) {
	int alg = algs[r.in(0, nalgs - 1)];
	bool big = k % 97 == 11 && !small_only();
	int kind;
	Image im;
	if (big) { kind = (int)r.in(0, gen::KINDS - 1); im = gen::make(r, (int)r.in(150, vh::st().thorough ? 900 : 360), (int)r.in(150, vh::st().thorough ? 900 : 360), kind); vh::stat("large_images"); }
	else if (k / 8 % 100 == 40 && !small_only()) im = huge_image(r, kind);
	else im = random_image(r, kind, 80);
	Params p = gen::params(r);
	p.conn = conn ? conn : (r.chance(1, 2) ? 4 : 8);
	std::string what = ctx(alg, 1, p, im, kind);
	vh::note(what);
	if (k < 4) vh::sample(what);
	Result res = extract_fresh(alg, p, 1, im, (int)r.in(0, 1), &r);
	p.small_in_nms = alg != V1; p.root_allowed = alg == ORIGIN;
	vh::stat(std::string("runs_") + alg_name(alg));
	check_against(res, im, p, alg, 1, what);
}
static void serial_fast(Rng& r, long k) { static const int a[] = {V1, V2}; serial_case(r, k, a, 2, 0); }
static void serial_reference(Rng& r, long k) { static const int a[] = {LINEAR, MS, ORIGIN}; serial_case(r, k, a, 3, 0); }

// ---------------------------------------------------------------------------------------------------------------
// The parallel algorithms report the same, whatever the number of threads and the schedule.
static bool known_8conn(int alg, int threads) {
	// a dark diagonal that crosses the middle of the image: one region with 8-connectivity
	Image im(32, 32);
	for (size_t i = 0; i < im.v.size(); ++i) im.v[i] = 200;
	for (int i = 4; i < 28; ++i) im.at(i, i) = 10;
	Params p; p.conn = 8; p.delta = 1; p.stable = FLT_MAX; p.nms = -1; p.dup = -1; p.min_point = 1; p.max_ratio = 0.9f;
	Result res = extract_fresh(alg, p, threads, im, PLAIN, NULL);
	if (!res.bad.empty()) return false;
	return res.r[0].size() == 1 && res.r[0][0].size == 24;
}
static void parallel_fixed(Rng&, long) {
	static const int v1[] = {2, 4, 8, 16, 32}, v2[] = {4, 32};
	for (int i = 0; i < 5; ++i) VH_CHECK(survives([&] { return known_8conn(V1, v1[i]); }), vh::fmt("8-connected diagonal fast_v1 threads %d", v1[i]), "a diagonal of 24 pixels across the block borders is not reported as one 8-connected region");
	for (int i = 0; i < 2; ++i) VH_CHECK(survives([&] { return known_8conn(V2, v2[i]); }), vh::fmt("8-connected diagonal fast_v2 threads %d", v2[i]), "a diagonal of 24 pixels across the block borders is not reported as one 8-connected region");
}
static void parallel_exact(Rng& r, long k) {
	if (k == 0) { parallel_fixed(r, k); return; }
	static const int th1[] = {2, 4, 8, 16, 32}, th2[] = {4, 32};
	int alg = r.chance(1, 2) ? V1 : V2;
	int threads = alg == V1 ? r.pick(th1) : r.pick(th2);
	bool big = k % 61 == 7 && !small_only();
	int kind;
	Image im;
	if (big) { kind = (int)r.in(0, gen::KINDS - 1); im = gen::make(r, (int)r.in(150, vh::st().thorough ? 900 : 360), (int)r.in(150, vh::st().thorough ? 900 : 360), kind); vh::stat("large_images"); }
	else if (k / 8 % 100 == 40 && !small_only()) im = huge_image(r, kind);
	else im = random_image(r, kind, 80);
	Params p = gen::params(r);
	std::string what = ctx(alg, threads, p, im, kind);
	vh::note(what);
	if (k < 5) vh::sample(what);
	use_cpus(r);
	std::unique_ptr<img_mser_base> m(make(alg, p, threads));
	mt_mat mat = to_mat(im, (int)r.in(0, 1), &r);
	Result res = extract(m.get(), alg, threads, im, mat);
	p.small_in_nms = alg != V1;
	vh::stat(vh::fmt("runs_%s_%d", alg_name(alg), threads));
	check_against(res, im, p, alg, threads, what);
	if (r.chance(1, 4)) {
		// another schedule of the same work
		use_cpus(r);
		Result again = extract(m.get(), alg, threads, im, mat);
		std::string why;
		VH_CHECK(compare(res, again, why), vh::fmt("schedule-dependent %s", alg_name(alg)), what + " " + why);
	}
}

// The same under ThreadSanitizer: races inside one extraction.
static void parallel_race(Rng& r, long k) {
	static const int th1[] = {2, 4, 8, 16, 32}, th2[] = {4, 32};
	int alg = k % 2 ? V1 : V2;
	int threads = alg == V1 ? r.pick(th1) : r.pick(th2);
	int kind;
	Image im = random_image(r, kind, 70, 8, 8);
	Params p = gen::params(r);
	std::string what = ctx(alg, threads, p, im, kind);
	vh::note(what);
	if (k < 4) vh::sample(what);
	Result res = extract_fresh(alg, p, threads, im, PLAIN, &r);
	vh::stat("evaluations");
	vh::stat(vh::fmt("runs_%s_%d", alg_name(alg), threads));
	vh::dist("nontrivial", result_hash(res) ^ vh::hash_str(what));
}

// ---------------------------------------------------------------------------------------------------------------
// The ported third-party algorithms select by their own rules, but report true extremal regions only.
static void third_party(Rng& r, long k) {
	static const int algs[] = {OPENCV, OPENCV3, VLFEAT};
	int alg = r.pick(algs), kind;
	Image im = random_image(r, kind, 70);
	if (k % 97 == 11 && !small_only()) im = gen::make(r, (int)r.in(100, 300), (int)r.in(100, 300), kind);
	Params p = gen::params(r);
	p.conn = r.chance(1, 2) && alg == VLFEAT ? 8 : 4;	// the two opencv ones know four neighbours only
	std::string what = ctx(alg, 1, p, im, kind);
	vh::note(what);
	if (k < 4) vh::sample(what);
	std::unique_ptr<img_mser_base> m(make(alg, p, 1));
	mt_mat mat = to_mat(im, (int)r.in(0, 1), &r);
	vh::stat(std::string("runs_") + alg_name(alg));
	int max_point = (int)(p.max_ratio * im.h * im.w);
	long total = 0;
	img_multi_msers raw;
	m->extract(raw, mat);
	if (alg == VLFEAT) {
		for (int c = 0; c < 2; ++c) {
			oracle::Tree t; t.build(im, c ? 255 : 0, p.conn);
			std::multiset<std::pair<int, int> > have;
			for (size_t i = 0; i < t.nodes.size(); ++i) have.insert(std::make_pair(t.nodes[i].size, t.nodes[i].level ^ (c ? 255 : 0)));
			for (size_t i = 0; i < raw.m_msers[c].size(); ++i) {
				std::multiset<std::pair<int, int> >::iterator f = have.find(std::make_pair((int)raw.m_msers[c][i].m_size, (int)raw.m_msers[c][i].m_gray_level));
				VH_CHECK(f != have.end(), "not-extremal vlfeat", what + vh::fmt(" channel %d size %d gray %d", c, raw.m_msers[c][i].m_size, raw.m_msers[c][i].m_gray_level));
				if (f != have.end()) have.erase(f);
				++total;
			}
		}
	} else {
		Result res = decode(raw, im.w, im.h, false, true);
		VH_CHECK(res.bad.empty(), std::string("malformed ") + alg_name(alg) + " " + res.bad.substr(0, res.bad.find(':')), what + " " + res.bad);
		if (res.bad.empty()) for (int c = 0; c < 2; ++c) {
			// opencv3 leaves out the outermost pixels
			int b = alg == OPENCV3 ? 1 : 0;
			Image in(std::max(0, im.w - 2 * b), std::max(0, im.h - 2 * b));
			for (int y = 0; y < in.h; ++y) for (int x = 0; x < in.w; ++x) in.at(x, y) = im.at(x + b, y + b);
			oracle::Tree t; t.build(in, c ? 255 : 0, p.conn);
			for (size_t i = 0; i < res.r[c].size(); ++i) {
				const Region& g = res.r[c][i];
				uint64_t h = 0; int l = 1 << 30, rr = -1, tt = 1 << 30, bb = -1;
				for (size_t j = 0; j < g.px.size(); ++j) { int x = g.px[j] % im.w, y = g.px[j] / im.w; h += oracle::pix_hash(x - b, y - b); l = std::min(l, x); rr = std::max(rr, x); tt = std::min(tt, y); bb = std::max(bb, y); }
				if (alg == OPENCV) {
					// joins may leave a part of an extremal region; what remains lies in one component of the pixels up to the level that is reported
					std::vector<char> in((size_t)im.w * im.h, 0);
					for (size_t j = 0; j < in.size(); ++j) in[j] = c == 0 ? im.v[j] <= g.gray : im.v[j] >= g.gray;
					long beyond = 0, apart = 0;
					for (size_t j = 0; j < g.px.size(); ++j) beyond += !in[g.px[j]];
					VH_CHECK(beyond == 0, "level opencv", what + vh::fmt(" channel %d size %d gray %d: %ld pixels beyond", c, g.size, g.gray, beyond));
					std::vector<int> st(1, g.px[0]);
					in[g.px[0]] = 0;
					while (!st.empty()) {
						int q = st.back(), x = q % im.w, y = q / im.w; st.pop_back();
						static const int dx[4] = {1, 0, -1, 0}, dy[4] = {0, 1, 0, -1};
						for (int d = 0; d < 4; ++d) { int xx = x + dx[d], yy = y + dy[d]; if (xx < 0 || yy < 0 || xx >= im.w || yy >= im.h) continue; if (in[yy * im.w + xx]) { in[yy * im.w + xx] = 0; st.push_back(yy * im.w + xx); } }
					}
					for (size_t j = 0; j < g.px.size(); ++j) apart += in[g.px[j]];
					VH_CHECK(apart == 0, "not one component opencv", what + vh::fmt(" channel %d size %d gray %d: %ld apart", c, g.size, g.gray, apart));
				} else {
				std::unordered_map<uint64_t, int>::iterator f = t.by_hash.find(h);
				VH_CHECK(f != t.by_hash.end(), std::string("not-extremal ") + alg_name(alg), what + vh::fmt(" channel %d size %d gray %d", c, g.size, g.gray));
				}
				VH_CHECK(g.size >= p.min_point && g.size <= max_point, std::string("size ") + alg_name(alg), what + vh::fmt(" channel %d size %d max %d", c, g.size, max_point));
				VH_CHECK(g.left == l && g.top == tt && g.width == rr - l + 1 && g.height == bb - tt + 1, std::string("rect ") + alg_name(alg), what + vh::fmt(" channel %d size %d: %d %d %d %d", c, g.size, g.left, g.top, g.width, g.height));
				++total;
			}
		}
	}
	vh::stat(std::string("regions_") + alg_name(alg), total);
	if (total > 0) vh::dist("nontrivial", vh::hash_str(what));
}

#include "h_mser2.h"

int main(int argc, char** argv) {
	std::vector<vh::Prop> props;
	props.push_back({"serial_fast", serial_fast});
	props.push_back({"serial_reference", serial_reference});
	props.push_back({"parallel_exact", parallel_exact});
	props.push_back({"parallel_race", parallel_race});
	props.push_back({"third_party", third_party});
	props.push_back({"history", history});
	props.push_back({"results", results});
	props.push_back({"masks", masks});
	props.push_back({"components", components});
	props.push_back({"masked_components", masked_components});
	props.push_back({"hostile", hostile});
	props.push_back({"concurrent", concurrent});
	return vh::run_main(argc, argv, props, run::setup);
}
