// modules: basiclog basicsys basicmath
// mt_mat against a reference model: a view is a list of cell numbers, cells live in stores that views share.
#include "vh.h"
#include "all_math.h"
#include "mat_model.h"
#include <memory>
#include <thread>
#include <atomic>

using namespace mm;

#include "mat_world.h"
// ---------------------------------------------------------------- sequences of operations on a pool of views


static void prop_views(Rng& r, long) {
	clear_log();
	World w(r);
	w.new_base();
	int ops = w.giant ? 8 : (int)r.in(12, vh::st().thorough ? 90 : 45);
	for (int i = 0; i < ops && !w.bad; ++i) {
		int k = (int)r.in(0, 99);
		if (k < 10 || w.pool.empty()) w.new_base();
		else if (k < 52) w.view_op();
		else if (k < 72) w.write_op();
		else if (k < 82) w.copy_op();
		else if (k < 91) w.query_op();
		else w.handle_op();
	}
	if (!w.bad && !w.pool.empty()) { uint64_t h = 1; for (size_t i = 0; i < w.pool.size(); ++i) { const View& v = w.pool[i]; h = vh::mix(h ^ vh::hash_str(describe(v))); for (int j = 0; j < v.dims(); ++j) h = vh::mix(h + v.m.step()[j]); vh::dist("nontrivial", layout_hash(v)); } vh::dist("states", h); }
	vh::sample(w.trace.substr(0, 400));
}

// Copies, fills, comparisons and conversions: many layouts, fewer steps.
static void prop_content(Rng& r, long) {
	clear_log();
	World w(r);
	int ops = w.giant ? 8 : (int)r.in(12, vh::st().thorough ? 90 : 45);
	w.new_base();
	for (int i = 0; i < ops && !w.bad; ++i) {
		int k = (int)r.in(0, 99);
		if (k < 8 || w.pool.empty()) w.new_base();
		else if (k < 28) w.view_op();
		else if (k < 58) w.write_op();
		else if (k < 76) w.copy_op();
		else if (k < 97) w.query_op();
		else w.handle_op();
	}
	for (size_t i = 0; i < w.pool.size(); ++i) vh::dist("nontrivial", layout_hash(w.pool[i]));
	vh::sample(w.trace.substr(0, 400));
}

// Handles: many copies, drops and assignments; memory lives exactly as long as it is used.
static void prop_lifetime(Rng& r, long) {
	clear_log();
	std::unique_ptr<mt_auto_mat_cache> cache;
	World w(r);
	i64 limit = mt_mat_cache::get_memory_size();
	if (r.chance(1, 3)) { cache.reset(new mt_auto_mat_cache()); w.cached = true; if (r.chance(1, 2)) mt_mat_cache::set_memory_size((i64)r.in(0, 2000)); vh::stat("with_cache"); }
	int ops = w.giant ? 8 : (int)r.in(20, vh::st().thorough ? 120 : 60);
	w.new_base();
	for (int i = 0; i < ops && !w.bad; ++i) {
		int k = (int)r.in(0, 99);
		if (k < 8 || w.pool.empty()) w.new_base();
		else if (k < 35) w.view_op();
		else if (k < 45) w.write_op();
		else if (k < 55) w.copy_op();
		else w.handle_op();
	}
	if (cache) { mt_mat_cache::set_memory_size(limit); cache.reset(); w.cached = false; if (!w.bad) w.check_all("cache_end"); }
	for (size_t i = 0; i < w.pool.size(); ++i) vh::dist("nontrivial", layout_hash(w.pool[i]));
	vh::sample(w.trace.substr(0, 400));
}

// Several threads make, copy and drop views of the same matrices, with and without the matrix cache.
static void prop_handles_race(Rng& r, long) {
	clear_log();
	const int T = 4;
	std::vector<mt_mat> shared;
	for (int i = 0; i < 3; ++i) { mt_mat m((int)r.in(2, 6), (int)r.in(2, 6), mt_Depth_Channel(mt_I32, (int)r.in(1, 3)), (double)(i + 1)); shared.push_back(m); }
	std::vector<uint64_t> seeds; for (int t = 0; t < T; ++t) seeds.push_back(r.next());
	std::atomic<int> wrong(0), done(0);
	std::atomic<bool> go(false);
	bool cache = r.chance(1, 2);
	std::vector<std::thread> th;
	for (int t = 0; t < T; ++t) th.push_back(std::thread([&, t]() {
		Rng q(seeds[t]);
		while (!go.load()) {}
		std::vector<mt_mat> mine;
		mt_auto_mat_cache* c = cache && t % 2 == 0 ? new mt_auto_mat_cache() : NULL;
		for (int k = 0; k < 60; ++k) {
			int s = (int)q.in(0, 2);
			mt_mat v = shared[s];
			switch (q.in(0, 6)) {
			case 0: v = v.index((int)q.in(0, v.size()[0] - 1)); break;
			case 1: v = v.flip_all_dim(); break;
			case 2: v = v.t(); break;
			case 3: v = v.reshape_2d(1, v.element_number()); break;
			case 4: v = v.channel_at((int)q.in(0, v.channel() - 1)); break;
			case 5: v = v.clone(); break;
			default: v = v.increase_dim(0); break;
			}
			std::vector<double> vals; std::vector<int> idx(v.dim(), 0);
			const mt_mat& cv = v; cv.get(vals, v.dim(), &idx[0]);
			if (vals[0] != s + 1) ++wrong;
			mt_mat own((int)q.in(1, 3), 4, mt_F64C1, (double)t);
			own.set((double)(t * 1000 + k));
			mine.push_back(q.chance(1, 2) ? v : own);
			if (q.chance(1, 3)) sched_yield();
			const mt_mat& co = own; std::vector<double> o; int z[] = {0, 3}; co.get(o, 2, z);
			if (o[0] != t * 1000 + k) ++wrong;
			if (mine.size() > 5) mine.erase(mine.begin() + q.next() % mine.size());
		}
		mine.clear();
		delete c;
		++done;
	}));
	go.store(true);
	for (int t = 0; t < T; ++t) th[t].join();
	VH_CHECK(wrong.load() == 0, "value", "a thread read a value that nobody wrote there");
	for (int i = 0; i < 3; ++i) VH_CHECK(shared[i].reference_number() == 1, "reference_number", vh::fmt("%d references are left of 1", shared[i].reference_number()));
	VH_CHECK(log_lines() == 0, "logged", last_log());
	vh::stat("thread_runs", T);
	vh::stat(cache ? "with_cache" : "without_cache");
	vh::dist("nontrivial", seeds[0]);
}

int main(int argc, char** argv) {
	std::vector<vh::Prop> props;
	vh::Prop p[] = {{"views", prop_views}, {"content", prop_content}, {"lifetime", prop_lifetime}, {"handles_race", prop_handles_race}};
	for (size_t i = 0; i < sizeof p / sizeof p[0]; ++i) props.push_back(p[i]);
	return vh::run_main(argc, argv, props, setup_log, teardown_log);
}
