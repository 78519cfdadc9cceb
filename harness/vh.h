// Shared by all harnesses: deterministic case generation, violation reporting, coverage counters, replay support.
//
//   h_xxx <property> --seed S --cases N --shard i/n [--only k] [--tier quick|thorough] [--progress FILE]
//
// Case k of a property depends on (seed, property, k) alone, so that "--only k" replays it.
// Output lines (tab separated):
//   VIOL <property> <case> <key> <detail>
//   STAT <name> <value>            summed over shards
//   DIST <name> <hash>             distinct values are united over shards
//   SAMPLE <text>
#pragma once
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <algorithm>
#include <functional>

namespace vh {

inline uint64_t mix(uint64_t x) {
	x += 0x9e3779b97f4a7c15ull;
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
	x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
	return x ^ (x >> 31);
}

inline uint64_t hash_str(const std::string& s, uint64_t h = 1469598103934665603ull) {
	for (size_t i = 0; i < s.size(); ++i) { h ^= (unsigned char)s[i]; h *= 1099511628211ull; }
	return h;
}

inline uint64_t hash_mem(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
	const unsigned char* c = (const unsigned char*)p;
	for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
	return h;
}

struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed = 1) : s(mix(seed)) {}
	uint64_t next() { s += 0x9e3779b97f4a7c15ull; uint64_t x = s; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
	// uniform in [lo, hi]
	int64_t in(int64_t lo, int64_t hi) { return lo + (int64_t)(next() % (uint64_t)(hi - lo + 1)); }
	bool chance(int num, int den) { return (int)(next() % den) < num; }
	double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
	template <class T, size_t N> T pick(const T (&a)[N]) { return a[next() % N]; }
	template <class T> const T& pickv(const std::vector<T>& a) { return a[next() % a.size()]; }
};

struct State {
	std::string prop;
	uint64_t seed;
	long cases;
	long only;
	int shard, shards;
	bool thorough;
	long cur;
	long viol_total;
	std::map<std::string, long> viol_by_key;
	std::map<std::string, long long> stats;
	std::map<std::string, std::unordered_set<uint64_t> > dist;
	std::vector<std::string> samples;
	char* progress;
	State() : seed(1), cases(0), only(-1), shard(0), shards(1), thorough(false), cur(-1), viol_total(0), progress(NULL) {}
};

inline State& st() { static State s; return s; }

inline std::string fmt(const char* f, ...) {
	char buf[4096];
	va_list ap;
	va_start(ap, f);
	vsnprintf(buf, sizeof buf, f, ap);
	va_end(ap);
	return buf;
}

// What the current case is doing, kept in a memory-mapped file so that a crash or hang can be attributed.
inline void note(const std::string& what) {
	State& s = st();
	if (s.progress != NULL) {
		snprintf(s.progress, 4000, "%ld\t%s\n", s.cur, what.c_str());
	}
}

inline std::string clean(std::string s) {
	for (size_t i = 0; i < s.size(); ++i) if (s[i] == '\n' || s[i] == '\t' || s[i] == '\r' || s[i] == 0) s[i] = ' ';
	return s;
}

inline void viol(const std::string& key, const std::string& detail) {
	State& s = st();
	++s.viol_total;
	long n = ++s.viol_by_key[key];
	if (n <= 3) {
		printf("VIOL\t%s\t%ld\t%s\t%s\n", s.prop.c_str(), s.cur, clean(key).c_str(), clean(detail).substr(0, 1500).c_str());
		fflush(stdout);
	}
}

inline void stat(const std::string& name, long long n = 1) { st().stats[name] += n; }
inline void dist(const std::string& name, uint64_t h) {
	std::unordered_set<uint64_t>& d = st().dist[name];
	if (d.size() < 200000) d.insert(h);
}
inline void sample(const std::string& text) { if (st().samples.size() < 6) st().samples.push_back(text); }

// Evaluates an expectation: counts it, and reports when it fails.
#define VH_CHECK(cond, key, detail) do { vh::stat("evaluations"); if (!(cond)) { vh::viol(key, detail); } } while (0)

struct Prop { const char* id; void (*run)(Rng&, long); };

inline int run_main(int argc, char** argv, const std::vector<Prop>& props, void (*setup)() = NULL, void (*teardown)() = NULL) {
	State& s = st();
	if (argc < 2) { fprintf(stderr, "usage\n"); return 3; }
	s.prop = argv[1];
	const char* prog = NULL;
	for (int i = 2; i < argc; ++i) {
		std::string a = argv[i];
		if (a == "--seed") s.seed = strtoull(argv[++i], NULL, 10);
		else if (a == "--cases") s.cases = atol(argv[++i]);
		else if (a == "--only") s.only = atol(argv[++i]);
		else if (a == "--shard") { sscanf(argv[++i], "%d/%d", &s.shard, &s.shards); }
		else if (a == "--tier") s.thorough = std::string(argv[++i]) == "thorough";
		else if (a == "--progress") prog = argv[++i];
	}
	if (prog != NULL) {
		int fd = open(prog, O_RDWR | O_CREAT | O_TRUNC, 0644);
		if (fd >= 0 && ftruncate(fd, 4096) == 0) {
			void* m = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
			if (m != MAP_FAILED) s.progress = (char*)m;
		}
		if (fd >= 0) close(fd);
	}
	const Prop* p = NULL;
	for (size_t i = 0; i < props.size(); ++i) if (s.prop == props[i].id) p = &props[i];
	if (p == NULL) { fprintf(stderr, "HARNESS-ERROR: unknown property %s\n", s.prop.c_str()); return 3; }
	if (setup != NULL) setup();
	for (long k = 0; k < s.cases || s.only >= 0; ++k) {
		if (s.only >= 0) k = s.only; else if (k % s.shards != s.shard) continue;
		s.cur = k;
		note("start");
		Rng rng(mix(s.seed) ^ hash_str(s.prop) ^ mix((uint64_t)k * 7919 + 13));
		p->run(rng, k);
		stat("cases");
		if (s.only >= 0) break;
	}
	s.cur = -1;
	note("teardown");
	if (teardown != NULL) teardown();
	for (std::map<std::string, long long>::iterator i = s.stats.begin(); i != s.stats.end(); ++i) printf("STAT\t%s\t%lld\n", i->first.c_str(), i->second);
	for (std::map<std::string, std::unordered_set<uint64_t> >::iterator i = s.dist.begin(); i != s.dist.end(); ++i)
		for (std::unordered_set<uint64_t>::iterator j = i->second.begin(); j != i->second.end(); ++j) printf("DIST\t%s\t%llx\n", i->first.c_str(), (unsigned long long)*j);
	for (size_t i = 0; i < s.samples.size(); ++i) printf("SAMPLE\t%s\n", clean(s.samples[i]).c_str());
	for (std::map<std::string, long>::iterator i = s.viol_by_key.begin(); i != s.viol_by_key.end(); ++i) if (i->second > 3) printf("VIOLN\t%s\t%ld\n", clean(i->first).c_str(), i->second);
	note("done");
	printf("DONE\t%ld\n", s.viol_total);
	fflush(stdout);
	return 0;
}

}
