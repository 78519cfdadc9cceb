// modules: basiclog basicsys
// Log messages, log files, locks and counters.
#include "vh.h"
#include "all_sys.h"
#include <atomic>
#include <math.h>
#include <memory>
#include <dirent.h>
#include <grp.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <thread>
#include <time.h>
#include <unistd.h>

using vh::Rng;
using namespace basiclog;
using namespace basicsys;
typedef std::vector<std::string> Strings;

static std::string g_dir;

// The clock of the process: shifted, so that runs meet the ends of days, months and years.
static std::atomic<long> g_shift(0);
extern "C" time_t time(time_t* out) noexcept { struct timespec now; clock_gettime(CLOCK_REALTIME, &now); time_t t = now.tv_sec + g_shift; if (out != NULL) *out = t; return t; }

static void remove_tree(const std::string& p) {
	if (p.find(g_dir) != 0 || g_dir.size() < 8) return;
	struct stat st;
	if (lstat(p.c_str(), &st) != 0) return;
	if (S_ISDIR(st.st_mode)) {
		Strings names;
		if (DIR* d = opendir(p.c_str())) { while (dirent* e = readdir(d)) { std::string n = e->d_name; if (n != "." && n != "..") names.push_back(n); } closedir(d); }
		for (size_t i = 0; i < names.size(); ++i) remove_tree(p + "/" + names[i]);
		rmdir(p.c_str());
	} else unlink(p.c_str());
}
static void setup() {
	log_logger::release();
	char t[] = "/tmp/vh_log_XXXXXX";
	if (mkdtemp(t) == NULL) { fprintf(stderr, "HARNESS-ERROR: no scratch directory\n"); exit(3); }
	g_dir = t;
	if (chdir(t) != 0) exit(3);
	if (geteuid() == 0) {
		if (chown(t, 65534, 65534) != 0 || setgroups(0, NULL) != 0 || setgid(65534) != 0 || setuid(65534) != 0) { fprintf(stderr, "HARNESS-ERROR: cannot drop privileges\n"); exit(3); }
		prctl(PR_SET_DUMPABLE, 1);
	}
}
static void teardown() { log_logger::release(); if (chdir("/tmp") == 0) remove_tree(g_dir); }
static std::string slurp(const std::string& p) {
	std::string s; FILE* f = fopen(p.c_str(), "rb"); if (f == NULL) return "<missing>";
	char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s;
}
static std::string shown(const std::string& s) { std::string r; for (size_t i = 0; i < s.size() && i < 90; ++i) r += s[i] >= 32 && s[i] < 127 ? std::string(1, s[i]) : vh::fmt("\\x%02x", (unsigned char)s[i]); return s.size() > 90 ? r + vh::fmt("... (%d)", (int)s.size()) : r; }

struct Bad {
	std::string what; bool bad;
	Bad() : bad(false) {}
	void fail(const std::string& key, const std::string& d) { if (!bad) vh::viol(key, d + " in " + what); bad = true; }
	bool check(bool c, const std::string& key, const std::string& d) { vh::stat("evaluations"); if (!c) fail(key, d); return c; }
};

// Keeps what it is given. Deliberately without a lock: the base class promises to call it from one thread at a time.
struct Keeper : public log_logger {
	Strings pieces;
	Keeper(const std::string& stamp, bool dir) : log_logger(stamp, dir) {}
	virtual void print(const std::string& s) { pieces.push_back(s); }
};

static std::string body(Rng& r, bool printable) {
	static const char* special[] = {"%s%n%d", "", "\n", "100%", "<tag>", "[x]", "\\", "\xc3\xa4", "%", " "};
	std::string s;
	int k = (int)r.in(0, 9);
	int n = k < 5 ? (int)r.in(0, 40) : k < 7 ? (int)r.in(4900, 5050) : k == 7 ? (int)(5000 * r.in(1, 4) + r.in(-60, 60)) : (int)r.in(0, 12000);
	if (r.chance(1, 2)) s = r.pick(special);
	if (printable) for (size_t i = 0; i < s.size(); ++i) if (s[i] & 0x80) s[i] = 'u';
	bool wide = !printable && r.chance(1, 6);
	while ((int)s.size() < n) { if (wide) s += "\xe6\xb1\x89"; else s += (char)('a' + s.size() % 26); }
	return s;
}
static std::string some_tag(Rng& r) {
	static const char* tags[] = {"", "a", "b", "io", "%d", "performance", "a b", "A"};
	return r.chance(1, 20) ? std::string(r.in(1, 3000), 't') : std::string(r.pick(tags));
}

struct Zone { const char* tz; const char* text; };
static const Zone zones[] = {{"UTC0", "0"}, {"EST5", "-5"}, {"CST-8", "+8"}, {"AAA-12", "+12"}, {"BBB12", "-12"}, {"CCC-14", "+14"}, {"IST-5:30", "+5:30"}, {"NST3:30", "-3:30"}, {"NPT-5:45", "+5:45"}, {"XXX0:30", "-0:30"}};

// A zone and, half of the times, another day: any, or one around the end of a year or of February.
static const Zone& some_when(Rng& r) {
	const Zone& z = zones[r.next() % 10]; setenv("TZ", z.tz, 1); tzset(); if (strchr(z.text, ':') != NULL) vh::stat("part_hour_zones");
	g_shift = 0; if (r.chance(1, 2)) return z;
	tm d; memset(&d, 0, sizeof d); d.tm_year = (int)r.in(72, 199); d.tm_mon = r.chance(1, 2) ? 0 : (int)r.in(0, 11); d.tm_mday = r.chance(2, 3) ? 1 : (int)r.in(2, 28);
	time_t now = time(NULL), t = timegm(&d) + r.in(-15 * 3600, 15 * 3600); g_shift = (long)(t - now); vh::stat("other_days");
	time_t u = time(NULL); tm a, b; localtime_r(&u, &a); gmtime_r(&u, &b); if (a.tm_year != b.tm_year) vh::stat("years_apart"); else if (a.tm_yday != b.tm_yday) vh::stat("days_apart");
	return z;
}

static std::string stamp_at(time_t t, const std::string& f, const Zone& z) {
	tm l; localtime_r(&t, &l); static thread_local char b[20000]; b[0] = 0; strftime(b, sizeof b, f.c_str(), &l);
	return std::string(b) + " UTC " + z.text;
}

// What the message must look like, for every second in which it may have been printed.
static bool as_expected(const std::string& got, time_t t0, time_t t1, const std::string& level, const std::string& tag, const std::string& f, const Zone& z, int line, const std::string& pos, const std::string& msg) {
	for (time_t t = t0; t <= t1; ++t) {
		std::string want = "[" + level + "] [" + stamp_at(t, f, z) + "] <" + tag + vh::fmt("> in line %d of <", line) + pos + ">, " + msg + "\n";
		if (got == want) return true;
	}
	return false;
}

static const char* hint = " If you don't want to see performance warning, you can add_filter 'basiclog_performance_warning'!";
static const char* stamps[] = {"%Y/%m/%d %H:%M:%S", "%H", "", "now", "%j %%"};

static void prop_messages(Rng& r, long k) {
	Bad b;
	const Zone& z = some_when(r);
	std::string f = r.pick(stamps); bool with_dir = r.chance(1, 2); if (r.chance(1, 12)) { std::string p = r.pick(stamps); f = ""; for (int i = (int)r.in(1, 4) * 100; i > 0; --i) f += p; vh::stat("long_stamps"); }
	Keeper* l = new Keeper(f, with_dir);
	log_logger::init_logger(l);
	b.check(log_logger::get_logger() == l, "get_logger", "another logger");
	bool on[4] = {true, true, true, true}; Strings filters;
	std::string here = __FILE__, name = here.substr(here.rfind('/') + 1); std::string trace;
	for (int n = (int)r.in(3, 25); n > 0 && !b.bad; --n) {
		l->pieces.clear();
		int op = (int)r.in(0, 11);
		if (op == 0) { int i = (int)r.in(0, 3); on[i] = r.chance(1, 2); if (i == 0) l->enable_debug(on[i]); else if (i == 1) l->enable_info(on[i]); else if (i == 2) l->enable_warning(on[i]); else l->enable_error(on[i]); trace += vh::fmt("enable %d %d; ", i, on[i]);
			b.check(l->is_enable_debug() == on[0] && l->is_enable_info() == on[1] && l->is_enable_warning() == on[2] && l->is_enable_error() == on[3], "enabled", "levels enabled"); vh::stat("levels_switched"); continue; }
		if (op == 1) { filters.clear(); for (int i = (int)r.in(0, 2); i > 0; --i) filters.push_back(some_tag(r)); l->set_filter(filters); trace += "filter; "; vh::stat("filters_set"); continue; }
		if (op == 2) { filters.push_back(some_tag(r)); l->add_filter(filters.back()); trace += "add filter; "; Strings got(1, "old"); l->get_filter(got); b.check(got == filters, "get_filter", "filters"); vh::stat("filters_set"); continue; }
		std::string tag = some_tag(r), msg = body(r, false); int evaluated = 0, line = 0; std::string level; bool want = true; std::string pos = with_dir ? here : name;
		time_t t0 = time(NULL);
		#define HERE line = __LINE__
		if (op == 3) { HERE; basiclog_debug(tag, (++evaluated, msg)); level = "debug"; want = on[0]; }
		else if (op == 4) { HERE; basiclog_info(tag, (++evaluated, msg)); level = "info"; want = on[1]; }
		else if (op == 5) { HERE; basiclog_warning(tag, (++evaluated, msg)); level = "warning"; want = on[2]; }
		else if (op == 6) { HERE; basiclog_error(tag, (++evaluated, msg)); level = "error"; want = on[3]; }
		else if (op == 7) { bool c = r.chance(1, 2); int cond = 0; HERE; basiclog_assert_message(tag, (++cond, c), (++evaluated, msg)); level = "error"; want = on[3] && !c; b.check(cond == 1, "condition", vh::fmt("condition evaluated %d times", cond)); }
		else if (op == 8) { bool c = r.chance(1, 2); evaluated = on[3] && !c; HERE; basiclog_assert(tag, c); level = "error"; want = on[3] && !c; msg = ""; }
		else if (op == 9) { evaluated = on[3]; tag = ""; HERE; basiclog_unsupport2(); level = "error"; want = on[3]; msg = "unsupport operation"; }
		else {
			static const char* files[] = {"a.cpp", "/x y/b.cpp", "C:\\d\\e.f\\g.cpp", "dir/", "", "/%s/%d.h"};
			std::string p = r.pick(files), q = p; for (size_t i = 0; i < q.size(); ++i) if (q[i] == '\\') q[i] = '/';
			line = (int)r.in(-5, 100000); level = r.chance(1, 2) ? "error" : "own level"; evaluated = 1;
			l->log_logger::print(level, tag, msg, p, line);
			pos = with_dir ? p : q.substr(q.rfind('/') + 1);
		}
		time_t t1 = time(NULL);
		b.what = vh::fmt("%s of %d characters with tag '", level.c_str(), (int)msg.size()) + shown(tag) + "' after " + trace; vh::note(b.what);
		b.check(evaluated == (want ? 1 : 0), "evaluated", vh::fmt("message evaluated %d times, enabled %d", evaluated, want));
		if (std::find(filters.begin(), filters.end(), tag) != filters.end()) { if (want) vh::stat("filtered"); want = false; } else if (!want) vh::stat("disabled");
		if (!want) { b.check(l->pieces.empty(), "unwanted", "printed though disabled or filtered"); continue; }
		if (tag == "performance") msg += hint;
		std::string all; bool small = true; for (size_t i = 0; i < l->pieces.size(); ++i) { all += l->pieces[i]; small = small && l->pieces[i].size() <= 5000 && !l->pieces[i].empty(); }
		b.check(as_expected(all, t0, t1, level, tag, f, z, line, pos, msg), "message", "printed '" + shown(all) + "'");
		b.check(small && l->pieces.size() == (all.size() + 4999) / 5000, "pieces", vh::fmt("%d pieces for %d characters", (int)l->pieces.size(), (int)all.size()));
		vh::stat("messages"); if (l->pieces.size() > 1) vh::stat("in_pieces");
		trace += level[0] + std::string(" ");
		vh::dist("nontrivial", vh::hash_str(level + tag + vh::fmt("%d %d %d", (int)all.size(), with_dir, on[0] + 2 * on[1] + 4 * on[2] + 8 * on[3])));
	}
	if (k < 6) vh::sample(b.what);
	log_logger::release();
	b.check(log_logger::get_logger() == NULL, "release", "a logger after release");
	basiclog_error("x", "nobody listens");
}

// ---------------------------------------------------------------- consoles

static void prop_console(Rng& r, long k) {
	Bad b; g_shift = 0; setenv("TZ", "UTC0", 1); tzset();
	bool ide = r.chance(1, 2); std::string want, path = g_dir + "/console"; b.what = ide ? "log_ide_console_logger " : "log_console_logger ";
	fflush(stdout); std::cout.flush(); std::wcout.flush();
	int keep = dup(1), fd = open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600); dup2(fd, 1); close(fd);
	log_logger::init_logger(ide ? (log_logger*)new log_ide_console_logger("T") : new log_console_logger("T"));
	for (int n = (int)r.in(1, 8); n > 0; --n) {
		std::string msg = body(r, r.chance(1, 2)); 
		log_logger::get_logger()->print("info", "tag", msg, "f.cpp", n);
		want += "[info] [T UTC 0] <tag>" + vh::fmt(" in line %d of <f.cpp>, ", n) + msg + "\n";
		b.what += vh::fmt("%d ", (int)msg.size());
	}
	log_logger::release();
	fflush(stdout); std::cout.flush(); std::wcout.flush();
	dup2(keep, 1); close(keep);
	std::string got = slurp(path);
	b.check(got == want, "console", vh::fmt("%d bytes printed, expected %d", (int)got.size(), (int)want.size()));
	vh::stat(ide ? "ide_consoles" : "consoles"); vh::dist("nontrivial", vh::hash_str(want));
	if (k < 3) vh::sample(b.what);
}

// ---------------------------------------------------------------- several threads

static std::string thread_message(int t, int i, int size) { std::string s = vh::fmt("#%d.%d:", t, i); while ((int)s.size() < size) s += (char)('a' + (t + i) % 26); return s + "$"; }

static void prop_message_threads(Rng& r, long k) {
	Bad b; g_shift = 0; setenv("TZ", "UTC0", 1); tzset();
	Keeper* l = new Keeper("T", false);
	log_logger::init_logger(l);
	int threads = (int)r.in(2, 6), each = (int)r.in(5, 40); bool toggle = r.chance(1, 2);
	b.what = vh::fmt("%d threads of %d messages%s", threads, each, toggle ? " with filters changing" : "");
	std::vector<std::vector<int> > sizes(threads);
	for (int t = 0; t < threads; ++t) for (int i = 0; i < each; ++i) sizes[t].push_back(r.chance(1, 6) ? (int)r.in(4900, 15100) : (int)r.in(1, 60));
	std::atomic<bool> go(false), stop(false);
	std::vector<std::thread> ts;
	for (int t = 0; t < threads; ++t) ts.push_back(std::thread([&, t]() {
		while (!go) {}
		for (int i = 0; i < each; ++i) { basiclog_info("main", thread_message(t, i, sizes[t][i])); if (i % 7 == 3) basiclog_warning("noise", "noise"); if (i % 11 == 5) { Strings f; l->get_filter(f); } }
	}));
	std::thread toggler([&]() { while (!go) {} for (int i = 0; toggle && !stop; ++i) { Strings f; if (i % 2) f.push_back("noise"); l->set_filter(f); if (i % 3 == 0) l->add_filter("other"); l->enable_debug(i % 2 == 0); } });
	go = true;
	for (int t = 0; t < threads; ++t) ts[t].join();
	stop = true; toggler.join();
	std::string all; for (size_t i = 0; i < l->pieces.size(); ++i) all += l->pieces[i];
	// every message is one line
	std::vector<int> next(threads, 0); size_t p = 0; long whole = 0; int switches = 0, last = -1;
	while (p < all.size() && !b.bad) {
		size_t e = all.find('\n', p); std::string line = all.substr(p, e == std::string::npos ? e : e - p); p = e == std::string::npos ? all.size() : e + 1;
		size_t h = line.find(">, "); if (!b.check(h != std::string::npos && e != std::string::npos, "torn", "line '" + shown(line) + "'")) break;
		std::string m = line.substr(h + 3); int t = -1, i = -1;
		if (m == "noise") continue;
		if (!b.check(sscanf(m.c_str(), "#%d.%d:", &t, &i) == 2 && t >= 0 && t < threads && i >= 0 && i < each, "torn", "message '" + shown(m) + "'")) break;
		b.check(m == thread_message(t, i, sizes[t][i]) && line.compare(0, 7, "[info] ") == 0, "torn", "message '" + shown(line) + "'");
		b.check(i == next[t], "order", vh::fmt("thread %d: message %d where %d is due", t, i, next[t])); next[t] = i + 1; ++whole;
		if (t != last) ++switches; last = t;
	}
	if (!b.bad) for (int t = 0; t < threads; ++t) b.check(next[t] == each, "lost", vh::fmt("thread %d: %d of %d messages", t, next[t], each));
	vh::stat("thread_messages", whole); vh::stat("thread_runs"); vh::stat("thread_switches", switches);
	vh::dist("nontrivial", vh::hash_str(b.what + vh::fmt(" %d", switches)));
	if (k < 3) vh::sample(b.what + vh::fmt(", %d changes between threads", switches));
	log_logger::release();
}

// ---------------------------------------------------------------- files

struct LogFile { std::string text; time_t t0, t1; LogFile(const std::string& s = "") : text(s), t0(0), t1(-1) {} };
typedef std::vector<LogFile> LogFiles;
static std::string title_at(time_t t, const Zone& z) {
	std::string s = stamp_at(t, "%Y-%m-%d %H-%M-%S", z);
	for (size_t i = 0; i < s.size(); ++i) if (s[i] == ':') s[i] = '-';
	return s;
}
static bool named_well(const std::string& n, const LogFile& f, const Zone& z) {
	for (time_t t = f.t0; t <= f.t1; ++t) {
		std::string title = title_at(t, z); if (n.compare(0, title.size(), title) != 0) continue;
		std::string rest = n.substr(title.size()); int k = 0, e = 0;
		if (rest == ".txt" || (sscanf(rest.c_str(), " (%d).txt%n", &k, &e) == 1 && e == (int)rest.size() && k > 1)) return true;
	}
	return f.t1 < f.t0;
}
static Strings contents(const std::string& dir, std::multimap<std::string, std::string>* names = NULL) {
	Strings c;
	if (DIR* d = opendir(dir.c_str())) { while (dirent* e = readdir(d)) { std::string n = e->d_name; struct stat st; if (n != "." && n != ".." && stat((dir + n).c_str(), &st) == 0 && !S_ISDIR(st.st_mode)) { c.push_back(slurp(dir + n)); if (names != NULL) names->insert(std::make_pair(c.back(), n)); } } closedir(d); }
	std::sort(c.begin(), c.end()); return c;
}

static void prop_files(Rng& r, long k) {
	Bad b; const Zone& z = some_when(r);
	std::string base = g_dir + "/logs/"; remove_tree(g_dir + "/logs");
	// what each directory should hold: contents of files in the order they were begun, and how many of them (the last ones) the logger counts
	std::map<std::string, LogFiles> model; std::string cur = base + vh::fmt("%d/", (int)r.in(0, 2)); if (r.chance(1, 3)) cur += "deep er/";
	int per_file = (int)r.in(1, 5), max_files = r.chance(1, 3) ? 1000 : (int)r.in(1, 4); size_t counted = 0; bool open_file = false; int in_file = 0; bool blocked = false;
	b.what = vh::fmt("log files of %d messages, at most %d files; ", per_file, max_files);
	log_file_logger* l = new log_file_logger(cur, per_file, max_files, "T", r.chance(1, 2));
	log_logger::init_logger(l); model[cur];
	if (r.chance(1, 3)) { FILE* f = fopen((cur + "other").c_str(), "wb"); if (f != NULL) { fputs("not a log", f); fclose(f); model[cur].push_back(LogFile("not a log")); } }
	int rotations = 0, dropped = 0;
	for (int n = (int)r.in(5, 40), i = 0; i < n && !b.bad; ++i) {
		int op = (int)r.in(0, 19);
		if (op == 0) {
			std::string d = base + vh::fmt("%d/", (int)r.in(0, 2)); blocked = r.chance(1, 6);
			if (blocked) { mkdir(base.c_str(), 0755); FILE* f = fopen((base + "file").c_str(), "wb"); fclose(f); d = base + "file/"; }
			l->set_dir(d); cur = d; counted = 0; open_file = false; b.what += vh::fmt("set_dir %s; ", d.c_str() + base.size()); vh::stat(blocked ? "impossible_dirs" : "dirs_changed"); if (!blocked) model[cur];
		} else if (op == 1) { per_file = (int)r.in(1, 5); l->set_file_max_log_number(per_file); b.what += vh::fmt("%d per file; ", per_file); vh::stat("limits_changed"); }
		else if (op == 2) { max_files = (int)r.in(1, 4); l->set_max_file_number(max_files); b.what += vh::fmt("%d files; ", max_files); vh::stat("limits_changed"); }
		else {
			std::string msg = vh::fmt("%d:", i) + body(r, false); std::string whole = std::string("[info] [T UTC ") + z.text + "] <t>" + vh::fmt(" in line %d of <f.cpp>, ", i) + msg + "\n";
			time_t t0 = time(NULL); basiclog::log_logger::get_logger()->log_logger::print("info", "t", msg, "f.cpp", i); time_t t1 = time(NULL);
			b.what += ".";
			for (size_t p = 0; p < whole.size(); p += 5000) {
				std::string piece = whole.substr(p, 5000);
				if (blocked) continue;
				LogFiles& m = model[cur];
				if (!open_file || in_file >= per_file) {
					while (counted > 0 && (int)counted >= max_files) { m.erase(m.end() - counted); --counted; ++dropped; }
					m.push_back(LogFile()); m.back().t0 = t0; m.back().t1 = t1; ++counted; open_file = true; in_file = 0; ++rotations;
				}
				m.back().text += piece; ++in_file; vh::stat("log_pieces");
			}
		}
		vh::note(b.what);
		if (r.chance(1, 6) || i == n - 1) {
			for (std::map<std::string, LogFiles>::iterator m = model.begin(); m != model.end() && !b.bad; ++m) {
				std::multimap<std::string, std::string> names; typedef std::multimap<std::string, std::string>::iterator It;
				Strings want, got = contents(m->first, &names); for (size_t q = 0; q < m->second.size(); ++q) want.push_back(m->second[q].text); std::sort(want.begin(), want.end());
				b.check(got == want, "files", vh::fmt("%d files in %s, expected %d, or other content", (int)got.size(), m->first.c_str() + base.size(), (int)want.size())); vh::stat("dirs_compared");
				for (size_t q = 0; q < m->second.size() && !b.bad; ++q) {
					const LogFile& f = m->second[q]; std::pair<It, It> at = names.equal_range(f.text); bool ok = false; std::string seen;
					for (It n2 = at.first; n2 != at.second; ++n2) { ok = ok || named_well(n2->second, f, z); seen = n2->second; }
					b.check(ok, "name", "file '" + seen + "' where '" + title_at(f.t0, z) + "' was expected"); vh::stat("names");
				}
			}
		}
	}
	log_logger::release();
	vh::stat("files_begun", rotations); vh::stat("files_dropped", dropped);
	vh::dist("nontrivial", vh::hash_str(b.what));
	if (k < 6) vh::sample(b.what);
}

static void prop_file_threads(Rng& r, long k) {
	Bad b; g_shift = 0; setenv("TZ", "UTC0", 1); tzset();
	std::string dir = g_dir + "/logs/"; remove_tree(g_dir + "/logs");
	int threads = (int)r.in(2, 5), each = (int)r.in(3, 20), per_file = (int)r.in(1, 7);
	log_file_logger* l = new log_file_logger(dir, per_file, 100000, "T");
	log_logger::init_logger(l);
	b.what = vh::fmt("%d threads of %d messages into files of %d", threads, each, per_file); vh::note(b.what);
	std::atomic<bool> go(false); std::vector<std::thread> ts;
	for (int t = 0; t < threads; ++t) ts.push_back(std::thread([&, t]() { while (!go) {} for (int i = 0; i < each; ++i) basiclog_info("m", thread_message(t, i, 20 + i)); }));
	go = true;
	for (int t = 0; t < threads; ++t) ts[t].join();
	log_logger::release();
	Strings c = contents(dir); std::vector<std::set<int> > seen(threads); long total = 0; int open_ones = 0;
	for (size_t n = 0; n < c.size() && !b.bad; ++n) {
		std::vector<int> last(threads, -1); int lines = 0;
		for (size_t p = 0; p < c[n].size() && !b.bad; ++lines) {
			size_t e = c[n].find('\n', p); std::string line = c[n].substr(p, e == std::string::npos ? e : e - p); p = e == std::string::npos ? c[n].size() : e + 1;
			size_t h = line.find(">, "); int t = -1, i = -1;
			if (!b.check(e != std::string::npos && h != std::string::npos && sscanf(line.c_str() + h + 3, "#%d.%d:", &t, &i) == 2 && t >= 0 && t < threads && line.substr(h + 3) == thread_message(t, i, 20 + i), "torn", "line '" + shown(line) + "'")) break;
			b.check(i > last[t], "order", vh::fmt("thread %d: message %d after %d", t, i, last[t])); last[t] = i;
			b.check(seen[t].insert(i).second, "twice", vh::fmt("message %d of thread %d twice", i, t)); ++total;
		}
		b.check(lines <= per_file, "file_size", vh::fmt("%d messages in a file of at most %d", lines, per_file)); if (lines < per_file) ++open_ones;
	}
	b.check(total == (long)threads * each, "lost", vh::fmt("%ld of %d messages", total, threads * each));
	b.check(open_ones <= 1, "file_size", vh::fmt("%d files are not full", open_ones));
	vh::stat("thread_messages", total); vh::stat("thread_runs");
	vh::dist("nontrivial", vh::hash_str(b.what));
	if (k < 3) vh::sample(b.what);
}

// ---------------------------------------------------------------- locks, counters, timers

static std::map<std::string, i64> counters_of(const Strings& pieces, Bad& b) {
	std::string all; for (size_t i = 0; i < pieces.size(); ++i) all += pieces[i];
	std::map<std::string, i64> got; size_t p = 0;
	while (p < all.size()) {
		size_t e = all.find('\n', p); if (e == std::string::npos) e = all.size();
		std::string line = all.substr(p, e - p); p = e + 1;
		size_t c = line.rfind(':');
		if (line.compare(0, 2, "r.") != 0 || c == std::string::npos) continue;
		b.check(!got.count(line.substr(0, c)), "counter_twice", line);
		got[line.substr(0, c)] = atoll(line.c_str() + c + 1);
	}
	return got;
}

static void prop_counters(Rng& r, long k) {
	Bad b;
	Keeper* l = new Keeper("T", false); log_logger::init_logger(l);
	int threads = (int)r.in(1, 6), each = (int)r.in(1, 60);
	// the counters outlive release, so now and then names nobody used before
	static int fresh = 0; std::string pre = "r.";
	if (k % 150 == 7 && fresh < 80) { threads = (int)r.in(1, 2); each = (int)r.in(1, 3); pre = vh::fmt("r.f%d.", fresh++); }
	b.what = vh::fmt("%d threads of %d operations", threads, each); vh::note(b.what);
	struct Op { int kind; int tag; i64 v; };
	// what earlier runs left behind, if anything
	std::map<std::string, i64> want;
	for (int i = 0; i < 2; ++i) { l->pieces.clear(); sys_alg_analyzer::init(); sys_alg_analyzer::release(); want = counters_of(l->pieces, b); }
	std::vector<std::vector<Op> > ops(threads);
	static const char* kinds[] = {"add", "max", "set"};
	for (int t = 0; t < threads; ++t) for (int i = 0; i < each; ++i) {
		Op o; o.kind = (int)r.in(0, 2); o.tag = (int)r.in(0, 2); o.v = r.chance(1, 8) ? (i64)r.in(-5000000000000ll, 5000000000000ll) : (i64)r.in(-5, 5);
		ops[t].push_back(o);
		std::string n = pre + kinds[o.kind] + vh::fmt("%d", o.tag) + (o.kind == 2 ? vh::fmt(".%d", t) : "");
		if (!want.count(n)) want[n] = o.v; else if (o.kind == 0) want[n] += o.v; else if (o.kind == 1) want[n] = std::max(want[n], o.v); else want[n] = o.v;
	}
	if (r.chance(1, 2)) { sys_alg_analyzer::add(pre + "early", 1); sys_alg_analyzer::set(pre + "early", 1); sys_alg_analyzer::max_(pre + "early", 1); }
	sys_alg_analyzer::init();
	void* mutex = sys_thread_lock::create_mutex(); long plain = 0; std::vector<int> plain_list;
	std::atomic<bool> go(false); std::vector<std::thread> ts;
	for (int t = 0; t < threads; ++t) ts.push_back(std::thread([&, t]() {
		while (!go) {}
		for (int i = 0; i < each; ++i) {
			const Op& o = ops[t][i]; std::string n = pre + kinds[o.kind] + vh::fmt("%d", o.tag) + (o.kind == 2 ? vh::fmt(".%d", t) : "");
			if (o.kind == 0) sys_alg_analyzer::add(n, o.v); else if (o.kind == 1) sys_alg_analyzer::max_(n, o.v); else sys_alg_analyzer::set(n, o.v);
			{ sys_thread_lock lock(mutex); ++plain; plain_list.push_back(t); }
		}
	}));
	go = true;
	for (int t = 0; t < threads; ++t) ts[t].join();
	b.check(plain == (long)threads * each && plain_list.size() == (size_t)plain, "lock", vh::fmt("%ld of %d counted under a lock", plain, threads * each));
	sys_thread_lock::release_mutex(mutex); b.check(mutex == NULL, "release_mutex", "mutex not reset");
	l->pieces.clear();
	sys_alg_analyzer::release();
	sys_alg_analyzer::add(pre + "late", 1);
	std::map<std::string, i64> got = counters_of(l->pieces, b);
	std::string diff; for (std::map<std::string, i64>::iterator i = want.begin(); i != want.end(); ++i) if (!got.count(i->first) || got[i->first] != i->second) diff = i->first + vh::fmt(" is %lld, expected %lld", got.count(i->first) ? (long long)got[i->first] : -1ll, (long long)i->second);
	b.check(got == want, "counters", diff.empty() ? "more counters than used" : diff);
	if (r.chance(1, 10)) {
		struct timeval a, c; sys_timer t("timer", sys_false); long low = 0, high = 0; int n = (int)r.in(1, 4);
		for (int i = 0; i < n; ++i) {
			struct timeval i0, i1; i64 before = sys_timer::get_tick_cout(); gettimeofday(&a, NULL); t.begin(); gettimeofday(&i0, NULL); if (r.chance(2, 3)) usleep((int)r.in(0, 3000)); gettimeofday(&i1, NULL); t.end(); gettimeofday(&c, NULL); i64 after = sys_timer::get_tick_cout();
			long us = (c.tv_sec - a.tv_sec) * 1000000 + c.tv_usec - a.tv_usec; high += us / 1000; low += ((i1.tv_sec - i0.tv_sec) * 1000000 + i1.tv_usec - i0.tv_usec) / 1000;
			b.check(after >= before && after - before >= us / 1000, "tick", "tick count");
		}
		b.check(t.get_cost() >= low && t.get_cost() <= high, "timer", vh::fmt("cost %d ms, measured %ld to %ld ms", (int)t.get_cost(), low, high));
		l->pieces.clear(); t.out(sys_false); std::string w = vh::fmt("timer cost %d ms, count = %d\n", (int)t.get_cost(), n);
		b.check(l->pieces.size() == 1 && l->pieces[0].size() > w.size() && l->pieces[0].substr(l->pieces[0].size() - w.size()) == w, "timer_out", "timer output");
		t.reset(); b.check(t.get_cost() == 0, "timer", "cost after reset"); vh::stat("timers");
	}
	vh::stat("counter_operations", (long)threads * each); if (threads > 1) vh::stat("thread_runs");
	vh::dist("nontrivial", vh::hash_str(b.what + vh::fmt("%d", (int)want.size())));
	if (k < 3) vh::sample(b.what);
	log_logger::release();
}

// ---------------------------------------------------------------- conditions of tests

static int counted(int& n, int v) { ++n; return v; }
static int times_in(const std::string& s, const std::string& t) { int n = 0; for (size_t p = s.find(t); p != std::string::npos; p = s.find(t, p + t.size())) ++n; return n; }

struct Runner : public sys_test_interface {
	Rng& r; Bad& b; int conditions, held, unequal; std::vector<std::string> names;
	Runner(Rng& rr, Bad& bb) : r(rr), b(bb), conditions(0), held(0), unequal(0) {}
	void run(vector<string>& argvs) {
		int n = atoi(argvs[0].c_str());
		for (int i = 0; i < n; ++i) {
			int left = 0, right = 0, x = (int)r.in(-2, 2), y = r.chance(1, 2) ? x : (int)r.in(-2, 2); bool holds = x == y, equal = r.chance(1, 2);
			switch (r.in(0, 3)) {
			case 0: right = 1; holds = x <= y; equal = false; sys_test(counted(left, x) <= y); break;
			case 1: sys_test_equal(counted(left, x), counted(right, y)); equal = true; break;
			case 2: { std::string p(std::abs(x), 'q'), q(std::abs(y), 'q'); holds = p == q; if (equal) { left = right = 1; sys_test_equal(p, q); } else { right = 1; sys_test(counted(left, p == q)); } break; }
			default: { double p = x / 2.0, q = y / 2.0; holds = p == q; left = right = 1; if (equal) { sys_test_equal(p, q); } else { sys_test(p == q); } } break;
			}
			++conditions; held += holds; unequal += !holds && equal;
			b.check(left == 1 && right == 1, "evaluated", vh::fmt("the parts of a condition were evaluated %d and %d times", left, right));
		}
	}
};

static void prop_tester(Rng& r, long k) {
	Bad b; bool silent = r.chance(2, 3), config = r.chance(1, 2); int rounds = (int)r.in(1, 2);
	for (int round = 0; round < rounds; ++round) {
		int n = r.chance(1, 8) ? 0 : (int)r.in(1, 40);
		b.what = vh::fmt("%d conditions, %s, %s", n, silent ? "silent" : "assert", config ? "configured" : "by hand"); vh::note(b.what);
		Keeper* l = new Keeper("T", false); sys_tester::Test_Type type = silent ? sys_tester::Test_Type_Slience : sys_tester::Test_Type_Assert;
		std::unique_ptr<sys_exe_config> c;
		if (config) c.reset(new sys_exe_config(l, type)); else { log_logger::init_logger(l); if (silent && r.chance(1, 2)) sys_tester::init(); else sys_tester::init(type); }
		b.check(log_logger::get_logger() == l && sys_tester::get_instance() != NULL && sys_tester::get_instance()->get_test_type() == type, "tester_type", "logger, tester or its type");
		std::string all; for (size_t i = 0; i < l->pieces.size(); ++i) all += l->pieces[i];
		b.check(times_in(all, "init sys_tester") == 1, "tester_init", shown(all));
		l->pieces.clear();
		Runner run(r, b); vector<string> a(1, vh::fmt("%d", n)); sys_test_interface* t = &run; t->run(a);
		all.clear(); for (size_t i = 0; i < l->pieces.size(); ++i) all += l->pieces[i];
		int failed = run.conditions - run.held;
		if (silent) {
			b.check(times_in(all, "wrong condition") == failed - run.unequal && times_in(all, " is not equal to ") == run.unequal, "tester_reports", vh::fmt("%d wrong and %d unequal conditions: ", failed - run.unequal, run.unequal) + shown(all));
			b.check(l->pieces.size() == (size_t)failed, "tester_pieces", vh::fmt("%d messages for %d conditions that failed", (int)l->pieces.size(), failed));
		} else {
			b.check(l->pieces.size() == (size_t)failed && times_in(all, "error") == failed, "tester_errors", vh::fmt("%d messages for %d conditions that failed: ", (int)l->pieces.size(), failed) + shown(all));
		}
		l->pieces.clear();
		sys_tester::release(); b.check(sys_tester::get_instance() == NULL, "tester_release", "still there");
		all.clear(); for (size_t i = 0; i < l->pieces.size(); ++i) all += l->pieces[i];
		if (!silent) b.check(all.empty(), "tester_summary", shown(all));
		else if (n == 0) b.check(times_in(all, "no test case") == 1 && l->pieces.size() == 1, "tester_summary", shown(all));
		else {
			int total = -1, correct = -1; double ratio = -1; size_t p = all.find("total case: ");
			bool read = p != std::string::npos && sscanf(all.c_str() + p, "total case: %d correct case: %d correct ratio: %lf", &total, &correct, &ratio) == 3;
			b.check(read && l->pieces.size() == 1 && total == run.conditions && correct == run.held && fabs(ratio - (double)run.held / run.conditions) < 1e-6, "tester_summary", vh::fmt("%d of %d held: ", run.held, run.conditions) + shown(all));
		}
		if (config) { c.reset(); b.check(log_logger::get_logger() == NULL, "config_release", "the logger is still there"); } else log_logger::release();
		vh::stat("conditions", run.conditions); vh::stat("failed_conditions", failed); vh::stat(silent ? "silent" : "asserting");
		vh::dist("nontrivial", vh::hash_str(b.what + vh::fmt("%d %d", run.held, run.unequal)));
	}
	if (k < 3) vh::sample(b.what);
}

int main(int argc, char** argv) {
	std::vector<vh::Prop> props;
	vh::Prop p[] = {{"messages", prop_messages}, {"console", prop_console}, {"message_threads", prop_message_threads}, {"files", prop_files}, {"file_threads", prop_file_threads}, {"counters", prop_counters}, {"tester", prop_tester}};
	props.assign(p, p + 7);
	return vh::run_main(argc, argv, props, setup, teardown);
}
