// modules: basiclog basicsys
// Buffers, json documents, strings, paths.
#include "vh.h"
#include "math_log.h"
#include <limits>
#include <math.h>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/prctl.h>
#include <grp.h>
#include <unistd.h>
#include <sstream>

using vh::Rng;
typedef std::vector<std::string> Strings;

static std::string g_dir;          // scratch directory of this process

static void remove_tree(const std::string& p) {
	if (p.find(g_dir) != 0 || g_dir.size() < 8) return;
	struct stat st;
	if (lstat(p.c_str(), &st) != 0) return;
	if (S_ISDIR(st.st_mode)) {
		Strings names;
		if (DIR* d = opendir(p.c_str())) { while (dirent* e = readdir(d)) { std::string n = e->d_name; if (n != "." && n != "..") names.push_back(n); } closedir(d); }
		for (size_t i = 0; i < names.size(); ++i) remove_tree(p + "/" + names[i]);
		rmdir(p.c_str());
	} else unlink(p.c_str());
}
static void setup() {
	mm::setup_log();
	char t[] = "/tmp/vh_sys_XXXXXX";
	if (mkdtemp(t) == NULL) { fprintf(stderr, "HARNESS-ERROR: no scratch directory\n"); exit(3); }
	g_dir = t;
	if (chdir(t) != 0) exit(3);
	// code that deletes and overwrites runs as a user who owns nothing but the scratch directory
	if (geteuid() == 0) {
		if (chown(t, 65534, 65534) != 0 || setgroups(0, NULL) != 0 || setgid(65534) != 0 || setuid(65534) != 0) { fprintf(stderr, "HARNESS-ERROR: cannot drop privileges\n"); exit(3); }
		prctl(PR_SET_DUMPABLE, 1);
	}
}
static void teardown() { if (chdir("/tmp") == 0) remove_tree(g_dir); mm::teardown_log(); }

static std::string slurp(const std::string& p) {
	std::string s; FILE* f = fopen(p.c_str(), "rb"); if (f == NULL) return "<missing>";
	char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s;
}
static void spill(const std::string& p, const std::string& s) { FILE* f = fopen(p.c_str(), "wb"); fwrite(s.data(), 1, s.size(), f); fclose(f); }
static std::string hex(const std::string& s) { std::string r; for (size_t i = 0; i < s.size() && i < 60; ++i) r += s[i] >= 32 && s[i] < 127 ? std::string(1, s[i]) : vh::fmt("\\x%02x", (unsigned char)s[i]); return r; }
static bool log_quiet(const std::string& what) {
	long n = mm::log_lines(); std::string l = mm::last_log(); mm::clear_log();
	if (n) { vh::viol("error_logged", vh::clean(l) + " in " + what); return false; }
	return true;
}

struct Bad {
	std::string what; bool bad;
	Bad() : bad(false) {}
	void fail(const std::string& key, const std::string& d) { if (!bad) vh::viol(key, d + " in " + what); bad = true; }
	bool check(bool c, const std::string& key, const std::string& d) { vh::stat("evaluations"); if (!c) fail(key, d); return c; }
};

// ---------------------------------------------------------------- values of every type

enum { T_b8, T_i8, T_u8, T_i16, T_u16, T_i32, T_u32, T_i64, T_u64, T_f32, T_f64, T_count };
static const char* type_names[] = {"b8", "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f32", "f64"};

struct Value { int t; i64 i; u64 u; double d; };

static Value some_value(Rng& r, int t, bool finite) {
	Value v = {t, 0, 0, 0};
	u64 x = r.next();
	int k = (int)r.in(0, 4);
	if (k == 0) x = (u64)r.in(-3, 3); else if (k == 1) x = (u64)1 << r.in(0, 63); else if (k == 2) x = ~((u64)0) >> r.in(0, 63);
	switch (t) {
	case T_b8: v.i = x & 1; break;
	case T_i8: v.i = (signed char)x; break;
	case T_u8: v.i = (unsigned char)x; break;
	case T_i16: v.i = (short)x; break;
	case T_u16: v.i = (unsigned short)x; break;
	case T_i32: v.i = (int)x; break;
	case T_u32: v.i = (unsigned)x; break;
	case T_i64: v.i = (long long)x; break;
	case T_u64: v.u = x; break;
	default:
		do {
			k = (int)r.in(0, 4);
			if (k == 0) v.d = (double)r.in(-1000, 1000) / 8;
			else if (k == 1) { u64 b = r.next(); if (t == T_f32) { u32 c = (u32)b; float f; memcpy(&f, &c, 4); v.d = f; } else memcpy(&v.d, &b, 8); }
			else if (k == 2) v.d = (r.unit() - 0.5) * pow(10, (double)r.in(-30, 30));
			else if (k == 3) v.d = t == T_f32 ? (double)std::numeric_limits<float>::max() * (r.chance(1, 2) ? 1 : -1) : std::numeric_limits<double>::max();
			else v.d = (double)r.in(-1, 1) * (t == T_f32 ? (double)std::numeric_limits<float>::denorm_min() : std::numeric_limits<double>::denorm_min());
			if (t == T_f32) v.d = (float)v.d;
		} while (finite && !(fabs(v.d) <= std::numeric_limits<double>::max() && (t != T_f32 || fabs(v.d) <= std::numeric_limits<float>::max())));
	}
	return v;
}
static std::string text_of(const Value& v) {
	char b[512];
	switch (v.t) {
	case T_b8: return v.i ? "true" : "false";
	case T_i8: return v.i == 0 ? std::string() : std::string(1, (char)v.i);
	case T_u64: snprintf(b, sizeof b, "%llu", v.u); return b;
	case T_f32: snprintf(b, sizeof b, "%.7f", v.d); return b;
	case T_f64: snprintf(b, sizeof b, "%.16f", v.d); return b;
	}
	snprintf(b, sizeof b, "%lld", v.i); return b;
}
template <class T> static std::string raw(T x) { return std::string((const char*)&x, sizeof x); }
static std::string bytes_of(const Value& v) {
	switch (v.t) {
	case T_b8: case T_u8: return raw((u8)v.i);
	case T_i8: return raw((i8)v.i);
	case T_i16: return raw((i16)v.i);
	case T_u16: return raw((u16)v.i);
	case T_i32: return raw((i32)v.i);
	case T_u32: return raw((u32)v.i);
	case T_i64: return raw((i64)v.i);
	case T_u64: return raw((u64)v.u);
	case T_f32: return raw((f32)v.d);
	}
	return raw((f64)v.d);
}
template <class W> static void put_value(W& w, const Value& v) {
	switch (v.t) {
	case T_b8: w << b8((i32)v.i); break;
	case T_i8: w << (i8)v.i; break;
	case T_u8: w << (u8)v.i; break;
	case T_i16: w << (i16)v.i; break;
	case T_u16: w << (u16)v.i; break;
	case T_i32: w << (i32)v.i; break;
	case T_u32: w << (u32)v.i; break;
	case T_i64: w << (i64)v.i; break;
	case T_u64: w << (u64)v.u; break;
	case T_f32: w << (f32)v.d; break;
	default: w << (f64)v.d;
	}
}
struct Sink { sys_buffer_writer* w; };
template <class T> static Sink& operator<<(Sink& s, T v) { s.w->write(v); return s; }

// ---------------------------------------------------------------- buffers

static void check_reader(Rng& r, Bad& b, bool text, bool file, const std::string& content) {
	std::string path = g_dir + "/read me.bin";
	std::vector<u8> mem(content.begin(), content.end());
	mem.reserve(mem.size());
	sys_buffer_reader* rd = NULL; FILE* f = NULL;
	if (file) {
		spill(path, content);
		bool by_path = r.chance(1, 2);
		if (!by_path) f = fopen(path.c_str(), "rb");
		bool owns = r.chance(1, 2);
		if (text) rd = by_path ? new sys_string_file_buffer_reader(path) : new sys_string_file_buffer_reader(f, owns ? sys_true : sys_false);
		else rd = by_path ? new sys_byte_file_buffer_reader(path) : new sys_byte_file_buffer_reader(f, owns ? sys_true : sys_false);
		if (owns) f = NULL;
	} else if (text) rd = new sys_string_buffer_reader(content);
	else { const u8* p = mem.empty() ? (const u8*)"" : &mem[0]; rd = new sys_byte_buffer_reader(p, p + mem.size()); }
	const char* kind = text ? (file ? "string file reader" : "string reader") : (file ? "byte file reader" : "byte reader");
	b.what += vh::fmt(" ; %s of %d bytes:", kind, (int)content.size());
	long long pos = 0, size = (long long)content.size();
	b.check(rd->is_string_buffer() == text, "reader_kind", "is_string_buffer");
	for (int k = (int)r.in(1, 14); k > 0 && !b.bad; --k) {
		int op = (int)r.in(0, 9);
		if (op == 0) {
			int how = (int)r.in(0, 2); long long to = r.in(0, size);
			b.what += vh::fmt(" seek(%d to %lld)", how, to);
			if (how == 2 && r.chance(1, 2)) to = size; else if (how == 2) vh::stat("seeks_from_end");
			rd->seek(how == 0 ? to : how == 1 ? to - pos : file ? to - size : size - to, (sys_File_Seek)how);	// files take the offset of fseek, memory the distance from the end
			pos = to;
			vh::stat("seeks");
		} else if (op <= 2) {
			int n = (int)r.in(0, size - pos);
			if (n == 0 && pos == size && file && text) continue;
			b.what += vh::fmt(" read_str(%d)", n);
			std::string got;
			if (r.chance(1, 2)) got = rd->read_str(n); else { got = "old"; rd->read_str(got, n); }
			b.check(got == content.substr(pos, n), "read_str", "read '" + hex(got) + "', expected '" + hex(content.substr(pos, n)) + "'");
			pos += n; vh::stat("reads");
		} else if (text) {
			sys_string_buffer_reader* sr = rd->to_string_buffer_reader();
			if (!b.check(sr != NULL && rd->to_byte_buffer_reader() == NULL, "reader_cast", "to_string_buffer_reader")) break;
			if (pos == size) continue;
			if (op <= 4) { b.what += " read_char"; i8 c = sr->read_char(); b.check(c == content[pos], "read_char", vh::fmt("read character %d, expected %d", c, content[pos])); ++pos; }
			else if (op <= 6) {
				b.what += " read_line";
				size_t e = content.find('\n', pos); std::string want = content.substr(pos, e == std::string::npos ? e : e - pos), got;
				if (r.chance(1, 2)) got = sr->read_line(); else sr->read_line(got);
				b.check(got == want, "read_line", "read '" + hex(got) + "', expected '" + hex(want) + "'");
				pos = e == std::string::npos ? size : (long long)e + 1;
				vh::stat("lines");
			} else {
				int n = (int)r.in(1, std::min<long long>(size - pos, r.chance(1, 20) ? 400 : 12)); b.what += vh::fmt(" read(%d)", n);
				double want = atof(content.substr(pos, n).c_str()), got = sr->read(n);
				b.check(got == want || want != want, "read_number", vh::fmt("read %g, expected %g", got, want)); pos += n;
			}
			vh::stat("reads");
		} else {
			sys_byte_buffer_reader* br = rd->to_byte_buffer_reader();
			if (!b.check(br != NULL && rd->to_string_buffer_reader() == NULL, "reader_cast", "to_byte_buffer_reader")) break;
			if (op <= 4) {
				int n = (int)r.in(0, size - pos); if (n == 0 && op == 3) continue;
				b.what += vh::fmt(" read(%d)", n);
				std::string got;
				if (op == 3) { std::vector<u8> v; br->read(v, n); got.assign(v.begin(), v.end()); }
				else { u8* p = new u8[n + 1]; p[n] = 77; br->read(p, n); got.assign((char*)p, n); b.check(p[n] == 77, "read_beyond", "wrote behind the destination"); delete[] p; }
				b.check(got == content.substr(pos, n), "read_bytes", "read '" + hex(got) + "', expected '" + hex(content.substr(pos, n)) + "'"); pos += n;
			} else {
				static const int sizes[] = {1, 1, 1, 2, 2, 4, 4, 8, 8, 4, 8};
				int t = (int)r.in(0, T_count - 1); if (pos + sizes[t] > size) continue;
				b.what += std::string(" read_") + type_names[t];
				std::string got;
				switch (t) {
				case T_b8: got = raw((u8)br->read_b8().m_data); break;
				case T_i8: got = raw(br->read_c8()); break;
				case T_u8: got = raw(br->read_u8()); break;
				case T_i16: got = raw(br->read_i16()); break;
				case T_u16: got = raw(br->read_u16()); break;
				case T_i32: got = raw(br->read_i32()); break;
				case T_u32: got = raw(br->read_u32()); break;
				case T_i64: got = raw(br->read_i64()); break;
				case T_u64: got = raw(br->read_u64()); break;
				case T_f32: got = raw(br->read_f32()); break;
				default: got = raw(br->read_f64());
				}
				b.check(got == content.substr(pos, sizes[t]), "read_value", "read '" + hex(got) + "', expected '" + hex(content.substr(pos, sizes[t])) + "'"); pos += sizes[t];
			}
			vh::stat("reads");
		}
		b.check(rd->position() == pos, "reader_position", vh::fmt("position %lld, expected %lld", (long long)rd->position(), pos));
		b.check(rd->size() == size && rd->remain_size() == size - pos, "reader_size", "size or remain_size");
		b.check((bool)rd->is_eof() == (pos == size), "reader_eof", "is_eof");
		b.check(rd->get_status() == sys_IO_Status_OK, "reader_status", "status is not OK");
		b.check((bool)rd->is_closed() == false, "reader_closed", "is_closed");
	}
	log_quiet(b.what);
	if (!b.bad && r.chance(1, 4)) {       // more than there is: an error, nothing read
		static const int sizes[] = {1, 1, 1, 2, 2, 4, 4, 8, 8, 4, 8};
		std::string got = "old"; int n = (int)(size - pos) + (int)r.in(1, 9), op = (int)r.in(0, 3);
		vh::stat("beyond_end");
		if (op == 3 && text && pos < size) op = 0;
		b.what += vh::fmt(" read beyond the end (%d)", op);
		if (op == 0) {
			rd->read_str(got, n);
			b.check(got == "old" || got.empty(), "eof_read", "got '" + hex(got) + "'");
		} else if (text) {
			sys_string_buffer_reader* sr = rd->to_string_buffer_reader();
			if (op == 1) { if (file && pos < size) { rd->seek(size, sys_File_Seek_Set); pos = size; } double x = sr->read(file ? 1 : n); b.check(x == 0, "eof_read", vh::fmt("got the number %g", x)); }
			else if (op == 2) { rd->seek(size, sys_File_Seek_Set); pos = size; i8 c = sr->read_char(); b.check(c == 0, "eof_read", vh::fmt("got the character %d", c)); }
			else { sr->read_line(got); b.check(got == "old" || got.empty(), "eof_read", "got the line '" + hex(got) + "'"); }
		} else {
			sys_byte_buffer_reader* br = rd->to_byte_buffer_reader();
			if (op == 1) { std::vector<u8> v(3, 9); br->read(v, n); b.check(v.empty() || v == std::vector<u8>(3, 9), "eof_read", "bytes were read"); }
			else if (op == 2) { std::vector<u8> v(n, 9); br->read(&v[0], n); b.check(v == std::vector<u8>(n, 9), "eof_read", "bytes were read"); }
			else {
				int t = (int)r.in(0, T_count - 1); double x = 0; b.what += std::string(" ") + type_names[t];
				long long to = size - r.in(0, std::min<long long>(size, sizes[t] - 1)); rd->seek(to, sys_File_Seek_Set); pos = to;
				switch (t) {
				case T_b8: x = br->read_b8().m_data; break;
				case T_i8: x = br->read_c8(); break;
				case T_u8: x = br->read_u8(); break;
				case T_i16: x = br->read_i16(); break;
				case T_u16: x = br->read_u16(); break;
				case T_i32: x = br->read_i32(); break;
				case T_u32: x = br->read_u32(); break;
				case T_i64: x = (double)br->read_i64(); break;
				case T_u64: x = (double)br->read_u64(); break;
				case T_f32: x = br->read_f32(); break;
				default: x = br->read_f64();
				}
				b.check(x == 0, "eof_value", vh::fmt("got %g where there is no value", x)); vh::stat("values_beyond_end");
			}
		}
		b.check(rd->get_status() == sys_IO_Status_Error_Eof, "eof_status", "status is not Eof");
		b.check(rd->position() == pos, "eof_position", vh::fmt("position %lld, expected %lld", (long long)rd->position(), pos));
		mm::clear_log();
	}
	if (file && r.chance(1, 2)) { rd->close(); b.check(rd->is_closed(), "reader_not_closed", "not closed after close"); }
	delete rd;
	if (f != NULL) { b.check(fseek(f, 0, SEEK_SET) == 0, "file_closed", "a file that belongs to the caller was closed"); fclose(f); }
}

static void prop_buffers(Rng& r, long k) {
	Bad b;
	bool text = r.chance(1, 2), file = r.chance(1, 2), append = false;
	std::string path = g_dir + "/out file.bin", str, content;
	std::vector<u8> mem; FILE* f = NULL;
	long long pos = 0;
	sys_buffer_writer* w;
	if (r.chance(1, 30)) {
		b.what = "missing file";
		std::string no = g_dir + "/no such directory/file";
		sys_string_file_buffer_writer sw(no); sys_byte_file_buffer_writer bw(no); sys_string_file_buffer_reader sr(no); sys_byte_file_buffer_reader br(no);
		sys_buffer_writer* ws[] = {&sw, &bw}; sys_buffer_reader* rs[] = {&sr, &br};
		for (int i = 0; i < 2; ++i) {
			b.check(ws[i]->get_status() == sys_IO_Status_Error_File_Operation, "missing_status", "status of a writer of a missing directory");
			b.check(rs[i]->get_status() == sys_IO_Status_Error_File_Operation, "missing_status", "status of a reader of a missing file");
			b.check(ws[i]->is_closed() && rs[i]->is_closed(), "missing_open", "not closed although there is no file");
		}
		b.check(sw.get_status() == sys_IO_Status_Error_File_Operation && bw.get_status() == sys_IO_Status_Error_File_Operation && sr.get_status() == sys_IO_Status_Error_File_Operation && br.get_status() == sys_IO_Status_Error_File_Operation, "missing_status", "status seen on the object itself");
		vh::stat("missing_files");
		log_quiet(b.what);
		return;
	}
	if (!file) {
		if (r.chance(1, 3)) for (int n = (int)r.in(1, 9); n > 0; --n) content += (char)('a' + n);
		str = content; mem.assign(content.begin(), content.end());
		w = text ? (sys_buffer_writer*)new sys_string_buffer_writer(&str) : new sys_byte_buffer_writer(&mem);
	} else {
		spill(path, "something else");
		append = r.chance(1, 4);
		if (append) { content = r.chance(1, 4) ? "" : r.chance(1, 60) ? std::string((size_t)r.in(1000, 20000), 'q') : "already there"; spill(path, content); if (content.empty() && r.chance(1, 2)) unlink(path.c_str()); pos = (long long)content.size(); vh::stat("appended"); }
		int how = append ? 0 : (int)r.in(0, 2);
		if (how > 0) f = fopen(path.c_str(), "wb+");
		b8 own = how == 2 ? sys_true : sys_false;
		if (text) w = how == 0 ? new sys_string_file_buffer_writer(path, append) : new sys_string_file_buffer_writer(f, own);
		else w = how == 0 ? new sys_byte_file_buffer_writer(path, append) : new sys_byte_file_buffer_writer(f, own);
		if (how != 1) f = NULL;
	}
	b.what = vh::fmt("%s%s writer:", text ? "string" : "byte", file ? (append ? " file (append)" : " file") : "");
	b.check((bool)w->is_string_buffer() == text, "writer_kind", "is_string_buffer");
	bool huge = r.chance(1, 100); if (huge) vh::stat("large_contents");
	for (int n = (int)r.in(0, huge ? 30 : 12); n > 0 && !b.bad; --n) {
		int op = (int)r.in(0, 9); std::string s; if (huge && op >= 3 && op <= 6) op += 3;
		vh::note(b.what);
		if (op == 0) {
			if (append) continue;
			int how = (int)r.in(0, 2); long long size = (long long)content.size(), to = r.in(0, size);
			if (!text && r.chance(1, 3)) to = size + r.in(0, 5);     // a gap, filled with zeros once something is written
			b.what += vh::fmt(" seek(%d to %lld)", how, to);
			if (how == 2 && r.chance(1, 2)) to = size; else if (how == 2) vh::stat("seeks_from_end");
			w->seek(how == 0 ? to : how == 1 ? to - pos : file ? to - size : size - to, (sys_File_Seek)how);
			pos = to; vh::stat("seeks");
			b.check(w->position() == pos, "writer_position", vh::fmt("position %lld, expected %lld", (long long)w->position(), pos));
			continue;
		} else if (op <= 6) {
			int t = (int)r.in(0, T_count - 1); Value v = some_value(r, t, true);
			if (text && t == T_i8 && v.i == 0) v.i = 'x';
			s = text ? text_of(v) : bytes_of(v);
			Sink k = {w};
			put_value(k, v);
			b.what += std::string(" ") + type_names[t];
		} else {
			int most = huge ? (int)r.in(0, 9000) : (int)r.in(0, 12);
			if (huge) { char c = (char)r.in(1, 255); for (int m = most; m > 0; --m) { s += c; if (m % 61 == 0) c = (char)r.in(1, 255); } }
			else for (int m = most; m > 0; --m) s += r.chance(1, 5) ? '\n' : r.chance(1, 9) ? (char)0 : (char)r.in(1, 255);
			if (op == 7) { size_t z = s.find((char)0); if (z != std::string::npos) s.resize(z); }
			if (s.empty() && pos > (long long)content.size()) continue;
			b.what += " '" + hex(s) + "'";
			if (op == 7) w->write(s.c_str());
			else if (op == 8 || text) w->write(s);
			else {
				sys_byte_buffer_writer* bw = (sys_byte_buffer_writer*)w;
				std::vector<u8> v(s.begin(), s.end());
				if (r.chance(1, 2)) bw->write(v); else { const u8* p = v.empty() ? (const u8*)"" : &v[0]; bw->write(p, p + v.size()); }
			}
		}
		if (!s.empty() && (long long)content.size() < pos) content.resize(pos, 0);
		for (size_t i = 0; i < s.size(); ++i) { if (pos < (long long)content.size()) content[pos] = s[i]; else content += s[i]; ++pos; }
		vh::stat("writes"); if (s.empty()) vh::stat("empty_writes");
		b.check(w->position() == pos, "writer_position", vh::fmt("position %lld, expected %lld", (long long)w->position(), pos));
		b.check(w->get_status() == sys_IO_Status_OK, "writer_status", "status is not OK");
	}
	if (!b.bad) {
		b.check((bool)w->is_closed() == false, "writer_closed", "is_closed");
		if (file) {
			if (r.chance(1, 2)) { w->close(); b.check(w->is_closed(), "writer_not_closed", "not closed after close"); }
		}
	}
	delete w;
	if (f != NULL) { b.check(fflush(f) == 0, "file_closed", "a file that belongs to the caller was closed"); fclose(f); }
	std::string got = file ? slurp(path) : text ? str : std::string(mem.begin(), mem.end());
	if (!b.bad) b.check(got == content, "written_content", vh::fmt("%d bytes '", (int)got.size()) + hex(got) + vh::fmt("', expected %d bytes '", (int)content.size()) + hex(content) + "'");
	log_quiet(b.what);
	if (!b.bad) {
		if (text && r.chance(1, 2)) { content.clear(); for (int n = (int)r.in(0, 40); n > 0; --n) { static const char c[] = "0123456789.-e \nabc"; content += c[r.next() % (sizeof c - 1)]; } }
		check_reader(r, b, text, r.chance(1, 2), content);
	}
	vh::dist("nontrivial", vh::hash_str(b.what));
	if (k < 6) vh::sample(b.what);
}

// ---------------------------------------------------------------- json

enum { N_map, N_seq, N_text, N_value };
struct Node { int kind; std::string text; Value v; std::vector<Node> kids; std::vector<std::string> names; bool as_vector; };

static std::string json_text(Rng& r, bool name, bool textual) {
	std::string s;
	int n = (int)r.in(name ? 1 : 0, r.chance(1, 8) ? 40 : 8); if (r.chance(1, 3000)) { n = (int)r.in(200, r.chance(1, 4) ? 70000 : 5000); vh::stat("long_texts"); }
	for (int i = 0; i < n; ++i) {
		int k = (int)r.in(0, 9);
		char c;
		if (k < 6) c = (char)r.in('a', 'z'); else if (k == 6) { static const char p[] = " ,.\"'\\/:-+=#\r"; c = p[r.next() % (sizeof p - 1)]; } else if (k == 7) c = (char)r.in(128, 255); else c = (char)r.in('0', '9');
		if (name && textual && c == ':') c = ';';
		s += c;
	}
	return s;
}

static Node json_scalar(Rng& r, int t, bool textual) {
	Node n; n.kind = t < 0 ? N_text : N_value; n.as_vector = false;
	if (t < 0) n.text = json_text(r, false, textual); else n.v = some_value(r, t, r.chance(9, 10));
	if (t >= T_f32 && n.v.d != n.v.d) n.v.d = 0.1f;
	return n;
}
static Node json_tree(Rng& r, int kind, int depth, bool textual) {
	Node n; n.kind = kind; n.as_vector = false;
	if (kind >= N_text) return json_scalar(r, kind == N_text ? -1 : (int)r.in(0, T_count - 1), textual);
	int count = (int)r.in(0, depth > 2 ? 3 : 5);
	if (kind == N_seq && r.chance(1, 30)) count = (int)r.in(50, 300);
	int elem = depth >= 4 || count > 10 ? (int)r.in(N_text, N_value) : (int)r.in(N_map, N_value);
	n.as_vector = elem >= N_text && r.chance(1, 2);
	int t = elem == N_text ? -1 : (int)r.in(0, T_count - 1);
	for (int i = 0; i < count; ++i) {
		if (kind == N_map) { std::string name; do { name = json_text(r, true, textual); } while (std::find(n.names.begin(), n.names.end(), name) != n.names.end()); n.names.push_back(name); }
		int e = elem;
		if (!n.as_vector) { if (kind == N_map) e = depth >= 4 ? (int)r.in(N_text, N_value) : (int)r.in(N_map, N_value); else if (elem >= N_text) e = (int)r.in(N_text, N_value); if (kind == N_seq && !textual && r.chance(1, 4)) { int o = e; e = depth >= 4 || count > 10 ? (int)r.in(N_text, N_value) : (int)r.in(N_map, N_value); if ((o >= N_text) != (e >= N_text)) vh::stat("mixed"); } }
		n.kids.push_back(n.as_vector ? json_scalar(r, t, textual) : json_tree(r, e, depth + 1, textual));
	}
	if (count == 0) n.as_vector = false;
	return n;
}
template <class T> static T as(const Value& v) { return v.t == T_u64 ? (T)v.u : v.t >= T_f32 ? (T)v.d : (T)v.i; }
template <> b8 as<b8>(const Value& v) { return b8((i32)v.i); }
template <class T> static void put_list(sys_json_writer& w, const Node& n) {
	if (n.kind == N_seq) { std::vector<T> l; for (size_t i = 0; i < n.kids.size(); ++i) l.push_back(as<T>(n.kids[i].v)); w << l; }
	else { std::map<std::string, T> l; for (size_t i = 0; i < n.kids.size(); ++i) l.insert(std::make_pair(n.names[i], as<T>(n.kids[i].v))); w << l; }
}
static void put_texts(sys_json_writer& w, const Node& n) {
	if (n.kind == N_seq) { Strings l; for (size_t i = 0; i < n.kids.size(); ++i) l.push_back(n.kids[i].text); w << l; }
	else { std::map<std::string, std::string> l; for (size_t i = 0; i < n.kids.size(); ++i) l.insert(std::make_pair(n.names[i], n.kids[i].text)); w << l; }
}
static void json_write(sys_json_writer& w, const Node& n, Rng& r, bool root = false) {
	if (n.kind == N_text) { if (n.text.find((char)0) == std::string::npos && r.chance(1, 2)) w << n.text.c_str(); else w << n.text; return; }
	if (n.kind == N_value) { put_value(w, n.v); return; }
	if (n.as_vector && !root) {
		vh::stat("written_as_list");
		if (n.kids[0].kind == N_text) { put_texts(w, n); return; }
		switch (n.kids[0].v.t) {
		case T_b8: put_list<b8>(w, n); return;
		case T_i8: put_list<i8>(w, n); return;
		case T_u8: put_list<u8>(w, n); return;
		case T_i16: put_list<i16>(w, n); return;
		case T_u16: put_list<u16>(w, n); return;
		case T_i32: put_list<i32>(w, n); return;
		case T_u32: put_list<u32>(w, n); return;
		case T_i64: put_list<i64>(w, n); return;
		case T_u64: put_list<u64>(w, n); return;
		case T_f32: put_list<f32>(w, n); return;
		default: put_list<f64>(w, n); return;
		}
	}
	if (!root) w << (n.kind == N_map ? "{" : "[");
	for (size_t i = 0; i < n.kids.size(); ++i) { if (n.kind == N_map) w << n.names[i]; json_write(w, n.kids[i], r); }
	if (!root) w << (n.kind == N_map ? "}" : "]");
}
template <class T> static bool same_value(T a, T b) { return a == b; }
template <class T> static bool read_one(const sys_json_reader& rd, const Value& v, std::string& got) {
	T x = as<T>(v); x = (T)(x == (T)1 ? 3 : 1);
	rd >> x; std::ostringstream o; o.precision(17); o << +x; got = o.str();
	return same_value(x, as<T>(v));
}
static bool read_value(const sys_json_reader& rd, const Value& v, std::string& got) {
	switch (v.t) {
	case T_b8: { b8 x = v.i ? sys_false : sys_true; rd >> x; got = x ? "true" : "false"; return (bool)x == (v.i != 0); }
	case T_i8: return read_one<i8>(rd, v, got);
	case T_u8: return read_one<u8>(rd, v, got);
	case T_i16: return read_one<i16>(rd, v, got);
	case T_u16: return read_one<u16>(rd, v, got);
	case T_i32: return read_one<i32>(rd, v, got);
	case T_u32: return read_one<u32>(rd, v, got);
	case T_i64: return read_one<i64>(rd, v, got);
	case T_u64: return read_one<u64>(rd, v, got);
	case T_f32: return read_one<f32>(rd, v, got);
	}
	return read_one<f64>(rd, v, got);
}
template <class T> static bool read_list(const sys_json_reader& rd, const Node& n) {
	if (n.kind == N_seq) {
		std::vector<T> l(2); rd >> l;
		if (l.size() != n.kids.size()) return false;
		for (size_t i = 0; i < l.size(); ++i) if (!same_value(l[i], as<T>(n.kids[i].v))) return false;
		return true;
	}
	std::map<std::string, T> l; rd >> l;
	if (l.size() != n.kids.size()) return false;
	for (size_t i = 0; i < n.kids.size(); ++i) if (!l.count(n.names[i]) || !same_value(l[n.names[i]], as<T>(n.kids[i].v))) return false;
	return true;
}
static bool read_list(const sys_json_reader& rd, const Node& n) {
	if (n.kids[0].kind == N_text) {
		if (n.kind == N_seq) { Strings l(1, "old"); rd >> l; if (l.size() != n.kids.size()) return false; for (size_t i = 0; i < l.size(); ++i) if (l[i] != n.kids[i].text) return false; return true; }
		std::map<std::string, std::string> l; rd >> l; if (l.size() != n.kids.size()) return false;
		for (size_t i = 0; i < n.kids.size(); ++i) if (!l.count(n.names[i]) || l[n.names[i]] != n.kids[i].text) return false;
		return true;
	}
	switch (n.kids[0].v.t) {
	case T_b8: return read_list<b8>(rd, n);
	case T_i8: return read_list<i8>(rd, n);
	case T_u8: return read_list<u8>(rd, n);
	case T_i16: return read_list<i16>(rd, n);
	case T_u16: return read_list<u16>(rd, n);
	case T_i32: return read_list<i32>(rd, n);
	case T_u32: return read_list<u32>(rd, n);
	case T_i64: return read_list<i64>(rd, n);
	case T_u64: return read_list<u64>(rd, n);
	case T_f32: return read_list<f32>(rd, n);
	}
	return read_list<f64>(rd, n);
}

struct Doc { Bad b; Rng& r; Doc(Rng& r) : r(r) {} void read(const sys_json_reader& rd, const Node& n, const std::string& at, int budget); };

void Doc::read(const sys_json_reader& rd, const Node& n, const std::string& at, int budget) {
	if (b.bad) return;
	vh::stat("nodes_read");
	b.check((bool)rd.is_map() == (n.kind == N_map) && (bool)rd.is_seq() == (n.kind == N_seq), "json_kind", "kind of " + at);
	if (b.bad) return;
	if (n.kind == N_text) {
		std::string got = "old"; if (r.chance(1, 2)) rd >> got; else got = rd.to_string();
		b.check(got == n.text, "json_text", at + " is '" + hex(got) + "', expected '" + hex(n.text) + "'");
		b.check(rd.size() == 1, "json_size", "size of " + at);
	} else if (n.kind == N_value) {
		std::string got;
		b.check(read_value(rd, n.v, got), std::string("json_") + type_names[n.v.t], at + " is " + got + ", expected " + (n.v.t >= T_f32 ? vh::fmt("%.17g", n.v.d) : text_of(n.v)));
		if (n.v.t == T_i32 && !b.bad) b.check(rd.to_i32() == (i32)n.v.i, "json_i32", "to_i32 of " + at);
	} else {
		int before = r.chance(1, 2) ? (int)rd.size() : -1;
		if (before >= 0) b.check(before == (int)n.kids.size(), "json_size", at + vh::fmt(" has size %d, expected %d", before, (int)n.kids.size()));
		if (n.as_vector && r.chance(1, 2) && !b.bad) { vh::stat("read_as_list"); b.check(read_list(rd, n), "json_list", at + " read as a list"); }
		std::vector<size_t> order; for (size_t i = 0; i < n.kids.size(); ++i) order.push_back(i);
		for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.next() % i]);
		if (order.size() > 12) order.resize(12);
		int how = (int)r.in(0, 2);
		if (how == 0) {
			// in stored order: maps by name, sequences as written
			std::vector<size_t> o; for (size_t i = 0; i < n.kids.size(); ++i) o.push_back(i);
			if (n.kind == N_map) std::sort(o.begin(), o.end(), [&n](size_t a, size_t c) { return n.names[a] < n.names[c]; });
			sys_json_reader_iteartor it = rd.begin(), end = rd.end(); size_t i = 0; bool post = r.chance(1, 2);
			for (; it != end && i < o.size() && !b.bad; ++i) {
				sys_json_reader_iteartor was = post ? it++ : it;
				if (!post) ++it;
				sys_json_reader e = *was;
				if (n.kind == N_map) b.check(e.node_name() == n.names[o[i]], "json_name", "name '" + hex(e.node_name()) + "', expected '" + hex(n.names[o[i]]) + "'");
				if (i < 12 && !b.bad) read(e, n.kids[o[i]], at + vh::fmt(".#%d", (int)o[i]), budget + 1);
			}
			b.check(b.bad || (it == end && i == o.size()), "json_iterate", vh::fmt("%d elements by iterating over ", (int)i) + at);
			if (!b.bad && i > 0 && budget < 6) { bool pd = r.chance(1, 2); sys_json_reader_iteartor was = it; if (pd) { sys_json_reader_iteartor x = it--; b.check(x == was, "json_iterate", "value of it--"); } else --it; read(*it, n.kids[o[i - 1]], at + ".last", budget + 1); }
			vh::stat("iterated");
		} else for (size_t i = 0; i < order.size() && !b.bad; ++i) {
			size_t e = order[i];
			if (n.kind == N_map) {
				b.check(rd.has_key(n.names[e]), "json_has_key", at + " lacks '" + hex(n.names[e]) + "'");
				if (b.bad) return;
				sys_json_reader c = r.chance(1, 2) ? rd[n.names[e]] : rd[n.names[e].c_str()];
				b.check(c.node_name() == n.names[e], "json_name", "node_name");
				read(c, n.kids[e], at + "." + hex(n.names[e]), budget + 1);
			} else read(rd[(i32)e], n.kids[e], at + vh::fmt("[%d]", (int)e), budget + 1);
		}
		if (n.kind == N_map) b.check(!rd.has_key("no such name") , "json_has_key", "has a name that was not written");
		b.check(rd.size() == (int)n.kids.size(), "json_size", at + vh::fmt(" has size %d, expected %d", (int)rd.size(), (int)n.kids.size()));
	}
}

static std::string describe(const Node& n, int depth = 0) {
	if (n.kind == N_text) return "'" + hex(n.text).substr(0, 20) + "'";
	if (n.kind == N_value) return std::string(type_names[n.v.t]) + " " + (n.v.t >= T_f32 ? vh::fmt("%.9g", n.v.d) : n.v.t == T_i8 ? vh::fmt("%d", (int)n.v.i) : text_of(n.v));
	std::string s = n.kind == N_map ? "{" : "[";
	for (size_t i = 0; i < n.kids.size() && i < 6 && s.size() < 300; ++i) s += (i ? "," : "") + (n.kind == N_map ? hex(n.names[i]).substr(0, 10) + ":" : std::string()) + describe(n.kids[i], depth + 1);
	return s + (n.kids.size() > 6 ? ",..." : "") + (n.kind == N_map ? "}" : "]");
}

static void prop_json(Rng& r, long k) {
	Doc d(r);
	bool textual = r.chance(1, 2), file = r.chance(1, 3), seq = r.chance(1, 5);
	Node root;
	do { root = json_tree(r, seq ? N_seq : N_map, 0, textual); } while (seq && textual && !root.kids.empty() && root.kids[0].kind >= N_text);
	if (r.chance(1, 100)) {	// many levels
		for (int n = (int)r.in(3, 60); n > 0; --n) {
			Node o; o.kind = n == 1 ? (seq ? N_seq : N_map) : (int)r.in(N_map, N_seq); o.as_vector = false; int more = (int)r.in(0, 2), mine = (int)r.in(0, more);
			for (int i = 0; i <= more; ++i) { Node leaf; if (i != mine) leaf = o.kind == N_map || !textual ? json_scalar(r, (int)r.in(-1, T_count - 1), textual) : json_tree(r, root.kind, 3, textual); o.kids.push_back(i == mine ? root : leaf); if (o.kind == N_map) o.names.push_back(vh::fmt("n%d", i)); }
			root = o;
		}
		vh::stat("deep_documents");
	}
	d.b.what = vh::fmt("%s%s document ", textual ? "text" : "binary", file ? " file" : "") + describe(root);
	vh::note(d.b.what);
	std::string path = g_dir + "/doc", str; std::vector<u8> mem;
	{
		sys_buffer_writer* w;
		if (file) w = textual ? (sys_buffer_writer*)new sys_string_file_buffer_writer(path) : new sys_byte_file_buffer_writer(path);
		else w = textual ? (sys_buffer_writer*)new sys_string_buffer_writer(&str) : new sys_byte_buffer_writer(&mem);
		sys_json_writer jw(w, seq ? sys_false : sys_true);
		json_write(jw, root, r, true);
		d.b.check(w->get_status() == sys_IO_Status_OK, "json_write_status", "status after writing");
		delete w;
	}
	log_quiet(d.b.what);
	sys_buffer_reader* rd;
	const u8* p = mem.empty() ? (const u8*)"" : &mem[0];
	if (file) rd = textual ? (sys_buffer_reader*)new sys_string_file_buffer_reader(path) : new sys_byte_file_buffer_reader(path);
	else rd = textual ? (sys_buffer_reader*)new sys_string_buffer_reader(str) : new sys_byte_buffer_reader(p, p + mem.size());
	for (int t = (int)r.in(1, 2); t > 0 && !d.b.bad; --t) {
		sys_json_reader top(rd, "", 0, (i32)rd->size(), seq ? sys_Node_Type_Seq : sys_Node_Type_Map);
		d.read(top, root, "root", 0);
		if (r.chance(1, 3) && !d.b.bad) { vh::stat("read_again"); d.read(top, root, "root", 0); }
		if (t > 1) rd->seek(r.in(0, rd->size()), sys_File_Seek_Set);
	}
	d.b.check(rd->get_status() == sys_IO_Status_OK, "json_read_status", "status after reading");
	delete rd;
	log_quiet(d.b.what);
	vh::stat(textual ? (file ? "text_files" : "texts") : (file ? "binary_files" : "binaries"));
	vh::dist("nontrivial", vh::hash_str(d.b.what));
	if (k < 6) vh::sample(d.b.what);
}

// ---------------------------------------------------------------- strings

static std::string some_text(Rng& r, int max, const char* alphabet) {
	std::string s; size_t n = strlen(alphabet);
	for (int k = (int)r.in(0, max); k > 0; --k) s += alphabet[r.next() % n];
	return s;
}
static int edit_distance(const std::string& a, const std::string& c, int ins, int rep, int del) {
	std::vector<int> last(c.size() + 1), now(c.size() + 1);
	for (size_t j = 0; j <= c.size(); ++j) last[j] = (int)j * ins;
	for (size_t i = 1; i <= a.size(); ++i) {
		const char* q = c.data(); const int* u = &last[0]; int* v = &now[0]; char x = a[i - 1]; v[0] = (int)i * del;
		for (size_t j = 1, n = c.size(); j <= n; ++j) { int w = u[j - 1] + (x == q[j - 1] ? 0 : rep), d = u[j] + del, e = v[j - 1] + ins; v[j] = std::min(w, std::min(d, e)); }
		last.swap(now);
	}
	return last[c.size()];
}
static std::string caps(std::string s, bool up) { for (size_t i = 0; i < s.size(); ++i) { if (up && s[i] >= 'a' && s[i] <= 'z') s[i] -= 32; if (!up && s[i] >= 'A' && s[i] <= 'Z') s[i] += 32; } return s; }

static void prop_strings(Rng& r, long k) {
	Bad b;
	int kind = (int)r.in(0, 8);
	if (kind == 0) {
		std::string t = some_text(r, 20, "a,;b"), tag = r.chance(1, 8) ? "" : some_text(r, 3, ",;");
		b.what = "split of '" + t + "' at '" + tag + "'";
		Strings want, got(1, "old");
		if (!t.empty()) {
			if (tag.empty()) want.push_back(t);
			else { size_t p = 0, q; while ((q = t.find(tag, p)) != std::string::npos) { want.push_back(t.substr(p, q - p)); p = q + tag.size(); } want.push_back(t.substr(p)); }
		}
		if (r.chance(1, 2)) got = sys_strhelper::split(t, tag); else sys_strhelper::split(got, t, tag);
		std::string g; for (size_t i = 0; i < got.size(); ++i) g += "[" + got[i] + "]";
		b.check(got == want, "split", "got " + g); vh::stat("splits");
	} else if (kind == 1) {
		std::string t = some_text(r, 20, "abc"), o = some_text(r, 3, "abc"), n = some_text(r, 4, "abcd");
		if (o.empty()) o = "a";
		b.what = "replacing '" + o + "' with '" + n + "' in '" + t + "'";
		std::string want; size_t p = 0, q; while ((q = t.find(o, p)) != std::string::npos) { want += t.substr(p, q - p) + n; p = q + o.size(); } want += t.substr(p);
		std::string got = t; sys_strhelper::replace(got, n, o);
		b.check(got == want, "replace", "got '" + got + "'"); vh::stat("replaced");
	} else if (kind == 2) {
		std::string t = some_text(r, 12, "\t ab"); b.what = "trim_left of '" + hex(t) + "'";
		char c = r.chance(1, 2) ? '\t' : ' '; size_t p = 0; while (p < t.size() && t[p] == c) ++p;
		std::string got = t; sys_strhelper::trim_left(got, c); b.check(got == t.substr(p), "trim_left", "got '" + hex(got) + "'");
	} else if (kind == 3) {
		std::string t; for (int n = (int)r.in(0, 20); n > 0; --n) t += (char)(r.chance(3, 4) ? r.in(32, 126) : r.in(128, 255));
		std::string u = t; if (r.chance(1, 2)) u = caps(u, r.chance(1, 2)); else if (!u.empty() && r.chance(1, 2)) u[r.next() % u.size()] = 'Q';
		b.what = "case of '" + hex(t) + "' and '" + hex(u) + "'";
		std::string g = t; sys_strhelper::upper(g); b.check(g == caps(t, true), "upper", "got '" + hex(g) + "'");
		g = t; sys_strhelper::lower(g); b.check(g == caps(t, false), "lower", "got '" + hex(g) + "'");
		b.check(sys_strhelper::equal(t, u, false) == (t == u) && sys_strhelper::equal(t, u) == (t == u), "equal", "with case");
		b.check(sys_strhelper::equal(t, u, true) == (caps(t, true) == caps(u, true)), "equal", "without case");
	} else if (kind <= 5) {
		bool big = r.chance(1, 40);
		std::string x = some_text(r, big ? 700 : r.chance(1, 3) ? 70 : 12, "abC"), y = some_text(r, big ? 700 : r.chance(1, 3) ? 70 : 12, "aBc");
		if (r.chance(1, 3)) { y = x; for (int n = (int)r.in(0, 4); n > 0 && !y.empty(); --n) { size_t p = r.next() % y.size(); if (r.chance(1, 2)) y.erase(p, 1); else y.insert(p, 1, 'b'); } }
		int ins = 1, rep = 1, del = 1; bool ignore = r.chance(1, 3);
		if (r.chance(1, 2)) { ins = (int)r.in(1, 9); rep = (int)r.in(1, 9); del = (int)r.in(1, 9); }
		if (r.chance(1, 50)) {	// lengths at which other buffers are taken
			static const int at[] = {16, 32, 64, 256}; int n = r.pick(at); if (r.chance(1, 20)) { n = 1024; vh::stat("words_of_1024"); } if (r.chance(1, 300)) { n = 4048; vh::stat("words_of_4048"); } if (r.chance(1, 1500)) { n = 32767; vh::stat("words_of_32767"); }
			x.clear(); while ((int)x.size() < n) x += "abC"[r.next() % 3]; y = x; int m = n + (int)r.in(-1, 1), q = n + (int)r.in(-1, n < 1024 ? 9 : 1);
			for (int e = (int)r.in(0, 9); e > 0; --e) { y[r.next() % y.size()] = 'b'; x[r.next() % x.size()] = 'C'; size_t from = r.next() % y.size(); y.erase(from, 1); y.insert(r.next() % y.size(), 1, 'a'); }
			x.resize((size_t)m, 'a'); y.resize((size_t)q, 'b'); if (r.chance(1, 2)) x.swap(y);
		}
		if (big) vh::stat("long_words");
		b.what = vh::fmt("levenshtein_distance(%d and %d characters, insert %d, replace %d, delete %d, ignore case %d) ", (int)x.size(), (int)y.size(), ins, rep, del, ignore) + x.substr(0, 80) + " " + y.substr(0, 80);
		vh::note(b.what);
		int want = ignore ? edit_distance(caps(x, true), caps(y, true), ins, rep, del) : edit_distance(x, y, ins, rep, del);
		int got = ins == 1 && rep == 1 && del == 1 && !ignore ? sys_strhelper::levenshtein_distance(x, y) : sys_strhelper::levenshtein_distance(x, y, ins, rep, del, ignore);
		b.check(got == want, "levenshtein", vh::fmt("is %d, expected %d", got, want)); vh::stat("distances");
	} else if (kind <= 7) {
		std::string want; sys_strcombine c; const sys_strcombine* cc = &c;
		b.what = "sys_strcombine";
		for (int n = (int)r.in(0, 8); n > 0; --n) {
			int t = (int)r.in(0, T_count + 4);
			if (t < T_count) { Value v = some_value(r, t, true); if (t == T_i8 && v.i == 0) v.i = 'q'; put_value(c, v); want += text_of(v); b.what += std::string(" ") + type_names[t]; }
			else if (t == T_count) { std::string s = some_text(r, 6, "xyz%d"); c << s; want += s; b.what += " " + s; }
			else if (t == T_count + 1) { std::string s = some_text(r, 6, "xyz%s"); c << s.c_str(); want += s; b.what += " " + s; }
			else if (t == T_count + 2) { std::vector<i32> v; want += "["; for (int m = (int)r.in(0, 4); m > 0; --m) { v.push_back((i32)r.in(-9, 99)); want += vh::fmt(v.size() > 1 ? ", %d" : "%d", v.back()); } want += "]"; c << v; b.what += " vector"; }
			else if (t == T_count + 3) { std::map<std::string, i32> m; for (int q = (int)r.in(0, 3); q > 0; --q) m[some_text(r, 3, "klm")] = (i32)r.in(-9, 9); c << m; want += "{\n"; for (std::map<std::string, i32>::iterator i = m.begin(); i != m.end(); ++i) want += i->first + vh::fmt(":%d\n", i->second); want += "}"; b.what += " map"; }
			else { sys_strcombine o; o << "in" << (i32)5; c << o; want += "in5"; b.what += " combine"; }
		}
		std::string got = *cc; b.check(got == want, "strcombine", "got '" + hex(got) + "', expected '" + hex(want) + "'"); vh::stat("combined");
		if (r.chance(1, 2)) {
			std::string p = some_text(r, r.chance(1, 20) ? 5000 : 30, "pqr%"); if (r.chance(1, 300)) { p = std::string((size_t)(102300 + r.in(0, 200) + (r.chance(1, 2) ? 200000 : 0)), 'w'); vh::stat("long_combined"); } int n = (int)r.in(-99999, 99999); double x = (double)r.in(-1000, 1000) / 16;
			std::string g2 = sys_strhelper::combine("%s|%5d|%.3f|%c", p.c_str(), n, x, 'z'); char e[128]; snprintf(e, sizeof e, "|%5d|%.3f|%c", n, x, 'z');
			b.check(g2 == p + e, "combine", "got '" + hex(g2) + "'");
		}
	} else {
		std::string t = some_text(r, 30, "abc XYZ019.,~"); std::wstring wide(t.begin(), t.end());
		b.what = "conversions of '" + t + "'";
		b.check(sys_strconvert::utf16_from_local(t) == wide, "utf16_from_local", "of ASCII");
		b.check(sys_strconvert::local_from_utf16(wide) == t, "local_from_utf16", "of ASCII");
		std::wstring w; std::string u;
		for (int n = (int)r.in(0, 12); n > 0; --n) {
			unsigned c = r.chance(1, 3) ? (unsigned)r.in(1, 127) : r.chance(1, 2) ? (unsigned)r.in(128, 0x7ff) : (unsigned)r.in(0x800, 0xd7ff);
			w += (wchar_t)c;
			if (c < 0x80) u += (char)c; else if (c < 0x800) { u += (char)(0xc0 | c >> 6); u += (char)(0x80 | (c & 63)); } else { u += (char)(0xe0 | c >> 12); u += (char)(0x80 | (c >> 6 & 63)); u += (char)(0x80 | (c & 63)); }
		}
		b.what += " and of '" + hex(u) + "'";
		std::string g = sys_strconvert::utf8_from_utf16(w); b.check(g == u, "utf8_from_utf16", "got '" + hex(g) + "'");
		b.check(sys_strconvert::utf16_from_utf8(u) == w, "utf16_from_utf8", "wrong");
		b.check(sys_strconvert::utf8_from_local(u) == u && sys_strconvert::local_from_utf8(u) == u, "utf8_local", "wrong"); vh::stat("converted");
		char* av[] = {(char*)"one", (char*)"", (char*)t.c_str()}; int ac = (int)r.in(0, 3);
		Strings a = sys_strhelper::wstring_from_char_array(ac, av); b.check((int)a.size() == ac && (ac < 3 || a[2] == t) && (ac < 1 || a[0] == "one"), "arguments", "wstring_from_char_array");
	}
	log_quiet(b.what);
	vh::dist("nontrivial", vh::hash_str(b.what));
	if (k < 6) vh::sample(b.what);
}

// ---------------------------------------------------------------- paths

static Strings sorted(Strings s) { std::sort(s.begin(), s.end()); return s; }
static std::string join(const Strings& s) { std::string t; for (size_t i = 0; i < s.size() && i < 8; ++i) t += "[" + s[i] + "]"; return t; }
static void list_tree(const std::string& p, const std::string& rel, std::map<std::string, std::string>& out) {
	if (DIR* d = opendir(p.c_str())) {
		while (dirent* e = readdir(d)) {
			std::string n = e->d_name; if (n == "." || n == "..") continue;
			struct stat st; if (lstat((p + "/" + n).c_str(), &st) != 0) continue;
			if (S_ISDIR(st.st_mode)) { out[rel + n + "/"] = "<dir>"; list_tree(p + "/" + n, rel + n + "/", out); }
			else out[rel + n] = S_ISLNK(st.st_mode) ? "<link>" : slurp(p + "/" + n);
		}
		closedir(d);
	}
}
static const char* file_names[] = {"a.txt", "b.TXT", "txt", "c.txt.txt", "d.png", "e", "name with space.txt", ".hidden", "f.txt.bak", "x.tx", "q't.png"};
static const char* dir_names[] = {"one", "two.txt", "with space", ".dot"};

static void build_tree(Rng& r, const std::string& dir, int depth, const std::string& outside) {
	for (int n = (int)r.in(0, 5); n > 0; --n) spill(dir + "/" + r.pick(file_names), some_text(r, 40, "content\n"));
	if (r.chance(1, 4)) { std::string l = dir + "/link"; if (symlink(outside.c_str(), l.c_str()) == 0) vh::stat("links"); }
	if (depth < 3) for (int n = (int)r.in(0, 2); n > 0; --n) { std::string d = dir + "/" + r.pick(dir_names); if (mkdir(d.c_str(), 0755) == 0) build_tree(r, d, depth + 1, outside); }
}

static void prop_paths(Rng& r, long k) {
	Bad b;
	std::string root = g_dir + "/t", out = g_dir + "/outside";
	int kind = (int)r.in(0, 3);
	if (kind == 0) {                  // names
		std::string dir, base, ext, path;
		for (int n = (int)r.in(0, 3); n > 0; --n) dir += some_text(r, 4, "ab. ") + (r.chance(1, 3) ? "\\" : "/");
		base = some_text(r, 5, "xY. "); if (r.chance(2, 3)) ext = "." + some_text(r, 3, "tXt");
		path = dir + base + ext;
		std::string name = base + ext, norm = path; for (size_t i = 0; i < norm.size(); ++i) if (norm[i] == '\\') norm[i] = '/';
		b.what = "names of '" + path + "'"; vh::stat("names");
		std::string got = sys_path::get_file_name(path); b.check(got == name, "file_name", "get_file_name gives '" + got + "'");
		size_t dot = name.rfind('.');
		got = sys_path::get_file_title(path); b.check(got == (dot == std::string::npos ? name : name.substr(0, dot)), "file_title", "get_file_title gives '" + got + "'");
		got = sys_path::get_file_extend_name(path); b.check(got == (dot == std::string::npos ? "" : caps(name.substr(dot), false)), "extend_name", "get_file_extend_name gives '" + got + "'");
		if (!dir.empty()) {
			got = sys_path::get_dir_path(path); b.check(got == norm.substr(0, dir.size()), "dir_path", "get_dir_path gives '" + got + "'");
			std::string d = norm.substr(0, dir.size() - 1); size_t s = d.rfind('/'); std::string want = s == std::string::npos ? d : d.substr(s + 1);
			got = sys_path::get_dir_name(dir); b.check(got == want, "dir_name", "get_dir_name of '" + dir + "' gives '" + got + "'");
		}
		b.check(sys_path::is_dir(path) == (!path.empty() && (path[path.size() - 1] == '/' || path[path.size() - 1] == '\\')), "is_dir", "is_dir");
	} else {
		remove_tree(root); remove_tree(out);
		mkdir(root.c_str(), 0755); mkdir(out.c_str(), 0755); spill(out + "/precious", "keep me");
		build_tree(r, root, 0, r.chance(1, 2) ? out : out + "/precious");
		std::map<std::string, std::string> have; list_tree(root, "", have);
		if (kind == 1) {              // listing
			std::string sub; { Strings d(1, ""); for (std::map<std::string, std::string>::iterator i = have.begin(); i != have.end(); ++i) if (i->second == "<dir>") d.push_back(i->first); sub = r.pickv(d); }
			static const char* exts[] = {"", ".txt", ".png", "t", ".zip"}; std::string ext = r.pick(exts), at = root + "/" + sub;
			b.what = "listing of '" + sub + "' with '" + ext + "'"; vh::stat("listed");
			Strings fn, fp, dp;
			for (std::map<std::string, std::string>::iterator i = have.begin(); i != have.end(); ++i) {
				if (i->first.compare(0, sub.size(), sub) != 0 || i->first == sub) continue;
				std::string rest = i->first.substr(sub.size()); size_t s = rest.find('/');
				if (i->second == "<dir>") { if (s == rest.size() - 1) dp.push_back(at + rest); }
				else if (s == std::string::npos && rest.size() >= ext.size() && rest.compare(rest.size() - ext.size(), ext.size(), ext) == 0) { fn.push_back(rest); fp.push_back(at + rest); }
			}
			Strings got(1, "old"); sys_path::get_file_name(got, at, ext); b.check(sorted(got) == sorted(fn), "list_names", "get_file_name gives " + join(sorted(got)) + ", expected " + join(sorted(fn)));
			got.assign(1, "old"); sys_path::get_file_path(got, at, ext); b.check(sorted(got) == sorted(fp), "list_paths", "get_file_path gives " + join(sorted(got)));
			got.assign(1, "old"); sys_path::get_dir_path(got, at); b.check(sorted(got) == sorted(dp), "list_dirs", "get_dir_path gives " + join(sorted(got)));
			got.assign(1, "old"); sys_path::get_file_path(got, root + "/missing/"); b.check(got.empty(), "list_missing", "files in a directory that does not exist");
			for (std::map<std::string, std::string>::iterator i = have.begin(); i != have.end(); ++i) if (i->second != "<link>") b.check(sys_path::is_exist(root + "/" + i->first), "is_exist", "is_exist of '" + i->first + "'");
			b.check(!sys_path::is_exist(root + "/missing"), "is_exist", "is_exist of a missing file");
		} else if (kind == 2) {       // deleting
			int how = (int)r.in(0, 3); std::map<std::string, std::string> want = have;
			Strings dirs, files; for (std::map<std::string, std::string>::iterator i = have.begin(); i != have.end(); ++i) (i->second == "<dir>" ? dirs : files).push_back(i->first);
			if (how == 0 && files.empty()) how = 3;
			if (how == 0) { std::string f = r.pickv(files); b.what = "delete_file '" + f + "'"; sys_path::delete_file(root + "/" + f); want.erase(f); vh::stat("deleted_file"); }
			else if (how == 3 || dirs.empty()) { b.what = "delete_sub_dir"; sys_path::delete_sub_dir(root + "/"); want.clear(); vh::stat("deleted_all"); }
			else {
				std::string d = r.pickv(dirs); bool force = how == 1; b.what = vh::fmt("delete_dir '%s' force %d", d.c_str(), force);
				sys_path::delete_dir(root + "/" + d, force);
				std::map<std::string, std::string> rest; int inside = 0;
				for (std::map<std::string, std::string>::iterator i = have.begin(); i != have.end(); ++i) if (i->first.compare(0, d.size(), d) != 0) rest.insert(*i); else ++inside;
				if (force || inside == 1) want = rest;
				vh::stat(force ? "deleted_dir_force" : "deleted_dir");
			}
			std::map<std::string, std::string> now; list_tree(root, "", now);
			b.check(now == want, "deleted", vh::fmt("%d entries left, expected %d", (int)now.size(), (int)want.size()));
			b.check(slurp(out + "/precious") == "keep me", "deleted_outside", "something outside the directory is gone");
		} else {                      // making, copying and moving
			int how = (int)r.in(0, 2);
			Strings files; for (std::map<std::string, std::string>::iterator i = have.begin(); i != have.end(); ++i) if (i->second != "<dir>" && i->second != "<link>") files.push_back(i->first);
			if (files.empty()) how = 0;
			std::map<std::string, std::string> want = have;
			if (how == 0) {
				std::string d; int levels = (int)r.in(1, 5);
				bool longer = r.chance(1, 10); if (longer) levels = (int)r.in(5, 9);
				for (int i = 0; i < levels; ++i) { std::string n = r.pick(dir_names); if (longer && r.chance(9, 10)) n.assign(200, 'l'); d += n + "/"; }
				b.what = vh::fmt("create_multi_dir (%d characters) '", (int)d.size()) + d + "'"; vh::note(b.what); vh::stat("made");
				if (d.size() > 1000) vh::stat("long_path");
				bool ok = sys_path::create_multi_dir(root + "/" + (r.chance(1, 2) ? d : d.substr(0, d.size() - 1)));
				for (size_t p = d.find('/'); p != std::string::npos; p = d.find('/', p + 1)) want[d.substr(0, p + 1)] = "<dir>";
				b.check(ok, "create_multi_dir", "failed");
			} else {
				bool copy = how == 1, fail_if = r.chance(1, 2); std::string src = r.pickv(files), dst = r.chance(1, 2) ? "new file.txt" : r.pickv(files);
				if (src == dst) dst = "other";
				bool there = have.count(dst) != 0;
				b.what = vh::fmt("%s '%s' to '%s' fail_if_exist %d", copy ? "copy_file" : "move_file", src.c_str(), dst.c_str(), fail_if);
				bool ok = copy ? sys_path::copy_file(root + "/" + dst, root + "/" + src, fail_if) : sys_path::move_file(root + "/" + dst, root + "/" + src, fail_if);
				bool should = !(there && fail_if);
				b.check(ok == should, "copy_result", vh::fmt("returned %d", ok));
				if (should) { want[dst] = have[src]; if (!copy) want.erase(src); }
				vh::stat(copy ? "copied" : "moved"); if (there) vh::stat("replaced_file");
			}
			std::map<std::string, std::string> now; list_tree(root, "", now);
			b.check(now == want, "files_after", vh::fmt("%d entries, expected %d, or other content", (int)now.size(), (int)want.size()));
		}
	}
	log_quiet(b.what);
	vh::dist("nontrivial", vh::hash_str(b.what));
	if (k < 6) vh::sample(b.what);
}

int main(int argc, char** argv) {
	std::vector<vh::Prop> props;
	vh::Prop p[] = {{"buffers", prop_buffers}, {"json", prop_json}, {"strings", prop_strings}, {"paths", prop_paths}};
	props.assign(p, p + 4);
	return vh::run_main(argc, argv, props, setup, teardown);
}
