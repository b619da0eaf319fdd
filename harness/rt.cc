// Parts of the C++ run-time that live in libstdc++.so, for the symbolic run only (assumed contracts: ordered-tree
// insertion, erasure and iteration without the balancing, which is not observable).
#include <cstddef>
#include <cstring>
#include <string>
struct NB { int color; NB *parent, *left, *right; };
extern "C" {
NB* zk_rb_inc(NB* x) __asm__("_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base");
NB* zk_rb_incc(NB* x) __asm__("_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base");
NB* zk_rb_dec(NB* x) __asm__("_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base");
NB* zk_rb_decc(NB* x) __asm__("_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base");
void zk_rb_ins(bool left, NB* x, NB* p, NB& header) __asm__("_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_");
NB* zk_rb_del(NB* z, NB& header) __asm__("_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_");
char* zk_strtok(char* s, const char* d) __asm__("strtok");
}
static NB* inc(NB* x) {
	if (x->right) {
		x = x->right;
		while (x->left) x = x->left;
	} else {
		NB* y = x->parent;
		while (x == y->right) { x = y; y = y->parent; }
		if (x->right != y) x = y;
	}
	return x;
}
NB* zk_rb_inc(NB* x) { return inc(x); }
NB* zk_rb_incc(NB* x) { return inc(x); }
static NB* dec(NB* x) {
	if (x->color == 0 && x->parent->parent == x) return x->right;
	if (x->left) {
		NB* y = x->left;
		while (y->right) y = y->right;
		return y;
	}
	NB* y = x->parent;
	while (x == y->left) { x = y; y = y->parent; }
	return y;
}
NB* zk_rb_dec(NB* x) { return dec(x); }
NB* zk_rb_decc(NB* x) { return dec(x); }
void zk_rb_ins(bool left, NB* x, NB* p, NB& h) {
	x->parent = p;
	x->left = x->right = nullptr;
	x->color = 1;
	if (left) {
		p->left = x;
		if (p == &h) { h.parent = x; h.right = x; }
		else if (p == h.left) h.left = x;
	} else {
		p->right = x;
		if (p == h.right) h.right = x;
	}
}
static void repl(NB* u, NB* v, NB& h) {
	if (h.parent == u) h.parent = v;
	else if (u->parent->left == u) u->parent->left = v;
	else u->parent->right = v;
	if (v) v->parent = u->parent;
}
NB* zk_rb_del(NB* z, NB& h) {
	if (h.left == z) h.left = z->right ? [&] { NB* y = z->right; while (y->left) y = y->left; return y; }() : z->parent;
	if (h.right == z) h.right = z->left ? [&] { NB* y = z->left; while (y->right) y = y->right; return y; }() : z->parent;
	if (!z->left) repl(z, z->right, h);
	else if (!z->right) repl(z, z->left, h);
	else {
		NB* y = z->right;
		while (y->left) y = y->left;
		if (y->parent != z) {
			repl(y, y->right, h);
			y->right = z->right;
			y->right->parent = y;
		}
		repl(z, y, h);
		y->left = z->left;
		y->left->parent = y;
	}
	return z;
}
static char* tok_next;
char* zk_strtok(char* s, const char* d) {
	if (!s) s = tok_next;
	if (!s) return nullptr;
	auto in = [&](char c) { for (const char* p = d; *p; ++p) if (*p == c) return true; return false; };
	while (*s && in(*s)) ++s;
	if (!*s) { tok_next = nullptr; return nullptr; }
	char* r = s;
	while (*s && !in(*s)) ++s;
	if (*s) { *s = 0; tok_next = s + 1; } else tok_next = nullptr;
	return r;
}
// std::string::_M_replace_cold(char* p, size_type len1, const char* s, size_type len2, size_type how_much)
extern "C" void zk_replace_cold(std::string* self, char* p, size_t len1, const char* s, size_t len2, size_t how_much)
    __asm__("_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE15_M_replace_coldEPcmPKcmm");
void zk_replace_cold(std::string*, char* p, size_t len1, const char* s, size_t len2, size_t how_much) {
	char* tmp = static_cast<char*>(::operator new(len2 + 1));
	memcpy(tmp, s, len2);
	// positions of the source relative to the destination shift with the tail, but the source bytes are copied first
	if (how_much && len1 != len2) memmove(p + len2, p + len1, how_much);
	memcpy(p, tmp, len2);
	::operator delete(tmp);
}
// Calendar: gmtime gives some calendar date of the right parity for every time, timegm is its inverse, mktime depends on
// an arbitrary time zone.
#include <ctime>
#include "zk.hh"
namespace {
struct Cal { tm f; time_t t; };
Cal cal_utc[8], cal_loc[8];
int cal_n, cal_ln;
tm cal_out;
bool cal_same(const tm& a, const tm& b) {
	return a.tm_sec == b.tm_sec && a.tm_min == b.tm_min && a.tm_hour == b.tm_hour && a.tm_mday == b.tm_mday && a.tm_mon == b.tm_mon && a.tm_year == b.tm_year;
}
tm cal_fields() {
	tm f {};
	f.tm_sec = (int) zk_range(60, "tm.sec");
	f.tm_min = (int) zk_range(60, "tm.min");
	f.tm_hour = (int) zk_range(24, "tm.hour");
	f.tm_mday = (int) zk_range(31, "tm.mday") + 1;
	f.tm_mon = (int) zk_range(12, "tm.mon");
	f.tm_year = (int) zk_range(128, "tm.year") + 80;
	return f;
}
}
extern "C" tm* zk_gmtime(const time_t* t) __asm__("gmtime");
tm* zk_gmtime(const time_t* t) {
	int i = 0;
	while (i < cal_n && cal_utc[i].t != *t) ++i;
	if (i == cal_n) {
		cal_utc[i].f = cal_fields();
		cal_utc[i].t = *t;
		zk_assume((cal_utc[i].f.tm_sec & 1) == (int) (*t & 1));
		++cal_n;
		if (*t & 1) { // the even second before it
			cal_utc[cal_n] = cal_utc[i];
			cal_utc[cal_n].f.tm_sec -= 1;
			cal_utc[cal_n].t -= 1;
			++cal_n;
		}
	}
	cal_out = cal_utc[i].f;
	return &cal_out;
}
extern "C" tm* zk_gmtime_r(const time_t* t, tm* out) __asm__("gmtime_r");
tm* zk_gmtime_r(const time_t* t, tm* out) { *out = *zk_gmtime(t); return out; }
extern "C" time_t zk_timegm(tm* f) __asm__("timegm");
time_t zk_timegm(tm* f) {
	for (int i = 0; i < cal_n; ++i) if (cal_same(cal_utc[i].f, *f)) return cal_utc[i].t;
	cal_utc[cal_n].f = *f;
	cal_utc[cal_n].t = (time_t) zk_any_u64("timegm");
	return cal_utc[cal_n++].t;
}
extern "C" time_t zk_mktime(tm* f) __asm__("mktime");
time_t zk_mktime(tm* f) {
	for (int i = 0; i < cal_ln; ++i) if (cal_same(cal_loc[i].f, *f)) return cal_loc[i].t;
	cal_loc[cal_ln].f = *f;
	cal_loc[cal_ln].t = (time_t) zk_any_u64("mktime");
	return cal_loc[cal_ln++].t;
}

// Files of the host, as the C library and the kernel document them.
#include <cstdio>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
namespace {
struct ZFile { unsigned char d[64]; size_t n, pos; bool at_end; };
struct Host { char path[8]; unsigned char* d; size_t n; };
struct Map { void* p; size_t n; };
Host hosts[4];
Map maps[8];
int host_n, fds_open, map_n;
bool fd_open[8];
enum { HOST_DIR = 7 };
}
extern "C" {
FILE* zk_tmpfile() __asm__("tmpfile");
size_t zk_fread(void* p, size_t s, size_t n, FILE* f) __asm__("fread");
size_t zk_fwrite(const void* p, size_t s, size_t n, FILE* f) __asm__("fwrite");
int zk_fseek(FILE* f, long off, int whence) __asm__("fseek");
long zk_ftell(FILE* f) __asm__("ftell");
int zk_feof(FILE* f) __asm__("feof");
int zk_fgetc(FILE* f) __asm__("fgetc");
int zk_getc(FILE* f) __asm__("getc");
int zk_ungetc(int c, FILE* f) __asm__("ungetc");
void zk_rewind(FILE* f) __asm__("rewind");
void zk_clearerr(FILE* f) __asm__("clearerr");
int zk_fflush(FILE* f) __asm__("fflush");
int zk_fclose(FILE* f) __asm__("fclose");
int zk_open(const char* path, int flags, ...) __asm__("open");
int zk_fstat(int fd, struct stat* st) __asm__("fstat");
void* zk_mmap(void* a, size_t n, int prot, int flags, int fd, off_t off) __asm__("mmap");
int zk_munmap(void* p, size_t n) __asm__("munmap");
int zk_close(int fd) __asm__("close");
}
static ZFile& zf(FILE* f) { return *reinterpret_cast<ZFile*>(f); }
FILE* zk_tmpfile() { return reinterpret_cast<FILE*>(new ZFile {}); }
size_t zk_fread(void* p, size_t s, size_t n, FILE* f) {
	auto& x = zf(f);
	size_t want = s * n, got = 0;
	for (; got < want && x.pos < x.n; ++got, ++x.pos) static_cast<unsigned char*>(p)[got] = x.d[x.pos];
	if (got < want) x.at_end = true;
	return s ? got / s : 0;
}
size_t zk_fwrite(const void* p, size_t s, size_t n, FILE* f) {
	auto& x = zf(f);
	size_t want = s * n;
	zk_assume(x.pos + want <= sizeof x.d);
	while (x.n < x.pos) x.d[x.n++] = 0;
	for (size_t i = 0; i < want; ++i) x.d[x.pos++] = static_cast<const unsigned char*>(p)[i];
	if (x.pos > x.n) x.n = x.pos;
	return n;
}
int zk_fseek(FILE* f, long off, int whence) {
	auto& x = zf(f);
	long to = off + (whence == SEEK_CUR ? (long) x.pos : whence == SEEK_END ? (long) x.n : 0);
	if (to < 0) return -1;
	x.pos = (size_t) to;
	x.at_end = false;
	return 0;
}
long zk_ftell(FILE* f) { return (long) zf(f).pos; }
int zk_feof(FILE* f) { return zf(f).at_end; }
int zk_fgetc(FILE* f) {
	auto& x = zf(f);
	if (x.pos < x.n) return x.d[x.pos++];
	x.at_end = true;
	return EOF;
}
int zk_getc(FILE* f) { return zk_fgetc(f); }
int zk_ungetc(int c, FILE* f) {
	auto& x = zf(f);
	if (c == EOF) return EOF;
	zk_assert(x.pos > 0 && x.d[x.pos - 1] == (unsigned char) c, "only what was read is put back");
	--x.pos;
	x.at_end = false;
	return c;
}
void zk_rewind(FILE* f) { zf(f).pos = 0, zf(f).at_end = false; }
void zk_clearerr(FILE* f) { zf(f).at_end = false; }
int zk_fflush(FILE*) { return 0; }
int zk_fclose(FILE* f) { delete &zf(f); return 0; }
const char* zk_host_file(const void* p, size_t n) {
	auto& h = hosts[host_n];
	memcpy(h.path, "/zk/0", 6);
	h.path[4] = (char) ('0' + host_n++);
	h.n = n;
	h.d = static_cast<unsigned char*>(::operator new(n + 1));
	memcpy(h.d, p, n);
	return h.path;
}
const char* zk_host_dir() { return "/zk"; }
int zk_host_open() {
	int n = fds_open;
	for (int i = 0; i < map_n; ++i) n += maps[i].p != nullptr;
	return n;
}
int zk_open(const char* path, int flags, ...) {
	for (int i = 0; i < host_n; ++i)
		if (!strcmp(path, hosts[i].path) && !fd_open[i]) {
			fd_open[i] = true, ++fds_open;
			return 3 + i;
		}
	if (!strcmp(path, "/zk") && (flags & O_ACCMODE) == O_RDONLY) {
		fd_open[HOST_DIR] = true, ++fds_open;
		return 3 + HOST_DIR;
	}
	return -1;
}
int zk_fstat(int fd, struct stat* st) {
	zk_assert(fd >= 3 && fd_open[fd - 3], "a descriptor is used while it is open");
	memset(st, 0, sizeof *st);
	st->st_size = fd == 3 + HOST_DIR ? 4096 : (off_t) hosts[fd - 3].n;
	st->st_mode = fd == 3 + HOST_DIR ? 0040755 : 0100644;
	return 0;
}
void* zk_mmap(void*, size_t n, int prot, int flags, int fd, off_t off) {
	zk_assert(fd >= 3 && fd_open[fd - 3], "a descriptor is used while it is open");
	if (!n || fd == 3 + HOST_DIR) return MAP_FAILED;
	auto& h = hosts[fd - 3];
	zk_assert(prot == PROT_READ && off == 0 && n <= h.n, "only what the file holds is mapped");
	auto* p = static_cast<unsigned char*>(::operator new(n));
	memcpy(p, h.d, n);
	maps[map_n++] = {p, n};
	return p;
}
int zk_munmap(void* p, size_t n) {
	for (int i = 0; i < map_n; ++i)
		if (maps[i].p == p) {
			zk_assert(maps[i].n == n, "the whole mapping is released");
			::operator delete(p);
			maps[i].p = nullptr;
			return 0;
		}
	zk_assert(n == 0, "only a mapping is released");
	return -1;
}
int zk_close(int fd) {
	zk_assert(fd >= 3 && fd_open[fd - 3], "a descriptor is closed once");
	fd_open[fd - 3] = false, --fds_open;
	return 0;
}
