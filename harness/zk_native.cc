// Native run-time of the verification intrinsics: replays a counterexample or searches for a failing input.
//   prog replay <harness> <inputs-file>
//   prog search <harness> <seed> <seconds> <out-file>
#include <algorithm>
#include <chrono>
#include <csetjmp>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <dlfcn.h>
#include <exception>
#include <map>
#include <random>
#include <string>
#include <sys/stat.h>
#include <unistd.h>
#include <vector>
namespace {
struct In { std::string label; int w; uint64_t v; };
std::map<std::string, uint64_t> given;
std::vector<In> log_;
std::map<std::string, int> count_;
bool search = false;
std::mt19937_64 rng;
jmp_buf jb;
const char* outfile = nullptr;
const char* hname = "?";
bool reported = false;
int style = 0;
std::string host_base() {
	auto t = getenv("TMPDIR");
	return std::string(t ? t : "/tmp") + "/zkhost-" + std::to_string(getpid());
}
void host_clean() {
	for (int k = 0; k < 4; ++k) unlink((host_base() + "/" + std::to_string(k)).c_str());
	rmdir(host_base().c_str());
}
void dump(const char* why) {
	host_clean();
	if (reported) return;
	reported = true;
	FILE* f = outfile ? fopen(outfile, "w") : nullptr;
	for (FILE* o : {f, stdout}) {
		if (!o) continue;
		fprintf(o, "FAILED %s: %s\n", hname, why);
		for (auto& i : log_) fprintf(o, "input %d %llu %s\n", i.w, (unsigned long long) i.v, i.label.c_str());
	}
	if (f) fclose(f);
	fflush(stdout);
}
uint64_t pick(int w) {
	uint64_t m = w == 64 ? ~0ull : (1ull << w) - 1;
	switch ((rng() ^ style) % 12) {
	case 0: return 0;
	case 1: return 1;
	case 2: return m;
	case 3: return m >> 1;
	case 4: return (m >> 1) + 1;
	case 5: return (1ull << (rng() % w)) & m;
	case 6: return ((1ull << (rng() % w)) - 1) & m;
	case 7: return rng() % 16;
	case 8: return rng() % 256 & m;
	case 9: if (w == 32) { float f = (float) (int64_t(rng() % 20001) - 10000) / 4.f; uint32_t b; memcpy(&b, &f, 4); return b; } return rng() & m;
	default: return rng() & m;
	}
}
uint64_t any(std::string l, int w) {
	int n = count_[l]++;
	if (n) l += "#" + std::to_string(n);
	uint64_t v;
	if (search) {
		v = pick(w);
	} else {
		auto it = given.find(l);
		v = it == given.end() ? 0 : it->second;
	}
	log_.push_back({l, w, v});
	return v;
}
void onterm() {
	std::string why = "no-uncaught-exception: std::terminate";
	if (auto e = std::current_exception()) {
		try { std::rethrow_exception(e); }
		catch (std::exception& x) { why = std::string("no-uncaught-exception: ") + x.what(); }
		catch (...) { why = "no-uncaught-exception: unknown exception"; }
	}
	dump(why.c_str());
	_exit(1);
}
void onsig(int s) {
	dump(s == SIGALRM ? "termination: no result within the time limit" : "memory-safety: crash");
	_exit(1);
}
}
extern "C" {
void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
uint8_t zk_any_u8(const char* l) { return (uint8_t) any(l, 8); }
uint16_t zk_any_u16(const char* l) { return (uint16_t) any(l, 16); }
uint32_t zk_any_u32(const char* l) { return (uint32_t) any(l, 32); }
uint64_t zk_any_u64(const char* l) { return any(l, 64); }
void zk_any_bytes(void* p, size_t n, const char* l) {
	for (size_t i = 0; i < n; ++i) ((uint8_t*) p)[i] = (uint8_t) any(std::string(l) + "[" + std::to_string(i) + "]", 8);
}
void zk_assume(int c) { if (!c) longjmp(jb, 1); }
void zk_assert(int c, const char* l) {
	if (c) return;
	dump(l);
	_exit(1);
}
void zk_cover(const char*) {}
uint32_t zk_split(uint32_t v) { return v; }
void zk_opt(const char*) {}
int zk_symbolic() { return 0; }
void* zk_alloc(size_t n) {
	if (n > (1u << 20)) longjmp(jb, 1);
	auto* p = (uint8_t*) malloc(n ? n : 1);
	for (size_t i = 0; i < n; ++i) p[i] = (uint8_t) (i * 37 + 11 + (i >> 8));
	return p;
}
// what a float becomes when written as decimal text and parsed back
float zk_text_f32(float v) { return std::stof(std::to_string(v)); }
float zk_text_g6(float v) { char b[64]; snprintf(b, 64, "%g", v); return std::stof(b); }
}
// an arbitrary value in [0,n): search mode maps the raw value into the range so that few runs are wasted
extern "C" uint64_t zk_size(uint64_t limit, const char* l) {
	// an arbitrary size <= limit (the native search stays below 4 KiB)
	uint64_t v = zk_any_u64(l);
	if (search) { v %= (limit < 4096 ? limit : 4096) + 1; log_.back().v = v; }
	zk_assume(v <= limit);
	return v;
}
extern "C" uint32_t zk_range(uint32_t n, const char* l) {
	uint32_t v = zk_any_u32(l);
	if (v >= n) {
		if (!search) longjmp(jb, 1);
		v %= n;
		log_.back().v = v;
	}
	return v;
}
extern "C" uint8_t zk_any_char(const char* set, const char* l) {
	// a character that is none of those in set (and not NUL)
	uint8_t v = zk_any_u8(l);
	if (search) {
		while (v == 0 || strchr(set, (char) v)) v = (rng() % 3) ? 33 + rng() % 94 : rng();
		log_.back().v = v;
	}
	zk_assume(v != 0 && !strchr(set, (char) v));
	return v;
}
extern "C" uint32_t zk_finite_bits(const char* l) {
	uint32_t v = zk_any_u32(l);
	if (search && (v & 0x7f800000) == 0x7f800000) { v &= 0xBfffffff; log_.back().v = v; }
	zk_assume((v & 0x7f800000) != 0x7f800000);
	return v;
}
int main(int argc, char** argv) {
	if (argc < 4) return 2;
	std::string mode = argv[1];
	hname = argv[2];
	auto f = (void (*)()) dlsym(RTLD_DEFAULT, (std::string("h_") + hname).c_str());
	if (!f) { fprintf(stderr, "no harness %s\n", hname); return 2; }
	std::set_terminate(onterm);
	for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM}) signal(s, onsig);
	if (__sanitizer_set_death_callback) __sanitizer_set_death_callback([] { dump("memory-safety: sanitizer report"); });
	if (mode == "replay") {
		FILE* in = fopen(argv[3], "r");
		char line[4096];
		while (in && fgets(line, sizeof line, in)) {
			int w; unsigned long long v; int n = 0;
			if (sscanf(line, "input %d %llu %n", &w, &v, &n) == 2) {
				std::string l = line + n;
				while (!l.empty() && (l.back() == '\n')) l.pop_back();
				given[l] = v;
			}
		}
		if (in) fclose(in);
		alarm(60);
		if (setjmp(jb) == 0) f();
		else { puts("ASSUMPTION NOT MET"); return 3; }
		puts("PASSED");
		return 0;
	}
	search = true;
	uint64_t seed = strtoull(argv[3], 0, 10);
	double secs = atof(argv[4]);
	outfile = argc > 5 ? argv[5] : nullptr;
	auto t0 = std::chrono::steady_clock::now();
	volatile uint64_t n = 0, skipped = 0, i = 0;
	while (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < secs) {
		rng.seed(seed * 1000003 + i);
		style = (int) (i % 5 == 0 ? 0 : rng());
		i = i + 1;
		log_.clear();
		count_.clear();
		alarm(60);
		if (setjmp(jb) == 0) { f(); n = n + 1; }
		else skipped = skipped + 1;
	}
	printf("SEARCHED %llu runs, %llu outside the precondition\n", (unsigned long long) n, (unsigned long long) skipped);
	return 0;
}

extern "C" const char* zk_host_dir() {
	static bool once = (atexit(host_clean), true);
	static std::string d;
	(void) once;
	d = host_base();
	mkdir(d.c_str(), 0700);
	return d.c_str();
}
extern "C" const char* zk_host_file(const void* p, size_t n) {
	static int k = 0;
	static std::string names[4];
	k = (k + 1) % 4;
	names[k] = std::string(zk_host_dir()) + "/" + std::to_string(k);
	unlink(names[k].c_str());
	FILE* f = fopen(names[k].c_str(), "wb");
	if (!f) abort();
	fwrite(p, 1, n, f);
	fclose(f);
	return names[k].c_str();
}
extern "C" int zk_host_open() {
	int n = 0;
	char l[4096];
	if (FILE* f = fopen("/proc/self/maps", "r")) {
		while (fgets(l, sizeof l, f)) n += strstr(l, "/zkhost-") != nullptr;
		fclose(f);
	}
	if (DIR* d = opendir("/proc/self/fd")) {
		while (auto* e = readdir(d)) {
			auto k = readlink((std::string("/proc/self/fd/") + e->d_name).c_str(), l, sizeof l - 1);
			if (k > 0) n += (l[k] = 0, strstr(l, "/zkhost-") != nullptr);
		}
		closedir(d);
	}
	return n;
}
