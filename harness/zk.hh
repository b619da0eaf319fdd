// Verification intrinsics. In the symbolic run the engine gives them meaning (every input is an arbitrary value, every
// zk_assert an obligation); in the native run (replay / search) they are implemented by zk_native.cc.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <string>
extern "C" {
uint8_t zk_any_u8(const char* label);
uint16_t zk_any_u16(const char* label);
uint32_t zk_any_u32(const char* label);
uint64_t zk_any_u64(const char* label);
void zk_any_bytes(void* p, size_t n, const char* label);
uint32_t zk_range(uint32_t n, const char* label);              // arbitrary value in [0,n), symbolic
uint8_t zk_any_char(const char* excluded, const char* label);  // arbitrary character, not NUL and not in excluded
uint32_t zk_finite_bits(const char* label);                    // bit pattern of an arbitrary finite float
uint64_t zk_size(uint64_t limit, const char* label);            // arbitrary size <= limit
void zk_assume(int c);
void zk_assert(int c, const char* obligation);
void zk_cover(const char* label);
uint32_t zk_split(uint32_t v);                                 // case split: the value becomes concrete
void zk_opt(const char* what);
int zk_symbolic();
void* zk_alloc(size_t n);                                       // buffer of n bytes, arbitrary contents (symbolic run)
float zk_text_f32(float v);
float zk_text_g6(float v);
const char* zk_host_file(const void* p, size_t n);             // path of a new file of the host with this content
const char* zk_host_dir();                                      // path of a directory of the host
int zk_host_open();                                             // open descriptors and mappings of those
}
#ifdef ZK_THOROUGH
#define ZK_Q(quick, thorough) (thorough)
#else
#define ZK_Q(quick, thorough) (quick)
#endif
static inline float zk_f32(uint32_t b) { float f; memcpy(&f, &b, 4); return f; }
static inline uint32_t zk_bits(float f) { uint32_t b; memcpy(&b, &f, 4); return b; }
static inline float zk_any_f32(const char* l) { return zk_f32(zk_any_u32(l)); }
static inline float zk_finite(const char* l) { return zk_f32(zk_finite_bits(l)); }
static inline int32_t zk_any_i32(const char* l) { return (int32_t) zk_any_u32(l); }
static inline bool zk_any_bool(const char* l) { return zk_any_u8(l) & 1; }
// an arbitrary value in [0,n), one path per value
static inline uint32_t zk_choice(uint32_t n, const char* l) { return zk_split(zk_range(n, l)); }
// a string of n arbitrary characters, none of them NUL, CR, LF or in the excluded set
static inline std::string zk_str(size_t n, const char* l, const char* excluded = "\r\n") {
	std::string s(n, 'x');
	for (size_t i = 0; i < n; ++i) s[i] = (char) zk_any_char(excluded, l);
	return s;
}
#define HARNESS(name) extern "C" __attribute__((visibility("default"))) void h_##name()
