// P01: fixed-size values written to a stream come back bit-identical, in little-endian layout, and advance the position
// by exactly their size.  The contract is stated against the abstract stream interface: the harness supplies the
// storage (class Tape) so that the codec functions are proved for every stream that stores what it is given, from an
// arbitrary position.
#include "zk.hh"
#include <vector>
#include <zenkit/Stream.hh>
using namespace zenkit;

namespace {
	// storage contract: write appends, read returns the appended bytes in order
	struct Tape final : Write, Read {
		unsigned char data[256];
		size_t wp = 0, rp = 0;
		size_t write(void const* buf, size_t len) noexcept override {
			zk_assert(wp + len <= sizeof data, "writes no more than the value's size");
			memcpy(data + wp, buf, len);
			wp += len;
			return len;
		}
		size_t read(void* buf, size_t len) noexcept override {
			zk_assert(rp + len <= wp, "reads no more than was written");
			memcpy(buf, data + rp, len);
			rp += len;
			return len;
		}
		void seek(ssize_t, Whence) noexcept override { zk_assert(0, "a value is moved without seeking"); }
		[[nodiscard]] size_t tell() const noexcept override { return 0; }
		[[nodiscard]] bool eof() const noexcept override { return rp >= wp; }
	};

	uint32_t le32(unsigned char const* p) {
		return p[0] | (uint32_t) p[1] << 8 | (uint32_t) p[2] << 16 | (uint32_t) p[3] << 24;
	}
	bool same(float a, float b) { return zk_bits(a) == zk_bits(b); }
}

HARNESS(integers) {
	Tape t;
	Write* w = &t;
	Read* r = &t;
	char c = (char) zk_any_u8("c");
	int8_t i8 = (int8_t) zk_any_u8("i8");
	uint8_t u8 = zk_any_u8("u8");
	int16_t i16 = (int16_t) zk_any_u16("i16");
	uint16_t u16 = zk_any_u16("u16");
	int32_t i32 = zk_any_i32("i32");
	uint32_t u32 = zk_any_u32("u32");
	w->write_char(c);
	w->write_byte(i8);
	w->write_ubyte(u8);
	w->write_short(i16);
	w->write_ushort(u16);
	w->write_int(i32);
	w->write_uint(u32);
	zk_assert(t.wp == 15, "size of the encoding");
	zk_assert(t.data[0] == (unsigned char) c && t.data[1] == (unsigned char) i8 && t.data[2] == u8, "byte layout");
	zk_assert(t.data[3] == (i16 & 255) && t.data[4] == ((i16 >> 8) & 255), "int16 layout");
	zk_assert(t.data[5] == (u16 & 255) && t.data[6] == (u16 >> 8), "uint16 layout");
	zk_assert(le32(t.data + 7) == (uint32_t) i32, "int32 layout");
	zk_assert(le32(t.data + 11) == u32, "uint32 layout");
	zk_assert(r->read_char() == c, "char");
	zk_assert(r->read_byte() == i8, "int8");
	zk_assert(r->read_ubyte() == u8, "uint8");
	zk_assert(r->read_short() == i16, "int16");
	zk_assert(r->read_ushort() == u16, "uint16");
	zk_assert(r->read_int() == i32, "int32");
	zk_assert(r->read_uint() == u32, "uint32");
	zk_assert(t.rp == 15, "bytes consumed");
	zk_cover("end");
}

HARNESS(floats_and_vectors) {
	Tape t;
	Write* w = &t;
	Read* r = &t;
	float f = zk_any_f32("f");
	Vec2 v2 {zk_any_f32("v2.x"), zk_any_f32("v2.y")};
	Vec3 v3 {zk_any_f32("v3.x"), zk_any_f32("v3.y"), zk_any_f32("v3.z")};
	w->write_float(f);
	w->write_vec2(v2);
	w->write_vec3(v3);
	zk_assert(t.wp == 24, "size of the encoding");
	float all[] {f, v2.x, v2.y, v3.x, v3.y, v3.z};
	for (int i = 0; i < 6; ++i) zk_assert(le32(t.data + 4 * i) == zk_bits(all[i]), "float layout");
	zk_assert(same(r->read_float(), f), "float");
	auto a = r->read_vec2();
	zk_assert(same(a.x, v2.x) && same(a.y, v2.y), "vec2");
	auto b = r->read_vec3();
	zk_assert(same(b.x, v3.x) && same(b.y, v3.y) && same(b.z, v3.z), "vec3");
	zk_assert(t.rp == 24, "bytes consumed");
	zk_cover("end");
}

HARNESS(matrices) {
	Tape t;
	Write* w = &t;
	Read* r = &t;
	Mat3 m3 {};
	for (int i = 0; i < 3; ++i)
		for (int j = 0; j < 3; ++j) m3[i][j] = zk_any_f32("m3");
	Mat4 m4 {};
	for (int i = 0; i < 4; ++i)
		for (int j = 0; j < 4; ++j) m4[i][j] = zk_any_f32("m4");
	w->write_mat3(m3);
	zk_assert(t.wp == 36, "size of a 3x3 matrix");
	// on disk the matrix is stored row by row (memory: column by column)
	for (int i = 0; i < 3; ++i)
		for (int j = 0; j < 3; ++j) zk_assert(le32(t.data + 4 * (3 * i + j)) == zk_bits(m3[j][i]), "mat3 layout");
	w->write_mat4(m4);
	zk_assert(t.wp == 100, "size of a 4x4 matrix");
	for (int i = 0; i < 4; ++i)
		for (int j = 0; j < 4; ++j) zk_assert(le32(t.data + 36 + 4 * (4 * i + j)) == zk_bits(m4[j][i]), "mat4 layout");
	auto a = r->read_mat3();
	for (int i = 0; i < 3; ++i)
		for (int j = 0; j < 3; ++j) zk_assert(same(a[i][j], m3[i][j]), "mat3");
	auto b = r->read_mat4();
	for (int i = 0; i < 4; ++i)
		for (int j = 0; j < 4; ++j) zk_assert(same(b[i][j], m4[i][j]), "mat4");
	zk_assert(t.rp == 100, "bytes consumed");
	zk_cover("end");
}

// strings carry no length bound: the codec hands the caller's bytes to the stream unchanged
namespace {
	struct StringSink final : Write {
		char const* expect;
		size_t n;
		int calls = 0, extra = -1;
		size_t write(void const* buf, size_t len) noexcept override {
			if (calls++ == 0) {
				zk_assert(buf == expect && len == n, "the string's bytes are written unchanged");
			} else {
				zk_assert(len == 1, "one terminator");
				extra = *(unsigned char const*) buf;
			}
			return len;
		}
		void seek(ssize_t, Whence) noexcept override { zk_assert(0, "a string is written without seeking"); }
		[[nodiscard]] size_t tell() const noexcept override { return 0; }
	};
	struct StringSource final : Read {
		char const* src;
		size_t n;
		int calls = 0;
		size_t read(void* buf, size_t len) noexcept override {
			zk_assert(calls++ == 0 && len == n, "a string is read in one piece");
			memcpy(buf, src, len);
			return len;
		}
		void seek(ssize_t, Whence) noexcept override { zk_assert(0, "a string is read without seeking"); }
		[[nodiscard]] size_t tell() const noexcept override { return 0; }
		[[nodiscard]] bool eof() const noexcept override { return false; }
	};
}

HARNESS(strings_any_length) {
	size_t n = zk_size(1ull << 32, "length");
	char* s = (char*) zk_alloc(n);
	StringSink a, b, c;
	a.expect = b.expect = c.expect = s;
	a.n = b.n = c.n = n;
	((Write&) a).write_string({s, n});
	zk_assert(a.calls == 1, "string has no terminator");
	((Write&) b).write_string0({s, n});
	zk_assert(b.calls == 2 && b.extra == 0, "string0 ends with NUL");
	((Write&) c).write_line({s, n});
	zk_assert(c.calls == 2 && c.extra == '\n', "line ends with LF");
	StringSource r;
	r.src = s;
	r.n = n;
	std::string out = ((Read&) r).read_string(n);
	zk_assert(out.size() == n, "length of the string read");
	size_t k = zk_size(1ull << 32, "k");
	zk_assume(k < n);
	zk_assert(out[k] == s[k], "characters of the string read");
	zk_cover("end");
}
