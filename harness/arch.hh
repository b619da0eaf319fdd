// Shared by the archive harnesses: one typed entry of every kind with arbitrary contents, written and read back through
// the public archive interface.
#pragma once
#include "zk.hh"
#include <memory>
#include <vector>
#include <zenkit/Archive.hh>
#include <zenkit/Stream.hh>
using namespace zenkit;

struct Fmt {
	ArchiveFormat f;
	[[nodiscard]] bool text() const { return f == ArchiveFormat::ASCII; }
	// what a float becomes in this format: text archives store six decimals
	[[nodiscard]] float fl(float v) const { return text() ? zk_text_f32(v) : v; }
	[[nodiscard]] float any(const char* l) const { return text() ? zk_finite(l) : zk_any_f32(l); }
	[[nodiscard]] uint32_t en(const char* l) const { return f == ArchiveFormat::BINARY ? zk_any_u8(l) : zk_any_u32(l); }
	// characters a string value cannot contain
	[[nodiscard]] const char* excl() const { return "\r\n"; }
};

static inline bool same(float a, float b) { return zk_bits(a) == zk_bits(b); }
static inline bool same(Vec3 const& a, Vec3 const& b) { return same(a.x, b.x) & same(a.y, b.y) & same(a.z, b.z); }
static inline bool same(Vec2 const& a, Vec2 const& b) { return same(a.x, b.x) & same(a.y, b.y); }
static inline bool same(Mat3 const& a, Mat3 const& b) {
	bool r = true;
	for (int i = 0; i < 3; ++i)
		for (int j = 0; j < 3; ++j) r &= same(a[i][j], b[i][j]);
	return r;
}
static inline bool same(Mat4 const& a, Mat4 const& b) {
	bool r = true;
	for (int i = 0; i < 4; ++i)
		for (int j = 0; j < 4; ++j) r &= same(a[i][j], b[i][j]);
	return r;
}
static inline bool same(Color a, Color b) { return (a.r == b.r) & (a.g == b.g) & (a.b == b.b) & (a.a == b.a); }
static inline Color any_color(const char* l) {
	uint32_t v = zk_any_u32(l);
	return Color {(uint8_t) v, (uint8_t) (v >> 8), (uint8_t) (v >> 16), (uint8_t) (v >> 24)};
}
static inline Mat3 any_mat3(const char* l) {
	Mat3 m {};
	for (int i = 0; i < 3; ++i)
		for (int j = 0; j < 3; ++j) m[i][j] = zk_any_f32(l);
	return m;
}

// kinds of entries
enum Kind { STRING, INT, FLOAT, BYTE, WORD, ENUM, BOOL, COLOR, VEC3, VEC2, BBOX, MAT3, RAW, N_KINDS };

struct Entry {
	Kind kind;
	Fmt fmt;
	std::string s;
	uint32_t u = 0;
	float f = 0;
	Color c {};
	Vec3 v3 {}, v3b {};
	Vec2 v2 {};
	Mat3 m {};
	std::vector<std::byte> raw;

	Entry(Kind k, Fmt fm, size_t len, const char* l) : kind(k), fmt(fm) {
		switch (k) {
		case STRING: s = zk_str(len, l, fm.excl()); break;
		case INT: u = zk_any_u32(l); break;
		case FLOAT: f = fm.any(l); break;
		case BYTE: u = zk_any_u8(l); break;
		case WORD: u = zk_any_u16(l); break;
		case ENUM: u = fm.en(l); break;
		case BOOL: u = zk_any_bool(l); break;
		case COLOR: c = any_color(l); break;
		case BBOX: v3b = {fm.any(l), fm.any(l), fm.any(l)}; [[fallthrough]];
		case VEC3: v3 = {fm.any(l), fm.any(l), fm.any(l)}; break;
		case VEC2: v2 = {fm.any(l), fm.any(l)}; break;
		case MAT3: m = any_mat3(l); break;
		case RAW:
			raw.resize(len);
			zk_any_bytes(raw.data(), len, l);
			break;
		default: break;
		}
	}

	void write(WriteArchive& w, const char* n) const {
		switch (kind) {
		case STRING: w.write_string(n, s); break;
		case INT: w.write_int(n, (int32_t) u); break;
		case FLOAT: w.write_float(n, f); break;
		case BYTE: w.write_byte(n, (uint8_t) u); break;
		case WORD: w.write_word(n, (uint16_t) u); break;
		case ENUM: w.write_enum(n, u); break;
		case BOOL: w.write_bool(n, u != 0); break;
		case COLOR: w.write_color(n, c); break;
		case VEC3: w.write_vec3(n, v3); break;
		case VEC2: w.write_vec2(n, v2); break;
		case BBOX: {
			AxisAlignedBoundingBox b {};
			b.min = v3;
			b.max = v3b;
			w.write_bbox(n, b);
			break;
		}
		case MAT3: w.write_mat3x3(n, m); break;
		case RAW: w.write_raw(n, raw); break;
		default: break;
		}
	}

	Vec3 tx(Vec3 const& v) const { return {fmt.fl(v.x), fmt.fl(v.y), fmt.fl(v.z)}; }

	void check(ReadArchive& r) const {
		switch (kind) {
		case STRING: zk_assert(r.read_string() == s, "string entry round trip"); break;
		case INT: zk_assert((uint32_t) r.read_int() == u, "int entry round trip"); break;
		case FLOAT: zk_assert(same(r.read_float(), fmt.fl(f)), "float entry round trip"); break;
		case BYTE: zk_assert(r.read_byte() == u, "byte entry round trip"); break;
		case WORD: zk_assert(r.read_word() == u, "word entry round trip"); break;
		case ENUM: zk_assert(r.read_enum() == u, "enum entry round trip"); break;
		case BOOL: zk_assert(r.read_bool() == (u != 0), "bool entry round trip"); break;
		case COLOR: zk_assert(same(r.read_color(), c), "color entry round trip"); break;
		case VEC3: zk_assert(same(r.read_vec3(), tx(v3)), "vec3 entry round trip"); break;
		case VEC2: zk_assert(same(r.read_vec2(), Vec2 {fmt.fl(v2.x), fmt.fl(v2.y)}), "vec2 entry round trip"); break;
		case BBOX: {
			auto b = r.read_bbox();
			zk_assert(same(b.min, tx(v3)) && same(b.max, tx(v3b)), "bbox entry round trip");
			break;
		}
		case MAT3: zk_assert(same(r.read_mat3x3(), m), "mat3x3 entry round trip"); break;
		case RAW: {
			auto in = r.read_raw(raw.size());
			zk_assert(in != nullptr, "raw entry readable");
			std::vector<std::byte> got(raw.size() + 1);
			zk_assert(in->read(got.data(), got.size()) == raw.size(), "raw entry length");
			bool eq = true;
			for (size_t i = 0; i < raw.size(); ++i) eq &= got[i] == raw[i];
			zk_assert(eq, "raw entry round trip");
			break;
		}
		default: break;
		}
	}

	// reads an entry as if it were of the given kind, ignoring the value
	static void read_as(ReadArchive& r, Kind k) {
		switch (k) {
		case STRING: (void) r.read_string(); break;
		case INT: (void) r.read_int(); break;
		case FLOAT: (void) r.read_float(); break;
		case BYTE: (void) r.read_byte(); break;
		case WORD: (void) r.read_word(); break;
		case ENUM: (void) r.read_enum(); break;
		case BOOL: (void) r.read_bool(); break;
		case COLOR: (void) r.read_color(); break;
		case VEC3: (void) r.read_vec3(); break;
		case VEC2: (void) r.read_vec2(); break;
		case BBOX: (void) r.read_bbox(); break;
		case MAT3: (void) r.read_mat3x3(); break;
		case RAW: (void) r.read_raw(1); break;
		default: break;
		}
	}
};

static const char* const NAMES[] = {"aString", "anInt", "aFloat", "aByte", "aWord", "anEnum", "aBool", "aColor", "aVec", "aVec2", "bbox3DWS", "trafoOSToWSRot", "dataRaw"};

// A finished archive of one object whose body is written by `body`
template <typename F>
static inline void write_archive(std::vector<std::byte>& buf, Fmt f, bool save, F const& body) {
	auto w = Write::to(&buf);
	auto a = save ? WriteArchive::to_save(w.get(), f.f) : WriteArchive::to(w.get(), f.f);
	body(*a);
	a->write_header();
}

// every kind of entry once, in one object: values, order, framing and header come back
static inline void archive_entries(Fmt f, size_t slen, size_t rlen, bool save, unsigned kinds = ~0u) {
	std::vector<Entry> es;
	for (int k = 0; k < N_KINDS; ++k)
		if (kinds >> k & 1) es.emplace_back((Kind) k, f, k == RAW ? rlen : slen, NAMES[k]);
	auto version = zk_any_u16("object version");
	std::vector<std::byte> buf;
	uint32_t ix = 0;
	write_archive(buf, f, save, [&](WriteArchive& a) {
		ix = a.write_object_begin("thing", "oCThing:zCThing", version);
		for (auto const& e : es) e.write(a, NAMES[e.kind]);
		a.write_object_end();
	});
	auto r = Read::from(&buf);
	auto ra = ReadArchive::from(r.get());
	zk_assert(ra->get_header().format == f.f && ra->get_header().version == 1, "header names the format");
	zk_assert(ra->is_save_game() == save, "header tells save-games from other archives");
	ArchiveObject o;
	zk_assert(ra->read_object_begin(o), "object begin found");
	zk_assert(o.object_name == "thing" && o.class_name == "oCThing:zCThing", "object name and class");
	zk_assert(o.version == version, "object version");
	zk_assert(o.index == ix, "object index");
	for (auto const& e : es) e.check(*ra);
	zk_assert(ra->read_object_end(), "object end found");
	if (f.f != ArchiveFormat::BINSAFE) zk_assert(r->eof(), "nothing left after the last object");
	zk_cover("end");
}

// an entry of any kind is neither an object begin nor an object end, and asking leaves the position alone
static inline void archive_backtrack(Fmt f, Kind k) {
	Entry e(k, f, 5, "value");
	std::vector<std::byte> buf;
	write_archive(buf, f, false, [&](WriteArchive& a) {
		a.write_object_begin("thing", "zCThing", 1);
		e.write(a, NAMES[k]);
		a.write_object_begin("inner", "zCInner", 2);
		a.write_object_end();
		a.write_object_end();
	});
	auto r = Read::from(&buf);
	auto ra = ReadArchive::from(r.get());
	ArchiveObject o;
	if (f.f != ArchiveFormat::BINARY) zk_assert(!ra->read_object_end(), "an object begin is not an end");
	zk_assert(ra->read_object_begin(o), "object begin found");
	auto at = r->tell();
	zk_assert(!ra->read_object_end(), "an entry is not an object end");
	zk_assert(r->tell() == at, "a failed end test does not move");
	if (f.f != ArchiveFormat::BINARY) {
		zk_assert(!ra->read_object_begin(o), "an entry is not an object begin");
		zk_assert(r->tell() == at, "a failed begin test does not move");
	}
	e.check(*ra);
	zk_assert(!ra->read_object_end(), "an object begin is not an end (inner)");
	zk_assert(ra->read_object_begin(o), "inner object found");
	zk_assert(o.object_name == "inner" && o.class_name == "zCInner" && o.version == 2, "inner object name, class, version");
	if (f.f != ArchiveFormat::BINARY) {
		at = r->tell();
		zk_assert(!ra->read_object_begin(o), "an object end is not a begin");
		zk_assert(r->tell() == at, "a failed begin test does not move (end)");
	}
	zk_assert(ra->read_object_end(), "inner object end found");
	zk_assert(ra->read_object_end(), "outer object end found");
	zk_cover("end");
}

// reading an entry as a different type is refused with a ParserError (formats that store the type)
static inline bool compatible(Fmt f, Kind w, Kind r) {
	if (w == r) return true;
	auto group = [&](Kind k) -> int {
		switch (k) {
		case VEC2: case BBOX: return 100;          // raw float lists
		case MAT3: case RAW: return 101;           // raw bytes
		case INT: case BYTE: case WORD: return f.text() ? 102 : (int) k;
		default: return (int) k;
		}
	};
	return group(w) == group(r);
}

static inline void archive_type_mismatch(Fmt f, Kind wk, Kind lo, Kind hi) {
	Entry e(wk, f, 5, "value");
	std::vector<std::byte> buf;
	write_archive(buf, f, false, [&](WriteArchive& a) {
		a.write_object_begin("thing", "zCThing", 1);
		e.write(a, NAMES[wk]);
		a.write_object_end();
	});
	for (int k = lo; k <= hi; ++k) {
		if (compatible(f, wk, (Kind) k)) continue;
		auto r = Read::from(&buf);
		auto ra = ReadArchive::from(r.get());
		ArchiveObject o;
		zk_assert(ra->read_object_begin(o), "object begin found");
		bool refused = false;
		try {
			Entry::read_as(*ra, (Kind) k);
		} catch (ParserError const&) {
			refused = true;
		}
		zk_assert(refused, "an entry of another type is refused");
	}
	zk_cover("end");
}

// skipping an object, begun or not, lands right behind it whatever entries and sub-objects it holds
static inline void archive_skip(Fmt f, bool current, size_t slen) {
	std::vector<Entry> es;
	for (int k = 0; k < N_KINDS; ++k) es.emplace_back((Kind) k, f, k == RAW ? 3 : slen, NAMES[k]);
	Entry after(INT, f, 0, "after");
	std::vector<std::byte> buf;
	write_archive(buf, f, false, [&](WriteArchive& a) {
		a.write_object_begin("root", "zCRoot", 1);
		a.write_object_begin("skipped", "zCUnknown", zk_any_u16("version"));
		for (auto const& e : es) {
			e.write(a, NAMES[e.kind]);
			if (e.kind == BOOL || e.kind == STRING) {
				a.write_object_begin("child", e.kind == BOOL ? "zCChild" : "%", 3);
				if (e.kind == BOOL) e.write(a, "again");
				a.write_object_end();
			}
		}
		a.write_ref("shared", 7);
		a.write_object_end();
		after.write(a, "after");
		a.write_object_end();
	});
	auto r = Read::from(&buf);
	auto ra = ReadArchive::from(r.get());
	ArchiveObject o;
	zk_assert(ra->read_object_begin(o), "root found");
	if (current) {
		zk_assert(ra->read_object_begin(o), "object to be skipped found");
		es[0].check(*ra);
	}
	ra->skip_object(current);
	after.check(*ra);
	zk_assert(ra->read_object_end(), "root end found");
	zk_cover("end");
}

// objects larger than 64 KiB, more than 256 distinct entry names and more than 256 objects
static inline void archive_large(Fmt f, size_t n, bool skip) {
	std::vector<std::string> names;
	std::vector<uint32_t> vals;
	std::string filler(n > 300 ? 40 : 300, 'f');
	for (size_t i = 0; i < n; ++i) {
		names.push_back("entry" + std::to_string(i));
		vals.push_back(i % 64 == 3 || i + 1 == n ? zk_any_u32("value") : (uint32_t) (i * 2654435761u));
	}
	std::vector<std::byte> buf;
	uint32_t last = 0;
	write_archive(buf, f, false, [&](WriteArchive& a) {
		a.write_object_begin("root", "zCRoot", 1);
		a.write_object_begin("big", "zCBig", 2);
		for (size_t i = 0; i < n; ++i) {
			a.write_int(names[i], (int32_t) vals[i]);
			a.write_string("filler", filler);
		}
		a.write_object_end();
		for (size_t i = 0; i < n; ++i) {
			last = a.write_object_begin("small", "zCSmall", 3);
			a.write_object_end();
		}
		a.write_int(names[n - 1], 77);
		a.write_object_end();
	});
	auto r = Read::from(&buf);
	auto ra = ReadArchive::from(r.get());
	ArchiveObject o;
	zk_assert(ra->read_object_begin(o), "root found");
	if (skip) {
		ra->skip_object(false);
	} else {
		zk_assert(ra->read_object_begin(o), "big object found");
		for (size_t i = 0; i < n; ++i) {
			if (f.f == ArchiveFormat::BINSAFE && i + 1 == n) {
				ra->skip_object(true);
				break;
			}
			zk_assert((uint32_t) ra->read_int() == vals[i], "entry of a large object");
			zk_assert(ra->read_string() == filler, "string entry of a large object");
		}
		if (f.f != ArchiveFormat::BINSAFE) zk_assert(ra->read_object_end(), "big object end");
	}
	for (size_t i = 0; i < n; ++i) {
		zk_assert(ra->read_object_begin(o), "object after a large one");
		zk_assert(o.version == 3 && o.index == last - (n - 1 - i), "index of one of many objects");
		zk_assert(ra->read_object_end(), "end of an object after a large one");
	}
	zk_assert(ra->read_int() == 77, "entry after a large object");
	zk_assert(ra->read_object_end(), "root end found");
	zk_cover("end");
}
