// P04: chunked files: the size field written is the payload's, the reader always lands on the next chunk, and the small
// fixed structures (dates, boxes) come back unchanged.
#include "arch.hh"
#include <functional>
#include <zenkit/Boxes.hh>
#include <zenkit/Date.hh>

namespace {
	enum class Id : uint16_t {};
	constexpr uint64_t BIG = 1ull << 40;

	// a stream given only by its position: payloads of any size
	struct Out final : Write {
		size_t pos = 0, start = 0;
		uint8_t head[6];
		size_t write(void const* buf, size_t len) noexcept override {
			zk_assert(pos >= start && pos + len <= start + 6, "only the head of the chunk is written by the framing");
			memcpy(head + (pos - start), buf, len);
			pos += len;
			return len;
		}
		void seek(ssize_t off, Whence w) noexcept override {
			zk_assert(w != Whence::END, "the end of the stream is of no concern");
			pos = (w == Whence::BEG ? 0 : pos) + (size_t) off;
		}
		[[nodiscard]] size_t tell() const noexcept override { return pos; }
	};
	// chunks of any size: chunk k begins at at[k]
	struct In final : Read {
		size_t pos = 0;
		size_t at[3];
		uint16_t id[2];
		uint32_t size[2];
		size_t read(void* buf, size_t len) noexcept override {
			for (int k = 0; k < 2; ++k) {
				if (pos == at[k] && len == 2) {
					memcpy(buf, &id[k], 2);
					pos += 2;
					return 2;
				}
				if (pos == at[k] + 2 && len == 4) {
					memcpy(buf, &size[k], 4);
					pos += 4;
					return 4;
				}
			}
			zk_assert(0, "chunk heads are read where they are");
			return 0;
		}
		void seek(ssize_t off, Whence w) noexcept override {
			zk_assert(w != Whence::END, "the end of the stream is of no concern");
			pos = (w == Whence::BEG ? 0 : pos) + (size_t) off;
		}
		[[nodiscard]] size_t tell() const noexcept override { return pos; }
		[[nodiscard]] bool eof() const noexcept override { return pos >= at[2]; }
	};
}

HARNESS(write_chunk_any_size) {
	Out o;
	o.start = o.pos = zk_size(BIG, "start");
	uint32_t k = zk_any_u32("payload");
	auto id = zk_any_u16("id");
	int calls = 0;
	proto::write_chunk<Id>(&o, (Id) id, [&](Write* w) {
		zk_assert(w == &o && o.pos == o.start + 6, "the payload begins right behind the head");
		o.pos += k;
		++calls;
	});
	zk_assert(calls == 1, "the payload is written once");
	zk_assert((o.head[0] | o.head[1] << 8) == id, "the chunk's type is written");
	uint32_t n;
	memcpy(&n, o.head + 2, 4);
	zk_assert(n == k, "the size field is the size of the payload");
	zk_assert(o.pos == o.start + 6 + k, "the stream stands behind the payload");
	zk_cover("end");
}

static void read_any(bool with_target) {
	In in;
	in.at[0] = in.pos = zk_size(BIG, "start");
	for (int k = 0; k < 2; ++k) {
		in.id[k] = zk_any_u16("id");
		in.size[k] = zk_any_u32("size");
		in.at[k + 1] = in.at[k] + 6 + in.size[k];
	}
	int calls = 0, stop = (int) zk_choice(3, "stop");
	auto cb = [&](Read* r, Id id) {
		zk_assert(calls < 2, "no chunk is invented");
		zk_assert(r == &in && (uint16_t) id == in.id[calls], "the chunk's type is handed over");
		zk_assert(in.pos == in.at[calls] + 6, "the payload begins right behind the head");
		in.pos += zk_any_u32("consumed"); // too little, just enough or too much
		return calls++ == stop;
	};
	if (with_target) {
		proto::read_chunked<Id>(&in, "x", std::function<bool(Read*, Id, size_t&)> {[&](Read* r, Id id, size_t& target) {
			zk_assert(target == in.at[calls + 1], "the end of the chunk is handed over");
			return cb(r, id);
		}});
	} else {
		proto::read_chunked<Id>(&in, "x", std::function<bool(Read*, Id)> {cb});
	}
	int want = stop < 2 ? stop + 1 : 2;
	zk_assert(calls == want, "chunks are read until the callback is satisfied or the file ends");
	zk_assert(in.pos == in.at[want], "the stream stands behind the last chunk read");
	zk_cover("end");
}
HARNESS(read_chunked_any_size) { read_any(false); }
HARNESS(read_chunked_target) { read_any(true); }

HARNESS(date) {
	Date d {};
	d.year = zk_any_u32("year");
	d.month = zk_any_u16("month");
	d.day = zk_any_u16("day");
	d.hour = zk_any_u16("hour");
	d.minute = zk_any_u16("minute");
	d.second = zk_any_u16("second");
	std::vector<std::byte> buf;
	auto w = Write::to(&buf);
	d.save(w.get());
	zk_assert(buf.size() == 16, "size of a date");
	auto r = Read::from(&buf);
	Date e {};
	e.load(r.get());
	zk_assert(e.year == d.year && e.month == d.month && e.day == d.day, "date");
	zk_assert(e.hour == d.hour && e.minute == d.minute && e.second == d.second, "time");
	zk_assert(r->eof(), "all of a date is read");
	zk_cover("end");
}

static Vec3 any3(const char* l) { return Vec3 {zk_any_f32(l), zk_any_f32(l), zk_any_f32(l)}; }
static OrientedBoundingBox any_obb(int depth) {
	OrientedBoundingBox o;
	o.center = any3("center");
	for (auto& a : o.axes) a = any3("axis");
	o.half_width = any3("half width");
	for (int i = 0; i < depth; ++i) o.children.push_back(any_obb(depth - 1 - i));
	return o;
}
static void check_obb(OrientedBoundingBox const& a, OrientedBoundingBox const& b) {
	zk_assert(same(a.center, b.center) && same(a.half_width, b.half_width), "center and width of an oriented box");
	for (int i = 0; i < 3; ++i) zk_assert(same(a.axes[i], b.axes[i]), "axes of an oriented box");
	zk_assert(a.children.size() == b.children.size(), "children of an oriented box");
	for (size_t i = 0; i < a.children.size(); ++i) check_obb(a.children[i], b.children[i]);
}
HARNESS(boxes) {
	AxisAlignedBoundingBox a {};
	a.min = any3("min");
	a.max = any3("max");
	auto o = any_obb(3);
	std::vector<std::byte> buf;
	auto w = Write::to(&buf);
	a.save(w.get());
	zk_assert(buf.size() == 24, "size of a bounding box");
	o.save(w.get());
	auto r = Read::from(&buf);
	AxisAlignedBoundingBox b {};
	b.load(r.get());
	zk_assert(same(a.min, b.min) && same(a.max, b.max), "bounding box");
	OrientedBoundingBox p;
	p.load(r.get());
	check_obb(o, p);
	zk_assert(r->eof(), "all of the boxes is read");
	zk_cover("end");
}
HARNESS(many_children) {
	OrientedBoundingBox o;
	o.children.resize(300);
	o.children[299].center = any3("center");
	std::vector<std::byte> buf;
	auto w = Write::to(&buf);
	o.save(w.get());
	auto r = Read::from(&buf);
	OrientedBoundingBox p;
	p.load(r.get());
	zk_assert(p.children.size() == 300, "number of children");
	zk_assert(same(p.children[299].center, o.children[299].center), "last child");
	zk_cover("end");
}
// the axis-aligned box of an oriented box is the smallest one that holds its corners
static void as_bbox(int axis, float hw) {
	zk_opt("fp_exact");
	OrientedBoundingBox o;
	float c = zk_finite("centre");
	zk_assume(c > -1e6f && c < 1e6f);
	o.center = Vec3 {axis == 0 ? c : 0, axis == 1 ? c : 0, axis == 2 ? c : 0};
	// a box turned onto any of its sides
	auto turn = (int) zk_choice(3, "turn");
	for (int i = 0; i < 3; ++i) {
		int k = (i + turn) % 3;
		o.axes[i] = Vec3 {k == 0 ? 1.f : 0.f, k == 1 ? 1.f : 0.f, k == 2 ? 1.f : 0.f};
		o.half_width[i] = k == axis ? hw : 2;
	}
	auto b = o.as_bbox();
	for (int i = 0; i < 3; ++i) {
		zk_assert(b.min[(unsigned) i] == (i == axis ? c - hw : -2), "least coordinate of an oriented box");
		zk_assert(b.max[(unsigned) i] == (i == axis ? c + hw : 2), "greatest coordinate of an oriented box");
	}
	zk_cover("end");
}
HARNESS(obb_as_bbox_x) { as_bbox(0, 0); }
HARNESS(obb_as_bbox_y) { as_bbox(1, 0.5f); }
HARNESS(obb_as_bbox_z) { as_bbox(2, 1); }
// a box turned by an eighth of a circle around each axis, halves of its sides 1, 2 and 3
HARNESS(obb_as_bbox_turned) {
	auto axis = (int) zk_choice(3, "axis");
	OrientedBoundingBox o;
	int a = (axis + 1) % 3, b = (axis + 2) % 3;
	float v[3][3] {};
	v[axis][axis] = 1, v[a][a] = 0.5f, v[a][b] = 0.5f, v[b][a] = -0.5f, v[b][b] = 0.5f;
	for (int i = 0; i < 3; ++i) o.axes[i] = Vec3 {v[i][0], v[i][1], v[i][2]};
	o.center = Vec3 {10, 20, 30};
	o.half_width = Vec3 {1, 2, 3};
	auto x = o.as_bbox();
	float h[3] = {1, 2, 3}, m[3] = {10, 20, 30};
	for (int i = 0; i < 3; ++i) {
		float e = i == axis ? h[i] : (h[a] + h[b]) / 2;
		zk_assert(x.min[(unsigned) i] == m[i] - e && x.max[(unsigned) i] == m[i] + e, "extent of a turned box");
	}
	zk_cover("end");
}
