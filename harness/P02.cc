// P02: in-memory streams never leave their buffer and keep an exact position, for buffers of any size, from any
// position, for any operation.  One step from an arbitrary state; by induction every history of operations.
#include "zk.hh"
#include <vector>
#include <zenkit/Stream.hh>
using namespace zenkit;

namespace {
	constexpr uint64_t BIG = 1ull << 40;

	// the documented result of a seek: the target if it lies inside [0, end], otherwise the position stays
	size_t seek_spec(size_t pos, size_t end, int64_t off, Whence wh) {
		int64_t base = wh == Whence::BEG ? 0 : wh == Whence::CUR ? (int64_t) pos : (int64_t) end;
		int64_t to = base + off;
		return to < 0 || to > (int64_t) end ? pos : (size_t) to;
	}
	int64_t any_off() {
		int64_t off = (int64_t) zk_any_u64("off");
		zk_assume(off >= -(int64_t) (1ull << 60) && off <= (int64_t) (1ull << 60));
		return off;
	}
	Whence any_whence() {
		uint32_t v = zk_choice(3, "whence");
		return v == 0 ? Whence::BEG : v == 1 ? Whence::CUR : Whence::END;
	}
	void check_read_step(Read* r, std::byte const* src, size_t size) {
		size_t pos = zk_size(BIG, "pos");
		zk_assume(pos <= size);
		zk_assert(r->tell() == 0, "a new stream starts at the beginning");
		r->seek((ssize_t) pos, Whence::BEG);
		zk_assert(r->tell() == pos, "every position up to the end can be reached");
		zk_assert(r->eof() == (pos == size), "eof exactly at the end");
		size_t len = zk_size(BIG, "len");
		std::byte* out = (std::byte*) zk_alloc(len);
		size_t k = zk_size(BIG, "k");
		zk_assume(k < len);
		std::byte before = out[k];
		size_t n = r->read(out, len);
		size_t want = len < size - pos ? len : size - pos;
		zk_assert(n == want, "read returns the bytes available, at most the bytes asked for");
		zk_assert(r->tell() == pos + want, "read advances by the bytes returned");
		zk_assert(r->eof() == (pos + want == size), "eof after reading");
		if (k < want) zk_assert(out[k] == src[pos + k], "read delivers the bytes at the position");
		else zk_assert(out[k] == before, "read leaves the rest of the caller's buffer alone");
		zk_cover("end");
	}
	void check_seek(Read* r, size_t size) {
		size_t pos = zk_size(BIG, "pos");
		zk_assume(pos <= size);
		r->seek((ssize_t) pos, Whence::BEG);
		int64_t off = any_off();
		Whence wh = any_whence();
		r->seek(off, wh);
		zk_assert(r->tell() == seek_spec(pos, size, off, wh), "seek moves inside the buffer or not at all");
		zk_assert(r->eof() == (r->tell() == size), "eof after a seek");
		zk_cover("end");
	}
}

HARNESS(read_any_step) {
	size_t size = zk_size(BIG, "size");
	auto* src = (std::byte*) zk_alloc(size);
	auto r = Read::from(src, size);
	check_read_step(r.get(), src, size);
}

HARNESS(read_vector_pointer) {
	size_t size = zk_size(BIG, "size");
	std::vector<std::byte> v(size);
	auto r = Read::from(&v);
	check_read_step(r.get(), v.data(), size);
}

HARNESS(read_vector_owned) {
	size_t size = zk_size(BIG, "size");
	std::vector<std::byte> v(size);
	auto const* p = v.data();
	auto r = Read::from(std::move(v));
	check_read_step(r.get(), p, size);
}

HARNESS(read_seek) {
	size_t size = zk_size(BIG, "size");
	auto* src = (std::byte*) zk_alloc(size);
	auto r = Read::from(src, size);
	check_seek(r.get(), size);
}

// values read past the end are zero-extended and nothing is invented
HARNESS(read_value_at_end) {
	size_t size = zk_size(BIG, "size");
	auto* src = (std::byte*) zk_alloc(size);
	auto r = Read::from(src, size);
	size_t pos = zk_size(BIG, "pos");
	zk_assume(pos <= size);
	r->seek((ssize_t) pos, Whence::BEG);
	uint32_t v = r->read_uint();
	uint32_t want = 0;
	for (size_t i = 0; i < 4; ++i)
		if (pos + i < size) want |= (uint32_t) src[pos + i] << (8 * i);
	zk_assert(v == want, "a value cut off by the end keeps the bytes that exist and is zero elsewhere");
	zk_assert(r->tell() == (size - pos < 4 ? size : pos + 4), "position after a value");
	zk_cover("end");
}

HARNESS(write_static_step) {
	size_t size = zk_size(BIG, "size");
	auto* dst = (std::byte*) zk_alloc(size);
	auto w = Write::to(dst, size);
	zk_assert(w->tell() == 0, "a new stream starts at the beginning");
	size_t pos = zk_size(BIG, "pos");
	zk_assume(pos <= size);
	w->seek((ssize_t) pos, Whence::BEG);
	zk_assert(w->tell() == pos, "every position up to the end can be reached");
	size_t len = zk_size(BIG, "len");
	auto* in = (std::byte*) zk_alloc(len);
	size_t k = zk_size(BIG, "k");
	zk_assume(k < size);
	std::byte before = dst[k];
	size_t n = w->write(in, len);
	size_t want = len < size - pos ? len : size - pos;
	zk_assert(n == want, "write stores what fits");
	zk_assert(w->tell() == pos + want, "write advances by the bytes stored");
	if (k >= pos && k < pos + want) zk_assert(dst[k] == in[k - pos], "write stores the caller's bytes at the position");
	else zk_assert(dst[k] == before, "write changes nothing else");
	zk_cover("end");
}

HARNESS(write_static_seek) {
	size_t size = zk_size(BIG, "size");
	auto* dst = (std::byte*) zk_alloc(size);
	auto w = Write::to(dst, size);
	size_t pos = zk_size(BIG, "pos");
	zk_assume(pos <= size);
	w->seek((ssize_t) pos, Whence::BEG);
	int64_t off = any_off();
	Whence wh = any_whence();
	w->seek(off, wh);
	zk_assert(w->tell() == seek_spec(pos, size, off, wh), "seek moves inside the buffer or not at all");
	zk_cover("end");
}

// the growing stream: any size, any position up to and beyond the end
HARNESS(write_dynamic_step) {
	size_t size = zk_size(1ull << 36, "size");
	std::vector<std::byte> v(size);
	auto w = Write::to(&v);
	zk_assert(w->tell() == 0, "a new stream starts at the beginning");
	size_t pos = zk_size(1ull << 36, "pos");
	w->seek((ssize_t) pos, Whence::BEG);
	zk_assert(w->tell() == pos, "position");
	size_t len = zk_size(1ull << 36, "len");
	auto* in = (std::byte*) zk_alloc(len);
	size_t k = zk_size(1ull << 38, "k");
	std::byte before = k < size ? v[k] : std::byte {0};
	size_t n = w->write(in, len);
	zk_assert(n == len, "write stores everything");
	zk_assert(w->tell() == pos + len, "write advances by the length");
	size_t want = size > pos + len ? size : pos + len;
	zk_assert(v.size() == want, "the stream grows exactly to the end of the write");
	if (k < want) {
		if (k >= pos && k < pos + len) zk_assert(v[k] == in[k - pos], "write stores the caller's bytes at the position");
		else zk_assert(v[k] == before, "other bytes keep their value, gaps are zero");
	}
	zk_cover("end");
}

HARNESS(write_dynamic_seek) {
	size_t size = zk_size(1ull << 36, "size");
	std::vector<std::byte> v(size);
	auto w = Write::to(&v);
	size_t pos = zk_size(1ull << 36, "pos");
	w->seek((ssize_t) pos, Whence::BEG);
	int64_t off = any_off();
	Whence wh = any_whence();
	int64_t to = (wh == Whence::BEG ? 0 : wh == Whence::CUR ? (int64_t) pos : (int64_t) size) + off;
	zk_assume(to >= 0);
	w->seek(off, wh);
	zk_assert(w->tell() == (size_t) to, "seek goes to the requested position");
	zk_assert(v.size() == size, "seek alone does not change the contents");
	zk_cover("end");
}
