// P05: BINARY archives: typed entries, object framing, skipping and type checks.
#include "arch.hh"
static constexpr Fmt F {ArchiveFormat::BINARY};
HARNESS(entries_short) { archive_entries(F, 3, 2, false); }
HARNESS(entries_empty) { archive_entries(F, 0, 0, true); }
HARNESS(entries_long) { archive_entries(F, ZK_Q(20, 40), ZK_Q(12, 40), true); }
HARNESS(backtrack_string) { archive_backtrack(F, STRING); }
HARNESS(backtrack_int) { archive_backtrack(F, INT); }
HARNESS(backtrack_float) { archive_backtrack(F, FLOAT); }
HARNESS(backtrack_byte) { archive_backtrack(F, BYTE); }
HARNESS(backtrack_vec3) { archive_backtrack(F, VEC3); }
HARNESS(backtrack_color) { archive_backtrack(F, COLOR); }
HARNESS(backtrack_raw) { archive_backtrack(F, RAW); }
HARNESS(skip_current) { archive_skip(F, true, 6); }
HARNESS(skip_next) { archive_skip(F, false, 2); }
HARNESS(entries_255) { archive_entries(F, 255, 256, false); }
HARNESS(entries_256) { archive_entries(F, 256, 255, false); }
HARNESS(entries_1000) { archive_entries(F, 1000, 700, true); }
HARNESS(large_skipped) { archive_large(F, 300, true); }
HARNESS(large_read) { archive_large(F, 260, false); }

// what follows the header is binary data, whatever it looks like
HARNESS(payload_after_header) {
	std::vector<std::byte> buf;
	auto w = Write::to(&buf);
	auto ar = WriteArchive::to(w.get(), ArchiveFormat::BINARY);
	auto v = zk_any_u32("value"), u = zk_any_u32("second value");
	w->write_uint(v);
	w->write_uint(u);
	ar->write_header();
	auto r = Read::from(&buf);
	auto ra = ReadArchive::from(r.get());
	zk_assert(r->read_uint() == v && r->read_uint() == u, "data right behind the header");
	zk_cover("end");
}
HARNESS(object_size) {
	// total sizes of the first object around and at those whose first byte is a line feed
	static size_t const sizes[] = {9, 10, 13, 32, 255, 256};
	auto want = sizes[zk_choice(6, "size")] + 256;
	std::vector<std::byte> raw(want - 4 - 6 - 2 - 2);
	raw[0] = std::byte(zk_any_u8("byte"));
	std::vector<std::byte> buf;
	write_archive(buf, F, false, [&](WriteArchive& a) {
		a.write_object_begin("o", "c", 7);
		a.write_raw("raw", raw);
		a.write_object_end();
	});
	auto r = Read::from(&buf);
	auto ra = ReadArchive::from(r.get());
	ArchiveObject o;
	zk_assert(ra->read_object_begin(o) && o.version == 7 && o.object_name == "o" && o.class_name == "c", "first object found");
	auto got = ra->read_raw(raw.size());
	std::byte x {};
	zk_assert(got->read(&x, 1) == 1 && x == raw[0], "content of the first object");
	zk_assert(ra->read_object_end(), "end of the first object");
	zk_cover("end");
}
