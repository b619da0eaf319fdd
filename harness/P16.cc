// VDF disks: saving a file system and mounting it again, the documented layout, and conflicts with what is mounted.
#include "vfs.hh"
#include <cstdlib>
#include <ctime>
static void zone() {
	if (zk_symbolic()) return;
	setenv("TZ", "XYZ-5:30", 1);
	tzset();
}
// a time the format can store: 1980 up to 2107
static int64_t any_time(char const* l) {
	uint64_t t = zk_any_u64(l);
	zk_assume(t >= 315532800ull && t <= 4354819199ull);
	return (int64_t) t;
}
static uint32_t dos(int64_t t) {
	time_t tt = (time_t) t;
	tm f = *gmtime(&tt);
	return (uint32_t) (f.tm_year - 80) << 25 | (uint32_t) (f.tm_mon + 1) << 21 | (uint32_t) f.tm_mday << 16 | (uint32_t) f.tm_hour << 11 | (uint32_t) f.tm_min << 5 | (uint32_t) (f.tm_sec / 2);
}
struct Disk {
	Ref r;
	std::vector<std::vector<std::byte>> data {{}};
	int add(int p, std::string name, bool dir, size_t size = 0) {
		std::vector<std::byte> d(size);
		for (size_t i = 0; i < size; ++i) d[i] = size < 100 || i % 16384 == 0 ? std::byte {zk_any_u8("data")} : std::byte {7};
		data.push_back(std::move(d));
		return r.add(p, std::move(name), dir, 77);
	}
	VfsNode build(int x) const {
		if (!r.n[x].dir) return VfsNode::file(r.n[x].name, VfsFileDescriptor {data[x].data(), data[x].size(), false}, 77);
		auto n = VfsNode::directory(r.n[x].name, 77);
		for (size_t i = 1; i < r.n.size(); ++i) if (r.n[i].parent == x) n.create(build((int) i));
		return n;
	}
	// directories without any file below them are not stored
	bool stored(int x) const {
		if (!r.n[x].dir) return true;
		for (size_t i = 1; i < r.n.size(); ++i) if (r.n[i].parent == x && stored((int) i)) return true;
		return false;
	}
};
static void same_bytes(VfsNode const& n, std::vector<std::byte> const& want) {
	auto r = n.open_read();
	r->seek(0, Whence::END);
	zk_assert(r->tell() == want.size(), "file.size");
	r->seek(0, Whence::BEG);
	if (want.size() >= 100) {
		std::vector<std::byte> got(want.size());
		zk_assert(r->read(got.data(), got.size()) == got.size() && r->eof(), "file.size");
		bool eq = true;
		for (size_t i = 0; i < got.size(); i += 1024) eq &= got[i] == want[i];
		zk_assert(eq && got.back() == want.back(), "file.contents");
		return;
	}
	for (auto b : want) zk_assert(r->read_ubyte() == (uint8_t) b, "file.contents");
}
static void equal(VfsNode const& n, Disk const& d, int x, int64_t t) {
	zk_assert((n.type() == VfsNodeType::DIRECTORY) == d.r.n[x].dir, "node.type");
	if (x) {
		zk_assert(trimmed(d.r.n[x].name) == n.name(), "node.name");
		zk_assert(n.time() == t, "node.time");
	}
	if (!d.r.n[x].dir) return same_bytes(n, d.data[x]);
	size_t count = 0;
	for (size_t i = 1; i < d.r.n.size(); ++i) {
		if (d.r.n[i].parent != x || !d.stored((int) i)) continue;
		++count;
		auto* c = n.child(d.r.n[i].name);
		zk_assert(c != nullptr, "node.present");
		equal(*c, d, (int) i, t);
	}
	zk_assert(n.children().size() == count, "directory.children");
}
static uint32_t u32(std::vector<std::byte> const& v, size_t at) {
	uint32_t x;
	memcpy(&x, v.data() + at, 4);
	return x;
}
static void trip(Disk const& d, bool layout, bool both = true) {
	zone();
	Vfs v;
	for (size_t i = 1; i < d.r.n.size(); ++i) if (d.r.n[i].parent == 0) v.mount(d.build((int) i), "/");
	int64_t t = any_time("time");
	bool g1 = both && zk_choice(2, "game");
	std::vector<std::byte> out;
	auto w = Write::to(&out);
	v.save(w.get(), g1 ? GameVersion::GOTHIC_1 : GameVersion::GOTHIC_2, (time_t) t);
	if (layout) {
		zk_assert(out.size() >= 296, "header.size");
		zk_assert(memcmp(out.data() + 256, g1 ? "PSVDSC_V2.00\r\n\r\n" : "PSVDSC_V2.00\n\r\n\r", 16) == 0, "header.signature");
		bool pad = false, ok = true;
		for (size_t i = 0; i < 256; ++i) {
			if (out[i] == std::byte {0x1A}) pad = true;
			else if (pad) ok = false;
		}
		zk_assert(ok, "header.comment");
		uint32_t files = 0, all = 0;
		for (size_t i = 1; i < d.r.n.size(); ++i) if (d.stored((int) i)) ++all, files += !d.r.n[i].dir;
		zk_assert(u32(out, 272) == all, "header.entries");
		zk_assert(u32(out, 276) == files, "header.files");
		zk_assert(u32(out, 280) == dos(t), "header.timestamp");
		zk_assert(u32(out, 288) == 296, "header.catalog_offset");
		zk_assert(u32(out, 292) == 0x50, "header.version");
	}
	Vfs x;
	auto r = Read::from(&out);
	x.mount_disk(r.get(), OB::NONE);
	equal(x.root(), d, 0, t - (t & 1));
	zk_cover("end");
}
HARNESS(trip_empty) { trip(Disk {}, true); }
HARNESS(trip_file) {
	Disk d;
	d.add(0, zk_str(1 + zk_choice(3, "len"), "name", ""), false, zk_choice(3, "size"));
	trip(d, true);
}
HARNESS(trip_two) {
	Disk d;
	d.add(0, zk_str(1, "name", ""), zk_any_bool("dir"), 2);
	d.add(0, zk_str(1, "name", ""), false, 1);
	zk_assume(!same(d.r.n[1].name, d.r.n[2].name));
	if (d.r.n[1].dir) d.data[1].clear();
	trip(d, false);
}
HARNESS(trip_long_name) {
	Disk d;
	d.add(0, zk_str(1, "name", "") + std::string(61, 'n') + zk_str(1 + zk_choice(2, "len"), "tail", ""), false, 1);
	trip(d, true);
}
HARNESS(trip_nested) {
	Disk d;
	int a = d.add(0, zk_str(1, "name", ""), true), b = d.add(a, zk_str(1, "name", ""), true);
	d.add(b, zk_str(1, "name", ""), false, 3);
	d.add(b, "other", false, 1);
	trip(d, true);
}
// all shapes of a bigger tree: four directories and the places of four files
HARNESS(trip_shapes) {
	Disk d;
	int a = d.add(0, "a", true), b = d.add(0, "b", true), c = d.add(a, "c", true), e = d.add(zk_choice(2, "e") ? c : b, "e", true);
	int places[] {0, a, b, c, e};
	for (auto n : {"M", "d", "z"}) d.add(places[zk_choice(5, n)], n, false, 1);
	trip(d, false);
}
HARNESS(trip_many) {
	Disk d;
	int a = d.add(0, "dir", true);
	for (int i = 0; i < 20; ++i) d.add(i % 3 ? a : 0, std::string("file") + (char) ('a' + (i * 7) % 20), false, (size_t) (i % 4));
	trip(d, true);
}
HARNESS(trip_large) {
	Disk d;
	d.add(0, "before", false, 70000);
	int a = 0;
	for (int i = 0; i < 12; ++i) a = d.add(a, "d" + std::string(1, (char) ('a' + i)), true);
	d.add(a, "deep", false, 1);
	d.add(a, "large", false, 66000);
	d.add(a, "next", false, 3);
	d.add(0, "z", false, 2);
	trip(d, true);
}
HARNESS(trip_hundreds) {
	Disk d;
	int a = d.add(0, "dir", true);
	for (int i = 0; i < 270; ++i) d.add(a, std::string("f") + (char) ('a' + i / 20) + (char) ('a' + i % 20), false, i % 90 ? 0 : 1);
	d.add(0, "z", false, 2);
	trip(d, true, false);
}

// A disk laid out by hand according to the documentation
struct Out {
	std::vector<std::byte> b;
	void u(uint32_t v) { for (int i = 0; i < 4; ++i) b.push_back(std::byte {(uint8_t) (v >> 8 * i)}); }
	void s(std::string_view v, size_t n, char pad) { for (size_t i = 0; i < n; ++i) b.push_back(std::byte {(uint8_t) (i < v.size() ? v[i] : pad)}); }
	void header(int sig, uint32_t entries, uint32_t files, uint32_t ts, uint32_t cat, uint32_t flags) {
		s("some disk", 256, '\x1A');
		s(sig == 0 ? "PSVDSC_V2.00\r\n\r\n" : sig == 1 ? "PSVDSC_V2.00\n\r\n\r" : "PSVDSC_V2.00\x1A\x1A\x1A\x1A", 16, 0);
		u(entries); u(files); u(ts); u(zk_any_u32("size")); u(cat); u(flags);
	}
	void entry(std::string_view name, uint32_t off, uint32_t size, uint32_t type) { s(name, 64, ' '); u(off); u(size); u(type); u(zk_any_u32("attributes")); }
};
static int64_t unix_time(uint32_t d) {
	tm t {};
	t.tm_year = (int) ((d >> 25) & 0x7F) + 80;
	t.tm_mon = (int) ((d >> 21) & 0xF) - 1;
	t.tm_mday = (int) ((d >> 16) & 0x1F);
	t.tm_hour = (int) ((d >> 11) & 0x1F);
	t.tm_min = (int) ((d >> 5) & 0x3F);
	t.tm_sec = (int) (d & 0x1F) * 2;
	return (int64_t) timegm(&t);
}
// catalog as in the documentation's example: children after their parents, files in any order in the data
HARNESS(documented) {
	zone();
	uint32_t ts = zk_any_u32("timestamp");
	int64_t t = unix_time(ts);
	uint8_t x[4];
	for (auto& c : x) c = zk_any_u8("data");
	auto name = zk_str(2, "name", "\r\n \t\v\f");
	Out o;
	uint32_t cat = zk_choice(2, "cat") ? 296 : 0;
	o.header((int) zk_choice(3, "signature"), 5, 3, ts, cat, zk_choice(2, "flags") ? 0x50 : 0);
	uint32_t D = 296 + 5 * 80;
	o.entry("_WORK", 2, 0, 0x80000000);
	o.entry(name, D + 1, 3, 0x40000000);
	o.entry("DATA", 4, 0, 0x80000000);
	o.entry("A.TXT", D, 2, 0x40000000);
	o.entry("B.TXT", D + 4, 0, 0x40000000);
	for (auto c : x) o.b.push_back(std::byte {c});
	Vfs v;
	auto r = Read::from(&o.b);
	v.mount_disk(r.get(), OB::ALL);
	zk_assume(!same(name, "_work"));
	zk_assert(v.root().children().size() == 2, "documented.root");
	auto by = [&](size_t a, size_t n) { std::vector<std::byte> q; for (size_t i = a; i < a + n; ++i) q.push_back(std::byte {x[i]}); return q; };
	auto* f = v.root().child(name);
	zk_assert(f && f->type() == VfsNodeType::FILE && f->time() == t && f->name() == name, "documented.file");
	same_bytes(*f, by(1, 3));
	auto* wk = v.resolve("_work");
	zk_assert(wk && wk->type() == VfsNodeType::DIRECTORY && wk->children().size() == 2 && wk->time() == t, "documented.directory");
	auto* a = v.resolve("_work/a.txt");
	zk_assert(a && a->type() == VfsNodeType::FILE, "documented.nested_file");
	same_bytes(*a, by(0, 2));
	auto* bt = v.resolve("_work/data/b.txt");
	zk_assert(bt && bt->type() == VfsNodeType::FILE, "documented.deep_file");
	same_bytes(*bt, {});
	zk_assert(v.resolve("_work/data")->children().size() == 1, "documented.deep_directory");
	zk_cover("end");
}
static bool replaces(OB o, int64_t existing, int64_t fresh) {
	switch (o) {
	case OB::NONE: return false;
	case OB::ALL: return true;
	case OB::NEWER: return existing > fresh;
	default: return existing < fresh;
	}
}
// The same entry is already mounted, as a file or a directory
HARNESS(conflicts) {
	zone();
	uint32_t ts = zk_any_u32("timestamp");
	int64_t t = unix_time(ts), had = (int64_t) zk_any_u64("existing");
	auto ob = (OB) zk_choice(4, "overwrite");
	bool ndir = zk_choice(2, "newdir"), odir = zk_choice(2, "olddir"), deep = zk_choice(2, "deep");
	Out o;
	o.header(1, 3, 2, ts, 296, 0x50);
	uint32_t base = deep ? 1 : 0, D = 296 + 3 * 80;
	if (deep) o.entry("top", 1, 0, 0xC0000000);
	o.entry("NODE", ndir ? base + 1 : D, ndir ? 0 : 1, ndir ? 0xC0000000 : 0x40000000);
	o.entry("inner", D, 1, 0x40000000);
	if (!deep) o.entry("unused", 0, 0, 0);
	o.b.push_back(std::byte {42});
	Vfs v;
	std::string at = deep ? "top" : "";
	v.mkdir(at);
	if (odir) {
		auto n = VfsNode::directory("node", had);
		n.create(VfsNode::file("kept", VfsFileDescriptor {BLOB, 3, false}, 5));
		v.mount(n, at);
	} else {
		v.mount(VfsNode::file("node", VfsFileDescriptor {BLOB, 4, false}, had), at);
	}
	auto r = Read::from(&o.b);
	v.mount_disk(r.get(), ob);
	auto* n = v.resolve(at + "/node");
	zk_assert(n != nullptr, "conflict.present");
	zk_assert(v.resolve(at)->children().size() == 1, "conflict.siblings");
	bool both = ndir && odir, rep = !both && replaces(ob, had, t);
	bool dir = both || (rep ? ndir : odir);
	zk_assert((n->type() == VfsNodeType::DIRECTORY) == dir, "conflict.type");
	if (!both) zk_assert(n->time() == (rep ? t : had), "conflict.time");
	if (dir) {
		auto *k = n->child("KEPT"), *i = n->child("INNER");
		bool kept = both || !rep, inner = both || rep;
		zk_assert((k != nullptr) == (kept && odir), "conflict.kept");
		zk_assert((i != nullptr) == (inner && ndir), "conflict.added");
		zk_assert(n->children().size() == (size_t) (k != nullptr) + (i != nullptr), "conflict.children");
	} else same_bytes(*n, rep ? std::vector<std::byte> {std::byte {42}} : std::vector<std::byte>(4));
	zk_cover("end");
}
// Mounting a damaged disk ends: it is refused, or what it mounts can be read
static void readable(VfsNode const& n) {
	if (n.type() == VfsNodeType::FILE) {
		auto r = n.open_read();
		r->seek(0, Whence::END);
		auto sz = r->tell();
		if (sz > 0) {
			r->seek(0, Whence::BEG);
			(void) r->read_ubyte();
			r->seek((ssize_t) sz - 1, Whence::BEG);
			(void) r->read_ubyte();
		}
		return;
	}
	for (auto& c : n.children()) readable(c);
}
static void damaged(Out& o) {
	Vfs v;
	auto r = Read::from(&o.b);
	try { v.mount_disk(r.get(), OB::ALL); } catch (VfsBrokenDiskError const&) {}
	readable(v.root());
	zk_assert(true, "damaged.terminates");
	zk_cover("end");
}
static uint32_t const OFFS[] {0, 1, 2, 3, 4, 0x03333334, 0x7FFFFFFF, 0xFFFFFFFF};
HARNESS(damaged_catalog) {
	Out o;
	o.header(0, zk_any_u32("entries"), zk_any_u32("files"), 0x2D65BBB3, 296, 0x50);
	uint32_t n = 1 + zk_choice(2, "n");
	for (uint32_t i = 0; i < n; ++i) {
		bool dir = zk_choice(2, "dir");
		uint32_t off = dir ? OFFS[zk_choice(8, "off")] : zk_any_u32("offset");
		o.entry(i ? "b" : "a", off, zk_any_u32("esize"), (dir ? 0x80000000u : 0) | (zk_choice(2, "last") ? 0x40000000u : 0) | (zk_any_u32("type") & 0x3FFFFFFF));
	}
	if (zk_choice(2, "cut")) o.b.resize(o.b.size() - 16);
	damaged(o);
}
static uint32_t const CATS[] {0, 1, 8, 216, 295, 296, 297, 375, 376, 377, 0x7FFFFFFF, 0xFFFFFFFF};
HARNESS(damaged_header) {
	Out o;
	o.header((int) zk_choice(3, "signature"), zk_any_u32("entries"), zk_any_u32("files"), zk_any_u32("ts"), CATS[zk_choice(12, "cat")], zk_any_u32("flags"));
	o.entry("a", zk_any_u32("offset"), zk_any_u32("esize"), zk_choice(2, "last") ? 0x40000000u : 0);
	o.b.resize((size_t[]) {0, 100, 272, 290, 296, 340, 376}[zk_choice(7, "length")]);
	damaged(o);
}
HARNESS(damaged_signature) {
	Out o;
	o.header(1, 0, 0, 0, 296, 0x50);
	char sig[16];
	zk_any_bytes(sig, 16, "sig");
	memcpy(o.b.data() + 256, sig, 16);
	bool known = memcmp(sig, "PSVDSC_V2.00\r\n\r\n", 16) == 0 || memcmp(sig, "PSVDSC_V2.00\n\r\n\r", 16) == 0 || memcmp(sig, "PSVDSC_V2.00\x1A\x1A\x1A\x1A", 16) == 0;
	Vfs v;
	auto r = Read::from(&o.b);
	bool refused = false;
	try { v.mount_disk(r.get(), OB::ALL); } catch (VfsBrokenDiskError const&) { refused = true; }
	zk_assert(refused == !known, "signature.checked");
	zk_assert(v.root().children().empty(), "signature.nothing_mounted");
	zk_cover("end");
}
