// The virtual file system: mounting nodes, conflicts and ownership of file contents.
#include "vfs.hh"
// The rule for a conflict between an existing node and a new one where at least one is a file
static bool replaces(OB o, int64_t existing, int64_t fresh) {
	switch (o) {
	case OB::NONE: return false;
	case OB::ALL: return true;
	case OB::NEWER: return existing > fresh;
	default: return existing < fresh;
	}
}
// Reference merge of the subtree `s` of `src` into the directory `at` of `dst`
static void graft(Ref& dst, int at, Ref const& src, int s) {
	int n = dst.add(at, src.n[s].name, src.n[s].dir, src.n[s].id);
	for (size_t i = 1; i < src.n.size(); ++i) if (src.n[i].parent == s) graft(dst, n, src, (int) i);
}
static void merge(Ref& dst, int at, Ref const& src, int s, OB o) {
	int ex = dst.child(at, src.n[s].name);
	if (ex < 0) return graft(dst, at, src, s);
	if (dst.n[ex].dir && src.n[s].dir) {
		for (size_t i = 1; i < src.n.size(); ++i) if (src.n[i].parent == s) merge(dst, ex, src, (int) i, o);
		return;
	}
	if (!replaces(o, dst.n[ex].id, src.n[s].id)) return;
	dst.drop(ex);
	graft(dst, at, src, s);
}
static VfsNode build(Ref const& r, int x) {
	auto n = make(r.n[x]);
	for (size_t i = 1; i < r.n.size(); ++i) if (r.n[i].parent == x) n.create(build(r, (int) i));
	return n;
}
static int64_t stamp(char const* l) { return (int64_t) zk_any_u64(l); }
static OB behavior() { return (OB) zk_choice(4, "overwrite"); }
static void run(Ref& have, std::string_view where, int at, Ref const& src, OB o) {
	Vfs v;
	for (size_t i = 1; i < have.n.size(); ++i) if (have.n[i].parent == 0) v.mount(build(have, (int) i), "/");
	tree(v.root(), have, 0);
	v.mount(build(src, 1), where, o);
	merge(have, at, src, 1, o);
	tree(v.root(), have, 0);
	zk_cover("end");
}
// a single node meets a single node, in the root or in a directory
HARNESS(single) {
	Ref have, src;
	bool deep = zk_choice(2, "deep");
	int at = deep ? have.add(0, "dir", true, 5) : 0;
	if (zk_choice(3, "have") == 0) {
	} else {
		auto n = zk_str(1, "name", "\r\n/ \t\v\f");
		have.add(at, n, zk_any_bool("havedir"), stamp("existing"));
	}
	src.add(0, zk_str(1, "src", "\r\n/ \t\v\f"), zk_any_bool("srcdir"), stamp("fresh"));
	run(have, deep ? "DIR" : "/", at, src, behavior());
}
// directories with one child each: every combination of absent, file, directory, in both trees
HARNESS(directories) {
	Ref have, src;
	int a = have.add(0, "a", true, 1), s = src.add(0, "A", true, 2);
	uint32_t k = zk_choice(4, "have");
	if (k) {
		int x = have.add(a, "k", k >= 2, stamp("existing"));
		if (k == 3) have.add(x, "m", false, stamp("inner"));
	}
	uint32_t q = zk_choice(4, "src");
	if (q) {
		int x = src.add(s, "K", q >= 2, stamp("fresh"));
		if (q == 3) src.add(x, "M", zk_any_bool("innerdir"), stamp("fresh_inner"));
	}
	run(have, "", 0, src, behavior());
}
// several conflicts at once: each one is settled on its own
HARNESS(siblings) {
	Ref have, src;
	int a = have.add(0, "a", true, 1), s = src.add(0, "A", true, 2);
	for (auto n : {"x", "y", "z"}) have.add(a, n, n[0] == 'z', stamp("existing"));
	for (auto n : {"Y", "W", "X"}) src.add(s, n, n[0] == 'W', stamp("fresh"));
	run(have, "/", 0, src, behavior());
}
HARNESS(deep) {
	Ref have, src;
	int a = have.add(0, "a", true, 1), b = have.add(a, "b", true, 2), c = have.add(b, "c", true, 3);
	have.add(c, "f", false, stamp("existing"));
	have.add(b, "g", false, stamp("existing"));
	int p = src.add(0, "A", true, 4), q = src.add(p, "B", true, 5), t = src.add(q, "C", true, 6);
	src.add(t, "F", false, stamp("fresh"));
	src.add(t, "new", false, stamp("fresh"));
	src.add(q, "G", true, stamp("fresh"));
	run(have, "/", 0, src, behavior());
}
// the whole tree is added when nothing is in the way
HARNESS(fresh) {
	Ref have, src;
	int d = have.add(0, "d", true, 1), s = src.add(0, "s", true, stamp("fresh"));
	have.add(d, "t", false, 2);
	int u = src.add(s, "u", true, stamp("fresh"));
	src.add(u, "v", false, stamp("fresh"));
	src.add(s, "w", false, stamp("fresh"));
	run(have, "/D/", d, src, behavior());
}
// The new file replaces the contents, an old one keeps them
HARNESS(contents) {
	static std::byte const one[3] {std::byte {1}, std::byte {2}, std::byte {3}}, two[2] {std::byte {9}, std::byte {8}};
	Vfs v;
	int64_t t1 = stamp("existing"), t2 = stamp("fresh");
	auto o = behavior();
	v.mount(VfsNode::file("f", VfsFileDescriptor {one, 3, false}, t1), "/");
	v.mount(VfsNode::file("F", VfsFileDescriptor {two, 2, false}, t2), "/", o);
	auto* n = v.resolve("f");
	zk_assert(n != nullptr, "contents.present");
	auto r = n->open_read();
	bool rep = replaces(o, t1, t2);
	r->seek(0, Whence::END);
	zk_assert(r->tell() == (rep ? 2u : 3u), "contents.size");
	r->seek(0, Whence::BEG);
	zk_assert(r->read_ubyte() == (rep ? 9 : 1), "contents.bytes");
	zk_assert(r->read_ubyte() == (rep ? 8 : 2), "contents.bytes");
	zk_cover("end");
}
// Mounting below something that is not a directory changes nothing
HARNESS(refused) {
	Vfs v;
	Ref have;
	int d = have.add(0, "d", true, 1);
	have.add(d, "f", false, 2);
	v.mount(build(have, 1), "/");
	auto where = zk_choice(2, "where") ? std::string("d/") + zk_str(1, "path", "") : zk_str(1 + zk_choice(2, "len"), "path", "");
	int at = have.resolve(where);
	auto o = behavior();
	int thrown = 0;
	auto n = VfsNode::file("new", VfsFileDescriptor {BLOB, 4, false}, 3);
	try { v.mount(n, where, o); }
	catch (VfsNotFoundError const&) { thrown = 1; }
	catch (VfsFileExistsError const&) { thrown = 2; }
	zk_assert(thrown == (at < 0 ? 1 : !have.n[at].dir ? 2 : 0), "mount.refused");
	if (!thrown) have.add(at, "new", false, 3);
	tree(v.root(), have, 0);
	zk_cover("end");
}
// The contents handed to a node live as long as any copy of the node or its descriptor, and are released once
HARNESS(ownership) {
	auto* mem = new std::byte[2];
	uint8_t b0 = zk_any_u8("byte"), b1 = zk_any_u8("byte");
	mem[0] = std::byte {b0}, mem[1] = std::byte {b1};
	auto* other = new std::byte[1];
	other[0] = std::byte {7};
	auto* fd = new VfsFileDescriptor {mem, 2, true};
	auto* fe = new VfsFileDescriptor {other, 1, true};
	Vfs v;
	VfsFileDescriptor* cp = nullptr;
	VfsNode* node = nullptr;
	for (int i = 0; i < 3; ++i) {
		switch (zk_choice(5, "op")) {
		case 0: delete cp; cp = new VfsFileDescriptor {*fd}; break;
		case 1: *fe = *fd; break;
		case 2: *fd = *fd; break;
		case 3: v.mount(VfsNode::file("f", *fd, 1), "/"); break;
		default: delete node; node = new VfsNode {VfsNode::file("g", *fd, 2)}; break;
		}
	}
	if (zk_choice(2, "gone")) { delete fd; fd = nullptr; }
	auto look = [&](VfsFileDescriptor const& d) {
		zk_assert(d.size == 2 && d.memory[0] == std::byte {b0} && d.memory[1] == std::byte {b1}, "ownership.contents");
	};
	auto lookn = [&](VfsNode const& n) {
		auto r = n.open_read();
		zk_assert(r->read_ubyte() == b0 && r->read_ubyte() == b1, "ownership.read");
	};
	if (fd) look(*fd);
	if (cp) look(*cp);
	if (auto* n = v.resolve("F")) lookn(*n);
	if (node) {
		VfsNode copy {*node};
		delete node;
		lookn(copy);
		Vfs w;
		w.mount(copy, "/");
		VfsNode over = VfsNode::file("h", *fe, 3);
		over = copy;
		lookn(over);
		lookn(*w.resolve("g"));
	}
	delete cp;
	if (fe->size == 2) look(*fe);
	else zk_assert(fe->size == 1 && fe->memory[0] == std::byte {7}, "ownership.contents");
	delete fe;
	delete fd;
	zk_cover("end");
}
