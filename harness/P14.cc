// The virtual file system: names, paths and directories.
#include "vfs.hh"
// One directory, any sequence of creating, replacing and removing children
static void directory(size_t ops, size_t len, char const* excluded) {
	Ref r;
	VfsNode d = VfsNode::directory("x", 0);
	r.n[0].name = "x";
	for (size_t i = 0; i < ops; ++i) {
		auto name = zk_str(1 + (len > 1 ? zk_choice((uint32_t) len, "len") : 0), "name", excluded);
		if (zk_choice(3, "op") < 2) {
			if (int o = r.child(0, name); o >= 0) r.drop(o);
			int at = r.add(0, name, zk_any_bool("dir"), 100 + (int64_t) i);
			auto* p = d.create(make(r.n[at]));
			zk_assert(p != nullptr && p == d.child(name), "create.result");
			zk_assert(p->time() == 100 + (int64_t) i, "create.node");
		} else {
			int o = r.child(0, name);
			bool done = d.remove(name);
			zk_assert(done == (o >= 0), "remove.result");
			if (o >= 0) r.drop(o);
		}
	}
	tree(d, r, 0);
	auto probe = zk_str(len, "probe", excluded);
	VfsNode const& cd = d;
	found(cd.child(probe), r, r.child(0, probe), "child.lookup");
	zk_assert(cd.child(probe) == d.child(probe), "child.const");
}
HARNESS(directory_one_letter) { directory(2, 1, ""); zk_cover("end"); }
HARNESS(directory_two_letters) { directory(1, 2, ""); zk_cover("end"); }
// longer histories over few names
HARNESS(directory_history) {
	static char const* const NAMES[] {"a", "A ", "b", "ab"};
	Ref r;
	VfsNode d = VfsNode::directory("x", 0);
	r.n[0].name = "x";
	for (int64_t i = 0; i < 4; ++i) {
		std::string name = NAMES[zk_choice(4, "name")];
		int o = r.child(0, name);
		if (zk_choice(2, "op") == 0) {
			if (o >= 0) r.drop(o);
			int at = r.add(0, name, (i & 1) != 0, 100 + i);
			zk_assert(d.create(make(r.n[at])) == d.child(name), "create.result");
		} else {
			zk_assert(d.remove(name) == (o >= 0), "remove.result");
			if (o >= 0) r.drop(o);
		}
	}
	tree(d, r, 0);
	zk_cover("end");
}
HARNESS(directory_many) {
	Ref r;
	VfsNode d = VfsNode::directory("x", 0);
	static char const NAMES[] = "QzWa-e5TyUio_pSdF[gH~jK";
	for (size_t i = 0; i < sizeof NAMES - 1; ++i) {
		std::string n {NAMES[i]};
		int at = r.add(0, n + "1", i % 3 == 0, (int64_t) i);
		d.create(make(r.n[at]));
	}
	auto gone = zk_str(1, "gone") + "1";
	bool done = d.remove(gone);
	int o = r.child(0, gone);
	zk_assert(done == (o >= 0), "remove.result");
	if (o >= 0) r.drop(o);
	auto probe = zk_str(1, "probe") + "1";
	found(d.child(probe), r, r.child(0, probe), "child.lookup");
	zk_assert(d.children().size() == r.count(0), "directory.children");
	zk_cover("end");
}
HARNESS(file_has_no_children) {
	auto f = VfsNode::file(zk_str(1, "name"), VfsFileDescriptor {BLOB, 4, false}, 1);
	VfsNode const& cf = f;
	auto n = zk_str(1, "probe");
	zk_assert(f.child(n) == nullptr && cf.child(n) == nullptr, "file.child");
	zk_assert(!f.remove(n), "file.remove");
	zk_cover("end");
}

// A file system of fixed shape with arbitrary one-letter names:  a/ { b/ { c }, d }  e
static void populate(Vfs& v, Ref& r, bool symbolic) {
	auto nm = [&](char c) { return symbolic ? zk_str(1, "name", "\r\n/ \t\v\f") : std::string {c}; };
	auto na = nm('a'), nb = nm('b'), nc = nm('c'), nd = nm('d'), ne = nm('e');
	zk_assume(!same(na, ne) && !same(nb, nd));
	int a = r.add(0, na, true, 1), b = r.add(a, nb, true, 2), c = r.add(b, nc, false, 3), d = r.add(a, nd, false, 4), e = r.add(0, ne, false, 5);
	auto A = make(r.n[a]), B = make(r.n[b]);
	B.create(make(r.n[c]));
	A.create(std::move(B));
	A.create(make(r.n[d]));
	v.mount(std::move(A), "/");
	v.mount(make(r.n[e]), "");
}
static std::string any_path(size_t n, char const* ex = "") { return zk_str(n, "path", ex); }
HARNESS(resolve_names) {
	Vfs v; Ref r;
	populate(v, r, true);
	tree(v.root(), r, 0);
	auto p1 = zk_str(1, "p", "/"), p2 = zk_str(1, "p", "/"), p3 = zk_str(1, "p", "/");
	auto path = p1 + "/" + p2 + "/" + p3;
	found(v.resolve(path), r, r.resolve(path), "resolve.path");
	zk_cover("end");
}
static void resolve_any(size_t n, size_t kept) {
	Vfs v; Ref r;
	populate(v, r, false);
	auto path = std::string("A/B/").substr(0, kept) + any_path(n);
	int want = r.resolve(path);
	found(v.resolve(path), r, want, "resolve.path");
	Vfs const& cv = v;
	zk_assert(cv.resolve(path) == v.resolve(path), "resolve.const");
	if (want == 0) zk_assert(v.resolve(path) == &v.root(), "resolve.root");
}
HARNESS(resolve_short) { resolve_any(zk_choice(4, "len"), 0); zk_cover("end"); }
HARNESS(resolve_deep) { resolve_any(3, 2 + 2 * zk_choice(2, "kept")); zk_cover("end"); }
HARNESS(find_any) {
	Vfs v; Ref r;
	populate(v, r, true);
	auto name = zk_str(1 + zk_choice(2, "len"), "probe", "");
	bool any = false;
	for (size_t i = 1; i < r.n.size(); ++i) any |= same(r.n[i].name, name);
	auto* got = v.find(name);
	zk_assert((got != nullptr) == any, "find.result");
	if (got) {
		zk_assert(same(got->name(), name), "find.name");
		auto id = got->time();
		zk_assert(id >= 1 && id <= 5 && same(r.n[id].name, name), "find.node");
	}
	Vfs const& cv = v;
	zk_assert(cv.find(name) == got, "find.const");
	zk_cover("end");
}
static void remove_any(size_t n, size_t kept) {
	Vfs v; Ref r;
	populate(v, r, false);
	auto path = std::string("A/B/").substr(0, kept) + any_path(n);
	int want = r.resolve(path);
	bool done = v.remove(path);
	zk_assert(done == (want > 0), "remove.result");
	if (want > 0) r.drop(want);
	tree(v.root(), r, 0);
}
HARNESS(remove_short) { remove_any(zk_choice(4, "len"), 0); zk_cover("end"); }
HARNESS(remove_deep) { remove_any(3, 2 + 2 * zk_choice(2, "kept")); zk_cover("end"); }
static void mkdir_any(size_t n, size_t kept) {
	Vfs v; Ref r;
	populate(v, r, false);
	auto path = std::string("A/B/").substr(0, kept) + any_path(n, "");
	bool blocked = false;
	int at = 0;
	for (auto p : Ref::parts(path)) {
		int c = r.child(at, p);
		if (c >= 0 && !r.n[c].dir) { blocked = true; break; }
		at = c >= 0 ? c : r.add(at, std::string(p), true, -7);
	}
	VfsNode* got = nullptr;
	bool threw = false;
	try { got = &v.mkdir(path); } catch (VfsFileExistsError const&) { threw = true; }
	zk_assert(threw == blocked, "mkdir.refused");
	if (!threw) {
		zk_assert(got->type() == VfsNodeType::DIRECTORY, "mkdir.type");
		zk_assert(v.resolve(path) == got, "mkdir.reachable");
	}
	tree(v.root(), r, 0);
}
HARNESS(mkdir_short) { mkdir_any(zk_choice(4, "len"), 0); zk_cover("end"); }
HARNESS(mkdir_deep) { mkdir_any(3, 2 + 2 * zk_choice(2, "kept")); zk_cover("end"); }
