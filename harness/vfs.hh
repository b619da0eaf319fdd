// Reference file system for the virtual file system harnesses.
#pragma once
#include "zk.hh"
#include "zenkit/Vfs.hh"
#include "zenkit/Stream.hh"
#include <string>
#include <string_view>
#include <vector>
using namespace zenkit;
using OB = VfsOverwriteBehavior;
static std::byte const BLOB[8] {};
static bool blank(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
static char low(char c) { return c >= 'A' && c <= 'Z' ? (char) (c + 32) : c; }
static std::string_view trimmed(std::string_view s) {
	while (!s.empty() && blank(s.back())) s.remove_suffix(1);
	return s;
}
// the names of two nodes are the same name
static bool same(std::string_view a, std::string_view b) {
	a = trimmed(a), b = trimmed(b);
	if (a.size() != b.size()) return false;
	for (size_t i = 0; i < a.size(); ++i) if (low(a[i]) != low(b[i])) return false;
	return true;
}
// Reference file system: a list of nodes, each knowing its parent and its identity (the time stamp)
struct Ref {
	struct N { std::string name; int parent; bool dir; int64_t id; bool gone; };
	std::vector<N> n {{"/", -1, true, -1, false}};
	int add(int p, std::string name, bool dir, int64_t id) { n.push_back({std::move(name), p, dir, id, false}); return (int) n.size() - 1; }
	int child(int p, std::string_view name) const {
		for (size_t i = 1; i < n.size(); ++i) if (!n[i].gone && n[i].parent == p && same(n[i].name, name)) return (int) i;
		return -1;
	}
	void drop(int x) {
		n[x].gone = true;
		for (size_t i = 1; i < n.size(); ++i) if (!n[i].gone && n[i].parent == x) drop((int) i);
	}
	static std::vector<std::string_view> parts(std::string_view path) {
		std::vector<std::string_view> out;
		size_t b = 0;
		for (size_t i = 0; i <= path.size(); ++i)
			if (i == path.size() || path[i] == '/') {
				if (i > b) out.push_back(path.substr(b, i - b));
				b = i + 1;
			}
		return out;
	}
	int resolve(std::string_view path) const {
		int c = 0;
		for (auto p : parts(path)) {
			if (c < 0 || !n[c].dir) return -1;
			c = child(c, p);
		}
		return c;
	}
	size_t count(int p) const {
		size_t r = 0;
		for (size_t i = 1; i < n.size(); ++i) r += !n[i].gone && n[i].parent == p;
		return r;
	}
};
// `v` holds exactly the nodes of the reference below `p`
static void tree(VfsNode const& v, Ref const& r, int p) {
	zk_assert((v.type() == VfsNodeType::DIRECTORY) == r.n[p].dir, "node.type");
	if (!r.n[p].dir) return;
	zk_assert(v.children().size() == r.count(p), "directory.children");
	for (size_t i = 1; i < r.n.size(); ++i) {
		if (r.n[i].gone || r.n[i].parent != p) continue;
		auto* c = v.child(r.n[i].name);
		zk_assert(c != nullptr, "directory.child_present");
		if (r.n[i].id != -7) zk_assert(c->time() == r.n[i].id, "directory.child_identity");
		zk_assert(same(c->name(), r.n[i].name), "directory.child_name");
		tree(*c, r, (int) i);
	}
}
static VfsNode make(Ref::N const& n) {
	return n.dir ? VfsNode::directory(n.name, n.id) : VfsNode::file(n.name, VfsFileDescriptor {BLOB, 4, false}, n.id);
}
static void found(VfsNode const* got, Ref const& r, int want, char const* what) {
	zk_assert((got != nullptr) == (want >= 0), what);
	if (want > 0) {
		zk_assert(r.n[want].id == -7 || got->time() == r.n[want].id, what);
		zk_assert((got->type() == VfsNodeType::DIRECTORY) == r.n[want].dir, what);
	}
}

