// P11: stand-alone resources that can be saved: loading what was saved restores every field and stops at the end.
#include "mesh.hh"
#include <set>
namespace {
	constexpr auto G1 = GameVersion::GOTHIC_1, G2 = GameVersion::GOTHIC_2;
	template <typename T, typename S, typename L, typename F>
	void trip(GameVersion ver, T& a, S save, L load, F f) {
		Visit v {BI_, ver, false};
		f(v, a, a);
		std::vector<std::byte> buf;
		auto w = Write::to(&buf);
		save(w.get());
		auto size = buf.size();
		w->write_uint(0x12345678);
		auto r = Read::from(&buf);
		T b;
		load(b, r.get());
		v.filling = false;
		f(v, a, b);
		zk_assert(r->tell() == size, "reader stands right behind the resource");
		zk_cover("end");
	}
	GameVersion game() { return zk_choice(2, "game") ? G2 : G1; }
	void mrm(GameVersion ver, size_t n, size_t subs) {
		MultiResolutionMesh a;
		trip(ver, a, [&](Write* w) { a.save(w, ver); }, [&](auto& b, Read* r) { b.load(r); },
		     [&](Visit& v, auto& x, auto& y) { fields(v, x, y, n, subs); });
	}
}
HARNESS(font) {
	Font a;
	auto n = zk_choice(4, "n");
	trip(G1, a, [&](Write* w) { a.save(w); }, [&](auto& b, Read* r) { b.load(r); }, [&](Visit& v, auto& x, auto& y) { fields(v, x, y, n); });
}
HARNESS(font_256) {
	Font a;
	trip(G1, a, [&](Write* w) { a.save(w); }, [&](auto& b, Read* r) { b.load(r); }, [&](Visit& v, auto& x, auto& y) { fields(v, x, y, 256); });
}
HARNESS(hierarchy) {
	ModelHierarchy a;
	auto n = zk_choice(4, "n");
	trip(G1, a, [&](Write* w) { a.save(w); }, [&](auto& b, Read* r) { b.load(r); }, [&](Visit& v, auto& x, auto& y) { fields(v, x, y, n); });
}
HARNESS(hierarchy_260) {
	ModelHierarchy a;
	trip(G1, a, [&](Write* w) { a.save(w); }, [&](auto& b, Read* r) { b.load(r); }, [&](Visit& v, auto& x, auto& y) { fields(v, x, y, 260); });
}
HARNESS(mrm_empty) { mrm(game(), 0, 0); }
HARNESS(mrm_one) { mrm(game(), 2, 1); }
HARNESS(mrm_two) { mrm(game(), 1, 2); }
HARNESS(mrm_bare) { mrm(game(), 0, 2); }
HARNESS(mrm_many) { mrm(G2, 70, 1); }
HARNESS(mrm_many_subs) { mrm(G2, 0, 130); }
HARNESS(softskin) {
	auto ver = game();
	auto n = zk_choice(3, "n");
	SoftSkinMesh a;
	trip(ver, a, [&](Write* w) { a.save(w, ver); }, [&](auto& b, Read* r) { b.load(r); }, [&](Visit& v, auto& x, auto& y) { fields(v, x, y, n); });
}
HARNESS(model_mesh) {
	auto ver = game();
	auto n = zk_choice(3, "n");
	ModelMesh a;
	static const char* const names[] = {"ZS_HELMET", "BIP01", "Z"};
	trip(ver, a, [&](Write* w) { a.save(w, ver); }, [&](auto& b, Read* r) { b.load(r); }, [&](Visit& v, auto& x, auto& y) {
		v.f(x.checksum, y.checksum, "model checksum");
		list(v, x.meshes, y.meshes, n, "skins", [&](auto& p, auto& q) { fields(v, p, q, 1); });
		if (!v.filling) zk_assert(x.attachments.size() == y.attachments.size(), "attachments");
		for (size_t i = 0; i < n + 1; ++i) {
			if (!v.filling) zk_assert(y.attachments.count(names[i]) == 1, "attachment name");
			fields(v, x.attachments[names[i]], y.attachments[names[i]], i, 1);
		}
	});
}
// trees of up to seven nodes: every shape in which inner nodes have one or two children
static size_t bsp_node(BspTree& t, Visit& v, int32_t parent, int depth, const char* l) {
	size_t self = t.nodes.size();
	t.nodes.emplace_back();
	auto kids = depth == 0 ? 0 : zk_choice(4, l);
	{
		auto& n = t.nodes[self];
		n.parent_index = parent;
		v.f(n.bbox, n.bbox, "node box");
		n.polygon_index = 0;
		n.polygon_count = zk_choice(kids ? 1 : 3, "polygons of a leaf");
		if (kids) {
			n.polygon_index = zk_any_u32("polygon index");
			n.polygon_count = zk_any_u32("polygon count");
			v.f(n.plane.x, n.plane.x, "plane");
			v.f(n.plane.y, n.plane.y, "plane");
			v.f(n.plane.z, n.plane.z, "plane");
			v.f(n.plane.w, n.plane.w, "plane");
			if (!v.g2()) v.f(n.lod, n.lod, "lod");
		} else t.leaf_node_indices.push_back(self);
	}
	if (kids & 1) {
		auto k = t.nodes.size();
		t.nodes[self].front_index = (int32_t) k;
		bsp_node(t, v, (int32_t) self, depth - 1, l);
	}
	if (kids & 2) {
		auto k = t.nodes.size();
		t.nodes[self].back_index = (int32_t) k;
		bsp_node(t, v, (int32_t) self, depth - 1, l);
	}
	return self;
}
static void bsp(GameVersion ver, int depth) {
	BspTree a {};
	Visit v {BI_, ver, false};
	for (int i = 0; i < 3; ++i) a.polygon_indices.push_back(7u - 2u * (uint32_t) i);
	bsp_node(a, v, -1, depth, "children");
	fields(v, a, a, 2);
	std::vector<std::byte> buf;
	auto w = Write::to(&buf);
	a.save(w.get(), ver);
	auto size = buf.size();
	w->write_uint(1);
	auto r = Read::from(&buf);
	BspTree b {};
	b.load(r.get(), ver == G1 ? 0x2090000 : 0x4090000);
	v.filling = false;
	zk_assert(a.nodes.size() == b.nodes.size(), "number of nodes");
	zk_assert(a.polygon_indices == b.polygon_indices, "polygon indices");
	for (size_t i = 0; i < a.nodes.size(); ++i) {
		auto &x = a.nodes[i], &y = b.nodes[i];
		v.f(x.bbox, y.bbox, "node box");
		zk_assert(x.polygon_index == y.polygon_index && x.polygon_count == y.polygon_count, "polygons of a node");
		zk_assert(x.front_index == y.front_index && x.back_index == y.back_index && x.parent_index == y.parent_index, "neighbours of a node");
		if (!x.is_leaf()) {
			v.f(x.plane.x, y.plane.x, "plane x");
			v.f(x.plane.y, y.plane.y, "plane y");
			v.f(x.plane.z, y.plane.z, "plane z");
			v.f(x.plane.w, y.plane.w, "plane distance");
			if (!v.g2()) v.f(x.lod, y.lod, "lod");
		}
	}
	zk_assert(a.leaf_node_indices == b.leaf_node_indices, "leaves");
	std::multiset<uint32_t> want;
	for (auto i : a.leaf_node_indices)
		for (uint32_t k = 0; k < a.nodes[i].polygon_count; ++k) want.insert(a.polygon_indices[k]);
	zk_assert(b.leaf_polygons.size() == want.size(), "number of leaf polygons");
	zk_assert(std::vector<uint32_t>(want.begin(), want.end()) == b.leaf_polygons, "polygons of the leaves, sorted");
	fields(v, a, b, 2);
	zk_assert(r->tell() == size, "reader stands right behind the tree");
	zk_cover("end");
}
HARNESS(bsp_g1) { bsp(G1, ZK_Q(1, 2)); }
HARNESS(bsp_g2) { bsp(G2, 1); }
HARNESS(bsp_deep) {
	// depth two without leaf polygons
	bsp(G2, 2);
}

static void mesh(GameVersion ver, size_t n, size_t verts, size_t mats) {
	Mesh a;
	trip(ver, a, [&](Write* w) { a.save(w, ver); }, [&](auto& b, Read* r) { b.load(r, false); }, [&](Visit& v, Mesh& x, Mesh& y) {
		fields(v, x.date, y.date);
		v.f(x.name, y.name, "mesh name");
		v.f(x.bbox, y.bbox, "mesh box");
		fields(v, x.obb, y.obb);
		list(v, x.materials, y.materials, mats, "materials", [&](auto& p, auto& q) { mat(v, p, q); });
		list(v, x.vertices, y.vertices, n, "vertices", [&](auto& p, auto& q) { v.f(p, q, "vertex"); });
		list(v, x.features, y.features, n + 1, "features", [&](auto& p, auto& q) {
			v.f(p.texture, q.texture, "feature texture");
			v.f(p.light, q.light, "feature light");
			v.f(p.normal, q.normal, "feature normal");
		});
		size_t off = 0;
		list(v, x.geometry, y.geometry, n, "polygons", [&](Polygon& p, Polygon& q) {
			if (v.filling) {
				p.material = zk_any_u16("polygon material");
				p.lightmap = (int16_t) zk_any_u16("polygon lightmap");
				p.flags.is_portal = zk_range(4, "portal");
				p.flags.is_occluder = zk_range(2, "occluder");
				p.flags.is_sector = zk_range(2, "sector");
				p.flags.should_relight = v.g2() ? zk_range(2, "relight") : 0;
				p.flags.is_outdoor = zk_range(2, "outdoor");
				p.flags.is_ghost_occluder = zk_range(2, "ghost");
				p.flags.is_dynamically_lit = v.g2() ? zk_range(2, "lit") : 0;
				p.flags.sector_index = (int16_t) zk_any_u16("sector index");
				p.flags.is_lod = v.g2() ? 0 : zk_range(2, "lod");
				p.flags.normal_axis = v.g2() ? 0 : zk_range(4, "axis");
				p.index_count = verts;
				p.index_offset = off;
			} else {
				zk_assert(p.material == q.material, "polygon material");
				zk_assert(p.lightmap == q.lightmap, "polygon lightmap");
				zk_assert(p.index_count == q.index_count && p.index_offset == q.index_offset, "polygon indices");
				auto &c = p.flags, &d = q.flags;
				zk_assert(c.is_portal == d.is_portal && c.is_occluder == d.is_occluder && c.is_sector == d.is_sector, "polygon flags");
				zk_assert(c.is_outdoor == d.is_outdoor && c.is_ghost_occluder == d.is_ghost_occluder, "polygon flags");
				zk_assert(c.sector_index == d.sector_index, "polygon sector");
				if (v.g2()) zk_assert(c.should_relight == d.should_relight && c.is_dynamically_lit == d.is_dynamically_lit, "polygon light flags");
				else zk_assert(c.is_lod == d.is_lod && c.normal_axis == d.normal_axis, "polygon lod and axis");
			}
			off += verts;
			v.f(p.plane_distance, q.plane_distance, "polygon plane");
			v.f(p.plane_normal, q.plane_normal, "polygon normal");
		});
		list(v, x.polygon_vertex_indices, y.polygon_vertex_indices, n * verts, "vertex indices", [&](uint32_t& p, uint32_t& q) {
			if (v.filling) p = v.g2() ? zk_any_u32("vertex index") : zk_any_u16("vertex index");
			else zk_assert(p == q, "vertex index");
		});
		list(v, x.polygon_feature_indices, y.polygon_feature_indices, n * verts, "feature indices", [&](uint32_t& p, uint32_t& q) { v.f(p, q, "feature index"); });
	});
}
HARNESS(mesh_g1) { mesh(G1, 2, 4, zk_choice(3, "materials")); }
HARNESS(mesh_g2) { mesh(G2, 2, 3, zk_choice(3, "materials")); }
HARNESS(mesh_empty) { mesh(game(), 0, 0, 0); }
HARNESS(mesh_255) { mesh(G1, 1, 255, 1); }
HARNESS(mesh_many) { mesh(G2, 40, 3, 1); }
// element counts whose bytes look like text
HARNESS(mesh_counts) { mesh(game(), zk_choice(2, "n") ? 10 : 13, 3, zk_choice(2, "materials") ? 10 : 13); }

// the triangles of a mesh are the fans of exactly the visible leaf polygons
HARNESS(mesh_triangles) {
	auto ver = game();
	Mesh a;
	static uint32_t const odd_counts[] = {0, 2, 3, 5};
	uint32_t const counts[] = {3, odd_counts[zk_choice(4, "vertices")], 4};
	size_t off = 0;
	for (auto c : counts) {
		Polygon p {};
		p.material = zk_any_u16("material");
		p.lightmap = (int16_t) zk_any_u16("lightmap");
		p.index_count = c;
		p.index_offset = off;
		p.flags.is_sector = zk_range(2, "sector");
		a.geometry.push_back(p);
		for (uint32_t i = 0; i < c; ++i) {
			a.polygon_vertex_indices.push_back(zk_any_u16("vertex"));
			a.polygon_feature_indices.push_back(zk_any_u32("feature"));
		}
		off += c;
	}
	auto& odd = a.geometry[1].flags;
	odd.is_portal = zk_choice(3, "portal kind");
	a.geometry[2].flags.is_portal = zk_choice(2, "portal");
	if (auto k = zk_choice(3, "kind")) {
		if (k == 1) odd.is_ghost_occluder = 1;
		else odd.is_outdoor = 1;
	}
	bool leaf[3];
	std::vector<uint32_t> leaves;
	for (uint32_t i = 0; i < 3; ++i) {
		leaf[i] = i == 0 || zk_choice(2, "leaf") != 0;
		if (leaf[i]) leaves.push_back(i);
		if (leaf[i] && i == 0) leaves.push_back(i);
	}
	std::vector<std::byte> buf;
	auto w = Write::to(&buf);
	a.save(w.get(), ver);
	auto r = Read::from(&buf);
	Mesh b;
	b.load(r.get(), leaves, false);
	size_t t = 0;
	for (uint32_t i = 0; i < 3; ++i) {
		auto& p = a.geometry[i];
		if (!leaf[i] || p.flags.is_portal || p.flags.is_ghost_occluder || p.flags.is_outdoor) continue;
		for (uint32_t k = 2; k < counts[i]; ++k, ++t) {
			zk_assert(b.polygons.vertex_indices.size() >= 3 * t + 3 && b.polygons.feature_indices.size() >= 3 * t + 3, "a triangle for each corner");
			if (b.polygons.vertex_indices.size() < 3 * t + 3) return;
			uint32_t const at[] = {0, k - 1, k};
			for (int c = 0; c < 3; ++c) {
				zk_assert(b.polygons.vertex_indices[3 * t + (size_t) c] == a.polygon_vertex_indices[p.index_offset + at[c]], "corner of a triangle");
				zk_assert(b.polygons.feature_indices[3 * t + (size_t) c] == a.polygon_feature_indices[p.index_offset + at[c]], "feature of a corner");
			}
			zk_assert(b.polygons.material_indices.size() > t && b.polygons.material_indices[t] == p.material, "material of a triangle");
			zk_assert(b.polygons.lightmap_indices.size() > t && b.polygons.lightmap_indices[t] == p.lightmap, "light map of a triangle");
			zk_assert(b.polygons.flags.size() > t && b.polygons.flags[t].is_sector == p.flags.is_sector, "flags of a triangle");
		}
	}
	zk_assert(b.polygons.vertex_indices.size() == 3 * t && b.polygons.feature_indices.size() == 3 * t && b.polygons.material_indices.size() == t, "no other triangles");
	zk_assert(b.polygons.lightmap_indices.size() == t && b.polygons.flags.size() == t, "one entry per triangle");
	zk_cover("end");
}
