// What the mesh and model resources store, field by field.
#pragma once
#include "vobs.hh"
#include <zenkit/Date.hh>
#include <zenkit/Font.hh>
#include <zenkit/Material.hh>
#include <zenkit/Mesh.hh>
#include <zenkit/Model.hh>
#include <zenkit/ModelHierarchy.hh>
#include <zenkit/ModelMesh.hh>
#include <zenkit/MultiResolutionMesh.hh>
#include <zenkit/SoftSkinMesh.hh>
#include <zenkit/world/BspTree.hh>

static constexpr Fmt BI_ {ArchiveFormat::BINARY};

static inline size_t count(Visit& v, size_t have_a, size_t have_b, size_t n, const char* l) {
	if (v.filling) return n;
	zk_assert(have_a == have_b, l);
	return have_b < have_a ? have_b : have_a;
}
// a list of n structures
template <typename T, typename F>
static inline void list(Visit& v, std::vector<T>& a, std::vector<T>& b, size_t n, const char* l, F f) {
	if (v.filling) a.resize(n);
	n = count(v, a.size(), b.size(), n, l);
	for (size_t i = 0; i < n; ++i) f(a[i], b[i]);
}
static inline void fields(Visit& v, Date& a, Date& b) {
	v.f(a.year, b.year, "date year");
	v.f(a.month, b.month, "date month");
	v.f(a.day, b.day, "date day");
	v.f(a.hour, b.hour, "date hour");
	v.f(a.minute, b.minute, "date minute");
	v.f(a.second, b.second, "date second");
}
static inline void fields(Visit& v, OrientedBoundingBox& a, OrientedBoundingBox& b, int kids = 1) {
	v.f(a.center, b.center, "oriented box center");
	for (int i = 0; i < 3; ++i) v.f(a.axes[i], b.axes[i], "oriented box axis");
	v.f(a.half_width, b.half_width, "oriented box width");
	list(v, a.children, b.children, (size_t) kids, "oriented box children", [&](auto& x, auto& y) { fields(v, x, y, 0); });
}
// only the fields that tell materials apart: the rest is P10's
static inline void mat(Visit& v, Material& a, Material& b) {
	v.f(a.name, b.name, "material name");
	v.f(a.texture, b.texture, "material texture");
	v.f(a.color, b.color, "material color");
	v.f(a.default_mapping, b.default_mapping, "material mapping");
	if (v.g2()) v.f(a.alpha_func, b.alpha_func, "material alpha function");
}
static inline void fields(Visit& v, SubMesh& a, SubMesh& b, size_t n) {
	mat(v, a.mat, b.mat);
	list(v, a.triangles, b.triangles, n, "triangles", [&](auto& x, auto& y) { v.f(x.wedges, y.wedges, "triangle"); });
	list(v, a.wedges, b.wedges, n + 1, "wedges", [&](auto& x, auto& y) {
		v.f(x.normal, y.normal, "wedge normal");
		v.f(x.texture, y.texture, "wedge texture");
		v.f(x.index, y.index, "wedge index");
	});
	list(v, a.colors, b.colors, n, "colors", [&](auto& x, auto& y) { v.f(x, y, "color"); });
	list(v, a.triangle_plane_indices, b.triangle_plane_indices, n + 2, "plane indices", [&](auto& x, auto& y) { v.f(x, y, "plane index"); });
	list(v, a.triangle_planes, b.triangle_planes, n, "planes", [&](auto& x, auto& y) {
		v.f(x.distance, y.distance, "plane distance");
		v.f(x.normal, y.normal, "plane normal");
	});
	list(v, a.triangle_edges, b.triangle_edges, n + 1, "triangle edges", [&](auto& x, auto& y) { v.f(x.edges, y.edges, "triangle edge"); });
	list(v, a.edges, b.edges, n, "edges", [&](auto& x, auto& y) { v.f(x.edges, y.edges, "edge"); });
	list(v, a.edge_scores, b.edge_scores, n + 3, "edge scores", [&](auto& x, auto& y) { v.f(x, y, "edge score"); });
	list(v, a.wedge_map, b.wedge_map, n, "wedge map", [&](auto& x, auto& y) { v.f(x, y, "wedge map entry"); });
}
static inline void fields(Visit& v, MultiResolutionMesh& a, MultiResolutionMesh& b, size_t n, size_t subs) {
	list(v, a.positions, b.positions, n, "positions", [&](auto& x, auto& y) { v.f(x, y, "position"); });
	list(v, a.normals, b.normals, n + 1, "normals", [&](auto& x, auto& y) { v.f(x, y, "normal"); });
	list(v, a.sub_meshes, b.sub_meshes, subs, "sub-meshes", [&](auto& x, auto& y) { fields(v, x, y, n); });
	if (v.filling) {
		a.materials.clear();
		for (auto& s : a.sub_meshes) a.materials.push_back(s.mat);
		a.alpha_test = (uint8_t) zk_any_bool("alpha test");
	} else {
		list(v, a.materials, b.materials, subs, "materials", [&](auto& x, auto& y) { mat(v, x, y); });
		if (v.g2()) zk_assert(a.alpha_test == b.alpha_test, "alpha test");
	}
	v.f(a.bbox, b.bbox, "mesh box");
	fields(v, a.obbox, b.obbox);
}
static inline void fields(Visit& v, SoftSkinMesh& a, SoftSkinMesh& b, size_t n) {
	fields(v, a.mesh, b.mesh, n, 1);
	list(v, a.weights, b.weights, n, "weights", [&](auto& x, auto& y) {
		list(v, x, y, 2, "weights of a vertex", [&](auto& p, auto& q) {
			v.f(p.weight, q.weight, "weight");
			v.f(p.position, q.position, "weight position");
			v.f(p.node_index, q.node_index, "weight node");
		});
	});
	list(v, a.wedge_normals, b.wedge_normals, n, "wedge normals", [&](auto& x, auto& y) {
		v.f(x.normal, y.normal, "wedge normal");
		v.f(x.index, y.index, "wedge normal index");
	});
	list(v, a.nodes, b.nodes, n, "skin nodes", [&](auto& x, auto& y) { v.f(x, y, "skin node"); });
	list(v, a.bboxes, b.bboxes, n, "skin boxes", [&](auto& x, auto& y) { fields(v, x, y); });
}
static inline void fields(Visit& v, ModelHierarchy& a, ModelHierarchy& b, size_t n) {
	list(v, a.nodes, b.nodes, n, "hierarchy nodes", [&](auto& x, auto& y) {
		v.f(x.parent_index, y.parent_index, "node parent");
		v.f(x.name, y.name, "node name");
		v.f(x.transform, y.transform, "node transform");
	});
	v.f(a.bbox, b.bbox, "hierarchy box");
	v.f(a.collision_bbox, b.collision_bbox, "hierarchy collision box");
	v.f(a.root_translation, b.root_translation, "hierarchy root");
	v.f(a.checksum, b.checksum, "hierarchy checksum");
	fields(v, a.source_date, b.source_date);
	v.f(a.source_path, b.source_path, "hierarchy source");
}
static inline void fields(Visit& v, Font& a, Font& b, size_t n) {
	v.f(a.name, b.name, "font name");
	// blanks in front of the second line belong to the end of the first one
	if (v.filling) zk_assume(!a.name.empty() && (unsigned char) a.name[0] > ' '); // precondition
	v.f(a.height, b.height, "font height");
	list(v, a.glyphs, b.glyphs, n, "glyphs", [&](auto& x, auto& y) {
		v.f(x.width, y.width, "glyph width");
		v.f(x.uv, y.uv, "glyph uv");
	});
}
static inline void fields(Visit& v, BspTree& a, BspTree& b, size_t n) {
	v.f(a.mode, b.mode, "bsp mode");
	list(v, a.light_points, b.light_points, a.leaf_node_indices.size(), "light points", [&](auto& x, auto& y) { v.f(x, y, "light point"); });
	list(v, a.sectors, b.sectors, n, "sectors", [&](auto& x, auto& y) {
		v.f(x.name, y.name, "sector name");
		list(v, x.node_indices, y.node_indices, n + 1, "sector nodes", [&](auto& p, auto& q) { v.f(p, q, "sector node"); });
		list(v, x.portal_polygon_indices, y.portal_polygon_indices, n, "sector portals", [&](auto& p, auto& q) { v.f(p, q, "sector portal"); });
	});
	list(v, a.portal_polygon_indices, b.portal_polygon_indices, n, "portals", [&](auto& p, auto& q) { v.f(p, q, "portal"); });
}
