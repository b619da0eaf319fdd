// P12: model animations, morph meshes and models: loading yields what the documented layout stores, whatever chunks of
// unknown type lie between, and sample values follow the documented formulas.
#include "mesh.hh"
#include <cmath>
#include <zenkit/ModelAnimation.hh>
#include <zenkit/MorphMesh.hh>
namespace {
	constexpr auto G1 = GameVersion::GOTHIC_1, G2 = GameVersion::GOTHIC_2;
	// the size field is filled in by hand: nothing here depends on the library's own chunk writer
	template <typename F>
	void chunk(Write* w, uint16_t id, F f) {
		w->write_ushort(id);
		auto at = w->tell();
		w->write_uint(0);
		f();
		auto end = w->tell();
		w->seek((ssize_t) at, Whence::BEG);
		w->write_uint((uint32_t) (end - at - 4));
		w->seek((ssize_t) end, Whence::BEG);
	}
	void unknown(Write* w) {
		chunk(w, 0x7777, [&] { w->write_uint(zk_any_u32("unknown")); });
	}
	void write_date(Write* w, Date const& d) {
		w->write_uint(d.year);
		w->write_ushort(d.month);
		w->write_ushort(d.day);
		w->write_ushort(d.hour);
		w->write_ushort(d.minute);
		w->write_ushort(d.second);
		w->write_ushort(zk_any_u16("date padding"));
	}
	struct Packed {
		uint16_t r[3], p[3];
	};
	float comp(uint16_t v) { return (static_cast<float>(v) - 32767) * ((1.0f / 65535.0f) * 2.1f); }

	void check_sample(AnimationSample const& s, Packed const& q, float scale, float min) {
		zk_assert(same(s.position.x, static_cast<float>(q.p[0]) * scale + min), "sample position x");
		zk_assert(same(s.position.y, static_cast<float>(q.p[1]) * scale + min), "sample position y");
		zk_assert(same(s.position.z, static_cast<float>(q.p[2]) * scale + min), "sample position z");
		float x = comp(q.r[0]), y = comp(q.r[1]), z = comp(q.r[2]);
		float l = x * x + y * y + z * z;
		if (l > 1.0f) {
			float k = 1.0f / sqrtf(l);
			zk_assert(same(s.rotation.x, x * k) && same(s.rotation.y, y * k) && same(s.rotation.z, z * k), "sample rotation is scaled to unit length");
			zk_assert(s.rotation.w == 0, "sample rotation has no real part if the others fill the unit length");
		} else {
			zk_assert(same(s.rotation.x, x) && same(s.rotation.y, y) && same(s.rotation.z, z), "sample rotation");
			zk_assert(same(s.rotation.w, sqrtf(1.0f - l)), "sample rotation completes to unit length");
		}
	}

	void animation(uint32_t frames, uint32_t nodes, uint32_t events, bool between, bool inspect = true) {
		Visit v {BI_, G1, false};
		ModelAnimation a;
		v.f(a.name, a.name, "animation name");
		v.f(a.next, a.next, "next animation");
		v.f(a.layer, a.layer, "layer");
		v.f(a.fps, a.fps, "fps");
		v.f(a.fps_source, a.fps_source, "source fps");
		v.f(a.sample_position_min, a.sample_position_min, "smallest position");
		v.f(a.sample_position_scale, a.sample_position_scale, "position scale");
		v.f(a.bbox, a.bbox, "box");
		v.f(a.checksum, a.checksum, "checksum");
		v.f(a.source_path, a.source_path, "source path");
		v.f(a.source_script, a.source_script, "source script");
		fields(v, a.source_date, a.source_date);
		a.events.resize(events);
		for (uint32_t e = 0; e < events; ++e) {
			auto& ev = a.events[e];
			ev.type = static_cast<AnimationEventType>(zk_any_u32("event type"));
			ev.frame = zk_any_u32("event frame");
			if (e == 1) {
				v.f(ev.content[0], ev.content[0], "event content");
			} else {
				v.f(ev.tag, ev.tag, "event tag");
				for (auto& s : ev.content) v.f(s, s, "event content");
			}
			v.f(ev.values, ev.values, "event value");
			v.f(ev.probability, ev.probability, "event probability");
		}
		std::vector<uint32_t> idx(nodes);
		for (auto& i : idx) i = zk_any_u32("node index");
		std::vector<Packed> raw(frames * nodes);
		for (auto& p : raw) {
			// (large animations have fixed samples: each arbitrary rotation would double the number of cases)
			auto i = (uint16_t) (&p - raw.data());
			for (auto& x : p.r) x = inspect ? zk_any_u16("rotation") : (uint16_t) (30000u + i * (7u + (uint32_t) (&x - p.r)));
			for (auto& x : p.p) x = inspect ? zk_any_u16("position") : (uint16_t) (i * 40503u);
		}

		std::vector<std::byte> buf;
		auto w = Write::to(&buf);
		chunk(w.get(), 0xa000, [&] {});
		chunk(w.get(), 0xa010, [&] {
			write_date(w.get(), a.source_date);
			w->write_line(a.source_path);
			w->write_line(a.source_script);
		});
		if (between) unknown(w.get());
		chunk(w.get(), 0xa020, [&] {
			w->write_ushort(zk_any_u16("version"));
			w->write_line(a.name);
			w->write_uint(a.layer);
			w->write_uint(frames);
			w->write_uint(nodes);
			w->write_float(a.fps);
			w->write_float(a.fps_source);
			w->write_float(a.sample_position_min);
			w->write_float(a.sample_position_scale);
			w->write_vec3(a.bbox.min);
			w->write_vec3(a.bbox.max);
			w->write_line(a.next);
		});
		if (events || between)
			chunk(w.get(), 0xa030, [&] {
				w->write_uint(events);
				for (auto& ev : a.events) {
					w->write_uint((uint32_t) ev.type);
					w->write_uint(ev.frame);
					w->write_line(ev.tag);
					for (auto& s : ev.content) w->write_line(s);
					for (auto& f : ev.values) w->write_float(f);
					w->write_float(ev.probability);
				}
			});
		if (between) unknown(w.get());
		chunk(w.get(), 0xa090, [&] {
			w->write_uint(a.checksum);
			for (auto i : idx) w->write_uint(i);
			for (auto& p : raw) {
				for (auto x : p.r) w->write_ushort(x);
				for (auto x : p.p) w->write_ushort(x);
			}
		});

		auto r = Read::from(&buf);
		ModelAnimation b;
		b.load(r.get());
		v.filling = false;
		v.f(a.name, b.name, "animation name");
		v.f(a.next, b.next, "next animation");
		v.f(a.layer, b.layer, "layer");
		zk_assert(b.frame_count == frames && b.node_count == nodes, "frame and node counts");
		v.f(a.fps, b.fps, "fps");
		v.f(a.fps_source, b.fps_source, "source fps");
		v.f(a.sample_position_min, b.sample_position_min, "smallest position");
		v.f(a.sample_position_scale, b.sample_position_scale, "position scale");
		v.f(a.bbox, b.bbox, "box");
		v.f(a.checksum, b.checksum, "checksum");
		v.f(a.source_path, b.source_path, "source path");
		v.f(a.source_script, b.source_script, "source script");
		fields(v, a.source_date, b.source_date);
		zk_assert(b.events.size() == events, "number of events");
		for (uint32_t e = 0; e < events && e < b.events.size(); ++e) {
			auto &x = a.events[e], &y = b.events[e];
			zk_assert(x.type == y.type, "event type");
			zk_assert(x.frame == y.frame, "event frame");
			v.f(x.tag, y.tag, "event tag");
			for (int i = 0; i < 4; ++i) v.f(x.content[i], y.content[i], "event content");
			v.f(x.values, y.values, "event value");
			v.f(x.probability, y.probability, "event probability");
		}
		zk_assert(b.node_indices.size() == nodes, "number of node indices");
		for (uint32_t i = 0; i < nodes && i < b.node_indices.size(); ++i) zk_assert(b.node_indices[i] == idx[i], "node index");
		zk_assert(b.samples.size() == raw.size(), "number of samples");
		for (size_t i = 0; i < raw.size() && i < b.samples.size(); ++i) check_sample(b.samples[i], raw[i], a.sample_position_scale, a.sample_position_min);
		zk_assert(r->eof(), "animation is read to its end");
		zk_cover("end");
	}

	void morph(size_t n, size_t anims, uint32_t frames, bool between) {
		Visit v {BI_, G2, false};
		MorphMesh a;
		v.f(a.name, a.name, "morph name");
		fields(v, a.mesh, a.mesh, n, 1);
		list(v, a.morph_positions, a.morph_positions, n, "morph positions", [&](auto& x, auto& y) { v.f(x, y, "morph position"); });
		list(v, a.sources, a.sources, anims, "sources", [&](auto& x, auto& y) {
			fields(v, x.file_date, y.file_date);
			v.f(x.file_name, y.file_name, "source name");
		});
		auto anim_fields = [&](auto& x, auto& y) {
			v.f(x.name, y.name, "morph animation name");
			v.f(x.layer, y.layer, "morph layer");
			v.f(x.blend_in, y.blend_in, "blend in");
			v.f(x.blend_out, y.blend_out, "blend out");
			v.f(x.duration, y.duration, "duration");
			v.f(x.speed, y.speed, "speed");
			v.f(x.flags, y.flags, "flags");
			list(v, x.vertices, y.vertices, n + 1, "vertices", [&](auto& p, auto& q) { v.f(p, q, "vertex"); });
			list(v, x.samples, y.samples, (n + 1) * frames, "samples", [&](auto& p, auto& q) { v.f(p, q, "sample"); });
		};
		list(v, a.animations, a.animations, anims, "animations", anim_fields);

		std::vector<std::byte> buf;
		auto w = Write::to(&buf);
		if (between) unknown(w.get());
		chunk(w.get(), 0xE010, [&] {
			w->write_ushort((uint16_t) anims);
			for (auto& s : a.sources) {
				write_date(w.get(), s.file_date);
				w->write_line(s.file_name);
			}
		});
		chunk(w.get(), 0xE020, [&] {
			w->write_uint(zk_any_u32("version"));
			w->write_line(a.name);
		});
		chunk(w.get(), 0xB100, [&] { a.mesh.save_to_section(w.get(), G2); });
		if (between) unknown(w.get());
		chunk(w.get(), 0xB1FF, [&] {
			for (auto& p : a.morph_positions) w->write_vec3(p);
		});
		chunk(w.get(), 0xE030, [&] {
			w->write_ushort((uint16_t) anims);
			for (auto& x : a.animations) {
				w->write_line(x.name);
				w->write_float(x.blend_in);
				w->write_float(x.blend_out);
				w->write_float(x.duration);
				w->write_int(x.layer);
				w->write_float(x.speed);
				w->write_ubyte(x.flags);
				w->write_uint((uint32_t) x.vertices.size());
				w->write_uint(frames);
				for (auto i : x.vertices) w->write_uint(i);
				for (auto& p : x.samples) w->write_vec3(p);
			}
		});
		auto r = Read::from(&buf);
		MorphMesh b;
		b.load(r.get());
		v.filling = false;
		v.f(a.name, b.name, "morph name");
		fields(v, a.mesh, b.mesh, n, 1);
		list(v, a.morph_positions, b.morph_positions, n, "morph positions", [&](auto& x, auto& y) { v.f(x, y, "morph position"); });
		list(v, a.sources, b.sources, anims, "sources", [&](auto& x, auto& y) {
			fields(v, x.file_date, y.file_date);
			v.f(x.file_name, y.file_name, "source name");
		});
		list(v, a.animations, b.animations, anims, "animations", anim_fields);
		for (auto& x : b.animations) zk_assert(x.frame_count == frames, "morph frame count");
		zk_assert(r->eof(), "morph mesh is read to its end");
		zk_cover("end");
	}
}
HARNESS(animation_empty) { animation(0, 0, 0, zk_choice(2, "between") != 0); }
HARNESS(animation_one) { animation(1, 1, 0, false); }
HARNESS(animation_events) { animation(0, 1, 1 + zk_choice(3, "events"), true); }
HARNESS(animation_frames) { animation(2, 1, 1, true); }
HARNESS(animation_nodes) { animation(1, 2, 0, false); }
HARNESS(animation_many) { animation(130, 3, 0, false, false); }
HARNESS(animation_many_events) { animation(0, 0, 260, false, false); }
HARNESS(animation_many_nodes) { animation(0, 260, 0, false, false); }
HARNESS(morph_empty) { morph(0, 0, 0, zk_choice(2, "between") != 0); }
HARNESS(morph_one) { morph(1, 1, 1, zk_choice(2, "between") != 0); }
HARNESS(morph_two) { morph(2, 2, 2, false); }
HARNESS(morph_many) { morph(40, 1, 10, false); }
HARNESS(morph_many_animations) { morph(1, 130, 1, false); }

// a model is its hierarchy followed by its mesh
HARNESS(model) {
	auto ver = zk_choice(2, "game") ? G2 : G1;
	Visit v {BI_, ver, false};
	Model a;
	fields(v, a.hierarchy, a.hierarchy, 1);
	v.f(a.mesh.checksum, a.mesh.checksum, "mesh checksum");
	a.mesh.meshes.resize(1);
	fields(v, a.mesh.meshes[0], a.mesh.meshes[0], 1);
	std::vector<std::byte> buf;
	auto w = Write::to(&buf);
	a.save(w.get(), ver);
	auto r = Read::from(&buf);
	Model b;
	b.load(r.get());
	v.filling = false;
	fields(v, a.hierarchy, b.hierarchy, 1);
	v.f(a.mesh.checksum, b.mesh.checksum, "mesh checksum");
	zk_assert(b.mesh.meshes.size() == 1 && b.mesh.attachments.empty(), "meshes of a model");
	if (b.mesh.meshes.size() == 1) fields(v, a.mesh.meshes[0], b.mesh.meshes[0], 1);
	zk_assert(r->eof(), "model is read to its end");
	zk_cover("end");
}
