// P10: everything else that lives in archives: materials, way-nets, cutscenes, save-game state, the world.
#include "vobs.hh"
#include <zenkit/CutsceneLibrary.hh>
#include <zenkit/Material.hh>
#include <zenkit/SaveGame.hh>
#include <zenkit/World.hh>
#include <zenkit/world/WayNet.hh>

namespace {
	constexpr Fmt BS {ArchiveFormat::BINSAFE}, BI {ArchiveFormat::BINARY}, AS {ArchiveFormat::ASCII};
	constexpr auto G1 = GameVersion::GOTHIC_1, G2 = GameVersion::GOTHIC_2;
	int N = 2;

	void fields(Visit& v, Material& a, Material& b) {
		v.f(a.name, b.name, "material name");
		v.f(a.group, b.group, "material group");
		v.f(a.color, b.color, "material color");
		v.f(a.smooth_angle, b.smooth_angle, "material smooth angle");
		v.f(a.texture, b.texture, "material texture");
		// these two are text in every format, with nine significant digits: exact
		if (v.filling) {
			a.texture_scale = {zk_finite("scale"), zk_finite("scale")};
			a.texture_anim_map_dir = {zk_finite("dir"), zk_finite("dir")};
		} else {
			zk_assert(same(a.texture_scale, b.texture_scale), "material texture scale");
			zk_assert(same(a.texture_anim_map_dir, b.texture_anim_map_dir), "material texture animation direction");
		}
		v.f(a.texture_anim_fps, b.texture_anim_fps, "material texture animation speed");
		v.f(a.texture_anim_map_mode, b.texture_anim_map_mode, "material texture animation mode");
		v.f(a.disable_collision, b.disable_collision, "material collision");
		v.f(a.disable_lightmap, b.disable_lightmap, "material light map");
		v.f(a.dont_collapse, b.dont_collapse, "material dont_collapse");
		v.f(a.detail_object, b.detail_object, "material detail object");
		if (v.g2()) {
			v.f(a.detail_object_scale, b.detail_object_scale, "material detail object scale");
			v.f(a.force_occluder, b.force_occluder, "material occluder");
			v.f(a.environment_mapping, b.environment_mapping, "material environment mapping");
			v.f(a.environment_mapping_strength, b.environment_mapping_strength, "material environment mapping strength");
			v.f(a.wave_mode, b.wave_mode, "material wave mode");
			v.f(a.wave_speed, b.wave_speed, "material wave speed");
			v.f(a.wave_max_amplitude, b.wave_max_amplitude, "material wave amplitude");
			v.f(a.wave_grid_size, b.wave_grid_size, "material wave grid");
			v.f(a.ignore_sun, b.ignore_sun, "material ignore sun");
			v.f(a.alpha_func, b.alpha_func, "material alpha function");
		}
		v.f(a.default_mapping, b.default_mapping, "material default mapping");
	}
	void fields(Visit& v, WayPoint& a, WayPoint& b) {
		v.f(a.name, b.name, "way point name");
		v.f(a.water_depth, b.water_depth, "way point water depth");
		v.f(a.under_water, b.under_water, "way point under water");
		v.f(a.position, b.position, "way point position");
		v.f(a.direction, b.direction, "way point direction");
	}
	void fields(Visit& v, SkyController& a, SkyController& b) {
		v.f(a.master_time, b.master_time, "sky time");
		v.f(a.rain_weight, b.rain_weight, "rain weight");
		v.f(a.rain_start, b.rain_start, "rain start");
		v.f(a.rain_stop, b.rain_stop, "rain stop");
		v.f(a.rain_sct_timer, b.rain_sct_timer, "rain timer");
		v.f(a.rain_snd_vol, b.rain_snd_vol, "rain volume");
		v.f(a.day_ctr, b.day_ctr, "day counter");
		if (v.g2()) {
			v.f(a.fade_scale, b.fade_scale, "fade scale");
			v.f(a.render_lightning, b.render_lightning, "lightning");
			v.f(a.is_raining, b.is_raining, "raining");
			v.f(a.rain_ctr, b.rain_ctr, "rain counter");
		}
	}
	void fields(Visit& v, ConversationMessageEvent& a, ConversationMessageEvent& b) {
		v.f(a.type, b.type, "message type");
		v.f(a.text, b.text, "message text");
		v.f(a.name, b.name, "message name");
		if (v.save) {
			v.f(a.high_priority, b.high_priority, "message priority");
			v.f(a.used, b.used, "message used");
			v.f(a.deleted, b.deleted, "message deleted");
		}
	}
	void fields(Visit& v, CutsceneAtomicBlock& a, CutsceneAtomicBlock& b) {
		if (!v.filling) zk_assert(b.message != nullptr, "message of an atomic block");
		fields(v, *a.message, *b.message);
	}
	int nesting = 1;
	void fields(Visit& v, CutsceneBlock& a, CutsceneBlock& b) {
		v.f(a.name, b.name, "block name");
		using Ato = std::shared_ptr<CutsceneAtomicBlock>;
		using Blk = std::shared_ptr<CutsceneBlock>;
		if (v.filling) {
			if (nesting-- > 0) a.block = std::make_shared<CutsceneBlock>();
			else a.block = std::make_shared<CutsceneAtomicBlock>();
		} else {
			zk_assert(a.block.index() == b.block.index(), "kind of the inner block");
			zk_assert(b.get_message() != nullptr && b.get_message()->text == a.get_message()->text, "message found through the blocks");
		}
		if (std::holds_alternative<Ato>(a.block)) fields(v, *std::get<Ato>(a.block), *std::get<Ato>(b.block));
		else fields(v, *std::get<Blk>(a.block), *std::get<Blk>(b.block));
	}
	void fields(Visit& v, CutsceneLibrary& a, CutsceneLibrary& b) {
		if (v.filling) {
			for (int i = 0; i < N; ++i) {
				a.blocks.push_back(std::make_shared<CutsceneBlock>());
				nesting = i % 2;
				fields(v, *a.blocks[(size_t) i], *a.blocks[(size_t) i]);
				// distinct names in ascending order: the library is kept sorted
				a.blocks[(size_t) i]->name = "block" + std::string(1, (char) ('a' + i));
			}
			return;
		}
		zk_assert(a.blocks.size() == b.blocks.size(), "number of cutscene blocks");
		for (size_t i = 0; i < a.blocks.size(); ++i) fields(v, *a.blocks[i], *b.blocks[i]);
	}
	void fields(Visit& v, CutsceneProps& a, CutsceneProps& b) {
		v.f(a.name, b.name, "props name");
		v.f(a.global, b.global, "props global");
		v.f(a.loop, b.loop, "props loop");
		v.f(a.has_to_be_triggered, b.has_to_be_triggered, "props trigger");
		v.f(a.distance, b.distance, "props distance");
		v.f(a.range, b.range, "props range");
		v.f(a.locked_block_count, b.locked_block_count, "props locked blocks");
		v.f(a.run_behaviour, b.run_behaviour, "props run behaviour");
		v.f(a.run_behaviour_value, b.run_behaviour_value, "props run behaviour value");
		v.f(a.stage_name, b.stage_name, "props stage name");
		v.f(a.script_function_on_stop, b.script_function_on_stop, "props stop function");
	}
	void fields(Visit& v, Cutscene& a, Cutscene& b) { fields(v, static_cast<CutsceneBlock&>(a), static_cast<CutsceneBlock&>(b)); }
	void fields(Visit& v, CutsceneContext& a, CutsceneContext& b) {
		fields(v, static_cast<CutsceneBlock&>(a), static_cast<CutsceneBlock&>(b));
		if (v.filling) {
			a.props = std::make_shared<CutsceneProps>();
			a.alt_stage = nullptr;
			a.stage = a.props;
		} else {
			zk_assert(b.props != nullptr, "props of a cutscene context");
			zk_assert(b.alt_stage == nullptr && b.stage == b.props, "stages of a cutscene context");
			zk_assert(b.npc.lock() == nullptr && b.main_role.lock() == nullptr, "absent roles stay absent");
		}
		fields(v, *a.props, *b.props);
		v.f(a.role_count, b.role_count, "role count");
		v.f(a.role_vob_count, b.role_vob_count, "role vob count");
		v.f(a.is_cutscene, b.is_cutscene, "is cutscene");
		v.f(a.reference, b.reference, "reference");
		v.f(a.actual_block, b.actual_block, "actual block");
		v.f(a.was_triggered, b.was_triggered, "was triggered");
	}
	void fields(Visit& v, SaveMetadata& a, SaveMetadata& b) {
		v.f(a.title, b.title, "save title");
		v.f(a.world, b.world, "save world");
		v.f(a.time_day, b.time_day, "save day");
		v.f(a.time_hour, b.time_hour, "save hour");
		v.f(a.time_minute, b.time_minute, "save minute");
		v.f(a.save_date, b.save_date, "save date");
		v.f(a.version_major, b.version_major, "save major version");
		v.f(a.version_minor, b.version_minor, "save minor version");
		v.f(a.play_time_seconds, b.play_time_seconds, "save play time");
		if (v.g2()) {
			v.f(a.version_point, b.version_point, "save point version");
			v.f(a.version_int, b.version_int, "save internal version");
			v.f(a.version_app_name, b.version_app_name, "save app name");
		}
	}
	void fields(Visit& v, CutscenePoolItem& a, CutscenePoolItem& b) {
		v.f(a.name, b.name, "pool item name");
		v.f(a.run_behavior, b.run_behavior, "pool item run behavior");
		v.f(a.run_behavior_value, b.run_behavior_value, "pool item run behavior value");
		v.f(a.times_played, b.times_played, "pool item times played");
		v.f(a.deactivated, b.deactivated, "pool item deactivated");
		v.f(a.flags, b.flags, "pool item flags");
	}
	void fields(Visit& v, CutsceneManager& a, CutsceneManager& b) {
		if (v.filling)
			for (int i = 0; i < N; ++i) a.pool_items.push_back(std::make_shared<CutscenePoolItem>());
		else zk_assert(a.pool_items.size() == b.pool_items.size(), "number of pool items");
		for (size_t i = 0; i < a.pool_items.size(); ++i) {
			if (!v.filling) zk_assert(b.pool_items[i] != nullptr, "pool item");
			fields(v, *a.pool_items[i], *b.pool_items[i]);
		}
	}
	void fields(Visit& v, SaveState& a, SaveState& b) {
		v.f(a.day, b.day, "state day");
		v.f(a.hour, b.hour, "state hour");
		v.f(a.minute, b.minute, "state minute");
		if (v.filling) {
			a.infos.resize((size_t) N);
			a.missions.resize((size_t) N);
			a.log.resize((size_t) N);
			a.symbols.resize((size_t) N);
			a.cutscene_manager = std::make_shared<CutsceneManager>();
		} else {
			zk_assert(a.infos.size() == b.infos.size(), "number of infos");
			zk_assert(a.missions.size() == b.missions.size(), "number of missions");
			zk_assert(a.log.size() == b.log.size(), "number of topics");
			zk_assert(a.symbols.size() == b.symbols.size(), "number of symbols");
			zk_assert(b.cutscene_manager != nullptr, "cutscene manager");
		}
		for (size_t i = 0; i < (size_t) N; ++i) {
			v.f(a.infos[i].told, b.infos[i].told, "info told");
			v.f(a.infos[i].name, b.infos[i].name, "info name");
			v.f(a.missions[i].name, b.missions[i].name, "mission name");
			v.f(a.missions[i].id, b.missions[i].id, "mission id");
			v.f(a.missions[i].available, b.missions[i].available, "mission available");
			v.f(a.missions[i].status_index, b.missions[i].status_index, "mission status");
			auto &t = a.log[i], &u = b.log[i];
			v.f(t.description, u.description, "topic description");
			v.f(t.section, u.section, "topic section");
			v.f(t.status, u.status, "topic status");
			size_t m = N < 20 ? i + 1 : i + 1 == (size_t) N ? 300 : 1;
			if (v.filling) t.entries.resize(m);
			else zk_assert(t.entries.size() == u.entries.size(), "number of topic entries");
			for (size_t j = 0; j < t.entries.size(); ++j) v.f(t.entries[j], u.entries[j], "topic entry");
			v.f(a.symbols[i].name, b.symbols[i].name, "symbol name");
			size_t n = !v.g2() ? 1 : N < 20 ? i * 2 : m;
			if (v.filling) a.symbols[i].values.resize(n);
			else zk_assert(b.symbols[i].values.size() == n, "number of symbol values");
			for (size_t j = 0; j < n; ++j) v.f(a.symbols[i].values[j], b.symbols[i].values[j], "symbol value");
		}
		fields(v, *a.cutscene_manager, *b.cutscene_manager);
		if (v.filling) {
			for (auto& row : a.guild_attitudes)
				for (auto& c : row) c = (uint8_t) (&c - &a.guild_attitudes[0][0]);
			for (int i = 0; i < 42; i += 7)
				for (int j = 0; j < 42; j += 5) a.guild_attitudes[i][j] = zk_any_u8("attitude");
			a.guild_attitudes[41][41] = zk_any_u8("attitude");
		} else {
			bool eq = true;
			for (int i = 0; i < 42; ++i)
				for (int j = 0; j < 42; ++j) eq &= a.guild_attitudes[i][j] == b.guild_attitudes[i][j];
			zk_assert(eq, "guild attitudes");
		}
	}

	template <typename T>
	void obj(Fmt f, GameVersion ver, bool save) {
		Visit v {f, ver, save};
		auto a = std::make_shared<T>();
		fields(v, *a, *a);
		std::vector<std::byte> buf;
		write_archive(buf, f, save, [&](WriteArchive& w) {
			w.write_object("obj", a, ver);
			w.write_int("after", 5);
		});
		auto r = Read::from(&buf);
		auto ra = ReadArchive::from(r.get());
		auto b = ra->template read_object<T>(ver);
		zk_assert(b != nullptr, "object loaded");
		v.filling = false;
		fields(v, *a, *b);
		zk_assert(ra->read_int() == 5, "reader stands right behind the object");
		zk_cover("end");
	}
	template <typename T>
	void all() {
		auto m = zk_choice(4, "game and archive kind");
		obj<T>(BS, m & 1 ? G2 : G1, (m & 2) != 0);
	}
}
#define ALL(T) HARNESS(T) { all<T>(); }
ALL(Material)
ALL(WayPoint)
ALL(SkyController)
ALL(ConversationMessageEvent)
ALL(CutsceneAtomicBlock)
ALL(CutsceneBlock)
ALL(CutsceneLibrary)
ALL(CutsceneProps)
ALL(Cutscene)
ALL(CutsceneContext)
ALL(SaveMetadata)
ALL(CutscenePoolItem)
ALL(CutsceneManager)
// the formats save-games actually use
HARNESS(SaveMetadata_ascii) { obj<SaveMetadata>(AS, G2, false); }
HARNESS(Material_binary) { obj<Material>(BI, G2, false); }
HARNESS(Material_ascii) { obj<Material>(AS, G2, false); }
HARNESS(many_pool_items) {
	N = 300;
	obj<CutsceneManager>(BS, G2, true);
}
HARNESS(nested_blocks) {
	nesting = (int) zk_choice(4, "nesting");
	obj<CutsceneBlock>(BS, G1, false);
}

// the material's own archive, whose version tells the game
HARNESS(material_version) {
	auto ver = zk_choice(2, "game") ? G2 : G1;
	Visit v {BS, ver, false};
	Material a, b;
	fields(v, a, a);
	std::vector<std::byte> buf;
	write_archive(buf, BS, false, [&](WriteArchive& w) {
		w.write_string("n", "some name");
		w.write_object("%", &a, ver);
		w.write_int("after", 5);
	});
	auto r = Read::from(&buf);
	auto ra = ReadArchive::from(r.get());
	b.load(*ra);
	v.filling = false;
	fields(v, a, b);
	zk_assert(ra->read_int() == 5, "reader stands right behind the material");
	zk_cover("end");
}

static void state(Fmt f, GameVersion ver, int n) {
	N = n;
	Visit v {f, ver, true};
	SaveState a {}, b {};
	fields(v, a, a);
	std::vector<std::byte> buf;
	write_archive(buf, f, true, [&](WriteArchive& w) {
		a.save(w, ver);
		w.write_int("after", 5);
	});
	auto r = Read::from(&buf);
	auto ra = ReadArchive::from(r.get());
	b.load(*ra, ver);
	v.filling = false;
	fields(v, a, b);
	zk_assert(ra->read_int() == 5, "reader stands right behind the state");
	zk_cover("end");
}
HARNESS(state_g1) { state(BS, G1, (int) zk_choice(3, "n")); }
HARNESS(state_g2) { state(BS, G2, (int) zk_choice(3, "n")); }
HARNESS(state_ascii) { state(AS, G2, 1); }
HARNESS(state_many) { state(BS, G2, 260); }

// way-nets are graphs: free points in order, then the points of the ways in the order of their first use; ways connect
// the same points
static void waynet(Fmt f, uint32_t np, uint32_t ne) {
	auto a = std::make_shared<WayNet>();
	for (uint32_t i = 0; i < np; ++i) {
		auto p = std::make_shared<WayPoint>();
		p->name = std::string(1, (char) ('a' + i));
		p->water_depth = zk_any_i32("depth");
		p->under_water = zk_any_bool("under water");
		p->free_point = zk_choice(2, "free") != 0;
		a->points.push_back(p);
	}
	for (uint32_t i = 0; i < ne; ++i) {
		auto l = zk_choice(np, "left"), d = zk_choice(np - 1, "right");
		a->edges.emplace_back(a->points[l], a->points[(l + 1 + d) % np]);
	}
	std::vector<WayPoint*> want;
	for (auto& p : a->points)
		if (p->free_point) want.push_back(p.get());
	auto add = [&](WayPoint* p) {
		for (auto* q : want)
			if (q == p) return;
		want.push_back(p);
	};
	for (auto& e : a->edges) {
		add(e.first.get());
		add(e.second.get());
	}
	std::vector<std::byte> buf;
	write_archive(buf, f, false, [&](WriteArchive& w) {
		w.write_object("n", a, G1);
		w.write_int("after", 5);
	});
	auto r = Read::from(&buf);
	auto ra = ReadArchive::from(r.get());
	auto b = ra->read_object<WayNet>(G1);
	zk_assert(b != nullptr, "way-net loaded");
	zk_assert(b->points.size() == want.size(), "number of points");
	zk_assert(b->edges.size() == a->edges.size(), "number of ways");
	auto find = [&](WayPoint* p) {
		size_t i = 0;
		while (i < want.size() && want[i] != p) ++i;
		return b->points[i].get();
	};
	for (size_t i = 0; i < want.size(); ++i) {
		zk_assert(b->points[i]->name == want[i]->name, "each point once");
		zk_assert(b->points[i]->water_depth == want[i]->water_depth && b->points[i]->under_water == want[i]->under_water, "data of a point");
		zk_assert(b->points[i]->free_point == want[i]->free_point, "free points are marked");
	}
	for (size_t i = 0; i < a->edges.size(); ++i) {
		zk_assert(b->edges[i].first.get() == find(a->edges[i].first.get()), "left end of a way is the point in the list");
		zk_assert(b->edges[i].second.get() == find(a->edges[i].second.get()), "right end of a way is the point in the list");
	}
	zk_assert(ra->read_int() == 5, "reader stands right behind the way-net");
	zk_cover("end");
}
HARNESS(waynet_binsafe) { waynet(BS, 3, 2); }
HARNESS(waynet_binary) { waynet(BI, 3, ZK_Q(1, 2)); }
HARNESS(waynet_ascii) { waynet(AS, 2, 1); }
// large way-nets of a fixed shape
HARNESS(waynet_many) {
	uint32_t const n = 140;
	auto a = std::make_shared<WayNet>();
	for (uint32_t i = 0; i < n; ++i) {
		auto p = std::make_shared<WayPoint>();
		p->name = "WP_" + std::string(1, (char) ('A' + i / 20)) + std::string(1, (char) ('A' + i % 20));
		p->water_depth = i % 50 ? (int32_t) i : zk_any_i32("depth");
		p->free_point = i % 3 == 0;
		a->points.push_back(p);
	}
	for (uint32_t i = 0; i < n; ++i) a->edges.emplace_back(a->points[i], a->points[(i * 7 + 1) % n == i ? 0 : (i * 7 + 1) % n]);
	std::vector<std::byte> buf;
	write_archive(buf, BS, false, [&](WriteArchive& w) {
		w.write_object("n", a, G1);
		w.write_int("after", 5);
	});
	auto r = Read::from(&buf);
	auto ra = ReadArchive::from(r.get());
	auto b = ra->read_object<WayNet>(G1);
	zk_assert(b != nullptr && b->points.size() == n && b->edges.size() == n, "number of points and ways");
	std::vector<WayPoint*> by(n);
	for (auto& p : b->points) {
		auto i = (uint32_t) (p->name[3] - 'A') * 20 + (uint32_t) (p->name[4] - 'A');
		zk_assert(i < n && by[i] == nullptr && p->name == a->points[i]->name, "each point once");
		by[i] = p.get();
		zk_assert(p->water_depth == a->points[i]->water_depth && p->free_point == a->points[i]->free_point, "data of a point");
	}
	for (uint32_t i = 0; i < n; ++i) zk_assert(b->edges[i].first.get() == by[i] && b->edges[i].second.get() == by[(i * 7 + 1) % n == i ? 0 : (i * 7 + 1) % n], "ends of a way");
	zk_assert(ra->read_int() == 5, "reader stands right behind the way-net");
	zk_cover("end");
}
HARNESS(waynet_empty) { waynet(BS, 3, 0); }

// looking up a block by name finds the block with exactly that name, or nothing
HARNESS(block_by_name) {
	CutsceneLibrary l;
	static const char* const names[] = {"B", "D", "DX", "F"};
	for (auto* n : names) {
		auto b = std::make_shared<CutsceneBlock>();
		b->name = n;
		l.blocks.push_back(b);
	}
	auto len = zk_choice(3, "length");
	std::string want;
	for (uint32_t i = 0; i < len; ++i) want += (char) zk_any_char("", "name");
	auto got = l.block_by_name(want);
	bool found = false;
	for (auto& b : l.blocks) {
		if (b->name != want) continue;
		found = true;
		zk_assert(got == b, "the block with the name is found");
	}
	if (!found) zk_assert(got == nullptr, "no block is found under a name none has");
	zk_cover("end");
}
// a loaded library is searchable whatever order it was stored in
HARNESS(library_sorted) {
	auto a = std::make_shared<CutsceneLibrary>();
	static const char* const names[] = {"C", "A", "B", "AA"};
	uint32_t perm = zk_choice(4, "first");
	for (uint32_t i = 0; i < 4; ++i) {
		auto b = std::make_shared<CutsceneBlock>();
		b->name = names[(i * 3 + perm) % 4];
		a->blocks.push_back(b);
	}
	std::vector<std::byte> buf;
	write_archive(buf, BS, false, [&](WriteArchive& w) { w.write_object("l", a, G1); });
	auto r = Read::from(&buf);
	auto ra = ReadArchive::from(r.get());
	auto b = ra->read_object<CutsceneLibrary>(G1);
	zk_assert(b != nullptr && b->blocks.size() == 4, "library loaded");
	for (auto* n : names) {
		auto f = b->block_by_name(n);
		zk_assert(f != nullptr && f->name == n, "every block of a loaded library is found");
	}
	zk_cover("end");
}

// the world of a save-game
static void world(Fmt f, GameVersion ver, bool opt) {
	VirtualObject::enable_packed_save(true);
	P = Parts {};
	P.n = 1;
	auto a = std::make_shared<World>();
	Visit v {f, ver, true};
	auto npc = std::make_shared<VNpc>(), npc2 = std::make_shared<VNpc>();
	npc->vob_name = "npc one";
	npc2->vob_name = "npc two";
	auto root = std::make_shared<VLevel>();
	root->vob_name = "root";
	auto child = std::make_shared<VSpot>();
	child->vob_name = "child";
	root->children.push_back(child);
	a->world_vobs.push_back(root);
	if (opt) a->world_vobs.push_back(npc2);
	a->way_net = std::make_shared<WayNet>();
	auto wp = std::make_shared<WayPoint>();
	wp->free_point = true;
	wp->name = "point";
	a->way_net->points.push_back(wp);
	if (opt) {
		a->player = std::make_shared<CutscenePlayer>();
		v.f(a->player->last_process_day, a->player->last_process_day, "day");
		v.f(a->player->last_process_hour, a->player->last_process_hour, "hour");
		a->sky_controller = std::make_shared<SkyController>();
		fields(v, *a->sky_controller, *a->sky_controller);
	}
	a->npcs = {npc, npc2};
	a->npc_spawns.resize(2);
	a->npc_spawns[0].npc = npc;
	a->npc_spawns[1].npc = nullptr;
	for (auto& s : a->npc_spawns) {
		v.f(s.position, s.position, "spawn position");
		v.f(s.timer, s.timer, "spawn timer");
	}
	v.f(a->npc_spawn_enabled, a->npc_spawn_enabled, "spawning enabled");
	v.f(a->npc_spawn_flags, a->npc_spawn_flags, "spawn flags");
	std::vector<std::byte> buf;
	write_archive(buf, f, true, [&](WriteArchive& w) {
		w.write_object("%", a, ver);
		w.write_int("after", 5);
	});
	auto r = Read::from(&buf);
	auto ra = ReadArchive::from(r.get());
	auto b = ra->read_object<World>(ver);
	v.filling = false;
	zk_assert(b != nullptr, "world loaded");
	zk_assert(b->world_vobs.size() == a->world_vobs.size(), "number of root VObs");
	zk_assert(b->world_vobs[0]->vob_name == "root" && b->world_vobs[0]->children.size() == 1, "root VOb");
	zk_assert(b->world_vobs[0]->children[0]->vob_name == "child", "child VOb");
	zk_assert(b->way_net != nullptr && b->way_net->points.size() == 1 && b->way_net->points[0]->name == "point", "way-net");
	zk_assert((b->player != nullptr) == opt && (b->sky_controller != nullptr) == opt, "optional parts");
	if (opt) {
		v.f(a->player->last_process_day, b->player->last_process_day, "player day");
		v.f(a->player->last_process_hour, b->player->last_process_hour, "player hour");
		fields(v, *a->sky_controller, *b->sky_controller);
	}
	zk_assert(b->npcs.size() == 2 && b->npcs[0] && b->npcs[1], "npcs");
	zk_assert(b->npcs[0]->vob_name == "npc one" && b->npcs[1]->vob_name == "npc two", "npc names");
	if (opt) zk_assert(b->world_vobs[1].get() == b->npcs[1].get(), "an npc in the tree and in the list is one object");
	zk_assert(b->npc_spawns.size() == 2 && b->npc_spawns[0].npc == b->npcs[0] && b->npc_spawns[1].npc == nullptr, "spawned npcs");
	for (size_t i = 0; i < 2; ++i) {
		v.f(a->npc_spawns[i].position, b->npc_spawns[i].position, "spawn position");
		v.f(a->npc_spawns[i].timer, b->npc_spawns[i].timer, "spawn timer");
	}
	v.f(a->npc_spawn_enabled, b->npc_spawn_enabled, "spawning enabled");
	if (v.g2()) v.f(a->npc_spawn_flags, b->npc_spawn_flags, "spawn flags");
	zk_assert(ra->read_int() == 5, "reader stands right behind the world");
	zk_cover("end");
}
HARNESS(world_binary_g1) { world(BI, G1, zk_choice(2, "optional parts") != 0); }
HARNESS(world_binary_g2) { world(BI, G2, zk_choice(2, "optional parts") != 0); }
HARNESS(world_binsafe_g1) { world(BS, G1, true); }
HARNESS(world_binsafe_g2) { world(BS, G2, true); }
HARNESS(world_ascii) { world(AS, G2, true); }
