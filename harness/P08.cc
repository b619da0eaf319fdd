// P08: object graphs: identity, sharing, cycles and absence survive an archive; objects of unknown class are left out
// without disturbing their neighbours; VOb trees keep their shape; class names and classes correspond one to one.
#include "vobs.hh"
#include <zenkit/Material.hh>
#include <zenkit/SaveGame.hh>
#include <zenkit/world/VobTree.hh>
#include <zenkit/world/WayNet.hh>

namespace {
	constexpr Fmt BS {ArchiveFormat::BINSAFE}, BI {ArchiveFormat::BINARY}, AS {ArchiveFormat::ASCII};
	constexpr auto G1 = GameVersion::GOTHIC_1;

	std::shared_ptr<WayPoint> point(const char* name, Fmt) {
		auto p = std::make_shared<WayPoint>();
		p->name = name;
		p->water_depth = zk_any_i32("depth");
		p->under_water = zk_any_bool("under water");
		p->position = p->direction = Vec3 {1, 2, 3};
		return p;
	}
	bool equal(WayPoint const& a, WayPoint const& b) {
		return (a.name == b.name) & (a.water_depth == b.water_depth) & (a.under_water == b.under_water);
	}

	// every sequence of k object slots, each empty or one of three objects
	void sequence(Fmt f, int k) {
		std::shared_ptr<WayPoint> src[3] = {point("A", f), point("B", f), point("", f)};
		std::shared_ptr<WayPoint> out[4];
		for (int i = 0; i < k; ++i) {
			auto c = zk_choice(4, "slot");
			if (c) out[i] = src[c - 1];
		}
		std::vector<std::byte> buf;
		auto after = zk_any_u32("after");
		write_archive(buf, f, false, [&](WriteArchive& w) {
			for (int i = 0; i < k; ++i) {
				if (i & 1) w.write_object(out[i], G1);
				else w.write_object("slot", out[i], G1);
			}
			w.write_int("after", (int32_t) after);
		});
		auto r = Read::from(&buf);
		auto ra = ReadArchive::from(r.get());
		std::shared_ptr<WayPoint> in[4];
		for (int i = 0; i < k; ++i) {
			in[i] = ra->read_object<WayPoint>(G1);
			zk_assert((in[i] == nullptr) == (out[i] == nullptr), "an empty slot stays empty and only that");
			if (out[i] == nullptr || in[i] == nullptr) continue;
			zk_assert(equal(*in[i], *out[i]), "each slot holds its own object's data");
			for (int j = 0; j < i; ++j)
				zk_assert((in[i] == in[j]) == (out[i] == out[j]), "slots share an object exactly if they did when written");
		}
		zk_assert((uint32_t) ra->read_int() == after, "reader stands right behind the objects");
		zk_cover("end");
	}

	// references to any of many objects
	void many(Fmt f, uint32_t n) {
		std::vector<std::shared_ptr<WayPoint>> out;
		uint32_t const pick[] = {0, 1, 126, 127, 128, 254, 255, 256, 257, n - 1};
		for (uint32_t i = 0; i < n; ++i) {
			auto p = std::make_shared<WayPoint>();
			p->water_depth = (int32_t) i;
			p->under_water = false;
			out.push_back(p);
		}
		std::vector<std::byte> buf;
		write_archive(buf, f, false, [&](WriteArchive& w) {
			for (auto& p : out) w.write_object("p", p, G1);
			for (auto i : pick) w.write_object("again", out[i], G1);
			w.write_int("after", 5);
		});
		auto r = Read::from(&buf);
		auto ra = ReadArchive::from(r.get());
		std::vector<std::shared_ptr<WayPoint>> in;
		for (uint32_t i = 0; i < n; ++i) {
			in.push_back(ra->read_object<WayPoint>(G1));
			zk_assert(in[i] != nullptr && in[i]->water_depth == (int32_t) i, "one of many objects");
		}
		for (auto i : pick) zk_assert(ra->read_object(G1) == in[i], "a reference to one of many objects finds it");
		zk_assert(ra->read_int() == 5, "reader stands right behind the objects");
		zk_cover("end");
	}

	// an object of unknown class in between, with entries and objects of its own
	void unknown(Fmt f) {
		static const char* const cls[] = {"zCNobodyKnows", "zCVobX:zCVob", "zCVob:zCVob", "oCItem", "zcvob", "\xA7\xA7"};
		auto c = cls[zk_choice(6, "class")];
		auto a = point("A", f), b = point("B", f);
		bool has = zk_choice(2, "contents") != 0;
		std::vector<std::byte> buf;
		write_archive(buf, f, false, [&](WriteArchive& w) {
			w.write_object("a", a, G1);
			w.write_object_begin("odd", c, zk_any_u16("version"));
			if (has) {
				w.write_int("i", 7);
				w.write_object_begin("inner", "zCWaypoint", 0);
				w.write_string("s", "text");
				w.write_object_end();
				w.write_object("a2", a, G1);
				w.write_object("none", std::shared_ptr<Object> {}, G1);
				w.write_bool("last", true);
			}
			w.write_object_end();
			w.write_object("b", b, G1);
			w.write_object("b", b, G1);
			w.write_object("a", a, G1);
			w.write_int("after", 5);
		});
		auto r = Read::from(&buf);
		auto ra = ReadArchive::from(r.get());
		auto ga = ra->read_object<WayPoint>(G1);
		zk_assert(ga != nullptr && equal(*ga, *a), "object in front of the unknown one");
		zk_assert(ra->read_object(G1) == nullptr, "an object of unknown class is left out");
		auto gb = ra->read_object<WayPoint>(G1);
		zk_assert(gb != nullptr && gb != ga && equal(*gb, *b), "object behind the unknown one");
		zk_assert(ra->read_object(G1) == gb, "reference to the object behind the unknown one");
		zk_assert(ra->read_object(G1) == ga, "reference to the object in front of the unknown one");
		zk_assert(ra->read_int() == 5, "reader stands right behind the objects");
		zk_cover("end");
	}

	// a reference to an object that is not there reads as no object
	void dangling(Fmt f) {
		auto a = point("A", f);
		uint32_t ref = zk_any_u32("reference") & (f.text() ? 0x7fffffffu : ~0u);
		std::vector<std::byte> buf;
		uint32_t idx = 0;
		write_archive(buf, f, false, [&](WriteArchive& w) {
			idx = w.write_object_begin("odd", "zCNobodyKnows", 0);
			w.write_object_end();
			w.write_object("a", a, G1);
			zk_assume(ref != idx + 1);
			w.write_ref("r", ref);
			w.write_int("after", 5);
		});
		auto r = Read::from(&buf);
		auto ra = ReadArchive::from(r.get());
		zk_assert(ra->read_object(G1) == nullptr, "an object of unknown class is left out");
		zk_assert(ra->read_object(G1) != nullptr, "object behind the unknown one");
		zk_assert(ra->read_object(G1) == nullptr, "a reference to nothing is nothing");
		zk_assert(ra->read_int() == 5, "reader stands right behind the objects");
		zk_cover("end");
	}

	// objects that contain each other
	void cycle(Fmt f, GameVersion ver) {
		VirtualObject::enable_packed_save(true);
		auto npc = std::make_shared<VItem>();
		auto move = std::make_shared<AiMove>();
		auto other = std::make_shared<VSpot>();
		auto vis = std::make_shared<VisualMesh>();
		vis->name = "V.3DS";
		vis->type = VisualType::MESH;
		npc->vob_name = "one";
		other->vob_name = "two";
		npc->ai = move;
		other->ai = move;
		npc->visual = other->visual = vis;
		auto pick = [&](uint32_t c) -> std::shared_ptr<VirtualObject> {
			if (c == 0) return nullptr;
			if (c == 1) return npc;
			return other;
		};
		auto vob = pick(zk_choice(3, "vob"));
		move->vob = vob;
		std::vector<std::byte> buf;
		write_archive(buf, f, true, [&](WriteArchive& w) {
			w.write_object("one", npc, ver);
			w.write_object("two", other, ver);
			w.write_object("ai", move, ver);
			w.write_int("after", 5);
		});
		auto r = Read::from(&buf);
		auto ra = ReadArchive::from(r.get());
		auto b1 = ra->read_object<VItem>(ver);
		auto b2 = ra->read_object<VSpot>(ver);
		auto bm = ra->read_object<AiMove>(ver);
		zk_assert(b1 != nullptr && b2 != nullptr && bm != nullptr, "objects loaded");
		zk_assert(b1->vob_name == "one" && b2->vob_name == "two", "contents of objects in a cycle");
		zk_assert(b1->ai == bm && b2->ai == bm, "a shared part is one object");
		zk_assert(b1->visual == b2->visual && b1->visual->name == "V.3DS", "a shared visual is one object");
		auto got = bm->vob.lock();
		zk_assert(got.get() == (vob == nullptr ? nullptr : vob == npc ? (VirtualObject*) b1.get() : b2.get()),
		          "a reference back to the object being loaded finds it");
		zk_assert(ra->read_int() == 5, "reader stands right behind the objects");
		zk_cover("end");
	}
}
HARNESS(sequence_binsafe) { sequence(BS, ZK_Q(3, 4)); }
HARNESS(sequence_binary) { sequence(BI, ZK_Q(3, 4)); }
HARNESS(sequence_ascii) { sequence(AS, ZK_Q(2, 3)); }
HARNESS(many_binsafe) { many(BS, 300); }
HARNESS(many_binary) { many(BI, 300); }
HARNESS(many_ascii) { many(AS, 300); }
HARNESS(unknown_binsafe) { unknown(BS); }
HARNESS(unknown_binary) { unknown(BI); }
HARNESS(unknown_ascii) { unknown(AS); }
HARNESS(dangling_binsafe) { dangling(BS); }
HARNESS(dangling_binary) { dangling(BI); }
HARNESS(dangling_ascii) { dangling(AS); }
HARNESS(cycle_g1) { cycle(BS, GameVersion::GOTHIC_1); }
HARNESS(cycle_g2) { cycle(BS, GameVersion::GOTHIC_2); }
HARNESS(cycle_binary) { cycle(BI, GameVersion::GOTHIC_2); }
HARNESS(cycle_ascii) { cycle(AS, GameVersion::GOTHIC_1); }

// every tree of n nodes, given by each node's parent
namespace {
	void tree_eq(VirtualObject const& a, VirtualObject const& b) {
		zk_assert(a.vob_name == b.vob_name, "each node is where it was");
		zk_assert(a.children.size() == b.children.size(), "each node has its children");
		for (size_t i = 0; i < a.children.size() && i < b.children.size(); ++i) tree_eq(*a.children[i], *b.children[i]);
	}
	void tree(Fmt f, uint32_t n) {
		VirtualObject::enable_packed_save(true);
		std::vector<std::shared_ptr<VirtualObject>> nodes;
		for (uint32_t i = 0; i < n; ++i) {
			std::shared_ptr<VirtualObject> o;
			if (i % 2) o = std::make_shared<VSpot>();
			else o = std::make_shared<VirtualObject>();
			o->vob_name = std::string(1, (char) ('a' + i));
			if (i) nodes[zk_choice(i, "parent")]->children.push_back(o);
			nodes.push_back(o);
		}
		std::vector<std::byte> buf;
		write_archive(buf, f, false, [&](WriteArchive& w) {
			save_vob_tree(w, G1, nodes[0]);
			w.write_int("after", 5);
		});
		auto r = Read::from(&buf);
		auto ra = ReadArchive::from(r.get());
		auto t = parse_vob_tree(*ra, G1);
		zk_assert(t != nullptr, "the tree is loaded");
		tree_eq(*nodes[0], *t);
		zk_assert(ra->read_int() == 5, "reader stands right behind the tree");
		zk_cover("end");
	}
	// one node is of unknown class or not a VOb: it and everything below it is left out, all else stays
	struct Node {
		std::vector<Node> kids;
		int id = 0;
	};
	void put(WriteArchive& w, Node const& n, int odd, bool vob) {
		if (n.id == odd && !vob) {
			w.write_object("%", std::make_shared<EventManager>(), G1);
		} else if (n.id == odd) {
			w.write_object_begin("%", "zCNobodyKnows:zCVob", 7);
			w.write_int("x", 3);
			w.write_object_end();
		} else {
			auto o = std::make_shared<VSpot>();
			o->vob_name = std::string(1, (char) ('a' + n.id));
			w.write_object("%", o.get(), G1);
		}
		w.write_int("childs0", (int32_t) n.kids.size());
		for (auto& k : n.kids) put(w, k, odd, vob);
	}
	void cmp(Node const& n, VirtualObject const& b, int odd) {
		zk_assert(b.vob_name == std::string(1, (char) ('a' + n.id)), "each other node is where it was");
		size_t j = 0;
		for (auto& k : n.kids) {
			if (k.id == odd) continue;
			zk_assert(j < b.children.size(), "no other child is lost");
			if (j >= b.children.size()) return;
			cmp(k, *b.children[j++], odd);
		}
		zk_assert(j == b.children.size(), "the unknown node's children are left out with it");
	}
	void tree_unknown(Fmt f, bool vob) {
		VirtualObject::enable_packed_save(true);
		// a(b(c d(e)) f(g) h)
		Node t;
		int id = 0;
		auto mk = [&](std::vector<Node> k) {
			Node n;
			n.kids = std::move(k);
			return n;
		};
		t = mk({mk({mk({}), mk({mk({})})}), mk({mk({})}), mk({})});
		auto number = [&](auto&& self, Node& n) -> void {
			n.id = id++;
			for (auto& k : n.kids) self(self, k);
		};
		number(number, t);
		int odd = (int) zk_choice(8, "unknown node");
		std::vector<std::byte> buf;
		write_archive(buf, f, false, [&](WriteArchive& w) {
			put(w, t, odd, vob);
			w.write_int("after", 5);
		});
		auto r = Read::from(&buf);
		auto ra = ReadArchive::from(r.get());
		auto got = parse_vob_tree(*ra, G1);
		zk_assert((got == nullptr) == (odd == 0), "a tree is loaded unless its root is unknown");
		if (got) cmp(t, *got, odd);
		zk_assert(ra->read_int() == 5, "reader stands right behind the tree");
		zk_cover("end");
	}
	void wide(Fmt f, uint32_t n) {
		VirtualObject::enable_packed_save(true);
		auto root = std::make_shared<VLevel>();
		for (uint32_t i = 0; i < n; ++i) root->children.push_back(std::make_shared<VSpot>());
		std::vector<std::byte> buf;
		write_archive(buf, f, false, [&](WriteArchive& w) {
			save_vob_tree(w, G1, root);
			w.write_int("after", 5);
		});
		auto r = Read::from(&buf);
		auto ra = ReadArchive::from(r.get());
		auto got = parse_vob_tree(*ra, G1);
		zk_assert(got != nullptr && got->children.size() == n, "all of many children");
		zk_assert(ra->read_int() == 5, "reader stands right behind the tree");
		zk_cover("end");
	}
}
HARNESS(tree_binsafe) { tree(BS, ZK_Q(4, 5)); }
HARNESS(tree_binary) { tree(BI, ZK_Q(4, 5)); }
HARNESS(tree_ascii) { tree(AS, ZK_Q(3, 4)); }
HARNESS(tree_unknown_binsafe) { tree_unknown(BS, true); }
HARNESS(tree_unknown_binary) { tree_unknown(BI, true); }
HARNESS(tree_unknown_ascii) { tree_unknown(AS, true); }
HARNESS(tree_no_vob_binsafe) { tree_unknown(BS, false); }
HARNESS(tree_no_vob_binary) { tree_unknown(BI, false); }
HARNESS(tree_wide_binsafe) { wide(BS, 130); }
HARNESS(tree_wide_binary) { wide(BI, 260); }

// classes
namespace {
	template <typename T>
	void one(const char* name, GameVersion ver, uint16_t want) {
		auto a = std::make_shared<T>();
		std::vector<std::byte> buf;
		write_archive(buf, BS, false, [&](WriteArchive& w) { w.write_object("o", a, ver); });
		{
			auto r = Read::from(&buf);
			auto ra = ReadArchive::from(r.get());
			ArchiveObject o;
			zk_assert(ra->read_object_begin(o), "object begin found");
			zk_assert(o.class_name == name, name);
			zk_assert(o.object_name == "o", "object name");
			zk_assert(o.version == want, "version of the class");
		}
		auto r = Read::from(&buf);
		auto ra = ReadArchive::from(r.get());
		auto b = ra->read_object(ver);
		zk_assert(b != nullptr && b->get_object_type() == T::TYPE, name);
		zk_assert(dynamic_cast<T*>(b.get()) != nullptr, name);
	}
}
#define ONE(T, N, V1, V2) one<T>(N, ver, ver == GameVersion::GOTHIC_1 ? V1 : V2);
static void classes(int part, GameVersion ver) {
	VirtualObject::enable_packed_save(true);
	if (part == 0) {
		ONE(VirtualObject, "zCVob", 12289, 52224) ONE(VLevel, "zCVobLevelCompo:zCVob", 12289, 52224) ONE(VItem, "oCItem:zCVob", 0, 0) ONE(VNpc, "oCNpc:zCVob", 52224, 52224)
		ONE(VMovableObject, "oCMOB:zCVob", 47105, 47105) ONE(VInteractiveObject, "oCMobInter:oCMOB:zCVob", 35585, 35585)
		ONE(VBed, "oCMobBed:oCMobInter:oCMOB:zCVob", 61440, 61440) ONE(VFire, "oCMobFire:oCMobInter:oCMOB:zCVob", 18433, 18433)
		ONE(VLadder, "oCMobLadder:oCMobInter:oCMOB:zCVob", 35585, 35585) ONE(VSwitch, "oCMobSwitch:oCMobInter:oCMOB:zCVob", 35585, 35585)
		ONE(VWheel, "oCMobWheel:oCMobInter:oCMOB:zCVob", 35585, 35585)
	} else if (part == 1) {
		ONE(VContainer, "oCMobContainer:oCMobInter:oCMOB:zCVob", 64513, 64513)
		ONE(VDoor, "oCMobDoor:oCMobInter:oCMOB:zCVob", 64513, 64513) ONE(VParticleEffectController, "zCPFXControler:zCVob", 12289, 52224)
		ONE(VAnimate, "zCVobAnimate:zCVob", 12289, 52224) ONE(VLensFlare, "zCVobLensFlare:zCVob", 64704, 193) ONE(VLight, "zCVobLight:zCVob", 46080, 39168)
		ONE(VSpot, "zCVobSpot:zCVob", 12289, 52224) ONE(VStartPoint, "zCVobStartpoint:zCVob", 12289, 52224) ONE(VSound, "zCVobSound:zCVob", 12289, 12289)
		ONE(VSoundDaytime, "zCVobSoundDaytime:zCVobSound:zCVob", 12289, 12289) ONE(VZoneMusic, "oCZoneMusic:zCVob", 0, 0)
		ONE(VZoneMusicDefault, "oCZoneMusicDefault:oCZoneMusic:zCVob", 0, 0) ONE(VZoneFog, "zCZoneZFog:zCVob", 64704, 5505)
	} else if (part == 2) {
		ONE(VZoneFogDefault, "zCZoneZFogDefault:zCZoneZFog:zCVob", 64704, 5505) ONE(VZoneFarPlane, "zCZoneVobFarPlane:zCVob", 12289, 52224)
		ONE(VZoneFarPlaneDefault, "zCZoneVobFarPlaneDefault:zCZoneVobFarPlane:zCVob", 12289, 52224)
		ONE(VMessageFilter, "zCMessageFilter:zCVob", 0, 0) ONE(VCodeMaster, "zCCodeMaster:zCVob", 0, 0) ONE(VTrigger, "zCTrigger:zCVob", 47105, 47105)
		ONE(VTriggerList, "zCTriggerList:zCTrigger:zCVob", 59776, 5505) ONE(VTriggerScript, "oCTriggerScript:zCTrigger:zCVob", 24577, 24577)
		ONE(VMover, "zCMover:zCTrigger:zCVob", 39936, 39936) ONE(VTriggerChangeLevel, "oCTriggerChangeLevel:zCTrigger:zCVob", 24577, 24577)
		ONE(VTriggerWorldStart, "zCTriggerWorldStart:zCVob", 52224, 52224) ONE(VTriggerUntouch, "zCTriggerUntouch:zCVob", 193, 193)
	} else if (part == 3) {
		ONE(VCutsceneCamera, "zCCSCamera:zCVob", 30720, 33793) ONE(VCameraTrajectoryFrame, "zCCamTrj_KeyFrame:zCVob", 12289, 52224)
		ONE(VTouchDamage, "oCTouchDamage:zCTouchDamage:zCVob", 36865, 36865) ONE(VEarthquake, "zCEarthquake:zCVob", 52224, 52224)
		ONE(VMoverController, "zCMoverControler:zCVob", 0, 0) ONE(VScreenEffect, "zCVobScreenFX:zCVob", 12289, 52224) ONE(VStair, "zCVobStair:zCVob", 12289, 52224)
		ONE(VCutsceneTrigger, "oCCSTrigger:zCTrigger:zCVob", 24577, 24577) ONE(VNpc::Talent, "oCNpcTalent", 0, 0) ONE(EventManager, "zCEventManager", 0, 0)
	} else if (part == 4) {
		ONE(VisualDecal, "zCDecal", 0, 0) ONE(VisualMesh, "zCMesh", 0, 0) ONE(VisualMultiResolutionMesh, "zCProgMeshProto", 0, 0)
		ONE(VisualParticleEffect, "zCParticleFX", 0, 0) ONE(VisualCamera, "zCAICamera", 0, 0) ONE(VisualModel, "zCModel", 0, 0)
		ONE(VisualMorphMesh, "zCMorphMesh", 0, 0) ONE(AiHuman, "oCAIHuman:oCAniCtrl_Human:zCAIPlayer", 0, 0) ONE(AiMove, "oCAIVobMove", 0, 0)
		ONE(CutscenePlayer, "oCCSPlayer:zCCSPlayer", 0, 0) ONE(SkyController, "zCSkyControler_Outdoor", 0, 0) ONE(WayNet, "zCWayNet", 0, 0)
		ONE(WayPoint, "zCWaypoint", 0, 0)
	} else {
		ONE(Material, "zCMaterial", 17408, 39939) ONE(SaveMetadata, "oCSavegameInfo", 0, 0) ONE(CutsceneManager, "oCCSManager:zCCSManager", 0, 0)
		ONE(CutscenePoolItem, "zCCSPoolItem", 0, 0) ONE(CutsceneBlock, "zCCSBlock", 0, 0) ONE(Cutscene, "zCCutscene:zCCSBlock", 0, 0)
		ONE(CutsceneContext, "zCCSCutsceneContext:zCCutscene:zCCSBlock", 0, 0)
		ONE(ConversationMessageEvent, "oCMsgConversation:oCNpcMessage:zCEventMessage", 0, 0) ONE(CutsceneAtomicBlock, "zCCSAtomicBlock", 0, 0)
		ONE(CutsceneLibrary, "zCCSLib", 0, 0) ONE(CutsceneProps, "zCCSProps", 0, 0)
	}
	zk_cover("end");
}
HARNESS(classes_0_g1) { classes(0, GameVersion::GOTHIC_1); }
HARNESS(classes_1_g1) { classes(1, GameVersion::GOTHIC_1); }
HARNESS(classes_2_g1) { classes(2, GameVersion::GOTHIC_1); }
HARNESS(classes_3_g1) { classes(3, GameVersion::GOTHIC_1); }
HARNESS(classes_4_g1) { classes(4, GameVersion::GOTHIC_1); }
HARNESS(classes_5_g1) { classes(5, GameVersion::GOTHIC_1); }
HARNESS(classes_0_g2) { classes(0, GameVersion::GOTHIC_2); }
HARNESS(classes_1_g2) { classes(1, GameVersion::GOTHIC_2); }
HARNESS(classes_2_g2) { classes(2, GameVersion::GOTHIC_2); }
HARNESS(classes_3_g2) { classes(3, GameVersion::GOTHIC_2); }
HARNESS(classes_4_g2) { classes(4, GameVersion::GOTHIC_2); }
HARNESS(classes_5_g2) { classes(5, GameVersion::GOTHIC_2); }

// The part of reading and writing objects that all formats share, against any archive: object numbers are arbitrary.
namespace {
	struct Frame {
		std::string name, cls;
		uint32_t index;
		bool ref;
	};
	struct AnyWrite : WriteArchive {
		std::vector<Frame> frames;
		std::vector<uint32_t> next;
		int open = 0;
		uint32_t write_object_begin(std::string_view n, std::string_view c, uint16_t) override {
			uint32_t ix = next.at(frames.size());
			frames.push_back({std::string(n), std::string(c), ix, false});
			++open;
			return ix;
		}
		void write_object_end() override { --open; }
		void write_ref(std::string_view n, uint32_t i) override { frames.push_back({std::string(n), "", i, true}); }
		void write_string(std::string_view, std::string_view) override {}
		void write_int(std::string_view, int32_t) override {}
		void write_float(std::string_view, float) override {}
		void write_byte(std::string_view, uint8_t) override {}
		void write_word(std::string_view, uint16_t) override {}
		void write_enum(std::string_view, uint32_t) override {}
		void write_bool(std::string_view, bool) override {}
		void write_color(std::string_view, Color) override {}
		void write_vec3(std::string_view, Vec3 const&) override {}
		void write_vec2(std::string_view, Vec2) override {}
		void write_bbox(std::string_view, AxisAlignedBoundingBox const&) override {}
		void write_mat3x3(std::string_view, Mat3 const&) override {}
		void write_raw(std::string_view, std::vector<std::byte> const&) override {}
		void write_raw(std::string_view, std::byte const*, uint16_t) override {}
		void write_raw_float(std::string_view, float const*, uint16_t) override {}
		void write_header() override {}
		Write* get_stream() const noexcept override { return nullptr; }
	};
	struct AnyRead : ReadArchive {
		std::vector<Frame> frames;
		size_t at = 0;
		AnyRead() : ReadArchive(ArchiveHeader {}, nullptr) {}
		bool read_object_begin(ArchiveObject& o) override {
			auto& f = frames.at(at++);
			o.object_name = f.name;
			o.class_name = f.ref ? "\xA7" : f.cls;
			o.version = 0;
			o.index = f.index;
			return true;
		}
		bool read_object_end() override { return true; }
		std::string read_string() override { return ""; }
		int32_t read_int() override { return 0; }
		float read_float() override { return 0; }
		uint8_t read_byte() override { return 0; }
		uint16_t read_word() override { return 0; }
		uint32_t read_enum() override { return 0; }
		bool read_bool() override { return false; }
		Color read_color() override { return {}; }
		Vec3 read_vec3() override { return {}; }
		Vec2 read_vec2() override { return {}; }
		AxisAlignedBoundingBox read_bbox() override { return {}; }
		Mat3 read_mat3x3() override { return {}; }
		std::unique_ptr<Read> read_raw(size_t) override { return nullptr; }
		void read_header() override {}
		void skip_entry() override {}
	};
}
HARNESS(any_number_written) {
	zk_opt("one_bucket");
	std::shared_ptr<WayPoint> o[3] = {point("A", BS), point("B", BS), point("C", BS)};
	AnyWrite w;
	for (int i = 0; i < 3; ++i) w.next.push_back(zk_any_u32("object number"));
	for (int i = 0; i < 3; ++i) w.write_object("first", o[i], G1);
	zk_assert(w.frames.size() == 3 && w.open == 0, "each new object is written once and closed");
	auto k = zk_choice(3, "which");
	w.write_object("again", o[k], G1);
	zk_assert(w.frames.size() == 4 && w.open == 0, "a known object is written as a reference");
	zk_assert(w.frames[3].ref && w.frames[3].name == "again", "a known object is not written again");
	zk_assert(w.frames[3].index == w.next[k], "a reference carries the number of its object");
	for (int i = 0; i < 3; ++i) zk_assert(w.frames[i].cls == "zCWaypoint" && w.frames[i].name == "first", "class and name of the object");
	zk_cover("end");
}
HARNESS(any_number_read) {
	zk_opt("one_bucket");
	AnyRead r;
	uint32_t n[3];
	for (int i = 0; i < 3; ++i) {
		n[i] = zk_any_u32("object number");
		for (int j = 0; j < i; ++j) zk_assume(n[i] != n[j]);
		r.frames.push_back({"x", "zCWaypoint", n[i], false});
	}
	auto k = zk_choice(4, "which");
	uint32_t other = zk_any_u32("missing number");
	for (int i = 0; i < 3; ++i) zk_assume(n[i] != other);
	r.frames.push_back({"again", "", k < 3 ? n[k] : other, true});
	std::shared_ptr<Object> o[4];
	for (int i = 0; i < 4; ++i) o[i] = r.read_object(G1);
	zk_assert(r.at == 4, "each object is read once");
	zk_assert(o[0] && o[1] && o[2] && o[0] != o[1] && o[0] != o[2] && o[1] != o[2], "distinct objects stay distinct");
	zk_assert(o[3] == (k < 3 ? o[k] : nullptr), "a reference is the object of that number");
	zk_cover("end");
}
