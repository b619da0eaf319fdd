// P21: model scripts: source text and compiled form load to exactly what they say; nothing hangs or crashes.
#include "zk.hh"
#include <zenkit/Error.hh>
#include <zenkit/ModelScript.hh>
#include <zenkit/Stream.hh>
#include <vector>
using namespace zenkit;
namespace {
	using S = std::string;
	// a name in quotes: no quotes, line ends, white space or closing parenthesis
	S name(const char* l, size_t n = 2) { return zk_str(n, l, " \t\v\f\r\n\")"); }
	S q(S const& s) { return "\"" + s + "\""; }
	// an integer of two digits, optionally negative
	struct Num {
		S text;
		int32_t v;
	};
	Num num(const char* l, bool neg = false) {
		uint32_t a = zk_range(10, l), b = zk_range(10, l);
		Num n;
		if (neg) n.text = "-";
		n.text += (char) ('0' + a);
		n.text += (char) ('0' + b);
		n.v = (int32_t) (a * 10 + b);
		if (neg) n.v = -n.v;
		return n;
	}
	// a number with a fraction; its value is what the C library reads
	struct Flt {
		S text;
		float v;
	};
	Flt flt(const char* l) {
		Flt f;
		f.text += (char) ('0' + zk_range(10, l));
		f.text += '.';
		f.text += (char) ('0' + zk_range(10, l));
		f.v = std::stof(f.text);
		return f;
	}
	bool same(float a, float b) { return zk_bits(a) == zk_bits(b); }

	void parse(ModelScript& m, S const& text) {
		std::vector<std::byte> buf((std::byte const*) text.data(), (std::byte const*) text.data() + text.size());
		auto r = Read::from(&buf);
		m.load(r.get());
	}
	S in_enum(S const& x) { return "Model (\"HERO\")\n{\n\taniEnum\n\t{\n" + x + "\t}\n}\n"; }
	S events(S const& x) { return in_enum("\t\tani (\"a\" 1 \"b\" 0.0 0.1 M. \"c.asc\" F 1 50)\n\t\t{\n" + x + "\t\t}\n"); }

	uint32_t flag_of(char c) {
		switch (c) {
		case 'M': return 1;
		case 'R': return 2;
		case 'E': return 4;
		case 'F': return 8;
		case 'I': return 16;
		case 'P': return 32;
		default: return 0;
		}
	}
	struct Type {
		const char* n;
		int v;
		int args; // 1: slot, 2: slot and item, 3: slot and slot2, 4: fight mode, 5: frames, 0: none, -1: not specified
	};
	Type const TYPES[] = {{"DEF_CREATE_ITEM", 1, 2},    {"DEF_INSERT_ITEM", 2, 1},   {"DEF_REMOVE_ITEM", 3, -1},    {"DEF_DESTROY_ITEM", 4, -1},
	                      {"DEF_PLACE_ITEM", 5, 0},     {"DEF_EXCHANGE_ITEM", 6, 2}, {"DEF_FIGHTMODE", 7, 4},       {"DEF_PLACE_MUNITION", 8, 1},
	                      {"DEF_REMOVE_MUNITION", 9, -1}, {"DEF_DRAWSOUND", 10, -1}, {"DEF_UNDRAWSOUND", 11, -1},   {"DEF_SWAPMESH", 12, 3},
	                      {"DEF_DRAWTORCH", 13, 0},     {"DEF_INV_TORCH", 14, -1},   {"DEF_DROP_TORCH", 15, 0},     {"DEF_HIT_LIMB", 16, 1},
	                      {"DEF_HIT_DIR", 17, -1},      {"DEF_DAM_MULTIPLY", 18, 5}, {"DEF_PAR_FRAME", 19, 5},      {"DEF_OPT_FRAME", 20, 5},
	                      {"DEF_HIT_END", 21, 5},       {"DEF_WINDOW", 22, 5},       {"HIT_LIMB", 16, 1},           {"DEF_DIR", 17, -1},
	                      {"DEF_NOTHING", 0, 0}};
	struct Mode {
		const char* n;
		int v;
	};
	Mode const MODES[] = {{"FIST", 0}, {"1H", 1}, {"2H", 2}, {"BOW", 3}, {"CBOW", 4}, {"MAG", 5}, {"", 6}, {"1h", 1}, {"2h", 2}, {"3H", 6}, {"1HX", 6}, {"OTHER", 6}, {"CROSSBOW", 6}};

	void check_tag(MdsEventTag const& e, Type const& t, int frame, S const& a, S const& b, int mode, std::vector<int32_t> const& fr) {
		zk_assert(e.frame == frame, "frame of an event tag");
		zk_assert((int) e.type == t.v, "type of an event tag");
		if (t.args == -1) return;
		zk_assert(e.slot == (t.args == 1 || t.args == 2 || t.args == 3 ? a : ""), "slot of an event tag");
		zk_assert(e.item == (t.args == 2 ? b : ""), "item of an event tag");
		zk_assert(e.slot2 == (t.args == 3 ? b : ""), "second slot of an event tag");
		zk_assert((int) e.fight_mode == (t.args == 4 ? mode : 6), "fight mode of an event tag");
		zk_assert(e.frames.size() == (t.args == 5 ? fr.size() : 0), "number of frames of an event tag");
		for (size_t i = 0; i < e.frames.size(); ++i) zk_assert(e.frames[i] == fr[i], "frames of an event tag");
	}
}
HARNESS(text_model) {
	auto a = name("mesh"), b = name("mesh"), c = name("mesh");
	bool no = zk_choice(2, "no mesh");
	ModelScript m;
	parse(m, "Model (" + q(name("model")) + ")\n{\n\tmeshAndTree (" + q(a) + (no ? "\tDONT_USE_MESH" : "") + ")\n\tregisterMesh (" + q(b) +
	             ")\n\tregisterMesh (" + q(c) + ")\n}\n");
	zk_assert(m.skeleton.name == a && m.skeleton.disable_mesh == no, "mesh and hierarchy");
	zk_assert(m.meshes.size() == 2 && m.meshes[0] == b && m.meshes[1] == c, "registered meshes");
	zk_assert(m.animations.empty() && m.aliases.empty() && m.blends.empty() && m.combinations.empty() && m.disabled_animations.empty() && m.model_tags.empty(), "nothing else");
	zk_cover("end");
}
HARNESS(text_ani) {
	auto n = name("name"), x = name("next"), f = name("file");
	auto layer = num("layer"), first = num("first"), last = num("last", zk_choice(2, "negative"));
	auto in = flt("in"), out = flt("out"), fps = flt("fps"), cvs = flt("cvs");
	static const char* const FL[] = {".", "M.", "MRE", "FI", "P", "MREFIP", "x.", "E:", "I.M"};
	S fl = FL[zk_choice(9, "flags")];
	bool back = zk_choice(2, "direction");
	auto opt = zk_choice(4, "options");
	auto block = zk_choice(3, "block");
	zk_assume(fl == "M." || (opt == 3 && block == 0)); // flags, options and blocks are independent of each other
	S t = "\t\tani\t\t\t(" + q(n) + " " + layer.text + "\t" + q(x) + "\t" + in.text + " " + out.text + " " + fl + "\t" + q(f) + "\t" + (back ? "R" : "F") + " " + first.text + "\t" + last.text;
	if (opt & 1) t += " FPS:" + fps.text;
	if (opt & 2) t += " CVS:" + cvs.text;
	t += ")\n";
	if (block == 1) t += "{\n}\n";
	if (block == 2) t += "{\n*eventSFX (7 \"s\")\n}\n";
	ModelScript m;
	parse(m, in_enum(t + "\t\taniDisable (" + q(n) + ")\n"));
	zk_assert(m.animations.size() == 1, "one animation");
	auto& a = m.animations[0];
	zk_assert(a.name == n && a.next == x && a.model == f, "names of an animation");
	zk_assert(a.layer == (uint32_t) layer.v && a.first_frame == first.v && a.last_frame == last.v, "layer and frames of an animation");
	zk_assert(same(a.blend_in, in.v) && same(a.blend_out, out.v), "blend times of an animation");
	uint32_t want = 0;
	for (char c : fl) want |= flag_of(c);
	zk_assert((uint32_t) a.flags == want, "flags of an animation");
	zk_assert((a.direction == AnimationDirection::BACKWARD) == back, "direction of an animation");
	zk_assert(same(a.fps, opt & 1 ? fps.v : 25.0f), "frame rate of an animation");
	zk_assert(same(a.collision_volume_scale, opt & 2 ? cvs.v : 1.0f), "collision volume scale of an animation");
	zk_assert(a.sfx.size() == (block == 2 ? 1u : 0u) && a.events.empty() && a.pfx.empty() && a.pfx_stop.empty() && a.sfx_ground.empty() && a.morph.empty() && a.tremors.empty(), "events of an animation");
	zk_assert(m.disabled_animations.size() == 1 && m.disabled_animations[0] == n, "entry behind an animation");
	zk_cover("end");
}
HARNESS(text_other) {
	auto n = name("name"), x = name("next"), f = name("file");
	auto layer = num("layer"), last = num("last");
	auto in = flt("in"), out = flt("out");
	auto kind = zk_choice(4, "kind");
	auto opt = zk_choice(3, "option");
	S t, fl = opt == 1 ? "M." : "RI";
	uint32_t want = opt == 1 ? 1 : 18;
	if (kind == 0) t = "aniAlias (" + q(n) + " " + layer.text + " " + q(x) + " " + in.text + " " + out.text + " " + fl + " " + q(f) + (opt == 0 ? "" : opt == 1 ? " F" : " R") + ")\n";
	if (kind == 1) t = "aniComb (" + q(n) + " " + layer.text + " " + q(x) + " " + in.text + " " + out.text + " " + fl + " " + q(f) + " " + last.text + ")\n" + (opt == 2 ? "{ *eventSFX (1 \"x\")\n}\n" : "");
	if (kind == 2) t = "aniBlend (" + q(n) + " " + q(x) + (opt ? " " + in.text + " " + out.text : "") + ")\n" + (opt == 2 ? "{\n}\n" : "");
	if (kind == 3) t = "modelTag (\"DEF_HIT_LIMB\" " + q(n) + ")\n";
	auto d = name("disabled");
	ModelScript m;
	parse(m, in_enum(t + "aniDisable (" + q(d) + ")\n" + (opt == 1 ? t : "")));
	size_t cnt = opt == 1 ? 2 : 1;
	zk_assert(m.aliases.size() == (kind == 0 ? cnt : 0) && m.combinations.size() == (kind == 1 ? cnt : 0) && m.blends.size() == (kind == 2 ? cnt : 0) && m.model_tags.size() == (kind == 3 ? cnt : 0) && m.animations.empty(), "number of entries");
	zk_assert(m.disabled_animations.size() == 1 && m.disabled_animations[0] == d, "disabled animation");
	for (size_t i = 0; i < cnt; ++i) {
		if (kind == 0) {
			auto& a = m.aliases[i];
			zk_assert(a.name == n && a.next == x && a.alias == f && a.layer == (uint32_t) layer.v, "names and layer of an alias");
			zk_assert(same(a.blend_in, in.v) && same(a.blend_out, out.v) && (uint32_t) a.flags == want, "blend times and flags of an alias");
			zk_assert((a.direction == AnimationDirection::BACKWARD) == (opt == 2), "direction of an alias");
		}
		if (kind == 1) {
			auto& a = m.combinations[i];
			zk_assert(a.name == n && a.next == x && a.model == f && a.layer == (uint32_t) layer.v && a.last_frame == last.v, "names, layer and frame of a combination");
			zk_assert(same(a.blend_in, in.v) && same(a.blend_out, out.v) && (uint32_t) a.flags == want, "blend times and flags of a combination");
		}
		if (kind == 2) {
			auto& a = m.blends[i];
			zk_assert(a.name == n && a.next == x, "names of a blend");
			zk_assert(same(a.blend_in, opt ? in.v : 0) && same(a.blend_out, opt ? out.v : 0), "blend times of a blend");
		}
		if (kind == 3) zk_assert(m.model_tags[i].bone == n, "bone of a model tag");
	}
	zk_cover("end");
}
HARNESS(text_events) {
	auto fr = num("frame"), ix = num("index");
	auto n = name("name"), p = name("position");
	auto rg = flt("range");
	auto kind = zk_choice(6, "kind");
	auto opt = zk_choice(4, "option");
	S t;
	if (kind == 0) t = "*eventSFX (" + fr.text + " " + q(n) + (opt & 1 ? " R:" + rg.text : "") + (opt & 2 ? opt & 1 ? " EMPTY_SLOT" : " EMTPY_SLOT" : "") + ")\n";
	if (kind == 1) t = "*eventSFXGrnd (" + fr.text + " " + q(n) + (opt & 1 ? " EMPTY_SLOT" : "") + ")\n";
	if (kind == 2) t = "*eventPFX (" + fr.text + (opt & 1 ? " " + ix.text : "") + " " + q(n) + " " + q(p) + (opt & 2 ? opt & 1 ? " ATTACH" : " \"ATTACH\"" : "") + ")\n";
	if (kind == 3) t = "*eventPFXStop (" + fr.text + " " + ix.text + ")\n";
	if (kind == 4) t = "*eventMMStartAni (" + fr.text + " " + q(n) + (opt & 1 ? " " + q(p) : "") + ")\n";
	if (kind == 5) t = "*eventCamTremor (" + fr.text + " " + ix.text + " 2 3 4)\n";
	ModelScript m;
	parse(m, events(t + t));
	zk_assert(m.animations.size() == 1, "one animation");
	auto& a = m.animations[0];
	zk_assert(a.sfx.size() == (kind == 0 ? 2 : 0) && a.sfx_ground.size() == (kind == 1 ? 2 : 0) && a.pfx.size() == (kind == 2 ? 2 : 0) && a.pfx_stop.size() == (kind == 3 ? 2 : 0) && a.morph.size() == (kind == 4 ? 2 : 0) && a.tremors.size() == (kind == 5 ? 2 : 0) && a.events.empty(), "number of events");
	for (int i = 0; i < 2; ++i) {
		if (kind == 0) zk_assert(a.sfx[i].frame == fr.v && a.sfx[i].name == n && same(a.sfx[i].range, opt & 1 ? rg.v : 1000.0f) && a.sfx[i].empty_slot == !!(opt & 2), "sound effect");
		if (kind == 1) zk_assert(a.sfx_ground[i].frame == fr.v && a.sfx_ground[i].name == n, "ground sound effect");
		if (kind == 2) zk_assert(a.pfx[i].frame == fr.v && a.pfx[i].index == (opt & 1 ? ix.v : 0) && a.pfx[i].name == n && a.pfx[i].position == p && a.pfx[i].attached == !!(opt & 2), "particle effect");
		if (kind == 3) zk_assert(a.pfx_stop[i].frame == fr.v && a.pfx_stop[i].index == ix.v, "end of a particle effect");
		if (kind == 4) zk_assert(a.morph[i].frame == fr.v && a.morph[i].animation == n && a.morph[i].node == (opt & 1 ? p : ""), "morph animation");
		if (kind == 5) zk_assert(a.tremors[i].frame == fr.v && a.tremors[i].field1 == ix.v && a.tremors[i].field2 == 2 && a.tremors[i].field3 == 3 && a.tremors[i].field4 == 4, "camera tremor");
	}
	zk_cover("end");
}
HARNESS(text_tags) {
	auto& t = TYPES[zk_choice(25, "type")];
	auto fr = num("frame");
	auto a = name("slot"), b = name("item");
	auto& mode = MODES[zk_choice(13, "mode")];
	zk_assume(t.args == 4 || mode.v == 0);
	S s1 = a;
	std::vector<int32_t> frames;
	if (t.args == 4) s1 = mode.n;
	if (t.args == 5) {
		auto k = zk_choice(4, "frames");
		auto gap = zk_choice(3, "gap");
		s1 = gap == 2 ? " " : "";
		for (uint32_t i = 0; i < k; ++i) {
			auto f = num("listed frame", i == 1);
			if (i) s1 += gap == 1 ? "  " : " ";
			s1 += f.text;
			frames.push_back(f.v);
		}
		if (gap == 2) s1 += " ";
	}
	auto have = zk_choice(3, "arguments");
	zk_assume(have == 1 || t.args != 5 || frames.size() == 2);
	bool att = zk_choice(2, "attach");
	bool nof = zk_choice(2, "no frame");
	zk_assume(!nof || !att);
	ModelScript m;
	S x = "*eventTag (" + (nof ? S {} : fr.text + " ") + q(t.n) + (have > 0 ? " " + q(s1) : "") + (have > 1 ? " " + q(b) : "") + (att ? " ATTACH" : "") + ")\n";
	parse(m, events(x));
	zk_assert(m.animations.size() == 1 && m.animations[0].events.size() == 1, "one event tag");
	auto& e = m.animations[0].events[0];
	zk_assert(e.attached == att, "attachment of an event tag");
	check_tag(e, t, nof ? 0 : fr.v, have > 0 ? a : "", have > 1 ? b : "", have > 0 ? mode.v : 6, have > 0 ? frames : std::vector<int32_t> {});
	zk_cover("end");
}
// a name in quotes keeps every character; without the closing quote it ends with the line, less white space and parenthesis
HARNESS(text_string) {
	S s = zk_str(3, "character", "\n\"");
	char l = s[2];
	zk_assume(l != ')' && !(l == ' ' || (l >= 9 && l <= 13)));
	ModelScript m;
	parse(m, "Model (\"A\") { registerMesh (" + q(s) + ") registerMesh (\"N\") }");
	zk_assert(m.meshes.size() == 2 && m.meshes[0] == s && m.meshes[1] == "N", "quoted name");
	zk_cover("end");
}
HARNESS(text_open_string) {
	S s = zk_str(2, "character", "\n\"");
	char l = s[1];
	zk_assume(l != ')' && !(l == ' ' || (l >= 9 && l <= 13)));
	static const char* const TAIL[] = {"\n", ")\n", ")\r\n", "\r\n", " \n", ") \n", ")\t\r\n"};
	S tail = TAIL[zk_choice(7, "tail")];
	ModelScript m;
	parse(m, "Model (\"A\") { registerMesh (\"" + s + tail + " registerMesh (\"N\") }");
	zk_assert(m.meshes.size() == 2 && m.meshes[0] == s && m.meshes[1] == "N", "name without a closing quote");
	zk_cover("end");
}
// words do not depend on case
HARNESS(text_case) {
	auto up = [](const char* w) {
		S r;
		for (const char* p = w; *p; ++p) {
			char c = *p;
			if ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')) c = (char) (c ^ (zk_range(2, "case") << 5));
			r += c;
		}
		return r;
	};
	ModelScript m;
	parse(m, up("Model") + " (\"A\") { " + up("meshAndTree") + " (\"B\" " + up("DONT_USE_MESH") + ") " + up("registerMesh") + " (\"C\") " + up("aniEnum") + " { " + up("aniDisable") + " (\"D\") } }");
	zk_assert(m.skeleton.name == "B" && m.skeleton.disable_mesh && m.meshes.size() == 1 && m.disabled_animations.size() == 1, "words in any case");
	zk_cover("end");
}
HARNESS(text_case_ani) {
	static const char* const W[] = {"ani", "aniAlias", "aniBlend", "aniComb", "modelTag", "*eventTag", "*eventSFX", "*eventSFXGrnd", "*eventPFX", "*eventPFXStop", "*eventMMStartAni", "*eventCamTremor"};
	auto k = zk_choice(12, "word");
	S r;
	for (const char* p = W[k]; *p; ++p) r += *p == '*' ? '*' : (char) (*p ^ (zk_range(2, "case") << 5));
	static const char* const A[] = {"(\"a\" 1 \"b\" 0 0 M \"c\" f 1 2)", "(\"a\" 1 \"b\" 0 0 M \"c\" r)", "(\"a\" \"b\")", "(\"a\" 1 \"b\" 0 0 M \"c\" 2)", "(\"DEF_HIT_LIMB\" \"b\")",
	                                "(1 \"DEF_DROP_TORCH\" attach)", "(1 \"s\" r:2)", "(1 \"s\")", "(1 \"s\" \"p\" attach)", "(1 2)", "(1 \"s\")", "(1 2 3 4 5)"};
	ModelScript m;
	S t = r + A[k] + "\n";
	parse(m, k < 5 ? in_enum(t) : events(t));
	auto n = m.animations.size() + m.aliases.size() + m.blends.size() + m.combinations.size() + m.model_tags.size();
	zk_assert(n == 1, "entry in any case");
	if (k == 1) zk_assert(m.aliases[0].direction == AnimationDirection::BACKWARD, "direction in any case");
	if (k >= 5) {
		auto& a = m.animations[0];
		zk_assert(a.events.size() == (k == 5) && a.sfx.size() == (k == 6) && a.sfx_ground.size() == (k == 7) && a.pfx.size() == (k == 8) && a.pfx_stop.size() == (k == 9) && a.morph.size() == (k == 10) && a.tremors.size() == (k == 11), "event in any case");
		if (k == 5) zk_assert(a.events[0].attached, "attachment in any case");
		if (k == 6) zk_assert(same(a.sfx[0].range, 2.0f), "range in any case");
		if (k == 8) zk_assert(a.pfx[0].attached, "attachment in any case");
	}
	zk_cover("end");
}
// what stands between words does not matter: blanks, line ends, parentheses, semicolons, comments
HARNESS(text_layout) {
	static const char* const TOK[] = {"Model", "\"A\"", "{", "registerMesh", "\"B\"", "aniEnum", "{", "ani", "\"a\"", "1", "\"b\"", "0.5", "1.5", "M.", "\"c\"", "F", "2", "3", "{", "*eventPFXStop", "4", "5", "}", "aniDisable", "\"D\"", "}", "registerMesh", "\"E\"", "}"};
	auto at = zk_choice(29, "place");
	auto how = zk_choice(7, "what");
	static const char* const GAP[] = {" ", "\r\n", "(", " ) ;", "// a comment \" { }\n", "\t\v\f ", "/ a comment\n\n"};
	S t;
	for (uint32_t i = 0; i < 29; ++i) {
		if (i == at) t += GAP[how];
		else if (i) t += ' ';
		t += TOK[i];
	}
	ModelScript m;
	parse(m, t);
	zk_assert(m.meshes.size() == 2 && m.meshes[0] == "B" && m.meshes[1] == "E", "meshes in any layout");
	zk_assert(m.disabled_animations.size() == 1 && m.disabled_animations[0] == "D", "disabled animation in any layout");
	zk_assert(m.animations.size() == 1 && m.animations[0].pfx_stop.size() == 1, "animation in any layout");
	auto& a = m.animations[0];
	zk_assert(a.name == "a" && a.layer == 1 && a.next == "b" && a.blend_in == 0.5f && a.blend_out == 1.5f && a.model == "c" && a.first_frame == 2 && a.last_frame == 3 && a.pfx_stop[0].frame == 4 && a.pfx_stop[0].index == 5, "values in any layout");
	zk_cover("end");
}
// blocks end where they end
HARNESS(text_blocks) {
	static const char* const LAST[] = {"ani (\"a\" 1 \"b\" 0 0 M \"c\" F 1 2)", "ani (\"a\" 1 \"b\" 0 0 M \"c\" F 1 2) { }", "ani (\"a\" 1 \"b\" 0 0 M \"c\" F 1 2 FPS:10) { *eventSFX (1 \"x\") }",
	                                   "aniAlias (\"a\" 1 \"b\" 0 0 M \"c\")", "aniBlend (\"a\" \"b\")", "aniComb (\"a\" 1 \"b\" 0 0 M \"c\" 3)", "aniDisable (\"a\")", "modelTag (\"DEF_HIT_LIMB\" \"b\")", ""};
	S a = LAST[zk_choice(9, "first")], b = LAST[zk_choice(9, "second")];
	ModelScript m;
	parse(m, "Model (\"A\")\n{\n\taniEnum\n\t{\n" + a + "\n\t}\n\tregisterMesh (\"X\")\n\taniEnum\n\t{\n" + b + "\n\t}\n\tregisterMesh (\"Y\")\n}\n");
	zk_assert(m.meshes.size() == 2 && m.meshes[0] == "X" && m.meshes[1] == "Y", "meshes behind a block");
	auto n = m.animations.size() + m.aliases.size() + m.blends.size() + m.combinations.size() + m.model_tags.size() + m.disabled_animations.size();
	zk_assert(n == (size_t) !a.empty() + (size_t) !b.empty(), "entries of both blocks");
	zk_cover("end");
}
// a word that is not known in a list of animations costs the rest of its line
HARNESS(text_unknown) {
	ModelScript m;
	parse(m, in_enum("aniMaxFps (25) { }\naniDisable (\"a\")\naniSync (\"x\"\naniDisable (\"b\")\n"));
	zk_assert(m.disabled_animations.size() == 2 && m.disabled_animations[0] == "a" && m.disabled_animations[1] == "b", "entries around unknown ones");
	zk_cover("end");
}
namespace {
	const char* const FULL = "Model (\"A\")\n{\n\tmeshAndTree (\"M\" DONT_USE_MESH)\n\tregisterMesh (\"B\")\n\taniEnum\n\t{\n\t\tani (\"a\" 1 \"b\" 0.5 1.5 M. \"c\" F 2 3 FPS:10)\n\t\t{\n*eventSFX (4 \"s\" R:5.5)\n*eventPFXStop (6 7)\n\t\t}\n"
	                         "aniBlend (\"d\" \"e\" 0.1 0.2)\n{ }\naniAlias (\"f\" 1 \"g\" 0 0 M \"h\" R)\naniComb (\"i\" 1 \"j\" 0 0 . \"k\" 9)\n{ x }\naniDisable (\"l\")\nfoo (1)\nmodelTag (\"DEF_HIT_LIMB\" \"m\")\n\t}\n}\n// end";
	void try_parse(S const& t) {
		ModelScript m;
		try {
			parse(m, t);
		} catch (ParserError const&) {
		}
		zk_assert(m.skeleton.name == "" || m.skeleton.name == "M", "nothing made up");
	}
}
// cut off anywhere, a script ends in a parser error or in what was read so far
HARNESS(text_cut) {
	S t = FULL;
	auto n = zk_choice(8, "part") * 8 + zk_choice(8, "place");
	for (size_t k = n; k <= t.size(); k += 64) try_parse(t.substr(0, k));
	zk_cover("end");
}
HARNESS(text_any_model) {
	S t = "Model (\"A\")\n{";
	for (int i = 0; i < ZK_Q(2, 3); ++i) t += (char) zk_any_u8("character");
	try_parse(t);
	zk_cover("end");
}
HARNESS(text_any_enum) {
	S t = "Model (\"A\")\n{\naniEnum\n{";
	for (int i = 0; i < ZK_Q(2, 3); ++i) t += (char) zk_any_u8("character");
	try_parse(t);
	zk_cover("end");
}
HARNESS(text_any_number) {
	S t = "Model (\"A\")\n{\naniEnum\n{ani (\"a\" ";
	for (int i = 0; i < ZK_Q(2, 3); ++i) t += (char) zk_any_u8("character");
	if (zk_choice(2, "more")) t += " \"b\" 0 ";
	try_parse(t);
	zk_cover("end");
}
HARNESS(text_bad_number) {
	static const char* const N[] = {"-", "99999999999", "-99999999999", "2147483648", "-2147483648", "2147483647", "1.", "-.", "-x"};
	auto k = zk_choice(9, "number");
	ModelScript m;
	bool ok = true;
	try {
		parse(m, in_enum(S("ani (\"a\" 1 \"b\" 0 0 M \"c\" F ") + N[k] + " 3)\n"));
	} catch (ParserError const&) {
		ok = false;
	}
	zk_assert(ok == (k == 4 || k == 5), "a number that is none is refused");
	if (ok) zk_assert(m.animations.size() == 1 && m.animations[0].first_frame == (k == 4 ? INT32_MIN : INT32_MAX), "extreme number");
	zk_cover("end");
}

// ------------------------------------------------------------------ compiled form
namespace {
	struct Out {
		std::vector<std::byte> b;
		Out& u8(uint32_t v) { b.push_back(std::byte((uint8_t) v)); return *this; }
		Out& u16(uint32_t v) { return u8(v).u8(v >> 8); }
		Out& u32(uint32_t v) { return u16(v).u16(v >> 16); }
		Out& f(float v) { return u32(zk_bits(v)); }
		Out& s(S const& t) {
			for (char c : t) u8((uint8_t) c);
			return u8('\n');
		}
		Out& chunk(uint32_t id, Out const& o) {
			u16(id).u32((uint32_t) o.b.size());
			b.insert(b.end(), o.b.begin(), o.b.end());
			return *this;
		}
		ModelScript load() {
			auto r = Read::from(&b);
			ModelScript m;
			m.load(r.get());
			return m;
		}
	};
	S line(const char* l, size_t n = 2) { return zk_str(n, l, "\r\n"); }
	Out start() {
		Out o;
		o.chunk(0xF000, Out().u32(1).s("\\P"));
		o.chunk(0xF100, Out().u32(2002).u16(8).u16(28).u16(12).u16(50).u16(52).u16(0).s("X.MDS"));
		o.chunk(0xF200, Out());
		return o;
	}
	Out ani(S const& n) {
		return Out().s(n).u32(1).s("n").f(0).f(0).s("M.").s("c").s("F").u32(1).u32(2).f(25).f(0).f(1);
	}
	void unknown(Out& o) {
		o.chunk(0xF510, Out().u32(zk_any_u32("unknown")));
	}
}
HARNESS(compiled_model) {
	auto o = start();
	auto a = line("mesh"), b = line("mesh"), c = line("mesh");
	auto no = zk_any_u32("no mesh");
	o.chunk(0xF300, Out().u32(no).s(a));
	unknown(o);
	o.chunk(0xF400, Out().s(b)).chunk(0xF400, Out().s(c));
	auto d = line("disabled"), t = line("bone");
	o.chunk(0xF580, Out().s(d));
	o.chunk(0xF590, Out().u32(zk_any_u32("ignored")).s("DEF_HIT_LIMB").s(t));
	o.chunk(0xF2FF, Out());
	auto m = o.load();
	zk_assert(m.skeleton.name == a && m.skeleton.disable_mesh == (no != 0), "mesh and hierarchy");
	zk_assert(m.meshes.size() == 2 && m.meshes[0] == b && m.meshes[1] == c, "registered meshes");
	zk_assert(m.disabled_animations.size() == 1 && m.disabled_animations[0] == d, "disabled animation");
	zk_assert(m.model_tags.size() == 1 && m.model_tags[0].bone == t, "model tag");
	zk_assert(m.animations.empty() && m.aliases.empty() && m.blends.empty() && m.combinations.empty(), "nothing else");
	zk_cover("end");
}
HARNESS(compiled_ani) {
	auto o = start();
	auto n = line("name"), x = line("next"), f = line("file"), dir = line("direction");
	S fl = line("flags", ZK_Q(2, 3));
	auto layer = zk_any_u32("layer"), first = zk_any_u32("first"), last = zk_any_u32("last");
	float v[5];
	for (auto& k : v) k = zk_any_f32("number");
	auto kind = zk_choice(4, "kind");
	unknown(o);
	for (int i = 0; i < 2; ++i) {
		S nn = i ? "other" : n;
		if (kind == 0) o.chunk(0xF520, Out().s(nn).u32(layer).s(x).f(v[0]).f(v[1]).s(fl).s(f).s(dir).u32(first).u32(last).f(v[2]).f(v[3]).f(v[4]));
		if (kind == 1) o.chunk(0xF530, Out().s(nn).u32(layer).s(x).f(v[0]).f(v[1]).s(fl).s(f).s(dir));
		if (kind == 2) o.chunk(0xF540, Out().s(nn).s(x).f(v[0]).f(v[1]));
		if (kind == 3) o.chunk(0xF570, Out().s(nn).u32(layer).s(x).f(v[0]).f(v[1]).s(fl).s(f).u32(last));
	}
	auto m = o.load();
	uint32_t want = 0;
	for (char c : fl) want |= (c == 'M' ? 1u : 0u) | (c == 'R' ? 2u : 0u) | (c == 'E' ? 4u : 0u) | (c == 'F' ? 8u : 0u) | (c == 'I' ? 16u : 0u) | (c == 'P' ? 32u : 0u);
	zk_assert(m.animations.size() == (kind == 0 ? 2 : 0) && m.aliases.size() == (kind == 1 ? 2 : 0) && m.blends.size() == (kind == 2 ? 2 : 0) && m.combinations.size() == (kind == 3 ? 2 : 0), "number of entries");
	bool back = dir[0] == 'R';
	for (int i = 0; i < 2; ++i) {
		S nn = i ? "other" : n;
		if (kind == 0) {
			auto& a = m.animations[i];
			zk_assert(a.name == nn && a.layer == layer && a.next == x && a.model == f, "names of an animation");
			zk_assert(same(a.blend_in, v[0]) && same(a.blend_out, v[1]) && same(a.fps, v[2]) && same(a.speed, v[3]) && same(a.collision_volume_scale, v[4]), "numbers of an animation");
			zk_assert((uint32_t) a.flags == want && (a.direction == AnimationDirection::BACKWARD) == back, "flags and direction of an animation");
			zk_assert((uint32_t) a.first_frame == first && (uint32_t) a.last_frame == last, "frames of an animation");
		}
		if (kind == 1) {
			auto& a = m.aliases[i];
			zk_assert(a.name == nn && a.layer == layer && a.next == x && a.alias == f, "names of an alias");
			zk_assert(same(a.blend_in, v[0]) && same(a.blend_out, v[1]) && (uint32_t) a.flags == want && (a.direction == AnimationDirection::BACKWARD) == back, "numbers of an alias");
		}
		if (kind == 2) {
			auto& a = m.blends[i];
			zk_assert(a.name == nn && a.next == x && same(a.blend_in, v[0]) && same(a.blend_out, v[1]), "blend");
		}
		if (kind == 3) {
			auto& a = m.combinations[i];
			zk_assert(a.name == nn && a.layer == layer && a.next == x && a.model == f && (uint32_t) a.last_frame == last, "names of a combination");
			zk_assert(same(a.blend_in, v[0]) && same(a.blend_out, v[1]) && (uint32_t) a.flags == want, "numbers of a combination");
		}
	}
	zk_cover("end");
}
HARNESS(compiled_events) {
	auto o = start();
	auto n = line("name"), p = line("position");
	uint32_t v[5];
	for (auto& k : v) k = zk_any_u32("number");
	float g = zk_any_f32("range");
	auto kind = zk_choice(6, "kind");
	auto where = zk_choice(2, "which");
	auto ev = [&](Out& w) {
		w.chunk(0xF5A0, Out().u32(1));
		if (kind == 0) w.chunk(0xF5A1, Out().u32(v[0]).s(n).f(g).u32(v[1]));
		if (kind == 1) w.chunk(0xF5A2, Out().u32(v[0]).s(n).f(g).u32(v[1]));
		if (kind == 2) w.chunk(0xF5A4, Out().u32(v[0]).u32(v[2]).s(n).s(p).u32(v[1]));
		if (kind == 3) w.chunk(0xF5A5, Out().u32(v[0]).u32(v[2]));
		if (kind == 4) w.chunk(0xF5A9, Out().u32(v[0]).s(n).s(p).f(g).f(g));
		if (kind == 5) w.chunk(0xF5AA, Out().u32(v[0]).u32(v[1]).u32(v[2]).u32(v[3]).u32(v[4]));
		w.chunk(0xF5AF, Out());
	};
	for (uint32_t i = 0; i < 3; ++i) {
		o.chunk(0xF520, ani("x"));
		if (i == where) {
			unknown(o);
			ev(o);
		}
		if (i == 0) o.chunk(0xF530, Out().s("al").u32(0).s("n").f(0).f(0).s(".").s("y").s("F"));
	}
	auto m = o.load();
	zk_assert(m.animations.size() == 3 && m.aliases.size() == 1, "number of animations");
	for (uint32_t i = 0; i < 3; ++i) {
		auto& a = m.animations[i];
		bool h = i == where;
		zk_assert(a.sfx.size() == (h && kind == 0) && a.sfx_ground.size() == (h && kind == 1) && a.pfx.size() == (h && kind == 2) && a.pfx_stop.size() == (h && kind == 3) && a.morph.size() == (h && kind == 4) && a.tremors.size() == (h && kind == 5) && a.events.empty(), "events stay with their animation");
	}
	auto& a = m.animations[where];
	if (kind == 0) zk_assert((uint32_t) a.sfx[0].frame == v[0] && a.sfx[0].name == n && same(a.sfx[0].range, g) && a.sfx[0].empty_slot == (v[1] != 0), "sound effect");
	if (kind == 1) zk_assert((uint32_t) a.sfx_ground[0].frame == v[0] && a.sfx_ground[0].name == n && same(a.sfx_ground[0].range, g) && a.sfx_ground[0].empty_slot == (v[1] != 0), "ground sound effect");
	if (kind == 2) zk_assert((uint32_t) a.pfx[0].frame == v[0] && (uint32_t) a.pfx[0].index == v[2] && a.pfx[0].name == n && a.pfx[0].position == p && a.pfx[0].attached == (v[1] != 0), "particle effect");
	if (kind == 3) zk_assert((uint32_t) a.pfx_stop[0].frame == v[0] && (uint32_t) a.pfx_stop[0].index == v[2], "end of a particle effect");
	if (kind == 4) zk_assert((uint32_t) a.morph[0].frame == v[0] && a.morph[0].animation == n && a.morph[0].node == p, "morph animation");
	if (kind == 5) zk_assert((uint32_t) a.tremors[0].frame == v[0] && (uint32_t) a.tremors[0].field1 == v[1] && (uint32_t) a.tremors[0].field2 == v[2] && (uint32_t) a.tremors[0].field3 == v[3] && (uint32_t) a.tremors[0].field4 == v[4], "camera tremor");
	zk_cover("end");
}
HARNESS(compiled_tags) {
	auto& t = TYPES[zk_choice(25, "type")];
	auto fr = zk_any_u32("frame");
	auto e = zk_choice(3, "empty name");
	S a = e == 1 ? "" : zk_str(2, "slot", "\r\n"), b = e == 2 ? "" : zk_str(2, "item", "\r\n");
	auto& mode = MODES[zk_choice(13, "mode")];
	zk_assume(t.args == 4 || mode.v == 0);
	std::vector<int32_t> frames;
	Out c;
	c.u32(fr).s(t.n);
	if (t.args == 4) c.s(mode.n);
	else if (t.args == 5) {
		S s1;
		auto k = zk_choice(4, "frames");
		for (uint32_t i = 0; i < k; ++i) {
			auto f = num("listed frame", i == 1);
			if (i) s1 += " ";
			s1 += f.text;
			frames.push_back(f.v);
		}
		if (e == 1) s1 += " ";
		c.s(s1);
	} else {
		if (t.args != 0) c.s(a);
		if (t.args == 2 || t.args == 3) c.s(b);
	}
	auto o = start();
	o.chunk(0xF520, ani("x")).chunk(0xF5A3, c).chunk(0xF5AF, Out()).chunk(0xF580, Out().s("dis"));
	auto m = o.load();
	zk_assert(m.animations.size() == 1 && m.animations[0].events.size() == 1, "one event tag");
	check_tag(m.animations[0].events[0], t, (int) fr, a, b, mode.v, frames);
	if (t.args == -1) zk_assert(m.animations[0].events[0].slot == a, "name of an event tag");
	zk_assert(m.disabled_animations.size() == 1 && m.disabled_animations[0] == "dis", "entry behind an event tag");
	zk_cover("end");
}
HARNESS(compiled_stray_event) {
	static const uint16_t K[] = {0xF5A1, 0xF5A2, 0xF5A3, 0xF5A4, 0xF5A5, 0xF5A9, 0xF5AA};
	auto k = zk_choice(7, "kind");
	auto o = start();
	o.chunk(K[k], Out().u32(0).s("x").s("y").u32(0).u32(0).u32(0));
	bool refused = false;
	try {
		(void) o.load();
	} catch (ParserError const&) {
		refused = true;
	}
	zk_assert(refused, "an event without an animation is refused");
	zk_cover("end");
}

namespace {
	// a name of n characters, some of them free
	S long_name(size_t n, const char* l) {
		S s(n, 'n');
		for (size_t i = 0; i < n; ++i) s[i] = (char) ('a' + i % 26);
		for (auto i : {n / 2, n - 1}) s[i] = (char) zk_any_char("\t\v\f\r\n \")", l);
		return s;
	}
}
// long names, large numbers and many entries
HARNESS(text_many) {
	static size_t const sizes[] = {16, 40, 270};
	auto size = sizes[zk_choice(3, "length")];
	auto n = long_name(size, "name"), x = long_name(size, "next"), f = long_name(size, "file");
	S t;
	int const count = 18;
	for (int i = 0; i < count; ++i) {
		auto d = S(1, (char) ('a' + i));
		t += "ani (" + q(n + d) + " 1234567 " + q(x) + " 0.0 0.1 M. " + q(f) + " F 0 2147483647) { *eventSFX (1 " + q(d) + ") *eventPFX (2 3 " + q(n) + " " + q(x) + " ATTACH) *eventSFX (-2147483648 " + q(x) + ") }\n";
		t += "aniAlias (" + q(d) + " 1 " + q(x) + " 0.0 0.1 M. " + q(f) + " F)\naniBlend (" + q(n) + " " + q(x) + " 0.1 0.2)\naniDisable (" + q(f) + ")\n";
	}
	ModelScript m;
	parse(m, in_enum(t));
	zk_assert(m.animations.size() == count && m.aliases.size() == count && m.blends.size() == count && m.disabled_animations.size() == count, "number of entries");
	for (int i = 0; i < count; ++i) {
		auto d = S(1, (char) ('a' + i));
		auto& a = m.animations[i];
		zk_assert(a.name == n + d && a.next == x && a.model == f, "long names of an animation");
		zk_assert(a.layer == 1234567 && a.first_frame == 0 && a.last_frame == 2147483647, "large numbers of an animation");
		zk_assert(a.sfx.size() == 2 && a.pfx.size() == 1, "events of each animation");
		zk_assert(a.sfx[0].name == d && a.sfx[0].frame == 1 && a.sfx[1].name == x && a.sfx[1].frame == (-2147483647 - 1), "events of each animation");
		zk_assert(a.pfx[0].frame == 2 && a.pfx[0].index == 3 && a.pfx[0].name == n && a.pfx[0].position == x && a.pfx[0].attached, "events of each animation");
		zk_assert(m.aliases[i].name == d && m.aliases[i].alias == f && m.blends[i].next == x && m.disabled_animations[i] == f, "long names");
	}
	zk_cover("end");
}
HARNESS(compiled_many) {
	static size_t const sizes[] = {16, 40, 270};
	auto size = sizes[zk_choice(3, "length")];
	auto n = long_name(size, "name"), x = long_name(size, "next"), f = long_name(size, "file");
	auto o = start();
	int const count = 18;
	for (int i = 0; i < count; ++i) {
		auto d = S(1, (char) ('a' + i));
		o.chunk(0xF520, Out().s(n + d).u32(1).s(x).f(0).f(0).s("M.").s(f).s("F").u32(1).u32(2).f(25).f(0).f(1));
		o.chunk(0xF580, Out().s(f));
		o.chunk(0xF5A1, Out().u32((uint32_t) i).s(x).f(1).f(0));
	}
	auto m = o.load();
	zk_assert(m.animations.size() == count && m.disabled_animations.size() == count, "number of entries");
	for (int i = 0; i < count; ++i) {
		auto& a = m.animations[i];
		zk_assert(a.name == n + S(1, (char) ('a' + i)) && a.next == x && a.model == f && m.disabled_animations[i] == f, "long names of an animation");
		zk_assert(a.sfx.size() == 1 && a.sfx[0].frame == i && a.sfx[0].name == x, "events of each animation");
	}
	zk_cover("end");
}
