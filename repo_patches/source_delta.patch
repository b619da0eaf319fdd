From c462807a594a63cbee6bad33412c05c9d2c20f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:28 +0000
Subject: [PATCH 01/81] fix: leave room for the sign of ten-digit integers in
 ASCII archives

---
 src/archive/ArchiveAscii.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archive/ArchiveAscii.cc b/src/archive/ArchiveAscii.cc
index baa3e39..da55daa 100644
--- a/src/archive/ArchiveAscii.cc
+++ b/src/archive/ArchiveAscii.cc
@@ -303,7 +303,7 @@ namespace zenkit {
 	}
 
 	void WriteArchiveAscii::write_int(std::string_view name, std::int32_t v) {
-		std::array<char, std::numeric_limits<int32_t>::digits10 + 1> buf {};
+		std::array<char, std::numeric_limits<int32_t>::digits10 + 2> buf {};
 		this->write_entry(name, "int", intosv(buf, v));
 	}
 
-- 
2.43.0


From ae4057d10d044bbfc616726c3efa96761312c0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:28 +0000
Subject: [PATCH 02/81] fix: write all raw bytes in ASCII archives as two hex
 digits

---
 src/archive/ArchiveAscii.cc | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/archive/ArchiveAscii.cc b/src/archive/ArchiveAscii.cc
index da55daa..58a05a2 100644
--- a/src/archive/ArchiveAscii.cc
+++ b/src/archive/ArchiveAscii.cc
@@ -372,17 +372,11 @@ namespace zenkit {
 		this->_m_write->write_string(name);
 		this->_m_write->write_string("=raw:");
 
-		std::array<char, 3> buf {};
-		buf[2] = '\0';
+		constexpr char HEX[] = "0123456789abcdef";
 		for (auto i = 0u; i < length; ++i) {
-			std::to_chars(buf.data(), buf.data() + buf.size(), static_cast<unsigned char>(v[i]), 16);
-
-			if (buf[1] == '\0') {
-				this->_m_write->write_char('0');
-				this->_m_write->write_char(buf[0]);
-			} else {
-				this->_m_write->write_string(buf.data());
-			}
+			auto byte = static_cast<unsigned char>(v[i]);
+			this->_m_write->write_char(HEX[byte >> 4]);
+			this->_m_write->write_char(HEX[byte & 0xF]);
 		}
 
 		this->_m_write->write_char('\n');
-- 
2.43.0


From 3995ea4bfdf867b9f8f6c12ce4f43d45700bdc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:28 +0000
Subject: [PATCH 03/81] fix: write bytes and words in ASCII archives with the
 type the reader expects

---
 src/archive/ArchiveAscii.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/archive/ArchiveAscii.cc b/src/archive/ArchiveAscii.cc
index 58a05a2..db21d14 100644
--- a/src/archive/ArchiveAscii.cc
+++ b/src/archive/ArchiveAscii.cc
@@ -313,12 +313,12 @@ namespace zenkit {
 
 	void WriteArchiveAscii::write_byte(std::string_view name, std::uint8_t v) {
 		std::array<char, std::numeric_limits<uint8_t>::digits10 + 1> buf {};
-		this->write_entry(name, "byte", intosv(buf, v));
+		this->write_entry(name, "int", intosv(buf, v));
 	}
 
 	void WriteArchiveAscii::write_word(std::string_view name, std::uint16_t v) {
 		std::array<char, std::numeric_limits<uint16_t>::digits10 + 1> buf {};
-		this->write_entry(name, "word", intosv(buf, v));
+		this->write_entry(name, "int", intosv(buf, v));
 	}
 
 	void WriteArchiveAscii::write_enum(std::string_view name, std::uint32_t v) {
-- 
2.43.0


From bd18765a69409c3ff63a17678b4887542d5ec115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:28 +0000
Subject: [PATCH 04/81] fix: write matrices in ASCII archives as raw bytes like
 the reader expects

---
 src/archive/ArchiveAscii.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archive/ArchiveAscii.cc b/src/archive/ArchiveAscii.cc
index db21d14..f8e8c04 100644
--- a/src/archive/ArchiveAscii.cc
+++ b/src/archive/ArchiveAscii.cc
@@ -360,7 +360,7 @@ namespace zenkit {
 
 	void WriteArchiveAscii::write_mat3x3(std::string_view name, Mat3 const& v) {
 		auto vT = v.transpose();
-		this->write_raw_float(name, vT.pointer(), 9);
+		this->write_raw(name, reinterpret_cast<std::byte const*>(vT.pointer()), 9 * sizeof(float));
 	}
 
 	void WriteArchiveAscii::write_raw(std::string_view name, std::vector<std::byte> const& v) {
-- 
2.43.0


From a51db90b2c936fa5a97167d741f4ebedc4b23831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:10 +0000
Subject: [PATCH 05/81] fix: skip key and value of a BinSafe archive entry
 together

---
 src/archive/ArchiveBinsafe.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/archive/ArchiveBinsafe.cc b/src/archive/ArchiveBinsafe.cc
index 604a890..31ddd50 100644
--- a/src/archive/ArchiveBinsafe.cc
+++ b/src/archive/ArchiveBinsafe.cc
@@ -219,7 +219,16 @@ namespace zenkit {
 	}
 
 	void ReadArchiveBinsafe::skip_entry() {
-		switch (static_cast<ArchiveEntryType>(read->read_ubyte())) {
+		auto type = static_cast<ArchiveEntryType>(read->read_ubyte());
+
+		// The key of an entry is always followed by its value. Skip them together so that a string value is never
+		// mistaken for the begin or end of an object.
+		if (type == ArchiveEntryType::HASH) {
+			(void) read->read_uint();
+			type = static_cast<ArchiveEntryType>(read->read_ubyte());
+		}
+
+		switch (type) {
 		case ArchiveEntryType::STRING:
 		case ArchiveEntryType::RAW:
 		case ArchiveEntryType::RAW_FLOAT:
-- 
2.43.0


From 5ef14941e3c249c9505f9b42f9902965622ced18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:45 +0000
Subject: [PATCH 06/81] fix: decode the animation mode of packed VObs from its
 own bits

---
 src/vobs/VirtualObject.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vobs/VirtualObject.cc b/src/vobs/VirtualObject.cc
index 6c23fd2..3620273 100644
--- a/src/vobs/VirtualObject.cc
+++ b/src/vobs/VirtualObject.cc
@@ -106,7 +106,7 @@ namespace zenkit {
 			this->physics_enabled = static_cast<bool>((bit1 & 0b000000001000000u) >> 6u);
 
 			if (version == GameVersion::GOTHIC_2) {
-				this->anim_mode = static_cast<AnimationType>(bit1 & 0b000000110000000u >> 7u);
+				this->anim_mode = static_cast<AnimationType>((bit1 & 0b000000110000000u) >> 7u);
 				this->bias = static_cast<std::int32_t>((bit1 & 0b011111000000000u) >> 9u);
 				this->ambient = static_cast<bool>((bit1 & 0b100000000000000u) >> 14u);
 
-- 
2.43.0


From 2a613d532138285a2ff18b711850f9da2a6634b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:45 +0000
Subject: [PATCH 07/81] fix: store the animation mode and bias of packed VObs
 where they are loaded from

---
 src/vobs/VirtualObject.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vobs/VirtualObject.cc b/src/vobs/VirtualObject.cc
index 3620273..a8ad4da 100644
--- a/src/vobs/VirtualObject.cc
+++ b/src/vobs/VirtualObject.cc
@@ -239,8 +239,8 @@ namespace zenkit {
 			}
 
 			if (version == GameVersion::GOTHIC_2) {
-				bit1 |= (static_cast<uint8_t>(this->anim_mode) & 2) << 7u;
-				bit1 |= (static_cast<uint8_t>(this->bias) & 0b11111) << 13u;
+				bit1 |= (static_cast<uint8_t>(this->anim_mode) & 3) << 7u;
+				bit1 |= (static_cast<uint8_t>(this->bias) & 0b11111) << 9u;
 				bit1 |= this->ambient << 14u;
 
 				pw->write_ushort(bit1);
-- 
2.43.0


From 5170ae8acb08abab15e529fb413dc2738515fc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:45 +0000
Subject: [PATCH 08/81] fix: do not dereference the end iterator for visuals of
 unknown type

---
 src/vobs/VirtualObject.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vobs/VirtualObject.cc b/src/vobs/VirtualObject.cc
index a8ad4da..318f999 100644
--- a/src/vobs/VirtualObject.cc
+++ b/src/vobs/VirtualObject.cc
@@ -167,7 +167,7 @@ namespace zenkit {
 				}
 
 				this->visual->name = visual_name;
-				this->visual->type = it->second;
+				this->visual->type = this->associated_visual_type;
 				if (this->visual->type == VisualType::DECAL) {
 					this->visual_decal.emplace(*reinterpret_cast<VisualDecal*>(this->visual.get()));
 				}
-- 
2.43.0


From 0a49143a7eac3ef48a4dc95c3fa0a780507a74a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:45 +0000
Subject: [PATCH 09/81] fix: write the fields the loader expects when saving
 unpacked VObs

---
 src/vobs/VirtualObject.cc | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/vobs/VirtualObject.cc b/src/vobs/VirtualObject.cc
index 318f999..d8a85fe 100644
--- a/src/vobs/VirtualObject.cc
+++ b/src/vobs/VirtualObject.cc
@@ -258,7 +258,7 @@ namespace zenkit {
 			w.write_mat3x3("trafoOSToWSRot", this->rotation);
 			w.write_vec3("trafoOSToWSPos", this->position);
 			w.write_string("vobName", this->vob_name);
-			w.write_string("visual", this->visual_name);
+			w.write_string("visual", this->visual ? this->visual->name : this->visual_name);
 			w.write_bool("showVisual", this->show_visual);
 			w.write_enum("visualCamAlign", static_cast<int>(this->sprite_camera_facing_mode));
 
@@ -280,27 +280,32 @@ namespace zenkit {
 			}
 		}
 
-		if (!this->preset_name.empty()) {
-			w.write_string("presetName", this->preset_name);
-		}
+		if (pack) {
+			if (!this->preset_name.empty()) {
+				w.write_string("presetName", this->preset_name);
+			}
 
-		if (!this->vob_name.empty()) {
-			w.write_string("vobName", this->vob_name);
-		}
+			if (!this->vob_name.empty()) {
+				w.write_string("vobName", this->vob_name);
+			}
 
-		if (this->visual && !this->visual->name.empty()) {
-			w.write_string("visual", this->visual->name);
+			if (this->visual && !this->visual->name.empty()) {
+				w.write_string("visual", this->visual->name);
+			}
 		}
 
+		// In unpacked VObs, the visual and AI objects are always present.
 		if (this->visual && this->visual->type != VisualType::UNKNOWN) {
 			w.write_object("visual", this->visual, version);
+		} else if (!pack) {
+			w.write_object("visual", static_cast<Object const*>(nullptr), version);
 		}
 
-		if (this->ai) {
+		if (this->ai || !pack) {
 			w.write_object("ai", this->ai, version);
 		}
 
-		if (this->event_manager) {
+		if (this->event_manager && pack) {
 			w.write_object(this->event_manager, version);
 		}
 
-- 
2.43.0


From 85eadad926ceeba5cc4b5fc8dc002e4e2dd00ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:45 +0000
Subject: [PATCH 10/81] fix: only write the event manager of VObs to save-games

---
 src/vobs/VirtualObject.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vobs/VirtualObject.cc b/src/vobs/VirtualObject.cc
index d8a85fe..5c26c50 100644
--- a/src/vobs/VirtualObject.cc
+++ b/src/vobs/VirtualObject.cc
@@ -305,7 +305,7 @@ namespace zenkit {
 			w.write_object("ai", this->ai, version);
 		}
 
-		if (this->event_manager && pack) {
+		if (this->event_manager && pack && w.is_save_game()) {
 			w.write_object(this->event_manager, version);
 		}
 
-- 
2.43.0


From b3f8ef93a7d3c6dbad5e667219136d411b58fe6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:45 +0000
Subject: [PATCH 11/81] fix: transpose the original pose of camera keyframes
 when saving

---
 src/vobs/Camera.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vobs/Camera.cc b/src/vobs/Camera.cc
index 97c037c..7791245 100644
--- a/src/vobs/Camera.cc
+++ b/src/vobs/Camera.cc
@@ -44,9 +44,9 @@ namespace zenkit {
 		w.write_float("continuity", this->continuity);
 		w.write_float("timeScale", this->time_scale);
 		w.write_bool("timeIsFixed", this->time_fixed);
-		w.write_raw("originalPose",
-		            reinterpret_cast<std::byte const*>(this->original_pose.pointer()),
-		            4 * 4 * sizeof(float));
+
+		auto pose = this->original_pose.transpose();
+		w.write_raw("originalPose", reinterpret_cast<std::byte const*>(pose.pointer()), 4 * 4 * sizeof(float));
 	}
 
 	void VCutsceneCamera::parse(VCutsceneCamera& obj, ReadArchive& r, GameVersion version) {
-- 
2.43.0


From 2de127cc571cf37eebdcca00d92595958bfc636f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:45 +0000
Subject: [PATCH 12/81] fix: do not repeat the range animation in the color
 animation of lights

---
 src/vobs/Light.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vobs/Light.cc b/src/vobs/Light.cc
index 5183385..9b34b2d 100644
--- a/src/vobs/Light.cc
+++ b/src/vobs/Light.cc
@@ -101,7 +101,7 @@ namespace zenkit {
 			w.write_float("rangeAniFPS", this->range_animation_fps);
 			w.write_bool("rangeAniSmooth", this->range_animation_smooth);
 
-			os.clear();
+			os.str("");
 			for (auto& c : this->color_animation_list) {
 				os << "(" << static_cast<int>(c.r) << " " << static_cast<int>(c.g) << " " << static_cast<int>(c.b)
 				   << ") ";
-- 
2.43.0


From defe6ed29d14f07139af2c74f3459751c88aae0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:45 +0000
Subject: [PATCH 13/81] fix: split the packed inventory of Gothic 2 NPCs at
 semicolons

---
 src/vobs/Misc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vobs/Misc.cc b/src/vobs/Misc.cc
index c711191..96879ea 100644
--- a/src/vobs/Misc.cc
+++ b/src/vobs/Misc.cc
@@ -366,7 +366,7 @@ namespace zenkit {
 			do {
 				auto next = std::find(it, pack.end(), ';');
 				this->packed[idx++].assign(it, next);
-				it = next;
+				it = next == pack.end() ? next : next + 1;
 			} while (it != pack.end() && idx < 9);
 		}
 
-- 
2.43.0


From 29570c9eda6dad5a80bca7efac245c23ace44d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:45 +0000
Subject: [PATCH 14/81] fix: save the trigger state of code masters like it is
 loaded

---
 src/vobs/Misc.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/vobs/Misc.cc b/src/vobs/Misc.cc
index 96879ea..7c63274 100644
--- a/src/vobs/Misc.cc
+++ b/src/vobs/Misc.cc
@@ -161,7 +161,12 @@ namespace zenkit {
 		}
 
 		if (w.is_save_game() && version == GameVersion::GOTHIC_2) {
-			// FIXME: This is not implemented because its behavior is unknown.
+			w.write_byte("numSlavesTriggered", this->s_num_triggered_slaves);
+
+			for (auto i = 0u; i < (this->slaves.size() & 0xffu); ++i) {
+				// FIXME: Figure out how to save these correctly.
+				w.write_object("slaveTriggered" + std::to_string(i), static_cast<Object const*>(nullptr), version);
+			}
 		}
 	}
 
-- 
2.43.0


From fd39e9b09df8039431ef0370dcd3e805b6d9bb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:41 +0000
Subject: [PATCH 15/81] fix: compute the maximum of boxes which lie in the
 negative half-space

---
 src/Boxes.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Boxes.cc b/src/Boxes.cc
index 1e4433a..6d23ff4 100644
--- a/src/Boxes.cc
+++ b/src/Boxes.cc
@@ -57,9 +57,9 @@ namespace zenkit {
 		           std::numeric_limits<float>::max(),
 		           std::numeric_limits<float>::max()};
 
-		box.max = {std::numeric_limits<float>::min(),
-		           std::numeric_limits<float>::min(),
-		           std::numeric_limits<float>::min()};
+		box.max = {std::numeric_limits<float>::lowest(),
+		           std::numeric_limits<float>::lowest(),
+		           std::numeric_limits<float>::lowest()};
 
 		for (auto i : sign) {
 			auto point = center;
-- 
2.43.0


From a9ce03f17cc24335c0ed588ebb342bd365816e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:41 +0000
Subject: [PATCH 16/81] fix: write the alpha function of materials as the enum
 it is loaded as

---
 src/Material.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Material.cc b/src/Material.cc
index 35fd893..7b86d5e 100644
--- a/src/Material.cc
+++ b/src/Material.cc
@@ -116,7 +116,7 @@ namespace zenkit {
 			w.write_float("waveMaxAmplitude", this->wave_max_amplitude);
 			w.write_float("waveGridSize", this->wave_grid_size);
 			w.write_bool("ignoreSunLight", this->ignore_sun);
-			w.write_bool("alphaFunc", static_cast<bool>(this->alpha_func));
+			w.write_enum("alphaFunc", static_cast<uint32_t>(this->alpha_func));
 		}
 
 		w.write_vec2("defaultMapping", this->default_mapping);
-- 
2.43.0


From 481eab610fdee2f2863f0f1a19b00d3e531ba724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:41 +0000
Subject: [PATCH 17/81] fix: only return the cutscene block which has the
 requested name

---
 src/CutsceneLibrary.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CutsceneLibrary.cc b/src/CutsceneLibrary.cc
index 49bd4cd..1e3043d 100644
--- a/src/CutsceneLibrary.cc
+++ b/src/CutsceneLibrary.cc
@@ -109,7 +109,7 @@ namespace zenkit {
 			return it->name < n;
 		});
 
-		if (result == this->blocks.end()) {
+		if (result == this->blocks.end() || (*result)->name != name) {
 			return nullptr;
 		}
 
-- 
2.43.0


From b710bc16e367080c4e05bdf50312f7789c909a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:41 +0000
Subject: [PATCH 18/81] fix: give the unnamed objects of worlds a class name
 which can be read back

---
 src/World.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/World.cc b/src/World.cc
index 90c30e6..e6445e7 100644
--- a/src/World.cc
+++ b/src/World.cc
@@ -175,7 +175,7 @@ namespace zenkit {
 
 	void World::save(WriteArchive& w, GameVersion version) const {
 		if (!w.is_save_game()) {
-			w.write_object_begin("MeshAndBsp", "", 0);
+			w.write_object_begin("MeshAndBsp", "%", 0);
 
 			Write* raw = w.get_stream();
 			raw->write_uint(version == GameVersion::GOTHIC_1 ? 0x2090000 : 0x4090000);
@@ -194,7 +194,7 @@ namespace zenkit {
 			w.write_object_end();
 		}
 
-		w.write_object_begin("VobTree", "", 0);
+		w.write_object_begin("VobTree", "%", 0);
 		w.write_int("childs0", this->world_vobs.size());
 		for (auto& root : this->world_vobs) {
 			save_vob_tree(w, version, root);
@@ -203,23 +203,23 @@ namespace zenkit {
 
 		if (w.is_save_game()) {
 			if (this->player) {
-				w.write_object_begin("CutscenePlayer", "", 0);
+				w.write_object_begin("CutscenePlayer", "%", 0);
 				w.write_object(this->player, version);
 				w.write_object_end();
 			}
 
 			if (this->sky_controller) {
-				w.write_object_begin("SkyCtrl", "", 0);
+				w.write_object_begin("SkyCtrl", "%", 0);
 				w.write_object(this->sky_controller, version);
 				w.write_object_end();
 			}
 		}
 
-		w.write_object_begin("WayNet", "", 0);
+		w.write_object_begin("WayNet", "%", 0);
 		w.write_object(this->way_net, version);
 		w.write_object_end();
 
-		w.write_object_begin("EndMarker", "", 0);
+		w.write_object_begin("EndMarker", "%", 0);
 		w.write_object_end();
 
 		if (w.is_save_game()) {
-- 
2.43.0


From d8a5098cd6b6cc8ae2566734990fa71ec944ff74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:41 +0000
Subject: [PATCH 19/81] fix: write the NPC spawn flags of worlds as the integer
 they are loaded as

---
 src/World.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/World.cc b/src/World.cc
index e6445e7..057e1ac 100644
--- a/src/World.cc
+++ b/src/World.cc
@@ -241,7 +241,7 @@ namespace zenkit {
 			w.write_bool("spawningEnabled", this->npc_spawn_enabled);
 
 			if (version == GameVersion::GOTHIC_2) {
-				w.write_bool("spawnFlags", this->npc_spawn_flags);
+				w.write_int("spawnFlags", this->npc_spawn_flags);
 			}
 		}
 	}
-- 
2.43.0


From 1c62da974ece7d54364941d705e9a20521cd45c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:41 +0000
Subject: [PATCH 20/81] fix: do not announce a missing rigid body in Gothic 1
 save-games

---
 src/vobs/VirtualObject.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vobs/VirtualObject.cc b/src/vobs/VirtualObject.cc
index 5c26c50..3e48340 100644
--- a/src/vobs/VirtualObject.cc
+++ b/src/vobs/VirtualObject.cc
@@ -231,8 +231,8 @@ namespace zenkit {
 			bit1 |= (!!this->ai) << 4u;
 			bit1 |= (!!this->event_manager) << 5u;
 
-			// Gothic 1 does not store rigid-body information.
-			if (version == GameVersion::GOTHIC_1) {
+			// Gothic 1 does not store rigid-body information outside of save-games.
+			if (version == GameVersion::GOTHIC_1 && !w.is_save_game()) {
 				bit1 |= this->physics_enabled << 6u;
 			} else {
 				bit1 |= (this->physics_enabled && this->rigid_body) << 6u;
-- 
2.43.0


From a55800ddf8a4a1dc6d6b1127d62567779f65745b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:41 +0000
Subject: [PATCH 21/81] fix: store the number of elements in each sub-mesh
 section instead of its size in bytes

---
 src/MultiResolutionMesh.cc | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/MultiResolutionMesh.cc b/src/MultiResolutionMesh.cc
index e3bed8c..7681ff5 100644
--- a/src/MultiResolutionMesh.cc
+++ b/src/MultiResolutionMesh.cc
@@ -274,7 +274,7 @@ namespace zenkit {
 			w->write_ushort(tri.wedges[1]);
 			w->write_ushort(tri.wedges[2]);
 		}
-		section.triangles.size = w->tell() - section.triangles.offset;
+		section.triangles.size = this->triangles.size();
 
 		// wedges
 		section.wedges.offset = w->tell();
@@ -284,21 +284,21 @@ namespace zenkit {
 			w->write_ushort(wedge.index);
 			w->write_ushort(0); // padding
 		}
-		section.wedges.size = w->tell() - section.wedges.offset;
+		section.wedges.size = this->wedges.size();
 
 		// colors
 		section.colors.offset = w->tell();
 		for (auto color : this->colors) {
 			w->write_float(color);
 		}
-		section.colors.size = w->tell() - section.colors.offset;
+		section.colors.size = this->colors.size();
 
 		// triangle_plane_indices
 		section.triangle_plane_indices.offset = w->tell();
 		for (auto i : this->triangle_plane_indices) {
 			w->write_ushort(i);
 		}
-		section.triangle_plane_indices.size = w->tell() - section.triangle_plane_indices.offset;
+		section.triangle_plane_indices.size = this->triangle_plane_indices.size();
 
 		// triangle_planes
 		section.triangle_planes.offset = w->tell();
@@ -306,7 +306,7 @@ namespace zenkit {
 			w->write_float(plane.distance);
 			w->write_vec3(plane.normal);
 		}
-		section.triangle_planes.size = w->tell() - section.triangle_planes.offset;
+		section.triangle_planes.size = this->triangle_planes.size();
 
 		// triangle_edges
 		section.triangle_edges.offset = w->tell();
@@ -315,7 +315,7 @@ namespace zenkit {
 			w->write_ushort(edge.edges[1]);
 			w->write_ushort(edge.edges[2]);
 		}
-		section.triangle_edges.size = w->tell() - section.triangle_edges.offset;
+		section.triangle_edges.size = this->triangle_edges.size();
 
 		// edges
 		section.edges.offset = w->tell();
@@ -323,21 +323,21 @@ namespace zenkit {
 			w->write_ushort(edge.edges[0]);
 			w->write_ushort(edge.edges[1]);
 		}
-		section.edges.size = w->tell() - section.edges.offset;
+		section.edges.size = this->edges.size();
 
 		// edge_scores
 		section.edge_scores.offset = w->tell();
 		for (auto score : edge_scores) {
 			w->write_float(score);
 		}
-		section.edge_scores.size = w->tell() - section.edge_scores.offset;
+		section.edge_scores.size = this->edge_scores.size();
 
 		// wedge_map
 		section.wedge_map.offset = w->tell();
 		for (auto wedge : this->wedge_map) {
 			w->write_ushort(wedge);
 		}
-		section.wedge_map.size = w->tell() - section.wedge_map.offset;
+		section.wedge_map.size = this->wedge_map.size();
 
 		return section;
 	}
-- 
2.43.0


From f1d094438b40e4665e87eba57cdc59cbeb0767c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:41 +0000
Subject: [PATCH 22/81] fix: do not count the size field as part of the
 multi-resolution mesh content

---
 src/MultiResolutionMesh.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MultiResolutionMesh.cc b/src/MultiResolutionMesh.cc
index 7681ff5..2d9018e 100644
--- a/src/MultiResolutionMesh.cc
+++ b/src/MultiResolutionMesh.cc
@@ -129,7 +129,7 @@ namespace zenkit {
 
 		auto off_end = static_cast<ssize_t>(w->tell());
 		w->seek(off_size, Whence::BEG);
-		w->write_uint(off_end - off_size);
+		w->write_uint(off_end - static_cast<ssize_t>(off_content));
 		w->seek(off_end, Whence::BEG);
 
 		w->write_ubyte(this->sub_meshes.size());    // submeshCount
-- 
2.43.0


From f803a056f0fb99ba11389f73e27f177cc143afe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:41 +0000
Subject: [PATCH 23/81] fix: write as much padding after multi-resolution
 meshes as is skipped when loading

---
 src/MultiResolutionMesh.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MultiResolutionMesh.cc b/src/MultiResolutionMesh.cc
index 2d9018e..f5ef6c1 100644
--- a/src/MultiResolutionMesh.cc
+++ b/src/MultiResolutionMesh.cc
@@ -184,8 +184,8 @@ namespace zenkit {
 		this->bbox.save(w);
 		this->obbox.save(w);
 
-		char padding[10] {0};
-		w->write(padding, 10);
+		char padding[0x10] {0};
+		w->write(padding, sizeof padding);
 	}
 
 	void SubMesh::load(Read* r, SubMeshSection const& map) {
-- 
2.43.0


From c3a339ed499c6dba47fe0f98f7d1129367e430d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:41 +0000
Subject: [PATCH 24/81] fix: write the weights of soft-skin meshes into the
 chunk they are loaded from

---
 src/SoftSkinMesh.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SoftSkinMesh.cc b/src/SoftSkinMesh.cc
index 8612179..382e470 100644
--- a/src/SoftSkinMesh.cc
+++ b/src/SoftSkinMesh.cc
@@ -88,7 +88,7 @@ namespace zenkit {
 			this->mesh.save_to_section(wr, version);
 		});
 
-		proto::write_chunk(w, SoftSkinMeshChunkType::HEADER, [&](Write* wr) {
+		proto::write_chunk(w, SoftSkinMeshChunkType::NODES, [&](Write* wr) {
 			auto off_size = static_cast<ssize_t>(wr->tell());
 			wr->write_uint(0);
 
-- 
2.43.0


From 919a2543e4da82ac02635664a7a3ac9f829f3fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:41 +0000
Subject: [PATCH 25/81] fix: do not count the size field as part of the
 soft-skin weights

---
 src/SoftSkinMesh.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SoftSkinMesh.cc b/src/SoftSkinMesh.cc
index 382e470..80684ca 100644
--- a/src/SoftSkinMesh.cc
+++ b/src/SoftSkinMesh.cc
@@ -104,7 +104,7 @@ namespace zenkit {
 
 			auto off_end = static_cast<ssize_t>(wr->tell());
 			wr->seek(off_size, Whence::BEG);
-			wr->write_uint(off_end - off_size);
+			wr->write_uint(off_end - off_size - static_cast<ssize_t>(sizeof(uint32_t)));
 			wr->seek(off_end, Whence::BEG);
 
 			wr->write_uint(this->wedge_normals.size());
-- 
2.43.0


From 11f188c47bed22100295496d88b131ab41988732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:41 +0000
Subject: [PATCH 26/81] fix: write each attachment of a model mesh into its own
 chunk

---
 src/ModelMesh.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/ModelMesh.cc b/src/ModelMesh.cc
index 47122c7..c5ca4b5 100644
--- a/src/ModelMesh.cc
+++ b/src/ModelMesh.cc
@@ -90,11 +90,12 @@ namespace zenkit {
 			}
 		});
 
-		proto::write_chunk(w, ModelMeshChunkType::PROTO, [&](Write* wr) {
-			for (auto& [_, v] : this->attachments) {
-				v.save_to_section(wr, version);
-			}
-		});
+		for (auto& [_, v] : this->attachments) {
+			auto& attachment = v;
+			proto::write_chunk(w, ModelMeshChunkType::PROTO, [&](Write* wr) {
+				attachment.save_to_section(wr, version);
+			});
+		}
 
 		proto::write_chunk(w, ModelMeshChunkType::SOFTSKINS, [&](Write* wr) {
 			wr->write_uint(this->checksum);
-- 
2.43.0


From 78dd8d8219101c352ba12e44ef7d2b5a84f95e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:41 +0000
Subject: [PATCH 27/81] fix: write the number of soft-skin meshes of a model
 mesh

---
 src/ModelMesh.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ModelMesh.cc b/src/ModelMesh.cc
index c5ca4b5..0681810 100644
--- a/src/ModelMesh.cc
+++ b/src/ModelMesh.cc
@@ -99,6 +99,7 @@ namespace zenkit {
 
 		proto::write_chunk(w, ModelMeshChunkType::SOFTSKINS, [&](Write* wr) {
 			wr->write_uint(this->checksum);
+			wr->write_ushort(this->meshes.size());
 
 			for (auto& msh : this->meshes) {
 				msh.save(wr, version);
-- 
2.43.0


From a7e19e28a4ff7c17cd63fa98f438444ec3566695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:41 +0000
Subject: [PATCH 28/81] fix: save the polygon indices of Gothic 2 meshes the
 geometry refers to

---
 src/Mesh.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Mesh.cc b/src/Mesh.cc
index 0462c4a..db315ca 100644
--- a/src/Mesh.cc
+++ b/src/Mesh.cc
@@ -328,8 +328,8 @@ namespace zenkit {
 						c->write_ushort(this->polygon_vertex_indices[poly.index_offset + i]);
 						c->write_uint(this->polygon_feature_indices[poly.index_offset + i]);
 					} else {
-						c->write_uint(this->polygons.vertex_indices[poly.index_offset + i]);
-						c->write_uint(this->polygons.feature_indices[poly.index_offset + i]);
+						c->write_uint(this->polygon_vertex_indices[poly.index_offset + i]);
+						c->write_uint(this->polygon_feature_indices[poly.index_offset + i]);
 					}
 				}
 			}
-- 
2.43.0


From aa0e9d97c5e54ddd7f41b753adfd20b97ebf9b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:41 +0000
Subject: [PATCH 29/81] fix: store both bits of the normal axis of polygons

---
 src/Mesh.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Mesh.cc b/src/Mesh.cc
index db315ca..c162883 100644
--- a/src/Mesh.cc
+++ b/src/Mesh.cc
@@ -117,7 +117,7 @@ namespace zenkit {
 						    pflags.is_lod = (flags1 & 0b00010000) >> 4;
 						    pflags.is_outdoor = (flags1 & 0b00100000) >> 5;
 						    pflags.is_ghost_occluder = (flags1 & 0b01000000) >> 6;
-						    pflags.normal_axis = ((flags1 & 0b10000000) >> 7) | (flags2 & 0b00000001);
+						    pflags.normal_axis = ((flags1 & 0b10000000) >> 7) | ((flags2 & 0b00000001) << 1);
 						    pflags.sector_index = c->read_short();
 					    }
 
@@ -318,7 +318,7 @@ namespace zenkit {
 					               ((flags.is_sector & 1) << 3) | ((flags.is_lod & 1) << 4) |
 					               ((flags.is_outdoor & 1) << 5) | ((flags.is_ghost_occluder & 1) << 6) |
 					               ((flags.normal_axis & 1) << 7));
-					c->write_ubyte(flags.normal_axis & 2);
+					c->write_ubyte((flags.normal_axis & 2) >> 1);
 					c->write_short(flags.sector_index);
 				}
 
-- 
2.43.0


From 1ea81d25a6e8b959b522b88a040af4655e439592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:41 +0000
Subject: [PATCH 30/81] fix: do not mistake binary data for empty lines after
 the header of binary archives

---
 src/archive/ArchiveBinary.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/archive/ArchiveBinary.cc b/src/archive/ArchiveBinary.cc
index 6175abc..9584d94 100644
--- a/src/archive/ArchiveBinary.cc
+++ b/src/archive/ArchiveBinary.cc
@@ -22,9 +22,14 @@ namespace zenkit {
 			}
 		}
 
-		if (read->read_line_then_ignore("\n") != "END") {
+		if (read->read_line(false) != "END") {
 			throw ParserError {"ReadArchiveBinary", "second END missing"};
 		}
+
+		// The header is followed by at most one empty line, everything after that is binary data.
+		if (!read->eof() && read->read_char() != '\n') {
+			read->seek(-1, Whence::CUR);
+		}
 	}
 
 	bool ReadArchiveBinary::read_object_begin(ArchiveObject& obj) {
-- 
2.43.0


From 55c3073f89daea4c6c52923a924d0d1642906554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:09 +0000
Subject: [PATCH 31/81] fix: do not skip binary data behind the strings of
 animation events

---
 src/ModelAnimation.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ModelAnimation.cc b/src/ModelAnimation.cc
index 236727b..2f66b64 100644
--- a/src/ModelAnimation.cc
+++ b/src/ModelAnimation.cc
@@ -97,10 +97,10 @@ namespace zenkit {
 				for (auto& event : this->events) {
 					event.type = static_cast<AnimationEventType>(c->read_uint());
 					event.frame = c->read_uint();
-					event.tag = c->read_line(true);
+					event.tag = c->read_line(false);
 
 					for (auto& j : event.content) {
-						j = c->read_line(true);
+						j = c->read_line(false);
 					}
 
 					for (float& value : event.values) {
-- 
2.43.0


From 5fda30db7d4d2caa83a4a46489759e0e48a590ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:09 +0000
Subject: [PATCH 32/81] fix: do not skip binary data behind the source names of
 morph meshes

---
 src/MorphMesh.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MorphMesh.cc b/src/MorphMesh.cc
index 2e1e15a..fb1fec7 100644
--- a/src/MorphMesh.cc
+++ b/src/MorphMesh.cc
@@ -21,14 +21,14 @@ namespace zenkit {
 
 				for (auto i = 0u; i < count; ++i) {
 					this->sources[i].file_date.load(c);
-					this->sources[i].file_name = c->read_line(true);
+					this->sources[i].file_name = c->read_line(false);
 				}
 
 				break;
 			}
 			case MorphMeshChunkType::HEADER:
 				/* version = */ (void) c->read_uint();
-				this->name = c->read_line(true);
+				this->name = c->read_line(false);
 				break;
 			case MorphMeshChunkType::PROTO: {
 				this->mesh.load_from_section(c);
-- 
2.43.0


From 3b193ee8793a54a3704a2cceeab07890f75c11ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:09 +0000
Subject: [PATCH 33/81] fix: keep empty attachment names of model meshes apart

---
 src/ModelMesh.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ModelMesh.cc b/src/ModelMesh.cc
index 0681810..3d6aa23 100644
--- a/src/ModelMesh.cc
+++ b/src/ModelMesh.cc
@@ -39,7 +39,7 @@ namespace zenkit {
 				    auto node_count = c->read_ushort();
 
 				    for (std::uint32_t i = 0; i < node_count; ++i) {
-					    attachment_names.push_back(c->read_line(true));
+					    attachment_names.push_back(c->read_line(false));
 				    }
 				    break;
 			    }
-- 
2.43.0


From 8a528a784d15d75874c2b36fbb4c7602ea967135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:09 +0000
Subject: [PATCH 34/81] fix: convert all pixels of BGRA and ARGB textures to
 the right channels

---
 src/Texture.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/Texture.cc b/src/Texture.cc
index bc5106c..9b03be4 100644
--- a/src/Texture.cc
+++ b/src/Texture.cc
@@ -187,10 +187,10 @@ namespace zenkit {
 		case TextureFormat::B8G8R8A8:
 			conv.resize(width * height * 4);
 			for (auto i = 0u; i < width * height; ++i) {
-				conv[i + 0] = bytes[i + 2];
-				conv[i + 1] = bytes[i + 1];
-				conv[i + 2] = bytes[i + 0];
-				conv[i + 3] = bytes[i + 3];
+				conv[i * 4 + 0] = bytes[i * 4 + 2];
+				conv[i * 4 + 1] = bytes[i * 4 + 1];
+				conv[i * 4 + 2] = bytes[i * 4 + 0];
+				conv[i * 4 + 3] = bytes[i * 4 + 3];
 			}
 
 			break;
@@ -209,10 +209,10 @@ namespace zenkit {
 		case TextureFormat::A8R8G8B8:
 			conv.resize(width * height * 4);
 			for (auto i = 0u; i < width * height; ++i) {
-				conv[i * 4 + 0] = bytes[i * 4 + 1];
-				conv[i * 4 + 1] = bytes[i * 4 + 2];
-				conv[i * 4 + 2] = bytes[i * 4 + 3];
-				conv[i * 4 + 3] = bytes[i * 4 + 0];
+				conv[i * 4 + 0] = bytes[i * 4 + 3];
+				conv[i * 4 + 1] = bytes[i * 4 + 0];
+				conv[i * 4 + 2] = bytes[i * 4 + 1];
+				conv[i * 4 + 3] = bytes[i * 4 + 2];
 			}
 			break;
 		case TextureFormat::B8G8R8:
-- 
2.43.0


From 1f8eda98af98cafc196e91224fc4f78b141a4e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:10 +0000
Subject: [PATCH 35/81] fix: scale colors to the range and order of R5G6B5
 textures

---
 src/Texture.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/Texture.cc b/src/Texture.cc
index 9b03be4..a28e8bf 100644
--- a/src/Texture.cc
+++ b/src/Texture.cc
@@ -235,11 +235,10 @@ namespace zenkit {
 			conv.resize(width * height * 2);
 
 			for (std::uint32_t i = 0; i < width * height; ++i) {
-				r5g6b5 rgb {
-				    static_cast<uint8_t>(static_cast<double>(bytes[i * 4 + 0]) / (5. / 8.)),
-				    static_cast<uint8_t>(static_cast<double>(bytes[i * 4 + 1]) / (6. / 8.)),
-				    static_cast<uint8_t>(static_cast<double>(bytes[i * 4 + 2]) / (5. / 8.)),
-				};
+				r5g6b5 rgb {};
+				rgb.r = (bytes[i * 4 + 0] * 31 + 127) / 255;
+				rgb.g = (bytes[i * 4 + 1] * 63 + 127) / 255;
+				rgb.b = (bytes[i * 4 + 2] * 31 + 127) / 255;
 
 				memcpy(conv.data() + i * 2, &rgb, sizeof(rgb));
 			}
-- 
2.43.0


From 06931af692def8ea7c259b0926a1c27e806506b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:10 +0000
Subject: [PATCH 36/81] fix: allocate the blocks of DXT textures before
 compressing into them

---
 src/Texture.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Texture.cc b/src/Texture.cc
index a28e8bf..ae08e21 100644
--- a/src/Texture.cc
+++ b/src/Texture.cc
@@ -245,12 +245,15 @@ namespace zenkit {
 
 			break;
 		case TextureFormat::DXT1:
+			conv.resize(_ztex_mipmap_size(dest, width, height, 0));
 			squish::CompressImage(bytes, static_cast<int>(width), static_cast<int>(height), conv.data(), squish::kDxt1);
 			break;
 		case TextureFormat::DXT3:
+			conv.resize(_ztex_mipmap_size(dest, width, height, 0));
 			squish::CompressImage(bytes, static_cast<int>(width), static_cast<int>(height), conv.data(), squish::kDxt3);
 			break;
 		case TextureFormat::DXT5:
+			conv.resize(_ztex_mipmap_size(dest, width, height, 0));
 			squish::CompressImage(bytes, static_cast<int>(width), static_cast<int>(height), conv.data(), squish::kDxt5);
 			break;
 		default:
-- 
2.43.0


From f2c983509da75a58bff7605a65372857a75d2444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:10 +0000
Subject: [PATCH 37/81] fix: allocate the pixels of color-indexed textures
 before converting them

---
 src/Texture.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Texture.cc b/src/Texture.cc
index ae08e21..a121071 100644
--- a/src/Texture.cc
+++ b/src/Texture.cc
@@ -326,6 +326,8 @@ namespace zenkit {
 
 		if (_m_format == TextureFormat::P8) {
 			std::vector<std::uint8_t> conv;
+			conv.resize(width * height * 4);
+
 			for (auto i = 0u; i < width * height; ++i) {
 				auto palentry = _m_palette[map[i]];
 				conv[i * 4 + 0] = palentry.r;
-- 
2.43.0


From ed8626e5605389118c7f035f200a8a3f41b09fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:10 +0000
Subject: [PATCH 38/81] fix: never shrink a side of a mipmap below one pixel

---
 include/zenkit/Texture.hh | 5 +++--
 src/Texture.cc            | 6 +++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/zenkit/Texture.hh b/include/zenkit/Texture.hh
index 6b430b9..4e0acfa 100644
--- a/include/zenkit/Texture.hh
+++ b/include/zenkit/Texture.hh
@@ -4,6 +4,7 @@
 #include "zenkit/Error.hh"
 #include "zenkit/Library.hh"
 
+#include <algorithm>
 #include <array>
 #include <cstdint>
 #include <vector>
@@ -82,13 +83,13 @@ namespace zenkit {
 		/// \param level The mipmap level to use (beginning from 0).
 		/// \return The width in pixels of the given mipmap level.
 		[[nodiscard]] ZKAPI std::uint32_t mipmap_width(std::uint32_t level) const noexcept {
-			return _m_width >> level;
+			return std::max(1u, _m_width >> level);
 		}
 
 		/// \param level The mipmap level to use (beginning from 0).
 		/// \return The height in pixels of the given mipmap level.
 		[[nodiscard]] ZKAPI std::uint32_t mipmap_height(std::uint32_t level) const noexcept {
-			return _m_height >> level;
+			return std::max(1u, _m_height >> level);
 		}
 
 		/// \return The width of the texture in-engine.
diff --git a/src/Texture.cc b/src/Texture.cc
index a121071..607dd30 100644
--- a/src/Texture.cc
+++ b/src/Texture.cc
@@ -394,7 +394,11 @@ namespace zenkit {
 
 		for (auto i = 0u; i < _m_mipmaps.size(); ++i) {
 			auto& [data, fmt] = _m_mipmaps[i];
-			tex._m_textures.push_back(_ztex_convert_format(data.data(), _m_width >> i, _m_height >> i, fmt, format));
+			tex._m_textures.push_back(_ztex_convert_format(data.data(),
+			                                                std::max(1u, _m_width >> i),
+			                                                std::max(1u, _m_height >> i),
+			                                                fmt,
+			                                                format));
 		}
 
 		return tex;
-- 
2.43.0


From 4affbba671b4a851b197b594e064f181c31d921d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:10 +0000
Subject: [PATCH 39/81] fix: store the mipmaps of built textures from the
 smallest to the largest

---
 src/Texture.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Texture.cc b/src/Texture.cc
index 607dd30..4d6fc87 100644
--- a/src/Texture.cc
+++ b/src/Texture.cc
@@ -392,7 +392,8 @@ namespace zenkit {
 		tex._m_mipmap_count = _m_mipmaps.size();
 		tex._m_average_color = {}; // FIXME(lmichaelis): Calculate the average color
 
-		for (auto i = 0u; i < _m_mipmaps.size(); ++i) {
+		// Quirk: largest mipmap (level 0) stored at the end of the vector
+		for (auto i = _m_mipmaps.size(); i-- > 0;) {
 			auto& [data, fmt] = _m_mipmaps[i];
 			tex._m_textures.push_back(_ztex_convert_format(data.data(),
 			                                                std::max(1u, _m_width >> i),
-- 
2.43.0


From 94aeb595210e4f9f5a3be16b3b9935d933f273af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:10 +0000
Subject: [PATCH 40/81] fix: decode full intensity of R5G6B5 textures as full
 intensity

---
 src/Texture.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Texture.cc b/src/Texture.cc
index 4d6fc87..eb4f955 100644
--- a/src/Texture.cc
+++ b/src/Texture.cc
@@ -153,9 +153,9 @@ namespace zenkit {
 		case TextureFormat::R5G6B5: {
 			for (auto i = 0u; i < width * height; ++i) {
 				auto* rgb = reinterpret_cast<r5g6b5 const*>(&bytes[i * 2]);
-				conv[i * 4 + 0] = static_cast<uint8_t>(static_cast<float>(rgb->r) * 8.225806452f);
-				conv[i * 4 + 1] = static_cast<uint8_t>(static_cast<float>(rgb->g) * 4.047619048f);
-				conv[i * 4 + 2] = static_cast<uint8_t>(static_cast<float>(rgb->b) * 8.225806452f);
+				conv[i * 4 + 0] = static_cast<uint8_t>(rgb->r * 255 / 31);
+				conv[i * 4 + 1] = static_cast<uint8_t>(rgb->g * 255 / 63);
+				conv[i * 4 + 2] = static_cast<uint8_t>(rgb->b * 255 / 31);
 				conv[i * 4 + 3] = 0xff;
 			}
 
-- 
2.43.0


From df32d3e0a64123663dbaefe7279bc665324856d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:10 +0000
Subject: [PATCH 41/81] fix: do not find children of files in the virtual file
 system

---
 src/Vfs.cc | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/Vfs.cc b/src/Vfs.cc
index 690a702..05a540f 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -87,20 +87,22 @@ namespace zenkit {
 	}
 
 	VfsNode const* VfsNode::child(std::string_view name) const {
-		auto& children = std::get<ChildContainer>(_m_data);
+		auto* children = std::get_if<ChildContainer>(&_m_data);
+		if (children == nullptr) return nullptr;
 
 		name = trim_trailing_whitespace(name);
-		auto it = children.find(name);
-		if (it == children.end() || !iequals(it->name(), name)) return nullptr;
+		auto it = children->find(name);
+		if (it == children->end() || !iequals(it->name(), name)) return nullptr;
 		return &*it;
 	}
 
 	VfsNode* VfsNode::child(std::string_view name) {
-		auto& children = std::get<ChildContainer>(_m_data);
+		auto* children = std::get_if<ChildContainer>(&_m_data);
+		if (children == nullptr) return nullptr;
 
 		name = trim_trailing_whitespace(name);
-		auto it = children.find(name);
-		if (it == children.end() || !iequals(it->name(), name)) return nullptr;
+		auto it = children->find(name);
+		if (it == children->end() || !iequals(it->name(), name)) return nullptr;
 		return const_cast<VfsNode*>(&*it);
 	}
 
@@ -113,13 +115,14 @@ namespace zenkit {
 	}
 
 	bool VfsNode::remove(std::string_view name) {
-		auto& children = std::get<ChildContainer>(_m_data);
+		auto* children = std::get_if<ChildContainer>(&_m_data);
+		if (children == nullptr) return false;
 
 		name = trim_trailing_whitespace(name);
-		auto it = children.find(name);
-		if (it == children.end() || !iequals(it->name(), name)) return false;
+		auto it = children->find(name);
+		if (it == children->end() || !iequals(it->name(), name)) return false;
 
-		children.erase(it);
+		children->erase(it);
 		return true;
 	}
 
-- 
2.43.0


From 89b13c692ab7d84e16cbcaaa790d5b3fd2e1682d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:10 +0000
Subject: [PATCH 42/81] fix: make nodes with trailing whitespace in their name
 reachable

---
 src/Vfs.cc | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/Vfs.cc b/src/Vfs.cc
index 05a540f..5545364 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -69,23 +69,24 @@ namespace zenkit {
 		return icompare(a, b.name());
 	}
 
-	VfsNode::VfsNode(std::string_view name, time_t ts) : _m_name(name), _m_time(ts), _m_data(ChildContainer {}) {}
-
-	VfsNode::VfsNode(std::string_view name, VfsFileDescriptor dev, time_t ts)
-	    : _m_name(name), _m_time(ts), _m_data(dev) {}
-
-	VfsNode::ChildContainer const& VfsNode::children() const {
-		return std::get<ChildContainer>(_m_data);
-	}
-
 	std::string_view trim_trailing_whitespace(std::string_view s) {
-		while (!s.empty() && std::isspace(s.back())) {
+		while (!s.empty() && std::isspace(static_cast<unsigned char>(s.back()))) {
 			s = s.substr(0, s.size() - 1);
 		}
 
 		return s;
 	}
 
+	VfsNode::VfsNode(std::string_view name, time_t ts)
+	    : _m_name(trim_trailing_whitespace(name)), _m_time(ts), _m_data(ChildContainer {}) {}
+
+	VfsNode::VfsNode(std::string_view name, VfsFileDescriptor dev, time_t ts)
+	    : _m_name(trim_trailing_whitespace(name)), _m_time(ts), _m_data(dev) {}
+
+	VfsNode::ChildContainer const& VfsNode::children() const {
+		return std::get<ChildContainer>(_m_data);
+	}
+
 	VfsNode const* VfsNode::child(std::string_view name) const {
 		auto* children = std::get_if<ChildContainer>(&_m_data);
 		if (children == nullptr) return nullptr;
-- 
2.43.0


From ffc6ecc785c6c82c5553c7177dac6d837f8d396a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:10 +0000
Subject: [PATCH 43/81] fix: remove directories by paths which end in a slash

---
 src/Vfs.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Vfs.cc b/src/Vfs.cc
index 5545364..f2b4810 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -532,6 +532,10 @@ namespace zenkit {
 	}
 
 	bool Vfs::remove(std::string_view path) {
+		while (!path.empty() && path.back() == '/') {
+			path.remove_suffix(1);
+		}
+
 		auto lastSlash = path.rfind('/');
 		auto parentPath = path.substr(0, lastSlash == std::string_view::npos ? 0 : lastSlash);
 		auto childName = path.substr(lastSlash + 1);
-- 
2.43.0


From 592f53668d3e7d73ef2d9f76253cf9b6da97f81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:10 +0000
Subject: [PATCH 44/81] fix: keep file contents alive when file descriptors are
 assigned

---
 include/zenkit/Vfs.hh |  1 +
 src/Vfs.cc            | 10 ++++++++++
 2 files changed, 11 insertions(+)

diff --git a/include/zenkit/Vfs.hh b/include/zenkit/Vfs.hh
index 2d326eb..8e5d133 100644
--- a/include/zenkit/Vfs.hh
+++ b/include/zenkit/Vfs.hh
@@ -44,6 +44,7 @@ namespace zenkit {
 
 		VfsFileDescriptor(std::byte const* mem, size_t len, bool del, bool zipped = false, size_t raw_size = 0);
 		VfsFileDescriptor(VfsFileDescriptor const& cpy);
+		VfsFileDescriptor& operator=(VfsFileDescriptor const& cpy);
 		~VfsFileDescriptor() noexcept;
 
 	private:
diff --git a/src/Vfs.cc b/src/Vfs.cc
index f2b4810..de5d9d9 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -47,6 +47,16 @@ namespace zenkit {
 		*this->refcnt += 1;
 	}
 
+	VfsFileDescriptor& VfsFileDescriptor::operator=(VfsFileDescriptor const& cpy) {
+		VfsFileDescriptor tmp {cpy};
+		std::swap(this->memory, tmp.memory);
+		std::swap(this->size, tmp.size);
+		std::swap(this->raw_size, tmp.raw_size);
+		std::swap(this->zipped, tmp.zipped);
+		std::swap(this->refcnt, tmp.refcnt);
+		return *this;
+	}
+
 	VfsFileDescriptor::~VfsFileDescriptor() noexcept {
 		if (this->refcnt == nullptr) return;
 		*this->refcnt -= 1;
-- 
2.43.0


From cedd6e45a867759e42ee815a5ec8dbe60182cec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:10 +0000
Subject: [PATCH 45/81] fix: keep the buffer of disks alive when mounting them
 fails halfway

---
 src/Vfs.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/Vfs.cc b/src/Vfs.cc
index de5d9d9..9538bea 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -450,11 +450,10 @@ namespace zenkit {
 		auto size = buf->tell();
 		buf->seek(0, Whence::BEG);
 
-		auto mem = std::make_unique<std::byte[]>(size);
+		auto& mem = _m_data.emplace_back(std::make_unique<std::byte[]>(size));
 		buf->read(mem.get(), size);
 
 		this->mount_disk(mem.get(), size, overwrite);
-		_m_data.push_back(std::move(mem));
 	}
 
 	VfsNode const& Vfs::root() const noexcept {
-- 
2.43.0


From 32d106026523e004ed056123c1c80602890d0e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:10 +0000
Subject: [PATCH 46/81] fix: do not save directories which contain no files to
 VDF disks

---
 src/Vfs.cc | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/Vfs.cc b/src/Vfs.cc
index 9538bea..a737be1 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -236,12 +236,18 @@ namespace zenkit {
 		return const_cast<VfsNode*>(const_cast<Vfs const*>(this)->find(name));
 	}
 
+	/// VDF catalogs can't represent empty directories since every directory must have a last entry.
+	static bool is_storable(VfsNode const& node) {
+		if (node.type() == VfsNodeType::FILE) return true;
+		return std::any_of(node.children().begin(), node.children().end(), is_storable);
+	}
+
 	static uint32_t count_nodes(VfsNode const* node) {
 		uint32_t count = 1; /* self */
 
 		if (node->type() == VfsNodeType::DIRECTORY) {
 			for (auto& child : node->children()) {
-				count += count_nodes(&child);
+				if (is_storable(child)) count += count_nodes(&child);
 			}
 		}
 
@@ -339,8 +345,12 @@ namespace zenkit {
 		std::function<void(VfsNode const*)> write_node = [&](VfsNode const* node) {
 			unsigned i = 0;
 			std::vector<std::pair<uint32_t, VfsNode const*>> dirs;
+			auto count = static_cast<unsigned>(
+			    std::count_if(node->children().begin(), node->children().end(), is_storable));
 
 			for (auto& child : node->children()) {
+				if (!is_storable(child)) continue;
+
 				name = child.name();
 				name.resize(64, '\x20');
 
@@ -357,7 +367,7 @@ namespace zenkit {
 
 					write_catalog->write_uint(w->tell()); // Offset
 					write_catalog->write_uint(sz);        // Size (always uncompressed)
-					write_catalog->write_uint(i + 1 == node->children().size() ? 0x40000000 : 0); // Type
+					write_catalog->write_uint(i + 1 == count ? 0x40000000 : 0); // Type
 
 #ifdef _ZK_WITH_ZIPPED_VDF
 					if (compressed && !vfs_is_wave_file(child.name())) {
@@ -372,9 +382,9 @@ namespace zenkit {
 					files += 1;
 				} else {
 					dirs.emplace_back(write_catalog->tell(), &child);
-					write_catalog->write_uint(0);                                                          // Offset
-					write_catalog->write_uint(0);                                                          // Size
-					write_catalog->write_uint(i + 1 == node->children().size() ? 0xC0000000 : 0x80000000); // Type
+					write_catalog->write_uint(0);                                        // Offset
+					write_catalog->write_uint(0);                                        // Size
+					write_catalog->write_uint(i + 1 == count ? 0xC0000000 : 0x80000000); // Type
 				}
 
 				write_catalog->write_uint(0); // Attributes
-- 
2.43.0


From d93501f1028f6db5168c2ecc8f03a2dc5b6f73e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:10 +0000
Subject: [PATCH 47/81] fix: reject disks with a broken catalog instead of
 looping forever

---
 src/Vfs.cc | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/Vfs.cc b/src/Vfs.cc
index a737be1..f840622 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -651,8 +651,19 @@ namespace zenkit {
 			catalog_offset = r->tell();
 		}
 
-		std::function<bool(VfsNode*)> load_entry =
-		    [&load_entry, overwrite, catalog_offset, timestamp, zipped, &r, buf, size](VfsNode* parent) {
+		// An empty disk does not have a catalog.
+		if (entry_count == 0 && catalog_offset >= size) return;
+
+		if (catalog_offset > size) throw VfsBrokenDiskError {"broken catalog"};
+
+		auto max_depth = size / 80;
+		std::function<bool(VfsNode*, std::size_t)> load_entry =
+		    [&load_entry, overwrite, catalog_offset, timestamp, zipped, max_depth, &r, buf, size](VfsNode* parent,
+		                                                                                       std::size_t depth) {
+			    if (r->tell() + 80 > size || depth > max_depth) {
+				    throw VfsBrokenDiskError {"broken catalog"};
+			    }
+
 			    auto e_name = r->read_string(64);
 			    auto e_offset = r->read_uint();
 			    auto e_size = r->read_uint();
@@ -708,8 +719,11 @@ namespace zenkit {
 				    }
 
 				    auto self_offset = r->tell();
-				    r->seek(catalog_offset + e_offset * 80, Whence::BEG);
-				    while (!load_entry(existing))
+				    auto child_offset = catalog_offset + static_cast<std::uint64_t>(e_offset) * 80;
+				    if (child_offset > size) throw VfsBrokenDiskError {"broken catalog"};
+
+				    r->seek(static_cast<ssize_t>(child_offset), Whence::BEG);
+				    while (!load_entry(existing, depth + 1))
 					    ;
 				    r->seek(static_cast<ssize_t>(self_offset), Whence::BEG);
 			    } else {
@@ -755,7 +769,7 @@ namespace zenkit {
 		    };
 
 		r->seek(catalog_offset, Whence::BEG);
-		while (!load_entry(&_m_root))
+		while (!load_entry(&_m_root, 0))
 			;
 	}
 } // namespace zenkit
-- 
2.43.0


From 18137a2e2e757347ded96907c963945779ca2a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:10 +0000
Subject: [PATCH 48/81] fix: ignore files whose extent overflows the size of
 the disk

---
 src/Vfs.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Vfs.cc b/src/Vfs.cc
index f840622..dacaab7 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -730,7 +730,7 @@ namespace zenkit {
 				    // For zipped VDFs, entry.Size is the uncompressed size; the actual
 				    // compressed data at e_offset is smaller. Only check offset validity.
 				    // For normal VDFs, the full extent must fit within the archive.
-				    if (zipped ? (e_offset >= size) : (e_offset + e_size > size)) {
+				    if (zipped ? (e_offset >= size) : (static_cast<std::uint64_t>(e_offset) + e_size > size)) {
 					    return last;
 				    }
 
-- 
2.43.0


From b73b14f14da2659db77d5737fff241c1ffa46538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:10 +0000
Subject: [PATCH 49/81] fix: read the time of disks as UTC like it is written

---
 src/Vfs.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Vfs.cc b/src/Vfs.cc
index dacaab7..2aaf089 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -452,7 +452,11 @@ namespace zenkit {
 		t.tm_min = static_cast<int32_t>((dos >> 5) & 0x3F);
 		t.tm_sec = static_cast<int32_t>((dos >> 0) & 0x1F) * 2;
 
-		return mktime(&t);
+#ifdef _WIN32
+		return _mkgmtime(&t);
+#else
+		return timegm(&t);
+#endif
 	}
 
 	void Vfs::mount_disk(Read* buf, VfsOverwriteBehavior overwrite) {
-- 
2.43.0


From 29b7660adb536f0574ac72dc5b87b4bcf7bac13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:31 +0000
Subject: [PATCH 50/81] fix: script division of the smallest integer by -1
 wraps instead of trapping

---
 src/DaedalusVm.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index 0b4420e..ae91f84 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -151,7 +151,7 @@ namespace zenkit {
 
 				if (b == 0) throw DaedalusVmException {"vm: division by zero"};
 
-				push_int(a / b);
+				push_int(static_cast<std::int32_t>(static_cast<std::int64_t>(a) / b));
 				break;
 			case DaedalusOpcode::MOD:
 				a = pop_int();
@@ -159,7 +159,7 @@ namespace zenkit {
 
 				if (b == 0) throw DaedalusVmException {"vm: division by zero"};
 
-				push_int(a % b);
+				push_int(static_cast<std::int32_t>(static_cast<std::int64_t>(a) % b));
 				break;
 			case DaedalusOpcode::OR:
 				push_int(pop_int() | pop_int());
@@ -384,8 +384,8 @@ namespace zenkit {
 
 				if (!ref->is_member() || context != nullptr ||
 				    !(_m_flags & DaedalusVmExecutionFlag::ALLOW_NULL_INSTANCE_ACCESS)) {
-					auto result = ref->get_int(idx, context.get()) / value;
-					ref->set_int(result, idx, context.get());
+					auto result = static_cast<std::int64_t>(ref->get_int(idx, context.get())) / value;
+					ref->set_int(static_cast<std::int32_t>(result), idx, context.get());
 				} else if (ref->is_member()) {
 					ZKLOGE("DaedalusVm", "Accessing member \"%s\" without an instance set", ref->name().c_str());
 				}
-- 
2.43.0


From 99cb1bc1194108cf51d53413dfb49242a27cd380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:31 +0000
Subject: [PATCH 51/81] fix: script shifts by 32 or more use the low five bits
 of the count

---
 src/DaedalusVm.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index ae91f84..bc4602d 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -180,12 +180,12 @@ namespace zenkit {
 			case DaedalusOpcode::LSL:
 				a = pop_int();
 				b = pop_int();
-				push_int(a << b);
+				push_int(a << (b & 31));
 				break;
 			case DaedalusOpcode::LSR:
 				a = pop_int();
 				b = pop_int();
-				push_int(a >> b);
+				push_int(a >> (b & 31));
 				break;
 			case DaedalusOpcode::LTE:
 				a = pop_int();
-- 
2.43.0


From c6c327de7430ac9b8ba4d76e19a08551c38a8df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:23 +0000
Subject: [PATCH 52/81] fix: local variables at the end of the symbol table
 belong to their function too

---
 src/DaedalusScript.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/DaedalusScript.cc b/src/DaedalusScript.cc
index f40ae33..8c66ac4 100644
--- a/src/DaedalusScript.cc
+++ b/src/DaedalusScript.cc
@@ -199,15 +199,16 @@ namespace zenkit {
 
 	std::span<DaedalusSymbol> DaedalusScript::find_locals_for_function(DaedalusSymbol const* parent) {
 		std::uint32_t const first = parent->index() + 1 + parent->count();
-		for (size_t i = first; i < _m_symbols.size(); ++i) {
-			auto& name = _m_symbols[i].name();
+		size_t last = first;
+		for (; last < _m_symbols.size(); ++last) {
+			auto& name = _m_symbols[last].name();
 			if (name.find(parent->name()) == 0 && name.size() >= parent->name().size() &&
 			    name[parent->name().size()] == '.') {
 				continue;
 			}
-			return std::span<DaedalusSymbol>(_m_symbols.begin() + first, _m_symbols.begin() + i);
+			break;
 		}
-		return {};
+		return std::span<DaedalusSymbol>(_m_symbols.begin() + first, _m_symbols.begin() + last);
 	}
 
 	std::span<DaedalusSymbol const> DaedalusScript::find_parameters_for_function(DaedalusSymbol const* parent) const {
-- 
2.43.0


From 346ddbf2f52ec09467e776752dc6de1f8993f9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:23 +0000
Subject: [PATCH 53/81] fix: a constant string whose parent looks like white
 space does not swallow the next four bytes

---
 src/DaedalusScript.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/DaedalusScript.cc b/src/DaedalusScript.cc
index 8c66ac4..e5904f1 100644
--- a/src/DaedalusScript.cc
+++ b/src/DaedalusScript.cc
@@ -404,7 +404,6 @@ namespace zenkit {
 			if (byte == 0) {
 				// We didn't find any match.
 				r->seek(static_cast<ssize_t>(savepoint), Whence::BEG);
-				this->_m_parent = r->read_int();
 				ZKLOGW("DaedalusSymbol", "Heuristic: No valid endpoint found. Aborting search. Issues might arise.");
 			}
 		}
-- 
2.43.0


From 84de4dc749c2edad2b730a1135c7860c208d47d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:23 +0000
Subject: [PATCH 54/81] fix: function variables get storage for all their
 elements

---
 src/DaedalusScript.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DaedalusScript.cc b/src/DaedalusScript.cc
index e5904f1..41008bc 100644
--- a/src/DaedalusScript.cc
+++ b/src/DaedalusScript.cc
@@ -370,7 +370,7 @@ namespace zenkit {
 				break;
 			case DaedalusDataType::FUNCTION:
 				if (!this->is_const()) {
-					this->_m_value = std::unique_ptr<std::int32_t[]>(new int32_t[1]);
+					this->_m_value = std::make_unique<std::int32_t[]>(this->_m_count);
 				}
 				this->_m_address = r->read_int();
 				break;
-- 
2.43.0


From 0daeb5ce6a558cd412c0df0ec3d94941975dbfc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:23 +0000
Subject: [PATCH 55/81] fix: using a function as a number is refused instead of
 crashing

---
 src/DaedalusScript.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/DaedalusScript.cc b/src/DaedalusScript.cc
index 41008bc..326bde1 100644
--- a/src/DaedalusScript.cc
+++ b/src/DaedalusScript.cc
@@ -458,7 +458,8 @@ namespace zenkit {
 	}
 
 	std::int32_t DaedalusSymbol::get_int(std::uint16_t index, DaedalusInstance const* context) const {
-		if (type() != DaedalusDataType::INT && type() != DaedalusDataType::FUNCTION) {
+		if (type() != DaedalusDataType::INT &&
+		    (type() != DaedalusDataType::FUNCTION || (is_const() && !is_member()))) {
 			throw DaedalusIllegalTypeAccess(this, DaedalusDataType::INT);
 		}
 		if (count() <= index) {
@@ -532,7 +533,8 @@ namespace zenkit {
 	}
 
 	void DaedalusSymbol::set_int(std::int32_t value, std::uint16_t index, DaedalusInstance* context) {
-		if (type() != DaedalusDataType::INT && type() != DaedalusDataType::FUNCTION) {
+		if (type() != DaedalusDataType::INT &&
+		    (type() != DaedalusDataType::FUNCTION || (is_const() && !is_member()))) {
 			throw DaedalusIllegalTypeAccess(this, DaedalusDataType::INT);
 		}
 		if (count() <= index) {
-- 
2.43.0


From 3c013ebabe4e3defab359213e6f3c06ae001dde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:23 +0000
Subject: [PATCH 56/81] fix: reading float members works for elements above 255

---
 src/DaedalusScript.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DaedalusScript.cc b/src/DaedalusScript.cc
index 326bde1..dd0e405 100644
--- a/src/DaedalusScript.cc
+++ b/src/DaedalusScript.cc
@@ -451,7 +451,7 @@ namespace zenkit {
 				return reinterpret_cast<DaedalusTransientInstance const&>(*context).get_float(*this, index);
 			}
 
-			return *get_member_ptr<float>(static_cast<uint8_t>(index), context);
+			return *get_member_ptr<float>(index, context);
 		}
 
 		return std::get<std::unique_ptr<float[]>>(_m_value)[index];
-- 
2.43.0


From baa568c473d91098b6cf3eb3e9963d66058f71c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:23 +0000
Subject: [PATCH 57/81] fix: references keep element numbers above 255

---
 include/zenkit/DaedalusVm.hh | 4 ++--
 src/DaedalusVm.cc            | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/zenkit/DaedalusVm.hh b/include/zenkit/DaedalusVm.hh
index 17a81ee..3d52749 100644
--- a/include/zenkit/DaedalusVm.hh
+++ b/include/zenkit/DaedalusVm.hh
@@ -320,14 +320,14 @@ namespace zenkit {
 		ZKAPI void push_int(std::int32_t value);
 		ZKAPI void push_float(float value);
 		ZKAPI void push_instance(std::shared_ptr<DaedalusInstance> value);
-		ZKAPI void push_reference(DaedalusSymbol* value, std::uint8_t index = 0);
+		ZKAPI void push_reference(DaedalusSymbol* value, std::uint16_t index = 0);
 		ZKAPI void push_string(std::string_view value);
 
 		[[nodiscard]] ZKAPI std::int32_t pop_int();
 		[[nodiscard]] ZKAPI float pop_float();
 		[[nodiscard]] ZKAPI std::shared_ptr<DaedalusInstance> pop_instance();
 		[[nodiscard]] ZKAPI std::string const& pop_string();
-		[[nodiscard]] ZKAPI std::tuple<DaedalusSymbol*, std::uint8_t, std::shared_ptr<DaedalusInstance>>
+		[[nodiscard]] ZKAPI std::tuple<DaedalusSymbol*, std::uint16_t, std::shared_ptr<DaedalusInstance>>
 		pop_reference();
 		[[nodiscard]] ZKAPI bool top_is_reference() const;
 
diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index bc4602d..068d3b0 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -651,7 +651,7 @@ namespace zenkit {
 		_m_stack[_m_stack_ptr++] = {nullptr, false, value};
 	}
 
-	void DaedalusVm::push_reference(DaedalusSymbol* value, std::uint8_t index) {
+	void DaedalusVm::push_reference(DaedalusSymbol* value, std::uint16_t index) {
 		if (_m_stack_ptr == stack_size) {
 			throw DaedalusVmException {"stack overflow"};
 		}
@@ -729,7 +729,7 @@ namespace zenkit {
 		throw DaedalusVmException {"tried to pop_float but frame does not contain a float."};
 	}
 
-	std::tuple<DaedalusSymbol*, std::uint8_t, std::shared_ptr<DaedalusInstance>> DaedalusVm::pop_reference() {
+	std::tuple<DaedalusSymbol*, std::uint16_t, std::shared_ptr<DaedalusInstance>> DaedalusVm::pop_reference() {
 		if (_m_stack_ptr == 0) {
 			throw DaedalusVmException {"popping reference from empty stack"};
 		}
-- 
2.43.0


From 4903acb80324c015b418a1471c4a9204d7037bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:45 +0000
Subject: [PATCH 58/81] fix: calls with too few values on the stack do not
 corrupt memory

---
 src/DaedalusVm.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index 068d3b0..5e7eafd 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -459,7 +459,9 @@ namespace zenkit {
 			push_local_variables(sym);
 		}
 		auto var_count = this->find_parameters_for_function(sym).size();
-		_m_call_stack.push_back({sym, _m_pc, _m_stack_ptr - static_cast<uint32_t>(var_count), _m_instance});
+		// There may be fewer values on the stack than the function has parameters.
+		auto stack_ptr = _m_stack_ptr > var_count ? _m_stack_ptr - static_cast<uint32_t>(var_count) : 0U;
+		_m_call_stack.push_back({sym, _m_pc, stack_ptr, _m_instance});
 	}
 
 	void DaedalusVm::pop_call() {
@@ -471,8 +473,10 @@ namespace zenkit {
 			// this function, so just reset the stack for the caller.
 			_m_stack_ptr = call.stack_ptr;
 		} else {
-			auto remaining_locals = _m_stack_ptr - call.stack_ptr;
+			auto remaining_locals = _m_stack_ptr > call.stack_ptr ? _m_stack_ptr - call.stack_ptr : 0U;
 			if (remaining_locals == 0) {
+				_m_stack_ptr = call.stack_ptr;
+
 				// The function is supposed to have a return value, but it does not seem to have one.
 				// To fix this, we just insert a default value (either 0, "" or NULL).
 				StackGuard::fix(this, call.function->rtype());
-- 
2.43.0


From f185837d26fb099e3ff66da477d20ccad34ed72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:46 +0000
Subject: [PATCH 59/81] fix: recursive calls keep all their arguments when
 local variables are saved

---
 src/DaedalusVm.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index 5e7eafd..71a8837 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -552,7 +552,7 @@ namespace zenkit {
 		// Move function arguments further back, since we're currently at the call instruction and the
 		// arguments for the next call have already been pushed.
 		_m_stack_ptr -= params.size();
-		for (size_t i = 0; i < params.size(); ++i) {
+		for (size_t i = params.size(); i-- > 0;) {
 			_m_stack[_m_stack_ptr + locals_size + i] = std::move(_m_stack[_m_stack_ptr + i]);
 		}
 
-- 
2.43.0


From 938c2c1fc24a524cd074caedf6d723831cb4a1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:46 +0000
Subject: [PATCH 60/81] fix: the default external removes function and instance
 arguments too

---
 src/DaedalusVm.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index 71a8837..6acec73 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -816,18 +816,20 @@ namespace zenkit {
 			auto params = find_parameters_for_function(&sym);
 			for (int i = static_cast<int>(params.size()) - 1; i >= 0; --i) {
 				auto& par = params[static_cast<unsigned>(i)];
-				if (par.type() == DaedalusDataType::INT)
+				if (par.type() == DaedalusDataType::INT || par.type() == DaedalusDataType::FUNCTION)
 					(void) v.pop_int();
 				else if (par.type() == DaedalusDataType::FLOAT)
 					(void) v.pop_float();
-				else if (par.type() == DaedalusDataType::INSTANCE || par.type() == DaedalusDataType::STRING)
+				else if (par.type() == DaedalusDataType::INSTANCE)
+					(void) v.pop_instance();
+				else if (par.type() == DaedalusDataType::STRING)
 					(void) v.pop_reference();
 			}
 
 			if (sym.has_return()) {
 				if (sym.rtype() == DaedalusDataType::FLOAT)
 					v.push_float(0.0f);
-				else if (sym.rtype() == DaedalusDataType::INT)
+				else if (sym.rtype() == DaedalusDataType::INT || sym.rtype() == DaedalusDataType::FUNCTION)
 					v.push_int(0);
 				else if (sym.rtype() == DaedalusDataType::STRING)
 					v.push_string("");
-- 
2.43.0


From 2c9181b18753fde0c8bf126c6f8dc52742e2296f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:46 +0000
Subject: [PATCH 61/81] fix: instances of unknown type are refused instead of
 crashing

---
 include/zenkit/DaedalusVm.hh | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/zenkit/DaedalusVm.hh b/include/zenkit/DaedalusVm.hh
index 3d52749..004d74a 100644
--- a/include/zenkit/DaedalusVm.hh
+++ b/include/zenkit/DaedalusVm.hh
@@ -790,8 +790,8 @@ namespace zenkit {
 					auto& expected = typeid(typename T::element_type);
 
 					if (!r->_m_type) {
-						throw DaedalusVmException {"Popping instance of unregistered type: " +
-						                           std::string {r->_m_type->name()} + ", expected " + expected.name()};
+						throw DaedalusVmException {"Popping instance of unregistered type, expected " +
+						                           std::string {expected.name()}};
 					}
 
 					if (*r->_m_type != expected) {
@@ -808,8 +808,8 @@ namespace zenkit {
 					auto& expected = typeid(std::remove_pointer_t<T>);
 
 					if (!r->_m_type) {
-						throw DaedalusVmException {"Popping instance of unregistered type: " +
-						                           std::string {r->_m_type->name()} + ", expected " + expected.name()};
+						throw DaedalusVmException {"Popping instance of unregistered type, expected " +
+						                           std::string {expected.name()}};
 					}
 
 					if (*r->_m_type != expected) {
@@ -970,8 +970,8 @@ namespace zenkit {
 					auto& expected = typeid(typename R::element_type);
 
 					if (!r->_m_type) {
-						throw DaedalusVmException {"Popping instance of unregistered type: " +
-						                           std::string {r->_m_type->name()} + ", expected " + expected.name()};
+						throw DaedalusVmException {"Popping instance of unregistered type, expected " +
+						                           std::string {expected.name()}};
 					}
 
 					if (*r->_m_type != expected) {
-- 
2.43.0


From a77fc087fd490c164569fb2cbe2178524d4a6f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:46 +0000
Subject: [PATCH 62/81] fix: initializing instances without a registered class
 is refused instead of crashing

---
 include/zenkit/DaedalusScript.hh | 5 +++++
 include/zenkit/DaedalusVm.hh     | 4 ++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/zenkit/DaedalusScript.hh b/include/zenkit/DaedalusScript.hh
index 1b55f89..42b4a3c 100644
--- a/include/zenkit/DaedalusScript.hh
+++ b/include/zenkit/DaedalusScript.hh
@@ -676,6 +676,11 @@ namespace zenkit {
 			return _m_class_size;
 		}
 
+		/// \return Whether the symbol is registered to any C++ class.
+		[[nodiscard]] ZKAPI bool is_registered() const noexcept {
+			return _m_registered_to != nullptr;
+		}
+
 		[[nodiscard]] ZKAPI std::type_info const& registered_to() const noexcept {
 			return *_m_registered_to;
 		}
diff --git a/include/zenkit/DaedalusVm.hh b/include/zenkit/DaedalusVm.hh
index 004d74a..ae1cc5a 100644
--- a/include/zenkit/DaedalusVm.hh
+++ b/include/zenkit/DaedalusVm.hh
@@ -302,11 +302,11 @@ namespace zenkit {
 				                           ": parent class not found (did you try to initialize $INSTANCE_HELP?)"};
 			}
 
-			while (parent->type() != DaedalusDataType::CLASS) {
+			while (parent != nullptr && parent->type() != DaedalusDataType::CLASS) {
 				parent = find_symbol_by_index(parent->parent());
 			}
 
-			if (parent->registered_to() != typeid(_instance_t)) {
+			if (parent == nullptr || !parent->is_registered() || parent->registered_to() != typeid(_instance_t)) {
 				throw DaedalusVmException {"Cannot init " + sym->name() +
 				                           ": parent class is not registered or is "
 				                           "registered to a different instance class"};
-- 
2.43.0


From e21c7ab490e02c9a527203f5becde79fcd28fabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:46 +0000
Subject: [PATCH 63/81] fix: a refused call leaves nothing on the stack

---
 include/zenkit/DaedalusVm.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/zenkit/DaedalusVm.hh b/include/zenkit/DaedalusVm.hh
index ae1cc5a..2ca6cc4 100644
--- a/include/zenkit/DaedalusVm.hh
+++ b/include/zenkit/DaedalusVm.hh
@@ -146,6 +146,8 @@ namespace zenkit {
 			}
 
 			if constexpr (sizeof...(P) > 0) {
+				// Refuse the call before anything is pushed.
+				check_external_params<0, P...>(params);
 				push_call_parameters<0, P...>(params, args...);
 			}
 
-- 
2.43.0


From 5121f47737347c51ce265b8453c4beabbf69e233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:46 +0000
Subject: [PATCH 64/81] fix: strings dropped from the stack are released

---
 include/zenkit/DaedalusVm.hh |  6 +++++-
 src/DaedalusVm.cc            | 14 ++++++++++++--
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/zenkit/DaedalusVm.hh b/include/zenkit/DaedalusVm.hh
index 2ca6cc4..5684088 100644
--- a/include/zenkit/DaedalusVm.hh
+++ b/include/zenkit/DaedalusVm.hh
@@ -156,7 +156,7 @@ namespace zenkit {
 			if constexpr (std::same_as<R, IgnoreReturnValue>) {
 				if (sym->has_return()) {
 					// Make sure to still pop the return value off of the stack.
-					_m_stack_ptr--;
+					discard_stack(_m_stack_ptr - 1U);
 				}
 
 				return {};
@@ -995,6 +995,10 @@ namespace zenkit {
 		/// \brief Mark the temporary string at the given index as free.
 		void mark_free_string(uint32_t index);
 
+		/// \brief Remove all values above the given stack pointer from the stack.
+		/// \param stack_ptr The stack pointer to reset the stack to.
+		ZKAPI void discard_stack(uint32_t stack_ptr);
+
 		/// \brief Obtain a random free temporary string index.
 		uint32_t get_free_string();
 
diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index 6acec73..89c3756 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -471,7 +471,7 @@ namespace zenkit {
 		if (!call.function->has_return()) {
 			// No special logic needed, there are supposed to be no more stack frames for
 			// this function, so just reset the stack for the caller.
-			_m_stack_ptr = call.stack_ptr;
+			discard_stack(call.stack_ptr);
 		} else {
 			auto remaining_locals = _m_stack_ptr > call.stack_ptr ? _m_stack_ptr - call.stack_ptr : 0U;
 			if (remaining_locals == 0) {
@@ -484,7 +484,7 @@ namespace zenkit {
 				// Now we have too many items left on the stack. Remove all of them, except the topmost one,
 				// since that one is supposed to be the return value of the function.
 				DaedalusStackFrame frame = _m_stack[--_m_stack_ptr];
-				_m_stack_ptr = call.stack_ptr;
+				discard_stack(call.stack_ptr);
 				_m_stack[_m_stack_ptr++] = std::move(frame);
 			}
 			// else {
@@ -1151,6 +1151,16 @@ namespace zenkit {
 		}
 	}
 
+	void DaedalusVm::discard_stack(uint32_t stack_ptr) {
+		while (_m_stack_ptr > stack_ptr) {
+			auto& frame = _m_stack[--_m_stack_ptr];
+			if (frame.reference && std::get<DaedalusSymbol*>(frame.value) == _m_temporary_strings) {
+				this->mark_free_string(frame.index);
+			}
+		}
+		_m_stack_ptr = static_cast<uint16_t>(stack_ptr);
+	}
+
 	void DaedalusVm::mark_free_string(uint32_t index) {
 		this->_m_temporary_strings_free.push(index);
 	}
-- 
2.43.0


From f0979f1d89497b84c836eaa91ef407b4d20f57d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:46 +0000
Subject: [PATCH 65/81] fix: a failing external or script function does not
 leave its call frame and arguments behind

---
 include/zenkit/DaedalusVm.hh |  6 +++-
 src/DaedalusVm.cc            | 70 ++++++++++++++++++++++++++----------
 2 files changed, 57 insertions(+), 19 deletions(-)

diff --git a/include/zenkit/DaedalusVm.hh b/include/zenkit/DaedalusVm.hh
index 5684088..01dbf04 100644
--- a/include/zenkit/DaedalusVm.hh
+++ b/include/zenkit/DaedalusVm.hh
@@ -720,6 +720,10 @@ namespace zenkit {
 		/// call stack entry refers to was called.
 		ZKINT void pop_call();
 
+		/// \brief Unwinds all calls above the given depth after an error, removing their arguments and values.
+		/// \param depth The size of the call stack to unwind to.
+		ZKINT void unwind_calls(size_t depth);
+
 		/// \brief Pushes a function local variables onto the call stack.
 		///
 		/// Part of #push_call implementation
@@ -729,7 +733,7 @@ namespace zenkit {
 		/// \brief Pops a function-local variables from the call stack.
 		///
 		/// Part of #pop_call implementation
-		ZKINT void pop_local_variables(DaedalusSymbol const* sym);
+		ZKINT void pop_local_variables(DaedalusSymbol const* sym, bool has_return);
 
 		/// \brief Checks that the type of each symbol in the given set of defined symbols matches the given type
 		/// parameters.
diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index 89c3756..f1d2d22 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -104,12 +104,19 @@ namespace zenkit {
 	}
 
 	void DaedalusVm::unsafe_call(DaedalusSymbol const* sym) {
+		auto depth = _m_call_stack.size();
 		push_call(sym);
-		jump(sym->address());
 
-		// execute until an op_return is reached
-		while (exec())
-			;
+		try {
+			jump(sym->address());
+
+			// execute until an op_return is reached
+			while (exec())
+				;
+		} catch (...) {
+			unwind_calls(depth);
+			throw;
+		}
 
 		pop_call();
 	}
@@ -237,7 +244,13 @@ namespace zenkit {
 					// Guard against exceptions during external invocation.
 					StackGuard guard {this, sym->rtype()};
 					// Call maybe naked.
-					cb->second(*this);
+					auto depth = _m_call_stack.size();
+					try {
+						cb->second(*this);
+					} catch (...) {
+						unwind_calls(depth);
+						throw;
+					}
 					// The stack is left intact.
 					guard.inhibit();
 				} else {
@@ -260,18 +273,24 @@ namespace zenkit {
 				StackGuard guard {this, sym->rtype()};
 
 				auto cb = _m_externals.find(sym);
-				if (cb == _m_externals.end()) {
-					if (_m_default_external.has_value()) {
-						(*_m_default_external)(*this, *sym);
-						guard.inhibit();
-						break;
-					}
-
-					throw DaedalusVmException {"be: no external registered for " + sym->name()};
+				if (cb == _m_externals.end() && _m_default_external.has_value()) {
+					(*_m_default_external)(*this, *sym);
+					guard.inhibit();
+					break;
 				}
 
+				auto depth = _m_call_stack.size();
 				push_call(sym);
-				cb->second(*this);
+				try {
+					if (cb == _m_externals.end()) {
+						throw DaedalusVmException {"be: no external registered for " + sym->name()};
+					}
+
+					cb->second(*this);
+				} catch (...) {
+					unwind_calls(depth);
+					throw;
+				}
 				pop_call();
 
 				// The stack is left intact.
@@ -495,7 +514,7 @@ namespace zenkit {
 		}
 
 		if (call.function->has_local_variables_enabled()) {
-			pop_local_variables(call.function);
+			pop_local_variables(call.function, call.function->has_return());
 		}
 
 		// Second, reset PC and context, then remove the call stack frame
@@ -589,7 +608,22 @@ namespace zenkit {
 		_m_stack_ptr += params.size();
 	}
 
-	void DaedalusVm::pop_local_variables(DaedalusSymbol const* sym) {
+	void DaedalusVm::unwind_calls(size_t depth) {
+		while (_m_call_stack.size() > depth) {
+			auto const& call = _m_call_stack.back();
+			discard_stack(call.stack_ptr);
+
+			if (call.function->has_local_variables_enabled()) {
+				pop_local_variables(call.function, false);
+			}
+
+			_m_pc = call.program_counter;
+			_m_instance = call.context;
+			_m_call_stack.pop_back();
+		}
+	}
+
+	void DaedalusVm::pop_local_variables(DaedalusSymbol const* sym, bool has_return) {
 		int has_recursion = 0;
 		for (auto& i : _m_call_stack) {
 			if (i.function == sym) {
@@ -602,7 +636,7 @@ namespace zenkit {
 		}
 
 		DaedalusStackFrame ret;
-		if (sym->has_return()) {
+		if (has_return) {
 			ret = std::move(_m_stack[--_m_stack_ptr]);
 		}
 
@@ -642,7 +676,7 @@ namespace zenkit {
 			}
 		}
 
-		if (sym->has_return()) {
+		if (has_return) {
 			_m_stack[_m_stack_ptr++] = std::move(ret);
 		}
 	}
-- 
2.43.0


From 6341790f84cb762abd91eba3ee36bb9e2bf10275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:46 +0000
Subject: [PATCH 66/81] fix: errors on a full script stack do not terminate the
 program

---
 src/DaedalusVm.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index f1d2d22..250a9c4 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -36,7 +36,11 @@ namespace zenkit {
 		~StackGuard() {
 			if (_m_inhibited) return;
 
-			StackGuard::fix(_m_machine, _m_type);
+			// This may run during stack unwinding, so it must not throw if the stack is full.
+			try {
+				StackGuard::fix(_m_machine, _m_type);
+			} catch (DaedalusScriptError const&) {
+			}
 		}
 
 		/// \brief Inhibits this guard.
-- 
2.43.0


From 2cc765e904e69155f9508ff0122e7a736ed72c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:46 +0000
Subject: [PATCH 67/81] fix: a failed instance initialization restores the
 current instance

---
 include/zenkit/DaedalusVm.hh | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/zenkit/DaedalusVm.hh b/include/zenkit/DaedalusVm.hh
index 01dbf04..28ce694 100644
--- a/include/zenkit/DaedalusVm.hh
+++ b/include/zenkit/DaedalusVm.hh
@@ -223,7 +223,13 @@ namespace zenkit {
 
 			if (_m_self_sym) _m_self_sym->set_instance(_m_instance);
 
-			unsafe_call(sym);
+			try {
+				unsafe_call(sym);
+			} catch (...) {
+				_m_instance = old_instance;
+				if (_m_self_sym) _m_self_sym->set_instance(old_self_instance);
+				throw;
+			}
 
 			// reset the VM state
 			_m_instance = old_instance;
-- 
2.43.0


From f814b2f4b664e31dce5a0d57262869363f1a5cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:09 +0000
Subject: [PATCH 68/81] fix: printing the script stack never fails or crashes

---
 src/DaedalusVm.cc | 59 ++++++++++++++++++++++++++---------------------
 1 file changed, 33 insertions(+), 26 deletions(-)

diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index 250a9c4..c026481 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -920,32 +920,37 @@ namespace zenkit {
 				auto ref = std::get<DaedalusSymbol*>(v.value);
 				std::string value;
 
-				switch (ref->type()) {
-				case DaedalusDataType::FLOAT:
-					value = std::to_string(ref->get_float(v.index, _m_instance.get()));
-					break;
-				case DaedalusDataType::INT:
-					value = std::to_string(ref->get_int(v.index, _m_instance.get()));
-					break;
-				case DaedalusDataType::STRING:
-					value = "'" + ref->get_string(v.index, _m_instance.get()) + "'";
-					break;
-				case DaedalusDataType::FUNCTION: {
-					auto index = ref->get_int(v.index, _m_instance.get());
-					auto sym = find_symbol_by_index(static_cast<uint32_t>(index));
-					value = "&" + sym->name();
-					break;
-				}
-				case DaedalusDataType::INSTANCE: {
-					if (auto& inst = ref->get_instance(); inst != nullptr) {
-						value = "<instance of '" + std::string(inst->_m_type->name()) + "'>";
-					} else {
-						value = "NULL";
+				try {
+					switch (ref->type()) {
+					case DaedalusDataType::FLOAT:
+						value = std::to_string(ref->get_float(v.index, v.context.get()));
+						break;
+					case DaedalusDataType::INT:
+						value = std::to_string(ref->get_int(v.index, v.context.get()));
+						break;
+					case DaedalusDataType::STRING:
+						value = "'" + ref->get_string(v.index, v.context.get()) + "'";
+						break;
+					case DaedalusDataType::FUNCTION: {
+						auto index = ref->get_int(v.index, v.context.get());
+						auto sym = find_symbol_by_index(static_cast<uint32_t>(index));
+						value = sym != nullptr ? "&" + sym->name() : "NULL";
+						break;
 					}
-					break;
-				}
-				default:
-					value = "<invalid stack frame>";
+					case DaedalusDataType::INSTANCE: {
+						if (auto& inst = ref->get_instance(); inst != nullptr) {
+							value = "<instance of '" +
+							    std::string(inst->_m_type != nullptr ? inst->_m_type->name() : "unknown") + "'>";
+						} else {
+							value = "NULL";
+						}
+						break;
+					}
+					default:
+						value = "<invalid stack frame>";
+					}
+				} catch (DaedalusScriptError const&) {
+					value = "<inaccessible>";
 				}
 
 				ZKLOGE("DaedalusVm",
@@ -966,7 +971,7 @@ namespace zenkit {
 						ZKLOGE("DaedalusVm",
 						       "%d: [IMMEDIATE INSTANCE] = <instance of '%s'>",
 						       tmp_stack_ptr,
-						       inst->_m_type->name());
+						       inst->_m_type != nullptr ? inst->_m_type->name() : "unknown");
 					}
 				}
 			}
@@ -985,6 +990,8 @@ namespace zenkit {
 		for (auto* sym : symbols) {
 			if (sym == nullptr) continue;
 
+			if (sym->type() != DaedalusDataType::INSTANCE) continue;
+
 			auto instance = sym->get_instance();
 			if (instance != nullptr && instance->symbol_index() != static_cast<uint32_t>(-1)) {
 				DaedalusSymbol const* instance_symbol = find_symbol_by_instance(instance);
-- 
2.43.0


From b317dd27a57d43652b8a19ab74f4bd032dc3d83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:34 +0000
Subject: [PATCH 69/81] fix: initializing an instance does not remove a value
 from the stack of the caller

---
 src/DaedalusVm.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index c026481..01fdcaa 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -481,7 +481,9 @@ namespace zenkit {
 		if (sym->has_local_variables_enabled()) {
 			push_local_variables(sym);
 		}
-		auto var_count = this->find_parameters_for_function(sym).size();
+		// Only functions have parameters. The element count of instances and prototypes has a different meaning.
+		auto var_count =
+		    sym->type() == DaedalusDataType::FUNCTION ? this->find_parameters_for_function(sym).size() : 0;
 		// There may be fewer values on the stack than the function has parameters.
 		auto stack_ptr = _m_stack_ptr > var_count ? _m_stack_ptr - static_cast<uint32_t>(var_count) : 0U;
 		_m_call_stack.push_back({sym, _m_pc, stack_ptr, _m_instance});
-- 
2.43.0


From 605f343a4f447eaacf07bfc0dd72eccc9572874c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:17 +0000
Subject: [PATCH 70/81] fix: model scripts which end inside of a token or block
 do not hang the parser

---
 src/ModelScriptDsl.cc | 51 ++++++++++++++++++++++++++-----------------
 src/ModelScriptDsl.hh |  3 +++
 2 files changed, 34 insertions(+), 20 deletions(-)

diff --git a/src/ModelScriptDsl.cc b/src/ModelScriptDsl.cc
index 6282087..0c0597d 100644
--- a/src/ModelScriptDsl.cc
+++ b/src/ModelScriptDsl.cc
@@ -28,6 +28,14 @@ namespace zenkit {
 
 	MdsTokenizer::MdsTokenizer(Read* buf) : _m_buffer(buf), _m_mark(0) {}
 
+	bool MdsTokenizer::advance(unsigned char& chr) {
+		if (_m_buffer->eof()) return false;
+
+		chr = static_cast<unsigned char>(_m_buffer->read_char());
+		_m_column += 1;
+		return true;
+	}
+
 	MdsToken MdsTokenizer::next() {
 		_m_value.clear();
 		while (!_m_buffer->eof()) {
@@ -54,8 +62,7 @@ namespace zenkit {
 				}
 
 				// skip everything until the end of the line
-				while (_m_buffer->read_char() != '\n')
-					_m_column += 1;
+				while (this->advance(chr) && chr != '\n') {}
 
 				_m_line += 1;
 				_m_column = 1;
@@ -66,8 +73,7 @@ namespace zenkit {
 			if (std::isalpha(chr) || chr == '*' || chr == '_' || chr == '.') {
 				do {
 					_m_value.push_back(static_cast<char>(chr));
-					chr = static_cast<unsigned char>(_m_buffer->read_char());
-					_m_column += 1;
+					if (!this->advance(chr)) return MdsToken::KEYWORD;
 				} while (std::isalnum(chr) || chr == '_' || chr == '-' || chr == '.');
 
 				// (backtrack one)
@@ -79,8 +85,7 @@ namespace zenkit {
 
 			// parse strings
 			if (chr == '"') {
-				chr = static_cast<unsigned char>(_m_buffer->read_char());
-				_m_column += 1;
+				bool more = this->advance(chr);
 
 				// Modded. Some mods may include `(` and/or `)` in their strings. For this reason we need to handle
 				// all of these cases:
@@ -90,14 +95,15 @@ namespace zenkit {
 				//			registerMesh ("Some_File Name.ASC)
 				//			registerMesh ("Some_File Name.ASC
 				unsigned char prev = '\0';
-				while (chr != '"' && chr != '\n') {
+				while (more && chr != '"' && chr != '\n') {
 					if (!std::isspace(chr)) prev = chr;
 					_m_value.push_back(static_cast<char>(chr));
-					chr = static_cast<unsigned char>(_m_buffer->read_char());
-					_m_column += 1;
+					more = this->advance(chr);
 				}
 
-				if (chr != '"') {
+				if (!more) {
+					WARN_SYNTAX("String not terminated");
+				} else if (chr != '"') {
 					WARN_SYNTAX("String not terminated");
 					_m_buffer->seek(-1, Whence::CUR);
 					_m_column -= 1;
@@ -110,25 +116,26 @@ namespace zenkit {
 			// parse numbers
 			if (std::isdigit(chr) || chr == '-') {
 				bool floating_point = false;
+				bool more = true;
 
 				do {
 					_m_value.push_back(static_cast<char>(chr));
-					chr = static_cast<unsigned char>(_m_buffer->read_char());
-					_m_column += 1;
+					more = this->advance(chr);
 
 					// (allow floating point numbers)
-					if (chr == '.') {
+					if (more && chr == '.') {
 						floating_point = true;
 
 						_m_value.push_back(static_cast<char>(chr));
-						chr = static_cast<unsigned char>(_m_buffer->read_char());
-						_m_column += 1;
+						more = this->advance(chr);
 					}
-				} while (std::isdigit(chr));
+				} while (more && std::isdigit(chr));
 
 				// (backtrack one)
-				_m_buffer->seek(-1, Whence::CUR);
-				_m_column -= 1;
+				if (more) {
+					_m_buffer->seek(-1, Whence::CUR);
+					_m_column -= 1;
+				}
 
 				return floating_point ? MdsToken::FLOAT : MdsToken::INTEGER;
 			}
@@ -156,7 +163,8 @@ namespace zenkit {
 	}
 
 	void MdsTokenizer::next_line() {
-		while (_m_buffer->read_char() != '\n') {}
+		unsigned char chr = 0;
+		while (this->advance(chr) && chr != '\n') {}
 	}
 
 	void MdsTokenizer::backtrack() {
@@ -410,7 +418,10 @@ namespace zenkit {
 	}
 
 	void MdsParser::ignore_block() {
-		while (this->_m_stream.next() != MdsToken::RBRACE) {}
+		while (true) {
+			auto const token = this->_m_stream.next();
+			if (token == MdsToken::RBRACE || token == MdsToken::END_OF_FILE) break;
+		}
 	}
 
 	MdsEventTag MdsParser::parse_eventTag() {
diff --git a/src/ModelScriptDsl.hh b/src/ModelScriptDsl.hh
index 67ec5e6..341aa16 100644
--- a/src/ModelScriptDsl.hh
+++ b/src/ModelScriptDsl.hh
@@ -38,6 +38,9 @@ namespace zenkit {
 		void next_line();
 
 	private:
+		/// Reads one more character, unless the data ends here.
+		bool advance(unsigned char& chr);
+
 		Read* _m_buffer;
 		uint32_t _m_line {1}, _m_column {1};
 		std::string _m_value;
-- 
2.43.0


From fa8664df5da6d20335fe556bde2c95e7e4380634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:17 +0000
Subject: [PATCH 71/81] fix: strings of model scripts without a closing quote
 do not keep trailing white space or a parenthesis

---
 src/ModelScriptDsl.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ModelScriptDsl.cc b/src/ModelScriptDsl.cc
index 0c0597d..f7b5702 100644
--- a/src/ModelScriptDsl.cc
+++ b/src/ModelScriptDsl.cc
@@ -109,7 +109,13 @@ namespace zenkit {
 					_m_column -= 1;
 				}
 
-				if (prev == ')') _m_value.pop_back();
+				if (prev == ')') {
+					_m_value.resize(_m_value.rfind(')'));
+				} else if (!more || chr != '"') {
+					while (!_m_value.empty() && std::isspace(static_cast<unsigned char>(_m_value.back()))) {
+						_m_value.pop_back();
+					}
+				}
 				return MdsToken::STRING;
 			}
 
-- 
2.43.0


From b761e34a00361ea1e0ee75d07afce81f5dbd0aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:17 +0000
Subject: [PATCH 72/81] fix: malformed numbers in model scripts are reported as
 syntax errors

---
 src/ModelScriptDsl.cc | 20 +++++++++++++++++---
 src/ModelScriptDsl.hh |  1 +
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/ModelScriptDsl.cc b/src/ModelScriptDsl.cc
index f7b5702..27a819a 100644
--- a/src/ModelScriptDsl.cc
+++ b/src/ModelScriptDsl.cc
@@ -7,6 +7,8 @@
 #include "zenkit/Misc.hh"
 #include "zenkit/Stream.hh"
 
+#include <stdexcept>
+
 #define WARN_SYNTAX(msg) ZKLOGW("ModelScript", "Syntax error (line %d, column %d): %s", _m_line, _m_column, msg)
 
 namespace zenkit {
@@ -228,9 +230,17 @@ namespace zenkit {
 		return *mb;
 	}
 
+	int MdsParser::token_int() const {
+		try {
+			return std::stoi(_m_stream.token_value());
+		} catch (std::logic_error const&) {
+			throw ScriptSyntaxError {_m_stream.format_location(), "invalid integer"};
+		}
+	}
+
 	int MdsParser::expect_int() {
 		this->expect<MdsToken::INTEGER>();
-		return std::stoi(_m_stream.token_value());
+		return this->token_int();
 	}
 
 	AnimationFlags MdsParser::expect_flags() {
@@ -274,7 +284,7 @@ namespace zenkit {
 			return std::nullopt;
 		}
 
-		return std::stoi(_m_stream.token_value());
+		return this->token_int();
 	}
 
 	std::optional<float> MdsParser::maybe_number() {
@@ -284,7 +294,11 @@ namespace zenkit {
 			return std::nullopt;
 		}
 
-		return std::stof(_m_stream.token_value());
+		try {
+			return std::stof(_m_stream.token_value());
+		} catch (std::logic_error const&) {
+			throw ScriptSyntaxError {_m_stream.format_location(), "invalid number"};
+		}
 	}
 
 	std::optional<std::string> MdsParser::maybe_string() {
diff --git a/src/ModelScriptDsl.hh b/src/ModelScriptDsl.hh
index 341aa16..2d44051 100644
--- a/src/ModelScriptDsl.hh
+++ b/src/ModelScriptDsl.hh
@@ -85,6 +85,7 @@ namespace zenkit {
 		void expect_keyword(std::string_view value);
 		[[nodiscard]] float expect_number();
 		[[nodiscard]] int expect_int();
+		[[nodiscard]] int token_int() const;
 		[[nodiscard]] AnimationFlags expect_flags();
 		[[nodiscard]] std::optional<AnimationFlags> maybe_flags();
 
-- 
2.43.0


From 0b52eeeecd08261e524068f8ff178b3030152198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:17 +0000
Subject: [PATCH 73/81] fix: an animation without events does not swallow the
 end of the block it is in

---
 src/ModelScriptDsl.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ModelScriptDsl.cc b/src/ModelScriptDsl.cc
index 27a819a..846cf76 100644
--- a/src/ModelScriptDsl.cc
+++ b/src/ModelScriptDsl.cc
@@ -539,7 +539,12 @@ namespace zenkit {
 
 		// Optional events block.
 		// Note: Due to #122 the curly parens are actually optional
-		this->maybe<MdsToken::LBRACE>();
+		// A closing one right away belongs to the surrounding block though.
+		if (!this->maybe<MdsToken::LBRACE>() && this->maybe<MdsToken::RBRACE>()) {
+			this->_m_stream.backtrack();
+			return ani;
+		}
+
 		this->parse_events(ani);
 
 		return ani;
-- 
2.43.0


From 5d1fd1fbc7e4211c396296f23d9136dace071d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:17 +0000
Subject: [PATCH 74/81] fix: frame lists of model script events contain exactly
 the listed frames

---
 src/ModelScript.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/ModelScript.cc b/src/ModelScript.cc
index 71907dd..de01d7a 100644
--- a/src/ModelScript.cc
+++ b/src/ModelScript.cc
@@ -133,8 +133,7 @@ namespace zenkit {
 				std::istringstream stream {frames};
 
 				int32_t fr = 0;
-				while (!stream.eof() && !stream.fail()) {
-					stream >> fr;
+				while (stream >> fr) {
 					evt.frames.push_back(fr);
 				}
 				break;
@@ -363,8 +362,7 @@ namespace zenkit {
 					    std::istringstream stream {frames};
 
 					    int32_t frame = 0;
-					    while (!stream.eof()) {
-						    stream >> frame;
+					    while (stream >> frame) {
 						    event.frames.push_back(frame);
 					    }
 					    break;
-- 
2.43.0


From e80b51b3087d6ae5ec9b24e05fbc0cf2c2eb80bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:17 +0000
Subject: [PATCH 75/81] fix: an empty second name of a compiled event tag is
 not replaced by the data behind it

---
 src/ModelScript.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ModelScript.cc b/src/ModelScript.cc
index de01d7a..6c189cd 100644
--- a/src/ModelScript.cc
+++ b/src/ModelScript.cc
@@ -310,8 +310,8 @@ namespace zenkit {
 				    switch (event.type) {
 				    case MdsEventType::ITEM_CREATE:
 				    case MdsEventType::ITEM_EXCHANGE:
-					    event.slot = c->read_line(true);
-					    event.item = c->read_line(true);
+					    event.slot = c->read_line(false);
+					    event.item = c->read_line(false);
 					    break;
 				    case MdsEventType::ITEM_INSERT:
 				    case MdsEventType::MUNITION_PLACE:
@@ -336,8 +336,8 @@ namespace zenkit {
 					    break;
 				    }
 				    case MdsEventType::MESH_SWAP:
-					    event.slot = c->read_line(true);
-					    event.slot2 = c->read_line(true);
+					    event.slot = c->read_line(false);
+					    event.slot2 = c->read_line(false);
 					    break;
 				    case MdsEventType::HIT_LIMB:
 					    event.slot = c->read_line(true); // TODO
-- 
2.43.0


From 150d4a631953d446d16dff3435039535c8c9e82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:17 +0000
Subject: [PATCH 76/81] fix: events of compiled model scripts in front of all
 animations are refused

---
 src/ModelScript.cc | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/ModelScript.cc b/src/ModelScript.cc
index 6c189cd..ce02d17 100644
--- a/src/ModelScript.cc
+++ b/src/ModelScript.cc
@@ -2,6 +2,7 @@
 // SPDX-License-Identifier: MIT
 #include "zenkit/ModelScript.hh"
 #include "zenkit/Date.hh"
+#include "zenkit/Error.hh"
 #include "zenkit/Stream.hh"
 
 #include "Internal.hh"
@@ -178,12 +179,16 @@ namespace zenkit {
 		}
 	} // namespace mds
 
+	static MdsAnimation& last_animation(ModelScript& script) {
+		if (script.animations.empty()) throw ParserError {"ModelScript.Binary", "event without an animation"};
+		return script.animations.back();
+	}
+
 	void parse_binary_script(ModelScript& script, Read* r) {
-		auto ani_index = static_cast<uint32_t>(-1);
 		proto::read_chunked<ModelScriptBinaryChunkType>(
 		    r,
 		    "ModelScript.Binary",
-		    [&script, &ani_index](Read* c, ModelScriptBinaryChunkType type) {
+		    [&script](Read* c, ModelScriptBinaryChunkType type) {
 			    switch (type) {
 			    case ModelScriptBinaryChunkType::MESH_AND_TREE: {
 				    MdsSkeleton mat {};
@@ -212,7 +217,6 @@ namespace zenkit {
 				    anim.speed = c->read_float();
 				    anim.collision_volume_scale = c->read_float();
 				    script.animations.push_back(std::move(anim));
-				    ++ani_index;
 				    break;
 			    }
 			    case ModelScriptBinaryChunkType::ANIMATION_ALIAS: {
@@ -261,7 +265,7 @@ namespace zenkit {
 				    trem.field2 = c->read_int();
 				    trem.field3 = c->read_int();
 				    trem.field4 = c->read_int();
-				    script.animations[ani_index].tremors.push_back(trem);
+				    last_animation(script).tremors.push_back(trem);
 				    break;
 			    }
 			    case ModelScriptBinaryChunkType::EVENT_SFX: {
@@ -270,7 +274,7 @@ namespace zenkit {
 				    effect.name = c->read_line(false);
 				    effect.range = c->read_float();
 				    effect.empty_slot = c->read_uint() != 0;
-				    script.animations[ani_index].sfx.push_back(std::move(effect));
+				    last_animation(script).sfx.push_back(std::move(effect));
 				    break;
 			    }
 			    case ModelScriptBinaryChunkType::EVENT_SFX_GROUND: {
@@ -279,7 +283,7 @@ namespace zenkit {
 				    effect.name = c->read_line(false);
 				    effect.range = c->read_float();
 				    effect.empty_slot = c->read_uint() != 0;
-				    script.animations[ani_index].sfx_ground.push_back(std::move(effect));
+				    last_animation(script).sfx_ground.push_back(std::move(effect));
 				    break;
 			    }
 			    case ModelScriptBinaryChunkType::MODEL_TAG: {
@@ -371,7 +375,7 @@ namespace zenkit {
 					    break;
 				    }
 
-				    script.animations[ani_index].events.push_back(std::move(event));
+				    last_animation(script).events.push_back(std::move(event));
 				    break;
 			    }
 			    case ModelScriptBinaryChunkType::EVENT_PFX: {
@@ -381,14 +385,14 @@ namespace zenkit {
 				    effect.name = c->read_line(false);
 				    effect.position = c->read_line(false);
 				    effect.attached = c->read_uint() != 0;
-				    script.animations[ani_index].pfx.push_back(std::move(effect));
+				    last_animation(script).pfx.push_back(std::move(effect));
 				    break;
 			    }
 			    case ModelScriptBinaryChunkType::EVENT_PFX_STOP: {
 				    MdsParticleEffectStop effect {};
 				    effect.frame = c->read_int();
 				    effect.index = c->read_int();
-				    script.animations[ani_index].pfx_stop.push_back(effect);
+				    last_animation(script).pfx_stop.push_back(effect);
 				    break;
 			    }
 			    case ModelScriptBinaryChunkType::EVENT_MM_ANI: {
@@ -398,7 +402,7 @@ namespace zenkit {
 				    anim.node = c->read_line(false);
 				    (void) c->read_float();
 				    (void) c->read_float();
-				    script.animations[ani_index].morph.push_back(std::move(anim));
+				    last_animation(script).morph.push_back(std::move(anim));
 				    break;
 			    }
 			    case ModelScriptBinaryChunkType::ROOT:
-- 
2.43.0


From 3f746cc334e8fa34d6f361822ba162b241b55f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:00 +0000
Subject: [PATCH 77/81] fix: channel masks of 32 and 24 bit textures exported
 as DDS do not fit their pixels

---
 src/addon/texcvt.cc | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/addon/texcvt.cc b/src/addon/texcvt.cc
index 8eab5d7..61648e2 100644
--- a/src/addon/texcvt.cc
+++ b/src/addon/texcvt.cc
@@ -97,20 +97,12 @@ namespace zenkit {
 		case TextureFormat::B8G8R8A8:
 			header.ddpfPixelFormat.dwFlags = DDPF_RGB | DDPF_ALPHAPIXELS;
 			header.ddpfPixelFormat.dwRGBBitCount = 32;
-			header.ddpfPixelFormat.dwRBitMask = 0x0000FF00;
-			header.ddpfPixelFormat.dwGBitMask = 0x00FF0000;
-			header.ddpfPixelFormat.dwBBitMask = 0xFF000000;
-			header.ddpfPixelFormat.dwRGBAlphaBitMask = 0x000000FF;
+			header.ddpfPixelFormat.dwRBitMask = 0x00FF0000;
+			header.ddpfPixelFormat.dwGBitMask = 0x0000FF00;
+			header.ddpfPixelFormat.dwBBitMask = 0x000000FF;
+			header.ddpfPixelFormat.dwRGBAlphaBitMask = 0xFF000000;
 			break;
 		case TextureFormat::R8G8B8A8:
-			header.ddpfPixelFormat.dwFlags = DDPF_RGB | DDPF_ALPHAPIXELS;
-			header.ddpfPixelFormat.dwRGBBitCount = 32;
-			header.ddpfPixelFormat.dwRBitMask = 0xFF000000;
-			header.ddpfPixelFormat.dwGBitMask = 0x00FF0000;
-			header.ddpfPixelFormat.dwBBitMask = 0x0000FF00;
-			header.ddpfPixelFormat.dwRGBAlphaBitMask = 0x000000FF;
-			break;
-		case TextureFormat::A8B8G8R8:
 			header.ddpfPixelFormat.dwFlags = DDPF_RGB | DDPF_ALPHAPIXELS;
 			header.ddpfPixelFormat.dwRGBBitCount = 32;
 			header.ddpfPixelFormat.dwRBitMask = 0x000000FF;
@@ -118,27 +110,35 @@ namespace zenkit {
 			header.ddpfPixelFormat.dwBBitMask = 0x00FF0000;
 			header.ddpfPixelFormat.dwRGBAlphaBitMask = 0xFF000000;
 			break;
+		case TextureFormat::A8B8G8R8:
+			header.ddpfPixelFormat.dwFlags = DDPF_RGB | DDPF_ALPHAPIXELS;
+			header.ddpfPixelFormat.dwRGBBitCount = 32;
+			header.ddpfPixelFormat.dwRBitMask = 0xFF000000;
+			header.ddpfPixelFormat.dwGBitMask = 0x00FF0000;
+			header.ddpfPixelFormat.dwBBitMask = 0x0000FF00;
+			header.ddpfPixelFormat.dwRGBAlphaBitMask = 0x000000FF;
+			break;
 		case TextureFormat::A8R8G8B8:
 			header.ddpfPixelFormat.dwFlags = DDPF_RGB | DDPF_ALPHAPIXELS;
 			header.ddpfPixelFormat.dwRGBBitCount = 32;
-			header.ddpfPixelFormat.dwRBitMask = 0x00FF0000;
-			header.ddpfPixelFormat.dwGBitMask = 0x0000FF00;
-			header.ddpfPixelFormat.dwBBitMask = 0x000000FF;
-			header.ddpfPixelFormat.dwRGBAlphaBitMask = 0xFF000000;
+			header.ddpfPixelFormat.dwRBitMask = 0x0000FF00;
+			header.ddpfPixelFormat.dwGBitMask = 0x00FF0000;
+			header.ddpfPixelFormat.dwBBitMask = 0xFF000000;
+			header.ddpfPixelFormat.dwRGBAlphaBitMask = 0x000000FF;
 			break;
 		case TextureFormat::B8G8R8:
 			header.ddpfPixelFormat.dwFlags = DDPF_RGB;
 			header.ddpfPixelFormat.dwRGBBitCount = 24;
-			header.ddpfPixelFormat.dwRBitMask = 0x000000FF;
+			header.ddpfPixelFormat.dwRBitMask = 0x00FF0000;
 			header.ddpfPixelFormat.dwGBitMask = 0x0000FF00;
-			header.ddpfPixelFormat.dwBBitMask = 0x00FF0000;
+			header.ddpfPixelFormat.dwBBitMask = 0x000000FF;
 			break;
 		case TextureFormat::R8G8B8:
 			header.ddpfPixelFormat.dwFlags = DDPF_RGB;
 			header.ddpfPixelFormat.dwRGBBitCount = 24;
-			header.ddpfPixelFormat.dwRBitMask = 0x00FF0000;
+			header.ddpfPixelFormat.dwRBitMask = 0x000000FF;
 			header.ddpfPixelFormat.dwGBitMask = 0x0000FF00;
-			header.ddpfPixelFormat.dwBBitMask = 0x000000FF;
+			header.ddpfPixelFormat.dwBBitMask = 0x00FF0000;
 			break;
 		case TextureFormat::A4R4G4B4:
 			header.ddpfPixelFormat.dwFlags = DDPF_RGB | DDPF_ALPHAPIXELS;
-- 
2.43.0


From 9dc44c9fce163e03c548961ce4e539877684da1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:00 +0000
Subject: [PATCH 78/81] fix: indexed textures exported as DDS lack their pixel
 size and have red and blue of the palette swapped

---
 src/addon/texcvt.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/addon/texcvt.cc b/src/addon/texcvt.cc
index 61648e2..4e61950 100644
--- a/src/addon/texcvt.cc
+++ b/src/addon/texcvt.cc
@@ -165,6 +165,7 @@ namespace zenkit {
 			break;
 		case TextureFormat::P8:
 			header.ddpfPixelFormat.dwFlags = DDPF_PALETTEINDEXED8;
+			header.ddpfPixelFormat.dwRGBBitCount = 8;
 			break;
 		case TextureFormat::DXT1:
 			header.ddpfPixelFormat.dwFlags = DDPF_FOURCC;
@@ -217,9 +218,9 @@ namespace zenkit {
 
 	static void write_dds_palette(Write* w, Texture const& tex) {
 		for (auto i = 0; i < ZTEX_PALETTE_ENTRIES; ++i) {
-			w->write_ubyte(tex.palette()[i].b);
-			w->write_ubyte(tex.palette()[i].g);
 			w->write_ubyte(tex.palette()[i].r);
+			w->write_ubyte(tex.palette()[i].g);
+			w->write_ubyte(tex.palette()[i].b);
 			w->write_ubyte(tex.palette()[i].a);
 		}
 	}
-- 
2.43.0


From 693001a2a2f5760b38cc465f6515a03ac850be62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:50 +0000
Subject: [PATCH 79/81] fix: a file which can not be mapped is used
 nevertheless and its descriptor is never closed

---
 include/zenkit/Mmap.hh |  4 ++--
 src/MmapPosix.cc       | 19 +++++++++++++------
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/include/zenkit/Mmap.hh b/include/zenkit/Mmap.hh
index db8ce1d..99eca9c 100644
--- a/include/zenkit/Mmap.hh
+++ b/include/zenkit/Mmap.hh
@@ -23,8 +23,8 @@ namespace zenkit {
 		}
 
 	private:
-		std::byte const* _m_data;
-		std::size_t _m_size;
+		std::byte const* _m_data {nullptr};
+		std::size_t _m_size {0};
 
 		void* _m_platform_handle {nullptr};
 	};
diff --git a/src/MmapPosix.cc b/src/MmapPosix.cc
index f6d289c..0cc1150 100644
--- a/src/MmapPosix.cc
+++ b/src/MmapPosix.cc
@@ -17,19 +17,26 @@ namespace zenkit {
 
 		struct stat st {};
 		if (fstat(handle, &st) != 0) {
+			close(handle);
 			throw std::runtime_error {"Failed to stat " + path.string()};
 		}
 
-		_m_data =
-		    static_cast<std::byte*>(mmap(nullptr, static_cast<size_t>(st.st_size), PROT_READ, MAP_SHARED, handle, 0));
-		if (_m_data == nullptr) {
+		// An empty file can not be mapped, but there is nothing to map either.
+		if (S_ISREG(st.st_mode) && st.st_size == 0) {
+			close(handle);
+			return;
+		}
+
+		auto* data = mmap(nullptr, static_cast<size_t>(st.st_size), PROT_READ, MAP_SHARED, handle, 0);
+		close(handle);
+
+		if (data == MAP_FAILED) {
 			throw std::runtime_error {"Failed to mmap " + path.string()};
 		}
 
+		_m_data = static_cast<std::byte const*>(data);
 		_m_size = static_cast<std::size_t>(st.st_size);
-		_m_platform_handle = (void*) _m_data;
-
-		close(handle);
+		_m_platform_handle = data;
 	}
 
 	Mmap::Mmap(Mmap&& other) noexcept {
-- 
2.43.0


From b47fa5ee76d75ca26c3bbd3e0a11801f40504e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:50 +0000
Subject: [PATCH 80/81] fix: reading from C files only reports the end after a
 read beyond it

---
 src/Stream.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Stream.cc b/src/Stream.cc
index efedbc2..04b246b 100644
--- a/src/Stream.cc
+++ b/src/Stream.cc
@@ -227,7 +227,11 @@ namespace zenkit {
 			}
 
 			[[nodiscard]] bool eof() const noexcept override {
-				return feof(_m_stream);
+				auto c = fgetc(_m_stream);
+				if (c == EOF) return true;
+
+				ungetc(c, _m_stream);
+				return false;
 			}
 
 		private:
-- 
2.43.0


From fabb88d00eb4d599f9f4886c53f80dfd94227fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:50 +0000
Subject: [PATCH 81/81] fix: reading from C++ streams can neither seek nor tell
 after a short read

---
 src/Stream.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/Stream.cc b/src/Stream.cc
index 04b246b..854fb87 100644
--- a/src/Stream.cc
+++ b/src/Stream.cc
@@ -244,7 +244,11 @@ namespace zenkit {
 
 			size_t read(void* buf, size_t len) noexcept override {
 				_m_stream->read(static_cast<char*>(buf), static_cast<long>(len));
-				return static_cast<size_t>(_m_stream->gcount());
+				auto count = static_cast<size_t>(_m_stream->gcount());
+
+				// A short read must not keep the stream from being used any further.
+				if (_m_stream->eof()) _m_stream->clear();
+				return count;
 			}
 
 			void seek(ssize_t off, Whence whence) noexcept override {
@@ -256,7 +260,10 @@ namespace zenkit {
 			}
 
 			[[nodiscard]] bool eof() const noexcept override {
-				return _m_stream->eof();
+				if (_m_stream->peek() != std::istream::traits_type::eof()) return false;
+
+				_m_stream->clear();
+				return true;
 			}
 
 		private:
-- 
2.43.0

