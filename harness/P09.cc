// P09: every VOb class, for both games, in save-games and elsewhere: saving to an archive and loading it back restores
// every stored field, the class and the position behind the object.  Decided in the BinSafe format, which tags every
// entry with its type; the formats themselves are the subject of P05-P07.
#include "vobs.hh"
static constexpr Fmt BS {ArchiveFormat::BINSAFE};
template <typename T, bool OWN = true>
static void cls() {
	auto m = zk_choice(4, "game and archive kind");
	P = Parts {};
	P.n = 2;
	roundtrip<T, OWN>(BS, m & 1 ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1, (m & 2) != 0);
}
HARNESS(VAnimate) { cls<VAnimate>(); }
HARNESS(VItem) { cls<VItem>(); }
HARNESS(VLensFlare) { cls<VLensFlare>(); }
HARNESS(VParticleEffectController) { cls<VParticleEffectController>(); }
HARNESS(VMessageFilter) { cls<VMessageFilter>(); }
HARNESS(VCodeMaster) { cls<VCodeMaster>(); }
HARNESS(VMoverController) { cls<VMoverController>(); }
HARNESS(VTouchDamage) { cls<VTouchDamage>(); }
HARNESS(VEarthquake) { cls<VEarthquake>(); }
HARNESS(VNpc) { cls<VNpc>(); }
HARNESS(VScreenEffect) { cls<VScreenEffect>(); }
HARNESS(VMovableObject) { cls<VMovableObject>(); }
HARNESS(VInteractiveObject) { cls<VInteractiveObject>(); }
HARNESS(VFire) { cls<VFire>(); }
HARNESS(VContainer) { cls<VContainer>(); }
HARNESS(VDoor) { cls<VDoor>(); }
HARNESS(VTrigger) { cls<VTrigger>(); }
HARNESS(VMover) { cls<VMover>(); }
HARNESS(VTriggerList) { cls<VTriggerList>(); }
HARNESS(VTriggerScript) { cls<VTriggerScript>(); }
HARNESS(VTriggerChangeLevel) { cls<VTriggerChangeLevel>(); }
HARNESS(VTriggerWorldStart) { cls<VTriggerWorldStart>(); }
HARNESS(VTriggerUntouch) { cls<VTriggerUntouch>(); }
HARNESS(VCameraTrajectoryFrame) { cls<VCameraTrajectoryFrame>(); }
HARNESS(VCutsceneCamera) { cls<VCutsceneCamera>(); }
HARNESS(VLight) { cls<VLight>(); }
HARNESS(VSound) { cls<VSound>(); }
HARNESS(VSoundDaytime) { cls<VSoundDaytime>(); }
HARNESS(VZoneMusic) { cls<VZoneMusic>(); }
HARNESS(VZoneFarPlane) { cls<VZoneFarPlane>(); }
HARNESS(VZoneFog) { cls<VZoneFog>(); }
HARNESS(VLadder) { cls<VLadder>(); }
HARNESS(VSwitch) { cls<VSwitch>(); }
HARNESS(VWheel) { cls<VWheel>(); }
HARNESS(VBed) { cls<VBed>(); }
HARNESS(VCutsceneTrigger) { cls<VCutsceneTrigger>(); }
HARNESS(VZoneMusicDefault) { cls<VZoneMusicDefault>(); }
HARNESS(VZoneFarPlaneDefault) { cls<VZoneFarPlaneDefault>(); }
HARNESS(VZoneFogDefault) { cls<VZoneFogDefault>(); }
HARNESS(VSpot) { cls<VSpot, false>(); }
HARNESS(VStair) { cls<VStair, false>(); }
HARNESS(VStartPoint) { cls<VStartPoint, false>(); }
HARNESS(VLevel) { cls<VLevel, false>(); }
HARNESS(VirtualObject) { cls<VirtualObject, false>(); }

// the part all VObs share, with every combination of optional parts
static void base(bool packed, GameVersion ver, bool save) {
	auto c = zk_choice(packed ? 32 : 16, "optional parts");
	P = Parts {};
	P.names = c & 1;
	P.visual = c & 2;
	P.ai = c & 4;
	P.em = c & 8;
	P.body = c & 16;
	P.packed = packed;
	roundtrip<VSpot, false>(BS, ver, save);
}
HARNESS(base_packed_g1) { base(true, GameVersion::GOTHIC_1, false); }
HARNESS(base_packed_g2) { base(true, GameVersion::GOTHIC_2, false); }
HARNESS(base_packed_g1_save) { base(true, GameVersion::GOTHIC_1, true); }
HARNESS(base_packed_g2_save) { base(true, GameVersion::GOTHIC_2, true); }
HARNESS(base_unpacked_g1) { base(false, GameVersion::GOTHIC_1, false); }
HARNESS(base_unpacked_g2) { base(false, GameVersion::GOTHIC_2, false); }

// long lists: the counters of the format hold them
template <typename T>
static void many(int n, GameVersion ver, bool save) {
	P = Parts {};
	P.n = n;
	roundtrip<T, true>(BS, ver, save);
}
HARNESS(many_targets) { many<VTriggerList>(200, GameVersion::GOTHIC_1, true); }
HARNESS(many_keyframes) { many<VMover>(300, GameVersion::GOTHIC_2, false); }
HARNESS(many_slaves) { many<VCodeMaster>(200, GameVersion::GOTHIC_2, true); }
HARNESS(many_items) { many<VContainer>(140, GameVersion::GOTHIC_2, true); }
HARNESS(many_frames) { many<VCutsceneCamera>(140, GameVersion::GOTHIC_2, false); }
HARNESS(many_npc) { many<VNpc>(130, GameVersion::GOTHIC_1, true); }
