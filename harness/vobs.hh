// What each VOb class stores: one list of fields per class, used both to fill an object with arbitrary values and to
// compare it with the object that was loaded.
#pragma once
#include "visit.hh"
#include <zenkit/CutsceneLibrary.hh>
#include <zenkit/World.hh>
#include <zenkit/vobs/Camera.hh>
#include <zenkit/vobs/Light.hh>
#include <zenkit/vobs/Misc.hh>
#include <zenkit/vobs/MovableObject.hh>
#include <zenkit/vobs/Sound.hh>
#include <zenkit/vobs/Trigger.hh>
#include <zenkit/vobs/VirtualObject.hh>
#include <zenkit/vobs/Zone.hh>

// which optional parts the object has (concrete per case)
struct Parts {
	bool names = true, visual = false, ai = false, em = false, body = false, packed = true;
	int n = 1; // number of elements of contained lists
};
static Parts P;

static inline void fields(Visit& v, VisualDecal& a, VisualDecal& b) {
	v.f(a.dimension, b.dimension, "decal dimension");
	v.f(a.offset, b.offset, "decal offset");
	v.f(a.two_sided, b.two_sided, "decal two_sided");
	v.f(a.alpha_func, b.alpha_func, "decal alpha_func");
	v.f(a.texture_anim_fps, b.texture_anim_fps, "decal texture_anim_fps");
	if (v.g2()) {
		v.f(a.alpha_weight, b.alpha_weight, "decal alpha_weight");
		v.f(a.ignore_daylight, b.ignore_daylight, "decal ignore_daylight");
	}
}

static inline void fields(Visit& v, RigidBody& a, RigidBody& b) {
	v.f(a.vel, b.vel, "rigid body vel");
	v.f(a.mode, b.mode, "rigid body mode");
	v.f(a.gravity_enabled, b.gravity_enabled, "rigid body gravity_enabled");
	v.f(a.gravity_scale, b.gravity_scale, "rigid body gravity_scale");
	v.f(a.slide_direction, b.slide_direction, "rigid body slide_direction");
}

static inline void fields(Visit& v, AiHuman& a, AiHuman& b) {
	v.f(a.water_level, b.water_level, "ai water_level");
	v.f(a.floor_y, b.floor_y, "ai floor_y");
	v.f(a.water_y, b.water_y, "ai water_y");
	v.f(a.ceil_y, b.ceil_y, "ai ceil_y");
	v.f(a.feet_y, b.feet_y, "ai feet_y");
	v.f(a.head_y, b.head_y, "ai head_y");
	v.f(a.fall_dist_y, b.fall_dist_y, "ai fall_dist_y");
	v.f(a.fall_start_y, b.fall_start_y, "ai fall_start_y");
	v.f(a.walk_mode, b.walk_mode, "ai walk_mode");
	v.f(a.weapon_mode, b.weapon_mode, "ai weapon_mode");
	v.f(a.wmode_ast, b.wmode_ast, "ai wmode_ast");
	v.f(a.wmode_select, b.wmode_select, "ai wmode_select");
	v.f(a.change_weapon, b.change_weapon, "ai change_weapon");
	v.f(a.action_mode, b.action_mode, "ai action_mode");
}

// the part every VOb has
static inline void fields(Visit& v, VirtualObject& a, VirtualObject& b) {
	if (P.packed) {
		v.raw(a.bbox, b.bbox, "bbox");
		v.raw(a.position, b.position, "position");
	} else {
		v.f(a.bbox, b.bbox, "bbox");
		v.f(a.position, b.position, "position");
	}
	v.f(a.rotation, b.rotation, "rotation");
	v.f(a.show_visual, b.show_visual, "show_visual");
	v.lim(a.sprite_camera_facing_mode, b.sprite_camera_facing_mode, 3, "sprite_camera_facing_mode");
	v.f(a.cd_static, b.cd_static, "cd_static");
	v.f(a.cd_dynamic, b.cd_dynamic, "cd_dynamic");
	v.f(a.vob_static, b.vob_static, "vob_static");
	v.lim(a.dynamic_shadows, b.dynamic_shadows, P.packed ? 4 : 2, "dynamic_shadows");
	if (v.g2()) {
		v.lim(a.anim_mode, b.anim_mode, 3, "anim_mode");
		if (P.packed) v.lim(a.bias, b.bias, 32, "bias");
		else v.f(a.bias, b.bias, "bias");
		v.f(a.ambient, b.ambient, "ambient");
		if (P.packed) {
			v.raw(a.anim_strength, b.anim_strength, "anim_strength");
			v.raw(a.far_clip_scale, b.far_clip_scale, "far_clip_scale");
		} else {
			v.f(a.anim_strength, b.anim_strength, "anim_strength");
			v.f(a.far_clip_scale, b.far_clip_scale, "far_clip_scale");
		}
	}
	v.str(a.preset_name, b.preset_name, P.names ? 4 : 0, "preset_name");
	v.str(a.vob_name, b.vob_name, P.names ? 3 : 0, "vob_name");
	if (v.filling) {
		a.physics_enabled = P.body;
		if (P.visual) {
			auto d = std::make_shared<VisualDecal>();
			d->type = VisualType::DECAL;
			a.visual = d;
		}
	} else {
		if (P.packed) zk_assert(b.physics_enabled == P.body, "physics_enabled");
		zk_assert(b.visual != nullptr, "a loaded VOb always has a visual");
	}
	if (P.visual) {
		if (!v.filling) {
			zk_assert(b.visual->type == VisualType::DECAL && b.visual->get_object_type() == ObjectType::zCDecal, "visual type");
			zk_assert(b.associated_visual_type == VisualType::DECAL && b.visual_decal.has_value(), "deprecated visual fields");
			v.str(a.visual->name, b.visual_name, 5, "visual_name");
		}
		v.str(a.visual->name, v.filling ? a.visual->name : b.visual->name, 5, "visual name");
		auto& da = static_cast<VisualDecal&>(*a.visual);
		fields(v, da, v.filling ? da : static_cast<VisualDecal&>(*b.visual));
	} else if (!v.filling) {
		zk_assert(b.visual->type == VisualType::UNKNOWN, "no visual");
	}
	if (P.ai) {
		if (v.filling) a.ai = std::make_shared<AiHuman>();
		else zk_assert(b.ai != nullptr && b.ai->get_object_type() == ObjectType::oCAIHuman, "ai object");
		auto& x = static_cast<AiHuman&>(*a.ai);
		fields(v, x, v.filling ? x : static_cast<AiHuman&>(*b.ai));
	} else if (!v.filling) {
		zk_assert(b.ai == nullptr, "no ai object");
	}
	if (P.em) {
		if (v.filling) a.event_manager = std::make_shared<EventManager>();
		if (v.filling || (v.save && P.packed)) {
			if (!v.filling) zk_assert(b.event_manager != nullptr, "event manager");
			auto& x = *a.event_manager;
			auto& y = v.filling ? x : *b.event_manager;
			v.f(x.cleared, y.cleared, "event manager cleared");
			v.f(x.active, y.active, "event manager active");
		}
	} else if (!v.filling) {
		zk_assert(b.event_manager == nullptr, "no event manager");
	}
	if (v.save) {
		v.f(a.sleep_mode, b.sleep_mode, "sleep_mode");
		v.f(a.next_on_timer, b.next_on_timer, "next_on_timer");
		if (P.body) {
			if (v.filling) a.rigid_body.emplace();
			else zk_assert(b.rigid_body.has_value(), "rigid body");
			fields(v, *a.rigid_body, v.filling ? *a.rigid_body : *b.rigid_body);
		}
	} else if (v.filling && P.body) a.rigid_body.emplace();
}

static inline void fields(Visit& v, VAnimate& a, VAnimate& b) {
	v.f(a.start_on, b.start_on, "start_on");
	if (v.save) v.f(a.s_is_running, b.s_is_running, "s_is_running");
	else if (!v.filling) zk_assert(b.s_is_running == b.start_on, "not running unless started");
}
static inline void fields(Visit& v, VItem& a, VItem& b) {
	v.f(a.instance, b.instance, "instance");
	if (v.save) {
		v.f(a.s_amount, b.s_amount, "s_amount");
		v.f(a.s_flags, b.s_flags, "s_flags");
	}
}
static inline void fields(Visit& v, VLensFlare& a, VLensFlare& b) { v.f(a.fx, b.fx, "fx"); }
static inline void fields(Visit& v, VParticleEffectController& a, VParticleEffectController& b) {
	v.f(a.pfx_name, b.pfx_name, "pfx_name");
	v.f(a.kill_when_done, b.kill_when_done, "kill_when_done");
	v.f(a.initially_running, b.initially_running, "initially_running");
}
static inline void fields(Visit& v, VMessageFilter& a, VMessageFilter& b) {
	v.f(a.target, b.target, "target");
	v.f(a.on_trigger, b.on_trigger, "on_trigger");
	v.f(a.on_untrigger, b.on_untrigger, "on_untrigger");
}
static inline void fields(Visit& v, VCodeMaster& a, VCodeMaster& b) {
	v.f(a.target, b.target, "target");
	v.f(a.ordered, b.ordered, "ordered");
	v.f(a.first_false_is_failure, b.first_false_is_failure, "first_false_is_failure");
	v.f(a.failure_target, b.failure_target, "failure_target");
	v.f(a.untriggered_cancels, b.untriggered_cancels, "untriggered_cancels");
	v.f(a.slaves, b.slaves, (size_t) P.n, "slaves");
	if (v.save && v.g2()) v.f(a.s_num_triggered_slaves, b.s_num_triggered_slaves, "s_num_triggered_slaves");
}
static inline void fields(Visit& v, VMoverController& a, VMoverController& b) {
	v.f(a.target, b.target, "target");
	v.f(a.message, b.message, "message");
	v.f(a.key, b.key, "key");
}
static inline void fields(Visit& v, VTouchDamage& a, VTouchDamage& b) {
	v.f(a.damage, b.damage, "damage");
	v.f(a.barrier, b.barrier, "barrier");
	v.f(a.blunt, b.blunt, "blunt");
	v.f(a.edge, b.edge, "edge");
	v.f(a.fire, b.fire, "fire");
	v.f(a.fly, b.fly, "fly");
	v.f(a.magic, b.magic, "magic");
	v.f(a.point, b.point, "point");
	v.f(a.fall, b.fall, "fall");
	v.f(a.repeat_delay_sec, b.repeat_delay_sec, "repeat_delay_sec");
	v.f(a.volume_scale, b.volume_scale, "volume_scale");
	v.f(a.collision, b.collision, "collision");
}
static inline void fields(Visit& v, VEarthquake& a, VEarthquake& b) {
	v.f(a.radius, b.radius, "radius");
	v.f(a.duration, b.duration, "duration");
	v.f(a.amplitude, b.amplitude, "amplitude");
}
static inline void fields(Visit& v, VNpc::Talent& a, VNpc::Talent& b) {
	v.f(a.talent, b.talent, "talent");
	v.f(a.value, b.value, "talent value");
	v.f(a.skill, b.skill, "talent skill");
}
static inline void fields(Visit& v, VMovableObject& a, VMovableObject& b) {
	v.f(a.name, b.name, "name");
	v.f(a.hp, b.hp, "hp");
	v.f(a.damage, b.damage, "damage");
	v.f(a.movable, b.movable, "movable");
	v.f(a.takable, b.takable, "takable");
	v.f(a.focus_override, b.focus_override, "focus_override");
	v.f(a.material, b.material, "material");
	v.f(a.visual_destroyed, b.visual_destroyed, "visual_destroyed");
	v.f(a.owner, b.owner, "owner");
	v.f(a.owner_guild, b.owner_guild, "owner_guild");
	v.f(a.destroyed, b.destroyed, "destroyed");
}
static inline void fields(Visit& v, VInteractiveObject& a, VInteractiveObject& b) {
	fields(v, static_cast<VMovableObject&>(a), static_cast<VMovableObject&>(b));
	v.f(a.state_count, b.state_count, "state_count");
	v.f(a.target, b.target, "target");
	v.f(a.item, b.item, "item");
	v.f(a.condition_function, b.condition_function, "condition_function");
	v.f(a.on_state_change_function, b.on_state_change_function, "on_state_change_function");
	v.f(a.rewind, b.rewind, "rewind");
}
static inline void fields(Visit& v, VFire& a, VFire& b) {
	fields(v, static_cast<VInteractiveObject&>(a), static_cast<VInteractiveObject&>(b));
	v.f(a.slot, b.slot, "slot");
	v.f(a.vob_tree, b.vob_tree, "vob_tree");
}
// nested items: only their own fields are arbitrary
static inline void item(Visit& v, std::shared_ptr<VItem>& a, std::shared_ptr<VItem>& b) {
	if (v.filling) {
		a = std::make_shared<VItem>();
		a->physics_enabled = false;
		fields(v, *a, *a);
		if (!v.save) a->s_amount = a->s_flags = 0;
	} else {
		zk_assert(b != nullptr, "contained item");
		fields(v, *a, *b);
	}
}
static inline void items(Visit& v, std::vector<std::shared_ptr<VItem>>& a, std::vector<std::shared_ptr<VItem>>& b, int n) {
	if (v.filling) a.resize((size_t) n);
	else zk_assert(b.size() == (size_t) n, "number of items");
	for (size_t i = 0; i < (size_t) n; ++i) {
		item(v, a[i], v.filling ? a[i] : b[i]);
		if (v.filling && n > 3) a[i]->s_flags = i % 2 ? 0x200 : 1; // keeps the number of cases small
	}
}
static inline void fields(Visit& v, VContainer& a, VContainer& b) {
	fields(v, static_cast<VInteractiveObject&>(a), static_cast<VInteractiveObject&>(b));
	v.f(a.locked, b.locked, "locked");
	v.f(a.key, b.key, "key");
	v.f(a.pick_string, b.pick_string, "pick_string");
	v.f(a.contents, b.contents, "contents");
	if (v.save) items(v, a.s_items, b.s_items, P.n);
}
static inline void fields(Visit& v, VDoor& a, VDoor& b) {
	fields(v, static_cast<VInteractiveObject&>(a), static_cast<VInteractiveObject&>(b));
	v.f(a.locked, b.locked, "locked");
	v.f(a.key, b.key, "key");
	v.f(a.pick_string, b.pick_string, "pick_string");
}
static inline void fields(Visit& v, VTrigger& a, VTrigger& b) {
	v.f(a.target, b.target, "target");
	v.f(a.flags, b.flags, "flags");
	v.f(a.filter_flags, b.filter_flags, "filter_flags");
	v.f(a.vob_target, b.vob_target, "vob_target");
	v.f(a.max_activation_count, b.max_activation_count, "max_activation_count");
	v.f(a.retrigger_delay_sec, b.retrigger_delay_sec, "retrigger_delay_sec");
	v.f(a.damage_threshold, b.damage_threshold, "damage_threshold");
	v.f(a.fire_delay_sec, b.fire_delay_sec, "fire_delay_sec");
	if (v.save) {
		v.f(a.s_next_time_triggerable, b.s_next_time_triggerable, "s_next_time_triggerable");
		v.f(a.s_count_can_be_activated, b.s_count_can_be_activated, "s_count_can_be_activated");
		if (v.g2()) v.f(a.s_is_enabled, b.s_is_enabled, "s_is_enabled");
		if (P.n > 1) {
			if (v.filling) {
				auto o = std::make_shared<VSpot>();
				o->physics_enabled = false;
				o->vob_name = "OTHER";
				a.s_other_vob = o;
			} else zk_assert(b.s_other_vob != nullptr && b.s_other_vob->vob_name == "OTHER", "s_other_vob");
		} else if (!v.filling) zk_assert(b.s_other_vob == nullptr, "no s_other_vob");
	} else if (!v.filling) zk_assert(b.s_count_can_be_activated == b.max_activation_count, "s_count_can_be_activated default");
	if (!v.filling) {
		zk_assert(b.start_enabled == ((a.flags & 1) != 0) && b.send_untrigger == ((a.flags & 4) != 0), "decoded flags");
		zk_assert(b.react_to_on_trigger == ((a.filter_flags & 1) != 0) && b.react_to_on_touch == ((a.filter_flags & 2) != 0) &&
		              b.react_to_on_damage == ((a.filter_flags & 4) != 0) && b.respond_to_object == ((a.filter_flags & 8) != 0) &&
		              b.respond_to_pc == ((a.filter_flags & 16) != 0) && b.respond_to_npc == ((a.filter_flags & 32) != 0),
		          "decoded filter flags");
	}
}
static inline void fields(Visit& v, VMover& a, VMover& b) {
	fields(v, static_cast<VTrigger&>(a), static_cast<VTrigger&>(b));
	v.f(a.behavior, b.behavior, "behavior");
	v.f(a.touch_blocker_damage, b.touch_blocker_damage, "touch_blocker_damage");
	v.f(a.stay_open_time_sec, b.stay_open_time_sec, "stay_open_time_sec");
	v.f(a.locked, b.locked, "locked");
	v.f(a.auto_link, b.auto_link, "auto_link");
	if (v.g2()) v.f(a.auto_rotate, b.auto_rotate, "auto_rotate");
	auto n = (size_t) P.n - 1;
	if (v.filling) a.keyframes.resize(n);
	else zk_assert(b.keyframes.size() == n, "number of keyframes");
	if (n > 0) {
		v.f(a.speed, b.speed, "speed");
		v.f(a.lerp_mode, b.lerp_mode, "lerp_mode");
		v.f(a.speed_mode, b.speed_mode, "speed_mode");
	}
	for (size_t i = 0; i < n; ++i) {
		auto& x = a.keyframes[i];
		auto& y = v.filling ? x : b.keyframes[i];
		v.raw(x.position, y.position, "keyframe position");
		v.raw(x.rotation.x, y.rotation.x, "keyframe rotation x");
		v.raw(x.rotation.y, y.rotation.y, "keyframe rotation y");
		v.raw(x.rotation.z, y.rotation.z, "keyframe rotation z");
		v.raw(x.rotation.w, y.rotation.w, "keyframe rotation w");
	}
	v.f(a.sfx_open_start, b.sfx_open_start, "sfx_open_start");
	v.f(a.sfx_open_end, b.sfx_open_end, "sfx_open_end");
	v.f(a.sfx_transitioning, b.sfx_transitioning, "sfx_transitioning");
	v.f(a.sfx_close_start, b.sfx_close_start, "sfx_close_start");
	v.f(a.sfx_close_end, b.sfx_close_end, "sfx_close_end");
	v.f(a.sfx_lock, b.sfx_lock, "sfx_lock");
	v.f(a.sfx_unlock, b.sfx_unlock, "sfx_unlock");
	v.f(a.sfx_use_locked, b.sfx_use_locked, "sfx_use_locked");
	if (v.save) {
		v.f(a.s_act_key_pos_delta, b.s_act_key_pos_delta, "s_act_key_pos_delta");
		v.f(a.s_act_keyframe_f, b.s_act_keyframe_f, "s_act_keyframe_f");
		v.f(a.s_act_keyframe, b.s_act_keyframe, "s_act_keyframe");
		v.f(a.s_next_keyframe, b.s_next_keyframe, "s_next_keyframe");
		v.f(a.s_move_speed_unit, b.s_move_speed_unit, "s_move_speed_unit");
		v.f(a.s_advance_dir, b.s_advance_dir, "s_advance_dir");
		if (v.filling) a.s_mover_state = v.fmt.en("s_mover_state");
		else zk_assert(a.s_mover_state == b.s_mover_state, "s_mover_state");
		v.f(a.s_trigger_event_count, b.s_trigger_event_count, "s_trigger_event_count");
		v.f(a.s_stay_open_time_dest, b.s_stay_open_time_dest, "s_stay_open_time_dest");
	}
}
static inline void fields(Visit& v, VTriggerList& a, VTriggerList& b) {
	fields(v, static_cast<VTrigger&>(a), static_cast<VTrigger&>(b));
	if (v.filling) a.mode = static_cast<TriggerBatchMode>(v.fmt.en("mode"));
	else zk_assert(a.mode == b.mode, "mode");
	auto n = (size_t) P.n;
	if (v.filling) a.targets.resize(n);
	else zk_assert(b.targets.size() == n, "number of targets");
	for (size_t i = 0; i < n; ++i) {
		auto& y = v.filling ? a.targets[i] : b.targets[i];
		v.f(a.targets[i].name, y.name, "target name");
		v.f(a.targets[i].delay, y.delay, "target delay");
	}
	if (v.save) {
		v.f(a.s_act_target, b.s_act_target, "s_act_target");
		v.f(a.s_send_on_trigger, b.s_send_on_trigger, "s_send_on_trigger");
	}
}
static inline void fields(Visit& v, VTriggerScript& a, VTriggerScript& b) {
	fields(v, static_cast<VTrigger&>(a), static_cast<VTrigger&>(b));
	v.f(a.function, b.function, "function");
}
static inline void fields(Visit& v, VTriggerChangeLevel& a, VTriggerChangeLevel& b) {
	fields(v, static_cast<VTrigger&>(a), static_cast<VTrigger&>(b));
	v.f(a.level_name, b.level_name, "level_name");
	v.f(a.start_vob, b.start_vob, "start_vob");
}
static inline void fields(Visit& v, VTriggerWorldStart& a, VTriggerWorldStart& b) {
	v.f(a.target, b.target, "target");
	v.f(a.fire_once, b.fire_once, "fire_once");
	if (v.save && v.g2()) v.f(a.s_has_fired, b.s_has_fired, "s_has_fired");
}
static inline void fields(Visit& v, VTriggerUntouch& a, VTriggerUntouch& b) { v.f(a.target, b.target, "target"); }
static inline void fields(Visit& v, VCameraTrajectoryFrame& a, VCameraTrajectoryFrame& b) {
	v.f(a.time, b.time, "time");
	v.f(a.roll_angle, b.roll_angle, "roll_angle");
	v.f(a.fov_scale, b.fov_scale, "fov_scale");
	v.f(a.motion_type, b.motion_type, "motion_type");
	v.f(a.motion_type_fov, b.motion_type_fov, "motion_type_fov");
	v.f(a.motion_type_roll, b.motion_type_roll, "motion_type_roll");
	v.f(a.motion_type_time_scale, b.motion_type_time_scale, "motion_type_time_scale");
	v.f(a.tension, b.tension, "tension");
	v.f(a.cam_bias, b.cam_bias, "cam_bias");
	v.f(a.continuity, b.continuity, "continuity");
	v.f(a.time_scale, b.time_scale, "time_scale");
	v.f(a.time_fixed, b.time_fixed, "time_fixed");
	v.f(a.original_pose, b.original_pose, "original_pose");
}
static inline void frames(Visit& v, std::vector<std::shared_ptr<VCameraTrajectoryFrame>>& a,
                          std::vector<std::shared_ptr<VCameraTrajectoryFrame>>& b, int n) {
	if (v.filling) a.resize((size_t) n);
	else zk_assert(b.size() == (size_t) n, "number of camera frames");
	for (size_t i = 0; i < (size_t) n; ++i) {
		if (v.filling) {
			a[i] = std::make_shared<VCameraTrajectoryFrame>();
			a[i]->physics_enabled = false;
		} else zk_assert(b[i] != nullptr, "camera frame");
		fields(v, *a[i], v.filling ? *a[i] : *b[i]);
	}
}
static inline void fields(Visit& v, VCutsceneCamera& a, VCutsceneCamera& b) {
	v.f(a.trajectory_for, b.trajectory_for, "trajectory_for");
	v.f(a.target_trajectory_for, b.target_trajectory_for, "target_trajectory_for");
	v.f(a.loop_mode, b.loop_mode, "loop_mode");
	v.f(a.lerp_mode, b.lerp_mode, "lerp_mode");
	v.f(a.ignore_for_vob_rotation, b.ignore_for_vob_rotation, "ignore_for_vob_rotation");
	v.f(a.ignore_for_vob_rotation_target, b.ignore_for_vob_rotation_target, "ignore_for_vob_rotation_target");
	v.f(a.adapt, b.adapt, "adapt");
	v.f(a.ease_first, b.ease_first, "ease_first");
	v.f(a.ease_last, b.ease_last, "ease_last");
	v.f(a.total_duration, b.total_duration, "total_duration");
	v.f(a.auto_focus_vob, b.auto_focus_vob, "auto_focus_vob");
	v.f(a.auto_player_movable, b.auto_player_movable, "auto_player_movable");
	v.f(a.auto_untrigger_last, b.auto_untrigger_last, "auto_untrigger_last");
	v.f(a.auto_untrigger_last_delay, b.auto_untrigger_last_delay, "auto_untrigger_last_delay");
	if (v.filling) {
		a.position_count = P.n;
		a.target_count = P.n - 1;
	} else {
		zk_assert(b.position_count == P.n && b.target_count == P.n - 1, "frame counts");
	}
	frames(v, a.trajectory_frames, b.trajectory_frames, P.n);
	frames(v, a.target_frames, b.target_frames, P.n - 1);
	if (v.save && v.g2()) {
		v.f(a.paused, b.paused, "paused");
		v.f(a.started, b.started, "started");
		v.f(a.goto_time_mode, b.goto_time_mode, "goto_time_mode");
		v.f(a.cs_time, b.cs_time, "cs_time");
	}
}
static inline void fields(Visit& v, LightPreset& a, LightPreset& b) {
	v.f(a.preset, b.preset, "preset");
	v.f(a.light_type, b.light_type, "light_type");
	v.f(a.range, b.range, "range");
	v.f(a.color, b.color, "color");
	v.f(a.cone_angle, b.cone_angle, "cone_angle");
	if (v.filling) a.is_static = zk_split(zk_any_bool("is_static"));
	else zk_assert(a.is_static == b.is_static, "is_static");
	v.f(a.quality, b.quality, "quality");
	v.f(a.lensflare_fx, b.lensflare_fx, "lensflare_fx");
	if (a.is_static) {
		if (!v.filling) zk_assert(b.range_animation_scale.empty() && b.color_animation_list.empty(), "static lights have no animation");
		return;
	}
	v.f(a.on, b.on, "on");
	v.f(a.range_animation_fps, b.range_animation_fps, "range_animation_fps");
	v.f(a.range_animation_smooth, b.range_animation_smooth, "range_animation_smooth");
	v.f(a.color_animation_fps, b.color_animation_fps, "color_animation_fps");
	v.f(a.color_animation_smooth, b.color_animation_smooth, "color_animation_smooth");
	if (v.g2()) v.f(a.can_move, b.can_move, "can_move");
	auto n = (size_t) P.n;
	if (v.filling) {
		for (size_t i = 0; i < n; ++i) a.range_animation_scale.push_back(zk_finite("range_animation_scale"));
		for (size_t i = 0; i < n - 1; ++i) {
			auto c = any_color("color_animation_list");
			c.a = 255;
			a.color_animation_list.push_back(c);
		}
	} else {
		zk_assert(b.range_animation_scale.size() == n, "number of range animation steps");
		for (size_t i = 0; i < n; ++i) zk_assert(same(b.range_animation_scale[i], zk_text_g6(a.range_animation_scale[i])), "range_animation_scale");
		zk_assert(b.color_animation_list.size() == n - 1, "number of color animation steps");
		for (size_t i = 0; i < n - 1; ++i) zk_assert(same(b.color_animation_list[i], a.color_animation_list[i]), "color_animation_list");
	}
}
static inline void fields(Visit& v, VLight& a, VLight& b) { fields(v, static_cast<LightPreset&>(a), static_cast<LightPreset&>(b)); }
static inline void fields(Visit& v, VSound& a, VSound& b) {
	v.f(a.volume, b.volume, "volume");
	v.f(a.mode, b.mode, "mode");
	v.f(a.random_delay, b.random_delay, "random_delay");
	v.f(a.random_delay_var, b.random_delay_var, "random_delay_var");
	v.f(a.initially_playing, b.initially_playing, "initially_playing");
	v.f(a.ambient3d, b.ambient3d, "ambient3d");
	v.f(a.obstruction, b.obstruction, "obstruction");
	v.f(a.cone_angle, b.cone_angle, "cone_angle");
	v.f(a.volume_type, b.volume_type, "volume_type");
	v.f(a.radius, b.radius, "radius");
	v.f(a.sound_name, b.sound_name, "sound_name");
	if (v.save) {
		v.f(a.s_is_running, b.s_is_running, "s_is_running");
		v.f(a.s_is_allowed_to_run, b.s_is_allowed_to_run, "s_is_allowed_to_run");
	}
}
static inline void fields(Visit& v, VSoundDaytime& a, VSoundDaytime& b) {
	fields(v, static_cast<VSound&>(a), static_cast<VSound&>(b));
	v.f(a.start_time, b.start_time, "start_time");
	v.f(a.end_time, b.end_time, "end_time");
	v.f(a.sound_name2, b.sound_name2, "sound_name2");
}
static inline void fields(Visit& v, VZoneMusic& a, VZoneMusic& b) {
	v.f(a.enabled, b.enabled, "enabled");
	v.f(a.priority, b.priority, "priority");
	v.f(a.ellipsoid, b.ellipsoid, "ellipsoid");
	v.f(a.reverb, b.reverb, "reverb");
	v.f(a.volume, b.volume, "volume");
	v.f(a.loop, b.loop, "loop");
	if (v.save) {
		v.f(a.s_local_enabled, b.s_local_enabled, "s_local_enabled");
		v.f(a.s_day_entrance_done, b.s_day_entrance_done, "s_day_entrance_done");
		v.f(a.s_night_entrance_done, b.s_night_entrance_done, "s_night_entrance_done");
	}
}
static inline void fields(Visit& v, VZoneFarPlane& a, VZoneFarPlane& b) {
	v.f(a.vob_far_plane_z, b.vob_far_plane_z, "vob_far_plane_z");
	v.f(a.inner_range_percentage, b.inner_range_percentage, "inner_range_percentage");
}
static inline void fields(Visit& v, VZoneFog& a, VZoneFog& b) {
	v.f(a.range_center, b.range_center, "range_center");
	v.f(a.inner_range_percentage, b.inner_range_percentage, "inner_range_percentage");
	v.f(a.color, b.color, "color");
	if (v.g2()) {
		v.f(a.fade_out_sky, b.fade_out_sky, "fade_out_sky");
		v.f(a.override_color, b.override_color, "override_color");
	}
}
static inline void fields(Visit& v, VNpc& a, VNpc& b) {
	v.f(a.npc_instance, b.npc_instance, "npc_instance");
	v.f(a.model_scale, b.model_scale, "model_scale");
	v.f(a.model_fatness, b.model_fatness, "model_fatness");
	v.f(a.overlays, b.overlays, (size_t) P.n, "overlays");
	v.f(a.flags, b.flags, "flags");
	v.f(a.guild, b.guild, "guild");
	v.f(a.guild_true, b.guild_true, "guild_true");
	v.f(a.level, b.level, "level");
	v.f(a.xp, b.xp, "xp");
	v.f(a.xp_next_level, b.xp_next_level, "xp_next_level");
	v.f(a.lp, b.lp, "lp");
	if (v.filling) a.talents.resize((size_t) P.n);
	else zk_assert(b.talents.size() == (size_t) P.n, "number of talents");
	for (size_t i = 0; i < (size_t) P.n; ++i) {
		if (v.filling) a.talents[i] = std::make_shared<VNpc::Talent>();
		else zk_assert(b.talents[i] != nullptr, "talent object");
		fields(v, *a.talents[i], v.filling ? *a.talents[i] : *b.talents[i]);
	}
	v.f(a.fight_tactic, b.fight_tactic, "fight_tactic");
	v.f(a.fight_mode, b.fight_mode, "fight_mode");
	v.f(a.wounded, b.wounded, "wounded");
	v.f(a.mad, b.mad, "mad");
	v.f(a.mad_time, b.mad_time, "mad_time");
	v.f(a.player, b.player, "player");
	v.f(a.attributes, b.attributes, "attributes");
	if (v.g2()) v.f(a.hit_chance, b.hit_chance, "hit_chance");
	v.f(a.missions, b.missions, "missions");
	v.f(a.start_ai_state, b.start_ai_state, "start_ai_state");
	for (size_t i = 0; i < (v.g2() ? 100u : 50u); ++i) v.f(a.aivar[i], b.aivar[i], "aivar");
	v.f(a.script_waypoint, b.script_waypoint, "script_waypoint");
	v.f(a.attitude, b.attitude, "attitude");
	v.f(a.attitude_temp, b.attitude_temp, "attitude_temp");
	v.f(a.name_nr, b.name_nr, "name_nr");
	v.f(a.move_lock, b.move_lock, "move_lock");
	for (size_t i = 0; i < 9; ++i) v.str(a.packed[i], b.packed[i], i % 3, "packed", "\r\n;");
	if (v.filling) a.news.resize((size_t) P.n);
	else zk_assert(b.news.size() == (size_t) P.n, "number of news");
	for (size_t i = 0; i < (size_t) P.n; ++i) {
		if (v.filling) a.news[i] = std::make_unique<VNpc::News>();
		auto& x = *a.news[i];
		auto& y = v.filling ? x : *b.news[i];
		v.f(x.told, y.told, "news told");
		v.f(x.spread_time, y.spread_time, "news spread_time");
		if (v.filling) {
			x.spread_type = static_cast<VNpc::NewsSpread>(zk_any_u32("news spread_type"));
			x.news_id = static_cast<VNpc::NewsId>(zk_any_u32("news news_id"));
		} else {
			zk_assert(x.spread_type == y.spread_type, "news spread_type");
			zk_assert(x.news_id == y.news_id, "news news_id");
		}
		v.f(x.gossip, y.gossip, "news gossip");
		v.f(x.guild_victim, y.guild_victim, "news guild_victim");
		v.f(x.witness_name, y.witness_name, "news witness_name");
		v.f(x.offender_name, y.offender_name, "news offender_name");
		v.f(x.victim_name, y.victim_name, "news victim_name");
	}
	items(v, a.items, b.items, P.n);
	if (v.filling) a.slots.resize((size_t) P.n);
	else zk_assert(b.slots.size() == (size_t) P.n, "number of slots");
	for (size_t i = 0; i < (size_t) P.n; ++i) {
		if (v.filling) a.slots[i] = std::make_unique<VNpc::Slot>();
		auto& x = *a.slots[i];
		auto& y = v.filling ? x : *b.slots[i];
		if (v.filling) x.used = i % 2 == 0;
		else zk_assert(x.used == y.used, "slot used");
		v.f(x.name, y.name, "slot name");
		if (x.used) {
			item(v, x.item, v.filling ? x.item : y.item);
			v.f(x.in_inventory, y.in_inventory, "slot in_inventory");
		}
	}
	v.f(a.current_state_valid, b.current_state_valid, "current_state_valid");
	v.f(a.current_state_name, b.current_state_name, "current_state_name");
	v.f(a.current_state_index, b.current_state_index, "current_state_index");
	v.f(a.current_state_is_routine, b.current_state_is_routine, "current_state_is_routine");
	v.f(a.next_state_valid, b.next_state_valid, "next_state_valid");
	v.f(a.next_state_name, b.next_state_name, "next_state_name");
	v.f(a.next_state_index, b.next_state_index, "next_state_index");
	v.f(a.next_state_is_routine, b.next_state_is_routine, "next_state_is_routine");
	v.f(a.last_ai_state, b.last_ai_state, "last_ai_state");
	v.f(a.has_routine, b.has_routine, "has_routine");
	v.f(a.routine_changed, b.routine_changed, "routine_changed");
	v.f(a.routine_overlay, b.routine_overlay, "routine_overlay");
	v.f(a.routine_overlay_count, b.routine_overlay_count, "routine_overlay_count");
	v.f(a.walkmode_routine, b.walkmode_routine, "walkmode_routine");
	v.f(a.weaponmode_routine, b.weaponmode_routine, "weaponmode_routine");
	v.f(a.start_new_routine, b.start_new_routine, "start_new_routine");
	v.f(a.ai_state_driven, b.ai_state_driven, "ai_state_driven");
	v.f(a.ai_state_pos, b.ai_state_pos, "ai_state_pos");
	v.f(a.current_routine, b.current_routine, "current_routine");
	v.f(a.respawn, b.respawn, "respawn");
	v.f(a.respawn_time, b.respawn_time, "respawn_time");
	v.f(a.protection, b.protection, "protection");
	if (v.g2()) {
		v.f(a.bs_interruptable_override, b.bs_interruptable_override, "bs_interruptable_override");
		v.f(a.npc_type, b.npc_type, "npc_type");
		v.f(a.spell_mana, b.spell_mana, "spell_mana");
	}
	if (P.n > 1) {
		if (v.filling) {
			auto o = std::make_shared<VSpot>();
			o->physics_enabled = false;
			o->vob_name = "CARRIED";
			a.carry_vob = o;
			a.enemy = o;
		} else {
			zk_assert(b.carry_vob != nullptr && b.carry_vob->vob_name == "CARRIED", "carry_vob");
			zk_assert(b.enemy == b.carry_vob, "enemy shared with carry_vob");
		}
	} else if (!v.filling) zk_assert(b.carry_vob == nullptr && b.enemy == nullptr, "no carry_vob, no enemy");
}
struct NoFields {};
static inline void fields(Visit&, NoFields&, NoFields&) {}
static inline void fields(Visit&, VScreenEffect&, VScreenEffect&) {}

// save an object of class T with arbitrary contents in the given game version / archive format and load it again
template <typename T, bool OWN = true>
static inline void roundtrip(Fmt fmt, GameVersion ver, bool save) {
	VirtualObject::enable_packed_save(P.packed);
	Visit v {fmt, ver, save};
	auto a = std::make_shared<T>();
	fields(v, static_cast<VirtualObject&>(*a), static_cast<VirtualObject&>(*a));
	if constexpr (OWN) fields(v, *a, *a);
	std::vector<std::byte> buf;
	auto after = zk_any_u32("value after the object");
	write_archive(buf, fmt, save, [&](WriteArchive& w) {
		w.write_object("obj", a, ver);
		w.write_int("after", (int32_t) after);
	});
	auto r = Read::from(&buf);
	auto ra = ReadArchive::from(r.get());
	auto b = ra->template read_object<T>(ver);
	zk_assert(b != nullptr, "object loaded");
	zk_assert(b->get_object_type() == T::TYPE, "object type");
	zk_assert(b->type == static_cast<VirtualObjectType>(T::TYPE), "VOb type");
	v.filling = false;
	fields(v, static_cast<VirtualObject&>(*a), static_cast<VirtualObject&>(*b));
	if constexpr (OWN) fields(v, *a, *b);
	zk_assert((uint32_t) ra->read_int() == after, "reader stands right behind the object");
	zk_cover("end");
}
