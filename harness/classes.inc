// The members of the known script classes and the fields they are bound to. OPT: not every game has it.
CLASS(IGuildValues, "C_GILVALUES")
MEM(WATER_DEPTH_KNEE, water_depth_knee)
MEM(WATER_DEPTH_CHEST, water_depth_chest)
MEM(JUMPUP_HEIGHT, jumpup_height)
MEM(SWIM_TIME, swim_time)
MEM(DIVE_TIME, dive_time)
MEM(STEP_HEIGHT, step_height)
MEM(JUMPLOW_HEIGHT, jumplow_height)
MEM(JUMPMID_HEIGHT, jumpmid_height)
MEM(SLIDE_ANGLE, slide_angle)
MEM(SLIDE_ANGLE2, slide_angle2)
MEM(DISABLE_AUTOROLL, disable_autoroll)
MEM(SURFACE_ALIGN, surface_align)
MEM(CLIMB_HEADING_ANGLE, climb_heading_angle)
MEM(CLIMB_HORIZ_ANGLE, climb_horiz_angle)
MEM(CLIMB_GROUND_ANGLE, climb_ground_angle)
MEM(FIGHT_RANGE_BASE, fight_range_base)
MEM(FIGHT_RANGE_FIST, fight_range_fist)
MEM(FIGHT_RANGE_1HS, fight_range_1hs)
MEM(FIGHT_RANGE_1HA, fight_range_1ha)
MEM(FIGHT_RANGE_2HS, fight_range_2hs)
MEM(FIGHT_RANGE_2HA, fight_range_2ha)
MEM(FALLDOWN_HEIGHT, falldown_height)
MEM(FALLDOWN_DAMAGE, falldown_damage)
MEM(BLOOD_DISABLED, blood_disabled)
MEM(BLOOD_MAX_DISTANCE, blood_max_distance)
MEM(BLOOD_AMOUNT, blood_amount)
MEM(BLOOD_FLOW, blood_flow)
MEM(BLOOD_EMITTER, blood_emitter)
MEM(BLOOD_TEXTURE, blood_texture)
MEM(TURN_SPEED, turn_speed)
OPT(FIGHT_RANGE_G, fight_range_g)
CLASS_END
CLASS(IFightAi, "C_FIGHTAI")
MEM(MOVE, move)
CLASS_END
CLASS(ISoundEffect, "C_SFX")
MEM(FILE, file)
MEM(PITCHOFF, pitch_off)
MEM(PITCHVAR, pitch_var)
MEM(VOL, vol)
MEM(LOOP, loop)
MEM(LOOPSTARTOFFSET, loop_start_offset)
MEM(LOOPENDOFFSET, loop_end_offset)
MEM(REVERBLEVEL, reverb_level)
MEM(PFXNAME, pfx_name)
CLASS_END
CLASS(ISoundSystem, "C_SNDSYS_CFG")
MEM(VOLUME, volume)
MEM(BITRESOLUTION, bit_resolution)
MEM(SAMPLERATE, sample_rate)
MEM(USESTEREO, use_stereo)
MEM(NUMSFXCHANNELS, num_sfx_channels)
MEM(USED3DPROVIDERNAME, used_3d_provider_name)
CLASS_END
CLASS(IParticleEffectEmitKey, "C_PARTICLEFXEMITKEY")
MEM(VISNAME_S, vis_name_s)
MEM(VISSIZESCALE, vis_size_scale)
MEM(SCALEDURATION, scale_duration)
MEM(PFX_PPSVALUE, pfx_pps_value)
MEM(PFX_PPSISSMOOTHCHG, pfx_pps_is_smooth_chg)
MEM(PFX_PPSISLOOPINGCHG, pfx_pps_is_looping_chg)
MEM(PFX_SCTIME, pfx_sc_time)
MEM(PFX_FLYGRAVITY_S, pfx_fly_gravity_s)
MEM(PFX_SHPDIM_S, pfx_shp_dim_s)
MEM(PFX_SHPISVOLUMECHG, pfx_shp_is_volume_chg)
MEM(PFX_SHPSCALEFPS, pfx_shp_scale_fps)
MEM(PFX_SHPDISTRIBWALKSPEED, pfx_shp_distrib_walks_peed)
MEM(PFX_SHPOFFSETVEC_S, pfx_shp_offset_vec_s)
MEM(PFX_SHPDISTRIBTYPE_S, pfx_shp_distrib_type_s)
MEM(PFX_DIRMODE_S, pfx_dir_mode_s)
MEM(PFX_DIRFOR_S, pfx_dir_for_s)
MEM(PFX_DIRMODETARGETFOR_S, pfx_dir_mode_target_for_s)
MEM(PFX_DIRMODETARGETPOS_S, pfx_dir_mode_target_pos_s)
MEM(PFX_VELAVG, pfx_vel_avg)
MEM(PFX_LSPPARTAVG, pfx_lsp_part_avg)
MEM(PFX_VISALPHASTART, pfx_vis_alpha_start)
MEM(LIGHTPRESETNAME, light_preset_name)
MEM(LIGHTRANGE, light_range)
MEM(SFXID, sfx_id)
MEM(SFXISAMBIENT, sfx_is_ambient)
MEM(EMCREATEFXID, em_create_fx_id)
MEM(EMFLYGRAVITY, em_fly_gravity)
MEM(EMSELFROTVEL_S, em_self_rot_vel_s)
MEM(EMTRJMODE_S, em_trj_mode_s)
MEM(EMTRJEASEVEL, em_trj_ease_vel)
MEM(EMCHECKCOLLISION, em_check_collision)
MEM(EMFXLIFESPAN, em_fx_lifespan)
CLASS_END
CLASS(INpc, "C_NPC")
MEM(ID, id)
MEM(NAME, name)
MEM(SLOT, slot)
MEM(NPCTYPE, type)
MEM(FLAGS, flags)
MEM(ATTRIBUTE, attribute)
MEM(PROTECTION, protection)
MEM(DAMAGE, damage)
MEM(DAMAGETYPE, damage_type)
MEM(GUILD, guild)
MEM(LEVEL, level)
MEM(MISSION, mission)
MEM(FIGHT_TACTIC, fight_tactic)
MEM(WEAPON, weapon)
MEM(VOICE, voice)
MEM(VOICEPITCH, voice_pitch)
MEM(BODYMASS, body_mass)
MEM(DAILY_ROUTINE, daily_routine)
MEM(START_AISTATE, start_aistate)
MEM(SPAWNPOINT, spawnpoint)
MEM(SPAWNDELAY, spawn_delay)
MEM(SENSES, senses)
MEM(SENSES_RANGE, senses_range)
MEM(AIVAR, aivar)
MEM(WP, wp)
MEM(EXP, exp)
MEM(EXP_NEXT, exp_next)
MEM(LP, lp)
OPT(HITCHANCE, hitchance)
OPT(BODYSTATEINTERRUPTABLEOVERRIDE, bodystate_interruptable_override)
OPT(NOFOCUS, no_focus)
OPT(EFFECT, effect)
CLASS_END
CLASS(IMission, "C_MISSION")
MEM(NAME, name)
MEM(DESCRIPTION, description)
MEM(DURATION, duration)
MEM(IMPORTANT, important)
MEM(OFFERCONDITIONS, offer_conditions)
MEM(OFFER, offer)
MEM(SUCCESSCONDITIONS, success_conditions)
MEM(SUCCESS, success)
MEM(FAILURECONDITIONS, failure_conditions)
MEM(FAILURE, failure)
MEM(OBSOLETECONDITIONS, obsolete_conditions)
MEM(OBSOLETE, obsolete)
MEM(RUNNING, running)
CLASS_END
CLASS(IItem, "C_ITEM")
MEM(ID, id)
MEM(NAME, name)
MEM(NAMEID, name_id)
MEM(HP, hp)
MEM(HP_MAX, hp_max)
MEM(MAINFLAG, main_flag)
MEM(FLAGS, flags)
MEM(WEIGHT, weight)
MEM(VALUE, value)
MEM(DAMAGETYPE, damage_type)
MEM(DAMAGETOTAL, damage_total)
MEM(DAMAGE, damage)
MEM(WEAR, wear)
MEM(PROTECTION, protection)
MEM(NUTRITION, nutrition)
MEM(COND_ATR, cond_atr)
MEM(COND_VALUE, cond_value)
MEM(CHANGE_ATR, change_atr)
MEM(CHANGE_VALUE, change_value)
MEM(MAGIC, magic)
MEM(ON_EQUIP, on_equip)
MEM(ON_UNEQUIP, on_unequip)
MEM(ON_STATE, on_state)
MEM(OWNER, owner)
MEM(OWNERGUILD, owner_guild)
MEM(DISGUISEGUILD, disguise_guild)
MEM(VISUAL, visual)
MEM(VISUAL_CHANGE, visual_change)
MEM(VISUAL_SKIN, visual_skin)
MEM(SCEMENAME, scheme_name)
MEM(MATERIAL, material)
MEM(MUNITION, munition)
MEM(SPELL, spell)
MEM(RANGE, range)
MEM(MAG_CIRCLE, mag_circle)
MEM(DESCRIPTION, description)
MEM(TEXT, text)
MEM(COUNT, count)
OPT(INV_ZBIAS, inv_zbias)
OPT(INV_ROTX, inv_rot_x)
OPT(INV_ROTY, inv_rot_y)
OPT(INV_ROTZ, inv_rot_z)
OPT(INV_ANIMATE, inv_animate)
OPT(EFFECT, effect)
CLASS_END
CLASS(IFocus, "C_FOCUS")
MEM(NPC_LONGRANGE, npc_longrange)
MEM(NPC_RANGE1, npc_range1)
MEM(NPC_RANGE2, npc_range2)
MEM(NPC_AZI, npc_azi)
MEM(NPC_ELEVDO, npc_elevdo)
MEM(NPC_ELEVUP, npc_elevup)
MEM(NPC_PRIO, npc_prio)
MEM(ITEM_RANGE1, item_range1)
MEM(ITEM_RANGE2, item_range2)
MEM(ITEM_AZI, item_azi)
MEM(ITEM_ELEVDO, item_elevdo)
MEM(ITEM_ELEVUP, item_elevup)
MEM(ITEM_PRIO, item_prio)
MEM(MOB_RANGE1, mob_range1)
MEM(MOB_RANGE2, mob_range2)
MEM(MOB_AZI, mob_azi)
MEM(MOB_ELEVDO, mob_elevdo)
MEM(MOB_ELEVUP, mob_elevup)
MEM(MOB_PRIO, mob_prio)
CLASS_END
CLASS(IInfo, "C_INFO")
MEM(NPC, npc)
MEM(NR, nr)
MEM(IMPORTANT, important)
MEM(CONDITION, condition)
MEM(INFORMATION, information)
MEM(DESCRIPTION, description)
MEM(TRADE, trade)
MEM(PERMANENT, permanent)
CLASS_END
CLASS(IItemReact, "C_ITEMREACT")
MEM(NPC, npc)
MEM(TRADE_ITEM, trade_item)
MEM(TRADE_AMOUNT, trade_amount)
MEM(REQUESTED_CAT, requested_cat)
MEM(REQUESTED_ITEM, requested_item)
MEM(REQUESTED_AMOUNT, requested_amount)
MEM(REACTION, reaction)
CLASS_END
CLASS(ISpell, "C_SPELL")
MEM(TIME_PER_MANA, time_per_mana)
MEM(DAMAGE_PER_LEVEL, damage_per_level)
MEM(DAMAGETYPE, damage_type)
MEM(SPELLTYPE, spell_type)
MEM(CANTURNDURINGINVEST, can_turn_during_invest)
MEM(CANCHANGETARGETDURINGINVEST, can_change_target_during_invest)
MEM(ISMULTIEFFECT, is_multi_effect)
MEM(TARGETCOLLECTALGO, target_collect_algo)
MEM(TARGETCOLLECTTYPE, target_collect_type)
MEM(TARGETCOLLECTRANGE, target_collect_range)
MEM(TARGETCOLLECTAZI, target_collect_azi)
MEM(TARGETCOLLECTELEV, target_collect_elev)
CLASS_END
CLASS(ISvm, "C_SVM")
OPT(MILGREETINGS, mil_greetings)
OPT(PALGREETINGS, pal_greetings)
OPT(WEATHER, weather)
OPT(IGETYOUSTILL, iget_you_still)
OPT(DIEENEMY, die_enemy)
OPT(DIEMONSTER, die_monster)
OPT(ADDON_DIEMONSTER, addon_die_monster)
OPT(ADDON_DIEMONSTER2, addon_die_monster_2)
OPT(DIRTYTHIEF, dirty_thief)
OPT(HANDSOFF, hands_off)
OPT(SHEEPKILLER, sheep_killer)
OPT(SHEEPKILLERMONSTER, sheep_killer_monster)
OPT(YOUMURDERER, you_murderer)
OPT(DIESTUPIDBEAST, die_stupid_beast)
OPT(YOUDAREHITME, you_dare_hit_me)
OPT(YOUASKEDFORIT, you_asked_for_it)
OPT(THENIBEATYOUOUTOFHERE, then_ibeat_you_out_of_here)
OPT(WHATDIDYOUDOINTHERE, what_did_you_do_in_there)
OPT(WILLYOUSTOPFIGHTING, will_you_stop_fighting)
OPT(KILLENEMY, kill_enemy)
OPT(ENEMYKILLED, enemy_killed)
OPT(MONSTERKILLED, monster_killed)
OPT(ADDON_MONSTERKILLED, addon_monster_killed)
OPT(ADDON_MONSTERKILLED2, addon_monster_killed_2)
OPT(THIEFDOWN, thief_down)
OPT(RUMFUMMLERDOWN, rumfummler_down)
OPT(SHEEPATTACKERDOWN, sheep_attacker_down)
OPT(KILLMURDERER, kill_murderer)
OPT(STUPIDBEASTKILLED, stupid_beast_killed)
OPT(NEVERHITMEAGAIN, never_hit_me_again)
OPT(YOUBETTERSHOULDHAVELISTENED, you_better_should_have_listened)
OPT(GETUPANDBEGONE, get_up_and_begone)
OPT(NEVERENTERROOMAGAIN, never_enter_room_again)
OPT(THEREISNOFIGHTINGHERE, there_is_no_fighting_here)
OPT(SPAREME, spare_me)
OPT(RUNAWAY, run_away)
OPT(ALARM, alarm)
OPT(GUARDS, guards)
OPT(HELP, help)
OPT(GOODMONSTERKILL, good_monster_kill)
OPT(GOODKILL, good_kill)
OPT(NOTNOW, not_now)
OPT(RUNCOWARD, run_coward)
OPT(GETOUTOFHERE, get_out_of_here)
OPT(WHYAREYOUINHERE, why_are_you_in_here)
OPT(YESGOOUTOFHERE, yes_go_out_of_here)
OPT(WHATSTHISSUPPOSEDTOBE, whats_this_supposed_to_be)
OPT(YOUDISTURBEDMYSLUMBER, you_disturbed_my_slumber)
OPT(ITOOKYOURGOLD, itook_your_gold)
OPT(SHITNOGOLD, shit_no_gold)
OPT(ITAKEYOURWEAPON, itake_your_weapon)
OPT(WHATAREYOUDOING, what_are_you_doing)
OPT(LOOKINGFORTROUBLEAGAIN, looking_for_trouble_again)
OPT(STOPMAGIC, stop_magic)
OPT(ISAIDSTOPMAGIC, isaid_stop_magic)
OPT(WEAPONDOWN, weapon_down)
OPT(ISAIDWEAPONDOWN, isaid_weapon_down)
OPT(WISEMOVE, wise_move)
OPT(NEXTTIMEYOUREINFORIT, next_time_youre_in_for_it)
OPT(OHMYHEAD, oh_my_head)
OPT(THERESAFIGHT, theres_afight)
OPT(OHMYGODITSAFIGHT, oh_my_god_its_afight)
OPT(GOODVICTORY, good_victory)
OPT(NOTBAD, not_bad)
OPT(OHMYGODHESDOWN, oh_my_god_hes_down)
OPT(CHEERFRIEND01, cheer_friend_01)
OPT(CHEERFRIEND02, cheer_friend_02)
OPT(CHEERFRIEND03, cheer_friend_03)
OPT(OOH01, ooh_01)
OPT(OOH02, ooh_02)
OPT(OOH03, ooh_03)
OPT(WHATWASTHAT, what_was_that)
OPT(GETOUTOFMYBED, get_out_of_my_bed)
OPT(AWAKE, awake)
OPT(ABS_COMMANDER, abs_commander)
OPT(ABS_MONASTERY, abs_monastery)
OPT(ABS_FARM, abs_farm)
OPT(ABS_GOOD, abs_good)
OPT(SHEEPKILLER_CRIME, sheep_killer_crime)
OPT(ATTACK_CRIME, attack_crime)
OPT(THEFT_CRIME, theft_crime)
OPT(MURDER_CRIME, murder_crime)
OPT(PAL_CITY_CRIME, pal_city_crime)
OPT(MIL_CITY_CRIME, mil_city_crime)
OPT(CITY_CRIME, city_crime)
OPT(MONA_CRIME, mona_crime)
OPT(FARM_CRIME, farm_crime)
OPT(OC_CRIME, oc_crime)
OPT(TOUGHGUY_ATTACKLOST, toughguy_attack_lost)
OPT(TOUGHGUY_ATTACKWON, toughguy_attack_won)
OPT(TOUGHGUY_PLAYERATTACK, toughguy_player_attack)
OPT(GOLD_1000, gold_1000)
OPT(GOLD_950, gold_950)
OPT(GOLD_900, gold_900)
OPT(GOLD_850, gold_850)
OPT(GOLD_800, gold_800)
OPT(GOLD_750, gold_750)
OPT(GOLD_700, gold_700)
OPT(GOLD_650, gold_650)
OPT(GOLD_600, gold_600)
OPT(GOLD_550, gold_550)
OPT(GOLD_500, gold_500)
OPT(GOLD_450, gold_450)
OPT(GOLD_400, gold_400)
OPT(GOLD_350, gold_350)
OPT(GOLD_300, gold_300)
OPT(GOLD_250, gold_250)
OPT(GOLD_200, gold_200)
OPT(GOLD_150, gold_150)
OPT(GOLD_100, gold_100)
OPT(GOLD_90, gold_90)
OPT(GOLD_80, gold_80)
OPT(GOLD_70, gold_70)
OPT(GOLD_60, gold_60)
OPT(GOLD_50, gold_50)
OPT(GOLD_40, gold_40)
OPT(GOLD_30, gold_30)
OPT(GOLD_20, gold_20)
OPT(GOLD_10, gold_10)
OPT(SMALLTALK01, smalltalk_01)
OPT(SMALLTALK02, smalltalk_02)
OPT(SMALLTALK03, smalltalk_03)
OPT(SMALLTALK04, smalltalk_04)
OPT(SMALLTALK05, smalltalk_05)
OPT(SMALLTALK06, smalltalk_06)
OPT(SMALLTALK07, smalltalk_07)
OPT(SMALLTALK08, smalltalk_08)
OPT(SMALLTALK09, smalltalk_09)
OPT(SMALLTALK10, smalltalk_10)
OPT(SMALLTALK11, smalltalk_11)
OPT(SMALLTALK12, smalltalk_12)
OPT(SMALLTALK13, smalltalk_13)
OPT(SMALLTALK14, smalltalk_14)
OPT(SMALLTALK15, smalltalk_15)
OPT(SMALLTALK16, smalltalk_16)
OPT(SMALLTALK17, smalltalk_17)
OPT(SMALLTALK18, smalltalk_18)
OPT(SMALLTALK19, smalltalk_19)
OPT(SMALLTALK20, smalltalk_20)
OPT(SMALLTALK21, smalltalk_21)
OPT(SMALLTALK22, smalltalk_22)
OPT(SMALLTALK23, smalltalk_23)
OPT(SMALLTALK24, smalltalk_24)
OPT(SMALLTALK25, smalltalk_25)
OPT(SMALLTALK26, smalltalk_26)
OPT(SMALLTALK27, smalltalk_27)
OPT(SMALLTALK28, smalltalk_28)
OPT(SMALLTALK29, smalltalk_29)
OPT(SMALLTALK30, smalltalk_30)
OPT(NOLEARNNOPOINTS, no_learn_no_points)
OPT(NOLEARNOVERPERSONALMAX, no_learn_over_personal_max)
OPT(NOLEARNYOUREBETTER, no_learn_youre_better)
OPT(YOULEARNEDSOMETHING, you_learned_something)
OPT(UNTERSTADT, unterstadt)
OPT(OBERSTADT, oberstadt)
OPT(TEMPEL, tempel)
OPT(MARKT, markt)
OPT(GALGEN, galgen)
OPT(KASERNE, kaserne)
OPT(HAFEN, hafen)
OPT(WHERETO, whereto)
OPT(OBERSTADT_2_UNTERSTADT, oberstadt_2_unterstadt)
OPT(UNTERSTADT_2_OBERSTADT, unterstadt_2_oberstadt)
OPT(UNTERSTADT_2_TEMPEL, unterstadt_2_tempel)
OPT(UNTERSTADT_2_HAFEN, unterstadt_2_hafen)
OPT(TEMPEL_2_UNTERSTADT, tempel_2_unterstadt)
OPT(TEMPEL_2_MARKT, tempel_2_markt)
OPT(TEMPEL_2_GALGEN, tempel_2_galgen)
OPT(MARKT_2_TEMPEL, markt_2_tempel)
OPT(MARKT_2_KASERNE, markt_2_kaserne)
OPT(MARKT_2_GALGEN, markt_2_galgen)
OPT(GALGEN_2_TEMPEL, galgen_2_tempel)
OPT(GALGEN_2_MARKT, galgen_2_markt)
OPT(GALGEN_2_KASERNE, galgen_2_kaserne)
OPT(KASERNE_2_MARKT, kaserne_2_markt)
OPT(KASERNE_2_GALGEN, kaserne_2_galgen)
OPT(HAFEN_2_UNTERSTADT, hafen_2_unterstadt)
OPT(DEAD, dead)
OPT(AARGH_1, aargh_1)
OPT(AARGH_2, aargh_2)
OPT(AARGH_3, aargh_3)
OPT(ADDON_WRONGARMOR, addon_wrong_armor)
OPT(ADDON_WRONGARMOR_SLD, addon_wrong_armor_sld)
OPT(ADDON_WRONGARMOR_MIL, addon_wrong_armor_mil)
OPT(ADDON_WRONGARMOR_KDF, addon_wrong_armor_kdf)
OPT(ADDON_NOARMOR_BDT, addon_no_armor_bdt)
OPT(ADDON_DIEBANDIT, addon_die_bandit)
OPT(ADDON_DIRTYPIRATE, addon_dirty_pirate)
OPT(SC_HEYTURNAROUND, sc_hey_turn_around)
OPT(SC_HEYTURNAROUND02, sc_hey_turn_around_02)
OPT(SC_HEYTURNAROUND03, sc_hey_turn_around_03)
OPT(SC_HEYTURNAROUND04, sc_hey_turn_around_04)
OPT(SC_HEYWAITASECOND, sc_hey_wait_asecond)
OPT(DOESNTWORK, doesnt_mork)
OPT(PICKBROKE, pick_broke)
OPT(NEEDKEY, need_key)
OPT(NOMOREPICKS, no_more_picks)
OPT(NOPICKLOCKTALENT, no_pick_lock_talent)
OPT(NOSWEEPING, no_sweeping)
OPT(PICKLOCKORKEYMISSING, pick_lock_or_key_missing)
OPT(KEYMISSING, key_missing)
OPT(PICKLOCKMISSING, pick_lock_missing)
OPT(NEVEROPEN, never_open)
OPT(MISSINGITEM, missing_item)
OPT(DONTKNOW, dont_know)
OPT(NOTHINGTOGET, nothing_to_get)
OPT(NOTHINGTOGET02, nothing_to_get_02)
OPT(NOTHINGTOGET03, nothing_to_get_03)
OPT(HEALSHRINE, heal_shrine)
OPT(HEALLASTSHRINE, heal_last_shrine)
OPT(IRDORATHTHEREYOUARE, irdorath_there_you_are)
OPT(SCOPENSIRDORATHBOOK, sc_opens_irdorath_book)
OPT(SCOPENSLASTDOOR, sc_opens_last_door)
OPT(TRADE_1, trade_1)
OPT(TRADE_2, trade_2)
OPT(TRADE_3, trade_3)
OPT(VERSTEHE, verstehe)
OPT(FOUNDTREASURE, found_treasure)
OPT(CANTUNDERSTANDTHIS, cant_understand_this)
OPT(CANTREADTHIS, cant_read_this)
OPT(STONEPLATE_1, stoneplate_1)
OPT(STONEPLATE_2, stoneplate_2)
OPT(STONEPLATE_3, stoneplate_3)
OPT(COUGH, cough)
OPT(HUI, hui)
OPT(ADDON_THISLITTLEBASTARD, addon_this_little_bastard)
OPT(ADDON_OPENADANOSTEMPLE, addon_open_adanos_temple)
OPT(ATTENTAT_ADDON_DESCRIPTION, attentat_addon_description)
OPT(ATTENTAT_ADDON_DESCRIPTION2, attentat_addon_description_2)
OPT(ATTENTAT_ADDON_PRO, attentat_addon_pro)
OPT(ATTENTAT_ADDON_CONTRA, attentat_addon_contra)
OPT(MINE_ADDON_DESCRIPTION, mine_addon_description)
OPT(ADDON_SUMMONANCIENTGHOST, addon_summon_ancient_ghost)
OPT(ADDON_ANCIENTGHOST_NOTNEAR, addon_ancient_ghost_not_near)
OPT(ADDON_GOLD_DESCRIPTION, addon_gold_description)
OPT(WATCHYOURAIM, watch_your_aim)
OPT(WATCHYOURAIMANGRY, watch_your_aim_angry)
OPT(LETSFORGETOURLITTLEFIGHT, lets_forget_our_little_fight)
OPT(STRANGE, strange)
OPT(DIEMORTALENEMY, die_mortal_enemy)
OPT(NOWWAIT, now_wait)
OPT(NOWWAITINTRUDER, now_wait_intruder)
OPT(YOUSTILLNOTHAVEENOUGH, you_still_not_have_enough)
OPT(YOUATTACKEDMYCHARGE, you_attacked_my_charge)
OPT(IWILLTEACHYOURESPECTFORFOREIGNPROPERTY, iwill_teach_you_respect_for_foreign_property)
OPT(YOUKILLEDONEOFUS, you_killed_one_of_us)
OPT(BERZERK, berzerk)
OPT(YOULLBESORRYFORTHIS, youll_be_sorry_for_this)
OPT(YESYES, yes_yes)
OPT(SHITWHATAMONSTER, shit_what_amonster)
OPT(WEWILLMEETAGAIN, we_will_meet_again)
OPT(NEVERTRYTHATAGAIN, never_try_that_again)
OPT(ITOOKYOURORE, itook_your_ore)
OPT(SHITNOORE, shit_no_ore)
OPT(YOUVIOLATEDFORBIDDENTERRITORY, you_violated_forbidden_territory)
OPT(YOUWANNAFOOLME, you_wanna_fool_me)
OPT(WHATDIDYOUINTHERE, what_did_you_in_there)
OPT(INTRUDERALERT, intruder_alert)
OPT(BEHINDYOU, behind_you)
OPT(HEYHEYHEY, hey_hey_hey)
OPT(CHEERFIGHT, cheer_fight)
OPT(CHEERFRIEND, cheer_friend)
OPT(OOH, ooh)
OPT(YEAHWELLDONE, yeah_well_done)
OPT(HEDEFEATEDHIM, he_defeatedhim)
OPT(HEDESERVEDIT, he_deserv_edit)
OPT(HEKILLEDHIM, he_killed_him)
OPT(ITWASAGOODFIGHT, it_was_agood_fight)
OPT(FRIENDLYGREETINGS, friendly_greetings)
OPT(ALGREETINGS, al_greetings)
OPT(MAGEGREETINGS, mage_greetings)
OPT(SECTGREETINGS, sect_greetings)
OPT(THEREHEIS, there_he_is)
OPT(NOLEARNOVERMAX, no_learn_over_max)
OPT(NOLEARNYOUALREADYKNOW, no_learn_you_already_know)
OPT(HEYYOU, hey_you)
OPT(WHATDOYOUWANT, what_do_you_want)
OPT(ISAIDWHATDOYOUWANT, isaid_what_do_you_want)
OPT(MAKEWAY, make_way)
OPT(OUTOFMYWAY, out_of_my_way)
OPT(YOUDEAFORWHAT, you_deaf_or_what)
OPT(LOOKAWAY, look_away)
OPT(OKAYKEEPIT, okay_keep_it)
OPT(WHATSTHAT, whats_that)
OPT(THATSMYWEAPON, thats_my_weapon)
OPT(GIVEITTOME, give_it_tome)
OPT(YOUCANKEEPTHECRAP, you_can_keep_the_crap)
OPT(THEYKILLEDMYFRIEND, they_killed_my_friend)
OPT(SUCKERGOTSOME, sucker_got_some)
OPT(SUCKERDEFEATEDEBR, sucker_defeated_ebr)
OPT(SUCKERDEFEATEDGUR, sucker_defeated_gur)
OPT(SUCKERDEFEATEDMAGE, sucker_defeated_mage)
OPT(SUCKERDEFEATEDNOV_GUARD, sucker_defeated_nov_guard)
OPT(SUCKERDEFEATEDVLK_GUARD, sucker_defeated_vlk_guard)
OPT(YOUDEFEATEDMYCOMRADE, you_defeated_my_comrade)
OPT(YOUDEFEATEDNOV_GUARD, you_defeated_nov_guard)
OPT(YOUDEFEATEDVLK_GUARD, you_defeated_vlk_guard)
OPT(YOUSTOLEFROMME, you_stole_from_me)
OPT(YOUSTOLEFROMUS, you_stole_from_us)
OPT(YOUSTOLEFROMEBR, you_stole_from_ebr)
OPT(YOUSTOLEFROMGUR, you_stole_from_gur)
OPT(STOLEFROMMAGE, stole_urom_mage)
OPT(YOUKILLEDMYFRIEND, you_killedmyfriend)
OPT(YOUKILLEDEBR, you_killed_ebr)
OPT(YOUKILLEDGUR, you_killed_gur)
OPT(YOUKILLEDMAGE, you_killed_mage)
OPT(YOUKILLEDOCFOLK, you_killed_oc_folk)
OPT(YOUKILLEDNCFOLK, you_killed_nc_folk)
OPT(YOUKILLEDPSIFOLK, you_killed_psi_folk)
OPT(GETTHINGSRIGHT, get_things_right)
OPT(YOUDEFEATEDMEWELL, you_defeated_me_well)
OPT(OM, om)
CLASS_END
CLASS(IMenu, "C_MENU")
MEM(BACKPIC, back_pic)
MEM(BACKWORLD, back_world)
MEM(POSX, pos_x)
MEM(POSY, pos_y)
MEM(DIMX, dim_x)
MEM(DIMY, dim_y)
MEM(ALPHA, alpha)
MEM(MUSICTHEME, music_theme)
MEM(EVENTTIMERMSEC, event_timer_msec)
MEM(ITEMS, items)
MEM(FLAGS, flags)
MEM(DEFAULTOUTGAME, default_outgame)
MEM(DEFAULTINGAME, default_ingame)
CLASS_END
CLASS(IMenuItem, "C_MENU_ITEM")
MEM(FONTNAME, fontname)
MEM(TEXT, text)
MEM(BACKPIC, backpic)
MEM(ALPHAMODE, alphamode)
MEM(ALPHA, alpha)
MEM(TYPE, type)
MEM(ONSELACTION, on_sel_action)
MEM(ONSELACTION_S, on_sel_action_s)
MEM(ONCHGSETOPTION, on_chg_set_option)
MEM(ONCHGSETOPTIONSECTION, on_chg_set_option_section)
MEM(ONEVENTACTION, on_event_action)
MEM(POSX, pos_x)
MEM(POSY, pos_y)
MEM(DIMX, dim_x)
MEM(DIMY, dim_y)
MEM(SIZESTARTSCALE, size_start_scale)
MEM(FLAGS, flags)
MEM(OPENDELAYTIME, open_delay_time)
MEM(OPENDURATION, open_duration)
MEM(USERFLOAT, user_float)
MEM(USERSTRING, user_string)
MEM(FRAMESIZEX, frame_sizex)
MEM(FRAMESIZEY, frame_sizey)
OPT(FRAMEPOSX, frame_posx)
OPT(FRAMEPOSY, frame_posy)
OPT(HIDEIFOPTIONSECTIONSET, hide_if_option_section_set)
OPT(HIDEIFOPTIONSET, hide_if_option_set)
OPT(HIDEONVALUE, hide_on_value)
CLASS_END
CLASS(ICamera, "CCAMSYS")
MEM(BESTRANGE, best_range)
MEM(MINRANGE, min_range)
MEM(MAXRANGE, max_range)
MEM(BESTELEVATION, best_elevation)
MEM(MINELEVATION, min_elevation)
MEM(MAXELEVATION, max_elevation)
MEM(BESTAZIMUTH, best_azimuth)
MEM(MINAZIMUTH, min_azimuth)
MEM(MAXAZIMUTH, max_azimuth)
MEM(BESTROTZ, best_rot_z)
MEM(MINROTZ, min_rot_z)
MEM(MAXROTZ, max_rot_z)
MEM(ROTOFFSETX, rot_offset_x)
MEM(ROTOFFSETY, rot_offset_y)
MEM(ROTOFFSETZ, rot_offset_z)
MEM(TARGETOFFSETX, target_offset_x)
MEM(TARGETOFFSETY, target_offset_y)
MEM(TARGETOFFSETZ, target_offset_z)
MEM(VELOTRANS, velo_trans)
MEM(VELOROT, velo_rot)
MEM(TRANSLATE, translate)
MEM(ROTATE, rotate)
MEM(COLLISION, collision)
CLASS_END
CLASS(IMusicSystem, "C_MUSICSYS_CFG")
MEM(VOLUME, volume)
MEM(BITRESOLUTION, bit_resolution)
MEM(GLOBALREVERBENABLED, global_reverb_enabled)
MEM(SAMPLERATE, sample_rate)
MEM(NUMCHANNELS, num_channels)
MEM(REVERBBUFFERSIZE, reverb_buffer_size)
CLASS_END
CLASS(IMusicTheme, "C_MUSICTHEME")
MEM(FILE, file)
MEM(VOL, vol)
MEM(LOOP, loop)
MEM(REVERBMIX, reverbmix)
MEM(REVERBTIME, reverbtime)
MEM(TRANSTYPE, transtype)
MEM(TRANSSUBTYPE, transsubtype)
CLASS_END
CLASS(IMusicJingle, "C_MUSICJINGLE")
MEM(NAME, name)
MEM(LOOP, loop)
MEM(VOL, vol)
MEM(TRANSSUBTYPE, transsubtype)
CLASS_END
CLASS(IParticleEffect, "C_PARTICLEFX")
MEM(PPSVALUE, pps_value)
MEM(PPSSCALEKEYS_S, pps_scale_keys_s)
MEM(PPSISLOOPING, pps_is_looping)
MEM(PPSISSMOOTH, pps_is_smooth)
MEM(PPSFPS, pps_fps)
MEM(PPSCREATEEM_S, pps_create_em_s)
MEM(PPSCREATEEMDELAY, pps_create_em_delay)
MEM(SHPTYPE_S, shp_type_s)
MEM(SHPFOR_S, shp_for_s)
MEM(SHPOFFSETVEC_S, shp_offset_vec_s)
MEM(SHPDISTRIBTYPE_S, shp_distrib_type_s)
MEM(SHPDISTRIBWALKSPEED, shp_distrib_walk_speed)
MEM(SHPISVOLUME, shp_is_volume)
MEM(SHPDIM_S, shp_dim_s)
MEM(SHPMESH_S, shp_mesh_s)
MEM(SHPMESHRENDER_B, shp_mesh_render_b)
MEM(SHPSCALEKEYS_S, shp_scale_keys_s)
MEM(SHPSCALEISLOOPING, shp_scale_is_looping)
MEM(SHPSCALEISSMOOTH, shp_scale_is_smooth)
MEM(SHPSCALEFPS, shp_scale_fps)
MEM(DIRMODE_S, dir_mode_s)
MEM(DIRFOR_S, dir_for_s)
MEM(DIRMODETARGETFOR_S, dir_mode_target_for_s)
MEM(DIRMODETARGETPOS_S, dir_mode_target_pos_s)
MEM(DIRANGLEHEAD, dir_angle_head)
MEM(DIRANGLEHEADVAR, dir_angle_head_var)
MEM(DIRANGLEELEV, dir_angle_elev)
MEM(DIRANGLEELEVVAR, dir_angle_elev_var)
MEM(VELAVG, vel_avg)
MEM(VELVAR, vel_var)
MEM(LSPPARTAVG, lsp_part_avg)
MEM(LSPPARTVAR, lsp_part_var)
MEM(FLYGRAVITY_S, fly_gravity_s)
MEM(FLYCOLLDET_B, fly_colldet_b)
MEM(VISNAME_S, vis_name_s)
MEM(VISORIENTATION_S, vis_orientation_s)
MEM(VISTEXISQUADPOLY, vis_tex_is_quadpoly)
MEM(VISTEXANIFPS, vis_tex_ani_fps)
MEM(VISTEXANIISLOOPING, vis_tex_ani_is_looping)
MEM(VISTEXCOLORSTART_S, vis_tex_color_start_s)
MEM(VISTEXCOLOREND_S, vis_tex_color_end_s)
MEM(VISSIZESTART_S, vis_size_start_s)
MEM(VISSIZEENDSCALE, vis_size_end_scale)
MEM(VISALPHAFUNC_S, vis_alpha_func_s)
MEM(VISALPHASTART, vis_alpha_start)
MEM(VISALPHAEND, vis_alpha_end)
MEM(TRLFADESPEED, trl_fade_speed)
MEM(TRLTEXTURE_S, trl_texture_s)
MEM(TRLWIDTH, trl_width)
MEM(MRKFADESPEED, mrk_fades_peed)
MEM(MRKTEXTURE_S, mrkt_exture_s)
MEM(MRKSIZE, mrk_size)
OPT(FLOCKMODE, flock_mode)
OPT(FLOCKSTRENGTH, flock_strength)
OPT(USEEMITTERSFOR, use_emitters_for)
OPT(TIMESTARTEND_S, time_start_end_s)
OPT(M_BISAMBIENTPFX, m_bis_ambient_pfx)
CLASS_END
CLASS(IEffectBase, "CFX_BASE")
MEM(VISNAME_S, vis_name_s)
MEM(VISSIZE_S, vis_size_s)
MEM(VISALPHA, vis_alpha)
MEM(VISALPHABLENDFUNC_S, vis_alpha_blend_func_s)
MEM(VISTEXANIFPS, vis_tex_ani_fps)
MEM(VISTEXANIISLOOPING, vis_tex_ani_is_looping)
MEM(EMTRJMODE_S, em_trj_mode_s)
MEM(EMTRJORIGINNODE, em_trj_origin_node)
MEM(EMTRJTARGETNODE, em_trj_target_node)
MEM(EMTRJTARGETRANGE, em_trj_target_range)
MEM(EMTRJTARGETAZI, em_trj_target_azi)
MEM(EMTRJTARGETELEV, em_trj_target_elev)
MEM(EMTRJNUMKEYS, em_trj_num_keys)
MEM(EMTRJNUMKEYSVAR, em_trj_num_keys_var)
MEM(EMTRJANGLEELEVVAR, em_trj_angle_elev_var)
MEM(EMTRJANGLEHEADVAR, em_trj_angle_head_var)
MEM(EMTRJKEYDISTVAR, em_trj_key_dist_var)
MEM(EMTRJLOOPMODE_S, em_trj_loop_mode_s)
MEM(EMTRJEASEFUNC_S, em_trj_ease_func_s)
MEM(EMTRJEASEVEL, em_trj_ease_vel)
MEM(EMTRJDYNUPDATEDELAY, em_trj_dyn_update_delay)
MEM(EMTRJDYNUPDATETARGETONLY, em_trj_dyn_update_target_only)
MEM(EMFXCREATE_S, em_fx_create_s)
MEM(EMFXINVESTORIGIN_S, em_fx_invest_origin_s)
MEM(EMFXINVESTTARGET_S, em_fx_invest_target_s)
MEM(EMFXTRIGGERDELAY, em_fx_trigger_delay)
MEM(EMFXCREATEDOWNTRJ, em_fx_create_down_trj)
MEM(EMACTIONCOLLDYN_S, em_action_coll_dyn_s)
MEM(EMACTIONCOLLSTAT_S, em_action_coll_stat_s)
MEM(EMFXCOLLSTAT_S, em_fx_coll_stat_s)
MEM(EMFXCOLLDYN_S, em_fx_coll_dyn_s)
MEM(EMFXCOLLSTATALIGN_S, em_fx_coll_stat_align_s)
MEM(EMFXCOLLDYNALIGN_S, em_fx_coll_dyn_align_s)
MEM(EMFXLIFESPAN, em_fx_lifespan)
MEM(EMCHECKCOLLISION, em_check_collision)
MEM(EMADJUSTSHPTOORIGIN, em_adjust_shp_to_origin)
MEM(EMINVESTNEXTKEYDURATION, em_invest_next_key_duration)
MEM(EMFLYGRAVITY, em_fly_gravity)
MEM(EMSELFROTVEL_S, em_self_rot_vel_s)
MEM(USERSTRING, user_string)
MEM(LIGHTPRESETNAME, light_preset_name)
MEM(SFXID, sfx_id)
MEM(SFXISAMBIENT, sfx_is_ambient)
MEM(SENDASSESSMAGIC, send_assess_magic)
MEM(SECSPERDAMAGE, secs_per_damage)
OPT(EMFXCOLLDYNPERC_S, em_fx_coll_dyn_perc_s)
CLASS_END
