---------------------------- MODULE SettingTables ----------------------------
(* The options of the four setting files: for every option its values as <<byte, variant, text shown>>,
   its default, and the label it is listed under. Texts are sequences of code points. *)
EXTENDS Integers, Sequences

T_OverviewWaveformType == <<<<1, "HalfWaveform", <<72, 97, 108, 102, 32, 87, 97, 118, 101, 102, 111, 114, 109>>>>,
  <<2, "FullWaveform", <<70, 117, 108, 108, 32, 87, 97, 118, 101, 102, 111, 114, 109>>>>>>

T_WaveformColor == <<<<1, "Blue", <<66, 108, 117, 101>>>>,
  <<3, "Rgb", <<82, 71, 66>>>>,
  <<4, "TriBand", <<51, 66, 97, 110, 100>>>>>>

T_KeyDisplayFormat == <<<<1, "Classic", <<67, 108, 97, 115, 115, 105, 99>>>>,
  <<2, "Alphanumeric", <<65, 108, 112, 104, 97, 110, 117, 109, 101, 114, 105, 99>>>>>>

T_WaveformCurrentPosition == <<<<1, "Center", <<67, 101, 110, 116, 101, 114>>>>,
  <<2, "Left", <<76, 101, 102, 116>>>>>>

T_ChannelFaderCurve == <<<<128, "SteepTop", <<83, 116, 101, 101, 112, 32, 84, 111, 112>>>>,
  <<129, "Linear", <<76, 105, 110, 101, 97, 114>>>>,
  <<130, "SteepBottom", <<83, 116, 101, 101, 112, 32, 66, 111, 116, 116, 111, 109>>>>>>

T_CrossfaderCurve == <<<<128, "ConstantPower", <<67, 111, 110, 115, 116, 97, 110, 116, 32, 80, 111, 119, 101, 114>>>>,
  <<129, "SlowCut", <<83, 108, 111, 119, 32, 67, 117, 116>>>>,
  <<130, "FastCut", <<70, 97, 115, 116, 32, 67, 117, 116>>>>>>

T_HeadphonesPreEQ == <<<<128, "PostEQ", <<80, 111, 115, 116, 32, 69, 81>>>>,
  <<129, "PreEQ", <<80, 114, 101, 32, 69, 81>>>>>>

T_HeadphonesMonoSplit == <<<<128, "Stereo", <<83, 116, 101, 114, 101, 111>>>>,
  <<129, "MonoSplit", <<77, 111, 110, 111, 32, 83, 112, 108, 105, 116>>>>>>

T_BeatFXQuantize == <<<<128, "Off", <<79, 102, 102>>>>,
  <<129, "On", <<79, 110>>>>>>

T_MicLowCut == <<<<128, "Off", <<79, 102, 102>>>>,
  <<129, "On", <<79, 110>>>>>>

T_TalkOverMode == <<<<128, "Advanced", <<65, 100, 118, 97, 110, 99, 101, 100>>>>,
  <<129, "Normal", <<78, 111, 114, 109, 97, 108>>>>>>

T_TalkOverLevel == <<<<128, "Minus24dB", <<45, 50, 52, 100, 66>>>>,
  <<129, "Minus18dB", <<45, 49, 56, 100, 66>>>>,
  <<130, "Minus12dB", <<45, 49, 50, 100, 66>>>>,
  <<131, "Minus6dB", <<45, 54, 100, 66>>>>>>

T_MidiChannel == <<<<128, "One", <<49>>>>,
  <<129, "Two", <<50>>>>,
  <<130, "Three", <<51>>>>,
  <<131, "Four", <<52>>>>,
  <<132, "Five", <<53>>>>,
  <<133, "Six", <<54>>>>,
  <<134, "Seven", <<55>>>>,
  <<135, "Eight", <<56>>>>,
  <<136, "Nine", <<57>>>>,
  <<137, "Ten", <<49, 48>>>>,
  <<138, "Eleven", <<49, 49>>>>,
  <<139, "Twelve", <<49, 50>>>>,
  <<140, "Thirteen", <<49, 51>>>>,
  <<141, "Fourteen", <<49, 52>>>>,
  <<142, "Fifteen", <<49, 53>>>>,
  <<143, "Sixteen", <<49, 54>>>>>>

T_MidiButtonType == <<<<128, "Toggle", <<84, 111, 103, 103, 108, 101>>>>,
  <<129, "Trigger", <<84, 114, 105, 103, 103, 101, 114>>>>>>

T_MixerDisplayBrightness == <<<<128, "White", <<87, 104, 105, 116, 101>>>>,
  <<129, "One", <<49>>>>,
  <<130, "Two", <<50>>>>,
  <<131, "Three", <<51>>>>,
  <<132, "Four", <<52>>>>,
  <<133, "Five", <<53>>>>>>

T_MixerIndicatorBrightness == <<<<128, "One", <<49>>>>,
  <<129, "Two", <<50>>>>,
  <<130, "Three", <<51>>>>>>

T_ChannelFaderCurveLongFader == <<<<128, "Exponential", <<69, 120, 112, 111, 110, 101, 110, 116, 105, 97, 108>>>>,
  <<129, "Smooth", <<83, 109, 111, 111, 116, 104>>>>,
  <<130, "Linear", <<76, 105, 110, 101, 97, 114>>>>>>

T_OnAirDisplay == <<<<128, "Off", <<79, 102, 102>>>>,
  <<129, "On", <<79, 110>>>>>>

T_LCDBrightness == <<<<129, "One", <<49>>>>,
  <<130, "Two", <<50>>>>,
  <<131, "Three", <<51>>>>,
  <<132, "Four", <<52>>>>,
  <<133, "Five", <<53>>>>>>

T_Quantize == <<<<128, "Off", <<79, 102, 102>>>>,
  <<129, "On", <<79, 110>>>>>>

T_AutoCueLevel == <<<<128, "Minus36dB", <<45, 51, 54, 100, 66>>>>,
  <<129, "Minus42dB", <<45, 52, 50, 100, 66>>>>,
  <<130, "Minus48dB", <<45, 52, 56, 100, 66>>>>,
  <<131, "Minus54dB", <<45, 53, 52, 100, 66>>>>,
  <<132, "Minus60dB", <<45, 54, 48, 100, 66>>>>,
  <<133, "Minus66dB", <<45, 54, 54, 100, 66>>>>,
  <<134, "Minus72dB", <<45, 55, 50, 100, 66>>>>,
  <<135, "Minus78dB", <<45, 55, 56, 100, 66>>>>,
  <<136, "Memory", <<77, 101, 109, 111, 114, 121>>>>>>

T_Language == <<<<129, "English", <<69, 110, 103, 108, 105, 115, 104>>>>,
  <<130, "French", <<70, 114, 97, 110, 231, 97, 105, 115>>>>,
  <<131, "German", <<68, 101, 117, 116, 115, 99, 104>>>>,
  <<132, "Italian", <<73, 116, 97, 108, 105, 97, 110, 111>>>>,
  <<133, "Dutch", <<78, 101, 100, 101, 114, 108, 97, 110, 100, 115>>>>,
  <<134, "Spanish", <<69, 115, 112, 97, 241, 111, 108>>>>,
  <<135, "Russian", <<1056, 1091, 1089, 1089, 1082, 1080, 1081>>>>,
  <<136, "Korean", <<54620, 44397, 50612>>>>,
  <<137, "ChineseSimplified", <<31616, 20307, 20013, 25991>>>>,
  <<138, "ChineseTraditional", <<32321, 39636, 20013, 25991>>>>,
  <<139, "Japanese", <<26085, 26412, 35486>>>>,
  <<140, "Portuguese", <<80, 111, 114, 116, 117, 103, 117, 234, 115>>>>,
  <<141, "Swedish", <<83, 118, 101, 110, 115, 107, 97>>>>,
  <<142, "Czech", <<268, 101, 353, 116, 105, 110, 97>>>>,
  <<143, "Hungarian", <<77, 97, 103, 121, 97, 114>>>>,
  <<144, "Danish", <<68, 97, 110, 115, 107>>>>,
  <<145, "Greek", <<917, 955, 955, 951, 957, 953, 954, 940>>>>,
  <<146, "Turkish", <<84, 252, 114, 107, 231, 101>>>>>>

T_JogRingBrightness == <<<<128, "Off", <<79, 102, 102>>>>,
  <<129, "Dark", <<49, 32, 40, 68, 97, 114, 107, 41>>>>,
  <<130, "Bright", <<50, 32, 40, 66, 114, 105, 103, 104, 116, 41>>>>>>

T_JogRingIndicator == <<<<128, "Off", <<79, 102, 102>>>>,
  <<129, "On", <<79, 110>>>>>>

T_SlipFlashing == <<<<128, "Off", <<79, 102, 102>>>>,
  <<129, "On", <<79, 110>>>>>>

T_DiscSlotIllumination == <<<<128, "Off", <<79, 102, 102>>>>,
  <<129, "Dark", <<49, 32, 40, 68, 97, 114, 107, 41>>>>,
  <<130, "Bright", <<50, 32, 40, 66, 114, 105, 103, 104, 116, 41>>>>>>

T_EjectLock == <<<<128, "Unlock", <<85, 110, 108, 111, 99, 107>>>>,
  <<129, "Lock", <<76, 111, 99, 107>>>>>>

T_Sync == <<<<128, "Off", <<79, 102, 102>>>>,
  <<129, "On", <<79, 110>>>>>>

T_PlayMode == <<<<128, "Continue", <<67, 111, 110, 116, 105, 110, 117, 101, 32, 47, 32, 79, 110>>>>,
  <<129, "Single", <<83, 105, 110, 103, 108, 101, 32, 47, 32, 79, 102, 102>>>>>>

T_QuantizeBeatValue == <<<<128, "FullBeat", <<49, 32, 66, 101, 97, 116>>>>,
  <<129, "HalfBeat", <<49, 47, 50, 32, 66, 101, 97, 116>>>>,
  <<130, "QuarterBeat", <<49, 47, 52, 32, 66, 101, 97, 116>>>>,
  <<131, "EighthBeat", <<49, 47, 56, 32, 66, 101, 97, 116>>>>>>

T_HotCueAutoLoad == <<<<128, "Off", <<79, 102, 102>>>>,
  <<129, "On", <<79, 110>>>>,
  <<130, "RekordboxSetting", <<114, 101, 107, 111, 114, 100, 98, 111, 120, 32, 83, 69, 84, 84, 73, 78, 71>>>>>>

T_HotCueColor == <<<<128, "Off", <<79, 102, 102>>>>,
  <<129, "On", <<79, 110>>>>>>

T_NeedleLock == <<<<128, "Unlock", <<85, 110, 108, 111, 99, 107>>>>,
  <<129, "Lock", <<76, 111, 99, 107>>>>>>

T_TimeMode == <<<<128, "Elapsed", <<69, 108, 97, 112, 115, 101, 100>>>>,
  <<129, "Remain", <<82, 101, 109, 97, 105, 110>>>>>>

T_JogMode == <<<<128, "CDJ", <<67, 68, 74>>>>,
  <<129, "Vinyl", <<86, 105, 110, 121, 108>>>>>>

T_AutoCue == <<<<128, "Off", <<79, 102, 102>>>>,
  <<129, "On", <<79, 110>>>>>>

T_MasterTempo == <<<<128, "Off", <<79, 102, 102>>>>,
  <<129, "On", <<79, 110>>>>>>

T_TempoRange == <<<<128, "SixPercent", <<177, 54, 37>>>>,
  <<129, "TenPercent", <<177, 49, 48, 37>>>>,
  <<130, "SixteenPercent", <<177, 49, 54, 37>>>>,
  <<131, "Wide", <<87, 105, 100, 101>>>>>>

T_PhaseMeter == <<<<128, "Type1", <<84, 121, 112, 101, 32, 49>>>>,
  <<129, "Type2", <<84, 121, 112, 101, 32, 50>>>>>>

T_VinylSpeedAdjust == <<<<128, "TouchRelease", <<84, 111, 117, 99, 104, 32, 38, 32, 82, 101, 108, 101, 97, 115, 101>>>>,
  <<129, "Touch", <<84, 111, 117, 99, 104>>>>,
  <<130, "Release", <<82, 101, 108, 101, 97, 115, 101>>>>>>

T_JogDisplayMode == <<<<128, "Auto", <<65, 117, 116, 111>>>>,
  <<129, "Info", <<73, 110, 102, 111>>>>,
  <<130, "Simple", <<83, 105, 109, 112, 108, 101>>>>,
  <<131, "Artwork", <<65, 114, 116, 119, 111, 114, 107>>>>>>

T_PadButtonBrightness == <<<<129, "One", <<49>>>>,
  <<130, "Two", <<50>>>>,
  <<131, "Three", <<51>>>>,
  <<132, "Four", <<52>>>>>>

T_JogLCDBrightness == <<<<129, "One", <<49>>>>,
  <<130, "Two", <<50>>>>,
  <<131, "Three", <<51>>>>,
  <<132, "Four", <<52>>>>,
  <<133, "Five", <<53>>>>>>

T_WaveformDivisions == <<<<128, "TimeScale", <<84, 105, 109, 101, 32, 83, 99, 97, 108, 101>>>>,
  <<129, "Phrase", <<80, 104, 114, 97, 115, 101>>>>>>

T_Waveform == <<<<128, "Waveform", <<87, 97, 118, 101, 102, 111, 114, 109>>>>,
  <<129, "PhaseMeter", <<80, 104, 97, 115, 101, 32, 77, 101, 116, 101, 114>>>>>>

T_BeatJumpBeatValue == <<<<128, "HalfBeat", <<49, 47, 50, 32, 66, 101, 97, 116>>>>,
  <<129, "OneBeat", <<49, 32, 66, 101, 97, 116>>>>,
  <<130, "TwoBeat", <<50, 32, 66, 101, 97, 116>>>>,
  <<131, "FourBeat", <<52, 32, 66, 101, 97, 116>>>>,
  <<132, "EightBeat", <<56, 32, 66, 101, 97, 116>>>>,
  <<133, "SixteenBeat", <<49, 54, 32, 66, 101, 97, 116>>>>,
  <<134, "ThirtytwoBeat", <<51, 50, 32, 66, 101, 97, 116>>>>,
  <<135, "SixtyfourBeat", <<54, 52, 32, 66, 101, 97, 116>>>>>>

(* <<name, table, default, label>> *)
Options_DevSetting == <<<<"overview_waveform_type", T_OverviewWaveformType, 1, <<79, 118, 101, 114, 118, 105, 101, 119, 32, 87, 97, 118, 101, 102, 111, 114, 109, 32, 84, 121, 112, 101>>>>,
  <<"waveform_color", T_WaveformColor, 1, <<87, 97, 118, 101, 102, 111, 114, 109, 32, 67, 111, 108, 111, 114>>>>,
  <<"key_display_format", T_KeyDisplayFormat, 1, <<75, 101, 121, 32, 68, 105, 115, 112, 108, 97, 121, 32, 70, 111, 114, 109, 97, 116>>>>,
  <<"waveform_current_position", T_WaveformCurrentPosition, 1, <<87, 97, 118, 101, 102, 111, 114, 109, 32, 67, 117, 114, 114, 101, 110, 116, 32, 80, 111, 115, 105, 116, 105, 111, 110>>>>>>

Options_DJMMySetting == <<<<"channel_fader_curve", T_ChannelFaderCurve, 129, <<67, 104, 97, 110, 110, 101, 108, 32, 70, 97, 100, 101, 114, 32, 67, 117, 114, 118, 101>>>>,
  <<"crossfader_curve", T_CrossfaderCurve, 130, <<67, 114, 111, 115, 115, 102, 97, 100, 101, 114, 32, 67, 117, 114, 118, 101>>>>,
  <<"headphones_pre_eq", T_HeadphonesPreEQ, 128, <<72, 101, 97, 100, 112, 104, 111, 110, 101, 115, 32, 80, 114, 101, 32, 69, 113>>>>,
  <<"headphones_mono_split", T_HeadphonesMonoSplit, 128, <<72, 101, 97, 100, 112, 104, 111, 110, 101, 115, 32, 77, 111, 110, 111, 32, 83, 112, 108, 105, 116>>>>,
  <<"beat_fx_quantize", T_BeatFXQuantize, 129, <<66, 101, 97, 116, 32, 70, 88, 32, 81, 117, 97, 110, 116, 105, 122, 101>>>>,
  <<"mic_low_cut", T_MicLowCut, 129, <<77, 105, 99, 32, 76, 111, 119, 32, 67, 117, 116>>>>,
  <<"talk_over_mode", T_TalkOverMode, 128, <<84, 97, 108, 107, 32, 79, 118, 101, 114, 32, 77, 111, 100, 101>>>>,
  <<"talk_over_level", T_TalkOverLevel, 129, <<84, 97, 108, 107, 32, 79, 118, 101, 114, 32, 76, 101, 118, 101, 108>>>>,
  <<"midi_channel", T_MidiChannel, 128, <<77, 73, 68, 73, 32, 67, 104, 97, 110, 110, 101, 108>>>>,
  <<"midi_button_type", T_MidiButtonType, 128, <<77, 73, 68, 73, 32, 66, 117, 116, 116, 111, 110, 32, 84, 121, 112, 101>>>>,
  <<"display_brightness", T_MixerDisplayBrightness, 133, <<68, 105, 115, 112, 108, 97, 121, 32, 66, 114, 105, 103, 104, 116, 110, 101, 115, 115>>>>,
  <<"indicator_brightness", T_MixerIndicatorBrightness, 130, <<73, 110, 100, 105, 99, 97, 116, 111, 114, 32, 66, 114, 105, 103, 104, 116, 110, 101, 115, 115>>>>,
  <<"channel_fader_curve_long_fader", T_ChannelFaderCurveLongFader, 128, <<67, 104, 97, 110, 110, 101, 108, 32, 70, 97, 100, 101, 114, 32, 67, 117, 114, 118, 101, 32, 76, 111, 110, 103, 32, 70, 97, 100, 101, 114>>>>>>

Options_MySetting == <<<<"on_air_display", T_OnAirDisplay, 129, <<79, 110, 32, 65, 105, 114, 32, 68, 105, 115, 112, 108, 97, 121>>>>,
  <<"lcd_brightness", T_LCDBrightness, 131, <<76, 67, 68, 32, 66, 114, 105, 103, 104, 116, 110, 101, 115, 115>>>>,
  <<"quantize", T_Quantize, 129, <<81, 117, 97, 110, 116, 105, 122, 101>>>>,
  <<"auto_cue_level", T_AutoCueLevel, 136, <<65, 117, 116, 111, 32, 67, 117, 101, 32, 76, 101, 118, 101, 108>>>>,
  <<"language", T_Language, 129, <<76, 97, 110, 103, 117, 97, 103, 101>>>>,
  <<"jog_ring_brightness", T_JogRingBrightness, 130, <<74, 111, 103, 32, 82, 105, 110, 103, 32, 66, 114, 105, 103, 104, 116, 110, 101, 115, 115>>>>,
  <<"jog_ring_indicator", T_JogRingIndicator, 129, <<74, 111, 103, 32, 82, 105, 110, 103, 32, 73, 110, 100, 105, 99, 97, 116, 111, 114>>>>,
  <<"slip_flashing", T_SlipFlashing, 129, <<83, 108, 105, 112, 32, 70, 108, 97, 115, 104, 105, 110, 103>>>>,
  <<"disc_slot_illumination", T_DiscSlotIllumination, 130, <<68, 105, 115, 99, 32, 83, 108, 111, 116, 32, 73, 108, 108, 117, 109, 105, 110, 97, 116, 105, 111, 110>>>>,
  <<"eject_lock", T_EjectLock, 128, <<69, 106, 101, 99, 116, 32, 76, 111, 99, 107>>>>,
  <<"sync", T_Sync, 128, <<83, 121, 110, 99>>>>,
  <<"play_mode", T_PlayMode, 129, <<80, 108, 97, 121, 32, 77, 111, 100, 101>>>>,
  <<"quantize_beat_value", T_QuantizeBeatValue, 128, <<81, 117, 97, 110, 116, 105, 122, 101, 32, 66, 101, 97, 116, 32, 86, 97, 108, 117, 101>>>>,
  <<"hotcue_autoload", T_HotCueAutoLoad, 129, <<72, 111, 116, 99, 117, 101, 32, 65, 117, 116, 111, 108, 111, 97, 100>>>>,
  <<"hotcue_color", T_HotCueColor, 128, <<72, 111, 116, 99, 117, 101, 32, 67, 111, 108, 111, 114>>>>,
  <<"needle_lock", T_NeedleLock, 129, <<78, 101, 101, 100, 108, 101, 32, 76, 111, 99, 107>>>>,
  <<"time_mode", T_TimeMode, 129, <<84, 105, 109, 101, 32, 77, 111, 100, 101>>>>,
  <<"jog_mode", T_JogMode, 129, <<74, 111, 103, 32, 77, 111, 100, 101>>>>,
  <<"auto_cue", T_AutoCue, 129, <<65, 117, 116, 111, 32, 67, 117, 101>>>>,
  <<"master_tempo", T_MasterTempo, 128, <<77, 97, 115, 116, 101, 114, 32, 84, 101, 109, 112, 111>>>>,
  <<"tempo_range", T_TempoRange, 129, <<84, 101, 109, 112, 111, 32, 82, 97, 110, 103, 101>>>>,
  <<"phase_meter", T_PhaseMeter, 128, <<80, 104, 97, 115, 101, 32, 77, 101, 116, 101, 114>>>>>>

Options_MySetting2 == <<<<"vinyl_speed_adjust", T_VinylSpeedAdjust, 129, <<86, 105, 110, 121, 108, 32, 83, 112, 101, 101, 100, 32, 65, 100, 106, 117, 115, 116>>>>,
  <<"jog_display_mode", T_JogDisplayMode, 128, <<74, 111, 103, 32, 68, 105, 115, 112, 108, 97, 121, 32, 77, 111, 100, 101>>>>,
  <<"pad_button_brightness", T_PadButtonBrightness, 131, <<80, 97, 100, 32, 66, 117, 116, 116, 111, 110, 32, 66, 114, 105, 103, 104, 116, 110, 101, 115, 115>>>>,
  <<"jog_lcd_brightness", T_JogLCDBrightness, 131, <<74, 111, 103, 32, 76, 67, 68, 32, 66, 114, 105, 103, 104, 116, 110, 101, 115, 115>>>>,
  <<"waveform_divisions", T_WaveformDivisions, 129, <<87, 97, 118, 101, 102, 111, 114, 109, 32, 68, 105, 118, 105, 115, 105, 111, 110, 115>>>>,
  <<"waveform", T_Waveform, 128, <<87, 97, 118, 101, 102, 111, 114, 109>>>>,
  <<"beat_jump_beat_value", T_BeatJumpBeatValue, 133, <<66, 101, 97, 116, 32, 74, 117, 109, 112, 32, 66, 101, 97, 116, 32, 86, 97, 108, 117, 101>>>>>>

==============================================================================
