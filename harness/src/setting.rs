//! Setting files and the settings of a device.
use crate::codec::{e, roundtrip};
use crate::util::*;
use crate::{dbg, Res};
use binrw::{BinRead, BinWrite};
use rekordcrate::setting::{Setting, SettingData, SettingType};
use serde_json::Value;
use std::io::Cursor;

pub fn kind(v: &Value) -> SettingType {
    match str_of(v) {
        "DevSetting" => SettingType::DevSetting,
        "DJMMySetting" => SettingType::DJMMySetting,
        "MySetting" => SettingType::MySetting,
        "MySetting2" => SettingType::MySetting2,
        k => panic!("harness: no setting kind {k}"),
    }
}

fn write(x: &Setting) -> Result<Vec<u8>, String> {
    let mut w = Cursor::new(Vec::new());
    x.write(&mut w).map_err(e)?;
    Ok(w.into_inner())
}

pub fn codec(v: &Value) -> Res {
    let ty = kind(&v["kind"]);
    let r = roundtrip(
        v,
        |c| Setting::read_args(c, (ty,)).map_err(e),
        |x, w| x.write(w).map_err(e),
    )?;
    if let Some(x) = r {
        // The accessors give the data of this kind only.
        let d = &x.data;
        let which = [
            d.as_dev_setting().is_some(),
            d.as_djm_my_setting().is_some(),
            d.as_my_setting().is_some(),
            d.as_my_setting2().is_some(),
        ];
        let want = [
            SettingType::DevSetting,
            SettingType::DJMMySetting,
            SettingType::MySetting,
            SettingType::MySetting2,
        ]
        .map(|t| t == ty);
        if which != want {
            return Err(format!("accessors give {which:?} for {ty:?}"));
        }
    }
    Ok(())
}

fn option_text(d: &SettingData, name: &str) -> Option<String> {
    match d {
        SettingData::DevSetting(d) => match name {
            "overview_waveform_type" => Some(d.overview_waveform_type.to_string()),
            "waveform_color" => Some(d.waveform_color.to_string()),
            "key_display_format" => Some(d.key_display_format.to_string()),
            "waveform_current_position" => Some(d.waveform_current_position.to_string()),
            _ => None,
        },
        SettingData::DJMMySetting(d) => match name {
            "channel_fader_curve" => Some(d.channel_fader_curve.to_string()),
            "crossfader_curve" => Some(d.crossfader_curve.to_string()),
            "headphones_pre_eq" => Some(d.headphones_pre_eq.to_string()),
            "headphones_mono_split" => Some(d.headphones_mono_split.to_string()),
            "beat_fx_quantize" => Some(d.beat_fx_quantize.to_string()),
            "mic_low_cut" => Some(d.mic_low_cut.to_string()),
            "talk_over_mode" => Some(d.talk_over_mode.to_string()),
            "talk_over_level" => Some(d.talk_over_level.to_string()),
            "midi_channel" => Some(d.midi_channel.to_string()),
            "midi_button_type" => Some(d.midi_button_type.to_string()),
            "display_brightness" => Some(d.display_brightness.to_string()),
            "indicator_brightness" => Some(d.indicator_brightness.to_string()),
            "channel_fader_curve_long_fader" => Some(d.channel_fader_curve_long_fader.to_string()),
            _ => None,
        },
        SettingData::MySetting(d) => match name {
            "on_air_display" => Some(d.on_air_display.to_string()),
            "lcd_brightness" => Some(d.lcd_brightness.to_string()),
            "quantize" => Some(d.quantize.to_string()),
            "auto_cue_level" => Some(d.auto_cue_level.to_string()),
            "language" => Some(d.language.to_string()),
            "jog_ring_brightness" => Some(d.jog_ring_brightness.to_string()),
            "jog_ring_indicator" => Some(d.jog_ring_indicator.to_string()),
            "slip_flashing" => Some(d.slip_flashing.to_string()),
            "disc_slot_illumination" => Some(d.disc_slot_illumination.to_string()),
            "eject_lock" => Some(d.eject_lock.to_string()),
            "sync" => Some(d.sync.to_string()),
            "play_mode" => Some(d.play_mode.to_string()),
            "quantize_beat_value" => Some(d.quantize_beat_value.to_string()),
            "hotcue_autoload" => Some(d.hotcue_autoload.to_string()),
            "hotcue_color" => Some(d.hotcue_color.to_string()),
            "needle_lock" => Some(d.needle_lock.to_string()),
            "time_mode" => Some(d.time_mode.to_string()),
            "jog_mode" => Some(d.jog_mode.to_string()),
            "auto_cue" => Some(d.auto_cue.to_string()),
            "master_tempo" => Some(d.master_tempo.to_string()),
            "tempo_range" => Some(d.tempo_range.to_string()),
            "phase_meter" => Some(d.phase_meter.to_string()),
            _ => None,
        },
        SettingData::MySetting2(d) => match name {
            "vinyl_speed_adjust" => Some(d.vinyl_speed_adjust.to_string()),
            "jog_display_mode" => Some(d.jog_display_mode.to_string()),
            "pad_button_brightness" => Some(d.pad_button_brightness.to_string()),
            "jog_lcd_brightness" => Some(d.jog_lcd_brightness.to_string()),
            "waveform_divisions" => Some(d.waveform_divisions.to_string()),
            "waveform" => Some(d.waveform.to_string()),
            "beat_jump_beat_value" => Some(d.beat_jump_beat_value.to_string()),
            _ => None,
        },
    }
}

pub fn replay(v: &Value) -> Res {
    let ty = kind(&v["kind"]);
    let default = || match ty {
        SettingType::DevSetting => Setting::default_devsetting(),
        SettingType::DJMMySetting => Setting::default_djmmysetting(),
        SettingType::MySetting => Setting::default_mysetting(),
        SettingType::MySetting2 => Setting::default_mysetting2(),
    };
    match str_of(&v["op"]) {
        "default" => {
            let x = default();
            dbg::check("default", &format!("{x:?}"), &v["tree"])?;
            diff_bytes("default", &write(&x)?, &bytes(&v["out"]))
        }
        "text" => {
            let t = text(&v["text"]);
            let mut x = default();
            match str_of(&v["field"]) {
                "brand" => x.brand = t.as_str().into(),
                "software" => x.software = t.as_str().into(),
                _ => x.version = t.as_str().into(),
            }
            match (write(&x), v["ok"] == true) {
                (Ok(b), true) => diff_bytes("written", &b, &bytes(&v["out"])),
                (Err(_), false) => Ok(()),
                (Err(w), true) => Err(format!("writing failed: {w}")),
                (Ok(_), false) => Err("a text that does not fit was written".into()),
            }
        }
        "display" => {
            let b = bytes(&v["bytes"]);
            let x = Setting::read_args(&mut Cursor::new(&b[..]), (ty,)).map_err(e)?;
            let want = text(&v["text"]);
            match option_text(&x.data, str_of(&v["option"])) {
                Some(t) if t == want => Ok(()),
                r => Err(format!(
                    "{} is shown as {r:?} instead of {want:?}",
                    v["option"]
                )),
            }
        }
        "load" => load(v),
        o => Err(format!("unknown operation {o}")),
    }
}

/// Loads the settings of a device directory made of the given files.
fn load(v: &Value) -> Res {
    let dir = Scratch::new()?;
    let root = dir.0.join("PIONEER");
    if v["root"] == true {
        std::fs::create_dir(&root).map_err(e)?;
        for f in arr(&v["files"]) {
            let p = root.join(str_of(&f["name"]));
            match str_of(&f["is"]) {
                "absent" => (),
                "dir" => std::fs::create_dir(&p).map_err(e)?,
                _ => std::fs::write(&p, bytes(&f["bytes"])).map_err(e)?,
            }
        }
    }
    let s = rekordcrate::DeviceExportLoader::new(dir.0.clone()).load_settings();
    dbg::check("settings", &format!("{s:?}"), &v["tree"])?;
    if v["tool"] == true {
        let r = crate::device::run(&["list-settings".into(), dir.0.clone().into()], &dir.0)?;
        let mut warned: Vec<&str> = r
            .err
            .lines()
            .filter_map(|l| l.split_once("/PIONEER/"))
            .filter_map(|(_, f)| f.split(':').next())
            .collect();
        let mut lost: Vec<&str> = arr(&v["lost"]).iter().map(str_of).collect();
        warned.sort();
        lost.sort();
        if r.rc != Some(0)
            || r.out != s.to_string()
            || warned != lost
            || r.err.is_empty() != lost.is_empty()
        {
            return Err(format!(
                "list-settings ends with {:?}, error output {:.300?}, output {:?}",
                r.rc, r.err, r.out
            ));
        }
    }
    let shown: Vec<String> = s
        .to_string()
        .lines()
        .map(|l| l.split_whitespace().collect::<Vec<_>>().join(" "))
        .filter(|l| !l.is_empty())
        .collect();
    let mut want: Vec<String> = arr(&v["lines"]).iter().map(text).collect();
    let mut got = shown.clone();
    want.sort();
    got.sort();
    if got != want {
        let d: Vec<_> = got
            .iter()
            .filter(|l| !want.contains(l))
            .chain(want.iter().filter(|l| !got.contains(l)))
            .collect();
        return Err(format!("listing differs: {d:?}"));
    }
    Ok(())
}
