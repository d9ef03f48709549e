//! Version gating: which keys, fields and sections exist at which version, on parse, print and default.
use crate::{base::*, p05, p06, p07::d, sym::*};
use osu_file_parser::events::audio_sample;
use osu_file_parser::events::storyboard::sprites::LoopType;
use osu_file_parser::general::*;
use osu_file_parser::hitobjects;
use osu_file_parser::timingpoints;
use osu_file_parser::types::*;
use osu_file_parser::{Colours, Difficulty, Editor, Events, General, HitObjects, Metadata, Osb, OsuFile, TimingPoints};

/// versions at which the i-th General key is printed
const PRINT: [(u8, u8); 21] = [
    (3, 14), (3, 14), (3, 13), (3, 14), (5, 14), (4, 14), (3, 14), (3, 14), (3, 14), (3, 14), (3, 14),
    (3, 14), (14, 14), (3, 14), (3, 14), (3, 14), (3, 14), (3, 14), (3, 14), (3, 5), (3, 5),
];
fn within(r: (u8, u8), v: u8) -> bool {
    r.0 <= v && v <= r.1
}
/// the version from which a Mode exists
const MODE: [u8; 4] = [3, 5, 7, 10];
const DEF: &[(&str, Option<&str>, u8, u8)] = &[
    ("AudioFilename", Some(""), 3, 14),
    ("AudioLeadIn", Some("0"), 3, 14),
    ("AudioHash", Some(""), 3, 13),
    ("PreviewTime", Some("-1"), 3, 14),
    ("Countdown", Some("1"), 5, 14),
    ("SampleSet", Some("Normal"), 4, 14),
    ("StackLeniency", Some("0.7"), 3, 14),
    ("Mode", Some("0"), 3, 14),
    ("LetterboxInBreaks", Some("0"), 3, 14),
    ("StoryFireInFront", Some("1"), 3, 14),
    ("UseSkinSprites", Some("0"), 3, 14),
    ("AlwaysShowPlayfield", Some("0"), 3, 14),
    ("OverlayPosition", Some("NoChange"), 14, 14),
    ("SkinPreference", Some(""), 3, 14),
    ("EpilepsyWarning", Some("0"), 3, 14),
    ("CountdownOffset", Some("0"), 3, 14),
    ("SpecialStyle", Some("0"), 3, 14),
    ("WidescreenStoryboard", Some("0"), 3, 14),
    ("SamplesMatchPlaybackRate", Some("0"), 3, 14),
    ("Tags", Some(""), 3, 14),
    ("Events", Some(""), 3, 14),
    ("TimingPoints", Some(""), 3, 14),
    ("HitObjects", Some(""), 3, 14),
    ("Colours", Some(""), 5, 14),
    ("timing SampleIndex", Some("0"), 3, 14),
    ("object SampleSet", Some("0"), 3, 14),
    ("object SampleIndex", Some("0"), 3, 14),
    ("audio Volume", Some("100"), 3, 14),
    ("LoopType", Some("LoopForever"), 3, 14),
    // exists at every version but is printed only from version 10 on
    ("HitSample 10", Some("0:0:0"), 10, 11),
    ("HitSample 12", Some("0:0:0:0:"), 12, 14),
];
fn def<T: VersionedDefault + VersionedToString>(v: u8) -> Option<String> {
    let x = <T as VersionedDefault>::default(v)?;
    let s = VersionedToString::to_string(&x, v);
    // what a version has as default it can print
    chk!(s.is_some());
    s
}
fn default_of(i: usize, v: u8) -> Option<String> {
    match i {
        0 => def::<AudioFilename>(v),
        1 => def::<AudioLeadIn>(v),
        2 => def::<AudioHash>(v),
        3 => def::<PreviewTime>(v),
        4 => def::<Countdown>(v),
        5 => def::<SampleSet>(v),
        6 => def::<StackLeniency>(v),
        7 => def::<Mode>(v),
        8 => def::<LetterboxInBreaks>(v),
        9 => def::<StoryFireInFront>(v),
        10 => def::<UseSkinSprites>(v),
        11 => def::<AlwaysShowPlayfield>(v),
        12 => def::<OverlayPosition>(v),
        13 => def::<SkinPreference>(v),
        14 => def::<EpilepsyWarning>(v),
        15 => def::<CountdownOffset>(v),
        16 => def::<SpecialStyle>(v),
        17 => def::<WidescreenStoryboard>(v),
        18 => def::<SamplesMatchPlaybackRate>(v),
        19 => def::<osu_file_parser::metadata::Tags>(v),
        20 => def::<Events>(v),
        21 => def::<TimingPoints>(v),
        22 => def::<HitObjects>(v),
        23 => def::<Colours>(v),
        24 => def::<timingpoints::SampleIndex>(v),
        25 => def::<hitobjects::SampleSet>(v),
        26 => def::<hitobjects::SampleIndex>(v),
        27 => def::<audio_sample::Volume>(v),
        28 => <LoopType as VersionedDefault>::default(v).map(|l| match l {
            LoopType::LoopForever => "LoopForever".into(),
            _ => String::new(),
        }),
        _ => <hitobjects::HitSample as VersionedDefault>::default(v).and_then(|h| VersionedToString::to_string(&h, v)),
    }
}
/// a timing point with every field away from its default
const TIMING: [&str; 3] = ["10,300", "10,300,3,2,1", "10,300,3,2,1,60,1,8"];
fn own(v: u8) -> usize {
    match v {
        3 => 0,
        4 => 1,
        _ => 2,
    }
}

harnesses! {
    // one General key: parsed at a, printed at b
    p17_general / p17_general__count (21 * 4) |p| {
        let mut p = Pick(p);
        let (i, w) = (p.of(21), p.of(4));
        let (a, b) = (ver(), ver());
        let mut g = General::new();
        let (name, val, _) = p05::general_field(i, w, a, &mut g);
        let got = must!(must!(General::from_str(&cat!(name, ": ", val), a).ok()));
        // keys that do not exist at a are accepted and dropped
        let kept = match i {
            4 => a >= 5,
            5 => a >= 4,
            7 => a >= MODE[(val.as_bytes()[0] - b'0') as usize],
            12 => a >= 14,
            _ => true,
        };
        chk!(kept || got == General::new());
        let o = must!(got.to_string(b));
        trace(&o);
        reach(1);
        chk!(o == if kept && within(PRINT[i], b) { cat!(name, ": ", val) } else { String::new() });
    }
    // the full General section built from values, printed at every version: exactly the keys of that version in order
    p17_full / p17_full__count (3) |p| {
        let v = ver();
        let (t, n) = int(1 + p as usize, p == 1);
        let (f, x) = digit(2);
        let g = General {
            audio_filename: Some(std::path::PathBuf::from("a.mp3").into()),
            audio_lead_in: Some((n as i32).into()),
            audio_hash: Some(String::from("h").into()),
            preview_time: Some(7.into()),
            countdown: Some(Countdown::Half),
            sample_set: Some(SampleSet::Soft),
            stack_leniency: Some(d("0.5").into()),
            mode: Some(Mode::Mania),
            letterbox_in_breaks: Some((x == 1).into()),
            story_fire_in_front: Some((x == 0).into()),
            use_skin_sprites: Some(true.into()),
            always_show_playfield: Some(false.into()),
            overlay_position: Some(OverlayPosition::Above),
            skin_preference: Some(String::from("s").into()),
            epilepsy_warning: Some(true.into()),
            countdown_offset: Some((n as i32).into()),
            special_style: Some((x == 1).into()),
            widescreen_storyboard: Some(false.into()),
            samples_match_playback_rate: Some(true.into()),
            editor_bookmarks: Some(vec![1, 2].into()),
            editor_distance_spacing: Some(d("1.5").into()),
        };
        let s = must!(g.to_string(v));
        trace(&s);
        reach(1);
        let mut e = cat!("AudioFilename: a.mp3\nAudioLeadIn: ", t);
        if v <= 13 { e.push_str("\nAudioHash: h"); }
        e.push_str("\nPreviewTime: 7");
        if v >= 5 { e.push_str("\nCountdown: 2"); }
        if v >= 4 { e.push_str("\nSampleSet: Soft"); }
        e.push_str(&cat!("\nStackLeniency: 0.5\nMode: 3\nLetterboxInBreaks: ", f, "\nStoryFireInFront: ", if x == 1 { "0" } else { "1" }, "\nUseSkinSprites: 1\nAlwaysShowPlayfield: 0"));
        if v >= 14 { e.push_str("\nOverlayPosition: Above"); }
        e.push_str(&cat!("\nSkinPreference: s\nEpilepsyWarning: 1\nCountdownOffset: ", t, "\nSpecialStyle: ", f, "\nWidescreenStoryboard: 0\nSamplesMatchPlaybackRate: 1"));
        if v <= 5 { e.push_str("\nEditorBookmarks: 1,2\nEditorDistanceSpacing: 1.5"); }
        chk!(s == e);
        // and in a file
        let mut o = OsuFile::new(v);
        o.general = Some(g);
        chk!(std::string::ToString::to_string(&o) == cat!("osu file format v", v.to_string(), "\n\n[General]\n", e));
    }
    p17_editor / p17_editor__count (6 * 3) |p| {
        let mut p = Pick(p);
        let (i, w) = (p.of(6), p.of(3));
        let (a, b) = (ver(), ver());
        let mut g = Editor::new();
        let (name, val, _) = p05::editor_field(i, w, a, &mut g);
        let got = must!(must!(Editor::from_str(&cat!(name, ": ", val), a).ok()));
        chk!(got == g);
        let o = must!(got.to_string(b));
        trace(&o);
        reach(1);
        chk!(o == if i < 5 || b == 10 { cat!(name, ": ", val) } else { String::new() });
    }
    // Metadata and Difficulty exist in full at every version
    p17_ungated / p17_ungated__count (16 * 2) |p| {
        let mut p = Pick(p);
        let (i, w) = (p.of(16), p.of(2));
        let (a, b) = (ver(), ver());
        reach(1);
        if i < 10 {
            let mut g = Metadata::new();
            let (name, val) = p06::meta_field(i, w, &mut g);
            let got = must!(must!(Metadata::from_str(&cat!(name, ":", val), a).ok()));
            chk!(got == g);
            let o = must!(got.to_string(b));
            trace(&o);
            chk!(p06::same_fields(&o, &[(name, &val)]));
        } else {
            let mut g = Difficulty::new();
            let (name, val) = p06::diff_field(i - 10, w, &mut g);
            let got = must!(must!(Difficulty::from_str(&cat!(name, ":", val), a).ok()));
            chk!(got == g);
            let o = must!(got.to_string(b));
            trace(&o);
            chk!(p06::same_fields(&o, &[(name, &val)]));
        }
    }
    p17_colours / p17_colours__count (3) |p| {
        let (a, b) = (ver(), ver());
        let (t, _) = digit(10);
        let text = cat!(["Combo1 : ", "SliderTrackOverride : ", "SliderBorder : "][p as usize], t, ",20,255");
        let c = must!(<Colours as VersionedFromStr>::from_str(&text, a).ok());
        reach(1);
        chk!(c.is_some() == (a >= 5));
        if let Some(c) = c {
            chk!(c.0.len() == 1);
            let s = VersionedToString::to_string(&c, b);
            chk!(s == if b >= 5 { Some(text.clone()) } else { None });
        }
        // as part of a file
        let mut f = must!(cat!("osu file format v", a.to_string(), "\n\n[Colours]\n", text, "\n").parse::<OsuFile>().ok());
        chk!(f.colours.is_some() == (a >= 5));
        f.version = b;
        let s = std::string::ToString::to_string(&f);
        trace(&s);
        let head = cat!("osu file format v", b.to_string(), "\n\n");
        chk!(s == if a >= 5 && b >= 5 { cat!(head, "[Colours]\n", text) } else { head });
    }
    // a timing point has 2, 5 or 8 fields
    p17_timing / p17_timing__count (1) |_p| {
        let (a, b) = (ver(), ver());
        let l = must!(must!(<TimingPoints as VersionedFromStr>::from_str(TIMING[own(a)], a).ok()));
        let s = must!(VersionedToString::to_string(&l, b));
        trace(&s);
        reach(1);
        let f: Vec<&str> = s.split(',').collect();
        // the last two fields are not made up when they were not there
        chk!(f.len() == if own(b) == 2 && own(a) < 2 { 6 } else { [2, 5, 8][own(b)] });
        chk!(f[1] == "300");
        if own(b) > 0 {
            chk!(f[2..5] == if own(a) > 0 { ["3", "2", "1"] } else { ["4", "1", "1"] });
        }
        if own(b) > 1 {
            chk!(f[5..] == *(if own(a) > 1 { &["60", "1", "8"][..] } else { &["100"][..] }));
        }
    }
    // a hit sample is printed with no, 3 or 5 fields; a circle of version 3 ends in a comma
    p17_sample / p17_sample__count (4) |p| {
        let (a, b) = (ver_in(10, 14), ver());
        let head = ["1,2,50,1,2", "1,2,50,2,2,B|1:2|3:4,1,9,2|8,0:1|2:3", "1,2,50,8,2,90", "1,2,50,128,2,90"][p as usize];
        let sep = if p == 3 { ":" } else { "," };
        let x = digits(2);
        let (u, w) = (raw(vec![x[0]]), raw(vec![x[1]]));
        let sample = cat!(u, ":2:", w, ":40:f");
        let h = must!(must!(<HitObjects as VersionedFromStr>::from_str(&cat!(head, sep, if a >= 12 { sample.clone() } else { cat!(u, ":2:", w) }), a).ok()));
        let s = must!(VersionedToString::to_string(&h, b));
        trace(&s);
        reach(1);
        // the sample is the tail that the version has
        let tail = match b {
            ..=9 => String::new(),
            10..=11 => cat!(u, ":2:", w),
            _ if a >= 12 => sample.clone(),
            _ => cat!(u, ":2:", w, ":0:"),
        };
        let t = if p == 3 { s.splitn(2, ':').nth(1).map(String::from) } else { s.split(',').nth([5, 10, 6][p as usize]).map(String::from) };
        match t {
            Some(t) => chk!(t == tail || (t.is_empty() && tail.is_empty())),
            None => chk!(tail.is_empty()),
        }
        if p == 0 && b <= 9 {
            chk!(s == if b == 3 { "1,2,26,1,2," } else if b == 4 { "1,2,26,1,2" } else { "1,2,50,1,2" });
        }
    }
    // the v3 slider starts its point list with the position
    p17_slider / p17_slider__count (1) |_p| {
        let (a, b) = (ver(), ver());
        let h = must!(must!(<HitObjects as VersionedFromStr>::from_str(if a == 3 { "7,8,50,2,2,B|7:8|1:2|3:4,1,9" } else { "7,8,50,2,2,B|1:2|3:4,1,9" }, a).ok()));
        let s = must!(VersionedToString::to_string(&h, b));
        trace(&s);
        reach(1);
        chk!(s.split(',').nth(5) == Some(if b == 3 { "B|7:8|1:2|3:4" } else { "B|1:2|3:4" }));
    }
    // colour transformations end with version 13
    p17_transform / p17_transform__count (1) |_p| {
        let (a, b) = (ver(), ver());
        let (t, _) = digit(10);
        let l = cat!("3,100,", t, ",2,255");
        let e = must!(must!(<Events as VersionedFromStr>::from_str(&cat!("2,1,2\n", l, "\n0,0,b"), a).ok()));
        let f = must!(VersionedToString::to_string(&e, b));
        trace(&f);
        reach(1);
        let n: Vec<&str> = f.split('\n').collect();
        if b >= 14 {
            chk!(n.len() == 2 && n[1] == "0,0,b");
        } else {
            chk!(n.len() == 3 && n[1].starts_with("3,") && n[1].ends_with(&cat!(t, ",2,255")) && n[2] == "0,0,b");
        }
    }
    // storyboard files exist at version 14
    p17_osb / p17_osb__count (2) |p| {
        let (a, b) = (ver(), ver());
        let (t, _) = digit(10);
        let text = cat!("[Variables]\n$a=", t, "\n\n[Events]\nSprite,Pass,Centre,s.png,1,2\n F,0,1,2,$a");
        if p == 0 {
            let o = must!(<Osb as VersionedFromStr>::from_str(&text, a).ok());
            chk!(o.is_some() == (a >= 14));
            let mut s = None;
            if let Some(o) = o {
                s = VersionedToString::to_string(&o, b);
                chk!(s.is_some() == (b >= 14));
            }
            reach(1);
            trace(&s.unwrap_or_default());
        } else {
            let mut f = OsuFile::new(a);
            chk!(f.append_osb(&text).is_ok());
            chk!(f.osb.is_some() == (a >= 14));
            f.version = b;
            let s = f.osb_to_string();
            chk!(s.is_some() == (a >= 14 && b >= 14));
            reach(1);
            trace(&s.unwrap_or_default());
            // the .osu text has no storyboard file in it
            chk!(std::string::ToString::to_string(&f) == cat!("osu file format v", b.to_string(), "\n\n"));
        }
    }
    // defaults: what a version has as default is what that version can express
    p17_default / p17_default__count (DEF.len()) |p| {
        let v = ver();
        let (_, text, lo, hi) = DEF[p as usize];
        let s = default_of(p as usize, v);
        reach(1);
        if p >= 29 && !within((lo, hi), v) {
            chk!(s.is_none() || v >= 10);
        } else {
            chk!(s.as_deref() == if within((lo, hi), v) { text } else { None });
        }
    }
    p17_default_values / p17_default_values__count (1) |_p| {
        let v = ver();
        reach(1);
        let h = must!(<hitobjects::HitSample as VersionedDefault>::default(v));
        chk!(h.normal_set == hitobjects::SampleSet::NoCustomSampleSet && h.addition_set == hitobjects::SampleSet::NoCustomSampleSet);
        chk!(h.index == hitobjects::SampleIndex::TimingPointSampleIndex && h.volume.volume().is_none() && h.filename.is_empty());
        chk!(must!(<hitobjects::Volume as VersionedDefault>::default(v)).volume().is_none());
        chk!(must!(<Events as VersionedDefault>::default(v)).0.is_empty());
        chk!(must!(<TimingPoints as VersionedDefault>::default(v)).0.is_empty());
        chk!(must!(<HitObjects as VersionedDefault>::default(v)).0.is_empty());
        chk!(OsuFile::default(v) == OsuFile::new(v));
        let f = OsuFile::new(v);
        chk!(f.version == v && f.general.is_none() && f.editor.is_none() && f.metadata.is_none() && f.difficulty.is_none());
        chk!(f.events.is_none() && f.timing_points.is_none() && f.colours.is_none() && f.hitobjects.is_none() && f.osb.is_none());
        chk!(General::default() == General::new() && Editor::default() == Editor::new());
        chk!(General::new().to_string(v) == Some(String::new()));
        chk!(std::string::ToString::to_string(&f) == cat!("osu file format v", v.to_string(), "\n\n"));
    }
}
