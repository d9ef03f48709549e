//! General and Editor: every key holds exactly the value its text spells, and prints it back.
use crate::{base::*, sym::*};
use osu_file_parser::editor::*;
use osu_file_parser::general::*;
use osu_file_parser::types::Decimal;
use osu_file_parser::{Editor, General};

fn d(s: &str) -> Decimal {
    Decimal::new(s.parse().unwrap())
}
fn flag01() -> (String, bool) {
    let (t, x) = digit(2);
    (t, x == 1)
}
fn path() -> String {
    let a = word(1, plain);
    let b = word(2, |b| printable(b) && b != b'/');
    cat!(a, b, ".mp3")
}
fn gap(on: bool, s: String) -> Option<String> {
    if on {
        Some(s)
    } else {
        None
    }
}
pub const NG: usize = 21;
/// i-th key with a symbolic value of shape w: name, value text, printed value; the expected field is stored in g
pub fn general_field(i: usize, w: usize, v: u8, g: &mut General) -> (&'static str, String, Option<String>) {
    macro_rules! b {
        ($n:literal, $f:ident, $t:ident) => {{
            let (t, x) = flag01();
            g.$f = Some($t::from(x));
            ($n, t.clone(), Some(t))
        }};
    }
    macro_rules! n {
        ($n:literal, $f:ident, $t:ident) => {{
            let (t, x) = ints(w);
            g.$f = Some($t::from(x));
            ($n, t.clone(), Some(t))
        }};
    }
    match i {
        0 => {
            let p = path();
            g.audio_filename = Some(AudioFilename::from(std::path::PathBuf::from(&p)));
            ("AudioFilename", p.clone(), Some(p))
        }
        1 => n!("AudioLeadIn", audio_lead_in, AudioLeadIn),
        2 => {
            let t = word(1 + w % 3, |b| plain(b));
            g.audio_hash = Some(AudioHash::from(t.clone()));
            ("AudioHash", t.clone(), gap(v <= 13, t))
        }
        3 => n!("PreviewTime", preview_time, PreviewTime),
        4 => {
            let (t, x) = digit(4);
            if v >= 5 {
                g.countdown = Some(match x {
                    0 => Countdown::NoCountdown,
                    1 => Countdown::Normal,
                    2 => Countdown::Half,
                    _ => Countdown::Double,
                });
            }
            ("Countdown", t.clone(), gap(v >= 5, t))
        }
        5 => {
            let (n, x) = [("Normal", SampleSet::Normal), ("Soft", SampleSet::Soft), ("Drum", SampleSet::Drum), ("None", SampleSet::None)][w % 4];
            if v >= 4 {
                g.sample_set = Some(x);
            }
            ("SampleSet", n.into(), gap(v >= 4, n.into()))
        }
        6 => {
            let t = decs(w);
            g.stack_leniency = Some(StackLeniency::from(d(&t)));
            ("StackLeniency", t.clone(), Some(t))
        }
        7 => {
            let (t, x) = digit(4);
            let first = [3u8, 5, 7, 10][x as usize];
            if v >= first {
                g.mode = Some(match x {
                    0 => Mode::Osu,
                    1 => Mode::Taiko,
                    2 => Mode::Catch,
                    _ => Mode::Mania,
                });
            }
            ("Mode", t.clone(), gap(v >= first, t))
        }
        8 => b!("LetterboxInBreaks", letterbox_in_breaks, LetterboxInBreaks),
        9 => b!("StoryFireInFront", story_fire_in_front, StoryFireInFront),
        10 => b!("UseSkinSprites", use_skin_sprites, UseSkinSprites),
        11 => b!("AlwaysShowPlayfield", always_show_playfield, AlwaysShowPlayfield),
        12 => {
            let (n, x) = [("NoChange", OverlayPosition::NoChange), ("Below", OverlayPosition::Below), ("Above", OverlayPosition::Above)][w % 3];
            if v >= 14 {
                g.overlay_position = Some(x);
            }
            ("OverlayPosition", n.into(), gap(v >= 14, n.into()))
        }
        13 => {
            let a = word(1, |b| b > 0x20 && b < 0x7f);
            let b = word(3, printable);
            let t = cat!(a, b);
            g.skin_preference = Some(SkinPreference::from(t.clone()));
            ("SkinPreference", t.clone(), Some(t))
        }
        14 => b!("EpilepsyWarning", epilepsy_warning, EpilepsyWarning),
        15 => n!("CountdownOffset", countdown_offset, CountdownOffset),
        16 => b!("SpecialStyle", special_style, SpecialStyle),
        17 => b!("WidescreenStoryboard", widescreen_storyboard, WidescreenStoryboard),
        18 => b!("SamplesMatchPlaybackRate", samples_match_playback_rate, SamplesMatchPlaybackRate),
        19 => {
            let (t, x) = list(w);
            g.editor_bookmarks = Some(EditorBookmarks::from(x));
            ("EditorBookmarks", t.clone(), gap(v <= 5, t))
        }
        _ => {
            let t = decs(w);
            g.editor_distance_spacing = Some(EditorDistanceSpacing::from(d(&t)));
            ("EditorDistanceSpacing", t.clone(), gap(v <= 5, t))
        }
    }
}
fn list(w: usize) -> (String, Vec<i32>) {
    let mut s = String::new();
    let mut v = vec![];
    for k in 0..w % 5 {
        if k > 0 {
            s.push(',');
        }
        let (t, x) = if k == 2 { int(2, true) } else { int(1 + k, false) };
        s.push_str(&t);
        v.push(x as i32);
    }
    (s, v)
}
pub const NE: usize = 6;
pub fn editor_field(i: usize, w: usize, v: u8, g: &mut Editor) -> (&'static str, String, Option<String>) {
    match i {
        0 => {
            let (t, x) = list(w);
            g.bookmarks = Some(Bookmarks::from(x));
            ("Bookmarks", t.clone(), Some(t))
        }
        1 => {
            let t = decs(w);
            g.distance_spacing = Some(DistanceSpacing::from(d(&t)));
            ("DistanceSpacing", t.clone(), Some(t))
        }
        2 => {
            let t = decs(w + 1);
            g.beat_divisor = Some(BeatDivisor::from(d(&t)));
            ("BeatDivisor", t.clone(), Some(t))
        }
        3 => {
            let (t, x) = ints(w);
            g.grid_size = Some(GridSize::from(x));
            ("GridSize", t.clone(), Some(t))
        }
        4 => {
            let t = decs(w);
            g.timeline_zoom = Some(TimelineZoom::from(d(&t)));
            ("TimelineZoom", t.clone(), Some(t))
        }
        _ => {
            let (t, x) = ints(w);
            g.current_time = Some(CurrentTime::from(x));
            ("CurrentTime", t.clone(), gap(v == 10, t))
        }
    }
}
const SEPS: &[&str] = &[" ", "", "\t ", "   "];

harnesses! {
    // one key, symbolic value, any version, any separator spacing
    p05_general / p05_general__count (NG * 5 * 2) |p| {
        let mut p = Pick(p);
        let (i, w, s) = (p.of(NG), p.of(5), p.of(2) * 2 + (p.0 as usize % 2));
        let v = ver();
        let mut want = General::new();
        let (name, val, out) = general_field(i, w, v, &mut want);
        let text = cat!(name, ":", SEPS[(s + w) % 4], val);
        let got = must!(must!(General::from_str(&text, v).ok()));
        chk!(got == want);
        let o = must!(got.to_string(v));
        trace(&o);
        reach(1);
        chk!(o == match out { Some(x) => cat!(name, ": ", x), None => String::new() });
        // the constructed value prints the same
        chk!(want.to_string(v) == Some(o));
    }
    p05_editor / p05_editor__count (NE * 5 * 2) |p| {
        let mut p = Pick(p);
        let (i, w, s) = (p.of(NE), p.of(5), p.of(2));
        let v = ver();
        let mut want = Editor::new();
        let (name, val, out) = editor_field(i, w, v, &mut want);
        let text = cat!(name, ":", SEPS[(s + w) % 4], val);
        let got = must!(must!(Editor::from_str(&text, v).ok()));
        chk!(got == want);
        let o = must!(got.to_string(v));
        trace(&o);
        reach(1);
        chk!(o == match out { Some(x) => cat!(name, ": ", x), None => String::new() });
    }
    // all keys at once, rotated and reversed order: printed once each, in declaration order
    p05_all / p05_all__count (24) |p| {
        let mut p = Pick(p);
        let (rev, rot, w) = (p.of(2) == 1, p.of(6) * 4, p.of(2));
        let v = ver();
        let mut want = General::new();
        let mut f = vec![];
        // two of the on/off keys stay symbolic, the others get a fixed pattern
        let free = rot / 4;
        let mut nb = 0;
        for i in 0..NG {
            f.push(general_field(i, if i == 5 || i == 12 || i == 19 { w + 1 } else { 0 }, v, &mut want));
            if matches!(i, 4 | 7) || (8..=11).contains(&i) || matches!(i, 14 | 16..=18) {
                if nb / 2 != free {
                    assume(f[i].1.as_bytes()[0] == b'0' + (nb % 2) as u8);
                }
                nb += 1;
            }
        }
        let mut exp = String::new();
        for (n, _, o) in &f {
            if let Some(o) = o {
                if !exp.is_empty() { exp.push('\n'); }
                exp.push_str(&cat!(n, ": ", o));
            }
        }
        let mut text = String::new();
        for i in 0..NG {
            let k = (i + rot) % NG;
            let k = if rev { NG - 1 - k } else { k };
            text.push_str(&cat!(f[k].0, ":", SEPS[(i + w) % 4], f[k].1, ["\n", "\r\n", "\n\n"][(i + w) % 3]));
        }
        let got = must!(must!(General::from_str(&text, v).ok()));
        chk!(got == want);
        let o = must!(got.to_string(v));
        trace(&o);
        reach(1);
        chk!(o == exp);
    }
    p05_eall / p05_eall__count (12) |p| {
        let mut p = Pick(p);
        let (rev, rot) = (p.of(2) == 1, p.of(6));
        let v = ver();
        let mut want = Editor::new();
        let mut f = vec![];
        for i in 0..NE {
            f.push(editor_field(i, 2, v, &mut want));
        }
        let mut exp = String::new();
        for (n, _, o) in &f {
            if let Some(o) = o {
                if !exp.is_empty() { exp.push('\n'); }
                exp.push_str(&cat!(n, ": ", o));
            }
        }
        let mut text = String::new();
        for i in 0..NE {
            let k = (i + rot) % NE;
            let k = if rev { NE - 1 - k } else { k };
            text.push_str(&cat!(f[k].0, ":", SEPS[i % 4], f[k].1, ["\n", "\r\n", "\n\n"][i % 3]));
        }
        let got = must!(must!(Editor::from_str(&text, v).ok()));
        chk!(got == want);
        let o = must!(got.to_string(v));
        trace(&o);
        reach(1);
        chk!(o == exp);
    }
    // exactly the documented spellings are accepted
    p05_bool / p05_bool__count (9) |p| {
        let n = ["LetterboxInBreaks", "StoryFireInFront", "UseSkinSprites", "AlwaysShowPlayfield", "EpilepsyWarning", "SpecialStyle",
            "WidescreenStoryboard", "SamplesMatchPlaybackRate", "EpilepsyWarning"][p as usize];
        let v = ver();
        let b = word(1, |b| b > 0x20 && b < 0x7f);
        let text = cat!(n, ": ", b);
        let r = General::from_str(&text, v);
        reach(1);
        match r {
            Ok(_) => chk!(b == "0" || b == "1"),
            Err(e) => { chk!(b != "0" && b != "1"); chk!(matches!(e.error(), osu_file_parser::general::ParseError::ParseZeroOneBoolError(_))); }
        }
    }
    p05_enum / p05_enum__count (11) |p| {
        let v = ver();
        reach(1);
        if p < 2 {
            let b = word(1, |b| b > 0x20 && b < 0x7f);
            let d = b.as_bytes()[0];
            let text = cat!(["Countdown: ", "Mode: "][p as usize], b);
            let r = General::from_str(&text, v);
            let ok = (b'0'..=b'3').contains(&d) || (p == 0 && v <= 4);
            chk!(r.is_ok() == ok);
        } else {
            // a spelling with one byte replaced is only accepted when it is a spelling
            let names = ["Normal", "Soft", "Drum", "None", "NoChange", "Below", "Above"];
            let k = (p - 2) as usize % 7;
            let mut n = names[k].as_bytes().to_vec();
            let i = below(n.len() as u8) as usize;
            let b = byte();
            assume(b > 0x20 && b < 0x7f);
            n[i] = b;
            let n = raw(n);
            let (key, lo) = if k < 4 { ("SampleSet: ", 4) } else { ("OverlayPosition: ", 14) };
            let r = General::from_str(&cat!(key, n), v);
            let valid = if k < 4 { names[..4].contains(&n.as_str()) } else { names[4..].contains(&n.as_str()) };
            chk!(r.is_ok() == (valid || v < lo));
        }
    }
    // integers are accepted exactly within 32 bits
    p05_limit / p05_limit__count (10) |p| {
        let neg = p % 2 == 1;
        let k = p / 2;
        let (t, x) = digit(10);
        let text = cat!(if neg { "-" } else { "" }, "214748364", t);
        let fits = if neg { x <= 8 } else { x <= 7 };
        let v = ver();
        let ok = match k {
            0 => General::from_str(&cat!("AudioLeadIn: ", text), v).is_ok(),
            1 => General::from_str(&cat!("PreviewTime: ", text), v).is_ok(),
            2 => Editor::from_str(&cat!("GridSize: ", text), v).is_ok(),
            3 => Editor::from_str(&cat!("Bookmarks: 1,", text), v).is_ok(),
            _ => General::from_str(&cat!("EditorBookmarks: 1,", text, ",2"), v).is_ok(),
        };
        reach(1);
        chk!(ok == fits);
    }
    // unknown keys and repeated keys are rejected
    p05_key / p05_key__count (3) |p| {
        let v = ver();
        reach(1);
        match p {
            0 => {
                let k = word(4, |b| b > 0x20 && b < 0x7f && b != b':');
                let r = General::from_str(&cat!(k, ": 0"), v);
                match r {
                    Ok(_) => chk!(k == "Mode"),
                    Err(e) => { chk!(k != "Mode"); chk!(matches!(e.error(), osu_file_parser::general::ParseError::InvalidKey)); }
                }
            }
            1 => {
                let k = word(8, |b| b > 0x20 && b < 0x7f && b != b':');
                let r = Editor::from_str(&cat!(k, ": 0"), v);
                chk!(r.is_ok() == (k == "GridSize"));
            }
            _ => {
                let i = below(NG as u8) as usize;
                let mut g = General::new();
                let f = general_field(i, 1, 14, &mut g);
                let mid = if i == 7 { "AudioLeadIn: 1\n" } else { "Mode: 0\n" };
                let text = cat!(f.0, ": ", f.1, "\n", mid, f.0, ": ", f.1);
                match General::from_str(&text, v) {
                    Ok(_) => chk!(false),
                    Err(e) => chk!(matches!(e.error(), osu_file_parser::general::ParseError::DuplicateField)),
                }
            }
        }
    }

    // long lists, names and files
    p05_long / p05_long__count (4 * 4) |p| {
        let mut p = Pick(p);
        let (n, k) = (LONG[p.of(4)], p.of(4));
        let v = ver();
        let (t, x) = int(2, n % 2 == 1);
        let at = below(n as u8) as usize;
        reach(1);
        if k == 3 {
            // a long path
            let mut s = String::new();
            for i in 0..n { s.push_str(["a", "b/", "c ", ".d"][mix(i, 4)]); }
            let b = word(1, plain);
            let path = cat!("q", s, b, ".mp3");
            let g = must!(must!(General::from_str(&cat!("AudioFilename:", path, "\nAudioLeadIn: 1"), v).ok()));
            chk!(g.audio_filename == Some(AudioFilename::from(std::path::PathBuf::from(&path))));
            chk!(must!(g.to_string(v)) == cat!("AudioFilename: ", path, "\nAudioLeadIn: 1"));
            return;
        }
        let mut l = vec![];
        let mut vals = vec![];
        for i in 0..n {
            let (s, y) = if i == at { (t.clone(), x as i32) } else { let y = mix(i, 90000) as i32 - 3000; (y.to_string(), y) };
            l.push(s);
            vals.push(y);
        }
        if k == 0 {
            let text = l.join(",");
            let e = must!(must!(Editor::from_str(&cat!("Bookmarks: ", text), v).ok()));
            chk!(e.bookmarks == Some(Bookmarks::from(vals)));
            chk!(must!(e.to_string(v)) == cat!("Bookmarks: ", text));
        } else if k == 1 {
            let text = l.join(",");
            let e = must!(must!(Editor::from_str(&cat!("Bookmarks: ", text, "\nGridSize: ", t), v).ok()));
            chk!(e.bookmarks == Some(Bookmarks::from(vals)) && e.grid_size == Some(GridSize::from(x as i32)));
        } else {
            let text = l.join(",");
            let g = must!(must!(General::from_str(&cat!("EditorBookmarks: ", text), v).ok()));
            chk!(g.editor_bookmarks == Some(EditorBookmarks::from(vals)));
            let o = must!(g.to_string(v));
            chk!(o == if v <= 5 { cat!("EditorBookmarks: ", text) } else { String::new() });
        }
    }
}
