//! Metadata and Difficulty: every key holds exactly the value its text spells, and prints it back.
use crate::{base::*, sym::*};
use osu_file_parser::difficulty::*;
use osu_file_parser::metadata::*;
use osu_file_parser::types::Decimal;
use osu_file_parser::{Difficulty, Metadata};

fn d(s: &str) -> Decimal {
    Decimal::new(s.parse().unwrap())
}
/// free text: colons, quotes, brackets, slashes, inner and trailing spaces, non-ASCII
pub fn text(w: usize) -> String {
    match w % 6 {
        0 => {
            let a = word(1, |b| b > 0x20 && b < 0x7f);
            let b = word(3, printable);
            cat!(a, b)
        }
        1 => String::new(),
        2 => {
            let a = word(1, printable);
            cat!("é", a, ":", "世")
        }
        3 => {
            // one arbitrary two-byte character
            let mut b = [0u8; 2];
            bytes(&mut b);
            assume((0xc3..=0xdf).contains(&b[0]) && (0x80..=0xbf).contains(&b[1]));
            cat!("x", String::from_utf8(b.to_vec()).unwrap(), "[y]")
        }
        4 => {
            let a = word(1, |b| b > 0x20 && b < 0x7f);
            cat!(a, " // : , ")
        }
        _ => {
            let a = word(1, |b| b > 0x20 && b < 0x7f);
            a
        }
    }
}
fn tags(w: usize) -> (String, Vec<String>) {
    let mut v = vec![];
    for k in 0..w % 5 {
        v.push(if k == 1 && w % 2 == 0 { String::new() } else { word(1 + k % 3, |b| b > 0x20 && b < 0x7f) });
    }
    let mut s = String::new();
    for (i, t) in v.iter().enumerate() {
        if i > 0 {
            s.push(' ');
        }
        s.push_str(t);
    }
    if v.is_empty() {
        v.push(String::new());
    }
    (s, v)
}
pub const NM: usize = 10;
pub fn meta_field(i: usize, w: usize, g: &mut Metadata) -> (&'static str, String) {
    macro_rules! t {
        ($n:literal, $f:ident, $t:ident) => {{
            let t = text(w);
            g.$f = Some($t::from(t.clone()));
            ($n, t)
        }};
    }
    match i {
        0 => t!("Title", title, Title),
        1 => t!("TitleUnicode", title_unicode, TitleUnicode),
        2 => t!("Artist", artist, Artist),
        3 => t!("ArtistUnicode", artist_unicode, ArtistUnicode),
        4 => t!("Creator", creator, Creator),
        5 => t!("Version", version, Version),
        6 => t!("Source", source, Source),
        7 => {
            let (t, v) = tags(w);
            g.tags = Some(Tags::from(v));
            ("Tags", t)
        }
        8 => {
            let (t, x) = ints(w);
            g.beatmap_id = Some(BeatmapID::from(x));
            ("BeatmapID", t)
        }
        _ => {
            let (t, x) = ints(w + 1);
            g.beatmap_set_id = Some(BeatmapSetID::from(x));
            ("BeatmapSetID", t)
        }
    }
}
pub const ND: usize = 6;
pub fn diff_field(i: usize, w: usize, g: &mut Difficulty) -> (&'static str, String) {
    macro_rules! t {
        ($n:literal, $f:ident, $t:ident) => {{
            let t = decs(w);
            g.$f = Some($t::from(d(&t)));
            ($n, t)
        }};
    }
    match i {
        0 => t!("HPDrainRate", hp_drain_rate, HPDrainRate),
        1 => t!("CircleSize", circle_size, CircleSize),
        2 => t!("OverallDifficulty", overall_difficulty, OverallDifficulty),
        3 => t!("ApproachRate", approach_rate, ApproachRate),
        4 => t!("SliderMultiplier", slider_multiplier, SliderMultiplier),
        _ => t!("SliderTickRate", slider_tickrate, SliderTickRate),
    }
}
/// lines equal up to the spaces after the first colon
pub fn same_fields(a: &str, b: &[(&str, &str)]) -> bool {
    if b.is_empty() {
        return a.is_empty();
    }
    let mut n = 0;
    for l in a.split('\n') {
        if n >= b.len() {
            return false;
        }
        let Some((k, v)) = l.split_once(':') else { return false };
        if k != b[n].0 || v.trim_start_matches(' ') != b[n].1 {
            return false;
        }
        n += 1;
    }
    n == b.len()
}
const SEPS: &[&str] = &["", " ", "\t ", "   "];

harnesses! {
    p06_meta / p06_meta__count (NM * 6 * 2) |p| {
        let mut p = Pick(p);
        let (i, w, s) = (p.of(NM), p.of(6), p.of(2));
        let v = ver();
        let mut want = Metadata::new();
        let (name, val) = meta_field(i, w, &mut want);
        let got = must!(must!(Metadata::from_str(&cat!(name, ":", SEPS[s * 2 + w % 2], val), v).ok()));
        chk!(got == want);
        let o = must!(got.to_string(v));
        trace(&o);
        reach(1);
        chk!(o == cat!(name, ":", val));
        chk!(want.to_string(v) == Some(o));
    }
    p06_diff / p06_diff__count (ND * 5) |p| {
        let mut p = Pick(p);
        let (i, w) = (p.of(ND), p.of(5));
        let v = ver();
        let mut want = Difficulty::new();
        let (name, val) = diff_field(i, w, &mut want);
        let got = must!(must!(Difficulty::from_str(&cat!(name, ":", SEPS[w % 4], val), v).ok()));
        chk!(got == want);
        let o = must!(got.to_string(v));
        trace(&o);
        reach(1);
        chk!(same_fields(&o, &[(name, &val)]));
        if v >= 5 { chk!(o == cat!(name, ":", val)); }
    }
    // all keys, rotated and reversed
    p06_mall / p06_mall__count (20) |p| {
        let mut p = Pick(p);
        let (rev, rot) = (p.of(2) == 1, p.of(NM));
        let v = ver();
        let mut want = Metadata::new();
        let mut f = vec![];
        for i in 0..NM {
            let w = match i { 7 => 2 + rot % 3, 8 | 9 => 0, _ => if i % 5 == rot % 5 { 2 } else { 5 } };
            f.push(meta_field(i, w, &mut want));
        }
        let mut text = String::new();
        for i in 0..NM {
            let k = (i + rot) % NM;
            let k = if rev { NM - 1 - k } else { k };
            text.push_str(&cat!(f[k].0, ":", SEPS[(i + rot) % 4], f[k].1, ["\n", "\r\n", "\n\n"][(i + rot) % 3]));
        }
        let got = must!(must!(Metadata::from_str(&text, v).ok()));
        chk!(got == want);
        let o = must!(got.to_string(v));
        trace(&o);
        reach(1);
        let e: Vec<String> = f.iter().map(|(n, t)| cat!(n, ":", t)).collect();
        chk!(o == e.join("\n"));
    }
    p06_dall / p06_dall__count (12) |p| {
        let mut p = Pick(p);
        let (rev, rot) = (p.of(2) == 1, p.of(ND));
        let v = ver();
        let mut want = Difficulty::new();
        let mut f = vec![];
        for i in 0..ND {
            f.push(diff_field(i, i % 3, &mut want));
        }
        let mut text = String::new();
        for i in 0..ND {
            let k = (i + rot) % ND;
            let k = if rev { ND - 1 - k } else { k };
            text.push_str(&cat!(f[k].0, ":", SEPS[(i + rot) % 4], f[k].1, ["\n", "\r\n", "\n\n"][(i + rot) % 3]));
        }
        let got = must!(must!(Difficulty::from_str(&text, v).ok()));
        chk!(got == want);
        let o = must!(got.to_string(v));
        trace(&o);
        reach(1);
        let e: Vec<(&str, &str)> = f.iter().map(|(n, t)| (*n, t.as_str())).collect();
        chk!(same_fields(&o, &e));
    }
    // any subset of the keys: absent keys stay absent
    p06_subset / p06_subset__count (2) |p| {
        let v = ver();
        reach(1);
        if p == 0 {
            let mut want = Metadata::new();
            let mut text = String::new();
            let mut exp = vec![];
            for i in 0..NM {
                if flag() {
                    let (n, t) = match i {
                        7 => { want.tags = Some(Tags::from(vec!["a".to_string(), "b".to_string()])); ("Tags", "a b".to_string()) }
                        8 => { want.beatmap_id = Some(BeatmapID::from(-7)); ("BeatmapID", "-7".to_string()) }
                        9 => { want.beatmap_set_id = Some(BeatmapSetID::from(12)); ("BeatmapSetID", "12".to_string()) }
                        _ => meta_field(i, 1, &mut want),
                    };
                    text.push_str(&cat!(n, ":", t, "\n"));
                    exp.push(cat!(n, ":", t));
                }
            }
            let got = must!(must!(Metadata::from_str(&text, v).ok()));
            chk!(got == want);
            chk!(got.to_string(v) == Some(exp.join("\n")));
        } else {
            let mut want = Difficulty::new();
            let mut text = String::new();
            let mut exp = vec![];
            for i in 0..ND {
                if flag() {
                    let x = Decimal::new(rust_decimal::Decimal::new(15 + i as i64, 1));
                    let t = cat!(if i == 5 { "2." } else { "1." }, raw(vec![if i == 5 { b'0' } else { b'5' + i as u8 }]));
                    let n = match i {
                        0 => { want.hp_drain_rate = Some(HPDrainRate::from(x)); "HPDrainRate" }
                        1 => { want.circle_size = Some(CircleSize::from(x)); "CircleSize" }
                        2 => { want.overall_difficulty = Some(OverallDifficulty::from(x)); "OverallDifficulty" }
                        3 => { want.approach_rate = Some(ApproachRate::from(x)); "ApproachRate" }
                        4 => { want.slider_multiplier = Some(SliderMultiplier::from(x)); "SliderMultiplier" }
                        _ => { want.slider_tickrate = Some(SliderTickRate::from(x)); "SliderTickRate" }
                    };
                    text.push_str(&cat!(n, ":", t, "\n"));
                    exp.push((n, t));
                }
            }
            let got = must!(must!(Difficulty::from_str(&text, v).ok()));
            chk!(got == want);
            let e: Vec<(&str, &str)> = exp.iter().map(|(n, t)| (*n, t.as_str())).collect();
            chk!(same_fields(&must!(got.to_string(v)), &e));
        }
    }
    p06_limit / p06_limit__count (4) |p| {
        let neg = p % 2 == 1;
        let (t, x) = digit(10);
        let n = ["BeatmapID:", "BeatmapSetID: "][p as usize / 2];
        let r = Metadata::from_str(&cat!(n, if neg { "-" } else { "" }, "214748364", t), ver());
        reach(1);
        let fits = if neg { x <= 8 } else { x <= 7 };
        match r {
            Ok(_) => chk!(fits),
            Err(e) => { chk!(!fits); chk!(matches!(e.error(), osu_file_parser::metadata::ParseError::ParseIntError(_))); }
        }
    }
    // an id with one arbitrary byte is accepted only when it is a number
    p06_idbyte / p06_idbyte__count (6) |p| {
        let b = word(1, |b| b > 0x20 && b < 0x7f);
        let (a, c) = [("", "1"), ("1", ""), ("1", "2")][p as usize / 2];
        let n = ["BeatmapID:", "BeatmapSetID: "][p as usize % 2];
        let r = Metadata::from_str(&cat!(n, a, b, c), ver());
        reach(1);
        let k = b.as_bytes()[0];
        let num = k.is_ascii_digit() || (a.is_empty() && (k == b'-' || k == b'+'));
        chk!(r.is_ok() == num);
    }
    p06_key / p06_key__count (4) |p| {
        let v = ver();
        reach(1);
        match p {
            0 => {
                let k = word(4, |b| b > 0x20 && b < 0x7f && b != b':');
                match Metadata::from_str(&cat!(k, ": 0"), v) {
                    Ok(_) => chk!(k == "Tags"),
                    Err(e) => { chk!(k != "Tags"); chk!(matches!(e.error(), osu_file_parser::metadata::ParseError::InvalidKey)); }
                }
            }
            1 => {
                let k = word(10, |b| b > 0x20 && b < 0x7f && b != b':');
                match Difficulty::from_str(&cat!(k, ": 0"), v) {
                    Ok(_) => chk!(k == "CircleSize"),
                    Err(e) => { chk!(k != "CircleSize"); chk!(matches!(e.error(), osu_file_parser::difficulty::ParseError::InvalidKey)); }
                }
            }
            2 => {
                let i = below(NM as u8) as usize;
                let mut g = Metadata::new();
                let f = meta_field(i, 1, &mut g);
                let mid = if i == 0 { "Artist:1\n" } else { "Title:0\n" };
                match Metadata::from_str(&cat!(f.0, ":", f.1, "\n", mid, f.0, ":", f.1), v) {
                    Ok(_) => chk!(false),
                    Err(e) => chk!(matches!(e.error(), osu_file_parser::metadata::ParseError::DuplicateField)),
                }
            }
            _ => {
                let i = below(ND as u8) as usize;
                let mut g = Difficulty::new();
                let f = diff_field(i, 0, &mut g);
                let mid = if i == 0 { "CircleSize:1\n" } else { "HPDrainRate:0\n" };
                match Difficulty::from_str(&cat!(f.0, ":", f.1, "\n", mid, f.0, ":", f.1), v) {
                    Ok(_) => chk!(false),
                    Err(e) => chk!(matches!(e.error(), osu_file_parser::difficulty::ParseError::DuplicateField)),
                }
            }
        }
    }

    // long texts and lists
    p06_long / p06_long__count (4 * 3) |p| {
        let mut p = Pick(p);
        let (n, k) = (LONG[p.of(4)], p.of(3));
        let v = ver();
        let b = word(1, |b| b > 0x20 && b < 0x7f);
        let at = below(n as u8) as usize;
        reach(1);
        if k < 2 {
            let mut s = String::new();
            for i in 0..n { s.push_str(if i == at { b.as_str() } else { ["ab", "é", "0 :", "(x)", "世"][mix(i, 5)] }); }
            let mut want = Metadata::new();
            let name = if k == 0 { want.title_unicode = Some(TitleUnicode::from(s.clone())); "TitleUnicode" } else { want.version = Some(Version::from(s.clone())); "Version" };
            let got = must!(must!(Metadata::from_str(&cat!(name, ":", s, "\nCreator:me"), v).ok()));
            want.creator = Some(Creator::from("me".to_string()));
            chk!(got == want);
            let o = must!(got.to_string(v));
            chk!(same_fields(&o, &if k == 0 { [(name, s.as_str()), ("Creator", "me")] } else { [("Creator", "me"), (name, s.as_str())] }));
        } else {
            let mut l = vec![];
            for i in 0..n { l.push(if i == at { b.clone() } else { ["tag", "x", "é世", "a-longer-tag", ""][mix(i, 5)].to_string() }); }
            let text = l.join(" ");
            let l: Vec<String> = text.trim_start().split(' ').map(|s| s.to_string()).collect();
            let got = must!(must!(Metadata::from_str(&cat!("Tags:", text), v).ok()));
            chk!(got.tags == Some(Tags::from(l)));
            chk!(same_fields(&must!(got.to_string(v)), &[("Tags", text.trim_start())]));
        }
    }
}
