//! File names: spelling, quotes, animation frames, sprite paths.
use crate::{base::*, sym::*};
use osu_file_parser::events::storyboard::sprites::*;
use osu_file_parser::events::Event;
use osu_file_parser::types::*;
use osu_file_parser::*;
use std::path::Path;

/// (before the name, after the name)
const SLOTS: [(&str, &str); 16] = [
    ("0,0,", ""),
    ("0,5,", ",1,2"),
    ("1,0,", ""),
    ("Video,7,", ",1,2"),
    ("4,0,1,", ""),
    ("4,0,1,", ",3,4"),
    ("5,0,1,", ""),
    ("5,0,1,", ",3,4"),
    ("6,1,2,", ""),
    ("6,1,2,", ",70"),
    ("Sample,5,3,", ""),
    ("Sample,5,3,", ",70"),
    ("Sprite,Pass,Centre,", ",1,2"),
    ("Sprite,Fail,3,", ",1,2"),
    ("Animation,Pass,Centre,", ",1,2,3,4"),
    ("Animation,Pass,3,", ",1,2,3,4,LoopOnce"),
];
fn file_of(e: &Event) -> Option<&FilePath> {
    Some(match e {
        Event::Background(x) => &x.file_name,
        Event::Video(x) => &x.file_name,
        Event::SpriteLegacy(x) => &x.file_name,
        Event::AnimationLegacy(x) => &x.file_name,
        Event::SampleLegacy(x) => &x.file_name,
        Event::AudioSample(x) => &x.filepath,
        Event::StoryboardObject(x) => match &x.object_type {
            ObjectType::Sprite(x) => &x.filepath,
            ObjectType::Animation(x) => &x.filepath,
            _ => return None,
        },
        _ => return None,
    })
}
fn spelled(f: &FilePath, t: &str) -> bool {
    f.get().to_str() == Some(t)
}
/// as printed
fn quoted(t: &str) -> String {
    let q = t.bytes().any(|b| b == b' ') && !(t.starts_with('"') && t.ends_with('"'));
    if q { cat!("\"", t, "\"") } else { t.to_string() }
}
fn in_name(b: u8) -> bool {
    printable(b) && b != b','
}
/// shapes of names
const NAMES: usize = 10;
fn file_name(w: usize) -> String {
    let x = |n| word(n, in_name);
    match w % NAMES {
        0 => x(1),
        1 => x(2),
        2 => x(6),
        3 => cat!("\"", x(2), "\""),
        4 => cat!("sb/", x(2), ".png"),
        5 => cat!("sb\\", x(1), "/./", x(1), "//a"),
        6 => cat!("é", x(1), "背.ogg"),
        7 => cat!("\"a", x(1), "b", x(1)),
        8 => cat!("../", x(1), "/"),
        _ => String::new(),
    }
}
/// frame names the slow way: last part of the path, number before the last dot unless that starts it
fn frames(path: &str, n: u32) -> Vec<String> {
    let last = match path.rfind('/') {
        Some(i) => &path[i + 1..],
        None => path,
    };
    let (stem, ext) = match last.rfind('.') {
        Some(i) if i > 0 => (&last[..i], &last[i..]),
        _ => (last, ""),
    };
    (0..n).map(|i| cat!(stem, i.to_string(), ext)).collect()
}
fn animation(path: &str, n: u32) -> Animation {
    Animation { frame_count: n, frame_delay: 1.into(), loop_type: LoopType::LoopForever, filepath: path.into() }
}
fn same_frames(path: &str, n: u32, want: Vec<String>) {
    let got = animation(path, n).frame_file_names();
    chk!(got.len() == want.len());
    for (a, b) in got.iter().zip(&want) {
        chk!(a.to_str() == Some(b.as_str()));
    }
}

harnesses! {
    p26_event / p26_event__count (SLOTS.len() * NAMES) |p| {
        let mut p = Pick(p);
        let (i, w) = (p.of(SLOTS.len()), p.of(NAMES));
        let v = ver_in(5, 14);
        let (a, b) = SLOTS[i];
        let t = file_name(w);
        if b.is_empty() {
            // line ends are trimmed
            assume(!t.ends_with(' '));
        }
        let text = cat!(a, t, b);
        let e: Events = must!(must!(VersionedFromStr::from_str(&text, v).ok()));
        chk!(e.0.len() == 1);
        let f = must!(file_of(&e.0[0]));
        reach(1);
        chk!(spelled(f, &t));
        let out = must!(VersionedToString::to_string(&e, v));
        trace(&out);
        let q = quoted(&t);
        let tail = if i == 10 { ",100" } else if i == 14 { ",1,2,3,4,LoopForever" } else { b };
        let head = if i == 2 { "1,0," } else { a };
        chk!(out == cat!(head, q, tail));
        // what was printed keeps its spelling from then on
        let g: Events = must!(must!(VersionedFromStr::from_str(&out, v).ok()));
        chk!(g.0.len() == 1 && file_of(&g.0[0]).map_or(false, |f| spelled(f, &q)));
        chk!(VersionedToString::to_string(&g, v) == Some(out));
    }
    // the path type: any text, histories of set
    p26_path / p26_path__count (NAMES * NAMES) |p| {
        let mut p = Pick(p);
        let (w, u) = (p.of(NAMES), p.of(NAMES));
        let v = ver();
        let (t, s) = (file_name(w), file_name(u));
        let mut f = FilePath::from(&t);
        reach(1);
        chk!(spelled(&f, &t));
        chk!(VersionedToString::to_string(&f, v) == Some(quoted(&t)));
        f.set(&s);
        chk!(spelled(&f, &s));
        chk!(VersionedToString::to_string(&f, v) == Some(quoted(&s)));
        chk!(f == FilePath::from(Path::new(&s)));
    }
    // the audio file keeps its spelling and gets no quotes
    p26_audio / p26_audio__count (NAMES) |p| {
        let v = ver();
        let t = file_name(p as usize);
        assume(t.trim().len() == t.len());
        let g = must!(must!(General::from_str(&cat!("AudioFilename: ", t), v).ok()));
        reach(1);
        chk!(g.to_string(v) == Some(cat!("AudioFilename: ", t)));
    }
    p26_frames / p26_frames__count (7 * 4) |p| {
        let mut p = Pick(p);
        let (w, n) = (p.of(7), p.of(4) as u32);
        let x = |n| word(n, |b| printable(b) && b != b'/');
        let name = match w {
            0 => x(1),
            1 => x(2),
            2 => x(5),
            3 => cat!(x(1), ".png"),
            4 => cat!("a", x(1), ".", x(1)),
            5 => cat!(x(1), ".tar.gz"),
            _ => cat!("é", x(1), "背", x(1)),
        };
        assume(name != "." && name != "..");
        let dir = ["", "sb/", "a.b/c d/", "/"][(w + n as usize) % 4];
        let path = cat!(dir, name);
        reach(1);
        trace(&path);
        same_frames(&path, n, frames(&path, n));
    }
    // a symbolic count, and more frames than one digit numbers
    p26_count / p26_count__count (2) |p| {
        let n = 10 * p + below(6) as u32 + p * 90;
        let c = word(1, |b| printable(b) && b != b'/' && b != b'.');
        let want = (0..n).map(|i| cat!(c, i.to_string(), ".png")).collect();
        reach(1);
        same_frames(&cat!("d/", c, ".png"), n, want);
    }
    // parsed animations
    p26_parsed / p26_parsed__count (4) |p| {
        let (t, n) = digit(10);
        let c = word(1 + p as usize / 2, |b| printable(b) && b != b'/' && b != b',' && b != b'.');
        let path = if p % 2 == 0 { cat!("sb/", c, ".jpg") } else { cat!(c, ".a.jpg") };
        let ext = if p % 2 == 0 { ".jpg" } else { ".jpg" };
        let stem = if p % 2 == 0 { c } else { cat!(c, ".a") };
        let e: Object = must!(must!(VersionedFromStr::from_str(&cat!("Animation,Pass,Centre,", path, ",1,2,", t, ",4"), 14).ok()));
        reach(1);
        if let ObjectType::Animation(a) = &e.object_type {
            let got = a.frame_file_names();
            chk!(got.len() == n as usize);
            for (i, g) in got.iter().enumerate() {
                chk!(g.to_str() == Some(cat!(stem, i.to_string(), ext).as_str()));
            }
        } else {
            chk!(false);
        }
    }
    // paths that name no file
    p26_none / p26_none__count (5) |p| {
        let path = ["", "/", "..", "a/..", "."][p as usize];
        reach(1);
        chk!(animation(path, u32v()).frame_file_names().is_empty());
    }
    p26_sprite / p26_sprite__count (NAMES) |p| {
        let t = file_name(p as usize);
        reach(1);
        match Sprite::new(Path::new(&t)) {
            Ok(s) => chk!(!t.starts_with('/') && spelled(&s.filepath, &t)),
            Err(_) => chk!(t.starts_with('/')),
        }
        chk!(Sprite::new(Path::new(&cat!("/", t))).is_err());
    }
    // many frames, long names
    p26_long / p26_long__count (4) |p| {
        let n = LONG[p as usize];
        let c = word(1, |b| printable(b) && b != b'/');
        let mut s = String::new();
        for i in 0..n { s.push_str(["a", "b.", "é", "x y"][mix(i, 4)]); }
        let path = cat!("d.e/", s, c, "z.png");
        reach(1);
        same_frames(&path, n as u32, frames(&path, n as u32));
        chk!(spelled(&FilePath::from(&path), &path));
        let e = must!(<Object as VersionedFromStr>::from_str(&cat!("Animation,Pass,Centre,\"", s, "z.png\",1,2,", n.to_string(), ",4"), 14).ok().flatten());
        match &e.object_type {
            ObjectType::Animation(a) => chk!(a.frame_file_names().len() == n && spelled(&a.filepath, &cat!("\"", s, "z.png\""))),
            _ => chk!(false),
        }
    }
}
