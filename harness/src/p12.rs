//! Storyboard sprites, animations and audio samples.
use crate::{base::*, p11::*, p13::d, sym::*};
use osu_file_parser::events::storyboard::sprites::*;
use osu_file_parser::events::{AudioSample, Event, ParseError};
use osu_file_parser::types::*;
use osu_file_parser::Events;
use OriginType::*;

pub const LAYERS: [(&str, Layer); 5] = [("Background", Layer::Background), ("Fail", Layer::Fail), ("Pass", Layer::Pass), ("Foreground", Layer::Foreground), ("Overlay", Layer::Overlay)];
pub const ORIGINS: [(&str, OriginType); 10] = [
    ("TopLeft", TopLeft), ("Centre", Centre), ("CentreLeft", CentreLeft), ("TopRight", TopRight), ("BottomCentre", BottomCentre),
    ("TopCentre", TopCentre), ("Custom", Custom), ("CentreRight", CentreRight), ("BottomLeft", BottomLeft), ("BottomRight", BottomRight),
];
/// an origin: text, what it denotes (None: an undocumented number), written as a name
pub fn origin_(w: usize) -> (String, Result<OriginType, i32>, bool) {
    match w % 4 {
        0 => {
            let i = below(10) as usize;
            (ORIGINS[i].0.to_string(), Ok(ORIGINS[i].1), false)
        }
        1 => {
            let (t, x) = digit(10);
            (t, Ok(ORIGINS[x as usize].1), true)
        }
        2 => {
            let (t, x) = int(2, false);
            (t, Err(x as i32), true)
        }
        _ => {
            let (t, x) = int(4, true);
            (t, Err(x as i32), true)
        }
    }
}
pub fn same_origin(o: &Origin, w: &(String, Result<OriginType, i32>, bool)) -> bool {
    let ty = match (&o.type_, &w.1) {
        (a, Ok(b)) => a.as_ref().left() == Some(b),
        (a, Err(b)) => a.as_ref().right() == Some(b),
    };
    ty && o.shorthand == w.2
}
pub fn obj(s: &str, v: u8) -> Option<Object> {
    VersionedFromStr::from_str(s, v).ok().flatten()
}
fn sprite(l: usize, w: usize, nw: usize, q: usize) {
    let v = ver();
    let o = origin_(w);
    let (ft, fo, f) = name(nw);
    let (x, y) = (decs(q), decs(q + 3));
    let text = cat!("Sprite,", LAYERS[l].0, ",", o.0, ",", ft, ",", x, ",", y);
    let e = must!(one(&text, v));
    match &e {
        Event::StoryboardObject(b) => {
            chk!(b.layer == LAYERS[l].1 && same_origin(&b.origin, &o) && b.position == Position { x: d(&x), y: d(&y) } && b.commands.is_empty());
            match &b.object_type {
                ObjectType::Sprite(s) => chk!(s.filepath == f && s.filepath.get().as_os_str().len() == ft.len()),
                _ => chk!(false),
            }
            chk!(obj(&text, v).as_ref() == Some(b));
        }
        _ => chk!(false),
    }
    reach(1);
    let s = must!(VersionedToString::to_string(&e, v));
    trace(&s);
    chk!(s == cat!("Sprite,", LAYERS[l].0, ",", o.0, ",", fo, ",", x, ",", y));
}
const LOOPS: [(&str, LoopType); 3] = [("", LoopType::LoopForever), (",LoopForever", LoopType::LoopForever), (",LoopOnce", LoopType::LoopOnce)];
fn animation(l: usize, w: usize, nw: usize, q: usize, c: usize, lp: usize) {
    let v = ver();
    let o = origin_(w);
    let (ft, fo, f) = name(nw);
    let (x, y) = (decs(q), dec(1, 0, false));
    let (nt, n) = int([1, 3, 9][c], false);
    let dt = decs(c + 2 * q);
    let head = |f: &str| cat!("Animation,", LAYERS[l].0, ",", o.0, ",", f, ",", x, ",", y, ",", nt, ",", dt);
    let text = cat!(head(&ft), LOOPS[lp].0);
    let e = must!(one(&text, v));
    match &e {
        Event::StoryboardObject(b) => {
            chk!(b.layer == LAYERS[l].1 && same_origin(&b.origin, &o) && b.position == Position { x: d(&x), y: d(&y) } && b.commands.is_empty());
            match &b.object_type {
                ObjectType::Animation(a) => {
                    chk!(a.filepath == f && a.frame_count as i64 == n && a.loop_type == LOOPS[lp].1);
                    chk!(d(&dt) == Decimal::new(a.frame_delay));
                }
                _ => chk!(false),
            }
        }
        _ => chk!(false),
    }
    reach(1);
    let s = must!(VersionedToString::to_string(&e, v));
    trace(&s);
    chk!(s == cat!(head(&fo), if lp == 0 { ",LoopForever" } else { LOOPS[lp].0 }));
}
fn name_err(e: &ParseError) -> &'static str {
    match e {
        ParseError::ParseStoryboardObjectError(e) => e.into(),
        ParseError::ParseAudioSampleError(e) => e.into(),
        ParseError::UnknownEventType => "UnknownEventType",
        _ => "",
    }
}
fn err(s: &str, v: u8) -> &'static str {
    match <Events as VersionedFromStr>::from_str(s, v) {
        Ok(_) => "",
        Err(e) => name_err(e.error()),
    }
}
/// (valid line, error when the k-th field and all after it are missing, when it is not a number or name)
type Kind = (&'static [&'static str], &'static [&'static str], &'static [&'static str]);
const M: [&str; 5] = ["MissingLayer", "MissingOrigin", "MissingFilePath", "MissingPositionX", "MissingPositionY"];
const KINDS: [Kind; 3] = [
    (&["Sprite", "Pass", "1", "f.png", "3", "4"], &M, &["InvalidLayer", "InvalidOrigin", "-", "-", "-"]),
    (&["Animation", "Pass", "1", "f.png", "3", "4", "5", "6", "LoopOnce"], &[M[0], M[1], M[2], M[3], M[4], "MissingFrameCount", "MissingFrameDelay", ""],
     &["InvalidLayer", "InvalidOrigin", "-", "-", "-", "InvalidFrameCount", "InvalidFrameDelay", "InvalidLoopType"]),
    (&["Sample", "1", "2", "f.wav", "70"], &["MissingTime", "MissingLayer", "MissingFilepath", ""], &["InvalidTime", "InvalidLayer", "-", "InvalidVolume"]),
];

harnesses! {
    p12_sprite / p12_sprite__count (5 * 4 * 5) |p| {
        let mut p = Pick(p);
        let (l, w, q) = (p.of(5), p.of(4), p.of(5));
        sprite(l, w, l + q, q);
    }
    p12t_sprite / p12t_sprite__count (5 * 4 * 6 * 5) |p| {
        let mut p = Pick(p);
        let (l, w, n, q) = (p.of(5), p.of(4), p.of(6), p.of(5));
        sprite(l, w, n, q);
    }
    p12_anim / p12_anim__count (4 * 3 * 3 * 3) |p| {
        let mut p = Pick(p);
        let (w, c, lp, q) = (p.of(4), p.of(3), p.of(3), p.of(3));
        animation((w + c + q) % 5, w, w + q + 2 * lp, q, c, lp);
    }
    p12t_anim / p12t_anim__count (5 * 4 * 6 * 5 * 3) |p| {
        let mut p = Pick(p);
        let (l, w, n, q, c) = (p.of(5), p.of(4), p.of(6), p.of(5), p.of(3));
        animation(l, w, n, q, c, (l + w + n + q) % 3);
    }
    p12_audio / p12_audio__count (4 * 6 * 4) |p| {
        let mut p = Pick(p);
        let (w, n, q) = (p.of(4), p.of(6), p.of(4));
        let v = ver();
        let (tt, t) = ints(w);
        let (lt, l) = digit(4);
        let (ft, fo, f) = name(n);
        let (vt, x) = if q == 0 { (String::new(), 100) } else { let (t, x) = int(q, false); (cat!(",", t), x) };
        let text = cat!("Sample,", tt, ",", lt, ",", ft, vt);
        match <Events as VersionedFromStr>::from_str(&text, v) {
            Ok(e) => {
                let e = must!(e).0;
                chk!(x <= 100 && e.len() == 1);
                use osu_file_parser::events::audio_sample::Layer as L;
                match &e[0] {
                    Event::AudioSample(a) => {
                        chk!(a.time == t && a.layer == [L::Background, L::Fail, L::Pass, L::Foreground][l as usize] && a.filepath == f && a.volume.get() as i64 == x);
                        chk!(matches!(<AudioSample as VersionedFromStr>::from_str(&text, v), Ok(Some(b)) if b == *a));
                    }
                    _ => chk!(false),
                }
                reach(1);
                let s = must!(VersionedToString::to_string(&e[0], v));
                trace(&s);
                chk!(s == cat!("Sample,", tt, ",", lt, ",", fo, if q == 0 { ",100" } else { &vt }));
            }
            Err(e) => {
                chk!(x > 100);
                chk!(name_err(e.error()) == "InvalidVolume");
            }
        }
    }
    p12_short / p12_short__count (3 * 8) |p| {
        let mut p = Pick(p);
        let (k, n) = (p.of(3), p.of(8));
        let v = ver();
        let (l, miss, _) = KINDS[k];
        reach(1);
        if n + 1 >= l.len() { return; }
        chk!(err(&l[..n + 1].join(","), v) == miss[n]);
    }
    p12_bad / p12_bad__count (3 * 8) |p| {
        let mut p = Pick(p);
        let (k, n) = (p.of(3), p.of(8));
        let v = ver();
        let (l, _, bad) = KINDS[k];
        reach(1);
        if n + 1 >= l.len() { return; }
        let b = word(1, |b| b > 0x20 && b < 0x7f && b != b',');
        let mut f: Vec<&str> = l.to_vec();
        f[n + 1] = &b;
        let e = err(&f.join(","), v);
        let dig = b.as_bytes()[0].is_ascii_digit();
        let ok = match (bad[n], k) {
            ("-", _) => true,
            ("InvalidLayer", 2) => b == "0" || b == "1" || b == "2" || b == "3",
            ("InvalidLayer" | "InvalidLoopType", _) => false,
            _ => dig,
        };
        chk!(e == if ok { "" } else { bad[n] });
    }
    // one byte of each word changed: no other word is accepted
    p12_word / p12_word__count (5 + 10 + 2 + 3) |p| {
        let p = p as usize;
        let v = ver();
        let (pre, w, post, e) = match p {
            0..=4 => ("Sprite,", LAYERS[p].0, ",Centre,f,1,2", "InvalidLayer"),
            5..=14 => ("Sprite,Pass,", ORIGINS[p - 5].0, ",f,1,2", "InvalidOrigin"),
            15 | 16 => ("Animation,Pass,Centre,f,1,2,3,4,", &LOOPS[p - 14].0[1..], "", "InvalidLoopType"),
            17 => ("", "Sprite", ",Pass,Centre,f,1,2", "UnknownEventType"),
            18 => ("", "Animation", ",Pass,Centre,f,1,2,3,4", "UnknownEventType"),
            _ => ("", "Sample", ",1,2,f", "UnknownEventType"),
        };
        let i = below(w.len() as u8) as usize;
        let b = word(1, |b| b > 0x20 && b < 0x7f && b != b',' && b != b'_' && b != b'/');
        let x = cat!(w[..i], b, w[i + 1..]);
        let r = err(&cat!(pre, x, post), v);
        reach(1);
        chk!(r == if x == w { "" } else { e });
    }
    p12_limit / p12_limit__count (4) |p| {
        let v = ver();
        let (t, x) = digit(10);
        reach(1);
        match p {
            0 => chk!(err(&cat!("Sample,214748364", t, ",0,f"), v) == if x <= 7 { "" } else { "InvalidTime" }),
            1 => chk!(err(&cat!("Animation,Fail,0,f,1,2,429496729", t, ",6"), v) == if x <= 5 { "" } else { "InvalidFrameCount" }),
            2 => chk!(err(&cat!("Sprite,Fail,214748364", t, ",f,1,2"), v) == if x <= 7 { "" } else { "InvalidOrigin" }),
            _ => chk!(err(&cat!("Sample,1,0,f,10", t), v) == if x == 0 { "" } else { "InvalidVolume" }),
        }
    }
    // long lists and long file names
    p12_long / p12_long__count (4) |p| {
        let n = LONG[p as usize];
        let v = ver();
        let (t, x) = int(2, false);
        let at = below(n as u8) as usize;
        let mut f = String::new();
        for i in 0..n { f.push_str(["a", "b-", "é/", ".x"][mix(i, 4)]); }
        let mut text = String::new();
        let mut lines = vec![];
        for i in 0..n {
            let y = if i == at { t.clone() } else { mix(i + 1, 200000).to_string() };
            let l = match mix(i, 3) {
                0 => cat!("Sprite,", LAYERS[mix(i + 2, 5)].0, ",", ORIGINS[mix(i + 3, 10)].0, ",", f, ",", y, ",-7.5"),
                1 => cat!("Animation,", LAYERS[mix(i + 2, 5)].0, ",", mix(i + 3, 10).to_string(), ",\"", f, ".p g\",3,4,", y, ",100.5,", ["LoopOnce", "LoopForever"][mix(i, 2)]),
                _ => cat!("Sample,", y, ",", mix(i + 2, 4).to_string(), ",", f, ",", mix(i + 3, 101).to_string()),
            };
            text.push_str(&cat!(l, ["\n", "\r\n", "\n\n", "\n"][mix(i, 4)]));
            lines.push(l);
        }
        let ev = must!(events(&text, v));
        chk!(ev.len() == n);
        for (i, e) in ev.iter().enumerate() {
            let k = mix(i, 3);
            chk!(match e {
                Event::StoryboardObject(o) => o.layer == LAYERS[mix(i + 2, 5)].1 && o.origin.type_.as_ref().left() == Some(&ORIGINS[mix(i + 3, 10)].1) && o.origin.shorthand == (k == 1) && match &o.object_type {
                    ObjectType::Sprite(s) => k == 0 && s.filepath == FilePath::from(&f),
                    ObjectType::Animation(a) => k == 1 && (i != at || a.frame_count as i64 == x) && (a.loop_type == LoopType::LoopForever) == (mix(i, 2) == 1),
                    _ => false,
                },
                Event::AudioSample(a) => k == 2 && a.filepath == FilePath::from(&f) && (i != at || a.time as i64 == x) && a.volume.get() as usize == mix(i + 3, 101),
                _ => false,
            });
        }
        reach(1);
        let o = must!(<Events as VersionedToString>::to_string(&Events(ev), v));
        chk!(o == lines.join("\n"));
    }
    // nothing may follow the last field of an animation
    p12_extra / p12_extra__count (1) |_p| {
        let v = ver();
        let b = word(2, |b| b > 0x20 && b < 0x7f);
        chk!(err(&cat!("Animation,Pass,Centre,f,1,2,3,4,LoopOnce", b), v) == "InvalidLoopType");
        reach(1);
    }
}
