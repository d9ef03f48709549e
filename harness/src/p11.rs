//! Normal events: background, video, break, colour transformation, legacy sprite, animation, sample.
use crate::{base::*, p07::d, sym::*};
use osu_file_parser::events::types::*;
use osu_file_parser::events::*;
use osu_file_parser::types::*;
use osu_file_parser::Events;

pub fn events(s: &str, v: u8) -> Option<Vec<Event>> {
    match <Events as VersionedFromStr>::from_str(s, v) {
        Ok(Some(e)) => Some(e.0),
        _ => None,
    }
}
pub fn one(s: &str, v: u8) -> Option<Event> {
    let mut e = events(s, v)?;
    if e.len() == 1 {
        e.pop()
    } else {
        None
    }
}
/// a file name as written: text, as printed, stored
pub fn name(w: usize) -> (String, String, FilePath) {
    let t = match w % 6 {
        0 => cat!(word(2, |b| plain(b) && b != b'/' && b != b'.'), ".jpg"),
        1 => cat!("\"", word(1, |b| plain(b) && b != b'/' && b != b'.'), " x.avi\""),
        2 => cat!("sb/", word(1, |b| plain(b) && b != b'/' && b != b'.'), ".png"),
        3 => cat!("m ", word(1, |b| (plain(b) || b == b' ') && b != b'/'), ".wav"),
        4 => String::new(),
        _ => "背景.jpg".to_string(),
    };
    let out = if w % 6 == 3 { cat!("\"", t, "\"") } else { t.clone() };
    let f = (&t).into();
    (t, out, f)
}
/// optional position: text and value
pub fn pos(w: usize) -> (String, Option<Position>) {
    if w == 0 {
        return (String::new(), None);
    }
    let (x, y) = (decs(w - 1), decs(w + 1));
    let t = cat!(",", x, ",", y);
    (t, Some(Position { x: d(&x), y: d(&y) }))
}
pub fn plus24(x: i32, v: u8) -> i32 {
    if v <= 4 {
        x + 24
    } else {
        x
    }
}
pub fn layer(i: u8) -> LayerLegacy {
    use LayerLegacy::*;
    [Background, Fail, Pass, Foreground, Overlay, Video][i as usize]
}
pub fn origin(i: u8) -> OriginTypeLegacy {
    use OriginTypeLegacy::*;
    [TopLeft, Centre, CentreLeft, TopRight, BottomCentre, TopCentre, Custom, CentreRight, BottomLeft, BottomRight][i as usize]
}
/// (valid line, names of the errors when the k-th field is missing, when it is not a number)
type Kind = (&'static [&'static str], &'static [&'static str], &'static [&'static str]);
const POS: [&str; 4] = ["MissingX", "MissingY", "InvalidX", "InvalidY"];
pub const KINDS: [Kind; 9] = [
    (&["0", "7", "f.png", "3", "4"], &["MissingStartTime", "MissingFileName", "", POS[1]], &["InvalidStartTime", "", POS[2], POS[3]]),
    (&["1", "7", "f.png", "3", "4"], &["MissingStartTime", "MissingFileName", "", POS[1]], &["InvalidStartTime", "", POS[2], POS[3]]),
    (&["Video", "7", "f.png", "3", "4"], &["MissingStartTime", "MissingFileName", "", POS[1]], &["InvalidStartTime", "", POS[2], POS[3]]),
    (&["2", "7", "8"], &["MissingStartTime", "MissingEndTime"], &["InvalidStartTime", "InvalidEndTime"]),
    (&["Break", "7", "8"], &["MissingStartTime", "MissingEndTime"], &["InvalidStartTime", "InvalidEndTime"]),
    (&["3", "7", "1", "2", "3"], &["MissingStartTime", "MissingRed", "MissingGreen", "MissingBlue"], &["InvalidStartTime", "InvalidRed", "InvalidGreen", "InvalidBlue"]),
    (&["4", "1", "2", "f.png", "3", "4"], &["MissingLayer", "MissingOrigin", "MissingFileName", "", POS[1]], &["InvalidLayer", "InvalidOrigin", "", POS[2], POS[3]]),
    (&["5", "1", "2", "f.png", "3", "4"], &["MissingLayer", "MissingOrigin", "MissingFileName", "", POS[1]], &["InvalidLayer", "InvalidOrigin", "", POS[2], POS[3]]),
    (&["6", "7", "1", "f.wav", "50"], &["MissingTime", "MissingLayer", "MissingFileName", ""], &["InvalidTime", "InvalidLayer", "", "InvalidVolume"]),
];
/// variant name of the error of an event, empty when the error is of another kind
pub fn name_of(k: usize, e: &ParseError) -> &'static str {
    match (k, e) {
        (0, ParseError::ParseBackgroundError(e)) => e.into(),
        (1 | 2, ParseError::ParseVideoError(e)) => e.into(),
        (3 | 4, ParseError::ParseBreakError(e)) => e.into(),
        (5, ParseError::ParseColourTransformationError(e)) => e.into(),
        (6, ParseError::ParseSpriteLegacyError(e)) => e.into(),
        (7, ParseError::ParseAnimationLegacyError(e)) => e.into(),
        (8, ParseError::ParseSampleLegacyError(e)) => e.into(),
        _ => "",
    }
}
fn media(k: usize, w: usize, nw: usize, pw: usize) {
    let v = ver();
    let (tt, t) = ints(w);
    let (ft, fo, f) = name(nw);
    let (pt, p) = pos(pw);
    let h = ["0", "1", "Video"][k];
    let text = cat!(h, ",", tt, ",", ft, pt);
    let e = must!(one(&text, v));
    match &e {
        Event::Background(b) => {
            chk!(k == 0 && b.start_time == t && b.file_name == f && b.position == p && b.commands.is_empty());
            chk!(b.file_name.get().as_os_str().len() == ft.len());
            chk!(matches!(<Background as VersionedFromStr>::from_str(&text, v), Ok(Some(x)) if x == *b));
        }
        Event::Video(b) => {
            chk!(k > 0 && b.start_time == plus24(t, v) && b.file_name == f && b.position == p && b.commands.is_empty());
            chk!(matches!(<Video as VersionedFromStr>::from_str(&text, v), Ok(Some(x)) if x == *b));
            if k == 1 {
                chk!(*b == Video::new(plus24(t, v), f, p));
            } else {
                chk!(*b != Video::new(plus24(t, v), f, p));
            }
        }
        _ => chk!(false),
    }
    reach(1);
    let s = must!(VersionedToString::to_string(&e, v));
    trace(&s);
    chk!(s == cat!(h, ",", tt, ",", fo, pt));
}
fn legacy(k: usize, nw: usize, pw: usize) {
    let v = ver();
    let (lt, l) = digit(10);
    let (ot, o) = digit(10);
    let (ft, fo, f) = name(nw);
    let (pt, p) = pos(pw);
    let h = ["4", "5"][k];
    let text = cat!(h, ",", lt, ",", ot, ",", ft, pt);
    let e = match <Events as VersionedFromStr>::from_str(&text, v) {
        Ok(Some(mut e)) => {
            chk!(l <= 5 && e.0.len() == 1);
            must!(e.0.pop())
        }
        Ok(None) => return chk!(false),
        Err(e) => {
            chk!(l > 5);
            chk!(name_of(6 + k, e.error()) == "InvalidLayer");
            return;
        }
    };
    match &e {
        Event::SpriteLegacy(b) => {
            chk!(k == 0 && b.layer == layer(l) && b.origin == origin(o) && b.file_name == f && b.position == p && b.commands.is_empty());
            chk!(matches!(<SpriteLegacy as VersionedFromStr>::from_str(&text, v), Ok(Some(x)) if x == *b));
        }
        Event::AnimationLegacy(b) => {
            chk!(k == 1 && b.layer == layer(l) && b.origin == origin(o) && b.file_name == f && b.position == p && b.commands.is_empty());
            chk!(matches!(<AnimationLegacy as VersionedFromStr>::from_str(&text, v), Ok(Some(x)) if x == *b));
        }
        _ => chk!(false),
    }
    reach(1);
    let s = must!(VersionedToString::to_string(&e, v));
    trace(&s);
    chk!(s == cat!(h, ",", lt, ",", ot, ",", fo, pt));
}

harnesses! {
    p11_media / p11_media__count (3 * 6 * 4) |p| {
        let mut p = Pick(p);
        let (k, n, q) = (p.of(3), p.of(6), p.of(4));
        media(k, n + q, n, q);
    }
    p11t_media / p11t_media__count (3 * 4 * 6 * 6) |p| {
        let mut p = Pick(p);
        let (k, w, n, q) = (p.of(3), p.of(4), p.of(6), p.of(6));
        media(k, w, n, q);
    }
    p11_break / p11_break__count (2 * 4 * 4) |p| {
        let mut p = Pick(p);
        let (k, a, b) = (p.of(2), p.of(4), p.of(4));
        let v = ver();
        let (at, a) = ints(a);
        let (bt, b) = ints(b);
        let text = cat!(["2", "Break"][k], ",", at, ",", bt);
        let e = must!(one(&text, v));
        match &e {
            Event::Break(x) => {
                chk!(x.start_time == plus24(a, v) && x.end_time == plus24(b, v));
                chk!((*x == Break::new(plus24(a, v), plus24(b, v))) == (k == 0));
                chk!(matches!(<Break as VersionedFromStr>::from_str(&text, v), Ok(Some(y)) if y == *x));
            }
            _ => chk!(false),
        }
        reach(1);
        let s = must!(VersionedToString::to_string(&e, v));
        trace(&s);
        chk!(s == text);
    }
    p11_colour / p11_colour__count (4 * 3 * 3) |p| {
        let mut p = Pick(p);
        // one component has up to three digits; longer times are covered by the other events
        let (n, c, w) = (1 + p.of(3), p.of(3), p.of(4));
        let v = ver();
        let (tt, t) = if w > 1 { (["7", "-12345"][w - 2].to_string(), [7, -12345][w - 2]) } else { ints(w) };
        let (rt, r) = int(if c == 0 { n } else { 1 }, false);
        let (gt, g) = int(if c == 1 { n } else { 1 }, false);
        let (bt, b) = int(if c == 2 { n } else { 1 }, false);
        let text = cat!("3,", tt, ",", rt, ",", gt, ",", bt);
        match <Events as VersionedFromStr>::from_str(&text, v) {
            Ok(e) => {
                let e = must!(e).0;
                chk!(r < 256 && g < 256 && b < 256 && e.len() == 1);
                match &e[0] {
                    Event::ColourTransformation(x) => {
                        chk!(x.start_time == plus24(t, v) && x.red as i64 == r && x.green as i64 == g && x.blue as i64 == b);
                    }
                    _ => chk!(false),
                }
                reach(1);
                let s = VersionedToString::to_string(&e[0], v);
                if let Some(s) = &s { trace(s); }
                chk!(s == if v < 14 { Some(text) } else { None });
            }
            Err(e) => {
                let n = name_of(5, e.error());
                chk!(n == if r > 255 { "InvalidRed" } else if g > 255 { "InvalidGreen" } else { "InvalidBlue" });
                chk!(r > 255 || g > 255 || b > 255);
            }
        }
    }
    p11_legacy / p11_legacy__count (2 * 6 * 3) |p| {
        let mut p = Pick(p);
        let (k, n, q) = (p.of(2), p.of(6), p.of(3));
        legacy(k, n, q);
    }
    p11_sample / p11_sample__count (5 * 3 * 4) |p| {
        let mut p = Pick(p);
        let (w, n, q) = (p.of(5), p.of(3), p.of(4));
        let v = ver();
        let tt = decs(w);
        let (lt, l) = digit(6);
        let (ft, fo, f) = name(w + 2 * n);
        let (vt, vol) = if q == 0 { (String::new(), None) } else {
            let (t, x) = int(q, false);
            (cat!(",", t), Some(x))
        };
        let text = cat!("6,", tt, ",", lt, ",", ft, vt);
        match <Events as VersionedFromStr>::from_str(&text, v) {
            Ok(e) => {
                let e = must!(e).0;
                chk!(vol.is_none() || vol <= Some(100));
                chk!(e.len() == 1);
                match &e[0] {
                    Event::SampleLegacy(x) => {
                        chk!(x.time == d(&tt) && x.layer == layer(l) && x.file_name == f && x.commands.is_empty());
                        chk!(x.volume.map(|x| x.get() as i64) == vol);
                    }
                    _ => chk!(false),
                }
                reach(1);
                let s = must!(VersionedToString::to_string(&e[0], v));
                trace(&s);
                chk!(s == cat!("6,", tt, ",", lt, ",", fo, vt));
            }
            Err(e) => {
                chk!(vol > Some(100));
                chk!(name_of(8, e.error()) == "InvalidVolume");
            }
        }
    }
    // integer limits, with and without the offset
    p11_limit / p11_limit__count (4) |p| {
        let v = ver();
        let (t, x) = digit(10);
        let (text, k) = match p {
            0 => (cat!("0,214748364", t, ",f"), 0),
            1 => (cat!("Video,21474836", t, "9,f"), 2),
            2 => (cat!("2,0,214748362", t), 3),
            _ => (cat!("3,-214748364", t, ",1,2,3"), 5),
        };
        let ok = match p {
            0 => x <= 7,
            1 => x < 4 && (v > 4 || 2147483609 + x as i64 * 10 + 24 <= 2147483647),
            2 => v > 4 || x <= 3,
            _ => x <= 8,
        };
        reach(1);
        match <Events as VersionedFromStr>::from_str(&text, v) {
            Ok(e) => {
                chk!(ok);
                let e = must!(e).0;
                let s = VersionedToString::to_string(&e[0], v);
                if v < 14 || p != 3 { chk!(s == Some(text)); }
            }
            Err(e) => {
                chk!(!ok);
                chk!(name_of(k, e.error()) == if p == 2 { "InvalidEndTime" } else { "InvalidStartTime" });
            }
        }
    }
    // a line that ends early
    p11_short / p11_short__count (9 * 5) |p| {
        let mut p = Pick(p);
        let (k, n) = (p.of(9), p.of(5));
        let v = ver();
        let (l, miss, _) = KINDS[k];
        if n + 1 >= l.len() { reach(1); return; }
        let r = <Events as VersionedFromStr>::from_str(&l[..n + 1].join(","), v);
        reach(1);
        match r {
            Ok(_) => chk!(miss[n] == ""),
            Err(e) => {
                chk!(miss[n] != "" && name_of(k, e.error()) == miss[n]);
                chk!(e.line_index() == 0);
            }
        }
    }
    // one arbitrary byte in the place of each number
    p11_bad / p11_bad__count (9 * 5) |p| {
        let mut p = Pick(p);
        let (k, n) = (p.of(9), p.of(5));
        let v = ver();
        let (l, _, bad) = KINDS[k];
        if n + 1 >= l.len() || bad[n] == "" { reach(1); return; }
        let b = word(1, |b| b > 0x20 && b < 0x7f && b != b',');
        let c = b.as_bytes()[0];
        let mut f: Vec<&str> = l.to_vec();
        f[n + 1] = &b;
        let r = <Events as VersionedFromStr>::from_str(&f.join(","), v);
        reach(1);
        // decimals keep text that is not a number
        let decimal = bad[n] == "InvalidX" || bad[n] == "InvalidY" || bad[n] == "InvalidTime";
        let digit = c.is_ascii_digit() && (bad[n] != "InvalidLayer" || c <= b'5');
        match r {
            Ok(_) => chk!(digit || decimal),
            Err(e) => {
                chk!(!digit && !decimal);
                chk!(name_of(k, e.error()) == bad[n]);
            }
        }
    }
    // headers: exactly the ten spellings are events
    p11_head / p11_head__count (3) |p| {
        let v = ver();
        reach(1);
        match p {
            0 => {
                let b = word(1, |b| b > 0x20 && b < 0x7f && b != b'/' && b != b'_');
                let c = b.as_bytes()[0];
                match <Events as VersionedFromStr>::from_str(&b, v) {
                    Ok(_) => chk!(false),
                    Err(e) => chk!(matches!(e.error(), ParseError::UnknownEventType) == !(b'0'..=b'6').contains(&c)),
                }
            }
            1 => {
                let b = word(1, |b| b > 0x20 && b < 0x7f && b != b',');
                let r = <Events as VersionedFromStr>::from_str(&cat!("2", b, ",1,2"), v);
                chk!(matches!(r, Err(e) if matches!(e.error(), ParseError::UnknownEventType)));
            }
            _ => {
                let b = word(1, |b| b > 0x20 && b < 0x7f);
                let r = <Events as VersionedFromStr>::from_str(&cat!("Brea", b, ",1,2"), v);
                chk!(r.is_ok() == (b == "k"));
            }
        }
    }
    // several events keep their order; comments are kept, blank lines are not
    p11_list / p11_list__count (6) |p| {
        let v = ver();
        let (a, x) = digit(10);
        let (b, y) = digit(10);
        let c = word(2, printable);
        let l = [
            cat!("2,", a, ",7"),
            cat!("//", c),
            cat!("0,", b, ",f.png"),
            "Video,5,g.avi,1,2".to_string(),
            "6,1.5,0,s.wav,20".to_string(),
        ];
        let i = p as usize % 5;
        let mut l: Vec<String> = (0..5).map(|j| l[(i + j) % 5].clone()).collect();
        let sep = if p == 5 { "\n \n" } else { "\n" };
        let text = l.join(sep);
        let e = must!(events(&text, v));
        chk!(e.len() == 5);
        for j in 0..5 {
            match ((i + j) % 5, &e[j]) {
                (0, Event::Break(z)) => chk!(z.start_time == plus24(x as i32, v) && z.end_time == plus24(7, v)),
                (1, Event::Comment(z)) => chk!(*z == c),
                (2, Event::Background(z)) => chk!(z.start_time == y as i32),
                (3, Event::Video(z)) => chk!(z.start_time == plus24(5, v)),
                (4, Event::SampleLegacy(z)) => chk!(z.time == d("1.5")),
                _ => chk!(false),
            }
        }
        reach(1);
        let s = must!(VersionedToString::to_string(&Events(e), v));
        trace(&s);
        chk!(s == l.join("\n"));
        l.clear();
    }
    // long lists and long file names
    p11_long / p11_long__count (4 * 2) |p| {
        let mut p = Pick(p);
        let (n, era) = (LONG[p.of(4)], p.of(2));
        let v = if era == 0 { ver_in(3, 4) } else { ver_in(5, 13) };
        let (t, x) = int(2, false);
        let at = below(n as u8) as usize;
        let mut f = String::new();
        for i in 0..n { f.push_str(["a", "b-", "é/", ".x"][mix(i, 4)]); }
        let mut lines = vec![];
        let mut text = String::new();
        let mut ks = vec![];
        for i in 0..n {
            let k = mix(i, 8);
            let (st, s) = if i == at { (t.clone(), x as i32) } else { let s = mix(i + 1, 200000) as i32 - 500; (s.to_string(), s) };
            let e = mix(i + 2, 100000).to_string();
            let l = match k {
                0 => cat!("0,", st, ",", f, ",1,2"),
                1 => cat!("1,", st, ",", f),
                2 => cat!("Video,", st, ",v.avi,", e, ",-5"),
                3 => cat!("2,", st, ",", e),
                4 => cat!("Break,", st, ",", e),
                5 => cat!("3,", st, ",1,22,", mix(i + 3, 256).to_string()),
                6 => cat!(["4,", "5,"][i % 2], mix(i, 6).to_string(), ",", mix(i + 4, 10).to_string(), ",", f, ",", st, ",", e),
                _ => cat!("6,", st, ",", mix(i, 6).to_string(), ",", f, ",", mix(i + 5, 101).to_string()),
            };
            text.push_str(&cat!(l, ["\n", "\r\n", "\n\n", "\n"][mix(i, 4)]));
            lines.push(l);
            ks.push((k, s, e.parse::<i32>().unwrap()));
        }
        let ev = must!(events(&text, v));
        chk!(ev.len() == n);
        for (i, (e, (k, s, end))) in ev.iter().zip(&ks).enumerate() {
            let path = FilePath::from(&f);
            chk!(match e {
                Event::Background(b) => *k == 0 && b.start_time == *s && b.file_name == path,
                Event::Video(b) => (*k == 1 || *k == 2) && b.start_time == plus24(*s, v),
                Event::Break(b) => (*k == 3 || *k == 4) && b.start_time == plus24(*s, v) && b.end_time == plus24(*end, v),
                Event::ColourTransformation(b) => *k == 5 && b.start_time == plus24(*s, v) && b.green == 22,
                Event::SpriteLegacy(b) => *k == 6 && i % 2 == 0 && b.file_name == path,
                Event::AnimationLegacy(b) => *k == 6 && i % 2 == 1 && b.file_name == path,
                Event::SampleLegacy(b) => *k == 7 && b.file_name == path,
                _ => false,
            });
        }
        reach(1);
        let o = must!(<Events as VersionedToString>::to_string(&Events(ev), v));
        chk!(o == lines.join("\n"));
    }
}
