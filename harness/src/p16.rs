//! The 24 ms offset of versions 3 and 4: parse at one version, print at another.
use crate::{base::*, p07::d, sym::*};
use osu_file_parser::events::*;
use osu_file_parser::hitobjects::*;
use osu_file_parser::types::*;
use osu_file_parser::{Editor, Events, General, HitObjects, OsuFile, TimingPoints};

/// offset between the stored time and the text at a version
pub fn off(v: u8) -> i64 {
    if v <= 4 {
        24
    } else {
        0
    }
}
/// the text at version b of the time written t (an integer) at version a
fn moved(x: i64, a: u8, b: u8) -> String {
    (x + off(a) - off(b)).to_string()
}
/// event lines: (text before the first time, between, after; the times carry the offset)
const EV: [(&str, &str, &str, bool); 11] = [
    ("1,", "", ",v.avi", true),
    ("Video,", "", ",v.avi,1,2", true),
    ("2,", ",", "", true),
    ("Break,", ",", "", true),
    ("3,", "", ",1,2,3", true),
    ("0,", "", ",b.png,1,2", false),
    ("6,", "", ",1,s.wav,50", false),
    ("Sample,", "", ",1,s.wav,50", false),
    ("4,1,2,s.png\n F,0,", ",", ",1", false),
    ("Sprite,Pass,Centre,s.png,1,2\n T,Passing,", ",", ",3", false),
    ("5,1,2,s.png\n L,", "", ",4\n  M,0,7,8,1,2", false),
];
/// symbolic times
fn time(w: usize) -> (String, i64) {
    match w % 5 {
        0 => int(1, false),
        1 => int(2, true),
        2 => int(3, false),
        // six and nine digits, the last two vary
        w => {
            let x = digits(2);
            let n = ((x[0] - b'0') as i64) * 10 + (x[1] - b'0') as i64;
            if w == 3 {
                (cat!("-1999", raw(x)), -199900 - n)
            } else {
                (cat!("1000000", raw(x)), 100000000 + n)
            }
        }
    }
}
/// the end time differs from the start time in shape
fn times(w: usize, two: bool) -> ((String, i64), (String, i64)) {
    let t = time(w);
    (t, if two { int(2, w % 2 == 0) } else { (String::new(), 0) })
}
fn event_time(e: &Event) -> Option<(i64, i64)> {
    Some(match e {
        Event::Video(x) => (x.start_time as i64, 0),
        Event::Break(x) => (x.start_time as i64, x.end_time as i64),
        Event::ColourTransformation(x) => (x.start_time as i64, 0),
        Event::Background(x) => (x.start_time as i64, 0),
        Event::AudioSample(x) => (x.time as i64, 0),
        _ => return None,
    })
}
fn object(k: usize, t: &str, u: &str) -> String {
    match k {
        0 => cat!("1,2,", t, ",1,0"),
        1 => cat!("1,2,", t, ",2,0,B|1:2|3:4,1,9"),
        2 => cat!("1,2,", t, ",8,0,", u),
        _ => cat!("1,2,", t, ",128,0,", u, ":"),
    }
}
fn decimal_of(s: &Decimal) -> Option<rust_decimal::Decimal> {
    s.get().as_ref().left().copied()
}

harnesses! {
    p16_event / p16_event__count (11 * 5) |p| {
        let mut p = Pick(p);
        let (k, w) = (p.of(11), p.of(5));
        let (a, b) = (ver(), ver());
        let (h, m, l, shift) = EV[k];
        let ((tt, t), (ut, u)) = times(w, m == ",");
        let e = must!(must!(<Events as VersionedFromStr>::from_str(&cat!(h, tt, m, ut, l), a).ok()));
        chk!(e.0.len() == 1);
        if let Some((x, y)) = event_time(&e.0[0]) {
            let o = if shift { off(a) } else { 0 };
            chk!(x == t + o);
            chk!(y == if m == "," { u + o } else { 0 });
        } else {
            chk!(k >= 8 || matches!(&e.0[0], Event::SampleLegacy(x) if k == 6 && decimal_of(&x.time) == Some(rust_decimal::Decimal::from(t))));
        }
        reach(1);
        let s = must!(VersionedToString::to_string(&e, b));
        trace(&s);
        let exp = if !shift {
            cat!(h, tt, m, ut, l)
        } else if k == 4 && b >= 14 {
            String::new()
        } else if m == "," {
            cat!(h, moved(t, a, b), m, moved(u, a, b), l)
        } else {
            cat!(h, moved(t, a, b), l)
        };
        chk!(s == exp);
    }
    p16_object / p16_object__count (4 * 5) |p| {
        let mut p = Pick(p);
        let (k, w) = (p.of(4), p.of(5));
        let (a, b) = (ver(), ver());
        let ((tt, t), (ut, u)) = times(w, k >= 2);
        let h = must!(must!(<HitObjects as VersionedFromStr>::from_str(&object(k, &tt, &ut), a).ok()));
        chk!(h.0.len() == 1);
        let o = &h.0[0];
        chk!(decimal_of(&o.time) == Some(rust_decimal::Decimal::from(t + off(a))));
        let end = match &o.obj_params {
            HitObjectParams::Spinner { end_time } | HitObjectParams::OsuManiaHold { end_time } => Some(end_time),
            _ => None,
        };
        match end {
            Some(e) => chk!(k >= 2 && decimal_of(e) == Some(rust_decimal::Decimal::from(u + off(a)))),
            None => chk!(k < 2),
        }
        reach(1);
        let s = must!(VersionedToString::to_string(&h, b));
        trace(&s);
        let f: Vec<&str> = s.split(',').collect();
        chk!(f[0] == "1" && f[1] == "2" && f[2] == moved(t, a, b));
        if k >= 2 {
            let e = f[5].split(':').next().unwrap();
            chk!(e == moved(u, a, b));
        }
    }
    p16_timing / p16_timing__count (5) |p| {
        let (a, b) = (ver(), ver());
        let (tt, t) = time(p as usize);
        let tail = if a == 3 { ",300" } else if a == 4 { ",300,4,1,1" } else { ",300,4,1,1,60,1,0" };
        let l = must!(must!(<TimingPoints as VersionedFromStr>::from_str(&cat!(tt, tail), a).ok()));
        chk!(l.0.len() == 1 && decimal_of(l.0[0].time()) == Some(rust_decimal::Decimal::from(t + off(a))));
        reach(1);
        let s = must!(VersionedToString::to_string(&l, b));
        trace(&s);
        let mut f = s.split(',');
        chk!(f.next().unwrap() == moved(t, a, b) && f.next() == Some("300"));
    }
    // fractions are kept, texts that are no numbers are not shifted
    p16_fraction / p16_fraction__count (5 * 3) |p| {
        let mut p = Pick(p);
        let (k, w) = (p.of(5), p.of(3));
        let (a, b) = (ver(), ver());
        let (t, e) = if w == 2 {
            let t = cat!("x", word(1, |b| b.is_ascii_alphanumeric()));
            (t.clone(), t)
        } else {
            let (i, x) = int(3, false);
            let f = raw(digits(1 + 2 * w));
            (cat!(i, ".", f), cat!(moved(x, a, b), ".", f))
        };
        let s = if k < 4 {
            let h = must!(must!(<HitObjects as VersionedFromStr>::from_str(&object(k, &t, &t), a).ok()));
            if w == 2 {
                chk!(matches!(h.0[0].time.get().as_ref().right(), Some(x) if *x == t));
            } else if a > 4 {
                chk!(h.0[0].time == d(&t));
            }
            must!(VersionedToString::to_string(&h, b))
        } else {
            let tail = if a == 3 { ",300" } else if a == 4 { ",300,4,1,1" } else { ",300,4,1,1,60,1,0" };
            let l = must!(must!(<TimingPoints as VersionedFromStr>::from_str(&cat!(t, tail), a).ok()));
            must!(VersionedToString::to_string(&l, b))
        };
        reach(1);
        trace(&s);
        let f: Vec<&str> = s.split(',').collect();
        if k == 4 {
            chk!(f[0] == e);
        } else {
            chk!(f[2] == e);
            if k >= 2 {
                chk!(f[5].split(':').next().unwrap() == e);
            }
        }
    }
    // the largest and smallest times: rejected exactly when the shifted time does not fit
    p16_limit / p16_limit__count (5 * 2) |p| {
        let mut p = Pick(p);
        let (k, neg) = (p.of(5), p.of(2) == 1);
        let (a, b) = (ver(), ver());
        let x = digits(2);
        let t = 2147483600i64 + ((x[0] - b'0') as i64) * 10 + (x[1] - b'0') as i64;
        let t = if neg { -t } else { t };
        let tt = cat!(if neg { "-21474836" } else { "21474836" }, raw(x));
        let (h, m, l, _) = EV[k];
        let r = <Events as VersionedFromStr>::from_str(&cat!(h, tt, m, if m == "," { "5" } else { "" }, l), a);
        let fits = |x: i64| x >= i32::MIN as i64 && x <= i32::MAX as i64;
        reach(1);
        match r {
            Err(_) => chk!(!fits(t) || !fits(t + off(a))),
            Ok(e) => {
                chk!(fits(t) && fits(t + off(a)));
                let s = must!(VersionedToString::to_string(&must!(e), b));
                trace(&s);
                if k == 4 && b >= 14 {
                    chk!(s.is_empty());
                } else {
                    chk!(s.split(',').nth(1) == Some(&moved(t, a, b)));
                }
            }
        }
    }
    // keys of General and Editor never carry the offset
    p16_keys / p16_keys__count (4) |p| {
        let (a, b) = (ver_in(3, 5), ver());
        let (t, x) = int(3, p % 2 == 1);
        reach(1);
        if p < 2 {
            let g = must!(must!(General::from_str(&cat!("PreviewTime: ", t, "\nAudioLeadIn: ", t, "\nEditorBookmarks: ", t), a).ok()));
            chk!(g.preview_time == Some((x as i32).into()) && g.audio_lead_in == Some((x as i32).into()));
            let s = must!(g.to_string(b));
            trace(&s);
            chk!(s == cat!("AudioLeadIn: ", t, "\nPreviewTime: ", t, if b <= 5 { cat!("\nEditorBookmarks: ", t) } else { String::new() }));
        } else {
            let g = must!(must!(Editor::from_str(&cat!("Bookmarks: ", t, ",7\nCurrentTime: ", t), a).ok()));
            chk!(g.bookmarks == Some(vec![x as i32, 7].into()) && g.current_time == Some((x as i32).into()));
            let s = must!(g.to_string(b));
            trace(&s);
            chk!(s == cat!("Bookmarks: ", t, ",7", if b == 10 { cat!("\nCurrentTime: ", t) } else { String::new() }));
        }
    }
    // the same through a whole file
    p16_file / p16_file__count (3) |p| {
        let (a, b) = (ver(), ver());
        let (tt, t) = int(3, false);
        let text = match p {
            0 => cat!("osu file format v", a.to_string(), "\n\n[Events]\n2,", tt, ",5\nVideo,7,v\n0,9,b\n\n[HitObjects]\n1,2,8,8,0,9\n"),
            1 => cat!("osu file format v", a.to_string(), "\n\n[HitObjects]\n1,2,", tt, ",12,0,9\n"),
            _ => cat!("osu file format v", a.to_string(), "\n\n[TimingPoints]\n", tt, if a == 3 { ",300" } else { ",300,4,1,1" }, if a > 4 { ",60,1,0" } else { "" }, "\n"),
        };
        let mut f = must!(text.parse::<OsuFile>().ok());
        chk!(f.version == a);
        f.version = b;
        let s = std::string::ToString::to_string(&f);
        trace(&s);
        reach(1);
        let head = cat!("osu file format v", b.to_string(), "\n\n");
        match p {
            0 => chk!(s == cat!(head, "[Events]\n2,", moved(t, a, b), ",", moved(5, a, b), "\nVideo,", moved(7, a, b), ",v\n0,9,b\n\n[HitObjects]\n1,2,", moved(8, a, b), ",8,0,", moved(9, a, b))),
            1 => chk!(s == cat!(head, "[HitObjects]\n1,2,", moved(t, a, b), ",12,0,", moved(9, a, b))),
            _ => chk!(s.starts_with(&cat!(head, "[TimingPoints]\n", moved(t, a, b), ",300"))),
        }
    }
    // long lists: every entry is moved
    p16_long / p16_long__count (4 * 3 * 3) |p| {
        let mut p = Pick(p);
        let (n, k) = ([5, 9, 17, 40][p.of(4)], p.of(3));
        let (a, b) = ([3, 4, 13][p.of(3)], ver_in(3, 13));
        let at = below(n as u8) as usize;
        let (t, x) = digit(10);
        let mut text = vec![];
        let mut want = vec![];
        let mut want2 = vec![];
        for i in 0..n {
            let (s, y) = if i == at { (cat!("4", t), 40 + x as i64) } else { let y = mix(i, 500000) as i64 - 900; (y.to_string(), y) };
            let z = y + mix(i + 1, 5000) as i64;
            let u = z.to_string();
            text.push(match k {
                0 => cat!(s, if a == 3 { ",300" } else if a == 4 { ",300,4,1,1" } else { ",300,4,1,1,60,1,0" }),
                1 => object(mix(i, 4), &s, &u),
                _ => [cat!("1,", s, ",v"), cat!("Video,", s, ",v"), cat!("2,", s, ",", u), cat!("Break,", s, ",", u), cat!("3,", s, ",1,2,3")][mix(i, 5)].clone(),
            });
            want.push(moved(y, a, b));
            want2.push(moved(z, a, b));
        }
        let text = text.join("\n");
        let s = match k {
            0 => VersionedToString::to_string(&must!(<TimingPoints as VersionedFromStr>::from_str(&text, a).ok().flatten()), b),
            1 => VersionedToString::to_string(&must!(<HitObjects as VersionedFromStr>::from_str(&text, a).ok().flatten()), b),
            _ => VersionedToString::to_string(&must!(<Events as VersionedFromStr>::from_str(&text, a).ok().flatten()), b),
        };
        let s = must!(s);
        reach(1);
        chk!(s.split('\n').count() == n);
        for (i, l) in s.split('\n').enumerate() {
            let f: Vec<&str> = l.split(',').collect();
            chk!(f[[0, 2, 1][k]] == want[i]);
            if k == 1 && mix(i, 4) >= 2 { chk!(f[5].split(':').next() == Some(want2[i].as_str())); }
            if k == 2 && (2..4).contains(&mix(i, 5)) { chk!(f[2] == want2[i]); }
        }
    }
}
