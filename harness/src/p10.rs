//! Hit samples and slider edge sounds and sets.
use crate::{base::*, p08::*, p09::*, sym::*};
use osu_file_parser::hitobjects::*;
use osu_file_parser::types::*;

pub fn set(x: usize) -> SampleSet {
    match x {
        0 => SampleSet::NoCustomSampleSet,
        1 => SampleSet::NormalSet,
        2 => SampleSet::SoftSet,
        3 => SampleSet::DrumSet,
        x => SampleSet::Other(x),
    }
}
fn sett(w: usize) -> (String, SampleSet) {
    let (t, x) = match w % 3 {
        0 => {
            let (t, x) = digit(5);
            (t, x as i64)
        }
        1 => int(1, false),
        _ => int(6, false),
    };
    (t, set(x as usize))
}
/// a hit sample with n of its five parts written: text and value
fn sample(n: usize, w: usize) -> (Vec<String>, HitSample) {
    let mut h = <HitSample as VersionedDefault>::default(14).unwrap();
    let mut t = vec![];
    if n > 0 {
        let (x, s) = sett(w);
        t.push(x);
        h.normal_set = s;
    }
    if n > 1 {
        let (x, s) = sett(w + 1);
        t.push(x);
        h.addition_set = s;
    }
    if n > 2 {
        let (x, i) = int([1, 2, 9][w % 3], false);
        t.push(x);
        h.index = match std::num::NonZeroUsize::new(i as usize) {
            None => SampleIndex::TimingPointSampleIndex,
            Some(i) => SampleIndex::Index(i),
        };
    }
    if n > 3 {
        let (x, i) = if w % 4 == 3 { ("100".to_string(), 100) } else { int(1 + w % 2, false) };
        t.push(x);
        h.volume = Volume::new(if i == 0 { None } else { Some(i as u8) }).unwrap();
    }
    if n > 4 {
        let f = if w % 2 == 0 { cat!(word(2, plain), ".wav") } else { word(1, |b| plain(b) || b == b' ') };
        let f = if w % 2 == 1 { cat!("s", f) } else { f };
        t.push(f.clone());
        h.filename = f;
    }
    (t, h)
}
/// the sample as a version prints it
fn printed(h: &HitSample, t: &[String], v: u8) -> Option<String> {
    let _ = h;
    let g = |i: usize| t.get(i).map(|s| s.as_str()).unwrap_or("0");
    match v {
        3..=9 => None,
        10..=11 => Some(cat!(g(0), ":", g(1), ":", g(2))),
        _ => Some(cat!(g(0), ":", g(1), ":", g(2), ":", g(3), ":", t.get(4).map(|s| s.as_str()).unwrap_or(""))),
    }
}
const HEAD: [&str; 4] = ["7,8,9,1,0,", "7,8,9,2,0,L|7:8|1:2,1,10,0|2,0:1|2:3,", "7,8,9,8,0,50,", "7,8,9,128,0,60:"];

harnesses! {
    p10_sample / p10_sample__count (4 * 6 * 4) |p| {
        let mut p = Pick(p);
        let (k, n, w) = (p.of(4), p.of(6), p.of(4));
        let v = ver();
        let (t, h) = sample(n, w);
        // an optional trailing colon
        let tail = if n > 0 && n < 5 && w % 2 == 1 { ":" } else { "" };
        let text = cat!(HEAD[k], t.join(":"), tail);
        let o = must!(parse(&text, v));
        chk!(o.hitsample == Some(h.clone()));
        reach(1);
        let s = must!(VersionedToString::to_string(&o, v));
        trace(&s);
        let head = if k == 1 && v != 3 { "7,8,9,2,0,L|7:8|1:2,1,10,0|2,0:1|2:3," } else { HEAD[k] };
        let want = match printed(&h, &t, v) {
            Some(x) => cat!(head, x),
            None => match k {
                0 if v == 3 => "7,8,9,1,0,".to_string(),
                3 => head.to_string(),
                _ => head[..head.len() - 1].to_string(),
            },
        };
        chk!(s == want);
        // the sample alone
        let hs = <HitSample as VersionedFromStr>::from_str(&t.join(":"), v);
        chk!(matches!(hs, Ok(Some(x)) if x == h));
        chk!(VersionedToString::to_string(&h, v) == printed(&h, &t, v));
    }
    // edge sounds and edge sets: lists of any length up to 4, each with or without the other
    p10_edges / p10_edges__count (5 * 5 * 3) |p| {
        let mut p = Pick(p);
        let (ns, ne, w) = (p.of(5), p.of(5), p.of(3));
        let v = ver_in(4, 14);
        let mut es = vec![];
        let mut st = vec![];
        for i in 0..ns {
            if i == 1 && w == 1 {
                let (t, x) = int(2, false);
                assume(x < 16);
                st.push(t);
                es.push(HitSound::new(x & 1 != 0, x & 2 != 0, x & 4 != 0, x & 8 != 0));
            } else {
                let (t, x) = if i < 2 { digit(10) } else { ("6".to_string(), 6) };
                st.push(t);
                es.push(HitSound::new(x & 1 != 0, x & 2 != 0, x & 4 != 0, x & 8 != 0));
            }
        }
        let mut ee = vec![];
        let mut et = vec![];
        for i in 0..ne {
            let (a, sa) = if i == w { sett(0) } else { (raw(vec![b'1' + i as u8]), set(1 + i)) };
            let (b, sb) = if i == w + 1 { sett(1) } else { ("0".to_string(), set(0)) };
            et.push(cat!(a, ":", b));
            ee.push(EdgeSet { normal_set: sa, addition_set: sb });
        }
        let mut text = "7,8,9,2,0,P|1:2|3:4,2,10".to_string();
        // w selects whether empty lists are written
        if ns > 0 || ne > 0 || w == 2 {
            text.push_str(&cat!(",", st.join("|")));
        }
        if ne > 0 || w == 2 {
            text.push_str(&cat!(",", et.join("|")));
        }
        let o = must!(parse(&text, v));
        let s = must!(slider(&o));
        chk!(s.edge_sounds == es);
        chk!(s.edge_sets == ee);
        chk!(s.curve_points.len() == 2 && s.slides == 2 && o.hitsample.is_none());
        reach(1);
        let out = must!(VersionedToString::to_string(&o, v));
        trace(&out);
        chk!(out == text);
        // built through the API: empty trailing lists are left out
        let mut h = o.clone();
        h.obj_params = HitObjectParams::Slider(SlideParams::new(s.curve_type, s.curve_points.clone(), s.slides, s.length.clone(), es, ee));
        let mut text = "7,8,9,2,0,P|1:2|3:4,2,10".to_string();
        if ns > 0 || ne > 0 {
            text.push_str(&cat!(",", st.join("|")));
        }
        if ne > 0 {
            text.push_str(&cat!(",", et.join("|")));
        }
        chk!(VersionedToString::to_string(&h, v) == Some(text));
    }
    // sliders with a sample keep empty edge lists apart
    p10_gap / p10_gap__count (4) |p| {
        let v = ver_in(10, 14);
        let (a, b) = (p % 2 == 1, p / 2 == 1);
        let (st, _) = digit(8);
        let (t, h) = sample(3, 1);
        let text = cat!("7,8,9,2,0,P|1:2|3:4,2,10,", if a { cat!(st, "|0") } else { String::new() }, ",", if b { "1:2|0:0" } else { "" }, ",", t.join(":"));
        let o = must!(parse(&text, v));
        let s = must!(slider(&o));
        chk!(s.edge_sounds.len() == if a { 2 } else { 0 } && s.edge_sets.len() == if b { 2 } else { 0 });
        chk!(o.hitsample == Some(h));
        reach(1);
        let out = must!(VersionedToString::to_string(&o, v));
        trace(&out);
        chk!(out == if v >= 12 { cat!(text, ":0:") } else { text });
    }
    // bounds and malformed parts
    p10_bad / p10_bad__count (8) |p| {
        let v = ver();
        use ParseHitSampleError as E;
        let r = |s: &str| -> Result<Option<HitSample>, E> { VersionedFromStr::from_str(s, v) };
        reach(1);
        match p {
            0 => {
                let (t, x) = int(3, false);
                let q = r(&cat!("1:2:3:", t, ":"));
                match q {
                    Ok(h) => { chk!(x <= 100); chk!(h.unwrap().volume.volume() == Some(x as u8)); }
                    Err(e) => { chk!(x > 100); chk!(matches!(e, E::InvalidVolume)); }
                }
            }
            1 => {
                let b = word(1, |b| b > 0x20 && b < 0x7f && b != b':');
                let q = r(&cat!(b, ":2:3:4:"));
                chk!(q.is_ok() == b.as_bytes()[0].is_ascii_digit());
                if let Err(e) = q { chk!(matches!(e, E::InvalidSampleSet)); }
            }
            2 => {
                let b = word(1, |b| b > 0x20 && b < 0x7f && b != b':');
                let q = r(&cat!("1:", b, ":3:4:"));
                chk!(q.is_ok() == b.as_bytes()[0].is_ascii_digit());
                if let Err(e) = q { chk!(matches!(e, E::InvalidSampleSet)); }
            }
            3 => {
                let b = word(1, |b| b > 0x20 && b < 0x7f && b != b':');
                let q = r(&cat!("1:2:", b, ":4:"));
                chk!(q.is_ok() == b.as_bytes()[0].is_ascii_digit());
                if let Err(e) = q { chk!(matches!(e, E::InvalidIndex)); }
            }
            4 => {
                // an object rejects a bad sample as such
                let b = word(1, |b| b > 0x20 && b < 0x7f && b != b':');
                let q = <HitObject as VersionedFromStr>::from_str(&cat!("1,2,3,1,0,", b, ":0:0"), v);
                chk!(q.is_ok() == b.as_bytes()[0].is_ascii_digit());
                if let Err(e) = q { chk!(matches!(e, ParseHitObjectError::InvalidHitSample)); }
            }
            5 => {
                // an edge set with one arbitrary byte
                let b = word(1, |b| b > 0x20 && b < 0x7f);
                let q = <EdgeSet as VersionedFromStr>::from_str(&cat!("1", b, "2"), v);
                chk!(q.is_ok() == (b == ":"));
                let b = word(1, |b| b > 0x20 && b < 0x7f);
                let d = b.as_bytes()[0].is_ascii_digit();
                match <EdgeSet as VersionedFromStr>::from_str(&cat!("1:", b), v) {
                    Ok(e) => { chk!(d); chk!(e.unwrap().addition_set == set((b.as_bytes()[0] - b'0') as usize)); }
                    Err(e) => { chk!(!d); chk!(matches!(e, ParseColonSetError::InvalidSecondItem)); }
                }
            }
            6 => {
                let b = word(1, |b| b > 0x20 && b < 0x7f && b != b':');
                match <EdgeSet as VersionedFromStr>::from_str(&cat!(b, ":1"), v) {
                    Ok(_) => chk!(b.as_bytes()[0].is_ascii_digit()),
                    Err(e) => { chk!(!b.as_bytes()[0].is_ascii_digit()); chk!(matches!(e, ParseColonSetError::InvalidFirstItem)); }
                }
            }
            _ => {
                // 64-bit sample set and index
                let (t, x) = digit(10);
                chk!(r(&cat!("1844674407370955161", t, ":0")).is_ok() == (x <= 5));
                chk!(r(&cat!("0:0:1844674407370955161", t)).is_ok() == (x <= 5));
            }
        }
    }
    // many edges, long names
    p10_long / p10_long__count (4 * 3) |p| {
        let mut p = Pick(p);
        let (n, k) = (LONG[p.of(4)], p.of(3));
        let v = ver_in(10, 14);
        let (at, (t, x)) = (below(n as u8) as usize, digit(10));
        let (mut st, mut es, mut et, mut ee) = (vec![], vec![], vec![], vec![]);
        let snd = |h: usize| HitSound::new(h & 1 != 0, h & 2 != 0, h & 4 != 0, h & 8 != 0);
        for i in 0..n {
            let h = mix(i, 16);
            let (a, b) = (mix(i + 1, 5), mix(i + 2, 300));
            if i == at {
                st.push(t.clone());
                es.push(snd(x as usize));
                et.push(cat!(t, ":", b.to_string()));
                ee.push(EdgeSet { normal_set: set(x as usize), addition_set: set(b) });
            } else {
                st.push(h.to_string());
                es.push(snd(h));
                et.push(cat!(a.to_string(), ":", b.to_string()));
                ee.push(EdgeSet { normal_set: set(a), addition_set: set(b) });
            }
        }
        // a file name of n parts
        let mut f = String::new();
        for i in 0..n { f.push_str(["a", "b c", "é/", ".x"][mix(i, 4)]); }
        let f = cat!("s", f, ".wav");
        let tail = match k { 0 => String::new(), 1 => cat!(",1:2:", n.to_string()), _ => cat!(",1:2:", n.to_string(), ":70:", f) };
        let text = cat!("7,8,9,2,0,P|1:2|3:4,2,10,", st.join("|"), ",", et.join("|"), tail);
        let o = must!(parse(&text, v));
        let s = must!(slider(&o));
        chk!(s.edge_sounds == es && s.edge_sets == ee);
        if k == 2 {
            let h = must!(o.hitsample.as_ref());
            chk!(h.filename == f && h.volume.volume() == Some(70) && h.normal_set == set(1) && h.addition_set == set(2));
        }
        reach(1);
        let out = must!(VersionedToString::to_string(&o, v));
        let cut = text.len() - tail.len();
        chk!(out == match (k, v) {
            (0, _) => text,
            (_, 10 | 11) => cat!(text[..cut], ",1:2:", n.to_string()),
            (1, _) => cat!(text, ":0:"),
            _ => text,
        });
    }
}
