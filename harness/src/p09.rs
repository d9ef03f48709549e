//! Slider, spinner and hold parameters.
use crate::{base::*, p07::d, p08::*, sym::*};
use osu_file_parser::hitobjects::*;
use osu_file_parser::types::*;

pub const CURVE: [(&str, CurveType); 4] = [("B", CurveType::Bezier), ("C", CurveType::Centripetal), ("L", CurveType::Linear), ("P", CurveType::PerfectCircle)];

/// curve points: texts "x:y"
fn points(n: usize, w: usize) -> Vec<(String, String)> {
    let mut v = vec![];
    for i in 0..n {
        let (a, b) = match (w + i) % 4 {
            0 => (int(2, false).0, int(1, true).0),
            1 => (int(1, false).0, dec(1, 1, false)),
            2 => (dec(1, 2, true), int(1, false).0),
            _ => (int(3, true).0, int(1, false).0),
        };
        v.push((a, b));
    }
    v
}
fn piped(v: &[(String, String)]) -> String {
    let mut s = String::new();
    for (i, (a, b)) in v.iter().enumerate() {
        if i > 0 {
            s.push('|');
        }
        s.push_str(&cat!(a, ":", b));
    }
    s
}
pub fn slider(o: &HitObject) -> Option<&SlideParams> {
    match &o.obj_params {
        HitObjectParams::Slider(s) => Some(s),
        _ => None,
    }
}
fn pts_eq(a: &[CurvePoint], b: &[(String, String)]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.0 == Position { x: d(&b.0), y: d(&b.1) })
}

harnesses! {
    p09_slider / p09_slider__count (6 * 8) |p| {
        let mut p = Pick(p);
        let (n, w) = (p.of(6), p.of(8));
        let v = ver();
        let c = CURVE[w % 4];
        let pts = points(n, w);
        let (st, slides) = ints([0, 1, 0, 2][w % 4]);
        let len = decs(w % 5);
        let text = if n == 0 { cat!("7,8,9,2,0,", c.0, ",", st, ",", len) } else { cat!("7,8,9,2,0,", c.0, "|", piped(&pts), ",", st, ",", len) };
        let o = must!(parse(&text, v));
        let s = must!(slider(&o));
        let keep = if v == 3 && n > 0 { &pts[1..] } else { &pts[..] };
        chk!(s.curve_type == c.1);
        chk!(pts_eq(&s.curve_points, keep));
        chk!(s.slides == slides && s.length == d(&len));
        chk!(s.edge_sounds.is_empty() && s.edge_sets.is_empty() && o.hitsample.is_none());
        reach(1);
        let out = must!(VersionedToString::to_string(&o, v));
        trace(&out);
        let exp = if v == 3 {
            let k = piped(keep);
            cat!("7,8,9,2,0,", c.0, "|7:8", if keep.is_empty() { "" } else { "|" }, k, ",", st, ",", len)
        } else {
            text
        };
        chk!(out == exp);
        // the same slider built through the API prints the same
        let mut h = HitObject::hitcircle_default();
        h.position = Position { x: d("7"), y: d("8") };
        h.time = shifted("9", v);
        let cp = keep.iter().map(|p| CurvePoint(Position { x: d(&p.0), y: d(&p.1) })).collect();
        h.obj_params = HitObjectParams::Slider(SlideParams::new(c.1, cp, slides, d(&len), vec![], vec![]));
        chk!(h == o);
        chk!(VersionedToString::to_string(&h, v) == Some(out));
    }
    // one position is reused at version 3 whatever it is
    p09_v3 / p09_v3__count (6) |p| {
        let (x, y) = (decs(p as usize % 5), decs(p as usize % 5 + 1));
        let pts = points(2, p as usize);
        let text = cat!(x, ",", y, ",9,2,0,B|", x, ":", y, "|", piped(&pts), ",1,10");
        let o = must!(parse(&text, 3));
        let s = must!(slider(&o));
        chk!(pts_eq(&s.curve_points, &pts));
        reach(1);
        chk!(VersionedToString::to_string(&o, 3) == Some(text));
        let e = cat!(x, ",", y, ",33,2,0,B|", piped(&pts), ",1,10");
        chk!(VersionedToString::to_string(&o, 14) == Some(e));
    }
    p09_end / p09_end__count (2 * 5) |p| {
        let mut p = Pick(p);
        let (hold, w) = (p.of(2) == 1, p.of(5));
        let v = ver();
        let t = if v <= 4 { dec([1, 3, 2, 4, 3][w], 0, false) } else { decs(w) };
        let text = if hold { cat!("7,8,9,128,0,", t, ":", no_sample(v)) } else { cat!("7,8,9,8,0,", t) };
        let o = must!(parse(&text, v));
        chk!(match &o.obj_params {
            HitObjectParams::Spinner { end_time } => !hold && *end_time == shifted(&t, v),
            HitObjectParams::OsuManiaHold { end_time } => hold && *end_time == shifted(&t, v),
            _ => false,
        });
        chk!(o.hitsample == if hold { <HitSample as VersionedDefault>::default(v) } else { None });
        reach(1);
        let out = must!(VersionedToString::to_string(&o, v));
        trace(&out);
        chk!(out == text);
        let mut h = if hold { HitObject::osu_mania_hold_default() } else { HitObject::spinner_default() };
        h.position = Position { x: d("7"), y: d("8") };
        h.time = shifted("9", v);
        h.hitsample = o.hitsample.clone();
        match &mut h.obj_params {
            HitObjectParams::Spinner { end_time } | HitObjectParams::OsuManiaHold { end_time } => *end_time = shifted(&t, v),
            _ => {}
        }
        chk!(h == o);
    }
    // limits and malformed parameters
    p09_bad / p09_bad__count (10) |p| {
        let v = ver();
        use ParseHitObjectError as E;
        let r = |s: &str| -> Result<Option<HitObject>, E> { VersionedFromStr::from_str(s, v) };
        reach(1);
        match p {
            0 | 1 => {
                let (t, x) = digit(10);
                let neg = p == 1;
                let q = r(&cat!("1,2,3,2,0,L|1:1|2:2,", if neg { "-" } else { "" }, "214748364", t, ",5"));
                chk!(q.is_ok() == (x <= 7 + neg as u8));
                if let Err(e) = q { chk!(matches!(e, E::InvalidSlidesCount)); }
            }
            2 => {
                let b = word(1, |b| b > 0x20 && b < 0x7f && b != b',' && b != b'|');
                let q = r(&cat!("1,2,3,2,0,", b, "|1:1|2:2,1,5"));
                let ok = b == "B" || b == "C" || b == "L" || b == "P";
                chk!(q.is_ok() == ok);
                if let Err(e) = q { chk!(matches!(e, E::InvalidCurveType)); }
            }
            3 => {
                let b = word(1, |b| b > 0x20 && b < 0x7f && b != b',' && b != b'|');
                let q = r(&cat!("1,2,3,2,0,", b, ",1,5"));
                chk!(q.is_ok() == (b == "B" || b == "C" || b == "L" || b == "P"));
            }
            4 => {
                // the separator of a point
                let b = word(1, |b| b > 0x20 && b < 0x7f);
                let q = r(&cat!("1,2,3,2,0,L|1", b, "2,1,5"));
                let k = b.as_bytes()[0];
                chk!(q.is_ok() == (k == b':'));
            }
            5 => chk!(matches!(r("1,2,3,2,0"), Err(E::MissingCurveType)) && matches!(r("1,2,3,2,0,L"), Err(E::MissingSlidesCount | E::MissingCurvePoint))),
            6 => chk!(matches!(r("1,2,3,2,0,L|1:2"), Err(E::MissingSlidesCount)) && matches!(r("1,2,3,2,0,L|1:2,1"), Err(E::MissingLength))),
            7 => chk!(matches!(r("1,2,3,8,0"), Err(E::MissingEndTime)) && matches!(r("1,2,3,128,0"), Err(E::MissingEndTime))),
            8 => {
                // a hold needs the colon after its end time
                let b = word(1, |b| b > 0x20 && b < 0x7f);
                let q = r(&cat!("1,2,3,128,0,9", b));
                chk!(q.is_ok() == (b == ":"));
            }
            _ => {
                let b = word(1, |b| b > 0x20 && b < 0x7f && b != b',');
                chk!(r(&cat!("1,2,3,2,0,L|1:2,", b, ",3")).is_ok() == b.as_bytes()[0].is_ascii_digit());
            }
        }
    }

    // many curve points, long numbers
    p09_long / p09_long__count (4 * 4) |p| {
        let mut p = Pick(p);
        let (n, w) = (LONG[p.of(4)], p.of(4));
        let v = ver();
        let c = CURVE[w];
        let at = 1 + below(n as u8 - 1) as usize;
        let (t, _) = int(2, w % 2 == 1);
        let mut pts = vec![];
        for i in 0..n {
            let y = if w == 3 { cat!((mix(i, 400) as i32 - 100).to_string(), ".", (1 + mix(i + 9, 999) * 2).to_string()) } else { mix(i, 385).to_string() };
            pts.push((if i == at { t.clone() } else { (mix(i + 1, 700) as i32 - 60).to_string() }, y));
        }
        let text = cat!(pts[0].0, ",", pts[0].1, ",9,2,0,", c.0, "|", piped(&pts), ",", n.to_string(), ",10.25");
        let o = must!(parse(&text, v));
        let s = must!(slider(&o));
        chk!(s.curve_type == c.1 && s.slides == n as i32 && s.length == d("10.25"));
        chk!(pts_eq(&s.curve_points, if v == 3 { &pts[1..] } else { &pts[..] }));
        reach(1);
        chk!(must!(VersionedToString::to_string(&o, v)) == text);
    }
}
