//! Hit objects: position, time, type bits, hit sounds.
use crate::{base::*, p07::d, sym::*};
use osu_file_parser::hitobjects::*;
use osu_file_parser::types::*;
use osu_file_parser::HitObjects;

pub fn shifted(t: &str, v: u8) -> Decimal {
    let mut x = d(t);
    if v <= 4 {
        if let Some(x) = x.get_mut().as_mut().left() {
            *x += rust_decimal::Decimal::from(24);
        }
    }
    x
}
/// the kind a type value denotes: circle, slider, spinner, hold
pub fn kind_of(t: u8) -> usize {
    if t & 1 != 0 {
        0
    } else if t & 2 != 0 {
        1
    } else if t & 8 != 0 {
        2
    } else if t & 128 != 0 {
        3
    } else {
        4
    }
}
const BIT: [u8; 4] = [1, 2, 8, 128];
pub fn tail(k: usize, v: u8, x: &str, y: &str) -> String {
    match k {
        0 => if v == 3 { "," } else { "" }.to_string(),
        1 => if v == 3 { cat!(",L|", x, ":", y, "|5:6,1,10") } else { cat!(",L|5:6,1,10") },
        2 => ",700".to_string(),
        _ => cat!(",800:", no_sample(v)),
    }
}
/// the empty hit sample as the version prints it
pub fn no_sample(v: u8) -> &'static str {
    match v {
        3..=9 => "",
        10..=11 => "0:0:0",
        _ => "0:0:0:0:",
    }
}
/// symbolic 8-bit decimal
pub fn u8t(n: usize) -> (String, u8) {
    let (t, x) = int(n, false);
    assume(x <= 255);
    (t, x as u8)
}
pub fn parse(s: &str, v: u8) -> Option<HitObject> {
    VersionedFromStr::from_str(s, v).ok().flatten()
}

harnesses! {
    // all type bytes and all hit sound bytes, every kind and version
    p08_type / p08_type__count (4 * 3) |p| {
        let mut p = Pick(p);
        let (k, n) = (p.of(4), p.of(3));
        let v = ver();
        let (tt, t) = u8t(n + 1);
        assume(kind_of(t) == k);
        let text = cat!("64,192,3000,", tt, ",0", tail(k, v, "64", "192"));
        let o = must!(parse(&text, v));
        chk!(match (&o.obj_params, k) {
            (HitObjectParams::HitCircle, 0) => true,
            (HitObjectParams::Slider(s), 1) => s.curve_type == CurveType::Linear && s.slides == 1 && s.curve_points.len() == 1,
            (HitObjectParams::Spinner { end_time }, 2) => *end_time == shifted("700", v),
            (HitObjectParams::OsuManiaHold { end_time }, 3) => *end_time == shifted("800", v),
            _ => false,
        });
        chk!(o.new_combo == (t & 4 != 0));
        chk!(o.combo_skip_count.get() == (t >> 4) & 7);
        reach(1);
        let s = must!(VersionedToString::to_string(&o, v));
        trace(&s);
        let back = must!(parse(&s, v));
        chk!(back == o || (k == 0 && v == 3));
        chk!(back.new_combo == o.new_combo && back.combo_skip_count == o.combo_skip_count && back.obj_params == o.obj_params);
        // with a single kind bit the type is printed as written
        if t & 0x8b == BIT[k] {
            chk!(s == text);
        }
    }
    p08_sound / p08_sound__count (4 * 3) |p| {
        let mut p = Pick(p);
        let (k, n) = (p.of(4), p.of(3));
        let v = ver();
        let (ht, h) = u8t(n + 1);
        let ty = ["1", "2", "8", "128"][k];
        let text = cat!("64,192,3000,", ty, ",", ht, tail(k, v, "64", "192"));
        let o = must!(parse(&text, v));
        chk!(o.hitsound == HitSound::new(h & 1 != 0, h & 2 != 0, h & 4 != 0, h & 8 != 0));
        chk!(o.hitsound.normal() == (h & 1 != 0 || h & 15 == 0) && o.hitsound.whistle() == (h & 2 != 0));
        chk!(o.hitsound.finish() == (h & 4 != 0) && o.hitsound.clap() == (h & 8 != 0));
        reach(1);
        let s = must!(VersionedToString::to_string(&o, v));
        trace(&s);
        if h < 16 {
            chk!(s == text);
        } else {
            chk!(must!(parse(&s, v)).hitsound == o.hitsound);
        }
    }
    // positions and times of every kind
    p08_place / p08_place__count (4 * 5) |p| {
        let mut p = Pick(p);
        let (k, w) = (p.of(4), p.of(5));
        let v = ver();
        let (x, y) = (decs(w), decs(w + 1));
        let t = if v <= 4 { dec(3, 0, false) } else { decs(w + 2) };
        let ty = ["5", "18", "8", "132"][k];
        let text = cat!(x, ",", y, ",", t, ",", ty, ",2", tail(k, v, &x, &y));
        let o = must!(parse(&text, v));
        chk!(o.position == Position { x: d(&x), y: d(&y) });
        chk!(o.time == shifted(&t, v));
        chk!(o.new_combo == (k == 0 || k == 3) && o.combo_skip_count.get() == (k == 1) as u8);
        reach(1);
        let s = must!(VersionedToString::to_string(&o, v));
        trace(&s);
        chk!(s == text);
    }
    // lists keep order and kinds
    p08_list / p08_list__count (64) |p| {
        let mut p = Pick(p);
        let v = ver();
        let mut ks = vec![];
        for _ in 0..3 { ks.push(p.of(4)); }
        let ks = [ks[0], ks[1], ks[2], (ks[0] + 1) % 4];
        let mut text = String::new();
        let mut exp = vec![];
        for (i, k) in ks.iter().enumerate() {
            let (x, t) = (int(2, false).0, int(3, false).0);
            let (hs, _) = digit(10);
            let l = cat!(x, ",9,", t, ",", ["1", "6", "12", "128"][*k], ",", hs, tail(*k, v, &x, "9"));
            text.push_str(&l);
            text.push_str(["\n", "\r\n", "\n\n", ""][i]);
            exp.push((l, *k, x, t));
        }
        let l = must!(must!(<HitObjects as VersionedFromStr>::from_str(&text, v).ok()));
        chk!(l.0.len() == 4);
        for (i, (_, k, x, t)) in exp.iter().enumerate() {
            let o = &l.0[i];
            chk!(o.position.x == d(x) && o.time == shifted(t, v));
            chk!(match &o.obj_params {
                HitObjectParams::HitCircle => *k == 0,
                HitObjectParams::Slider(_) => *k == 1,
                HitObjectParams::Spinner { .. } => *k == 2,
                HitObjectParams::OsuManiaHold { .. } => *k == 3,
                _ => false,
            });
        }
        reach(1);
        let o = must!(VersionedToString::to_string(&l, v));
        trace(&o);
        let e: Vec<String> = exp.into_iter().map(|e| e.0).collect();
        chk!(o == e.join("\n"));
    }
    // rejected: no kind bit, hit sound above 255, non-digits, missing fields
    p08_bad / p08_bad__count (9) |p| {
        let v = ver();
        use ParseHitObjectError as E;
        let r = |s: &str| -> Result<Option<HitObject>, E> { VersionedFromStr::from_str(s, v) };
        reach(1);
        match p {
            0..=2 => {
                let (t, x) = u8t(p as usize + 1);
                assume(kind_of(x) == 4);
                chk!(matches!(r(&cat!("1,2,3,", t, ",0")), Err(E::UnknownObjType)));
            }
            3 => {
                let (t, x) = int(3, false);
                let q = r(&cat!("1,2,3,1,", t));
                chk!(if x <= 255 { q.is_ok() } else { matches!(q, Err(E::InvalidHitSound)) });
            }
            4 => {
                let b = word(1, |b| b > 0x20 && b < 0x7f && b != b',');
                let q = r(&cat!("1,2,3,", b, ",0"));
                let k = b.as_bytes()[0];
                chk!(match q {
                    Ok(_) => matches!(k, b'1' | b'3' | b'5' | b'7' | b'9'),
                    Err(E::InvalidObjType) => !k.is_ascii_digit(),
                    Err(_) => matches!(k, b'0' | b'2' | b'4' | b'6' | b'8'),
                });
            }
            5 => {
                let b = word(1, |b| b > 0x20 && b < 0x7f && b != b',');
                let q = r(&cat!("1,2,3,1,", b));
                chk!(q.is_ok() == b.as_bytes()[0].is_ascii_digit());
            }
            6 => chk!(matches!(r("1"), Err(E::MissingY))),
            7 => chk!(matches!(r("1,2"), Err(E::MissingTime)) && matches!(r("1,2,3"), Err(E::MissingObjType))),
            _ => chk!(matches!(r("1,2,3,1"), Err(E::MissingHitSound)) && matches!(r("1,2,3,8,0"), Err(E::MissingEndTime))),
        }
    }

    // long lists
    p08_long / p08_long__count (4 * 3) |p| {
        let mut p = Pick(p);
        let (n, era) = (LONG[p.of(4)], p.of(3));
        let v = match era { 0 => 3, 1 => 4, _ => ver_in(5, 14) };
        let (t, _) = int(2, false);
        let at = below(n as u8) as usize;
        let mut lines = vec![];
        let mut f = vec![];
        let mut text = String::new();
        for i in 0..n {
            let k = mix(i, 4);
            let x = mix(i + 1, 513).to_string();
            let time = if i == at { t.clone() } else { mix(i + 2, 300000).to_string() };
            let (combo, h) = (mix(i + 3, 2) * 4 + mix(i + 4, 8) * 16, mix(i + 5, 16));
            let l = cat!(x, ",9,", time, ",", (BIT[k] as usize + combo).to_string(), ",", h.to_string(), tail(k, v, &x, "9"));
            text.push_str(&cat!(l, ["\n", "\r\n", "\n\n", "\n"][mix(i, 4)]));
            lines.push(l);
            f.push((k, x, time, combo, h));
        }
        let l = must!(must!(<HitObjects as VersionedFromStr>::from_str(&text, v).ok()));
        chk!(l.0.len() == n);
        for (o, (k, x, t, combo, h)) in l.0.iter().zip(&f) {
            chk!(o.position == Position { x: d(x), y: d("9") } && o.time == shifted(t, v));
            chk!(match &o.obj_params {
                HitObjectParams::HitCircle => *k == 0,
                HitObjectParams::Slider(_) => *k == 1,
                HitObjectParams::Spinner { .. } => *k == 2,
                HitObjectParams::OsuManiaHold { .. } => *k == 3,
                _ => false,
            });
            chk!(o.new_combo == (combo & 4 != 0) && o.combo_skip_count.get() as usize == combo >> 4);
            chk!(o.hitsound == HitSound::new(h & 1 != 0, h & 2 != 0, h & 4 != 0, h & 8 != 0));
        }
        let o = must!(VersionedToString::to_string(&l, v));
        reach(1);
        chk!(o == lines.join("\n"));
    }
}
