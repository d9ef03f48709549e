//! Timing points: every field is the one written, defaults for omitted ones, layout of the version.
use crate::{base::*, sym::*};
use osu_file_parser::timingpoints::*;
use osu_file_parser::types::*;

pub fn d(s: &str) -> Decimal {
    Decimal::new(s.parse().unwrap())
}
/// fields of one point: texts and values
pub struct F {
    pub t: Vec<String>,
    pub meter: i32,
    pub set: i32,
    pub index: u32,
    pub volume: i32,
    pub uninh: bool,
    pub effects: u32,
}
pub fn fields(w: usize, easy: bool) -> F {
    let time = if easy { dec(4, 0, false) } else { decs(w) };
    let beat = decs(w + 1);
    let (mt, meter) = ints(if w % 2 == 0 { 0 } else { w });
    let (st, set) = if w % 3 == 2 { ints(w + 2) } else { let (t, x) = digit(6); (t, x as i32) };
    let (it, iv) = int([1, 3, 9, 2][w % 4], false);
    let (vt, volume) = ints([0, 1, 2][w % 3]);
    let (ut, u) = digit(2);
    let (et, ev) = int([1, 2, 9][w % 3], false);
    F { t: vec![time, beat, mt, st, it, vt, ut, et], meter, set, index: iv as u32, volume, uninh: u == 1, effects: ev as u32 }
}
/// a point with few symbolic digits
pub fn small(i: usize) -> F {
    let time = dec(3, 0, i % 2 == 1);
    let beat = dec(2, i % 2, i % 3 == 1);
    let (mt, meter) = int(1, false);
    let (it, iv) = int(1 + i % 2, false);
    let (vt, volume) = int(2, i % 4 == 3);
    let (et, ev) = int(1, false);
    let s = i % 5;
    let u = i % 2 == 0;
    let st = raw(vec![b'0' + s as u8]);
    F { t: vec![time, beat, mt, st, it, vt, if u { "1" } else { "0" }.to_string(), et], meter: meter as i32, set: s as i32, index: iv as u32, volume: volume as i32, uninh: u, effects: ev as u32 }
}
impl F {
    pub fn line(&self, n: usize) -> String {
        self.t[..n].join(",")
    }
    /// the parsed point has the values of the first n fields and the defaults for the others
    pub fn matches(&self, p: &TimingPoint, n: usize, v: u8) -> bool {
        let mut time = d(&self.t[0]);
        if v <= 4 {
            if let Some(x) = time.get_mut().as_mut().left() {
                *x += rust_decimal::Decimal::from(24);
            }
        }
        let set = if n > 3 { self.set } else { 1 };
        let index = if n > 4 { self.index } else { 1 };
        let set = match set {
            0 => SampleSet::BeatmapDefault,
            1 => SampleSet::Normal,
            2 => SampleSet::Soft,
            3 => SampleSet::Drum,
            x => SampleSet::Other(x),
        };
        let index = match std::num::NonZeroU32::new(index) {
            None => SampleIndex::OsuDefaultHitsounds,
            Some(x) => SampleIndex::Index(x),
        };
        let effects: Option<Effects> = if n > 7 { VersionedFrom::from(self.effects, v) } else { None };
        *p.time() == time
            && p.meter() == if n > 2 { self.meter } else { 4 }
            && p.sample_set() == set
            && p.sample_index() == index
            && p.volume().volume() == if n > 5 { self.volume } else { 100 }
            && p.uninherited() == if n > 6 { self.uninh } else { true }
            && p.effects().copied() == effects
    }
    /// printed line of a point read with n fields, without the time
    pub fn printed(&self, n: usize, v: u8) -> String {
        let mut f: Vec<&str> = vec![&self.t[1]];
        let dft = ["", "", "4", "1", "1", "100"];
        if v > 3 {
            for i in 2..5 {
                f.push(if i < n { &self.t[i] } else { dft[i] });
            }
        }
        if v > 4 {
            f.push(if n > 5 { &self.t[5] } else { dft[5] });
            for i in 6..n.max(6) {
                f.push(&self.t[i]);
            }
        }
        // only version 5 has points with the seventh field and not the eighth
        if v > 5 && n == 7 {
            f.push("0");
        }
        f.join(",")
    }
}
/// numbers of fields a version accepts
pub fn arity(v: u8, n: usize) -> bool {
    match v {
        3 => n == 2,
        4 => n == 5 || n == 6,
        5 => n >= 6 && n <= 8,
        _ => n == 6 || n == 8,
    }
}
use osu_file_parser::TimingPoints;

harnesses! {
    // one point, every number of fields, every version
    p07_point / p07_point__count (8 * 12) |p| {
        let mut p = Pick(p);
        let (n, w) = (p.of(7) + 2, p.of(12));
        let v = ver();
        assume(arity(v, n));
        let f = fields(w, v <= 4);
        let pt: TimingPoint = must!(must!(VersionedFromStr::from_str(&f.line(n), v).ok()));
        chk!(f.matches(&pt, n, v));
        let o = must!(VersionedToString::to_string(&pt, v));
        trace(&o);
        reach(1);
        chk!(o == cat!(f.t[0], ",", f.printed(n, v)));
        // printed by the newest version with every field
        let o = must!(VersionedToString::to_string(&pt, 14));
        let (_, rest) = must!(o.split_once(','));
        chk!(rest == f.printed(n, 14));
    }
    // four points, mixed shapes and line ends
    p07_list / p07_list__count (12) |p| {
        let v = ver();
        let mut text = String::new();
        let mut f = vec![];
        for i in 0..4 {
            let w = p as usize + i;
            let x = small(w);
            let n = match v { 3 => 2, 4 => 5 + i % 2, 5 => 6 + i % 3, _ => 6 + 2 * (i % 2) };
            text.push_str(&cat!(x.line(n), ["\n", "\r\n", "\n\n", "\n"][i]));
            f.push((x, n));
        }
        let l = must!(must!(<TimingPoints as VersionedFromStr>::from_str(&text, v).ok()));
        chk!(l.0.len() == 4);
        let mut exp = String::new();
        for (i, (x, n)) in f.iter().enumerate() {
            chk!(x.matches(&l.0[i], *n, v));
            if i > 0 { exp.push('\n'); }
            exp.push_str(&cat!(x.t[0], ",", x.printed(*n, v)));
        }
        let o = must!(VersionedToString::to_string(&l, v));
        trace(&o);
        reach(1);
        chk!(o == exp);
    }
    // 32-bit limits of every integer field
    p07_limit / p07_limit__count (8) |p| {
        let (t, x) = digit(10);
        let v = ver_in(6, 14);
        let k = p / 2;
        let neg = p % 2 == 1;
        let signed = cat!(if neg { "-" } else { "" }, "214748364", t);
        let unsigned = cat!(if neg { "-" } else { "" }, "429496729", t);
        let text = match k {
            0 => cat!("1,2,", signed, ",1,0,50,1,0"),
            1 => cat!("1,2,4,", signed, ",0,50,1,0"),
            2 => cat!("1,2,4,1,0,", signed, ",1,0"),
            _ => if v % 2 == 0 { cat!("1,2,4,1,", unsigned, ",50,1,0") } else { cat!("1,2,4,1,0,50,1,", unsigned) },
        };
        let ok = if k < 3 { x <= 7 + neg as u8 } else { !neg && x <= 5 };
        let r = <TimingPoint as VersionedFromStr>::from_str(&text, v);
        reach(1);
        match r {
            Ok(p) => {
                chk!(ok);
                chk!(VersionedToString::to_string(&p.unwrap(), v) == Some(text));
            }
            Err(e) => {
                chk!(!ok);
                use ParseTimingPointError as E;
                chk!(match k {
                    0 => matches!(e, E::InvalidMeter),
                    1 => matches!(e, E::InvalidSampleSet),
                    2 => matches!(e, E::InvalidVolume),
                    _ => matches!(e, E::InvalidSampleIndex | E::InvalidEffects),
                });
            }
        }
    }
    // one arbitrary byte in place of an integer field is accepted only if it is a digit
    p07_byte / p07_byte__count (6) |p| {
        let b = word(1, |b| b > 0x20 && b < 0x7f && b != b',');
        let k = b.as_bytes()[0];
        let v = ver_in(5, 14);
        let mut f = ["1", "2", "4", "1", "0", "50", "1", "0"];
        f[2 + p as usize] = &b;
        let r = <TimingPoint as VersionedFromStr>::from_str(&f.join(","), v);
        reach(1);
        use ParseTimingPointError as E;
        match r {
            Ok(_) => chk!(if p == 4 { k == b'0' || k == b'1' } else { k.is_ascii_digit() }),
            Err(e) => {
                chk!(if p == 4 { k != b'0' && k != b'1' } else { !k.is_ascii_digit() });
                chk!(match p {
                    0 => matches!(e, E::InvalidMeter),
                    1 => matches!(e, E::InvalidSampleSet),
                    2 => matches!(e, E::InvalidSampleIndex),
                    3 => matches!(e, E::InvalidVolume),
                    4 => matches!(e, E::InvalidUninherited),
                    _ => matches!(e, E::InvalidEffects),
                });
            }
        }
    }
    // a line cut after any number of fields is accepted exactly at the versions that allow it
    p07_missing / p07_missing__count (9) |p| {
        let v = ver();
        let f = ["1", "2", "4", "1", "0", "50", "1", "0", "9"];
        let n = p as usize + 1;
        let r = <TimingPoint as VersionedFromStr>::from_str(&f[..n].join(","), v);
        reach(1);
        // version 3 takes everything after the time as the beat length
        let ok = if v == 3 { n >= 2 } else { arity(v, n) };
        chk!(r.is_ok() == (ok && (n <= 8 || v == 3)));
    }

    // long lists
    p07_long / p07_long__count (4 * 4) |p| {
        let mut p = Pick(p);
        let (n, era) = (LONG[p.of(4)], p.of(4));
        let v = match era { 0 => 3, 1 => 4, 2 => 5, _ => ver_in(6, 14) };
        let x = small(n);
        let at = below(n as u8) as usize;
        let mut text = String::new();
        let mut exp = String::new();
        let mut f = vec![];
        for i in 0..n {
            let a = match v { 3 => 2, 4 => 5 + mix(i, 2), 5 => 6 + mix(i, 3), _ => 6 + 2 * mix(i, 2) };
            let g = if i == at {
                F { t: x.t.clone(), meter: x.meter, set: x.set, index: x.index, volume: x.volume, uninh: x.uninh, effects: x.effects }
            } else {
                let (m, s, ix, vo, u, e) = (mix(i, 7), mix(i + 1, 5), mix(i + 2, 30), mix(i + 3, 101), mix(i + 4, 2), mix(i + 5, 16));
                F {
                    t: vec![mix(i + 6, 100000).to_string(), (mix(i + 7, 1000) as i32 - 400).to_string(), m.to_string(), s.to_string(), ix.to_string(), vo.to_string(), u.to_string(), e.to_string()],
                    meter: m as i32, set: s as i32, index: ix as u32, volume: vo as i32, uninh: u == 1, effects: e as u32,
                }
            };
            text.push_str(&cat!(g.line(a), ["\n", "\r\n", "\n\n", "\n"][mix(i, 4)]));
            if i > 0 { exp.push('\n'); }
            exp.push_str(&cat!(g.t[0], ",", g.printed(a, v)));
            f.push((g, a));
        }
        let l = must!(must!(<TimingPoints as VersionedFromStr>::from_str(&text, v).ok()));
        chk!(l.0.len() == n);
        for (i, (g, a)) in f.iter().enumerate() {
            chk!(g.matches(&l.0[i], *a, v));
        }
        let o = must!(VersionedToString::to_string(&l, v));
        reach(1);
        chk!(o == exp);
    }
}
