//! Tempo: beat length, BPM and slider velocity.
use crate::{base::*, p24::text, sym::*};
use osu_file_parser::timingpoints::*;
use osu_file_parser::types::*;
use rust_decimal::Decimal as Raw;

/// x is num / den up to rounding: 18 digits, or 22 places
fn near(x: Raw, num: i128, den: i128) -> bool {
    let p = 10i128.wrapping_pow(x.scale());
    let want = num.wrapping_mul(p);
    let diff = x.mantissa().wrapping_mul(den).wrapping_sub(want).wrapping_abs();
    let places = den.wrapping_abs().wrapping_mul((p / 10i128.wrapping_pow(22)).wrapping_add(1));
    diff <= places.wrapping_add(want.wrapping_abs() / 10i128.wrapping_pow(18))
}
/// numbers with few symbolic digits: text, mantissa, scale
const N: usize = 18;
fn number(w: usize) -> (String, i64, u32) {
    let (a, x) = digit(10);
    let x = x as i64;
    match w {
        0 => (a, x, 0),
        1 => (cat!(a, "00"), x * 100, 0),
        2 => (cat!("33", a, ".33"), 33033 + x * 100, 2),
        3 => (cat!("0.", a, "5"), x * 10 + 5, 2),
        4 => (cat!("1", a), 10 + x, 0),
        5 => (cat!("461.5384", a), 46153840 + x, 5),
        6 => (cat!(a, "000000"), x * 1000000, 0),
        7 => (cat!("100", a, ".0"), 10000 + x * 10, 1),
        _ => {
            let y = (w - 8) as i64;
            (cat!(a, y.to_string()), x * 10 + y, 0)
        }
    }
}
fn minus(neg: bool, n: (String, i64, u32)) -> (String, i64, u32) {
    if neg {
        (cat!("-", n.0), -n.1, n.2)
    } else {
        n
    }
}
fn point(s: &str, v: u8) -> Option<TimingPoint> {
    VersionedFromStr::from_str(s, v).ok()?
}
/// the same point from the constructor
fn made(beat: &str) -> TimingPoint {
    TimingPoint::new_uninherited(5, Decimal::from(beat), 4, SampleSet::Normal, index(), volume(), effects())
}
fn index() -> SampleIndex {
    VersionedFrom::from(1u32, 14).unwrap()
}
fn volume() -> Volume {
    VersionedFrom::from(60, 14).unwrap()
}
fn effects() -> Effects {
    VersionedFrom::from(0u32, 14).unwrap()
}
/// tempo and velocity of a point whose beat length is m / 10^f
fn check_bpm(x: &TimingPoint, m: i64, f: u32) {
    match x.calc_bpm() {
        Some(b) => chk!(m != 0 && near(b, 60000 * 10i128.wrapping_pow(f), m as i128)),
        None => chk!(m == 0),
    }
    chk!(x.calc_slider_velocity_multiplier().is_none());
}
fn check_sv(x: &TimingPoint, m: i64, f: u32) {
    match x.calc_slider_velocity_multiplier() {
        Some(b) => chk!(m != 0 && near(b, -100 * 10i128.wrapping_pow(f), m as i128)),
        None => chk!(m == 0),
    }
    chk!(x.calc_bpm().is_none());
}

harnesses! {
    p27_point / p27_point__count (N * 2 * 5) |p| {
        let mut p = Pick(p);
        let (w, neg, k) = (p.of(N), p.of(2) == 1, p.of(5));
        let (t, m, f) = minus(neg, number(w));
        reach(1);
        match k {
            0 => check_bpm(&must!(point(&cat!("5,", t, ",4,1,1,60,1,0"), 14)), m, f),
            1 => check_bpm(&made(&t), m, f),
            // without the field, the point is uninherited
            2 => check_bpm(&must!(point(&cat!("5,", t), 3)), m, f),
            3 => check_bpm(&must!(point(&cat!("5,", t, ",4,1,1,60"), 4)), m, f),
            _ => check_sv(&must!(point(&cat!("5,", t, ",4,1,1,60,0,0"), 14)), m, f),
        }
    }
    // changing the flag changes which of the two is there
    p27_flag / p27_flag__count (2 * 3) |p| {
        let mut p = Pick(p);
        let (w, k) = (p.of(2) * 7, p.of(3));
        let (t, m, f) = minus(true, number(w));
        let mut x = match k {
            0 => must!(point(&cat!("5,", t, ",4,1,1,60"), 14)),
            1 => must!(point(&cat!("5,", t, ",4,1,1,60,0,0"), 14)),
            _ => made(&t),
        };
        reach(1);
        for _ in 0..2 {
            let u = flag();
            x.set_uninherited(u);
            chk!(x.uninherited() == u);
            if u { check_bpm(&x, m, f) } else { check_sv(&x, m, f) }
        }
    }
    // a point made from a velocity has it
    p27_new / p27_new__count (N * 2) |p| {
        let mut p = Pick(p);
        let (w, neg) = (p.of(N), p.of(2) == 1);
        let (t, m, f) = minus(neg, number(w));
        assume(m != 0);
        let x = TimingPoint::new_inherited(7, Raw::new(m, f), 3, SampleSet::Soft, index(), volume(), effects());
        reach(1);
        chk!(!x.uninherited() && x.meter() == 3 && x.sample_set() == SampleSet::Soft && x.sample_index() == index() && *x.volume() == volume());
        chk!(*x.time() == Decimal::from(7) && x.effects() == Some(&effects()));
        chk!(x.calc_bpm().is_none());
        chk!(near(must!(x.calc_slider_velocity_multiplier()), m as i128, 10i128.wrapping_pow(f)));
        // and is written with the beat length it means
        let s = must!(VersionedToString::to_string(&x, 14));
        trace(&t);
        trace(&s);
        let b: Raw = must!(must!(s.split(',').nth(1)).parse().ok());
        chk!(near(b, -100 * 10i128.wrapping_pow(f), m as i128));
        let y = must!(point(&s, 14));
        chk!(y == x);
    }
    // a point made from a tempo has it
    p27_tempo / p27_tempo__count (N) |p| {
        let (_, m, f) = number(p as usize);
        assume(m != 0);
        let beat = TimingPoint::bpm_to_beat_duration_ms(Raw::new(m, f));
        reach(1);
        chk!(near(beat, 60000 * 10i128.wrapping_pow(f), m as i128));
        let x = TimingPoint::new_uninherited(7, beat.into(), 3, SampleSet::Soft, index(), volume(), effects());
        chk!(x.uninherited() && x.meter() == 3 && x.sample_set() == SampleSet::Soft && x.sample_index() == index() && *x.volume() == volume());
        chk!(*x.time() == Decimal::from(7) && x.effects() == Some(&effects()));
        chk!(x.calc_slider_velocity_multiplier().is_none());
        let bpm = must!(x.calc_bpm());
        chk!((bpm - Raw::new(m, f)).abs() <= Raw::new(1, 14));
        chk!(bpm == TimingPoint::beat_duration_ms_to_bpm(beat));
    }
    p27_convert / p27_convert__count (N) |p| {
        let (_, m, f) = number(p as usize);
        assume(m != 0);
        let bpm = TimingPoint::beat_duration_ms_to_bpm(Raw::new(m, f));
        reach(1);
        chk!(near(bpm, 60000 * 10i128.wrapping_pow(f), m as i128));
        chk!((TimingPoint::bpm_to_beat_duration_ms(bpm) - Raw::new(m, f)).abs() <= Raw::new(1, 14));
    }
    // no number, no tempo
    p27_text / p27_text__count (9) |p| {
        let t = text(p as usize);
        reach(1);
        let x = made(&t);
        chk!(x.calc_bpm().is_none() && x.calc_slider_velocity_multiplier().is_none());
        let x = must!(point(&cat!("5,", t, ",4,1,1,60,0,0"), 14));
        chk!(x.calc_bpm().is_none() && x.calc_slider_velocity_multiplier().is_none());
    }
}
