//! Decimals: canonical literals are kept digit for digit, others as their text, in every field that takes one.
use crate::{base::*, p13::cmd, sym::*};
use osu_file_parser::events::storyboard::cmds::*;
use osu_file_parser::events::storyboard::sprites::*;
use osu_file_parser::events::Event;
use osu_file_parser::hitobjects::*;
use osu_file_parser::types::*;
use osu_file_parser::*;
use rust_decimal::Decimal as Raw;
use Group::*;

#[derive(Clone, Copy, PartialEq)]
enum Group {
    Obj,
    Time,
    Eve,
    Com,
    Gen,
    Edi,
    Dif,
}
/// where a literal can stand (`@`), the number of the field in its group, first version, carries the time offset
type Slot = (Group, &'static str, usize, u8, bool);
const SLOTS: &[Slot] = &[
    (Obj, "@,2,30,1,0", 0, 4, false),
    (Obj, "1,@,30,5,2", 1, 4, false),
    (Obj, "1,2,@,1,0", 2, 4, true),
    (Obj, "1,2,@,12,0,9", 2, 3, true),
    (Obj, "@,-7,3,2,0,B|1:2,1,9", 0, 4, false),
    (Obj, "1,@,3,2,0,P|1:2,1,9", 1, 4, false),
    (Obj, "1,2,3,2,0,L|@:4|5:6,1,10", 3, 4, false),
    (Obj, "1,2,3,2,0,C|3:4|5:@,1,10", 6, 4, false),
    (Obj, "1,2,3,2,0,B|3:@|5:6,2,10", 4, 4, false),
    (Obj, "1,2,3,2,0,L|3:4,1,@", 7, 4, false),
    (Obj, "1,2,3,2,0,L|3:4,1,@,0|2,0:0|1:2", 7, 4, false),
    (Obj, "1,2,3,8,0,@", 8, 3, true),
    (Obj, "1,2,3,128,0,@:", 8, 3, true),
    (Time, "@,2,4,1,0,60,1,9", 0, 5, true),
    (Time, "5,@,4,1,0,60,1,9", 1, 5, false),
    (Time, "@,2,4,1,0,60", 0, 4, true),
    (Time, "5,@,4,1,0", 1, 4, false),
    (Eve, "0,0,b.png,@,2", 0, 3, false),
    (Eve, "0,0,b.png,1,@", 1, 3, false),
    (Eve, "Video,0,b.avi,@,2", 2, 3, false),
    (Eve, "1,0,b.avi,1,@", 3, 3, false),
    (Eve, "4,0,1,s.png,@,2", 4, 3, false),
    (Eve, "4,0,1,s.png,1,@", 5, 3, false),
    (Eve, "5,0,1,s.png,@,2", 6, 3, false),
    (Eve, "5,0,1,s.png,1,@", 7, 3, false),
    (Eve, "6,@,2,h.wav,70", 8, 3, false),
    (Eve, "Sprite,Pass,Centre,s.png,@,2", 9, 3, false),
    (Eve, "Sprite,Pass,Centre,s.png,1,@", 10, 3, false),
    (Eve, "Animation,Pass,Centre,s.png,@,2,3,4,LoopOnce", 9, 3, false),
    (Eve, "Animation,Pass,Centre,s.png,1,@,3,4", 10, 3, false),
    (Com, "F,0,1,2,@", 0, 3, false),
    (Com, "F,0,1,2,0,@,1", 1, 3, false),
    (Com, "S,0,1,,@", 0, 3, false),
    (Com, "S,0,1,,1,@", 1, 3, false),
    (Com, "R,0,1,2,@", 0, 3, false),
    (Com, "R,0,1,2,@,2", 0, 3, false),
    (Com, "R,0,1,2,3,@", 1, 3, false),
    (Com, "MX,0,1,2,@", 0, 3, false),
    (Com, "MX,0,1,2,3,@", 1, 3, false),
    (Com, "MY,0,1,2,@", 0, 3, false),
    (Com, "MY,0,1,2,3,@", 1, 3, false),
    (Com, "M,0,1,2,@,4", 0, 3, false),
    (Com, "M,0,1,2,4,@", 1, 3, false),
    (Com, "M,0,1,2,4,5,@", 2, 3, false),
    (Com, "M,0,1,2,4,5,6,@", 3, 3, false),
    (Com, "V,0,1,2,@,4", 0, 3, false),
    (Com, "V,0,1,2,4,@", 1, 3, false),
    (Com, "V,0,1,2,4,5,@", 2, 3, false),
    (Com, "V,0,1,2,4,5,6,@,8", 3, 3, false),
    (Gen, "StackLeniency: @", 0, 3, false),
    (Gen, "EditorDistanceSpacing: @", 1, 3, false),
    (Edi, "DistanceSpacing: @", 0, 3, false),
    (Edi, "BeatDivisor: @", 1, 3, false),
    (Edi, "TimelineZoom: @", 2, 3, false),
    (Dif, "HPDrainRate:@", 0, 3, false),
    (Dif, "CircleSize:@", 1, 3, false),
    (Dif, "OverallDifficulty:@", 2, 3, false),
    (Dif, "ApproachRate:@", 3, 3, false),
    (Dif, "SliderMultiplier:@", 4, 3, false),
    (Dif, "SliderTickRate:@", 5, 3, false),
];
/// the field of the slot in the parsed text, and the text printed
fn run(s: &Slot, text: &str, v: u8) -> Option<(Decimal, String)> {
    Some(match s.0 {
        Obj => {
            let h: HitObject = VersionedFromStr::from_str(text, v).ok()??;
            let out = VersionedToString::to_string(&h, v)?;
            let f = match (s.2, h.obj_params) {
                (0, _) => h.position.x,
                (1, _) => h.position.y,
                (2, _) => h.time,
                (7, HitObjectParams::Slider(x)) => x.length,
                (8, HitObjectParams::Spinner { end_time } | HitObjectParams::OsuManiaHold { end_time }) => end_time,
                (k, HitObjectParams::Slider(x)) => {
                    let c = x.curve_points.get((k - 3) / 2)?;
                    if k % 2 == 1 { c.0.x.clone() } else { c.0.y.clone() }
                }
                _ => return None,
            };
            (f, out)
        }
        Time => {
            let h: timingpoints::TimingPoint = VersionedFromStr::from_str(text, v).ok()??;
            let out = VersionedToString::to_string(&h, v)?;
            // the beat length has no accessor
            (if s.2 == 0 { h.time().clone() } else { return Some((Decimal::new_from_str("\0"), out)) }, out)
        }
        Eve => {
            let e: Events = VersionedFromStr::from_str(text, v).ok()??;
            let out = VersionedToString::to_string(&e, v)?;
            let pos = match (s.2, e.0.into_iter().next()?) {
                (8, Event::SampleLegacy(x)) => return Some((x.time, out)),
                (0 | 1, Event::Background(x)) => x.position,
                (2 | 3, Event::Video(x)) => x.position,
                (4 | 5, Event::SpriteLegacy(x)) => x.position,
                (6 | 7, Event::AnimationLegacy(x)) => x.position,
                (9, Event::StoryboardObject(x)) => return Some((x.position.x, out)),
                (10, Event::StoryboardObject(x)) => return Some((x.position.y, out)),
                _ => return None,
            }?;
            (if s.2 % 2 == 0 { pos.x } else { pos.y }, out)
        }
        Com => {
            let c = cmd(text, v)?;
            let out = VersionedToString::to_string(&c, v)?;
            use CommandProperties::*;
            let f = match c.properties {
                Fade { start_opacity: a, continuing_opacities: b, .. }
                | Scale { start_scale: a, continuing_scales: b, .. }
                | Rotate { start_rotation: a, continuing_rotations: b, .. }
                | MoveX { start_x: a, continuing_x: b, .. }
                | MoveY { start_y: a, continuing_y: b, .. } => {
                    if s.2 == 0 { a } else { b[0].clone() }
                }
                Move { positions_xy: f, .. } | VectorScale { scales_xy: f, .. } => {
                    let (x, y) = f.start_values().clone();
                    match s.2 {
                        0 => x,
                        1 => y,
                        2 => f.continuing_fields().first()?.0.clone(),
                        _ => f.continuing_fields().first()?.1.clone()?,
                    }
                }
                _ => return None,
            };
            (f, out)
        }
        Gen => {
            let g = General::from_str(text, v).ok()??;
            let out = g.to_string(v)?;
            (if s.2 == 0 { g.stack_leniency?.into() } else { g.editor_distance_spacing?.into() }, out)
        }
        Edi => {
            let g = Editor::from_str(text, v).ok()??;
            let out = g.to_string(v)?;
            (if s.2 == 0 { g.distance_spacing?.into() } else if s.2 == 1 { g.beat_divisor?.into() } else { g.timeline_zoom?.into() }, out)
        }
        Dif => {
            let g = Difficulty::from_str(text, v).ok()??;
            let out = g.to_string(v)?;
            let f = match s.2 {
                0 => g.hp_drain_rate?.into(),
                1 => g.circle_size?.into(),
                2 => g.overall_difficulty?.into(),
                3 => g.approach_rate?.into(),
                4 => g.slider_multiplier?.into(),
                _ => g.slider_tickrate?.into(),
            };
            (f, out)
        }
    })
}
/// the text of the slot with the literal in it
fn fill(t: &str, lit: &str) -> String {
    let at = t.find('@').unwrap_or(0);
    cat!(t[..at], lit, t[at + 1..])
}
/// a number: text, mantissa, scale
fn number(n: usize, f: usize, neg: bool) -> (String, i64, u32) {
    let (mut t, i) = int(n, neg);
    let mut m = i.abs();
    if f > 0 {
        t.push('.');
        for b in digits(f) {
            t.push(b as char);
            m = m * 10 + (b - b'0') as i64;
        }
    }
    (t, if neg { -m } else { m }, f as u32)
}
/// below one: -0.ddd
fn small(f: usize) -> (String, i64, u32) {
    let mut t = "-0.".to_string();
    let mut m = 0;
    for b in digits(f) {
        t.push(b as char);
        m = m * 10 + (b - b'0') as i64;
    }
    assume(m > 0);
    (t, -m, f as u32)
}
const NUM: [(usize, usize, bool); 10] = [(1, 0, false), (1, 1, false), (3, 2, true), (6, 0, true), (1, 6, false), (8, 0, false), (4, 4, true), (0, 3, true), (2, 1, true), (3, 0, false)];
fn is_number(x: &Decimal, m: i64, f: u32) -> bool {
    x.get().as_ref().left().map_or(false, |x| *x == Raw::new(m, f) && x.scale() == f)
}
fn is_text(x: &Decimal, t: &str) -> bool {
    x.get().as_ref().right().map_or(false, |x| x == t)
}
fn no_digit(b: u8) -> bool {
    plain(b) && !b.is_ascii_digit()
}
fn no_number(b: u8) -> bool {
    no_digit(b) && b != b'.' && b != b'_'
}
/// text that is no number
const NTEXT: usize = 9;
pub fn text(w: usize) -> String {
    match w % NTEXT {
        0 => word(1, no_digit),
        1 => word(2, no_digit),
        2 => cat!(digit(10).0, word(1, no_number)),
        3 => cat!(word(1, |b| no_number(b) && b != b'-' && b != b'+'), digit(10).0),
        4 => cat!(digit(10).0, ".", digit(10).0, ".", digit(10).0),
        5 => cat!("--", digit(10).0),
        6 => cat!(digit(10).0, "e", digit(10).0),
        7 => "é".to_string(),
        _ => cat!(digit(10).0, "/", digit(10).0, word(1, no_number)),
    }
}
const SMALL: usize = SLOTS.len();

/// in the slot, the literal is printed where `@` is, and read as told
fn keeps(s: &Slot, v: u8, lit: &str, same: impl Fn(&Decimal) -> bool) {
    let (hole, frame) = must!(run(s, s.1, v));
    let hidden = is_text(&hole, "\0");
    chk!(hidden || is_text(&hole, "@"));
    let (x, out) = must!(run(s, &fill(s.1, lit), v));
    trace(lit);
    trace(&out);
    reach(1);
    chk!(hidden || same(&x));
    chk!(frame.contains('@'));
    chk!(out == fill(&frame, lit));
}
fn plus(x: &Decimal, by: i64) -> Decimal {
    match x.get().as_ref().left() {
        Some(x) => Decimal::new(*x - Raw::from(by)),
        None => x.clone(),
    }
}
fn at(s: &Slot) -> u8 {
    // layouts that only old versions have
    let hi = match (s.0, s.2) {
        (Time, 1) if s.3 < 5 => 4,
        (Gen, 1) => 5,
        _ => 14,
    };
    ver_in(s.3, hi)
}
const LONG: [(usize, usize, bool); 4] = [(10, 0, false), (1, 8, true), (5, 5, false), (9, 1, true)];
fn numbers(p: u32, shapes: &[(usize, usize, bool)]) {
    let mut p = Pick(p);
    let (i, w) = (p.of(SMALL), p.of(shapes.len()));
    let s = &SLOTS[i];
    let v = at(s);
    let (n, f, neg) = shapes[w];
    if s.4 && v <= 4 && (n > 3 || neg || f > 0) {
        reach(1);
        return;
    }
    let (t, m, f) = if n == 0 { small(f) } else { number(n, f, neg) };
    let by = if s.4 && v <= 4 { 24 } else { 0 };
    keeps(s, v, &t, |x| if by == 0 { is_number(x, m, f) } else { is_number(&plus(x, by), m, f) });
}

harnesses! {
    p24_number / p24_number__count (SMALL * NUM.len()) |p| { numbers(p, &NUM) }
    p24t_number / p24t_number__count (SMALL * LONG.len()) |p| { numbers(p, &LONG) }
    p24_text / p24_text__count (SMALL * NTEXT) |p| {
        let mut p = Pick(p);
        let (i, w) = (p.of(SMALL), p.of(NTEXT));
        let s = &SLOTS[i];
        let v = at(s);
        let t = text(w);
        keeps(s, v, &t, |x| is_text(x, &t));
    }
    // the number type's limits
    p24_wide / p24_wide__count (SMALL * 4) |p| {
        let mut p = Pick(p);
        let (i, w) = (p.of(SMALL), p.of(4));
        let s = &SLOTS[i];
        let v = at(s);
        if s.4 && v <= 4 {
            reach(1);
            return;
        }
        let (c, n) = digit(if w == 1 { 6 } else { 10 });
        let (t, m, f) = match w {
            0 => (cat!("-1234567890123456789012345.67", c), 123456789012345678901234567i128, 3),
            1 => (cat!("7922816251426433759354395033", c), 7922816251426433759354395033, 0),
            2 => (cat!("0.000000000000000000000000001", c), 1, 28),
            _ => (cat!("-9223372036854775", c, "0.10"), 9223372036854775, 2),
        };
        let m = match w { 3 => (m * 10 + n as i128) * 1000 + 10, _ => m * 10 + n as i128 };
        let want = Raw::from_i128_with_scale(if t.starts_with('-') { -m } else { m }, f);
        keeps(s, v, &t, |x| x.get().as_ref().left() == Some(&want));
    }
    // the decimal type itself
    p24_type / p24_type__count (NUM.len() + NTEXT) |p| {
        let p = p as usize;
        let (t, want) = if p < NUM.len() {
            let (n, f, neg) = NUM[p];
            let (t, m, f) = if n == 0 { small(f) } else { number(n, f, neg) };
            (t, Some((m, f)))
        } else {
            (text(p - NUM.len()), None)
        };
        reach(1);
        let x: Decimal = must!(t.parse().ok());
        let same = |x: &Decimal| match want {
            Some((m, f)) => is_number(x, m, f),
            None => is_text(x, &t),
        };
        chk!(same(&x) && same(&Decimal::from(t.as_str())));
        chk!(std::string::ToString::to_string(&x) == t);
        let mut y = Decimal::new_from_str(&t);
        chk!(is_text(&y, &t) && std::string::ToString::to_string(&y) == t);
        match y.try_make_decimal() {
            Ok(()) => chk!(want.is_some() && same(&y) && y == x),
            Err(_) => chk!(want.is_none() && is_text(&y, &t)),
        }
        chk!(std::string::ToString::to_string(&y) == t);
        if let Some((m, f)) = want {
            let z = Raw::new(m, f);
            chk!(Decimal::new(z) == x && Decimal::from(z) == x);
            chk!(y.try_make_decimal().is_ok() && y == x);
        }
        let mut z = Decimal::default();
        chk!(is_number(&z, 0, 0));
        *z.get_mut() = either::Either::Right(t.clone());
        chk!(is_text(&z, &t) && z == Decimal::new_from_str(&t));
    }
    p24_int / p24_int__count (1) |_p| {
        let x = i32v();
        assume((-99999..99999).contains(&x));
        reach(1);
        chk!(is_number(&Decimal::from(x), x as i64, 0));
    }
    // numbers that shorten: what counts is the value
    p24_loose / p24_loose__count (6) |p| {
        let (a, x) = digit(10);
        let (b, y) = digit(10);
        let (t, m, f) = match p {
            0 => (cat!("0", a, ".", b), (x * 10 + y) as i64, 1),
            1 => (cat!(a, b, "."), (x * 10 + y) as i64, 0),
            2 => (cat!(".", a, b), (x * 10 + y) as i64, 2),
            3 => (cat!("+", a, ".", b), (x * 10 + y) as i64, 1),
            4 => (cat!("-00", a, b), -((x * 10 + y) as i64), 0),
            _ => (cat!("-", a, ".", b, "00"), -((x * 10 + y) as i64 * 100), 3),
        };
        reach(1);
        chk!(Decimal::from(t.as_str()).get().as_ref().left() == Some(&Raw::new(m, f)));
    }
}
