//! Storyboard commands: every field is the one written.
use crate::{base::*, sym::*};
use osu_file_parser::events::storyboard::cmds::*;
use osu_file_parser::events::storyboard::types::*;
use osu_file_parser::types::*;

/// a decimal that is a number, or the text of one that is not
pub fn d(s: &str) -> Decimal {
    match s.parse() {
        Ok(x) => Decimal::new(x),
        Err(_) => Decimal::new_from_str(s),
    }
}
pub fn cmd(s: &str, v: u8) -> Option<Command> {
    VersionedFromStr::from_str(s, v).ok().flatten()
}
pub fn err(s: &str, v: u8) -> &'static str {
    match <Command as VersionedFromStr>::from_str(s, v) {
        Ok(_) => "",
        Err(e) => (&e).into(),
    }
}
pub fn easing(i: i32) -> Easing {
    use Easing::*;
    const E: [Easing; 35] = [
        Linear, EasingOut, EasingIn, QuadIn, QuadOut, QuadInOut, CubicIn, CubicOut, CubicInOut, QuartIn, QuartOut, QuartInOut,
        QuintIn, QuintOut, QuintInOut, SineIn, SineOut, SineInOut, ExpoIn, ExpoOut, ExpoInOut, CircIn, CircOut, CircInOut,
        ElasticIn, ElasticOut, ElasticHalfOut, ElasticQuarterOut, ElasticInOut, BackIn, BackOut, BackInOut, BounceIn, BounceOut, BounceInOut,
    ];
    if (0..35).contains(&i) {
        E[i as usize]
    } else {
        Other(i)
    }
}
/// how the two times are written: text, start, end
pub fn times(w: usize) -> (String, Option<i32>, Option<i32>) {
    match w % 5 {
        0 => (",,".to_string(), None, None),
        1 => {
            let (t, x) = ints(0);
            (cat!(",", t, ","), Some(x), None)
        }
        2 => {
            let ((a, x), (b, y)) = (ints(1), ints(2));
            (cat!(",", a, ",", b), Some(x), Some(y))
        }
        3 => {
            let ((a, x), (b, y)) = (ints(2), ints(0));
            (cat!(",", a, ",", b), Some(x), Some(y))
        }
        _ => {
            let (a, x) = int(9, true);
            (cat!(",", a, ","), Some(x as i32), None)
        }
    }
}
pub const ONE: [&str; 5] = ["F", "MX", "MY", "S", "R"];
pub const TWO: [&str; 2] = ["M", "V"];
/// a decimal of few digits, or text that is not a number
pub fn small(i: usize) -> String {
    match i % 4 {
        0 => dec(1, 1, false),
        1 => dec(2, 0, true),
        2 => dec(1, 0, false),
        _ => word(1, |b| plain(b) && !b.is_ascii_digit() && b != b'.' && b != b'_'),
    }
}
pub fn props_one(k: usize, easing: Easing, end_time: Option<i32>, x: Decimal, c: Vec<Decimal>) -> CommandProperties {
    match k {
        0 => CommandProperties::Fade { easing, end_time, start_opacity: x, continuing_opacities: c },
        1 => CommandProperties::MoveX { easing, end_time, start_x: x, continuing_x: c },
        2 => CommandProperties::MoveY { easing, end_time, start_y: x, continuing_y: c },
        3 => CommandProperties::Scale { easing, end_time, start_scale: x, continuing_scales: c },
        _ => CommandProperties::Rotate { easing, end_time, start_rotation: x, continuing_rotations: c },
    }
}
pub fn fields2(v: &[String]) -> Option<ContinuingFields<Decimal>> {
    let c = v[2..].chunks(2).map(|c| (d(&c[0]), c.get(1).map(|x| d(x)))).collect();
    ContinuingFields::new((d(&v[0]), d(&v[1])), c).ok()
}
pub fn props_two(k: usize, easing: Easing, end_time: Option<i32>, f: ContinuingFields<Decimal>) -> CommandProperties {
    match k {
        0 => CommandProperties::Move { easing, end_time, positions_xy: f },
        _ => CommandProperties::VectorScale { easing, end_time, scales_xy: f },
    }
}
fn same(text: &str, v: u8, start_time: Option<i32>, properties: CommandProperties) {
    let c = cmd(text, v);
    chk!(c.is_some());
    if let Some(c) = c {
        chk!(c.start_time == start_time);
        chk!(c.properties == properties);
        reach(1);
        let s = VersionedToString::to_string(&c, v);
        if let Some(s) = &s {
            trace(s);
        }
        chk!(s.as_deref() == Some(text));
        // the value built through the API prints the same
        chk!(VersionedToString::to_string(&Command { start_time, properties }, v).as_deref() == Some(text));
    }
}
const SETS: [SampleSet; 4] = [SampleSet::All, SampleSet::Normal, SampleSet::Soft, SampleSet::Drum];
const SETN: [&str; 4] = ["All", "Normal", "Soft", "Drum"];
const ADDS: [Addition; 3] = [Addition::Whistle, Addition::Finish, Addition::Clap];
const ADDN: [&str; 3] = ["Whistle", "Finish", "Clap"];
/// trigger spellings: 5 (sample set) x 5 (additions set, only after a sample set) x 4 (addition) x 4 (custom), and the two states
pub const NTRIG: usize = 5 * 5 * 4 * 4 + 2;
pub fn trigger(w: usize) -> (String, TriggerType) {
    if w == 400 {
        return ("Passing".into(), TriggerType::Passing);
    }
    if w > 400 {
        return ("Failing".into(), TriggerType::Failing);
    }
    let (a, mut b, c, e) = (w % 5, w / 5 % 5, w / 25 % 4, w / 100);
    if a == 0 {
        b = 0;
    }
    let mut t = "HitSound".to_string();
    let sample_set = if a > 0 { t.push_str(SETN[a - 1]); Some(SETS[a - 1]) } else { None };
    let additions_sample_set = if b > 0 { t.push_str(SETN[b - 1]); Some(SETS[b - 1]) } else { None };
    let addition = if c > 0 { t.push_str(ADDN[c - 1]); Some(ADDS[c - 1]) } else { None };
    let custom_sample_set = if e > 0 {
        let (n, x) = int(e, false);
        t.push_str(&n);
        Some(x as usize)
    } else {
        None
    };
    (t, TriggerType::HitSound { sample_set, additions_sample_set, addition, custom_sample_set })
}
/// the optional fields of a trigger: text, start, end, group
pub fn trig_tail(w: usize) -> (String, Option<i32>, Option<i32>, Option<i32>) {
    let f = |i: usize| if w >> i & 1 == 1 { let (t, x) = ints([0, 1, 2][i]); (t, Some(x)) } else { (String::new(), None) };
    let ((a, s), (b, e), (c, g)) = (f(0), f(1), f(2));
    let t = if g.is_some() { cat!(",", a, ",", b, ",", c) } else if e.is_some() { cat!(",", a, ",", b) } else if s.is_some() { cat!(",", a) } else { String::new() };
    (t, s, e, g)
}

/// (valid line, error names when the k-th field and all after it are missing, when it is not a number)
type Kind = (&'static [&'static str], &'static [&'static str], &'static [&'static str]);
const TM: [&str; 3] = ["MissingEasing", "MissingStartTime", "MissingEndTime"];
const TI: [&str; 3] = ["InvalidEasing", "InvalidStartTime", "InvalidEndTime"];
const KINDS: [Kind; 11] = [
    (&["F", "0", "1", "2", "3", "4"], &[TM[0], TM[1], TM[2], "MissingStartOpacity", ""], &[TI[0], TI[1], TI[2], "-", "-"]),
    (&["MX", "0", "1", "2", "3", "4"], &[TM[0], TM[1], TM[2], "MissingMoveX", ""], &[TI[0], TI[1], TI[2], "-", "-"]),
    (&["MY", "0", "1", "2", "3", "4"], &[TM[0], TM[1], TM[2], "MissingMoveY", ""], &[TI[0], TI[1], TI[2], "-", "-"]),
    (&["S", "0", "1", "2", "3", "4"], &[TM[0], TM[1], TM[2], "MissingStartScale", ""], &[TI[0], TI[1], TI[2], "-", "-"]),
    (&["R", "0", "1", "2", "3", "4"], &[TM[0], TM[1], TM[2], "MissingStartRotation", ""], &[TI[0], TI[1], TI[2], "-", "-"]),
    (&["M", "0", "1", "2", "3", "4", "5", "6"], &["UnknownCommandType", TM[1], TM[2], "MissingMoveX", "MissingMoveY", "", ""], &[TI[0], TI[1], TI[2], "-", "-", "-", "-"]),
    (&["V", "0", "1", "2", "3", "4", "5", "6"], &[TM[0], TM[1], TM[2], "MissingScaleX", "MissingScaleY", "", ""], &[TI[0], TI[1], TI[2], "-", "-", "-", "-"]),
    (&["C", "0", "1", "2", "3", "4", "5", "6", "7", "8"], &[TM[0], TM[1], TM[2], "MissingRed", "MissingGreen", "MissingBlue", "", "", ""], &[TI[0], TI[1], TI[2], "InvalidRed", "InvalidGreen", "InvalidBlue", "InvalidContinuingColours", "InvalidContinuingColours", "InvalidContinuingColours"]),
    (&["P", "0", "1", "2", "H", "V"], &[TM[0], TM[1], TM[2], "MissingParameterType", ""], &[TI[0], TI[1], TI[2], "InvalidParameterType", "InvalidContinuingParameters"]),
    (&["L", "1", "2"], &["MissingStartTime", "MissingLoopCount"], &["InvalidStartTime", "InvalidLoopCount"]),
    (&["T", "Passing", "1", "2", "3"], &["MissingTriggerType", "", "", ""], &["InvalidTriggerType", "InvalidStartTime", "InvalidEndTime", "InvalidGroupNumber"]),
];

harnesses! {
    p13_one / p13_one__count (5 * 5 * 4) |p| {
        let mut p = Pick(p);
        let (k, w, n) = (p.of(5), p.of(5), p.of(4));
        let v = ver();
        let (et, e) = int(1 + (k + w) % 2, false);
        let (tt, s, end) = times(w);
        let x = small(k + n);
        let c: Vec<String> = (0..n).map(|i| small(i + w + k)).collect();
        let mut text = cat!(ONE[k], ",", et, tt, ",", x);
        for c in &c {
            text.push(',');
            text.push_str(c);
        }
        same(&text, v, s, props_one(k, easing(e as i32), end, d(&x), c.iter().map(|c| d(c)).collect()));
    }
    p13_two / p13_two__count (2 * 5 * 5) |p| {
        let mut p = Pick(p);
        let (k, w, n) = (p.of(2), p.of(5), p.of(5));
        let v = ver();
        let (et, e) = int(1 + (k + w) % 2, false);
        let (tt, s, end) = times(w);
        let c: Vec<String> = (0..2 + n).map(|i| small(i + w + k)).collect();
        let text = cat!(TWO[k], ",", et, tt, ",", c.join(","));
        same(&text, v, s, props_two(k, easing(e as i32), end, must!(fields2(&c))));
    }
    // long lists of values
    p13t_two / p13t_two__count (2 * 12) |p| {
        let mut p = Pick(p);
        let (k, n) = (p.of(2), p.of(12));
        let v = ver();
        let (tt, s, end) = times(n);
        let c: Vec<String> = (0..2 + n).map(|i| if i + 3 > n { small(i) } else { "5".to_string() }).collect();
        let text = cat!(TWO[k], ",3", tt, ",", c.join(","));
        same(&text, v, s, props_two(k, easing(3), end, must!(fields2(&c))));
    }
    p13_easing / p13_easing__count (11) |p| {
        let v = ver();
        let (et, e) = match p { 0..=8 => int(2, false), 9 => int(3, true), _ => int(1, false) };
        let e = easing(e as i32);
        match p {
            0..=4 => same(&cat!(ONE[p as usize], ",", et, ",1,2,3"), v, Some(1), props_one(p as usize, e, Some(2), d("3"), vec![])),
            5 | 6 => same(&cat!(TWO[p as usize - 5], ",", et, ",1,2,3,4"), v, Some(1), props_two(p as usize - 5, e, Some(2), must!(fields2(&["3".to_string(), "4".to_string()])))),
            7 => same(&cat!("C,", et, ",1,2,3,4,5"), v, Some(1), CommandProperties::Colour { easing: e, end_time: Some(2), colours: Colours { start: (3, 4, 5), continuing: vec![] } }),
            8 => same(&cat!("P,", et, ",1,2,A"), v, Some(1), CommandProperties::Parameter { easing: e, end_time: Some(2), parameter: Parameter::UseAdditiveColourBlending, continuing_parameters: vec![] }),
            _ => same(&cat!("R,", et, ",1,2,3"), v, Some(1), props_one(4, e, Some(2), d("3"), vec![])),
        }
    }
    p13_colour / p13_colour__count (5 * 8 * 2) |p| {
        let mut p = Pick(p);
        let (w, n, m) = (p.of(5), p.of(8), p.of(2));
        let v = ver();
        let (tt, s, end) = times(w);
        let mut c = vec![];
        let mut x = vec![];
        for i in 0..3 + n {
            let (t, y) = int(if i == (w + n) % (3 + n) { 2 + m } else { 1 }, false);
            c.push(t);
            x.push(y);
        }
        let text = cat!("C,7", tt, ",", c.join(","));
        let ok = x.iter().all(|x| *x < 256);
        if !ok {
            chk!(cmd(&text, v).is_none());
            return;
        }
        let x: Vec<u8> = x.iter().map(|x| *x as u8).collect();
        let continuing: Vec<_> = x[3..].chunks(3).map(|c| (c[0], c.get(1).copied(), c.get(2).copied())).collect();
        let colours = must!(Colours::new((x[0], x[1], x[2]), continuing).ok());
        same(&text, v, s, CommandProperties::Colour { easing: Easing::CubicOut, end_time: end, colours });
    }
    p13_param / p13_param__count (5 * 4) |p| {
        let mut p = Pick(p);
        let (w, n) = (p.of(5), p.of(4));
        let v = ver();
        let (tt, s, end) = times(w);
        let mut t = vec![];
        let mut x = vec![];
        for _ in 0..=n {
            let i = below(3) as usize;
            t.push(["H", "V", "A"][i]);
            x.push([Parameter::ImageFlipHorizontal, Parameter::ImageFlipVertical, Parameter::UseAdditiveColourBlending][i]);
        }
        let parameter = x.remove(0);
        same(&cat!("P,0", tt, ",", t.join(",")), v, s, CommandProperties::Parameter { easing: Easing::Linear, end_time: end, parameter, continuing_parameters: x });
    }
    p13_loop / p13_loop__count (5 * 3) |p| {
        let mut p = Pick(p);
        let (w, n) = (p.of(5), p.of(3));
        let v = ver();
        let (st, s) = if w == 4 { (String::new(), None) } else { let (t, x) = ints(w); (t, Some(x)) };
        let (ct, c) = int([1, 3, 9][n], false);
        same(&cat!("L,", st, ",", ct), v, s, CommandProperties::Loop { loop_count: c as u32, commands: vec![] });
    }
    p13_trigger / p13_trigger__count (NTRIG) |p| {
        let v = ver();
        let (t, trigger_type) = trigger(p as usize);
        let (xt, s, end_time, group_number) = trig_tail(p as usize % 8);
        chk!(matches!(<TriggerType as VersionedFromStr>::from_str(&t, v), Ok(Some(x)) if x == trigger_type));
        same(&cat!("T,", t, xt), v, s, CommandProperties::Trigger { trigger_type, end_time, group_number, commands: vec![] });
    }
    p13_times / p13_times__count (8 * 2) |p| {
        let v = ver();
        let (t, trigger_type) = trigger([3, 401][p as usize / 8]);
        let (xt, s, end_time, group_number) = trig_tail(p as usize % 8);
        same(&cat!("T,", t, xt), v, s, CommandProperties::Trigger { trigger_type, end_time, group_number, commands: vec![] });
    }
    // a command that ends early
    p13_short / p13_short__count (11 * 9) |p| {
        let mut p = Pick(p);
        let (k, n) = (p.of(11), p.of(9));
        let v = ver();
        let (l, miss, _) = KINDS[k];
        reach(1);
        if n + 1 >= l.len() { return; }
        let e = err(&l[..n + 1].join(","), v);
        chk!(e == miss[n]);
    }
    // one arbitrary byte in the place of each field
    p13_bad / p13_bad__count (11 * 9) |p| {
        let mut p = Pick(p);
        let (k, n) = (p.of(11), p.of(9));
        let v = ver();
        let (l, _, bad) = KINDS[k];
        reach(1);
        if n + 1 >= l.len() { return; }
        let b = word(1, |b| b > 0x20 && b < 0x7f && b != b',');
        let mut f: Vec<&str> = l.to_vec();
        f[n + 1] = &b;
        let e = err(&f.join(","), v);
        let ok = match bad[n] {
            "-" => true,
            "InvalidParameterType" | "InvalidContinuingParameters" => b == "H" || b == "V" || b == "A",
            "InvalidTriggerType" => false,
            _ => b.as_bytes()[0].is_ascii_digit(),
        };
        chk!(e == if ok { "" } else { bad[n] });
    }
    // the letter decides the command
    p13_head / p13_head__count (3) |p| {
        let v = ver();
        reach(1);
        match p {
            0 => {
                let b = word(1, |b| b > 0x20 && b < 0x7f && b != b'_');
                let e = err(&cat!(b, ",0,1,2,3,4"), v);
                match b.as_str() {
                    "F" | "S" | "V" | "R" | "M" => chk!(e == ""),
                    "C" => chk!(e == "MissingBlue"),
                    "P" => chk!(e == "InvalidParameterType"),
                    "L" => chk!(e == "InvalidLoopCount"),
                    "T" => chk!(e == "InvalidTriggerType"),
                    _ => chk!(e == "UnknownCommandType"),
                }
            }
            1 => {
                let b = word(1, |b| b > 0x20 && b < 0x7f && b != b'_' && b != b',');
                let e = err(&cat!("M", b, ",0,1,2,3,4"), v);
                chk!(e == if b == "X" || b == "Y" { "" } else { "UnknownCommandType" });
            }
            _ => {
                // leading indentation is not part of the command
                let b = word(2, |b| b > 0x20 && b < 0x7f || b == b' ');
                let i = b.as_bytes().iter().take_while(|b| **b == b' ' || **b == b'_').count();
                let r = cmd(&cat!(b, "F,0,1,2,3"), v);
                chk!(r.is_some() == (i == 2));
            }
        }
    }
    // trigger words: one byte changed
    p13_word / p13_word__count (16 + 7) |p| {
        let v = ver();
        let base = if p < 16 { "HitSoundSoftClap" } else { "Passing" };
        let i = p as usize % 16;
        let b = word(1, |b| b > 0x20 && b < 0x7f && b != b',');
        let t = cat!(base[..i], b, base[i + 1..]);
        let r = <TriggerType as VersionedFromStr>::from_str(&t, v);
        reach(1);
        if t == base {
            chk!(r.is_ok());
        } else if p < 16 {
            // no other spelling of this length denotes the same trigger
            chk!(match r { Ok(Some(x)) => VersionedToString::to_string(&x, v).as_deref() == Some(&t[..]), Ok(None) => false, Err(_) => true });
        } else {
            chk!(r.is_err());
        }
    }
    // integer limits of times and counts
    p13_limit / p13_limit__count (5) |p| {
        let v = ver();
        let (t, x) = digit(10);
        reach(1);
        match p {
            0 => chk!(err(&cat!("F,0,214748364", t, ",,1"), v) == if x <= 7 { "" } else { "InvalidStartTime" }),
            1 => chk!(err(&cat!("F,0,0,-214748364", t, ",1"), v) == if x <= 8 { "" } else { "InvalidEndTime" }),
            2 => chk!(err(&cat!("L,0,429496729", t), v) == if x <= 5 { "" } else { "InvalidLoopCount" }),
            3 => chk!(err(&cat!("T,Failing,0,0,214748364", t), v) == if x <= 7 { "" } else { "InvalidGroupNumber" }),
            _ => chk!(err(&cat!("P,214748364", t, ",0,0,H"), v) == if x <= 7 { "" } else { "InvalidEasing" }),
        }
    }
    // long lists of values
    p13_long / p13_long__count (4 * 9) |p| {
        let mut p = Pick(p);
        let (n, k) = (LONG[p.of(4)], p.of(9));
        let v = ver();
        let at = below(n as u8 + 1) as usize;
        let (t, x) = digit(10);
        let num = |i: usize| if i == at { t.clone() } else if k < 7 { cat!((mix(i, 700) as i32 - 90).to_string(), [".5", ".375", ""][i % 3]) } else { mix(i, 256).to_string() };
        match k {
            0..=4 => {
                let c: Vec<String> = (0..=n).map(num).collect();
                same(&cat!(ONE[k], ",5,-9,10,", c.join(",")), v, Some(-9), props_one(k, easing(5), Some(10), d(&c[0]), c[1..].iter().map(|c| d(c)).collect()));
            }
            5 | 6 => {
                let c: Vec<String> = (0..=n).map(num).collect();
                same(&cat!(TWO[k - 5], ",34,9,,", c.join(",")), v, Some(9), props_two(k - 5, easing(34), None, must!(fields2(&c))));
            }
            7 => {
                let c: Vec<String> = (0..=n).map(num).collect();
                let y: Vec<u8> = (0..=n).map(|i| if i == at { x } else { mix(i, 256) as u8 }).collect();
                let continuing: Vec<_> = y[3..].chunks(3).map(|c| (c[0], c.get(1).copied(), c.get(2).copied())).collect();
                let colours = must!(Colours::new((y[0], y[1], y[2]), continuing).ok());
                same(&cat!("C,7,,,", c.join(",")), v, None, CommandProperties::Colour { easing: Easing::CubicOut, end_time: None, colours });
            }
            _ => {
                let i = |i: usize| if i == at { x as usize % 3 } else { mix(i, 3) };
                let c: Vec<&str> = (0..=n).map(|j| ["H", "V", "A"][i(j)]).collect();
                let y: Vec<Parameter> = (0..=n).map(|j| [Parameter::ImageFlipHorizontal, Parameter::ImageFlipVertical, Parameter::UseAdditiveColourBlending][i(j)]).collect();
                same(&cat!("P,0,1,2,", c.join(",")), v, Some(1), CommandProperties::Parameter { easing: Easing::Linear, end_time: Some(2), parameter: y[0], continuing_parameters: y[1..].to_vec() });
            }
        }
    }
}
