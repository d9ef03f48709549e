//! Errors of comma separated lines name the first field that is missing or out of its domain.
use crate::{base::*, p18::NAMES, sym::*};
use osu_file_parser::colours::{self, ParseColourError, ParseRgbError};
use osu_file_parser::events::storyboard::error::*;
use osu_file_parser::events::{self, normal_event::*, ParseAudioSampleError};
use osu_file_parser::hitobjects::{self, HitSample, ParseHitObjectError};
use osu_file_parser::timingpoints::{self, ParseTimingPointError};
use osu_file_parser::types::*;
use osu_file_parser::*;
use std::fmt::{Debug, Display};

/// what the text of a field may be
#[derive(Clone, Copy)]
enum D {
    Any,
    I32,
    U32,
    U8,
    Vol,
    Bit,
    Num,
    /// numbers below n
    To(usize),
    Blank,
    Names(&'static [&'static str]),
    Origin,
    Curve,
    Points,
    Sounds,
    Sets,
    Sample,
    Red,
    Blue,
    /// a number that may be left empty
    StartOr,
    /// an item after others of a list
    Item0,
    Item1,
}
use D::*;
fn ok(d: D, s: &str, v: u8) -> bool {
    match d {
        Any => true,
        I32 => s.parse::<i32>().is_ok(),
        U32 => s.parse::<u32>().is_ok(),
        U8 => s.parse::<u8>().is_ok(),
        Vol => matches!(s.parse::<u8>(), Ok(n) if n <= 100),
        Bit => matches!(s.parse::<i32>(), Ok(0 | 1)),
        Num => s.parse::<rust_decimal::Decimal>().is_ok(),
        To(n) => matches!(s.parse::<usize>(), Ok(x) if x < n),
        Blank => s.trim().is_empty() || s.parse::<i32>().is_ok(),
        Names(n) => n.contains(&s),
        Origin => s.parse::<i32>().is_ok(),
        Curve => s.contains('|') || ["B", "C", "L", "P"].contains(&s),
        Points => s.trim().is_empty() || s.split('|').all(|p| p.contains(':')),
        Sounds => s.trim().is_empty() || s.split('|').all(|p| p.parse::<u8>().is_ok()),
        Sets => s.trim().is_empty() || s.split('|').all(|p| matches!(p.split_once(':'), Some((a, b)) if a.parse::<usize>().is_ok() && b.parse::<usize>().is_ok())),
        Sample => <HitSample as VersionedFromStr>::from_str(s, v).is_ok(),
        StartOr => s.is_empty() || s.parse::<i32>().is_ok(),
        Item0 => s.split('|').all(|p| p.parse::<u8>().is_ok()),
        Item1 => !s.is_empty() && ok(Sets, s, v),
        // a component that only begins with digits is taken to end there
        Red => s.trim_start().starts_with(|c: char| c.is_ascii_digit()),
        Blue => s.trim().parse::<u8>().is_ok(),
    }
}
/// a field: text in front that is part of it, a good value, its domain, the errors when it is missing and when it is invalid
struct F<E>(&'static str, &'static str, D, Option<E>, Option<E>);
type Got = Option<(usize, String, String)>;
fn show<E: Debug + Display>(e: &E) -> (String, String) {
    (format!("{e:?}"), format!("{e}"))
}
fn got<T, E: Debug + Display>(r: Result<T, Error<E>>) -> Got {
    r.err().map(|e| {
        let (d, m) = show(e.error());
        (e.line_index(), d, m)
    })
}
/// the error of a one-line section, and the same line in a file
fn parse(k: usize, s: &str, v: u8) -> Got {
    match k {
        4 => got(<Events as VersionedFromStr>::from_str(s, v)),
        5 => got(<TimingPoints as VersionedFromStr>::from_str(s, v)),
        6 => got(<Colours as VersionedFromStr>::from_str(s, v)),
        _ => got(<HitObjects as VersionedFromStr>::from_str(s, v)),
    }
}
fn expect(k: usize, head: &str, line: &str, v: u8, want: (String, String)) {
    let s = cat!(head, line);
    let at = head.bytes().filter(|b| *b == b'\n').count();
    trace(line);
    let (l, d, m) = must!(parse(k, &s, v));
    reach(1);
    trace(&d);
    chk!(d == want.0);
    chk!(m == want.1);
    chk!(l == at);
    match cat!("osu file format v", v.to_string(), "\n[", NAMES[k], "]\n", s).parse::<OsuFile>() {
        Ok(_) => chk!(false),
        Err(e) => {
            chk!(e.line_index() == at + 2);
            chk!(std::string::ToString::to_string(e.error()) == want.1);
        }
    }
}
const PLACES: usize = 16;
const WAYS: usize = 1 + 4 * 3;
/// break field i of a line: leave it and what follows out, or write symbolic text that is not in its domain
fn run<E: Debug + Display>(k: usize, head: &str, f: &[F<E>], p: &mut Pick, v: u8) {
    let (i, w) = (p.of(PLACES), p.of(WAYS));
    if i >= f.len() {
        return reach(1);
    }
    let mut t = String::with_capacity(100);
    for (j, x) in f[..i].iter().enumerate() {
        if j > 0 { t.push(','); }
        t.push_str(x.0);
        t.push_str(x.1);
    }
    let F(pre, _, d, missing, invalid) = &f[i];
    if w == 0 {
        if let Some(e) = missing {
            return expect(k, head, &t, v, show(e));
        }
        return reach(1);
    }
    let (n, tail) = ((w - 1) % 4, (w - 1) / 4);
    let e = match invalid {
        Some(e) => e,
        None => return reach(1),
    };
    let junk = word(n, |b| printable(b) && b != b',');
    if ok(*d, &junk, v) {
        // nothing is claimed about text of the domain here
        return reach(1);
    }
    if i > 0 { t.push(','); }
    t.push_str(pre);
    t.push_str(&junk);
    for (j, x) in f[i + 1..].iter().enumerate() {
        match tail {
            0 => break,
            1 => t.push_str(&cat!(",", x.0, x.1)),
            // a second defect further on is not the one reported
            _ => t.push_str(&cat!(",", if j == 0 { "" } else { x.0 }, "x")),
        }
    }
    expect(k, head, &t, v, show(e));
}
macro_rules! f {
    ($t:ident: $( $pre:literal $good:literal $d:expr, $m:ident $i:ident; )*) => {
        [ $( F($pre, $good, $d, f!(@ $t $m), f!(@ $t $i)) ),* ]
    };
    (@ $t:ident _x) => { None };
    (@ $t:ident $e:ident) => { Some(wrap($t::$e)) };
}
const OBJ_LAYERS: D = Names(&["Background", "Fail", "Pass", "Foreground", "Overlay"]);
const PARAMS: D = Names(&["H", "V", "A"]);
const LOOPS: D = Names(&["LoopForever", "LoopOnce"]);
const TRIGGERS: D = Names(&["Passing", "Failing", "HitSound"]);
/// a sprite to put commands under
const SPRITE: &str = "Sprite,Pass,Centre,s.png,1,2\n";

harnesses! {
    // timing points of versions 3, 4, 5 and later ones
    p32_timing / p32_timing__count (4 * PLACES * WAYS) |p| {
        let mut p = Pick(p);
        use ParseTimingPointError as E;
        fn wrap(e: E) -> timingpoints::ParseError { e.into() }
        match p.of(4) {
            0 => run(5, "", &f!(E: "" "1" Any, _x _x; "" "300" Any, MissingBeatLength _x;), &mut p, 3),
            1 => run(5, "", &f!(E: "" "1" Any, _x _x; "" "300" Any, MissingBeatLength _x; "" "4" I32, MissingMeter InvalidMeter;
                "" "1" I32, MissingSampleSet InvalidSampleSet; "" "2" U32, MissingSampleIndex InvalidSampleIndex; "" "60" I32, _x InvalidVolume;), &mut p, 4),
            2 => run(5, "", &f!(E: "" "1" Any, _x _x; "" "300" Any, MissingBeatLength _x; "" "4" I32, MissingMeter InvalidMeter;
                "" "1" I32, MissingSampleSet InvalidSampleSet; "" "2" U32, MissingSampleIndex InvalidSampleIndex; "" "60" I32, MissingVolume InvalidVolume;
                "" "1" Bit, _x InvalidUninherited; "" "0" U32, _x InvalidEffects;), &mut p, 5),
            _ => run(5, "", &f!(E: "" "1" Any, _x _x; "" "300" Any, MissingBeatLength _x; "" "4" I32, MissingMeter InvalidMeter;
                "" "1" I32, MissingSampleSet InvalidSampleSet; "" "2" U32, MissingSampleIndex InvalidSampleIndex; "" "60" I32, MissingVolume InvalidVolume;
                "" "1" Bit, _x InvalidUninherited; "" "0" U32, MissingEffects InvalidEffects;), &mut p, ver_in(6, 14)),
        }
    }
    // circles, sliders, spinners, holds
    p32_objects / p32_objects__count (6 * PLACES * WAYS) |p| {
        let mut p = Pick(p);
        use ParseHitObjectError as E;
        fn wrap(e: E) -> hitobjects::ParseError { e.into() }
        let v = [14, 3, 10, 4][below(4) as usize];
        match p.of(6) {
            0 => run(7, "", &f!(E: "" "1" Any, _x _x; "" "2" Any, MissingY _x; "" "3" Any, MissingTime _x; "" "1" I32, MissingObjType InvalidObjType;
                "" "0" U8, MissingHitSound InvalidHitSound; "" "0:0" Sample, _x InvalidHitSample;), &mut p, v),
            1 => run(7, "", &f!(E: "" "1" Any, _x _x; "" "2" Any, MissingY _x; "" "3" Any, MissingTime _x; "" "2" I32, MissingObjType InvalidObjType;
                "" "0" U8, MissingHitSound InvalidHitSound; "" "B|5:6" Curve, MissingCurveType InvalidCurveType; "" "1" I32, MissingSlidesCount InvalidSlidesCount;
                "" "100" Any, MissingLength _x; "" "2|0" Sounds, _x InvalidEdgeSound; "" "0:0|1:2" Sets, _x InvalidEdgeSet; "" "0:0" Sample, _x InvalidHitSample;), &mut p, v),
            // the points of a curve, with and without one before
            2 => run(7, "1,2,3,2,0,", &f!(E: "L|" "5:6" Points, _x InvalidCurvePoint; "" "1" I32, MissingSlidesCount InvalidSlidesCount;), &mut p, v),
            3 => run(7, "1,2,3,2,0,", &f!(E: "P|1:2|" "5:6" Points, _x InvalidCurvePoint; "" "1" I32, MissingSlidesCount InvalidSlidesCount;), &mut p, v),
            4 => run(7, "", &f!(E: "" "1" Any, _x _x; "" "2" Any, MissingY _x; "" "3" Any, MissingTime _x; "" "8" I32, MissingObjType InvalidObjType;
                "" "0" U8, MissingHitSound InvalidHitSound; "" "9" Any, MissingEndTime _x; "" "0:0" Sample, _x InvalidHitSample;), &mut p, v),
            _ => run(7, "", &f!(E: "" "1" Any, _x _x; "" "2" Any, MissingY _x; "" "3" Any, MissingTime _x; "" "128" I32, MissingObjType InvalidObjType;
                "" "0" U8, MissingHitSound InvalidHitSound; "9:" "0:0" Sample, MissingEndTime InvalidHitSample;), &mut p, v),
        }
    }
    // the lists of a slider, with one item before
    p32_lists / p32_lists__count (2 * PLACES * WAYS) |p| {
        let mut p = Pick(p);
        use ParseHitObjectError as E;
        fn wrap(e: E) -> hitobjects::ParseError { e.into() }
        let v = [14, 3][below(2) as usize];
        match p.of(2) {
            0 => run(7, "1,2,3,2,0,B|5:6,1,100,", &f!(E: "2|8|" "0" Item0, _x InvalidEdgeSound; "" "0:0" Sets, _x InvalidEdgeSet;), &mut p, v),
            _ => run(7, "1,2,3,2,0,B|5:6,1,100,2,", &f!(E: "0:0|1:2|" "0:0" Item1, _x InvalidEdgeSet; "" "0:0" Sample, _x InvalidHitSample;), &mut p, v),
        }
    }
    // background, video, break, colour transformation and legacy events
    p32_events / p32_events__count (9 * PLACES * WAYS) |p| {
        let mut p = Pick(p);
        let v = ver();
        match p.of(9) {
            0 => {
                use ParseBackgroundError as E;
                fn wrap(e: E) -> events::ParseError { e.into() }
                run(4, "", &f!(E: "" "0" Any, _x _x; "" "5" I32, MissingStartTime InvalidStartTime; "" "b" Any, MissingFileName _x;
                    "" "1" Any, _x _x; "" "2" Any, MissingY _x;), &mut p, v)
            }
            k @ 1..=2 => {
                use ParseVideoError as E;
                fn wrap(e: E) -> events::ParseError { e.into() }
                let mut f = f!(E: "" "1" Any, _x _x; "" "5" I32, MissingStartTime InvalidStartTime; "" "b" Any, MissingFileName _x;
                    "" "1" Any, _x _x; "" "2" Any, MissingY _x;);
                if k == 2 { f[0].1 = "Video"; }
                run(4, "", &f, &mut p, v)
            }
            k @ 3..=4 => {
                use ParseBreakError as E;
                fn wrap(e: E) -> events::ParseError { e.into() }
                let mut f = f!(E: "" "2" Any, _x _x; "" "5" I32, MissingStartTime InvalidStartTime; "" "6" I32, MissingEndTime InvalidEndTime;);
                if k == 4 { f[0].1 = "Break"; }
                run(4, "", &f, &mut p, v)
            }
            5 => {
                use ParseColourTransformationError as E;
                fn wrap(e: E) -> events::ParseError { e.into() }
                run(4, "", &f!(E: "" "3" Any, _x _x; "" "5" I32, MissingStartTime InvalidStartTime; "" "1" U8, MissingRed InvalidRed;
                    "" "2" U8, MissingGreen InvalidGreen; "" "3" U8, MissingBlue InvalidBlue;), &mut p, v)
            }
            6 => {
                use ParseSpriteLegacyError as E;
                fn wrap(e: E) -> events::ParseError { e.into() }
                run(4, "", &f!(E: "" "4" Any, _x _x; "" "2" To(6), MissingLayer InvalidLayer; "" "1" To(10), MissingOrigin InvalidOrigin;
                    "" "b" Any, MissingFileName _x; "" "1" Any, _x _x; "" "2" Any, MissingY _x;), &mut p, v)
            }
            7 => {
                use ParseAnimationLegacyError as E;
                fn wrap(e: E) -> events::ParseError { e.into() }
                run(4, "", &f!(E: "" "5" Any, _x _x; "" "2" To(6), MissingLayer InvalidLayer; "" "1" To(10), MissingOrigin InvalidOrigin;
                    "" "b" Any, MissingFileName _x; "" "1" Any, _x _x; "" "2" Any, MissingY _x;), &mut p, v)
            }
            _ => {
                use ParseSampleLegacyError as E;
                fn wrap(e: E) -> events::ParseError { e.into() }
                run(4, "", &f!(E: "" "6" Any, _x _x; "" "5" Any, MissingTime _x; "" "2" To(6), MissingLayer InvalidLayer;
                    "" "b" Any, MissingFileName _x; "" "70" Vol, _x InvalidVolume;), &mut p, v)
            }
        }
    }
    // sprites, animations, audio samples
    p32_media / p32_media__count (3 * PLACES * WAYS) |p| {
        let mut p = Pick(p);
        let v = ver();
        match p.of(3) {
            k @ 0..=1 => {
                use ParseObjectError as E;
                fn wrap(e: E) -> events::ParseError { e.into() }
                let mut f = f!(E: "" "Animation" Any, _x _x; "" "Pass" OBJ_LAYERS, MissingLayer InvalidLayer; "" "Centre" Origin, MissingOrigin InvalidOrigin;
                    "" "b" Any, MissingFilePath _x; "" "1" Any, MissingPositionX _x; "" "2" Any, MissingPositionY _x; "" "3" U32, MissingFrameCount InvalidFrameCount;
                    "" "4" Num, MissingFrameDelay InvalidFrameDelay; "" "LoopOnce" LOOPS, _x InvalidLoopType;);
                if k == 1 {
                    run(4, "", &f, &mut p, v)
                } else {
                    f[0].1 = "Sprite";
                    run(4, "", &f[..6], &mut p, v)
                }
            }
            _ => {
                use ParseAudioSampleError as E;
                fn wrap(e: E) -> events::ParseError { e.into() }
                run(4, "", &f!(E: "" "Sample" Any, _x _x; "" "5" I32, MissingTime InvalidTime; "" "2" To(4), MissingLayer InvalidLayer;
                    "" "b" Any, MissingFilepath _x; "" "70" Vol, _x InvalidVolume;), &mut p, v)
            }
        }
    }
    // commands
    p32_commands / p32_commands__count (11 * PLACES * WAYS) |p| {
        let mut p = Pick(p);
        let k = p.of(11);
        let v = [14, 3][below(2) as usize];
        use ParseCommandError as E;
        fn wrap(e: E) -> events::ParseError { e.into() }
        macro_rules! cmd {
            ($head:literal $easing:ident; $($r:tt)*) => {
                run(4, SPRITE, &f!(E: "" $head Any, _x _x; "" "0" I32, $easing InvalidEasing; "" "1" I32, MissingStartTime InvalidStartTime;
                    "" "2" Blank, MissingEndTime InvalidEndTime; $($r)*), &mut p, v)
            };
        }
        match k {
            0 => cmd!(" F" MissingEasing; "" "1" Any, MissingStartOpacity _x;),
            1 => cmd!(" M" _x; "" "1" Any, MissingMoveX _x; "" "1" Any, MissingMoveY _x;),
            2 => cmd!(" MX" MissingEasing; "" "1" Any, MissingMoveX _x;),
            3 => cmd!(" MY" MissingEasing; "" "1" Any, MissingMoveY _x;),
            4 => cmd!(" S" MissingEasing; "" "1" Any, MissingStartScale _x;),
            5 => cmd!("_V" MissingEasing; "" "1" Any, MissingScaleX _x; "" "1" Any, MissingScaleY _x;),
            6 => cmd!(" R" MissingEasing; "" "1" Any, MissingStartRotation _x;),
            7 => cmd!(" C" MissingEasing; "" "1" U8, MissingRed InvalidRed; "" "2" U8, MissingGreen InvalidGreen; "" "3" U8, MissingBlue InvalidBlue;
                "" "4" U8, _x InvalidContinuingColours; "" "5" U8, _x InvalidContinuingColours; "" "6" U8, _x InvalidContinuingColours; "" "7" U8, _x InvalidContinuingColours;),
            8 => cmd!(" P" MissingEasing; "" "H" PARAMS, MissingParameterType InvalidParameterType; "" "V" PARAMS, _x InvalidContinuingParameters;
                "" "A" PARAMS, _x InvalidContinuingParameters;),
            9 => run(4, SPRITE, &f!(E: "" "_L" Any, _x _x; "" "1" StartOr, MissingStartTime InvalidStartTime; "" "2" U32, MissingLoopCount InvalidLoopCount;), &mut p, v),
            _ => run(4, SPRITE, &f!(E: "" " T" Any, _x _x; "" "HitSound" TRIGGERS, MissingTriggerType InvalidTriggerType; "" "1" StartOr, _x InvalidStartTime;
                "" "2" StartOr, _x InvalidEndTime; "" "3" I32, _x InvalidGroupNumber;), &mut p, v),
        }
    }
    // colours
    p32_colours / p32_colours__count (3 * PLACES * WAYS) |p| {
        let mut p = Pick(p);
        let k = p.of(3);
        let v = ver_in(5, 14);
        use ParseRgbError as E;
        fn wrap(e: E) -> colours::ParseError { ParseColourError::from(e).into() }
        macro_rules! col {
            ($pre:literal) => {
                run(6, "", &f!(E: $pre "1" Red, _x InvalidRed; "" "2" Red, MissingGreen InvalidGreen; "" "3" Blue, MissingBlue InvalidBlue;), &mut p, v)
            };
        }
        match k {
            0 => col!("Combo1 : "),
            1 => col!("SliderTrackOverride:"),
            _ => col!("SliderBorder : "),
        }
    }
    // what stands in front of the components
    p32_colour_heads / p32_colour_heads__count (4) |p| {
        let v = ver_in(5, 14);
        let x = word(1, |b| printable(b) && !b.is_ascii_digit());
        let w = |e: ParseColourError| show(&colours::ParseError::from(e));
        match p {
            0 => expect(6, "", &cat!("Combo", x, " : 1,2,3"), v, w(ParseColourError::InvalidComboCount)),
            1 if x.as_bytes()[0].is_ascii_alphabetic() => expect(6, "", &cat!("Combo", digit(10).0, x, ": 1,2,3"), v, w(ParseColourError::InvalidColonSeparator)),
            2 if x.as_bytes()[0].is_ascii_alphabetic() => expect(6, "", &cat!("SliderBorder", x, " : 1,2,3"), v, w(ParseColourError::InvalidColonSeparator)),
            3 if x.as_bytes()[0].is_ascii_alphabetic() => expect(6, "", &cat!("SliderTrackOverride", x, " : 1,2,3"), v, w(ParseColourError::InvalidColonSeparator)),
            _ => reach(1),
        }
    }
}
