//! Errors: index of the defective line and kind, for sections, files and storyboard files.
use crate::{base::*, p18::*, sym::*};
use osu_file_parser::events::normal_event::*;
use osu_file_parser::events::storyboard::error::*;
use osu_file_parser::osb;
use osu_file_parser::types::*;
use osu_file_parser::*;

fn msg<E: std::fmt::Display>(e: E) -> String {
    std::string::ToString::to_string(&e)
}
/// valid lines of a section
fn good(k: usize, i: usize, v: u8) -> &'static str {
    match k {
        0 => ["AudioLeadIn: 1", "Mode: 0", "SkinPreference: a"][i],
        1 => ["GridSize: 4", "BeatDivisor: 4", "TimelineZoom: 1"][i],
        2 => ["Title:a", "Artist:b", "Tags:x"][i],
        3 => ["CircleSize:1", "HPDrainRate:2", "ApproachRate:3"][i],
        4 => ["0,0,b", "Sprite,Pass,Centre,s.png,1,2", " F,0,1,,0"][i],
        5 if v == 3 => ["1,300", "2,300", "3,-100"][i],
        5 if v == 4 => ["1,300,4,1,1", "2,300,4,1,1", "3,-100,4,1,1"][i],
        5 => ["1,300,4,1,1,60,1,0", "2,300,4,1,1,60,1,0", "3,-100,4,1,1,60,0,0"][i],
        6 => ["Combo1 : 1,2,3", "Combo2 : 1,2,3", "SliderBorder : 1,2,3"][i],
        _ => ["1,2,3,1,0,", "1,2,4,1,0,", "1,2,5,8,0,9"][i],
    }
}
/// a defective line at place i of the section, and the message of its kind; None: no such defect at this version or place
fn bad(k: usize, w: usize, x: &str, i: usize, v: u8) -> Option<(String, String)> {
    let int = || msg("x".parse::<i32>().unwrap_err());
    Some(match (k, w) {
        (0, 0) => (cat!("Foo", x, ": 1"), msg(general::ParseError::InvalidKey)),
        (0, 1) => (cat!("PreviewTime: ", x), int()),
        (0, _) => (cat!("foo", x), msg(general::ParseError::InvalidColonSet)),
        (1, 0) => (cat!("Foo", x, ": 1"), msg(editor::ParseError::InvalidKey)),
        (1, 1) => (cat!("CurrentTime: ", x), int()),
        (1, _) => (cat!("foo", x), msg(editor::ParseError::InvalidColonSet)),
        (2, 0) => (cat!("Foo", x, ": 1"), msg(metadata::ParseError::InvalidKey)),
        (2, 1) => (cat!("BeatmapID:", x), int()),
        (2, _) => (cat!("foo", x), msg(metadata::ParseError::InvalidColonSet)),
        (3, 0) => (cat!("Foo", x, ": 1"), msg(difficulty::ParseError::InvalidKey)),
        (3, 1) => (cat!("CircleSize", x, ":1"), msg(difficulty::ParseError::InvalidKey)),
        (3, _) => (cat!("foo", x), msg(difficulty::ParseError::InvalidColonSet)),
        (4, 0) => (cat!("foo", x), msg(events::ParseError::UnknownEventType)),
        (4, 1) => (cat!("2,", x, ",3"), msg(ParseBreakError::InvalidStartTime)),
        (4, 2) if i == 0 => (cat!(" F,0,", x, ",,1"), msg(events::ParseError::StoryboardCmdWithNoSprite)),
        (4, 2) => (cat!(" F,0,", x, ",,1"), msg(ParseCommandError::InvalidStartTime)),
        (4, _) if i == 0 => (cat!(" Q", x, ",0,1,,1"), msg(events::ParseError::StoryboardCmdWithNoSprite)),
        (4, _) => (cat!(" Q", x, ",0,1,,1"), msg(ParseCommandError::UnknownCommandType)),
        (5, 0) => ("5".into(), msg(timingpoints::ParseTimingPointError::MissingBeatLength)),
        (5, 1) if v >= 4 => (cat!("5,1,", x, ",1,1"), msg(timingpoints::ParseTimingPointError::InvalidMeter)),
        (5, 2) if v >= 4 => ("5,1,4".into(), msg(timingpoints::ParseTimingPointError::MissingSampleSet)),
        (6, _) if v <= 4 => return None,
        (6, 0) => (cat!("foo", x), msg(colours::ParseColourError::UnknownColourType)),
        (6, 1) => (cat!("Combo", x, " : 1,2,3"), msg(colours::ParseColourError::InvalidComboCount)),
        (6, _) => (cat!("Combo3 : 1,", x, ",3"), msg(colours::ParseRgbError::InvalidGreen)),
        (7, 0) => (cat!("1"), msg(hitobjects::ParseHitObjectError::MissingY)),
        (7, 1) => (cat!("1,2,3,", x, ",0"), msg(hitobjects::ParseHitObjectError::InvalidObjType)),
        (7, 2) => (cat!("1,2,3,1,", x), msg(hitobjects::ParseHitObjectError::InvalidHitSound)),
        (7, _) => (cat!("1,2,3,4,0"), msg(hitobjects::ParseHitObjectError::UnknownObjType)),
        _ => return None,
    })
}
const W: [usize; 8] = [3, 3, 3, 3, 4, 3, 3, 4];
/// parse one section on its own: line and message of the error
fn section(k: usize, s: &str, v: u8) -> Option<(usize, String)> {
    macro_rules! e {
        ($e:expr) => {
            match $e {
                Ok(_) => None,
                Err(e) => Some((e.line_index(), msg(e.error()))),
            }
        };
    }
    match k {
        0 => e!(General::from_str(s, v)),
        1 => e!(Editor::from_str(s, v)),
        2 => e!(Metadata::from_str(s, v)),
        3 => e!(Difficulty::from_str(s, v)),
        4 => e!(<Events as VersionedFromStr>::from_str(s, v)),
        5 => e!(<TimingPoints as VersionedFromStr>::from_str(s, v)),
        6 => e!(<Colours as VersionedFromStr>::from_str(s, v)),
        _ => e!(<HitObjects as VersionedFromStr>::from_str(s, v)),
    }
}
fn breaks(s: &str) -> usize {
    s.bytes().filter(|b| *b == b'\n').count()
}
const ENDS: [&str; 4] = ["\n", "\n\n", "\r\n", "\n \n\n"];
fn letter() -> String {
    word(1, |b| b.is_ascii_lowercase())
}
fn section_of(e: &ParseError) -> Option<usize> {
    Some(match e {
        ParseError::ParseGeneralError { .. } => 0,
        ParseError::ParseEditorError { .. } => 1,
        ParseError::ParseMetadataError { .. } => 2,
        ParseError::ParseDifficultyError { .. } => 3,
        ParseError::ParseEventsError { .. } => 4,
        ParseError::ParseTimingPointsError { .. } => 5,
        ParseError::ParseColoursError { .. } => 6,
        ParseError::ParseHitObjectsError { .. } => 7,
        _ => return None,
    })
}
/// the body of section k with a defect of kind w at a symbolic place: text, line of the defect, message
fn defective(k: usize, w: usize, v: u8, free: bool) -> Option<(String, usize, String)> {
    let i = below(4) as usize;
    let x = letter();
    let (line, m) = bad(k, w, &x, i, v)?;
    let mut t = String::with_capacity(200);
    let mut at = 0;
    for j in 0..4 {
        let l = if j == i { &line } else { good(k, if j < i { j } else { j - 1 }, v) };
        // a command without its sprite would be a second defect
        if j == i {
            at = breaks(&t);
        }
        t.push_str(l);
        t.push_str(if free { ENDS[below(if j < i { 4 } else { 2 }) as usize] } else { "\n" });
    }
    Some((t, at, m))
}
/// known finding: sections ending in a blank line before the defective line are counted one line short each
fn line_check(got: usize, want: usize, blank_sections: usize, id: u32) {
    if blank_sections > 0 && got + blank_sections == want {
        known(id);
        return;
    }
    chk!(got == want);
}

harnesses! {
    // a section on its own
    p20_section / p20_section__count (8 * 4) |p| {
        let mut p = Pick(p);
        let (k, w) = (p.of(8), p.of(4));
        let v = ver();
        if w >= W[k] { reach(1); return; }
        let (t, at, m) = match defective(k, w, v, true) {
            Some(x) => x,
            None => { reach(1); return; }
        };
        let (l, g) = must!(section(k, &t, v));
        reach(1);
        chk!(l == at);
        chk!(g == m);
        trace(&g);
    }
    // a repeated key is reported where it is repeated
    p20_repeat / p20_repeat__count (4) |p| {
        let k = p as usize;
        let v = ver();
        let (i, j) = (below(3) as usize, below(3) as usize);
        assume(i <= j);
        let mut t = String::new();
        let mut at = 0;
        for n in 0..3 {
            t.push_str(good(k, n, v));
            t.push_str(ENDS[below(4) as usize]);
            if n == j {
                at = breaks(&t);
                t.push_str(good(k, i, v));
                t.push('\n');
            }
        }
        let (l, g) = must!(section(k, &t, v));
        reach(1);
        chk!(l == at);
        chk!(g == match k {
            0 => msg(general::ParseError::DuplicateField),
            1 => msg(editor::ParseError::DuplicateField),
            2 => msg(metadata::ParseError::DuplicateField),
            _ => msg(difficulty::ParseError::DuplicateField),
        });
    }
    // in a file, after zero, one or two other sections
    p20_file / p20_file__count (8 * 4 * 3) |p| {
        let mut p = Pick(p);
        let (k, w, before) = (p.of(8), p.of(4), p.of(3));
        if w >= W[k] { reach(1); return; }
        let v = [14, 5, 4, 3][below(4) as usize];
        let mut t = cat!(["", "\n", "\r\n\n"][below(if before == 0 { 3 } else { 1 }) as usize], "osu file format v", v.to_string(), ["\n", "\n\n", "\n//c\n"][below(3) as usize]);
        let mut blank = 0;
        for n in 0..before {
            let j = (k + 1 + n * 3) % 8;
            let e = below(if before == 1 { 3 } else { 2 }) as usize;
            t.push_str(&cat!("[", NAMES[j], "]", ["\n", "\n\n"][n], good(j, 0, v), "\n", good(j, 1, v), ["\n", "\n\n", "\n\n \n"][e]));
            if e > 0 { blank += 1; }
        }
        t.push_str(&cat!("[", NAMES[k], "]\n"));
        let (s, at, m) = match defective(k, w, v, false) {
            Some(x) => x,
            None => { reach(1); return; }
        };
        let want = breaks(&t) + at;
        t.push_str(&s);
        if before == 0 {
            t.push_str("\n[Foo]\n");
        }
        match t.parse::<OsuFile>() {
            Ok(_) => chk!(false),
            Err(e) => {
                reach(1);
                chk!(section_of(e.error()) == Some(k));
                // the indentation of a section's first line is not part of the section
                let g = msg(e.error());
                chk!(g == m || (k == 4 && w >= 2 && at == 0 && g == msg(events::ParseError::UnknownEventType)));
                line_check(e.line_index(), want, blank, 1);
            }
        }
    }
    // header errors
    p20_header / p20_header__count (5 * 3) |p| {
        let mut p = Pick(p);
        let (kind, before) = (p.of(5), p.of(3));
        let v = [14, 3][below(2) as usize];
        let x = letter();
        let mut t = cat!("osu file format v", v.to_string(), ["\n", "\n\n", "\n//c\n\n"][below(3) as usize]);
        let mut blank = 0;
        let first = below(8) as usize;
        for n in 0..before {
            let j = (first + n * 3) % 8;
            let e = below(2) as usize;
            t.push_str(&cat!("[", NAMES[j], "]\n", good(j, 0, v), "\n", good(j, 1, v), ["\n", "\n\n"][e]));
            if e > 0 { blank += 1; }
        }
        let want = breaks(&t);
        let name = NAMES[(first + 1) % 8];
        let (h, m) = match kind {
            0 => (cat!("[Foo", x, "]\n"), msg(ParseError::UnknownSection)),
            1 if before > 0 => (cat!("[", NAMES[first], "]\n"), msg(ParseError::DuplicateSections)),
            2 => (cat!("[", name, "\nx"), msg(ParseError::SectionNameNoCloseBracket(name.into()))),
            3 if before == 0 => (cat!(name, "]\n"), msg(ParseError::SectionNameNoOpenBracket(cat!(name, "]")))),
            4 if before == 0 => (cat!("foo", x, "\n[Editor]\n"), msg(ParseError::UnexpectedLine)),
            _ => { reach(1); return; }
        };
        t.push_str(&h);
        match t.parse::<OsuFile>() {
            Ok(_) => chk!(false),
            Err(e) => {
                reach(1);
                chk!(msg(e.error()) == m);
                line_check(e.line_index(), want, blank, 2);
            }
        }
    }
    // the version line
    p20_version / p20_version__count (3) |p| {
        let lead = below(4) as usize;
        let pre = ["", "\n", "\r\n \n", "\n\n\n"][lead];
        let x = letter();
        let (l, m) = match p {
            0 => (cat!("osu file format v", x), msg(ParseError::InvalidFileVersion)),
            1 => (cat!("osu file format v", int(1, false).0), msg(ParseError::InvalidFileVersion)),
            _ => (cat!("osu format v1", x), msg(ParseError::FileVersionDefinedWrong)),
        };
        match cat!(pre, l, "\n[Editor]\n").parse::<OsuFile>() {
            Ok(f) => chk!(p == 1 && f.version >= 3),
            Err(e) => {
                reach(1);
                chk!(msg(e.error()) == m);
                chk!(e.line_index() == breaks(pre));
            }
        }
    }
    // storyboard files
    p20_osb / p20_osb__count (6 * 2) |p| {
        let mut p = Pick(p);
        let (kind, order) = (p.of(6), p.of(2));
        let x = letter();
        let i = below(3) as usize;
        let end = |n: u8| ENDS[below(n) as usize];
        let mut t = cat!(["", "\n", "//c\n"][below(3) as usize]);
        let vars = |bad: Option<&str>| -> (String, usize) {
            let mut s = cat!("[Variables]\n");
            let mut at = 0;
            for j in 0..3 {
                if let (Some(b), true) = (bad, i == j) {
                    at = breaks(&s);
                    s.push_str(b);
                    s.push_str("\n");
                }
                if j < 2 {
                    s.push_str(["$a=1", "$b=2"][j]);
                    s.push_str(end(4));
                }
            }
            (s, at)
        };
        let evs = |bad: Option<&str>| -> (String, usize) {
            let mut s = cat!("[Events]\n");
            let mut at = 0;
            for j in 0..3 {
                if let (Some(b), true) = (bad, i == j) {
                    at = breaks(&s);
                    s.push_str(b);
                    s.push_str("\n");
                }
                if j < 2 {
                    s.push_str(["0,0,b", "Sprite,Pass,Centre,s.png,1,2"][j]);
                    s.push_str(end(2));
                }
            }
            (s, at)
        };
        let want;
        let m;
        match kind {
            0 | 1 => {
                let b = if kind == 0 { cat!(x, "=1") } else { cat!("$", x) };
                m = msg(if kind == 0 { osb::ParseVariableError::MissingHeader } else { osb::ParseVariableError::MissingEquals });
                if order == 1 { t.push_str(&evs(None).0); }
                let (s, at) = vars(Some(&b));
                want = breaks(&t) + at;
                t.push_str(&s);
            }
            2 | 3 => {
                let b = if kind == 2 { cat!("foo", x) } else { cat!(" F,0,", x, ",,1") };
                m = if kind == 2 { msg(events::ParseError::UnknownEventType) } else if i == 0 { msg(events::ParseError::StoryboardCmdWithNoSprite) } else { msg(ParseCommandError::InvalidStartTime) };
                if order == 1 { t.push_str(&vars(None).0); }
                let (s, at) = evs(Some(&b));
                want = breaks(&t) + at;
                t.push_str(&s);
            }
            4 => {
                t.push_str(&if order == 1 { vars(None).0 } else { evs(None).0 });
                want = breaks(&t);
                m = msg(osb::ParseError::UnknownSection);
                t.push_str(&cat!("[", x, "]\n"));
            }
            _ => {
                t.push_str(&if order == 1 { vars(None).0 } else { evs(None).0 });
                want = breaks(&t);
                m = msg(osb::ParseError::DuplicateSections);
                t.push_str(if order == 1 { "[Variables]\n" } else { "[Events]\n" });
            }
        }
        match <Osb as VersionedFromStr>::from_str(&t, 14) {
            Ok(_) => chk!(false),
            Err(e) => {
                reach(1);
                let g = msg(e.error());
                chk!(g == m || (kind == 3 && i == 0 && g == msg(events::ParseError::UnknownEventType)));
                chk!(e.line_index() == want);
                match OsuFile::new(14).append_osb(&t) {
                    Ok(_) => chk!(false),
                    Err(e) => chk!(e.line_index() == want && msg(e.error()) == g),
                }
            }
        }
    }
    // the rendered error names the line
    p20_display / p20_display__count (2) |p| {
        let i = below(4) as usize;
        let x = letter();
        let l = ["Title:a", "Artist:b", "Source:c"];
        let mut t: Vec<String> = l.iter().map(|s| s.to_string()).collect();
        let bad = cat!("Foo", x, ":1");
        t.insert(i, bad.clone());
        let t = t.join(if p == 0 { "\n" } else { "\r\n" });
        match Metadata::from_str(&t, 14) {
            Ok(_) => chk!(false),
            Err(e) => {
                reach(1);
                let m = msg(metadata::ParseError::InvalidKey);
                chk!(e.line_index() == i && matches!(e.error(), metadata::ParseError::InvalidKey));
                chk!(msg(&e) == cat!("Line ", (i + 1).to_string(), ", ", m));
                let d = e.display_error_with_line(&t);
                trace(&d);
                chk!(d == cat!("Line ", (i + 1).to_string(), ": ", bad, ", ", m));
            }
        }
    }
    // the conversions of an error keep its line and what it says
    p20_error / p20_error__count (1) |_p| {
        let (i, j) = (byte() as usize, byte() as usize);
        let x = || metadata::ParseError::InvalidKey;
        fn same<E: std::error::Error + 'static>(e: &Error<E>, line: usize) {
            chk!(e.line_index() == line);
            let m = msg(metadata::ParseError::InvalidKey);
            chk!(std::string::ToString::to_string(e.error()) == m);
            let d = std::string::ToString::to_string(e);
            trace(&d);
            chk!(d == cat!("Line ", (line + 1).to_string(), ", ", m));
            chk!(std::error::Error::source(e).is_none());
        }
        reach(1);
        same(&Error::new(x(), i), i);
        same(&Error::from(x()), 0);
        same::<ParseError>(&Error::new_into(x(), i), i);
        same::<ParseError>(&Error::new(x(), i).error_into(), i);
        let r = |ok: bool| if ok { Ok(7u8) } else { Err(x()) };
        let ok = flag();
        match Error::new_from_result(r(ok), i) {
            Ok(n) => chk!(ok && n == 7),
            Err(e) => { chk!(!ok); same(&e, i) }
        }
        match Error::new_from_result_into::<_, ParseError>(r(ok), i) {
            Ok(n) => chk!(ok && n == 7),
            Err(e) => { chk!(!ok); same(&e, i) }
        }
        let r = |ok: bool| if ok { Ok(7u8) } else { Err(Error::new(x(), i)) };
        match Error::error_result_into::<_, ParseError>(r(ok)) {
            Ok(n) => chk!(ok && n == 7),
            Err(e) => { chk!(!ok); same(&e, i) }
        }
        match Error::processing_line::<_, ParseError>(r(ok), j) {
            Ok(n) => chk!(ok && n == 7),
            Err(e) => { chk!(!ok); same(&e, i + j) }
        }
    }
    // a defect in a long section
    p20_long / p20_long__count (4 * 5 * 2) |p| {
        let mut p = Pick(p);
        let (n, k, file) = (LONG[p.of(4)], 3 + p.of(5), p.of(2) == 1);
        let v = ver_in(5, 14);
        let at = below(n as u8) as usize;
        let x = letter();
        // blank lines may not come before the first key
        let mut t = if k == 3 { "ApproachRate:1\n" } else { "" }.to_string();
        let mut want = 0;
        let mut m = String::new();
        for i in 0..n {
            let s = i.to_string();
            if i == at {
                want = breaks(&t);
                let (l, e) = must!(bad(k, if k == 7 { 2 } else { 0 }, &x, 1, v));
                t.push_str(&l);
                m = e;
            } else {
                // a section of keys has few lines
                t.push_str(&match k {
                    3 => String::new(),
                    4 => [cat!("2,", s, ",9"), cat!("//", s), cat!("Sprite,Pass,Centre,s.png,1,", s, "\n L,", s, ",2\n  F,0,1,,0\n")][mix(i, 3)].clone(),
                    5 => cat!(s, ",300,4,1,1,60,1,0"),
                    6 => cat!("Combo", s, " : 1,2,3"),
                    _ => cat!("1,2,", s, ",1,0"),
                });
            }
            t.push_str(["\n", "\r\n", "\n\n"][mix(i, 3)]);
        }
        let r = if file {
            let t = cat!(head(v), "[", NAMES[k], "]\n", t);
            want += 3;
            match t.parse::<OsuFile>() {
                Ok(_) => None,
                Err(e) => Some((e.line_index(), msg(e.error()))),
            }
        } else {
            section(k, &t, v)
        };
        let (line, e) = must!(r);
        reach(1);
        chk!(line == want);
        chk!(e == m);
    }
}
