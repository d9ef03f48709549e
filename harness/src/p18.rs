//! Section framing: version line, section headers in any order and subset, printing in the fixed order.
use crate::{base::*, sym::*};
use osu_file_parser::types::*;
use osu_file_parser::{Colours, Difficulty, Editor, Events, General, HitObjects, Metadata, OsuFile, ParseError, TimingPoints};

pub const NAMES: [&str; 8] = ["General", "Editor", "Metadata", "Difficulty", "Events", "TimingPoints", "Colours", "HitObjects"];
/// canonical content of a section at a version, with one symbolic digit x
pub fn content(k: usize, v: u8, x: &str) -> String {
    match k {
        0 => cat!("AudioLeadIn: ", x, "\nStackLeniency: 0.5"),
        1 => cat!("Bookmarks: 1,2", x, "\nGridSize: 4"),
        2 => cat!("Title:a [b] ", x, "\nTags:x y"),
        3 => cat!("HPDrainRate:", x, "\nCircleSize:4.2"),
        4 => cat!("0,0,b.png\n2,100,20", x, "\n//c"),
        5 => cat!(["1", x].concat(), if v == 3 { ",300" } else if v == 4 { ",300,4,1,1" } else { ",300,4,1,1,60,1,0" }),
        6 => cat!("Combo1 : 1,2,", x, "\nCombo2 : 3,4,5"),
        _ => cat!("1,2,5", x, if v == 3 { ",1,0," } else { ",1,0" }),
    }
}
/// the section parsed on its own, put into the file
pub fn put(f: &mut OsuFile, k: usize, s: &str) -> bool {
    let v = f.version;
    macro_rules! p {
        ($f:ident, $e:expr) => {
            match $e {
                Ok(x) => f.$f = x,
                Err(_) => return false,
            }
        };
    }
    match k {
        0 => p!(general, General::from_str(s, v)),
        1 => p!(editor, Editor::from_str(s, v)),
        2 => p!(metadata, Metadata::from_str(s, v)),
        3 => p!(difficulty, Difficulty::from_str(s, v)),
        4 => p!(events, <Events as VersionedFromStr>::from_str(s, v)),
        5 => p!(timing_points, <TimingPoints as VersionedFromStr>::from_str(s, v)),
        6 => p!(colours, <Colours as VersionedFromStr>::from_str(s, v)),
        _ => p!(hitobjects, <HitObjects as VersionedFromStr>::from_str(s, v)),
    }
    true
}
pub fn head(v: u8) -> String {
    cat!("osu file format v", v.to_string(), "\n\n")
}
fn text_of(f: &OsuFile) -> String {
    std::string::ToString::to_string(f)
}
/// distinct symbolic section numbers
fn pick_distinct(n: usize) -> Vec<usize> {
    let mut o: Vec<usize> = vec![];
    for _ in 0..n {
        let k = below(8) as usize;
        for j in &o {
            assume(*j != k);
        }
        o.push(k);
    }
    o
}
/// a file of the sections in that order is the sum of its sections
fn ordered(v: u8, order: &[usize], sep: usize) {
    let mut f = OsuFile::new(v);
    let (d, _) = digit(10);
    let mut t = String::with_capacity(600);
    t.push_str(&head(v));
    let mut parts: Vec<Option<String>> = vec![None; 8];
    for (i, k) in order.iter().enumerate() {
        // the symbolic digit is in the first section, the others have their own fixed one
        let x = if i == 0 { d.clone() } else { raw(vec![b'1' + *k as u8]) };
        let c = content(*k, v, &x);
        chk!(put(&mut f, *k, &c));
        t.push_str(&cat!("[", NAMES[*k], "]\n", c, ["\n\n", "\n", "\n\n\n", "\r\n"][(sep + i * (sep / 4)) % 4]));
        parts[*k] = Some(c);
    }
    let g = match t.parse::<OsuFile>() {
        Ok(g) => g,
        Err(_) => {
            chk!(false);
            return;
        }
    };
    chk!(g == f);
    for k in 0..8 {
        let have = match k {
            0 => g.general.is_some(),
            1 => g.editor.is_some(),
            2 => g.metadata.is_some(),
            3 => g.difficulty.is_some(),
            4 => g.events.is_some(),
            5 => g.timing_points.is_some(),
            6 => g.colours.is_some(),
            _ => g.hitobjects.is_some(),
        };
        chk!(have == (parts[k].is_some() && (k != 6 || v >= 5)));
    }
    chk!(g.version == v);
    reach(1);
    let s = text_of(&g);
    trace(&s);
    let mut e = head(v);
    let mut first = true;
    for k in 0..8 {
        if let Some(c) = &parts[k] {
            if k == 6 && v <= 4 {
                continue;
            }
            if !first {
                e.push_str("\n\n");
            }
            first = false;
            // Difficulty may align its values
            let c = if k == 3 { must!(f.difficulty.as_ref().and_then(|d| d.to_string(v))) } else { c.clone() };
            e.push_str(&cat!("[", NAMES[k], "]\n", c));
        }
    }
    chk!(s == e);
}
fn err_name(t: &str) -> Option<&'static str> {
    Some(match t.parse::<OsuFile>() {
        Ok(_) => return None,
        Err(e) => match e.error() {
            ParseError::InvalidFileVersion => "InvalidFileVersion",
            ParseError::FileVersionDefinedWrong => "FileVersionDefinedWrong",
            ParseError::UnexpectedLine => "UnexpectedLine",
            ParseError::DuplicateSections => "DuplicateSections",
            ParseError::UnknownSection => "UnknownSection",
            ParseError::SectionNameNoOpenBracket(_) => "SectionNameNoOpenBracket",
            ParseError::SectionNameNoCloseBracket(_) => "SectionNameNoCloseBracket",
            _ => "section",
        },
    })
}
/// the i-th order of all eight sections: the first two are symbolic, the others follow rotated and possibly reversed
fn all(p: u32, free: usize) -> Vec<usize> {
    let mut o = pick_distinct(free);
    let mut rest: Vec<usize> = (0..8).filter(|k| !o.contains(k)).collect();
    let n = rest.len();
    rest.rotate_left(p as usize / 2 % n);
    if p % 2 == 1 {
        rest.reverse();
    }
    o.extend(rest);
    o
}

harnesses! {
    // one, two or three sections in any order
    p18_some / p18_some__count (3 * 4) |p| {
        let mut p = Pick(p);
        let (n, s) = (1 + p.of(3), p.of(4));
        let v = if n < 3 { ver() } else { [14, 5, 4, 3][s] };
        let o = pick_distinct(n);
        ordered(v, &o, s);
    }
    // all eight sections
    p18_all / p18_all__count (12) |p| {
        let v = [14, 9, 5, 4, 3, 13][p as usize % 6];
        let o = all(p, 2);
        ordered(v, &o, p as usize);
    }
    // any subset of the sections of a value: printed in order, and read back as the same value
    p18_subset / p18_subset__count (16) |p| {
        let v = if p % 2 == 0 { 14 } else { 8 };
        let mut f = OsuFile::new(v);
        let mut e = head(v);
        let mut first = true;
        for k in 0..8 {
            let on = if k < 3 { p >> (k + 1) & 1 == 1 } else { flag() };
            if on {
                let c = content(k, v, "3");
                chk!(put(&mut f, k, &c));
                if !first { e.push_str("\n\n"); }
                first = false;
                e.push_str(&cat!("[", NAMES[k], "]\n", c));
            }
        }
        let s = text_of(&f);
        trace(&s);
        reach(1);
        chk!(s == e);
        chk!(must!(s.parse::<OsuFile>().ok()) == f);
    }
    // empty sections are sections
    p18_empty / p18_empty__count (8 * 4) |p| {
        let mut p = Pick(p);
        let (k, w) = (p.of(8), p.of(4));
        let v = ver();
        let j = below(8) as usize;
        assume(j != k);
        let c = content(j, v, "3");
        let gap = ["", "\n", "\n\n", "\r\n \n"][w];
        // the empty section first, then last
        let mut f = OsuFile::new(v);
        chk!(put(&mut f, k, "") && put(&mut f, j, &c));
        let a = must!(cat!(head(v), "[", NAMES[k], "]", if w == 0 { "\n" } else { "" }, gap, "[", NAMES[j], "]\n", c, "\n").parse::<OsuFile>().ok());
        chk!(a == f);
        let b = must!(cat!(head(v), "[", NAMES[j], "]\n", c, "\n[", NAMES[k], "]", gap).parse::<OsuFile>().ok());
        chk!(b == f);
        reach(1);
        let s = text_of(&a);
        trace(&s);
        chk!(must!(s.parse::<OsuFile>().ok()) == f);
    }
    // section names are matched exactly
    p18_name / p18_name__count (8 * 2) |p| {
        let mut p = Pick(p);
        let (k, w) = (p.of(8), p.of(2));
        let v = ver();
        let mut n = NAMES[k].as_bytes().to_vec();
        let b = byte();
        assume(b < 0x80 && b != b']' && b != b'\n' && b != b'\r');
        if w == 0 {
            let i = below(n.len() as u8) as usize;
            n[i] = b;
        } else {
            let i = below(n.len() as u8 + 1) as usize;
            n.insert(i, b);
        }
        let n = raw(n);
        let r = err_name(&cat!(head(v), "[", n, "]\n"));
        reach(1);
        if NAMES.contains(&n.as_str()) {
            chk!(r.is_none());
        } else {
            chk!(r == Some("UnknownSection"));
        }
    }
    p18_unknown / p18_unknown__count (8) |p| {
        // a free name of n bytes
        let n = [0, 1, 2, 6, 7, 8, 10, 12][p as usize];
        let w = word(n, |b| b != b']' && b != b'\n' && b != b'\r');
        let r = err_name(&cat!(head(14), "[", w, "]\n"));
        reach(1);
        chk!(r == if NAMES.contains(&w.as_str()) { None } else { Some("UnknownSection") });
        // the same after a section
        let r = err_name(&cat!(head(14), "[Colours]\nCombo1 : 1,2,3\n\n[", w, "]\n"));
        chk!(r == if w == "Colours" { Some("DuplicateSections") } else if NAMES.contains(&w.as_str()) { None } else { Some("UnknownSection") });
    }
    // a section may not be repeated, whatever is between
    p18_twice / p18_twice__count (4) |p| {
        let v = ver();
        let k = below(8) as usize;
        let mid = below(8) as usize;
        let c = content(k, v, "3");
        let mut t = cat!(head(v), "[", NAMES[k], "]\n", c, "\n\n");
        if mid != k {
            t.push_str(&cat!("[", NAMES[mid], "]\n", content(mid, v, "4"), "\n\n"));
        }
        t.push_str(&cat!("[", NAMES[k], "]", ["\n", "", "\n\n", "\nx"][p as usize]));
        if p == 0 {
            t.push_str(&c);
        }
        reach(1);
        chk!(err_name(&t) == Some("DuplicateSections"));
    }
    // malformed headers
    p18_bracket / p18_bracket__count (6) |p| {
        let v = ver();
        let k = below(8) as usize;
        let w = word(2, |b| plain(b) && b != b'[' && b != b']' && b != b'/');
        let c = content(k, v, "3");
        let (t, e) = match p {
            0 => (cat!(head(v), NAMES[k], "]\n", c), "SectionNameNoOpenBracket"),
            1 => (cat!(head(v), w, "]\n", c), "SectionNameNoOpenBracket"),
            2 => (cat!(head(v), "[", NAMES[k], "\n", c), "SectionNameNoCloseBracket"),
            3 => (cat!(head(v), "[", w, "\n", c, "\n"), "SectionNameNoCloseBracket"),
            4 => (cat!(head(v), "[", NAMES[(k + 1) % 8], "]\n\n[", NAMES[k], "\n", c), "SectionNameNoCloseBracket"),
            _ => (cat!(head(v), "[", NAMES[(k + 1) % 8], "]\n", content((k + 1) % 8, v, "3"), "\n[", w), "SectionNameNoCloseBracket"),
        };
        reach(1);
        chk!(err_name(&t) == Some(e));
    }
    // stray lines before the first section
    p18_stray / p18_stray__count (6) |p| {
        let v = ver();
        let w = word(3, printable);
        let t = w.trim();
        let pre = ["", "\n", "//x\n", "  \n// [y]\n", "\r\n", "\t//\n\n"][p as usize];
        let text = cat!("osu file format v", v.to_string(), "\n", pre, w, "\n[Editor]\nGridSize: 3");
        let r = err_name(&text);
        reach(1);
        if t.is_empty() || t.starts_with("//") {
            chk!(r.is_none());
        } else if t.starts_with('[') || t.ends_with(']') {
            chk!(r.is_some());
        } else {
            chk!(r == Some("UnexpectedLine"));
        }
    }
    // the version line
    p18_version / p18_version__count (3) |p| {
        let w = word(1 + p as usize, |b| b != b'\n' && b != b'\r');
        let t = cat!("osu file format v", w, "\n[Editor]\nGridSize: 3");
        let r = t.parse::<OsuFile>();
        reach(1);
        let known = ["3", "4", "5", "6", "7", "8", "9", "10", "11", "12", "13", "14"].iter().position(|s| *s == w);
        match r {
            Ok(f) => {
                // leading zeros and a plus sign do not change a number
                let n = w.strip_prefix('+').unwrap_or(&w);
                let n = n.trim_start_matches('0');
                chk!(n == f.version.to_string() && (3..=14).contains(&f.version));
                chk!(f.editor.is_some());
            }
            Err(e) => {
                chk!(known.is_none());
                chk!(matches!(e.error(), ParseError::InvalidFileVersion));
            }
        }
    }
    p18_format / p18_format__count (3) |p| {
        let v = ver();
        let h = cat!("osu file format v", v.to_string());
        match p {
            0 => {
                // one byte of the fixed part replaced
                let mut n = h.as_bytes().to_vec();
                let i = below(17) as usize;
                let b = byte();
                assume(b < 0x80 && b != n[i]);
                n[i] = b;
                reach(1);
                chk!(err_name(&cat!(raw(n), "\n[Editor]\n")) == Some("FileVersionDefinedWrong"));
            }
            1 => {
                // one byte missing
                let mut n = h.as_bytes().to_vec();
                let i = below(17) as usize;
                n.remove(i);
                reach(1);
                chk!(err_name(&cat!(raw(n), "\n[Editor]\n")) == Some("FileVersionDefinedWrong"));
            }
            _ => {
                // text before it
                let w = word(2, printable);
                let r = err_name(&cat!(w, h, "\n[Editor]\n"));
                reach(1);
                chk!(r == if w == "  " { None } else { Some("FileVersionDefinedWrong") });
            }
        }
    }
    // brackets inside the content do not open sections
    p18_inside / p18_inside__count (6) |p| {
        let v = ver();
        let w = word(2, |b| printable(b) && b != b'"');
        assume(w.as_bytes()[0] != b' ');
        let n = NAMES[below(8) as usize];
        let (k, c) = match p {
            0 => (2, cat!("Title:", w, "[", n, "]\nCreator:[", n, "]")),
            1 => (0, cat!("SkinPreference: ", w, "[", n, "]\nMode: 0")),
            2 => (4, cat!("//[", n, "]", w, "\n2,1,2")),
            3 => (4, cat!("0,0,\"", w, "[", n, "]\",1,2\n2,1,2")),
            4 => (2, cat!("Tags:[", n, "] ", w)),
            _ => (4, cat!("// ", w, "\n//[", n, "]\n//[x\n2,3,4")),
        };
        if p == 3 { assume(w.bytes().all(|b| b != b',')); }
        let mut f = OsuFile::new(v);
        chk!(put(&mut f, k, &c) && put(&mut f, 1, "GridSize: 3"));
        let g = must!(cat!(head(v), "[", NAMES[k], "]\n", c, "\n[Editor]\nGridSize: 3").parse::<OsuFile>().ok());
        reach(1);
        chk!(g == f);
        let s = text_of(&g);
        trace(&s);
        chk!(must!(s.parse::<OsuFile>().ok()) == f);
    }
    // thorough: four sections in any order, and all eight with three free places
    p18t_some / p18t_some__count (4) |p| {
        let o = pick_distinct(4);
        ordered([14, 6, 4, 3][p as usize], &o, p as usize * 4 + 1);
    }
    p18t_all / p18t_all__count (10) |p| {
        let o = all(p, 3);
        ordered([14, 3][p as usize % 2], &o, p as usize);
    }
    // large files
    p18_long / p18_long__count (4 * 3) |p| {
        let mut p = Pick(p);
        let (n, w) = (LONG[p.of(4)], p.of(3));
        let v = [14, 4, 9][w];
        let rot = below(8) as usize;
        let mut f = OsuFile::new(v);
        let mut parts = vec![];
        for k in 0..8 {
            let mut c = content(k, v, "3");
            // the list sections have n more entries each
            for i in 0..if k >= 4 { n } else { 0 } {
                let t = (i * 7 + mix(i, 6)).to_string();
                c.push_str(&match k {
                    4 => [cat!("\n2,", t, ",9"), cat!("\n//[", t, "]"), cat!("\n0,", t, ",b.png"), cat!("\nSprite,Pass,Centre,s.png,1,2\n F,0,", t, ",,1")][mix(i, 4)].clone(),
                    5 => cat!("\n", t, if v == 4 { ",300,4,1,1" } else { ",300,4,1,1,60,1,0" }),
                    6 => cat!("\nCombo", (3 + i).to_string(), " : 1,2,3"),
                    _ => [cat!("\n1,2,", t, ",1,0"), cat!("\n1,2,", t, ",8,0,99999"), cat!("\n1,2,", t, ",6,2,B|1:2|3:4,1,9")][mix(i, 3)].clone(),
                });
            }
            chk!(put(&mut f, k, &c));
            parts.push(c);
        }
        let mut t = head(v);
        for i in 0..8 {
            let k = if w == 1 { (rot + 8 - i) % 8 } else { (rot + i) % 8 };
            t.push_str(&cat!("\n".repeat(mix(i, n)), "[", NAMES[k], "]\n", parts[k], "\n"));
        }
        let g = must!(t.parse::<OsuFile>().ok());
        chk!(g == f);
        reach(1);
        let mut e = vec![];
        for k in 0..8 {
            if k == 6 && v <= 4 { continue; }
            let c = if k == 3 { must!(f.difficulty.as_ref().and_then(|d| d.to_string(v))) } else { parts[k].clone() };
            e.push(cat!("[", NAMES[k], "]\n", c));
        }
        chk!(text_of(&g) == cat!(head(v), e.join("\n\n")));
    }
}
