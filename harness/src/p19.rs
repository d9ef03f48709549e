//! Layout: line ends, blank lines, byte order mark and comments leave the parsed value alone.
use crate::{base::*, p18::*, sym::*};
use osu_file_parser::events::Event;
use osu_file_parser::types::*;
use osu_file_parser::{Events, Osb, OsuFile};

/// lines of a file with every section at a version; ev: more events
fn lines(v: u8) -> Vec<String> {
    let mut l = vec![cat!("osu file format v", v.to_string()), String::new()];
    for k in 0..8 {
        l.push(cat!("[", NAMES[k], "]"));
        for x in content(k, v, "3").lines() {
            l.push(x.to_string());
        }
        if k == 4 {
            for x in ["Sprite,Pass,Centre,s.png,1,2", " L,1,2", "  F,0,1,,0", " MX,0,1,2,3,4"] {
                l.push(x.to_string());
            }
        }
        if k % 2 == 1 {
            l.push(String::new());
        }
    }
    l
}
/// the lines that stay whole: the version line and whatever may not be followed by an inserted line end
fn join(l: &[String], ends: &dyn Fn(usize) -> usize) -> String {
    let mut t = String::with_capacity(900);
    for (i, x) in l.iter().enumerate() {
        t.push_str(x);
        t.push_str(ENDS[ends(i)]);
    }
    t
}
const ENDS: [&str; 6] = ["\n", "\r\n", "\n\n", "\r\n\r\n", "\n \t\n", "\n\n\n"];
fn same(t: &str, f: &OsuFile) {
    match t.parse::<OsuFile>() {
        Ok(g) => chk!(g == *f),
        Err(_) => chk!(false),
    }
}
const VS: [u8; 4] = [14, 3, 4, 9];
const NL: usize = 39;
const OSB: [&str; 9] = ["[Variables]", "$a=1", "$b=x y", "[Events]", "//c", "Sprite,Pass,Centre,s.png,1,2", " L,1,2", "  F,0,1,,$a", "6,1,2,a.wav"];

/// events other than comments
fn without_comments(e: &Events) -> Events {
    Events(e.0.iter().filter(|e| !matches!(e, Event::Comment(_))).cloned().collect())
}

harnesses! {
    // three neighbouring line ends take any form
    p19_ends / p19_ends__count (13 * 4) |p| {
        let mut p = Pick(p);
        let (at, v) = (p.of(13), VS[p.of(4)]);
        let l = lines(v);
        let f = must!(join(&l, &|_| 0).parse::<OsuFile>().ok());
        chk!(l.len() <= NL);
        let e = [below(6) as usize, below(6) as usize, below(6) as usize];
        let t = join(&l, &|i| if i / 3 == at { e[i % 3] } else { 0 });
        same(&t, &f);
        reach(1);
        trace(&std::string::ToString::to_string(&f));
    }
    // one form everywhere but at one line
    p19_uniform / p19_uniform__count (6 * 3) |p| {
        let mut p = Pick(p);
        let (k, v) = (p.of(6), VS[p.of(3)]);
        let l = lines(v);
        let f = must!(join(&l, &|_| 0).parse::<OsuFile>().ok());
        let i = below(l.len() as u8) as usize;
        let t = join(&l, &|j| if i == j { 0 } else { k });
        same(&t, &f);
        reach(1);
    }
    // start and end of the file
    p19_outer / p19_outer__count (5) |p| {
        let v = ver();
        let mut l = vec![];
        for k in [4, 7] {
            l.push(cat!("[", NAMES[k], "]"));
            l.push(content(k, v, "3"));
        }
        let body = cat!(head(v), l.join("\n"));
        let f = must!(body.parse::<OsuFile>().ok());
        let start = ["", "\u{feff}", "\n", "\r\n \r\n", "\n\u{feff}"][p as usize];
        let end = ["", "\n", "\r\n", "\n\n\n", "\n \n", "\n \t\r\n\r\n"];
        let k = below(6) as usize;
        same(&cat!(start, body, end[k]), &f);
        let crlf = cat!(start, body, end[k]).replace("\r\n", "\n").replace('\n', "\r\n");
        same(&crlf, &f);
        reach(1);
    }
    // comment and blank lines before the first section
    p19_before / p19_before__count (4) |p| {
        let v = ver();
        let w = word(3, printable);
        let body = cat!("[Editor]\nGridSize: 3\n[Metadata]\nTitle:x");
        let f = must!(cat!(head(v), body).parse::<OsuFile>().ok());
        let c = cat!(["//", "// ", "  //", "//["][p as usize], w, ["", "]", ":", ""][below(4) as usize]);
        let e = [("\n", ""), ("\r\n", ""), ("\n\n", "\n"), ("\n", "//x\n")][below(4) as usize];
        same(&cat!("osu file format v", v.to_string(), e.0, e.1, c, e.0, body), &f);
        reach(1);
    }
    // comments among events are events of their own and change nothing else
    p19_comment / p19_comment__count (4) |p| {
        let v = ver();
        let w = word(2, printable);
        let l = ["0,0,b.png,1,2", "2,1,2", "Video,3,v", "Sprite,Pass,Centre,s.png,1,2", "5,1,2,s.png", "6,1,2,a.wav"];
        let at = below(7) as usize;
        let c = cat!(["//", "// ", "//[x]", "///"][p as usize], w);
        let base = must!(must!(<Events as VersionedFromStr>::from_str(&l.join("\n"), v).ok()));
        let mut m: Vec<&str> = l.to_vec();
        m.insert(at, &c);
        let t = m.join("\n");
        let e = must!(must!(<Events as VersionedFromStr>::from_str(&t, v).ok()));
        chk!(e.0.len() == 7 && without_comments(&e) == base);
        match &e.0[at] {
            Event::Comment(x) => chk!(cat!("//", x) == c),
            _ => chk!(false),
        }
        let s = must!(VersionedToString::to_string(&e, v));
        trace(&s);
        chk!(s == t);
        reach(1);
    }
    // sections on their own, line ends and blank lines
    p19_section / p19_section__count (8 * 2) |p| {
        let mut p = Pick(p);
        let (k, w) = (p.of(8), p.of(2));
        let v = ver();
        let c = content(k, v, "3");
        let mut f = OsuFile::new(v);
        chk!(put(&mut f, k, &c));
        let l: Vec<&str> = c.lines().collect();
        let mut t = String::new();
        for (i, x) in l.iter().enumerate() {
            t.push_str(x);
            if i + 1 < l.len() || w == 1 {
                t.push_str(ENDS[below(6) as usize]);
            }
        }
        let mut g = OsuFile::new(v);
        chk!(put(&mut g, k, &t) && g == f);
        reach(1);
        trace(&std::string::ToString::to_string(&g));
    }
    // storyboard files
    p19_osb / p19_osb__count (3 * 2) |p| {
        let mut p = Pick(p);
        let (at, w) = (p.of(3), p.of(2));
        let l: Vec<String> = OSB.iter().map(|s| s.to_string()).collect();
        let base = must!(must!(<Osb as VersionedFromStr>::from_str(&join(&l, &|_| 0), 14).ok()));
        let e = [below(6) as usize, below(6) as usize, below(6) as usize];
        let t = join(&l, &|i| if i / 3 == at { e[i % 3] } else { w });
        let t = cat!(["", "\n", "//x\n\r\n", " \n// [y]\n"][below(4) as usize], t);
        let o = must!(must!(<Osb as VersionedFromStr>::from_str(&t, 14).ok()));
        chk!(o == base);
        reach(1);
        trace(&must!(VersionedToString::to_string(&o, 14)));
    }
    // thorough: any two line ends
    p19t_pairs / p19t_pairs__count (39 * 2) |p| {
        let mut p = Pick(p);
        let (i, v) = (p.of(39), VS[p.of(2)]);
        let l = lines(v);
        if i >= l.len() { reach(1); return; }
        let f = must!(join(&l, &|_| 0).parse::<OsuFile>().ok());
        let j = below(l.len() as u8) as usize;
        assume(j > i);
        let (a, b) = (below(6) as usize, below(6) as usize);
        same(&join(&l, &|k| if k == i { a } else if k == j { b } else { 0 }), &f);
        reach(1);
    }
    // long runs of blank lines at any one place
    p19_long / p19_long__count (4 * 3) |p| {
        let mut p = Pick(p);
        let (n, v) = (LONG[p.of(4)], VS[p.of(3)]);
        let l = lines(v);
        let f = must!(join(&l, &|_| 0).parse::<OsuFile>().ok());
        let at = below(l.len() as u8) as usize;
        let e = ["\n", "\r\n", " \n", "\t \r\n"][below(4) as usize];
        let mut t = String::new();
        for (i, x) in l.iter().enumerate() {
            t.push_str(x);
            t.push('\n');
            if i == at { t.push_str(&e.repeat(n)); }
        }
        same(&t, &f);
        reach(1);
    }
}
