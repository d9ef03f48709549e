//! Storyboard files: variables expand on parsing and fold back on printing.
use crate::{base::*, sym::*};
use osu_file_parser::osb::{ParseVariableError, Variable};
use osu_file_parser::types::*;
use osu_file_parser::{Events, Osb, OsuFile};

/// commands as fields after the letter; every field is a number with one symbolic digit or fixed
const CMDS: [(&str, &[&str]); 11] = [
    ("F", &["0", "1#", "2#", "0.#"]),
    ("M", &["3", "1#", "2#", "#", "-#.5", "7"]),
    ("MX", &["4", "#", "", "-#"]),
    ("S", &["0", "#", "9", "#", "1#", "2"]),
    ("V", &["1", "#", "9", "1.#", "3"]),
    ("R", &["0", "#", "9", "-0.#"]),
    ("C", &["0", "#", "9", "1#", "2", "3"]),
    ("P", &["0", "#", "9", "H"]),
    ("L", &["#", "4#"]),
    ("T", &["HitSoundClap", "1#", "2#", "#"]),
    ("T", &["Passing", "1#"]),
];
/// the fields with their symbolic digits filled in
fn fields(k: usize) -> Vec<String> {
    CMDS[k].1.iter().map(|f| match f.split_once('#') {
        Some((a, b)) => {
            // negative zero is printed without its sign
            let d = 1 + below(9);
            cat!(a, raw(vec![b'0' + d]), b)
        }
        None => f.to_string(),
    }).collect()
}
fn var(n: &str, v: &str) -> Variable {
    Variable { name: n.into(), value: v.into() }
}
/// textual expansion: the oracle for parsing
fn expand(s: &str, vars: &[Variable]) -> String {
    let mut s = s.to_string();
    for v in vars {
        s = s.replace(&cat!("$", v.name), &v.value);
    }
    s
}
const HEADS: [&str; 4] = ["Sprite,Pass,Centre,s.png,1,2\n ", "0,0,b\n ", "5,1,2,s.png\n L,5,6\n  ", "Animation,Fail,TopLeft,a.png,1,2,3,4,LoopOnce\n T,Failing,5,6\n  L,0,7\n   "];
fn block(vars: &[Variable]) -> String {
    let l: Vec<String> = vars.iter().map(|v| cat!("$", v.name, "=", v.value)).collect();
    cat!("[Variables]\n", l.join("\n"))
}
/// parse the storyboard, compare its events with the expanded ones, print and parse again
fn same(vars: &[Variable], text: &str, full: &str) -> Option<String> {
    let o = match <Osb as VersionedFromStr>::from_str(&cat!(block(vars), "\n\n[Events]\n", text, "\n"), 14) {
        Ok(Some(o)) => o,
        _ => {
            chk!(false);
            return None;
        }
    };
    let e = <Events as VersionedFromStr>::from_str(full, 14);
    chk!(e.is_ok());
    let e = e.ok().flatten();
    chk!(e.is_some() && o.events == e);
    chk!(o.variables.as_deref() == Some(vars));
    let s = match VersionedToString::to_string(&o, 14) {
        Some(s) => s,
        None => {
            chk!(false);
            return None;
        }
    };
    trace(&s);
    reach(1);
    let pre = cat!(block(vars), "\n\n[Events]\n");
    chk!(s.starts_with(&pre));
    let ev = s[pre.len()..].to_string();
    // what is printed means the same
    chk!(Some(expand(&ev, vars)) == e.and_then(|e| VersionedToString::to_string(&e, 14)));
    match <Osb as VersionedFromStr>::from_str(&s, 14) {
        Ok(Some(r)) => {
            chk!(r == o);
            chk!(VersionedToString::to_string(&r, 14) == Some(s));
        }
        _ => chk!(false),
    }
    Some(ev)
}
/// text after the first comma of the last line
fn tail(ev: &str) -> &str {
    let l = ev.rsplit('\n').next().unwrap_or("");
    l.split_once(',').map_or("", |x| x.1)
}

harnesses! {
    // one variable for the value of one field, used there or not, anywhere else it may occur too
    p21_one / p21_one__count (CMDS.len() * 2) |p| {
        let mut p = Pick(p);
        let (k, h) = (p.of(CMDS.len()), p.of(2) * 2);
        let f = fields(k);
        let i = below(f.len() as u8) as usize;
        // the trigger name of a T command and the parameter of a P command may be variables too
        assume(!f[i].is_empty());
        let vars = [var("ab", &f[i])];
        let used: Vec<String> = f.iter().enumerate().map(|(j, x)| if j == i { "$ab".to_string() } else { x.clone() }).collect();
        let full = cat!(HEADS[h], CMDS[k].0, ",", f.join(","));
        let text = cat!(HEADS[h], CMDS[k].0, ",", used.join(","));
        let ev = must!(same(&vars, &text, &full));
        // the value is folded back
        chk!(!tail(&ev).contains(&f[i]));
        chk!(tail(&ev).contains("$ab"));
    }
    // any subset of the fields uses one of two variables, or a part of the text
    p21_two / p21_two__count (CMDS.len() * 4) |p| {
        let mut p = Pick(p);
        let (k, h) = (p.of(CMDS.len()), p.of(4));
        let mut f: Vec<String> = CMDS[k].1.iter().map(|f| f.replace('#', "6")).collect();
        let n = f.len();
        let (a, b) = (cat!("7", digit(10).0), ["H", "0", "Clap", "9"][h]);
        let vars = [var("x", &a), var("yz", b)];
        let mut used = f.clone();
        for i in 0..n {
            // times and numbers
            if f[i].contains(|c: char| c.is_ascii_digit()) && i > 0 {
                match below(if i < 3 { 3 } else { 2 }) {
                    0 => {}
                    1 => { f[i] = a.clone(); used[i] = "$x".into(); }
                    _ => { f[i] = cat!("1", a); used[i] = "1$x".into(); }
                }
            } else if f[i].contains(b) && flag() {
                used[i] = f[i].replace(b, "$yz");
            }
        }
        let full = cat!(HEADS[h], CMDS[k].0, ",", f.join(","));
        let text = cat!(HEADS[h], CMDS[k].0, ",", used.join(","));
        must!(same(&vars, &text, &full));
    }
    // a value may span fields, be negative, fractional, or empty
    p21_span / p21_span__count (6) |p| {
        let x = int(1 + p as usize % 2, false).0;
        let (val, text, full) = match p {
            0 => (cat!("0,", x), "M,$q,5,1,2".to_string(), cat!("M,0,", x, ",5,1,2")),
            1 => (cat!("0,", x, ",5,1,2"), "M,$q".to_string(), cat!("M,0,", x, ",5,1,2")),
            2 => (cat!("-3.", x), "R,0,1,2,$q,$q".to_string(), cat!("R,0,1,2,-3.", x, ",-3.", x)),
            3 => (cat!("7,8,", x), "C,0,1,2,$q,$q".to_string(), cat!("C,0,1,2,7,8,", x, ",7,8,", x)),
            4 => (String::new(), cat!("F,0,", x, ",$q,1"), cat!("F,0,", x, ",,1")),
            _ => (cat!("HitSound"), cat!("T,$qClap,", x, ",5"), cat!("T,HitSoundClap,", x, ",5")),
        };
        let vars = [var("q", &val)];
        let ev = must!(same(&vars, &cat!(HEADS[0], text), &cat!(HEADS[0], full)));
        if !val.is_empty() {
            chk!(tail(&ev).contains("$q") && !tail(&ev).contains(&val));
        } else {
            chk!(tail(&ev) == &full[2..]);
        }
    }
    // every event keeps its own uses; command headers and event headers are left alone
    p21_many / p21_many__count (4) |p| {
        let (a, b) = (cat!("9", digit(10).0), "-4.5");
        let vars = [var("one", &a), var("t", b)];
        let mut text = String::new();
        let mut full = String::new();
        for i in 0..3 {
            let h = HEADS[(i + p as usize) % 4];
            let pre = if i > 0 { "\n" } else { "" };
            let (u, v) = (flag(), flag());
            text.push_str(&cat!(pre, h, "MX,0,", if u { "$one" } else { &a }, ",,", if v { "$t" } else { b }));
            full.push_str(&cat!(pre, h, "MX,0,", a, ",,", b));
        }
        let ev = must!(same(&vars, &text, &full));
        for (i, l) in ev.split('\n').filter(|l| l.contains("MX,")).enumerate() {
            chk!(l.trim_start() == "MX,0,$one,,$t" && i < 3);
        }
        for h in HEADS {
            chk!(!h.contains('$'));
        }
    }
    // references to variables that are not defined, and names in event headers, stay text
    p21_undefined / p21_undefined__count (3) |p| {
        let w = word(2, |b| b.is_ascii_lowercase());
        let x = int(2, false).0;
        assume(!"ab".starts_with(&w[..1]));
        let vars = [var("ab", &x)];
        let text = match p {
            0 => cat!(HEADS[0], "F,0,1,,$", w),
            1 => cat!("Sprite,Pass,Centre,$", w, ",1,2\n F,0,1,,0"),
            _ => cat!(HEADS[0], "M,0,1,,$", w, ",$"),
        };
        let ev = must!(same(&vars, &text, &text));
        chk!(ev == text);
    }
    // without variables, and with an empty list
    p21_none / p21_none__count (4) |p| {
        let w = word(1, |b| b.is_ascii_alphanumeric());
        let e = cat!(HEADS[0], "F,0,1,,$", w);
        let (text, want) = match p {
            0 => (cat!("[Events]\n", e), cat!("[Events]\n", e)),
            1 => (cat!("[Variables]\n\n[Events]\n", e), cat!("[Variables]\n\n\n[Events]\n", e)),
            2 => (cat!("[Variables]\n$", w, "=x"), cat!("[Variables]\n$", w, "=x")),
            _ => (String::new(), String::new()),
        };
        let o = must!(must!(<Osb as VersionedFromStr>::from_str(&text, 14).ok()));
        chk!(o.variables.is_some() == (p == 1 || p == 2) && o.events.is_some() == (p < 2));
        let s = must!(VersionedToString::to_string(&o, 14));
        trace(&s);
        reach(1);
        chk!(s == want);
        chk!(must!(must!(<Osb as VersionedFromStr>::from_str(&s, 14).ok())) == o);
    }
    // a variable line
    p21_variable / p21_variable__count (5) |p| {
        let w = word(1 + p as usize, |b| b >= 0x20 && b < 0x7f);
        let v = ver();
        let r = <Variable as VersionedFromStr>::from_str(&w, v);
        reach(1);
        match r {
            Ok(x) => {
                let x = must!(x);
                chk!(w.starts_with('$') && !x.name.contains('='));
                chk!(cat!("$", x.name, "=", x.value) == w);
                let s = must!(VersionedToString::to_string(&x, v));
                trace(&s);
                chk!(s == w);
            }
            Err(ParseVariableError::MissingHeader) => chk!(!w.starts_with('$')),
            Err(ParseVariableError::MissingEquals) => chk!(w.starts_with('$') && !w.contains('=')),
            Err(_) => chk!(false),
        }
    }
    // a malformed variable or section makes the storyboard fail
    p21_reject / p21_reject__count (6) |p| {
        let w = word(3, |b| b > 0x20 && b < 0x7f);
        let (t, bad) = match p {
            0 => (cat!("[Variables]\n$a=1\n", w), !(w.starts_with('$') && w.contains('=')) && !w.starts_with('[')),
            1 => (cat!("[", w.replace(']', "x"), "]\n"), true),
            2 => (cat!("[Events]\n[Variables]\n[Events]\n//", w), true),
            3 => (cat!(w, "\n[Events]\n"), !w.starts_with("//") && !w.starts_with('[')),
            4 => (cat!("[Events\n//", w.replace(']', "x")), true),
            _ => (cat!("[Variables]\n$a=1\n[Events]\n", w), !w.starts_with("//") && !w.starts_with('[')),
        };
        let r = <Osb as VersionedFromStr>::from_str(&t, 14);
        reach(1);
        if bad {
            chk!(r.is_err());
        } else if p == 0 && w.starts_with('$') {
            chk!(r.is_ok());
        }
    }
    // through OsuFile
    p21_append / p21_append__count (2) |p| {
        let x = int(2, false).0;
        let vars = [var("ab", &x)];
        let t = cat!(block(&vars), "\n\n[Events]\n", HEADS[0], "F,0,1,,$ab");
        let mut f = must!("osu file format v14\n\n[Editor]\nGridSize: 3".parse::<OsuFile>().ok());
        if p == 1 {
            chk!(f.append_osb("[Events]\n0,0,b").is_ok());
        }
        chk!(f.append_osb(&t).is_ok());
        let o = must!(f.osb.clone());
        chk!(Some(o) == <Osb as VersionedFromStr>::from_str(&t, 14).ok().flatten());
        let s = must!(f.osb_to_string());
        trace(&s);
        reach(1);
        chk!(s == t);
        chk!(std::string::ToString::to_string(&f) == "osu file format v14\n\n[Editor]\nGridSize: 3");
        // a rejected storyboard changes nothing
        let before = f.clone();
        chk!(f.append_osb("[Foo]\n").is_err());
        chk!(f == before);
    }
    // many variables, many uses
    p21_long / p21_long__count (4) |p| {
        let n = [5, 9, 17, 33][p as usize];
        let at = below(n as u8) as usize;
        let (t, _) = digit(10);
        let mut vars = vec![];
        for i in 0..n {
            // names and values of one length, none a part of another
            let val = if i == at { cat!("9", t, "77") } else { (1000 + 5 * i).to_string() };
            vars.push(var(&cat!("v", (100 + i).to_string()), &val));
        }
        let (mut text, mut full) = (String::new(), String::new());
        for i in 0..n {
            let (a, b) = (mix(i, n), mix(i + 1, n));
            let (h, mid, tail) = [("Sprite,Pass,Centre,s.png,1,2\n F,0,", ",,", ""), ("5,1,2,s.png\n M,3,", ",,", ",6"), ("0,0,b\n L,", ",", "")][mix(i, 3)];
            text.push_str(&cat!(h, "$", vars[a].name, mid, "$", vars[b].name, tail, "\n"));
            full.push_str(&cat!(h, vars[a].value, mid, vars[b].value, tail, "\n"));
        }
        let ev = must!(same(&vars, text.trim_end(), full.trim_end()));
        chk!(ev == text.trim_end());
    }
}
