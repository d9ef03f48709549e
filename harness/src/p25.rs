//! The text normaliser and the comparison built on it.
use crate::{base::*, sym::*};
use osu_file_parser::*;

const NORM: &[&str] = &[
    "osu file format v9\n\n[A]\nb : c d\na:x\n\n[B]\n1, 2\nc : 3\na:1:2\n",
    "//x\nosu file format v9\n[A]\nz:1\ny : 2\nx:3",
    "\u{feff}osu file format v14\r\n [T] \r\n\r\n x \r\n",
    "[A]\n[B]\nb:\na\n[",
];
const ONE: &[(usize, usize)] = &[(0, 1), (1, 2), (0, 3), (2, 2), (1, 3)];
const FOUR: &[(usize, usize)] = &[(0, 4), (1, 4), (3, 3)];

fn idem(p: u32, shapes: &[(usize, usize)]) {
    if let Some(s) = win_text(NORM, shapes, p) {
        trace(&s);
        let a = osu_str_trimmer(&s);
        reach(1);
        let b = osu_str_trimmer(&a);
        chk!(a == b);
        chk!(osu_str_eq(&s, &a) && osu_str_eq(&a, &s) && osu_str_eq(&s, &s));
        for l in a.lines() {
            chk!(!l.is_empty() && l == l.trim() && !l.contains('\u{feff}'));
        }
        assert_eq_osu_str(&s, &a);
    }
}
fn letter(b: u8) -> bool {
    b.is_ascii_alphabetic()
}
/// spacing that does not matter, before and after a piece of a line
const GAPS: [&str; 5] = ["", " ", "\t", "  ", "\u{feff}"];
/// a line of a section: as written, normalised, has a key
fn entry(keyed: bool, gap: usize) -> (String, String, bool) {
    let (g, h) = (GAPS[gap % 5], GAPS[gap / 5 % 5]);
    if keyed {
        let k = word(1, letter);
        let v = word(2, printable);
        (cat!(g, k, h, ":", g, v, h), cat!(k, ":", v.trim()), true)
    } else {
        let v = word(2, |b| printable(b) && b != b':');
        assume(v.as_bytes()[0] != b' ' && v.as_bytes()[0] != b'[');
        (cat!(h, v, g), v.trim().to_string(), false)
    }
}
type Section = (&'static str, Vec<(String, String, bool)>);
fn written(s: &Section, end: &str) -> String {
    let mut t = cat!(s.0, end);
    for e in &s.1 {
        t = cat!(t, e.0, end);
    }
    t
}
/// lines of the normal form: sorted where all have a key
fn normal(s: &Section) -> Vec<String> {
    let mut l: Vec<String> = s.1.iter().map(|e| e.1.clone()).collect();
    if s.1.iter().all(|e| e.2) {
        l.sort();
    }
    l.insert(0, s.0.to_string());
    l
}
const ENDS: [&str; 4] = ["\n", "\r\n", "\n\n", " \n\t\n"];
/// lines before the sections: as written, what is kept
const HEAD: [(&str, &str); 6] = [
    ("", ""),
    ("osu file format v14\n", "osu file format v14\n"),
    ("\n\n \u{feff}osu file format v3\n//a:b\n", "osu file format v3\n"),
    ("x\nosu file format v14\n", ""),
    ("//c\n\n", ""),
    ("\u{feff} osu file format vx y\r\n\r\n", "osu file format vx y\n"),
];
fn keyed(mask: usize, n: usize, gap: usize) -> Vec<(String, String, bool)> {
    (0..n).map(|i| entry(mask >> i & 1 == 1, gap + 7 * i)).collect()
}
fn model(p: u32, n: usize, m: usize) {
    let mut p = Pick(p);
    let (a, b, gap) = (p.of(1 << n), p.of(1 << m), p.of(25));
    let end = ENDS[gap % 4];
    let (head, kept) = HEAD[(gap + a) % 6];
    let s1 = ("[A]", keyed(a, n, gap));
    let s2 = ("[b c:d]", keyed(b, m, gap + 3));
    let text = cat!(head, " ", written(&s1, end), written(&s2, end));
    let mut l = normal(&s1);
    l.extend(normal(&s2));
    let want = cat!(kept, l.join("\n"));
    reach(1);
    let got = osu_str_trimmer(&text);
    trace(&text);
    trace(&got);
    chk!(got == want);
    chk!(osu_str_eq(&text, &want));
    assert_eq_osu_str(&text, &want);
}
fn same(p: u32, n: usize) {
    let mut p = Pick(p);
    let (a, b, gap) = (p.of(1 << n), p.of(1 << n), p.of(5));
    let x = ("[A]", keyed(a, n, gap));
    let y = ("[A]", keyed(b, n, gap + 6));
    let want = normal(&x) == normal(&y);
    let (s, t) = (written(&x, "\n"), written(&y, "\r\n"));
    reach(1);
    chk!(osu_str_eq(&s, &t) == want);
    chk!(osu_str_eq(&t, &s) == want);
    chk!((osu_str_trimmer(&s) == osu_str_trimmer(&t)) == want);
}

harnesses! {
    p25_idem / p25_idem__count (win_count(NORM, ONE.len())) |p| { idem(p, ONE) }
    p25t_idem / p25t_idem__count (win_count(NORM, FOUR.len())) |p| { idem(p, FOUR) }
    // sections of lines with and without a key: the whole normal form
    p25_model / p25_model__count (4 * 4 * 25) |p| { model(p, 2, 2) }
    p25t_model / p25t_model__count (8 * 4 * 25) |p| { model(p, 3, 2) }
    // equality of two texts
    p25_same / p25_same__count (4 * 4 * 5) |p| { same(p, 2) }
    // arbitrary short texts
    p25_any / p25_any__count (4) |p| {
        let (a, b) = (word(1 + p as usize, |_| true), word(1, |_| true));
        reach(1);
        let (s, t) = (cat!("[A]\n", a), cat!("[A]\n", b));
        let e = osu_str_eq(&s, &t);
        chk!(e == osu_str_eq(&t, &s));
        chk!(e == (osu_str_trimmer(&s) == osu_str_trimmer(&t)));
        let n = osu_str_trimmer(&s);
        chk!(n == osu_str_trimmer(&n));
    }
    // order of sections and of lines without a key matters, order of lines with keys does not
    p25_order / p25_order__count (3) |p| {
        let e = [entry(p != 1, 6), entry(p != 1, 12)];
        let f = |a: usize, b: usize| if p == 2 { cat!("[A]\n", e[a].0, "\n[B]\n", e[b].0) } else { cat!("[A]\n", e[a].0, "\n", e[b].0) };
        reach(1);
        chk!(osu_str_eq(f(0, 1), f(1, 0)) == (p == 0 || e[0].1 == e[1].1));
    }
    // long sections are sorted as a whole, and only when every line has a key
    p25_long / p25_long__count (4 * 2) |p| {
        let mut p = Pick(p);
        let (n, odd) = (LONG[p.of(4)], p.of(2) == 1);
        let at = below(n as u8) as usize;
        let c = word(1, letter);
        let lines = |turn: usize| -> Vec<String> {
            (0..n).map(|i| {
                let j = (i + turn) % n;
                if j == at && odd { c.clone() } else { cat!(if j == at { c.as_str() } else { ["k", "Ab", "zz", "m"][mix(j, 4)] }, ["", " ", "\t"][i % 3], ":", ["", " "][turn % 2], mix(j + 1, 5000).to_string()) }
            }).collect()
        };
        let a = cat!("[A]\n", lines(0).join("\n"));
        let b = cat!("\n[A]\r\n", lines(1 + n / 3).join("\r\n\n"), "\n");
        reach(1);
        let mut l: Vec<String> = lines(0).iter().map(|l| match l.split_once(':') { Some((k, v)) => cat!(k.trim(), ":", v.trim()), None => l.clone() }).collect();
        if !odd { l.sort(); }
        l.insert(0, "[A]".into());
        chk!(osu_str_trimmer(&a) == l.join("\n"));
        chk!(osu_str_eq(&a, &b) == !odd);
    }
}
