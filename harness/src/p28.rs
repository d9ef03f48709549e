//! The entries of a section are independent: a text of two parts is the value of both parts.
use crate::{base::*, corpus, rt, sym::*};
use osu_file_parser::types::*;
use osu_file_parser::*;

const Q: &[(usize, usize)] = &[(0, 1), (1, 1), (2, 0)];
const THOROUGH: &[(usize, usize)] = &[(1, 2), (0, 2), (2, 2), (1, 3)];
type R<T> = Result<T, (usize, String)>;
/// a section that is a list of entries, one on each line
trait List {
    type E: PartialEq + Clone;
    const C: &'static [&'static str];
    /// second parts: accepted ones, and rejected ones
    const D: &'static [&'static str];
    fn parse(s: &str, v: u8) -> R<Vec<Self::E>>;
    fn print(x: Vec<Self::E>, v: u8) -> Option<String>;
    /// the first part ends in an entry that may adopt the second part, or the like
    fn tied(_: &str, _: &str) -> bool {
        false
    }
}
macro_rules! list {
    ($n:ident, $t:ident, $e:ty, $c:expr, $d:expr, $tied:expr) => {
        struct $n;
        impl List for $n {
            type E = $e;
            const C: &'static [&'static str] = $c;
            const D: &'static [&'static str] = $d;
            fn parse(s: &str, v: u8) -> R<Vec<$e>> {
                match <$t as VersionedFromStr>::from_str(s, v) {
                    Ok(Some(x)) => Ok(x.0),
                    Ok(None) => Ok(vec![]),
                    Err(e) => Err((e.line_index(), std::string::ToString::to_string(e.error()))),
                }
            }
            fn print(x: Vec<$e>, v: u8) -> Option<String> {
                VersionedToString::to_string(&$t(x), v)
            }
            fn tied(a: &str, b: &str) -> bool {
                $tied(a, b)
            }
        }
    };
}
fn free(_: &str, _: &str) -> bool {
    false
}
/// commands belong to the event above, and a first part that is empty moves the indentation of the second
fn event_tied(_: &str, b: &str) -> bool {
    b.bytes().any(|c| c == b' ' || c == b'_')
}
list!(Tp, TimingPoints, timingpoints::TimingPoint, corpus::TP.split_at(5).0, &["3,4,4,0,1,50,1,8", "3,4,x"], free);
list!(Ho, HitObjects, hitobjects::HitObject, corpus::HO.split_at(10).0, &["1,2,3,5,4,0:1:2:3:a", "1,2,3,5"], free);
list!(Col, Colours, colours::Colour, corpus::COL, &["Combo7 : 1,2,3", "Combo7 : 1,2"], free);
list!(Ev, Events, events::Event, corpus::EV.split_at(23).0, &["Break,10,200", "2,1,x", "Sprite,Pass,Centre,s.png,320,240"], event_tied);

fn run<L: List>(p: u32, shapes: &[(usize, usize)]) {
    let mut k = Pick(p);
    // the other part is one of D or the text the window is in
    let d = k.of(L::D.len() + 1);
    let first = k.of(2) == 0;
    let v = ver();
    let d = if d == 0 { L::C[win_pick(L::C, shapes.len(), k.0).0] } else { L::D[d - 1] };
    let s = match win_text(L::C, shapes, k.0) {
        Some(s) => s,
        None => return,
    };
    // a carriage return is kept when no line feed follows
    assume(!rt::stray_cr(&s));
    let (a, b) = if first { (s.as_str(), d) } else { (d, s.as_str()) };
    assume(!L::tied(a, b));
    let x = L::parse(a, v);
    let y = L::parse(b, v);
    let z = L::parse(&cat!(a, "\n", b), v);
    reach(1);
    match (x, y, z) {
        (Ok(x), Ok(y), Ok(z)) => {
            chk!(z.len() == x.len() + y.len() && z[..x.len()] == x[..] && z[x.len()..] == y[..]);
            let (n, m) = (x.len(), y.len());
            let (x, y, z) = (L::print(x, v), L::print(y, v), L::print(z, v));
            chk!(x.is_some() == z.is_some() && y.is_some() == z.is_some());
            if let (Some(x), Some(y), Some(z)) = (x, y, z) {
                trace(&z);
                if n > 0 && m > 0 && !x.is_empty() && !y.is_empty() {
                    chk!(z == cat!(x, "\n", y));
                }
            }
        }
        (Err(e), _, Err(f)) => chk!(e == f),
        (Ok(_), Err(e), Err(f)) => {
            let n = a.bytes().filter(|c| *c == b'\n').count() + 1;
            chk!(e.0 + n == f.0 && e.1 == f.1)
        }
        _ => chk!(false),
    }
}
/// a section of keys: the second part is a key the first one does not have
macro_rules! keys {
    ($n:ident, $t:ident, $c:expr, $d:expr, $f:ident) => {
        fn $n(p: u32, shapes: &[(usize, usize)]) {
            let mut k = Pick(p);
            let first = k.of(2) == 0;
            let v = ver();
            let s = match win_text($c, shapes, k.0) {
                Some(s) => s,
                None => return,
            };
            // blank space before the first key of a section belongs to its header
            assume(first || !s.starts_with(|c: char| c.is_ascii_whitespace()));
            // other white space is ignored behind the last key only
            assume(!s.contains(|c: char| c.is_whitespace() && !matches!(c, ' ' | '\t' | '\r' | '\n')));
            let d = must!($t::from_str($d, v).ok().flatten());
            let (a, b) = if first { (s.as_str(), $d) } else { ($d, s.as_str()) };
            let x = $t::from_str(&s, v);
            let z = $t::from_str(&cat!(a, "\n", b), v);
            reach(1);
            match (x, z) {
                (Ok(Some(mut x)), Ok(Some(z))) => {
                    x.$f = d.$f;
                    chk!(x == z);
                }
                (Ok(None), Ok(None)) => {}
                (Err(e), Err(f)) => {
                    chk!(e.line_index() + !first as usize == f.line_index());
                    chk!(std::string::ToString::to_string(e.error()) == std::string::ToString::to_string(f.error()));
                }
                _ => chk!(false),
            }
        }
    };
}
keys!(gen, General, corpus::GEN, "EpilepsyWarning: 1", epilepsy_warning);
keys!(edi, Editor, corpus::EDI.split_at(1).1, "DistanceSpacing: 7.5", distance_spacing);
keys!(met, Metadata, corpus::MET, "ArtistUnicode:z", artist_unicode);
keys!(dif, Difficulty, corpus::DIF, "OverallDifficulty:3", overall_difficulty);
macro_rules! n {
    ($l:ident, $s:expr) => {
        win_count($l::C, $s.len()) * 2 * ($l::D.len() + 1)
    };
}
harnesses! {
    p28_tp / p28_tp__count (n!(Tp, Q)) |p| { run::<Tp>(p, Q) }
    p28_ho / p28_ho__count (n!(Ho, Q)) |p| { run::<Ho>(p, Q) }
    p28_col / p28_col__count (n!(Col, Q)) |p| { run::<Col>(p, Q) }
    p28_ev / p28_ev__count (n!(Ev, Q)) |p| { run::<Ev>(p, Q) }
    p28_gen / p28_gen__count (win_count(corpus::GEN, Q.len()) * 2) |p| { gen(p, Q) }
    p28_edi / p28_edi__count (win_count(corpus::EDI.split_at(1).1, Q.len()) * 2) |p| { edi(p, Q) }
    p28_met / p28_met__count (win_count(corpus::MET, Q.len()) * 2) |p| { met(p, Q) }
    p28_dif / p28_dif__count (win_count(corpus::DIF, Q.len()) * 2) |p| { dif(p, Q) }
    p28t_gen / p28t_gen__count (win_count(corpus::GEN, THOROUGH.len()) * 2) |p| { gen(p, THOROUGH) }
    p28t_edi / p28t_edi__count (win_count(corpus::EDI.split_at(1).1, THOROUGH.len()) * 2) |p| { edi(p, THOROUGH) }
    p28t_met / p28t_met__count (win_count(corpus::MET, THOROUGH.len()) * 2) |p| { met(p, THOROUGH) }
    p28t_dif / p28t_dif__count (win_count(corpus::DIF, THOROUGH.len()) * 2) |p| { dif(p, THOROUGH) }
    p28t_tp / p28t_tp__count (n!(Tp, THOROUGH)) |p| { run::<Tp>(p, THOROUGH) }
    p28t_ho / p28t_ho__count (n!(Ho, THOROUGH)) |p| { run::<Ho>(p, THOROUGH) }
    p28t_col / p28t_col__count (n!(Col, THOROUGH)) |p| { run::<Col>(p, THOROUGH) }
    p28t_ev / p28t_ev__count (n!(Ev, THOROUGH)) |p| { run::<Ev>(p, THOROUGH) }
    // long lists: cut anywhere, the halves make up the whole
    p28_long / p28_long__count (4 * 4) |p| {
        fn halves<L: List>(n: usize, line: &dyn Fn(usize) -> String) {
            let v = ver_in(5, 14);
            let l: Vec<String> = (0..n).map(line).collect();
            let at = below(n as u8) as usize;
            let (a, b) = (l[..at].join("\n"), l[at..].join("\n"));
            match (L::parse(&a, v), L::parse(&b, v), L::parse(&l.join("\n"), v)) {
                (Ok(x), Ok(y), Ok(z)) => {
                    reach(1);
                    chk!(x.len() == at && z.len() == n && z[..at] == x[..] && z[at..] == y[..]);
                }
                _ => chk!(false),
            }
        }
        let mut p = Pick(p);
        let n = LONG[p.of(4)];
        let s = |i: usize, m: usize| mix(i, m).to_string();
        match p.of(4) {
            0 => halves::<Tp>(n, &|i| cat!(s(i, 9000), ",", s(i + 1, 900), ",4,", s(i, 4), ",1,60,", s(i, 2), ",", s(i, 10))),
            1 => halves::<Ho>(n, &|i| cat!(s(i, 500), ",2,", s(i + 1, 9000), [",1,", ",5,"][mix(i, 2)], s(i, 16))),
            2 => halves::<Col>(n, &|i| cat!("Combo", s(i, 9), " : 1,2,", s(i + 2, 256))),
            _ => halves::<Ev>(n, &|i| [cat!("2,", s(i, 900), ",1000"), cat!("0,1,b", s(i, 9)), cat!("//", s(i, 9)), cat!("Sprite,Pass,Centre,s,1,", s(i, 9))][mix(i, 4)].clone()),
        }
    }
}
