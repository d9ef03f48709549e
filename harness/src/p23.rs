//! Continuing values of move, scale and colour commands under histories of operations.
use crate::{base::*, sym::*};
use osu_file_parser::events::storyboard::cmds::{Colours, Command, CommandProperties, ContinuingFields, ContinuingSetError};
use osu_file_parser::events::storyboard::error::{ContinuingRGBSetError, InvalidColourFieldOption};
use osu_file_parser::types::*;

type Pair = (u8, Option<u8>);
type Triple = (u8, Option<u8>, Option<u8>);

/// compare with the model and check the shape
fn same(x: &ContinuingFields<u8>, start: (u8, u8), m: &[Pair]) {
    chk!(*x.start_values() == start);
    chk!(x.continuing_fields() == m);
    let l = x.continuing_fields();
    for i in 1..l.len() {
        chk!(l[i - 1].1.is_some());
    }
}
/// the text of the values, one after the other
fn listed(start: (u8, u8), m: &[Pair]) -> String {
    let mut s = cat!(start.0.to_string(), ",", start.1.to_string());
    for f in m {
        s = cat!(s, ",", f.0.to_string());
        if let Some(b) = f.1 {
            s = cat!(s, ",", b.to_string());
        }
    }
    s
}
fn d(x: u8) -> Decimal {
    Decimal::from(x as i32)
}
/// printed in a command, they parse back to the same values
fn back(letter: &str, x: &ContinuingFields<u8>, start: (u8, u8), m: &[Pair]) {
    let s = std::string::ToString::to_string(x);
    trace(&s);
    chk!(s == listed(start, m));
    let c = match <Command as VersionedFromStr>::from_str(&cat!(letter, ",0,1,,", s), 14) {
        Ok(Some(c)) => c,
        _ => {
            chk!(false);
            return;
        }
    };
    let y = match &c.properties {
        CommandProperties::Move { positions_xy, .. } => positions_xy,
        CommandProperties::VectorScale { scales_xy, .. } => scales_xy,
        _ => {
            chk!(false);
            return;
        }
    };
    chk!(*y.start_values() == (d(start.0), d(start.1)));
    let want: Vec<(Decimal, Option<Decimal>)> = m.iter().map(|f| (d(f.0), f.1.map(d))).collect();
    chk!(y.continuing_fields() == &want[..]);
    chk!(VersionedToString::to_string(&c, 14) == Some(cat!(letter, ",0,1,,", s)));
    // building the same from its parts gives the same command
    match ContinuingFields::new((d(start.0), d(start.1)), want) {
        Ok(z) => chk!(z == *y),
        Err(_) => chk!(false),
    }
}
fn pair(short: bool) -> Pair {
    let a = below(10);
    (a, if short { None } else { Some(below(10)) })
}
fn same3(x: &Colours, start: (u8, u8, u8), m: &[Triple]) {
    chk!(*x.start_rgb() == start && x.start == start);
    chk!(x.continuing_fields() == m && x.continuing == m);
    for (i, f) in m.iter().enumerate() {
        chk!(i + 1 == m.len() || (f.1.is_some() && f.2.is_some()));
        chk!(f.1.is_some() || f.2.is_none());
    }
}
fn back3(x: &Colours, start: (u8, u8, u8), m: &[Triple]) {
    let mut want = cat!(start.0.to_string(), ",", start.1.to_string(), ",", start.2.to_string());
    for f in m {
        for v in [Some(f.0), f.1, f.2].into_iter().flatten() {
            want = cat!(want, ",", v.to_string());
        }
    }
    let s = VersionedToString::to_string(x, 14).unwrap_or_default();
    trace(&s);
    chk!(s == want);
    match <Command as VersionedFromStr>::from_str(&cat!("C,0,1,,", s), 14) {
        Ok(Some(Command { properties: CommandProperties::Colour { colours, .. }, .. })) => chk!(colours == *x),
        _ => chk!(false),
    }
}
/// shapes of a continuing colour: all three, without blue, red only
fn triple(shape: usize) -> Triple {
    let a = below(10);
    match shape {
        0 => (a, Some(below(10)), Some(below(10))),
        1 => (a, Some(below(10)), None),
        _ => (a, None, None),
    }
}
/// one operation on pairs and on its model
fn step(x: &mut ContinuingFields<u8>, start: &mut (u8, u8), m: &mut Vec<Pair>, op: usize) {
    match op {
        0 | 1 => {
            let f = pair(op == 1);
            if let Some(l) = m.last().copied() {
                if l.1.is_none() {
                    let n = m.len();
                    m[n - 1].1 = Some(if n > 1 { m[n - 2].1.unwrap_or(99) } else { start.1 });
                }
            }
            m.push(f);
            x.push_continuing_fields(f);
        }
        2 | 3 => {
            let f = pair(op == 3);
            let i = below(m.len() as u8 + 2) as usize;
            let r = x.set_continuing_fields(i, f);
            if i < m.len() && (op == 2 || i + 1 == m.len()) {
                chk!(r.is_ok());
                m[i] = f;
            } else {
                match r {
                    Err(ContinuingSetError::IndexOutOfBounds) => chk!(i >= m.len()),
                    Err(ContinuingSetError::InvalidSecondFieldOption) => chk!(op == 3),
                    _ => chk!(false),
                }
            }
        }
        _ => {
            let a = below(10);
            x.start_values_mut().1 = a;
            start.1 = a;
        }
    }
}
fn step3(x: &mut Colours, start: &mut (u8, u8, u8), m: &mut Vec<Triple>, op: usize) {
    match op {
        0..=2 => {
            let f = triple(op);
            if let Some(l) = m.last().copied() {
                let n = m.len();
                let before = if n > 1 { (m[n - 2].1.unwrap_or(99), m[n - 2].2.unwrap_or(99)) } else { (start.1, start.2) };
                m[n - 1].1 = Some(l.1.unwrap_or(before.0));
                m[n - 1].2 = Some(l.2.unwrap_or(before.1));
            }
            m.push(f);
            x.push_continuing_rgbs(f);
        }
        3..=5 => {
            let f = triple(op - 3);
            let i = below(m.len() as u8 + 2) as usize;
            let r = x.set_continuing_rgbs(i, f);
            if i < m.len() && (op == 3 || i + 1 == m.len()) {
                chk!(r.is_ok());
                m[i] = f;
            } else {
                match r {
                    Err(ContinuingRGBSetError::IndexOutOfBounds) => chk!(i >= m.len()),
                    Err(ContinuingRGBSetError::InvalidFieldOption(InvalidColourFieldOption::Green)) => chk!(op == 5),
                    Err(ContinuingRGBSetError::InvalidFieldOption(InvalidColourFieldOption::Blue)) => chk!(op > 3),
                    _ => chk!(false),
                }
            }
        }
        6 => {
            // green missing, blue there: no such value
            let i = below(m.len() as u8 + 1) as usize;
            chk!(x.set_continuing_rgbs(i, (below(10), None, Some(below(10)))).is_err());
        }
        _ => {
            let a = below(10);
            x.start_rgb_mut().2 = a;
            start.2 = a;
        }
    }
}
fn pairs(p: u32, n: usize) {
    let mut p = Pick(p);
    let mut start = (below(10), below(10));
    let mut m: Vec<Pair> = vec![];
    let mut x = match ContinuingFields::new(start, vec![]) {
        Ok(x) => x,
        Err(_) => {
            chk!(false);
            return;
        }
    };
    for _ in 0..n {
        let op = p.of(5);
        step(&mut x, &mut start, &mut m, op);
        same(&x, start, &m);
    }
    reach(1);
    back("M", &x, start, &m);
}
fn triples(p: u32, n: usize) {
    let mut p = Pick(p);
    let mut start = (below(10), below(10), below(10));
    let mut m: Vec<Triple> = vec![];
    let mut x = match Colours::new(start, vec![]) {
        Ok(x) => x,
        Err(_) => {
            chk!(false);
            return;
        }
    };
    for _ in 0..n {
        let op = p.of(8);
        step3(&mut x, &mut start, &mut m, op);
        same3(&x, start, &m);
    }
    reach(1);
    back3(&x, start, &m);
}

harnesses! {
    // every shape of up to four continuing pairs
    p23_new / p23_new__count (31) |p| {
        let mut n = 0;
        while (1 << (n + 1)) - 1 <= p { n += 1; }
        let mask = p + 1 - (1 << n);
        let start = (below(10), below(10));
        let m: Vec<Pair> = (0..n).map(|i| pair(mask >> i & 1 == 1)).collect();
        let bad = n > 0 && mask & ((1 << (n - 1)) - 1) != 0;
        reach(1);
        match ContinuingFields::new(start, m.clone()) {
            Ok(x) => {
                chk!(!bad);
                same(&x, start, &m);
                back(if p % 2 == 0 { "M" } else { "V" }, &x, start, &m);
            }
            Err(_) => chk!(bad),
        }
    }
    // every shape of up to three continuing colours
    p23_newc / p23_newc__count (1 + 4 + 16 + 64) |p| {
        let (n, mut k) = if p < 1 { (0, p) } else if p < 5 { (1, p - 1) } else if p < 21 { (2, p - 5) } else { (3, p - 21) };
        let start = (below(10), below(10), below(10));
        let mut m: Vec<Triple> = vec![];
        let mut bad = false;
        for i in 0..n {
            let s = k % 4;
            k /= 4;
            m.push(if s < 3 { triple(s as usize) } else { (below(10), None, Some(below(10))) });
            bad |= s == 3 || (i + 1 < n && s > 0);
        }
        reach(1);
        match Colours::new(start, m.clone()) {
            Ok(x) => {
                chk!(!bad);
                same3(&x, start, &m);
                back3(&x, start, &m);
            }
            Err(_) => chk!(bad),
        }
    }
    // histories
    p23_pairs / p23_pairs__count (5 * 5 * 5 * 5) |p| { pairs(p, 4) }
    p23_colours / p23_colours__count (8 * 8 * 8) |p| { triples(p, 3) }
    p23t_pairs / p23t_pairs__count (5 * 5 * 5 * 5 * 5 * 5) |p| { pairs(p, 6) }
    p23t_colours / p23t_colours__count (8 * 8 * 8 * 8) |p| { triples(p, 4) }
    // histories that start from a parsed command
    p23_parsed / p23_parsed__count (6 * 25) |p| {
        let mut p = Pick(p);
        let n = p.of(6);
        let ops = [2 + p.of(2), 2 + p.of(2)];
        let f: Vec<String> = (0..n + 2).map(|_| digit(10).0).collect();
        let mut c = must!(must!(<Command as VersionedFromStr>::from_str(&cat!("V,3,1,2,", f.join(",")), 14).ok()));
        let mut m: Vec<(String, Option<String>)> = f[2..].chunks(2).map(|c| (c[0].clone(), c.get(1).cloned())).collect();
        if let CommandProperties::VectorScale { scales_xy, .. } = &mut c.properties {
            for op in ops {
                let (a, b) = (digit(10).0, if op == 3 { None } else { Some(digit(10).0) });
                let i = below(m.len() as u8 + 1) as usize;
                let dec = |s: &String| Decimal::from(s.as_str());
                let r = scales_xy.set_continuing_fields(i, (dec(&a), b.as_ref().map(dec)));
                let ok = i < m.len() && (op == 2 || i + 1 == m.len());
                chk!(r.is_ok() == ok);
                if ok { m[i] = (a, b); }
            }
        } else {
            chk!(false);
        }
        let mut want = cat!("V,3,1,2,", f[0], ",", f[1]);
        for (a, b) in &m {
            want = cat!(want, ",", a);
            if let Some(b) = b { want = cat!(want, ",", b); }
        }
        let s = must!(VersionedToString::to_string(&c, 14));
        trace(&s);
        reach(1);
        chk!(s == want);
        chk!(must!(must!(<Command as VersionedFromStr>::from_str(&s, 14).ok())) == c);
    }
    // long histories
    p23_long / p23_long__count (4 * 2) |p| {
        let mut p = Pick(p);
        let k = p.of(2);
        // values of a colour are cheaper to compare than decimals
        let n = if k == 0 { [5, 9, 17, 30] } else { LONG }[p.of(4)];
        let at = below(n as u8) as usize;
        let a = below(10);
        reach(1);
        if k == 0 {
            let mut x = must!(ContinuingFields::new((1u8, 2u8), vec![]).ok());
            let mut m: Vec<Pair> = vec![];
            for i in 0..n {
                let f = (if i == at { a } else { mix(i, 256) as u8 }, if mix(i, 3) == 0 { None } else { Some(mix(i + 1, 256) as u8) });
                if let Some(l) = m.last().copied() {
                    if l.1.is_none() {
                        let n = m.len();
                        m[n - 1].1 = Some(if n > 1 { m[n - 2].1.unwrap_or(99) } else { 2 });
                    }
                }
                m.push(f);
                x.push_continuing_fields(f);
            }
            // one of them is set anew
            let i = mix(n, n - 1);
            chk!(x.set_continuing_fields(i, (3, None)).is_err() && x.set_continuing_fields(i, (3, Some(77))).is_ok());
            m[i] = (3, Some(77));
            same(&x, (1, 2), &m);
            back("V", &x, (1, 2), &m);
        } else {
            let mut x = must!(Colours::new((1, 2, 3), vec![]).ok());
            let mut m: Vec<Triple> = vec![];
            for i in 0..n {
                let f = (if i == at { a } else { mix(i, 256) as u8 }, Some(mix(i + 1, 256) as u8), Some(mix(i + 2, 256) as u8));
                let f = match mix(i + 4, 5) { 0 => (f.0, None, None), 1 => (f.0, f.1, None), _ => f };
                if let Some(l) = m.last().copied() {
                    let n = m.len();
                    let before = if n > 1 { (m[n - 2].1.unwrap_or(99), m[n - 2].2.unwrap_or(99)) } else { (2, 3) };
                    m[n - 1].1 = Some(l.1.unwrap_or(before.0));
                    m[n - 1].2 = Some(l.2.unwrap_or(before.1));
                }
                m.push(f);
                x.push_continuing_rgbs(f);
            }
            same3(&x, (1, 2, 3), &m);
            back3(&x, (1, 2, 3), &m);
        }
    }
}
