//! Indentation and command nesting mirror each other.
use crate::{base::*, sym::*};
use osu_file_parser::events::storyboard::cmds::*;
use osu_file_parser::events::*;
use osu_file_parser::types::*;
use osu_file_parser::Events;

/// one event of each kind; the first six hold commands
pub const EVENTS: [&str; 11] = [
    "0,5,b.png", "1,5,v.avi,1,2", "4,1,2,s.png", "5,1,2,a.png", "6,5,1,s.wav,20", "Sprite,Pass,Centre,s.png,1,2",
    "Animation,Pass,Centre,a.png,1,2,3,4,LoopOnce", "2,5,6", "Sample,5,1,s.wav,60", "//c", "3,5,1,2,3",
];
pub const HOLD: usize = 7;
pub fn commands(e: &Event) -> Option<&Vec<Command>> {
    Some(match e {
        Event::Background(x) => &x.commands,
        Event::Video(x) => &x.commands,
        Event::SpriteLegacy(x) => &x.commands,
        Event::AnimationLegacy(x) => &x.commands,
        Event::SampleLegacy(x) => &x.commands,
        Event::StoryboardObject(x) => &x.commands,
        _ => return None,
    })
}
pub fn inner(c: &Command) -> Option<&Vec<Command>> {
    match &c.properties {
        CommandProperties::Loop { commands, .. } | CommandProperties::Trigger { commands, .. } => Some(commands),
        _ => None,
    }
}
/// depth and start time of every command in order
pub fn walk(c: &[Command], depth: usize, out: &mut Vec<(usize, Option<i32>, u8)>) {
    for x in c {
        let k = match &x.properties {
            CommandProperties::Loop { .. } => 1,
            CommandProperties::Trigger { .. } => 2,
            _ => 0,
        };
        out.push((depth, x.start_time, k));
        if let Some(i) = inner(x) {
            walk(i, depth + 1, out);
        }
    }
}
pub fn line(kind: u8, i: usize) -> String {
    let n = raw(vec![b'0' + i as u8]);
    match kind {
        0 => cat!("F,1,", n, ",,0.5"),
        1 => cat!("L,", n, ",3"),
        _ => cat!("T,HitSoundClap,", n, ",9"),
    }
}
/// Reference: the stack of "last command is a container" flags from depth 1 on.
/// Returns false when depth d cannot be attached.
fn attach(open: &mut Vec<bool>, d: usize, kind: u8) -> bool {
    // a command at depth d needs containers at depths 1..d-1 on the current path
    if d - 1 > open.len() || open[..d - 1].iter().any(|c| !c) {
        return false;
    }
    open.truncate(d - 1);
    open.push(kind > 0);
    true
}
/// n commands of arbitrary kind and depth (at most `deep`) under an event
fn tree(ev: &str, n: usize, deep: u8) {
    let v = ver();
    let mut text = ev.to_string();
    let mut want = vec![];
    let mut open = vec![];
    let mut printed = ev.to_string();
    let mut bad = None;
    for i in 0..n {
        let d = 1 + below(deep) as usize;
        let k = below(3);
        let c = if i == 1 && flag() { "_" } else { " " };
        let l = line(k, i);
        text = cat!(text, "\n", c.repeat(d), l);
        printed = cat!(printed, "\n", " ".repeat(d), l);
        if !attach(&mut open, d, k) {
            bad = Some(i + 1);
            break;
        }
        want.push((d, Some(i as i32), k));
    }
    let r = <Events as VersionedFromStr>::from_str(&text, v);
    reach(1);
    match r {
        Ok(e) => {
            chk!(bad.is_none());
            let e = must!(e);
            chk!(e.0.len() == 1);
            let mut got = vec![];
            walk(must!(commands(&e.0[0])), 1, &mut got);
            chk!(got == want);
            let s = must!(VersionedToString::to_string(&e, v));
            trace(&s);
            chk!(s == printed);
            // the event alone prints the same
            chk!(VersionedToString::to_string(&e.0[0], v) == Some(s));
        }
        Err(e) => {
            chk!(bad == Some(e.line_index()));
            chk!(matches!(e.error(), ParseError::CommandPushError(_)));
        }
    }
}

fn holder(e: &mut Event) -> Option<&mut dyn EventWithCommands> {
    Some(match e {
        Event::Background(x) => x,
        Event::Video(x) => x,
        Event::SpriteLegacy(x) => x,
        Event::AnimationLegacy(x) => x,
        Event::SampleLegacy(x) => x,
        Event::StoryboardObject(x) => x,
        _ => return None,
    })
}
/// n commands pushed one by one at any depth, 0 included
fn push(ev: &str, n: usize, deep: u8) {
    let v = ver_in(5, 13);
    let mut e = must!(<Events as VersionedFromStr>::from_str(ev, v).ok().flatten()).0.remove(0);
    let mut want = vec![];
    let mut open = vec![];
    let mut printed = ev.to_string();
    for i in 0..n {
        let d = below(deep + 1) as usize;
        let k = below(3);
        let l = line(k, i);
        let c = must!(<Command as VersionedFromStr>::from_str(&l, v).ok().flatten());
        let r = must!(holder(&mut e)).try_push_cmd(c, d);
        if d > 0 && attach(&mut open, d, k) {
            chk!(r.is_ok());
            want.push((d, Some(i as i32), k));
            printed = cat!(printed, "\n", " ".repeat(d), l);
        } else {
            // the event stays as it was
            chk!(matches!(r, Err(osu_file_parser::events::storyboard::error::CommandPushError::InvalidIndentation(_, x)) if x == d));
        }
    }
    reach(1);
    let h = must!(holder(&mut e));
    let mut got = vec![];
    walk(h.commands(), 1, &mut got);
    chk!(got == want);
    let mut got = vec![];
    walk(h.commands_mut(), 1, &mut got);
    chk!(got == want);
    let s = must!(h.to_string_variables(v, &[]));
    trace(&s);
    chk!(s == printed && h.to_string_cmd(v).as_deref() == Some(ev));
    chk!(VersionedToString::to_string(&e, v) == Some(s));
}

harnesses! {
    p14_push / p14_push__count (HOLD) |p| { push(EVENTS[p as usize], 3, 4); }
    p14t_push / p14t_push__count (HOLD) |p| { push(EVENTS[p as usize], 4, 5); }
    p14_tree / p14_tree__count (HOLD) |p| { tree(EVENTS[p as usize], 4, 4); }
    p14_deep / p14_deep__count (1) |_p| { tree(EVENTS[5], 5, 3); }
    p14t_tree / p14t_tree__count (HOLD) |p| { tree(EVENTS[p as usize], 5, 4); }
    p14t_deep / p14t_deep__count (1) |_p| { tree(EVENTS[5], 6, 3); }
    // a chain of containers, then one command at every depth, then another one
    p14_chain / p14_chain__count (6) |p| {
        let v = ver();
        let n = p as usize + 2;
        let mut text = EVENTS[5].to_string();
        let mut want = vec![];
        for i in 0..n {
            let k = 1 + (i + n) as u8 % 2;
            text = cat!(text, "\n", " ".repeat(i + 1), line(k, i));
            want.push((i + 1, Some(i as i32), k));
        }
        let d = 1 + below(n as u8 + 2) as usize;
        let d2 = 1 + below(n as u8 + 2) as usize;
        text = cat!(text, "\n", " ".repeat(d), line(0, 8), "\n", " ".repeat(d2), line(1, 9));
        want.push((d, Some(8), 0));
        want.push((d2, Some(9), 1));
        let r = <Events as VersionedFromStr>::from_str(&text, v);
        reach(1);
        match r {
            Ok(e) => {
                chk!(d <= n + 1 && d2 <= d);
                let e = must!(e);
                let mut got = vec![];
                walk(must!(commands(&e.0[0])), 1, &mut got);
                chk!(got == want);
                let s = must!(VersionedToString::to_string(&e, v));
                trace(&s);
                chk!(s == text);
            }
            Err(e) => {
                chk!(d > n + 1 || d2 > d);
                chk!(e.line_index() == if d > n + 1 { n + 1 } else { n + 2 });
                chk!(matches!(e.error(), ParseError::CommandPushError(_)));
            }
        }
    }
    // commands belong to the event above them
    p14_owner / p14_owner__count (11 * 11) |p| {
        let mut p = Pick(p);
        let (a, b) = (p.of(11), p.of(11));
        let v = ver_in(3, 13);
        let mut text = EVENTS[a].to_string();
        let n = below(3) as usize;
        for i in 0..n {
            text = cat!(text, "\n", " ".repeat(i + 1), line(1, i));
        }
        text = cat!(text, "\n", EVENTS[b]);
        let m = below(3) as usize;
        for i in 0..m {
            text = cat!(text, "\n ", line(0, 5 + i));
        }
        let bad = if n > 0 && a >= HOLD { Some(1) } else if m > 0 && b >= HOLD { Some(n + 2) } else { None };
        let r = <Events as VersionedFromStr>::from_str(&text, v);
        reach(1);
        match r {
            Ok(e) => {
                chk!(bad.is_none());
                let e = must!(e);
                chk!(e.0.len() == 2);
                let (mut x, mut y) = (vec![], vec![]);
                if let Some(c) = commands(&e.0[0]) { walk(c, 1, &mut x); }
                if let Some(c) = commands(&e.0[1]) { walk(c, 1, &mut y); }
                let (w, z): (Vec<_>, Vec<_>) = ((0..n).map(|i| (i + 1, Some(i as i32), 1)).collect(), (0..m).map(|i| (1, Some(5 + i as i32), 0)).collect());
                chk!(x == w && y == z);
                let s = must!(VersionedToString::to_string(&e, v));
                trace(&s);
                chk!(s == text);
            }
            Err(e) => {
                chk!(bad == Some(e.line_index()));
                chk!(matches!(e.error(), ParseError::StoryboardCmdWithNoSprite));
            }
        }
    }
    // no event above; blank lines between commands; a bad command
    p14_edge / p14_edge__count (3) |p| {
        let v = ver();
        let d = 1 + below(3) as usize;
        reach(1);
        match p {
            0 => {
                let r = <Events as VersionedFromStr>::from_str(&cat!(" ".repeat(d), line(0, 1)), v);
                chk!(matches!(r, Err(e) if matches!(e.error(), ParseError::StoryboardCmdWithNoSprite) && e.line_index() == 0));
            }
            1 => {
                let r = <Events as VersionedFromStr>::from_str(&cat!(EVENTS[5], "\n", " ".repeat(d), "\n\n ", line(1, 1), "\n\n  ", line(0, 2)), v);
                let e = must!(r.ok().flatten());
                let mut x = vec![];
                walk(must!(commands(&e.0[0])), 1, &mut x);
                chk!(x == vec![(1, Some(1), 1), (2, Some(2), 0)]);
            }
            _ => {
                let b = word(1, |b| b > 0x20 && b < 0x7f && b != b',' && b != b'_' && b != b'/');
                let ok = matches!(b.as_str(), "F" | "S" | "R");
                let r = <Events as VersionedFromStr>::from_str(&cat!(EVENTS[5], "\n ", line(0, 1), "\n ", b, ",0,1,2,3"), v);
                match r {
                    Ok(_) => chk!(ok),
                    Err(e) => {
                        chk!(!ok && e.line_index() == 2);
                        chk!(matches!(e.error(), ParseError::ParseCommandError(_)));
                    }
                }
            }
        }
    }
    // many commands, deep nesting; one depth is arbitrary
    p14_long / p14_long__count (4 * 3 * 5) |p| {
        let mut p = Pick(p);
        let (n, w, q) = (LONG[p.of(4)], p.of(3), p.of(5));
        let v = ver();
        let ev = EVENTS[[5, 6, 0][w]];
        let deep = [2, 6, 20][w];
        let at = q * (n - 1) / 4;
        let mut text = ev.to_string();
        let mut want = vec![];
        let mut open: Vec<bool> = vec![];
        let mut bad = None;
        for i in 0..n {
            let top = 1 + open.iter().take_while(|c| **c).count();
            let d = if i == at { 1 + below(top.min(60) as u8 + 1) as usize } else { (1 + mix(i, deep + deep / 2)).max(top / 2).min(top).min(deep) };
            let k = [0, 1, 1, 2, 2, 1][mix(i + 3, 6)];
            let t = i.to_string();
            let l = match k { 0 => cat!("F,1,", t, ",,0.5"), 1 => cat!("L,", t, ",3"), _ => cat!("T,HitSoundClap,", t, ",9") };
            text = cat!(text, "\n", " ".repeat(d), l);
            if !attach(&mut open, d, k) {
                bad = Some(i + 1);
                break;
            }
            want.push((d, Some(i as i32), k));
        }
        let r = <Events as VersionedFromStr>::from_str(&text, v);
        reach(1);
        match r {
            Ok(e) => {
                chk!(bad.is_none());
                let e = must!(e);
                let mut got = vec![];
                walk(must!(commands(&e.0[0])), 1, &mut got);
                chk!(got == want);
                chk!(must!(VersionedToString::to_string(&e, v)) == text);
            }
            Err(e) => {
                chk!(bad == Some(e.line_index()));
                chk!(matches!(e.error(), ParseError::CommandPushError(_)));
            }
        }
    }
    // many pushes at any depth, refused ones change nothing
    p14_pushes / p14_pushes__count (4 * 2) |p| {
        let mut p = Pick(p);
        let (n, w) = (LONG[p.of(4)], p.of(2));
        let ev = EVENTS[[5, 0][w]];
        let mut e = must!(<Events as VersionedFromStr>::from_str(ev, 14).ok().flatten()).0.remove(0);
        let at = n / 2;
        let mut want = vec![];
        let mut open = vec![];
        let mut printed = ev.to_string();
        for i in 0..n {
            let top = 1 + open.iter().take_while(|c| **c).count();
            let d = if i == at { below(top.min(60) as u8 + 2) as usize } else { mix(i, 3 * top / 2 + 1).min(15) };
            let k = [0, 1, 2][mix(i + 3, 3)];
            let t = i.to_string();
            let l = match k { 0 => cat!("F,1,", t, ",,0.5"), 1 => cat!("L,", t, ",3"), _ => cat!("T,HitSoundClap,", t, ",9") };
            let c = must!(<Command as VersionedFromStr>::from_str(&l, 14).ok().flatten());
            let ok = d > 0 && attach(&mut open, d, k);
            chk!(must!(holder(&mut e)).try_push_cmd(c, d).is_ok() == ok);
            if ok {
                want.push((d, Some(i as i32), k));
                printed = cat!(printed, "\n", " ".repeat(d), l);
            }
        }
        let mut got = vec![];
        walk(must!(commands(&e)), 1, &mut got);
        chk!(got == want);
        reach(1);
        chk!(VersionedToString::to_string(&e, 14) == Some(printed));
    }
}
