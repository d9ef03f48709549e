//! Colours.
use crate::{base::*, sym::*};
use osu_file_parser::colours::*;
use osu_file_parser::types::*;
use osu_file_parser::Colours;

pub fn rgb(red: u8, green: u8, blue: u8) -> Rgb {
    Rgb { red, green, blue }
}
/// key text, printed key, constructor
fn key(k: usize) -> (String, Box<dyn Fn(Rgb) -> Colour>) {
    match k {
        0..=3 => {
            let (t, n) = int([1, 2, 3, 9][k], false);
            (cat!("Combo", t), Box::new(move |c| Colour::Combo(n as i32, c)))
        }
        4 => ("SliderTrackOverride".into(), Box::new(Colour::SliderTrackOverride)),
        5 => ("SliderBorder".into(), Box::new(Colour::SliderBorder)),
        _ => ("Sliderborder".into(), Box::new(Colour::SliderBorder)),
    }
}
fn err(s: &str, v: u8) -> &'static str {
    match <Colour as VersionedFromStr>::from_str(s, v) {
        Ok(_) => "",
        Err(ParseColourError::ParseRgbError(e)) => (&e).into(),
        Err(e) => (&e).into(),
    }
}
fn gap(n: usize) -> String {
    word(n, |b| b == b' ' || b == b'\t')
}

harnesses! {
    // every key and component
    p15_colour / p15_colour__count (7 * 3 * 3) |p| {
        let mut p = Pick(p);
        let (k, n, c) = (p.of(7), 1 + p.of(3), p.of(3));
        let v = ver();
        let (kt, mk) = key(k);
        let (rt, r) = int(if c == 0 { n } else { 1 }, false);
        let (gt, g) = int(if c == 1 { n } else { 1 }, false);
        let (bt, b) = int(if c == 2 { n } else { 1 }, false);
        let text = cat!(kt, " : ", rt, ",", gt, ",", bt);
        let r1 = <Colours as VersionedFromStr>::from_str(&text, v);
        if v <= 4 {
            chk!(matches!(r1, Ok(None)));
            return;
        }
        match r1 {
            Ok(x) => {
                chk!(r < 256 && g < 256 && b < 256);
                let x = must!(x);
                let c = mk(rgb(r as u8, g as u8, b as u8));
                chk!(x.0.len() == 1 && x.0[0] == c);
                reach(1);
                let s = must!(VersionedToString::to_string(&x, v));
                trace(&s);
                let want = if k == 6 { cat!("SliderBorder", text[12..]) } else { text.clone() };
                chk!(s == want);
                chk!(VersionedToString::to_string(&c, v) == Some(want));
            }
            Err(e) => {
                chk!(e.line_index() == 0);
                let w = if r > 255 { "InvalidRed" } else if g > 255 { "InvalidGreen" } else { "InvalidBlue" };
                chk!(r > 255 || g > 255 || b > 255);
                chk!(err(&text, v) == w);
            }
        }
    }
    // spacing is insignificant
    p15_space / p15_space__count (4 * 4) |p| {
        let mut p = Pick(p);
        let (k, w) = (p.of(4), p.of(4));
        let v = ver_in(5, 14);
        let g: Vec<String> = (0..9).map(|i| gap(if (w + i) % 4 == 0 { 2 } else { (w + i) % 2 })).collect();
        let (t, n) = digit(10);
        let text = cat!(g[0], ["Combo4", "SliderTrackOverride", "SliderBorder", "Sliderborder"][k], g[1], ":", g[2], "1", t, g[4], ",", g[5], "23", g[6], ",", g[7], "9", g[8]);
        let x = must!(<Colours as VersionedFromStr>::from_str(&text, v).ok().flatten());
        let c = rgb(10 + n, 23, 9);
        reach(1);
        chk!(x.0.len() == 1);
        chk!(x.0[0] == [Colour::Combo(4, c), Colour::SliderTrackOverride(c), Colour::SliderBorder(c), Colour::SliderBorder(c)][k]);
        trace(&must!(VersionedToString::to_string(&x, v)));
    }
    // lists keep order; each line is located
    p15_list / p15_list__count (5) |p| {
        let v = ver_in(5, 14);
        let n = p as usize;
        let mut l = vec![];
        let mut w = vec![];
        for i in 0..n {
            let (a, x) = digit(10);
            let (b, y) = digit(10);
            match i % 3 {
                0 => { l.push(cat!("Combo", a, " : ", b, ",2,3")); w.push(Colour::Combo(x as i32, rgb(y, 2, 3))); }
                1 => { l.push(cat!("SliderBorder : ", a, ",", b, ",255")); w.push(Colour::SliderBorder(rgb(x, y, 255))); }
                _ => { l.push(cat!("SliderTrackOverride : 0,", a, ",", b)); w.push(Colour::SliderTrackOverride(rgb(0, x, y))); }
            }
        }
        let x = must!(<Colours as VersionedFromStr>::from_str(&l.join("\n"), v).ok().flatten());
        chk!(x.0 == w);
        chk!(must!(<Colours as VersionedFromStr>::from_str(&cat!("\n", l.join("\r\n\r\n"), "\n \n"), v).ok().flatten()) == x);
        reach(1);
        let s = must!(VersionedToString::to_string(&x, v));
        trace(&s);
        chk!(s == l.join("\n"));
        if n > 0 {
            // one bad line
            let i = below(n as u8) as usize;
            l[i] = "Combo : 1,2,3".to_string();
            let e = <Colours as VersionedFromStr>::from_str(&l.join("\n\n"), v);
            chk!(matches!(e, Err(e) if e.line_index() == 2 * i));
        }
    }
    // versions before 5 have no colours, whatever the text
    p15_old / p15_old__count (3) |p| {
        let v = ver_in(3, 4);
        let t = word(3, |b| b != 0);
        reach(1);
        let s = if p == 0 { t.clone() } else { cat!("Combo1 : 1,2,3", t) };
        chk!(matches!(<Colours as VersionedFromStr>::from_str(&s, v), Ok(None)));
        chk!(<Colours as VersionedDefault>::default(v).is_none());
        chk!(VersionedToString::to_string(&Colours(vec![Colour::SliderBorder(rgb(1, 2, byte()))]), v).is_none());
        let w = ver_in(5, 14);
        chk!(matches!(<Colours as VersionedDefault>::default(w), Some(c) if c.0.is_empty()));
    }
    // malformed lines
    p15_bad / p15_bad__count (8) |p| {
        let v = ver_in(5, 14);
        let b = word(1, |b| b > 0x20 && b < 0x7f);
        let dig = b.as_bytes()[0].is_ascii_digit();
        reach(1);
        match p {
            0 => chk!(err(&cat!("Combo", b, " : 1,2,3"), v) == if dig { "" } else { "InvalidComboCount" }),
            1 => chk!(err(&cat!("Combo1 ", b, " 1,2,3"), v) == if b == ":" { "" } else { "InvalidColonSeparator" }),
            2 => chk!(err(&cat!("Combo1 : ", b, ",2,3"), v) == if dig { "" } else { "InvalidRed" }),
            3 => chk!(err(&cat!("SliderBorder : 1,", b, ",3"), v) == if dig { "" } else { "InvalidGreen" }),
            4 => chk!(err(&cat!("SliderTrackOverride : 1,2,", b), v) == if dig { "" } else { "InvalidBlue" }),
            5 => chk!(err(&cat!("Combo1 : 1", b, "2,3"), v) == match b.as_bytes()[0] { b',' => "", b'0'..=b'9' => "MissingBlue", _ => "MissingGreen" }),
            6 => chk!(err(&cat!("Combo1 : 1,2", b, "3"), v) == match b.as_bytes()[0] { b',' => "", b'6'..=b'9' => "InvalidGreen", _ => "MissingBlue" }),
            _ => chk!(err(&cat!("Combo1 : 1,2,3", b), v) == match b.as_bytes()[0] { b'0'..=b'9' => "", _ => "InvalidBlue" }),
        }
    }
    // key words with one byte changed
    p15_key / p15_key__count (3) |p| {
        let v = ver_in(5, 14);
        let k = ["Combo1", "SliderTrackOverride", "SliderBorder"][p as usize];
        let n = if p == 0 { 5 } else { k.len() };
        let i = below(n as u8) as usize;
        let b = word(1, |b| b > 0x20 && b < 0x7f && b != b':');
        let x = cat!(k[..i], b, k[i + 1..]);
        reach(1);
        let ok = x == k || x == "Sliderborder";
        chk!(err(&cat!(x, " : 1,2,3"), v) == if ok { "" } else { "UnknownColourType" });
    }
    p15_limit / p15_limit__count (2) |p| {
        let v = ver_in(5, 14);
        let (t, x) = digit(10);
        reach(1);
        if p == 0 {
            chk!(err(&cat!("Combo214748364", t, " : 1,2,3"), v) == if x <= 7 { "" } else { "InvalidComboCount" });
        } else {
            chk!(err(&cat!("SliderBorder : 1,2,25", t), v) == if x <= 5 { "" } else { "InvalidBlue" });
        }
    }
    // long lists, one bad line anywhere
    p15_long / p15_long__count (4 * 2) |p| {
        let mut p = Pick(p);
        let (n, bad) = (LONG[p.of(4)], p.of(2) == 1);
        let v = ver_in(5, 14);
        let (t, x) = digit(10);
        let at = below(n as u8) as usize;
        let mut l = vec![];
        let mut w = vec![];
        for i in 0..n {
            let c = (mix(i, 256) as u8, mix(i + 1, 256) as u8, if i == at { x } else { mix(i + 2, 256) as u8 });
            let c3 = if i == at { t.clone() } else { c.2.to_string() };
            let key = [cat!("Combo", (1 + i).to_string()), "SliderBorder".to_string(), "SliderTrackOverride".to_string()];
            let k = mix(i + 3, 5) % 3;
            l.push(cat!(key[k], " : ", c.0.to_string(), ",", c.1.to_string(), ",", c3));
            let c = rgb(c.0, c.1, c.2);
            w.push(match k { 0 => Colour::Combo(1 + i as i32, c), 1 => Colour::SliderBorder(c), _ => Colour::SliderTrackOverride(c) });
        }
        reach(1);
        if bad {
            l[at] = cat!("Combo", t, " : 1,2");
            let e = <Colours as VersionedFromStr>::from_str(&l.join("\r\n"), v);
            chk!(matches!(e, Err(e) if e.line_index() == at && std::string::ToString::to_string(e.error()) == std::string::ToString::to_string(&ParseRgbError::MissingBlue)));
            return;
        }
        let x = must!(<Colours as VersionedFromStr>::from_str(&l.join("\n"), v).ok().flatten());
        chk!(x.0 == w);
        chk!(must!(VersionedToString::to_string(&x, v)) == l.join("\n"));
    }
}
