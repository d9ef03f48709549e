//! Uniform access to the things that are parsed and printed.
use crate::{base::*, corpus::*};
use osu_file_parser::events::storyboard::cmds::Command;
use osu_file_parser::events::Event;
use osu_file_parser::hitobjects::HitObjectParams;
use osu_file_parser::osb::Variable;
use osu_file_parser::types::*;
use osu_file_parser::*;

pub trait Kind {
    type T: PartialEq + Clone;
    const C: &'static [&'static str];
    fn parse(s: &str, v: u8) -> Option<Self::T>;
    fn print(x: &Self::T, v: u8) -> Option<String>;
    /// belongs to a known finding of stability
    fn odd(_: &Self::T, _v: u8) -> bool {
        false
    }
    /// outside the property: a sample's file name that is blank at an end, where lines are trimmed
    fn outside(_: &Self::T) -> bool {
        false
    }
    /// holds something that version w has no spelling for but that is printed all the same
    fn apart(_: &Self::T, _w: u8) -> bool {
        false
    }
    /// what version 14 text can carry of the value
    fn latest(_: &mut Self::T) {}
}
/// a beat length with commas, which only version 3 reads
pub fn comma_beat(x: &TimingPoints) -> bool {
    x.to_string(3).map_or(false, |s| s.lines().any(|l| l.bytes().filter(|c| *c == b',').count() > 1))
}
/// a time that is zero in the text of versions 3 and 4 and was written with decimals: the offset
/// of these versions makes it a plain 0 when it is read
fn zero_there(d: &Decimal) -> bool {
    d.get().as_ref().left().map_or(false, |x| x.scale() > 0 && *x == rust_decimal::Decimal::from(24))
}
pub fn zero_time(x: &HitObjects) -> bool {
    x.0.iter().any(|h| {
        zero_there(&h.time)
            || match &h.obj_params {
                HitObjectParams::Spinner { end_time } | HitObjectParams::OsuManiaHold { end_time } => zero_there(end_time),
                _ => false,
            }
    })
}
pub fn zero_point(x: &TimingPoints) -> bool {
    x.0.iter().any(|p| zero_there(p.time()))
}
/// a mode that is newer than the version
pub fn newer_mode(x: &General, w: u8) -> bool {
    use osu_file_parser::general::Mode;
    match x.mode {
        Some(Mode::Taiko) => w < 5,
        Some(Mode::Catch) => w < 7,
        Some(Mode::Mania) => w < 10,
        _ => false,
    }
}
macro_rules! kind {
    ($n:ident, $t:ty, $c:expr $(, $l:ident)? $(; $a:expr)?) => {
        pub struct $n;
        impl Kind for $n {
            type T = $t;
            const C: &'static [&'static str] = $c;
            fn parse(s: &str, v: u8) -> Option<$t> {
                <$t>::from_str(s, v).ok().flatten()
            }
            fn print(x: &$t, v: u8) -> Option<String> {
                x.to_string(v)
            }
            $(fn latest(x: &mut $t) {
                $l(x)
            })?
            $(fn apart(x: &$t, w: u8) -> bool {
                $a(x, w)
            })?
        }
    };
}
kind!(Tp, TimingPoints, TP.split_at(TP.len() - 1).0; |x: &TimingPoints, w: u8| w > 3 && comma_beat(x) || w < 5 && zero_point(x));
kind!(TpMax, TimingPoints, TP.split_at(TP.len() - 1).1);
kind!(Col, Colours, COL);
kind!(Ev, Events, EV.split_at(EV.len() - 1).0, latest_events);
kind!(EvMax, Events, EV.split_at(EV.len() - 1).1, latest_events);
kind!(Cmd, Command, CMD);
kind!(Gen, General, GEN, latest_general; newer_mode);
kind!(Edi, Editor, EDI, latest_editor);
kind!(Met, Metadata, MET);
kind!(Dif, Difficulty, DIF);
kind!(Os, Osb, OSB, latest_osb);
/// hit objects, and ones at the limits of the number type
macro_rules! objects {
    ($n:ident, $c:expr) => {
        pub struct $n;
        impl Kind for $n {
            type T = HitObjects;
            const C: &'static [&'static str] = $c;
            fn parse(s: &str, v: u8) -> Option<HitObjects> {
                HitObjects::from_str(s, v).ok().flatten()
            }
            fn print(x: &HitObjects, v: u8) -> Option<String> {
                x.to_string(v)
            }
            fn outside(x: &HitObjects) -> bool {
                x.0.iter().any(|h| {
                    h.hitsample
                        .as_ref()
                        .map_or(false, |s| s.filename.trim() != s.filename)
                })
            }
            fn odd(x: &HitObjects, v: u8) -> bool {
                let bar = |d: &Decimal| d.get().as_ref().right().map_or(false, |s| s.contains('|'));
                v == 3
                    && x.0.iter().any(|h| {
                        matches!(h.obj_params, HitObjectParams::Slider(_))
                            && (bar(&h.position.x) || bar(&h.position.y))
                    })
            }
            fn apart(x: &HitObjects, w: u8) -> bool {
                w < 5 && zero_time(x)
            }
        }
    };
}
objects!(Ho, HO.split_at(10).0);
objects!(HoMax, HO.split_at(10).1);
/// a carriage return that does not end a line
pub fn stray_cr(s: &str) -> bool {
    let b = s.as_bytes();
    (0..b.len()).any(|i| b[i] == b'\r' && b.get(i + 1) != Some(&b'\n'))
}
/// events whose commands use the variable $a = 1
pub struct Tree;
fn a() -> [Variable; 1] {
    [Variable {
        name: "a".into(),
        value: "1".into(),
    }]
}
impl Kind for Tree {
    type T = Events;
    const C: &'static [&'static str] = TREE;
    fn parse(s: &str, v: u8) -> Option<Events> {
        Events::from_str_variables(s, v, &a()).ok().flatten()
    }
    fn print(x: &Events, v: u8) -> Option<String> {
        x.to_string_variables(v, &a())
    }
    fn latest(x: &mut Events) {
        latest_events(x)
    }
}
fn quoted(f: &mut FilePath) {
    let t = f.get().display().to_string();
    if t.contains(' ') && !(t.starts_with('"') && t.ends_with('"')) {
        f.set(cat!("\"", t, "\""));
    }
}
/// colour transformations are gone, names with spaces are quoted
fn latest_events(e: &mut Events) {
    use osu_file_parser::events::storyboard::sprites::ObjectType;
    e.0.retain(|x| !matches!(x, Event::ColourTransformation(_)));
    for x in &mut e.0 {
        match x {
            Event::Background(x) => quoted(&mut x.file_name),
            Event::Video(x) => quoted(&mut x.file_name),
            Event::SpriteLegacy(x) => quoted(&mut x.file_name),
            Event::AnimationLegacy(x) => quoted(&mut x.file_name),
            Event::SampleLegacy(x) => quoted(&mut x.file_name),
            Event::AudioSample(x) => quoted(&mut x.filepath),
            Event::StoryboardObject(x) => match &mut x.object_type {
                ObjectType::Sprite(x) => quoted(&mut x.filepath),
                ObjectType::Animation(x) => quoted(&mut x.filepath),
                _ => {}
            },
            _ => {}
        }
    }
}
fn latest_general(g: &mut General) {
    g.audio_hash = None;
    g.editor_bookmarks = None;
    g.editor_distance_spacing = None;
}
fn latest_editor(e: &mut Editor) {
    e.current_time = None;
}
fn latest_osb(o: &mut Osb) {
    if let Some(e) = &mut o.events {
        latest_events(e);
    }
}
/// a whole file; the version it is printed at replaces its own
pub struct File;
impl Kind for File {
    type T = OsuFile;
    const C: &'static [&'static str] = FILE;
    fn parse(s: &str, v: u8) -> Option<OsuFile> {
        s.parse().ok().filter(|x: &OsuFile| x.version == v)
    }
    fn print(x: &OsuFile, v: u8) -> Option<String> {
        let mut x = x.clone();
        x.version = v;
        Some(std::string::ToString::to_string(&x))
    }
    fn apart(x: &OsuFile, w: u8) -> bool {
        x.general.as_ref().map_or(false, |g| newer_mode(g, w)) 
            || w > 3 && x.timing_points.as_ref().map_or(false, comma_beat)
            || w < 5 && (x.timing_points.as_ref().map_or(false, zero_point) || x.hitobjects.as_ref().map_or(false, zero_time))
    }
    fn latest(x: &mut OsuFile) {
        if let Some(e) = &mut x.events {
            latest_events(e);
        }
        if let Some(g) = &mut x.general {
            latest_general(g);
        }
        if let Some(e) = &mut x.editor {
            latest_editor(e);
        }
    }
}
/// the p-th windowed text
pub fn text<K: Kind>(p: u32, shapes: &[(usize, usize)]) -> Option<String> {
    win_text(K::C, shapes, p)
}
