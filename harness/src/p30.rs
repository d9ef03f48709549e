//! Values put together in code are printed as text that parses back to them.
use crate::{base::*, sym::*};
use osu_file_parser::colours::{Colour, Rgb};
use osu_file_parser::events::audio_sample::{self, AudioSample};
use osu_file_parser::events::storyboard::cmds::{Colours as Rgbs, Command, CommandProperties, ContinuingFields};
use osu_file_parser::events::storyboard::sprites::{Animation, Layer, LoopType, Object, ObjectType, OriginType, Sprite};
use osu_file_parser::events::storyboard::types::{Addition, Easing, Parameter, SampleSet as TriggerSet, TriggerType};
use osu_file_parser::events::types::{LayerLegacy, OriginTypeLegacy};
use osu_file_parser::events::*;
use osu_file_parser::hitobjects::{self as ho, HitObject, HitObjectParams, HitSample, HitSound};
use osu_file_parser::osb::Variable;
use osu_file_parser::timingpoints::{self as tp, TimingPoint};
use osu_file_parser::types::*;
use osu_file_parser::*;

fn dd(x: i32) -> Decimal {
    Decimal::from(x)
}
/// a number of one digit
fn small() -> i32 {
    below(10) as i32
}
fn opt<T>(c: bool, x: T) -> Option<T> {
    if c {
        Some(x)
    } else {
        None
    }
}
/// a choice of the solver, concrete in each of its cases
fn case(n: u8) -> u8 {
    let x = below(n);
    for i in 0..n {
        if x == i {
            return i;
        }
    }
    0
}
fn back<T: PartialEq + VersionedFromStr + VersionedToString>(x: &T, v: u8) {
    let s = must!(VersionedToString::to_string(x, v));
    trace(&s);
    reach(1);
    match T::from_str(&s, v) {
        Ok(Some(y)) => {
            chk!(VersionedToString::to_string(&y, v).as_deref() == Some(&s));
            chk!(y == *x);
        }
        _ => chk!(false),
    }
}
fn list(n: usize) -> Vec<Decimal> {
    (0..n).map(|_| dd(small())).collect()
}
fn parameter() -> Parameter {
    match case(3) {
        0 => Parameter::ImageFlipHorizontal,
        1 => Parameter::ImageFlipVertical,
        _ => Parameter::UseAdditiveColourBlending,
    }
}
fn trigger_set(i: u8) -> Option<TriggerSet> {
    match i {
        0 => None,
        1 => Some(TriggerSet::All),
        2 => Some(TriggerSet::Normal),
        3 => Some(TriggerSet::Soft),
        _ => Some(TriggerSet::Drum),
    }
}
fn trigger() -> TriggerType {
    match case(3) {
        0 => TriggerType::Passing,
        1 => TriggerType::Failing,
        _ => {
            let sample_set = trigger_set(case(5));
            // a single set is the sample set
            let additions_sample_set = if sample_set.is_some() { trigger_set(case(5)) } else { None };
            TriggerType::HitSound {
                sample_set,
                additions_sample_set,
                addition: match case(4) {
                    0 => None,
                    1 => Some(Addition::Whistle),
                    2 => Some(Addition::Finish),
                    _ => Some(Addition::Clap),
                },
                custom_sample_set: opt(flag(), below(10) as usize),
            }
        }
    }
}
/// kind k of command with n further values; `commands` are the ones inside
fn command(k: usize, n: usize, easing: Easing, commands: Vec<Command>) -> Command {
    let start = opt(flag(), small());
    let end = if start.is_some() { opt(flag(), small()) } else { None };
    let pairs = |short: bool| {
        let c = (0..n).map(|i| (dd(small()), opt(i + 1 < n || !short, dd(small())))).collect();
        ContinuingFields::new((dd(small()), dd(small())), c).unwrap()
    };
    let properties = match k {
        0 => CommandProperties::Fade { easing, end_time: end, start_opacity: dd(small()), continuing_opacities: list(n) },
        1 => CommandProperties::Move { easing, end_time: end, positions_xy: pairs(flag()) },
        2 => CommandProperties::MoveX { easing, end_time: end, start_x: dd(small()), continuing_x: list(n) },
        3 => CommandProperties::MoveY { easing, end_time: end, start_y: dd(small()), continuing_y: list(n) },
        4 => CommandProperties::Scale { easing, end_time: end, start_scale: dd(small()), continuing_scales: list(n) },
        5 => CommandProperties::VectorScale { easing, end_time: end, scales_xy: pairs(flag()) },
        6 => CommandProperties::Rotate { easing, end_time: end, start_rotation: dd(small()), continuing_rotations: list(n) },
        7 => {
            let full = case(3);
            let c = (0..n).map(|i| {
                let whole = i + 1 < n;
                (below(10), opt(whole || full > 0, below(10)), opt(whole || full > 1, below(10)))
            });
            let colours = Rgbs::new((below(10), below(10), below(10)), c.collect()).unwrap();
            CommandProperties::Colour { easing, end_time: end, colours }
        }
        8 => CommandProperties::Parameter { easing, end_time: end, parameter: parameter(), continuing_parameters: (0..n).map(|_| parameter()).collect() },
        9 => CommandProperties::Loop { loop_count: below(10) as u32, commands },
        _ => CommandProperties::Trigger { trigger_type: trigger(), end_time: end, group_number: opt(flag(), small()), commands },
    };
    Command { start_time: start, properties }
}
fn easing(i: i32) -> Easing {
    <Easing as VersionedFrom<i32>>::from(i, 14).unwrap()
}
/// a fixed command that tells its place
fn leaf(i: i32) -> Command {
    Command {
        start_time: Some(i),
        properties: CommandProperties::Rotate { easing: easing(0), end_time: None, start_rotation: dd(i), continuing_rotations: vec![] },
    }
}
/// a forest of at most n commands
fn forest(n: &mut i32, depth: usize) -> Vec<Command> {
    let mut v = vec![];
    while *n > 0 {
        let k = case(4);
        if k == 0 {
            break;
        }
        *n -= 1;
        let id = *n;
        v.push(match k {
            1 => leaf(id),
            _ if depth == 0 => leaf(id),
            2 => Command { start_time: Some(id), properties: CommandProperties::Loop { loop_count: 2, commands: forest(n, depth - 1) } },
            _ => Command {
                start_time: Some(id),
                properties: CommandProperties::Trigger { trigger_type: TriggerType::Failing, end_time: Some(9), group_number: None, commands: forest(n, depth - 1) },
            },
        });
    }
    v
}
fn position() -> Position {
    Position { x: dd(small()), y: dd(small()) }
}
fn file() -> FilePath {
    cat!(word(2, plain), ".x").into()
}
fn event(k: usize, v: u8, commands: Vec<Command>) -> Event {
    let layer = || match case(4) {
        0 => LayerLegacy::Background,
        1 => LayerLegacy::Fail,
        2 => LayerLegacy::Pass,
        _ => LayerLegacy::Foreground,
    };
    let at = |c: bool| opt(c, position());
    match k {
        0 => Event::Background(Background { start_time: small(), file_name: file(), position: at(flag()), commands }),
        1 => {
            let mut x = Video::new(small(), file(), at(flag()));
            x.commands = commands;
            Event::Video(x)
        }
        2 => Event::SpriteLegacy(SpriteLegacy { layer: layer(), origin: OriginTypeLegacy::Centre, file_name: file(), position: at(flag()), commands }),
        3 => Event::AnimationLegacy(AnimationLegacy { layer: layer(), origin: OriginTypeLegacy::TopLeft, file_name: file(), position: at(flag()), commands }),
        4 => Event::SampleLegacy(SampleLegacy {
            time: dd(small()),
            layer: layer(),
            file_name: file(),
            volume: opt(flag(), <audio_sample::Volume as VersionedTryFrom<u8>>::try_from(100, v).unwrap().unwrap()),
            commands,
        }),
        5 => Event::StoryboardObject(Object {
            layer: match case(5) {
                0 => Layer::Background,
                1 => Layer::Fail,
                2 => Layer::Pass,
                3 => Layer::Foreground,
                _ => Layer::Overlay,
            },
            origin: OriginType::BottomLeft.into(),
            position: position(),
            object_type: ObjectType::Sprite(Sprite::new(std::path::Path::new(&cat!(word(2, |b| plain(b) && b != b'/'), ".x"))).unwrap()),
            commands,
        }),
        6 => Event::StoryboardObject(Object {
            layer: Layer::Pass,
            origin: OriginType::CentreRight.into(),
            position: position(),
            object_type: ObjectType::Animation(Animation {
                frame_count: below(10) as u32,
                frame_delay: rust_decimal::Decimal::from(below(10)),
                loop_type: if flag() { LoopType::LoopForever } else { LoopType::LoopOnce },
                filepath: file(),
            }),
            commands,
        }),
        7 => Event::Break(Break::new(small(), small())),
        8 => Event::AudioSample(AudioSample {
            time: small(),
            layer: match case(4) {
                0 => audio_sample::Layer::Background,
                1 => audio_sample::Layer::Fail,
                2 => audio_sample::Layer::Pass,
                _ => audio_sample::Layer::Foreground,
            },
            filepath: file(),
            volume: audio_sample::Volume::new(below(10), v).unwrap(),
        }),
        9 => Event::ColourTransformation(ColourTransformation { start_time: small(), red: below(10), green: byte(), blue: below(10) }),
        _ => Event::Comment(word(3, printable)),
    }
}
/// kinds that hold commands
const OWNERS: usize = 7;
const EVENTS: usize = 11;
fn object(k: usize, w: usize) -> HitObject {
    let mut h = HitObject::hitcircle_default();
    h.position = position();
    h.time = dd(small());
    h.new_combo = flag();
    h.combo_skip_count = ho::ComboSkipCount::new(below(8), 14).unwrap().unwrap();
    h.hitsound = HitSound::new(w == 0, flag(), w == 1, flag());
    let set = |i| match i {
        0 => ho::SampleSet::NoCustomSampleSet,
        1 => ho::SampleSet::NormalSet,
        2 => ho::SampleSet::SoftSet,
        _ => ho::SampleSet::DrumSet,
    };
    let sample = || HitSample {
        normal_set: set(case(4)),
        addition_set: set(w as u8),
        index: if w != 1 { ho::SampleIndex::TimingPointSampleIndex } else { ho::SampleIndex::Index(std::num::NonZeroUsize::new(7).unwrap()) },
        volume: ho::Volume::new(opt(flag(), 1 + below(9))).unwrap(),
        filename: if w == 2 { String::new() } else { word(2, plain) },
    };
    // an object with commas behind the end time always has a sample
    if w > 0 || k == 3 {
        h.hitsample = Some(sample());
    }
    h.obj_params = match k {
        0 => HitObjectParams::HitCircle,
        1 => HitObjectParams::Slider(ho::SlideParams::new(
            match w {
                0 => ho::CurveType::Bezier,
                1 => ho::CurveType::Centripetal,
                2 => ho::CurveType::Linear,
                _ => ho::CurveType::PerfectCircle,
            },
            (0..w).map(|i| ho::CurvePoint(if i == 0 { position() } else { Position { x: dd(i as i32), y: dd(4) } })).collect(),
            small(),
            dd(small()),
            (0..(w + 1) % 3).map(|_| HitSound::new(flag(), true, false, flag())).collect(),
            (0..w % 2).map(|_| ho::EdgeSet { normal_set: set(w as u8), addition_set: set(2) }).collect(),
        )),
        2 => HitObjectParams::Spinner { end_time: dd(small()) },
        _ => HitObjectParams::OsuManiaHold { end_time: dd(small()) },
    };
    h
}
fn timing(k: usize, v: u8) -> TimingPoint {
    let set = match case(4) {
        0 => tp::SampleSet::BeatmapDefault,
        1 => tp::SampleSet::Normal,
        2 => tp::SampleSet::Soft,
        _ => tp::SampleSet::Drum,
    };
    let index = if flag() { tp::SampleIndex::OsuDefaultHitsounds } else { tp::SampleIndex::Index(std::num::NonZeroU32::new(9).unwrap()) };
    let vol = tp::Volume::new(below(10) as i32, v).unwrap();
    let fx = tp::Effects::new(flag(), flag());
    if k == 0 {
        TimingPoint::new_inherited(small(), rust_decimal::Decimal::from(2), small(), set, index, vol, fx)
    } else {
        let mut x = TimingPoint::new_uninherited(small(), dd(300), small(), set, index, vol, fx);
        if k == 2 {
            x.set_time(small());
            x.set_meter(small());
            x.set_uninherited(flag());
        }
        x
    }
}

harnesses! {
    // every kind of command with its options
    p30_cmd / p30_cmd__count (11 * 4) |p| {
        let mut p = Pick(p);
        let (k, n) = (p.of(11), p.of(4));
        let inner = if n == 3 { vec![] } else { (0..n as i32).map(leaf).collect() };
        let e = easing(below(35) as i32);
        // commands inside are printed on lines of their own
        let c = command(k, n, e, if k >= 9 { inner } else { vec![] });
        let e = Events(vec![Event::Background(Background { start_time: 0, file_name: "b".into(), position: None, commands: vec![c, leaf(7)] })]);
        back(&e, ver());
    }
    // a chain of loops and triggers with commands after it on two of its levels
    p30_chain / p30_chain__count (6 * 2) |p| {
        let mut p = Pick(p);
        let (n, empty) = (2 + p.of(6) as i32, p.of(2) == 1);
        let v = ver_in(5, 14);
        let (a, b) = (case(n as u8 + 1) as i32, case(n as u8 + 1) as i32);
        let mut c = if empty { vec![] } else { vec![leaf(9)] };
        for i in (0..=n).rev() {
            if i < n {
                let start_time = Some(i);
                c = vec![if (i + n) % 2 == 0 {
                    Command { start_time, properties: CommandProperties::Loop { loop_count: 3, commands: c } }
                } else {
                    Command { start_time, properties: CommandProperties::Trigger { trigger_type: TriggerType::Passing, end_time: Some(9), group_number: None, commands: c } }
                }];
            }
            if a == i {
                c.push(leaf(7));
            }
            if b == i {
                c.push(Command { start_time: Some(8), properties: CommandProperties::Loop { loop_count: 2, commands: vec![leaf(6)] } });
            }
        }
        let e = Event::Background(Background { start_time: 0, file_name: "b".into(), position: None, commands: c });
        back(&Events(vec![e, Event::Break(Break::new(1, 2))]), v);
    }
    // forests of commands under every kind of event
    p30_tree / p30_tree__count (OWNERS * 3) |p| {
        let mut p = Pick(p);
        let (k, n) = (p.of(OWNERS), p.of(3));
        let v = ver_in(5, 14);
        let mut n = n as i32 + 2;
        let e = match k {
            0 => Event::Background(Background { start_time: 0, file_name: "b".into(), position: None, commands: forest(&mut n, 3) }),
            1 => {
                let mut x = Video::new(0, "b".into(), None);
                x.commands = forest(&mut n, 3);
                Event::Video(x)
            }
            2 => Event::SpriteLegacy(SpriteLegacy { layer: LayerLegacy::Fail, origin: OriginTypeLegacy::Centre, file_name: "b".into(), position: None, commands: forest(&mut n, 3) }),
            3 => Event::AnimationLegacy(AnimationLegacy { layer: LayerLegacy::Fail, origin: OriginTypeLegacy::Centre, file_name: "b".into(), position: None, commands: forest(&mut n, 3) }),
            4 => Event::SampleLegacy(SampleLegacy { time: dd(0), layer: LayerLegacy::Fail, file_name: "b".into(), volume: None, commands: forest(&mut n, 3) }),
            _ => Event::StoryboardObject(Object {
                layer: Layer::Pass,
                origin: OriginType::Centre.into(),
                position: Position { x: dd(0), y: dd(0) },
                object_type: if k == 5 {
                    ObjectType::Sprite(Sprite::new(std::path::Path::new("b")).unwrap())
                } else {
                    ObjectType::Animation(Animation { frame_count: 1, frame_delay: rust_decimal::Decimal::from(1), loop_type: LoopType::LoopForever, filepath: "b".into() })
                },
                commands: forest(&mut n, 3),
            }),
        };
        let e = Events(vec![e, Event::Break(Break::new(1, 2))]);
        back(&e, v);
    }
    // lists of two events
    p30_ev / p30_ev__count (EVENTS * EVENTS) |p| {
        let mut p = Pick(p);
        let (a, b) = (p.of(EVENTS), p.of(EVENTS));
        let v = if a == 9 || b == 9 { ver_in(3, 13) } else { ver() };
        let e = Events(vec![event(a, v, if a < OWNERS { vec![leaf(1)] } else { vec![] }), event(b, v, vec![])]);
        back(&e, v);
    }
    p30_ho / p30_ho__count (4 * 4) |p| {
        let mut p = Pick(p);
        let x = HitObjects(vec![object(p.of(4), p.of(4)), HitObject::spinner_default()]);
        let v = ver_in(12, 14);
        let s = must!(x.to_string(v));
        trace(&s);
        reach(1);
        let y = must!(HitObjects::from_str(&s, v).ok().flatten());
        chk!(y.to_string(v).as_deref() == Some(&s));
        // sliders remember which lists were written; made by the constructor they are alike
        let mut y = y;
        for h in &mut y.0 {
            if let HitObjectParams::Slider(s) = &mut h.obj_params {
                *s = ho::SlideParams::new(s.curve_type, s.curve_points.clone(), s.slides, s.length.clone(), s.edge_sounds.clone(), s.edge_sets.clone());
            }
        }
        chk!(x == y);
    }
    p30_tp / p30_tp__count (3 * 3) |p| {
        let mut p = Pick(p);
        let v = ver_in(5, 14);
        let x = TimingPoints(vec![timing(p.of(3), v), timing(p.of(3), v)]);
        back(&x, v);
    }
    p30_col / p30_col__count (1) |_p| {
        let rgb = || Rgb { red: below(10), green: byte(), blue: below(10) };
        let one = |k: u8| match k {
            0 => Colour::Combo(below(10) as i32, rgb()),
            1 => Colour::SliderTrackOverride(rgb()),
            _ => Colour::SliderBorder(rgb()),
        };
        let n = case(3);
        let x = Colours((0..n).map(|_| one(case(3))).collect());
        back(&x, ver_in(5, 14));
    }
    // whole files: every subset of the sections
    p30_file / p30_file__count (16) |p| {
        let mut f = OsuFile::new(14);
        let bit = |i: u32| p >> i & 1 == 1;
        if bit(0) {
            let mut g = General::new();
            let c = flag();
            g.mode = opt(c, osu_file_parser::general::Mode::Mania);
            g.preview_time = opt(!c, small().into());
            g.countdown_offset = opt(c, small().into());
            f.general = Some(g);
            let mut e = Editor::new();
            e.grid_size = opt(c, small().into());
            f.editor = Some(e);
        }
        if bit(1) {
            let mut m = Metadata::new();
            let c = flag();
            m.title = opt(c, word(1, plain).into());
            m.version = opt(!c, word(1, plain).into());
            f.metadata = Some(m);
            let mut d = Difficulty::new();
            d.slider_multiplier = opt(c, dd(small()).into());
            f.difficulty = Some(d);
        }
        if bit(2) {
            let c = flag();
            f.events = Some(Events(if c { vec![Event::Break(Break::new(small(), 7)), Event::Comment("x".into())] } else { vec![] }));
            f.timing_points = Some(TimingPoints(if c { vec![] } else { vec![timing(2, 14)] }));
        }
        if bit(3) {
            let c = flag();
            f.colours = Some(Colours(if c { vec![Colour::Combo(below(10) as i32, Rgb { red: 1, green: below(10), blue: 3 })] } else { vec![] }));
            f.hitobjects = Some(HitObjects(if !c { vec![HitObject::spinner_default()] } else { vec![] }));
        }
        let s = std::string::ToString::to_string(&f);
        trace(&s);
        reach(1);
        match s.parse::<OsuFile>() {
            Ok(g) => {
                chk!(std::string::ToString::to_string(&g) == s);
                chk!(g == f);
            }
            Err(_) => chk!(false),
        }
    }
    // storyboards with variables
    p30_osb / p30_osb__count (OWNERS * 3) |p| {
        let mut p = Pick(p);
        let (k, n) = (p.of(OWNERS), p.of(3));
        let x = Osb {
            variables: opt(n > 0, (0..n).map(|i| Variable { name: raw(vec![b'a' + i as u8, b'q']), value: cat!("1", raw(vec![b'2' + i as u8]), digit(10).0) }).collect()),
            events: Some(Events(vec![event(k, 14, vec![leaf(120 + n as i32), leaf(131)])])),
        };
        let s = must!(x.to_string(14));
        trace(&s);
        reach(1);
        let y = must!(Osb::from_str(&s, 14).ok().flatten());
        chk!(y.to_string(14).as_deref() == Some(&s));
        chk!(y == x);
    }
    // large values: many commands under one event, many events
    p30_long / p30_long__count (4 * 2 * 3) |p| {
        fn grow(n: &mut usize, s: &mut usize, depth: usize, at: usize, x: i32) -> Vec<Command> {
            let mut v = vec![];
            while *n > 0 {
                *s += 1;
                let k = mix(*s, 7);
                if k == 0 && depth > 0 {
                    break;
                }
                *n -= 1;
                let id = if *n == at { x } else { mix(*s + 3, 3000) as i32 };
                let start_time = Some(id);
                v.push(match k {
                    1 | 2 if depth < 12 => Command { start_time, properties: CommandProperties::Loop { loop_count: 2, commands: grow(n, s, depth + 1, at, x) } },
                    3 | 4 if depth < 12 => Command {
                        start_time,
                        properties: CommandProperties::Trigger { trigger_type: TriggerType::Failing, end_time: Some(9), group_number: None, commands: grow(n, s, depth + 1, at, x) },
                    },
                    _ => leaf(id),
                });
            }
            v
        }
        let mut p = Pick(p);
        let (mut n, one) = (LONG[p.of(4)], p.of(2) == 1);
        let v = ver_in(5, 14);
        let at = [0, n / 3, n - 1][p.of(3)];
        let x = small();
        let mut s = n;
        let e = if one {
            vec![Event::Background(Background { start_time: 0, file_name: "b".into(), position: None, commands: grow(&mut n, &mut s, 0, at, x) })]
        } else {
            (0..n).map(|i| {
                let mut m = mix(i, 4);
                let commands = grow(&mut m, &mut s, 0, 99, 0);
                let t = if i == at { x } else { mix(i, 9000) as i32 };
                match mix(i + 1, 5) {
                    0 => Event::Background(Background { start_time: t, file_name: "b".into(), position: None, commands }),
                    1 => Event::SpriteLegacy(SpriteLegacy { layer: LayerLegacy::Fail, origin: OriginTypeLegacy::Centre, file_name: "b".into(), position: Some(Position { x: dd(t), y: dd(2) }), commands }),
                    2 => Event::Break(Break::new(t, 7)),
                    3 => Event::Comment(t.to_string()),
                    _ => Event::StoryboardObject(Object {
                        layer: Layer::Pass,
                        origin: OriginType::Centre.into(),
                        position: Position { x: dd(0), y: dd(t) },
                        object_type: ObjectType::Sprite(Sprite::new(std::path::Path::new("b")).unwrap()),
                        commands,
                    }),
                }
            }).collect()
        };
        let e = Events(e);
        let s = must!(VersionedToString::to_string(&e, v));
        reach(1);
        chk!(matches!(Events::from_str(&s, v), Ok(Some(y)) if y == e));
    }
}
