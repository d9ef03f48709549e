//! Bounded values, flag sets, enumerations as numbers, and setters, as histories of operations.
use crate::{base::*, sym::*};
use either::Either;
use osu_file_parser::events::audio_sample as au;
use osu_file_parser::events::storyboard::{sprites, types as sb};
use osu_file_parser::events::types as legacy;
use osu_file_parser::general::Countdown;
use osu_file_parser::hitobjects as ho;
use osu_file_parser::timingpoints as tp;
use osu_file_parser::types::*;

/// the printed number of a value
fn text<T: VersionedToString>(x: &T, v: u8) -> String {
    VersionedToString::to_string(x, v).unwrap_or_else(|| "none".into())
}
/// conversion there and back
fn conv<T, U>(x: T, v: u8) -> Option<U>
where
    U: VersionedFrom<T>,
{
    <U as VersionedFrom<T>>::from(x, v)
}

harnesses! {
    // combo skip counts are three bits; a rejected set leaves the old count
    p22_combo / p22_combo__count (3) |p| {
        let v = ver();
        let a = byte();
        match ho::ComboSkipCount::new(a, v) {
            Ok(c) => {
                let c = must!(c);
                chk!(a <= 7 && c.get() == a);
                chk!(conv::<_, u8>(c, v) == Some(a));
            }
            Err(_) => chk!(a > 7),
        }
        let mut c = ho::ComboSkipCount::default();
        let mut m = 0;
        for _ in 0..=p {
            let b = byte();
            let ok = c.set(b, v).is_ok();
            chk!(ok == (b <= 7));
            if b <= 7 { m = b; }
            chk!(c.get() == m);
        }
        reach(1);
    }
    // hit sample volumes: 1 to 100 or the timing point's
    p22_sample_volume / p22_sample_volume__count (4) |p| {
        let a = byte();
        let some = flag();
        let r = ho::Volume::new(if some { Some(a) } else { None });
        chk!(r.is_ok() == (!some || (1 <= a && a <= 100)));
        match ho::Volume::new(Some(a)) {
            Ok(x) => chk!(x.volume() == Some(a) && !x.use_timing_point_volume()),
            Err(ho::VolumeSetError::VolumeTooLow) => chk!(a == 0),
            Err(ho::VolumeSetError::VolumeTooHigh) => chk!(a > 100),
            #[allow(unreachable_patterns)]
            Err(_) => chk!(false),
        }
        let mut x = must!(ho::Volume::new(None).ok());
        let mut m = None;
        for _ in 0..=p {
            if flag() {
                let b = byte();
                let ok = x.set_volume(b).is_ok();
                chk!(ok == (b >= 1 && b <= 100));
                if ok { m = Some(b); }
            } else {
                x.set_use_timing_point_volume();
                m = None;
            }
            chk!(x.volume() == m && x.use_timing_point_volume() == m.is_none());
            chk!(conv::<_, i32>(x, 14) == Some(m.map_or(0, |b| b as i32)));
        }
        reach(1);
    }
    // audio sample volumes: 0 to 100
    p22_audio_volume / p22_audio_volume__count (3) |p| {
        let v = ver();
        let a = byte();
        match au::Volume::new(a, v) {
            Ok(x) => chk!(a <= 100 && x.get() == a && conv::<_, u8>(x, v) == Some(a)),
            Err(au::VolumeSetError::VolumeTooHigh) => chk!(a > 100),
            #[allow(unreachable_patterns)]
            Err(_) => chk!(false),
        }
        let mut x = must!(<au::Volume as VersionedDefault>::default(v));
        let mut m = 100;
        chk!(x.get() == 100);
        for _ in 0..=p {
            let b = byte();
            let ok = x.set(b, v).is_ok();
            chk!(ok == (b <= 100));
            if ok { m = b; }
            chk!(x.get() == m);
        }
        reach(1);
    }
    // hit sounds: four independent flags, no sound set means the normal one
    p22_sound / p22_sound__count (4) |p| {
        let v = ver();
        let raw = byte();
        let mut x = must!(conv::<u8, ho::HitSound>(raw, v));
        let mut m = raw & 15;
        if p == 0 {
            let (a, b, c, d) = (flag(), flag(), flag(), flag());
            x = ho::HitSound::new(a, b, c, d);
            m = a as u8 | (b as u8) << 1 | (c as u8) << 2 | (d as u8) << 3;
        }
        for _ in 0..=p {
            chk!(x.whistle() == (m & 2 != 0) && x.finish() == (m & 4 != 0) && x.clap() == (m & 8 != 0));
            chk!(x.normal() == (m & 1 != 0 || m == 0));
            let k = below(4);
            let on = flag();
            match k {
                0 => x.set_normal(on),
                1 => x.set_whistle(on),
                2 => x.set_finish(on),
                _ => x.set_clap(on),
            }
            m = if on { m | 1 << k } else { m & !(1 << k) };
        }
        chk!(x.whistle() == (m & 2 != 0) && x.finish() == (m & 4 != 0) && x.clap() == (m & 8 != 0));
        chk!(x.normal() == (m & 1 != 0 || m == 0));
        let s = text(&x, v);
        trace(&s);
        reach(1);
        chk!(s.parse() == Ok(m));
        chk!(<ho::HitSound as VersionedFromStr>::from_str(&s, v).ok().flatten() == Some(x));
    }
    // effects keep every bit; the two flags are independent of each other and of the rest
    p22_effects / p22_effects__count (5) |p| {
        let v = ver();
        let raw = u32v();
        let mut x = must!(conv::<u32, tp::Effects>(raw, v));
        let mut m = raw;
        if p == 0 {
            let (a, b) = (flag(), flag());
            x = tp::Effects::new(a, b);
            m = a as u32 | (b as u32) << 3;
        }
        for _ in 0..p {
            match below(5) {
                0 => { x.set_kiai_time_enabled(true); m |= 1; }
                1 => { x.set_kiai_time_enabled(false); m &= !1; }
                2 => { x.set_no_first_barline_in_taiko_mania(true); m |= 8; }
                3 => { x.set_no_first_barline_in_taiko_mania(false); m &= !8; }
                _ => { x.clear_unused_bits(); m &= 9; }
            }
            chk!(x.kiai_time_enabled() == (m & 1 != 0));
            chk!(x.no_first_barline_in_taiko_mania() == (m & 8 != 0));
        }
        chk!(x.kiai_time_enabled() == (m & 1 != 0));
        chk!(x.no_first_barline_in_taiko_mania() == (m & 8 != 0));
        chk!(conv::<_, u32>(x, v) == Some(m));
        reach(1);
    }
    // numbers to values and back
    p22_number / p22_number__count (6) |p| {
        let v = ver();
        let n = i32v();
        reach(1);
        match p {
            0 => {
                let x = must!(conv::<i32, sb::Easing>(n, v));
                chk!(conv::<_, i32>(x, v) == Some(n));
                chk!(matches!(x, sb::Easing::Other(_)) == !(n >= 0 && n < 35));
                let other = i32v();
                if other != n {
                    chk!(conv::<i32, sb::Easing>(other, v) != Some(x));
                }
            }
            1 => match <sprites::OriginType as VersionedTryFrom<i32>>::try_from(n, v) {
                Ok(x) => {
                    let x = must!(x);
                    chk!(n >= 0 && n < 10 && conv::<_, i32>(x, v) == Some(n));
                    let o = sprites::Origin::from(x);
                    chk!(o.shorthand && o.type_ == Either::Left(x));
                }
                Err(_) => chk!(n < 0 || n >= 10),
            },
            2 => {
                let x = must!(conv::<i32, tp::SampleSet>(n, v));
                chk!(conv::<_, i32>(x, v) == Some(n));
                chk!(matches!(x, tp::SampleSet::Other(_)) == !(n >= 0 && n < 4));
            }
            3 => {
                let n = n as u32;
                let x = must!(conv::<u32, tp::SampleIndex>(n, v));
                chk!(match x { tp::SampleIndex::OsuDefaultHitsounds => n == 0, tp::SampleIndex::Index(i) => i.get() == n, _ => false });
                if n <= i32::MAX as u32 {
                    chk!(conv::<_, i32>(x, v) == Some(n as i32));
                }
            }
            4 => {
                let n = n as u32 as usize | (i32v() as u32 as usize) << 32;
                let x = must!(conv::<usize, ho::SampleIndex>(n, v));
                chk!(match x { ho::SampleIndex::TimingPointSampleIndex => n == 0, ho::SampleIndex::Index(i) => i.get() == n, _ => false });
                chk!(conv::<_, usize>(x, v) == Some(n));
            }
            _ => {
                let x = must!(tp::Volume::new(n, v));
                chk!(x.volume() == n && conv::<_, i32>(x, v) == Some(n));
                let mut y = x;
                let k = i32v();
                y.set_volume(k);
                chk!(y.volume() == k && x.volume() == n);
            }
        }
    }
    // representations
    p22_repr / p22_repr__count (4) |p| {
        let v = ver();
        let n = u32v() as usize | (u32v() as usize) << 32;
        reach(1);
        match p {
            0 => match Countdown::from_repr(n, v) {
                Ok(Some(c)) => chk!(v > 4 && n < 4 && c as usize == n),
                Ok(None) => chk!(v <= 4),
                Err(_) => chk!(v > 4 && n >= 4),
            },
            1 => match au::Layer::from_repr(n, v) {
                Ok(Some(c)) => chk!(n < 4 && c as usize == n),
                Ok(None) => chk!(false),
                Err(_) => chk!(n >= 4),
            },
            2 => match legacy::LayerLegacy::from_repr(n, v) {
                Ok(Some(c)) => chk!(n < 6 && conv::<_, usize>(c, v) == Some(n)),
                Ok(None) => chk!(false),
                Err(_) => chk!(n >= 6),
            },
            _ => match legacy::OriginTypeLegacy::from_repr(n, v) {
                Ok(Some(c)) => chk!(n < 10 && conv::<_, usize>(c, v) == Some(n)),
                Ok(None) => chk!(false),
                Err(_) => chk!(n >= 10),
            },
        }
    }
    // the names behind the numbers
    p22_name / p22_name__count (3) |p| {
        let n = below(if p == 0 { 35 } else if p == 1 { 10 } else { 10 });
        reach(1);
        const E: [sb::Easing; 35] = {
            use sb::Easing::*;
            [Linear, EasingOut, EasingIn, QuadIn, QuadOut, QuadInOut, CubicIn, CubicOut, CubicInOut, QuartIn, QuartOut, QuartInOut, QuintIn, QuintOut, QuintInOut, SineIn, SineOut, SineInOut, ExpoIn, ExpoOut, ExpoInOut, CircIn, CircOut, CircInOut, ElasticIn, ElasticOut, ElasticHalfOut, ElasticQuarterOut, ElasticInOut, BackIn, BackOut, BackInOut, BounceIn, BounceOut, BounceInOut]
        };
        const O: [sprites::OriginType; 10] = {
            use sprites::OriginType::*;
            [TopLeft, Centre, CentreLeft, TopRight, BottomCentre, TopCentre, Custom, CentreRight, BottomLeft, BottomRight]
        };
        const L: [legacy::OriginTypeLegacy; 10] = {
            use legacy::OriginTypeLegacy::*;
            [TopLeft, Centre, CentreLeft, TopRight, BottomCentre, TopCentre, Custom, CentreRight, BottomLeft, BottomRight]
        };
        for i in 0..35u8 {
            if i == n {
                let i = i as usize;
                match p {
                    0 => chk!(conv::<_, i32>(E[i], 14) == Some(n as i32) && conv::<i32, _>(n as i32, 14) == Some(E[i])),
                    1 => chk!(conv::<_, i32>(O[i], 14) == Some(n as i32)),
                    _ => chk!(conv::<_, usize>(L[i], 14) == Some(n as usize)),
                }
            }
        }
    }
    // the setters of a timing point change one value each, in any order
    p22_timing / p22_timing__count (7 * 7 * 7) |p| {
        let mut p = Pick(p);
        let ops = [p.of(7), p.of(7), p.of(7)];
        let v = 14;
        let mut x = must!(must!(<tp::TimingPoint as VersionedFromStr>::from_str("1,2.5,3,1,4,5,1,8", v).ok()));
        let mut time = Decimal::from(1);
        let (mut meter, mut set, mut index, mut volume, mut un, mut eff) = (3, 1, 4u32, 5, true, Some(8u32));
        for op in ops {
            let n = i32v();
            match op {
                0 => { x.set_time(7 + op as i32); time = Decimal::from(7); }
                1 => { x.set_meter(n); meter = n; }
                2 => { x.set_sample_set(must!(conv::<i32, tp::SampleSet>(n, v))); set = n; }
                3 => { *x.sample_index_mut() = must!(conv::<u32, tp::SampleIndex>(n as u32, v)); index = n as u32; }
                4 => { x.set_volume(must!(tp::Volume::new(n, v))); volume = n; }
                5 => { un = n > 0; x.set_uninherited(un); }
                _ => { eff = if n < 0 { None } else { Some(n as u32) }; *x.effects_mut() = eff.and_then(|e| conv::<u32, tp::Effects>(e, v)); }
            }
            chk!(x.time() == &time && x.meter() == meter);
            chk!(conv::<_, i32>(x.sample_set(), v) == Some(set) && x.volume().volume() == volume);
            chk!(Some(x.sample_index()) == conv::<u32, tp::SampleIndex>(index, v));
            chk!(x.uninherited() == un);
            chk!(x.effects().map(|e| conv::<_, u32>(*e, v)) == eff.map(Some));
        }
        reach(1);
    }
}
