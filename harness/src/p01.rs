//! Totality: no text makes a parser panic.
use crate::{base::*, corpus::*, sym::*};
use osu_file_parser::*;

macro_rules! tot {
    ($name:ident, $cnt:ident, $tname:ident, $tcnt:ident, $pname:ident, $pcnt:ident, $corpus:expr, |$s:ident, $v:ident| $e:expr) => {
        fn run(p: u32, shapes: &[(usize, usize)]) {
            let $v = byte();
            if let Some(s) = win_text($corpus, shapes, p) {
                let $s: &str = &s;
                if $e {
                    reach(1);
                } else {
                    reach(2);
                }
            }
        }
        #[no_mangle]
        pub extern "C-unwind" fn $name(p: u32) {
            run(p, QUICK)
        }
        #[no_mangle]
        pub extern "C-unwind" fn $cnt() -> u32 {
            win_count($corpus, QUICK.len()) as u32
        }
        #[no_mangle]
        pub extern "C-unwind" fn $pname(p: u32) {
            run(p, &[PAIR])
        }
        #[no_mangle]
        pub extern "C-unwind" fn $pcnt() -> u32 {
            pair_count($corpus) as u32
        }
        #[no_mangle]
        pub extern "C-unwind" fn $tname(p: u32) {
            run(p, SHAPES)
        }
        #[no_mangle]
        pub extern "C-unwind" fn $tcnt() -> u32 {
            win_count($corpus, SHAPES.len()) as u32
        }
    };
}
mod tp {
    use super::*;
    tot!(p01_tp, p01_tp__count, p01t_tp, p01t_tp__count, p01t_tp2, p01t_tp2__count, TP, |s, v| TimingPoints::from_str(s, v).is_ok());
}
mod ho {
    use super::*;
    tot!(p01_ho, p01_ho__count, p01t_ho, p01t_ho__count, p01t_ho2, p01t_ho2__count, HO, |s, v| HitObjects::from_str(s, v).is_ok());
}
mod col {
    use super::*;
    tot!(p01_col, p01_col__count, p01t_col, p01t_col__count, p01t_col2, p01t_col2__count, COL, |s, v| Colours::from_str(s, v).is_ok());
}
mod ev {
    use super::*;
    tot!(p01_ev, p01_ev__count, p01t_ev, p01t_ev__count, p01t_ev2, p01t_ev2__count, EV, |s, v| Events::from_str(s, v).is_ok());
}
mod cmd {
    use super::*;
    tot!(p01_cmd, p01_cmd__count, p01t_cmd, p01t_cmd__count, p01t_cmd2, p01t_cmd2__count, CMD, |s, v| events::storyboard::cmds::Command::from_str(s, v).is_ok());
}
mod tree {
    use super::*;
    tot!(p01_tree, p01_tree__count, p01t_tree, p01t_tree__count, p01t_tree2, p01t_tree2__count, TREE, |s, v| Events::from_str_variables(
    s,
    v,
    &[osu_file_parser::osb::Variable { name: "a".into(), value: "1".into() }]
)
.is_ok());
}
mod general {
    use super::*;
    tot!(p01_gen, p01_gen__count, p01t_gen, p01t_gen__count, p01t_gen2, p01t_gen2__count, GEN, |s, v| General::from_str(s, v).is_ok());
}
mod edi {
    use super::*;
    tot!(p01_edi, p01_edi__count, p01t_edi, p01t_edi__count, p01t_edi2, p01t_edi2__count, EDI, |s, v| Editor::from_str(s, v).is_ok());
}
mod met {
    use super::*;
    tot!(p01_met, p01_met__count, p01t_met, p01t_met__count, p01t_met2, p01t_met2__count, MET, |s, v| Metadata::from_str(s, v).is_ok());
}
mod dif {
    use super::*;
    tot!(p01_dif, p01_dif__count, p01t_dif, p01t_dif__count, p01t_dif2, p01t_dif2__count, DIF, |s, v| Difficulty::from_str(s, v).is_ok());
}
mod osb {
    use super::*;
    tot!(p01_osb, p01_osb__count, p01t_osb, p01t_osb__count, p01t_osb2, p01t_osb2__count, OSB, |s, v| Osb::from_str(s, v).is_ok());
}
mod file {
    use super::*;
    tot!(p01_file, p01_file__count, p01t_file, p01t_file__count, p01t_file2, p01t_file2__count, FILE, |s, _v| s.parse::<OsuFile>().is_ok());
}
pub const TABLE: &[crate::Entry] = &[
    ("p01_tp", tp::p01_tp, tp::p01_tp__count),
    ("p01t_tp", tp::p01t_tp, tp::p01t_tp__count),
    ("p01t_tp2", tp::p01t_tp2, tp::p01t_tp2__count),
    ("p01_ho", ho::p01_ho, ho::p01_ho__count),
    ("p01t_ho", ho::p01t_ho, ho::p01t_ho__count),
    ("p01t_ho2", ho::p01t_ho2, ho::p01t_ho2__count),
    ("p01_col", col::p01_col, col::p01_col__count),
    ("p01t_col", col::p01t_col, col::p01t_col__count),
    ("p01t_col2", col::p01t_col2, col::p01t_col2__count),
    ("p01_ev", ev::p01_ev, ev::p01_ev__count),
    ("p01t_ev", ev::p01t_ev, ev::p01t_ev__count),
    ("p01t_ev2", ev::p01t_ev2, ev::p01t_ev2__count),
    ("p01_cmd", cmd::p01_cmd, cmd::p01_cmd__count),
    ("p01t_cmd", cmd::p01t_cmd, cmd::p01t_cmd__count),
    ("p01t_cmd2", cmd::p01t_cmd2, cmd::p01t_cmd2__count),
    ("p01_tree", tree::p01_tree, tree::p01_tree__count),
    ("p01t_tree", tree::p01t_tree, tree::p01t_tree__count),
    ("p01t_tree2", tree::p01t_tree2, tree::p01t_tree2__count),
    ("p01_gen", general::p01_gen, general::p01_gen__count),
    ("p01t_gen", general::p01t_gen, general::p01t_gen__count),
    ("p01t_gen2", general::p01t_gen2, general::p01t_gen2__count),
    ("p01_edi", edi::p01_edi, edi::p01_edi__count),
    ("p01t_edi", edi::p01t_edi, edi::p01t_edi__count),
    ("p01t_edi2", edi::p01t_edi2, edi::p01t_edi2__count),
    ("p01_met", met::p01_met, met::p01_met__count),
    ("p01t_met", met::p01t_met, met::p01t_met__count),
    ("p01t_met2", met::p01t_met2, met::p01t_met2__count),
    ("p01_dif", dif::p01_dif, dif::p01_dif__count),
    ("p01t_dif", dif::p01t_dif, dif::p01t_dif__count),
    ("p01t_dif2", dif::p01t_dif2, dif::p01t_dif2__count),
    ("p01_osb", osb::p01_osb, osb::p01_osb__count),
    ("p01t_osb", osb::p01t_osb, osb::p01t_osb__count),
    ("p01t_osb2", osb::p01t_osb2, osb::p01t_osb2__count),
    ("p01_file", file::p01_file, file::p01_file__count),
    ("p01t_file", file::p01t_file, file::p01t_file__count),
    ("p01t_file2", file::p01t_file2, file::p01t_file2__count),
];
