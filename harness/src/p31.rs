//! A value printed at another version is text of that version: accepted there and printed identically there.
use crate::{base::*, rt::*, sym::*};

const Q: &[(usize, usize)] = &[(1, 1), (0, 1), (2, 0)];
const THOROUGH: &[(usize, usize)] = &[(1, 2), (0, 2), (2, 1)];
fn run<K: Kind>(p: u32, shapes: &[(usize, usize)]) {
    let v = ver();
    if let Some(s) = text::<K>(p, shapes) {
        // a carriage return at the end of a line is part of the line end only when a line feed follows
        assume(!stray_cr(&s));
        if let Some(x) = K::parse(&s, v) {
            assume(!K::outside(&x));
            let w = ver();
            // a slider of version 3 whose position has a bar, see P03
            assume(!K::apart(&x, w) && !K::odd(&x, w));
            if let Some(a) = K::print(&x, w) {
                trace(&a);
                reach(1);
                let y = must!(K::parse(&a, w));
                chk!(K::print(&y, w) == Some(a));
            }
        }
    }
}

harnesses! {
    p31_tp / p31_tp__count (win_count(Tp::C, Q.len())) |p| { run::<Tp>(p, Q) }
    p31t_tp / p31t_tp__count (win_count(Tp::C, THOROUGH.len())) |p| { run::<Tp>(p, THOROUGH) }
    p31t_tp2 / p31t_tp2__count (pair_count(Tp::C)) |p| { run::<Tp>(p, &[PAIR]) }
    p31_ho / p31_ho__count (win_count(Ho::C, Q.len())) |p| { run::<Ho>(p, Q) }
    p31t_ho / p31t_ho__count (win_count(Ho::C, THOROUGH.len())) |p| { run::<Ho>(p, THOROUGH) }
    p31t_ho2 / p31t_ho2__count (pair_count(Ho::C)) |p| { run::<Ho>(p, &[PAIR]) }
    p31_col / p31_col__count (win_count(Col::C, Q.len())) |p| { run::<Col>(p, Q) }
    p31t_col / p31t_col__count (win_count(Col::C, THOROUGH.len())) |p| { run::<Col>(p, THOROUGH) }
    p31t_col2 / p31t_col2__count (pair_count(Col::C)) |p| { run::<Col>(p, &[PAIR]) }
    p31_ev / p31_ev__count (win_count(Ev::C, Q.len())) |p| { run::<Ev>(p, Q) }
    p31t_ev / p31t_ev__count (win_count(Ev::C, THOROUGH.len())) |p| { run::<Ev>(p, THOROUGH) }
    p31t_ev2 / p31t_ev2__count (pair_count(Ev::C)) |p| { run::<Ev>(p, &[PAIR]) }
    p31_cmd / p31_cmd__count (win_count(Cmd::C, Q.len())) |p| { run::<Cmd>(p, Q) }
    p31t_cmd / p31t_cmd__count (win_count(Cmd::C, THOROUGH.len())) |p| { run::<Cmd>(p, THOROUGH) }
    p31t_cmd2 / p31t_cmd2__count (pair_count(Cmd::C)) |p| { run::<Cmd>(p, &[PAIR]) }
    p31_tree / p31_tree__count (win_count(Tree::C, Q.len())) |p| { run::<Tree>(p, Q) }
    p31t_tree / p31t_tree__count (win_count(Tree::C, THOROUGH.len())) |p| { run::<Tree>(p, THOROUGH) }
    p31t_tree2 / p31t_tree2__count (pair_count(Tree::C)) |p| { run::<Tree>(p, &[PAIR]) }
    p31_gen / p31_gen__count (win_count(Gen::C, Q.len())) |p| { run::<Gen>(p, Q) }
    p31t_gen / p31t_gen__count (win_count(Gen::C, THOROUGH.len())) |p| { run::<Gen>(p, THOROUGH) }
    p31t_gen2 / p31t_gen2__count (pair_count(Gen::C)) |p| { run::<Gen>(p, &[PAIR]) }
    p31_edi / p31_edi__count (win_count(Edi::C, Q.len())) |p| { run::<Edi>(p, Q) }
    p31t_edi / p31t_edi__count (win_count(Edi::C, THOROUGH.len())) |p| { run::<Edi>(p, THOROUGH) }
    p31t_edi2 / p31t_edi2__count (pair_count(Edi::C)) |p| { run::<Edi>(p, &[PAIR]) }
    p31_met / p31_met__count (win_count(Met::C, Q.len())) |p| { run::<Met>(p, Q) }
    p31t_met / p31t_met__count (win_count(Met::C, THOROUGH.len())) |p| { run::<Met>(p, THOROUGH) }
    p31t_met2 / p31t_met2__count (pair_count(Met::C)) |p| { run::<Met>(p, &[PAIR]) }
    p31_dif / p31_dif__count (win_count(Dif::C, Q.len())) |p| { run::<Dif>(p, Q) }
    p31t_dif / p31t_dif__count (win_count(Dif::C, THOROUGH.len())) |p| { run::<Dif>(p, THOROUGH) }
    p31t_dif2 / p31t_dif2__count (pair_count(Dif::C)) |p| { run::<Dif>(p, &[PAIR]) }
    p31_osb / p31_osb__count (win_count(Os::C, Q.len())) |p| { run::<Os>(p, Q) }
    p31t_osb / p31t_osb__count (win_count(Os::C, THOROUGH.len())) |p| { run::<Os>(p, THOROUGH) }
    p31t_osb2 / p31t_osb2__count (pair_count(Os::C)) |p| { run::<Os>(p, &[PAIR]) }
    p31_file / p31_file__count (win_count(File::C, Q.len())) |p| { run::<File>(p, Q) }
    p31t_file / p31t_file__count (win_count(File::C, THOROUGH.len())) |p| { run::<File>(p, THOROUGH) }
    p31t_file2 / p31t_file2__count (pair_count(File::C)) |p| { run::<File>(p, &[PAIR]) }
}
