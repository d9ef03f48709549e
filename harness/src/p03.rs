//! Printing is stable: what was accepted is printed as text that is accepted and prints identically.
use crate::{base::*, rt::*, sym::*};

const Q: &[(usize, usize)] = &[(1, 1), (0, 1), (1, 2), (2, 0)];
const THOROUGH: &[(usize, usize)] = &[(0, 2), (2, 1), (1, 3), (3, 2), (4, 1)];
fn run<K: Kind>(p: u32, shapes: &[(usize, usize)]) {
    let v = ver();
    if let Some(s) = text::<K>(p, shapes) {
        // a carriage return at the end of a line is part of the line end only when a line feed follows
        assume(!stray_cr(&s));
        if let Some(x) = K::parse(&s, v) {
            assume(!K::outside(&x));
            let a = must!(K::print(&x, v));
            trace(&a);
            reach(1);
            let odd = K::odd(&x, v);
            let y = K::parse(&a, v);
            if odd && (y.is_none() || y.as_ref().and_then(|y| K::print(y, v)).as_deref() != Some(&a)) {
                known(1);
            }
            let y = must!(y);
            chk!(K::print(&y, v) == Some(a));
        }
    }
}

harnesses! {
    p03_tp / p03_tp__count (win_count(Tp::C, Q.len())) |p| { run::<Tp>(p, Q) }
    p03t_tp / p03t_tp__count (win_count(Tp::C, THOROUGH.len())) |p| { run::<Tp>(p, THOROUGH) }
    p03t_tp2 / p03t_tp2__count (pair_count(Tp::C)) |p| { run::<Tp>(p, &[PAIR]) }
    p03_ho / p03_ho__count (win_count(Ho::C, Q.len())) |p| { run::<Ho>(p, Q) }
    p03t_ho / p03t_ho__count (win_count(Ho::C, THOROUGH.len())) |p| { run::<Ho>(p, THOROUGH) }
    p03t_ho2 / p03t_ho2__count (pair_count(Ho::C)) |p| { run::<Ho>(p, &[PAIR]) }
    // longer windows inside these numbers are out of reach
    p03_homax / p03_homax__count (win_count(HoMax::C, 2)) |p| { run::<HoMax>(p, &[(1, 1), (2, 0)]) }
    // longer windows inside these numbers are out of reach
    p03_tpmax / p03_tpmax__count (win_count(TpMax::C, 2)) |p| { run::<TpMax>(p, &[(1, 1), (2, 0)]) }
    // longer windows inside these numbers are out of reach
    p03_evmax / p03_evmax__count (win_count(EvMax::C, 2)) |p| { run::<EvMax>(p, &[(1, 1), (2, 0)]) }
    p03_col / p03_col__count (win_count(Col::C, Q.len())) |p| { run::<Col>(p, Q) }
    p03t_col / p03t_col__count (win_count(Col::C, THOROUGH.len())) |p| { run::<Col>(p, THOROUGH) }
    p03t_col2 / p03t_col2__count (pair_count(Col::C)) |p| { run::<Col>(p, &[PAIR]) }
    p03_ev / p03_ev__count (win_count(Ev::C, Q.len())) |p| { run::<Ev>(p, Q) }
    p03t_ev / p03t_ev__count (win_count(Ev::C, THOROUGH.len())) |p| { run::<Ev>(p, THOROUGH) }
    p03t_ev2 / p03t_ev2__count (pair_count(Ev::C)) |p| { run::<Ev>(p, &[PAIR]) }
    p03_cmd / p03_cmd__count (win_count(Cmd::C, Q.len())) |p| { run::<Cmd>(p, Q) }
    p03t_cmd / p03t_cmd__count (win_count(Cmd::C, THOROUGH.len())) |p| { run::<Cmd>(p, THOROUGH) }
    p03t_cmd2 / p03t_cmd2__count (pair_count(Cmd::C)) |p| { run::<Cmd>(p, &[PAIR]) }
    p03_tree / p03_tree__count (win_count(Tree::C, Q.len())) |p| { run::<Tree>(p, Q) }
    p03t_tree / p03t_tree__count (win_count(Tree::C, THOROUGH.len())) |p| { run::<Tree>(p, THOROUGH) }
    p03t_tree2 / p03t_tree2__count (pair_count(Tree::C)) |p| { run::<Tree>(p, &[PAIR]) }
    p03_gen / p03_gen__count (win_count(Gen::C, Q.len())) |p| { run::<Gen>(p, Q) }
    p03t_gen / p03t_gen__count (win_count(Gen::C, THOROUGH.len())) |p| { run::<Gen>(p, THOROUGH) }
    p03t_gen2 / p03t_gen2__count (pair_count(Gen::C)) |p| { run::<Gen>(p, &[PAIR]) }
    p03_edi / p03_edi__count (win_count(Edi::C, Q.len())) |p| { run::<Edi>(p, Q) }
    p03t_edi / p03t_edi__count (win_count(Edi::C, THOROUGH.len())) |p| { run::<Edi>(p, THOROUGH) }
    p03t_edi2 / p03t_edi2__count (pair_count(Edi::C)) |p| { run::<Edi>(p, &[PAIR]) }
    p03_met / p03_met__count (win_count(Met::C, Q.len())) |p| { run::<Met>(p, Q) }
    p03t_met / p03t_met__count (win_count(Met::C, THOROUGH.len())) |p| { run::<Met>(p, THOROUGH) }
    p03t_met2 / p03t_met2__count (pair_count(Met::C)) |p| { run::<Met>(p, &[PAIR]) }
    p03_dif / p03_dif__count (win_count(Dif::C, Q.len())) |p| { run::<Dif>(p, Q) }
    p03t_dif / p03t_dif__count (win_count(Dif::C, THOROUGH.len())) |p| { run::<Dif>(p, THOROUGH) }
    p03t_dif2 / p03t_dif2__count (pair_count(Dif::C)) |p| { run::<Dif>(p, &[PAIR]) }
    p03_osb / p03_osb__count (win_count(Os::C, Q.len())) |p| { run::<Os>(p, Q) }
    p03t_osb / p03t_osb__count (win_count(Os::C, THOROUGH.len())) |p| { run::<Os>(p, THOROUGH) }
    p03t_osb2 / p03t_osb2__count (pair_count(Os::C)) |p| { run::<Os>(p, &[PAIR]) }
    p03_file / p03_file__count (win_count(File::C, Q.len())) |p| { run::<File>(p, Q) }
    p03t_file / p03t_file__count (win_count(File::C, THOROUGH.len())) |p| { run::<File>(p, THOROUGH) }
    p03t_file2 / p03t_file2__count (pair_count(File::C)) |p| { run::<File>(p, &[PAIR]) }
}
