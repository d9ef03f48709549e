//! At the latest version a value equals the one parsed from its printed form.
use crate::{base::*, rt::*, sym::*};

const Q: &[(usize, usize)] = &[(1, 1), (0, 1), (1, 2), (2, 0)];
const THOROUGH: &[(usize, usize)] = &[(0, 2), (2, 1), (1, 3), (3, 2), (4, 1)];
fn run<K: Kind>(p: u32, shapes: &[(usize, usize)]) {
    if let Some(s) = text::<K>(p, shapes) {
        // a carriage return at the end of a line is part of the line end only when a line feed follows
        assume(!stray_cr(&s));
        if let Some(mut x) = K::parse(&s, 14) {
            assume(!K::outside(&x));
            let a = must!(K::print(&x, 14));
            trace(&a);
            reach(1);
            let y = must!(K::parse(&a, 14));
            K::latest(&mut x);
            chk!(y == x);
        }
    }
}

harnesses! {
    p04_tp / p04_tp__count (win_count(Tp::C, Q.len())) |p| { run::<Tp>(p, Q) }
    p04t_tp / p04t_tp__count (win_count(Tp::C, THOROUGH.len())) |p| { run::<Tp>(p, THOROUGH) }
    p04t_tp2 / p04t_tp2__count (pair_count(Tp::C)) |p| { run::<Tp>(p, &[PAIR]) }
    p04_ho / p04_ho__count (win_count(Ho::C, Q.len())) |p| { run::<Ho>(p, Q) }
    p04t_ho / p04t_ho__count (win_count(Ho::C, THOROUGH.len())) |p| { run::<Ho>(p, THOROUGH) }
    p04t_ho2 / p04t_ho2__count (pair_count(Ho::C)) |p| { run::<Ho>(p, &[PAIR]) }
    // longer windows inside these numbers are out of reach
    p04_homax / p04_homax__count (win_count(HoMax::C, 2)) |p| { run::<HoMax>(p, &[(1, 1), (2, 0)]) }
    // longer windows inside these numbers are out of reach
    p04_tpmax / p04_tpmax__count (win_count(TpMax::C, 2)) |p| { run::<TpMax>(p, &[(1, 1), (2, 0)]) }
    // longer windows inside these numbers are out of reach
    p04_evmax / p04_evmax__count (win_count(EvMax::C, 2)) |p| { run::<EvMax>(p, &[(1, 1), (2, 0)]) }
    p04_col / p04_col__count (win_count(Col::C, Q.len())) |p| { run::<Col>(p, Q) }
    p04t_col / p04t_col__count (win_count(Col::C, THOROUGH.len())) |p| { run::<Col>(p, THOROUGH) }
    p04t_col2 / p04t_col2__count (pair_count(Col::C)) |p| { run::<Col>(p, &[PAIR]) }
    p04_ev / p04_ev__count (win_count(Ev::C, Q.len())) |p| { run::<Ev>(p, Q) }
    p04t_ev / p04t_ev__count (win_count(Ev::C, THOROUGH.len())) |p| { run::<Ev>(p, THOROUGH) }
    p04t_ev2 / p04t_ev2__count (pair_count(Ev::C)) |p| { run::<Ev>(p, &[PAIR]) }
    p04_cmd / p04_cmd__count (win_count(Cmd::C, Q.len())) |p| { run::<Cmd>(p, Q) }
    p04t_cmd / p04t_cmd__count (win_count(Cmd::C, THOROUGH.len())) |p| { run::<Cmd>(p, THOROUGH) }
    p04t_cmd2 / p04t_cmd2__count (pair_count(Cmd::C)) |p| { run::<Cmd>(p, &[PAIR]) }
    p04_tree / p04_tree__count (win_count(Tree::C, Q.len())) |p| { run::<Tree>(p, Q) }
    p04t_tree / p04t_tree__count (win_count(Tree::C, THOROUGH.len())) |p| { run::<Tree>(p, THOROUGH) }
    p04t_tree2 / p04t_tree2__count (pair_count(Tree::C)) |p| { run::<Tree>(p, &[PAIR]) }
    p04_gen / p04_gen__count (win_count(Gen::C, Q.len())) |p| { run::<Gen>(p, Q) }
    p04t_gen / p04t_gen__count (win_count(Gen::C, THOROUGH.len())) |p| { run::<Gen>(p, THOROUGH) }
    p04t_gen2 / p04t_gen2__count (pair_count(Gen::C)) |p| { run::<Gen>(p, &[PAIR]) }
    p04_edi / p04_edi__count (win_count(Edi::C, Q.len())) |p| { run::<Edi>(p, Q) }
    p04t_edi / p04t_edi__count (win_count(Edi::C, THOROUGH.len())) |p| { run::<Edi>(p, THOROUGH) }
    p04t_edi2 / p04t_edi2__count (pair_count(Edi::C)) |p| { run::<Edi>(p, &[PAIR]) }
    p04_met / p04_met__count (win_count(Met::C, Q.len())) |p| { run::<Met>(p, Q) }
    p04t_met / p04t_met__count (win_count(Met::C, THOROUGH.len())) |p| { run::<Met>(p, THOROUGH) }
    p04t_met2 / p04t_met2__count (pair_count(Met::C)) |p| { run::<Met>(p, &[PAIR]) }
    p04_dif / p04_dif__count (win_count(Dif::C, Q.len())) |p| { run::<Dif>(p, Q) }
    p04t_dif / p04t_dif__count (win_count(Dif::C, THOROUGH.len())) |p| { run::<Dif>(p, THOROUGH) }
    p04t_dif2 / p04t_dif2__count (pair_count(Dif::C)) |p| { run::<Dif>(p, &[PAIR]) }
    p04_osb / p04_osb__count (win_count(Os::C, Q.len())) |p| { run::<Os>(p, Q) }
    p04t_osb / p04t_osb__count (win_count(Os::C, THOROUGH.len())) |p| { run::<Os>(p, THOROUGH) }
    p04t_osb2 / p04t_osb2__count (pair_count(Os::C)) |p| { run::<Os>(p, &[PAIR]) }
    p04_file / p04_file__count (win_count(File::C, Q.len())) |p| { run::<File>(p, Q) }
    p04t_file / p04t_file__count (win_count(File::C, THOROUGH.len())) |p| { run::<File>(p, THOROUGH) }
    p04t_file2 / p04t_file2__count (pair_count(File::C)) |p| { run::<File>(p, &[PAIR]) }
}
