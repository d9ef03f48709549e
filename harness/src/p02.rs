//! Every parsed value can be printed at every version, and printing is a function of the value.
use crate::{base::*, rt::*, sym::*};

const Q: &[(usize, usize)] = &[(1, 1), (0, 1), (1, 2), (2, 0)];
const THOROUGH: &[(usize, usize)] = &[(0, 2), (2, 1), (1, 3), (3, 2), (4, 1)];
fn run<K: Kind>(p: u32, shapes: &[(usize, usize)]) {
    let v = ver();
    if let Some(s) = text::<K>(p, shapes) {
        if let Some(x) = K::parse(&s, v) {
            let w = byte();
            let a = K::print(&x, w);
            if let Some(a) = &a {
                trace(a);
            }
            reach(1);
            let y = x.clone();
            chk!(y == x && K::print(&y, w) == a);
            // printing at the version of the text leaves nothing out as a whole
            if v == w {
                chk!(a.is_some());
            }
        }
    }
}

harnesses! {
    p02_tp / p02_tp__count (win_count(Tp::C, Q.len())) |p| { run::<Tp>(p, Q) }
    p02t_tp / p02t_tp__count (win_count(Tp::C, THOROUGH.len())) |p| { run::<Tp>(p, THOROUGH) }
    p02t_tp2 / p02t_tp2__count (pair_count(Tp::C)) |p| { run::<Tp>(p, &[PAIR]) }
    p02_ho / p02_ho__count (win_count(Ho::C, Q.len())) |p| { run::<Ho>(p, Q) }
    p02t_ho / p02t_ho__count (win_count(Ho::C, THOROUGH.len())) |p| { run::<Ho>(p, THOROUGH) }
    p02t_ho2 / p02t_ho2__count (pair_count(Ho::C)) |p| { run::<Ho>(p, &[PAIR]) }
    // longer windows inside these numbers are out of reach
    p02_homax / p02_homax__count (win_count(HoMax::C, 2)) |p| { run::<HoMax>(p, &[(1, 1), (2, 0)]) }
    // longer windows inside these numbers are out of reach
    p02_tpmax / p02_tpmax__count (win_count(TpMax::C, 2)) |p| { run::<TpMax>(p, &[(1, 1), (2, 0)]) }
    // longer windows inside these numbers are out of reach
    p02_evmax / p02_evmax__count (win_count(EvMax::C, 2)) |p| { run::<EvMax>(p, &[(1, 1), (2, 0)]) }
    p02_col / p02_col__count (win_count(Col::C, Q.len())) |p| { run::<Col>(p, Q) }
    p02t_col / p02t_col__count (win_count(Col::C, THOROUGH.len())) |p| { run::<Col>(p, THOROUGH) }
    p02t_col2 / p02t_col2__count (pair_count(Col::C)) |p| { run::<Col>(p, &[PAIR]) }
    p02_ev / p02_ev__count (win_count(Ev::C, Q.len())) |p| { run::<Ev>(p, Q) }
    p02t_ev / p02t_ev__count (win_count(Ev::C, THOROUGH.len())) |p| { run::<Ev>(p, THOROUGH) }
    p02t_ev2 / p02t_ev2__count (pair_count(Ev::C)) |p| { run::<Ev>(p, &[PAIR]) }
    p02_cmd / p02_cmd__count (win_count(Cmd::C, Q.len())) |p| { run::<Cmd>(p, Q) }
    p02t_cmd / p02t_cmd__count (win_count(Cmd::C, THOROUGH.len())) |p| { run::<Cmd>(p, THOROUGH) }
    p02t_cmd2 / p02t_cmd2__count (pair_count(Cmd::C)) |p| { run::<Cmd>(p, &[PAIR]) }
    p02_tree / p02_tree__count (win_count(Tree::C, Q.len())) |p| { run::<Tree>(p, Q) }
    p02t_tree / p02t_tree__count (win_count(Tree::C, THOROUGH.len())) |p| { run::<Tree>(p, THOROUGH) }
    p02t_tree2 / p02t_tree2__count (pair_count(Tree::C)) |p| { run::<Tree>(p, &[PAIR]) }
    p02_gen / p02_gen__count (win_count(Gen::C, Q.len())) |p| { run::<Gen>(p, Q) }
    p02t_gen / p02t_gen__count (win_count(Gen::C, THOROUGH.len())) |p| { run::<Gen>(p, THOROUGH) }
    p02t_gen2 / p02t_gen2__count (pair_count(Gen::C)) |p| { run::<Gen>(p, &[PAIR]) }
    p02_edi / p02_edi__count (win_count(Edi::C, Q.len())) |p| { run::<Edi>(p, Q) }
    p02t_edi / p02t_edi__count (win_count(Edi::C, THOROUGH.len())) |p| { run::<Edi>(p, THOROUGH) }
    p02t_edi2 / p02t_edi2__count (pair_count(Edi::C)) |p| { run::<Edi>(p, &[PAIR]) }
    p02_met / p02_met__count (win_count(Met::C, Q.len())) |p| { run::<Met>(p, Q) }
    p02t_met / p02t_met__count (win_count(Met::C, THOROUGH.len())) |p| { run::<Met>(p, THOROUGH) }
    p02t_met2 / p02t_met2__count (pair_count(Met::C)) |p| { run::<Met>(p, &[PAIR]) }
    p02_dif / p02_dif__count (win_count(Dif::C, Q.len())) |p| { run::<Dif>(p, Q) }
    p02t_dif / p02t_dif__count (win_count(Dif::C, THOROUGH.len())) |p| { run::<Dif>(p, THOROUGH) }
    p02t_dif2 / p02t_dif2__count (pair_count(Dif::C)) |p| { run::<Dif>(p, &[PAIR]) }
    p02_osb / p02_osb__count (win_count(Os::C, Q.len())) |p| { run::<Os>(p, Q) }
    p02t_osb / p02t_osb__count (win_count(Os::C, THOROUGH.len())) |p| { run::<Os>(p, THOROUGH) }
    p02t_osb2 / p02t_osb2__count (pair_count(Os::C)) |p| { run::<Os>(p, &[PAIR]) }
    p02_file / p02_file__count (win_count(File::C, Q.len())) |p| { run::<File>(p, Q) }
    p02t_file / p02t_file__count (win_count(File::C, THOROUGH.len())) |p| { run::<File>(p, THOROUGH) }
    p02t_file2 / p02t_file2__count (pair_count(File::C)) |p| { run::<File>(p, &[PAIR]) }
}
