//! A version only matters where the format changes: neighbouring versions of one format agree.
use crate::{base::*, rt::*, sym::*};

const Q: &[(usize, usize)] = &[(1, 1), (2, 0), (0, 1), (1, 2)];
const THOROUGH: &[(usize, usize)] = &[(0, 2), (2, 1), (1, 3)];
/// `parse` and `print` name the versions that read or write a text unlike the version before
fn run<K: Kind>(p: u32, shapes: &[(usize, usize)], parse: &[u8], print: &[u8]) {
    let v = ver_in(3, 13);
    let w = v + 1;
    if let Some(s) = text::<K>(p, shapes) {
        let a = K::parse(&s, v);
        if !parse.contains(&w) {
            chk!(a == K::parse(&s, w));
            reach(1);
        }
        if let Some(a) = a {
            if !print.contains(&w) {
                let t = K::print(&a, v);
                if let Some(t) = &t {
                    trace(t);
                }
                reach(1);
                chk!(t == K::print(&a, w));
            }
        }
    }
}
macro_rules! all {
    ($($k:ident $q:ident $qc:ident $t:ident $tc:ident $parse:expr, $print:expr;)*) => {
        harnesses! {
            $($q / $qc (win_count($k::C, Q.len())) |p| { run::<$k>(p, Q, &$parse, &$print) }
            $t / $tc (win_count($k::C, THOROUGH.len())) |p| { run::<$k>(p, THOROUGH, &$parse, &$print) })*
        }
    };
}
all! {
    Tp p29_tp p29_tp__count p29t_tp p29t_tp__count [4, 5, 6], [4, 5, 6];
    Ho p29_ho p29_ho__count p29t_ho p29t_ho__count [4, 5], [4, 5, 10, 12];
    Col p29_col p29_col__count p29t_col p29t_col__count [5], [5];
    Ev p29_ev p29_ev__count p29t_ev p29t_ev__count [5], [5, 14];
    Cmd p29_cmd p29_cmd__count p29t_cmd p29t_cmd__count [], [];
    Tree p29_tree p29_tree__count p29t_tree p29t_tree__count [5], [5, 14];
    Gen p29_gen p29_gen__count p29t_gen p29t_gen__count [4, 5, 7, 10, 14], [4, 5, 6, 14];
    Edi p29_edi p29_edi__count p29t_edi p29t_edi__count [], [10, 11];
    Met p29_met p29_met__count p29t_met p29t_met__count [], [];
    Dif p29_dif p29_dif__count p29t_dif p29t_dif__count [], [5];
    Os p29_osb p29_osb__count p29t_osb p29t_osb__count [14], [14];
}
