#![allow(non_snake_case)]
pub mod sym;
#[macro_use]
mod mac;
#[allow(dead_code)]
pub mod base;
#[allow(dead_code)]
pub mod corpus;
#[allow(dead_code)]
pub mod rt;
macro_rules! modules {
    ($($f:literal $m:ident),*) => {
        $(#[cfg(feature = $f)] pub mod $m;)*
        pub type Entry = (&'static str, extern "C-unwind" fn(u32), extern "C-unwind" fn() -> u32);
        #[allow(unused_mut)]
        pub fn table() -> Vec<Entry> {
            let mut v: Vec<Entry> = vec![];
            $(#[cfg(feature = $f)] v.extend_from_slice($m::TABLE);)*
            v
        }
    };
}
modules!("t0" t0, "p01" p01, "p02" p02, "p03" p03, "p04" p04, "p05" p05, "p06" p06, "p07" p07, "p08" p08, "p09" p09, "p10" p10, "p11" p11, "p12" p12, "p13" p13, "p14" p14, "p15" p15, "p16" p16, "p17" p17, "p18" p18, "p19" p19, "p20" p20, "p21" p21, "p22" p22, "p23" p23, "p24" p24, "p25" p25, "p26" p26, "p27" p27, "p28" p28, "p29" p29, "p30" p30, "p31" p31, "p32" p32);
