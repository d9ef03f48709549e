/// harnesses! { name / name__count (count_expr) |param| { body } ... }
macro_rules! harnesses {
    ($( $name:ident / $cnt:ident ($count:expr) |$p:ident| $body:block )*) => {
        $(
            #[no_mangle]
            pub extern "C-unwind" fn $name($p: u32) { $body }
            #[no_mangle]
            pub extern "C-unwind" fn $cnt() -> u32 { ($count) as u32 }
        )*
        pub const TABLE: &[crate::Entry] = &[ $( (stringify!($name), $name, $cnt) ),* ];
    };
}
/// assertion whose id is its source line
macro_rules! chk {
    ($e:expr) => {
        crate::sym::check($e, line!())
    };
}
/// concatenation of string pieces
macro_rules! cat {
    ($($e:expr),* $(,)?) => {{
        let mut s = String::with_capacity(64);
        $( s.push_str($e.as_ref()); )*
        s
    }};
}
/// unwrap that ends in a failed assertion instead of a panic
macro_rules! must {
    ($e:expr) => {
        match $e {
            Some(x) => x,
            None => {
                crate::sym::check(false, line!());
                return;
            }
        }
    };
}
