//! Interface to the symbolic engine. In the analysed IR these are undefined externs that the
//! engine interprets; in the native replay binary they read a recorded assignment.
extern "C-unwind" {
    fn __sym_make(p: *mut u8, n: usize);
    fn __sym_assume(c: bool);
    fn __sym_assert(c: bool, id: u32);
    fn __sym_known(id: u32);
    fn __sym_trace(p: *const u8, n: usize);
    fn __sym_reach(id: u32);
}
#[inline(never)]
pub fn bytes(buf: &mut [u8]) {
    unsafe { __sym_make(buf.as_mut_ptr(), buf.len()) }
}
pub fn assume(c: bool) {
    unsafe { __sym_assume(c) }
}
pub fn check(c: bool, id: u32) {
    unsafe { __sym_assert(c, id) }
}
/// the input belongs to a listed known finding: end this path
pub fn known(id: u32) {
    unsafe { __sym_known(id) }
}
pub fn trace(s: &str) {
    unsafe { __sym_trace(s.as_ptr(), s.len()) }
}
pub fn reach(id: u32) {
    unsafe { __sym_reach(id) }
}
