//! Shared building blocks: symbolic versions, symbolic windows over base texts, and the base texts.
use crate::sym::*;

/// A symbolic supported format version (3..=14).
pub fn ver() -> u8 {
    ver_in(3, 14)
}
pub fn ver_in(lo: u8, hi: u8) -> u8 {
    let mut b = [0u8; 1];
    bytes(&mut b);
    assume(b[0] >= lo && b[0] <= hi);
    b[0]
}
pub fn byte() -> u8 {
    let mut b = [0u8; 1];
    bytes(&mut b);
    b[0]
}
pub fn below(n: u8) -> u8 {
    let b = byte();
    assume(b < n);
    b
}
pub fn flag() -> bool {
    below(2) == 1
}
pub fn i32v() -> i32 {
    let mut b = [0u8; 4];
    bytes(&mut b);
    i32::from_le_bytes(b)
}
pub fn u32v() -> u32 {
    i32v() as u32
}
/// n symbolic decimal digits
pub fn digits(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    bytes(&mut v);
    for b in &v {
        assume(b.is_ascii_digit());
    }
    v
}
/// replace `del` bytes of `base` at `pos` by `ins` arbitrary bytes
pub fn window(base: &str, pos: usize, del: usize, ins: usize) -> Vec<u8> {
    let b = base.as_bytes();
    let mut v = Vec::with_capacity(b.len() + ins);
    v.extend_from_slice(&b[..pos]);
    let at = v.len();
    v.resize(at + ins, 0);
    bytes(&mut v[at..]);
    v.extend_from_slice(&b[(pos + del).min(b.len())..]);
    v
}
/// window shapes (deleted, inserted)
pub const SHAPES: &[(usize, usize)] = &[(0, 1), (1, 2), (2, 0), (0, 2), (1, 1), (0, 3)];
/// the ones of the quick tier
pub const QUICK: &[(usize, usize)] = &[(1, 2), (2, 0), (0, 1)];

/// number of (base, position, shape) triples
pub fn win_count(bases: &[&str], shapes: usize) -> usize {
    bases.iter().map(|b| b.len() + 1).sum::<usize>() * shapes
}
/// the p-th triple: base index, position, shape
pub fn win_pick(bases: &[&str], shapes: usize, p: u32) -> (usize, usize, usize) {
    let mut p = p as usize;
    let sh = p % shapes;
    p /= shapes;
    for (i, b) in bases.iter().enumerate() {
        if p <= b.len() {
            return (i, p, sh);
        }
        p -= b.len() + 1;
    }
    (0, 0, 0)
}
/// the shape that stands for two windows (1,1) at any two places of a text
pub const PAIR: (usize, usize) = (usize::MAX, usize::MAX);
/// number of texts of that shape
pub fn pair_count(bases: &[&str]) -> usize {
    bases.iter().map(|b| b.len() * b.len().saturating_sub(1) / 2).sum()
}
fn pair_text(bases: &[&str], p: u32) -> Option<String> {
    let mut p = p as usize;
    for b in bases {
        for i in 0..b.len() {
            let n = b.len() - 1 - i;
            if p < n {
                let mut v = b.as_bytes().to_vec();
                v[i] = byte();
                v[i + 1 + p] = byte();
                return String::from_utf8(v).ok();
            }
            p -= n;
        }
    }
    None
}
/// The p-th windowed text, if the bytes chosen by the solver form valid UTF-8.
pub fn win_text(bases: &[&str], shapes: &[(usize, usize)], p: u32) -> Option<String> {
    if shapes == [PAIR] {
        return pair_text(bases, p);
    }
    let (b, pos, sh) = win_pick(bases, shapes.len(), p);
    let (d, i) = shapes[sh];
    String::from_utf8(window(bases[b], pos, d, i)).ok()
}
/// like win_text but with all window bytes ASCII
pub fn win_ascii(bases: &[&str], shapes: &[(usize, usize)], p: u32) -> String {
    let (b, pos, sh) = win_pick(bases, shapes.len(), p);
    let (d, i) = shapes[sh];
    let v = window(bases[b], pos, d, i);
    for x in &v {
        assume(*x < 0x80);
    }
    String::from_utf8(v).unwrap()
}
/// Append a canonical decimal integer with `n` symbolic digits (no leading zero unless n == 1),
/// returning its value.
pub fn num(t: &mut Vec<u8>, n: usize, neg: bool) -> i64 {
    if neg {
        t.push(b'-');
    }
    let d = digits(n);
    let mut v = 0i64;
    for (i, b) in d.iter().enumerate() {
        if i == 0 && (n > 1 || neg) {
            assume(*b != b'0');
        }
        v = v.wrapping_mul(10).wrapping_add((*b - b'0') as i64);
    }
    t.extend_from_slice(&d);
    if neg {
        -v
    } else {
        v
    }
}

/// decodes a job parameter into independent choices
pub struct Pick(pub u32);
impl Pick {
    pub fn of(&mut self, n: usize) -> usize {
        let r = self.0 as usize % n;
        self.0 /= n as u32;
        r
    }
}
/// canonical decimal integer with n symbolic digits: text and value
pub fn int(n: usize, neg: bool) -> (String, i64) {
    let mut t = Vec::with_capacity(n + 1);
    let v = num(&mut t, n, neg);
    (raw(t), v)
}
/// a String from bytes known to be ASCII
pub fn raw(v: Vec<u8>) -> String {
    unsafe { String::from_utf8_unchecked(v) }
}
/// integer shapes: digits and sign
pub const INTS: &[(usize, bool)] = &[(1, false), (3, true), (6, false), (9, true)];
pub fn ints(i: usize) -> (String, i32) {
    let (n, neg) = INTS[i % INTS.len()];
    let (t, v) = int(n, neg);
    (t, v as i32)
}
/// Canonical decimal text with n integer digits and f fraction digits (negative ones are below -1).
pub fn dec(n: usize, f: usize, neg: bool) -> String {
    let mut t = Vec::with_capacity(n + f + 2);
    num(&mut t, n, neg);
    if f > 0 {
        t.push(b'.');
        t.extend(digits(f));
    }
    raw(t)
}
/// decimal shapes: integer digits, fraction digits, sign
pub const DECS: &[(usize, usize, bool)] = &[(1, 1, false), (3, 0, true), (2, 4, false), (5, 3, true), (7, 0, false)];
pub fn decs(i: usize) -> String {
    let (n, f, neg) = DECS[i % DECS.len()];
    dec(n, f, neg)
}
/// n symbolic bytes satisfying a predicate; ASCII only
pub fn word(n: usize, ok: fn(u8) -> bool) -> String {
    let mut v = vec![0u8; n];
    bytes(&mut v);
    for b in &v {
        assume(*b < 0x80 && ok(*b));
    }
    raw(v)
}
/// printable ASCII except the field separators
pub fn plain(b: u8) -> bool {
    b > 0x20 && b < 0x7f && b != b',' && b != b':' && b != b'|' && b != b'"' && b != b'\\' && b != b'$'
}
pub fn printable(b: u8) -> bool {
    (0x20..0x7f).contains(&b)
}
/// symbolic 0..n rendered as its digit (n <= 10)
pub fn digit(n: u8) -> (String, u8) {
    let d = below(n);
    (raw(vec![b'0' + d]), d)
}
/// a fixed, irregular sequence of numbers below m: the concrete content of large inputs
pub fn mix(i: usize, m: usize) -> usize {
    let x = (i as u32).wrapping_mul(2654435761).wrapping_add(0x9e37);
    ((x ^ (x >> 15)) >> 3) as usize % m
}
/// sizes of large inputs
pub const LONG: [usize; 4] = [9, 17, 70, 200];
