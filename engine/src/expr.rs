//! Hash-consed bit-vector expressions over symbolic input bytes, with range- and
//! linear-form-directed simplification.  Simplifications may use the current path's byte
//! domains (they are valid for that path and its descendants only).
use crate::ir::{mask128, sext, BinOp, Pred};
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u16(&mut self, x: u16) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
        self.0 ^= self.0 >> 29;
    }
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64);
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub type Id = u32;

#[derive(Clone, Copy, Debug)]
pub enum Val {
    C(u64),
    E(Id),
}
impl Val {
    pub fn c(self) -> Option<u64> {
        if let Val::C(c) = self {
            Some(c)
        } else {
            None
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum N {
    Const(u128),
    Var(u8),
    Add(Id, Id),
    Sub(Id, Id),
    Mul(Id, Id),
    UDiv(Id, Id),
    URem(Id, Id),
    SDiv(Id, Id),
    SRem(Id, Id),
    And(Id, Id),
    Or(Id, Id),
    Xor(Id, Id),
    Shl(Id, Id),
    LShr(Id, Id),
    AShr(Id, Id),
    Eq(Id, Id),
    Ult(Id, Id),
    Ule(Id, Id),
    Slt(Id, Id),
    Sle(Id, Id),
    ZExt(Id),
    SExt(Id),
    Extract(Id, u8),
    Concat(Id, Id),
    Ite(Id, Id, Id),
    Table(Id, u32),
}

#[derive(Clone, Copy)]
pub struct Dom {
    pub bits: [u64; 4],
    pub lo: u8,
    pub hi: u8,
    pub n: u16,
}
impl Dom {
    pub fn full() -> Dom {
        Dom { bits: [u64::MAX; 4], lo: 0, hi: 255, n: 256 }
    }
    pub fn from_bits(bits: [u64; 4]) -> Dom {
        let mut d = Dom { bits, lo: 0, hi: 0, n: 0 };
        for w in 0..4 {
            d.n += bits[w].count_ones() as u16;
        }
        if d.n > 0 {
            for w in 0..4 {
                if bits[w] != 0 {
                    d.lo = (w * 64) as u8 + bits[w].trailing_zeros() as u8;
                    break;
                }
            }
            for w in (0..4).rev() {
                if bits[w] != 0 {
                    d.hi = (w * 64) as u8 + 63 - bits[w].leading_zeros() as u8;
                    break;
                }
            }
        }
        d
    }
    pub fn has(&self, v: u8) -> bool {
        self.bits[v as usize / 64] >> (v % 64) & 1 == 1
    }
}

#[derive(Clone, Debug)]
pub struct Lin {
    pub c: i128,
    /// (atom, coefficient) sorted by atom
    pub t: Vec<(Id, i128)>,
}

pub struct Ctx {
    pub nodes: Vec<N>,
    pub width: Vec<u16>,
    pub supp: Vec<u64>,
    map: FxMap<(N, u16), Id>,
    pub tables: Vec<Rc<Vec<u64>>>,
    tmap: HashMap<Rc<Vec<u64>>, u32>,
    pub doms: Vec<Dom>,
    pub epoch: u32,
    rng: Vec<(u32, u128, u128)>,
    lin_memo: FxMap<Id, (u32, Option<Rc<Lin>>)>,
    linm_memo: FxMap<(Id, bool), (u32, Option<Rc<Lin>>)>,
    vals_memo: FxMap<Id, Rc<[u64; 256]>>,
    // evaluation under a model
    ev: Vec<(u32, u128)>,
    ev_stamp: u32,
    pub var_ids: Vec<Id>,
}

impl Ctx {
    pub fn new() -> Ctx {
        let mut c = Ctx {
            nodes: vec![],
            width: vec![],
            supp: vec![],
            map: FxMap::default(),
            tables: vec![],
            tmap: HashMap::new(),
            doms: vec![],
            epoch: 1,
            rng: vec![],
            lin_memo: FxMap::default(),
            linm_memo: FxMap::default(),
            vals_memo: FxMap::default(),
            ev: vec![],
            ev_stamp: 0,
            var_ids: vec![],
        };
        c.intern(N::Const(0), 1); // id 0 is never a symbolic byte
        c.var_ids.clear();
        c
    }

    pub fn intern(&mut self, n: N, w: u16) -> Id {
        if let Some(i) = self.map.get(&(n, w)) {
            return *i;
        }
        let s = match n {
            N::Const(_) => 0,
            N::Var(v) => 1u64 << v,
            N::ZExt(a) | N::SExt(a) | N::Extract(a, _) | N::Table(a, _) => self.supp[a as usize],
            N::Ite(a, b, c) => self.supp[a as usize] | self.supp[b as usize] | self.supp[c as usize],
            N::Add(a, b) | N::Sub(a, b) | N::Mul(a, b) | N::UDiv(a, b) | N::URem(a, b) | N::SDiv(a, b) | N::SRem(a, b)
            | N::And(a, b) | N::Or(a, b) | N::Xor(a, b) | N::Shl(a, b) | N::LShr(a, b) | N::AShr(a, b) | N::Eq(a, b)
            | N::Ult(a, b) | N::Ule(a, b) | N::Slt(a, b) | N::Sle(a, b) | N::Concat(a, b) => {
                self.supp[a as usize] | self.supp[b as usize]
            }
        };
        let id = self.nodes.len() as Id;
        self.nodes.push(n);
        self.width.push(w);
        self.supp.push(s);
        self.rng.push((0, 0, 0));
        self.ev.push((0, 0));
        self.map.insert((n, w), id);
        id
    }

    pub fn new_var(&mut self) -> Id {
        let v = self.doms.len();
        assert!(v < 64, "more than 64 symbolic bytes");
        self.doms.push(Dom::full());
        let id = self.intern(N::Var(v as u8), 8);
        if self.var_ids.len() <= v {
            self.var_ids.push(id);
        }
        id
    }

    pub fn table(&mut self, t: Vec<u64>) -> u32 {
        let r = Rc::new(t);
        if let Some(i) = self.tmap.get(&r) {
            return *i;
        }
        let i = self.tables.len() as u32;
        self.tables.push(r.clone());
        self.tmap.insert(r, i);
        i
    }

    pub fn konst(&mut self, v: u128, w: u16) -> Val {
        if w <= 64 {
            Val::C((v & mask128(w)) as u64)
        } else {
            Val::E(self.intern(N::Const(v & mask128(w)), w))
        }
    }
    pub fn id(&mut self, v: Val, w: u16) -> Id {
        match v {
            Val::C(c) => self.intern(N::Const(c as u128 & mask128(w)), w),
            Val::E(e) => {
                debug_assert_eq!(self.width[e as usize], w);
                e
            }
        }
    }
    pub fn cval(&self, v: Val) -> Option<u128> {
        match v {
            Val::C(c) => Some(c as u128),
            Val::E(e) => match self.nodes[e as usize] {
                N::Const(c) => Some(c),
                _ => None,
            },
        }
    }
    fn val(&mut self, id: Id) -> Val {
        if let N::Const(c) = self.nodes[id as usize] {
            if self.width[id as usize] <= 64 {
                return Val::C(c as u64);
            }
        }
        Val::E(id)
    }

    // ---------- exact value vectors of single-byte expressions ----------
    pub fn vals(&mut self, e: Id) -> Option<Rc<[u64; 256]>> {
        if let Some(r) = self.vals0(e) {
            return Some(r);
        }
        let s = self.supp[e as usize];
        if s.count_ones() > 1 || self.width[e as usize] > 64 {
            return None;
        }
        // some operand is wider than 64 bits: evaluate point by point
        let v = if s == 0 { 0 } else { s.trailing_zeros() as usize };
        let mut m = [0u8; 64];
        let mut out = [0u64; 256];
        for (i, o) in out.iter_mut().enumerate() {
            m[v] = i as u8;
            self.begin_eval();
            *o = self.eval(e, &m) as u64;
        }
        let r = Rc::new(out);
        self.vals_memo.insert(e, r.clone());
        Some(r)
    }
    fn vals0(&mut self, e: Id) -> Option<Rc<[u64; 256]>> {
        let s = self.supp[e as usize];
        if s.count_ones() > 1 || self.width[e as usize] > 64 {
            return None;
        }
        if let Some(r) = self.vals_memo.get(&e) {
            return Some(r.clone());
        }
        let w = self.width[e as usize];
        let m = mask128(w) as u64;
        let mut out = [0u64; 256];
        let n = self.nodes[e as usize];
        macro_rules! bin {
            ($a:expr,$b:expr,$f:expr) => {{
                let wa = self.width[$a as usize];
                let x = self.vals($a)?;
                let y = self.vals($b)?;
                let f: fn(u64, u64, u16) -> u64 = $f;
                for i in 0..256 {
                    out[i] = f(x[i], y[i], wa) & m;
                }
            }};
        }
        match n {
            N::Const(c) => out = [c as u64; 256],
            N::Var(_) => {
                for (i, o) in out.iter_mut().enumerate() {
                    *o = i as u64
                }
            }
            N::Add(a, b) => bin!(a, b, |x, y, _| x.wrapping_add(y)),
            N::Sub(a, b) => bin!(a, b, |x, y, _| x.wrapping_sub(y)),
            N::Mul(a, b) => bin!(a, b, |x, y, _| x.wrapping_mul(y)),
            N::UDiv(a, b) => bin!(a, b, |x, y, _| if y == 0 { u64::MAX } else { x / y }),
            N::URem(a, b) => bin!(a, b, |x, y, _| if y == 0 { x } else { x % y }),
            N::SDiv(a, b) => bin!(a, b, |x, y, w| ev_bin(BinOp::SDiv, x as u128, y as u128, w) as u64),
            N::SRem(a, b) => bin!(a, b, |x, y, w| ev_bin(BinOp::SRem, x as u128, y as u128, w) as u64),
            N::And(a, b) => bin!(a, b, |x, y, _| x & y),
            N::Or(a, b) => bin!(a, b, |x, y, _| x | y),
            N::Xor(a, b) => bin!(a, b, |x, y, _| x ^ y),
            N::Shl(a, b) => bin!(a, b, |x, y, w| ev_bin(BinOp::Shl, x as u128, y as u128, w) as u64),
            N::LShr(a, b) => bin!(a, b, |x, y, w| ev_bin(BinOp::LShr, x as u128, y as u128, w) as u64),
            N::AShr(a, b) => bin!(a, b, |x, y, w| ev_bin(BinOp::AShr, x as u128, y as u128, w) as u64),
            N::Eq(a, b) => bin!(a, b, |x, y, _| (x == y) as u64),
            N::Ult(a, b) => bin!(a, b, |x, y, _| (x < y) as u64),
            N::Ule(a, b) => bin!(a, b, |x, y, _| (x <= y) as u64),
            N::Slt(a, b) => bin!(a, b, |x, y, w| (sext(x as u128, w) < sext(y as u128, w)) as u64),
            N::Sle(a, b) => bin!(a, b, |x, y, w| (sext(x as u128, w) <= sext(y as u128, w)) as u64),
            N::ZExt(a) => out = *self.vals(a)?,
            N::SExt(a) => {
                let wa = self.width[a as usize];
                let x = self.vals(a)?;
                for i in 0..256 {
                    out[i] = (sext(x[i] as u128, wa) as u64) & m;
                }
            }
            N::Extract(a, lo) => {
                let x = self.vals(a)?;
                for i in 0..256 {
                    out[i] = (x[i] >> lo) & m;
                }
            }
            N::Concat(a, b) => {
                let wb = self.width[b as usize];
                let x = self.vals(a)?;
                let y = self.vals(b)?;
                for i in 0..256 {
                    out[i] = ((x[i] as u128) << wb) as u64 | y[i];
                }
            }
            N::Ite(c, a, b) => {
                let z = self.vals(c)?;
                let x = self.vals(a)?;
                let y = self.vals(b)?;
                for i in 0..256 {
                    out[i] = if z[i] != 0 { x[i] } else { y[i] };
                }
            }
            N::Table(a, t) => {
                let x = self.vals(a)?;
                let t = self.tables[t as usize].clone();
                for i in 0..256 {
                    out[i] = t.get(x[i] as usize).copied().unwrap_or(0);
                }
            }
        }
        let r = Rc::new(out);
        self.vals_memo.insert(e, r.clone());
        Some(r)
    }

    pub fn single_var(&self, e: Id) -> Option<u8> {
        let s = self.supp[e as usize];
        if s.count_ones() == 1 {
            Some(s.trailing_zeros() as u8)
        } else {
            None
        }
    }

    // ---------- ranges ----------
    pub fn range(&mut self, e: Id) -> (u128, u128) {
        let (ep, lo, hi) = self.rng[e as usize];
        if ep == self.epoch {
            return (lo, hi);
        }
        let w = self.width[e as usize];
        let m = mask128(w);
        let n = self.nodes[e as usize];
        let mut r = match n {
            N::Const(c) => (c, c),
            N::Var(v) => {
                let d = &self.doms[v as usize];
                (d.lo as u128, d.hi as u128)
            }
            N::ZExt(a) => self.range(a),
            N::SExt(a) => {
                let wa = self.width[a as usize];
                let (l, h) = self.range(a);
                let s = 1u128 << (wa - 1);
                if h < s {
                    (l, h)
                } else if l >= s {
                    ((sext(l, wa) as u128) & m, (sext(h, wa) as u128) & m)
                } else {
                    (0, m)
                }
            }
            N::Extract(a, lo) => {
                let (l, h) = self.range(a);
                let (l2, h2) = (l >> lo, h >> lo);
                if h2 <= m {
                    (l2, h2)
                } else if (l2 & !m) == (h2 & !m) {
                    (l2 & m, h2 & m)
                } else {
                    (0, m)
                }
            }
            N::And(a, b) => {
                let (_, h1) = self.range(a);
                let (_, h2) = self.range(b);
                (0, h1.min(h2))
            }
            N::Or(a, b) => {
                let (l1, h1) = self.range(a);
                let (l2, h2) = self.range(b);
                let h = h1.max(h2);
                (l1.max(l2), if h == 0 { 0 } else { mask128(128 - h.leading_zeros() as u16) })
            }
            N::Xor(a, b) => {
                let (_, h1) = self.range(a);
                let (_, h2) = self.range(b);
                let h = h1.max(h2);
                (0, if h == 0 { 0 } else { mask128(128 - h.leading_zeros() as u16) })
            }
            N::UDiv(a, b) => {
                let (l1, h1) = self.range(a);
                let (l2, h2) = self.range(b);
                if l2 == 0 {
                    (0, m)
                } else {
                    (l1 / h2, h1 / l2)
                }
            }
            N::URem(a, b) => {
                let (l1, h1) = self.range(a);
                let (l2, h2) = self.range(b);
                if l2 == 0 {
                    (0, m)
                } else if h1 < l2 {
                    (l1, h1)
                } else {
                    (0, h1.min(h2 - 1))
                }
            }
            N::LShr(a, b) => {
                let (l1, h1) = self.range(a);
                let (l2, h2) = self.range(b);
                (if h2 >= 128 { 0 } else { l1 >> h2 }, if l2 >= 128 { 0 } else { h1 >> l2 })
            }
            N::Ite(c, a, b) => {
                let cr = self.range(c);
                let x = self.range(a);
                let y = self.range(b);
                if cr.0 == 1 {
                    x
                } else if cr.1 == 0 {
                    y
                } else {
                    (x.0.min(y.0), x.1.max(y.1))
                }
            }
            N::Table(a, t) => {
                let (l, h) = self.range(a);
                let t = self.tables[t as usize].clone();
                let mut lo = u64::MAX;
                let mut hi = 0;
                for i in l..=h {
                    let v = t.get(i as usize).copied().unwrap_or(0);
                    lo = lo.min(v);
                    hi = hi.max(v);
                }
                (lo as u128, hi as u128)
            }
            N::Eq(..) | N::Ult(..) | N::Ule(..) | N::Slt(..) | N::Sle(..) => (0, 1),
            N::Add(..) | N::Sub(..) | N::Mul(..) | N::Shl(..) | N::Concat(..) => match self.lin(e) {
                Some(l) if !(l.t.len() == 1 && l.t[0].0 == e) => self.lin_range(&l).map(|(a, b)| (a as u128, b as u128)).unwrap_or((0, m)),
                _ => (0, m),
            },
            _ => (0, m),
        };
        if r.0 != r.1 && w <= 64 {
            let lin_ok = matches!(n, N::Var(_) | N::ZExt(_));
            if !lin_ok {
                if let Some(v) = self.single_var(e) {
                    let d = self.doms[v as usize];
                    if let Some(vs) = self.vals(e) {
                        let mut lo = u64::MAX;
                        let mut hi = 0;
                        for i in d.lo as usize..=d.hi as usize {
                            if d.has(i as u8) {
                                lo = lo.min(vs[i]);
                                hi = hi.max(vs[i]);
                            }
                        }
                        if lo <= hi {
                            r = (r.0.max(lo as u128), r.1.min(hi as u128));
                        }
                    }
                }
            }
        }
        self.rng[e as usize] = (self.epoch, r.0, r.1);
        r
    }

    pub fn lin_range(&mut self, l: &Lin) -> Option<(i128, i128)> {
        let mut lo = l.c;
        let mut hi = l.c;
        for (a, k) in &l.t {
            let (al, ah) = self.range(*a);
            if ah > i128::MAX as u128 {
                return None;
            }
            let x = k.checked_mul(al as i128)?;
            let y = k.checked_mul(ah as i128)?;
            lo = lo.checked_add(x.min(y))?;
            hi = hi.checked_add(x.max(y))?;
        }
        Some((lo, hi))
    }

    fn merge(a: &Lin, b: &Lin, kb: i128) -> Option<Lin> {
        let mut t = Vec::with_capacity(a.t.len() + b.t.len());
        let (mut i, mut j) = (0, 0);
        while i < a.t.len() || j < b.t.len() {
            if j >= b.t.len() || (i < a.t.len() && a.t[i].0 < b.t[j].0) {
                t.push(a.t[i]);
                i += 1;
            } else if i >= a.t.len() || b.t[j].0 < a.t[i].0 {
                t.push((b.t[j].0, b.t[j].1.checked_mul(kb)?));
                j += 1;
            } else {
                let k = a.t[i].1.checked_add(b.t[j].1.checked_mul(kb)?)?;
                if k != 0 {
                    t.push((a.t[i].0, k));
                }
                i += 1;
                j += 1;
            }
        }
        if t.len() > 40 {
            return None;
        }
        Some(Lin { c: a.c.checked_add(b.c.checked_mul(kb)?)?, t })
    }
    fn lin_scale(a: &Lin, k: i128) -> Option<Lin> {
        if k == 0 {
            return Some(Lin { c: 0, t: vec![] });
        }
        let mut t = Vec::with_capacity(a.t.len());
        for (x, c) in &a.t {
            t.push((*x, c.checked_mul(k)?));
        }
        Some(Lin { c: a.c.checked_mul(k)?, t })
    }

    /// bring a linear form into [0, 2^w) by adding or subtracting 2^w, if its range allows
    fn wrap(&mut self, mut l: Lin, w: u16) -> Option<Lin> {
        let (lo, hi) = self.lin_range(&l)?;
        if w >= 127 {
            return if lo >= 0 { Some(l) } else { None };
        }
        let m = 1i128 << w;
        if lo >= 0 && hi < m {
            return Some(l);
        }
        let q = lo.div_euclid(m);
        if q == hi.div_euclid(m) {
            l.c = l.c.checked_sub(q.checked_mul(m)?)?;
            return Some(l);
        }
        None
    }

    /// e as an integer-valued linear combination of atoms (no wrap-around), if provable.
    pub fn lin(&mut self, e: Id) -> Option<Rc<Lin>> {
        if let Some((ep, l)) = self.lin_memo.get(&e) {
            if *ep == self.epoch {
                return l.clone();
            }
        }
        let w = self.width[e as usize];
        let r: Option<Lin> = match self.nodes[e as usize] {
            N::Const(c) => {
                if c <= i128::MAX as u128 {
                    Some(Lin { c: c as i128, t: vec![] })
                } else {
                    None
                }
            }
            N::Var(v) => {
                let d = self.doms[v as usize];
                if d.lo == d.hi {
                    Some(Lin { c: d.lo as i128, t: vec![] })
                } else {
                    Some(Lin { c: 0, t: vec![(e, 1)] })
                }
            }
            N::ZExt(a) => self.lin(a).map(|l| (*l).clone()),
            N::Add(..) | N::Sub(..) | N::Mul(..) | N::Shl(..) => {
                let l = self.lin_mod(e, true).and_then(|l| self.wrap((*l).clone(), w));
                match l {
                    Some(l) => Some(l),
                    None => self.lin_mod(e, false).and_then(|l| self.wrap((*l).clone(), w)),
                }
            }
            N::Concat(a, b) => {
                let wb = self.width[b as usize];
                match (self.lin(a), self.lin(b)) {
                    (Some(x), Some(y)) if wb < 100 => {
                        Self::lin_scale(&x, 1i128 << wb).and_then(|s| Self::merge(&s, &y, 1)).and_then(|l| self.wrap(l, w))
                    }
                    _ => None,
                }
            }
            N::Extract(a, 0) => {
                let l = match self.lin(a) {
                    Some(x) => self.wrap((*x).clone(), w),
                    None => None,
                };
                match l {
                    Some(l) => Some(l),
                    None => self.lin_mod(e, true).and_then(|l| self.wrap((*l).clone(), w)),
                }
            }
            _ => None,
        };
        // an atom that is pinned to one value is a constant
        let r = match r {
            Some(l) => Some(Rc::new(l)),
            None => {
                let (lo, hi) = if matches!(
                    self.nodes[e as usize],
                    N::Add(..) | N::Sub(..) | N::Mul(..) | N::Shl(..) | N::Concat(..)
                ) {
                    (0, mask128(w))
                } else {
                    self.range(e)
                };
                if hi > i128::MAX as u128 {
                    None
                } else if lo == hi {
                    Some(Rc::new(Lin { c: lo as i128, t: vec![] }))
                } else {
                    Some(Rc::new(Lin { c: 0, t: vec![(e, 1)] }))
                }
            }
        };
        self.lin_memo.insert(e, (self.epoch, r.clone()));
        r
    }

    /// a linear form congruent to e modulo 2^width (intermediate sums may wrap)
    fn lin_mod(&mut self, e: Id, sym: bool) -> Option<Rc<Lin>> {
        let key = (e, sym);
        if let Some((ep, l)) = self.linm_memo.get(&key) {
            if *ep == self.epoch {
                return l.clone();
            }
        }
        let w = self.width[e as usize];
        let r: Option<Rc<Lin>> = match self.nodes[e as usize] {
            N::Add(a, b) => match (self.lin_mod(a, sym), self.lin_mod(b, sym)) {
                (Some(x), Some(y)) => Self::merge(&x, &y, 1).map(Rc::new),
                _ => None,
            },
            N::Sub(a, b) => match (self.lin_mod(a, sym), self.lin_mod(b, sym)) {
                (Some(x), Some(y)) => Self::merge(&x, &y, -1).map(Rc::new),
                _ => None,
            },
            N::Mul(a, b) => {
                let (p, k) = match (self.nodes[a as usize], self.nodes[b as usize]) {
                    (_, N::Const(k)) => (a, Some(k)),
                    (N::Const(k), _) => (b, Some(k)),
                    _ => (a, None),
                };
                match (k, self.lin_mod(p, sym)) {
                    (Some(k), Some(x)) if k <= i128::MAX as u128 => {
                        let k = if sym && w < 127 && k >= 1u128 << (w - 1) { k as i128 - (1i128 << w) } else { k as i128 };
                        Self::lin_scale(&x, k).map(Rc::new)
                    }
                    _ => None,
                }
            }
            N::Shl(a, b) => match (self.lin_mod(a, sym), self.nodes[b as usize]) {
                (Some(x), N::Const(k)) if k < 100 => Self::lin_scale(&x, 1i128 << k).map(Rc::new),
                _ => None,
            },
            N::Extract(a, 0) => match self.nodes[a as usize] {
                N::Add(..) | N::Sub(..) | N::Mul(..) | N::Shl(..) => self.lin_mod(a, sym),
                _ => self.lin(a).map(|l| (*l).clone()).map(Rc::new),
            },
            _ => self.lin(e),
        };
        self.linm_memo.insert(key, (self.epoch, r.clone()));
        r
    }

    fn lin_of(&mut self, v: Val) -> Option<Rc<Lin>> {
        match v {
            Val::C(c) => Some(Rc::new(Lin { c: c as i128, t: vec![] })),
            Val::E(e) => self.lin(e),
        }
    }

    /// canonical expression of width w for a linear form known to lie in [0, 2^w)
    fn build_lin(&mut self, l: &Lin, w: u16) -> Val {
        let m = mask128(w);
        if l.t.is_empty() {
            return self.konst(l.c as u128 & m, w);
        }
        let mut acc: Option<Id> = None;
        for (a, k) in &l.t {
            let wa = self.width[*a as usize];
            let base = if wa == w {
                *a
            } else if wa < w {
                self.intern(N::ZExt(*a), w)
            } else {
                let x = self.raw_extract(*a, 0, w);
                match x {
                    Val::E(e) => e,
                    Val::C(c) => self.intern(N::Const(c as u128), w),
                }
            };
            let term = if *k == 1 {
                base
            } else {
                let kc = self.intern(N::Const(*k as u128 & m), w);
                self.intern(N::Mul(base, kc), w)
            };
            acc = Some(match acc {
                None => term,
                Some(x) => self.intern(N::Add(x, term), w),
            });
        }
        let mut r = acc.unwrap();
        if l.c as u128 & m != 0 {
            let kc = self.intern(N::Const(l.c as u128 & m), w);
            r = self.intern(N::Add(r, kc), w);
        }
        self.val(r)
    }

    /// The same integer with remainders by constants written as x - k*(x/k) and adjacent bit fields
    /// of one value joined; None when nothing applies.
    fn expand(&mut self, l: &Lin) -> Option<Lin> {
        let mut l = l.clone();
        let mut changed = false;
        'outer: for _ in 0..24 {
            for i in 0..l.t.len() {
                let (a, k) = l.t[i];
                match self.nodes[a as usize] {
                    N::URem(x, c) => {
                        let N::Const(kc) = self.nodes[c as usize] else { continue };
                        let w = self.width[a as usize];
                        if kc == 0 || kc > i128::MAX as u128 {
                            continue;
                        }
                        let Some(lx) = self.lin(x) else { continue };
                        let vx = self.val(x);
                        let vc = self.val(c);
                        let q = self.bin(BinOp::UDiv, w, vx, vc);
                        let Some(lq) = self.lin_of(q) else { continue };
                        let mut n = l.clone();
                        n.t.remove(i);
                        let n = Self::merge(&n, &lx, k).and_then(|n| Self::merge(&n, &lq, k.checked_mul(-(kc as i128))?));
                        let Some(n) = n else { continue };
                        l = n;
                        changed = true;
                        continue 'outer;
                    }
                    N::Extract(x, lo) if lo > 0 => {
                        let w2 = self.width[a as usize];
                        for j in 0..l.t.len() {
                            let (b, kb) = l.t[j];
                            let N::Extract(y, lb) = self.nodes[b as usize] else { continue };
                            let w1 = self.width[b as usize];
                            if y != x || lb as u16 + w1 != lo as u16 || w1 > 100 || kb.checked_mul(1i128 << w1) != Some(k) {
                                continue;
                            }
                            let wx = self.width[x as usize];
                            let v = self.val(x);
                            let joined = self.extract(v, lb as u16, w1 + w2, wx);
                            let Some(lj) = self.lin_of(joined) else { continue };
                            let mut n = l.clone();
                            n.t.retain(|t| t.0 != a && t.0 != b);
                            let Some(n) = Self::merge(&n, &lj, kb) else { continue };
                            l = n;
                            changed = true;
                            continue 'outer;
                        }
                    }
                    _ => {}
                }
            }
            break;
        }
        changed.then_some(l)
    }
    fn has_fields(&self, l: &Lin) -> bool {
        l.t.iter().any(|(a, _)| matches!(self.nodes[*a as usize], N::Extract(_, lo) if lo > 0))
    }

    /// split a linear form by a positive divisor: (quotient, remainder)
    fn lin_divmod(&mut self, l: &Lin, d: i128) -> Option<(Lin, Lin)> {
        let mut q = Lin { c: 0, t: vec![] };
        let mut r = Lin { c: l.c, t: vec![] };
        for (a, k) in &l.t {
            let qk = k.div_euclid(d);
            let rk = k.rem_euclid(d);
            // prefer small remainders around zero
            let (qk, rk) = if rk != 0 && rk > d / 2 && *k < 0 { (qk + 1, rk - d) } else { (qk, rk) };
            if qk != 0 {
                q.t.push((*a, qk));
            }
            if rk != 0 {
                r.t.push((*a, rk));
            }
        }
        let (lo, hi) = self.lin_range(&r)?;
        let s = lo.div_euclid(d);
        if s != hi.div_euclid(d) {
            return None;
        }
        r.c -= s.checked_mul(d)?;
        q.c = s;
        Some((q, r))
    }

    /// readable form for debugging
    pub fn show(&self, e: Id, depth: u32) -> String {
        let w = self.width[e as usize];
        if depth == 0 {
            return format!("#{e}");
        }
        let s = |a: Id| -> String { self.show(a, depth - 1) };
        match self.nodes[e as usize] {
            N::Const(c) => format!("{c:#x}"),
            N::Var(v) => format!("b{v}"),
            N::ZExt(a) => format!("z{w}({})", s(a)),
            N::SExt(a) => format!("s{w}({})", s(a)),
            N::Extract(a, lo) => format!("{}[{}:{}]", s(a), lo as u16 + w - 1, lo),
            N::Add(a, b) => format!("({} + {})", s(a), s(b)),
            N::Sub(a, b) => format!("({} - {})", s(a), s(b)),
            N::Mul(a, b) => format!("({} * {})", s(a), s(b)),
            N::UDiv(a, b) => format!("({} /{w} {})", s(a), s(b)),
            N::URem(a, b) => format!("({} %{w} {})", s(a), s(b)),
            N::Concat(a, b) => format!("({} . {})", s(a), s(b)),
            N::Eq(a, b) => format!("({} == {})", s(a), s(b)),
            N::Ult(a, b) => format!("({} <u {})", s(a), s(b)),
            N::Ule(a, b) => format!("({} <=u {})", s(a), s(b)),
            N::Slt(a, b) => format!("({} <s {})", s(a), s(b)),
            N::Sle(a, b) => format!("({} <=s {})", s(a), s(b)),
            N::And(a, b) => format!("({} & {})", s(a), s(b)),
            N::Or(a, b) => format!("({} | {})", s(a), s(b)),
            N::Ite(c, a, b) => format!("ite({}, {}, {})", s(c), s(a), s(b)),
            N::Table(a, t) => format!("T{t}[{}]", s(a)),
            n => format!("{n:?}"),
        }
    }

    // ---------- constructors ----------
    pub fn bin(&mut self, op: BinOp, w: u16, a: Val, b: Val) -> Val {
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            let r = ev_bin(op, x, y, w);
            return self.konst(r, w);
        }
        let m = mask128(w);
        let ca = self.cval(a);
        let cb = self.cval(b);
        match op {
            BinOp::Add => {
                if cb == Some(0) {
                    return a;
                }
                if ca == Some(0) {
                    return b;
                }
            }
            BinOp::Sub => {
                if cb == Some(0) {
                    return a;
                }
            }
            BinOp::Mul => {
                if ca == Some(0) || cb == Some(0) {
                    return self.konst(0, w);
                }
                if cb == Some(1) {
                    return a;
                }
                if ca == Some(1) {
                    return b;
                }
            }
            BinOp::And => {
                if ca == Some(0) || cb == Some(0) {
                    return self.konst(0, w);
                }
                if cb == Some(m) {
                    return a;
                }
                if ca == Some(m) {
                    return b;
                }
            }
            BinOp::Or => {
                if cb == Some(0) {
                    return a;
                }
                if ca == Some(0) {
                    return b;
                }
                if ca == Some(m) || cb == Some(m) {
                    return self.konst(m, w);
                }
            }
            BinOp::Xor => {
                if cb == Some(0) {
                    return a;
                }
                if ca == Some(0) {
                    return b;
                }
                if w == 1 {
                    if cb == Some(1) {
                        return self.not(a);
                    }
                    if ca == Some(1) {
                        return self.not(b);
                    }
                }
            }
            BinOp::Shl | BinOp::LShr | BinOp::AShr => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(k) = cb {
                    if k >= w as u128 && op != BinOp::AShr {
                        return self.konst(0, w);
                    }
                }
            }
            _ => {}
        }
        let ia = self.id(a, w);
        let ib = self.id(b, w);
        if ia == ib {
            match op {
                BinOp::Sub | BinOp::Xor => return self.konst(0, w),
                BinOp::And | BinOp::Or => return a,
                _ => {}
            }
        }
        // pinned operands
        if w > 1 {
            let (l, h) = self.range(ia);
            if l == h && ca.is_none() {
                let v = self.konst(l, w);
                return self.bin(op, w, v, b);
            }
            let (l, h) = self.range(ib);
            if l == h && cb.is_none() {
                let v = self.konst(l, w);
                return self.bin(op, w, a, v);
            }
        }
        match op {
            BinOp::Add | BinOp::Sub => {
                if let (Some(x), Some(y)) = (self.lin(ia), self.lin(ib)) {
                    if let Some(l) = Self::merge(&x, &y, if op == BinOp::Add { 1 } else { -1 }) {
                        if self.has_fields(&l) {
                            if let Some(l) = self.expand(&l).and_then(|l| self.wrap(l, w)) {
                                return self.build_lin(&l, w);
                            }
                        }
                        if let Some(l) = self.wrap(l, w) {
                            return self.build_lin(&l, w);
                        }
                    }
                }
                let n = if op == BinOp::Add {
                    // constants to the right, fold (x + c1) + c2
                    let (p, q) = if ca.is_some() { (ib, ia) } else { (ia, ib) };
                    if let (N::Add(x, k1), N::Const(k2)) = (self.nodes[p as usize], self.nodes[q as usize]) {
                        if let N::Const(k1) = self.nodes[k1 as usize] {
                            let k = self.konst(k1.wrapping_add(k2) & m, w);
                            return self.bin(BinOp::Add, w, Val::E(x), k);
                        }
                    }
                    N::Add(p, q)
                } else if let Some(c) = cb {
                    let k = self.konst(c.wrapping_neg() & m, w);
                    return self.bin(BinOp::Add, w, a, k);
                } else {
                    N::Sub(ia, ib)
                };
                Val::E(self.intern(n, w))
            }
            BinOp::Mul => {
                let (p, q, k) = if ca.is_some() { (ib, ia, ca) } else { (ia, ib, cb) };
                if let (Some(k), Some(x)) = (k, self.lin(p)) {
                    if k <= i128::MAX as u128 {
                        if let Some(l) = Self::lin_scale(&x, k as i128) {
                            if let Some(l) = self.wrap(l, w) {
                                return self.build_lin(&l, w);
                            }
                        }
                    }
                }
                Val::E(self.intern(N::Mul(p, q), w))
            }
            BinOp::UDiv | BinOp::URem => {
                if let Some(k) = cb {
                    if k > 0 && k <= i128::MAX as u128 {
                        if k == 1 {
                            return if op == BinOp::UDiv { a } else { self.konst(0, w) };
                        }
                        if let Some(x) = self.lin(ia) {
                            if let Some((q, r)) = self.lin_divmod(&x, k as i128) {
                                return self.build_lin(if op == BinOp::UDiv { &q } else { &r }, w);
                            }
                            if let Some(x) = self.expand(&x) {
                                if let Some((q, r)) = self.lin_divmod(&x, k as i128) {
                                    return self.build_lin(if op == BinOp::UDiv { &q } else { &r }, w);
                                }
                            }
                        }
                        if k.is_power_of_two() {
                            let s = k.trailing_zeros() as u16;
                            return if op == BinOp::UDiv {
                                let x = self.extract(a, s, w - s, w);
                                self.zext(x, w - s, w)
                            } else {
                                let x = self.extract(a, 0, s, w);
                                self.zext(x, s, w)
                            };
                        }
                    }
                }
                let n = if op == BinOp::UDiv { N::UDiv(ia, ib) } else { N::URem(ia, ib) };
                Val::E(self.intern(n, w))
            }
            BinOp::SDiv | BinOp::SRem => {
                let half = 1u128 << (w - 1);
                let (_, h1) = self.range(ia);
                let (_, h2) = self.range(ib);
                if h1 < half && h2 < half {
                    return self.bin(if op == BinOp::SDiv { BinOp::UDiv } else { BinOp::URem }, w, a, b);
                }
                let n = if op == BinOp::SDiv { N::SDiv(ia, ib) } else { N::SRem(ia, ib) };
                Val::E(self.intern(n, w))
            }
            BinOp::And => {
                let (p, k) = if ca.is_some() { (ib, ca) } else { (ia, cb) };
                if w == 1 {
                    return self.and1(ia, ib);
                }
                if let Some(k) = k {
                    if (k + 1).is_power_of_two() {
                        let bits = 128 - k.leading_zeros() as u16;
                        let x = self.extract(Val::E(p), 0, bits, w);
                        return self.zext(x, bits, w);
                    }
                    // contiguous mask not at bit 0
                    let tz = k.trailing_zeros() as u16;
                    let hk = k >> tz;
                    if (hk + 1).is_power_of_two() {
                        let bits = 128 - hk.leading_zeros() as u16;
                        let x = self.extract(Val::E(p), tz, bits, w);
                        let z = self.zext(x, bits, w);
                        let s = self.konst(tz as u128, w);
                        return self.bin(BinOp::Shl, w, z, s);
                    }
                    let q = self.id(Val::C(0), 1);
                    let _ = q;
                }
                let (x, y) = if ca.is_some() { (ib, ia) } else { (ia, ib) };
                self.fin(N::And(x, y), w)
            }
            BinOp::Or => {
                if w == 1 {
                    return self.or1(ia, ib);
                }
                // disjoint bits: addition
                let (_, ha) = self.range(ia);
                let (_, hb) = self.range(ib);
                let ta = self.tz(ia);
                let tb = self.tz(ib);
                if (tb >= 128 || ha < (1u128 << tb)) || (ta >= 128 || hb < (1u128 << ta)) {
                    // try structural concat first
                    let (hi, lo, t) = if ha < (1u128.checked_shl(tb).unwrap_or(0)) { (ib, ia, tb) } else { (ia, ib, ta) };
                    if t > 0 && (t as u16) < w {
                        let h = self.extract(Val::E(hi), t as u16, w - t as u16, w);
                        let l = self.extract(Val::E(lo), 0, t as u16, w);
                        return self.concat(h, w - t as u16, l, t as u16);
                    }
                    return self.bin(BinOp::Add, w, a, b);
                }
                let (x, y) = if ca.is_some() { (ib, ia) } else { (ia, ib) };
                self.fin(N::Or(x, y), w)
            }
            BinOp::Xor => {
                if w > 1 && cb == Some(m) {
                    // ~x = m - x
                    let mv = self.konst(m, w);
                    return self.bin(BinOp::Sub, w, mv, a);
                }
                if w == 1 {
                    // boolean xor
                    let x = self.val(ia);
                    let y = self.val(ib);
                    let ny = self.not(y);
                    return self.ite(x, ny, y, 1);
                }
                let (x, y) = if ca.is_some() { (ib, ia) } else { (ia, ib) };
                self.fin(N::Xor(x, y), w)
            }
            BinOp::Shl => {
                if let Some(k) = cb {
                    if let Some(x) = self.lin(ia) {
                        if k < 100 {
                            if let Some(l) = Self::lin_scale(&x, 1i128 << k) {
                                if let Some(l) = self.wrap(l, w) {
                                    return self.build_lin(&l, w);
                                }
                            }
                        }
                    }
                    let x = self.extract(a, 0, w - k as u16, w);
                    return self.concat(x, w - k as u16, Val::C(0), k as u16);
                }
                self.fin(N::Shl(ia, ib), w)
            }
            BinOp::LShr => {
                if let Some(k) = cb {
                    if k < 100 {
                        if let Some(x) = self.lin(ia) {
                            if let Some((q, _)) = self.lin_divmod(&x, 1i128 << k) {
                                return self.build_lin(&q, w);
                            }
                        }
                    }
                    let x = self.extract(a, k as u16, w - k as u16, w);
                    return self.zext(x, w - k as u16, w);
                }
                self.fin(N::LShr(ia, ib), w)
            }
            BinOp::AShr => {
                let (_, h) = self.range(ia);
                if h < 1u128 << (w - 1) {
                    return self.bin(BinOp::LShr, w, a, b);
                }
                if let Some(k) = cb {
                    let k = (k as u16).min(w - 1);
                    let x = self.extract(a, k, w - k, w);
                    return self.sext_(x, w - k, w);
                }
                self.fin(N::AShr(ia, ib), w)
            }
        }
    }

    /// intern, folding to a constant when the value is pinned
    fn fin(&mut self, n: N, w: u16) -> Val {
        let e = self.intern(n, w);
        if self.supp[e as usize].count_ones() <= 1 {
            let (l, h) = self.range(e);
            if l == h {
                return self.konst(l, w);
            }
        }
        Val::E(e)
    }

    /// number of known trailing zero bits
    fn tz(&mut self, e: Id) -> u32 {
        match self.nodes[e as usize] {
            N::Const(0) => 128,
            N::Const(c) => c.trailing_zeros(),
            N::Concat(_, b) => {
                if let N::Const(0) = self.nodes[b as usize] {
                    self.width[b as usize] as u32
                } else {
                    self.tz(b).min(self.width[b as usize] as u32)
                }
            }
            N::Shl(_, b) => match self.nodes[b as usize] {
                N::Const(k) => k as u32,
                _ => 0,
            },
            N::ZExt(a) => self.tz(a),
            N::Add(..) | N::Mul(..) => match self.lin(e) {
                Some(l) => {
                    let mut t = if l.c == 0 { 127 } else { l.c.trailing_zeros() };
                    for (a, k) in l.t.iter() {
                        if *a == e {
                            return 0;
                        }
                        t = t.min(k.trailing_zeros());
                    }
                    t
                }
                None => 0,
            },
            _ => 0,
        }
    }

    pub fn not(&mut self, v: Val) -> Val {
        match v {
            Val::C(c) => Val::C((c & 1) ^ 1),
            Val::E(e) => match self.nodes[e as usize] {
                N::Const(c) => Val::C((c as u64 & 1) ^ 1),
                N::Ult(a, b) => Val::E(self.intern(N::Ule(b, a), 1)),
                N::Ule(a, b) => Val::E(self.intern(N::Ult(b, a), 1)),
                N::Slt(a, b) => Val::E(self.intern(N::Sle(b, a), 1)),
                N::Sle(a, b) => Val::E(self.intern(N::Slt(b, a), 1)),
                N::Xor(a, b) if matches!(self.nodes[b as usize], N::Const(1)) => Val::E(a),
                _ => {
                    let one = self.intern(N::Const(1), 1);
                    Val::E(self.intern(N::Xor(e, one), 1))
                }
            },
        }
    }
    fn and1(&mut self, a: Id, b: Id) -> Val {
        let (l, h) = self.range(a);
        if h == 0 {
            return Val::C(0);
        }
        if l == 1 {
            return self.val(b);
        }
        let (l, h) = self.range(b);
        if h == 0 {
            return Val::C(0);
        }
        if l == 1 {
            return self.val(a);
        }
        let nb = {
            let v = self.val(b);
            self.not(v)
        };
        if let Val::E(nb) = nb {
            if nb == a {
                return Val::C(0);
            }
        }
        // two adjacent bit fields of one value are both zero
        if let (N::Eq(p, z1), N::Eq(q, z2)) = (self.nodes[a as usize], self.nodes[b as usize]) {
            if let (N::Const(0), N::Const(0), N::Extract(x, l1), N::Extract(y, l2)) =
                (self.nodes[z1 as usize], self.nodes[z2 as usize], self.nodes[p as usize], self.nodes[q as usize])
            {
                let (w1, w2) = (self.width[p as usize], self.width[q as usize]);
                let (lo, w) = if l1 as u16 + w1 == l2 as u16 { (l1, w1 + w2) } else { (l2, w1 + w2) };
                if x == y && (l1 as u16 + w1 == l2 as u16 || l2 as u16 + w2 == l1 as u16) {
                    let wx = self.width[x as usize];
                    let v = self.val(x);
                    let f = self.extract(v, lo as u16, w, wx);
                    return self.cmp(Pred::Eq, w, f, Val::C(0));
                }
            }
        }
        let (x, y) = if a < b { (a, b) } else { (b, a) };
        self.fin(N::And(x, y), 1)
    }
    fn or1(&mut self, a: Id, b: Id) -> Val {
        let (l, h) = self.range(a);
        if l == 1 {
            return Val::C(1);
        }
        if h == 0 {
            return self.val(b);
        }
        let (l, h) = self.range(b);
        if l == 1 {
            return Val::C(1);
        }
        if h == 0 {
            return self.val(a);
        }
        let nb = {
            let v = self.val(b);
            self.not(v)
        };
        if let Val::E(nb) = nb {
            if nb == a {
                return Val::C(1);
            }
        }
        let (x, y) = if a < b { (a, b) } else { (b, a) };
        self.fin(N::Or(x, y), 1)
    }

    pub fn cmp(&mut self, p: Pred, w: u16, a: Val, b: Val) -> Val {
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            return Val::C(ev_cmp(p, x, y, w) as u64);
        }
        match p {
            Pred::Ne => {
                let v = self.cmp(Pred::Eq, w, a, b);
                return self.not(v);
            }
            Pred::Ugt => return self.cmp(Pred::Ult, w, b, a),
            Pred::Uge => return self.cmp(Pred::Ule, w, b, a),
            Pred::Sgt => return self.cmp(Pred::Slt, w, b, a),
            Pred::Sge => return self.cmp(Pred::Sle, w, b, a),
            _ => {}
        }
        let ia = self.id(a, w);
        let ib = self.id(b, w);
        if ia == ib {
            return Val::C(matches!(p, Pred::Eq | Pred::Ule | Pred::Sle) as u64);
        }
        if w == 1 {
            match p {
                Pred::Eq => {
                    if let Some(c) = self.cval(b) {
                        return if c == 1 { a } else { self.not(a) };
                    }
                    if let Some(c) = self.cval(a) {
                        return if c == 1 { b } else { self.not(b) };
                    }
                }
                Pred::Ult => {
                    let na = self.not(a);
                    return self.bin(BinOp::And, 1, na, b);
                }
                Pred::Ule => {
                    let na = self.not(a);
                    return self.bin(BinOp::Or, 1, na, b);
                }
                _ => {}
            }
        }
        let ra = self.range(ia);
        let rb = self.range(ib);
        if matches!(p, Pred::Slt | Pred::Sle) {
            let half = 1u128 << (w - 1);
            let na = if ra.1 < half { 0 } else if ra.0 >= half { 1 } else { 2 };
            let nb = if rb.1 < half { 0 } else if rb.0 >= half { 1 } else { 2 };
            if na != 2 && na == nb {
                return self.cmp(if p == Pred::Slt { Pred::Ult } else { Pred::Ule }, w, a, b);
            }
            if na == 0 && nb == 1 {
                return Val::C(0);
            }
            if na == 1 && nb == 0 {
                return Val::C(1);
            }
            let n = if p == Pred::Slt { N::Slt(ia, ib) } else { N::Sle(ia, ib) };
            return self.fin(n, 1);
        }
        // unsigned / equality: decide on the difference
        match p {
            Pred::Eq if ra.1 < rb.0 || rb.1 < ra.0 => return Val::C(0),
            Pred::Ult if ra.1 < rb.0 => return Val::C(1),
            Pred::Ult if ra.0 >= rb.1 => return Val::C(0),
            Pred::Ule if ra.1 <= rb.0 => return Val::C(1),
            Pred::Ule if ra.0 > rb.1 => return Val::C(0),
            _ => {}
        }
        if let (Some(x), Some(y)) = (self.lin(ia), self.lin(ib)) {
            if let Some(d) = Self::merge(&x, &y, -1) {
                if let Some((lo, hi)) = self.lin_range(&d) {
                    match p {
                        Pred::Eq => {
                            if lo == 0 && hi == 0 {
                                return Val::C(1);
                            }
                            if lo > 0 || hi < 0 {
                                return Val::C(0);
                            }
                            if d.t.len() == 1 {
                                // k*atom + c == 0
                                let (at, k) = d.t[0];
                                if d.c % k != 0 {
                                    return Val::C(0);
                                }
                                let v = -(d.c / k);
                                let wa = self.width[at as usize];
                                if v < 0 || v as u128 > mask128(wa) {
                                    return Val::C(0);
                                }
                                if at != ia && at != ib {
                                    let kv = self.konst(v as u128, wa);
                                    return self.cmp(Pred::Eq, wa, Val::E(at), kv);
                                }
                            }
                        }
                        Pred::Ult => {
                            if hi < 0 {
                                return Val::C(1);
                            }
                            if lo >= 0 {
                                return Val::C(0);
                            }
                        }
                        Pred::Ule => {
                            if hi <= 0 {
                                return Val::C(1);
                            }
                            if lo > 0 {
                                return Val::C(0);
                            }
                        }
                        _ => {}
                    }
                    // narrow the comparison to the atom when the other side is constant
                    if matches!(p, Pred::Ult | Pred::Ule) && d.t.len() == 1 && d.t[0].1.abs() == 1 && x.t.len() + y.t.len() == 1 {
                        let (at, k) = d.t[0];
                        if at != ia && at != ib {
                            let wa = self.width[at as usize];
                            let bound = if k == 1 { -d.c } else { d.c };
                            if bound >= 0 && (bound as u128) <= mask128(wa) {
                                let kv = self.konst(bound as u128, wa);
                                return if k == 1 {
                                    self.cmp(p, wa, Val::E(at), kv)
                                } else {
                                    self.cmp(p, wa, kv, Val::E(at))
                                };
                            }
                        }
                    }
                }
            }
        }
        // equality of concatenations with constants splits into parts
        if p == Pred::Eq {
            let (e, k) = if self.cval(b).is_some() { (ia, self.cval(b)) } else { (ib, self.cval(a)) };
            if let Some(k) = k {
                match self.nodes[e as usize] {
                    N::Concat(h, l) => {
                        let (wh, wl) = (self.width[h as usize], self.width[l as usize]);
                        let kh = self.konst(k >> wl, wh);
                        let kl = self.konst(k & mask128(wl), wl);
                        let vh = self.val(h);
                        let vl = self.val(l);
                        let x = self.cmp(Pred::Eq, wh, vh, kh);
                        let y = self.cmp(Pred::Eq, wl, vl, kl);
                        return self.bin(BinOp::And, 1, x, y);
                    }
                    N::ZExt(z) => {
                        let wz = self.width[z as usize];
                        if k > mask128(wz) {
                            return Val::C(0);
                        }
                        let kv = self.konst(k, wz);
                        return self.cmp(Pred::Eq, wz, Val::E(z), kv);
                    }
                    N::Ite(c, x, y) => {
                        let (vx, vy) = (self.val(x), self.val(y));
                        if self.cval(vx).is_some() || self.cval(vy).is_some() {
                            let kv = self.konst(k, w);
                            let ex = self.cmp(Pred::Eq, w, vx, kv);
                            let ey = self.cmp(Pred::Eq, w, vy, kv);
                            return self.ite(Val::E(c), ex, ey, 1);
                        }
                    }
                    _ => {}
                }
            } else if let (N::Concat(h1, l1), N::Concat(h2, l2)) = (self.nodes[ia as usize], self.nodes[ib as usize]) {
                let (wl1, wl2) = (self.width[l1 as usize], self.width[l2 as usize]);
                if wl1 == wl2 {
                    let wh = w - wl1;
                    let (a1, b1) = (self.val(h1), self.val(h2));
                    let (a2, b2) = (self.val(l1), self.val(l2));
                    let x = self.cmp(Pred::Eq, wh, a1, b1);
                    let y = self.cmp(Pred::Eq, wl1, a2, b2);
                    return self.bin(BinOp::And, 1, x, y);
                }
            }
        }
        let n = match p {
            Pred::Eq => {
                let (x, y) = if self.cval(a).is_some() || (self.cval(b).is_none() && ib < ia) { (ib, ia) } else { (ia, ib) };
                N::Eq(x, y)
            }
            Pred::Ult => N::Ult(ia, ib),
            Pred::Ule => N::Ule(ia, ib),
            _ => unreachable!(),
        };
        self.fin(n, 1)
    }

    pub fn zext(&mut self, a: Val, from: u16, to: u16) -> Val {
        if from == to {
            return a;
        }
        if let Some(c) = self.cval(a) {
            return self.konst(c, to);
        }
        let e = self.id(a, from);
        if let Some(l) = self.lin(e) {
            return self.build_lin(&l, to);
        }
        if let N::ZExt(x) = self.nodes[e as usize] {
            return Val::E(self.intern(N::ZExt(x), to));
        }
        Val::E(self.intern(N::ZExt(e), to))
    }
    pub fn sext_(&mut self, a: Val, from: u16, to: u16) -> Val {
        if from == to {
            return a;
        }
        if let Some(c) = self.cval(a) {
            return self.konst(sext(c, from) as u128 & mask128(to), to);
        }
        let e = self.id(a, from);
        if from > 1 {
            let (l, h) = self.range(e);
            if h < 1u128 << (from - 1) {
                return self.zext(a, from, to);
            }
            // wholly negative: the same linear form, shifted
            if l >= 1u128 << (from - 1) && to < 127 {
                let z = self.zext(a, from, to);
                let k = self.konst(mask128(to) - mask128(from), to);
                return self.bin(BinOp::Add, to, z, k);
            }
        }
        if from == 1 {
            let ones = self.konst(mask128(to), to);
            let z = self.konst(0, to);
            return self.ite(a, ones, z, to);
        }
        self.fin(N::SExt(e), to)
    }

    fn raw_extract(&mut self, e: Id, lo: u16, w: u16) -> Val {
        let we = self.width[e as usize];
        if lo == 0 && w == we {
            return self.val(e);
        }
        match self.nodes[e as usize] {
            N::Const(c) => self.konst((c >> lo) & mask128(w), w),
            N::Concat(h, l) => {
                let wl = self.width[l as usize];
                if lo >= wl {
                    let v = self.val(h);
                    return self.extract(v, lo - wl, w, we - wl);
                }
                if lo + w <= wl {
                    let v = self.val(l);
                    return self.extract(v, lo, w, wl);
                }
                let (vh, vl) = (self.val(h), self.val(l));
                let x = self.extract(vh, 0, lo + w - wl, we - wl);
                let y = self.extract(vl, lo, wl - lo, wl);
                self.concat(x, lo + w - wl, y, wl - lo)
            }
            N::ZExt(a) => {
                let wa = self.width[a as usize];
                if lo >= wa {
                    return self.konst(0, w);
                }
                let v = self.val(a);
                if lo + w <= wa {
                    return self.extract(v, lo, w, wa);
                }
                let x = self.extract(v, lo, wa - lo, wa);
                self.zext(x, wa - lo, w)
            }
            N::SExt(a) => {
                let wa = self.width[a as usize];
                let v = self.val(a);
                if lo + w <= wa {
                    return self.extract(v, lo, w, wa);
                }
                self.fin(N::Extract(e, lo as u8), w)
            }
            N::Extract(a, l2) => {
                let wa = self.width[a as usize];
                let v = self.val(a);
                self.extract(v, l2 as u16 + lo, w, wa)
            }
            N::Ite(c, a, b) => {
                let (va, vb) = (self.val(a), self.val(b));
                let x = self.extract(va, lo, w, we);
                let y = self.extract(vb, lo, w, we);
                self.ite(Val::E(c), x, y, w)
            }
            N::Table(a, t) => {
                let tb = self.tables[t as usize].clone();
                let nt: Vec<u64> = tb.iter().map(|v| (v >> lo) & mask128(w) as u64).collect();
                let wa = self.width[a as usize];
                self.mk_table(Val::E(a), wa, nt, w)
            }
            N::And(a, b) | N::Or(a, b) | N::Xor(a, b) => {
                let (va, vb) = (self.val(a), self.val(b));
                let x = self.extract(va, lo, w, we);
                let y = self.extract(vb, lo, w, we);
                let op = match self.nodes[e as usize] {
                    N::And(..) => BinOp::And,
                    N::Or(..) => BinOp::Or,
                    _ => BinOp::Xor,
                };
                self.bin(op, w, x, y)
            }
            N::Add(a, b) | N::Sub(a, b) | N::Mul(a, b) if lo == 0 => {
                let (va, vb) = (self.val(a), self.val(b));
                let x = self.extract(va, 0, w, we);
                let y = self.extract(vb, 0, w, we);
                let op = match self.nodes[e as usize] {
                    N::Add(..) => BinOp::Add,
                    N::Sub(..) => BinOp::Sub,
                    _ => BinOp::Mul,
                };
                // only when that does not lose the original node's structure for later re-concatenation
                if w > 8 {
                    return self.fin(N::Extract(e, 0), w);
                }
                self.bin(op, w, x, y)
            }
            _ => self.fin(N::Extract(e, lo as u8), w),
        }
    }

    /// bits lo..lo+w of a (a has width from)
    pub fn extract(&mut self, a: Val, lo: u16, w: u16, from: u16) -> Val {
        if w == from {
            return a;
        }
        if w == 0 {
            return Val::C(0);
        }
        if let Some(c) = self.cval(a) {
            return self.konst((c >> lo) & mask128(w), w);
        }
        let e = self.id(a, from);
        let (l, h) = self.range(e);
        if l == h {
            return self.konst((l >> lo) & mask128(w), w);
        }
        if (h >> lo) == (l >> lo) {
            return self.konst((l >> lo) & mask128(w), w);
        }
        if let Some(x) = self.lin(e) {
            if lo < 100 {
                let q = if lo == 0 { Some((*x).clone()) } else { self.lin_divmod(&x, 1i128 << lo).map(|p| p.0) };
                if let Some(q) = q {
                    if let Some(l) = self.wrap(q, w) {
                        return self.build_lin(&l, w);
                    }
                }
            }
        }
        if matches!(self.nodes[e as usize], N::Add(..) | N::Sub(..) | N::Mul(..) | N::Shl(..)) && lo + w < 100 {
            // terms that cannot reach the extracted bits vanish; a common factor shifts out
            if let Some(l) = self.lin_mod(e, true) {
                let m = 1i128 << (lo + w);
                let mut t = vec![];
                for (a, k) in &l.t {
                    let r = k.rem_euclid(m);
                    if r != 0 {
                        t.push((*a, if r > m / 2 { r - m } else { r }));
                    }
                }
                let c = l.c.rem_euclid(m);
                if t.is_empty() {
                    return self.konst((c >> lo) as u128 & mask128(w), w);
                }
                let f = 1i128 << lo;
                if lo > 0 && t.iter().all(|(_, k)| k % f == 0) {
                    let l = Lin { c: c >> lo, t: t.iter().map(|(a, k)| (*a, k / f)).collect() };
                    return self.build_lin(&l, w);
                }
            }
        }
        match self.nodes[e as usize] {
            // keep the identity of non-collapsing arithmetic so that byte-wise stores reassemble
            N::Add(..) | N::Sub(..) | N::Mul(..) => self.fin(N::Extract(e, lo as u8), w),
            _ => self.raw_extract(e, lo, w),
        }
    }

    pub fn concat(&mut self, hi: Val, wh: u16, lo: Val, wl: u16) -> Val {
        if wh == 0 {
            return lo;
        }
        if wl == 0 {
            return hi;
        }
        let w = wh + wl;
        if let (Some(h), Some(l)) = (self.cval(hi), self.cval(lo)) {
            return self.konst((h << wl) | l, w);
        }
        if self.cval(hi) == Some(0) {
            return self.zext(lo, wl, w);
        }
        let eh = self.id(hi, wh);
        let el = self.id(lo, wl);
        // adjacent extracts
        let parts = |c: &Ctx, e: Id| -> Option<(Id, u16, u16)> {
            match c.nodes[e as usize] {
                N::Extract(x, l) => Some((x, l as u16, c.width[e as usize])),
                _ => None,
            }
        };
        let (hx, pad) = match self.nodes[eh as usize] {
            N::ZExt(x) => (x, wh - self.width[x as usize]),
            _ => (eh, 0),
        };
        if let (Some((x, l1, n1)), Some((y, l0, n0))) = (parts(self, hx), parts(self, el)) {
            if x == y && l0 + n0 == l1 {
                let wx = self.width[x as usize];
                let full = n0 + n1;
                let r = self.extract(Val::E(x), l0, full, wx);
                return if pad > 0 { self.zext(r, full, w) } else { r };
            }
        }
        // same-shaped selections recombine
        match (self.nodes[eh as usize], self.nodes[el as usize]) {
            (N::Ite(c1, a1, b1), N::Ite(c2, a2, b2)) if c1 == c2 => {
                let (a1, b1, a2, b2) = (self.val(a1), self.val(b1), self.val(a2), self.val(b2));
                let x = self.concat(a1, wh, a2, wl);
                let y = self.concat(b1, wh, b2, wl);
                return self.ite(Val::E(c1), x, y, w);
            }
            (N::Table(i1, t1), N::Table(i2, t2)) if i1 == i2 && w <= 64 => {
                let (t1, t2) = (self.tables[t1 as usize].clone(), self.tables[t2 as usize].clone());
                let n = t1.len().max(t2.len());
                let t: Vec<u64> = (0..n)
                    .map(|k| t1.get(k).copied().unwrap_or(0) << wl | t2.get(k).copied().unwrap_or(0))
                    .collect();
                let wi = self.width[i1 as usize];
                return self.mk_table(Val::E(i1), wi, t, w);
            }
            _ => {}
        }
        // x's low part stored as a collapsed linear form: value of eh is x >> wl and el is x mod 2^wl
        if let (Some(a), Some(b)) = (self.lin(eh), self.lin(el)) {
            if !(a.t.len() == 1 && a.t[0].0 == eh && b.t.len() == 1 && b.t[0].0 == el) || a.t.is_empty() {
                if wl < 100 {
                    if let Some(s) = Self::lin_scale(&a, 1i128 << wl).and_then(|s| Self::merge(&s, &b, 1)) {
                        if s.t.len() <= 1 {
                            if let Some(l) = self.wrap(s, w) {
                                return self.build_lin(&l, w);
                            }
                        }
                    }
                }
            }
        }
        Val::E(self.intern(N::Concat(eh, el), w))
    }

    pub fn ite(&mut self, c: Val, a: Val, b: Val, w: u16) -> Val {
        if let Some(k) = self.cval(c) {
            return if k != 0 { a } else { b };
        }
        let ic = self.id(c, 1);
        let (l, h) = self.range(ic);
        if l == 1 {
            return a;
        }
        if h == 0 {
            return b;
        }
        let ia = self.id(a, w);
        let ib = self.id(b, w);
        if ia == ib {
            return a;
        }
        if w == 1 {
            match (self.cval(a), self.cval(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or1(ic, ib),
                (Some(0), None) => {
                    let nc = self.not(c);
                    let nc = self.id(nc, 1);
                    return self.and1(nc, ib);
                }
                (None, Some(0)) => return self.and1(ic, ia),
                (None, Some(1)) => {
                    let nc = self.not(c);
                    let nc = self.id(nc, 1);
                    return self.or1(nc, ia);
                }
                _ => {}
            }
        }
        self.fin(N::Ite(ic, ia, ib), w)
    }

    pub fn mk_table(&mut self, idx: Val, wi: u16, mut t: Vec<u64>, w: u16) -> Val {
        if let Some(i) = self.cval(idx) {
            return self.konst(t.get(i as usize).copied().unwrap_or(0) as u128, w);
        }
        let e = self.id(idx, wi);
        let (lo, hi) = self.range(e);
        if hi as usize + 1 < t.len() {
            t.truncate(hi as usize + 1);
        }
        if lo == hi {
            return self.konst(t.get(lo as usize).copied().unwrap_or(0) as u128, w);
        }
        let sl: Vec<u64> = (lo..=hi).map(|i| t.get(i as usize).copied().unwrap_or(0)).collect();
        if sl.iter().all(|x| *x == sl[0]) {
            return self.konst(sl[0] as u128, w);
        }
        // decimal digit tables and affine tables become arithmetic
        let f = |g: &dyn Fn(u128) -> u128| -> Option<u64> {
            let c = sl[0].wrapping_sub(g(lo) as u64);
            for (k, v) in sl.iter().enumerate() {
                if c.wrapping_add(g(lo + k as u128) as u64) != *v {
                    return None;
                }
            }
            Some(c)
        };
        if w >= 8 && sl.len() >= 3 {
            let zi = if wi <= w { self.zext(idx, wi, w) } else { self.extract(idx, 0, w, wi) };
            if let Some(c) = f(&|i| i) {
                let k = self.konst(c as u128, w);
                return self.bin(BinOp::Add, w, zi, k);
            }
            if sl.len() >= 10 || (lo / 10 != hi / 10) {
                if let Some(c) = f(&|i| i % 10) {
                    let ten = self.konst(10, wi);
                    let r = self.bin(BinOp::URem, wi, idx, ten);
                    let zr = if wi <= w { self.zext(r, wi, w) } else { self.extract(r, 0, w, wi) };
                    let k = self.konst(c as u128, w);
                    return self.bin(BinOp::Add, w, zr, k);
                }
                if let Some(c) = f(&|i| i / 10) {
                    let ten = self.konst(10, wi);
                    let r = self.bin(BinOp::UDiv, wi, idx, ten);
                    let zr = if wi <= w { self.zext(r, wi, w) } else { self.extract(r, 0, w, wi) };
                    let k = self.konst(c as u128, w);
                    return self.bin(BinOp::Add, w, zr, k);
                }
            }
        }
        for x in t.iter_mut() {
            *x &= mask128(w) as u64;
        }
        let ti = self.table(t);
        self.fin(N::Table(e, ti), w)
    }

    // ---------- evaluation ----------
    pub fn begin_eval(&mut self) {
        self.ev_stamp += 1;
    }
    pub fn eval(&mut self, e: Id, model: &[u8]) -> u128 {
        let (s, v) = self.ev[e as usize];
        if s == self.ev_stamp {
            return v;
        }
        let w = self.width[e as usize];
        let m = mask128(w);
        macro_rules! b {
            ($op:expr,$a:expr,$b:expr) => {{
                let x = self.eval($a, model);
                let y = self.eval($b, model);
                ev_bin($op, x, y, w)
            }};
        }
        macro_rules! c {
            ($op:expr,$a:expr,$b:expr) => {{
                let wa = self.width[$a as usize];
                let x = self.eval($a, model);
                let y = self.eval($b, model);
                ev_cmp($op, x, y, wa) as u128
            }};
        }
        let r = match self.nodes[e as usize] {
            N::Const(c) => c,
            N::Var(v) => model[v as usize] as u128,
            N::Add(a, b) => b!(BinOp::Add, a, b),
            N::Sub(a, b) => b!(BinOp::Sub, a, b),
            N::Mul(a, b) => b!(BinOp::Mul, a, b),
            N::UDiv(a, b) => b!(BinOp::UDiv, a, b),
            N::URem(a, b) => b!(BinOp::URem, a, b),
            N::SDiv(a, b) => b!(BinOp::SDiv, a, b),
            N::SRem(a, b) => b!(BinOp::SRem, a, b),
            N::And(a, b) => b!(BinOp::And, a, b),
            N::Or(a, b) => b!(BinOp::Or, a, b),
            N::Xor(a, b) => b!(BinOp::Xor, a, b),
            N::Shl(a, b) => b!(BinOp::Shl, a, b),
            N::LShr(a, b) => b!(BinOp::LShr, a, b),
            N::AShr(a, b) => b!(BinOp::AShr, a, b),
            N::Eq(a, b) => c!(Pred::Eq, a, b),
            N::Ult(a, b) => c!(Pred::Ult, a, b),
            N::Ule(a, b) => c!(Pred::Ule, a, b),
            N::Slt(a, b) => c!(Pred::Slt, a, b),
            N::Sle(a, b) => c!(Pred::Sle, a, b),
            N::ZExt(a) => self.eval(a, model),
            N::SExt(a) => sext(self.eval(a, model), self.width[a as usize]) as u128 & m,
            N::Extract(a, lo) => (self.eval(a, model) >> lo) & m,
            N::Concat(a, b) => {
                let wb = self.width[b as usize];
                (self.eval(a, model) << wb) | self.eval(b, model)
            }
            N::Ite(c, a, b) => {
                if self.eval(c, model) != 0 {
                    self.eval(a, model)
                } else {
                    self.eval(b, model)
                }
            }
            N::Table(a, t) => {
                let i = self.eval(a, model);
                self.tables[t as usize].get(i as usize).copied().unwrap_or(0) as u128
            }
        };
        self.ev[e as usize] = (self.ev_stamp, r);
        r
    }
    pub fn eval_val(&mut self, v: Val, model: &[u8]) -> u128 {
        match v {
            Val::C(c) => c as u128,
            Val::E(e) => self.eval(e, model),
        }
    }
}

pub fn ev_bin(op: BinOp, x: u128, y: u128, w: u16) -> u128 {
    let m = mask128(w);
    (match op {
        BinOp::Add => x.wrapping_add(y),
        BinOp::Sub => x.wrapping_sub(y),
        BinOp::Mul => x.wrapping_mul(y),
        BinOp::UDiv => {
            if y == 0 {
                m
            } else {
                x / y
            }
        }
        BinOp::URem => {
            if y == 0 {
                x
            } else {
                x % y
            }
        }
        BinOp::SDiv => {
            let (a, b) = (sext(x, w), sext(y, w));
            if b == 0 {
                if a < 0 {
                    1
                } else {
                    m
                }
            } else {
                a.wrapping_div(b) as u128
            }
        }
        BinOp::SRem => {
            let (a, b) = (sext(x, w), sext(y, w));
            if b == 0 {
                x
            } else {
                a.wrapping_rem(b) as u128
            }
        }
        BinOp::And => x & y,
        BinOp::Or => x | y,
        BinOp::Xor => x ^ y,
        BinOp::Shl => {
            if y >= w as u128 {
                0
            } else {
                x << y
            }
        }
        BinOp::LShr => {
            if y >= w as u128 {
                0
            } else {
                x >> y
            }
        }
        BinOp::AShr => {
            let s = y.min(w as u128 - 1);
            (sext(x, w) >> s) as u128
        }
    }) & m
}
pub fn ev_cmp(p: Pred, x: u128, y: u128, w: u16) -> bool {
    match p {
        Pred::Eq => x == y,
        Pred::Ne => x != y,
        Pred::Ult => x < y,
        Pred::Ule => x <= y,
        Pred::Ugt => x > y,
        Pred::Uge => x >= y,
        Pred::Slt => sext(x, w) < sext(y, w),
        Pred::Sle => sext(x, w) <= sext(y, w),
        Pred::Sgt => sext(x, w) > sext(y, w),
        Pred::Sge => sext(x, w) >= sext(y, w),
    }
}
