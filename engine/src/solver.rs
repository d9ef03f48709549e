//! z3 back end (C API of the system libz3).
use crate::expr::*;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::time::Instant;

type P = *mut c_void;
#[allow(dead_code)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_del_config(c: P);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_set_error_handler(c: P, h: *const c_void);
    fn Z3_get_error_code(c: P) -> c_int;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_dec_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, comp: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, h: c_uint, l: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
}

extern "C" fn on_err(_c: P, _e: c_int) {}

pub enum Res {
    Sat(Vec<(u8, u8)>),
    Unsat,
    Unknown,
}

pub struct Solver {
    timeout: u32,
    set: u32,
    c: P,
    s: P,
    bv: FxMap<Id, P>,
    bl: FxMap<Id, P>,
    vars: Vec<P>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cached: u64,
    pub secs: f64,
    cache: FxMap<(u64, u64), Option<Vec<(u8, u8)>>>,
}

impl Drop for Solver {
    fn drop(&mut self) {
        unsafe { Z3_del_context(self.c) }
    }
}

impl Solver {
    /// change the time limit of the following checks
    pub fn limit(&mut self, timeout_ms: u32) {
        self.timeout = timeout_ms;
    }
    fn limit_of(&self, s: P, timeout_ms: u32) {
        unsafe {
            let p = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, k.as_ptr()), timeout_ms);
            Z3_solver_set_params(self.c, s, p);
            Z3_params_dec_ref(self.c, p);
        }
    }
    pub fn new(timeout_ms: u32) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(c, on_err as *const c_void);
            let l = CString::new("QF_BV").unwrap();
            let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), timeout_ms);
            Z3_solver_set_params(c, s, p);
            Solver {
                timeout: timeout_ms,
                set: timeout_ms,
                c,
                s,
                bv: FxMap::default(),
                bl: FxMap::default(),
                vars: vec![],
                queries: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                cached: 0,
                secs: 0.0,
                cache: FxMap::default(),
            }
        }
    }
    fn num(&self, v: u128, w: u16) -> P {
        unsafe {
            let s = Z3_mk_bv_sort(self.c, w as c_uint);
            if v <= u64::MAX as u128 {
                Z3_mk_unsigned_int64(self.c, v as u64, s)
            } else {
                let t = CString::new(v.to_string()).unwrap();
                Z3_mk_numeral(self.c, t.as_ptr(), s)
            }
        }
    }
    fn var(&mut self, v: u8) -> P {
        while self.vars.len() <= v as usize {
            let n = CString::new(format!("b{}", self.vars.len())).unwrap();
            unsafe {
                let s = Z3_mk_bv_sort(self.c, 8);
                self.vars.push(Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, n.as_ptr()), s));
            }
        }
        self.vars[v as usize]
    }
    fn bv(&mut self, x: &Ctx, e: Id) -> P {
        if let Some(p) = self.bv.get(&e) {
            return *p;
        }
        let w = x.width[e as usize];
        let c = self.c;
        macro_rules! b {
            ($f:ident,$a:expr,$b:expr) => {{
                let p = self.bv(x, $a);
                let q = self.bv(x, $b);
                $f(c, p, q)
            }};
        }
        let r = unsafe {
            if w == 1 && !matches!(x.nodes[e as usize], N::Const(_)) {
                let b = self.bl(x, e);
                let one = self.num(1, 1);
                let zero = self.num(0, 1);
                Z3_mk_ite(c, b, one, zero)
            } else {
                match x.nodes[e as usize] {
                    N::Const(k) => self.num(k, w),
                    N::Var(v) => self.var(v),
                    N::Add(p, q) => b!(Z3_mk_bvadd, p, q),
                    N::Sub(p, q) => b!(Z3_mk_bvsub, p, q),
                    N::Mul(p, q) => b!(Z3_mk_bvmul, p, q),
                    N::UDiv(p, q) => b!(Z3_mk_bvudiv, p, q),
                    N::URem(p, q) => b!(Z3_mk_bvurem, p, q),
                    N::SDiv(p, q) => b!(Z3_mk_bvsdiv, p, q),
                    N::SRem(p, q) => b!(Z3_mk_bvsrem, p, q),
                    N::And(p, q) => b!(Z3_mk_bvand, p, q),
                    N::Or(p, q) => b!(Z3_mk_bvor, p, q),
                    N::Xor(p, q) => b!(Z3_mk_bvxor, p, q),
                    N::Shl(p, q) => b!(Z3_mk_bvshl, p, q),
                    N::LShr(p, q) => b!(Z3_mk_bvlshr, p, q),
                    N::AShr(p, q) => b!(Z3_mk_bvashr, p, q),
                    N::ZExt(p) => {
                        let wp = x.width[p as usize];
                        let a = self.bv(x, p);
                        Z3_mk_zero_ext(c, (w - wp) as c_uint, a)
                    }
                    N::SExt(p) => {
                        let wp = x.width[p as usize];
                        let a = self.bv(x, p);
                        Z3_mk_sign_ext(c, (w - wp) as c_uint, a)
                    }
                    N::Extract(p, lo) => {
                        let a = self.bv(x, p);
                        Z3_mk_extract(c, lo as c_uint + w as c_uint - 1, lo as c_uint, a)
                    }
                    N::Concat(p, q) => b!(Z3_mk_concat, p, q),
                    N::Ite(k, p, q) => {
                        let k = self.bl(x, k);
                        let p = self.bv(x, p);
                        let q = self.bv(x, q);
                        Z3_mk_ite(c, k, p, q)
                    }
                    N::Table(i, t) => {
                        let wi = x.width[i as usize];
                        let ix = self.bv(x, i);
                        let t = x.tables[t as usize].clone();
                        // runs of equal values, last run is the default
                        let mut runs: Vec<(usize, u64)> = vec![];
                        for (k, v) in t.iter().enumerate() {
                            match runs.last_mut() {
                                Some((e, u)) if *u == *v => *e = k,
                                _ => runs.push((k, *v)),
                            }
                        }
                        let mut acc = self.num(0, w);
                        for (e, v) in runs.iter().rev() {
                            let nv = self.num(*v as u128, w);
                            if (*e as u128) < crate::ir::mask128(wi) {
                                let ke = self.num(*e as u128, wi);
                                let cond = Z3_mk_bvule(c, ix, ke);
                                acc = Z3_mk_ite(c, cond, nv, acc);
                            } else {
                                acc = nv;
                            }
                        }
                        acc
                    }
                    _ => unreachable!(),
                }
            }
        };
        self.bv.insert(e, r);
        r
    }
    fn bl(&mut self, x: &Ctx, e: Id) -> P {
        if let Some(p) = self.bl.get(&e) {
            return *p;
        }
        let c = self.c;
        debug_assert_eq!(x.width[e as usize], 1);
        macro_rules! b {
            ($f:ident,$a:expr,$b:expr) => {{
                let p = self.bv(x, $a);
                let q = self.bv(x, $b);
                $f(c, p, q)
            }};
        }
        let r = unsafe {
            match x.nodes[e as usize] {
                N::Const(k) => {
                    if k != 0 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                N::Eq(p, q) => b!(Z3_mk_eq, p, q),
                N::Ult(p, q) => b!(Z3_mk_bvult, p, q),
                N::Ule(p, q) => b!(Z3_mk_bvule, p, q),
                N::Slt(p, q) => b!(Z3_mk_bvslt, p, q),
                N::Sle(p, q) => b!(Z3_mk_bvsle, p, q),
                N::And(p, q) => {
                    let a = [self.bl(x, p), self.bl(x, q)];
                    Z3_mk_and(c, 2, a.as_ptr())
                }
                N::Or(p, q) => {
                    let a = [self.bl(x, p), self.bl(x, q)];
                    Z3_mk_or(c, 2, a.as_ptr())
                }
                N::Xor(p, q) | N::Add(p, q) | N::Sub(p, q) => {
                    let p = self.bl(x, p);
                    let q = self.bl(x, q);
                    Z3_mk_xor(c, p, q)
                }
                N::Mul(p, q) => {
                    let a = [self.bl(x, p), self.bl(x, q)];
                    Z3_mk_and(c, 2, a.as_ptr())
                }
                N::Ite(k, p, q) => {
                    let k = self.bl(x, k);
                    let p = self.bl(x, p);
                    let q = self.bl(x, q);
                    Z3_mk_ite(c, k, p, q)
                }
                N::Extract(p, lo) => {
                    let a = self.bv(x, p);
                    let z = Z3_mk_extract(c, lo as c_uint, lo as c_uint, a);
                    let one = self.num(1, 1);
                    Z3_mk_eq(c, z, one)
                }
                N::Table(i, t) => {
                    let wi = x.width[i as usize];
                    let ix = self.bv(x, i);
                    let t = x.tables[t as usize].clone();
                    let mut ors = vec![];
                    for (k, v) in t.iter().enumerate() {
                        if *v & 1 == 1 {
                            let kk = self.num(k as u128, wi);
                            ors.push(Z3_mk_eq(c, ix, kk));
                        }
                    }
                    Z3_mk_or(c, ors.len() as c_uint, ors.as_ptr())
                }
                n => panic!("bool node {:?}", n),
            }
        };
        self.bl.insert(e, r);
        r
    }
    fn dom_constraint(&mut self, v: u8, d: &Dom) -> P {
        let c = self.c;
        let x = self.var(v);
        let mut ors = vec![];
        let mut i = 0u16;
        while i < 256 {
            if d.has(i as u8) {
                let st = i;
                while i < 256 && d.has(i as u8) {
                    i += 1;
                }
                let en = i - 1;
                unsafe {
                    if st == en {
                        let k = self.num(st as u128, 8);
                        ors.push(Z3_mk_eq(c, x, k));
                    } else {
                        let a = self.num(st as u128, 8);
                        let b = self.num(en as u128, 8);
                        let p = [Z3_mk_bvule(c, a, x), Z3_mk_bvule(c, x, b)];
                        ors.push(Z3_mk_and(c, 2, p.as_ptr()));
                    }
                }
            }
            i += 1;
        }
        unsafe { Z3_mk_or(c, ors.len() as c_uint, ors.as_ptr()) }
    }

    /// assert and check in a solver
    unsafe fn run(&mut self, s: P, asserted: &[P], mask: u64) -> Res {
        for a in asserted {
            Z3_solver_assert(self.c, s, *a);
        }
        let r = Z3_solver_check(self.c, s);
        let out = if r == 1 {
            let md = Z3_solver_get_model(self.c, s);
            Z3_model_inc_ref(self.c, md);
            let mut out = vec![];
            let mut m = mask;
            while m != 0 {
                let v = m.trailing_zeros() as u8;
                m &= m - 1;
                let t = self.var(v);
                let mut o: P = std::ptr::null_mut();
                Z3_model_eval(self.c, md, t, true, &mut o);
                let mut u = 0u64;
                Z3_get_numeral_uint64(self.c, o, &mut u);
                out.push((v, u as u8));
            }
            Z3_model_dec_ref(self.c, md);
            Res::Sat(out)
        } else if r == -1 {
            Res::Unsat
        } else {
            Res::Unknown
        };
        if Z3_get_error_code(self.c) != 0 {
            Res::Unknown
        } else {
            out
        }
    }

    /// satisfiability of the conjunction of `cs` and `neg` negated constraints under byte domains of `mask`
    pub fn check(&mut self, x: &Ctx, cs: &[(Id, bool)], mask: u64) -> Res {
        let mut key: Vec<u64> = cs.iter().map(|(i, b)| (*i as u64) << 1 | *b as u64).collect();
        key.sort_unstable();
        key.dedup();
        let mut h = (0xcbf29ce484222325u64, 0x9e3779b97f4a7c15u64);
        let mut mix = |v: u64| {
            h.0 = (h.0 ^ v).wrapping_mul(0x100000001b3);
            h.0 ^= h.0 >> 31;
            h.1 = (h.1.rotate_left(7) ^ v).wrapping_mul(0xff51afd7ed558ccd);
            h.1 ^= h.1 >> 33;
        };
        for k in &key {
            mix(*k);
        }
        let mut m = mask;
        while m != 0 {
            let v = m.trailing_zeros();
            m &= m - 1;
            mix(0xd0_0000_0000 + v as u64);
            for b in x.doms[v as usize].bits {
                mix(b);
            }
        }
        if let Some(r) = self.cache.get(&h) {
            self.cached += 1;
            return match r {
                Some(m) => Res::Sat(m.clone()),
                None => Res::Unsat,
            };
        }
        let t0 = Instant::now();
        self.queries += 1;
        let mut asserted = vec![];
        for (e, pos) in cs {
            let a = self.bl(x, *e);
            asserted.push(if *pos { a } else { unsafe { Z3_mk_not(self.c, a) } });
        }
        let mut m = mask;
        while m != 0 {
            let v = m.trailing_zeros() as u8;
            m &= m - 1;
            let d = x.doms[v as usize];
            if d.n < 256 {
                asserted.push(self.dom_constraint(v, &d));
            }
        }
        let quick = self.timeout.min(2000);
        if self.set != quick {
            self.set = quick;
            self.limit_of(self.s, quick);
        }
        let mut r = unsafe {
            Z3_solver_push(self.c, self.s);
            let r = self.run(self.s, &asserted, mask);
            Z3_solver_pop(self.c, self.s, 1);
            r
        };
        if matches!(r, Res::Unknown) && self.timeout > quick {
            // again in a fresh solver, which bit-blasts the whole query
            r = unsafe {
                let l = CString::new("QF_BV").unwrap();
                let s = Z3_mk_solver_for_logic(self.c, Z3_mk_string_symbol(self.c, l.as_ptr()));
                Z3_solver_inc_ref(self.c, s);
                self.limit_of(s, self.timeout);
                let r = self.run(s, &asserted, mask);
                Z3_solver_dec_ref(self.c, s);
                r
            };
        }
        self.secs += t0.elapsed().as_secs_f64();
        match &r {
            Res::Sat(m) => {
                self.sat += 1;
                self.cache.insert(h, Some(m.clone()));
            }
            Res::Unsat => {
                self.unsat += 1;
                self.cache.insert(h, None);
            }
            Res::Unknown => self.unknown += 1,
        }
        r
    }
}
