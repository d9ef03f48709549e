//! Path-based symbolic executor over the decoded IR.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Normal,
    Panic,
    HashKeys,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ext {
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    AlignedAlloc,
    Memcpy,
    Memset,
    Bcmp,
    Memcmp,
    Memchr,
    Strlen,
    Getenv,
    Abort,
    Write,
    SymMake,
    SymAssume,
    SymAssert,
    SymKnown,
    SymTrace,
    SymReach,
    Other,
}

pub struct Prog {
    pub m: Module<'static>,
    pub kinds: Vec<Kind>,
    pub exts: Vec<Ext>,
    pub image: &'static [u8],
}

fn kind_of(name: &str) -> Kind {
    // mangled path fragments of functions that can only lead to a panic
    const PAN: &[&str] = &[
        "4core9panicking",
        "6option13unwrap_failed",
        "6option13expect_failed",
        "6result13unwrap_failed",
        "16slice_error_fail",
        "19slice_error_fail_rt",
        "16slice_index_fail",
        "20slice_index_fail",
        "26slice_start_index_len_fail",
        "24slice_end_index_len_fail",
        "22slice_index_order_fail",
        "18handle_alloc_error",
        "17capacity_overflow",
        "7raw_vec12handle_error",
        "19panic_already_borrowed",
        "26panic_already_mutably_borrowed",
        "17rust_begin_unwind",
        "17len_mismatch_fail",
        "9rust_panic",
        "13assert_failed",
        "18copy_from_slice_impl17len_mismatch_fail",
        "6remove13assert_failed",
        "6insert13assert_failed",
    ];
    if PAN.iter().any(|p| name.contains(p)) {
        return Kind::Panic;
    }
    if name.contains("hashmap_random_keys") {
        return Kind::HashKeys;
    }
    Kind::Normal
}

fn ext_of(n: &str) -> Ext {
    match n {
        "malloc" => Ext::Malloc,
        "calloc" => Ext::Calloc,
        "realloc" => Ext::Realloc,
        "free" => Ext::Free,
        "posix_memalign" => Ext::PosixMemalign,
        "aligned_alloc" => Ext::AlignedAlloc,
        "memcpy" | "memmove" => Ext::Memcpy,
        "memset" => Ext::Memset,
        "bcmp" => Ext::Bcmp,
        "memcmp" => Ext::Memcmp,
        "memchr" => Ext::Memchr,
        "strlen" => Ext::Strlen,
        "getenv" => Ext::Getenv,
        "abort" => Ext::Abort,
        "write" => Ext::Write,
        "__sym_make" => Ext::SymMake,
        "__sym_assume" => Ext::SymAssume,
        "__sym_assert" => Ext::SymAssert,
        "__sym_known" => Ext::SymKnown,
        "__sym_trace" => Ext::SymTrace,
        "__sym_reach" => Ext::SymReach,
        _ => Ext::Other,
    }
}

impl Prog {
    pub fn new(text: &'static str) -> Prog {
        let m = Module::parse(text);
        let kinds = m.fns.iter().map(|f| kind_of(f.name)).collect();
        let exts = m.exts.iter().map(|f| ext_of(f)).collect();
        let image: &'static [u8] = Box::leak(m.image.clone().into_boxed_slice());
        Prog { m, kinds, exts, image }
    }
}

#[derive(Clone)]
pub struct Frame {
    f: &'static Func,
    regs: Vec<Val>,
    blk: u32,
    ip: u32,
    dst: u32,
    nd: u32,
    sp: u64,
}

#[derive(Clone)]
pub struct State {
    mem: Mem,
    frames: Vec<Rc<Frame>>,
    cur: Frame,
    sp: u64,
    hp: u64,
    pc: Vec<Id>,
    ent: u64,
    doms: Vec<Dom>,
    known: FxMap<Id, bool>,
    conc: FxMap<Id, u64>,
    model: Vec<u8>,
    trace: Vec<Vec<Val>>,
    reach: Vec<u32>,
    steps: u64,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub id: u32,
    pub msg: String,
    pub model: Vec<u8>,
}

#[derive(Clone, Debug)]
pub struct Sample {
    pub outcome: String,
    pub model: Vec<u8>,
    pub trace: u64,
}

#[derive(Default, Debug)]
pub struct JobResult {
    pub harness: String,
    pub param: u32,
    pub paths: u64,
    pub forks: u64,
    pub assumed_away: u64,
    pub steps: u64,
    pub asserts_path: u64,
    pub asserts_solver: u64,
    pub queries: u64,
    pub q_sat: u64,
    pub q_unsat: u64,
    pub q_unknown: u64,
    pub q_cached: u64,
    pub dom_decisions: u64,
    pub xok: u64,
    pub solver_s: f64,
    pub wall_s: f64,
    pub complete: bool,
    pub why: String,
    pub error: Option<String>,
    pub violations: Vec<Violation>,
    pub nviol: u64,
    pub known: BTreeMap<u32, Vec<u8>>,
    pub reach: BTreeMap<u32, u64>,
    pub samples: Vec<Sample>,
    pub fns: BTreeSet<u32>,
    pub nsym: u32,
}

pub struct Limits {
    pub max_paths: u64,
    pub max_steps: u64,
    pub max_path_steps: u64,
    pub time: Duration,
    pub max_viol: usize,
    pub samples: usize,
    pub z3_ms: u32,
    pub xcheck: u64,
    pub deadline: Instant,
}

enum Stop {
    /// path finished normally
    Done,
    Assumed,
    Known(u32),
    Viol(String, u32, String),
    Err(String),
    Incomplete(String),
}
impl From<Fault> for Stop {
    fn from(f: Fault) -> Stop {
        Stop::Viol("memory".into(), 0, format!("invalid address {:#x}", f.0))
    }
}
type R<T> = Result<T, Stop>;

pub struct Exec<'p> {
    p: &'static Prog,
    pub x: Ctx,
    pub s: Solver,
    work: Vec<State>,
    pub r: JobResult,
    lim: &'p Limits,
    epoch: u32,
    tmp: Vec<(u32, Val)>,
    nsamples: u64,
    xskip: u64,
    picks: u64,
    dump: bool,
}

fn hash_bytes(h: &mut u64, b: u8) {
    *h = (*h ^ b as u64).wrapping_mul(0x100000001b3);
}

impl<'p> Exec<'p> {
    pub fn new(p: &'static Prog, lim: &'p Limits) -> Self {
        Exec {
            p,
            x: Ctx::new(),
            s: Solver::new(lim.z3_ms),
            work: vec![],
            dump: std::env::var_os("ENGINE_DUMP").is_some(),
            r: JobResult::default(),
            lim,
            epoch: 1,
            tmp: vec![],
            nsamples: 0,
            xskip: 0,
            picks: 0,
        }
    }

    fn bump(&mut self) {
        self.epoch += 1;
        self.x.epoch = self.epoch;
    }

    fn func(&self, i: u32) -> &'static Func {
        // Prog is leaked: decoded functions live for the whole run
        let f: &Func = self.p.m.func(i);
        unsafe { std::mem::transmute::<&Func, &'static Func>(f) }
    }

    pub fn run(mut self, name: &str, param: u32) -> JobResult {
        let t0 = Instant::now();
        self.r.harness = name.to_string();
        self.r.param = param;
        let Some(fi) = self.p.m.fn_idx.get(name).copied() else {
            self.r.error = Some(format!("harness {name} not found"));
            return self.r;
        };
        let f = self.func(fi);
        let mut regs = vec![Val::C(0); f.nregs as usize];
        if f.nparams > 0 {
            regs[0] = Val::C(param as u64);
        }
        let st = State {
            mem: Mem::new(self.p.image, self.p.m.image_base),
            frames: vec![],
            cur: Frame { f, regs, blk: 0, ip: 0, dst: 0, nd: 0, sp: STACK + 64 },
            sp: STACK + 64,
            hp: HEAP + 64,
            pc: vec![],
            ent: 0,
            doms: vec![],
            known: FxMap::default(),
            conc: FxMap::default(),
            model: vec![],
            trace: vec![],
            reach: vec![],
            steps: 0,
        };
        self.r.fns.insert(fi);
        self.r.complete = true;
        self.work.push(st);
        while let Some(mut st) = self.work.pop() {
            if self.r.paths >= self.lim.max_paths
                || self.r.steps >= self.lim.max_steps
                || t0.elapsed() > self.lim.time
                || Instant::now() > self.lim.deadline
            {
                self.r.complete = false;
                self.r.why = format!(
                    "budget: paths={} steps={} pending={}",
                    self.r.paths,
                    self.r.steps,
                    self.work.len() + 1
                );
                break;
            }
            self.x.doms = st.doms.clone();
            self.bump();
            let s0 = st.steps;
            let stop = self.step_path(&mut st, t0);
            self.r.steps += st.steps - s0;
            if self.nsamples_due() || matches!(stop, Stop::Viol(..) | Stop::Known(_)) {
                // a model is checked against every constraint before it is used
                if let Some(bad) = self.bad_model(&st) {
                    self.r.error = Some(format!("model check failed on constraint {bad}"));
                    break;
                }
            }
            match stop {
                Stop::Done => {
                    self.r.paths += 1;
                    self.sample(&st, "ok");
                }
                Stop::Assumed => self.r.assumed_away += 1,
                Stop::Known(k) => {
                    self.r.paths += 1;
                    let m = st.model.clone();
                    self.r.known.entry(k).or_insert(m);
                    self.sample(&st, &format!("known {k}"));
                }
                Stop::Viol(kind, id, msg) => {
                    self.r.paths += 1;
                    self.add_viol(&st, kind, id, msg);
                }
                Stop::Err(e) => {
                    self.r.error = Some(format!("{e} [in {}]", st.cur.f.name));
                    break;
                }
                Stop::Incomplete(e) => {
                    self.r.complete = false;
                    self.r.why = e;
                }
            }
            for k in &st.reach {
                *self.r.reach.entry(*k).or_insert(0) += 1;
            }
            if self.r.violations.len() >= self.lim.max_viol {
                self.r.complete = false;
                self.r.why = "stopped after violations".into();
                break;
            }
        }
        self.r.wall_s = t0.elapsed().as_secs_f64();
        self.r.queries = self.s.queries;
        self.r.q_sat = self.s.sat;
        self.r.q_unsat = self.s.unsat;
        self.r.q_unknown = self.s.unknown;
        self.r.q_cached = self.s.cached;
        self.r.solver_s = self.s.secs;
        self.r
    }

    /// evaluate a nullary harness helper concretely (e.g. the number of parameters)
    pub fn call_u32(p: &'static Prog, name: &str) -> Result<u32, String> {
        let lim = Limits {
            max_paths: 1,
            max_steps: 50_000_000,
            max_path_steps: 50_000_000,
            time: Duration::from_secs(20),
            max_viol: 1,
            samples: 0,
            z3_ms: 1000,
            xcheck: 0,
            deadline: Instant::now() + Duration::from_secs(60),
        };
        let fi = *p.m.fn_idx.get(name).ok_or(format!("{name} not found"))?;
        let mut e = Exec::new(p, &lim);
        let f = e.func(fi);
        let mut st = State {
            mem: Mem::new(p.image, p.m.image_base),
            frames: vec![],
            cur: Frame { f, regs: vec![Val::C(0); f.nregs as usize], blk: 0, ip: 0, dst: 0, nd: 0, sp: STACK + 64 },
            sp: STACK + 64,
            hp: HEAP + 64,
            pc: vec![],
            ent: 0,
            doms: vec![],
            known: FxMap::default(),
            conc: FxMap::default(),
            model: vec![],
            trace: vec![],
            reach: vec![],
            steps: 0,
        };
        match e.step_path(&mut st, Instant::now()) {
            Stop::Done => Ok(st.hp as u32),
            _ => Err(format!("{name} did not finish")),
        }
    }

    fn nsamples_due(&self) -> bool {
        true
    }

    fn bad_model(&mut self, st: &State) -> Option<Id> {
        self.x.begin_eval();
        for c in &st.pc {
            if self.x.eval(*c, &st.model) & 1 != 1 {
                return Some(*c);
            }
        }
        for (i, d) in self.x.doms.iter().enumerate() {
            if !d.has(st.model[i]) {
                return Some(i as u32);
            }
        }
        None
    }

    fn trace_hash(&mut self, st: &State) -> u64 {
        self.x.begin_eval();
        let mut h = 0xcbf29ce484222325u64;
        for t in &st.trace {
            for v in t {
                let b = self.x.eval_val(*v, &st.model) as u8;
                hash_bytes(&mut h, b);
            }
            hash_bytes(&mut h, 0xff);
            hash_bytes(&mut h, 0x01);
        }
        h
    }

    fn sample(&mut self, st: &State, outcome: &str) {
        self.nsamples += 1;
        let n = self.nsamples;
        // first few, then exponentially thinned
        if self.r.samples.len() >= self.lim.samples {
            return;
        }
        let k = self.lim.samples as u64;
        if n > k / 2 && n % (1 + n / 8) != 0 {
            return;
        }
        let trace = self.trace_hash(st);
        self.r.samples.push(Sample { outcome: outcome.into(), model: st.model.clone(), trace });
    }

    fn add_viol(&mut self, st: &State, kind: String, id: u32, msg: String) {
        self.r.nviol += 1;
        if self.r.violations.iter().filter(|v| v.kind == kind && v.id == id && v.msg == msg).count() < 2 {
            self.r.violations.push(Violation { kind, id, msg, model: st.model.clone() });
        }
    }

    // ------------------------------------------------------------------ constraints

    fn add_constraint(&mut self, st: &mut State, c: Id, truth: bool) {
        match (self.x.nodes[c as usize], truth) {
            (N::Const(_), _) => return,
            (N::And(a, b), true) | (N::Or(a, b), false) => {
                st.known.insert(c, truth);
                self.add_constraint(st, a, truth);
                self.add_constraint(st, b, truth);
                return;
            }
            (N::Xor(a, b), _) if matches!(self.x.nodes[b as usize], N::Const(1)) => {
                st.known.insert(c, truth);
                self.add_constraint(st, a, !truth);
                return;
            }
            _ => {}
        }
        st.known.insert(c, truth);
        if let Some(v) = self.x.single_var(c) {
            if let Some(vs) = self.x.vals(c) {
                let d = self.x.doms[v as usize];
                let mut bits = [0u64; 4];
                for i in 0..256usize {
                    if (vs[i] != 0) == truth {
                        bits[i / 64] |= 1 << (i % 64);
                    }
                }
                for w in 0..4 {
                    bits[w] &= d.bits[w];
                }
                let nd = Dom::from_bits(bits);
                if nd.n != d.n {
                    self.x.doms[v as usize] = nd;
                    self.bump();
                }
                return;
            }
        }
        let id = if truth {
            c
        } else {
            match self.x.not(Val::E(c)) {
                Val::E(e) => e,
                Val::C(_) => return,
            }
        };
        st.ent |= self.x.supp[id as usize];
        st.pc.push(id);
    }

    fn relevant(&self, st: &State, seed: u64) -> (Vec<(Id, bool)>, u64) {
        let mut mask = seed;
        let mut used = vec![false; st.pc.len()];
        let mut out = vec![];
        loop {
            let mut ch = false;
            for (i, c) in st.pc.iter().enumerate() {
                if !used[i] && self.x.supp[*c as usize] & mask != 0 {
                    used[i] = true;
                    mask |= self.x.supp[*c as usize];
                    out.push((*c, true));
                    ch = true;
                }
            }
            if !ch {
                return (out, mask);
            }
        }
    }

    fn query(&mut self, st: &State, c: Id, truth: bool) -> Res {
        let (mut cs, mask) = self.relevant(st, self.x.supp[c as usize]);
        cs.push((c, truth));
        let r = self.s.check(&self.x, &cs, mask);
        if matches!(r, Res::Unknown) && self.dump {
            for (c, t) in &cs {
                eprintln!("  {}{}", if *t { "" } else { "NOT " }, self.x.show(*c, 14));
            }
        }
        r
    }

    /// Decide a symbolic condition; when both outcomes are feasible the other one is queued
    /// (it re-executes the current instruction) and this path continues with the returned value.
    fn fork_bool(&mut self, st: &mut State, c: Id) -> R<bool> {
        if let N::Const(k) = self.x.nodes[c as usize] {
            return Ok(k != 0);
        }
        if let Some(b) = st.known.get(&c) {
            return Ok(*b);
        }
        let (l, h) = self.x.range(c);
        if l == h {
            return Ok(l != 0);
        }
        let sv = self.x.single_var(c);
        if let Some(v) = sv {
            if st.ent >> v & 1 == 0 {
                // exact on an unentangled byte
                self.r.dom_decisions += 1;
                let vs = self.x.vals(c).unwrap();
                let d = self.x.doms[v as usize];
                let cur = vs[st.model[v as usize] as usize] != 0;
                if self.r.xok + self.xskip < self.lim.xcheck {
                    // the table-driven decision, decided again by z3 where that is cheap
                    self.s.limit(300);
                    let t0 = Instant::now();
                    let unknown = self.s.unknown;
                    for t in [true, false] {
                        let want = (0..256usize).any(|i| d.has(i as u8) && (vs[i] != 0) == t);
                        match self.s.check(&self.x, &[(c, t)], 1 << v) {
                            Res::Sat(_) if want => {}
                            Res::Unsat if !want => {}
                            Res::Unknown => {}
                            _ => return Err(Stop::Err("byte domain and solver disagree".into())),
                        }
                    }
                    if self.s.unknown == unknown {
                        self.r.xok += 1;
                    } else {
                        self.s.unknown = unknown;
                        self.xskip += 1;
                    }
                    if t0.elapsed().as_millis() > 100 {
                        self.xskip += self.lim.xcheck;
                    }
                    self.s.limit(self.lim.z3_ms);
                }
                let other = (0..256usize).find(|i| d.has(*i as u8) && (vs[*i] != 0) != cur);
                let Some(o) = other else { return Ok(cur) };
                self.spawn(st, c, !cur, &[(v, o as u8)]);
                self.add_constraint(st, c, cur);
                return Ok(cur);
            }
        }
        self.x.begin_eval();
        let cur = self.x.eval(c, &st.model) != 0;
        match self.query(st, c, !cur) {
            Res::Unsat => {
                st.known.insert(c, cur);
                Ok(cur)
            }
            Res::Sat(m) => {
                self.spawn(st, c, !cur, &m);
                self.add_constraint(st, c, cur);
                Ok(cur)
            }
            Res::Unknown => {
                self.r.complete = false;
                self.r.why = "solver timeout on a branch".into();
                self.add_constraint(st, c, cur);
                Ok(cur)
            }
        }
    }

    fn spawn(&mut self, st: &State, c: Id, truth: bool, m: &[(u8, u8)]) {
        self.r.forks += 1;
        let mut o = st.clone();
        for (v, b) in m {
            o.model[*v as usize] = *b;
        }
        let saved = self.x.doms.clone();
        self.add_constraint(&mut o, c, truth);
        o.doms = std::mem::replace(&mut self.x.doms, saved);
        self.bump();
        self.work.push(o);
    }

    fn concretize(&mut self, st: &mut State, v: Val, w: u16) -> R<u64> {
        let e = match v {
            Val::C(c) => return Ok(c),
            Val::E(e) => e,
        };
        if let Some(c) = st.conc.get(&e) {
            return Ok(*c);
        }
        let (l, h) = self.x.range(e);
        if l == h {
            return Ok(l as u64);
        }
        self.x.begin_eval();
        let cur = self.x.eval(e, &st.model) as u64;
        let k = Val::C(cur);
        let c = self.x.cmp(Pred::Eq, w, v, k);
        let b = match c {
            Val::C(x) => x != 0,
            Val::E(ce) => self.fork_bool(st, ce)?,
        };
        if !b {
            return Err(Stop::Err("concretize".into()));
        }
        st.conc.insert(e, cur);
        Ok(cur)
    }

    /// a value for an operand of a floating point operation, which is executed on concrete values: the
    /// first few expressions of a job take every value on paths of their own, the others one value each
    fn pick(&mut self, st: &mut State, v: Val, w: u16) -> R<u64> {
        let Val::E(e) = v else { return self.concretize(st, v, w) };
        if w > 64 {
            return Err(Stop::Err("floating point operation on a wide symbolic value".into()));
        }
        if st.conc.contains_key(&e) || self.picks < 32 {
            self.picks += 1;
            return self.concretize(st, v, w);
        }
        self.x.begin_eval();
        let cur = self.x.eval(e, &st.model) as u64;
        if let Val::E(c) = self.x.cmp(Pred::Eq, w, v, Val::C(cur)) {
            self.add_constraint(st, c, true);
            self.r.complete = false;
            self.r.why = "floating point operation on a symbolic value, executed for sampled values only".into();
        }
        st.conc.insert(e, cur);
        Ok(cur)
    }

    fn truth(&mut self, st: &mut State, v: Val) -> R<bool> {
        match v {
            Val::C(c) => Ok(c & 1 != 0),
            Val::E(e) => self.fork_bool(st, e),
        }
    }

    // ------------------------------------------------------------------ memory

    fn load(&mut self, st: &State, a: u64, w: u16) -> R<Val> {
        let nb = (w as usize).div_ceil(8);
        if nb <= 8 {
            if let Some(v) = st.mem.read_c(a, nb)? {
                return Ok(Val::C(v & mask128(w) as u64));
            }
        }
        let mut acc: Option<(Val, u16)> = None;
        for i in (0..nb).rev() {
            let (b, s) = st.mem.byte(a + i as u64)?;
            let v = if s != 0 { self.byteval(s) } else { Val::C(b as u64) };
            acc = Some(match acc {
                None => (v, 8),
                Some((h, wh)) => (self.x.concat(h, wh, v, 8), wh + 8),
            });
        }
        let (v, fw) = acc.unwrap();
        Ok(if fw != w { self.x.extract(v, 0, w, fw) } else { v })
    }
    fn byteval(&mut self, s: Id) -> Val {
        let (l, h) = self.x.range(s);
        if l == h {
            Val::C(l as u64)
        } else {
            Val::E(s)
        }
    }
    fn store(&mut self, st: &mut State, a: u64, w: u16, v: Val) -> R<()> {
        let nb = (w as usize).div_ceil(8);
        match v {
            Val::C(c) if nb <= 8 => {
                st.mem.write_c(a, nb, c)?;
            }
            _ => {
                let fw = nb as u16 * 8;
                let v = if fw != w { self.x.zext(v, w, fw) } else { v };
                for i in 0..nb {
                    let b = self.x.extract(v, 8 * i as u16, 8, fw);
                    match b {
                        Val::C(c) => st.mem.set(a + i as u64, c as u8, 0)?,
                        Val::E(e) => st.mem.set(a + i as u64, 0, e)?,
                    }
                }
            }
        }
        Ok(())
    }
    /// load through a symbolic address: a lookup table over the address range when the memory
    /// behind it is concrete, otherwise the address is case-split
    fn load_sym(&mut self, st: &mut State, p: Val, w: u16) -> R<Val> {
        let e = match p {
            Val::C(a) => return self.load(st, a, w),
            Val::E(e) => e,
        };
        if let Some(c) = st.conc.get(&e) {
            return self.load(st, *c, w);
        }
        let (lo, hi) = self.x.range(e);
        let nb = (w as u64).div_ceil(8);
        if w <= 64 && hi - lo <= 8192 {
            if let Some(l) = self.x.lin(e) {
                let mut g = 0i128;
                for (_, k) in &l.t {
                    g = gcd(g, k.abs());
                }
                let g = g.max(1) as u64;
                let n = ((hi - lo) as u64) / g + 1;
                if n <= 2048 {
                    let mut tab = Vec::with_capacity(n as usize);
                    let mut ok = true;
                    for i in 0..n {
                        match st.mem.read_c(lo as u64 + i * g, nb as usize) {
                            Ok(Some(v)) => tab.push(v & mask128(w) as u64),
                            _ => {
                                ok = false;
                                break;
                            }
                        }
                    }
                    if ok {
                        let off = self.x.bin(BinOp::Sub, 64, p, Val::C(lo as u64));
                        let idx = self.x.bin(BinOp::UDiv, 64, off, Val::C(g));
                        return Ok(self.x.mk_table(idx, 64, tab, w));
                    }
                }
            }
        }
        let a = self.concretize(st, p, 64)?;
        self.load(st, a, w)
    }

    // ------------------------------------------------------------------ main loop

    fn get(&mut self, st: &State, o: Op) -> Val {
        match o {
            Op::R(r) => st.cur.regs[r as usize],
            Op::C(c) => Val::C(c),
            Op::W(i) => {
                let (v, w) = st.cur.f.wide[i as usize];
                Val::E(self.x.intern(N::Const(v), w))
            }
        }
    }
    /// wide constants may be narrower than 128 bits (i96): intern at the right width
    fn getw(&mut self, st: &State, o: Op, w: u16) -> Val {
        match o {
            Op::R(r) => st.cur.regs[r as usize],
            Op::C(c) => Val::C(c),
            Op::W(i) => {
                let (v, _) = st.cur.f.wide[i as usize];
                Val::E(self.x.intern(N::Const(v), w))
            }
        }
    }
    fn norm(&mut self, v: Val, w: u16) -> Val {
        if w > 64 {
            if let Val::C(c) = v {
                return Val::E(self.x.intern(N::Const(c as u128), w));
            }
        }
        v
    }

    fn jump(&mut self, st: &mut State, to: u32) {
        let from = st.cur.blk;
        let b = &st.cur.f.blocks[to as usize];
        if !b.phis.is_empty() {
            for (p, cps) in &b.phis {
                if *p == from {
                    if cps.len() == 1 {
                        let v = self.get(st, cps[0].1);
                        st.cur.regs[cps[0].0 as usize] = v;
                    } else {
                        let mut tmp = std::mem::take(&mut self.tmp);
                        tmp.clear();
                        for (d, o) in cps {
                            tmp.push((*d, self.get(st, *o)));
                        }
                        for (d, v) in &tmp {
                            st.cur.regs[*d as usize] = *v;
                        }
                        self.tmp = tmp;
                    }
                    break;
                }
            }
        }
        st.cur.blk = to;
        st.cur.ip = 0;
    }

    fn step_path(&mut self, st: &mut State, t0: Instant) -> Stop {
        loop {
            match self.steps(st, t0) {
                Ok(()) => {}
                Err(s) => return s,
            }
        }
    }

    fn steps(&mut self, st: &mut State, t0: Instant) -> R<()> {
        let mut budget = 100_000u32;
        loop {
            st.steps += 1;
            budget -= 1;
            if budget == 0 {
                if st.steps > self.lim.max_path_steps {
                    return Err(Stop::Incomplete("path step limit".into()));
                }
                if t0.elapsed() > self.lim.time || Instant::now() > self.lim.deadline {
                    return Err(Stop::Incomplete("time limit inside a path".into()));
                }
                return Ok(());
            }
            let f = st.cur.f;
            let ins = &f.blocks[st.cur.blk as usize].code[st.cur.ip as usize];
            match ins {
                I::Bin(op, w, d, a, b) => {
                    let x = self.getw(st, *a, *w);
                    let y = self.getw(st, *b, *w);
                    let v = match (x, y) {
                        (Val::C(x), Val::C(y)) => {
                            let m = if *w >= 64 { u64::MAX } else { (1u64 << *w) - 1 };
                            Val::C(match op {
                                BinOp::Add => x.wrapping_add(y) & m,
                                BinOp::Sub => x.wrapping_sub(y) & m,
                                BinOp::Mul => x.wrapping_mul(y) & m,
                                BinOp::And => x & y,
                                BinOp::Or => x | y,
                                BinOp::Xor => x ^ y,
                                BinOp::UDiv | BinOp::URem if y == 0 => {
                                    return Err(Stop::Viol("divzero".into(), 0, "division by zero (undefined)".into()))
                                }
                                _ => ev_bin(*op, x as u128, y as u128, *w) as u64,
                            })
                        }
                        _ => {
                            let x = self.norm(x, *w);
                            let y = self.norm(y, *w);
                            self.x.bin(*op, *w, x, y)
                        }
                    };
                    st.cur.regs[*d as usize] = v;
                }
                I::ICmp(p, w, d, a, b) => {
                    let x = self.getw(st, *a, *w);
                    let y = self.getw(st, *b, *w);
                    let v = match (x, y) {
                        (Val::C(x), Val::C(y)) => Val::C(match p {
                            Pred::Eq => x == y,
                            Pred::Ne => x != y,
                            Pred::Ult => x < y,
                            Pred::Ule => x <= y,
                            Pred::Ugt => x > y,
                            Pred::Uge => x >= y,
                            _ => ev_cmp(*p, x as u128, y as u128, *w),
                        } as u64),
                        _ => {
                            let x = self.norm(x, *w);
                            let y = self.norm(y, *w);
                            self.x.cmp(*p, *w, x, y)
                        }
                    };
                    st.cur.regs[*d as usize] = v;
                }
                I::Gep(d, base, off, idx) => {
                    let mut v = self.get(st, *base);
                    if let Val::C(b) = v {
                        let mut acc = b.wrapping_add(*off as u64);
                        let mut sym = false;
                        for (o, w, sc) in idx.iter() {
                            match self.get(st, *o) {
                                Val::C(i) => acc = acc.wrapping_add((sext(i as u128, *w) as i64 as u64).wrapping_mul(*sc as u64)),
                                _ => sym = true,
                            }
                        }
                        v = Val::C(acc);
                        if sym {
                            for (o, w, sc) in idx.iter() {
                                let i = self.get(st, *o);
                                if let Val::E(_) = i {
                                    let i = self.x.sext_(i, *w, 64);
                                    let m = self.x.bin(BinOp::Mul, 64, i, Val::C(*sc as u64));
                                    v = self.x.bin(BinOp::Add, 64, v, m);
                                }
                            }
                        }
                    } else {
                        v = self.x.bin(BinOp::Add, 64, v, Val::C(*off as u64));
                        for (o, w, sc) in idx.iter() {
                            let i = self.get(st, *o);
                            let i = self.x.sext_(i, *w, 64);
                            let m = self.x.bin(BinOp::Mul, 64, i, Val::C(*sc as u64));
                            v = self.x.bin(BinOp::Add, 64, v, m);
                        }
                    }
                    st.cur.regs[*d as usize] = v;
                }
                I::Load1(d, p, w) => {
                    let p = self.get(st, *p);
                    let v = match p {
                        Val::C(a) => self.load(st, a, *w)?,
                        _ => self.load_sym(st, p, *w)?,
                    };
                    st.cur.regs[*d as usize] = v;
                }
                I::Load(d, p, fl) => {
                    let p = self.get(st, *p);
                    let a = self.concretize(st, p, 64)?;
                    for (k, (o, w)) in fl.iter().enumerate() {
                        let v = self.load(st, a + o, *w)?;
                        st.cur.regs[*d as usize + k] = v;
                    }
                }
                I::Store1(p, w, v) => {
                    let p = self.get(st, *p);
                    let a = self.concretize(st, p, 64)?;
                    let v = self.getw(st, *v, *w);
                    let v = self.norm(v, *w);
                    self.store(st, a, *w, v)?;
                }
                I::Store(p, fl) => {
                    let p = self.get(st, *p);
                    let a = self.concretize(st, p, 64)?;
                    for (o, w, v) in fl.iter() {
                        let v = self.getw(st, *v, *w);
                        let v = self.norm(v, *w);
                        self.store(st, a + o, *w, v)?;
                    }
                }
                I::Cast(k, fw, tw, d, a) => {
                    let x = self.getw(st, *a, *fw);
                    let v = self.cast(*k, *fw, *tw, x);
                    st.cur.regs[*d as usize] = v;
                }
                I::CastV(k, fw, tw, d, a) => {
                    for (i, o) in a.iter().enumerate() {
                        let x = self.getw(st, *o, *fw);
                        let v = self.cast(*k, *fw, *tw, x);
                        st.cur.regs[*d as usize + i] = v;
                    }
                }
                I::Bitcast(fw, a, tw, d, lanes) => {
                    let mut acc: Option<(Val, u16)> = None;
                    for o in a.iter().rev() {
                        let x = self.getw(st, *o, *fw);
                        acc = Some(match acc {
                            None => (x, *fw),
                            Some((h, wh)) => (self.x.concat(h, wh, x, *fw), wh + fw),
                        });
                    }
                    let (v, w) = acc.unwrap();
                    for i in 0..*lanes {
                        let p = self.x.extract(v, i as u16 * tw, *tw, w);
                        st.cur.regs[(*d + i) as usize] = p;
                    }
                }
                I::BinV(op, w, d, a, b) => {
                    let mut out = Vec::with_capacity(a.len());
                    for (x, y) in a.iter().zip(b.iter()) {
                        let x = self.getw(st, *x, *w);
                        let y = self.getw(st, *y, *w);
                        out.push(self.x.bin(*op, *w, x, y));
                    }
                    for (i, v) in out.into_iter().enumerate() {
                        st.cur.regs[*d as usize + i] = v;
                    }
                }
                I::ICmpV(p, w, d, a, b) => {
                    let mut out = Vec::with_capacity(a.len());
                    for (x, y) in a.iter().zip(b.iter()) {
                        let x = self.getw(st, *x, *w);
                        let y = self.getw(st, *y, *w);
                        out.push(self.x.cmp(*p, *w, x, y));
                    }
                    for (i, v) in out.into_iter().enumerate() {
                        st.cur.regs[*d as usize + i] = v;
                    }
                }
                I::Select(d, c, prs, isptr) => {
                    let cv = self.get(st, *c);
                    match cv {
                        Val::C(k) => {
                            let mut out = smallvec(prs.len());
                            for (a, b, w) in prs.iter() {
                                out.push(self.getw(st, if k & 1 != 0 { *a } else { *b }, *w));
                            }
                            for (i, v) in out.into_iter().enumerate() {
                                st.cur.regs[*d as usize + i] = v;
                            }
                        }
                        Val::E(_) => {
                            let mut split = *isptr;
                            if prs.len() == 1 && !split {
                                // length-like selects (64-bit, distinct constants) stay symbolic
                                split = false;
                            }
                            if split {
                                let (a, b, w) = prs[0];
                                let x = self.getw(st, a, w);
                                let y = self.getw(st, b, w);
                                if let (Val::C(p), Val::C(q)) = (x, y) {
                                    if p == q {
                                        st.cur.regs[*d as usize] = x;
                                        st.cur.ip += 1;
                                        continue;
                                    }
                                }
                                let k = self.truth(st, cv)?;
                                st.cur.regs[*d as usize] = if k { x } else { y };
                            } else {
                                let mut out = smallvec(prs.len());
                                for (a, b, w) in prs.iter() {
                                    let x = self.getw(st, *a, *w);
                                    let y = self.getw(st, *b, *w);
                                    let x = self.norm(x, *w);
                                    let y = self.norm(y, *w);
                                    out.push(self.x.ite(cv, x, y, *w));
                                }
                                for (i, v) in out.into_iter().enumerate() {
                                    st.cur.regs[*d as usize + i] = v;
                                }
                            }
                        }
                    }
                }
                I::SelectV(d, c, prs) => {
                    let mut out = vec![];
                    for (c, (a, b, w)) in c.iter().zip(prs.iter()) {
                        let c = self.get(st, *c);
                        let x = self.getw(st, *a, *w);
                        let y = self.getw(st, *b, *w);
                        out.push(self.x.ite(c, x, y, *w));
                    }
                    for (i, v) in out.into_iter().enumerate() {
                        st.cur.regs[*d as usize + i] = v;
                    }
                }
                I::Alloca(d, sz, al) => {
                    let a = st.sp.div_ceil(*al) * *al;
                    st.sp = a + (*sz).max(1);
                    if st.sp >= STACK + MAXSTACK {
                        return Err(Stop::Viol("stack".into(), 0, "stack overflow".into()));
                    }
                    st.cur.regs[*d as usize] = Val::C(a);
                }
                I::Copy(d, ops) => {
                    if ops.len() == 1 {
                        let v = self.get(st, ops[0]);
                        st.cur.regs[*d as usize] = v;
                    } else {
                        let mut tmp = Vec::with_capacity(ops.len());
                        for o in ops.iter() {
                            tmp.push(self.get(st, *o));
                        }
                        for (i, v) in tmp.into_iter().enumerate() {
                            st.cur.regs[*d as usize + i] = v;
                        }
                    }
                }
                I::ExtractElt(d, ops, i, _w) => {
                    let i = self.get(st, *i);
                    let i = self.concretize(st, i, 64)?;
                    let v = self.get(st, ops[i as usize]);
                    st.cur.regs[*d as usize] = v;
                }
                I::InsertElt(d, ops, e, i, _w) => {
                    let i = self.get(st, *i);
                    let i = self.concretize(st, i, 64)?;
                    let mut tmp: Vec<Val> = Vec::with_capacity(ops.len());
                    for o in ops.iter() {
                        tmp.push(self.get(st, *o));
                    }
                    tmp[i as usize] = self.get(st, *e);
                    for (k, v) in tmp.into_iter().enumerate() {
                        st.cur.regs[*d as usize + k] = v;
                    }
                }
                I::Br(b) => {
                    self.jump(st, *b);
                    continue;
                }
                I::CondBr(c, a, b) => {
                    let v = self.get(st, *c);
                    let k = self.truth(st, v)?;
                    self.jump(st, if k { *a } else { *b });
                    continue;
                }
                I::Switch(c, w, def, cases) => {
                    let v = self.get(st, *c);
                    let to = match v {
                        Val::C(k) => cases.iter().find(|(x, _)| *x == k).map(|x| x.1).unwrap_or(*def),
                        Val::E(_) => self.sym_switch(st, v, *w, *def, cases)?,
                    };
                    self.jump(st, to);
                    continue;
                }
                I::Ret(ops) => {
                    let mut vals = smallvec(ops.len());
                    for o in ops.iter() {
                        vals.push(self.get(st, *o));
                    }
                    match st.frames.pop() {
                        None => {
                            // the result of a top-level helper is smuggled out in hp
                            if let Some(Val::C(v)) = vals.first() {
                                st.hp = *v;
                            }
                            return Err(Stop::Done);
                        }
                        Some(fr) => {
                            let parent = Rc::try_unwrap(fr).unwrap_or_else(|r| (*r).clone());
                            let done = std::mem::replace(&mut st.cur, parent);
                            st.sp = done.sp;
                            for (i, v) in vals.into_iter().enumerate() {
                                if (i as u32) < done.nd {
                                    st.cur.regs[done.dst as usize + i] = v;
                                }
                            }
                            continue;
                        }
                    }
                }
                I::Unreachable => return Err(Stop::Viol("unreachable".into(), 0, "unreachable code reached".into())),
                I::Fl(k, fw, tw, d, ops) => {
                    let mut out = smallvec(ops.len());
                    for (a, b) in ops.iter() {
                        let x = self.getw(st, *a, *fw);
                        let y = self.getw(st, *b, *fw);
                        let x = self.pick(st, x, *fw)?;
                        let y = self.pick(st, y, *fw)?;
                        out.push(Val::C(fl_op(k, *fw, *tw, x, y, 0)));
                    }
                    for (i, v) in out.into_iter().enumerate() {
                        st.cur.regs[*d as usize + i] = v;
                    }
                }
                I::Bad(s) => return Err(Stop::Err(format!("unsupported instruction: {s}"))),
                I::Rmw(k, d, p, v, w) => {
                    let p = self.get(st, *p);
                    let a = self.concretize(st, p, 64)?;
                    let old = self.load(st, a, *w)?;
                    let v = self.get(st, *v);
                    let n = match *k {
                        "add" => self.x.bin(BinOp::Add, *w, old, v),
                        "sub" => self.x.bin(BinOp::Sub, *w, old, v),
                        "and" => self.x.bin(BinOp::And, *w, old, v),
                        "or" => self.x.bin(BinOp::Or, *w, old, v),
                        "xor" => self.x.bin(BinOp::Xor, *w, old, v),
                        "xchg" => v,
                        _ => return Err(Stop::Err("atomicrmw".into())),
                    };
                    self.store(st, a, *w, n)?;
                    st.cur.regs[*d as usize] = old;
                }
                I::CmpXchg(d, p, a, b, w) => {
                    let p = self.get(st, *p);
                    let ad = self.concretize(st, p, 64)?;
                    let old = self.load(st, ad, *w)?;
                    let a = self.get(st, *a);
                    let b = self.get(st, *b);
                    let eq = self.x.cmp(Pred::Eq, *w, old, a);
                    let ok = self.truth(st, eq)?;
                    if ok {
                        self.store(st, ad, *w, b)?;
                    }
                    st.cur.regs[*d as usize] = old;
                    st.cur.regs[*d as usize + 1] = Val::C(ok as u64);
                }
                I::Call { callee, args, widths, dst, nd, .. } => {
                    match callee {
                        Callee::Intr(i) => self.intrinsic(st, *i, args, widths, *dst, *nd)?,
                        Callee::Fn(fi) => {
                            if self.call_fn(st, *fi, args, *dst, *nd)? {
                                continue;
                            }
                        }
                        Callee::Ext(e) => self.external(st, *e, args, widths, *dst, *nd)?,
                        Callee::Ind(o) => {
                            let p = self.get(st, *o);
                            let a = self.concretize(st, p, 64)?;
                            if a >= EXT_BASE && a < EXT_BASE + 16 * self.p.exts.len() as u64 {
                                let e = ((a - EXT_BASE) / 16) as u32;
                                self.external(st, e, args, widths, *dst, *nd)?;
                            } else if a >= FN_BASE && a < FN_BASE + 16 * self.p.m.fns.len() as u64 {
                                if self.call_fn(st, ((a - FN_BASE) / 16) as u32, args, *dst, *nd)? {
                                    continue;
                                }
                            } else {
                                return Err(Stop::Viol("memory".into(), 0, format!("call to invalid address {a:#x}")));
                            }
                        }
                    }
                }
            }
            st.cur.ip += 1;
        }
    }

    fn cast(&mut self, k: Cast, fw: u16, tw: u16, x: Val) -> Val {
        match k {
            Cast::Copy => x,
            Cast::T => match x {
                Val::C(c) => Val::C(c & mask128(tw) as u64),
                _ => {
                    let x = self.norm(x, fw);
                    self.x.extract(x, 0, tw, fw)
                }
            },
            Cast::Z => match x {
                Val::C(_) if tw <= 64 => x,
                _ => self.x.zext(x, fw, tw),
            },
            Cast::S => match x {
                Val::C(c) if tw <= 64 => Val::C((sext(c as u128, fw) as u64) & mask128(tw) as u64),
                _ => self.x.sext_(x, fw, tw),
            },
        }
    }

    fn sym_switch(&mut self, st: &mut State, v: Val, w: u16, def: u32, cases: &[(u64, u32)]) -> R<u32> {
        let Val::E(e) = v else { unreachable!() };
        let (lo, hi) = self.x.range(e);
        let mut targets: Vec<u32> = vec![];
        for (_, t) in cases {
            if *t != def && !targets.contains(t) {
                targets.push(*t);
            }
        }
        for t in targets {
            let mut c = Val::C(0);
            for (k, tt) in cases {
                if *tt == t && (*k as u128) >= lo && (*k as u128) <= hi {
                    let eq = self.x.cmp(Pred::Eq, w, v, Val::C(*k));
                    c = self.x.bin(BinOp::Or, 1, c, eq);
                }
            }
            let b = match c {
                Val::C(x) => x != 0,
                Val::E(ce) => self.fork_bool(st, ce)?,
            };
            if b {
                return Ok(t);
            }
        }
        Ok(def)
    }

    fn call_fn(&mut self, st: &mut State, fi: u32, args: &[Op], dst: u32, nd: u32) -> R<bool> {
        match self.p.kinds[fi as usize] {
            Kind::Panic => {
                let mut msg = String::new();
                // the caller location is usually the last pointer argument
                for o in args.iter().rev() {
                    if let Val::C(a) = self.get(st, *o) {
                        if let Some(l) = self.location(st, a) {
                            msg = l;
                            break;
                        }
                    }
                }
                if msg.is_empty() {
                    msg = st.cur.f.name.clone();
                }
                Err(Stop::Viol("panic".into(), 0, msg))
            }
            Kind::HashKeys => {
                for k in 0..nd {
                    st.cur.regs[(dst + k) as usize] = Val::C(0x1234_5678 + k as u64);
                }
                Ok(false)
            }
            Kind::Normal => {
                let f = self.func(fi);
                self.r.fns.insert(fi);
                let mut regs = Vec::with_capacity(f.nregs as usize);
                for o in args.iter() {
                    regs.push(self.get(st, *o));
                }
                if st.frames.len() > 4000 {
                    return Err(Stop::Viol("stack".into(), 0, "call depth".into()));
                }
                regs.resize(f.nregs as usize, Val::C(0));
                st.cur.ip += 1;
                let nf = Frame { f, regs, blk: 0, ip: 0, dst, nd, sp: st.sp };
                let old = std::mem::replace(&mut st.cur, nf);
                st.frames.push(Rc::new(old));
                Ok(true)
            }
        }
    }

    /// core::panic::Location { &str file, line: u32, col: u32 }
    fn location(&self, st: &State, a: u64) -> Option<String> {
        if a < GLOBAL_BASE || a >= HEAP {
            return None;
        }
        let p = st.mem.read_c(a, 8).ok()??;
        let n = st.mem.read_c(a + 8, 8).ok()??;
        let line = st.mem.read_c(a + 16, 4).ok()??;
        let col = st.mem.read_c(a + 20, 4).ok()??;
        if n == 0 || n > 300 || line == 0 || line > 100_000 || col > 10_000 || p < GLOBAL_BASE || p >= HEAP {
            return None;
        }
        let mut s = vec![];
        for i in 0..n {
            s.push(st.mem.byte(p + i).ok()?.0);
        }
        let s = String::from_utf8(s).ok()?;
        if !s.ends_with(".rs") {
            return None;
        }
        Some(format!("{s}:{line}:{col}"))
    }

    fn alloc(&mut self, st: &mut State, n: u64, al: u64) -> R<u64> {
        let al = al.max(16);
        let a = (st.hp + 16).div_ceil(al) * al;
        st.hp = a + n.max(1);
        if n > MAXHEAP || st.hp >= HEAP + MAXHEAP {
            return Err(Stop::Incomplete("heap limit".into()));
        }
        st.mem.write_c(a - 8, 8, n)?;
        Ok(a)
    }

    fn sym_byte(&mut self, st: &State, a: u64) -> R<Val> {
        let (b, s) = st.mem.byte(a)?;
        Ok(if s != 0 { self.byteval(s) } else { Val::C(b as u64) })
    }

    fn external(&mut self, st: &mut State, e: u32, args: &[Op], widths: &[u16], dst: u32, nd: u32) -> R<()> {
        let k = self.p.exts[e as usize];
        // every argument that matters structurally must be concrete
        let mut v: Vec<Val> = vec![];
        for o in args {
            v.push(self.get(st, *o));
        }
        let conc_all = !matches!(k, Ext::SymAssume | Ext::SymAssert | Ext::Memset);
        let mut c: Vec<u64> = vec![];
        for (i, x) in v.iter().enumerate() {
            if conc_all || (k == Ext::Memset && i != 1) || (k == Ext::SymAssert && i == 1) {
                c.push(self.concretize(st, *x, widths[i])?);
            } else {
                c.push(0);
            }
        }
        let mut ret: u64 = 0;
        match k {
            Ext::Malloc => ret = self.alloc(st, c[0], 16)?,
            Ext::Calloc => ret = self.alloc(st, c[0].saturating_mul(c[1]), 16)?,
            Ext::AlignedAlloc => ret = self.alloc(st, c[1], c[0])?,
            Ext::PosixMemalign => {
                let a = self.alloc(st, c[2], c[1])?;
                st.mem.write_c(c[0], 8, a)?;
            }
            Ext::Realloc => {
                let old = if c[0] == 0 { 0 } else { st.mem.read_c(c[0] - 8, 8)?.unwrap_or(0) };
                if c[0] != 0 && st.hp == c[0] + old.max(1) && c[0] + c[1] < HEAP + MAXHEAP {
                    // last block: grow in place
                    st.hp = c[0] + c[1].max(1);
                    st.mem.write_c(c[0] - 8, 8, c[1])?;
                    ret = c[0];
                } else {
                    ret = self.alloc(st, c[1], 16)?;
                    st.mem.copy(ret, c[0], old.min(c[1]))?;
                }
            }
            Ext::Free => {}
            Ext::Memcpy => {
                st.mem.copy(c[0], c[1], c[2])?;
                ret = c[0];
            }
            Ext::Memset => {
                self.memset(st, c[0], v[1], c[2])?;
                ret = c[0];
            }
            Ext::Bcmp | Ext::Memcmp => {
                let r = self.compare(st, c[0], c[1], c[2], k == Ext::Bcmp)?;
                if nd > 0 {
                    st.cur.regs[dst as usize] = r;
                }
                return Ok(());
            }
            Ext::Memchr => {
                let mut i = 0;
                ret = 0;
                while i < c[2] {
                    let b = self.sym_byte(st, c[0] + i)?;
                    let eq = self.x.cmp(Pred::Eq, 8, b, Val::C(c[1] & 0xff));
                    if self.truth(st, eq)? {
                        ret = c[0] + i;
                        break;
                    }
                    i += 1;
                }
            }
            Ext::Strlen => {
                let mut i = 0;
                loop {
                    let b = self.sym_byte(st, c[0] + i)?;
                    let eq = self.x.cmp(Pred::Eq, 8, b, Val::C(0));
                    if self.truth(st, eq)? {
                        break;
                    }
                    i += 1;
                }
                ret = i;
            }
            Ext::Getenv => ret = 0,
            Ext::Write => ret = c[2],
            Ext::Abort => return Err(Stop::Viol("abort".into(), 0, st.cur.f.name.clone())),
            Ext::SymMake => {
                for i in 0..c[1] {
                    if self.x.doms.len() >= 64 {
                        return Err(Stop::Err("more than 64 symbolic bytes".into()));
                    }
                    let id = self.x.new_var();
                    st.model.push(b'0');
                    st.mem.set(c[0] + i, 0, id)?;
                }
                self.r.nsym = self.r.nsym.max(self.x.doms.len() as u32);
                self.bump();
            }
            Ext::SymAssume => match v[0] {
                Val::C(k) => {
                    if k & 1 == 0 {
                        return Err(Stop::Assumed);
                    }
                }
                Val::E(e) => self.assume(st, e)?,
            },
            Ext::SymAssert => match v[0] {
                Val::C(k) => {
                    if k & 1 == 0 {
                        return Err(Stop::Viol("assert".into(), c[1] as u32, String::new()));
                    }
                    self.r.asserts_path += 1;
                }
                Val::E(e) if st.known.get(&e) == Some(&false) => return Err(Stop::Assumed),
                Val::E(e) => {
                    // the verdict over every remaining value is z3's
                    match self.query(st, e, false) {
                        Res::Unsat => {
                            self.r.asserts_solver += 1;
                            st.known.insert(e, true);
                        }
                        Res::Sat(m) => {
                            let mut bad = st.clone();
                            for (v, b) in &m {
                                bad.model[*v as usize] = *b;
                            }
                            let bad_id = c[1] as u32;
                            self.add_viol(&bad, "assert".into(), bad_id, String::new());
                            // continue on the side where it holds
                            if !self.fork_bool(st, e)? {
                                return Err(Stop::Assumed);
                            }
                        }
                        Res::Unknown => {
                            self.r.complete = false;
                            self.r.why = "solver timeout on an assertion".into();
                        }
                    }
                }
            },
            Ext::SymKnown => return Err(Stop::Known(c[0] as u32)),
            Ext::SymTrace => {
                let mut t = vec![];
                for i in 0..c[1] {
                    t.push(self.sym_byte(st, c[0] + i)?);
                }
                st.trace.push(t);
            }
            Ext::SymReach => st.reach.push(c[0] as u32),
            Ext::Other => return Err(Stop::Err(format!("external function {}", self.p.m.exts[e as usize]))),
        }
        if nd > 0 {
            st.cur.regs[dst as usize] = Val::C(ret);
        }
        Ok(())
    }

    fn assume(&mut self, st: &mut State, e: Id) -> R<()> {
        self.x.begin_eval();
        if self.x.eval(e, &st.model) & 1 == 1 {
            self.add_constraint(st, e, true);
            return Ok(());
        }
        match self.query(st, e, true) {
            Res::Sat(m) => {
                for (v, b) in m {
                    st.model[v as usize] = b;
                }
                self.add_constraint(st, e, true);
                Ok(())
            }
            Res::Unsat => Err(Stop::Assumed),
            Res::Unknown => Err(Stop::Incomplete("solver timeout on an assumption".into())),
        }
    }

    fn memset(&mut self, st: &mut State, d: u64, v: Val, n: u64) -> R<()> {
        let (b, s) = match v {
            Val::C(c) => (c as u8, 0),
            Val::E(e) => {
                let w = self.x.width[e as usize];
                match self.x.extract(v, 0, 8, w) {
                    Val::C(c) => (c as u8, 0),
                    Val::E(e) => (0, e),
                }
            }
        };
        for i in 0..n {
            st.mem.set(d + i, b, s)?;
        }
        Ok(())
    }

    fn compare(&mut self, st: &mut State, a: u64, b: u64, n: u64, eq_only: bool) -> R<Val> {
        if eq_only {
            let mut acc = Val::C(1);
            // a concrete mismatch anywhere decides
            for i in 0..n {
                let (x, sx) = st.mem.byte(a + i)?;
                let (y, sy) = st.mem.byte(b + i)?;
                if sx == 0 && sy == 0 && x != y {
                    return Ok(Val::C(1));
                }
            }
            for i in 0..n {
                let x = self.sym_byte(st, a + i)?;
                let y = self.sym_byte(st, b + i)?;
                let e = self.x.cmp(Pred::Eq, 8, x, y);
                acc = self.x.bin(BinOp::And, 1, acc, e);
                if let Val::C(0) = acc {
                    return Ok(Val::C(1));
                }
            }
            return Ok(self.x.ite(acc, Val::C(0), Val::C(1), 32));
        }
        let mut r = Val::C(0);
        for i in (0..n).rev() {
            let x = self.sym_byte(st, a + i)?;
            let y = self.sym_byte(st, b + i)?;
            let e = self.x.cmp(Pred::Eq, 8, x, y);
            let l = self.x.cmp(Pred::Ult, 8, x, y);
            let d = self.x.ite(l, Val::C(0xffff_ffff), Val::C(1), 32);
            r = self.x.ite(e, r, d, 32);
        }
        Ok(r)
    }

    fn intrinsic(&mut self, st: &mut State, k: Intr, args: &[Op], widths: &[u16], dst: u32, nd: u32) -> R<()> {
        let w = widths.first().copied().unwrap_or(64);
        let mut v: Vec<Val> = vec![];
        for (i, o) in args.iter().enumerate() {
            let x = self.getw(st, *o, widths[i]);
            v.push(self.norm(x, widths[i]));
        }
        // element-wise intrinsics on vectors: arguments are flattened lane-major per operand
        let lanes = match k {
            Intr::UMax | Intr::UMin | Intr::SMax | Intr::SMin | Intr::USubSat | Intr::UAddSat => args.len() / 2,
            Intr::Ctpop | Intr::Bswap | Intr::BitReverse => args.len(),
            _ => 1,
        };
        if lanes > 1 {
            let mut out = vec![];
            for l in 0..lanes {
                let r = match k {
                    Intr::Ctpop | Intr::Bswap | Intr::BitReverse => {
                        let c = self.concretize(st, v[l], w)?;
                        Val::C(unary_c(k, c, w))
                    }
                    _ => self.minmax(k, w, v[l], v[l + lanes]),
                };
                out.push(r);
            }
            for (i, r) in out.into_iter().enumerate() {
                st.cur.regs[dst as usize + i] = r;
            }
            return Ok(());
        }
        let r: Val = match k {
            Intr::Nop => return Ok(()),
            Intr::Memcpy => {
                let d = self.concretize(st, v[0], 64)?;
                let s = self.concretize(st, v[1], 64)?;
                let n = self.concretize(st, v[2], widths[2])?;
                st.mem.copy(d, s, n)?;
                return Ok(());
            }
            Intr::Memset => {
                let d = self.concretize(st, v[0], 64)?;
                let n = self.concretize(st, v[2], widths[2])?;
                self.memset(st, d, v[1], n)?;
                return Ok(());
            }
            Intr::IsConstant => Val::C(0),
            Intr::UMax | Intr::UMin | Intr::SMax | Intr::SMin | Intr::USubSat | Intr::UAddSat => self.minmax(k, w, v[0], v[1]),
            Intr::Abs => {
                let z = self.x.konst(0, w);
                let neg = self.x.bin(BinOp::Sub, w, z, v[0]);
                let c = self.x.cmp(Pred::Slt, w, v[0], z);
                self.x.ite(c, neg, v[0], w)
            }
            Intr::BitReverse | Intr::Ctlz | Intr::Cttz | Intr::Ctpop | Intr::Bswap => {
                if let Val::E(e) = v[0] {
                    if self.x.cval(v[0]).is_none() {
                        if let (Some(_), true) = (self.x.single_var(e), w <= 64) {
                            // exact table over the byte
                            let vs = self.x.vals(e).unwrap();
                            let t: Vec<u64> = vs.iter().map(|c| unary_c(k, *c, w)).collect();
                            let var = self.x.var_ids[self.x.single_var(e).unwrap() as usize];
                            let r = self.x.mk_table(Val::E(var), 8, t, w);
                            st.cur.regs[dst as usize] = r;
                            return Ok(());
                        }
                    }
                }
                if w > 64 {
                    let Some(c) = self.x.cval(v[0]) else { return Err(Stop::Err("wide bit intrinsic".into())) };
                    let r = match k {
                        Intr::Ctlz => (c.leading_zeros() as u16 - (128 - w)) as u128,
                        Intr::Cttz => (c.trailing_zeros()).min(w as u32) as u128,
                        _ => return Err(Stop::Err("wide bit intrinsic".into())),
                    };
                    self.x.konst(r, w)
                } else {
                    // bit scans of multi-byte values: case-split on the result
                    if matches!(k, Intr::Ctlz | Intr::Cttz) {
                        self.scan(st, k, v[0], w)?
                    } else if k == Intr::Bswap {
                        let mut acc: Option<(Val, u16)> = None;
                        for i in 0..w / 8 {
                            let b = self.x.extract(v[0], i * 8, 8, w);
                            acc = Some(match acc {
                                None => (b, 8),
                                Some((h, wh)) => (self.x.concat(h, wh, b, 8), wh + 8),
                            });
                        }
                        acc.unwrap().0
                    } else if k == Intr::Ctpop {
                        let mut acc = Val::C(0);
                        for i in 0..w {
                            let b = self.x.extract(v[0], i, 1, w);
                            let b = self.x.zext(b, 1, w);
                            acc = self.x.bin(BinOp::Add, w, acc, b);
                        }
                        acc
                    } else {
                        let mut acc: Option<(Val, u16)> = None;
                        for i in 0..w {
                            let b = self.x.extract(v[0], i, 1, w);
                            acc = Some(match acc {
                                None => (b, 1),
                                Some((h, wh)) => (self.x.concat(h, wh, b, 1), wh + 1),
                            });
                        }
                        acc.unwrap().0
                    }
                }
            }
            Intr::Fshl | Intr::Fshr => {
                let n = (self.concretize(st, v[2], w)? % w as u64) as u16;
                let n = if k == Intr::Fshl { n } else { (w - n) % w };
                if k == Intr::Fshr && n == 0 {
                    v[1]
                } else if n == 0 {
                    v[0]
                } else {
                    let h = self.x.extract(v[0], 0, w - n, w);
                    let l = self.x.extract(v[1], w - n, n, w);
                    self.x.concat(h, w - n, l, n)
                }
            }
            Intr::UAddO | Intr::USubO | Intr::UMulO | Intr::SAddO | Intr::SSubO | Intr::SMulO => {
                let (op, signed) = match k {
                    Intr::UAddO => (BinOp::Add, false),
                    Intr::USubO => (BinOp::Sub, false),
                    Intr::UMulO => (BinOp::Mul, false),
                    Intr::SAddO => (BinOp::Add, true),
                    Intr::SSubO => (BinOp::Sub, true),
                    _ => (BinOp::Mul, true),
                };
                let r = self.x.bin(op, w, v[0], v[1]);
                let r = self.norm(r, w);
                let o = if !signed && op == BinOp::Add {
                    self.x.cmp(Pred::Ult, w, r, v[0])
                } else if !signed && op == BinOp::Sub {
                    self.x.cmp(Pred::Ult, w, v[0], v[1])
                } else {
                    let ew = if op == BinOp::Mul { 2 * w } else { w + 1 };
                    if ew > 128 {
                        match (self.x.cval(v[0]), self.x.cval(v[1])) {
                            (Some(a), Some(b)) => Val::C(!signed as u64 * a.checked_mul(b).map_or(1, |p| (p > mask128(w)) as u64)),
                            _ => return Err(Stop::Err("wide overflow intrinsic".into())),
                        }
                    } else {
                        let ext = |s: &mut Self, x: Val| if signed { s.x.sext_(x, w, ew) } else { s.x.zext(x, w, ew) };
                        let a = ext(self, v[0]);
                        let b = ext(self, v[1]);
                        let a = self.norm(a, ew);
                        let b = self.norm(b, ew);
                        let full = self.x.bin(op, ew, a, b);
                        let full = self.norm(full, ew);
                        let back = ext(self, r);
                        let back = self.norm(back, ew);
                        self.x.cmp(Pred::Ne, ew, full, back)
                    }
                };
                st.cur.regs[dst as usize] = r;
                st.cur.regs[dst as usize + 1] = o;
                return Ok(());
            }
            Intr::UCmp | Intr::SCmp => {
                let lt = self.x.cmp(if k == Intr::UCmp { Pred::Ult } else { Pred::Slt }, w, v[0], v[1]);
                let eq = self.x.cmp(Pred::Eq, w, v[0], v[1]);
                // result width: i8 in Rust
                let g = self.x.ite(eq, Val::C(0), Val::C(1), 8);
                self.x.ite(lt, Val::C(0xff), g, 8)
            }
            Intr::Trap => return Err(Stop::Viol("trap".into(), 0, st.cur.f.name.clone())),
            Intr::TlsAddr | Intr::Expect => v[0],
            Intr::ReduceAdd | Intr::ReduceOr | Intr::ReduceAnd | Intr::ReduceXor | Intr::ReduceUMax | Intr::ReduceUMin => {
                let mut acc = v[0];
                for x in &v[1..] {
                    acc = match k {
                        Intr::ReduceAdd => self.x.bin(BinOp::Add, w, acc, *x),
                        Intr::ReduceOr => self.x.bin(BinOp::Or, w, acc, *x),
                        Intr::ReduceAnd => self.x.bin(BinOp::And, w, acc, *x),
                        Intr::ReduceXor => self.x.bin(BinOp::Xor, w, acc, *x),
                        Intr::ReduceUMax => self.minmax(Intr::UMax, w, acc, *x),
                        _ => self.minmax(Intr::UMin, w, acc, *x),
                    };
                }
                acc
            }
            Intr::LoadRel => {
                let off = self.concretize(st, v[1], 64)?;
                let base = self.concretize(st, v[0], 64)?;
                let d = self.load(st, base.wrapping_add(off), 32)?;
                let d = self.concretize(st, d, 32)?;
                Val::C(base.wrapping_add(d as u32 as i32 as i64 as u64))
            }
            Intr::Fl(n) => {
                let nw = widths.last().copied().unwrap_or(w);
                if nd != 1 {
                    return Err(Stop::Err("floating point operation on a vector".into()));
                }
                let mut c = [0u64; 3];
                for (i, x) in v.iter().take(3).enumerate() {
                    c[i] = self.pick(st, *x, widths[i])?;
                }
                let to = match n {
                    "fptosi" | "fptoui" => nw,
                    _ => w,
                };
                Val::C(fl_op(n, w, to, c[0], c[1], c[2]))
            }
            Intr::Unsupported => return Err(Stop::Err("unsupported intrinsic".into())),
        };
        if nd > 0 {
            st.cur.regs[dst as usize] = r;
        }
        Ok(())
    }

    fn scan(&mut self, st: &mut State, k: Intr, v: Val, w: u16) -> R<Val> {
        for i in 0..w {
            let bit = if k == Intr::Ctlz { w - 1 - i } else { i };
            let b = self.x.extract(v, bit, 1, w);
            if self.truth(st, b)? {
                return Ok(Val::C(i as u64));
            }
        }
        Ok(Val::C(w as u64))
    }

    fn minmax(&mut self, k: Intr, w: u16, a: Val, b: Val) -> Val {
        match k {
            Intr::UMax => {
                let c = self.x.cmp(Pred::Ult, w, a, b);
                self.x.ite(c, b, a, w)
            }
            Intr::UMin => {
                let c = self.x.cmp(Pred::Ult, w, a, b);
                self.x.ite(c, a, b, w)
            }
            Intr::SMax => {
                let c = self.x.cmp(Pred::Slt, w, a, b);
                self.x.ite(c, b, a, w)
            }
            Intr::SMin => {
                let c = self.x.cmp(Pred::Slt, w, a, b);
                self.x.ite(c, a, b, w)
            }
            Intr::USubSat => {
                let c = self.x.cmp(Pred::Ult, w, a, b);
                let d = self.x.bin(BinOp::Sub, w, a, b);
                let z = self.x.konst(0, w);
                self.x.ite(c, z, d, w)
            }
            _ => {
                let s = self.x.bin(BinOp::Add, w, a, b);
                let c = self.x.cmp(Pred::Ult, w, s, a);
                let m = self.x.konst(mask128(w), w);
                self.x.ite(c, m, s, w)
            }
        }
    }
}

fn unary_c(k: Intr, c: u64, w: u16) -> u64 {
    let m = mask128(w) as u64;
    let c = c & m;
    match k {
        Intr::Ctpop => c.count_ones() as u64,
        Intr::Ctlz => (c.leading_zeros() as u64) - (64 - w as u64),
        Intr::Cttz => (c.trailing_zeros() as u64).min(w as u64),
        Intr::Bswap => c.swap_bytes() >> (64 - w),
        _ => c.reverse_bits() >> (64 - w),
    }
}

fn gcd(a: i128, b: i128) -> i128 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}

fn smallvec(n: usize) -> Vec<Val> {
    Vec::with_capacity(n)
}

/// a floating point operation on bit patterns
fn fl_op(k: &str, fw: u16, tw: u16, a: u64, b: u64, c: u64) -> u64 {
    let out = |x: f64, w: u16| if w == 32 { (x as f32).to_bits() as u64 } else { x.to_bits() };
    let m = mask128(tw) as u64;
    match k {
        "sitofp" => {
            let i = sext(a as u128, fw) as i64;
            return if tw == 32 { (i as f32).to_bits() as u64 } else { (i as f64).to_bits() };
        }
        "uitofp" => return if tw == 32 { (a as f32).to_bits() as u64 } else { (a as f64).to_bits() },
        "fneg" => return a ^ 1 << (fw - 1),
        "fabs" => return a & !(1 << (fw - 1)),
        "copysign" => return a & !(1 << (fw - 1)) | b & 1 << (fw - 1),
        _ => {}
    }
    // doubles hold every single exactly, and one operation rounded twice this way is rounded correctly
    let f = |x: u64| if fw == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) };
    let (x, y, z) = (f(a), f(b), f(c));
    let cmp = |r: bool| r as u64;
    let nan = x.is_nan() || y.is_nan();
    match k {
        "fptosi" => (x.clamp(-(2f64.powi(tw as i32 - 1)), 2f64.powi(tw as i32 - 1) - 1.0) as i64) as u64 & m,
        "fptoui" => (x.clamp(0.0, 2f64.powi(tw as i32) - 1.0) as u64) & m,
        "fpext" => out(x, tw),
        "fadd" => out(x + y, tw),
        "fsub" => out(x - y, tw),
        "fmul" => out(x * y, tw),
        "fdiv" => out(x / y, tw),
        "frem" => out(x % y, tw),
        "floor" => out(x.floor(), tw),
        "ceil" => out(x.ceil(), tw),
        "trunc" => out(x.trunc(), tw),
        "round" => out(x.round(), tw),
        "roundeven" => out(x.round_ties_even(), tw),
        "sqrt" => out(x.sqrt(), tw),
        "min" => out(x.min(y), tw),
        "max" => out(x.max(y), tw),
        "fma" => out(x.mul_add(y, z), tw),
        "fmuladd" => out(x * y + z, tw),
        "powi" => out(x.powi(b as u32 as i32), tw),
        "pow" => out(x.powf(y), tw),
        "exp" => out(x.exp(), tw),
        "exp10" => out(10f64.powf(x), tw),
        "log10" => out(x.log10(), tw),
        "log2" => out(x.log2(), tw),
        "log" => out(x.ln(), tw),
        "coeq" => cmp(x == y),
        "cogt" => cmp(x > y),
        "coge" => cmp(x >= y),
        "colt" => cmp(x < y),
        "cole" => cmp(x <= y),
        "cone" => cmp(!nan && x != y),
        "cord" => cmp(!nan),
        "cueq" => cmp(nan || x == y),
        "cugt" => cmp(nan || x > y),
        "cuge" => cmp(nan || x >= y),
        "cult" => cmp(nan || x < y),
        "cule" => cmp(nan || x <= y),
        "cune" => cmp(x != y),
        "cuno" => cmp(nan),
        "ctrue" => 1,
        _ => 0,
    }
}
