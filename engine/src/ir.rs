//! Parser for the post-LTO textual LLVM IR: globals are laid out and materialised eagerly,
//! function bodies are decoded lazily into a compact register code with all aggregates and
//! vectors flattened into scalar slots.
use std::collections::HashMap;
use std::sync::OnceLock;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Fl(u32),
    Struct(Vec<Ty>, bool),
    Array(Box<Ty>, u64),
    Vector(Box<Ty>, u64),
    Meta,
    Label,
}

fn up(x: u64, a: u64) -> u64 {
    x.div_ceil(a) * a
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(n) => match *n {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Fl(n) => (*n / 8) as u64,
            Ty::Ptr => 8,
            Ty::Struct(f, p) => {
                if *p {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Array(t, _) => t.align(),
            Ty::Vector(..) => self.size().next_power_of_two(),
            _ => 1,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(n) => up((*n as u64).div_ceil(8), self.align()),
            Ty::Fl(n) => (*n / 8) as u64,
            Ty::Ptr => 8,
            Ty::Struct(f, p) => {
                let mut o = 0;
                for t in f {
                    if !*p {
                        o = up(o, t.align());
                    }
                    o += t.size();
                }
                up(o, self.align())
            }
            Ty::Array(t, n) => t.size() * n,
            Ty::Vector(t, n) => match **t {
                Ty::Int(1) => n.div_ceil(8),
                _ => t.size() * n,
            },
            _ => 0,
        }
    }
    /// (byte offset, bit width) of every scalar leaf
    pub fn leaves(&self, base: u64, out: &mut Vec<(u64, u16)>) {
        match self {
            Ty::Int(n) | Ty::Fl(n) => out.push((base, *n as u16)),
            Ty::Ptr => out.push((base, 64)),
            Ty::Struct(f, p) => {
                let mut o = 0;
                for t in f {
                    if !*p {
                        o = up(o, t.align());
                    }
                    t.leaves(base + o, out);
                    o += t.size();
                }
            }
            Ty::Array(t, n) | Ty::Vector(t, n) => {
                for i in 0..*n {
                    t.leaves(base + i * t.size(), out)
                }
            }
            _ => {}
        }
    }
    pub fn flat(&self) -> Vec<(u64, u16)> {
        let mut v = vec![];
        self.leaves(0, &mut v);
        v
    }
    pub fn nslots(&self) -> u32 {
        match self {
            Ty::Int(_) | Ty::Fl(_) | Ty::Ptr => 1,
            Ty::Struct(f, _) => f.iter().map(|t| t.nslots()).sum(),
            Ty::Array(t, n) | Ty::Vector(t, n) => t.nslots() * *n as u32,
            _ => 0,
        }
    }
    pub fn width(&self) -> u16 {
        match self {
            Ty::Int(n) | Ty::Fl(n) => *n as u16,
            Ty::Ptr => 64,
            Ty::Vector(t, _) => t.width(),
            _ => panic!("width of {:?}", self),
        }
    }
    pub fn lanes(&self) -> u32 {
        match self {
            Ty::Vector(_, n) => *n as u32,
            _ => 1,
        }
    }
    fn field(&self, i: u64) -> (&Ty, u32) {
        match self {
            Ty::Struct(f, _) => {
                let s = f[..i as usize].iter().map(|t| t.nslots()).sum();
                (&f[i as usize], s)
            }
            Ty::Array(t, _) | Ty::Vector(t, _) => (t, t.nslots() * i as u32),
            _ => panic!("field of {:?}", self),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Tok<'a> {
    W(&'a str),
    L(&'a str),
    G(&'a str),
    S(&'a str),
    P(u8),
    Meta(&'a str),
    Attr,
    Lab(&'a str),
    Nl,
}

pub fn lex<'a>(s: &'a str, out: &mut Vec<Tok<'a>>) {
    let b = s.as_bytes();
    let mut i = 0;
    let n = b.len();
    let name = |mut i: usize| -> (usize, &'a str) {
        if i < n && b[i] == b'"' {
            let st = i + 1;
            i = st;
            while b[i] != b'"' {
                i += 1
            }
            (i + 1, &s[st..i])
        } else {
            let st = i;
            while i < n && (b[i].is_ascii_alphanumeric() || b"-_.$".contains(&b[i])) {
                i += 1
            }
            (i, &s[st..i])
        }
    };
    let mut bol = true;
    while i < n {
        let c = b[i];
        match c {
            b'\n' => {
                out.push(Tok::Nl);
                i += 1;
                bol = true;
                continue;
            }
            b' ' | b'\t' | b'\r' => i += 1,
            b';' => {
                while i < n && b[i] != b'\n' {
                    i += 1
                }
            }
            b'%' => {
                let (j, s) = name(i + 1);
                out.push(Tok::L(s));
                i = j;
            }
            b'@' => {
                let (j, s) = name(i + 1);
                out.push(Tok::G(s));
                i = j;
            }
            b'!' => {
                let (j, s) = name(i + 1);
                out.push(Tok::Meta(s));
                i = j;
                if s.is_empty() && i < n && b[i] == b'"' {
                    i += 1;
                    while b[i] != b'"' {
                        i += 1
                    }
                    i += 1;
                }
            }
            b'#' => {
                i += 1;
                while i < n && b[i].is_ascii_digit() {
                    i += 1
                }
                out.push(Tok::Attr);
            }
            b'"' => {
                let st = i + 1;
                i = st;
                while b[i] != b'"' {
                    i += 1
                }
                if bol && i + 1 < n && b[i + 1] == b':' {
                    out.push(Tok::Lab(&s[st..i]));
                    i += 2;
                } else {
                    out.push(Tok::S(&s[st..i]));
                    i += 1;
                }
            }
            _ if c.is_ascii_alphanumeric() || b"-_.$".contains(&c) => {
                let (mut j, mut w) = name(i);
                let num = c.is_ascii_digit() || c == b'-' && w.as_bytes().get(1).map_or(false, |x| x.is_ascii_digit());
                if num && w.ends_with('e') && w.contains('.') && j < n && b[j] == b'+' {
                    j = name(j + 1).0;
                    w = &s[i..j];
                }
                if bol && j < n && b[j] == b':' {
                    out.push(Tok::Lab(w));
                    i = j + 1;
                } else if w == "c" && j < n && b[j] == b'"' {
                    let st = j + 1;
                    let mut k = st;
                    while b[k] != b'"' {
                        k += 1
                    }
                    out.push(Tok::S(&s[st..k]));
                    i = k + 1;
                } else {
                    out.push(Tok::W(w));
                    i = j;
                }
            }
            _ => {
                out.push(Tok::P(c));
                i += 1;
            }
        }
        bol = false;
    }
    out.push(Tok::Nl);
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    R(u32),
    C(u64),
    /// constant wider than 64 bits: index into the function's table
    W(u32),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast {
    Z,
    S,
    T,
    Copy,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Ext(u32),
    Ind(Op),
    Intr(Intr),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Intr {
    Nop,
    Memcpy,
    Memset,
    IsConstant,
    UMax,
    UMin,
    SMax,
    SMin,
    USubSat,
    UAddSat,
    BitReverse,
    Ctlz,
    Cttz,
    Ctpop,
    Fshl,
    Fshr,
    Abs,
    UAddO,
    USubO,
    UMulO,
    SAddO,
    SSubO,
    SMulO,
    UCmp,
    SCmp,
    Trap,
    Bswap,
    TlsAddr,
    ReduceAdd,
    ReduceOr,
    ReduceAnd,
    ReduceXor,
    ReduceUMax,
    ReduceUMin,
    LoadRel,
    Expect,
    /// floating point, on concrete values
    Fl(&'static str),
    Unsupported,
}

#[derive(Clone, Debug)]
pub enum I {
    Bin(BinOp, u16, u32, Op, Op),
    BinV(BinOp, u16, u32, Box<[Op]>, Box<[Op]>),
    ICmp(Pred, u16, u32, Op, Op),
    ICmpV(Pred, u16, u32, Box<[Op]>, Box<[Op]>),
    Cast(Cast, u16, u16, u32, Op),
    CastV(Cast, u16, u16, u32, Box<[Op]>),
    /// bitcast between different lane layouts: (from width, ops, to width, dst, lanes)
    Bitcast(u16, Box<[Op]>, u16, u32, u32),
    Select(u32, Op, Box<[(Op, Op, u16)]>, bool),
    SelectV(u32, Box<[Op]>, Box<[(Op, Op, u16)]>),
    Gep(u32, Op, i64, Box<[(Op, u16, i64)]>),
    Load1(u32, Op, u16),
    Load(u32, Op, Box<[(u64, u16)]>),
    Store1(Op, u16, Op),
    Store(Op, Box<[(u64, u16, Op)]>),
    Alloca(u32, u64, u64),
    Copy(u32, Box<[Op]>),
    ExtractElt(u32, Box<[Op]>, Op, u16),
    InsertElt(u32, Box<[Op]>, Op, Op, u16),
    Call { callee: Callee, args: Box<[Op]>, widths: Box<[u16]>, dst: u32, nd: u32, normal: u32 },
    Rmw(&'static str, u32, Op, Op, u16),
    CmpXchg(u32, Op, Op, Op, u16),
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(Op, u16, u32, Box<[(u64, u32)]>),
    Ret(Box<[Op]>),
    Unreachable,
    /// floating point operation on concrete values: (name, operand width, result width, dst, operands per lane)
    Fl(&'static str, u16, u16, u32, Box<[(Op, Op)]>),
    Bad(String),
}

pub struct Block {
    pub code: Vec<I>,
    /// for each predecessor block: parallel copies
    pub phis: Vec<(u32, Vec<(u32, Op)>)>,
}

pub struct Func {
    pub name: String,
    pub demangled: String,
    pub blocks: Vec<Block>,
    pub nregs: u32,
    pub nparams: u32,
    pub wide: Vec<(u128, u16)>,
    pub idx: u32,
}

pub const NOBLK: u32 = u32::MAX;

pub struct FnInfo<'a> {
    pub name: &'a str,
    pub header: &'a str,
    pub body: &'a str,
    pub demangled: &'a str,
    pub code: OnceLock<Box<Func>>,
}

pub struct Module<'a> {
    pub fns: Vec<FnInfo<'a>>,
    pub fn_idx: HashMap<&'a str, u32>,
    pub exts: Vec<&'a str>,
    pub ext_idx: HashMap<&'a str, u32>,
    pub gaddr: HashMap<&'a str, u64>,
    pub gsize: HashMap<&'a str, u64>,
    pub image_base: u64,
    pub image: Vec<u8>,
    pub types: HashMap<&'a str, Ty>,
}

pub const FN_BASE: u64 = 0x0100_0000;
pub const EXT_BASE: u64 = 0x0200_0000;
pub const GLOBAL_BASE: u64 = 0x1000_0000;

pub struct P<'t, 'a> {
    t: &'t [Tok<'a>],
    i: usize,
    m: &'t Module<'a>,
}

impl<'t, 'a> P<'t, 'a> {
    fn peek(&self) -> Tok<'a> {
        self.t.get(self.i).copied().unwrap_or(Tok::Nl)
    }
    fn next(&mut self) -> Tok<'a> {
        let t = self.peek();
        self.i += 1;
        t
    }
    fn isp(&self, c: u8) -> bool {
        self.peek() == Tok::P(c)
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.isp(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            panic!("expected {:?} at {:?}", c as char, &self.t[self.i.saturating_sub(6)..(self.i + 6).min(self.t.len())]);
        }
    }
    fn word(&mut self) -> &'a str {
        match self.next() {
            Tok::W(w) => w,
            t => panic!("expected word, got {:?} near {:?}", t, &self.t[self.i.saturating_sub(8)..(self.i + 6).min(self.t.len())]),
        }
    }
    fn eatw(&mut self, w: &str) -> bool {
        if self.peek() == Tok::W(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn skip_paren(&mut self) {
        let mut d = 0;
        loop {
            match self.next() {
                Tok::P(b'(') => d += 1,
                Tok::P(b')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                Tok::Nl => panic!("skip_paren"),
                _ => {}
            }
        }
    }
    fn skip_line(&mut self) {
        while self.next() != Tok::Nl {}
    }
    fn at_type(&self) -> bool {
        match self.peek() {
            Tok::W(w) => is_ty_word(w),
            Tok::L(_) => true,
            Tok::P(b'{') | Tok::P(b'[') | Tok::P(b'<') => true,
            _ => false,
        }
    }
    fn ty(&mut self) -> Ty {
        match self.next() {
            Tok::W(w) => match w {
                "void" => Ty::Void,
                "ptr" => Ty::Ptr,
                "float" => Ty::Fl(32),
                "double" => Ty::Fl(64),
                "half" => Ty::Fl(16),
                "metadata" => Ty::Meta,
                "label" => Ty::Label,
                _ if w.starts_with('i') => Ty::Int(w[1..].parse().expect("int type")),
                _ => panic!("type {w}"),
            },
            Tok::L(n) => self.m.types.get(n).cloned().unwrap_or_else(|| panic!("named type {n}")),
            Tok::P(b'{') => {
                let f = self.tylist(b'}');
                Ty::Struct(f, false)
            }
            Tok::P(b'[') => {
                let n: u64 = self.word().parse().unwrap();
                assert_eq!(self.word(), "x");
                let t = self.ty();
                self.expect(b']');
                Ty::Array(Box::new(t), n)
            }
            Tok::P(b'<') => {
                if self.eat(b'{') {
                    let f = self.tylist(b'}');
                    self.expect(b'>');
                    Ty::Struct(f, true)
                } else {
                    let n: u64 = self.word().parse().unwrap();
                    assert_eq!(self.word(), "x");
                    let t = self.ty();
                    self.expect(b'>');
                    Ty::Vector(Box::new(t), n)
                }
            }
            t => panic!("type tok {:?} near {:?}", t, &self.t[self.i.saturating_sub(8)..(self.i + 6).min(self.t.len())]),
        }
    }
    fn tylist(&mut self, end: u8) -> Vec<Ty> {
        let mut f = vec![];
        if self.eat(end) {
            return f;
        }
        loop {
            f.push(self.ty());
            if self.eat(end) {
                return f;
            }
            self.expect(b',');
        }
    }
    /// constant of a type -> leaf values in leaf order
    fn konst(&mut self, ty: &Ty) -> Vec<u128> {
        let n = ty.nslots() as usize;
        match self.next() {
            Tok::W(w) => match w {
                "zeroinitializer" | "undef" | "poison" | "null" | "none" => vec![0; n],
                "true" => vec![1],
                "false" => vec![0],
                "splat" => {
                    self.expect(b'(');
                    let t = self.ty();
                    let v = self.konst(&t);
                    self.expect(b')');
                    vec![v[0]; n]
                }
                "getelementptr" => {
                    while self.at_word_any() {
                        self.i += 1;
                        if self.isp(b'(') && matches!(self.t[self.i - 1], Tok::W("inrange")) {
                            self.skip_paren();
                        }
                    }
                    self.expect(b'(');
                    let bt = self.ty();
                    self.expect(b',');
                    let pt = self.ty();
                    let base = self.konst(&pt)[0] as u64;
                    let mut cur = bt;
                    let mut off = 0i64;
                    let mut first = true;
                    while self.eat(b',') {
                        let it = self.ty();
                        let v = self.konst(&it)[0];
                        let v = sext(v, it.width()) as i64;
                        if first {
                            off += v * cur.size() as i64;
                            first = false;
                        } else {
                            let (o, t) = gep_step(&cur, v);
                            off += o;
                            cur = t;
                        }
                    }
                    self.expect(b')');
                    vec![base.wrapping_add(off as u64) as u128]
                }
                "inttoptr" | "ptrtoint" | "trunc" | "bitcast" | "zext" | "addrspacecast" => {
                    self.expect(b'(');
                    let t = self.ty();
                    let v = self.konst(&t);
                    assert_eq!(self.word(), "to");
                    let t2 = self.ty();
                    self.expect(b')');
                    vec![v[0] & mask128(t2.width())]
                }
                "sub" | "add" | "xor" => {
                    while self.at_word_any() {
                        self.i += 1;
                    }
                    self.expect(b'(');
                    let t = self.ty();
                    let a = self.konst(&t)[0];
                    self.expect(b',');
                    let t2 = self.ty();
                    let b = self.konst(&t2)[0];
                    self.expect(b')');
                    let r = match w {
                        "sub" => a.wrapping_sub(b),
                        "add" => a.wrapping_add(b),
                        _ => a ^ b,
                    };
                    vec![r & mask128(t.width())]
                }
                _ => {
                    let wd = ty.width();
                    if let Some(h) = w.strip_prefix("0x") {
                        let h = u128::from_str_radix(h, 16).expect("hexfloat");
                        // a single is written as the double of the same value
                        vec![if matches!(ty, Ty::Fl(32)) { (f64::from_bits(h as u64) as f32).to_bits() as u128 } else { h }]
                    } else if let Some(h) = w.strip_prefix("f0x") {
                        vec![u128::from_str_radix(h, 16).expect("hexfloat")]
                    } else if let (Ok(v), false) = (w.parse::<i128>(), matches!(ty, Ty::Fl(_))) {
                        vec![(v as u128) & mask128(wd)]
                    } else if let Ok(v) = w.trim_start_matches("-q").trim_start_matches("-s").parse::<f64>() {
                        vec![if wd == 32 { (v as f32).to_bits() as u128 } else { v.to_bits() as u128 }]
                    } else {
                        panic!("const {w} of {:?}", ty)
                    }
                }
            },
            // +inf, +nan, +qnan, +nan(0x..)
            Tok::P(b'+') => {
                let w = self.word();
                if self.isp(b'(') {
                    self.skip_paren();
                }
                let v = if w == "inf" { f64::INFINITY } else { f64::NAN };
                vec![if ty.width() == 32 { (v as f32).to_bits() as u128 } else { v.to_bits() as u128 }]
            }
            Tok::S(s) => unesc(s).into_iter().map(|b| b as u128).collect(),
            Tok::G(g) => vec![self.m.addr_of(g) as u128],
            Tok::P(b'{') => {
                let Ty::Struct(f, _) = ty else { panic!() };
                let mut v = vec![];
                for (k, _) in f.iter().enumerate() {
                    if k > 0 {
                        self.expect(b',');
                    }
                    let t = self.ty();
                    v.extend(self.konst(&t));
                }
                self.expect(b'}');
                v
            }
            Tok::P(b'[') => {
                let mut v = vec![];
                let mut first = true;
                while !self.eat(b']') {
                    if !first {
                        self.expect(b',');
                    }
                    first = false;
                    let t = self.ty();
                    v.extend(self.konst(&t));
                }
                v
            }
            Tok::P(b'<') => {
                let packed = self.eat(b'{');
                let end = if packed { b'}' } else { b'>' };
                let mut v = vec![];
                let mut first = true;
                while !self.eat(end) {
                    if !first {
                        self.expect(b',');
                    }
                    first = false;
                    let t = self.ty();
                    v.extend(self.konst(&t));
                }
                if packed {
                    self.expect(b'>');
                }
                v
            }
            t => panic!("const tok {:?} near {:?}", t, &self.t[self.i.saturating_sub(8)..(self.i + 6).min(self.t.len())]),
        }
    }
    fn at_word_any(&self) -> bool {
        matches!(self.peek(), Tok::W(_))
    }
}

fn is_ty_word(w: &str) -> bool {
    matches!(w, "void" | "ptr" | "float" | "double" | "half" | "metadata" | "label")
        || (w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|b| b.is_ascii_digit()))
}

pub fn mask128(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u16) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

fn gep_step(cur: &Ty, v: i64) -> (i64, Ty) {
    match cur {
        Ty::Struct(f, p) => {
            let mut o = 0;
            for (k, t) in f.iter().enumerate() {
                if !*p {
                    o = up(o, t.align());
                }
                if k as i64 == v {
                    return (o as i64, t.clone());
                }
                o += t.size();
            }
            panic!("gep struct")
        }
        Ty::Array(t, _) | Ty::Vector(t, _) => (v * t.size() as i64, (**t).clone()),
        _ => panic!("gep into {:?}", cur),
    }
}

fn unesc(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut v = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                v.push(b'\\');
                i += 2;
            } else {
                v.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
                i += 3;
            }
        } else {
            v.push(b[i]);
            i += 1;
        }
    }
    v
}

impl<'a> Module<'a> {
    pub fn addr_of(&self, g: &str) -> u64 {
        if let Some(a) = self.gaddr.get(g) {
            *a
        } else if let Some(i) = self.fn_idx.get(g) {
            FN_BASE + *i as u64 * 16
        } else if let Some(i) = self.ext_idx.get(g) {
            EXT_BASE + *i as u64 * 16
        } else {
            panic!("unknown global {g}")
        }
    }

    pub fn parse(text: &'a str) -> Module<'a> {
        let mut m = Module {
            fns: vec![],
            fn_idx: HashMap::new(),
            exts: vec![],
            ext_idx: HashMap::new(),
            gaddr: HashMap::new(),
            gsize: HashMap::new(),
            image_base: GLOBAL_BASE,
            image: vec![],
            types: HashMap::new(),
        };
        let mut globals: Vec<(&str, &str)> = vec![];
        let mut aliases: Vec<(&str, &str)> = vec![];
        let mut prev_comment = "";
        let mut pos = 0;
        let bytes = text.as_bytes();
        while pos < text.len() {
            let end = memchr(b'\n', bytes, pos);
            let line = &text[pos..end];
            let mut nextpos = end + 1;
            let c0 = line.as_bytes().first().copied().unwrap_or(b' ');
            match c0 {
                b';' if line.starts_with("; Function Attrs") => {}
                b';' => prev_comment = line,
                b'@' => {
                    let (nm, rest) = split_name(&line[1..]);
                    if line.contains(" alias ") && !line.contains(" constant ") && !line.contains(" global ") {
                        aliases.push((nm, rest));
                    } else {
                        globals.push((nm, rest));
                    }
                }
                b'%' => {
                    let (nm, rest) = split_name(&line[1..]);
                    let rest = rest.trim_start().trim_start_matches('=').trim_start().trim_start_matches("type").trim();
                    if rest != "opaque" {
                        let mut t = vec![];
                        lex(rest, &mut t);
                        let mut p = P { t: &t, i: 0, m: &m };
                        let ty = p.ty();
                        m.types.insert(nm, ty);
                    }
                }
                b'd' if line.starts_with("define ") => {
                    let at = line.find('@').unwrap();
                    let (nm, _) = split_name(&line[at + 1..]);
                    let close = find_sub(b"\n}", bytes, end);
                    let body = &text[end + 1..close + 1];
                    let idx = m.fns.len() as u32;
                    m.fn_idx.insert(nm, idx);
                    m.fns.push(FnInfo {
                        name: nm,
                        header: line,
                        body,
                        demangled: prev_comment.trim_start_matches([';', ' ']),
                        code: OnceLock::new(),
                    });
                    nextpos = close + 3;
                    prev_comment = "";
                }
                b'd' if line.starts_with("declare ") => {
                    let at = line.find('@').unwrap();
                    let (nm, _) = split_name(&line[at + 1..]);
                    let idx = m.exts.len() as u32;
                    m.ext_idx.insert(nm, idx);
                    m.exts.push(nm);
                }
                b'!' => {
                    // metadata until the end of the module (attributes come before)
                    if !text[pos..].contains("\ndefine ") {
                        break;
                    }
                }
                _ => {}
            }
            pos = nextpos;
        }
        // layout
        let mut toks_all: Vec<(&str, Ty, Vec<Tok<'a>>, usize)> = vec![];
        let mut addr = GLOBAL_BASE;
        for (nm, rest) in &globals {
            let mut t = vec![];
            lex(rest, &mut t);
            let mut i = 0;
            let mut external = false;
            loop {
                match t[i] {
                    Tok::W("global") | Tok::W("constant") => break,
                    Tok::W("external") => external = true,
                    Tok::Nl => panic!("global {nm}"),
                    _ => {}
                }
                i += 1;
            }
            let mut p = P { t: &t, i: i + 1, m: &m };
            let ty = p.ty();
            let at = p.i;
            let mut al = ty.align().max(16);
            for w in t.windows(2) {
                if let (Tok::W("align"), Tok::W(n)) = (w[0], w[1]) {
                    if let Ok(n) = n.parse::<u64>() {
                        al = al.max(n);
                    }
                }
            }
            addr = up(addr, al);
            m.gaddr.insert(nm, addr);
            let sz = ty.size();
            m.gsize.insert(nm, sz);
            addr += sz.max(1);
            if !external {
                toks_all.push((nm, ty, t, at));
            }
        }
        for (nm, rest) in &aliases {
            let mut t = vec![];
            lex(rest, &mut t);
            let tgt = t.iter().rev().find_map(|x| if let Tok::G(g) = x { Some(*g) } else { None });
            if let Some(g) = tgt {
                if let Some(i) = m.fn_idx.get(g).copied() {
                    m.fn_idx.insert(nm, i);
                } else if let Some(a) = m.gaddr.get(g).copied() {
                    m.gaddr.insert(nm, a);
                }
            }
        }
        let mut image = vec![0u8; (addr - GLOBAL_BASE) as usize + 64];
        for (nm, ty, t, at) in &toks_all {
            let mut p = P { t, i: *at, m: &m };
            let vals = p.konst(ty);
            let base = (m.gaddr[nm] - GLOBAL_BASE) as usize;
            for ((off, w), v) in ty.flat().into_iter().zip(vals) {
                let nb = (w as usize).div_ceil(8);
                for k in 0..nb {
                    image[base + off as usize + k] = (v >> (8 * k)) as u8;
                }
            }
        }
        m.image = image;
        m
    }

    pub fn func(&self, idx: u32) -> &Func {
        let f = &self.fns[idx as usize];
        f.code.get_or_init(|| Box::new(decode(self, idx)))
    }
}

fn memchr(c: u8, b: &[u8], from: usize) -> usize {
    b[from..].iter().position(|x| *x == c).map(|p| p + from).unwrap_or(b.len())
}
fn find_sub(s: &[u8], b: &[u8], mut from: usize) -> usize {
    loop {
        let p = memchr(s[0], b, from);
        if b[p..].starts_with(s) {
            return p;
        }
        from = p + 1;
    }
}
fn split_name(s: &str) -> (&str, &str) {
    if let Some(r) = s.strip_prefix('"') {
        let e = r.find('"').unwrap();
        (&r[..e], &r[e + 1..])
    } else {
        let e = s.bytes().position(|b| !(b.is_ascii_alphanumeric() || b"-_.$".contains(&b))).unwrap_or(s.len());
        (&s[..e], &s[e..])
    }
}

struct D<'t, 'a> {
    p: P<'t, 'a>,
    slots: HashMap<&'a str, u32>,
    nregs: u32,
    blocks: HashMap<&'a str, u32>,
    wide: Vec<(u128, u16)>,
}

impl<'t, 'a> D<'t, 'a> {
    fn slot(&mut self, n: &'a str, ty: &Ty) -> u32 {
        if let Some(s) = self.slots.get(n) {
            return *s;
        }
        let s = self.nregs;
        self.nregs += ty.nslots();
        self.slots.insert(n, s);
        s
    }
    fn skip_attrs(&mut self) {
        loop {
            match self.p.peek() {
                Tok::W(w) => match w {
                    "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "inttoptr"
                    | "ptrtoint" | "splat" | "trunc" | "sub" | "add" | "none" | "bitcast" | "zext" | "xor" | "asm" => return,
                    _ if w.as_bytes()[0].is_ascii_digit() || w.as_bytes()[0] == b'-' => return,
                    _ => {
                        self.p.i += 1;
                        if self.p.isp(b'(') {
                            self.p.skip_paren();
                        } else if w == "align" {
                            self.p.i += 1;
                        }
                    }
                },
                Tok::S(_) => {
                    // string attribute only when followed by = or another attr; c"" constants are also S
                    return;
                }
                _ => return,
            }
        }
    }
    fn ops(&mut self, ty: &Ty) -> Vec<Op> {
        if let Tok::L(n) = self.p.peek() {
            self.p.i += 1;
            let s = self.slot(n, ty);
            return (0..ty.nslots()).map(|k| Op::R(s + k)).collect();
        }
        let v = self.p.konst(ty);
        let fl = ty.flat();
        v.into_iter()
            .zip(fl)
            .map(|(v, (_, w))| {
                if w > 64 {
                    self.wide.push((v, w));
                    Op::W(self.wide.len() as u32 - 1)
                } else {
                    Op::C(v as u64)
                }
            })
            .collect()
    }
    fn op(&mut self, ty: &Ty) -> Op {
        self.ops(ty)[0]
    }
    fn label(&mut self) -> u32 {
        match self.p.next() {
            Tok::L(n) => self.blocks[n],
            t => panic!("label {:?}", t),
        }
    }
    fn ty_label(&mut self) -> u32 {
        assert_eq!(self.p.word(), "label");
        self.label()
    }
}

/// canonical name of a floating point operation or predicate ("c.." are predicates)
fn fl_name(w: &str) -> &'static str {
    const T: &[(&str, &str)] = &[
        ("fadd", "fadd"), ("fsub", "fsub"), ("fmul", "fmul"), ("fdiv", "fdiv"), ("frem", "frem"), ("fneg", "fneg"),
        ("fptosi", "fptosi"), ("fptoui", "fptoui"), ("sitofp", "sitofp"), ("uitofp", "uitofp"), ("fpext", "fpext"),
        ("fptrunc", "fpext"), ("oeq", "coeq"), ("ogt", "cogt"), ("oge", "coge"), ("olt", "colt"), ("ole", "cole"),
        ("one", "cone"), ("ord", "cord"), ("ueq", "cueq"), ("ugt", "cugt"), ("uge", "cuge"), ("ult", "cult"),
        ("ule", "cule"), ("une", "cune"), ("uno", "cuno"), ("true", "ctrue"), ("false", "cfalse"),
    ];
    T.iter().find(|(k, _)| *k == w).map(|x| x.1).unwrap_or("?")
}

fn intr_of(name: &str) -> Intr {
    let n = name.strip_prefix("llvm.").unwrap();
    let table: &[(&str, Intr)] = &[
        ("lifetime.", Intr::Nop),
        ("assume", Intr::Nop),
        ("experimental.noalias", Intr::Nop),
        ("dbg.", Intr::Nop),
        ("donothing", Intr::Nop),
        ("prefetch", Intr::Nop),
        ("x86.sse2.pause", Intr::Nop),
        ("memcpy.", Intr::Memcpy),
        ("memmove.", Intr::Memcpy),
        ("memset.", Intr::Memset),
        ("is.constant", Intr::IsConstant),
        ("umax.", Intr::UMax),
        ("umin.", Intr::UMin),
        ("smax.", Intr::SMax),
        ("smin.", Intr::SMin),
        ("usub.sat", Intr::USubSat),
        ("uadd.sat", Intr::UAddSat),
        ("bitreverse", Intr::BitReverse),
        ("ctlz", Intr::Ctlz),
        ("cttz", Intr::Cttz),
        ("ctpop", Intr::Ctpop),
        ("fshl", Intr::Fshl),
        ("fshr", Intr::Fshr),
        ("abs.", Intr::Abs),
        ("uadd.with", Intr::UAddO),
        ("usub.with", Intr::USubO),
        ("umul.with", Intr::UMulO),
        ("sadd.with", Intr::SAddO),
        ("ssub.with", Intr::SSubO),
        ("smul.with", Intr::SMulO),
        ("ucmp", Intr::UCmp),
        ("scmp", Intr::SCmp),
        ("trap", Intr::Trap),
        ("bswap", Intr::Bswap),
        ("threadlocal.address", Intr::TlsAddr),
        ("vector.reduce.add", Intr::ReduceAdd),
        ("vector.reduce.or", Intr::ReduceOr),
        ("vector.reduce.and", Intr::ReduceAnd),
        ("vector.reduce.xor", Intr::ReduceXor),
        ("vector.reduce.umax", Intr::ReduceUMax),
        ("vector.reduce.umin", Intr::ReduceUMin),
        ("load.relative", Intr::LoadRel),
        ("expect", Intr::Expect),
        ("fptosi.sat", Intr::Fl("fptosi")),
        ("fptoui.sat", Intr::Fl("fptoui")),
        ("fabs.f", Intr::Fl("fabs")),
        ("floor.f", Intr::Fl("floor")),
        ("ceil.f", Intr::Fl("ceil")),
        ("trunc.f", Intr::Fl("trunc")),
        ("round.f", Intr::Fl("round")),
        ("roundeven.f", Intr::Fl("roundeven")),
        ("rint.f", Intr::Fl("roundeven")),
        ("nearbyint.f", Intr::Fl("roundeven")),
        ("sqrt.f", Intr::Fl("sqrt")),
        ("minnum.f", Intr::Fl("min")),
        ("maxnum.f", Intr::Fl("max")),
        ("minimumnum.f", Intr::Fl("min")),
        ("maximumnum.f", Intr::Fl("max")),
        ("copysign.f", Intr::Fl("copysign")),
        ("fma.f", Intr::Fl("fma")),
        ("fmuladd.f", Intr::Fl("fmuladd")),
        ("powi.f", Intr::Fl("powi")),
        ("pow.f", Intr::Fl("pow")),
        ("exp10.f", Intr::Fl("exp10")),
        ("exp.f", Intr::Fl("exp")),
        ("log10.f", Intr::Fl("log10")),
        ("log2.f", Intr::Fl("log2")),
        ("log.f", Intr::Fl("log")),
    ];
    for (p, i) in table {
        if n.starts_with(p) {
            return *i;
        }
    }
    Intr::Unsupported
}

fn decode(m: &Module, idx: u32) -> Func {
    let info = &m.fns[idx as usize];
    let mut toks = vec![];
    let hdr_start = info.header.find('@').unwrap();
    let (_, after) = split_name(&info.header[hdr_start + 1..]);
    let mut ht = vec![];
    lex(after, &mut ht);
    lex(info.body, &mut toks);
    let mut d = D {
        p: P { t: &ht, i: 0, m },
        slots: HashMap::new(),
        nregs: 0,
        blocks: HashMap::new(),
        wide: vec![],
    };
    d.p.expect(b'(');
    let mut anon = 0usize;
    let anon_names: Vec<String> = (0..64).map(|i| i.to_string()).collect();
    // leak small names so lifetimes stay simple
    let mut params: Vec<(Ty, Option<&str>)> = vec![];
    if !d.p.eat(b')') {
        loop {
            if d.p.eatw("...") || d.p.isp(b'.') {
                break;
            }
            let ty = d.p.ty();
            loop {
                match d.p.peek() {
                    Tok::W(w) => {
                        d.p.i += 1;
                        if d.p.isp(b'(') {
                            d.p.skip_paren();
                        } else if w == "align" {
                            d.p.i += 1;
                        }
                    }
                    Tok::S(_) => d.p.i += 1,
                    Tok::P(b'=') => d.p.i += 1,
                    _ => break,
                }
            }
            let nm = if let Tok::L(n) = d.p.peek() {
                d.p.i += 1;
                Some(n)
            } else {
                None
            };
            params.push((ty, nm));
            if d.p.eat(b')') {
                break;
            }
            d.p.expect(b',');
        }
    }
    for (ty, nm) in &params {
        match nm {
            Some(n) => {
                d.slot(n, ty);
            }
            None => {
                let n: &'static str = Box::leak(anon_names[anon.min(63)].clone().into_boxed_str());
                d.slot(n, ty);
            }
        }
        anon += 1;
    }
    let nparams = d.nregs;
    d.p = P { t: &toks, i: 0, m };
    // block labels
    let mut order: Vec<&str> = vec![];
    let mut first_is_label = false;
    let mut seen_any = false;
    for t in &toks {
        match t {
            Tok::Nl => {}
            Tok::Lab(l) => {
                if !seen_any {
                    first_is_label = true;
                }
                seen_any = true;
                order.push(l);
            }
            _ => seen_any = true,
        }
    }
    if !first_is_label {
        // the unnamed entry block takes the next unnamed number
        let n: &'static str = Box::leak(params.iter().filter(|p| p.1.map_or(true, |n| n.bytes().all(|b| b.is_ascii_digit()))).count().to_string().into_boxed_str());
        order.insert(0, n);
    }
    for (i, l) in order.iter().enumerate() {
        d.blocks.insert(l, i as u32);
    }
    let mut blocks: Vec<Block> = order.iter().map(|_| Block { code: vec![], phis: vec![] }).collect();
    let mut cur = 0usize;
    let mut raw_phis: Vec<HashMap<u32, Vec<(u32, Op)>>> = order.iter().map(|_| HashMap::new()).collect();
    while d.p.i < toks.len() {
        match d.p.peek() {
            Tok::Nl => {
                d.p.i += 1;
                continue;
            }
            Tok::P(b'}') => break,
            Tok::Lab(l) => {
                cur = d.blocks[l] as usize;
                d.p.i += 1;
                continue;
            }
            Tok::Attr => {
                d.p.skip_line();
                continue;
            }
            _ => {}
        }
        let dst = if let Tok::L(n) = d.p.peek() {
            d.p.i += 1;
            d.p.expect(b'=');
            Some(n)
        } else {
            None
        };
        inst(&mut d, dst, &mut blocks[cur].code, &mut raw_phis[cur]);
    }
    for (i, rp) in raw_phis.into_iter().enumerate() {
        blocks[i].phis = rp.into_iter().collect();
    }
    Func {
        name: info.name.to_string(),
        demangled: info.demangled.to_string(),
        blocks,
        nregs: d.nregs,
        nparams,
        wide: d.wide,
        idx,
    }
}

fn inst<'t, 'a>(d: &mut D<'t, 'a>, dst: Option<&'a str>, code: &mut Vec<I>, phis: &mut HashMap<u32, Vec<(u32, Op)>>) {
    let mut opc = d.p.word();
    if matches!(opc, "tail" | "musttail" | "notail") {
        opc = d.p.word();
    }
    let skip_flags = |d: &mut D<'t, 'a>| {
        while let Tok::W(w) = d.p.peek() {
            if is_ty_word(w) {
                break;
            }
            d.p.i += 1;
        }
    };
    let bop = match opc {
        "add" => Some(BinOp::Add),
        "sub" => Some(BinOp::Sub),
        "mul" => Some(BinOp::Mul),
        "udiv" => Some(BinOp::UDiv),
        "sdiv" => Some(BinOp::SDiv),
        "urem" => Some(BinOp::URem),
        "srem" => Some(BinOp::SRem),
        "and" => Some(BinOp::And),
        "or" => Some(BinOp::Or),
        "xor" => Some(BinOp::Xor),
        "shl" => Some(BinOp::Shl),
        "lshr" => Some(BinOp::LShr),
        "ashr" => Some(BinOp::AShr),
        _ => None,
    };
    if let Some(b) = bop {
        skip_flags(d);
        let ty = d.p.ty();
        let x = d.ops(&ty);
        d.p.expect(b',');
        let y = d.ops(&ty);
        let r = d.slot(dst.unwrap(), &ty);
        if x.len() == 1 {
            code.push(I::Bin(b, ty.width(), r, x[0], y[0]));
        } else {
            code.push(I::BinV(b, ty.width(), r, x.into(), y.into()));
        }
        d.p.skip_line();
        return;
    }
    match opc {
        "icmp" => {
            let mut pw = d.p.word();
            if pw == "samesign" {
                pw = d.p.word();
            }
            let pred = match pw {
                "eq" => Pred::Eq,
                "ne" => Pred::Ne,
                "ult" => Pred::Ult,
                "ule" => Pred::Ule,
                "ugt" => Pred::Ugt,
                "uge" => Pred::Uge,
                "slt" => Pred::Slt,
                "sle" => Pred::Sle,
                "sgt" => Pred::Sgt,
                "sge" => Pred::Sge,
                _ => panic!("icmp {pw}"),
            };
            let ty = d.p.ty();
            let x = d.ops(&ty);
            d.p.expect(b',');
            let y = d.ops(&ty);
            if let Ty::Vector(_, n) = ty {
                let r = d.slot(dst.unwrap(), &Ty::Vector(Box::new(Ty::Int(1)), n));
                code.push(I::ICmpV(pred, ty.width(), r, x.into(), y.into()));
            } else {
                let r = d.slot(dst.unwrap(), &Ty::Int(1));
                code.push(I::ICmp(pred, ty.width(), r, x[0], y[0]));
            }
            d.p.skip_line();
        }
        "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" | "freeze" | "ptrtoaddr" => {
            skip_flags(d);
            let ty = d.p.ty();
            let x = d.ops(&ty);
            if opc == "freeze" {
                let r = d.slot(dst.unwrap(), &ty);
                code.push(I::Copy(r, x.into()));
                d.p.skip_line();
                return;
            }
            assert_eq!(d.p.word(), "to");
            let to = d.p.ty();
            let r = d.slot(dst.unwrap(), &to);
            let k = match opc {
                "zext" => Cast::Z,
                "sext" => Cast::S,
                "trunc" => Cast::T,
                "bitcast" => {
                    if ty.lanes() == to.lanes() {
                        Cast::Copy
                    } else {
                        code.push(I::Bitcast(ty.width(), x.into(), to.width(), r, to.lanes()));
                        d.p.skip_line();
                        return;
                    }
                }
                "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                    if ty.width() > to.width() {
                        Cast::T
                    } else {
                        Cast::Z
                    }
                }
                _ => Cast::Copy,
            };
            if x.len() == 1 {
                code.push(I::Cast(k, ty.width(), to.width(), r, x[0]));
            } else {
                code.push(I::CastV(k, ty.width(), to.width(), r, x.into()));
            }
            d.p.skip_line();
        }
        "fadd" | "fsub" | "fmul" | "fdiv" | "frem" | "fcmp" => {
            skip_flags(d);
            let (mut op, mut res): (&'static str, Option<Ty>) = (fl_name(opc), None);
            if opc == "fcmp" {
                while !matches!(d.p.peek(), Tok::W(w) if fl_name(w).starts_with('c')) {
                    d.p.i += 1;
                }
                op = fl_name(d.p.word());
                res = Some(Ty::Int(1));
            }
            let ty = d.p.ty();
            let x = d.ops(&ty);
            d.p.expect(b',');
            let y = d.ops(&ty);
            let rt = match (&res, &ty) {
                (Some(_), Ty::Vector(_, n)) => Ty::Vector(Box::new(Ty::Int(1)), *n),
                (Some(t), _) => t.clone(),
                _ => ty.clone(),
            };
            let r = d.slot(dst.unwrap(), &rt);
            code.push(I::Fl(op, ty.width(), rt.width(), r, x.into_iter().zip(y).collect()));
            d.p.skip_line();
        }
        "fneg" | "fptosi" | "fptoui" | "sitofp" | "uitofp" | "fpext" | "fptrunc" => {
            skip_flags(d);
            let ty = d.p.ty();
            let x = d.ops(&ty);
            let to = if d.p.eatw("to") { d.p.ty() } else { ty.clone() };
            let r = d.slot(dst.unwrap(), &to);
            code.push(I::Fl(fl_name(opc), ty.width(), to.width(), r, x.into_iter().map(|o| (o, Op::C(0))).collect()));
            d.p.skip_line();
        }
        "select" => {
            skip_flags(d);
            let ct = d.p.ty();
            let c = d.ops(&ct);
            d.p.expect(b',');
            let ty = d.p.ty();
            let x = d.ops(&ty);
            d.p.expect(b',');
            let _ = d.p.ty();
            let y = d.ops(&ty);
            let r = d.slot(dst.unwrap(), &ty);
            let fl = ty.flat();
            let prs: Vec<(Op, Op, u16)> = x.into_iter().zip(y).zip(fl).map(|((a, b), (_, w))| (a, b, w)).collect();
            if c.len() > 1 {
                code.push(I::SelectV(r, c.into(), prs.into()));
            } else {
                code.push(I::Select(r, c[0], prs.into(), ty == Ty::Ptr));
            }
            d.p.skip_line();
        }
        "getelementptr" => {
            skip_flags(d);
            let bt = d.p.ty();
            d.p.expect(b',');
            let pt = d.p.ty();
            let base = d.op(&pt);
            let mut off = 0i64;
            let mut idx = vec![];
            let mut curt = bt;
            let mut first = true;
            while d.p.eat(b',') {
                if let Tok::Meta(_) = d.p.peek() {
                    break;
                }
                let it = d.p.ty();
                let o = d.op(&it);
                if first {
                    first = false;
                    match o {
                        Op::C(v) => off = off.wrapping_add((sext(v as u128, it.width()) as i64).wrapping_mul(curt.size() as i64)),
                        _ => idx.push((o, it.width(), curt.size() as i64)),
                    }
                } else {
                    match o {
                        Op::C(v) => {
                            let (k, t) = gep_step(&curt, sext(v as u128, it.width()) as i64);
                            off += k;
                            curt = t;
                        }
                        _ => {
                            let (_, t) = gep_step(&curt, 0);
                            idx.push((o, it.width(), t.size() as i64));
                            curt = t;
                        }
                    }
                }
            }
            let r = d.slot(dst.unwrap(), &Ty::Ptr);
            code.push(I::Gep(r, base, off, idx.into()));
            d.p.skip_line();
        }
        "load" => {
            while d.p.eatw("atomic") || d.p.eatw("volatile") {}
            let ty = d.p.ty();
            d.p.expect(b',');
            let pt = d.p.ty();
            let p = d.op(&pt);
            let r = d.slot(dst.unwrap(), &ty);
            let fl = ty.flat();
            if fl.len() == 1 {
                code.push(I::Load1(r, p, fl[0].1));
            } else if matches!(&ty, Ty::Vector(t, _) if **t == Ty::Int(1)) {
                code.push(I::Bad("load <n x i1>".into()));
            } else {
                code.push(I::Load(r, p, fl.into()));
            }
            d.p.skip_line();
        }
        "store" => {
            while d.p.eatw("atomic") || d.p.eatw("volatile") {}
            let ty = d.p.ty();
            let v = d.ops(&ty);
            d.p.expect(b',');
            let pt = d.p.ty();
            let p = d.op(&pt);
            let fl = ty.flat();
            if fl.len() == 1 {
                code.push(I::Store1(p, fl[0].1, v[0]));
            } else {
                code.push(I::Store(p, fl.into_iter().zip(v).map(|((o, w), x)| (o, w, x)).collect()));
            }
            d.p.skip_line();
        }
        "alloca" => {
            d.p.eatw("inalloca");
            let ty = d.p.ty();
            let mut n = 1;
            let mut al = ty.align();
            while d.p.eat(b',') {
                match d.p.peek() {
                    Tok::W("align") => {
                        d.p.i += 1;
                        al = d.p.word().parse().unwrap();
                    }
                    Tok::Meta(_) => break,
                    _ => {
                        let t = d.p.ty();
                        if let Op::C(v) = d.op(&t) {
                            n = v
                        } else {
                            panic!("dynamic alloca")
                        }
                    }
                }
            }
            let r = d.slot(dst.unwrap(), &Ty::Ptr);
            code.push(I::Alloca(r, ty.size() * n, al.max(1)));
            d.p.skip_line();
        }
        "phi" => {
            skip_flags(d);
            let ty = d.p.ty();
            let r = d.slot(dst.unwrap(), &ty);
            loop {
                d.p.expect(b'[');
                let v = d.ops(&ty);
                d.p.expect(b',');
                let b = d.label();
                d.p.expect(b']');
                let e = phis.entry(b).or_default();
                // duplicate predecessor entries (switch) carry the same value
                if !e.iter().any(|(s, _)| *s == r) {
                    for (k, o) in v.into_iter().enumerate() {
                        e.push((r + k as u32, o));
                    }
                }
                if !d.p.eat(b',') {
                    break;
                }
                if !d.p.isp(b'[') {
                    break;
                }
            }
            d.p.skip_line();
        }
        "br" => {
            if d.p.peek() == Tok::W("label") {
                let b = d.ty_label();
                code.push(I::Br(b));
            } else {
                let t = d.p.ty();
                let c = d.op(&t);
                d.p.expect(b',');
                let a = d.ty_label();
                d.p.expect(b',');
                let b = d.ty_label();
                code.push(I::CondBr(c, a, b));
            }
            d.p.skip_line();
        }
        "switch" => {
            let t = d.p.ty();
            let c = d.op(&t);
            d.p.expect(b',');
            let def = d.ty_label();
            d.p.expect(b'[');
            let mut cs = vec![];
            loop {
                while d.p.peek() == Tok::Nl {
                    d.p.i += 1;
                }
                if d.p.eat(b']') {
                    break;
                }
                let t = d.p.ty();
                let v = d.p.konst(&t)[0] as u64;
                d.p.expect(b',');
                let b = d.ty_label();
                cs.push((v, b));
            }
            code.push(I::Switch(c, t.width(), def, cs.into()));
            d.p.skip_line();
        }
        "ret" => {
            let t = d.p.ty();
            let v = if t == Ty::Void { vec![] } else { d.ops(&t) };
            code.push(I::Ret(v.into()));
            d.p.skip_line();
        }
        "unreachable" => {
            code.push(I::Unreachable);
            d.p.skip_line();
        }
        "resume" => {
            code.push(I::Bad("resume".into()));
            d.p.skip_line();
        }
        "fence" => d.p.skip_line(),
        "extractvalue" => {
            let ty = d.p.ty();
            let v = d.ops(&ty);
            let mut t = &ty;
            let mut off = 0;
            while d.p.eat(b',') {
                let Tok::W(w) = d.p.peek() else { break };
                d.p.i += 1;
                let (ft, o) = t.field(w.parse().unwrap());
                off += o;
                t = ft;
            }
            let n = t.nslots();
            let r = d.slot(dst.unwrap(), t);
            code.push(I::Copy(r, v[off as usize..(off + n) as usize].into()));
            d.p.skip_line();
        }
        "insertvalue" => {
            let ty = d.p.ty();
            let mut v = d.ops(&ty);
            d.p.expect(b',');
            let et = d.p.ty();
            let e = d.ops(&et);
            let mut t = &ty;
            let mut off = 0;
            while d.p.eat(b',') {
                let Tok::W(w) = d.p.peek() else { break };
                d.p.i += 1;
                let (ft, o) = t.field(w.parse().unwrap());
                off += o;
                t = ft;
            }
            for (k, o) in e.into_iter().enumerate() {
                v[off as usize + k] = o;
            }
            let r = d.slot(dst.unwrap(), &ty);
            code.push(I::Copy(r, v.into()));
            d.p.skip_line();
        }
        "extractelement" => {
            let ty = d.p.ty();
            let v = d.ops(&ty);
            d.p.expect(b',');
            let it = d.p.ty();
            let i = d.op(&it);
            let Ty::Vector(et, _) = &ty else { panic!() };
            let r = d.slot(dst.unwrap(), et);
            code.push(I::ExtractElt(r, v.into(), i, et.width()));
            d.p.skip_line();
        }
        "insertelement" => {
            let ty = d.p.ty();
            let v = d.ops(&ty);
            d.p.expect(b',');
            let et = d.p.ty();
            let e = d.op(&et);
            d.p.expect(b',');
            let it = d.p.ty();
            let i = d.op(&it);
            let r = d.slot(dst.unwrap(), &ty);
            code.push(I::InsertElt(r, v.into(), e, i, et.width()));
            d.p.skip_line();
        }
        "shufflevector" => {
            let ty = d.p.ty();
            let mut v = d.ops(&ty);
            d.p.expect(b',');
            let t2 = d.p.ty();
            let w = d.ops(&t2);
            v.extend(w);
            d.p.expect(b',');
            let mt = d.p.ty();
            let mk = d.p.konst(&mt);
            let Ty::Vector(et, _) = &ty else { panic!() };
            let rt = Ty::Vector(et.clone(), mk.len() as u64);
            let r = d.slot(dst.unwrap(), &rt);
            let o: Vec<Op> = mk.iter().map(|k| v.get(*k as usize).copied().unwrap_or(Op::C(0))).collect();
            code.push(I::Copy(r, o.into()));
            d.p.skip_line();
        }
        "landingpad" => {
            let ty = d.p.ty();
            d.slot(dst.unwrap(), &ty);
            code.push(I::Bad("landingpad".into()));
            d.p.skip_line();
            loop {
                match d.p.peek() {
                    Tok::W("cleanup") | Tok::W("catch") | Tok::W("filter") => d.p.skip_line(),
                    _ => break,
                }
            }
        }
        "atomicrmw" => {
            d.p.eatw("volatile");
            let k = d.p.word();
            let k: &'static str = match k {
                "add" => "add",
                "sub" => "sub",
                "xchg" => "xchg",
                "and" => "and",
                "or" => "or",
                "xor" => "xor",
                _ => "?",
            };
            let pt = d.p.ty();
            let p = d.op(&pt);
            d.p.expect(b',');
            let t = d.p.ty();
            let v = d.op(&t);
            let r = d.slot(dst.unwrap(), &t);
            code.push(I::Rmw(k, r, p, v, t.width()));
            d.p.skip_line();
        }
        "cmpxchg" => {
            while d.p.eatw("weak") || d.p.eatw("volatile") {}
            let pt = d.p.ty();
            let p = d.op(&pt);
            d.p.expect(b',');
            let t = d.p.ty();
            let a = d.op(&t);
            d.p.expect(b',');
            let t2 = d.p.ty();
            let b = d.op(&t2);
            let r = d.slot(dst.unwrap(), &Ty::Struct(vec![t.clone(), Ty::Int(1)], false));
            code.push(I::CmpXchg(r, p, a, b, t.width()));
            d.p.skip_line();
        }
        "call" | "invoke" => {
            // flags, cc, return attributes
            loop {
                match d.p.peek() {
                    Tok::W(w) if is_ty_word(w) => break,
                    Tok::W(w) => {
                        d.p.i += 1;
                        if d.p.isp(b'(') {
                            d.p.skip_paren();
                        } else if w == "align" {
                            d.p.i += 1;
                        }
                    }
                    _ => break,
                }
            }
            let rt = d.p.ty();
            if d.p.isp(b'(') {
                d.p.skip_paren();
            }
            let callee = match d.p.peek() {
                Tok::G(g) => {
                    d.p.i += 1;
                    if g.starts_with("llvm.") {
                        let it = intr_of(g);
                        if it == Intr::Nop {
                            d.p.skip_line();
                            return;
                        }
                        Callee::Intr(it)
                    } else if let Some(i) = d.p.m.fn_idx.get(g) {
                        Callee::Fn(*i)
                    } else {
                        Callee::Ext(d.p.m.ext_idx[g])
                    }
                }
                Tok::W("asm") => {
                    // only empty compiler barriers occur
                    if let Some(n) = dst {
                        d.slot(n, &rt);
                        code.push(I::Bad("inline asm with result".into()));
                    }
                    d.p.skip_line();
                    return;
                }
                _ => Callee::Ind(d.op(&Ty::Ptr)),
            };
            d.p.expect(b'(');
            let mut args = vec![];
            let mut widths = vec![];
            if !d.p.eat(b')') {
                loop {
                    let ty = d.p.ty();
                    if ty == Ty::Meta {
                        // skip
                        loop {
                            match d.p.peek() {
                                Tok::P(b',') | Tok::P(b')') => break,
                                Tok::P(b'(') => d.p.skip_paren(),
                                Tok::P(b'{') => {
                                    while !d.p.eat(b'}') {
                                        d.p.i += 1;
                                    }
                                }
                                _ => d.p.i += 1,
                            }
                        }
                    } else {
                        d.skip_attrs();
                        args.extend(d.ops(&ty));
                        widths.extend(ty.flat().iter().map(|x| x.1));
                    }
                    if d.p.eat(b')') {
                        break;
                    }
                    d.p.expect(b',');
                }
            }
            let nd = rt.nslots();
            let r = match dst {
                Some(n) => d.slot(n, &rt),
                None => {
                    let s = d.nregs;
                    d.nregs += nd;
                    s
                }
            };
            d.p.skip_line();
            let mut normal = NOBLK;
            if opc == "invoke" {
                assert_eq!(d.p.word(), "to");
                normal = d.ty_label();
                assert_eq!(d.p.word(), "unwind");
                let _ = d.ty_label();
                d.p.skip_line();
            }
            // result width is needed by intrinsics
            if nd > 0 && widths.is_empty() {
                widths.push(rt.flat()[0].1);
            }
            if let (Callee::Intr(Intr::Fl(_)), true) = (&callee, nd > 0) {
                widths.truncate(args.len());
                widths.push(rt.flat()[0].1);
            }
            code.push(I::Call { callee, args: args.into(), widths: widths.into(), dst: r, nd, normal });
            if normal != NOBLK {
                code.push(I::Br(normal));
            }
        }
        _ => {
            // anything unexpected (floating point, ...) is decoded to a trap that reports itself if reached
            if let Some(n) = dst {
                d.slot(n, &Ty::Int(64));
            }
            code.push(I::Bad(opc.to_string()));
            d.p.skip_line();
        }
    }
}
