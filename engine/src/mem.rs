//! Copy-on-write paged memory with a symbolic-byte overlay.
use crate::expr::Id;
use std::rc::Rc;

pub const PS: usize = 512;
#[derive(Clone)]
pub struct Page {
    pub d: [u8; PS],
    pub s: Option<Box<[Id; PS]>>,
}

#[derive(Clone)]
pub struct Region {
    pub base: u64,
    pub end: u64,
    pub pages: Vec<Option<Rc<Page>>>,
}

pub const HEAP: u64 = 0x10_0000_0000;
pub const STACK: u64 = 0x20_0000_0000;
pub const MAXHEAP: u64 = 256 << 20;
pub const MAXSTACK: u64 = 16 << 20;

#[derive(Clone)]
pub struct Mem {
    pub image: &'static [u8],
    pub gbase: u64,
    pub glob: Vec<(u32, Rc<Page>)>, // written pages of the global image (few)
    pub heap: Region,
    pub stack: Region,
}

static ZERO: Page = Page { d: [0; PS], s: None };

pub struct Fault(pub u64);

impl Mem {
    pub fn new(image: &'static [u8], gbase: u64) -> Mem {
        Mem {
            image,
            gbase,
            glob: vec![],
            heap: Region { base: HEAP, end: HEAP + MAXHEAP, pages: vec![] },
            stack: Region { base: STACK, end: STACK + MAXSTACK, pages: vec![] },
        }
    }
    /// page containing addr and the offset within it; None = plain image bytes
    #[inline]
    fn find(&self, a: u64) -> Result<Option<(&Page, usize)>, Fault> {
        let r = if a >= STACK { &self.stack } else if a >= HEAP { &self.heap } else { return self.find_glob(a) };
        if a >= r.end {
            return Err(Fault(a));
        }
        let o = (a - r.base) as usize;
        match r.pages.get(o / PS) {
            Some(Some(p)) => Ok(Some((p, o % PS))),
            _ => Ok(Some((&ZERO, o % PS))),
        }
    }
    fn find_glob(&self, a: u64) -> Result<Option<(&Page, usize)>, Fault> {
        if a < self.gbase || a >= self.gbase + self.image.len() as u64 {
            return Err(Fault(a));
        }
        let o = (a - self.gbase) as usize;
        let pn = (o / PS) as u32;
        for (n, p) in &self.glob {
            if *n == pn {
                return Ok(Some((p, o % PS)));
            }
        }
        Ok(None)
    }
    fn page_mut(&mut self, a: u64) -> Result<(&mut Page, usize), Fault> {
        let r = if a >= STACK {
            &mut self.stack
        } else if a >= HEAP {
            &mut self.heap
        } else {
            if a < self.gbase || a >= self.gbase + self.image.len() as u64 {
                return Err(Fault(a));
            }
            let o = (a - self.gbase) as usize;
            let pn = (o / PS) as u32;
            let i = match self.glob.iter().position(|(n, _)| *n == pn) {
                Some(i) => i,
                None => {
                    let mut p = Page { d: [0; PS], s: None };
                    let st = pn as usize * PS;
                    let en = (st + PS).min(self.image.len());
                    p.d[..en - st].copy_from_slice(&self.image[st..en]);
                    self.glob.push((pn, Rc::new(p)));
                    self.glob.len() - 1
                }
            };
            return Ok((Rc::make_mut(&mut self.glob[i].1), o % PS));
        };
        if a >= r.end {
            return Err(Fault(a));
        }
        let o = (a - r.base) as usize;
        let pi = o / PS;
        if pi >= r.pages.len() {
            r.pages.resize(pi + 1, None);
        }
        let slot = &mut r.pages[pi];
        if slot.is_none() {
            *slot = Some(Rc::new(Page { d: [0; PS], s: None }));
        }
        Ok((Rc::make_mut(slot.as_mut().unwrap()), o % PS))
    }
    /// read n<=8 concrete bytes; None when any is symbolic
    #[inline]
    pub fn read_c(&self, a: u64, n: usize) -> Result<Option<u64>, Fault> {
        match self.find(a)? {
            Some((p, o)) if o + n <= PS => {
                if let Some(s) = &p.s {
                    if s[o..o + n].iter().any(|x| *x != 0) {
                        return Ok(None);
                    }
                }
                let mut v = 0u64;
                for i in (0..n).rev() {
                    v = v << 8 | p.d[o + i] as u64;
                }
                Ok(Some(v))
            }
            None => {
                let o = (a - self.gbase) as usize;
                if o % PS + n <= PS {
                    let mut v = 0u64;
                    for i in (0..n).rev() {
                        v = v << 8 | *self.image.get(o + i).ok_or(Fault(a))? as u64;
                    }
                    return Ok(Some(v));
                }
                self.read_slow(a, n)
            }
            _ => self.read_slow(a, n),
        }
    }
    fn read_slow(&self, a: u64, n: usize) -> Result<Option<u64>, Fault> {
        let mut v = 0u64;
        for i in 0..n {
            let (b, s) = self.byte(a + i as u64)?;
            if s != 0 {
                return Ok(None);
            }
            v |= (b as u64) << (8 * i);
        }
        Ok(Some(v))
    }
    /// (concrete byte, symbolic id or 0)
    #[inline]
    pub fn byte(&self, a: u64) -> Result<(u8, Id), Fault> {
        match self.find(a)? {
            Some((p, o)) => Ok((p.d[o], p.s.as_ref().map_or(0, |s| s[o]))),
            None => Ok((self.image[(a - self.gbase) as usize], 0)),
        }
    }
    #[inline]
    pub fn write_c(&mut self, a: u64, n: usize, v: u64) -> Result<(), Fault> {
        let (p, o) = self.page_mut(a)?;
        if o + n <= PS {
            for i in 0..n {
                p.d[o + i] = (v >> (8 * i)) as u8;
            }
            if let Some(s) = &mut p.s {
                for i in 0..n {
                    s[o + i] = 0;
                }
            }
            return Ok(());
        }
        for i in 0..n {
            self.set(a + i as u64, (v >> (8 * i)) as u8, 0)?;
        }
        Ok(())
    }
    #[inline]
    pub fn set(&mut self, a: u64, b: u8, s: Id) -> Result<(), Fault> {
        let (p, o) = self.page_mut(a)?;
        p.d[o] = b;
        if s != 0 {
            p.s.get_or_insert_with(|| Box::new([0; PS]))[o] = s;
        } else if let Some(x) = &mut p.s {
            x[o] = 0;
        }
        Ok(())
    }
    pub fn copy(&mut self, d: u64, s: u64, n: u64) -> Result<(), Fault> {
        if n == 0 {
            return Ok(());
        }
        let mut buf = Vec::with_capacity(n as usize);
        let mut any = false;
        let mut i = 0;
        while i < n {
            let a = s + i;
            match self.find(a)? {
                Some((p, o)) => {
                    let k = (PS - o).min((n - i) as usize);
                    match &p.s {
                        Some(sy) => {
                            for j in 0..k {
                                any |= sy[o + j] != 0;
                                buf.push((p.d[o + j], sy[o + j]));
                            }
                        }
                        None => buf.extend(p.d[o..o + k].iter().map(|b| (*b, 0))),
                    }
                    i += k as u64;
                }
                None => {
                    let o = (a - self.gbase) as usize;
                    let k = (PS - o % PS).min((n - i) as usize);
                    let sl = self.image.get(o..o + k).ok_or(Fault(a))?;
                    buf.extend(sl.iter().map(|b| (*b, 0)));
                    i += k as u64;
                }
            }
        }
        let mut i = 0usize;
        while i < n as usize {
            let (p, o) = self.page_mut(d + i as u64)?;
            let k = (PS - o).min(n as usize - i);
            for j in 0..k {
                p.d[o + j] = buf[i + j].0;
            }
            if any {
                let sy = p.s.get_or_insert_with(|| Box::new([0; PS]));
                for j in 0..k {
                    sy[o + j] = buf[i + j].1;
                }
            } else if let Some(sy) = &mut p.s {
                for j in 0..k {
                    sy[o + j] = 0;
                }
            }
            i += k;
        }
        Ok(())
    }
}
