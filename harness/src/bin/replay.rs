//! Native replay: reads lines "<harness> <param> <hex model>" on stdin, runs the real crate on the
//! recorded assignment and prints "<outcome>\t<trace hash>" for each.
use std::cell::RefCell;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

enum Stop {
    Assumed,
    Assert(u32),
    Known(u32),
    Short,
}
#[derive(Default)]
struct St {
    model: Vec<u8>,
    pos: usize,
    hash: u64,
    trace: Vec<u8>,
    panic: String,
}
thread_local!(static S: RefCell<St> = RefCell::new(St::default()));

#[no_mangle]
unsafe extern "C-unwind" fn __sym_make(p: *mut u8, n: usize) {
    let ok = S.with(|s| {
        let mut s = s.borrow_mut();
        if s.pos + n > s.model.len() {
            return false;
        }
        for i in 0..n {
            *p.add(i) = s.model[s.pos + i];
        }
        s.pos += n;
        true
    });
    if !ok {
        resume_unwind(Box::new(Stop::Short));
    }
}
#[no_mangle]
extern "C-unwind" fn __sym_assume(c: bool) {
    if !c {
        resume_unwind(Box::new(Stop::Assumed));
    }
}
#[no_mangle]
extern "C-unwind" fn __sym_assert(c: bool, id: u32) {
    if !c {
        resume_unwind(Box::new(Stop::Assert(id)));
    }
}
#[no_mangle]
extern "C-unwind" fn __sym_known(id: u32) {
    resume_unwind(Box::new(Stop::Known(id)));
}
#[no_mangle]
unsafe extern "C-unwind" fn __sym_trace(p: *const u8, n: usize) {
    S.with(|s| {
        let mut s = s.borrow_mut();
        let mut h = s.hash;
        let d = std::slice::from_raw_parts(p, n);
        for b in d.iter().copied().chain([0xff, 0x01]) {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        s.hash = h;
        s.trace.extend_from_slice(d);
        s.trace.push(b'\n');
    });
}
#[no_mangle]
extern "C-unwind" fn __sym_reach(_id: u32) {}

fn main() {
    let verbose = std::env::args().any(|a| a == "-v");
    std::panic::set_hook(Box::new(|i| {
        let m = i.to_string().replace(['\n', '\t'], " ");
        S.with(|s| s.borrow_mut().panic = m);
    }));
    let table = harness::table();
    let out = std::io::stdout();
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let mut p = line.split(' ');
        let (h, k, m) = (p.next().unwrap_or(""), p.next().unwrap_or("0"), p.next().unwrap_or(""));
        let Some(e) = table.iter().find(|e| e.0 == h) else {
            writeln!(out.lock(), "nosuch\t0").unwrap();
            continue;
        };
        let model: Vec<u8> = (0..m.len() / 2).map(|i| u8::from_str_radix(&m[2 * i..2 * i + 2], 16).unwrap()).collect();
        let param: u32 = k.parse().unwrap();
        S.with(|s| *s.borrow_mut() = St { model, hash: 0xcbf29ce484222325, ..Default::default() });
        let f = e.1;
        // a deep recursion in the code under test must not depend on the main thread's stack
        let r = catch_unwind(AssertUnwindSafe(|| f(param)));
        let o = match r {
            Ok(()) => "ok".to_string(),
            Err(e) => match e.downcast_ref::<Stop>() {
                Some(Stop::Assumed) => "assumed".into(),
                Some(Stop::Assert(k)) => format!("assert {k}"),
                Some(Stop::Known(k)) => format!("known {k}"),
                Some(Stop::Short) => "short".into(),
                None => format!("panic {}", S.with(|s| s.borrow().panic.clone())),
            },
        };
        let (h, t) = S.with(|s| (s.borrow().hash, s.borrow().trace.clone()));
        let mut w = out.lock();
        writeln!(w, "{o}\t{h:016x}").unwrap();
        if verbose {
            writeln!(w, "--- trace\n{}\n---", String::from_utf8_lossy(&t)).unwrap();
        }
    }
}
