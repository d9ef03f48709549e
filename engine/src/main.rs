mod exec;
mod expr;
mod ir;
mod mem;
mod solver;
use exec::*;
use std::collections::BTreeSet;
use std::fmt::Write as _;
use std::io::Write as _;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn main() {
    let mut args = std::env::args().skip(1);
    let file = args.next().expect("usage: engine FILE.ll [options] --harness NAME ...");
    let mut harnesses: Vec<String> = vec![];
    let mut only: Option<u32> = None;
    let mut threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4);
    let mut out = String::from("/dev/stdout");
    let mut max_paths = 2_000_000u64;
    let mut max_steps = 20_000_000_000u64;
    let mut path_steps = 50_000_000u64;
    let mut job_time = 600u64;
    let mut total = 3600u64;
    let mut samples = 40usize;
    let mut z3_ms = 20_000u32;
    let mut max_viol = 8usize;
    let mut xcheck = 0u64;
    let mut verbose = false;
    let mut shuffle_seed = 0u64;
    while let Some(a) = args.next() {
        let mut v = || args.next().expect("option value");
        match a.as_str() {
            "--harness" => harnesses.push(v()),
            "--param" => only = Some(v().parse().unwrap()),
            "--threads" => threads = v().parse().unwrap(),
            "--out" => out = v(),
            "--max-paths" => max_paths = v().parse().unwrap(),
            "--max-steps" => max_steps = v().parse().unwrap(),
            "--path-steps" => path_steps = v().parse().unwrap(),
            "--job-time" => job_time = v().parse().unwrap(),
            "--time" => total = v().parse().unwrap(),
            "--samples" => samples = v().parse().unwrap(),
            "--z3-ms" => z3_ms = v().parse().unwrap(),
            "--max-viol" => max_viol = v().parse().unwrap(),
            "--xcheck" => xcheck = v().parse().unwrap(),
            "--seed" => shuffle_seed = v().parse().unwrap(),
            "-v" => verbose = true,
            _ => panic!("option {a}"),
        }
    }
    let t0 = Instant::now();
    let text: &'static str = Box::leak(std::fs::read_to_string(&file).expect("read IR").into_boxed_str());
    let prog: &'static Prog = Box::leak(Box::new(Prog::new(text)));
    let parse_s = t0.elapsed().as_secs_f64();
    let mut jobs: Vec<(String, u32)> = vec![];
    let mut errors: Vec<String> = vec![];
    for h in &harnesses {
        let cnt = format!("{h}__count");
        let n = if prog.m.fn_idx.contains_key(cnt.as_str()) {
            match Exec::call_u32(prog, &cnt) {
                Ok(n) => n,
                Err(e) => {
                    errors.push(e);
                    0
                }
            }
        } else {
            1
        };
        for i in 0..n {
            if only.map_or(true, |o| o == i) {
                jobs.push((h.clone(), i));
            }
        }
    }
    // a deterministic permutation spreads heavy neighbours over the run
    let mut s = shuffle_seed.wrapping_mul(0x9e3779b97f4a7c15) ^ 0x1234567;
    for i in (1..jobs.len()).rev() {
        s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let j = (s >> 33) as usize % (i + 1);
        jobs.swap(i, j);
    }
    let deadline = t0 + Duration::from_secs(total);
    let lim = Limits {
        max_paths,
        max_steps,
        max_path_steps: path_steps,
        time: Duration::from_secs(job_time),
        max_viol,
        samples,
        z3_ms,
        xcheck,
        deadline,
    };
    let next = AtomicUsize::new(0);
    let results: Mutex<Vec<JobResult>> = Mutex::new(vec![]);
    std::thread::scope(|sc| {
        for _ in 0..threads.min(jobs.len().max(1)) {
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn_scoped(sc, || loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= jobs.len() {
                        break;
                    }
                    let (h, p) = &jobs[i];
                    let lim = &lim;
                    let r = if Instant::now() > deadline {
                        JobResult { harness: h.clone(), param: *p, why: "not started: time budget".into(), ..Default::default() }
                    } else {
                        std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Exec::new(prog, lim).run(h, *p))).unwrap_or_else(|e| {
                            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()));
                            JobResult { harness: h.clone(), param: *p, error: Some(format!("engine panic: {}", m.unwrap_or_default())), ..Default::default() }
                        })
                    };
                    if verbose {
                        eprintln!(
                            "{}#{} paths={} forks={} steps={} q={} dom={} viol={} asserts={}+{} {:.1}s z3={:.1}s{}{}",
                            r.harness, r.param, r.paths, r.forks, r.steps, r.queries, r.dom_decisions, r.nviol, r.asserts_path, r.asserts_solver, r.wall_s, r.solver_s,
                            if r.complete { String::new() } else { format!(" INCOMPLETE {}", r.why) },
                            r.error.as_ref().map(|e| format!(" ERROR {e}")).unwrap_or_default()
                        );
                        for v in &r.violations {
                            eprintln!("    {} id={} {} model={} {:?}", v.kind, v.id, v.msg, hex(&v.model), String::from_utf8_lossy(&v.model));
                        }
                    }
                    results.lock().unwrap().push(r);
                })
                .unwrap();
        }
    });
    let mut res = results.into_inner().unwrap();
    res.sort_by(|a, b| (&a.harness, a.param).cmp(&(&b.harness, b.param)));
    let mut fns: BTreeSet<u32> = BTreeSet::new();
    let mut o = String::from("{\n\"jobs\":[\n");
    for (i, r) in res.iter().enumerate() {
        fns.extend(&r.fns);
        if i > 0 {
            o.push_str(",\n");
        }
        let viol: Vec<String> = r
            .violations
            .iter()
            .map(|v| format!("{{\"kind\":{},\"id\":{},\"msg\":{},\"model\":\"{}\"}}", js(&v.kind), v.id, js(&v.msg), hex(&v.model)))
            .collect();
        let known: Vec<String> = r.known.iter().map(|(k, m)| format!("{{\"id\":{k},\"model\":\"{}\"}}", hex(m))).collect();
        let reach: Vec<String> = r.reach.iter().map(|(k, m)| format!("\"{k}\":{m}")).collect();
        let samples: Vec<String> = r
            .samples
            .iter()
            .map(|s| format!("{{\"o\":{},\"m\":\"{}\",\"t\":\"{:016x}\"}}", js(&s.outcome), hex(&s.model), s.trace))
            .collect();
        let _ = write!(
            o,
            "{{\"harness\":{},\"param\":{},\"paths\":{},\"forks\":{},\"assumed\":{},\"steps\":{},\"asserts_path\":{},\"asserts_solver\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cached\":{},\"dom\":{},\"xok\":{},\"solver_s\":{:.3},\"wall_s\":{:.3},\"complete\":{},\"why\":{},\"error\":{},\"nsym\":{},\"nviol\":{},\"violations\":[{}],\"known\":[{}],\"reach\":{{{}}},\"samples\":[{}]}}",
            js(&r.harness), r.param, r.paths, r.forks, r.assumed_away, r.steps, r.asserts_path, r.asserts_solver, r.queries, r.q_sat, r.q_unsat, r.q_unknown, r.q_cached, r.dom_decisions, r.xok, r.solver_s, r.wall_s, r.complete, js(&r.why),
            r.error.as_ref().map(|e| js(e)).unwrap_or("null".into()), r.nsym, r.nviol, viol.join(","), known.join(","), reach.join(","), samples.join(",")
        );
    }
    let names: Vec<String> = fns
        .iter()
        .map(|f| {
            let i = &prog.m.fns[*f as usize];
            js(if i.demangled.is_empty() { i.name } else { i.demangled })
        })
        .collect();
    let errs: Vec<String> = errors.iter().map(|e| js(e)).collect();
    let _ = write!(
        o,
        "\n],\n\"functions\":[{}],\n\"errors\":[{}],\n\"parse_s\":{:.2},\"wall_s\":{:.2}\n}}\n",
        names.join(","),
        errs.join(","),
        parse_s,
        t0.elapsed().as_secs_f64()
    );
    std::fs::File::create(&out).expect("out").write_all(o.as_bytes()).unwrap();
}
