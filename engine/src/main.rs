//! symex: bounded symbolic execution of LLVM IR, deciding assertions with Z3.
//! usage: symex FILE.ll --harness a,b,c --out FILE [--jobs N] [--time SEC] [--frontier N] [--prof] [--maxviol N]
mod exec; mod expr; mod ir; mod smt;
use exec::*;
use std::collections::VecDeque;
use std::io::Write;
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::Instant;

extern "C" { fn fork() -> i32; fn waitpid(p: i32, st: *mut i32, o: i32) -> i32; fn _exit(c: i32) -> !; fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8; }

fn arg(a: &[String], k: &str) -> Option<String> { a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned()) }
fn clean(s: &str) -> String { s.replace(['\t', '\n'], " ") }
fn ins(v: &[(u8, u64)]) -> String { v.iter().map(|(w, x)| format!("{}:{}", w, x)).collect::<Vec<_>>().join(",") }

fn dump(ex: &Exec, out: &mut dyn Write) {
    for (h, s) in ex.stats.iter().enumerate() {
        writeln!(out, "S\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}", h, s.paths, s.ok, s.killed, s.exp_panic, s.steps, s.forks, s.checks, s.checks_const, s.checks_smt, s.violations, s.maxdepth).unwrap();
        for (k, n) in &s.reach { writeln!(out, "R\t{}\t{}\t{}", h, k, n).unwrap(); }
        for (k, n) in &s.checkids { writeln!(out, "K\t{}\t{}\t{}", h, k, n).unwrap(); }
    }
    for v in &ex.violations { writeln!(out, "V\t{}\t{}\t{}\t{}\t{}", v.h, clean(&v.what), ins(&v.inputs), clean(&v.stack), v.ghost as u8).unwrap(); }
    for s in &ex.samples { writeln!(out, "P\t{}\t{}\t{}\t{}\t{}", s.h, s.end, ins(&s.inputs), ins(&s.events), s.ghost as u8).unwrap(); }
    for (h, r) in &ex.inconclusive { writeln!(out, "I\t{}\t{}", h, clean(r)).unwrap(); }
    for (i, r) in ex.funcs_run.iter().enumerate() { if *r { writeln!(out, "F\t{}", ex.m.funcs[i].name).unwrap(); } }
    let z = &ex.smt.stats;
    writeln!(out, "Z\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}", z.queries, z.sat, z.unsat, z.unknown, z.time_us, z.cache_hits, z.max_us, ex.tt_checked, ex.inconclusive_total).unwrap();
    for u in &ex.stubs_used { writeln!(out, "U\t{}", u).unwrap(); }
    if ex.prof { let mut l: Vec<_> = ex.fork_sites.iter().collect(); l.sort_by_key(|x| std::cmp::Reverse(*x.1)); for ((f, b, i), n) in l.iter().take(25) { eprintln!("{:8} forks at {} block {} inst {}", n, ex.m.funcs[*f as usize].name, b, i); } }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.iter().any(|x| x == "--selftest") { std::process::exit(if smt::Smt::new(300000).selftest() { 0 } else { 1 }) }
    let out = arg(&a, "--out").expect("--out"); let jobs: u32 = arg(&a, "--jobs").map_or(8, |x| x.parse().unwrap());
    let limit: f64 = arg(&a, "--time").map_or(1e9, |x| x.parse().unwrap()); let frontier_n: usize = arg(&a, "--frontier").map_or(3000, |x| x.parse().unwrap());
    let maxviol: u64 = arg(&a, "--maxviol").map_or(6, |x| x.parse().unwrap());
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&a[1]).expect("read IR");
    let m = Rc::new(ir::parse(&text)); drop(text);
    let hs: Vec<String> = arg(&a, "--harness").expect("--harness").split(',').map(|s| s.to_string()).collect();
    let mut ex = Exec::new(m.clone(), hs.len(), arg(&a, "--smt-ms").map_or(20000, |x| x.parse().unwrap()));
    if limit < 1e8 { ex.deadline = Some(t0 + std::time::Duration::from_secs_f64(limit)); }
    ex.prof = a.iter().any(|x| x == "--prof");
    let parse_s = t0.elapsed().as_secs_f64();
    let mut q: VecDeque<State> = VecDeque::new();
    for (i, h) in hs.iter().enumerate() { let f = *m.fidx.get(h).unwrap_or_else(|| { eprintln!("no harness function {}", h); std::process::exit(70) }); let s = ex.initial(i as u32, f); ex.funcs_run[f as usize] = true; q.push_back(s); }
    // breadth-first until there is enough independent work
    let t1 = Instant::now();
    while q.len() < frontier_n && t0.elapsed().as_secs_f64() < limit && !((q.len() >= 24 * jobs as usize && t1.elapsed().as_secs_f64() > 1.0 || q.len() >= 2 && t1.elapsed().as_secs_f64() > 3.0)) {
        let s = match q.pop_front() { Some(s) => s, None => break };
        match ex.run(s) { Out::End(e, s) => ex.finish(e, &s), Out::Fork(l) => q.extend(l) }
        if ex.stats.iter().map(|s| s.violations + s.gviol / 60).sum::<u64>() >= maxviol { break; }
    }
    let mut f = std::fs::File::create(&out).expect("create out");
    let work: Vec<State> = { let mut v: Vec<_> = q.into_iter().collect(); v.reverse(); v };
    let sh = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) } as *const AtomicU64;
    let (next, viol, left) = unsafe { (&*sh, &*sh.add(1), &*sh.add(2)) };
    viol.store(ex.stats.iter().map(|s| s.violations + s.gviol / 60).sum(), SeqCst);
    let nwork = work.len() as u64; left.store(nwork, SeqCst);
    let front_s = t0.elapsed().as_secs_f64();
    dump(&ex, &mut f);
    let mut bad = false;
    if nwork > 0 {
        // shared: number of running workers, next output number
        let (active, outs) = unsafe { (&*sh.add(3), &*sh.add(4)) };
        active.store(jobs as u64, SeqCst); outs.store(jobs as u64, SeqCst);
        let mut pids = vec![];
        for j in 0..jobs {
            let pid = unsafe { fork() };
            if pid == 0 {
                let mut id = j as u64; let mut kids: Vec<i32> = vec![]; let mut st: Vec<State> = vec![]; let mut own = false;
                fn reset(ex: &mut Exec, id: u64) { for s in &mut ex.stats { *s = HStat::default(); }
                    ex.violations.clear(); ex.samples.clear(); ex.inconclusive.clear(); ex.inconclusive_total = 0; ex.smt.stats = Default::default(); ex.tt_checked = 0; for x in &mut ex.funcs_run { *x = false; } ex.fork_sites.clear(); ex.stubs_used.clear(); ex.seed(id); }
                reset(&mut ex, id);
                let mut seenv = 0; let mut stop = false; let mut since = Instant::now();
                while !stop {
                    if st.is_empty() { if own { left.fetch_sub(1, SeqCst); }
                        let i = next.fetch_add(1, SeqCst); if i >= nwork { break; } st.push(work[i as usize].clone()); own = true; since = Instant::now(); }
                    let s = st.pop().unwrap();
                    match ex.run(s) { Out::End(e, s) => { ex.finish(e, &s);
                            let v: u64 = ex.stats.iter().map(|s| s.violations + s.gviol / 60).sum(); if v > seenv { viol.fetch_add(v - seenv, SeqCst); seenv = v; }
                            if viol.load(SeqCst) >= maxviol || t0.elapsed().as_secs_f64() > limit { stop = true; } }
                        Out::Fork(l) => st.extend(l) }
                    // others have run out of work: give away half of the open paths
                    if !stop && st.len() >= 2 && next.load(SeqCst) >= nwork && active.load(SeqCst) < jobs as u64 && since.elapsed().as_millis() >= 30 {
                        since = Instant::now();
                        if active.fetch_add(1, SeqCst) >= jobs as u64 { active.fetch_sub(1, SeqCst); continue; }
                        left.fetch_add(1, SeqCst); let nid = outs.fetch_add(1, SeqCst);
                        let pid = unsafe { fork() };
                        let (mut a, mut b) = (vec![], vec![]); for (i, s) in st.drain(..).enumerate() { if i % 2 == 0 { a.push(s) } else { b.push(s) } }
                        if pid == 0 { id = nid; kids.clear(); reset(&mut ex, id); seenv = 0; st = a; own = true; } else { kids.push(pid); st = b; }
                    }
                }
                active.fetch_sub(1, SeqCst);
                let mut o = std::fs::File::create(format!("{}.{}", out, id)).unwrap();
                let mut b = std::io::BufWriter::new(&mut o); dump(&ex, &mut b); b.flush().unwrap(); drop(b);
                let mut bad = 0; for p in kids { let mut s = 0; unsafe { waitpid(p, &mut s, 0); } if s != 0 { bad = 1; } }
                unsafe { _exit(bad) }
            }
            pids.push(pid);
        }
        for p in pids { let mut st = 0; unsafe { waitpid(p, &mut st, 0); } if st != 0 { bad = true; eprintln!("worker ended with status {:#x}", st); } }
        for j in 0..outs.load(SeqCst) { let p = format!("{}.{}", out, j); if let Ok(t) = std::fs::read(&p) { f.write_all(&t).unwrap(); let _ = std::fs::remove_file(&p); } else { bad = true; } }
    }
    let l = left.load(SeqCst);
    writeln!(f, "T\t{:.3}\t{:.3}\t{:.3}\t{}\t{}\t{}", parse_s, front_s, t0.elapsed().as_secs_f64(), nwork, l, viol.load(SeqCst)).unwrap();
    for (i, h) in hs.iter().enumerate() { writeln!(f, "H\t{}\t{}", i, h).unwrap(); }
    if bad { std::process::exit(72); }
}
