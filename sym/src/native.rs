//! Native replay of one recorded execution: defines nothing unless `replay_main!` is used.
use std::cell::RefCell;

#[derive(Default)]
pub struct Rec { pub inputs: Vec<(u8, u64)>, pub pos: usize, pub events: Vec<(u8, u64)>, pub failed: Option<u32>, pub expect: u32, pub mismatch: Option<String>, pub note: String }
thread_local! { pub static REC: RefCell<Rec> = RefCell::new(Rec::default()); }
pub struct Stop;

pub fn next(w: u32) -> u64 {
    REC.with(|r| { let mut r = r.borrow_mut(); let p = r.pos; r.pos += 1;
        match r.inputs.get(p).cloned() { Some((iw, v)) => { if iw as u32 != w && r.mismatch.is_none() { r.mismatch = Some(format!("input {} has width {} not {}", p, iw, w)); } v } None => { if r.mismatch.is_none() { r.mismatch = Some("more inputs asked for than recorded".into()); } 0 } } })
}
pub fn check(c: bool, id: u32) { if !c { REC.with(|r| r.borrow_mut().failed = Some(id)); std::panic::panic_any(Stop); } }
pub fn assume(c: bool) { if !c { REC.with(|r| r.borrow_mut().mismatch = Some("assumption does not hold".into())); std::panic::panic_any(Stop); } }
pub fn note(s: &str) { REC.with(|r| { let n = &mut r.borrow_mut().note; n.push_str(&format!("{:?} ", s)); }) }
pub fn event(k: u8, v: u64) { REC.with(|r| r.borrow_mut().events.push((k, v))); }

/// runs one harness on recorded inputs; returns "OK|FAIL id|PANIC msg|EXPECTED|MISSING|MISMATCH why" and the events
pub fn run(f: fn(), inputs: Vec<(u8, u64)>) -> (String, Vec<(u8, u64)>, String) {
    REC.with(|r| *r.borrow_mut() = Rec { inputs, ..Default::default() });
    let res = std::panic::catch_unwind(|| f());
    let rec = REC.with(|r| std::mem::take(&mut *r.borrow_mut()));
    let out = if let Some(m) = rec.mismatch { format!("MISMATCH {}", m) } else if let Some(id) = rec.failed { format!("FAIL {}", id) }
        else { match res { Ok(()) => if rec.expect != 0 { format!("MISSING {}", rec.expect) } else { "OK".into() },
            Err(e) => if rec.expect != 0 { "EXPECTED".into() } else { format!("PANIC {}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default().replace(['\n', '\t'], " ")) } } };
    (out, rec.events, rec.note)
}
pub fn parse_inputs(s: &str) -> Vec<(u8, u64)> { s.split(',').filter(|x| !x.is_empty()).map(|x| { let (a, b) = x.split_once(':').unwrap(); (a.parse().unwrap(), b.parse().unwrap()) }).collect() }

extern "C" { fn fork() -> i32; fn waitpid(p: i32, s: *mut i32, o: i32) -> i32; fn prctl(o: i32, ...) -> i32; fn _exit(c: i32) -> !; }
/// reads lines "harness<TAB>inputs" and answers "result<TAB>events"
pub fn main_loop(table: &[(&str, fn())]) {
    std::panic::set_hook(Box::new(|_| {}));
    let mut line = String::new();
    while { line.clear(); std::io::stdin().read_line(&mut line).unwrap() > 0 } {
        let mut it = line.trim_end_matches('\n').split('\t'); let h = it.next().unwrap(); let inp = it.next().unwrap_or("");
        match table.iter().find(|x| x.0 == h) { None => println!("UNKNOWN\t\t"), Some((_, f)) => unsafe {
            // a process of its own for each run: what one run leaves in static variables is not there in the next
            let pid = fork();
            if pid == 0 { prctl(1, 9); let (r, ev, note) = run(*f, parse_inputs(inp)); println!("{}\t{}\t{}", r, ev.iter().map(|(k, v)| format!("{}:{}", k, v)).collect::<Vec<_>>().join(","), note); _exit(0) }
            let mut st = 0; if pid < 0 || waitpid(pid, &mut st, 0) < 0 { panic!("fork") }
            if st != 0 { println!("CRASH ended with status {}\t\t", st) }
        } }
    }
}

#[macro_export]
macro_rules! native_defs { () => {
    #[no_mangle] pub extern "C-unwind" fn __sym_bits(w: u32) -> u64 { $crate::native::next(w) }
    #[no_mangle] pub extern "C-unwind" fn __sym_choice(_n: u32) -> u32 { $crate::native::next(8) as u32 }
    #[no_mangle] pub extern "C-unwind" fn __sym_assume(c: bool) { $crate::native::assume(c) }
    #[no_mangle] pub extern "C-unwind" fn __sym_check(c: bool, id: u32) { $crate::native::check(c, id) }
    #[no_mangle] pub extern "C-unwind" fn __sym_reach(id: u32) { $crate::native::event(0, id as u64) }
    #[no_mangle] pub extern "C-unwind" fn __sym_observe(v: u64) { $crate::native::event(1, v) }
    #[no_mangle] pub extern "C-unwind" fn __sym_expect_panic(id: u32) { $crate::native::REC.with(|r| r.borrow_mut().expect = id) }
    #[no_mangle] pub extern "C-unwind" fn __sym_split(v: u64) -> u64 { v }
    #[no_mangle] pub extern "C-unwind" fn __sym_float_mode(_p: u32) {}
    #[no_mangle] pub extern "C-unwind" fn __sym_int(_w: u32) -> u64 { 0 }
    #[no_mangle] pub extern "C-unwind" fn __sym_int_text(_p: *const u8, _n: usize) {}
} }
