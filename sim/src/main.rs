//! Deterministic simulation of EASTL-rs: see /verif/DESIGN.md.
#![allow(static_mut_refs)]
use simcore::ctx::*;
use simcore::props::*;
use simcore::worlds::catalog::{self, Def};
use simcore::worlds::threads::{self, Place};
use simcore::{alloc, elem, heap, sched, sys, worlds};
use std::io::Write;

fn register() {
    let all = unsafe { &mut *std::ptr::addr_of_mut!(catalog::ALL) };
    #[cfg(feature = "nightly")]
    all.push(w_conformant::DEFS);
    #[cfg(feature = "stable")]
    for d in [w_vec::DEFS, w_deque::DEFS, w_queue::DEFS, w_list::DEFS, w_flist::DEFS, w_fvec::DEFS, w_hmap::DEFS, w_hset::DEFS, w_vmap::DEFS, w_tree::DEFS, w_ftree::DEFS, w_string::DEFS] {
        all.push(d);
    }
}

const STACK: usize = 256 << 10;
static mut OUT: String = String::new();

fn choose(p: &Prop) -> &'static Def {
    let all: Vec<&'static Def> = catalog::all().filter(|d| p.allows(d)).collect();
    let ws: Vec<u32> = p.groups.iter().map(|g| if all.iter().any(|d| d.g == g.0) { g.1 } else { 0 }).collect();
    let g = p.groups[weighted(&ws)].0;
    let in_g: Vec<&'static Def> = all.into_iter().filter(|d| d.g == g).collect();
    in_g[draw(in_g.len() as u32) as usize]
}

/// One simulated execution, from its seed (or a recorded list of choices) to its end.
fn run_one(p: &'static Prop, seed: u64, run: u64, replay: Option<Vec<Vec<u32>>>) {
    let id = u64::from_str_radix(&p.id[1..], 10).unwrap_or(0);
    let c = cx();
    c.start(mix(mix(seed, 0xEA57), mix(id, run)), run, replay);
    alloc::handles().st.clear();
    alloc::handles().inner.clear();
    alloc::handles().making_inner = false;
    elem::reset_ledger();
    watchdog();
    c.prop = p.id;
    c.report = p.report;
    c.need_kinds = p.need_kinds;
    c.peer = p.peer;
    c.costs = p.costs;
    c.lies = p.lies;
    c.need_threads = p.mode == Mode::Readers;
    c.after = p.after;
    c.after_kinds = p.after_kinds;
    c.oom_mode = p.mode == Mode::Oom;
    if draw(8) < p.fault_runs {
        c.enabled = p.kinds;
        c.fault_den = pick(p.dens);
    }
    elem::led().hash_mode = draw(6);
    let mut want = pick(&[12u32, 40, 40, 100, 250]);
    if c.deep {
        want *= pick(&[1, 1, 3, 8])
    }
    c.heap.configure(p.mode != Mode::Readers);
    match p.mode {
        Mode::Isolation => {
            let n = 2 + draw(3) as usize;
            let mut v = Vec::new();
            for t in 0..n {
                let d = choose(p);
                c.spy = !d.sim;
                c.world = d.name;
                v.push(Place { w: (d.make)(t as u32 + 1, false), spy: !d.sim, name: d.name, busy: false, last: usize::MAX });
                *c.st.worlds.entry(d.name.to_string()).or_insert(0) += 1;
            }
            threads::isolation(v, want / 4 + 2);
        }
        _ => {
            let d = choose(p);
            c.spy = !d.sim;
            c.world = d.name;
            *c.st.worlds.entry(d.name.to_string()).or_insert(0) += 1;
            let mut w = (d.make)(1, p.iter_heavy || draw(4) == 3);
            if p.mode == Mode::Readers {
                threads::readers(w, want.min(100));
            } else {
                worlds::drive(&mut *w, want);
            }
        }
    }
    worlds::end_checks();
    let c = cx();
    unsafe {
        let s = &mut *c.shared;
        s.status = 0;
        let mut h = mix(c.digest, mix(c.heap.seq as u64, c.st.ticks.wrapping_mul(0)));
        for v in &s.tape[..s.tape_len as usize] {
            h = mix(h, *v as u64);
        }
        s.digest = h;
        c.st.runs += 1;
        if c.run_sut_ops >= 4 {
            c.st.runs_seen.insert(h);
        }
    }
}

fn guarded(p: &'static Prop, seed: u64, run: u64, replay: Option<Vec<Vec<u32>>>) {
    let r = std::panic::catch_unwind(|| run_one(p, seed, run, replay));
    if let Err(e) = r {
        violate(Class::Panic, format!("panic outside any operation: {}", sched::panic_text(&*e)));
    }
}

fn watchdog() {
    let secs = if cx().deep { 60 } else if cx().replay.is_some() { 4 } else { 10 };
    let t = sys::Itimerval { interval: [0, 0], value: [secs, 0] };
    unsafe { sys::setitimer(sys::ITIMER_VIRTUAL, &t, std::ptr::null_mut()) };
}

// ---- signals -------------------------------------------------------------------------------------
struct Line {
    n: usize,
}
impl Line {
    fn put(&mut self, s: &[u8]) {
        unsafe {
            let m = &mut (*cx().shared).msg;
            for b in s {
                if self.n < m.len() {
                    m[self.n] = *b;
                    self.n += 1;
                }
            }
        }
    }
    fn hex(&mut self, v: usize) {
        let mut buf = [0u8; 16];
        let mut k = 16;
        let mut v = v;
        loop {
            k -= 1;
            buf[k] = b"0123456789abcdef"[v & 15];
            v >>= 4;
            if v == 0 {
                break;
            }
        }
        self.put(b"0x");
        let b = buf;
        self.put(&b[k..]);
    }
}
unsafe extern "C" fn on_signal(sig: i32, info: *const u8, _c: *const u8) {
    let c = cx();
    let s = &mut *c.shared;
    if sig == sys::SIGABRT && c.oom_mode && s.oom_seen != 0 {
        c.in_sut = false;
        c.st.aborts += 1;
        s.status = 0;
        c.st.runs += 1;
        dump();
        sys::_exit(7);
    }
    let mut l = Line { n: 0 };
    let class = if sig == sys::SIGVTALRM { Class::Hang } else { Class::Crash };
    match sig {
        sys::SIGVTALRM => l.put(b"the operation does not end"),
        sys::SIGABRT => l.put(b"the process was aborted"),
        sys::SIGILL => l.put(b"illegal instruction"),
        sys::SIGFPE => l.put(b"arithmetic fault"),
        _ => {
            let a = *(info.add(16) as *const usize);
            l.put(b"invalid memory access at ");
            if a < 65536 {
                l.put(b"null+");
                l.hex(a);
            } else if (heap::BASE_A..heap::BASE_A + heap::SIZE_A).contains(&a) {
                l.put(if c.heap.frozen { b"write-protected heap+" } else { b"heap+" });
                l.hex(a - heap::BASE_A);
            } else if (heap::BASE_G..heap::BASE_G + heap::SIZE_G).contains(&a) {
                l.put(b"paged+");
                l.hex(a - heap::BASE_G);
            } else {
                l.put(b"an address outside every block (or the stack is exhausted)");
            }
        }
    }
    s.msg_len = l.n as u32;
    s.class = class as u32;
    s.fired = c.fired_run;
    let att = c.attributed();
    s.status = if att { 3 } else { 4 };
    sys::_exit(if att { 5 } else { 4 });
}
fn install() {
    unsafe {
        for sig in [sys::SIGSEGV, sys::SIGBUS, sys::SIGILL, sys::SIGFPE, sys::SIGABRT, sys::SIGVTALRM] {
            let a = sys::SigAction {
                handler: on_signal as *const () as usize,
                mask: [0; 16],
                flags: sys::SA_SIGINFO | sys::SA_ONSTACK,
                restorer: 0,
            };
            sys::sigaction(sig, &a, std::ptr::null_mut());
        }
    }
}

// ---- processes -----------------------------------------------------------------------------------
/// Runs `f` on a simulated main thread of a child process; returns its exit code (negative: signal).
fn child(f: impl FnOnce() + Send + 'static) -> i32 {
    unsafe {
        let pid = sys::fork();
        if pid < 0 {
            return 71;
        }
        if pid == 0 {
            sys::prctl(1, 9, 0, 0, 0);
            install();
            let h = std::thread::Builder::new().stack_size(STACK).spawn(move || {
                sched::adopt_main();
                f();
                exit_now(0)
            });
            let _ = h.map(|h| h.join());
            sys::_exit(72)
        }
        let mut st = 0;
        while sys::waitpid(pid, &mut st, 0) < 0 {}
        if st & 0x7f == 0 {
            (st >> 8) & 0xff
        } else {
            -(st & 0x7f)
        }
    }
}

fn j(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn map_json(m: &std::collections::BTreeMap<String, u64>) -> String {
    let v: Vec<String> = m.iter().map(|(k, v)| format!("{}:{}", j(k), v)).collect();
    format!("{{{}}}", v.join(","))
}
fn append(path: &str, data: &[u8]) {
    if let Ok(mut f) = std::fs::OpenOptions::new().create(true).append(true).open(path) {
        let _ = f.write_all(data);
    }
}
/// Appends this process's statistics to the output and forgets them.
fn dump() {
    let out = unsafe { (*std::ptr::addr_of!(OUT)).clone() };
    if out.is_empty() {
        return;
    }
    let s = std::mem::take(&mut cx().st);
    let ar = |a: &[u64; NFK]| {
        let v: Vec<String> = (0..NFK).map(|i| format!("{}:{}", j(FK_NAMES[i]), a[i])).collect();
        format!("{{{}}}", v.join(","))
    };
    let line = format!(
        "{{\"runs\":{},\"steps\":{},\"ops\":{},\"worlds\":{},\"probes\":{},\"armed\":{},\"fired\":{},\"switches\":{},\"ticks\":{},\"allocs\":{},\"reuses\":{},\"hints\":{},\"guards\":{},\"aborts\":{}}}\n",
        s.runs, s.steps, map_json(&s.ops), map_json(&s.worlds), map_json(&s.probes), ar(&s.armed), ar(&s.fired), s.switches,
        s.ticks, s.allocs, s.reuses, s.hints, s.guards, s.aborts
    );
    append(&format!("{out}.stats"), line.as_bytes());
    let bytes = |h: &std::collections::HashSet<u64>| h.iter().flat_map(|v| v.to_le_bytes()).collect::<Vec<u8>>();
    append(&format!("{out}.states"), &bytes(&s.states));
    append(&format!("{out}.runs"), &bytes(&s.runs_seen));
}

fn new_shared() -> *mut Shared {
    unsafe {
        let n = std::mem::size_of::<Shared>();
        let p = sys::mmap(std::ptr::null_mut(), n, sys::PROT_READ | sys::PROT_WRITE, sys::MAP_SHARED | sys::MAP_ANON, -1, 0);
        if p as isize == -1 {
            eprintln!("no memory");
            std::process::exit(70);
        }
        p as *mut Shared
    }
}
fn setup() {
    // the standard library consults the environment while it reports exhausted memory
    for (k, _) in std::env::vars_os() {
        std::env::remove_var(k);
    }
    unsafe {
        sys::setrlimit(4, &[0, 0]);
        CX = Box::leak(Box::new(Ctx::new(new_shared())));
    }
    std::panic::set_hook(Box::new(|_| {}));
}
fn quiet() {
    unsafe {
        let f = std::fs::OpenOptions::new().write(true).open("/dev/null").unwrap();
        use std::os::fd::AsRawFd;
        sys::dup2(f.as_raw_fd(), 2);
        std::mem::forget(f);
    }
}
fn tape_now() -> Vec<Vec<u32>> {
    unsafe {
        let s = &*cx().shared;
        let mut v = vec![vec![]];
        for x in &s.tape[..s.tape_len as usize] {
            if *x == CHUNK {
                v.push(vec![])
            } else {
                v.last_mut().unwrap().push(*x)
            }
        }
        if s.finishing == 0 {
            v.push(vec![]);
        }
        v
    }
}
fn text(n: u32, b: &[u8]) -> String {
    String::from_utf8_lossy(&b[..n as usize]).replace('\n', " ")
}

#[derive(Clone, PartialEq, Debug)]
struct Viol {
    class: u32,
    op: String,
    msg: String,
    fired: u32,
}
fn viol_now() -> Option<Viol> {
    unsafe {
        let s = &*cx().shared;
        if s.status != 2 && s.status != 3 {
            return None;
        }
        Some(Viol { class: s.class, op: text(s.op_len, &s.op), msg: text(s.msg_len, &s.msg), fired: s.fired })
    }
}
fn tape_text(t: &[Vec<u32>]) -> String {
    let mut o = String::new();
    for c in t {
        let l: Vec<String> = c.iter().map(|v| v.to_string()).collect();
        o.push_str("> ");
        o.push_str(&l.join(" "));
        o.push('\n');
    }
    o
}
fn tape_parse(s: &str) -> Vec<Vec<u32>> {
    s.lines()
        .filter_map(|l| l.strip_prefix('>'))
        .map(|l| l.split_whitespace().filter_map(|w| w.parse().ok()).collect())
        .collect()
}

/// Executes runs first, first+stride, … below total; a violation ends it with exit code 1.
fn work(p: &'static Prop, seed: u64, first: u64, stride: u64, total: u64, secs: u64, out: &str, keep_going: bool) -> i32 {
    unsafe { OUT = out.to_string() };
    let end = std::time::Instant::now() + std::time::Duration::from_secs(secs);
    let mut next = first;
    let mut lost = 0;
    let mut code = 0;
    while next < total && std::time::Instant::now() < end {
        let from = next;
        let rc = child(move || {
            quiet();
            cx().on_exit = Some(dump);
            let mut r = from;
            while r < total && std::time::Instant::now() < end {
                guarded(p, seed, r, None);
                r += stride;
                if cx().st.runs % 512 == 0 {
                    dump();
                }
            }
            unsafe { (*cx().shared).run = r };
        });
        let sh = unsafe { &*cx().shared };
        match rc {
            0 => break,
            7 => next = sh.run + stride,
            3 | 5 => {
                let v = viol_now().unwrap();
                append(
                    &format!("{out}.viol"),
                    format!("{{\"run\":{},\"class\":{},\"op\":{},\"msg\":{},\"fired\":{}}}\n", sh.run, j(CLASS_NAMES[v.class as usize]), j(&v.op), j(&v.msg), v.fired).as_bytes(),
                );
                std::fs::write(format!("{out}.tape{}", sh.run), tape_text(&tape_now())).unwrap();
                code = 1;
                if !keep_going {
                    return 1;
                }
                next = sh.run + stride;
            }
            4 => {
                lost += 1;
                append(
                    &format!("{out}.lost"),
                    format!("{{\"run\":{},\"class\":{},\"op\":{},\"msg\":{}}}\n", sh.run, j(CLASS_NAMES[sh.class as usize]), j(&text(sh.op_len, &sh.op)), j(&text(sh.msg_len, &sh.msg))).as_bytes(),
                );
                if lost > 3000 {
                    break;
                }
                next = sh.run + stride;
            }
            other => {
                eprintln!("simulator process ended with {other} in run {}", sh.run);
                return 2;
            }
        }
    }
    code
}

fn attempt(p: &'static Prop, tape: &[Vec<u32>]) -> Option<Viol> {
    let t = tape.to_vec();
    unsafe { (*cx().shared).status = 0 };
    let rc = child(move || {
        quiet();
        guarded(p, 0, 0, Some(t));
    });
    if rc == 3 || rc == 5 {
        viol_now()
    } else {
        None
    }
}

/// Minimises a failing history: fewer operations, then simpler choices.
fn shrink(p: &'static Prop, tape: Vec<Vec<u32>>, secs: u64) -> Option<(Vec<Vec<u32>>, Viol, u32)> {
    let end = std::time::Instant::now() + std::time::Duration::from_secs(secs);
    let first = attempt(p, &tape)?;
    let mut best = tape;
    let mut tries = 1;
    let same = |v: &Viol| v.class == first.class;
    let live = || std::time::Instant::now() < end;
    // what the failing run actually consumed
    let trim = |best: &mut Vec<Vec<u32>>| {
        let t = tape_now();
        if t.len() <= best.len() {
            *best = t;
        }
    };
    trim(&mut best);
    loop {
        let before = (best.len(), best.iter().map(|c| c.iter().map(|v| *v as u64 + 1).sum::<u64>()).sum::<u64>());
        let mut size = (best.len() / 2).max(1);
        while size >= 1 && live() {
            let mut i = 1;
            while i + size < best.len() + 1 && live() {
                if best.len() - size < 2 {
                    break;
                }
                let mut t = best.clone();
                t.drain(i..(i + size).min(t.len()));
                tries += 1;
                match attempt(p, &t) {
                    Some(v) if same(&v) => {
                        best = t;
                        trim(&mut best);
                    }
                    _ => i += size.max(1),
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        let mut i = 0;
        while i < best.len() && live() {
            // the whole step at its simplest, then value by value
            let mut k = 0;
            while i < best.len() && k < best[i].len() && live() {
                let v = best[i][k];
                for cand in [0, v / 2, v.saturating_sub(1)] {
                    if cand >= v || i >= best.len() || k >= best[i].len() {
                        continue;
                    }
                    let mut t = best.clone();
                    t[i][k] = cand;
                    tries += 1;
                    if let Some(w) = attempt(p, &t) {
                        if same(&w) {
                            best = t;
                            trim(&mut best);
                            break;
                        }
                    }
                    if !live() {
                        break;
                    }
                }
                k += 1;
            }
            i += 1;
        }
        let after = (best.len(), best.iter().map(|c| c.iter().map(|v| *v as u64 + 1).sum::<u64>()).sum::<u64>());
        if !live() || after >= before {
            break;
        }
    }
    let v = attempt(p, &best)?;
    Some((best, v, tries))
}

fn traced(p: &'static Prop, seed: u64, run: u64, tape: Option<Vec<Vec<u32>>>, file: &str) -> i32 {
    unsafe { OUT = file.to_string() };
    let _ = std::fs::remove_file(file);
    child(move || {
        quiet();
        cx().trace_on = true;
        cx().on_exit = Some(|| {
            let f = unsafe { (*std::ptr::addr_of!(OUT)).clone() };
            let t = cx().trace.join("\n");
            append(&f, t.as_bytes());
        });
        guarded(p, seed, run, tape);
    })
}

fn arg(i: usize) -> String {
    std::env::args().nth(i).unwrap_or_default()
}
fn num(i: usize) -> u64 {
    arg(i).parse().unwrap_or(0)
}
fn prop(i: usize) -> &'static Prop {
    let name = arg(i);
    if name.ends_with('+') {
        cx().deep = true;
    }
    match find(name.trim_end_matches('+')) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", arg(i));
            std::process::exit(64)
        }
    }
}

fn main() {
    setup();
    register();
    let code = match arg(1).as_str() {
        // work PROP SEED FIRST STRIDE TOTAL SECONDS OUT [keep]
        "work" => work(prop(2), num(3), num(4), num(5).max(1), num(6), num(7), &arg(8), arg(9) == "keep"),
        // shrink PROP TAPE SECONDS OUT
        "shrink" => {
            let t = tape_parse(&std::fs::read_to_string(arg(3)).unwrap_or_default());
            match shrink(prop(2), t, num(4)) {
                Some((t, v, n)) => {
                    let head = format!("class {}\noperation {}\nmessage {}\nattempts {}\n", CLASS_NAMES[v.class as usize], v.op, v.msg, n);
                    std::fs::write(arg(5), head + &tape_text(&t)).unwrap();
                    0
                }
                None => 2,
            }
        }
        // replay PROP FILE TRACE
        "replay" => {
            let body = std::fs::read_to_string(arg(3)).unwrap_or_default();
            let t = tape_parse(&body);
            let field = |k: &str| body.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").to_string();
            let rc = traced(prop(2), 0, 0, Some(t), &arg(4));
            match viol_now() {
                Some(v) if rc == 3 || rc == 5 => {
                    println!("{}: {} ({})", CLASS_NAMES[v.class as usize], v.msg, v.op);
                    if field("class ") == CLASS_NAMES[v.class as usize] && field("message ") == v.msg && field("operation ") == v.op {
                        1
                    } else {
                        3
                    }
                }
                _ => 0,
            }
        }
        // show PROP SEED RUN FILE
        "show" => {
            let rc = traced(prop(2), num(3), num(4), None, &arg(5));
            let rec = unsafe { &*cx().shared };
            println!("exit {} digest {:016x} {}", rc, rec.digest, text(rec.msg_len, &rec.msg));
            if rc == 0 || rc == 7 { 0 } else { 1 }
        }
        // digest PROP SEED FIRST COUNT: one line per run
        "digest" => {
            let (p, seed, first, n) = (prop(2), num(3), num(4), num(5));
            for r in first..first + n {
                let rc = child(move || {
                    quiet();
                    guarded(p, seed, r, None);
                });
                let s = unsafe { &*cx().shared };
                let mut h = 0;
                for v in &s.tape[..s.tape_len as usize] {
                    h = mix(h, *v as u64);
                }
                println!("{r} {rc} {:016x} {:016x}", s.digest, h);
            }
            0
        }
        "list" => {
            for d in catalog::all() {
                println!("{:?} {}", d.g, d.name);
            }
            0
        }
        _ => {
            eprintln!("usage: sim work|shrink|replay|show|digest|list …");
            64
        }
    };
    std::process::exit(code)
}
