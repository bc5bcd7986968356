//! Run context: the choice tape, fault plan, violation reporting, statistics.
//!
//! One integer decides a run: every choice the simulator makes is drawn here, in chunks (one chunk
//! per operation or scheduler decision), from a PRNG seeded by (VERIF_SEED, property, run index), and
//! is recorded in a file-backed map so that the tape survives a crash of the process.
use crate::heap::Heap;
use crate::sys;
use std::collections::{BTreeMap, HashSet};

pub const TAPE_CAP: usize = 1 << 20;
pub const CHUNK: u32 = 0xFFFF_FFFF;

#[repr(C)]
pub struct Shared {
    pub magic: u64,
    pub run: u64,
    pub status: u32, // 0 idle, 1 running, 2 violation, 3 signal, 4 unattributed
    pub class: u32,
    pub fired: u32,
    pub nops: u32,
    pub msg_len: u32,
    pub op_len: u32,
    pub msg: [u8; 4096],
    pub op: [u8; 256],
    pub digest: u64,
    pub oom_seen: u32,
    pub finishing: u32,
    pub tape_len: u32,
    pub tape: [u32; TAPE_CAP],
}

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
#[repr(u32)]
pub enum Class {
    Model = 0,
    Panic = 1,
    Iter = 2,
    Capacity = 3,
    Inline = 4,
    Moved = 5,
    Proto = 6,
    Leak = 7,
    Oob = 8,
    ElemUse = 9,
    ElemLeak = 10,
    Handle = 11,
    Misaligned = 12,
    Crash = 13,
    Hang = 14,
    Nul = 15,
    Utf8 = 16,
    Strong = 17,
    Pool = 18,
    Peer = 19,
    Order = 20,
    Space = 21,
    Work = 22,
}
pub const CLASS_NAMES: [&str; 23] = [
    "content-mismatch", "unexpected-panic", "iterator-mismatch", "capacity-claim", "inline-storage",
    "element-moved", "allocator-protocol", "memory-leak", "out-of-bounds-or-stale-access", "dead-element-used",
    "element-leak", "allocator-handle", "misaligned-element", "crash-signal", "hang", "not-nul-terminated",
    "invalid-utf8", "failed-operation-not-atomic", "pool-ownership", "peer-view", "order-or-uniqueness", "memory-out-of-proportion",
    "work-out-of-proportion",
];
pub const fn bit(c: Class) -> u32 {
    1 << (c as u32)
}
/// Memory corruption in any form: reported by every check.
pub const CORRUPT: u32 = bit(Class::Oob) | bit(Class::ElemUse) | bit(Class::Misaligned) | bit(Class::Crash) | bit(Class::Hang);
/// Found only at a release point; a run may go on when this property does not cover them.
pub const BENIGN: u32 = bit(Class::Leak) | bit(Class::ElemLeak) | bit(Class::Handle) | bit(Class::Proto) | bit(Class::Moved)
    | bit(Class::Inline) | bit(Class::Pool) | bit(Class::Nul) | bit(Class::Capacity) | bit(Class::Space) | bit(Class::Work);

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
#[repr(u32)]
pub enum FK {
    Alloc = 0,
    Clone = 1,
    Drop = 2,
    Eq = 3,
    Cmp = 4,
    Hash = 5,
    Closure = 6,
    Iter = 7,
    Fmt = 8,
    Oom = 9,
}
pub const NFK: usize = 10;
pub const FK_NAMES: [&str; NFK] = [
    "allocation-unwinds", "clone-unwinds", "destructor-unwinds", "eq-unwinds", "compare-unwinds", "hash-unwinds",
    "closure-unwinds", "source-iterator-unwinds", "formatter-unwinds", "system-out-of-memory",
];
pub const fn fb(k: FK) -> u32 {
    1 << (k as u32)
}
pub struct SimFault(pub FK);

pub enum Out<R> {
    Ok(R),
    Fault(FK),
    Panic(String),
}

/// What the system under test has asked of its surroundings so far.
#[derive(Default, Clone, Copy)]
pub struct Work {
    /// Requests made by containers (not by elements), and their bytes.
    pub reqs: u64,
    pub bytes: u64,
    /// Calls of user code, by kind.
    pub calls: [u64; NFK],
}
impl Work {
    pub fn now() -> Self {
        cx().work
    }
    /// What happened since.
    pub fn since(&self) -> Self {
        let mut w = cx().work;
        w.reqs -= self.reqs;
        w.bytes -= self.bytes;
        for (a, b) in w.calls.iter_mut().zip(self.calls) {
            *a -= b
        }
        w
    }
    pub fn of(&self, k: FK) -> u64 {
        self.calls[k as usize]
    }
}

#[derive(Default, Clone)]
pub struct Stats {
    pub runs: u64,
    pub steps: u64,
    pub ops: BTreeMap<String, u64>,
    pub worlds: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub armed: [u64; NFK],
    pub fired: [u64; NFK],
    pub switches: u64,
    pub ticks: u64,
    pub allocs: u64,
    pub reuses: u64,
    pub hints: u64,
    pub guards: u64,
    pub nontrivial: u64,
    pub digest: u64,
    pub states: HashSet<u64>,
    pub runs_seen: HashSet<u64>,
    pub aborts: u64,
}

pub struct Ctx {
    pub shared: *mut Shared,
    rng: u64,
    pub replay: Option<Vec<Vec<u32>>>,
    /// Longer histories and larger containers (the thorough tier).
    pub deep: bool,
    /// A foreign peer reads and edits the same containers.
    pub peer: bool,
    /// Memory held and work done are measured against what the history justifies.
    pub costs: bool,
    /// Hash, equality and order callbacks contradict themselves in some phases.
    pub lies: bool,
    /// How rarely equality tests, comparisons and hashes lie now (0: never), and in which way.
    pub lie_den: [u32; 3],
    pub lie_style: u32,
    pub told: [u64; 3],
    pub work: Work,
    pub chunk_no: usize,
    pos: usize,
    // property configuration
    pub report: u32,
    /// Violations count only in runs in which one of these faults fired (0: always).
    pub need_kinds: u32,
    /// Violations count only while several threads run.
    pub need_threads: bool,
    /// Further classes that count once one of `after_kinds` fired.
    pub after: u32,
    pub after_kinds: u32,
    pub enabled: u32,
    pub fault_den: u32,
    // run state
    pub in_sut: bool,
    pub spy: bool,
    pub armed: Option<FK>,
    pub countdown: u32,
    pub fault_in_op: Option<FK>,
    pub fired_run: u32,
    pub leak_exempt: bool,
    pub op: &'static str,
    pub world: &'static str,
    pub trace_on: bool,
    pub trace: Vec<String>,
    pub digest: u64,
    pub run_ops: u32,
    pub run_sut_ops: u32,
    pub threads: bool,
    pub quiet_place: bool,
    pub oom_mode: bool,
    /// The operation about to run asks for more than can exist: being stopped is the right outcome.
    pub stop_ok: bool,
    pub heap: Heap,
    pub st: Stats,
    pub prop: &'static str,
    pub on_exit: Option<fn()>,
    pub selfcheck: bool,
}

pub static mut CX: *mut Ctx = std::ptr::null_mut();
#[inline(always)]
pub fn cx() -> &'static mut Ctx {
    unsafe { &mut *CX }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut z = a ^ b.wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(17);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Ctx {
    pub fn new(shared: *mut Shared) -> Self {
        Ctx {
            shared,
            rng: 0,
            replay: None,
            deep: false,
            peer: false,
            costs: false,
            lies: false,
            lie_den: [0; 3],
            lie_style: 0,
            told: [0; 3],
            work: Work::default(),
            chunk_no: 0,
            pos: 0,
            report: !0,
            need_kinds: 0,
            need_threads: false,
            after: 0,
            after_kinds: 0,
            enabled: 0,
            fault_den: 0,
            in_sut: false,
            spy: false,
            armed: None,
            countdown: 0,
            fault_in_op: None,
            fired_run: 0,
            leak_exempt: false,
            op: "",
            world: "",
            trace_on: false,
            trace: Vec::new(),
            digest: 0,
            run_ops: 0,
            run_sut_ops: 0,
            threads: false,
            quiet_place: false,
            oom_mode: false,
            stop_ok: false,
            heap: Heap::new(),
            st: Stats::default(),
            prop: "",
            on_exit: None,
            selfcheck: false,
        }
    }

    pub fn start(&mut self, seed: u64, run: u64, replay: Option<Vec<Vec<u32>>>) {
        self.rng = seed;
        self.replay = replay;
        self.chunk_no = 0;
        self.pos = 0;
        self.in_sut = false;
        self.spy = false;
        self.armed = None;
        self.fault_in_op = None;
        self.fired_run = 0;
        self.work = Work::default();
        self.lie_den = [0; 3];
        self.told = [0; 3];
        self.leak_exempt = false;
        self.op = "";
        self.world = "";
        self.trace.clear();
        self.digest = 0;
        self.run_ops = 0;
        self.run_sut_ops = 0;
        self.threads = false;
        self.quiet_place = false;
        self.oom_mode = false;
        self.stop_ok = false;
        self.enabled = 0;
        self.fault_den = 0;
        self.heap.reset();
        unsafe {
            let s = &mut *self.shared;
            s.run = run;
            s.status = 1;
            s.class = 0;
            s.fired = 0;
            s.nops = 0;
            s.msg_len = 0;
            s.op_len = 0;
            s.oom_seen = 0;
            s.finishing = 0;
            s.tape_len = 0;
        }
    }

    pub fn covered(&self, class: Class) -> bool {
        let more = if self.fired_run & self.after_kinds != 0 { self.after } else { 0 };
        (self.report | CORRUPT | more) & bit(class) != 0
    }
    pub fn attributed(&self) -> bool {
        (self.need_kinds == 0 || self.fired_run & self.need_kinds != 0) && (!self.need_threads || self.threads)
    }

    fn rec(&mut self, v: u32) {
        unsafe {
            let s = &mut *self.shared;
            let n = s.tape_len as usize;
            if n < TAPE_CAP {
                s.tape[n] = v;
                s.tape_len = n as u32 + 1;
            }
        }
    }

    /// Starts the next chunk of choices.
    pub fn chunk(&mut self) {
        self.rec(CHUNK);
        self.chunk_no += 1;
        self.pos = 0;
    }

    /// A choice in 0..n. Zero is always the simplest alternative.
    pub fn draw(&mut self, n: u32) -> u32 {
        if n <= 1 {
            return 0;
        }
        let v = match &self.replay {
            Some(t) => {
                let v = t.get(self.chunk_no).and_then(|c| c.get(self.pos)).copied().unwrap_or(0);
                self.pos += 1;
                v % n
            }
            None => {
                self.rng = self.rng.wrapping_add(0x9E37_79B9_7F4A_7C15);
                let mut z = self.rng;
                z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
                z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
                z ^= z >> 31;
                ((z >> 32).wrapping_mul(n as u64) >> 32) as u32
            }
        };
        self.rec(v);
        v
    }

    /// Are there more operations to perform? (During replay the tape decides.)
    pub fn more(&self, done: u32, want: u32) -> bool {
        match &self.replay {
            Some(t) => self.chunk_no + 2 < t.len(),
            None => done < want,
        }
    }
}

pub fn draw(n: u32) -> u32 {
    cx().draw(n)
}
/// True with probability num/den; false is the simple alternative.
pub fn chance(num: u32, den: u32) -> bool {
    cx().draw(den) >= den - num.min(den)
}
pub fn pick<T: Copy>(xs: &[T]) -> T {
    xs[draw(xs.len() as u32) as usize]
}
/// Weighted choice of an index; zero-weight entries are never chosen.
pub fn weighted(ws: &[u32]) -> usize {
    let tot: u32 = ws.iter().sum();
    let mut r = draw(tot.max(1));
    for (i, w) in ws.iter().enumerate() {
        if r < *w {
            return i;
        }
        r -= *w;
    }
    ws.len() - 1
}

#[macro_export]
macro_rules! trace {
    ($($a:tt)*) => {
        if $crate::ctx::cx().trace_on {
            let s = format!($($a)*);
            $crate::ctx::cx().trace.push(s);
        }
    };
}

pub fn note(v: u64) {
    let c = cx();
    c.digest = mix(c.digest, v);
}

pub fn probe(name: &'static str) {
    let c = cx();
    match c.st.probes.get_mut(name) {
        Some(v) => *v += 1,
        None => {
            c.st.probes.insert(name.to_string(), 1);
        }
    }
}

/// Names the operation about to run.
pub fn op(name: &'static str) {
    let c = cx();
    c.op = name;
    c.run_ops += 1;
    c.st.steps += 1;
    unsafe {
        (*c.shared).nops = c.run_ops;
        let s = &mut *c.shared;
        let text = name.as_bytes();
        let n = text.len().min(200);
        s.op[..n].copy_from_slice(&text[..n]);
        s.op_len = n as u32;
    }
    match c.st.ops.get_mut(name) {
        Some(v) => *v += 1,
        None => {
            c.st.ops.insert(format!("{}:{}", c.world, name), 0);
            c.st.ops.insert(name.to_string(), 1);
        }
    }
}

/// Folds an abstract state into the coverage measure.
pub fn state(a: u64, b: u64, c: u64) {
    let k = cx();
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in k.world.bytes().chain(k.op.bytes()) {
        h = (h ^ x as u64).wrapping_mul(0x100_0000_01b3);
    }
    let f = k.fault_in_op.map_or(0, |f| f as u64 + 1);
    k.st.states.insert(mix(h, mix(a, mix(b, mix(c, f)))));
}

fn put(msg: &str) {
    unsafe {
        let s = &mut *cx().shared;
        let n = msg.len().min(s.msg.len());
        s.msg[..n].copy_from_slice(&msg.as_bytes()[..n]);
        s.msg_len = n as u32;
    }
}

/// Reports a violation. Returns only when the property being checked does not cover this class and
/// the run can meaningfully go on.
pub fn violate(class: Class, msg: impl AsRef<str>) {
    let c = cx();
    c.in_sut = false;
    let b = bit(class);
    let covered = c.covered(class);
    let attributed = c.attributed();
    if !covered && BENIGN & b != 0 {
        return;
    }
    if c.trace_on {
        c.trace.push(format!("  !! {}: {}", CLASS_NAMES[class as usize], msg.as_ref()));
    }
    put(msg.as_ref());
    unsafe {
        let s = &mut *c.shared;
        s.class = class as u32;
        s.fired = c.fired_run;
        s.status = if covered && attributed { 2 } else { 4 };
        let code = if covered && attributed { 3 } else { 4 };
        exit_now(code)
    }
}

pub fn exit_now(code: i32) -> ! {
    if let Some(f) = cx().on_exit {
        f()
    }
    unsafe { sys::_exit(code) }
}

/// Leaves harness code: the system under test runs inside `f`.
pub fn sut<R>(kinds: u32, f: impl FnOnce() -> R) -> Out<R> {
    let c = cx();
    c.fault_in_op = None;
    c.armed = None;
    c.run_sut_ops += 1;
    let en = c.enabled & kinds;
    if en != 0 && c.fault_den != 0 && chance(1, c.fault_den) {
        let mut ks: [FK; NFK] = [FK::Alloc; NFK];
        let mut n = 0;
        for k in [FK::Alloc, FK::Clone, FK::Drop, FK::Eq, FK::Cmp, FK::Hash, FK::Closure, FK::Iter, FK::Fmt, FK::Oom] {
            if en & fb(k) != 0 {
                ks[n] = k;
                n += 1;
            }
        }
        let k = ks[draw(n as u32) as usize];
        let nth = [0, 1, 2, 3, 4, 6, 9, 15][draw(8) as usize];
        c.armed = Some(k);
        c.countdown = nth;
        c.st.armed[k as usize] += 1;
    }
    unsafe { (*c.shared).oom_seen = c.stop_ok as u32 };
    c.in_sut = true;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    let c = cx();
    c.in_sut = false;
    c.armed = None;
    let stop_ok = std::mem::take(&mut c.stop_ok) || (c.oom_mode && unsafe { (*c.shared).oom_seen != 0 });
    match r {
        Ok(v) => Out::Ok(v),
        Err(p) => {
            if let Some(SimFault(k)) = p.downcast_ref::<SimFault>() {
                let k = *k;
                trace!("    fault {} unwound out of the operation", FK_NAMES[k as usize]);
                note(0xF000 + k as u64);
                Out::Fault(k)
            } else {
                let m = if let Some(s) = p.downcast_ref::<&str>() {
                    s.to_string()
                } else if let Some(s) = p.downcast_ref::<String>() {
                    s.clone()
                } else {
                    "non-string panic".to_string()
                };
                note(0xE000);
                if stop_ok {
                    trace!("    stopped: {m}");
                    probe("impossible request stopped by a panic");
                    return Out::Fault(FK::Oom);
                }
                Out::Panic(m)
            }
        }
    }
}

/// A size no memory can satisfy for elements of `sz` bytes when `have` already fit.
pub fn huge(sz: usize, have: usize) -> usize {
    cx().stop_ok = true;
    let k = match draw(6) {
        0 => usize::MAX - have - draw(3) as usize,
        1 => (usize::MAX / sz).wrapping_sub(have).wrapping_add(draw(3) as usize),
        2 => (1usize << 63) / sz + draw(4) as usize,
        3 => (usize::MAX / sz).wrapping_add(1).wrapping_sub(have).wrapping_add(draw(8) as usize),
        4 => usize::MAX - draw(3) as usize,
        _ => crate::alloc::LIMIT / sz + 1 + draw(1000) as usize,
    };
    let k = if k < 1 << 20 { usize::MAX / 2 } else { k };
    trace!("      impossible: {k:#x}");
    k
}

/// Should the fault of this kind fire now? Called from every seam.
pub fn fault(k: FK) -> bool {
    let c = cx();
    if !c.in_sut || c.armed != Some(k) || std::thread::panicking() {
        return false;
    }
    if c.countdown > 0 {
        c.countdown -= 1;
        return false;
    }
    c.armed = None;
    c.fault_in_op = Some(k);
    c.fired_run |= fb(k);
    c.st.fired[k as usize] += 1;
    unsafe {
        (*c.shared).fired = c.fired_run;
    }
    if k == FK::Drop {
        c.leak_exempt = true;
    }
    true
}

/// RAII: harness code called back from inside the system under test.
pub struct InHarness(bool);
impl InHarness {
    #[inline]
    pub fn enter() -> Self {
        let c = cx();
        let p = c.in_sut;
        c.in_sut = false;
        InHarness(p)
    }
}
impl Drop for InHarness {
    #[inline]
    fn drop(&mut self) {
        cx().in_sut = self.0;
    }
}

/// A seam callback: fires an armed fault of kind `k` (unwinding), after letting the scheduler switch.
#[inline]
pub fn seam(k: FK) {
    let c = cx();
    c.st.ticks += 1;
    if c.in_sut {
        c.work.calls[k as usize] += 1;
    }
    if c.threads {
        crate::sched::yield_point(k as u32);
    }
    if fault(k) {
        throw(k)
    }
}
pub fn throw(k: FK) -> ! {
    let p = {
        let _h = InHarness::enter();
        Box::new(SimFault(k)) as Box<dyn std::any::Any + Send>
    };
    std::panic::resume_unwind(p)
}

fn lie(i: usize) -> bool {
    let c = cx();
    let den = c.lie_den[i];
    if den == 0 || !c.in_sut || !chance(1, den) {
        return false;
    }
    c.told[i] += 1;
    true
}
/// The answer an equality test gives.
pub fn told_eq(truth: bool) -> bool {
    if lie(0) {
        return [!truth, true, false][cx().lie_style as usize % 3];
    }
    truth
}
/// The answer a comparison gives.
pub fn told_less(truth: bool) -> bool {
    if lie(1) {
        return [!truth, true, false][cx().lie_style as usize / 3 % 3];
    }
    truth
}
pub fn told_cmp(truth: Option<std::cmp::Ordering>) -> Option<std::cmp::Ordering> {
    use std::cmp::Ordering::*;
    if lie(1) {
        return [None, Some(Less), Some(Greater), Some(Equal)][draw(4) as usize];
    }
    truth
}
/// The hash that is given.
pub fn told_hash(truth: usize) -> usize {
    if lie(2) {
        return match draw(5) {
            0 => 0,
            1 => truth.wrapping_add(1),
            2 => usize::MAX - draw(3) as usize,
            3 => draw(1 << 16) as usize,
            _ => mix(draw(1 << 30) as u64, 7) as usize,
        };
    }
    truth
}
