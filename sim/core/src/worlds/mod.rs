pub mod catalog;
pub mod dict;
pub mod dictimpl;
pub mod foreign;
pub mod map;
pub mod seq;
pub mod seqimpl;
pub mod string;
pub mod threads;

use crate::ctx::*;
use crate::elem::*;
use crate::heap::*;

/// A system under test with its reference model.
pub trait World: Send {
    /// Performs one operation and checks its result.
    fn step(&mut self);
    /// Compares everything observable with the model.
    fn verify(&mut self);
    /// Reads something through shared access and compares it with the model.
    fn peek(&self) {}
    /// How many elements should be unreleased now.
    fn expect_live(&self) -> isize;
    /// Destroys everything that is left.
    fn finish(&mut self);
    fn tag(&self) -> u32;
}

/// A container object at a simulated address.
pub struct Obj<C> {
    pub p: *mut C,
}
unsafe impl<C> Send for Obj<C> {}
impl<C> Obj<C> {
    /// Room for an object, not yet initialised.
    pub fn place() -> Self {
        let a = cx().heap.alloc(std::mem::size_of::<C>(), std::mem::align_of::<C>(), HARNESS, 768);
        Obj { p: a as *mut C }
    }
    #[allow(clippy::mut_from_ref)]
    pub fn get<'b>(&self) -> &'b mut C {
        unsafe { &mut *self.p }
    }
    pub fn vacate(&self) {
        cx().heap.free(self.p as usize, std::mem::size_of::<C>(), std::mem::align_of::<C>(), HARNESS);
        // the vacated interior is a perfectly legal place for later blocks
        let h = &mut cx().heap.hints;
        if h.len() > 6 {
            h.remove(0);
        }
        let mut k = std::mem::size_of::<usize>() * 5;
        while k + 8 <= std::mem::size_of::<C>() && k <= 64 {
            h.push(self.p as usize + k);
            k += 8;
        }
        while h.len() > 8 {
            h.remove(0);
        }
    }
    pub fn contains(&self, addr: usize) -> bool {
        addr >= self.p as usize && addr < self.p as usize + std::mem::size_of::<C>()
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Ent {
    pub id: u32,
    pub val: u32,
    pub addr: usize,
}
pub const ANY: u32 = u32::MAX;

pub fn show_vals(m: &[Ent]) -> String {
    let mut s = String::from("[");
    for (i, e) in m.iter().enumerate() {
        if i == 24 {
            s.push_str(&format!(" … {} more", m.len() - i));
            break;
        }
        if i > 0 {
            s.push(' ');
        }
        s.push_str(&e.val.to_string());
    }
    s.push(']');
    s
}

/// Per-run parameters drawn once.
#[derive(Clone)]
pub struct Params {
    pub vals: u32,
    pub burst: u32,
}
pub fn params(heavy: bool) -> Params {
    let vals = pick(&[4, 12, 40, 1000, 100_000]);
    let mut burst = pick(&[0, 0, 40, 150, 600]);
    if cx().deep && draw(3) == 2 {
        burst *= 5
    }
    if heavy {
        burst = burst.min(60)
    }
    Params { vals, burst }
}
pub fn newval<T: El>(p: &Params) -> u32 {
    draw(p.vals.min(T::MAXVAL.saturating_add(1)).max(1))
}

/// What a container may have cost so far.
#[derive(Default, Clone, Copy)]
pub struct Acct {
    /// The most elements it held, or was explicitly told to expect.
    pub need: usize,
    /// Bytes its additions justify requesting, and bytes requested.
    pub due: u64,
    pub paid: u64,
}
impl Acct {
    pub fn add(&mut self, due: u64, paid: u64, what: &str) {
        self.due += due;
        self.paid += paid;
        if self.paid > self.due {
            violate(Class::Work, format!("{what}: {} bytes were requested so far where the additions made justify at most {}", self.paid, self.due));
        }
    }
}
/// How many steps a search in `n` ordered elements takes.
pub fn log2_up(n: usize) -> u64 {
    (usize::BITS - n.leading_zeros()) as u64
}
pub fn at_most(w: &Work, k: FK, limit: u64, what: &str) {
    if w.of(k) > limit {
        let c = ["", "clones", "", "equality tests", "comparisons", "hash computations"][k as usize];
        violate(Class::Work, format!("{what}: {} {c} where {limit} are justified", w.of(k)));
    }
}
pub fn no_requests(w: &Work, what: &str) {
    if w.reqs != 0 {
        violate(Class::Work, format!("{what} requested memory ({} block(s), {} bytes)", w.reqs, w.bytes));
    }
}
pub fn held_at_most(handle: u32, blocks: usize, bytes: usize, why: &str) {
    let (b, n) = cx().heap.held_by(handle);
    if b > blocks || n > bytes {
        violate(Class::Space, format!("{n} bytes in {b} block(s) are held where {why} justify at most {bytes} in {blocks}"));
    }
}

/// A model entry read from a live element.
pub fn ent<T: El>(t: &T) -> Ent {
    Ent { id: t.id(), val: t.val(), addr: t as *const T as usize }
}

pub fn unexpected(out: Out<()>, what: &str) {
    if let Out::Panic(m) = out {
        violate(Class::Panic, format!("{what} panicked: {m}"));
    }
}

/// An iterator that counts what it hands out, may fail, and may misstate its length.
pub struct Source<T> {
    pub items: std::vec::IntoIter<T>,
    pub hint: (usize, Option<usize>),
}
impl<T> Iterator for Source<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        seam(FK::Iter);
        self.items.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.hint
    }
}
impl<T> Source<T> {
    /// How many elements it announces or has.
    pub fn announced(&self, n: usize) -> usize {
        n.max(self.hint.0).max(self.hint.1.unwrap_or(0))
    }
}
pub fn source<T>(items: Vec<T>) -> Source<T> {
    let n = items.len();
    let exactly = |k: usize| (k, Some(k));
    let hint = match draw(10) {
        0..=2 => exactly(n),
        3 => (0, None),
        4 => (n / 2, Some(n * 2)),
        5 => (n + 1 + draw(5) as usize, None),
        6 => exactly(n + 100),
        // a wrong length is not unsafe: more items may come than were announced
        7 => exactly(n / 2),
        8 => exactly(n.saturating_sub(1)),
        _ => exactly(draw(n as u32 + 1) as usize),
    };
    trace!("      source of {} item(s) claims {:?}", n, hint);
    Source { items: items.into_iter(), hint }
}

/// Reads numbers in order out of a rendering.
pub fn numbers(s: &str) -> Vec<u64> {
    let mut out = Vec::new();
    let mut cur: Option<u64> = None;
    // floating point and truth values are held as whole numbers
    let s = s.replace(".0", "").replace("false", "0").replace("true", "1");
    for c in s.chars() {
        if let Some(d) = c.to_digit(10) {
            cur = Some(cur.unwrap_or(0).wrapping_mul(10).wrapping_add(d as u64));
        } else if let Some(v) = cur.take() {
            out.push(v)
        }
    }
    if let Some(v) = cur {
        out.push(v)
    }
    out
}

/// Runs one world's history to its end.
pub fn drive(w: &mut dyn World, want: u32) {
    let mut done = 0;
    while cx().more(done, want) {
        cx().chunk();
        w.step();
        cx().quiet_place = false;
        w.verify();
        conserve(w);
        cx().heap.tick();
        done += 1;
    }
    finish_marker();
    cx().chunk();
    op("end");
    w.finish();
    w.verify();
    conserve(w);
}
pub fn finish_marker() {
    unsafe { (*cx().shared).finishing = 1 };
}

pub fn conserve(w: &dyn World) {
    let c = cx();
    let (have, want) = (live_now(w.tag()), w.expect_live());
    if have < want {
        violate(Class::ElemUse, format!("{} element(s) were released although the container still holds them", want - have));
    }
    if have > want && !c.leak_exempt {
        violate(Class::ElemLeak, format!("{} element(s) are neither held nor released", have - want));
    }
}

/// After everything is gone: no block, allocator or element may be left.
pub fn end_checks() {
    let c = cx();
    c.heap.end_check();
    if c.leak_exempt {
        return;
    }
    let n = c.heap.live.values().filter(|b| b.owner != HARNESS).count();
    if n != 0 {
        let b = c.heap.live.values().find(|b| b.owner != HARNESS).unwrap();
        violate(Class::Leak, format!("{} block(s) never returned (one of {} bytes)", n, b.size));
    }
    let h = crate::alloc::handles().st.iter().filter(|s| **s == crate::alloc::HState::Live).count();
    if h != 0 {
        violate(Class::Handle, format!("{h} allocator(s) never released"));
    }
    let l = led().live;
    if l != 0 {
        violate(Class::ElemLeak, format!("{l} element(s) never released"));
    }
}
