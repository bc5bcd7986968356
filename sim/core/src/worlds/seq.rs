//! One world for every sequence container: a few containers, a list of identities as the model.
use super::foreign::{Act, Raw, Walked};
use super::*;
use crate::alloc::*;
use std::ptr;

pub const PUSHB: u32 = 1 << 0;
pub const PUSHF: u32 = 1 << 1;
pub const POPB: u32 = 1 << 2;
pub const POPF: u32 = 1 << 3;
pub const INSERT: u32 = 1 << 4;
pub const REMOVE: u32 = 1 << 5;
pub const RESERVE: u32 = 1 << 6;
pub const APPEND: u32 = 1 << 7;
pub const ASSIGN: u32 = 1 << 8;
pub const CLEAR: u32 = 1 << 9;
pub const CLONE: u32 = 1 << 10;
pub const FROMIT: u32 = 1 << 11;
pub const FROMSL: u32 = 1 << 12;
pub const CONSUME: u32 = 1 << 13;
pub const MUTIT: u32 = 1 << 14;
pub const RELOC: u32 = 1 << 15;
pub const EXTEND: u32 = 1 << 16;
pub const SLICE: u32 = 1 << 17;
pub const WITHCAP: u32 = 1 << 18;
pub const STABLE_NODES: u32 = 1 << 19;
pub const STABLE_ENDS: u32 = 1 << 20;
pub const ENDS: u32 = 1 << 21;
pub const RECREATE: u32 = 1 << 22;
pub const CONVERT: u32 = 1 << 23;
/// Has a copy that is a container of another type (see `Side`).
pub const COPYOUT: u32 = 1 << 24;
/// The foreign side can turn the contents around.
pub const REVERSE: u32 = 1 << 25;

/// Drives an iterator of any kind.
pub trait Walk<R> {
    fn next(&mut self) -> Option<R>;
    fn back(&mut self) -> Option<R>;
    fn has_back(&self) -> bool;
    /// `nth` or `nth_back`.
    fn nth(&mut self, n: usize, back: bool) -> Option<R>;
    /// Internal iteration over the next `n` elements.
    fn some(&mut self, n: usize, back: bool, f: &mut dyn FnMut(R));
    /// Uses the iterator up. Yields nothing for a count and the last element for `LAST`.
    fn finish(&mut self, how: u32, f: &mut dyn FnMut(R)) -> Option<usize>;
    fn hint(&self) -> (usize, Option<usize>);
    /// The iterator promises an exact remaining length.
    fn exact(&self) -> bool;
    fn remaining(&self) -> Option<usize>;
    /// The values not yielded yet, where the iterator shows them.
    fn peek(&self) -> Option<Vec<u32>>;
    /// Export to the foreign representation and import again.
    fn reexport(&mut self) -> bool;
}
pub const FOLD: u32 = 0;
pub const EACH: u32 = 1;
pub const COLLECT: u32 = 2;
pub const COUNT: u32 = 3;
pub const LAST: u32 = 4;
pub const RFOLD: u32 = 5;
pub const REV: u32 = 6;
type Backs<I, X> = (fn(&mut I) -> Option<X>, fn(&mut I, usize) -> Option<X>, fn(&mut I, usize, &mut dyn FnMut(X)), fn(I, u32, &mut dyn FnMut(X)));
pub struct It<I: Iterator, R> {
    it: Option<I>,
    map: fn(I::Item) -> R,
    exact: bool,
    backs: Option<Backs<I, I::Item>>,
    reexport: Option<fn(I) -> I>,
    left: Option<fn(&I) -> usize>,
    peek: Option<fn(&I) -> Vec<u32>>,
}
impl<I: Iterator> It<I, I::Item> {
    pub fn new(it: I) -> Self {
        It::mapped(it, |r| r)
    }
}
impl<I: Iterator, R> It<I, R> {
    pub fn mapped(it: I, map: fn(I::Item) -> R) -> Self {
        It { it: Some(it), map, exact: false, backs: None, reexport: None, left: None, peek: None }
    }
    pub fn exact(mut self) -> Self {
        self.exact = true;
        self
    }
    pub fn both(mut self) -> Self
    where
        I: DoubleEndedIterator,
    {
        fn some<I: DoubleEndedIterator>(it: &mut I, n: usize, f: &mut dyn FnMut(I::Item)) {
            let mut c = 0;
            let _ = it.try_rfold((), |_, r| {
                f(r);
                c += 1;
                if c >= n {
                    Err(())
                } else {
                    Ok(())
                }
            });
        }
        fn fin<I: DoubleEndedIterator>(it: I, how: u32, f: &mut dyn FnMut(I::Item)) {
            if how == RFOLD {
                it.rfold((), |_, r| f(r))
            } else {
                it.rev().for_each(f)
            }
        }
        self.backs = Some((I::next_back, I::nth_back, some::<I>, fin::<I>));
        self
    }
    pub fn reexport(mut self, f: fn(I) -> I) -> Self {
        self.reexport = Some(f);
        self
    }
    pub fn left(mut self, f: fn(&I) -> usize) -> Self {
        self.left = Some(f);
        self
    }
    pub fn peek(mut self, f: fn(&I) -> Vec<u32>) -> Self {
        self.peek = Some(f);
        self
    }
    fn i(&mut self) -> &mut I {
        self.it.as_mut().unwrap()
    }
}
impl<I: Iterator, R> Walk<R> for It<I, R> {
    fn next(&mut self) -> Option<R> {
        let r = self.i().next();
        r.map(self.map)
    }
    fn back(&mut self) -> Option<R> {
        let b = self.backs.unwrap().0;
        b(self.i()).map(self.map)
    }
    fn has_back(&self) -> bool {
        self.backs.is_some()
    }
    fn nth(&mut self, n: usize, back: bool) -> Option<R> {
        if back {
            let b = self.backs.unwrap().1;
            b(self.i(), n)
        } else {
            self.i().nth(n)
        }
        .map(self.map)
    }
    fn some(&mut self, n: usize, back: bool, f: &mut dyn FnMut(R)) {
        let map = self.map;
        let mut c = 0;
        let f = &mut |r: I::Item| f(map(r));
        if back {
            let b = self.backs.unwrap().2;
            b(self.i(), n, f);
        } else {
            let _ = self.i().try_for_each(|r| {
                f(r);
                c += 1;
                if c >= n {
                    Err(())
                } else {
                    Ok(())
                }
            });
        }
    }
    fn finish(&mut self, how: u32, f: &mut dyn FnMut(R)) -> Option<usize> {
        let map = self.map;
        let it = self.it.take().unwrap();
        let f = &mut |r: I::Item| f(map(r));
        match how {
            FOLD => it.fold((), |_, r| f(r)),
            EACH => it.for_each(f),
            COLLECT => it.collect::<Vec<_>>().into_iter().for_each(f),
            COUNT => return Some(it.count()),
            LAST => it.last().into_iter().for_each(f),
            _ => (self.backs.unwrap().3)(it, how, f),
        }
        None
    }
    fn hint(&self) -> (usize, Option<usize>) {
        self.it.as_ref().unwrap().size_hint()
    }
    fn exact(&self) -> bool {
        self.exact
    }
    fn remaining(&self) -> Option<usize> {
        self.left.map(|f| f(self.it.as_ref().unwrap()))
    }
    fn peek(&self) -> Option<Vec<u32>> {
        self.peek.map(|f| f(self.it.as_ref().unwrap()))
    }
    fn reexport(&mut self) -> bool {
        let Some(f) = self.reexport else { return false };
        self.it = Some(f(self.it.take().unwrap()));
        true
    }
}

fn same(what: &str, how: &str, e: Ent, m: &Ent) {
    if e.val != m.val || (m.id != ANY && e.id != m.id) {
        violate(Class::Iter, format!("{what}: {how} yields value {} (#{}) where {} (#{}) is due", e.val, e.id, m.val, m.id));
    }
}

/// Walks `w` in a chosen pattern against `m`; `keep` receives what is yielded. Returns the range of
/// `m` not yielded.
pub fn walk<R>(w: &mut dyn Walk<R>, m: &[Ent], what: &str, see: &dyn Fn(&R) -> Ent, mut keep: impl FnMut(R, usize)) -> (usize, usize) {
    let (mut lo, mut hi) = (0usize, m.len());
    let mode = draw(6); // 0,1 forward to the end; 2 backward to the end; 3 mix to the end; 4 mix, abandoned; 5 forward, abandoned
    let stop = if mode >= 4 { draw(m.len() as u32 + 1) as usize } else { m.len() };
    let reexp = draw(4) == 3;
    // now and then skip ahead, iterate internally, or use the rest up in one go
    let jumps = draw(4) == 3;
    let finish = draw(4) == 3;
    let mut taken = 0;
    probe(match mode {
        0 | 1 => "iterate-forward",
        2 => "iterate-backward",
        3 => "iterate-mixed",
        _ => "iterate-abandoned",
    });
    loop {
        let left = hi - lo;
        let (hl, hh) = w.hint();
        if hl > left || hh.is_some_and(|h| h < left) || (w.exact() && (hl != left || hh != Some(left))) {
            violate(Class::Iter, format!("{what} reports remaining length ({hl}, {hh:?}) with {left} left"));
        }
        if let Some(r) = w.remaining() {
            if r != left {
                violate(Class::Iter, format!("{what} reports {r} remaining with {left} left"));
            }
        }
        if taken >= stop && mode >= 4 {
            trace!("      abandoned with {} left", left);
            return (lo, hi);
        }
        if reexp && draw(3) == 2 {
            let done = match sut(0, || w.reexport()) {
                Out::Ok(d) => d,
                _ => {
                    violate(Class::Iter, format!("{what}: export and import panicked"));
                    return (lo, hi);
                }
            };
            if done {
                probe("iterator-export-import");
            }
        }
        if let Some(seen) = w.peek() {
            if seen.iter().ne(m[lo..hi].iter().map(|e| &e.val)) {
                violate(Class::Iter, format!("{what} shows {seen:?} as the values left, they are {:?}", m[lo..hi].iter().map(|e| e.val).collect::<Vec<_>>()));
            }
        }
        if finish && draw(6) == 5 {
            let how = draw(if w.has_back() { 7 } else { 5 });
            let mut got = vec![];
            let out = sut(0, || {
                w.finish(how, &mut |r| {
                    let _h = InHarness::enter();
                    got.push(r)
                })
            });
            probe("iterator-used-up-internally");
            let label = ["fold", "for_each", "collect", "count", "last", "rfold", "rev"][how as usize];
            trace!("      {} with {} left", label, left);
            let n = match out {
                Out::Ok(n) => n,
                Out::Panic(p) => {
                    violate(Class::Iter, format!("{what}: {label} panicked: {p}"));
                    return (lo, hi);
                }
                Out::Fault(_) => return (lo, hi),
            };
            let want: Vec<usize> = match how {
                COUNT => vec![],
                LAST => (lo..hi).last().into_iter().collect(),
                RFOLD | REV => (lo..hi).rev().collect(),
                _ => (lo..hi).collect(),
            };
            if how == COUNT && n != Some(left) {
                violate(Class::Iter, format!("{what} counts {n:?} elements with {left} left"));
            }
            if got.len() != want.len() {
                violate(Class::Iter, format!("{what}: {label} yields {} element(s) with {left} left", got.len()));
                return (lo, hi);
            }
            for (r, k) in got.into_iter().zip(want) {
                same(what, label, see(&r), &m[k]);
                keep(r, k);
            }
            return (hi, hi);
        }
        if jumps && draw(3) == 2 {
            let back = w.has_back() && mode != 1 && (mode == 2 || draw(2) == 1);
            let n = match draw(4) {
                0 => draw(4) as usize,
                1 => draw(left as u32 + 1) as usize,
                2 => draw(70) as usize,
                _ => left.saturating_sub(draw(2) as usize),
            };
            let internal = draw(2) == 1;
            let mut got = vec![];
            let out = sut(0, || {
                if internal {
                    w.some(n + 1, back, &mut |r| {
                        let _h = InHarness::enter();
                        got.push(r)
                    })
                } else {
                    let r = w.nth(n, back);
                    let _h = InHarness::enter();
                    got.extend(r)
                }
            });
            probe("iterator-jump");
            trace!("      jump of {} {}", n, if back { "from the back" } else { "from the front" });
            match out {
                Out::Ok(()) => {}
                Out::Panic(p) => {
                    violate(Class::Iter, format!("{what}: a jump of {n} panicked: {p}"));
                    return (lo, hi);
                }
                Out::Fault(_) => return (lo, hi),
            }
            let step = (n + 1).min(left);
            let want: Vec<usize> = if back { (hi - step..hi).rev().collect() } else { (lo..lo + step).collect() };
            let want = if internal {
                want
            } else if n < left {
                vec![want[n]]
            } else {
                vec![]
            };
            if got.len() != want.len() {
                violate(Class::Iter, format!("{what}: a jump of {n} with {left} left yields {} element(s)", got.len()));
                return (lo, hi);
            }
            for (r, k) in got.into_iter().zip(want) {
                same(what, if internal { "internal iteration" } else { "nth" }, see(&r), &m[k]);
                keep(r, k);
            }
            if back {
                hi -= step
            } else {
                lo += step
            }
            taken += step;
            continue;
        }
        let back = w.has_back() && (mode == 2 || ((mode == 3 || mode == 4) && draw(2) == 1));
        if cx().threads {
            crate::sched::yield_point(20);
        }
        let got = match sut(0, || if back { w.back() } else { w.next() }) {
            Out::Ok(g) => g,
            Out::Panic(p) => {
                violate(Class::Iter, format!("{what} panicked: {p}"));
                return (lo, hi);
            }
            Out::Fault(_) => return (lo, hi),
        };
        match got {
            None => {
                if left != 0 {
                    violate(Class::Iter, format!("{what} ended {} with {left} element(s) not yielded", if back { "from the back" } else { "from the front" }));
                    return (lo, hi);
                }
                // exhaustion is for good, from both ends
                for k in 0..2 {
                    let again = sut(0, || if w.has_back() && k == 0 { w.back().is_some() } else { w.next().is_some() });
                    if !matches!(again, Out::Ok(false)) {
                        violate(Class::Iter, format!("{what} yields again after its end"));
                    }
                }
                return (lo, hi);
            }
            Some(r) => {
                if left == 0 {
                    violate(Class::Iter, format!("{what} yields more elements than the container holds"));
                    return (lo, hi);
                }
                let i = if back { hi - 1 } else { lo };
                let e = see(&r);
                if e.val != m[i].val || (m[i].id != ANY && e.id != m[i].id) {
                    violate(
                        Class::Iter,
                        format!("{what} yields value {} (#{}) {} where {} (#{}) is next", e.val, e.id, if back { "from the back" } else { "from the front" }, m[i].val, m[i].id),
                    );
                    return (lo, hi);
                }
                keep(r, i);
                if back {
                    hi -= 1
                } else {
                    lo += 1
                }
                taken += 1;
            }
        }
    }
}

/// A vector copied out of a container with inline room; it lives a life of its own.
pub trait Side<T> {
    fn items(&self) -> &[T];
    fn cap(&self) -> usize;
    fn push(&mut self, t: T);
    fn pop(&mut self) -> Option<T>;
    fn append(&mut self, s: &[T]);
    fn clear(&mut self);
    fn copy(&self) -> Option<Box<dyn Side<T>>>;
}

#[allow(unused_variables)]
pub trait Seq: Sized + 'static {
    type T: El;
    const CAPS: u32;
    const INLINE: usize = 0;
    const POOL: usize = 0;
    const SIM: bool;
    fn name() -> String;
    /// Constructs an empty container at `p`.
    unsafe fn create(p: *mut Self, how: u32);
    fn c_len(&self) -> usize;
    fn c_empty(&self) -> bool;
    fn each(&self, limit: usize, f: &mut dyn FnMut(&Self::T));
    fn cap(&self) -> Option<(usize, bool)> {
        None
    }
    fn overflowed(&self) -> Option<bool> {
        None
    }
    const SHAPE: Shape = Shape::Array;
    fn push_b(&mut self, t: Self::T) {
        unreachable!()
    }
    fn push_f(&mut self, t: Self::T) {
        unreachable!()
    }
    fn pop_b(&mut self) -> Option<Self::T> {
        unreachable!()
    }
    fn pop_f(&mut self) -> Option<Self::T> {
        unreachable!()
    }
    fn ins(&mut self, i: usize, t: Self::T) {
        unreachable!()
    }
    fn rem(&mut self, i: usize) -> Option<Self::T> {
        unreachable!()
    }
    fn res(&mut self, n: usize) {
        unreachable!()
    }
    fn app(&mut self, s: &[Self::T]) {
        unreachable!()
    }
    fn asg(&mut self, s: &[Self::T]) {
        unreachable!()
    }
    fn clr(&mut self) {
        unreachable!()
    }
    fn ext(&mut self, it: Source<Self::T>) {
        unreachable!()
    }
    fn try_clone(&self) -> Option<Self> {
        None
    }
    /// Copies the contents into a vector of another type.
    fn copy_out(&self) -> Option<Box<dyn Side<Self::T>>> {
        None
    }
    fn from_it(it: Source<Self::T>) -> Self {
        unreachable!()
    }
    fn from_sl(s: &mut [Self::T], how: u32) -> Self {
        unreachable!()
    }
    fn from_arr(v: Vec<Self::T>) -> Result<Self, Vec<Self::T>> {
        Err(v)
    }
    fn with_cap(n: usize) -> Self {
        unreachable!()
    }
    fn convert(self) -> Self {
        self
    }
    fn slice(&self) -> Option<&[Self::T]> {
        None
    }
    fn slice_mut(&mut self) -> Option<&mut [Self::T]> {
        None
    }
    fn first(&self) -> Option<&Self::T> {
        None
    }
    fn last(&self) -> Option<&Self::T> {
        None
    }
    fn first_mut(&mut self) -> Option<&mut Self::T> {
        None
    }
    fn last_mut(&mut self) -> Option<&mut Self::T> {
        None
    }
    fn walker<'a>(&'a self) -> Box<dyn Walk<&'a Self::T> + 'a>;
    fn walker_mut<'a>(&'a mut self) -> Option<Box<dyn Walk<&'a mut Self::T> + 'a>> {
        None
    }
    /// Shared iteration obtained from the mutable one through its foreign form.
    fn walker_via<'a>(&'a mut self) -> Option<Box<dyn Walk<&'a Self::T> + 'a>> {
        None
    }
    fn walker_own(self) -> Box<dyn Walk<Self::T>> {
        unreachable!()
    }
    fn fmt(&self) -> Option<String> {
        None
    }
    /// What the foreign side knows to do to this container (0: it does not read it either).
    const PEER: u32 = 0;
    /// The elements, as the foreign side finds them.
    unsafe fn f_each(p: *const u8, limit: usize, f: &mut dyn FnMut(&Self::T)) -> Walked {
        Ok(())
    }
    /// A foreign edit; returns what left the container.
    unsafe fn f_do(p: *mut u8, owner: u32, act: Act<Self::T>) -> Vec<Self::T> {
        vec![]
    }
    /// An exported pair of iterators, advanced by some elements before.
    fn f_out(&mut self, front: usize, back: usize, how: u32) -> Option<(Raw, Raw)> {
        None
    }
    /// Walks an exported pair.
    unsafe fn f_span(b: Raw, e: Raw, limit: usize, f: &mut dyn FnMut(&Self::T)) -> Walked {
        Ok(())
    }
    /// Iterators the foreign side advanced and hands over.
    fn f_in<'a>(&'a mut self, front: usize, back: usize) -> Option<Box<dyn Walk<&'a Self::T> + 'a>> {
        None
    }
    /// Moves the object at `src` to `dst`.
    unsafe fn relocate(src: *mut Self, dst: *mut Self) {
        ptr::copy_nonoverlapping(src as *const u8, dst as *mut u8, std::mem::size_of::<Self>());
    }
}

pub struct Slot<S> {
    pub o: Obj<S>,
    pub m: Vec<Ent>,
    /// The handle its allocator was given.
    pub handle: u32,
    /// Some operation already needed more than the inline room.
    pub over: bool,
    pub reqs: u32,
    pub a: Acct,
}

/// How a container stores its elements.
#[derive(Clone, Copy, PartialEq)]
pub enum Shape {
    Array,
    /// Blocks of so many elements.
    Blocks(usize),
    Nodes,
}

/// Compares what the foreign side met with the model.
fn foreign_view(who: &str, r: Walked, seen: &[Ent], m: &[Ent]) {
    let same = |a: &Ent, b: &Ent| a.val == b.val && (b.id == ANY || a.id == b.id);
    if let Err(e) = r {
        violate(Class::Peer, format!("{who}: {e}; expected {}", show_vals(m)));
    } else if seen.len() != m.len() || !seen.iter().zip(m).all(|(a, b)| same(a, b)) {
        violate(Class::Peer, format!("{who} finds {}, should be {}", show_vals(seen), show_vals(m)));
    }
}

enum Rule {
    Same,
    Prefix(Vec<u32>),
    Assign(Vec<u32>),
    Subset,
}

pub struct SeqWorld<S: Seq> {
    pub slots: Vec<Slot<S>>,
    held: Vec<(S::T, u32)>,
    sides: Vec<(Box<dyn Side<S::T>>, Vec<u32>)>,
    p: Params,
    w: Vec<u32>,
    tag: u32,
    full_at: u32,
    n: u32,
    max: usize,
    /// The running operation works on this container, asks for this room, adds so many elements one
    /// by one and may clone so many.
    at: usize,
    asked: usize,
    added: usize,
    copies: Option<usize>,
}
unsafe impl<S: Seq> Send for SeqWorld<S> {}

#[derive(Clone, Copy, PartialEq)]
enum O {
    Nop,
    PushB,
    PushF,
    PopB,
    PopF,
    Ins,
    Rem,
    Res,
    App,
    Asg,
    Clr,
    Clone,
    FromIt,
    FromSl,
    Consume,
    MutIt,
    Reloc,
    Ext,
    SetAt,
    WithCap,
    Iter,
    Ends,
    Fmt,
    Recreate,
    Burst,
    Drain,
    ResHuge,
    Convert,
    NewSlot,
    AppOther,
    CopyOut,
    Aside,
    Foreign,
    Hand,
    Flow,
}
const OPS: [(O, u32, u32, &str); 35] = [
    (O::Nop, 0, 1, "check"),
    (O::PushB, PUSHB, 20, "push_back"),
    (O::PushF, PUSHF, 14, "push_front"),
    (O::PopB, POPB, 9, "pop_back"),
    (O::PopF, POPF, 9, "pop_front"),
    (O::Ins, INSERT, 10, "insert"),
    (O::Rem, REMOVE, 9, "remove"),
    (O::Res, RESERVE, 3, "reserve"),
    (O::App, APPEND, 6, "append"),
    (O::Asg, ASSIGN, 5, "assign"),
    (O::Clr, CLEAR, 2, "clear"),
    (O::Clone, CLONE, 3, "clone"),
    (O::FromIt, FROMIT, 3, "collect"),
    (O::FromSl, FROMSL, 3, "from-slice"),
    (O::Consume, CONSUME, 3, "into_iter"),
    (O::MutIt, MUTIT, 4, "iter_mut"),
    (O::Reloc, RELOC, 5, "move"),
    (O::Ext, EXTEND, 5, "extend"),
    (O::SetAt, SLICE, 2, "write-in-place"),
    (O::WithCap, WITHCAP, 1, "with_capacity"),
    (O::Iter, 0, 5, "iterate"),
    (O::Ends, ENDS, 3, "front/back"),
    (O::Fmt, 0, 1, "format"),
    (O::Recreate, 0, 2, "destroy"),
    (O::Burst, 0, 2, "push-many"),
    (O::Drain, 0, 2, "pop-many"),
    (O::ResHuge, RESERVE, 1, "reserve-huge"),
    (O::Convert, CONVERT, 1, "convert"),
    (O::NewSlot, 0, 1, "construct"),
    (O::AppOther, APPEND, 2, "append-other"),
    (O::CopyOut, COPYOUT, 3, "copy-out"),
    (O::Aside, COPYOUT, 6, "use-copy"),
    (O::Foreign, 0, 40, "foreign-edit"),
    (O::Hand, 0, 8, "exchange-iterators"),
    (O::Flow, 0, 6, "push-and-pop"),
];

impl<S: Seq> SeqWorld<S> {
    pub fn new(tag: u32, iter_heavy: bool) -> Self {
        led().tag = tag;
        let p = params(S::T::HEAVY);
        let mut w = Vec::new();
        for (o, caps, base, _) in OPS.iter() {
            let peer = cx().peer && S::PEER != 0;
            let ok = match o {
                O::Foreign | O::Hand => peer,
                O::Flow => cx().costs,
                _ => *caps == 0 || S::CAPS & caps != 0,
            };
            let mut x = if ok { base * [1, 2, 1, 0, 4][draw(5) as usize] } else { 0 };
            if matches!(o, O::PushB) && S::CAPS & PUSHB != 0 {
                x = x.max(6);
            }
            if matches!(o, O::PushF) && S::CAPS & PUSHB == 0 {
                x = x.max(6);
            }
            if iter_heavy && ok && matches!(o, O::Iter | O::MutIt | O::Consume) {
                x = x.max(8) * 2;
            }
            if matches!(o, O::Burst | O::Drain) && p.burst == 0 {
                x = 0;
            }
            w.push(x);
        }
        let max = if std::mem::size_of::<S::T>() > 4096 { 40 } else if std::mem::size_of::<S::T>() > 1000 || S::T::HEAVY { 150 } else if S::POOL > 0 { 300 } else if p.burst > 600 { 6000 } else if p.burst >= 150 { 3000 } else { 300 };
        trace!("world: {} (values below {}, bursts up to {})", S::name(), p.vals, p.burst);
        SeqWorld { slots: Vec::new(), held: Vec::new(), sides: Vec::new(), p, w, tag, full_at: 0, n: 0, max, at: 0, asked: 0, added: 0, copies: Some(0) }
    }

    fn mk(&self) -> S::T {
        S::T::make(newval::<S::T>(&self.p))
    }
    fn mks(&self, max: u32) -> Vec<S::T> {
        let n = draw(max + 1);
        (0..n).map(|_| self.mk()).collect()
    }

    /// Adds an object made by `f` (which constructs at the given place).
    fn construct(&mut self, what: &str, kinds: u32, m: Vec<Ent>, over: bool, f: impl FnOnce(*mut S)) -> bool {
        let o: Obj<S> = Obj::place();
        let hs = handles().st.len() as u32;
        let p = o.p;
        match sut(kinds, || f(p)) {
            Out::Ok(()) => {
                let handle = if S::SIM {
                    // the newest allocator that is still alive belongs to the new object
                    let t = handles();
                    let mut h = GLOBAL;
                    for i in hs as usize..t.st.len() {
                        if t.st[i] == HState::Live && !t.inner[i] {
                            h = FIRST_HANDLE + i as u32;
                        }
                    }
                    h
                } else {
                    GLOBAL
                };
                self.slots.push(Slot { o, m, handle, over, reqs: 0, a: Acct { need: S::INLINE, ..Acct::default() } });
                let i = self.slots.len() - 1;
                self.check(i, true);
                true
            }
            Out::Fault(k) => {
                trace!("    construction ({what}) did not complete: {}", FK_NAMES[k as usize]);
                o.vacate();
                false
            }
            Out::Panic(e) => {
                violate(Class::Panic, format!("{what} panicked: {e}"));
                o.vacate();
                false
            }
        }
    }

    fn make_empty(&mut self) {
        op("construct");
        let how = draw(3);
        self.construct("construct", fb(FK::Alloc), vec![], false, |p| unsafe { S::create(p, how) });
    }

    fn destroy(&mut self, i: usize) {
        let s = self.slots.remove(i);
        let p = s.o.p;
        let r = sut(fb(FK::Drop), || unsafe { ptr::drop_in_place(p) });
        if let Out::Panic(e) = r {
            violate(Class::Panic, format!("destruction panicked: {e}"));
        }
        s.o.vacate();
    }

    fn contents(&self, i: usize) -> Vec<Ent> {
        let mut v = Vec::new();
        let lim = self.slots[i].m.len() + 6000;
        self.slots[i].o.get().each(lim, &mut |t| v.push(ent(t)));
        v
    }

    /// Compares one object with its model.
    pub fn check(&mut self, i: usize, full: bool) {
        let s = &mut self.slots[i];
        let c = s.o.get();
        let n = s.m.len();
        let len = c.c_len();
        if len != n {
            violate(Class::Model, format!("length is {len}, should be {n}"));
        }
        if c.c_empty() != (n == 0) {
            violate(Class::Model, format!("is_empty() is {} with {n} element(s)", c.c_empty()));
        }
        if let Some((cap, is_full)) = c.cap() {
            if cap < n {
                violate(Class::Capacity, format!("capacity {cap} is below the length {n}"));
            }
            if is_full != (cap == n) {
                violate(Class::Model, format!("is_full() is {is_full} with length {n} and capacity {cap}"));
            }
            if cap > 0 {
                if let Some(sl) = c.slice() {
                    let a = sl.as_ptr() as usize;
                    let sz = std::mem::size_of::<S::T>();
                    let real_begin = n > 0 || in_arena(a);
                    if real_begin {
                        let room = match cx().heap.block_of(a) {
                            Some((b, blk)) => b + blk.size - a,
                            None => 0,
                        };
                        if cap.checked_mul(sz).map_or(true, |w| w > room) {
                            violate(Class::Capacity, format!("claims room for {cap} element(s) of {sz} bytes in {room} bytes"));
                        }
                    }
                }
            }
        }
        if !full {
            return;
        }
        let mut k = 0usize;
        let mut bad: Option<String> = None;
        let stable = S::CAPS & (STABLE_NODES | STABLE_ENDS) != 0;
        let mut moved: Option<usize> = None;
        {
            let m = &mut s.m;
            c.each(n + 3, &mut |t| {
                if k < n {
                    let e = ent(t);
                    let w = &mut m[k];
                    if bad.is_none() && (e.val != w.val || (w.id != ANY && e.id != w.id)) {
                        bad = Some(format!("element {k} is value {} (#{}), should be {} (#{})", e.val, e.id, w.val, w.id));
                    }
                    if stable && w.addr != 0 && w.addr != e.addr && moved.is_none() {
                        moved = Some(k);
                    }
                    w.id = e.id;
                    w.addr = e.addr;
                }
                k += 1;
            });
        }
        if let Some(b) = bad {
            violate(Class::Model, format!("{b}; expected {}", show_vals(&s.m)));
        }
        if k != n {
            violate(Class::Model, format!("traversal meets {k} element(s), should be {n}"));
        }
        if let Some(k) = moved {
            violate(Class::Moved, format!("element {k} (value {}) changed its address although it stayed in the container", s.m[k].val));
        }
        if let Some(sl) = c.slice() {
            if sl.len() != n {
                violate(Class::Model, format!("slice view has {} element(s), should be {n}", sl.len()));
            }
            for (j, t) in sl.iter().enumerate() {
                if j < n && t.val() != s.m[j].val {
                    violate(Class::Model, format!("slice view element {j} is {}, should be {}", t.val(), s.m[j].val));
                }
            }
        }
        if S::INLINE > 0 {
            self.check_inline(i);
        }
        if S::POOL > 0 {
            self.check_pool(i);
        }
        if cx().peer && S::PEER != 0 {
            let s = &self.slots[i];
            let mut seen = vec![];
            let r = unsafe { S::f_each(s.o.p as *const u8, n + 1, &mut |t| seen.push(ent(t))) };
            foreign_view("the foreign side", r, &seen, &s.m);
        }
        let s = &self.slots[i];
        let cap = s.o.get().cap().map_or(0, |c| c.0 as u64);
        state(n.min(40) as u64 + if n > 40 { (n as u64).ilog2() as u64 * 64 } else { 0 }, cap.min(64), s.over as u64);
    }

    fn check_inline(&mut self, i: usize) {
        let s = &self.slots[i];
        let c = s.o.get();
        let out = s.handle != GLOBAL && cx().heap.outstanding(s.handle) != 0;
        let inside = s.m.iter().all(|e| s.o.contains(e.addr));
        let outside = s.m.iter().all(|e| !s.o.contains(e.addr));
        if !s.m.is_empty() {
            if !inside && !outside {
                violate(Class::Inline, "some elements live inside the vector and some outside");
            }
            if let Some(o) = c.overflowed() {
                if o != outside {
                    violate(Class::Inline, format!("has_overflowed() is {o} but the elements live {}", if outside { "outside" } else { "inside" }));
                }
            }
            if !s.over && outside {
                violate(Class::Inline, format!("{} element(s) fit inside ({} allowed) but live outside", s.m.len(), S::INLINE));
            }
        } else if !s.over {
            if c.overflowed() == Some(true) {
                violate(Class::Inline, "has_overflowed() is true although no operation needed more than the inline room");
            }
        }
        if !s.over && out {
            violate(Class::Inline, format!("memory was requested although at most {} element(s) were ever needed", S::INLINE));
        }
    }

    fn check_pool(&mut self, i: usize) {
        let s = &self.slots[i];
        let inside = s.m.iter().filter(|e| s.o.contains(e.addr)).count();
        let outside = s.m.len() - inside;
        let sz = std::mem::size_of::<S::T>();
        let mut at: Vec<usize> = s.m.iter().map(|e| e.addr).collect();
        at.sort_unstable();
        for w in at.windows(2) {
            if w[1] - w[0] < sz {
                violate(Class::Pool, "two elements share storage");
            }
        }
        if s.handle != GLOBAL {
            let out = cx().heap.outstanding(s.handle);
            if out != outside {
                violate(Class::Pool, format!("{outside} element(s) live outside the pool but {out} overflow block(s) are outstanding"));
            }
        }
    }

    fn accept(&mut self, i: usize, now: Vec<Ent>) {
        self.slots[i].m = now;
    }

    fn after_fault(&mut self, i: usize, before: &[Ent], k: FK, rule: Rule) {
        let now = self.contents(i);
        let tracked = <S::T as El>::TRACKED;
        let same = |a: &Ent, b: &Ent| a.val == b.val && (!tracked || a.id == ANY || b.id == ANY || a.id == b.id);
        // no identity twice
        if tracked {
            let mut ids: Vec<u32> = now.iter().map(|e| e.id).collect();
            ids.sort_unstable();
            if ids.windows(2).any(|w| w[0] == w[1]) {
                violate(Class::ElemUse, "an element is held twice after the failed operation");
            }
        }
        let why = FK_NAMES[k as usize];
        let bad = |t: String| violate(Class::Strong, format!("after {why}: {t}; before {}, now {}", show_vals(before), show_vals(&now)));
        // without room for the new contents an assignment does not touch the old ones, unless the
        // elements need memory of their own
        let rule = if k == FK::Alloc && !<S::T as El>::HEAVY && matches!(rule, Rule::Assign(_)) { Rule::Same } else { rule };
        let rule = if k == FK::Drop { if let Rule::Assign(v) = rule { Rule::Assign(v) } else { Rule::Subset } } else { rule };
        match rule {
            Rule::Same => {
                if now.len() != before.len() || !now.iter().zip(before).all(|(a, b)| same(a, b)) {
                    bad("the contents changed".into());
                }
            }
            Rule::Prefix(add) => {
                if now.len() < before.len() || !now.iter().zip(before).all(|(a, b)| same(a, b)) {
                    bad("earlier contents changed".into());
                } else if now.len() - before.len() > add.len() || !now[before.len()..].iter().zip(&add).all(|(a, v)| a.val == *v) {
                    bad("what was added is not a prefix of the operation's effect".into());
                }
            }
            Rule::Assign(new) => {
                for e in &now {
                    let old = before.iter().any(|b| same(b, e));
                    if !old && !new.contains(&e.val) {
                        bad(format!("value {} comes from neither side", e.val));
                        break;
                    }
                }
            }
            Rule::Subset => {
                for e in &now {
                    if !before.iter().any(|b| same(b, e)) {
                        bad(format!("value {} was not there before", e.val));
                        break;
                    }
                }
            }
        }
        probe("resynchronised-after-fault");
        self.accept(i, now);
    }

    fn settle(&mut self, i: usize, out: Out<()>, before: &[Ent], rule: Rule, what: &str) -> bool {
        match out {
            Out::Ok(()) => true,
            Out::Fault(k) => {
                self.after_fault(i, before, k, rule);
                false
            }
            Out::Panic(m) => {
                violate(Class::Panic, format!("{what} panicked: {m}"));
                let now = self.contents(i);
                self.accept(i, now);
                false
            }
        }
    }

    fn returned(&mut self, got: Option<S::T>, want: Option<Ent>, what: &str) {
        match (got, want) {
            (None, None) => {}
            (Some(t), Some(w)) => {
                if t.val() != w.val || (w.id != ANY && t.id() != w.id) {
                    violate(Class::Model, format!("{what} returned value {} (#{}), should be {} (#{})", t.val(), t.id(), w.val, w.id));
                }
                self.hold(t);
            }
            (Some(t), None) => {
                violate(Class::Model, format!("{what} returned value {} from nowhere", t.val()));
                self.hold(t);
            }
            (None, Some(w)) => violate(Class::Model, format!("{what} returned nothing, should be {}", w.val)),
        }
    }
    fn hold(&mut self, t: S::T) {
        if self.held.len() >= 4 {
            self.held.remove(0);
        }
        let id = t.id();
        self.held.push((t, id));
    }

    fn in_pool(&self, i: usize) -> usize {
        let o = &self.slots[i].o;
        self.contents(i).iter().filter(|e| o.contains(e.addr)).count()
    }

    fn foreign(&mut self, i: usize, n: usize) {
        let mut kinds = vec![];
        let mut add = |bit: u32, k: u32, w: u32, ok: bool| {
            if S::PEER & bit != 0 && ok {
                kinds.extend(std::iter::repeat(k).take(w as usize))
            }
        };
        let room = n < self.max;
        add(PUSHB, 0, 6, room);
        add(PUSHF, 1, 5, room);
        add(POPB, 2, 4, n > 0);
        add(POPF, 3, 4, n > 0);
        add(INSERT, 4, 3, room);
        add(REMOVE, 5, 3, n > 0);
        add(CLEAR, 6, 1, true);
        add(RESERVE, 7, 1, true);
        add(RESERVE, 8, 1, true);
        add(REVERSE, 9, 2, n > 1);
        if kinds.is_empty() {
            return;
        }
        let times = if draw(3) == 2 && self.p.burst > 0 { 1 + draw(self.p.burst.min(80)) } else { 1 };
        let kind = kinds[draw(kinds.len() as u32) as usize];
        let times = if kind > 5 { 1 } else { times };
        let (p, owner) = (self.slots[i].o.p as *mut u8, self.slots[i].handle);
        for _ in 0..times {
            let n = self.slots[i].m.len();
            if (kind < 2 || kind == 4) && n >= self.max || (matches!(kind, 2 | 3 | 5) && n == 0) {
                break;
            }
            if S::INLINE > 0 && ((kind < 2 || kind == 4) && n + 1 > S::INLINE) {
                self.slots[i].over = true;
            }
            let m = &mut self.slots[i].m;
            let mut due: Vec<Ent> = vec![];
            let act = match kind {
                0 | 1 | 4 => {
                    let t = S::T::make(newval::<S::T>(&self.p));
                    let at = match kind {
                        0 => n,
                        1 => 0,
                        _ => draw(n as u32 + 1) as usize,
                    };
                    trace!("      foreign insertion at {} of value {} (#{})", at, t.val(), t.id());
                    m.insert(at, Ent { addr: 0, ..ent(&t) });
                    match kind {
                        0 => Act::PushB(t),
                        1 => Act::PushF(t),
                        _ => Act::Ins(at, t),
                    }
                }
                2 | 3 | 5 => {
                    let at = match kind {
                        2 => n - 1,
                        3 => 0,
                        _ => draw(n as u32) as usize,
                    };
                    trace!("      foreign removal at {}", at);
                    due.push(m.remove(at));
                    match kind {
                        2 => Act::PopB,
                        3 => Act::PopF,
                        _ => Act::Rem(at),
                    }
                }
                6 => {
                    let free = draw(2) == 1;
                    trace!("      foreign clear{}", if free { ", giving memory back" } else { "" });
                    due.append(m);
                    Act::Clear(free)
                }
                7 => {
                    let k = pick(&[0usize, 1, 5, 17, 40]);
                    trace!("      foreign reserve of {}", k);
                    if k > S::INLINE {
                        self.slots[i].over = true;
                    }
                    Act::Reserve(k)
                }
                8 => {
                    trace!("      foreign shrink");
                    Act::Shrink
                }
                _ => {
                    trace!("      foreign reversal");
                    m.reverse();
                    Act::Reverse
                }
            };
            if S::CAPS & STABLE_NODES == 0 && kind >= 4 {
                self.slots[i].m.iter_mut().for_each(|e| e.addr = 0);
            }
            let out = unsafe { S::f_do(p, owner, act) };
            // an inconsistent container shows here first
            let mut left = out.len();
            for t in out {
                let exact = due.iter().position(|e| e.val == t.val() && e.id == t.id());
                match exact.or_else(|| due.iter().position(|e| e.val == t.val() && e.id == ANY)) {
                    Some(k) => {
                        due.swap_remove(k);
                    }
                    None => violate(Class::Peer, format!("the foreign side took value {} out, which was not there", t.val())),
                }
                left -= 1;
                if left < 2 {
                    self.hold(t);
                }
            }
            if !due.is_empty() {
                violate(Class::Peer, format!("the foreign side did not meet value {}", due[0].val));
            }
            probe("foreign-edit");
        }
    }
    fn exchange(&mut self, i: usize, n: usize) {
        let front = draw(n as u32 + 1) as usize;
        let front = if draw(3) == 0 { 0 } else { front };
        let back = if draw(3) == 2 { draw((n - front) as u32 + 1) as usize } else { 0 };
        let (how, export) = (draw(3), draw(2) == 0);
        let c = self.slots[i].o.get();
        let m: Vec<Ent> = self.slots[i].m.clone();
        if export {
            match sut(0, || c.f_out(front, back, how)) {
                Out::Ok(Some((b, e))) => {
                    let mut seen = vec![];
                    trace!("      exported after {} from the front and {} from the back (form {})", front, back, how);
                    let r = unsafe { S::f_span(b, e, n + 1, &mut |t| seen.push(ent(t))) };
                    foreign_view("a foreign loop over exported iterators", r, &seen, &m[front..n - back]);
                    probe("iterators-exported");
                }
                Out::Ok(None) => {}
                _ => violate(Class::Panic, "export of iterators panicked"),
            }
        } else if let Some(mut w) = c.f_in(front, back) {
            trace!("      handed over after {} from the front and {} from the back", front, back);
            walk(&mut *w, &m[front..n - back], "an iterator handed over", &|t: &&S::T| ent(*t), |_, _| {});
            probe("iterators-imported");
        }
    }

    /// A push at either end, with the placement rule for pooled storage.
    fn push(&mut self, i: usize, front: bool, t: S::T, verify: bool) -> bool {
        let e = ent(&t);
        let e = Ent { addr: 0, ..e };
        let c = self.slots[i].o.get();
        let used = if S::POOL > 0 { self.in_pool(i) } else { 0 };
        let reqs = cx().heap.seq;
        if S::INLINE > 0 && self.slots[i].m.len() + 1 > S::INLINE {
            self.slots[i].over = true;
        }
        self.added += 1;
        let out = sut(fb(FK::Alloc), || if front { c.push_f(t) } else { c.push_b(t) });
        let failed = cx().fault_in_op.is_some();
        match out {
            Out::Ok(()) => {
                let s = &mut self.slots[i];
                s.a.need = s.a.need.max(s.m.len() + 1);
                let m = &mut s.m;
                if front {
                    m.insert(0, e)
                } else {
                    m.push(e)
                }
                if S::POOL > 0 {
                    let (got, asked) = (if front { self.slots[i].o.get().first() } else { self.slots[i].o.get().last() }.map(|t| t as *const S::T as usize), cx().heap.seq != reqs);
                    if let Some(a) = got {
                        let s = &mut self.slots[i];
                        let n = s.m.len();
                        s.m[if front { 0 } else { n - 1 }].addr = a;
                        let inside = s.o.contains(a);
                        if used < S::POOL && (!inside || (asked && !failed)) {
                            violate(Class::Pool, format!("overflow memory was used with {used} of {} pool nodes in use", S::POOL));
                        }
                        if used < S::POOL {
                            probe("pool-node-taken");
                        } else {
                            probe("pool-exhausted");
                        }
                    }
                }
                true
            }
            Out::Fault(k) => {
                if verify || true {
                    let before = self.slots[i].m.clone();
                    if S::POOL > 0 && used < S::POOL && k == FK::Alloc {
                        violate(Class::Pool, format!("overflow memory was requested with {used} of {} pool nodes in use", S::POOL));
                    }
                    self.after_fault(i, &before, k, Rule::Same);
                }
                false
            }
            Out::Panic(m) => {
                violate(Class::Panic, format!("push panicked: {m}"));
                let now = self.contents(i);
                self.accept(i, now);
                false
            }
        }
    }

    fn pop(&mut self, i: usize, front: bool) {
        let c = self.slots[i].o.get();
        let want = {
            let m = &mut self.slots[i].m;
            if m.is_empty() {
                None
            } else if front {
                Some(m.remove(0))
            } else {
                m.pop()
            }
        };
        match sut(0, || if front { c.pop_f() } else { c.pop_b() }) {
            Out::Ok(got) => self.returned(got, want, if front { "pop at the front" } else { "pop at the back" }),
            Out::Panic(m) => violate(Class::Panic, format!("pop panicked: {m}")),
            Out::Fault(_) => {}
        }
    }

    fn base() -> u64 {
        let sz = std::mem::size_of::<S::T>();
        (match S::SHAPE {
            Shape::Array => 16 * sz + 64,
            Shape::Blocks(k) => 2 * k * sz + 256,
            Shape::Nodes => 0,
        }) as u64
    }
    /// Bytes that one more element, or room for `n`, justify requesting.
    fn due(one: usize, n: usize) -> u64 {
        let sz = std::mem::size_of::<S::T>();
        (match S::SHAPE {
            Shape::Array => 8 * sz * one + 4 * sz * n,
            Shape::Blocks(k) => (k * sz + 64) * (one + n),
            Shape::Nodes => Self::node() * (one + n),
        }) as u64
    }
    fn node() -> usize {
        std::mem::size_of::<S::T>() + 16 + 2 * std::mem::align_of::<S::T>().max(8)
    }
    /// Is what container `i` holds in proportion to its contents?
    fn space(&mut self, i: usize) {
        let s = &mut self.slots[i];
        let (n, sz) = (s.m.len(), std::mem::size_of::<S::T>());
        s.a.need = s.a.need.max(n);
        if s.handle == GLOBAL {
            return;
        }
        let why = format!("{n} element(s), at most {} so far,", s.a.need);
        match S::SHAPE {
            Shape::Array => held_at_most(s.handle, 1, (4 * s.a.need + 16) * sz, &why),
            Shape::Blocks(k) => {
                let blocks = n / k + 3;
                held_at_most(s.handle, blocks + 1, blocks * k * sz + 8 * (4 * (s.a.need / k + 2) + 32), &why)
            }
            Shape::Nodes => held_at_most(s.handle, n, n * Self::node(), &why),
        }
    }
    fn op_on(&mut self, o: O, name: &'static str) {
        (self.at, self.asked, self.added, self.copies) = (usize::MAX, 0, 0, Some(0));
        if !cx().costs {
            return self.perform(o, name);
        }
        let (had, w) = (self.slots.len(), Work::now());
        let room: Vec<usize> = self.slots.iter().map(|s| s.o.get().cap().map_or(0, |c| c.0)).collect();
        self.perform(o, name);
        let w = w.since();
        let made = self.slots.len() > had;
        let at = if made { self.slots.len() - 1 } else { self.at };
        let own = at < self.slots.len() && (made || !matches!(o, O::Recreate | O::Consume));
        if own {
            self.slots[at].a.need = self.slots[at].a.need.max(self.asked);
            if !matches!(o, O::CopyOut | O::Aside) {
                let n = self.slots[at].m.len();
                let due = Self::due(self.added, self.asked) + if made { Self::base() + Self::due(0, n) } else { 0 };
                self.slots[at].a.add(due, w.bytes, name);
            }
        }
        for i in 0..self.slots.len() {
            self.space(i);
        }
        if cx().fault_in_op.is_some() {
            return;
        }
        if let Some(k) = self.copies {
            at_most(&w, FK::Clone, k as u64, name);
            at_most(&w, FK::Eq, 0, name);
        }
        if !made && matches!(o, O::Nop | O::PopB | O::PopF | O::Rem | O::Clr | O::Iter | O::MutIt | O::SetAt | O::Ends | O::Fmt | O::Reloc | O::Convert | O::Drain | O::Consume | O::Recreate) {
            no_requests(&w, name);
        }
        // what fits into the room there is needs no more
        if !made && at < room.len() && S::SHAPE == Shape::Array && matches!(o, O::PushB | O::Ins | O::App | O::AppOther | O::Asg | O::Ext | O::Burst) && self.asked.max(self.slots[at].m.len()) <= room[at] {
            no_requests(&w, name);
            probe("addition-within-capacity");
        }
        if S::SHAPE == Shape::Nodes && w.reqs > (self.added + self.asked) as u64 {
            violate(Class::Work, format!("{name}: {} nodes were requested for {} element(s)", w.reqs, self.added + self.asked));
        }
    }
    fn perform(&mut self, o: O, name: &'static str) {
        op(name);
        if self.slots.is_empty() || (o == O::NewSlot && self.slots.len() < 3) {
            trace!("{}: construct an empty {}", cx().run_ops, S::name());
            self.make_empty();
            return;
        }
        let i = draw(self.slots.len() as u32) as usize;
        self.at = i;
        let n = self.slots[i].m.len();
        let before = self.slots[i].m.clone();
        let c = self.slots[i].o.get();
        let inl = S::INLINE;
        trace!("{}: {} on container {} {}", cx().run_ops, name, i, show_vals(&before));
        match o {
            O::Nop | O::NewSlot => {}
            O::PushB | O::PushF => {
                if n >= self.max {
                    return;
                }
                let t = self.mk();
                trace!("      value {} (#{})", t.val(), t.id());
                self.push(i, o == O::PushF, t, true);
            }
            O::PopB => self.pop(i, false),
            O::PopF => self.pop(i, true),
            O::Ins => {
                let at = if chance(1, 25) { n + 1 + draw(3) as usize } else { draw(n as u32 + 1) as usize };
                let t = self.mk();
                let e = Ent { addr: 0, ..ent(&t) };
                trace!("      at {} value {} (#{})", at, e.val, e.id);
                if at <= n && inl > 0 && n + 1 > inl {
                    self.slots[i].over = true;
                }
                self.added += (at <= n) as usize;
                let out = sut(fb(FK::Alloc), || c.ins(at, t));
                if at > n {
                    match out {
                        Out::Panic(_) | Out::Fault(_) => {
                            let now = self.contents(i);
                            if now.len() != n || !now.iter().zip(&before).all(|(a, b)| a.val == b.val && (b.id == ANY || a.id == b.id)) {
                                violate(Class::Model, "an insertion beyond the end changed the contents");
                            }
                            self.accept(i, now);
                        }
                        Out::Ok(()) => violate(Class::Model, "an insertion beyond the end was accepted"),
                    }
                } else if self.settle(i, out, &before, Rule::Same, "insert") {
                    self.slots[i].m.insert(at, e);
                }
            }
            O::Rem => {
                let at = if chance(1, 20) { n + draw(3) as usize } else { draw(n.max(1) as u32) as usize };
                trace!("      at {}", at);
                let want = if at < n { Some(self.slots[i].m.remove(at)) } else { None };
                if S::CAPS & STABLE_ENDS != 0 {
                    self.slots[i].m.iter_mut().for_each(|e| e.addr = 0);
                }
                match sut(0, || c.rem(at)) {
                    Out::Ok(g) => self.returned(g, want, "remove"),
                    Out::Panic(m) => violate(Class::Panic, format!("remove panicked: {m}")),
                    Out::Fault(_) => {}
                }
            }
            O::Res => {
                let k = pick(&[0usize, 1, 2, 3, 5, 9, 40]);
                trace!("      {} more", k);
                // what is reserved adds up
                self.asked = self.slots[i].a.need.max(n) + k;
                let cap0 = c.cap().map_or(0, |c| c.0);
                if inl > 0 && k > 0 {
                    self.slots[i].over = true;
                }
                let out = sut(fb(FK::Alloc), || c.res(k));
                if self.settle(i, out, &before, Rule::Same, "reserve") {
                    let cap1 = self.slots[i].o.get().cap().map_or(0, |c| c.0);
                    if cap1 < cap0.max(n) {
                        violate(Class::Capacity, format!("reserve reduced the capacity from {cap0} to {cap1}"));
                    } else if cap1 < n + k {
                        violate(Class::Capacity, format!("after reserving room for {k} more than {n} element(s) the capacity is {cap1}"));
                    }
                }
            }
            O::ResHuge => {
                if !S::SIM && !cx().oom_mode {
                    return;
                }
                let k = huge(std::mem::size_of::<S::T>().max(1), c.cap().map_or(0, |c| c.0));
                if inl > 0 {
                    self.slots[i].over = true;
                }
                match sut(0, || c.res(k)) {
                    Out::Ok(()) => {
                        let cap1 = self.slots[i].o.get().cap().map_or(0, |c| c.0);
                        if cap1 < k {
                            violate(Class::Capacity, format!("a reservation for {k:#x} more elements was accepted with capacity {cap1}"));
                        }
                    }
                    Out::Panic(_) | Out::Fault(_) => {
                        probe("impossible-reservation-refused");
                        let now = self.contents(i);
                        if now.len() != n || !now.iter().zip(&before).all(|(a, b)| a.val == b.val && (b.id == ANY || a.id == b.id)) {
                            violate(Class::Strong, "a refused reservation changed the contents");
                        }
                        self.accept(i, now);
                    }
                }
            }
            O::App | O::Asg => {
                let src = self.mks(pick(&[1, 3, 6, 12, 30]));
                if n + src.len() > self.max {
                    return;
                }
                let vals: Vec<u32> = src.iter().map(|t| t.val()).collect();
                trace!("      values {:?}", vals);
                let add: Vec<Ent> = vals.iter().map(|v| Ent { id: ANY, val: *v, addr: 0 }).collect();
                let need = if o == O::App { n + add.len() } else { add.len() };
                if inl > 0 && need > inl {
                    self.slots[i].over = true;
                }
                self.asked = need;
                self.copies = Some(add.len());
                let kinds = fb(FK::Alloc) | fb(FK::Clone) | if o == O::Asg { fb(FK::Drop) } else { 0 };
                let out = sut(kinds, || if o == O::App { c.app(&src) } else { c.asg(&src) });
                let rule = if o == O::App { Rule::Prefix(vals) } else { Rule::Assign(vals) };
                if self.settle(i, out, &before, rule, name) {
                    let m = &mut self.slots[i].m;
                    if o == O::Asg {
                        m.clear();
                    }
                    m.extend(add);
                    m.iter_mut().for_each(|e| e.addr = 0);
                }
                drop(src);
            }
            O::AppOther => {
                let j = draw(self.slots.len() as u32) as usize;
                if j == i || n + self.slots[j].m.len() > self.max {
                    return;
                }
                trace!("      from container {}", j);
                let vals: Vec<u32> = self.slots[j].m.iter().map(|e| e.val).collect();
                if inl > 0 && n + vals.len() > inl {
                    self.slots[i].over = true;
                }
                self.asked = n + vals.len();
                self.copies = Some(vals.len());
                let src = self.slots[j].o.get();
                let out = sut(fb(FK::Alloc) | fb(FK::Clone), || {
                    if let Some(s) = src.slice() {
                        c.app(s)
                    }
                });
                if self.settle(i, out, &before, Rule::Prefix(vals.clone()), name) {
                    self.slots[i].m.extend(vals.iter().map(|v| Ent { id: ANY, val: *v, addr: 0 }));
                }
                self.check(j, true);
            }
            O::Clr => {
                let out = sut(fb(FK::Drop), || c.clr());
                if self.settle(i, out, &before, Rule::Subset, "clear") {
                    self.slots[i].m.clear();
                }
            }
            O::Clone => {
                if self.slots.len() >= 3 || !S::SIM {
                    return;
                }
                self.asked = n;
                self.copies = Some(n);
                let m: Vec<Ent> = before.iter().map(|e| Ent { id: ANY, val: e.val, addr: 0 }).collect();
                let mut none = false;
                self.construct("clone", fb(FK::Alloc) | fb(FK::Clone), m, true, |p| match c.try_clone() {
                    Some(v) => unsafe { ptr::write(p, v) },
                    None => {
                        none = true;
                        unsafe { S::create(p, 0) }
                    }
                });
                if none {
                    // this allocator cannot be copied
                    let last = self.slots.len() - 1;
                    self.slots[last].m.clear();
                }
            }
            O::CopyOut => {
                if self.sides.len() >= 3 {
                    return;
                }
                let again = !self.sides.is_empty() && draw(4) == 3;
                let vals: Vec<u32> = if again { self.sides[0].1.clone() } else { before.iter().map(|e| e.val).collect() };
                self.copies = Some(vals.len());
                let s0 = &self.sides;
                match sut(fb(FK::Alloc) | fb(FK::Clone), || if again { s0[0].0.copy() } else { c.copy_out() }) {
                    Out::Ok(Some(v)) => {
                        self.sides.push((v, vals));
                        probe("copied-out");
                    }
                    Out::Ok(None) | Out::Fault(_) => {}
                    Out::Panic(m) => violate(Class::Panic, format!("copying panicked: {m}")),
                }
            }
            O::Aside => {
                if self.sides.is_empty() {
                    return;
                }
                self.copies = None;
                let k = draw(self.sides.len() as u32) as usize;
                let what = draw(6);
                trace!("      copy {} action {}", k, what);
                let items = if what == 3 { self.mks(pick(&[2, 6, 20])) } else { vec![] };
                let one = if what < 2 { Some(self.mk()) } else { None };
                let (mut v, mut m) = self.sides.remove(k);
                let mut gone = false;
                match what {
                    0 | 1 => {
                        let val = one.as_ref().unwrap().val();
                        if let Out::Ok(()) = sut(fb(FK::Alloc), || v.push(one.unwrap())) {
                            m.push(val)
                        }
                    }
                    2 => {
                        let want = m.pop();
                        match sut(0, || v.pop()) {
                            Out::Ok(g) => {
                                if g.as_ref().map(|t| t.val()) != want {
                                    violate(Class::Model, "a copy popped another value");
                                }
                                if let Some(t) = g {
                                    self.hold(t)
                                }
                            }
                            _ => violate(Class::Panic, "pop panicked"),
                        }
                    }
                    3 => {
                        let had = m.len();
                        let out = sut(fb(FK::Alloc) | fb(FK::Clone), || v.append(&items));
                        m.extend(items.iter().map(|t| t.val()));
                        match out {
                            Out::Ok(()) => {}
                            Out::Fault(_) => {
                                let have = v.items().len();
                                if have < had || have > m.len() {
                                    violate(Class::Strong, format!("after a failed append of {} a copy holds {have}, it held {had}", items.len()));
                                }
                                m.truncate(have);
                            }
                            Out::Panic(e) => violate(Class::Panic, format!("append panicked: {e}")),
                        }
                    }
                    4 => {
                        if let Out::Ok(()) = sut(fb(FK::Drop), || v.clear()) {
                            m.clear();
                        } else if v.items().len() <= m.len() {
                            m = v.items().iter().map(|t| t.val()).collect();
                        }
                    }
                    _ => gone = true,
                }
                if gone {
                    let _ = sut(fb(FK::Drop), || drop(v));
                } else {
                    self.sides.push((v, m));
                }
            }
            O::FromIt => {
                if self.slots.len() >= 3 {
                    return;
                }
                let items = self.mks(pick(&[3, 8, 20, 70]));
                let m: Vec<Ent> = items.iter().map(|t| Ent { addr: 0, ..ent(t) }).collect();
                trace!("      values {}", show_vals(&m));
                let src = source(items);
                self.asked = src.announced(m.len());
                self.construct("collect", fb(FK::Alloc) | fb(FK::Iter), m, true, |p| unsafe { ptr::write(p, S::from_it(src)) });
            }
            O::FromSl => {
                if self.slots.len() >= 3 {
                    return;
                }
                let mut items = self.mks(pick(&[3, 8, 20]));
                let how = draw(4);
                let m: Vec<Ent> = items.iter().map(|t| ent(t)).collect();
                trace!("      values {} (form {})", show_vals(&m), how);
                self.asked = m.len();
                self.copies = Some(m.len());
                let anon: Vec<Ent> = m.iter().map(|e| Ent { id: ANY, val: e.val, addr: 0 }).collect();
                if how == 3 {
                    let own: Vec<Ent> = m.iter().map(|e| Ent { addr: 0, ..*e }).collect();
                    let mut arr = own;
                    let k = arr.len().min(5);
                    arr.truncate(k);
                    let mut its = items;
                    its.truncate(k);
                    self.construct("from array", fb(FK::Alloc), arr, true, |p| match S::from_arr(its) {
                        Ok(v) => unsafe { ptr::write(p, v) },
                        Err(_) => unsafe { S::create(p, 0) },
                    });
                } else {
                    self.construct("from slice", fb(FK::Alloc) | fb(FK::Clone), anon, true, |p| unsafe { ptr::write(p, S::from_sl(&mut items, how)) });
                }
            }
            O::WithCap => {
                if self.slots.len() >= 3 {
                    return;
                }
                let k = if (S::SIM || cx().oom_mode) && chance(1, 4) {
                    huge(std::mem::size_of::<S::T>().max(1), 0)
                } else {
                    pick(&[0usize, 1, 2, 7, 33])
                };
                trace!("      capacity {}", k);
                self.asked = k.min(1 << 20);
                if self.construct("with_capacity", fb(FK::Alloc), vec![], true, |p| unsafe { ptr::write(p, S::with_cap(k)) }) {
                    let last = self.slots.len() - 1;
                    let cap = self.slots[last].o.get().cap().map_or(k, |c| c.0);
                    if cap < k {
                        violate(Class::Capacity, format!("with_capacity({k}) gives capacity {cap}"));
                    }
                }
            }
            O::Consume => {
                let s = self.slots.remove(i);
                let m = s.m;
                let v = unsafe { ptr::read(s.o.p) };
                s.o.vacate();
                let w = match sut(0, || v.walker_own()) {
                    Out::Ok(w) => w,
                    _ => {
                        violate(Class::Panic, "into_iter panicked");
                        return;
                    }
                };
                let mut w = w;
                let mut got: Vec<S::T> = Vec::new();
                walk(&mut *w, &m, "consuming iterator", &|t: &S::T| Ent { addr: 0, ..ent(t) }, |t, _| got.push(t));
                let r = sut(fb(FK::Drop), move || drop(w));
                if let Out::Panic(e) = r {
                    violate(Class::Panic, format!("dropping a consuming iterator panicked: {e}"));
                }
                for t in got {
                    self.hold(t);
                }
            }
            O::MutIt => {
                let step = draw(3);
                let mut writes: Vec<(usize, u32)> = Vec::new();
                let nv = newval::<S::T>(&self.p);
                if let Some(mut w) = c.walker_mut() {
                    walk(&mut *w, &before, "mutable iterator", &|t: &&mut S::T| ent(&**t), |t, k| {
                        if step > 0 && k % 2 == (step - 1) as usize {
                            t.set(nv);
                            writes.push((k, nv));
                        }
                    });
                }
                for (k, v) in writes {
                    self.wrote(i, k, v);
                }
            }
            O::Iter => {
                let via = draw(5) == 4;
                let p = self.slots[i].o.get();
                let mut w = match if via { c.walker_via() } else { None } {
                    Some(w) => w,
                    None => p.walker(),
                };
                walk(&mut *w, &before, "iterator", &|t: &&S::T| ent(*t), |_, _| {});
            }
            O::SetAt => {
                if n > 0 {
                    let k = draw(n as u32) as usize;
                    let v = newval::<S::T>(&self.p);
                    if let Some(s) = c.slice_mut() {
                        if k < s.len() {
                            s[k].set(v);
                        }
                    }
                    self.wrote(i, k, v);
                }
            }
            O::Ends => {
                let f = c.first().map(|t| ent(t));
                let l = c.last().map(|t| ent(t));
                let known = |g: Option<Ent>, e: Option<&Ent>| match (g, e) {
                    (Some(g), Some(e)) => g.val == e.val && (e.id == ANY || g.id == e.id),
                    (None, None) => true,
                    _ => false,
                };
                if !known(f, before.first()) {
                    violate(Class::Model, format!("front is {:?}, should be {:?}", f.map(|e| e.val), before.first().map(|e| e.val)));
                }
                if !known(l, before.last()) && S::CAPS & POPB != 0 {
                    violate(Class::Model, format!("back is {:?}, should be {:?}", l.map(|e| e.val), before.last().map(|e| e.val)));
                }
                if n > 0 && draw(2) == 1 {
                    let v = newval::<S::T>(&self.p);
                    if draw(2) == 0 {
                        if let Some(t) = c.first_mut() {
                            if before[0].id != ANY && t.id() != before[0].id && <S::T as El>::TRACKED {
                                violate(Class::Model, "front_mut is not the front");
                            }
                            t.set(v);
                            self.wrote(i, 0, v);
                        }
                    } else if let Some(t) = c.last_mut() {
                        if before[n - 1].id != ANY && t.id() != before[n - 1].id && <S::T as El>::TRACKED {
                            violate(Class::Model, "back_mut is not the back");
                        }
                        t.set(v);
                        self.wrote(i, n - 1, v);
                    }
                } else if n == 0 && (c.first_mut().is_some() || c.last_mut().is_some()) {
                    violate(Class::Model, "front_mut or back_mut of an empty container is something");
                }
            }
            O::Fmt => match sut(fb(FK::Fmt), || c.fmt()) {
                Out::Ok(Some(s)) => {
                    let want: Vec<u64> = before.iter().map(|e| e.val as u64).collect();
                    if numbers(&s) != want {
                        violate(Class::Model, format!("rendering {s:?} does not list {}", show_vals(&before)));
                    }
                }
                Out::Ok(None) => {}
                Out::Fault(k) => self.after_fault(i, &before, k, Rule::Same),
                Out::Panic(m) => violate(Class::Panic, format!("formatting panicked: {m}")),
            },
            O::Reloc => {
                let dst: Obj<S> = Obj::place();
                let old = std::mem::replace(&mut self.slots[i].o, dst);
                let (src, dst) = (old.p, self.slots[i].o.p);
                if let Out::Panic(m) = sut(0, || unsafe { S::relocate(src, dst) }) {
                    violate(Class::Panic, format!("moving the container panicked: {m}"));
                }
                old.vacate();
                if inl > 0 {
                    self.slots[i].m.iter_mut().for_each(|e| e.addr = 0);
                }
                probe("container-relocated");
            }
            O::Convert => {
                let p = self.slots[i].o.p;
                match sut(0, || unsafe { ptr::write(p, S::convert(ptr::read(p))) }) {
                    Out::Ok(()) => {}
                    _ => violate(Class::Panic, "conversion panicked"),
                }
            }
            O::Ext => {
                let items = self.mks(pick(&[2, 5, 12]));
                let vals: Vec<u32> = items.iter().map(|t| t.val()).collect();
                let add: Vec<Ent> = items.iter().map(|t| Ent { addr: 0, ..ent(t) }).collect();
                trace!("      values {:?}", vals);
                let src = source(items);
                self.added = vals.len();
                self.asked = src.announced(vals.len()) + n;
                let out = sut(fb(FK::Alloc) | fb(FK::Iter), || c.ext(src));
                if self.settle(i, out, &before, Rule::Prefix(vals), "extend") {
                    self.slots[i].m.extend(add);
                }
            }
            O::Recreate => {
                self.destroy(i);
            }
            O::Foreign => self.foreign(i, n),
            O::Hand => self.exchange(i, n),
            O::Burst => {
                cx().quiet_place = true;
                let k = 1 + draw(self.p.burst);
                let side = draw(3);
                trace!("      {} times, side {}", k, side);
                for j in 0..k {
                    if self.slots[i].m.len() >= self.max {
                        break;
                    }
                    let front = S::CAPS & PUSHF != 0 && (S::CAPS & PUSHB == 0 || side == 1 || (side == 2 && j % 2 == 1));
                    let t = S::T::make((self.p.vals / 2 + j) % self.p.vals.min(S::T::MAXVAL.saturating_add(1)).max(1));
                    if !self.push(i, front, t, false) {
                        break;
                    }
                }
                probe("burst-of-pushes");
            }
            O::Flow => {
                cx().quiet_place = true;
                let mut sides = vec![];
                for (cap, s) in [(PUSHB | POPF, (false, true)), (PUSHF | POPB, (true, false)), (PUSHB | POPB, (false, false)), (PUSHF | POPF, (true, true))] {
                    if S::CAPS & cap == cap {
                        sides.push(s)
                    }
                }
                let (push, pop) = sides[draw(sides.len() as u32) as usize];
                let k = draw(pick(&[40, 300, 1500, 5000]));
                let k = if S::POOL > 0 || std::mem::size_of::<S::T>() > 1000 || S::T::HEAVY { k / 20 } else { k };
                if S::CAPS & (APPEND | POPB) == APPEND | POPB && draw(2) == 0 {
                    self.slice_flow(i, k / 8);
                    return;
                }
                let first = draw(2) == 1;
                trace!("      {} times push at the {}, pop at the {}", k, if push { "front" } else { "back" }, if pop { "front" } else { "back" });
                for j in 0..k {
                    if first && !self.slots[i].m.is_empty() {
                        self.pop(i, pop);
                    }
                    if self.slots[i].m.len() >= self.max {
                        break;
                    }
                    let t = S::T::make((self.p.vals / 2 + j) % self.p.vals.min(S::T::MAXVAL.saturating_add(1)).max(1));
                    if !self.push(i, push, t, false) {
                        break;
                    }
                    if !first && !self.slots[i].m.is_empty() {
                        self.pop(i, pop);
                    }
                }
                probe("long-steady-flow");
            }
            O::Drain => {
                cx().quiet_place = true;
                let k = 1 + draw(self.p.burst);
                let side = draw(3);
                trace!("      {} times, side {}", k, side);
                for j in 0..k {
                    if self.slots[i].m.is_empty() {
                        break;
                    }
                    let front = S::CAPS & POPF != 0 && (S::CAPS & POPB == 0 || side == 1 || (side == 2 && j % 2 == 1));
                    if front || S::CAPS & POPB != 0 {
                        self.pop(i, front);
                    }
                }
                probe("burst-of-pops");
            }
        }
    }

    /// Many times some elements at once, taken off again one by one.
    fn slice_flow(&mut self, i: usize, k: u32) {
        let c = self.slots[i].o.get();
        let assign = S::CAPS & ASSIGN != 0 && draw(2) == 0;
        let src = self.mks(5);
        let keep = draw(src.len() as u32 + 1) as usize;
        let vals: Vec<u32> = src.iter().map(|t| t.val()).collect();
        let add: Vec<Ent> = vals.iter().map(|v| Ent { id: ANY, val: *v, addr: 0 }).collect();
        trace!("      {} times {} {:?}, then popping", k, if assign { "assigning" } else { "appending" }, vals);
        self.copies = None;
        let base = self.slots[i].m.len();
        for _ in 0..k {
            let before = self.slots[i].m.clone();
            let need = if assign { add.len() } else { before.len() + add.len() };
            if need > self.max {
                break;
            }
            if S::INLINE > 0 && need > S::INLINE {
                self.slots[i].over = true;
            }
            // whatever is appended to this container is bounded by this
            self.asked = self.asked.max(need);
            let kinds = fb(FK::Alloc) | fb(FK::Clone) | if assign { fb(FK::Drop) } else { 0 };
            let out = sut(kinds, || if assign { c.asg(&src) } else { c.app(&src) });
            let rule = if assign { Rule::Assign(vals.clone()) } else { Rule::Prefix(vals.clone()) };
            if !self.settle(i, out, &before, rule, if assign { "assign" } else { "append" }) {
                return;
            }
            let m = &mut self.slots[i].m;
            if assign {
                m.clear();
            }
            m.extend(add.iter().copied());
            m.iter_mut().for_each(|e| e.addr = 0);
            let to = if assign { keep } else { base.min(self.slots[i].m.len()) };
            while self.slots[i].m.len() > to {
                self.pop(i, false);
                if cx().fault_in_op.is_some() {
                    return;
                }
            }
        }
        probe("steady-flow-of-slices");
    }

    fn wrote(&mut self, i: usize, k: usize, v: u32) {
        let s = &mut self.slots[i];
        s.m[k].val = v;
        if !<S::T as El>::TRACKED {
            s.m[k].id = v;
        }
    }
}

impl<S: Seq> World for SeqWorld<S> {
    fn step(&mut self) {
        led().tag = self.tag;
        let k = weighted(&self.w);
        let (o, _, _, name) = OPS[k];
        self.op_on(o, name);
    }
    fn verify(&mut self) {
        led().tag = self.tag;
        self.n += 1;
        let big: usize = self.slots.iter().map(|s| s.m.len()).sum();
        let full = big <= 80 || self.n % 4 == 0 || cx().fault_in_op.is_some();
        for i in 0..self.slots.len() {
            self.check(i, full);
        }
        for (v, m) in &self.sides {
            let it = v.items();
            if it.len() != m.len() || !it.iter().zip(m).all(|(t, w)| t.val() == *w) {
                violate(Class::Model, format!("a copy made earlier holds {:?}, should be {:?}", it.iter().map(|t| t.val()).collect::<Vec<_>>(), m));
            }
            if v.cap() < m.len() {
                violate(Class::Capacity, format!("a copy claims capacity {} for {} element(s)", v.cap(), m.len()));
            }
        }
        for (t, id) in &self.held {
            if t.id() != *id {
                violate(Class::ElemUse, "an element handed out earlier changed");
            }
        }
        let mut h = 0u64;
        for s in &self.slots {
            h = mix(h, s.m.len() as u64);
            for e in s.m.iter().take(8) {
                h = mix(h, e.val as u64);
            }
        }
        note(h);
    }
    fn peek(&self) {
        if self.slots.is_empty() {
            return;
        }
        op("read");
        let s = &self.slots[draw(self.slots.len() as u32) as usize];
        let c: &S = s.o.get();
        let n = s.m.len();
        let at = |t: &S::T, k: usize| {
            if k >= n || t.val() != s.m[k].val || (s.m[k].id != ANY && t.id() != s.m[k].id) {
                violate(Class::Model, format!("a reader found value {} at {k}", t.val()));
            }
        };
        match draw(6) {
            0 => {
                if c.c_len() != n || c.c_empty() != (n == 0) {
                    violate(Class::Model, "a reader found another length");
                }
                crate::sched::yield_point(30);
                if S::CAPS & ENDS != 0 {
                    for last in [false, true] {
                        let r = sut(0, || if last { c.last() } else { c.first() });
                        match r {
                            Out::Ok(Some(t)) => at(t, if last { n.wrapping_sub(1) } else { 0 }),
                            Out::Ok(None) if n == 0 || (last && S::CAPS & POPB == 0) => {}
                            _ => violate(Class::Model, "a reader found no end element"),
                        }
                    }
                }
            }
            1 | 2 => {
                let mut w = c.walker();
                walk(&mut *w, &s.m, "a reader's iterator", &|t: &&S::T| ent::<S::T>(t), |_, _| {});
            }
            3 => match sut(0, || c.fmt()) {
                Out::Ok(Some(t)) => {
                    if numbers(&t) != s.m.iter().map(|e| e.val as u64).collect::<Vec<_>>() {
                        violate(Class::Model, "a reader rendered other values");
                    }
                }
                Out::Ok(None) => {}
                _ => violate(Class::Panic, "a reader's rendering panicked"),
            },
            4 => {
                if let Some(sl) = c.slice() {
                    for (k, t) in sl.iter().enumerate() {
                        at(t, k);
                        crate::sched::yield_point(31);
                    }
                    let own = sl;
                    match sut(0, || own == sl) {
                        Out::Ok(true) => {}
                        _ => violate(Class::Model, "a reader found a container unequal to itself"),
                    }
                }
            }
            _ => {
                let o: Obj<S> = Obj::place();
                let p = o.p;
                let r = sut(0, || match c.try_clone() {
                    Some(k) => {
                        unsafe { ptr::write(p, k) };
                        true
                    }
                    None => false,
                });
                match r {
                    Out::Ok(true) => {
                        crate::sched::yield_point(32);
                        let mut k = 0;
                        o.get().each(n + 2, &mut |t| {
                            if k >= n || t.val() != s.m[k].val {
                                violate(Class::Model, format!("a reader's copy has value {} at {k}", t.val()));
                            }
                            k += 1;
                        });
                        if k != n {
                            violate(Class::Model, format!("a reader's copy has {k} elements of {n}"));
                        }
                        let _ = sut(0, || unsafe { ptr::drop_in_place(p) });
                    }
                    Out::Ok(false) => {}
                    _ => violate(Class::Panic, "a reader's copy panicked"),
                }
                o.vacate();
            }
        }
    }
    fn expect_live(&self) -> isize {
        if <S::T as El>::TRACKED {
            (self.slots.iter().map(|s| s.m.len()).sum::<usize>() + self.sides.iter().map(|s| s.1.len()).sum::<usize>() + self.held.len()) as isize
        } else {
            0
        }
    }
    fn finish(&mut self) {
        led().tag = self.tag;
        while !self.slots.is_empty() {
            let i = self.slots.len() - 1;
            self.destroy(i);
        }
        while let Some((v, _)) = self.sides.pop() {
            let _ = sut(fb(FK::Drop), || drop(v));
        }
        self.held.clear();
        let _ = self.full_at;
    }
    fn tag(&self) -> u32 {
        self.tag
    }
}
