//! Ordered maps and sets whose tree a foreign peer builds and keeps changing, in the shared layout.
//!
//! The crate has no insertion or removal of its own for these; the peer (the other party of the
//! system) is simulated: a red-black tree over raw memory, allocating through the container's own
//! allocator or pool exactly as the foreign library does.
use super::dictimpl::{Halves, Order, Remainder};
use super::seq::{walk, It, Walk};
use super::*;
use crate::alloc::*;
use eastl_rs::compare::{Greater, Less};
use eastl_rs::{FixedMap, FixedMapWithOverflow, Map, Set};
use std::mem::{align_of, size_of};
use std::ptr;

/// The mapped part: an element, or nothing for sets.
pub trait PV: Send + 'static {
    const UNIT: bool;
    const OWNED: bool;
    const LABEL: &'static str;
    fn make_v(v: u32) -> Self;
    fn vid(&self) -> u32;
    fn vval(&self) -> u32;
    fn set_v(&mut self, v: u32);
}
impl PV for () {
    const UNIT: bool = true;
    const OWNED: bool = false;
    const LABEL: &'static str = "nothing";
    fn make_v(_: u32) {}
    fn vid(&self) -> u32 {
        0
    }
    fn vval(&self) -> u32 {
        0
    }
    fn set_v(&mut self, _: u32) {}
}
impl<T: El> PV for T {
    const UNIT: bool = false;
    const OWNED: bool = T::TRACKED;
    const LABEL: &'static str = T::NAME;
    fn make_v(v: u32) -> Self {
        T::make(v)
    }
    fn vid(&self) -> u32 {
        self.id()
    }
    fn vval(&self) -> u32 {
        self.val()
    }
    fn set_v(&mut self, v: u32) {
        self.set(v)
    }
}

#[repr(C)]
pub struct Pn<K, V> {
    right: *mut Pn<K, V>,
    left: *mut Pn<K, V>,
    pc: usize,
    pair: (K, V),
}
#[repr(C)]
struct Head<K, V> {
    low: *mut Pn<K, V>,
    high: *mut Pn<K, V>,
    root: *mut Pn<K, V>,
    size: u32,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Store {
    Plain,
    Pool,
    PoolOver,
}

#[allow(unused_variables)]
pub trait Tree: Sized + 'static {
    type K: El;
    type V: PV;
    const SIM: bool;
    const STORE: Store = Store::Plain;
    const N: usize = 0;
    fn name() -> String;
    fn rank(v: u32) -> u64;
    unsafe fn create(p: *mut Self, how: u32);
    fn c_len(&self) -> usize;
    fn c_empty(&self) -> bool;
    fn has(&self, k: &Self::K) -> bool;
    fn look(&self, k: &Self::K) -> Option<&Self::V> {
        None
    }
    fn look_mut(&mut self, k: &Self::K) -> Option<&mut Self::V> {
        None
    }
    fn clr(&mut self);
    fn walker<'a>(&'a self) -> Box<dyn Walk<(&'a Self::K, Option<&'a Self::V>)> + 'a>;
    fn walker_mut<'a>(&'a mut self) -> Option<Box<dyn Walk<(&'a Self::K, &'a mut Self::V)> + 'a>> {
        None
    }
    fn fmt(&self) -> Option<String> {
        None
    }
}

macro_rules! map_body {
    ($c:ident) => {
        type K = K;
        type V = V;
        fn rank(v: u32) -> u64 {
            <$c<K> as Order<K>>::rank(v)
        }
        fn c_len(&self) -> usize {
            self.len()
        }
        fn c_empty(&self) -> bool {
            self.is_empty()
        }
        fn has(&self, k: &K) -> bool {
            self.contains_key(k)
        }
        fn look(&self, k: &K) -> Option<&V> {
            self.get(k)
        }
        fn look_mut(&mut self, k: &K) -> Option<&mut V> {
            self.get_mut(k)
        }
        fn clr(&mut self) {
            self.clear()
        }
        fn walker<'a>(&'a self) -> Box<dyn Walk<(&'a K, Option<&'a V>)> + 'a> {
            Box::new(It::mapped(unsafe { self.iter() }, |(k, v)| (k, Some(v))))
        }
        fn walker_mut<'a>(&'a mut self) -> Option<Box<dyn Walk<(&'a K, &'a mut V)> + 'a>> {
            Some(Box::new(It::new(unsafe { self.iter_mut() })))
        }
    };
}
macro_rules! maps {
    ($($c:ident;)*) => { $(
        impl<K: El, V: El, A: Al> Tree for Map<K, V, A, $c<K>> {
            map_body!($c);
            const SIM: bool = A::SIM;
            fn name() -> String {
                format!("Map of {} to {} with the {}, ordered by {}", K::NAME, V::NAME, A::NAME, stringify!($c))
            }
            unsafe fn create(p: *mut Self, how: u32) {
                ptr::write(
                    p,
                    match how {
                        0 | 1 => Map::with_allocator(A::default()),
                        2 => Map::with_compare($c::default()),
                        _ => Map::with_allocator_and_compare(A::default(), $c::default()),
                    },
                )
            }
            fn fmt(&self) -> Option<String> {
                Some(format!("{self:?}"))
            }
        }
        impl<K: El, A: Al> Tree for Set<K, A, $c<K>> {
            type K = K;
            type V = ();
            const SIM: bool = A::SIM;
            fn name() -> String {
                format!("Set of {} with the {}, ordered by {}", K::NAME, A::NAME, stringify!($c))
            }
            fn rank(v: u32) -> u64 {
                <$c<K> as Order<K>>::rank(v)
            }
            unsafe fn create(p: *mut Self, how: u32) {
                ptr::write(
                    p,
                    match how {
                        0 | 1 => Set::with_allocator(A::default()),
                        2 => Set::with_compare($c::default()),
                        _ => Set::with_allocator_and_compare(A::default(), $c::default()),
                    },
                )
            }
            fn c_len(&self) -> usize {
                self.len()
            }
            fn c_empty(&self) -> bool {
                self.is_empty()
            }
            fn has(&self, k: &K) -> bool {
                self.contains_key(k)
            }
            fn clr(&mut self) {
                self.clear()
            }
            fn walker<'a>(&'a self) -> Box<dyn Walk<(&'a K, Option<&'a ()>)> + 'a> {
                Box::new(It::mapped(unsafe { self.iter() }, |k| (k, None)))
            }
        }
        impl<K: El, V: El, const M: usize> Tree for FixedMap<K, V, M, $c<K>> {
            map_body!($c);
            const SIM: bool = true;
            const STORE: Store = Store::Pool;
            const N: usize = M;
            fn name() -> String {
                format!("FixedMap of {} {} to {}, ordered by {}", M, K::NAME, V::NAME, stringify!($c))
            }
            unsafe fn create(p: *mut Self, _how: u32) {
                super::seqimpl::build(FixedMap::<K, V, M, $c<K>>::new(), p)
            }
            fn fmt(&self) -> Option<String> {
                Some(format!("{:?}", **self))
            }
        }
        impl<K: El, V: El, const M: usize, A: Al> Tree for FixedMapWithOverflow<K, V, M, A, $c<K>> {
            map_body!($c);
            const SIM: bool = A::SIM;
            const STORE: Store = Store::PoolOver;
            const N: usize = M;
            fn name() -> String {
                format!("FixedMapWithOverflow of {} {} to {} with the {}, ordered by {}", M, K::NAME, V::NAME, A::NAME, stringify!($c))
            }
            unsafe fn create(p: *mut Self, _how: u32) {
                super::seqimpl::build(FixedMapWithOverflow::<K, V, M, A, $c<K>>::new(), p)
            }
            fn fmt(&self) -> Option<String> {
                Some(format!("{:?}", **self))
            }
        }
    )* };
}
maps! { Less; Greater; Remainder; Halves; }

// ------------------------------------------------------------------------------------- the peer
type P<T> = *mut Pn<<T as Tree>::K, <T as Tree>::V>;

pub struct Peer<T: Tree> {
    o: Obj<T>,
    /// Empty trees are written as null pointers, or as pointers to the anchor.
    anchored: bool,
    pool: (usize, usize),
}
const BLACK: usize = 1;
unsafe fn right<K, V>(n: *mut Pn<K, V>) -> *mut Pn<K, V> {
    (*n).right
}
unsafe fn parent<K, V>(n: *mut Pn<K, V>) -> *mut Pn<K, V> {
    ((*n).pc & !1) as *mut Pn<K, V>
}
unsafe fn set_parent<K, V>(n: *mut Pn<K, V>, p: *mut Pn<K, V>) {
    (*n).pc = ((*n).pc & 1) | p as usize
}
unsafe fn red<K, V>(n: *mut Pn<K, V>) -> bool {
    !n.is_null() && (*n).pc & BLACK == 0
}
unsafe fn paint<K, V>(n: *mut Pn<K, V>, black: bool) {
    (*n).pc = ((*n).pc & !1) | black as usize
}

impl<T: Tree> Peer<T> {
    fn head(&self) -> &mut Head<T::K, T::V> {
        unsafe { &mut *((self.o.p as usize + 8) as *mut Head<T::K, T::V>) }
    }
    fn anchor(&self) -> P<T> {
        (self.o.p as usize + 8) as P<T>
    }
    fn word(&self, off: usize) -> &mut usize {
        unsafe { &mut *((self.o.p as usize + off) as *mut usize) }
    }
    fn owner(&self) -> u32 {
        let off = match T::STORE {
            Store::Plain => 36,
            _ => 64,
        };
        if T::SIM {
            unsafe { *((self.o.p as usize + off) as *const u32) }
        } else {
            GLOBAL
        }
    }
    fn set_empty(&mut self) {
        let e = if self.anchored { self.anchor() } else { ptr::null_mut() };
        let h = self.head();
        h.low = e;
        h.high = e;
        h.root = ptr::null_mut();
        h.size = 0;
    }
    const NS: usize = size_of::<Pn<T::K, T::V>>();

    /// Takes a node's memory, as the foreign library would.
    fn grab(&mut self) -> Option<P<T>> {
        let (n, al) = (Self::NS, align_of::<Pn<T::K, T::V>>());
        if T::STORE != Store::Plain {
            let head = *self.word(40);
            if head != 0 {
                *self.word(40) = unsafe { *(head as *const usize) };
                probe("pool-node-reused");
                return Some(head as P<T>);
            }
            let next = *self.word(48);
            if next != *self.word(56) {
                *self.word(48) = next + n;
                return Some(next as P<T>);
            }
            if T::STORE == Store::Pool {
                return None;
            }
            probe("pool-overflow");
        }
        Some(cx().heap.alloc(n, al, self.owner(), 0) as P<T>)
    }
    fn in_pool(&self, a: usize) -> bool {
        T::STORE != Store::Plain && a >= self.pool.0 && a < self.pool.1
    }
    fn give_back(&mut self, n: P<T>) {
        if self.in_pool(n as usize) {
            unsafe { *(n as *mut usize) = *self.word(40) };
            *self.word(40) = n as usize;
        } else {
            let o = self.owner();
            cx().heap.free(n as usize, Self::NS, align_of::<Pn<T::K, T::V>>(), o);
        }
    }
    unsafe fn rotate(&mut self, x: P<T>, left: bool) {
        let y = if left { (*x).right } else { (*x).left };
        let mid = if left { (*y).left } else { (*y).right };
        if left {
            (*x).right = mid
        } else {
            (*x).left = mid
        }
        if !mid.is_null() {
            set_parent(mid, x);
        }
        let p = parent(x);
        set_parent(y, p);
        if self.head().root == x {
            self.head().root = y;
        } else if (*p).left == x {
            (*p).left = y;
        } else {
            (*p).right = y;
        }
        if left {
            (*y).left = x
        } else {
            (*y).right = x
        }
        set_parent(x, y);
    }
    unsafe fn link(&mut self, n: P<T>) {
        let rank = T::rank((*n).pair.0.val());
        (*n).left = ptr::null_mut();
        (*n).right = ptr::null_mut();
        let mut at = self.head().root;
        let mut p: P<T> = ptr::null_mut();
        let (mut lowest, mut highest, mut went_left) = (true, true, false);
        while !at.is_null() {
            p = at;
            went_left = rank < T::rank((*at).pair.0.val());
            if went_left {
                highest = false;
                at = (*at).left;
            } else {
                lowest = false;
                at = (*at).right;
            }
        }
        if p.is_null() {
            (*n).pc = self.anchor() as usize;
            self.head().root = n;
        } else {
            (*n).pc = p as usize;
            if went_left {
                (*p).left = n
            } else {
                (*p).right = n
            }
        }
        if lowest {
            self.head().low = n;
        }
        if highest {
            self.head().high = n;
        }
        self.head().size += 1;
        let mut z = n;
        loop {
            if z == self.head().root || !red(parent(z)) {
                break;
            }
            let p = parent(z);
            let g = parent(p);
            let p_left = (*g).left == p;
            let u = if p_left { (*g).right } else { (*g).left };
            if red(u) {
                paint(p, true);
                paint(u, true);
                paint(g, false);
                z = g;
                continue;
            }
            let z_left = (*p).left == z;
            if z_left != p_left {
                self.rotate(p, p_left);
                z = p;
            }
            let p = parent(z);
            let g = parent(p);
            paint(p, true);
            paint(g, false);
            self.rotate(g, !p_left);
        }
        let r = self.head().root;
        paint(r, true);
    }
    fn nodes(&self, limit: usize) -> Vec<P<T>> {
        let mut out: Vec<P<T>> = vec![];
        let mut stack: Vec<P<T>> = vec![];
        let mut at = self.head().root;
        loop {
            while !at.is_null() {
                if stack.len() > 200 || !cx().heap.held(at as usize, Self::NS) {
                    violate(Class::Peer, "the peer meets a link to memory that holds no entry");
                    return out;
                }
                stack.push(at);
                at = unsafe { (*at).left };
            }
            match stack.pop() {
                None => return out,
                Some(n) => {
                    out.push(n);
                    if out.len() > limit {
                        violate(Class::Peer, "the peer's walk over the tree does not end");
                        return out;
                    }
                    at = unsafe { right(n) };
                }
            }
        }
    }
    /// Takes one node out and links the others again in a chosen order.
    unsafe fn unlink(&mut self, n: P<T>, order: u32) {
        let mut rest: Vec<P<T>> = self.nodes(100_000).into_iter().filter(|x| *x != n).collect();
        let k = rest.len();
        match order {
            0 => {}
            1 => rest.reverse(),
            x => {
                let mut h = x as u64;
                for i in (1..k).rev() {
                    h = mix(h, i as u64);
                    rest.swap(i, (h % (i as u64 + 1)) as usize);
                }
            }
        }
        self.set_empty();
        for r in rest {
            self.link(r);
        }
    }
    /// Everything the peer can see: header and node memory.
    fn image(&self) -> u64 {
        let h = self.head();
        let mut x = mix(h.low as u64, mix(h.high as u64, mix(h.root as u64, h.size as u64)));
        if T::STORE != Store::Plain {
            for off in [40, 48, 56] {
                x = mix(x, *self.word(off) as u64);
            }
        }
        for n in self.nodes(100_000) {
            unsafe {
                x = mix(x, mix((*n).left as u64, mix((*n).right as u64, (*n).pc as u64)));
                let p = &(*n).pair as *const _ as *const u8;
                for i in 0..size_of::<T::K>().min(8) {
                    x = x.rotate_left(7) ^ *p.add(i) as u64;
                }
            }
        }
        x
    }
}

// ------------------------------------------------------------------------------------- the world
#[derive(Clone, Copy)]
struct TE {
    kid: u32,
    kval: u32,
    vid: u32,
    vval: u32,
    node: usize,
}
struct TSlot<T: Tree> {
    p: Peer<T>,
    m: Vec<TE>,
}
#[derive(Clone, Copy, PartialEq)]
enum O {
    Nop,
    Ins,
    Del,
    Val,
    Get,
    GetMut,
    Iter,
    IterMut,
    Clr,
    Fmt,
    Burst,
    Drain,
    Recreate,
    New,
}
const OPS: [(O, u32, &str); 14] = [
    (O::Nop, 1, "check"),
    (O::Ins, 24, "peer-inserts"),
    (O::Del, 9, "peer-removes"),
    (O::Val, 3, "peer-writes-value"),
    (O::Get, 8, "lookup"),
    (O::GetMut, 5, "get_mut"),
    (O::Iter, 6, "iterate"),
    (O::IterMut, 4, "iter_mut"),
    (O::Clr, 3, "clear"),
    (O::Fmt, 1, "format"),
    (O::Burst, 2, "peer-inserts-many"),
    (O::Drain, 2, "peer-removes-many"),
    (O::Recreate, 3, "destroy"),
    (O::New, 1, "construct"),
];
pub struct MapWorld<T: Tree> {
    slots: Vec<TSlot<T>>,
    p: Params,
    w: Vec<u32>,
    tag: u32,
    stride: u32,
    next: u32,
    arrival: u32,
    n: u32,
}
unsafe impl<T: Tree> Send for MapWorld<T> {}

fn show_t(m: &[TE]) -> String {
    let mut s = String::from("{");
    for (i, e) in m.iter().enumerate().take(16) {
        if i > 0 {
            s.push(' ');
        }
        s.push_str(&format!("{}:{}", e.kval, e.vval));
    }
    if m.len() > 16 {
        s.push_str(&format!(" … {} more", m.len() - 16));
    }
    s.push('}');
    s
}

impl<T: Tree> MapWorld<T> {
    pub fn new(tag: u32, iter_heavy: bool) -> Self {
        led().tag = tag;
        let p = params(T::K::HEAVY);
        let mut w = vec![];
        for (o, b, _) in OPS.iter() {
            let ok = match o {
                O::Val | O::GetMut | O::IterMut | O::Fmt => !T::V::UNIT,
                O::Burst | O::Drain => p.burst != 0,
                _ => true,
            };
            let mut x = if ok { b * [1, 2, 1, 0, 4][draw(5) as usize] } else { 0 };
            if *o == O::Ins {
                x = x.max(10)
            }
            if iter_heavy && ok && matches!(o, O::Iter | O::IterMut) {
                x = x.max(10) * 2
            }
            w.push(x);
        }
        trace!("world: {} (keys below {}, bursts up to {})", T::name(), p.vals, p.burst);
        let stride = pick(&[1, 1, 2, 7]);
        let arrival = draw(4);
        MapWorld { slots: vec![], p, w, tag, stride, next: 0, arrival, n: 0 }
    }
    fn find(m: &[TE], kval: u32) -> Result<usize, usize> {
        let r = T::rank(kval);
        m.binary_search_by(|e| T::rank(e.kval).cmp(&r))
    }
    fn key(&mut self) -> u32 {
        let lim = self.p.vals.max(1);
        let k = match self.arrival {
            1 if draw(4) != 3 => {
                self.next = (self.next + 1) % lim;
                self.next
            }
            2 if draw(4) != 3 => {
                self.next = (self.next + lim - 1) % lim;
                self.next
            }
            _ => draw(lim),
        };
        k.wrapping_mul(self.stride) % T::K::MAXVAL.saturating_add(1).max(1)
    }
    fn some_key(&mut self, i: usize) -> u32 {
        let n = self.slots[i].m.len();
        if n > 0 && draw(4) != 0 {
            self.slots[i].m[draw(n as u32) as usize].kval
        } else {
            self.key()
        }
    }
    fn vval(&self) -> u32 {
        if T::V::UNIT {
            0
        } else {
            draw(250)
        }
    }
    fn construct(&mut self) {
        op("construct");
        let how = draw(4);
        let anchored = draw(2) == 1;
        trace!("{}: construct {} (form {how})", cx().run_ops, T::name());
        let o: Obj<T> = Obj::place();
        let p = o.p;
        match sut(0, || unsafe { T::create(p, how) }) {
            Out::Ok(()) => {
                let mut peer = Peer { o, anchored, pool: (0, 0) };
                let h = peer.head();
                if h.size != 0 || !h.root.is_null() || !h.low.is_null() || !h.high.is_null() {
                    violate(Class::Peer, "a new container is not empty in the shared layout");
                }
                if T::STORE != Store::Plain {
                    let (next, cap) = (*peer.word(48), *peer.word(56));
                    peer.pool = (next, cap);
                    let (lo, hi) = (p as usize, p as usize + size_of::<T>());
                    let nodes = cap.wrapping_sub(next) / Peer::<T>::NS;
                    if next < lo + 64 || cap > hi || cap < next || nodes < T::N || nodes > T::N + 1 || (cap - next) % Peer::<T>::NS != 0 || next % align_of::<Pn<T::K, T::V>>() != 0 {
                        violate(Class::Pool, format!("the pool of {} nodes spans bytes {}..{} of an object of {}", T::N, next.wrapping_sub(lo) as isize, cap.wrapping_sub(lo) as isize, hi - lo));
                    }
                }
                peer.set_empty();
                self.slots.push(TSlot { p: peer, m: vec![] });
            }
            Out::Panic(e) => violate(Class::Panic, format!("construction panicked: {e}")),
            Out::Fault(_) => o.vacate(),
        }
    }
    fn destroy(&mut self, i: usize) {
        let s = self.slots.remove(i);
        let p = s.p.o.p;
        if let Out::Panic(e) = sut(fb(FK::Drop), || unsafe { ptr::drop_in_place(p) }) {
            violate(Class::Panic, format!("destruction panicked: {e}"));
        }
        s.p.o.vacate();
    }
    fn put(&mut self, i: usize, kval: u32) -> bool {
        let vval = self.vval();
        let at = Self::find(&self.slots[i].m, kval);
        let s = &mut self.slots[i];
        match at {
            Ok(j) => {
                // a foreign map keeps the entry and overwrites the value
                let n = s.m[j].node as P<T>;
                unsafe { (*n).pair.1.set_v(vval) };
                s.m[j].vval = vval;
                if !T::V::OWNED {
                    s.m[j].vid = unsafe { (*n).pair.1.vid() };
                }
                true
            }
            Err(j) => match s.p.grab() {
                None => {
                    probe("pool-exhausted");
                    false
                }
                Some(n) => {
                    if s.m.iter().any(|e| e.node == n as usize) {
                        violate(Class::Pool, "the pool hands out a node that is in use");
                    }
                    let (k, v) = (T::K::make(kval), T::V::make_v(vval));
                    let e = TE { kid: k.id(), kval, vid: v.vid(), vval, node: n as usize };
                    unsafe {
                        ptr::write(&mut (*n).pair, (k, v));
                        if s.m.is_empty() {
                            s.p.set_empty();
                        }
                        s.p.link(n);
                    }
                    s.m.insert(j, e);
                    true
                }
            },
        }
    }
    fn del(&mut self, i: usize, kval: u32, order: u32) {
        if let Ok(j) = Self::find(&self.slots[i].m, kval) {
            let s = &mut self.slots[i];
            let e = s.m.remove(j);
            let n = e.node as P<T>;
            unsafe {
                s.p.unlink(n, order);
                drop(ptr::read(&(*n).pair));
            }
            s.p.give_back(n);
        }
    }
    fn check(&self, i: usize, samples: u32) {
        let s = &self.slots[i];
        let c: &T = s.p.o.get();
        let n = s.m.len();
        let before = s.p.image();
        if c.c_len() != n {
            violate(Class::Model, format!("length is {}, should be {n}", c.c_len()));
        }
        if c.c_empty() != (n == 0) {
            violate(Class::Model, format!("is_empty() is {} with {n} entries", c.c_empty()));
        }
        let h = s.p.head();
        if n == 0 {
            let ok = |p: P<T>| p.is_null() || p == s.p.anchor();
            if h.size != 0 || !h.root.is_null() || !ok(h.low) || !ok(h.high) {
                violate(Class::Peer, format!("an empty container still shows the peer {} entries, {} root, {} first and {} last entry", h.size, if h.root.is_null() { "no" } else { "a" }, if ok(h.low) { "no" } else { "a" }, if ok(h.high) { "no" } else { "a" }));
            }
        } else if h.low as usize != s.m[0].node || h.high as usize != s.m[n - 1].node {
            violate(Class::Peer, "first or last entry is wrong in the shared layout");
        }
        let nodes = s.p.nodes(n + 100);
        if nodes.len() != n || nodes.iter().zip(&s.m).any(|(a, b)| *a as usize != b.node) {
            violate(Class::Peer, format!("the peer finds {} entries, should be {n}", nodes.len()));
        }
        // whole traversal
        let mut w = c.walker();
        let mut k = 0;
        while let Some((key, v)) = w.next() {
            if k >= n {
                violate(Class::Model, format!("traversal meets more than the {n} entries"));
                break;
            }
            let e = &s.m[k];
            if key.val() != e.kval || key.id() != e.kid || key as *const T::K as usize != unsafe { &(*(e.node as P<T>)).pair.0 as *const T::K as usize } {
                violate(Class::Order, format!("traversal meets key {} at position {k}, should be {}", key.val(), e.kval));
            }
            if let Some(v) = v {
                if v.vval() != e.vval || v.vid() != e.vid {
                    violate(Class::Model, format!("traversal meets value {} for key {}, should be {}", v.vval(), e.kval, e.vval));
                }
            }
            k += 1;
        }
        if k < n {
            violate(Class::Model, format!("traversal meets {k} entries, should be {n}"));
        }
        drop(w);
        for _ in 0..samples {
            if n > 0 {
                self.lookup(i, s.m[draw(n as u32) as usize].kval);
            }
            if n > 0 {
                self.lookup(i, s.m[draw(n as u32) as usize].kval ^ 1);
            }
            self.lookup(i, draw(self.p.vals.max(1)) % T::K::MAXVAL.saturating_add(1).max(1));
        }
        if s.p.image() != before {
            violate(Class::Peer, "reading changed what the peer sees");
        }
        if T::STORE != Store::Plain {
            self.check_pool(i);
        }
        state(n.min(30) as u64 + if n > 30 { (n as u64).ilog2() as u64 * 64 } else { 0 }, unsafe { s.p.head().root.as_ref().map_or(0, |r| T::rank(r.pair.0.val()) % 16) }, T::STORE as u64);
    }
    fn check_pool(&self, i: usize) {
        let s = &self.slots[i];
        let ns = Peer::<T>::NS;
        let (lo, hi) = s.p.pool;
        let (next, cap) = (*s.p.word(48), *s.p.word(56));
        if cap != hi || next < lo || next > hi || (next - lo) % ns != 0 {
            violate(Class::Pool, "the pool's bounds moved");
            return;
        }
        let total = (hi - lo) / ns;
        let mut used = vec![false; total];
        let mut f = *s.p.word(40);
        let mut free = (hi - next) / ns;
        let mut steps = 0;
        while f != 0 {
            if f < lo || f >= next || (f - lo) % ns != 0 {
                violate(Class::Pool, "the pool's free list holds something that is not one of its nodes");
                return;
            }
            if std::mem::replace(&mut used[(f - lo) / ns], true) {
                violate(Class::Pool, "a pool node is free twice");
                return;
            }
            free += 1;
            steps += 1;
            if steps > total {
                return;
            }
            f = unsafe { *(f as *const usize) };
        }
        let mut live = 0;
        for e in &s.m {
            if s.p.in_pool(e.node) {
                live += 1;
                if e.node >= next || std::mem::replace(&mut used[(e.node - lo) / ns], true) {
                    violate(Class::Pool, "a pool node is free and in use");
                }
            }
        }
        if live + free != total && !cx().leak_exempt {
            violate(Class::Pool, format!("of {total} pool nodes {live} are in use and {free} are free"));
        }
    }
    /// A lookup follows one path of the tree.
    fn descent(w: Work, n: usize) {
        if cx().costs && cx().fault_in_op.is_none() {
            let w = w.since();
            at_most(&w, FK::Cmp, 6 * log2_up(n) + 10, "lookup");
            at_most(&w, FK::Eq, 6 * log2_up(n) + 10, "lookup");
            no_requests(&w, "lookup");
        }
    }
    fn lookup(&self, i: usize, kval: u32) {
        let s = &self.slots[i];
        let c: &T = s.p.o.get();
        let k = T::K::make(kval);
        let want = Self::find(&s.m, kval).ok().map(|j| s.m[j]);
        let w = Work::now();
        let r = sut(fb(FK::Cmp), || c.has(&k));
        Self::descent(w, s.m.len());
        match r {
            Out::Ok(b) if b != want.is_some() => violate(Class::Model, format!("contains_key({kval}) is {b}; entries {}", show_t(&s.m))),
            Out::Panic(e) => violate(Class::Panic, format!("lookup panicked: {e}")),
            _ => {}
        }
        if !T::V::UNIT {
            let w = Work::now();
            let r = sut(fb(FK::Cmp), || c.look(&k));
            Self::descent(w, s.m.len());
            match r {
                Out::Ok(g) => {
                    let g = g.map(|v| (v.vid(), v.vval()));
                    if g != want.map(|e| (e.vid, e.vval)) {
                        violate(Class::Model, format!("get({kval}) gives {:?}, should be {:?}", g.map(|g| g.1), want.map(|e| e.vval)));
                    }
                }
                Out::Panic(e) => violate(Class::Panic, format!("lookup panicked: {e}")),
                _ => {}
            }
        }
    }
    /// Lookups whose comparisons contradict themselves: what they find is an entry, and nothing changes.
    fn liar(&mut self) {
        let dens = [1, 2, 4, 16];
        cx().lie_den = [pick(&dens), pick(&dens), 0];
        cx().lie_style = draw(9);
        op("lookup");
        let i = draw(self.slots.len() as u32) as usize;
        let was = cx().told;
        for _ in 0..1 + draw(6) {
            let kval = self.some_key(i);
            trace!("{}: lookup of key {kval} with contradicting answers on container {i} {}", cx().run_ops, show_t(&self.slots[i].m));
            let k = T::K::make(kval);
            let c = self.slots[i].p.o.get();
            sut(0, || c.has(&k));
            if T::V::UNIT {
                continue;
            }
            let r = sut(0, || {
                c.look(&k).map(|v| {
                    let _h = InHarness::enter();
                    (v.vid(), v.vval(), v as *const T::V as usize)
                })
            });
            if let Out::Ok(Some(g)) = r {
                let hit = self.slots[i].m.iter().any(|e| (e.vid, e.vval) == (g.0, g.1) && unsafe { std::ptr::addr_of!((*(e.node as P<T>)).pair.1) as usize } == g.2);
                if !hit {
                    violate(Class::Model, "with contradicting answers a lookup gives something that is no entry");
                }
            }
            let c = self.slots[i].p.o.get();
            let nv = self.vval();
            let r = sut(0, || {
                c.look_mut(&k).map(|v| {
                    let _h = InHarness::enter();
                    let was = v as *const T::V as usize;
                    v.set_v(nv);
                    was
                })
            });
            if let Out::Ok(Some(a)) = r {
                let at = |e: &TE| unsafe { std::ptr::addr_of!((*(e.node as P<T>)).pair.1) as usize };
                match self.slots[i].m.iter_mut().find(|e| at(e) == a) {
                    Some(e) => {
                        e.vval = nv;
                        e.vid = unsafe { (*(e.node as P<T>)).pair.1.vid() };
                    }
                    None => violate(Class::Model, "with contradicting answers a lookup gives something that is no entry"),
                }
            }
        }
        cx().lie_den = [0; 3];
        let n = cx().told;
        for (k, name) in ["contradicting equality tests", "contradicting comparisons"].into_iter().enumerate() {
            *cx().st.probes.entry(name.to_string()).or_insert(0) += n[k] - was[k];
        }
    }
    /// Reads the state back after a clear that failed half-way.
    fn reread(&mut self, i: usize) {
        let s = &mut self.slots[i];
        let before = std::mem::take(&mut s.m);
        for n in s.p.nodes(100_000) {
            let (k, v) = unsafe { (&(*n).pair.0, &(*n).pair.1) };
            let e = TE { kid: k.id(), kval: k.val(), vid: v.vid(), vval: v.vval(), node: n as usize };
            if !before.iter().any(|b| b.kid == e.kid && b.node == e.node) {
                violate(Class::Strong, "an entry comes from nowhere after the failed operation");
            }
            s.m.push(e);
        }
        probe("resynchronised-after-fault");
    }
    fn go(&mut self, o: O, name: &'static str) {
        if self.slots.is_empty() || (o == O::New && self.slots.len() < 3) {
            return self.construct();
        }
        op(name);
        let i = draw(self.slots.len() as u32) as usize;
        trace!("{}: {} on container {} {}", cx().run_ops, name, i, show_t(&self.slots[i].m));
        let n = self.slots[i].m.len();
        let c = self.slots[i].p.o.get();
        match o {
            O::Nop | O::New => {}
            O::Ins => {
                if n < 400 {
                    let k = self.key();
                    trace!("      key {k}");
                    self.put(i, k);
                }
            }
            O::Del => {
                let k = self.some_key(i);
                let order = draw(6);
                trace!("      key {k}");
                self.del(i, k, order);
            }
            O::Val => {
                if n > 0 {
                    let k = self.slots[i].m[draw(n as u32) as usize].kval;
                    self.put(i, k);
                }
            }
            O::Get => {
                let k = self.some_key(i);
                trace!("      key {k}");
                self.lookup(i, k);
            }
            O::GetMut => {
                let kval = self.some_key(i);
                let nv = self.vval();
                trace!("      key {kval} set to {nv}");
                let k = T::K::make(kval);
                let want = Self::find(&self.slots[i].m, kval).ok();
                match sut(fb(FK::Cmp), || {
                    c.look_mut(&k).map(|v| {
                        let _h = InHarness::enter();
                        let old = (v.vid(), v.vval());
                        v.set_v(nv);
                        old
                    })
                }) {
                    Out::Ok(g) => match (g, want) {
                        (None, None) => {}
                        (Some(old), Some(j)) => {
                            let e = &mut self.slots[i].m[j];
                            if old != (e.vid, e.vval) {
                                violate(Class::Model, format!("get_mut({kval}) gives value {}, should be {}", old.1, e.vval));
                            }
                            e.vval = nv;
                            let node = e.node as P<T>;
                            let seen = unsafe { (*node).pair.1.vval() };
                            e.vid = unsafe { (*node).pair.1.vid() };
                            if seen != nv {
                                violate(Class::Peer, format!("the peer sees value {seen} for key {kval} after it was set to {nv}"));
                            }
                        }
                        (g, _) => violate(Class::Model, format!("get_mut({kval}) is {}", if g.is_some() { "something for an absent key" } else { "nothing for a present key" })),
                    },
                    Out::Panic(e) => violate(Class::Panic, format!("get_mut panicked: {e}")),
                    _ => {}
                }
            }
            O::Iter => {
                let (m, es) = Self::plan(&self.slots[i].m);
                let mut w = c.walker();
                walk(&mut *w, &m, "iterator", &|t: &(&T::K, Option<&T::V>)| ent(t.0), |t, j| {
                    if let Some(v) = t.1 {
                        if v.vval() != es[j].vval {
                            violate(Class::Iter, format!("iterator pairs key {} with value {}", es[j].kval, v.vval()));
                        }
                    }
                });
            }
            O::IterMut => {
                let (m, es) = Self::plan(&self.slots[i].m);
                let nv = self.vval();
                let step = draw(3);
                let mut wrote = vec![];
                if let Some(mut w) = c.walker_mut() {
                    walk(&mut *w, &m, "mutable iterator", &|t: &(&T::K, &mut T::V)| ent(t.0), |t, j| {
                        if t.1.vval() != es[j].vval {
                            violate(Class::Iter, format!("mutable iterator pairs key {} with value {}", es[j].kval, t.1.vval()));
                        }
                        if step > 0 && j % 2 == (step - 1) as usize {
                            t.1.set_v(nv);
                            wrote.push(j);
                        }
                    });
                }
                for j in wrote {
                    let e = &mut self.slots[i].m[j];
                    e.vval = nv;
                    e.vid = unsafe { (*(e.node as P<T>)).pair.1.vid() };
                }
            }
            O::Clr => match sut(fb(FK::Drop), || c.clr()) {
                Out::Ok(()) => {
                    self.slots[i].m.clear();
                    probe("cleared");
                }
                Out::Panic(e) => violate(Class::Panic, format!("clear panicked: {e}")),
                Out::Fault(_) => self.reread(i),
            },
            O::Fmt => match sut(fb(FK::Fmt), || c.fmt()) {
                Out::Ok(Some(t)) => {
                    let want: Vec<u64> = self.slots[i].m.iter().flat_map(|e| [e.kval as u64, e.vval as u64]).collect();
                    if numbers(&t) != want {
                        violate(Class::Model, format!("rendering {t:?} does not list {}", show_t(&self.slots[i].m)));
                    }
                }
                Out::Panic(e) => violate(Class::Panic, format!("formatting panicked: {e}")),
                _ => {}
            },
            O::Burst => {
                cx().quiet_place = true;
                let k = 1 + draw(self.p.burst);
                let down = draw(2) == 1;
                trace!("      {k} times");
                for j in 0..k {
                    if self.slots[i].m.len() >= 400 {
                        break;
                    }
                    let x = if down { k - j } else { j };
                    let kv = self.next.wrapping_add(x).wrapping_mul(self.stride) % T::K::MAXVAL.saturating_add(1).max(1);
                    if !self.put(i, kv) {
                        break;
                    }
                }
                self.next = self.next.wrapping_add(k);
            }
            O::Drain => {
                cx().quiet_place = true;
                let k = (1 + draw(self.p.burst)).min(60);
                trace!("      {k} times");
                for _ in 0..k {
                    let n = self.slots[i].m.len();
                    if n == 0 {
                        break;
                    }
                    let kv = self.slots[i].m[draw(n as u32) as usize].kval;
                    self.del(i, kv, 2);
                }
            }
            O::Recreate => self.destroy(i),
        }
    }
    fn plan(m: &[TE]) -> (Vec<Ent>, Vec<TE>) {
        (m.iter().map(|e| Ent { id: e.kid, val: e.kval, addr: 0 }).collect(), m.to_vec())
    }
}
impl<T: Tree> World for MapWorld<T> {
    fn step(&mut self) {
        led().tag = self.tag;
        if cx().lies && T::K::TRACKED && draw(3) == 2 && !self.slots.is_empty() {
            return self.liar();
        }
        let k = weighted(&self.w);
        self.go(OPS[k].0, OPS[k].2);
    }
    fn verify(&mut self) {
        led().tag = self.tag;
        self.n += 1;
        for i in 0..self.slots.len() {
            let n = self.slots[i].m.len();
            if n <= 60 || self.n % 4 == 0 || cx().fault_in_op.is_some() {
                self.check(i, 2);
            }
            note(n as u64);
        }
    }
    fn peek(&self) {
        if self.slots.is_empty() {
            return;
        }
        op("read");
        let i = draw(self.slots.len() as u32) as usize;
        let s = &self.slots[i];
        let c: &T = s.p.o.get();
        match draw(4) {
            0 | 1 => {
                let kv = if s.m.is_empty() || draw(4) == 3 { draw(self.p.vals) % T::K::MAXVAL.saturating_add(1).max(1) } else { s.m[draw(s.m.len() as u32) as usize].kval };
                self.lookup(i, kv);
            }
            2 => {
                let (m, es) = Self::plan(&s.m);
                let mut w = c.walker();
                walk(&mut *w, &m, "a reader's iterator", &|t: &(&T::K, Option<&T::V>)| ent(t.0), |t, j| {
                    if t.1.is_some_and(|v| v.vval() != es[j].vval) {
                        violate(Class::Iter, "a reader's iterator pairs a key with another value");
                    }
                });
            }
            _ => {
                if c.c_len() != s.m.len() || c.c_empty() != s.m.is_empty() {
                    violate(Class::Model, "a reader found another length");
                }
                crate::sched::yield_point(34);
                match sut(0, || c.fmt()) {
                    Out::Ok(Some(t)) => {
                        if numbers(&t) != s.m.iter().flat_map(|e| [e.kval as u64, e.vval as u64]).collect::<Vec<_>>() {
                            violate(Class::Model, "a reader rendered other entries");
                        }
                    }
                    Out::Ok(None) => {}
                    _ => violate(Class::Panic, "a reader's rendering panicked"),
                }
            }
        }
    }
    fn expect_live(&self) -> isize {
        let n: usize = self.slots.iter().map(|s| s.m.len()).sum();
        let per = T::K::TRACKED as usize + T::V::OWNED as usize;
        (n * per) as isize
    }
    fn finish(&mut self) {
        led().tag = self.tag;
        while !self.slots.is_empty() {
            self.destroy(self.slots.len() - 1);
        }
    }
    fn tag(&self) -> u32 {
        self.tag
    }
}
