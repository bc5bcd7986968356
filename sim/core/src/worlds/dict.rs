//! One world for everything that looks keys up: hash maps, hash sets and vector maps.
use super::foreign::{DAct, Raw, Walked};
use crate::alloc::*;
use super::seq::{walk, Walk};
use super::*;
use std::ptr;

#[path = "liar.rs"]
mod liar;

/// An entry of the model.
#[derive(Clone, Copy, Debug)]
pub struct KE {
    pub kid: u32,
    pub kval: u32,
    pub vid: u32,
    pub vval: u32,
    pub kaddr: usize,
    pub vaddr: usize,
}

pub enum Put<V> {
    New,
    Had(Option<V>),
}
pub struct ERes<K> {
    pub val: Option<(u32, u32)>,
    pub key: Option<K>,
}

#[allow(unused_variables)]
pub trait Dict: Sized + 'static {
    type K: El;
    type V: El;
    const SET: bool = false;
    const SIM: bool;
    /// Entries are kept in the comparator's order.
    const SORTED: bool = false;
    const COARSE: bool = false;
    const COLLECT: bool = false;
    /// Entries never move.
    const STABLE: bool = false;
    const CAPACITY: bool = false;
    /// Entries live in nodes of at most this size, found through buckets; 0: in one array.
    const NODE: usize = 0;
    /// The number of buckets, and of entries in the key's bucket.
    fn chain(&self, k: &Self::K) -> (usize, usize) {
        (0, 0)
    }
    fn name() -> String;
    unsafe fn create(p: *mut Self, how: u32);
    /// Rank of a key value in the container's order.
    fn rank(v: u32) -> u64 {
        v as u64
    }
    fn c_len(&self) -> usize;
    fn c_empty(&self) -> bool;
    fn has(&self, k: &Self::K) -> bool;
    fn look(&self, k: &Self::K) -> Option<(Option<&Self::K>, Option<&Self::V>)>;
    fn look_mut(&mut self, k: &Self::K) -> Option<&mut Self::V> {
        None
    }
    fn put(&mut self, k: Self::K, v: Self::V) -> Put<Self::V>;
    fn del(&mut self, k: &Self::K, whole: bool) -> Option<(Option<Self::K>, Option<Self::V>)>;
    fn ent(&mut self, k: Self::K, how: u32, v: Self::V, nv: u32) -> ERes<Self::K> {
        unreachable!()
    }
    fn clr(&mut self);
    fn each(&self, limit: usize, f: &mut dyn FnMut(&Self::K, Option<&Self::V>));
    fn walker<'a>(&'a self) -> Box<dyn Walk<(&'a Self::K, Option<&'a Self::V>)> + 'a>;
    fn walker_mut<'a>(&'a mut self) -> Option<Box<dyn Walk<(&'a Self::K, &'a mut Self::V)> + 'a>> {
        None
    }
    fn fmt(&self) -> String;
    fn from_it(it: Source<(Self::K, Self::V)>) -> Self {
        unreachable!()
    }
    fn from_list(v: Vec<(Self::K, Self::V)>, how: u32) -> Self {
        unreachable!()
    }
    fn cap(&self) -> Option<usize> {
        None
    }
    fn with_cap(n: usize) -> Self {
        unreachable!()
    }
    /// The foreign side knows how to read and edit it; 2: it also exchanges iterators.
    const PEER: u32 = 0;
    /// The entries, as the foreign side finds them.
    unsafe fn f_each(p: *const u8, limit: usize, f: &mut dyn FnMut(&Self::K, Option<&Self::V>)) -> Walked {
        Ok(())
    }
    /// A foreign edit; returns what left the container.
    unsafe fn f_do(p: *mut u8, owner: u32, act: DAct<Self::K, Self::V>) -> Vec<(Self::K, Option<Self::V>)> {
        vec![]
    }
    /// An exported pair of iterators, advanced by some elements before.
    fn f_out(&mut self, front: usize, back: usize, how: u32) -> Option<(Raw, Raw)> {
        None
    }
    /// Walks an exported pair.
    unsafe fn f_span(p: *const u8, b: Raw, e: Raw, whole: bool, limit: usize, f: &mut dyn FnMut(&Self::K, Option<&Self::V>)) -> Walked {
        Ok(())
    }
    /// Iterators the foreign side advanced and hands over.
    fn f_in<'a>(&'a mut self, front: usize, back: usize, how: u32) -> Option<Box<dyn Walk<(&'a Self::K, Option<&'a Self::V>)> + 'a>> {
        None
    }
}

pub struct DSlot<D> {
    pub o: Obj<D>,
    pub m: Vec<KE>,
    /// The handle its allocator was given.
    pub handle: u32,
    pub a: Acct,
}
enum Rule {
    Same,
    /// An addition or replacement of a value may or may not have happened.
    Put(u32, u32),
    /// The removal of this key may or may not have happened.
    Del(u32),
    Subset,
}

#[derive(Clone, Copy, PartialEq)]
enum O {
    Nop,
    Put,
    Get,
    GetMut,
    Del,
    DelEntry,
    Entry,
    Clr,
    Iter,
    MutIter,
    Fmt,
    Collect,
    FromList,
    Reloc,
    Recreate,
    Burst,
    Drain,
    WithCap,
    New,
    Dup,
    Foreign,
    Hand,
    Flow,
}
const OPS: [(O, u32, &str); 23] = [
    (O::Nop, 1, "check"),
    (O::Put, 24, "insert"),
    (O::Get, 6, "lookup"),
    (O::GetMut, 4, "get_mut"),
    (O::Del, 9, "remove"),
    (O::DelEntry, 6, "remove_entry"),
    (O::Entry, 12, "entry"),
    (O::Clr, 2, "clear"),
    (O::Iter, 4, "iterate"),
    (O::MutIter, 3, "iter_mut"),
    (O::Fmt, 1, "format"),
    (O::Collect, 3, "collect"),
    (O::FromList, 3, "from-list"),
    (O::Reloc, 4, "move"),
    (O::Recreate, 2, "destroy"),
    (O::Burst, 2, "insert-many"),
    (O::Drain, 2, "remove-many"),
    (O::WithCap, 1, "with_capacity"),
    (O::New, 1, "construct"),
    (O::Dup, 8, "insert-again"),
    (O::Foreign, 50, "foreign-edit"),
    (O::Hand, 10, "exchange-iterators"),
    (O::Flow, 6, "insert-and-remove"),
];

pub struct DictWorld<D: Dict> {
    pub slots: Vec<DSlot<D>>,
    held_k: Vec<(D::K, u32)>,
    held_v: Vec<(D::V, u32)>,
    p: Params,
    w: Vec<u32>,
    tag: u32,
    n: u32,
    max: usize,
    stride: u32,
    arrival: u32,
    next: u32,
    /// The running operation works on this container, adds so many entries, asks for this room.
    at: usize,
    added: usize,
    asked: usize,
    copies: usize,
    /// Callbacks contradict themselves now.
    lying: bool,
}
unsafe impl<D: Dict> Send for DictWorld<D> {}

fn show_m(m: &[KE]) -> String {
    let mut s = String::from("{");
    for (i, e) in m.iter().enumerate() {
        if i == 16 {
            s.push_str(&format!(" … {} more", m.len() - i));
            break;
        }
        if i > 0 {
            s.push(' ');
        }
        s.push_str(&format!("{}:{}", e.kval, e.vval));
    }
    s.push('}');
    s
}

impl<D: Dict> DictWorld<D> {
    pub fn new(tag: u32, iter_heavy: bool) -> Self {
        led().tag = tag;
        let p = params(D::K::HEAVY);
        let mut w = Vec::new();
        for (o, base, _) in OPS.iter() {
            let ok = match o {
                O::GetMut | O::Entry => !D::SET,
                O::MutIter => !D::SET && !D::SORTED,
                O::Collect => D::COLLECT,
                O::FromList => D::COLLECT && D::SORTED,
                O::DelEntry => !D::SET,
                O::WithCap => D::CAPACITY,
                O::Foreign => cx().peer && D::PEER > 0,
                O::Hand => cx().peer && D::PEER > 1,
                O::Flow => cx().costs,
                O::Burst | O::Drain => p.burst != 0,
                _ => true,
            };
            let mut x = if ok { base * [1, 2, 1, 0, 4][draw(5) as usize] } else { 0 };
            if !matches!(o, O::Foreign | O::Hand) || x == 0 {
            } else {
                x = x.max(10)
            }
            if matches!(o, O::Put) {
                x = x.max(8)
            }
            if iter_heavy && ok && matches!(o, O::Iter | O::MutIter) {
                x = x.max(10) * 2
            }
            w.push(x);
        }
        let stride = pick(&[1, 1, 2, 7, 64, 4096]);
        let arrival = draw(4);
        trace!("world: {} (keys below {} × {}, bursts up to {}, hash style {})", D::name(), p.vals, stride, p.burst, led().hash_mode);
        DictWorld { slots: vec![], held_k: vec![], held_v: vec![], p, w, tag, n: 0, max: if D::K::HEAVY { 150 } else if cx().deep { 4500 } else { 900 }, stride, arrival, next: 0, at: 0, added: 0, asked: 0, copies: 0, lying: false }
    }

    fn class(v: u32) -> u32 {
        if D::COARSE {
            v / 2
        } else {
            v
        }
    }
    fn find(m: &[KE], kval: u32) -> Option<usize> {
        let c = Self::class(kval);
        if D::SORTED {
            let r = D::rank(kval);
            return m.binary_search_by(|e| D::rank(e.kval).cmp(&r)).ok();
        }
        m.iter().position(|e| Self::class(e.kval) == c)
    }
    fn m_insert(m: &mut Vec<KE>, e: KE) {
        if D::SORTED {
            let r = D::rank(e.kval);
            let i = m.partition_point(|x| D::rank(x.kval) < r);
            m.insert(i, e);
        } else {
            m.push(e);
        }
    }

    fn key(&mut self) -> u32 {
        let lim = self.p.vals.max(1);
        let k = match self.arrival {
            // mostly ascending or descending arrival
            1 if draw(4) != 3 => {
                self.next = (self.next + 1) % lim;
                self.next
            }
            2 if draw(4) != 3 => {
                self.next = (self.next + lim - 1) % lim;
                self.next
            }
            _ => draw(lim),
        };
        let k = k.wrapping_mul(self.stride);
        k % D::K::MAXVAL.saturating_add(1).max(1)
    }
    fn val(&self) -> u32 {
        if D::SET {
            0
        } else {
            draw(1000) % D::V::MAXVAL.saturating_add(1).max(1)
        }
    }

    fn construct(&mut self, what: &str, kinds: u32, m: Vec<KE>, f: impl FnOnce(*mut D)) -> bool {
        let o: Obj<D> = Obj::place();
        let hs = handles().st.len();
        let p = o.p;
        match sut(kinds, || f(p)) {
            Out::Ok(()) => {
                let mut handle = GLOBAL;
                if D::SIM {
                    let t = handles();
                    for i in hs..t.st.len() {
                        if t.st[i] == HState::Live && !t.inner[i] {
                            handle = FIRST_HANDLE + i as u32;
                        }
                    }
                }
                self.slots.push(DSlot { o, m, handle, a: Acct::default() });
                let i = self.slots.len() - 1;
                self.check(i, true);
                true
            }
            Out::Fault(k) => {
                trace!("    construction ({what}) did not complete: {}", FK_NAMES[k as usize]);
                o.vacate();
                false
            }
            Out::Panic(e) => {
                violate(Class::Panic, format!("{what} panicked: {e}"));
                o.vacate();
                false
            }
        }
    }
    fn destroy(&mut self, i: usize) {
        let s = self.slots.remove(i);
        let p = s.o.p;
        if let Out::Panic(e) = sut(fb(FK::Drop), || unsafe { ptr::drop_in_place(p) }) {
            violate(Class::Panic, format!("destruction panicked: {e}"));
        }
        s.o.vacate();
    }

    fn read(k: &D::K, v: Option<&D::V>) -> KE {
        KE {
            kid: k.id(),
            kval: k.val(),
            vid: v.map_or(0, |v| v.id()),
            vval: v.map_or(0, |v| v.val()),
            kaddr: k as *const D::K as usize,
            vaddr: v.map_or(0, |v| v as *const D::V as usize),
        }
    }
    fn contents(&self, i: usize) -> Vec<KE> {
        let mut out = Vec::new();
        self.slots[i].o.get().each(self.slots[i].m.len() + 5000, &mut |k, v| out.push(Self::read(k, v)));
        out
    }

    pub fn check(&mut self, i: usize, full: bool) {
        let s = &mut self.slots[i];
        let c = s.o.get();
        let n = s.m.len();
        if c.c_len() != n {
            violate(Class::Model, format!("length is {}, should be {n}", c.c_len()));
        }
        if c.c_empty() != (n == 0) {
            violate(Class::Model, format!("is_empty() is {} with {n} entries", c.c_empty()));
        }
        if let Some(cap) = c.cap() {
            if cap < n {
                violate(Class::Capacity, format!("capacity {cap} is below the length {n}"));
            }
        }
        if !full {
            return;
        }
        let mut now: Vec<KE> = Vec::with_capacity(n);
        c.each(n + 3, &mut |k, v| now.push(Self::read(k, v)));
        if now.len() != n {
            violate(Class::Model, format!("traversal meets {} entries, should be {n}; now {}, expected {}", now.len(), show_m(&now), show_m(&s.m)));
        }
        let mut moved = false;
        let same = |a: &KE, b: &KE| a.kval == b.kval && a.vval == b.vval && (b.kid == ANY || a.kid == b.kid) && (b.vid == ANY || a.vid == b.vid);
        if D::SORTED {
            for (j, e) in now.iter().enumerate() {
                if j > 0 && D::rank(now[j - 1].kval) >= D::rank(e.kval) {
                    violate(Class::Order, format!("entries {} and {} are out of order: {}", j - 1, j, show_m(&now)));
                }
                if j < n && !same(e, &s.m[j]) {
                    violate(Class::Model, format!("entry {j} is {}:{} (#{},#{}), should be {}:{} (#{},#{})", e.kval, e.vval, e.kid, e.vid, s.m[j].kval, s.m[j].vval, s.m[j].kid, s.m[j].vid));
                }
            }
            s.m = now;
        } else {
            let mut at: BTreeMap<u32, usize> = BTreeMap::new();
            for (j, e) in s.m.iter().enumerate() {
                at.insert(Self::class(e.kval), j);
            }
            let mut seen = vec![false; n];
            for e in &now {
                match at.get(&Self::class(e.kval)) {
                    None => violate(Class::Model, format!("key {} should not be there", e.kval)),
                    Some(j) => {
                        if std::mem::replace(&mut seen[*j], true) {
                            violate(Class::Order, format!("key {} is met twice", e.kval));
                        }
                        let w = &mut s.m[*j];
                        if !same(e, w) {
                            violate(Class::Model, format!("entry is {}:{} (#{},#{}), should be {}:{} (#{},#{})", e.kval, e.vval, e.kid, e.vid, w.kval, w.vval, w.kid, w.vid));
                        }
                        if D::STABLE && w.kaddr != 0 && (w.kaddr != e.kaddr || w.vaddr != e.vaddr) {
                            moved = true;
                        }
                        *w = *e;
                    }
                }
            }
        }
        if cx().peer && D::PEER > 0 {
            self.foreign_read(i);
        }
        if moved {
            violate(Class::Moved, "a key or value changed its address although it stayed in the container");
        }
        // every key can be found, missing keys cannot
        let samples = if n <= 6 { n } else { 4 };
        for j in 0..samples {
            let j = if n <= 6 { j } else { draw(n as u32) as usize };
            let e = self.slots[i].m[j];
            self.lookup(i, e.kval);
        }
        let miss = self.key();
        self.lookup(i, miss);
        let s = &self.slots[i];
        let sum = s.m.iter().fold(0u64, |a, e| a.wrapping_add(Self::class(e.kval) as u64 % 8));
        state(n.min(30) as u64 + if n > 30 { (n as u64).ilog2() as u64 * 64 } else { 0 }, sum % 16, led().hash_mode as u64);
    }

    /// Lets `f` count as the system under test, without faults.
    fn measured<R>(&self, f: impl FnOnce() -> R) -> R {
        let c = cx();
        let was = std::mem::replace(&mut c.in_sut, c.costs);
        let r = f();
        cx().in_sut = was;
        r
    }
    fn begin(&self, i: usize, k: &D::K) -> (Work, usize) {
        if !cx().costs {
            return (Work::default(), 0);
        }
        (Work::now(), self.slots[i].o.get().chain(k).1)
    }
    /// Was what one operation on one key did in proportion?
    fn end(&self, b: &(Work, usize), i: usize, what: &str, adds: u64) {
        if !cx().costs || cx().fault_in_op.is_some() {
            return;
        }
        let w = b.0.since();
        let n = self.slots[i].m.len();
        // entries may have to be put into new buckets
        let grew = adds > 0 && w.reqs > 1;
        if D::NODE > 0 {
            at_most(&w, FK::Hash, 4 + if grew { 2 * n as u64 } else { 0 }, what);
            if !grew {
                at_most(&w, FK::Eq, 2 * b.1 as u64 + 2, what);
            }
        } else {
            at_most(&w, FK::Cmp, 4 * log2_up(n) + 8, what);
            at_most(&w, FK::Eq, 4 * log2_up(n) + 8, what);
        }
        if adds == 0 {
            no_requests(&w, what);
        }
    }
    fn space(&mut self, i: usize) {
        let s = &mut self.slots[i];
        let n = s.m.len();
        s.a.need = s.a.need.max(n);
        if s.handle == GLOBAL {
            return;
        }
        let why = format!("{n} entries, at most {} so far,", s.a.need);
        if D::NODE > 0 {
            held_at_most(s.handle, n + 1, n * D::NODE + 8 * (8 * s.a.need + 64), &why);
            let probe = D::K::make(0);
            let b = s.o.get().chain(&probe).0;
            if b < n {
                violate(Class::Work, format!("{n} entries share {b} buckets"));
            }
        } else {
            held_at_most(s.handle, 1, (4 * s.a.need + 16) * std::mem::size_of::<(D::K, D::V)>(), &why);
        }
    }
    fn op_on(&mut self, o: O, name: &'static str) {
        (self.at, self.added, self.asked, self.copies) = (usize::MAX, 0, 0, 0);
        if !cx().costs {
            return self.perform(o, name);
        }
        let (had, w) = (self.slots.len(), Work::now());
        let room: Vec<(usize, usize)> = self.slots.iter().map(|s| (s.o.get().cap().unwrap_or(0), s.m.len())).collect();
        self.perform(o, name);
        let w = w.since();
        let made = self.slots.len() > had;
        let at = if made { had } else { self.at };
        if at < self.slots.len() && (made || o != O::Recreate) {
            let sz = std::mem::size_of::<(D::K, D::V)>();
            let s = &mut self.slots[at];
            let one = if D::NODE > 0 { D::NODE + 128 } else { 8 * sz };
            let room = if D::NODE > 0 { 32 * self.asked } else { 4 * sz * self.asked };
            let base = if made { if D::NODE > 0 { 512 } else { 16 * sz + 64 } } else { 0 };
            s.a.need = s.a.need.max(self.asked);
            s.a.add((one * (self.added + if made { s.m.len() } else { 0 }) + room + base) as u64, w.bytes, name);
        }
        for i in 0..self.slots.len() {
            self.space(i);
        }
        if cx().fault_in_op.is_some() || (made && self.copies == 0) {
            return;
        }
        at_most(&w, FK::Clone, self.copies as u64, name);
        if !made && matches!(o, O::Nop | O::Get | O::GetMut | O::Del | O::DelEntry | O::Clr | O::Iter | O::MutIter | O::Fmt | O::Reloc | O::Recreate | O::Drain) {
            no_requests(&w, name);
        }
        if !made && at < room.len() && self.added > 0 && self.asked == 0 && room[at].1.max(self.slots[at].m.len()) + matches!(o, O::Flow) as usize <= room[at].0 {
            no_requests(&w, name);
            probe("addition-within-capacity");
        }
        if !made && matches!(o, O::Iter | O::MutIter | O::Fmt | O::Clr | O::Reloc) {
            for k in [FK::Hash, FK::Eq, FK::Cmp] {
                at_most(&w, k, 0, name);
            }
        }
    }

    fn lookup(&mut self, i: usize, kval: u32) {
        let k = D::K::make(kval);
        let s = &self.slots[i];
        let c = s.o.get();
        let want = Self::find(&s.m, kval).map(|j| s.m[j]);
        let b = self.begin(i, &k);
        let got = self.measured(|| c.look(&k)).map(|(k, v)| (k.map(|k| (k.id(), k.val(), k as *const D::K as usize)), v.map(|v| (v.id(), v.val(), v as *const D::V as usize))));
        self.end(&b, i, "lookup", 0);
        let b = self.begin(i, &k);
        let has = self.measured(|| c.has(&k));
        self.end(&b, i, "lookup", 0);
        if has != want.is_some() {
            violate(Class::Model, format!("contains_key({kval}) is {has}"));
        }
        match (got, want) {
            (None, None) => {}
            (Some((gk, gv)), Some(w)) => {
                if let Some((id, val, a)) = gk {
                    if id != w.kid || val != w.kval || (w.kaddr != 0 && a != w.kaddr) {
                        violate(Class::Model, format!("lookup of key {kval} finds key {val}"));
                    }
                }
                if let Some((id, val, a)) = gv {
                    if (w.vid != ANY && id != w.vid) || val != w.vval || (w.vaddr != 0 && a != w.vaddr && D::STABLE) {
                        violate(Class::Model, format!("lookup of key {kval} finds value {val} (#{id}), should be {} (#{})", w.vval, w.vid));
                    }
                }
            }
            (g, w) => violate(Class::Model, format!("lookup of key {kval} {}; entries {}", if g.is_some() { "finds something, but the key is absent" } else { "finds nothing, but the key is present" }, show_m(&s.m)).to_string() + if w.is_some() { "" } else { "" }),
        }
    }

    fn after_fault(&mut self, i: usize, before: &[KE], k: FK, rule: Rule) {
        let now = self.contents(i);
        let why = FK_NAMES[k as usize];
        let bad = |t: String| violate(Class::Strong, format!("after {why}: {t}; before {}, now {}", show_m(before), show_m(&now)));
        for sel in 0..2 {
            if (sel == 0 && !D::K::TRACKED) || (sel == 1 && (!D::V::TRACKED || D::SET)) {
                continue;
            }
            let mut ids: Vec<u32> = now.iter().map(|e| if sel == 0 { e.kid } else { e.vid }).collect();
            ids.sort_unstable();
            if ids.windows(2).any(|w| w[0] == w[1]) {
                violate(Class::ElemUse, "an element is held twice after the failed operation");
            }
        }
        let same = |a: &KE, b: &KE| a.kval == b.kval && a.vval == b.vval && (b.kid == ANY || a.kid == b.kid) && (b.vid == ANY || a.vid == b.vid);
        let in_before = |e: &KE| Self::find(before, e.kval).map(|j| before[j]);
        let rule = if k == FK::Drop { if let Rule::Same = rule { Rule::Subset } else { rule } } else { rule };
        let missing = |except: Option<u32>| before.iter().find(|b| Some(Self::class(b.kval)) != except.map(Self::class) && !now.iter().any(|e| same(e, b))).map(|b| b.kval);
        match rule {
            Rule::Same => {
                if now.len() != before.len() || missing(None).is_some() {
                    bad("the entries changed".into());
                }
            }
            Rule::Put(kv, vv) => {
                if let Some(m) = missing(Some(kv)) {
                    bad(format!("key {m} was lost"));
                }
                for e in &now {
                    match in_before(e) {
                        Some(b) if same(e, &b) => {}
                        _ if Self::class(e.kval) == Self::class(kv) && e.vval == vv => {}
                        _ => bad(format!("entry {}:{} comes from nowhere", e.kval, e.vval)),
                    }
                }
            }
            Rule::Del(kv) => {
                if let Some(m) = missing(Some(kv)) {
                    bad(format!("key {m} was lost"));
                }
                if now.iter().any(|e| in_before(e).map_or(true, |b| !same(e, &b))) {
                    bad("an entry comes from nowhere".into());
                }
            }
            Rule::Subset => {
                if now.iter().any(|e| in_before(e).map_or(true, |b| !same(e, &b))) {
                    bad("an entry comes from nowhere".into());
                }
            }
        }
        probe("resynchronised-after-fault");
        self.slots[i].m = now;
    }

    fn hold_k(&mut self, k: D::K) {
        if self.held_k.len() >= 3 {
            self.held_k.remove(0);
        }
        let id = k.id();
        self.held_k.push((k, id));
    }
    fn hold_v(&mut self, v: D::V) {
        if self.held_v.len() >= 3 {
            self.held_v.remove(0);
        }
        let id = v.id();
        self.held_v.push((v, id));
    }

    fn failed(&mut self, i: usize, out: Out<()>, before: &[KE], rule: Rule, what: &str) {
        match out {
            Out::Fault(k) => self.after_fault(i, before, k, rule),
            Out::Panic(m) => {
                violate(Class::Panic, format!("{what} panicked: {m}"));
                self.slots[i].m = self.contents(i);
            }
            Out::Ok(()) => {}
        }
    }

    fn put(&mut self, i: usize, kval: u32, before: &[KE]) -> bool {
        let vval = self.val();
        let k = D::K::make(kval);
        let v = D::V::make(vval);
        let (kid, vid) = (k.id(), if D::SET { 0 } else { v.id() });
        trace!("      key {} value {} (#{}, #{})", kval, vval, kid, vid);
        let at = Self::find(&self.slots[i].m, kval);
        let c = self.slots[i].o.get();
        let kinds = fb(FK::Alloc) | fb(FK::Hash) | fb(FK::Eq) | fb(FK::Cmp) | if at.is_some() { fb(FK::Drop) } else { 0 };
        let b = self.begin(i, &k);
        self.added += 1;
        let r = sut(kinds, || c.put(k, v));
        self.end(&b, i, "insert", 1);
        match r {
            Out::Ok(p) => match (p, at) {
                (Put::New, None) => {
                    probe("new-key");
                    Self::m_insert(&mut self.slots[i].m, KE { kid, kval, vid, vval, kaddr: 0, vaddr: 0 });
                    true
                }
                (Put::Had(old), Some(j)) => {
                    probe("key-present-already");
                    let w = self.slots[i].m[j];
                    if let Some(o) = old {
                        if o.val() != w.vval || (w.vid != ANY && o.id() != w.vid) {
                            violate(Class::Model, format!("insertion displaced value {} (#{}), should be {} (#{})", o.val(), o.id(), w.vval, w.vid));
                        }
                        self.hold_v(o);
                    }
                    if !D::SET {
                        let e = &mut self.slots[i].m[j];
                        e.vid = vid;
                        e.vval = vval;
                    }
                    true
                }
                (Put::New, Some(_)) => {
                    violate(Class::Model, format!("insertion of key {kval} reports it as new, but it was present"));
                    false
                }
                (Put::Had(o), None) => {
                    if let Some(o) = o {
                        self.hold_v(o)
                    }
                    violate(Class::Model, format!("insertion of key {kval} reports it as present, but it was new"));
                    false
                }
            },
            Out::Fault(f) => {
                let rule = if f == FK::Drop { Rule::Put(kval, vval) } else { Rule::Same };
                self.failed(i, Out::Fault(f), before, rule, "insert");
                false
            }
            Out::Panic(m) => {
                self.failed(i, Out::Panic(m), before, Rule::Same, "insert");
                false
            }
        }
    }

    fn del(&mut self, i: usize, kval: u32, whole: bool, before: &[KE]) {
        let k = D::K::make(kval);
        let at = Self::find(&self.slots[i].m, kval);
        trace!("      key {}", kval);
        let c = self.slots[i].o.get();
        let kinds = fb(FK::Hash) | fb(FK::Eq) | fb(FK::Cmp) | if whole || D::SET { 0 } else { fb(FK::Drop) };
        let b = self.begin(i, &k);
        let r = sut(kinds, || c.del(&k, whole));
        self.end(&b, i, "remove", 0);
        match r {
            Out::Ok(r) => match (r, at) {
                (None, None) => probe("removal-of-a-missing-key"),
                (Some((gk, gv)), Some(j)) => {
                    let w = self.slots[i].m.remove(j);
                    if let Some(k) = gk {
                        if k.val() != w.kval || k.id() != w.kid {
                            violate(Class::Model, format!("removal returned key {} (#{}), should be {} (#{})", k.val(), k.id(), w.kval, w.kid));
                        }
                        self.hold_k(k);
                    }
                    if let Some(v) = gv {
                        if v.val() != w.vval || (w.vid != ANY && v.id() != w.vid) {
                            violate(Class::Model, format!("removal returned value {} (#{}), should be {} (#{})", v.val(), v.id(), w.vval, w.vid));
                        }
                        self.hold_v(v);
                    }
                }
                (None, Some(_)) => violate(Class::Model, format!("removal of key {kval} found nothing, but it was present")),
                (Some(_), None) => violate(Class::Model, format!("removal of key {kval} found something, but it was absent")),
            },
            Out::Fault(f) => {
                let rule = if f == FK::Drop { Rule::Del(kval) } else { Rule::Same };
                self.failed(i, Out::Fault(f), before, rule, "remove");
            }
            Out::Panic(m) => self.failed(i, Out::Panic(m), before, Rule::Same, "remove"),
        }
    }

    fn some_key(&mut self, i: usize) -> u32 {
        let n = self.slots[i].m.len();
        if n > 0 && draw(4) != 0 {
            let j = draw(n as u32) as usize;
            let kv = self.slots[i].m[j].kval;
            if D::COARSE && draw(2) == 1 {
                kv ^ 1
            } else {
                kv
            }
        } else {
            self.key()
        }
    }

    fn order(&self, i: usize) -> (Vec<Ent>, Vec<KE>) {
        let now = self.contents(i);
        (now.iter().map(|e| Ent { id: e.kid, val: e.kval, addr: e.kaddr }).collect(), now)
    }

    /// The foreign side's reading against the model.
    fn foreign_read(&self, i: usize) {
        let s = &self.slots[i];
        let mut seen: Vec<KE> = vec![];
        let r = unsafe { D::f_each(s.o.p as *const u8, s.m.len() + 1, &mut |k, v| seen.push(Self::read(k, v))) };
        let mut want = s.m.clone();
        if !D::SORTED {
            seen.sort_by_key(|e| e.kval);
            want.sort_by_key(|e| e.kval);
        }
        Self::foreign_view("the foreign side", r, &seen, &want);
    }
    fn foreign_view(who: &str, r: Walked, seen: &[KE], m: &[KE]) {
        let same = |a: &KE, b: &KE| a.kval == b.kval && a.vval == b.vval && (b.kid == ANY || a.kid == b.kid) && (b.vid == ANY || a.vid == b.vid);
        if let Err(e) = r {
            violate(Class::Peer, format!("{who}: {e}; expected {}", show_m(m)));
        } else if seen.len() != m.len() || !seen.iter().zip(m).all(|(a, b)| same(a, b)) {
            violate(Class::Peer, format!("{who} finds {}, should be {}", show_m(seen), show_m(m)));
        }
    }
    fn foreign(&mut self, i: usize) {
        let kind = draw(16);
        let times = if draw(3) == 2 && self.p.burst > 0 { 1 + draw(self.p.burst.min(80)) } else { 1 };
        let times = if kind >= 13 { 1 } else { times };
        let (p, owner) = (self.slots[i].o.p as *mut u8, self.slots[i].handle);
        for _ in 0..times {
            let n = self.slots[i].m.len();
            let mut due: Vec<KE> = vec![];
            let act = match kind {
                0..=7 if n < self.max => {
                    let (kv, vv) = (if draw(4) == 0 { self.some_key(i) } else { self.key() }, self.val());
                    let (k, v) = (D::K::make(kv), D::V::make(vv));
                    let e = KE { kid: k.id(), kval: kv, vid: if D::SET { 0 } else { v.id() }, vval: vv, kaddr: 0, vaddr: 0 };
                    trace!("      foreign insertion of key {} value {} (#{}, #{})", kv, vv, e.kid, e.vid);
                    let m = &mut self.slots[i].m;
                    match Self::find(m, kv) {
                        Some(j) => {
                            due.push(KE { kid: e.kid, kval: kv, vid: m[j].vid, vval: m[j].vval, kaddr: 0, vaddr: 0 });
                            m[j].vid = e.vid;
                            m[j].vval = e.vval;
                        }
                        None => Self::m_insert(m, e),
                    }
                    DAct::Put(k, v)
                }
                8..=12 => {
                    let kv = self.some_key(i);
                    trace!("      foreign removal of key {}", kv);
                    let m = &mut self.slots[i].m;
                    if let Some(j) = Self::find(m, kv) {
                        due.push(m.remove(j));
                    }
                    DAct::Del(kv)
                }
                13 => {
                    let free = draw(2) == 1;
                    trace!("      foreign clear{}", if free { ", giving memory back" } else { "" });
                    due.append(&mut self.slots[i].m);
                    DAct::Clear(free)
                }
                14 => {
                    let k = pick(&[0u32, 1, 5, 17, 40, 300]);
                    trace!("      foreign reserve of {}", k);
                    if D::SORTED {
                        DAct::Reserve(k as usize)
                    } else {
                        DAct::Rehash(k)
                    }
                }
                15 => {
                    let k = pick(&super::foreign::LOADS);
                    trace!("      foreign load factor {}", k);
                    DAct::Load(k)
                }
                _ => return,
            };
            if D::SORTED {
                self.slots[i].m.iter_mut().for_each(|e| (e.kaddr, e.vaddr) = (0, 0));
            }
            let out = unsafe { D::f_do(p, owner, act) };
            let mut left = out.len();
            for (k, v) in out {
                let same = |e: &KE| e.kval == k.val() && (e.kid == ANY || e.kid == k.id()) && v.as_ref().map_or(true, |v| v.val() == e.vval && (e.vid == ANY || v.id() == e.vid));
                match due.iter().position(same) {
                    Some(j) => {
                        due.swap_remove(j);
                    }
                    None => violate(Class::Peer, format!("the foreign side took key {} out, which was not there", k.val())),
                }
                left -= 1;
                if left < 2 {
                    self.hold_k(k);
                    if let Some(v) = v {
                        self.hold_v(v)
                    }
                }
            }
            if !due.is_empty() {
                violate(Class::Peer, format!("the foreign side did not meet key {}", due[0].kval));
            }
            probe("foreign-edit");
        }
    }
    fn exchange(&mut self, i: usize, n: usize) {
        let front = if draw(3) == 0 { 0 } else { draw(n as u32 + 1) as usize };
        let back = if draw(3) == 2 { draw((n - front) as u32 + 1) as usize } else { 0 };
        let (how, export) = (draw(4), draw(2) == 0);
        let (m, es) = self.order(i);
        let p = self.slots[i].o.p as *const u8;
        let c = self.slots[i].o.get();
        if export {
            match sut(0, || c.f_out(front, back, how)) {
                Out::Ok(Some((b, e))) => {
                    let mut seen = vec![];
                    trace!("      exported after {} entries, {} before the end (form {})", front, back, how);
                    let r = unsafe { D::f_span(p, b, e, back == 0, n + 1, &mut |k, v| seen.push(Self::read(k, v))) };
                    Self::foreign_view("a foreign loop over exported iterators", r, &seen, &es[front..n - back]);
                    probe("iterators-exported");
                }
                Out::Ok(None) => {}
                _ => violate(Class::Panic, "export of iterators panicked"),
            }
        } else if let Some(mut w) = c.f_in(front, back, how) {
            trace!("      handed over after {} entries, {} before the end", front, back);
            walk(&mut *w, &m[front..n - back], "an iterator handed over", &|t: &(&D::K, Option<&D::V>)| ent(t.0), |t, j| {
                if let Some(v) = t.1 {
                    if v.val() != es[front + j].vval {
                        violate(Class::Iter, format!("an iterator handed over pairs key {} with value {}, should be {}", es[front + j].kval, v.val(), es[front + j].vval));
                    }
                }
            });
            probe("iterators-imported");
        }
    }

    fn perform(&mut self, o: O, name: &'static str) {
        op(name);
        if self.slots.is_empty() || (o == O::New && self.slots.len() < 3) {
            trace!("{}: construct an empty {}", cx().run_ops, D::name());
            let how = draw(3);
            self.construct("construct", fb(FK::Alloc), vec![], |p| unsafe { D::create(p, how) });
            return;
        }
        let i = draw(self.slots.len() as u32) as usize;
        self.at = i;
        let n = self.slots[i].m.len();
        let before = self.slots[i].m.clone();
        let c = self.slots[i].o.get();
        trace!("{}: {} on container {} {}", cx().run_ops, name, i, show_m(&before));
        match o {
            O::Nop | O::New => {}
            O::Foreign => self.foreign(i),
            O::Hand => self.exchange(i, n),
            O::Put => {
                if n < self.max {
                    let k = self.key();
                    self.put(i, k, &before);
                }
            }
            O::Dup => {
                if n < self.max {
                    let k = self.some_key(i);
                    self.put(i, k, &before);
                }
            }
            O::Get => {
                let kval = self.some_key(i);
                let k = D::K::make(kval);
                let want = Self::find(&before, kval);
                trace!("      key {}", kval);
                match sut(fb(FK::Hash) | fb(FK::Eq) | fb(FK::Cmp), || c.has(&k)) {
                    Out::Ok(b) => {
                        if b != want.is_some() {
                            violate(Class::Model, format!("contains_key({kval}) is {b}"));
                        }
                    }
                    Out::Fault(f) => self.failed(i, Out::Fault(f), &before, Rule::Same, "lookup"),
                    Out::Panic(m) => self.failed(i, Out::Panic(m), &before, Rule::Same, "lookup"),
                }
                let k = D::K::make(kval);
                let c = self.slots[i].o.get();
                match sut(fb(FK::Hash) | fb(FK::Eq) | fb(FK::Cmp), || c.look(&k).is_some()) {
                    Out::Ok(b) => {
                        if b != want.is_some() {
                            violate(Class::Model, format!("get({kval}) is {}", if b { "something" } else { "nothing" }));
                        }
                    }
                    Out::Fault(f) => self.failed(i, Out::Fault(f), &before, Rule::Same, "get"),
                    Out::Panic(m) => self.failed(i, Out::Panic(m), &before, Rule::Same, "get"),
                }
            }
            O::GetMut => {
                let kval = self.some_key(i);
                let k = D::K::make(kval);
                let nv = self.val();
                let want = Self::find(&before, kval);
                trace!("      key {} set to {}", kval, nv);
                let r = sut(fb(FK::Hash) | fb(FK::Eq) | fb(FK::Cmp), || {
                    c.look_mut(&k).map(|v| {
                        let _h = InHarness::enter();
                        let old = v.val();
                        v.set(nv);
                        (old, v.id())
                    })
                });
                match r {
                    Out::Ok(g) => match (g, want) {
                        (None, None) => {}
                        (Some((old, id)), Some(j)) => {
                            let w = &mut self.slots[i].m[j];
                            if old != w.vval || (D::V::TRACKED && w.vid != ANY && id != w.vid) {
                                violate(Class::Model, format!("get_mut({kval}) gives value {old}, should be {}", w.vval));
                            }
                            w.vval = nv;
                            if !D::V::TRACKED {
                                w.vid = nv
                            }
                        }
                        (g, _) => violate(Class::Model, format!("get_mut({kval}) is {}", if g.is_some() { "something for an absent key" } else { "nothing for a present key" })),
                    },
                    Out::Fault(f) => self.failed(i, Out::Fault(f), &before, Rule::Same, "get_mut"),
                    Out::Panic(m) => self.failed(i, Out::Panic(m), &before, Rule::Same, "get_mut"),
                }
            }
            O::Del | O::DelEntry => {
                let k = self.some_key(i);
                self.del(i, k, o == O::DelEntry, &before);
            }
            O::Entry => {
                if n >= self.max {
                    return;
                }
                let kval = self.some_key(i);
                let how = draw(6);
                let (vval, nv) = (self.val(), self.val());
                let k = D::K::make(kval);
                let v = D::V::make(vval);
                let (kid, vid) = (k.id(), v.id());
                let at = Self::find(&before, kval);
                trace!("      key {} (#{}) form {} value {} (#{}) modified to {}", kval, kid, how, vval, vid, nv);
                let kinds = fb(FK::Alloc) | fb(FK::Hash) | fb(FK::Eq) | fb(FK::Cmp) | fb(FK::Closure);
                let b = self.begin(i, &k);
                self.added += 1;
                let r = sut(kinds, || c.ent(k, how, v, nv));
                self.end(&b, i, "entry", 1);
                match r {
                    Out::Ok(r) => {
                        let inserts = !matches!(how, 3 | 4);
                        let modifies = matches!(how, 1 | 5);
                        let want = match at {
                            Some(j) => {
                                let w = &mut self.slots[i].m[j];
                                if modifies {
                                    w.vval = nv;
                                    if !D::V::TRACKED {
                                        w.vid = nv
                                    }
                                }
                                Some((w.vid, w.vval))
                            }
                            None if inserts => {
                                Self::m_insert(&mut self.slots[i].m, KE { kid, kval, vid, vval, kaddr: 0, vaddr: 0 });
                                Some((vid, vval))
                            }
                            None => None,
                        };
                        if inserts {
                            match (r.val, want) {
                                (Some(g), Some(w)) if g == w || (w.0 == ANY && g.1 == w.1) => {}
                                (g, w) => violate(Class::Model, format!("entry of key {kval} gives value {:?}, should be {:?}", g.map(|g| g.1), w.map(|g| g.1))),
                            }
                        }
                        if let Some(k) = r.key {
                            if k.id() != kid {
                                violate(Class::Model, "into_key gives another key");
                            }
                            self.hold_k(k);
                        }
                    }
                    Out::Fault(f) => self.failed(i, Out::Fault(f), &before, Rule::Same, "entry"),
                    Out::Panic(m) => self.failed(i, Out::Panic(m), &before, Rule::Same, "entry"),
                }
            }
            O::Clr => match sut(fb(FK::Drop), || c.clr()) {
                Out::Ok(()) => {
                    self.slots[i].m.clear();
                    probe("used-again-after-clear");
                }
                out => self.failed(i, out, &before, Rule::Subset, "clear"),
            },
            O::Iter => {
                let (m, es) = self.order(i);
                let mut w = c.walker();
                walk(&mut *w, &m, "iterator", &|t: &(&D::K, Option<&D::V>)| ent(t.0), |t, j| {
                    if let Some(v) = t.1 {
                        if v.val() != es[j].vval || v.id() != es[j].vid {
                            violate(Class::Iter, format!("iterator pairs key {} with value {}, should be {}", es[j].kval, v.val(), es[j].vval));
                        }
                    }
                });
            }
            O::MutIter => {
                let (m, es) = self.order(i);
                let nv = self.val();
                let step = draw(3);
                let mut wrote: Vec<u32> = vec![];
                if let Some(mut w) = c.walker_mut() {
                    walk(&mut *w, &m, "mutable iterator", &|t: &(&D::K, &mut D::V)| ent(t.0), |t, j| {
                        if t.1.val() != es[j].vval || t.1.id() != es[j].vid {
                            violate(Class::Iter, format!("mutable iterator pairs key {} with value {}, should be {}", es[j].kval, t.1.val(), es[j].vval));
                        }
                        if step > 0 && j % 2 == (step - 1) as usize {
                            t.1.set(nv);
                            wrote.push(es[j].kval);
                        }
                    });
                }
                for kv in wrote {
                    if let Some(j) = Self::find(&self.slots[i].m, kv) {
                        let e = &mut self.slots[i].m[j];
                        e.vval = nv;
                        if !D::V::TRACKED {
                            e.vid = nv
                        }
                    }
                }
            }
            O::Fmt => match sut(fb(FK::Fmt), || c.fmt()) {
                Out::Ok(s) => {
                    let now = self.contents(i);
                    let mut want: Vec<u64> = vec![];
                    for e in &now {
                        want.push(e.kval as u64);
                        if !D::SET {
                            want.push(e.vval as u64);
                        }
                    }
                    if numbers(&s) != want {
                        violate(Class::Model, format!("rendering {s:?} does not list {}", show_m(&now)));
                    }
                }
                Out::Fault(f) => self.failed(i, Out::Fault(f), &before, Rule::Same, "format"),
                Out::Panic(m) => self.failed(i, Out::Panic(m), &before, Rule::Same, "format"),
            },
            O::Collect | O::FromList => {
                if self.slots.len() >= 3 {
                    return;
                }
                let k = draw(pick(&[4, 8, 20]));
                let k = if o == O::FromList && draw(2) == 1 { k.min(4) } else { k };
                let mut items = vec![];
                for _ in 0..k {
                    let (kv, vv) = (self.key(), self.val());
                    items.push((D::K::make(kv), D::V::make(vv)));
                }
                let how = draw(4);
                let clones = o == O::FromList && how != 3;
                self.asked = items.len();
                self.copies = 2 * items.len();
                let mut m: Vec<KE> = vec![];
                for (k, v) in &items {
                    let e = KE { kid: if clones && D::K::TRACKED { ANY } else { k.id() }, kval: k.val(), vid: if D::SET { 0 } else if clones && D::V::TRACKED { ANY } else { v.id() }, vval: if D::SET { 0 } else { v.val() }, kaddr: 0, vaddr: 0 };
                    match Self::find(&m, e.kval) {
                        Some(j) => {
                            m[j].vid = e.vid;
                            m[j].vval = e.vval;
                            probe("construction-with-repeated-keys");
                        }
                        None => Self::m_insert(&mut m, e),
                    }
                }
                trace!("      gives {} (form {})", show_m(&m), how);
                let kinds = fb(FK::Alloc) | fb(FK::Hash) | fb(FK::Eq) | fb(FK::Cmp);
                if o == O::Collect {
                    let src = source(items);
                    self.asked = src.announced(m.len());
                    self.construct("collect", kinds | fb(FK::Iter), m, |p| unsafe { ptr::write(p, D::from_it(src)) });
                } else {
                    if how == 3 && items.len() > 4 {
                        return;
                    }
                    self.construct("from list", kinds | if how == 3 { 0 } else { fb(FK::Clone) }, m, |p| unsafe { ptr::write(p, D::from_list(items, how)) });
                }
            }
            O::WithCap => {
                if self.slots.len() >= 3 {
                    return;
                }
                let k = if (D::SIM || cx().oom_mode) && chance(1, 4) { huge(std::mem::size_of::<(D::K, D::V)>(), 0) } else { pick(&[0usize, 1, 3, 20]) };
                self.asked = k.min(1 << 20);
                if self.construct("with_capacity", fb(FK::Alloc), vec![], |p| unsafe { ptr::write(p, D::with_cap(k)) }) {
                    let cap = self.slots.last().unwrap().o.get().cap().unwrap_or(k);
                    if cap < k {
                        violate(Class::Capacity, format!("with_capacity({k}) gives capacity {cap}"));
                    }
                }
            }
            O::Reloc => {
                let dst: Obj<D> = Obj::place();
                let old = std::mem::replace(&mut self.slots[i].o, dst);
                unsafe { ptr::copy_nonoverlapping(old.p as *const u8, self.slots[i].o.p as *mut u8, std::mem::size_of::<D>()) };
                old.vacate();
                probe("container-relocated");
            }
            O::Recreate => self.destroy(i),
            O::Burst => {
                cx().quiet_place = true;
                let k = 1 + draw(self.p.burst);
                trace!("      {} times", k);
                let mut before = before;
                for j in 0..k {
                    if self.slots[i].m.len() >= self.max {
                        break;
                    }
                    let kv = (self.next.wrapping_add(j).wrapping_mul(self.stride)) % D::K::MAXVAL.saturating_add(1).max(1);
                    if cx().fault_den != 0 {
                        before = self.slots[i].m.clone();
                    }
                    if !self.put(i, kv, &before) {
                        break;
                    }
                }
                self.next = self.next.wrapping_add(k);
                probe("burst-of-insertions");
            }
            O::Flow => {
                cx().quiet_place = true;
                let k = draw(pick(&[20, 100, 400, 1000]));
                let k = if D::K::HEAVY { k / 10 } else { k };
                let again = draw(3) == 2;
                trace!("      {} times", k);
                let mut before = before;
                let lim = D::K::MAXVAL.saturating_add(1).max(1);
                for j in 0..k {
                    if self.slots[i].m.len() >= self.max {
                        break;
                    }
                    let kv = if again { self.some_key(i) } else { self.next.wrapping_add(j).wrapping_mul(self.stride) % lim };
                    if cx().fault_den != 0 {
                        before = self.slots[i].m.clone();
                    }
                    if !self.put(i, kv, &before) {
                        break;
                    }
                    let n = self.slots[i].m.len();
                    if n > 0 {
                        let v = self.slots[i].m[if again { n - 1 } else { 0 }].kval;
                        if cx().fault_den != 0 {
                            before = self.slots[i].m.clone();
                        }
                        self.del(i, v, true, &before);
                        if cx().fault_in_op.is_some() {
                            break;
                        }
                    }
                }
                self.next = self.next.wrapping_add(k);
                probe("long-steady-flow");
            }
            O::Drain => {
                cx().quiet_place = true;
                let k = 1 + draw(self.p.burst);
                trace!("      {} times", k);
                for _ in 0..k {
                    let n = self.slots[i].m.len();
                    if n == 0 {
                        break;
                    }
                    let before = if cx().fault_den != 0 { self.slots[i].m.clone() } else { vec![] };
                    let j = draw(n as u32) as usize;
                    let kv = self.slots[i].m[j].kval;
                    self.del(i, kv, true, &before);
                    if cx().fault_in_op.is_some() {
                        break;
                    }
                }
                probe("burst-of-removals");
            }
        }
    }
}
use std::collections::BTreeMap;

impl<D: Dict> World for DictWorld<D> {
    fn step(&mut self) {
        led().tag = self.tag;
        if self.lies() {
            return self.liar_step();
        }
        let k = weighted(&self.w);
        let (o, _, name) = OPS[k];
        self.op_on(o, name);
    }
    fn verify(&mut self) {
        led().tag = self.tag;
        self.n += 1;
        let big: usize = self.slots.iter().map(|s| s.m.len()).sum();
        let full = big <= 60 || self.n % 4 == 0 || cx().fault_in_op.is_some();
        if self.lying {
            self.liar_verify();
            note(big as u64);
            return;
        }
        for i in 0..self.slots.len() {
            self.check(i, full);
        }
        for (t, id) in &self.held_k {
            if t.id() != *id {
                violate(Class::ElemUse, "a key handed out earlier changed");
            }
        }
        for (t, id) in &self.held_v {
            if t.id() != *id {
                violate(Class::ElemUse, "a value handed out earlier changed");
            }
        }
        let mut h = 0u64;
        for s in &self.slots {
            h = mix(h, s.m.len() as u64);
            for e in s.m.iter().take(8) {
                h = mix(h, e.kval as u64 ^ ((e.vval as u64) << 32));
            }
        }
        note(h);
    }
    fn peek(&self) {
        if self.slots.is_empty() {
            return;
        }
        op("read");
        let i = draw(self.slots.len() as u32) as usize;
        let s = &self.slots[i];
        let c: &D = s.o.get();
        let n = s.m.len();
        match draw(5) {
            0 | 1 => {
                let kval = if n > 0 && draw(3) != 0 { s.m[draw(n as u32) as usize].kval } else { draw(self.p.vals).wrapping_mul(self.stride) % D::K::MAXVAL.saturating_add(1).max(1) };
                let k = D::K::make(kval);
                let want = Self::find(&s.m, kval).map(|j| s.m[j]);
                match sut(0, || c.has(&k)) {
                    Out::Ok(b) if b == want.is_some() => {}
                    _ => violate(Class::Model, format!("a reader asking for key {kval} got the wrong answer")),
                }
                match sut(0, || c.look(&k)) {
                    Out::Ok(g) => {
                        let ok = match (&g, &want) {
                            (None, None) => true,
                            (Some((gk, gv)), Some(w)) => gk.map_or(true, |k| k.val() == w.kval) && gv.map_or(true, |v| v.val() == w.vval),
                            _ => false,
                        };
                        if !ok {
                            violate(Class::Model, format!("a reader looking up key {kval} got the wrong value"));
                        }
                    }
                    _ => violate(Class::Panic, "a reader's lookup panicked"),
                }
            }
            2 => {
                let (m, es) = self.order(i);
                let mut w = c.walker();
                walk(&mut *w, &m, "a reader's iterator", &|t: &(&D::K, Option<&D::V>)| ent(t.0), |t, j| {
                    if let Some(v) = t.1 {
                        if v.val() != es[j].vval {
                            violate(Class::Iter, "a reader's iterator pairs a key with another value");
                        }
                    }
                });
            }
            3 => {
                let now = self.contents(i);
                match sut(0, || c.fmt()) {
                    Out::Ok(t) => {
                        let mut want: Vec<u64> = vec![];
                        for e in &now {
                            want.push(e.kval as u64);
                            if !D::SET {
                                want.push(e.vval as u64);
                            }
                        }
                        if numbers(&t) != want {
                            violate(Class::Model, "a reader rendered other entries");
                        }
                    }
                    _ => violate(Class::Panic, "a reader's rendering panicked"),
                }
            }
            _ => {
                if c.c_len() != n || c.c_empty() != (n == 0) {
                    violate(Class::Model, "a reader found another length");
                }
                let mut k = 0;
                c.each(n + 2, &mut |kk, _| {
                    if Self::find(&s.m, kk.val()).is_none() {
                        violate(Class::Model, "a reader met a key that is not there");
                    }
                    k += 1;
                    crate::sched::yield_point(33);
                });
                if k != n {
                    violate(Class::Model, format!("a reader met {k} of {n} entries"));
                }
            }
        }
    }
    fn expect_live(&self) -> isize {
        let n: usize = self.slots.iter().map(|s| s.m.len()).sum();
        let mut t = 0;
        if D::K::TRACKED {
            t += n + self.held_k.len();
        }
        if D::V::TRACKED && !D::SET {
            t += n + self.held_v.len();
        }
        t as isize
    }
    fn finish(&mut self) {
        led().tag = self.tag;
        self.lying = false;
        while !self.slots.is_empty() {
            let i = self.slots.len() - 1;
            self.destroy(i);
        }
        self.held_k.clear();
        self.held_v.clear();
    }
    fn tag(&self) -> u32 {
        self.tag
    }
}

