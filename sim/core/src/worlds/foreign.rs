//! The other side: EASTL's own algorithms over the container objects, as a C++ program linked against
//! the crate would run them. Nothing here calls the crate; memory comes from the container's own
//! allocator (by its owner number), as the foreign library would ask for it.
use super::*;
use std::mem::{align_of, size_of, MaybeUninit};
use std::ptr::{self, null_mut};

/// What the foreign side does to a sequence.
pub enum Act<T> {
    PushB(T),
    PushF(T),
    PopB,
    PopF,
    Ins(usize, T),
    Rem(usize),
    /// `true`: also gives memory back where EASTL has a call for it.
    Clear(bool),
    Reserve(usize),
    Shrink,
    Reverse,
}
/// What the foreign side does to a dictionary.
pub enum DAct<K, V> {
    Put(K, V),
    Del(u32),
    Clear(bool),
    Rehash(u32),
    Load(f32),
    Reserve(usize),
}
impl<K, V> DAct<K, V> {
    pub fn keys_only(self) -> DAct<K, ()> {
        match self {
            DAct::Put(k, _) => DAct::Put(k, ()),
            DAct::Del(k) => DAct::Del(k),
            DAct::Clear(b) => DAct::Clear(b),
            DAct::Rehash(n) => DAct::Rehash(n),
            DAct::Load(f) => DAct::Load(f),
            DAct::Reserve(n) => DAct::Reserve(n),
        }
    }
}
pub type Walked = Result<(), String>;

fn take(owner: u32, size: usize, align: usize) -> usize {
    let p = cx().heap.alloc(size, align, owner, 0);
    trace!("      foreign request {} bytes align {} -> {} (allocator {})", size, align, show(p), owner);
    p
}
fn give(owner: u32, a: usize, size: usize, align: usize) {
    trace!("      foreign release {} ({} bytes align {}, allocator {})", show(a), size, align, owner);
    cx().heap.free(a, size, align, owner)
}
fn held(a: usize, n: usize) -> bool {
    cx().heap.held(a, n)
}
fn bad<R>(s: impl Into<String>) -> Result<R, String> {
    Err(s.into())
}

// ------------------------------------------------------------------------------------------ vectors
#[repr(C)]
pub struct Vc<T> {
    b: *mut T,
    e: *mut T,
    c: *mut T,
}
/// Inline storage: what its allocator remembers.
#[repr(C)]
struct FixedVec<T, A> {
    v: Vc<T>,
    overflow: MaybeUninit<A>,
    pool: usize,
}
impl<T> Vc<T> {
    unsafe fn at<'a>(p: *mut u8) -> &'a mut Self {
        &mut *(p as *mut Self)
    }
    fn len(&self) -> usize {
        (self.e as usize - self.b as usize) / size_of::<T>()
    }
    fn cap(&self) -> usize {
        (self.c as usize - self.b as usize) / size_of::<T>()
    }
    unsafe fn regrow(&mut self, n: usize, owner: u32, pool: usize) {
        let len = self.len();
        let new = if n == 0 { null_mut() } else { take(owner, n * size_of::<T>(), align_of::<T>()) as *mut T };
        if len > 0 {
            ptr::copy_nonoverlapping(self.b, new, len);
        }
        self.release(owner, pool);
        self.b = new;
        self.e = new.wrapping_add(len);
        self.c = new.wrapping_add(n);
    }
    unsafe fn release(&mut self, owner: u32, pool: usize) {
        if !self.b.is_null() && self.b as usize != pool {
            give(owner, self.b as usize, self.cap() * size_of::<T>(), align_of::<T>());
        }
    }
    unsafe fn insert(&mut self, at: usize, t: T, owner: u32, pool: usize) {
        if self.e == self.c {
            let n = if self.cap() > 0 { self.cap() * 2 } else { 1 };
            self.regrow(n, owner, pool);
        }
        let p = self.b.add(at);
        ptr::copy(p, p.add(1), self.len() - at);
        ptr::write(p, t);
        self.e = self.e.add(1);
    }
    unsafe fn erase(&mut self, at: usize) -> T {
        let p = self.b.add(at);
        let t = ptr::read(p);
        ptr::copy(p.add(1), p, self.len() - at - 1);
        self.e = self.e.sub(1);
        t
    }
}
pub unsafe fn vec_each<T>(p: *const u8, f: &mut dyn FnMut(&T)) -> Walked {
    let v = Vc::<T>::at(p as *mut u8);
    let (b, e, c) = (v.b as usize, v.e as usize, v.c as usize);
    if b > e || e > c || (e - b) % size_of::<T>() != 0 || (c - b) % size_of::<T>() != 0 {
        return bad("the three pointers of the vector do not delimit elements");
    }
    if b == c {
        return Ok(());
    }
    if !held(b, c - b) {
        return bad(format!("the vector's {} bytes are not memory it holds", c - b));
    }
    let mut q = v.b;
    while q != v.e {
        f(&*q);
        q = q.add(1);
    }
    Ok(())
}
unsafe fn vec_act<T>(v: &mut Vc<T>, owner: u32, pool: usize, inline: usize, act: Act<T>) -> Vec<T> {
    let mut out = vec![];
    match act {
        Act::PushB(t) => v.insert(v.len(), t, owner, pool),
        Act::Ins(i, t) => v.insert(i, t, owner, pool),
        Act::PopB => out.push(v.erase(v.len() - 1)),
        Act::Rem(i) => out.push(v.erase(i)),
        Act::Clear(free) => {
            while v.len() > 0 {
                out.push(v.erase(v.len() - 1))
            }
            if free && v.b as usize != pool {
                v.release(owner, pool);
                v.b = pool as *mut T;
                v.e = v.b;
                v.c = v.b.wrapping_add(inline);
            }
        }
        Act::Reserve(n) => {
            if n > v.cap() {
                v.regrow(n, owner, pool)
            }
        }
        Act::Shrink => {
            if v.len() < v.cap() && pool == 0 {
                v.regrow(v.len(), owner, pool)
            }
        }
        Act::Reverse => {
            let s = std::slice::from_raw_parts_mut(v.b, v.len());
            s.reverse()
        }
        _ => {}
    }
    out
}
pub unsafe fn vec_do<T>(p: *mut u8, owner: u32, act: Act<T>) -> Vec<T> {
    vec_act(Vc::at(p), owner, 0, 0, act)
}
pub unsafe fn fixed_vec_do<T, A>(p: *mut u8, owner: u32, inline: usize, act: Act<T>) -> Vec<T> {
    let f = &mut *(p as *mut FixedVec<T, A>);
    let pool = f.pool;
    vec_act(&mut f.v, owner, pool, inline, act)
}
/// Inserts into or replaces in a vector of pairs kept in order.
pub unsafe fn pairs_do<K: El, V: El>(p: *mut u8, owner: u32, rank: &dyn Fn(u32) -> u64, act: DAct<K, V>) -> Vec<(K, Option<V>)> {
    let v = Vc::<(K, V)>::at(p);
    let lower = |v: &Vc<(K, V)>, r: u64| {
        let s = if v.b.is_null() { &[] } else { std::slice::from_raw_parts(v.b, v.len()) };
        let i = s.partition_point(|x| rank(x.0.val()) < r);
        (i, i < s.len() && rank(s[i].0.val()) == r)
    };
    let mut out = vec![];
    match act {
        DAct::Put(k, x) => {
            let (i, there) = lower(v, rank(k.val()));
            if there {
                let old = std::mem::replace(&mut (*v.b.add(i)).1, x);
                out.push((k, Some(old)));
            } else {
                v.insert(i, (k, x), owner, 0)
            }
        }
        DAct::Del(kv) => {
            let (i, there) = lower(v, rank(kv));
            if there {
                let (k, x) = v.erase(i);
                out.push((k, Some(x)));
            }
        }
        DAct::Clear(free) => {
            while v.len() > 0 {
                let (k, x) = v.erase(v.len() - 1);
                out.push((k, Some(x)));
            }
            if free {
                v.regrow(0, owner, 0)
            }
        }
        DAct::Reserve(n) => {
            if n > v.cap() {
                v.regrow(n, owner, 0)
            }
        }
        DAct::Rehash(_) | DAct::Load(_) => {}
    }
    out
}

// ------------------------------------------------------------------------------------------- deques
#[repr(C)]
pub struct DIt<T> {
    cur: *mut T,
    begin: *mut T,
    end: *mut T,
    arr: *mut *mut T,
}
impl<T> Clone for DIt<T> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<T> Copy for DIt<T> {}
#[repr(C)]
struct Dq<T> {
    ptrs: *mut *mut T,
    n: u32,
    b: DIt<T>,
    e: DIt<T>,
}
pub const fn sub<T>() -> usize {
    match size_of::<T>() {
        0..=4 => 64,
        5..=8 => 32,
        9..=16 => 16,
        17..=32 => 8,
        _ => 4,
    }
}
impl<T> DIt<T> {
    unsafe fn set(&mut self, arr: *mut *mut T) {
        self.arr = arr;
        self.begin = *arr;
        self.end = self.begin.add(sub::<T>());
    }
    unsafe fn inc(&mut self) {
        self.cur = self.cur.add(1);
        if self.cur == self.end {
            self.set(self.arr.add(1));
            self.cur = self.begin;
        }
    }
    unsafe fn dec(&mut self) {
        if self.cur == self.begin {
            self.set(self.arr.sub(1));
            self.cur = self.end;
        }
        self.cur = self.cur.sub(1);
    }
    fn well(&self) -> bool {
        let (c, b, e) = (self.cur as usize, self.begin as usize, self.end as usize);
        b <= c && c < e && e - b == sub::<T>() * size_of::<T>() && (c - b) % size_of::<T>() == 0 && held(self.arr as usize, 8) && unsafe { *self.arr } == self.begin
    }
    /// `*this - x`
    fn minus(&self, x: &Self) -> isize {
        let z = size_of::<T>() as isize;
        let blocks = (self.arr as isize - x.arr as isize) / 8 - 1;
        blocks * sub::<T>() as isize + (self.cur as isize - self.begin as isize) / z + (x.end as isize - x.cur as isize) / z
    }
}
/// Walks from `b` to `e` both ways, as a foreign loop over an iterator pair does.
unsafe fn span<T>(b: DIt<T>, e: DIt<T>, limit: usize, f: &mut dyn FnMut(&T)) -> Walked {
    if !b.well() || !e.well() {
        return bad(format!("the {} iterator is not positioned inside one of the deque's blocks", if b.well() { "end" } else { "begin" }));
    }
    let n = e.minus(&b);
    if n < 0 || n as usize > limit {
        return bad(format!("the distance from begin to end is {n}"));
    }
    let mut met: Vec<usize> = vec![];
    let mut i = b;
    while i.cur != e.cur {
        if met.len() >= limit || !i.well() || !held(i.begin as usize, sub::<T>() * size_of::<T>()) {
            return bad(format!("stepping forward leaves the deque after {} element(s)", met.len()));
        }
        f(&*i.cur);
        met.push(i.cur as usize);
        // the step may need the next block's address
        if i.cur.add(1) == i.end && !held(i.arr.add(1) as usize, 8) {
            return bad("stepping forward leaves the array of blocks");
        }
        i.inc();
    }
    if n as usize != met.len() {
        return bad(format!("the distance from begin to end is {n} but {} element(s) lie between", met.len()));
    }
    let mut i = e;
    while let Some(a) = met.pop() {
        if i.cur == i.begin && !held(i.arr.sub(1) as usize, 8) {
            return bad("stepping backward leaves the array of blocks");
        }
        i.dec();
        if i.cur as usize != a {
            return bad("stepping backward does not meet the elements met forward");
        }
    }
    Ok(())
}
impl<T> Dq<T> {
    fn bytes() -> usize {
        sub::<T>() * size_of::<T>()
    }
    unsafe fn block(&self, owner: u32) -> *mut T {
        take(owner, Self::bytes(), align_of::<T>()) as *mut T
    }
    unsafe fn drop_block(&self, b: *mut T, owner: u32) {
        give(owner, b as usize, Self::bytes(), align_of::<T>())
    }
    unsafe fn more_ptrs(&mut self, front: bool, owner: u32) {
        let before = self.b.arr.offset_from(self.ptrs) as usize;
        let used = self.e.arr.offset_from(self.b.arr) as usize + 1;
        let after = self.n as usize - before - used;
        let mut add = 1;
        let first;
        if !front && add <= before {
            add = add.max(before / 2);
            first = self.ptrs.add(before - add);
            ptr::copy(self.b.arr, first, used);
        } else if front && add <= after {
            add = add.max(after / 2);
            first = self.b.arr.add(add);
            ptr::copy(self.b.arr, first, used);
        } else {
            let n = self.n as usize + (self.n as usize).max(add) + 2;
            let new = take(owner, n * 8, 8) as *mut *mut T;
            first = new.add(before + if front { add } else { 0 });
            ptr::copy_nonoverlapping(self.b.arr, first, used);
            give(owner, self.ptrs as usize, self.n as usize * 8, 8);
            self.ptrs = new;
            self.n = n as u32;
        }
        self.b.set(first);
        self.e.set(first.add(used - 1));
    }
    unsafe fn push_b(&mut self, t: T, owner: u32) {
        ptr::write(self.e.cur, t);
        if self.e.cur.add(1) != self.e.end {
            self.e.cur = self.e.cur.add(1);
            return;
        }
        if self.e.arr.offset_from(self.ptrs) + 1 >= self.n as isize {
            let off = self.e.cur.offset_from(self.e.begin);
            self.more_ptrs(false, owner);
            self.e.cur = self.e.begin.offset(off);
        }
        *self.e.arr.add(1) = self.block(owner);
        self.e.set(self.e.arr.add(1));
        self.e.cur = self.e.begin;
    }
    unsafe fn push_f(&mut self, t: T, owner: u32) {
        if self.b.cur == self.b.begin {
            if self.b.arr == self.ptrs {
                self.more_ptrs(true, owner);
            }
            *self.b.arr.sub(1) = self.block(owner);
            self.b.set(self.b.arr.sub(1));
            self.b.cur = self.b.end;
        }
        self.b.cur = self.b.cur.sub(1);
        ptr::write(self.b.cur, t);
    }
    unsafe fn pop_b(&mut self, owner: u32) -> T {
        if self.e.cur == self.e.begin {
            self.drop_block(self.e.begin, owner);
            self.e.set(self.e.arr.sub(1));
            self.e.cur = self.e.end;
        }
        self.e.cur = self.e.cur.sub(1);
        ptr::read(self.e.cur)
    }
    unsafe fn pop_f(&mut self, owner: u32) -> T {
        let t = ptr::read(self.b.cur);
        if self.b.cur.add(1) != self.b.end {
            self.b.cur = self.b.cur.add(1);
        } else {
            self.drop_block(self.b.begin, owner);
            self.b.set(self.b.arr.add(1));
            self.b.cur = self.b.begin;
        }
        t
    }
}
pub unsafe fn deq_each<T>(p: *const u8, limit: usize, f: &mut dyn FnMut(&T)) -> Walked {
    let d = &*(p as *const Dq<T>);
    let (lo, hi) = (d.ptrs as usize, d.ptrs as usize + d.n as usize * 8);
    if !held(lo, hi - lo) {
        return bad("the array of blocks is not memory the deque holds");
    }
    let inside = |a: usize| a >= lo && a < hi;
    if !inside(d.b.arr as usize) || !inside(d.e.arr as usize) || d.b.arr > d.e.arr {
        return bad("an end of the deque lies outside its array of blocks");
    }
    let mut a = d.b.arr;
    while a <= d.e.arr {
        if !held(*a as usize, Dq::<T>::bytes()) {
            return bad("a block between the ends is not memory the deque holds");
        }
        a = a.add(1);
    }
    span(d.b, d.e, limit, f)
}
pub unsafe fn deq_do<T>(p: *mut u8, owner: u32, act: Act<T>) -> Vec<T> {
    let d = &mut *(p as *mut Dq<T>);
    let mut out = vec![];
    let n = d.e.minus(&d.b) as usize;
    match act {
        Act::PushB(t) => d.push_b(t, owner),
        Act::PushF(t) => d.push_f(t, owner),
        Act::PopB => out.push(d.pop_b(owner)),
        Act::PopF => out.push(d.pop_f(owner)),
        Act::Ins(at, t) => {
            if at < n / 2 {
                d.push_f(t, owner);
                let mut i = d.b;
                for _ in 0..at {
                    let j = i.cur;
                    i.inc();
                    ptr::swap(j, i.cur);
                }
            } else {
                d.push_b(t, owner);
                let mut i = d.e;
                i.dec();
                for _ in at..n {
                    let j = i.cur;
                    i.dec();
                    ptr::swap(j, i.cur);
                }
            }
        }
        Act::Rem(at) => {
            let mut i = d.b;
            for _ in 0..at {
                i.inc();
            }
            if at < n / 2 {
                for _ in 0..at {
                    let j = i.cur;
                    i.dec();
                    ptr::swap(j, i.cur);
                }
                out.push(d.pop_f(owner));
            } else {
                for _ in at + 1..n {
                    let j = i.cur;
                    i.inc();
                    ptr::swap(j, i.cur);
                }
                out.push(d.pop_b(owner));
            }
        }
        Act::Clear(_) => {
            // the first block stays, the others go; both ends meet where the deque began
            let mut i = d.b;
            while i.cur != d.e.cur {
                out.push(ptr::read(i.cur));
                i.inc();
            }
            while d.e.arr != d.b.arr {
                d.drop_block(d.e.begin, owner);
                d.e.set(d.e.arr.sub(1));
            }
            d.e = d.b;
        }
        Act::Reverse => {
            let (mut i, mut j) = (d.b, d.e);
            for _ in 0..n / 2 {
                j.dec();
                ptr::swap(i.cur, j.cur);
                i.inc();
            }
        }
        Act::Reserve(_) | Act::Shrink => {}
    }
    out
}
/// The foreign `begin()+front` and `end()-back`.
pub unsafe fn deq_pair<T>(p: *const u8, front: usize, back: usize) -> (DIt<T>, DIt<T>) {
    let d = &*(p as *const Dq<T>);
    let (mut b, mut e) = (d.b, d.e);
    for _ in 0..front {
        b.inc();
    }
    for _ in 0..back {
        e.dec();
    }
    (b, e)
}
/// Walks an exported pair.
pub unsafe fn deq_span<T>(b: Raw, e: Raw, limit: usize, f: &mut dyn FnMut(&T)) -> Walked {
    if b.0 != size_of::<DIt<T>>() {
        return bad("the exported iterator does not have the foreign size");
    }
    span(ptr::read(b.1.as_ptr() as *const DIt<T>), ptr::read(e.1.as_ptr() as *const DIt<T>), limit, f)
}

// -------------------------------------------------------------------------------------------- lists
#[repr(C)]
struct Ln {
    next: *mut Ln,
    prev: *mut Ln,
}
#[repr(C)]
struct LNode<T> {
    l: Ln,
    v: T,
}
#[repr(C)]
struct Ls {
    l: Ln,
    n: u32,
}
#[repr(C)]
struct Pool<A> {
    head: usize,
    next: usize,
    cap: usize,
    overflow: MaybeUninit<A>,
    begin: usize,
}
#[repr(C)]
struct PLs<A> {
    l: Ls,
    pool: Pool<A>,
}
impl<A> Pool<A> {
    unsafe fn take(&mut self, owner: u32, size: usize, align: usize) -> usize {
        if self.head != 0 {
            let a = self.head;
            self.head = *(a as *const usize);
            probe("pool-node-reused");
            a
        } else if self.next != self.cap {
            self.next += size;
            self.next - size
        } else {
            probe("pool-overflow");
            take(owner, size, align)
        }
    }
    unsafe fn give(&mut self, a: usize, owner: u32, size: usize, align: usize) {
        if a >= self.begin && a < self.cap {
            *(a as *mut usize) = self.head;
            self.head = a;
        } else {
            give(owner, a, size, align)
        }
    }
}
pub unsafe fn list_each<T>(p: *const u8, limit: usize, f: &mut dyn FnMut(&T)) -> Walked {
    let l = &*(p as *const Ls);
    let root = p as *mut Ln;
    let mut k = 0;
    let mut at = root;
    loop {
        let nx = (*at).next;
        if nx == root {
            if (*root).prev != at {
                return bad("the last node is not what the list names as its last");
            }
            break;
        }
        if !held(nx as usize, size_of::<LNode<T>>()) {
            return bad(format!("the link after element {k} leads to memory that holds no node"));
        }
        if (*nx).prev != at {
            return bad(format!("the backward link of element {k} does not lead to the one before it"));
        }
        if k >= limit {
            return bad("the forward links never come back to the list");
        }
        f(&(*(nx as *mut LNode<T>)).v);
        k += 1;
        at = nx;
    }
    if l.n as usize != k {
        return bad(format!("the list says {} node(s) and {k} are linked", l.n));
    }
    Ok(())
}
unsafe fn list_act<T>(p: *mut u8, owner: u32, pool: &mut dyn FnMut(Option<usize>) -> usize, act: Act<T>) -> Vec<T> {
    let _ = owner;
    let l = &mut *(p as *mut Ls);
    let root = p as *mut Ln;
    let nth = |i: usize| {
        let mut at = (*root).next;
        for _ in 0..i {
            at = (*at).next;
        }
        at
    };
    let n = l.n as usize;
    let mut out = vec![];
    let before = match &act {
        Act::PushB(_) => Some(root),
        Act::PushF(_) => Some((*root).next),
        Act::Ins(i, _) => Some(nth(*i)),
        _ => None,
    };
    let mut unlink = |at: *mut Ln| {
        (*(*at).prev).next = (*at).next;
        (*(*at).next).prev = (*at).prev;
        let t = ptr::read(&(*(at as *mut LNode<T>)).v);
        pool(Some(at as usize));
        t
    };
    match act {
        Act::PopB => {
            out.push(unlink((*root).prev));
            l.n -= 1
        }
        Act::PopF => {
            out.push(unlink((*root).next));
            l.n -= 1
        }
        Act::Rem(i) => {
            out.push(unlink(nth(i)));
            l.n -= 1
        }
        Act::Clear(_) => {
            for _ in 0..n {
                out.push(unlink((*root).next))
            }
            l.n = 0;
        }
        Act::Reverse => {
            let mut at = root;
            loop {
                let nx = (*at).next;
                std::mem::swap(&mut (*at).next, &mut (*at).prev);
                at = nx;
                if at == root {
                    break;
                }
            }
        }
        Act::PushB(t) | Act::PushF(t) | Act::Ins(_, t) => {
            let node = pool(None) as *mut LNode<T>;
            let b = before.unwrap();
            ptr::write(node, LNode { l: Ln { next: b, prev: (*b).prev }, v: t });
            (*(*b).prev).next = node as *mut Ln;
            (*b).prev = node as *mut Ln;
            l.n += 1;
        }
        Act::Reserve(_) | Act::Shrink => {}
    }
    out
}
pub unsafe fn list_do<T>(p: *mut u8, owner: u32, act: Act<T>) -> Vec<T> {
    let (s, a) = (size_of::<LNode<T>>(), align_of::<LNode<T>>());
    list_act(
        p,
        owner,
        &mut |n| match n {
            None => take(owner, s, a),
            Some(n) => {
                give(owner, n, s, a);
                0
            }
        },
        act,
    )
}
pub unsafe fn fixed_list_do<T, A>(p: *mut u8, owner: u32, act: Act<T>) -> Vec<T> {
    let (s, a) = (size_of::<LNode<T>>(), align_of::<LNode<T>>());
    let pool = ptr::addr_of_mut!((*(p as *mut PLs<A>)).pool);
    list_act(
        p,
        owner,
        &mut |n| match n {
            None => (*pool).take(owner, s, a),
            Some(n) => {
                (*pool).give(n, owner, s, a);
                0
            }
        },
        act,
    )
}

// -------------------------------------------------------------------------------------- hash tables
#[repr(C)]
pub struct HNode<K, V> {
    k: K,
    v: V,
    next: *mut HNode<K, V>,
}
#[repr(C)]
struct Tab<K, V> {
    pad: u8,
    buckets: *mut *mut HNode<K, V>,
    n: u32,
    elems: u32,
    load: f32,
    growth: f32,
    next: u32,
}
#[repr(C)]
pub struct HIt<K, V> {
    node: *mut HNode<K, V>,
    bucket: *mut *mut HNode<K, V>,
}
impl<K, V> Clone for HIt<K, V> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<K, V> Copy for HIt<K, V> {}
/// Load factors the foreign side sets; the second is its default.
pub const LOADS: [f32; 4] = [0.5, 1.0, 2.0, 4.0];
static EMPTY: [usize; 2] = [0, !0];
/// The bucket counts the foreign library uses, as far as simulated tables grow.
const NPRIMES: usize = 128;
#[rustfmt::skip]
static PRIMES: [u32; NPRIMES] = [
    2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 103, 109, 113, 127, 137, 139, 149, 157, 167, 179,
    193, 199, 211, 227, 241, 257, 277, 293, 313, 337, 359, 383, 409, 439, 467, 503, 541, 577, 619, 661, 709, 761, 823, 887, 953, 1031, 1109, 1193,
    1289, 1381, 1493, 1613, 1741, 1879, 2029, 2179, 2357, 2549, 2753, 2971, 3209, 3469, 3739, 4027, 4349, 4703, 5087, 5503, 5953, 6427, 6949, 7517,
    8123, 8783, 9497, 10273, 11113, 12011, 12983, 14033, 15173, 16411, 17749, 19183, 20753, 22447, 24281, 26267, 28411, 30727, 33223, 35933, 38873,
    42043, 45481, 49201, 53201, 57557, 62233, 67307, 72817, 78779, 85229, 92203, 99733, 107897, 116731, 126271, 136607, 147793, 159871, 172933,
    187091,
];
fn prime(n: u32) -> u32 {
    PRIMES[PRIMES.partition_point(|p| *p < n).min(NPRIMES - 1)]
}
impl<K, V> HIt<K, V> {
    /// `++`, keeping inside the `n` buckets at `first` and their end mark.
    unsafe fn inc(&mut self, first: usize, n: usize) -> Walked {
        self.node = (*self.node).next;
        while self.node.is_null() {
            if (self.bucket as usize) < first || self.bucket as usize >= first + n * 8 {
                return bad("the iterator's bucket is not one of the table's buckets");
            }
            self.bucket = self.bucket.add(1);
            self.node = *self.bucket;
        }
        Ok(())
    }
}
unsafe fn begin<K, V>(t: &Tab<K, V>) -> HIt<K, V> {
    let mut i = HIt { node: *t.buckets, bucket: t.buckets };
    while i.node.is_null() {
        i.bucket = i.bucket.add(1);
        i.node = *i.bucket;
    }
    i
}
unsafe fn end<K, V>(t: &Tab<K, V>) -> HIt<K, V> {
    let b = t.buckets.add(t.n as usize);
    HIt { node: *b, bucket: b }
}
unsafe fn sound<K, V>(t: &Tab<K, V>) -> Walked {
    if t.n == 0 || (t.n > 1 && !held(t.buckets as usize, (t.n as usize + 1) * 8)) {
        return bad(format!("the {} buckets and their end mark are not memory the table holds", t.n));
    }
    if *t.buckets.add(t.n as usize) as usize != !0 {
        return bad("the array of buckets does not end in its mark");
    }
    if t.n != 1 && PRIMES.binary_search(&t.n).is_err() && t.n < PRIMES[NPRIMES - 1] {
        return bad(format!("{} buckets: not a count the foreign library uses", t.n));
    }
    if t.elems > t.next {
        return bad(format!("{} elements although the growth state allows {}", t.elems, t.next));
    }
    if !LOADS.contains(&t.load) || t.growth != 2.0 {
        return bad(format!("the growth state (load factor {}, growth factor {}) is not the foreign one", t.load, t.growth));
    }
    Ok(())
}
/// Walks a pair of iterators the way a foreign range loop does.
unsafe fn stretch<K, V>(t: &Tab<K, V>, b: HIt<K, V>, e: HIt<K, V>, limit: usize, f: &mut dyn FnMut(&K, &V, usize)) -> Walked {
    let mut i = b;
    let mut k = 0;
    while i.node != e.node {
        if k >= limit || !held(i.node as usize, size_of::<HNode<K, V>>()) {
            return bad(format!("stepping through the table leaves its nodes after {k} of them"));
        }
        let at = (i.bucket as usize).wrapping_sub(t.buckets as usize) / 8;
        f(&(*i.node).k, &(*i.node).v, at);
        k += 1;
        i.inc(t.buckets as usize, t.n as usize)?;
    }
    Ok(())
}
pub unsafe fn tab_each<K, V>(p: *const u8, limit: usize, hash: &dyn Fn(&K) -> usize, f: &mut dyn FnMut(&K, &V)) -> Walked {
    let t = &*(p as *const Tab<K, V>);
    sound(t)?;
    let mut k = 0u32;
    let mut lost = None;
    stretch(t, begin(t), end(t), limit, &mut |key, v, at| {
        if hash(key) % t.n as usize != at {
            lost = Some(at);
        }
        k += 1;
        f(key, v)
    })?;
    if let Some(at) = lost {
        return bad(format!("a key lies in bucket {at} of {}, where its hash does not lead", t.n));
    }
    if k != t.elems {
        return bad(format!("the table says {} element(s) and {k} are linked", t.elems));
    }
    Ok(())
}
unsafe fn rehash<K, V>(t: &mut Tab<K, V>, n: u32, owner: u32, hash: &dyn Fn(&K) -> usize) {
    let new = take(owner, (n as usize + 1) * 8, 8) as *mut *mut HNode<K, V>;
    for i in 0..n as usize {
        *new.add(i) = null_mut();
    }
    *new.add(n as usize) = !0usize as *mut _;
    for i in 0..t.n as usize {
        loop {
            let node = *t.buckets.add(i);
            if node.is_null() {
                break;
            }
            *t.buckets.add(i) = (*node).next;
            let j = hash(&(*node).k) % n as usize;
            (*node).next = *new.add(j);
            *new.add(j) = node;
        }
    }
    drop_buckets(t, owner);
    t.buckets = new;
    t.n = n;
}
unsafe fn drop_buckets<K, V>(t: &mut Tab<K, V>, owner: u32) {
    if t.n > 1 {
        give(owner, t.buckets as usize, (t.n as usize + 1) * 8, 8);
    }
}
/// How many buckets there are, and how many entries the bucket of a hash holds.
pub unsafe fn tab_chain<K, V>(p: *const u8, h: usize) -> (usize, usize) {
    let t = &*(p as *const Tab<K, V>);
    let mut n = 0;
    let mut at = *t.buckets.add(h % t.n as usize);
    while !at.is_null() {
        n += 1;
        at = (*at).next;
    }
    (t.n as usize, n)
}
pub unsafe fn tab_do<K: El, V>(p: *mut u8, owner: u32, hash: &dyn Fn(&K) -> usize, same: &dyn Fn(u32, u32) -> bool, probe_key: impl Fn(u32) -> K, act: DAct<K, V>) -> Vec<(K, V)> {
    let t = &mut *(p as *mut Tab<K, V>);
    let (s, a) = (size_of::<HNode<K, V>>(), align_of::<HNode<K, V>>());
    let mut out = vec![];
    match act {
        DAct::Put(k, v) => {
            let h = hash(&k);
            let mut at = *t.buckets.add(h % t.n as usize);
            while !at.is_null() {
                if same((*at).k.val(), k.val()) {
                    out.push((k, std::mem::replace(&mut (*at).v, v)));
                    return out;
                }
                at = (*at).next;
            }
            if t.elems + 1 > t.next {
                let have = if t.n == 1 { 0 } else { t.n };
                let want = (t.elems + 1) as f32 / t.load;
                if want > have as f32 {
                    let n = prime(want.max(t.growth * have as f32) as u32);
                    t.next = (n as f32 * t.load).ceil() as u32;
                    rehash(t, n, owner, hash);
                } else {
                    t.next = (have as f32 * t.load).ceil() as u32;
                }
            }
            let node = take(owner, s, a) as *mut HNode<K, V>;
            let b = t.buckets.add(h % t.n as usize);
            ptr::write(node, HNode { k, v, next: *b });
            *b = node;
            t.elems += 1;
        }
        DAct::Del(kv) => {
            let k = probe_key(kv);
            let mut link = t.buckets.add(hash(&k) % t.n as usize);
            drop(k);
            while !(*link).is_null() {
                let node = *link;
                if same((*node).k.val(), kv) {
                    *link = (*node).next;
                    out.push((ptr::read(&(*node).k), ptr::read(&(*node).v)));
                    give(owner, node as usize, s, a);
                    t.elems -= 1;
                    break;
                }
                link = &mut (*node).next;
            }
        }
        DAct::Clear(lose) => {
            for i in 0..t.n as usize {
                loop {
                    let node = *t.buckets.add(i);
                    if node.is_null() {
                        break;
                    }
                    *t.buckets.add(i) = (*node).next;
                    out.push((ptr::read(&(*node).k), ptr::read(&(*node).v)));
                    give(owner, node as usize, s, a);
                }
            }
            t.elems = 0;
            if lose {
                drop_buckets(t, owner);
                t.buckets = EMPTY.as_ptr() as *mut _;
                t.n = 1;
                t.next = 0;
            }
        }
        DAct::Rehash(n) => {
            let n = prime(n.max((t.elems as f32 / t.load).ceil() as u32));
            t.next = (n as f32 * t.load).ceil() as u32;
            rehash(t, n, owner, hash);
        }
        DAct::Load(f) => t.load = f,
        DAct::Reserve(_) => {}
    }
    out
}
/// Walks an exported pair of iterators over the table at `p`.
pub unsafe fn tab_span<K, V>(p: *const u8, b: Raw, e: Raw, whole: bool, limit: usize, f: &mut dyn FnMut(&K, &V)) -> Walked {
    if b.0 != size_of::<HIt<K, V>>() {
        return bad("the exported iterator does not have the foreign size");
    }
    let t = &*(p as *const Tab<K, V>);
    sound(t)?;
    let (b, e) = (ptr::read(b.1.as_ptr() as *const HIt<K, V>), ptr::read(e.1.as_ptr() as *const HIt<K, V>));
    if whole && (e.node as usize != !0 || e.bucket != t.buckets.add(t.n as usize)) {
        return bad("the exported end is not the end of the table");
    }
    for (i, what) in [(b, "begin"), (e, "end")] {
        // the foreign side steps on from the bucket that holds the node
        let at = (i.bucket as usize).wrapping_sub(t.buckets as usize) / 8;
        if at > t.n as usize {
            return bad(format!("the exported {what} names no bucket of the table"));
        }
        let mut node = *i.bucket;
        while node != i.node {
            if node.is_null() || node as usize == !0 {
                return bad(format!("the exported {what} names a bucket that does not hold its node"));
            }
            node = (*node).next;
        }
    }
    stretch(t, b, e, limit, &mut |k, v, _| f(k, v))
}
/// The foreign `begin()` advanced by `front`, and `end()` or as much before it.
pub unsafe fn tab_pair<K, V>(p: *const u8, front: usize, back: usize) -> (HIt<K, V>, HIt<K, V>) {
    let t = &*(p as *const Tab<K, V>);
    let at = |n: usize| {
        let mut i = begin(t);
        for _ in 0..n {
            if i.inc(t.buckets as usize, t.n as usize).is_err() {
                break;
            }
        }
        i
    };
    (at(front), if back == 0 { end(t) } else { at((t.elems as usize).saturating_sub(back)) })
}
/// An exported iterator as bytes.
pub type Raw = (usize, [usize; 4]);
pub fn raw<C>(c: &C) -> Raw {
    let mut r = [0usize; 4];
    let n = size_of::<C>();
    unsafe { ptr::copy_nonoverlapping(c as *const C as *const u8, r.as_mut_ptr() as *mut u8, n.min(32)) };
    (n, r)
}
/// Gives `c` the bytes of a foreign iterator.
pub unsafe fn become_<C, F>(c: &mut C, f: F) {
    if size_of::<C>() == size_of::<F>() {
        ptr::write(c as *mut C as *mut F, f)
    } else {
        violate(Class::Peer, "the crate's form of a foreign iterator does not have the foreign size")
    }
}
