//! Hash maps, hash sets and vector maps, as seen by the dictionary world.
use super::dict::*;
use super::foreign::*;
use super::seq::{It, Walk};
use super::*;
use crate::alloc::*;
use eastl_rs::compare::{Compare, Greater, Less};
use eastl_rs::equals::{EqualTo, Equals};
use eastl_rs::hash::{DefaultHash, Hash};
use eastl_rs::hash_map::iter as hmi;
use eastl_rs::hash_set::iter as hsi;
use eastl_rs::vector_map::Entry as VEntry;
use eastl_rs::{HashMap, HashSet, VectorMap};
use std::marker::PhantomData;
use std::ptr;

// ---------------------------------------------------------------------------------- hash iterators
fn h_out<K: PartialEq + Clone, V: Clone>(it: hmi::Iter<'_, K, V>) -> hmi::Iter<'_, K, V> {
    // a copy continues where the original stands
    let it = if draw(2) == 1 { it.clone() } else { it };
    let (b, e) = it.into_compat();
    unsafe { hmi::Iter::from_compat(b, e) }
}
fn h_mut<K: PartialEq, V>(it: hmi::IterMut<'_, K, V>) -> hmi::IterMut<'_, K, V> {
    let (b, e) = it.into_compat();
    unsafe { hmi::IterMut::from_compat(b, e) }
}
fn s_out<K: PartialEq>(it: hsi::Iter<'_, K>) -> hsi::Iter<'_, K> {
    let (b, e) = it.into_compat();
    unsafe { hsi::Iter::from_compat(b, e) }
}
/// A shared iterator obtained from a mutable one through its foreign form.
fn via_mut<'a, K: PartialEq, V>(i: hmi::IterMut<'a, K, V>) -> hmi::Iter<'a, K, V> {
    let (b, e) = i.into_compat_mut();
    unsafe { hmi::Iter::from_compat_mut(b, e) }
}
// ---------------------------------------------------------------------------------- custom policies
/// Keys that differ only in the lowest bit of their value are one and the same.
pub struct PairHash<K>(PhantomData<K>);
impl<K: El> Hash<K> for PairHash<K> {
    fn hash(k: &K) -> usize {
        let v = k.val();
        seam(FK::Hash);
        told_hash(hash_val(v / 2))
    }
}
pub struct PairEq<K>(PhantomData<K>);
impl<K: El> Equals<K> for PairEq<K> {
    fn equals(a: &K, b: &K) -> bool {
        let (a, b) = (a.val(), b.val());
        seam(FK::Eq);
        told_eq(a / 2 == b / 2)
    }
}
/// A custom total order: by remainder, then by value, descending.
pub struct Remainder<K>(#[allow(dead_code)] u8, PhantomData<K>);
impl<K> Default for Remainder<K> {
    fn default() -> Self {
        Remainder(0, PhantomData)
    }
}
fn rem_rank(v: u32) -> u64 {
    ((v % 7) as u64) << 32 | (u32::MAX - v) as u64
}
impl<K: El> Compare<K> for Remainder<K> {
    fn compare(a: &K, b: &K) -> bool {
        let (a, b) = (a.val(), b.val());
        seam(FK::Cmp);
        told_less(rem_rank(a) < rem_rank(b))
    }
}
/// A coarse order: values that differ only in the lowest bit are equivalent though not equal.
pub struct Halves<K>(#[allow(dead_code)] u8, PhantomData<K>);
impl<K> Default for Halves<K> {
    fn default() -> Self {
        Halves(0, PhantomData)
    }
}
impl<K: El> Compare<K> for Halves<K> {
    fn compare(a: &K, b: &K) -> bool {
        let (a, b) = (a.val(), b.val());
        seam(FK::Cmp);
        told_less(a / 2 < b / 2)
    }
}
pub trait Order<K>: Compare<K> + Default + 'static {
    const LESS: bool;
    fn rank(v: u32) -> u64;
}
impl<K: El> Order<K> for Less<K> {
    const LESS: bool = true;
    fn rank(v: u32) -> u64 {
        v as u64
    }
}
impl<K: El> Order<K> for Greater<K> {
    const LESS: bool = false;
    fn rank(v: u32) -> u64 {
        (u32::MAX - v) as u64
    }
}
impl<K: El> Order<K> for Halves<K> {
    const LESS: bool = false;
    fn rank(v: u32) -> u64 {
        v as u64 / 2
    }
}
impl<K: El> Order<K> for Remainder<K> {
    const LESS: bool = false;
    fn rank(v: u32) -> u64 {
        rem_rank(v)
    }
}

// ---------------------------------------------------------------------------------- hash maps
macro_rules! hash_body {
    ($coarse:literal, $h:ty) => {
        type K = K;
        type V = V;
        const SIM: bool = A::SIM;
        const COARSE: bool = $coarse;
        const COLLECT: bool = !$coarse;
        const STABLE: bool = true;
        fn name() -> String {
            format!("HashMap of {} to {} with the {}{}", K::NAME, V::NAME, A::NAME, if $coarse { ", custom hash and equality" } else { "" })
        }
        fn c_len(&self) -> usize {
            self.len()
        }
        fn c_empty(&self) -> bool {
            self.is_empty()
        }
        fn has(&self, k: &K) -> bool {
            self.contains_key(k)
        }
        fn look(&self, k: &K) -> Option<(Option<&K>, Option<&V>)> {
            self.get(k).map(|v| (None, Some(v)))
        }
        fn look_mut(&mut self, k: &K) -> Option<&mut V> {
            self.get_mut(k)
        }
        fn put(&mut self, k: K, v: V) -> Put<V> {
            match self.insert(k, v) {
                None => Put::New,
                Some(o) => Put::Had(Some(o)),
            }
        }
        fn del(&mut self, k: &K, whole: bool) -> Option<(Option<K>, Option<V>)> {
            if whole {
                self.remove_entry(k).map(|(k, v)| (Some(k), Some(v)))
            } else {
                self.remove(k).map(|v| (None, Some(v)))
            }
        }
        fn ent(&mut self, k: K, how: u32, v: V, nv: u32) -> ERes<K> {
            let e = self.entry(k);
            let modify = |v: &mut V| {
                seam(FK::Closure);
                v.set(nv);
            };
            let make = |v: V| {
                seam(FK::Closure);
                v
            };
            let r = match how {
                0 => e.or_insert(v),
                1 => e.and_modify(modify).or_insert(v),
                2 => e.or_insert_with(move || make(v)),
                3 | 4 => {
                    drop(e);
                    return ERes { val: None, key: None };
                }
                _ => e.and_modify(modify).or_insert_with(move || make(v)),
            };
            ERes { val: Some((r.id(), r.val())), key: None }
        }
        fn clr(&mut self) {
            self.clear()
        }
        fn each(&self, limit: usize, f: &mut dyn FnMut(&K, Option<&V>)) {
            self.iter().take(limit).for_each(|(k, v)| f(k, Some(v)))
        }
        fn walker<'a>(&'a self) -> Box<dyn Walk<(&'a K, Option<&'a V>)> + 'a> {
            Box::new(It::mapped(self.iter(), |(k, v)| (k, Some(v))).reexport(h_out))
        }
        fn walker_mut<'a>(&'a mut self) -> Option<Box<dyn Walk<(&'a K, &'a mut V)> + 'a>> {
            if draw(4) == 3 {
                // a shared view of the mutable iterator sees the same
                let n = self.len();
                let seen = via_mut(self.iter_mut()).take(n + 2).count();
                if seen != n {
                    violate(Class::Iter, format!("the iterator imported from a mutable one yields {seen} of {n} entries"));
                }
            }
            Some(Box::new(It::new(self.iter_mut()).reexport(h_mut)))
        }
        fn fmt(&self) -> String {
            format!("{self:?}")
        }
        const PEER: u32 = 2;
        unsafe fn f_each(p: *const u8, limit: usize, f: &mut dyn FnMut(&K, Option<&V>)) -> Walked {
            tab_each::<K, V>(p, limit, &|k| <$h as Hash<K>>::hash(k), &mut |k, v| f(k, Some(v)))
        }
        const NODE: usize = std::mem::size_of::<(K, V)>() + 16 + 2 * std::mem::align_of::<(K, V)>();
        fn chain(&self, k: &K) -> (usize, usize) {
            unsafe { tab_chain::<K, V>(self as *const Self as *const u8, <$h as Hash<K>>::hash(k)) }
        }
        unsafe fn f_do(p: *mut u8, owner: u32, act: DAct<K, V>) -> Vec<(K, Option<V>)> {
            let same: fn(u32, u32) -> bool = if $coarse { |a, b| a / 2 == b / 2 } else { |a, b| a == b };
            tab_do::<K, V>(p, owner, &|k| <$h as Hash<K>>::hash(k), &same, K::make, act).into_iter().map(|(k, v)| (k, Some(v))).collect()
        }
        fn f_out(&mut self, front: usize, back: usize, how: u32) -> Option<(Raw, Raw)> {
            fn rp<B, E>((b, e): (B, E)) -> (Raw, Raw) {
                (raw(&b), raw(&e))
            }
            fn skip<I: Iterator>(mut i: I, n: usize) -> I {
                for _ in 0..n {
                    i.next();
                }
                i
            }
            if back > 0 {
                // a part the foreign side cut out, handed back
                let (fb, fe) = unsafe { tab_pair::<K, V>(self as *const Self as *const u8, 0, back) };
                let (mut b, mut e) = self.iter().into_compat();
                return Some(unsafe {
                    become_(&mut b, fb);
                    become_(&mut e, fe);
                    rp(skip(hmi::Iter::from_compat(b, e), front).into_compat())
                });
            }
            Some(match how {
                0 | 1 => rp(skip(self.iter(), front).into_compat()),
                2 => rp(skip(self.iter_mut(), front).into_compat()),
                _ => rp(skip(self.iter_mut(), front).into_compat_mut()),
            })
        }
        unsafe fn f_span(p: *const u8, b: Raw, e: Raw, whole: bool, limit: usize, f: &mut dyn FnMut(&K, Option<&V>)) -> Walked {
            tab_span::<K, V>(p, b, e, whole, limit, &mut |k, v| f(k, Some(v)))
        }
        fn f_in<'a>(&'a mut self, front: usize, back: usize, how: u32) -> Option<Box<dyn Walk<(&'a K, Option<&'a V>)> + 'a>> {
            unsafe {
                let (fb, fe) = tab_pair::<K, V>(self as *const Self as *const u8, front, back);
                Some(match how {
                    0 | 1 => {
                        let (mut b, mut e) = self.iter().into_compat();
                        become_(&mut b, fb);
                        become_(&mut e, fe);
                        Box::new(It::mapped(hmi::Iter::from_compat(b, e), |(k, v)| (k, Some(v))))
                    }
                    2 => {
                        let (mut b, mut e) = self.iter_mut().into_compat_mut();
                        become_(&mut b, fb);
                        become_(&mut e, fe);
                        Box::new(It::mapped(hmi::Iter::from_compat_mut(b, e), |(k, v)| (k, Some(v))))
                    }
                    _ => {
                        let (mut b, mut e) = self.iter_mut().into_compat();
                        become_(&mut b, fb);
                        become_(&mut e, fe);
                        Box::new(It::mapped(hmi::IterMut::from_compat(b, e), |(k, v)| (k, Some(&*v))))
                    }
                })
            }
        }
    };
}
impl<K: El, V: El, A: Al> Dict for HashMap<K, V, A, DefaultHash<K>, EqualTo<K>>
where
    DefaultHash<K>: Hash<K>,
{
    hash_body!(false, DefaultHash<K>);
    unsafe fn create(p: *mut Self, how: u32) {
        ptr::write(
            p,
            match how {
                0 => HashMap::new(),
                1 => HashMap::new_in(A::default()),
                _ => HashMap::default(),
            },
        )
    }
    fn from_it(it: Source<(K, V)>) -> Self {
        it.collect()
    }
}
impl<K: El, V: El, A: Al> Dict for HashMap<K, V, A, PairHash<K>, PairEq<K>> {
    hash_body!(true, PairHash<K>);
    unsafe fn create(p: *mut Self, _how: u32) {
        ptr::write(p, HashMap::new_in(A::default()))
    }
}

// ---------------------------------------------------------------------------------- hash sets
macro_rules! set_body {
    ($coarse:literal, $h:ty) => {
        type K = K;
        type V = u8;
        const SET: bool = true;
        const SIM: bool = A::SIM;
        const COARSE: bool = $coarse;
        const COLLECT: bool = !$coarse;
        const STABLE: bool = true;
        fn name() -> String {
            format!("HashSet of {} with the {}{}", K::NAME, A::NAME, if $coarse { ", custom hash and equality" } else { "" })
        }
        fn c_len(&self) -> usize {
            self.len()
        }
        fn c_empty(&self) -> bool {
            self.is_empty()
        }
        fn has(&self, k: &K) -> bool {
            self.contains_key(k)
        }
        fn look(&self, k: &K) -> Option<(Option<&K>, Option<&u8>)> {
            self.get(k).map(|k| (Some(k), None))
        }
        fn put(&mut self, k: K, _v: u8) -> Put<u8> {
            if self.insert(k) {
                Put::New
            } else {
                Put::Had(None)
            }
        }
        fn del(&mut self, k: &K, _whole: bool) -> Option<(Option<K>, Option<u8>)> {
            self.remove(k).map(|k| (Some(k), None))
        }
        fn clr(&mut self) {
            self.clear()
        }
        fn each(&self, limit: usize, f: &mut dyn FnMut(&K, Option<&u8>)) {
            self.iter().take(limit).for_each(|k| f(k, None))
        }
        fn walker<'a>(&'a self) -> Box<dyn Walk<(&'a K, Option<&'a u8>)> + 'a> {
            Box::new(It::mapped(self.iter(), |k| (k, None)).reexport(s_out))
        }
        fn fmt(&self) -> String {
            format!("{self:?}")
        }
        const PEER: u32 = 2;
        unsafe fn f_each(p: *const u8, limit: usize, f: &mut dyn FnMut(&K, Option<&u8>)) -> Walked {
            tab_each::<K, ()>(p, limit, &|k| <$h as Hash<K>>::hash(k), &mut |k, _| f(k, None))
        }
        const NODE: usize = std::mem::size_of::<K>() + 16 + 2 * std::mem::align_of::<K>();
        fn chain(&self, k: &K) -> (usize, usize) {
            unsafe { tab_chain::<K, ()>(self as *const Self as *const u8, <$h as Hash<K>>::hash(k)) }
        }
        unsafe fn f_do(p: *mut u8, owner: u32, act: DAct<K, u8>) -> Vec<(K, Option<u8>)> {
            let same: fn(u32, u32) -> bool = if $coarse { |a, b| a / 2 == b / 2 } else { |a, b| a == b };
            tab_do::<K, ()>(p, owner, &|k| <$h as Hash<K>>::hash(k), &same, K::make, act.keys_only()).into_iter().map(|(k, _)| (k, None)).collect()
        }
        fn f_out(&mut self, front: usize, back: usize, _how: u32) -> Option<(Raw, Raw)> {
            let mut i = self.iter();
            if back > 0 {
                let (fb, fe) = unsafe { tab_pair::<K, ()>(self as *const Self as *const u8, 0, back) };
                let (mut b, mut e) = self.iter().into_compat();
                unsafe {
                    become_(&mut b, fb);
                    become_(&mut e, fe);
                    i = hsi::Iter::from_compat(b, e);
                }
            }
            for _ in 0..front {
                i.next();
            }
            let (b, e) = i.into_compat();
            Some((raw(&b), raw(&e)))
        }
        unsafe fn f_span(p: *const u8, b: Raw, e: Raw, whole: bool, limit: usize, f: &mut dyn FnMut(&K, Option<&u8>)) -> Walked {
            tab_span::<K, ()>(p, b, e, whole, limit, &mut |k, _| f(k, None))
        }
        fn f_in<'a>(&'a mut self, front: usize, back: usize, _how: u32) -> Option<Box<dyn Walk<(&'a K, Option<&'a u8>)> + 'a>> {
            unsafe {
                let (fb, fe) = tab_pair::<K, ()>(self as *const Self as *const u8, front, back);
                let (mut b, mut e) = self.iter().into_compat();
                become_(&mut b, fb);
                become_(&mut e, fe);
                Some(Box::new(It::mapped(hsi::Iter::from_compat(b, e), |k| (k, None))))
            }
        }
    };
}
impl<K: El, A: Al> Dict for HashSet<K, A, DefaultHash<K>, EqualTo<K>>
where
    DefaultHash<K>: Hash<K>,
{
    set_body!(false, DefaultHash<K>);
    unsafe fn create(p: *mut Self, how: u32) {
        ptr::write(
            p,
            match how {
                0 => HashSet::new(),
                1 => HashSet::new_in(A::default()),
                _ => HashSet::default(),
            },
        )
    }
    fn from_it(it: Source<(K, u8)>) -> Self {
        it.map(|(k, _)| k).collect()
    }
}
impl<K: El, A: Al> Dict for HashSet<K, A, PairHash<K>, PairEq<K>> {
    set_body!(true, PairHash<K>);
    unsafe fn create(p: *mut Self, _how: u32) {
        ptr::write(p, HashSet::new_in(A::default()))
    }
}

// ---------------------------------------------------------------------------------- vector maps
fn pair<'a, K, V>((k, v): &'a (K, V)) -> (&'a K, Option<&'a V>) {
    (k, Some(v))
}
macro_rules! vmap_body {
    () => {
        type K = K;
        type V = V;
        const SIM: bool = A::SIM;
        const SORTED: bool = true;
        const CAPACITY: bool = true;
        fn rank(v: u32) -> u64 {
            <Cmp<K> as Order<K>>::rank(v)
        }
        fn c_len(&self) -> usize {
            self.len()
        }
        fn c_empty(&self) -> bool {
            self.is_empty()
        }
        fn has(&self, k: &K) -> bool {
            self.contains_key(k)
        }
        fn look(&self, k: &K) -> Option<(Option<&K>, Option<&V>)> {
            self.get(k).map(|v| (None, Some(v)))
        }
        fn look_mut(&mut self, k: &K) -> Option<&mut V> {
            self.get_mut(k)
        }
        fn put(&mut self, k: K, v: V) -> Put<V> {
            match self.insert(k, v) {
                None => Put::New,
                Some(o) => Put::Had(Some(o)),
            }
        }
        fn del(&mut self, k: &K, whole: bool) -> Option<(Option<K>, Option<V>)> {
            if whole {
                self.remove_entry(k).map(|(k, v)| (Some(k), Some(v)))
            } else {
                self.remove(k).map(|v| (None, Some(v)))
            }
        }
        fn ent(&mut self, k: K, how: u32, v: V, nv: u32) -> ERes<K> {
            let kid = k.id();
            match self.entry(k) {
                VEntry::Occupied(mut o) => {
                    if matches!(how, 1 | 5) {
                        seam(FK::Closure);
                        o.get_mut().set(nv);
                    }
                    let _ = o.key().val();
                    let g = o.get();
                    ERes { val: Some((g.id(), g.val())), key: None }
                }
                VEntry::Vacant(e) => {
                    if e.key().id() != kid {
                        violate(Class::Model, "a vacant entry names another key");
                    }
                    match how {
                        3 => ERes { val: None, key: None },
                        4 => ERes { val: None, key: Some(e.into_key()) },
                        _ => {
                            let r = e.insert(v);
                            ERes { val: Some((r.id(), r.val())), key: None }
                        }
                    }
                }
            }
        }
        fn clr(&mut self) {
            self.clear()
        }
        fn each(&self, limit: usize, f: &mut dyn FnMut(&K, Option<&V>)) {
            self.as_ref().iter().take(limit).for_each(|(k, v)| f(k, Some(v)))
        }
        fn walker<'a>(&'a self) -> Box<dyn Walk<(&'a K, Option<&'a V>)> + 'a> {
            Box::new(It::mapped(self.iter(), pair::<K, V>).exact())
        }
        fn fmt(&self) -> String {
            format!("{self:?}")
        }
        const PEER: u32 = 1;
        unsafe fn f_each(p: *const u8, _limit: usize, f: &mut dyn FnMut(&K, Option<&V>)) -> Walked {
            vec_each::<(K, V)>(p, &mut |e| f(&e.0, Some(&e.1)))
        }
        unsafe fn f_do(p: *mut u8, owner: u32, act: DAct<K, V>) -> Vec<(K, Option<V>)> {
            pairs_do::<K, V>(p, owner, &Self::rank, act)
        }
        fn cap(&self) -> Option<usize> {
            Some(self.capacity())
        }
        fn with_cap(n: usize) -> Self {
            VectorMap::with_capacity(n)
        }
    };
}
macro_rules! vmap {
    ($cmp:ident) => {
        impl<K: El, V: El, A: Al> Dict for VectorMap<K, V, A, $cmp<K>> {
            vmap_body!();
            fn name() -> String {
                format!("VectorMap of {} to {} with the {}, ordered by {}", K::NAME, V::NAME, A::NAME, stringify!($cmp))
            }
            unsafe fn create(p: *mut Self, how: u32) {
                ptr::write(p, if how == 0 { VectorMap::new() } else { VectorMap::new_in(A::default(), $cmp::default()) })
            }
        }
    };
}
mod greater {
    use super::*;
    type Cmp<K> = Greater<K>;
    vmap!(Greater);
}
mod remainder {
    use super::*;
    type Cmp<K> = Remainder<K>;
    vmap!(Remainder);
}
mod less {
    use super::*;
    type Cmp<K> = Less<K>;
    impl<K: El, V: El, A: Al> Dict for VectorMap<K, V, A, Less<K>> {
        vmap_body!();
        const COLLECT: bool = true;
        fn name() -> String {
            format!("VectorMap of {} to {} with the {}, ordered by Less", K::NAME, V::NAME, A::NAME)
        }
        unsafe fn create(p: *mut Self, how: u32) {
            ptr::write(
                p,
                match how {
                    0 => VectorMap::new(),
                    1 => VectorMap::new_in(A::default(), Less::default()),
                    _ => VectorMap::default(),
                },
            )
        }
        fn from_it(it: Source<(K, V)>) -> Self {
            it.collect()
        }
        fn from_list(mut v: Vec<(K, V)>, how: u32) -> Self {
            match how {
                3 => array_map(v),
                0 => match <&[(K, V); 3]>::try_from(v.as_slice()) {
                    Ok(a) => VectorMap::from(a),
                    Err(_) => VectorMap::from(v.as_slice()),
                },
                1 => VectorMap::from(v.as_mut_slice()),
                _ => VectorMap::from(v.as_slice()),
            }
        }
    }
}
fn array_map<K: El, V: El, A: Al>(v: Vec<(K, V)>) -> VectorMap<K, V, A, Less<K>> {
    macro_rules! n {
        ($k:literal) => {{
            let a: [(K, V); $k] = match v.try_into() {
                Ok(a) => a,
                Err(_) => unreachable!(),
            };
            VectorMap::from(a)
        }};
    }
    match v.len() {
        0 => n!(0),
        1 => n!(1),
        2 => n!(2),
        3 => n!(3),
        _ => n!(4),
    }
}
