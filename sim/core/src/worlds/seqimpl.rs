//! The sequence containers of the crate, as seen by the sequence world.
use super::foreign::{self, Act, Raw, Walked};
use super::seq::*;
use super::*;
use crate::alloc::*;
use eastl_rs::deque::iter as dqi;
use eastl_rs::allocator::Allocator;
use eastl_rs::fixed_vector::FixedVector;
use eastl_rs::{Deque, FixedList, List, Queue, Vector};
use moveit::new::New;
use moveit::{MoveNew, MoveRef};
use std::mem::MaybeUninit;
use std::pin::Pin;
use std::ptr;

pub unsafe fn build<T>(n: impl New<Output = T>, p: *mut T) {
    n.new(Pin::new_unchecked(&mut *(p as *mut MaybeUninit<T>)))
}

fn vec_left<T: El, A: Al>(it: &<Vector<T, A> as IntoIterator>::IntoIter) -> usize {
    let n = it.len();
    if it.is_empty() != (n == 0) || it.as_slice().len() != n || it.capacity() < n {
        return usize::MAX;
    }
    n
}
fn vec_peek<T: El, A: Al>(it: &<Vector<T, A> as IntoIterator>::IntoIter) -> Vec<u32> {
    let _h = InHarness::enter();
    it.as_slice().iter().map(|t| t.val()).collect()
}

fn array_vec<T: El, A: Al>(mut v: Vec<T>) -> Result<Vector<T, A>, Vec<T>> {
    macro_rules! n {
        ($k:literal) => {{
            let a: [T; $k] = match v.try_into() {
                Ok(a) => a,
                Err(_) => unreachable!(),
            };
            Ok(Vector::from(a))
        }};
    }
    match v.len() {
        0 => n!(0),
        1 => n!(1),
        2 => n!(2),
        3 => n!(3),
        4 => n!(4),
        _ => {
            v.truncate(5);
            n!(5)
        }
    }
}

impl<T: El, A: Al> Seq for Vector<T, A> {
    type T = T;
    const CAPS: u32 = PUSHB | POPB | INSERT | REMOVE | RESERVE | APPEND | ASSIGN | CLEAR | CLONE | FROMIT | FROMSL | CONSUME | MUTIT | RELOC | SLICE | WITHCAP | ENDS;
    const PEER: u32 = PUSHB | POPB | INSERT | REMOVE | CLEAR | RESERVE | REVERSE;
    unsafe fn f_each(p: *const u8, _limit: usize, f: &mut dyn FnMut(&T)) -> Walked {
        foreign::vec_each(p, f)
    }
    unsafe fn f_do(p: *mut u8, owner: u32, act: Act<T>) -> Vec<T> {
        foreign::vec_do(p, owner, act)
    }
    const SIM: bool = A::SIM;
    fn name() -> String {
        format!("Vector of {} with the {}", T::NAME, A::NAME)
    }
    unsafe fn create(p: *mut Self, how: u32) {
        ptr::write(
            p,
            match how {
                0 => Vector::new(),
                1 => Vector::new_in(A::default()),
                _ => Vector::default(),
            },
        )
    }
    fn c_len(&self) -> usize {
        self.len()
    }
    fn c_empty(&self) -> bool {
        self.is_empty()
    }
    fn each(&self, limit: usize, f: &mut dyn FnMut(&T)) {
        self.as_slice().iter().take(limit).for_each(f)
    }
    fn cap(&self) -> Option<(usize, bool)> {
        Some((self.capacity(), self.is_full()))
    }
    fn push_b(&mut self, t: T) {
        self.push(t)
    }
    fn pop_b(&mut self) -> Option<T> {
        self.pop()
    }
    fn ins(&mut self, i: usize, t: T) {
        self.insert(i, t)
    }
    fn rem(&mut self, i: usize) -> Option<T> {
        self.remove(i)
    }
    fn res(&mut self, n: usize) {
        self.reserve(n)
    }
    fn app(&mut self, s: &[T]) {
        self.append(s)
    }
    fn asg(&mut self, s: &[T]) {
        self.assign(s)
    }
    fn clr(&mut self) {
        self.clear()
    }
    fn try_clone(&self) -> Option<Self> {
        A::clone_vec(self)
    }
    fn from_it(it: Source<T>) -> Self {
        it.collect()
    }
    fn from_sl(s: &mut [T], how: u32) -> Self {
        match how {
            0 => match <&[T; 3]>::try_from(&*s) {
                Ok(a) => Vector::from(a),
                Err(_) => Vector::from(&*s),
            },
            1 => Vector::from(s),
            _ => unsafe { Vector::from_in(s, A::default()) },
        }
    }
    fn from_arr(v: Vec<T>) -> Result<Self, Vec<T>> {
        array_vec(v)
    }
    fn with_cap(n: usize) -> Self {
        Vector::with_capacity(n)
    }
    fn slice(&self) -> Option<&[T]> {
        Some(self.as_ref())
    }
    fn slice_mut(&mut self) -> Option<&mut [T]> {
        Some(self.as_slice_mut())
    }
    fn first(&self) -> Option<&T> {
        (**self).first()
    }
    fn last(&self) -> Option<&T> {
        (**self).last()
    }
    fn first_mut(&mut self) -> Option<&mut T> {
        (**self).first_mut()
    }
    fn last_mut(&mut self) -> Option<&mut T> {
        (**self).last_mut()
    }
    fn walker<'a>(&'a self) -> Box<dyn Walk<&'a T> + 'a> {
        Box::new(It::new(self.iter()).both().exact())
    }
    fn walker_mut<'a>(&'a mut self) -> Option<Box<dyn Walk<&'a mut T> + 'a>> {
        Some(Box::new(It::new(self.iter_mut()).both().exact()))
    }
    fn walker_own(self) -> Box<dyn Walk<T>> {
        let it = self.into_iter();
        let _h = InHarness::enter();
        Box::new(It::new(it).both().left(vec_left::<T, A>).peek(vec_peek::<T, A>))
    }
    fn fmt(&self) -> Option<String> {
        Some(format!("{self:?}"))
    }
}

fn dq_out<T>(it: dqi::Iter<'_, T>) -> dqi::Iter<'_, T> {
    let (b, e) = it.into_compat();
    unsafe { dqi::Iter::from_compat(b, e) }
}
fn dq_via<'a, T>(it: dqi::IterMut<'a, T>) -> dqi::Iter<'a, T> {
    if draw(2) == 1 {
        let (b, e) = it.into_compat();
        unsafe { dqi::Iter::from_compat(b, e) }
    } else {
        let (b, e) = it.into_compat_mut();
        unsafe { dqi::Iter::from_compat(b.into(), e.into()) }
    }
}
fn dq_mut<T>(it: dqi::IterMut<'_, T>) -> dqi::IterMut<'_, T> {
    let (b, e) = it.into_compat_mut();
    unsafe { dqi::IterMut::from_compat(b, e) }
}

macro_rules! deque_like {
    ($ty:ident, $name:literal, $caps:expr, { $($extra:tt)* }) => {
        impl<T: El, A: Al> Seq for $ty<'static, T, A> {
            type T = T;
            const CAPS: u32 = $caps;
            const SHAPE: Shape = Shape::Blocks(super::foreign::sub::<T>());
            const PEER: u32 = $caps & (PUSHB | PUSHF | POPB | POPF) | if $caps & PUSHF != 0 { INSERT | REMOVE | CLEAR | REVERSE } else { 0 };
            unsafe fn f_each(p: *const u8, limit: usize, f: &mut dyn FnMut(&T)) -> Walked {
                foreign::deq_each(p, limit, f)
            }
            unsafe fn f_do(p: *mut u8, owner: u32, act: Act<T>) -> Vec<T> {
                foreign::deq_do(p, owner, act)
            }
            fn f_out(&mut self, front: usize, back: usize, how: u32) -> Option<(Raw, Raw)> {
                macro_rules! go {
                    ($it:expr, $out:ident) => {{
                        let mut it = $it;
                        for _ in 0..front {
                            it.next();
                        }
                        for _ in 0..back {
                            it.next_back();
                        }
                        let (b, e) = it.$out();
                        Some((foreign::raw(&b), foreign::raw(&e)))
                    }};
                }
                match how {
                    0 => go!(self.iter(), into_compat),
                    1 => go!(self.iter_mut(), into_compat),
                    _ => go!(self.iter_mut(), into_compat_mut),
                }
            }
            unsafe fn f_span(b: Raw, e: Raw, limit: usize, f: &mut dyn FnMut(&T)) -> Walked {
                foreign::deq_span(b, e, limit, f)
            }
            fn f_in<'a>(&'a mut self, front: usize, back: usize) -> Option<Box<dyn Walk<&'a T> + 'a>> {
                let (fb, fe) = unsafe { foreign::deq_pair::<T>(self as *const Self as *const u8, front, back) };
                let (mut b, mut e) = self.iter().into_compat();
                unsafe {
                    foreign::become_(&mut b, fb);
                    foreign::become_(&mut e, fe);
                    Some(Box::new(It::new(dqi::Iter::from_compat(b, e)).both().reexport(dq_out)))
                }
            }
            const SIM: bool = A::SIM;
            fn name() -> String {
                format!(concat!($name, " of {} with the {}"), T::NAME, A::NAME)
            }
            fn c_len(&self) -> usize {
                self.len()
            }
            fn c_empty(&self) -> bool {
                self.is_empty()
            }
            fn each(&self, limit: usize, f: &mut dyn FnMut(&T)) {
                self.iter().take(limit).for_each(f)
            }
            fn from_it(it: Source<T>) -> Self {
                it.collect()
            }
            fn walker<'a>(&'a self) -> Box<dyn Walk<&'a T> + 'a> {
                Box::new(It::new(self.iter()).both().reexport(dq_out))
            }
            fn walker_mut<'a>(&'a mut self) -> Option<Box<dyn Walk<&'a mut T> + 'a>> {
                Some(Box::new(It::new(self.iter_mut()).both().reexport(dq_mut)))
            }
            fn walker_via<'a>(&'a mut self) -> Option<Box<dyn Walk<&'a T> + 'a>> {
                Some(Box::new(It::new(dq_via(self.iter_mut())).both().reexport(dq_out)))
            }
            fn walker_own(self) -> Box<dyn Walk<T>> {
                let it = self.into_iter();
                let _h = InHarness::enter();
                Box::new(It::new(it).both())
            }
            fn fmt(&self) -> Option<String> {
                Some(format!("{self:?}"))
            }
            $($extra)*
        }
    };
}
deque_like!(Deque, "Deque", PUSHB | PUSHF | POPB | POPF | REMOVE | FROMIT | CONSUME | MUTIT | RELOC | ENDS | STABLE_ENDS, {
    unsafe fn create(p: *mut Self, how: u32) {
        ptr::write(
            p,
            match how {
                0 => Deque::new(),
                1 => Deque::new_in(A::default()),
                _ => Deque::default(),
            },
        )
    }
    fn push_b(&mut self, t: T) {
        self.push_back(t)
    }
    fn push_f(&mut self, t: T) {
        self.push_front(t)
    }
    fn pop_b(&mut self) -> Option<T> {
        self.pop_back()
    }
    fn pop_f(&mut self) -> Option<T> {
        self.pop_front()
    }
    fn rem(&mut self, i: usize) -> Option<T> {
        self.remove(i)
    }
    fn first(&self) -> Option<&T> {
        self.front()
    }
    fn last(&self) -> Option<&T> {
        self.back()
    }
    fn first_mut(&mut self) -> Option<&mut T> {
        self.front_mut()
    }
    fn last_mut(&mut self) -> Option<&mut T> {
        self.back_mut()
    }
});
deque_like!(Queue, "Queue", PUSHB | POPF | FROMIT | CONSUME | MUTIT | RELOC | ENDS | STABLE_ENDS, {
    unsafe fn create(p: *mut Self, how: u32) {
        ptr::write(
            p,
            match how {
                0 | 1 => Queue::new_in(A::default()),
                _ => Queue::default(),
            },
        )
    }
    fn push_b(&mut self, t: T) {
        self.push(t)
    }
    fn pop_f(&mut self) -> Option<T> {
        self.pop()
    }
    fn first(&self) -> Option<&T> {
        self.top()
    }
});

macro_rules! list_like {
    ([$($g:tt)*], $ty:ty, $namef:expr, $pool:expr, $caps:expr, $create:expr, $ext:expr) => {
        impl<$($g)*> Seq for $ty {
            type T = T;
            const CAPS: u32 = PUSHB | PUSHF | POPB | POPF | CLEAR | MUTIT | ENDS | STABLE_NODES | $caps;
            const PEER: u32 = PUSHB | PUSHF | POPB | POPF | INSERT | REMOVE | CLEAR | REVERSE;
            unsafe fn f_each(p: *const u8, limit: usize, f: &mut dyn FnMut(&T)) -> Walked {
                foreign::list_each(p, limit, f)
            }
            unsafe fn f_do(p: *mut u8, owner: u32, act: Act<T>) -> Vec<T> {
                if $pool > 0 {
                    foreign::fixed_list_do::<T, A>(p, owner, act)
                } else {
                    foreign::list_do(p, owner, act)
                }
            }
            const SIM: bool = A::SIM;
            const POOL: usize = $pool;
            const SHAPE: Shape = Shape::Nodes;
            fn name() -> String {
                $namef
            }
            unsafe fn create(p: *mut Self, how: u32) {
                $create(p, how)
            }
            fn c_len(&self) -> usize {
                let n = self.len() as usize;
                if self.size() as usize != n {
                    violate(Class::Model, "size() and len() disagree");
                }
                n
            }
            fn c_empty(&self) -> bool {
                self.is_empty()
            }
            fn each(&self, limit: usize, f: &mut dyn FnMut(&T)) {
                self.iter().take(limit).for_each(f)
            }
            fn push_b(&mut self, t: T) {
                self.push_back(t)
            }
            fn push_f(&mut self, t: T) {
                self.push_front(t)
            }
            fn pop_b(&mut self) -> Option<T> {
                self.pop_back()
            }
            fn pop_f(&mut self) -> Option<T> {
                self.pop_front()
            }
            fn clr(&mut self) {
                self.clear()
            }
            fn ext(&mut self, it: Source<T>) {
                $ext(self, it)
            }
            fn first(&self) -> Option<&T> {
                self.front()
            }
            fn last(&self) -> Option<&T> {
                self.back()
            }
            fn first_mut(&mut self) -> Option<&mut T> {
                self.front_mut()
            }
            fn last_mut(&mut self) -> Option<&mut T> {
                self.back_mut()
            }
            fn walker<'a>(&'a self) -> Box<dyn Walk<&'a T> + 'a> {
                Box::new(It::new(self.iter()).exact())
            }
            fn walker_mut<'a>(&'a mut self) -> Option<Box<dyn Walk<&'a mut T> + 'a>> {
                Some(Box::new(It::new(self.iter_mut()).exact()))
            }
            fn fmt(&self) -> Option<String> {
                Some(format!("{self:?}"))
            }
        }
    };
}
list_like!(
    [T: El, A: Al],
    List<T, A>,
    format!("List of {} with the {}", T::NAME, A::NAME),
    0,
    EXTEND,
    |p, how| match how {
        0 => build(List::new(), p),
        _ => build(List::new_in(A::default()), p),
    },
    |s: &mut Self, it: Source<T>| {
        if !T::extend_refs(s, it.items.as_slice()) {
            s.extend(it)
        }
    }
);
list_like!(
    [T: El, const N: usize, A: Al],
    FixedList<T, N, A>,
    format!("FixedList of {} {} with the {}", N, T::NAME, A::NAME),
    N,
    EXTEND,
    |p, how| match how {
        0 => build(FixedList::new_with_default_overflow_allocator(), p),
        _ => build(FixedList::new_in(A::default()), p),
    },
    |s: &mut Self, it| s.extend(it)
);

#[cfg(feature = "nightly")]
pub mod conformant {
    //! The byte-exact pooled list, available with the crate's `nightly` feature.
    use super::*;
    use eastl_rs::fixed_list::conformant::FixedList as CFixedList;
    macro_rules! conf {
        ($($name:ident, $t:ident, $n:literal, $a:ident;)*) => { $(
            pub type $name = CFixedList<$t, $n, $a>;
            impl Seq for $name {
                type T = $t;
                const CAPS: u32 = PUSHB | PUSHF | POPB | POPF | CLEAR | MUTIT | ENDS | STABLE_NODES;
                const PEER: u32 = PUSHB | PUSHF | POPB | POPF | INSERT | REMOVE | CLEAR | REVERSE;
                unsafe fn f_each(p: *const u8, limit: usize, f: &mut dyn FnMut(&$t)) -> Walked {
                    foreign::list_each(p, limit, f)
                }
                unsafe fn f_do(p: *mut u8, owner: u32, act: Act<$t>) -> Vec<$t> {
                    foreign::fixed_list_do::<$t, $a>(p, owner, act)
                }
                const SIM: bool = <$a as Al>::SIM;
                const POOL: usize = $n;
                const SHAPE: Shape = Shape::Nodes;
                fn name() -> String {
                    format!("conformant FixedList of {} {} with the {}", $n, <$t as El>::NAME, <$a as Al>::NAME)
                }
                unsafe fn create(p: *mut Self, how: u32) {
                    match how {
                        0 => build($name::new_with_default_overflow_allocator(), p),
                        _ => build($name::new_in(<$a>::default()), p),
                    }
                }
                fn c_len(&self) -> usize {
                    self.len()
                }
                fn c_empty(&self) -> bool {
                    self.is_empty()
                }
                fn each(&self, limit: usize, f: &mut dyn FnMut(&$t)) {
                    self.iter().take(limit).for_each(f)
                }
                fn push_b(&mut self, t: $t) {
                    self.push_back(t)
                }
                fn push_f(&mut self, t: $t) {
                    self.push_front(t)
                }
                fn pop_b(&mut self) -> Option<$t> {
                    self.pop_back()
                }
                fn pop_f(&mut self) -> Option<$t> {
                    self.pop_front()
                }
                fn clr(&mut self) {
                    self.clear()
                }
                fn first(&self) -> Option<&$t> {
                    self.front()
                }
                fn last(&self) -> Option<&$t> {
                    self.back()
                }
                fn first_mut(&mut self) -> Option<&mut $t> {
                    self.front_mut()
                }
                fn last_mut(&mut self) -> Option<&mut $t> {
                    self.back_mut()
                }
                fn walker<'a>(&'a self) -> Box<dyn Walk<&'a $t> + 'a> {
                    Box::new(It::new(self.iter()).exact())
                }
                fn walker_mut<'a>(&'a mut self) -> Option<Box<dyn Walk<&'a mut $t> + 'a>> {
                    Some(Box::new(It::new(self.iter_mut()).exact()))
                }
                fn fmt(&self) -> Option<String> {
                    Some(format!("{self:?}"))
                }
            }
        )* };
    }
    use eastl_rs::DefaultAllocator;
    conf! {
        C4x1, T4, 1, SimAlloc;
        C24x3, T24, 3, SimAlloc;
        C8x4, T8, 4, SimAlloc;
        C32x2, T32, 2, SimAlloc;
        C12x5, T12, 5, DefaultAllocator;
        C64x2, T64, 2, SimAlloc;
    }
}

pub struct Copied<T, A: Allocator>(Vector<T, A>);
pub fn copied<T: El, A: Allocator + Clone + 'static>(v: &Vector<T, A>) -> Box<dyn Side<T>> {
    let v = v.clone();
    let _h = InHarness::enter();
    Box::new(Copied(v))
}
impl<T: El, A: Allocator + Clone + 'static> Side<T> for Copied<T, A> {
    fn items(&self) -> &[T] {
        self.0.as_slice()
    }
    fn cap(&self) -> usize {
        self.0.capacity()
    }
    fn push(&mut self, t: T) {
        self.0.push(t)
    }
    fn pop(&mut self) -> Option<T> {
        self.0.pop()
    }
    fn append(&mut self, s: &[T]) {
        self.0.append(s)
    }
    fn clear(&mut self) {
        self.0.clear()
    }
    fn copy(&self) -> Option<Box<dyn Side<T>>> {
        Some(copied(&self.0))
    }
}

impl<T: El, const N: usize, A: Al> Seq for FixedVector<T, N, A> {
    type T = T;
    const CAPS: u32 = PUSHB | POPB | INSERT | REMOVE | RESERVE | APPEND | ASSIGN | CLEAR | MUTIT | RELOC | SLICE | ENDS | COPYOUT;
    const PEER: u32 = PUSHB | POPB | INSERT | REMOVE | CLEAR | RESERVE | REVERSE;
    unsafe fn f_each(p: *const u8, _limit: usize, f: &mut dyn FnMut(&T)) -> Walked {
        foreign::vec_each(p, f)
    }
    unsafe fn f_do(p: *mut u8, owner: u32, act: Act<T>) -> Vec<T> {
        foreign::fixed_vec_do::<T, A>(p, owner, N, act)
    }
    const SIM: bool = A::SIM;
    const INLINE: usize = N;
    fn copy_out(&self) -> Option<Box<dyn Side<T>>> {
        A::copy_fixed(self)
    }
    fn name() -> String {
        format!("FixedVector of {} {} with the {}", N, T::NAME, A::NAME)
    }
    unsafe fn create(p: *mut Self, how: u32) {
        match how {
            0 => build(FixedVector::new(), p),
            _ => build(FixedVector::new_in(A::default()), p),
        }
    }
    fn c_len(&self) -> usize {
        if self.max_size() != N {
            violate(Class::Model, format!("max_size() is {}, should be {N}", self.max_size()));
        }
        self.len()
    }
    fn c_empty(&self) -> bool {
        self.is_empty()
    }
    fn each(&self, limit: usize, f: &mut dyn FnMut(&T)) {
        self.as_slice().iter().take(limit).for_each(f)
    }
    fn cap(&self) -> Option<(usize, bool)> {
        Some((self.capacity(), self.is_full()))
    }
    fn overflowed(&self) -> Option<bool> {
        Some(self.has_overflowed())
    }
    fn push_b(&mut self, t: T) {
        self.push(t)
    }
    fn pop_b(&mut self) -> Option<T> {
        self.pop()
    }
    fn ins(&mut self, i: usize, t: T) {
        self.insert(i, t)
    }
    fn rem(&mut self, i: usize) -> Option<T> {
        self.remove(i)
    }
    fn res(&mut self, n: usize) {
        self.reserve(n)
    }
    fn app(&mut self, s: &[T]) {
        self.append(s)
    }
    fn asg(&mut self, s: &[T]) {
        self.assign(s)
    }
    fn clr(&mut self) {
        self.clear()
    }
    fn slice(&self) -> Option<&[T]> {
        Some(self.as_ref())
    }
    fn slice_mut(&mut self) -> Option<&mut [T]> {
        Some(self.as_slice_mut())
    }
    fn first(&self) -> Option<&T> {
        self.as_slice().first()
    }
    fn last(&self) -> Option<&T> {
        self.as_slice().last()
    }
    fn first_mut(&mut self) -> Option<&mut T> {
        self.as_slice_mut().first_mut()
    }
    fn last_mut(&mut self) -> Option<&mut T> {
        self.as_slice_mut().last_mut()
    }
    fn walker<'a>(&'a self) -> Box<dyn Walk<&'a T> + 'a> {
        Box::new(It::new(self.as_slice().iter()).both().exact())
    }
    fn walker_mut<'a>(&'a mut self) -> Option<Box<dyn Walk<&'a mut T> + 'a>> {
        Some(Box::new(It::new(self.as_slice_mut().iter_mut()).both().exact()))
    }
    fn fmt(&self) -> Option<String> {
        Some(format!("{self:?}"))
    }
    unsafe fn relocate(src: *mut Self, dst: *mut Self) {
        let flag = moveit::drop_flag::QuietFlag::new();
        MoveNew::move_new(
            Pin::new_unchecked(MoveRef::new_unchecked(&mut *src, flag.flag())),
            Pin::new_unchecked(&mut *(dst as *mut MaybeUninit<Self>)),
        );
    }
}
