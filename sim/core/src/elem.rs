//! Element types. Tracked ones carry an identity recorded in a ledger, so that every copy, use and
//! release of each is seen; plain ones are ordinary integers.
use crate::ctx::*;
use crate::heap;
use crate::alloc::{handles, Al, SimAlloc};
use eastl_rs::string::String as EString;
use eastl_rs::vector::Vector;
use eastl_rs::list::List;
use eastl_rs::hash::{DefaultHash, Hash};
use std::cmp::Ordering;
use std::fmt;

pub struct Rec {
    pub val: u32,
    pub live: bool,
    pub tag: u32,
}
pub struct Ledger {
    pub recs: Vec<Rec>,
    pub live: usize,
    pub by_tag: Vec<isize>,
    pub tag: u32,
    pub hash_mode: u32,
}
pub static mut LEDGER: Ledger = Ledger { recs: Vec::new(), live: 0, by_tag: Vec::new(), tag: 0, hash_mode: 0 };
pub fn led() -> &'static mut Ledger {
    unsafe { &mut *std::ptr::addr_of_mut!(LEDGER) }
}
pub fn reset_ledger() {
    let l = led();
    l.recs.clear();
    l.live = 0;
    l.by_tag.clear();
    l.by_tag.resize(16, 0);
    l.tag = 0;
    l.hash_mode = 0;
}
const SER: u32 = 0xE100_0000;

fn new_rec(val: u32) -> u32 {
    let _h = InHarness::enter();
    let l = led();
    let i = l.recs.len();
    if i >= 1 << 24 {
        unsafe { (*cx().shared).status = 4 };
        exit_now(4);
    }
    l.recs.push(Rec { val, live: true, tag: l.tag });
    l.live += 1;
    l.by_tag[l.tag as usize] += 1;
    SER | i as u32
}

/// Elements a container can hold.
pub trait El: Clone + PartialEq + PartialOrd + fmt::Debug + Send + Sync + 'static {
    const TRACKED: bool;
    const NAME: &'static str;
    const MAXVAL: u32;
    /// Owns simulated memory, which makes histories with many of them slow.
    const HEAVY: bool = false;
    fn make(val: u32) -> Self;
    /// Identity: unique per object for tracked elements, the value otherwise.
    fn id(&self) -> u32;
    fn val(&self) -> u32;
    /// Changes the value in place.
    fn set(&mut self, val: u32);
    /// Extends a list from references; elements that can be copied bit by bit only.
    fn extend_refs<A: Al>(_l: &mut List<Self, A>, _s: &[Self]) -> bool {
        false
    }
}

fn where_ok(addr: usize, size: usize, align: usize) -> Result<(), String> {
    if addr % align != 0 {
        return Err("misaligned".into());
    }
    if heap::in_arena(addr) && !cx().heap.held(addr, size) {
        return Err(format!("located in memory that nobody holds ({})", heap::show(addr)));
    }
    Ok(())
}

pub fn checked_serial(addr: usize, size: usize, align: usize, use_: &str) -> u32 {
    let _h = InHarness::enter();
    if addr < 65536 {
        violate(Class::ElemUse, format!("{use_} of an element at address {}", heap::show(addr)));
    }
    if let Err(w) = where_ok(addr, size, align) {
        violate(if w == "misaligned" { Class::Misaligned } else { Class::ElemUse }, format!("{use_} of an element {w}"));
    }
    unsafe {
        let s = *(addr as *const u32);
        let l = led();
        let i = (s & 0x00FF_FFFF) as usize;
        if s & 0xFF00_0000 != SER || i >= l.recs.len() {
            violate(Class::ElemUse, format!("{use_} of memory that holds no element (first word {s:#010x})"));
            return SER;
        }
        let mut k = 4;
        while k < size {
            if *((addr + k) as *const u32) != s.rotate_left(k as u32) ^ 0x5A5A_0000 {
                violate(Class::ElemUse, format!("{use_} of a torn element (#{i}, word {})", k / 4));
            }
            // of large elements the beginning, the end and some words between them are looked at
            k = if k < 64 || k + 16 >= size { k + 4 } else { (k + (size / 32).max(4) / 4 * 4).min(size - 16) };
        }
        if !l.recs[i].live {
            violate(Class::ElemUse, format!("{use_} of element #{i} (value {}) after its release", l.recs[i].val));
        }
        s
    }
}

fn drop_rec(addr: usize, size: usize, align: usize) {
    {
        let _h = InHarness::enter();
        let use_ = {
            let s = unsafe { *(addr as *const u32) };
            let i = (s & 0x00FF_FFFF) as usize;
            let l = led();
            if s & 0xFF00_0000 == SER && i < l.recs.len() && !l.recs[i].live {
                "second release"
            } else {
                "release"
            }
        };
        let s = checked_serial(addr, size, align, use_);
        let i = (s & 0x00FF_FFFF) as usize;
        let l = led();
        l.recs[i].live = false;
        l.live -= 1;
        let t = l.recs[i].tag as usize;
        l.by_tag[t] -= 1;
    }
    let c = cx();
    c.st.ticks += 1;
    if c.threads && !std::thread::panicking() {
        crate::sched::yield_point(2);
    }
    if fault(FK::Drop) {
        throw(FK::Drop)
    }
}

pub fn hash_val(v: u32) -> usize {
    match led().hash_mode {
        0 => v as usize,
        1 => (v % 4) as usize,
        2 => 0x7,
        3 => (v as usize) << 40,
        4 => mix(v as u64, 77) as usize,
        _ => usize::MAX - (v as usize % 3),
    }
}

macro_rules! tracked {
    ($($name:ident $al:literal $words:literal $label:literal;)*) => { $(
        #[repr(C, align($al))]
        pub struct $name([u32; $words]);
        impl $name {
            fn with(s: u32) -> Self {
                let mut w = [0u32; $words];
                w[0] = s;
                let mut k = 1;
                while k < $words {
                    w[k] = s.rotate_left(4 * k as u32) ^ 0x5A5A_0000;
                    k += 1;
                }
                $name(w)
            }
            fn serial(&self, u: &str) -> u32 {
                checked_serial(self as *const _ as usize, 4 * $words, $al, u)
            }
        }
        impl El for $name {
            const TRACKED: bool = true;
            const NAME: &'static str = $label;
            const MAXVAL: u32 = u32::MAX;
            fn make(val: u32) -> Self {
                Self::with(new_rec(val))
            }
            fn id(&self) -> u32 {
                self.serial("use") & 0x00FF_FFFF
            }
            fn val(&self) -> u32 {
                let i = self.id();
                led().recs[i as usize].val
            }
            fn set(&mut self, val: u32) {
                let i = self.id();
                led().recs[i as usize].val = val;
            }
        }
        impl Clone for $name {
            fn clone(&self) -> Self {
                let s = self.serial("copy");
                seam(FK::Clone);
                let v = led().recs[(s & 0x00FF_FFFF) as usize].val;
                Self::make(v)
            }
        }
        impl Drop for $name {
            fn drop(&mut self) {
                drop_rec(self as *const _ as usize, 4 * $words, $al)
            }
        }
        impl PartialEq for $name {
            fn eq(&self, o: &Self) -> bool {
                let (a, b) = (self.val(), o.val());
                seam(FK::Eq);
                told_eq(a == b)
            }
        }
        impl PartialOrd for $name {
            fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
                let (a, b) = (self.val(), o.val());
                seam(FK::Cmp);
                told_cmp(a.partial_cmp(&b))
            }
        }
        impl fmt::Debug for $name {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                let a = self.val();
                seam(FK::Fmt);
                write!(f, "{a}")
            }
        }
        impl Hash<$name> for DefaultHash<$name> {
            fn hash(v: &$name) -> usize {
                let a = v.val();
                seam(FK::Hash);
                told_hash(hash_val(a))
            }
        }
    )* };
}
tracked! {
    T4 4 1 "4-byte owned";
    T8 4 2 "8-byte owned";
    T12 4 3 "12-byte owned";
    T16 8 4 "16-byte owned";
    T24 8 6 "24-byte owned";
    T32 16 8 "32-byte owned, 16-aligned";
    T40 8 10 "40-byte owned";
    T64 4 16 "64-byte owned";
    T136 8 34 "136-byte owned";
    T1032 8 258 "1032-byte owned";
    T4104 8 1026 "4104-byte owned";
}
macro_rules! plain {
    ($($t:ident $label:literal;)*) => { $(
        impl El for $t {
            const TRACKED: bool = false;
            const NAME: &'static str = $label;
            const MAXVAL: u32 = $t::MAX as u32;
            fn make(val: u32) -> Self {
                val as $t
            }
            fn id(&self) -> u32 {
                let a = self as *const _ as usize;
                if let Err(w) = where_ok(a, std::mem::size_of::<$t>(), std::mem::align_of::<$t>()) {
                    violate(if w == "misaligned" { Class::Misaligned } else { Class::ElemUse }, format!("use of an element {w}"));
                }
                *self as u32
            }
            fn val(&self) -> u32 {
                self.id()
            }
            fn extend_refs<A: Al>(l: &mut List<Self, A>, s: &[Self]) -> bool {
                l.extend(s.iter());
                true
            }
            fn set(&mut self, val: u32) {
                self.id();
                *self = val as $t
            }
        }
    )* };
}
plain! {
    u8 "u8";
    u16 "u16";
    u32 "u32";
}

/// Keys of the other types the crate can hash: the value is held in the given form.
macro_rules! keyed {
    ($($t:ty, $label:literal, $max:expr, |$v:ident| $to:expr, |$x:ident| $from:expr;)*) => { $(
        impl El for $t {
            const TRACKED: bool = false;
            const NAME: &'static str = $label;
            const MAXVAL: u32 = $max;
            fn make($v: u32) -> Self {
                $to
            }
            fn id(&self) -> u32 {
                let a = self as *const _ as usize;
                if let Err(w) = where_ok(a, std::mem::size_of::<$t>(), std::mem::align_of::<$t>()) {
                    violate(if w == "misaligned" { Class::Misaligned } else { Class::ElemUse }, format!("use of an element {w}"));
                }
                let $x = *self;
                $from
            }
            fn val(&self) -> u32 {
                self.id()
            }
            fn extend_refs<A: Al>(l: &mut List<Self, A>, s: &[Self]) -> bool {
                l.extend(s.iter());
                true
            }
            fn set(&mut self, val: u32) {
                self.id();
                *self = Self::make(val)
            }
        }
    )* };
}
fn sign() -> bool {
    draw(2) == 1
}
/// Zero has two equal forms.
fn zero64() -> f64 {
    if sign() {
        -0.0
    } else {
        0.0
    }
}
/// Two copies of every short text, at different addresses.
fn word(v: u32, second: bool) -> &'static str {
    static mut WORDS: [[Option<&'static str>; 2]; 256] = [[None; 2]; 256];
    let _h = InHarness::enter();
    unsafe {
        let w = &mut *std::ptr::addr_of_mut!(WORDS);
        w[v as usize][second as usize].get_or_insert_with(|| Box::leak(v.to_string().into_boxed_str()))
    }
}
keyed! {
    i8, "i8", 128, |v| (v as i32).wrapping_neg() as i8, |x| (x as i32).unsigned_abs();
    i16, "i16", 32768, |v| (v as i32).wrapping_neg() as i16, |x| (x as i32).unsigned_abs();
    i32, "i32", 0x7FFF_FFFF, |v| (v as i32).wrapping_neg(), |x| x.unsigned_abs();
    i64, "i64", u32::MAX, |v| (v as i64).wrapping_neg(), |x| x.unsigned_abs() as u32;
    isize, "isize", u32::MAX, |v| (v as isize).wrapping_neg(), |x| x.unsigned_abs() as u32;
    u64, "u64", u32::MAX, |v| v as u64, |x| x as u32;
    usize, "usize", u32::MAX, |v| v as usize, |x| x as u32;
    f32, "f32", 1 << 23, |v| if v == 0 { zero64() as f32 } else { -(v as f32) }, |x| x.abs() as u32;
    f64, "f64", u32::MAX, |v| if v == 0 { zero64() } else { v as f64 }, |x| x as u32;
    bool, "bool", 1, |v| v != 0, |x| x as u32;
    &'static str, "&str", 255, |v| word(v, sign()), |x| x.parse().unwrap_or(u32::MAX);
}

/// Elements that are containers of the crate themselves and own memory of the simulation.
pub struct Text(EString<SimAlloc>);
pub struct Row(Vector<u16, SimAlloc>);
impl Text {
    fn read(&self) -> u32 {
        self.0.as_str().parse().unwrap_or_else(|_| {
            violate(Class::ElemUse, "use of a text that does not hold what was put into it");
            u32::MAX
        })
    }
    fn write(&mut self, v: u32) {
        self.0.assign(v.to_string());
    }
    fn blank() -> Self {
        Text(EString::new())
    }
}
impl Row {
    fn read(&self) -> u32 {
        match self.0.as_slice() {
            [a, b] => *a as u32 | (*b as u32) << 16,
            _ => {
                violate(Class::ElemUse, "use of a row that does not hold what was put into it");
                u32::MAX
            }
        }
    }
    fn write(&mut self, v: u32) {
        self.0.clear();
        self.0.push(v as u16);
        self.0.push((v >> 16) as u16);
    }
    fn blank() -> Self {
        Row(Vector::new())
    }
}
macro_rules! nested {
    ($($t:ident $label:literal |$a:ident| $hash:expr;)*) => { $(
        impl El for $t {
            const TRACKED: bool = false;
            const NAME: &'static str = $label;
            const MAXVAL: u32 = u32::MAX;
            const HEAVY: bool = true;
            fn make(val: u32) -> Self {
                let _h = InHarness::enter();
                handles().making_inner = true;
                let mut t = Self::blank();
                t.write(val);
                t
            }
            fn id(&self) -> u32 {
                let _h = InHarness::enter();
                let a = self as *const _ as usize;
                if let Err(w) = where_ok(a, std::mem::size_of::<$t>(), std::mem::align_of::<$t>()) {
                    violate(if w == "misaligned" { Class::Misaligned } else { Class::ElemUse }, format!("use of an element {w}"));
                }
                self.read()
            }
            fn val(&self) -> u32 {
                self.id()
            }
            fn set(&mut self, val: u32) {
                let _h = InHarness::enter();
                self.id();
                self.write(val)
            }
        }
        impl Clone for $t {
            fn clone(&self) -> Self {
                self.id();
                seam(FK::Clone);
                let _h = InHarness::enter();
                handles().making_inner = true;
                $t(self.0.clone())
            }
        }
        impl PartialEq for $t {
            fn eq(&self, o: &Self) -> bool {
                let (a, b) = (self.val(), o.val());
                seam(FK::Eq);
                a == b
            }
        }
        impl PartialOrd for $t {
            fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
                let (a, b) = (self.val(), o.val());
                seam(FK::Cmp);
                a.partial_cmp(&b)
            }
        }
        impl fmt::Debug for $t {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                let a = self.val();
                seam(FK::Fmt);
                write!(f, "{a}")
            }
        }
        impl Hash<$t> for DefaultHash<$t> {
            fn hash($a: &$t) -> usize {
                $a.id();
                seam(FK::Hash);
                $hash
            }
        }
    )* };
}
nested! {
    Text "text" |a| DefaultHash::hash(&a.0);
    Row "row" |a| hash_val(a.val());
}

/// Expected live elements, per world tag.
pub fn live_now(tag: u32) -> isize {
    led().by_tag[tag as usize]
}
