//! The simulated memory: an arena at a fixed address whose every placement decision is a simulator
//! choice. Blocks lie between guard zones (or against unmapped pages), come back dirty, are reused
//! in a chosen order (also at chosen addresses inside memory the harness vacated), and are watched
//! after release.
use crate::ctx::*;
use crate::sys::*;
use std::collections::BTreeMap;

pub const BASE_A: usize = 0x2000_0000_0000;
pub const SIZE_A: usize = 1 << 28;
pub const BASE_B: usize = 0x2100_0000_0000;
pub const SIZE_B: usize = 1 << 28;
pub const BASE_G: usize = 0x2200_0000_0000;
pub const SIZE_G: usize = 1 << 30;
const ARENAS: [(usize, usize); 3] = [(BASE_A, SIZE_A), (BASE_B, SIZE_B), (BASE_G, SIZE_G)];
const BITS: usize = 0x2400_0000_0000;
const PAGE: usize = 4096;
const ZONE: usize = 32;
const ZB: u8 = 0xFB;
const GONE: u8 = 0xDD;
pub const MAX_GUARDED: usize = 6000;

pub const HARNESS: u32 = 0;
pub const GLOBAL: u32 = 1;
pub const FIRST_HANDLE: u32 = 16;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Policy {
    Bump,
    Lifo,
    Mixed,
    GuardAfter,
    GuardBefore,
}

pub struct Block {
    pub size: usize,
    pub align: usize,
    pub owner: u32,
    pub extent: usize,
    pub pages: usize, // guard mode: mapped bytes, 0 otherwise
    pub seq: u32,
}
struct Freed {
    size: usize,
    extent: usize,
    hash: u64,
    pages: usize,
}

pub struct Heap {
    ready: bool,
    /// One bit per byte of the arenas that is inside a held block.
    bits: [*mut u64; 3],
    pub live: BTreeMap<usize, Block>,
    /// Blocks and bytes each owner holds.
    usage: Vec<(usize, usize)>,
    freed: BTreeMap<usize, Freed>,
    lifo: Vec<usize>,
    bump: usize,
    high: usize,
    bump_b: usize,
    gbump: usize,
    guarded: usize,
    pub frozen: bool,
    pub policy: Policy,
    pub fill: u8,
    pub stale: bool,
    pub odd: bool,
    pub hints: Vec<usize>,
    pub seq: u32,
    ticks: u32,
}

fn hash_bytes(p: usize, n: usize) -> u64 {
    let mut h = 0x1234_5678_9ABC_DEF1u64;
    unsafe {
        let w = n / 8;
        for i in 0..w {
            let v = std::ptr::read_unaligned((p as *const u64).add(i));
            h = (h ^ v).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(29);
        }
        for i in w * 8..n {
            h = (h ^ *((p + i) as *const u8) as u64).wrapping_mul(0x100_0000_01b3);
        }
    }
    h
}

/// Prints an address without anything that differs between executions.
pub fn show(a: usize) -> String {
    if a < 65536 {
        format!("null+{a}")
    } else if (BASE_A..BASE_A + SIZE_A).contains(&a) {
        format!("heap+{:#x}", a - BASE_A)
    } else if (BASE_B..BASE_B + SIZE_B).contains(&a) {
        format!("side+{:#x}", a - BASE_B)
    } else if (BASE_G..BASE_G + SIZE_G).contains(&a) {
        format!("paged+{:#x}", a - BASE_G)
    } else {
        "outside the simulated memory".to_string()
    }
}
pub fn in_arena(a: usize) -> bool {
    (BASE_A..BASE_A + SIZE_A).contains(&a) || (BASE_B..BASE_B + SIZE_B).contains(&a) || (BASE_G..BASE_G + SIZE_G).contains(&a)
}

impl Heap {
    pub fn new() -> Self {
        Heap {
            ready: false,
            bits: [std::ptr::null_mut(); 3],
            live: BTreeMap::new(),
            usage: Vec::new(),
            freed: BTreeMap::new(),
            lifo: Vec::new(),
            bump: BASE_A,
            high: BASE_A,
            bump_b: BASE_B,
            gbump: BASE_G,
            guarded: 0,
            frozen: false,
            policy: Policy::Bump,
            fill: 0,
            stale: false,
            odd: false,
            hints: Vec::new(),
            seq: 0,
            ticks: 0,
        }
    }

    fn map(base: usize, size: usize, prot: i32) {
        unsafe {
            let p = mmap(base as *mut u8, size, prot, MAP_PRIVATE | MAP_ANON | MAP_NORESERVE | MAP_FIXED, -1, 0);
            if p as usize != base {
                eprintln!("cannot map the simulated memory");
                exit_now(70);
            }
        }
    }

    pub fn reset(&mut self) {
        if !self.ready {
            Self::map(BASE_A, SIZE_A, PROT_READ | PROT_WRITE);
            Self::map(BASE_B, SIZE_B, PROT_READ | PROT_WRITE);
            Self::map(BASE_G, SIZE_G, PROT_NONE);
            for (k, (base, size)) in ARENAS.iter().enumerate() {
                let at = BITS + (base - BASE_A) / 8;
                Self::map(at, size / 8, PROT_READ | PROT_WRITE);
                self.bits[k] = at as *mut u64;
            }
            self.ready = true;
        }
        if self.frozen {
            self.thaw();
        }
        if self.high > BASE_A + (8 << 20) {
            unsafe {
                madvise(BASE_A as *mut u8, self.high - BASE_A, MADV_DONTNEED);
            }
            self.high = BASE_A;
        }
        if self.bump_b > BASE_B + (8 << 20) {
            unsafe {
                madvise(BASE_B as *mut u8, self.bump_b - BASE_B, MADV_DONTNEED);
            }
        }
        if self.gbump > BASE_G {
            Self::map(BASE_G, self.gbump - BASE_G, PROT_NONE);
        }
        for (a, b) in std::mem::take(&mut self.live) {
            self.mark(a, b.size, false);
        }
        self.usage.clear();
        self.freed.clear();
        self.lifo.clear();
        self.bump = BASE_A;
        self.bump_b = BASE_B;
        self.gbump = BASE_G;
        self.guarded = 0;
        self.policy = Policy::Bump;
        self.fill = 0;
        self.stale = false;
        self.odd = false;
        self.hints.clear();
        self.seq = 0;
        self.ticks = 0;
    }

    /// Draws this run's memory behaviour.
    pub fn configure(&mut self, allow_guard: bool) {
        self.policy = [Policy::Bump, Policy::Lifo, Policy::Mixed, Policy::Mixed, Policy::Lifo, Policy::Mixed, Policy::GuardAfter, Policy::GuardBefore]
            [draw(if allow_guard { 8 } else { 6 }) as usize];
        self.fill = draw(4) as u8;
        self.stale = draw(2) == 1;
        self.odd = draw(2) == 1;
        trace!("memory: placement {:?}, fill {}, {} after release, {} alignment", self.policy, self.fill,
            if self.stale { "contents kept" } else { "overwritten" }, if self.odd { "exact" } else { "any" });
    }

    fn pick_reuse(&mut self, size: usize, align: usize, oldest: bool) -> Option<usize> {
        let n = self.lifo.len();
        for k in 0..n.min(24) {
            let i = if oldest { k } else { n - 1 - k };
            let a = self.lifo[i];
            let f = match self.freed.get(&a) {
                Some(f) => f,
                None => continue,
            };
            if f.pages == 0 && f.extent >= size && a % align == 0 {
                self.lifo.remove(i);
                return Some(a);
            }
        }
        None
    }

    fn take_freed(&mut self, a: usize) -> Freed {
        let f = self.freed.remove(&a).unwrap();
        if hash_bytes(a, f.size) != f.hash {
            violate(Class::Oob, format!("released block {} of {} bytes was written to after its release", show(a), f.size));
        }
        f
    }

    fn pick_hint(&mut self, size: usize, align: usize) -> Option<(usize, usize)> {
        if self.hints.is_empty() {
            return None;
        }
        let h = self.hints[draw(self.hints.len() as u32) as usize];
        if h % align != 0 {
            return None;
        }
        let (a, ext, pages) = match self.freed.range(..=h).next_back() {
            Some((a, f)) => (*a, f.extent, f.pages),
            None => return None,
        };
        if pages != 0 || h + size > a + ext {
            return None;
        }
        self.take_freed(a);
        Some((h, a + ext - h))
    }

    fn write_zones(&self, a: usize, size: usize) {
        unsafe {
            std::ptr::write_bytes((a - ZONE) as *mut u8, ZB, ZONE);
            std::ptr::write_bytes((a + size) as *mut u8, ZB, ZONE);
        }
    }

    fn fill_body(&self, a: usize, size: usize) {
        let b = match self.fill {
            0 => 0u8,
            1 => 0xA5,
            2 => 0xFF,
            _ => {
                let mut x = mix(self.seq as u64, 0x5EED);
                for i in 0..size {
                    x ^= x << 13;
                    x ^= x >> 7;
                    x ^= x << 17;
                    unsafe { *((a + i) as *mut u8) = (x >> 24) as u8 };
                }
                return;
            }
        };
        unsafe { std::ptr::write_bytes(a as *mut u8, b, size) };
    }

    /// Grants a block. `tail` is room past the block that becomes usable for placements once the
    /// block is released (harness blocks only).
    pub fn alloc(&mut self, size: usize, align: usize, owner: u32, tail: usize) -> usize {
        let c = cx();
        self.seq += 1;
        c.st.allocs += 1;
        let seq = self.seq;
        let align = align.max(1);
        if self.frozen {
            let a = (self.bump_b + ZONE + align - 1) / align * align;
            self.bump_b = a + size + ZONE;
            if self.bump_b > BASE_B + SIZE_B {
                self.full();
            }
            self.fill_body(a, size);
            self.write_zones(a, size);
            self.grant(a, Block { size, align, owner, extent: size, pages: 0, seq });
            return a;
        }
        let guard = matches!(self.policy, Policy::GuardAfter | Policy::GuardBefore) && self.guarded < MAX_GUARDED && !c.quiet_place;
        if guard {
            let body = (size + PAGE - 1) / PAGE * PAGE;
            let start = self.gbump + PAGE;
            if start + body + PAGE <= BASE_G + SIZE_G {
                self.gbump = start + body + PAGE;
                self.guarded += 1;
                c.st.guards += 1;
                unsafe { mprotect(start as *mut u8, body, PROT_READ | PROT_WRITE) };
                let a = if self.policy == Policy::GuardAfter { (start + body - size) / align * align } else { start };
                unsafe { std::ptr::write_bytes(start as *mut u8, ZB, body) };
                self.fill_body(a, size);
                self.grant(a, Block { size, align, owner, extent: size, pages: body, seq });
                return a;
            }
        }
        let how = if c.quiet_place {
            1
        } else {
            match self.policy {
                Policy::Lifo => 1,
                Policy::Mixed => draw(4),
                _ => 0,
            }
        };
        let got = match how {
            1 => self.pick_reuse(size, align, false).map(|a| (a, 0)),
            3 => self.pick_reuse(size, align, true).map(|a| (a, 0)),
            2 => match self.pick_hint(size, align) {
                Some(x) => {
                    c.st.hints += 1;
                    Some(x)
                }
                None => self.pick_reuse(size, align, false).map(|a| (a, 0)),
            },
            _ => None,
        };
        let (a, extent) = match got {
            Some((a, 0)) => {
                let f = self.take_freed(a);
                c.st.reuses += 1;
                if !self.stale {
                    self.fill_body(a, size);
                }
                (a, f.extent)
            }
            Some((a, ext)) => {
                if !self.stale {
                    self.fill_body(a, size);
                }
                (a, ext)
            }
            None => {
                let mut a = (self.bump + ZONE + align - 1) / align * align;
                if self.odd && align < 4096 && a % (2 * align) == 0 {
                    a += align;
                }
                let ext = size + tail;
                self.bump = a + ext + ZONE;
                self.high = self.high.max(self.bump);
                if self.bump > BASE_A + SIZE_A {
                    self.full();
                }
                self.fill_body(a, size);
                (a, ext)
            }
        };
        self.write_zones(a, size);
        self.grant(a, Block { size, align, owner, extent, pages: 0, seq });
        a
    }

    fn full(&self) -> ! {
        // a run this large is outside what the simulator supports; never a verdict
        unsafe { (*cx().shared).status = 4 };
        exit_now(4)
    }

    fn zone_bad(a: usize, b: &Block) -> Option<isize> {
        let (lo, hi) = if b.pages != 0 {
            let s = a / PAGE * PAGE;
            (s, s + b.pages)
        } else {
            (a - ZONE, a + b.size + ZONE)
        };
        unsafe {
            for i in (lo.max(a.saturating_sub(ZONE))..a).rev() {
                if *(i as *const u8) != ZB {
                    return Some(i as isize - a as isize);
                }
            }
            for i in a + b.size..hi.min(a + b.size + ZONE) {
                if *(i as *const u8) != ZB {
                    return Some(i as isize - a as isize);
                }
            }
        }
        None
    }

    fn check_zone(&self, a: usize) {
        if let Some(b) = self.live.get(&a) {
            if let Some(off) = Self::zone_bad(a, b) {
                let what = if b.owner == HARNESS { "container object" } else { "block" };
                violate(Class::Oob, format!("write outside {} of {} bytes, at byte {}", what, b.size, off));
            }
        }
    }

    /// Takes a block back.
    pub fn free(&mut self, a: usize, size: usize, align: usize, owner: u32) {
        let (bsize, balign, bowner) = match self.live.get(&a) {
            Some(b) => (b.size, b.align, b.owner),
            None => {
                let why = if self.freed.contains_key(&a) {
                    "released a second time".to_string()
                } else if a == 0 {
                    "null was released".to_string()
                } else {
                    match self.live.range(..=a).next_back() {
                        Some((s, b)) if a < s + b.size => format!("released at byte {} inside a block", a - s),
                        _ => "released without having been requested".to_string(),
                    }
                };
                violate(Class::Proto, format!("block {}", why));
                return;
            }
        };
        if bowner == HARNESS && owner != HARNESS {
            violate(Class::Proto, "memory of the container itself was released to an allocator".to_string());
            return;
        }
        if bowner != owner {
            violate(Class::Proto, format!("block of {} bytes released to a different allocator", bsize));
        } else if bsize != size {
            violate(Class::Proto, format!("block of {} bytes released with size {}", bsize, size));
        } else if balign != align {
            violate(Class::Proto, format!("block of alignment {} released with alignment {}", balign, align));
        }
        self.check_zone(a);
        let b = self.live.remove(&a).unwrap();
        self.mark(a, b.size, false);
        let u = &mut self.usage[b.owner as usize];
        *u = (u.0 - 1, u.1 - b.size);
        if b.pages != 0 {
            unsafe { mprotect((a / PAGE * PAGE) as *mut u8, b.pages, PROT_NONE) };
            self.freed.insert(a, Freed { size: 0, extent: 0, hash: hash_bytes(a, 0), pages: b.pages });
            return;
        }
        if a >= BASE_B && a < BASE_B + SIZE_B {
            return;
        }
        if self.frozen {
            // the block belongs to the write-protected side; releasing it is a write by a reader
            violate(Class::Proto, "a reader released memory of the shared container".to_string());
            return;
        }
        if !self.stale {
            unsafe { std::ptr::write_bytes(a as *mut u8, GONE, b.size) };
        }
        self.freed.insert(a, Freed { size: b.size, extent: b.extent, hash: hash_bytes(a, b.size), pages: 0 });
        self.lifo.push(a);
    }

    fn grant(&mut self, a: usize, b: Block) {
        self.mark(a, b.size, true);
        let o = b.owner as usize;
        if self.usage.len() <= o {
            self.usage.resize(o + 1, (0, 0));
        }
        let u = &mut self.usage[o];
        *u = (u.0 + 1, u.1 + b.size);
        self.live.insert(a, b);
    }
    fn bit_of(&self, a: usize) -> Option<(*mut u64, usize)> {
        ARENAS.iter().position(|(b, n)| a >= *b && a < b + n).map(|k| (self.bits[k], a - ARENAS[k].0))
    }
    fn mark(&mut self, a: usize, n: usize, held: bool) {
        if let Some((w, o)) = self.bit_of(a) {
            let mut i = o;
            while i < o + n {
                let k = (64 - i % 64).min(o + n - i);
                let m = (if k == 64 { !0 } else { (1u64 << k) - 1 }) << (i % 64);
                unsafe {
                    let p = w.add(i / 64);
                    *p = if held { *p | m } else { *p & !m };
                }
                i += k;
            }
        }
    }
    /// Is `[a, a+n)` inside one block that is currently held? (Blocks never touch.)
    pub fn held(&self, a: usize, n: usize) -> bool {
        let (w, o) = match self.bit_of(a) {
            Some(x) => x,
            None => return false,
        };
        let mut i = o;
        while i < o + n {
            let k = (64 - i % 64).min(o + n - i);
            let m = (if k == 64 { !0 } else { (1u64 << k) - 1 }) << (i % 64);
            if unsafe { *w.add(i / 64) } & m != m {
                return false;
            }
            i += k;
        }
        true
    }
    pub fn block_of(&self, a: usize) -> Option<(usize, &Block)> {
        match self.live.range(..=a).next_back() {
            Some((s, b)) if a < s + b.size => Some((*s, b)),
            _ => None,
        }
    }

    fn check_freed(&self) {
        for (a, f) in &self.freed {
            if f.pages == 0 && hash_bytes(*a, f.size) != f.hash {
                violate(Class::Oob, format!("released block of {} bytes was written to after its release", f.size));
            }
        }
    }

    pub fn tick(&mut self) {
        self.ticks += 1;
        if self.live.len() <= 48 || self.ticks % 16 == 0 {
            for a in self.live.keys() {
                self.check_zone(*a);
            }
        }
        if self.freed.len() <= 24 || self.ticks % 16 == 0 {
            self.check_freed();
        }
    }

    pub fn end_check(&self) {
        for a in self.live.keys() {
            self.check_zone(*a);
        }
        self.check_freed();
    }

    pub fn held_by(&self, owner: u32) -> (usize, usize) {
        self.usage.get(owner as usize).copied().unwrap_or((0, 0))
    }
    pub fn outstanding(&self, owner: u32) -> usize {
        self.live.values().filter(|b| b.owner == owner).count()
    }

    /// Write-protects everything allocated so far; later requests are served elsewhere.
    pub fn freeze(&mut self) {
        self.frozen = true;
        let end = (self.high.max(self.bump) + PAGE) / PAGE * PAGE;
        unsafe { mprotect(BASE_A as *mut u8, end - BASE_A, PROT_READ) };
    }
    pub fn thaw(&mut self) {
        self.frozen = false;
        unsafe { mprotect(BASE_A as *mut u8, SIZE_A, PROT_READ | PROT_WRITE) };
    }
}
