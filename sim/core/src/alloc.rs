//! The allocators the system under test is given: a stateful one whose every request and release is
//! checked and may fail, and the process heap (for `DefaultAllocator`), routed into the simulation.
use crate::ctx::*;
use crate::heap::*;
use crate::worlds::seq::Side;
use crate::worlds::seqimpl::copied;
use eastl_rs::fixed_vector::FixedVector;
use eastl_rs::allocator::{Allocator, DefaultAllocator};
use eastl_rs::vector::Vector;
use std::alloc::{GlobalAlloc, Layout, System};

const MAGIC: u32 = 0xA110_CA70;
/// A single request above this is refused.
pub const LIMIT: usize = 1 << 22;

#[derive(Clone, Copy, PartialEq)]
pub enum HState {
    Live,
    Dropped,
}

/// A stateful allocator handle.
#[repr(C)]
pub struct SimAlloc {
    pub id: u32,
    magic: u32,
}

pub struct Handles {
    pub st: Vec<HState>,
    /// Belongs to an element, not to a container under test.
    pub inner: Vec<bool>,
    /// Says so of the next one made.
    pub making_inner: bool,
}
pub static mut HANDLES: Handles = Handles { st: Vec::new(), inner: Vec::new(), making_inner: false };
pub fn handles() -> &'static mut Handles {
    unsafe { &mut *std::ptr::addr_of_mut!(HANDLES) }
}

impl SimAlloc {
    pub fn fresh() -> Self {
        let _h = InHarness::enter();
        let t = handles();
        t.st.push(HState::Live);
        let inner = std::mem::replace(&mut t.making_inner, false);
        t.inner.push(inner);
        SimAlloc { id: FIRST_HANDLE + t.st.len() as u32 - 1, magic: MAGIC }
    }
    fn check(&self, what: &str) -> bool {
        let t = handles();
        let i = self.id.wrapping_sub(FIRST_HANDLE) as usize;
        if self.magic != MAGIC || i >= t.st.len() {
            violate(Class::Handle, format!("{what} through something that is not an allocator"));
            return false;
        }
        if t.st[i] == HState::Dropped {
            violate(Class::Handle, format!("{what} through an allocator that was already released"));
            return false;
        }
        true
    }
}
impl Default for SimAlloc {
    fn default() -> Self {
        Self::fresh()
    }
}
impl Clone for SimAlloc {
    fn clone(&self) -> Self {
        let _h = InHarness::enter();
        self.check("copy");
        Self::fresh()
    }
}
impl Drop for SimAlloc {
    fn drop(&mut self) {
        let _h = InHarness::enter();
        if !self.check("release") {
            return;
        }
        handles().st[(self.id - FIRST_HANDLE) as usize] = HState::Dropped;
        let n = cx().heap.outstanding(self.id);
        if n != 0 && !cx().leak_exempt {
            violate(Class::Leak, format!("allocator released with {n} block(s) outstanding"));
        }
    }
}

unsafe impl Allocator for SimAlloc {
    fn allocate_raw_aligned(&mut self, n: usize, align: usize) -> *mut () {
        seam(FK::Alloc);
        let over;
        let p;
        {
            let _h = InHarness::enter();
            self.check("request");
            if n == 0 {
                violate(Class::Proto, "a block of zero bytes was requested");
            }
            if !align.is_power_of_two() {
                violate(Class::Proto, format!("a block of alignment {align} was requested"));
            }
            over = n > LIMIT;
            if over {
                probe("request-above-limit");
                cx().fired_run |= fb(FK::Alloc);
                cx().fault_in_op = Some(FK::Alloc);
                p = 0;
            } else {
                p = cx().heap.alloc(n.max(1), align.max(1), self.id, 0);
                if !handles().inner[(self.id - FIRST_HANDLE) as usize] {
                    cx().work.reqs += 1;
                    cx().work.bytes += n as u64;
                }
                trace!("      request {} bytes align {} -> {}", n, align, show(p));
            }
        }
        if over {
            throw(FK::Alloc)
        }
        p as *mut ()
    }

    unsafe fn deallocate_raw_aligned(&mut self, p: *mut (), n: usize, align: usize) {
        if cx().threads && !std::thread::panicking() {
            crate::sched::yield_point(100);
        }
        let _h = InHarness::enter();
        self.check("release of a block");
        trace!("      release {} ({} bytes align {})", show(p as usize), n, align);
        cx().heap.free(p as usize, n, align, self.id);
    }
}
unsafe impl Send for SimAlloc {}
unsafe impl Sync for SimAlloc {}

/// The process allocator: requests made by the system under test are served by the simulation.
pub struct Global;
unsafe impl GlobalAlloc for Global {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !CX.is_null() {
            let c = cx();
            if c.spy && c.in_sut && crate::sched::is_sim_thread() {
                if c.threads {
                    crate::sched::yield_point(101);
                }
                if c.oom_mode {
                    if l.size() > LIMIT || fault(FK::Oom) {
                        (*c.shared).oom_seen += 1;
                        return std::ptr::null_mut();
                    }
                }
                let _h = InHarness::enter();
                let p = if l.size() > LIMIT { 0 } else { c.heap.alloc(l.size(), l.align(), GLOBAL, 0) };
                trace!("      system request {} bytes align {} -> {}", l.size(), l.align(), show(p));
                return p as *mut u8;
            }
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if in_arena(p as usize) {
            let _h = InHarness::enter();
            trace!("      system release {} ({} bytes align {})", show(p as usize), l.size(), l.align());
            cx().heap.free(p as usize, l.size(), l.align(), GLOBAL);
        } else {
            if p.is_null() {
                let _h = InHarness::enter();
                violate(Class::Proto, "null was released to the system allocator");
                return;
            }
            System.dealloc(p, l)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if in_arena(p as usize) {
            let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                self.dealloc(p, l);
            }
            return q;
        }
        System.realloc(p, l, n)
    }
}

/// What a world needs of an allocator type.
pub trait Al: Allocator + Default + 'static {
    const SIM: bool;
    const NAME: &'static str;
    fn clone_vec<T: Clone>(_v: &Vector<T, Self>) -> Option<Vector<T, Self>>
    where
        Self: Sized,
    {
        None
    }
    fn clone_string(_s: &eastl_rs::string::String<Self>) -> Option<eastl_rs::string::String<Self>>
    where
        Self: Sized,
    {
        None
    }
    fn copy_fixed<T: crate::elem::El, const N: usize>(_v: &FixedVector<T, N, Self>) -> Option<Box<dyn Side<T>>>
    where
        Self: Sized,
    {
        None
    }
    fn handle(&self) -> u32;
}
impl Al for SimAlloc {
    const SIM: bool = true;
    const NAME: &'static str = "stateful allocator";
    fn clone_vec<T: Clone>(v: &Vector<T, Self>) -> Option<Vector<T, Self>> {
        Some(v.clone())
    }
    fn clone_string(s: &eastl_rs::string::String<Self>) -> Option<eastl_rs::string::String<Self>> {
        Some(s.clone())
    }
    fn copy_fixed<T: crate::elem::El, const N: usize>(v: &FixedVector<T, N, Self>) -> Option<Box<dyn Side<T>>> {
        Some(copied(&**v))
    }
    fn handle(&self) -> u32 {
        self.id
    }
}
impl Al for DefaultAllocator {
    const SIM: bool = false;
    const NAME: &'static str = "default allocator";
    fn handle(&self) -> u32 {
        GLOBAL
    }
}
