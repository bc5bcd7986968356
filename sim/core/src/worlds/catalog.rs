//! Describes every container type the simulator exercises; the leaf crates list them.
use super::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum G {
    Vec,
    Deq,
    Que,
    Lst,
    FLst,
    FVec,
    Hash,
    VMap,
    Str,
    Map,
    FMap,
}
pub struct Def {
    pub g: G,
    pub name: &'static str,
    /// Uses the stateful allocator.
    pub sim: bool,
    /// Elements have identities.
    pub tracked: bool,
    pub make: fn(u32, bool) -> Box<dyn World>,
}

/// What a leaf crate needs to list container types.
pub mod types {
    pub use super::{Def, G};
    pub use crate::alloc::SimAlloc;
    pub use crate::elem::*;
    pub use crate::worlds::dict::DictWorld;
    pub use crate::worlds::dictimpl::*;
    pub use crate::worlds::map::*;
    pub use crate::worlds::seq::SeqWorld;
    pub use crate::worlds::string::StrWorld;
    pub use eastl_rs::allocator::DefaultAllocator;
    pub use eastl_rs::compare::{Greater, Less};
    pub use eastl_rs::deque::Deque;
    pub use eastl_rs::equals::EqualTo;
    pub use eastl_rs::fixed_list::FixedList;
    pub use eastl_rs::fixed_map::*;
    pub use eastl_rs::fixed_vector::FixedVector;
    pub use eastl_rs::hash::DefaultHash;
    pub use eastl_rs::hash_map::HashMap;
    pub use eastl_rs::hash_set::HashSet;
    pub use eastl_rs::list::List;
    pub use eastl_rs::map::Map;
    pub use eastl_rs::queue::Queue;
    pub use eastl_rs::set::Set;
    pub use eastl_rs::vector::Vector;
    pub use eastl_rs::vector_map::VectorMap;
    pub type S = SimAlloc;
    pub type D = DefaultAllocator;
    pub type Dh<K> = DefaultHash<K>;
    pub type Eq_<K> = EqualTo<K>;
}

#[macro_export]
macro_rules! catalog {
    ($($g:ident $w:ident $name:literal $sim:literal $tr:literal $t:ty;)*) => {
        &[$(Def { g: G::$g, name: $name, sim: $sim == 1, tracked: $tr == 1, make: |tag, it| Box::new($w::<$t>::new(tag, it)) },)*]
    };
}

/// Filled in by the program from the leaf crates it is built with.
pub static mut ALL: Vec<&'static [Def]> = Vec::new();
pub fn all() -> impl Iterator<Item = &'static Def> {
    unsafe { (*std::ptr::addr_of!(ALL)).iter().copied().flatten() }
}
