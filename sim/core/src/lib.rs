//! The simulator: seams, worlds and their models. See /verif/DESIGN.md.
#![cfg_attr(feature = "nightly", allow(incomplete_features), feature(generic_const_exprs))]
#![allow(static_mut_refs)]
#[macro_use]
pub mod ctx;
pub mod alloc;
pub mod elem;
pub mod heap;
pub mod props;
pub mod sched;
pub mod sys;
pub mod worlds;

#[global_allocator]
static GLOBAL_ALLOC: alloc::Global = alloc::Global;
