#![allow(incomplete_features)]
#![feature(generic_const_exprs)]
use simcore::worlds::catalog::types::*;
use simcore::worlds::seqimpl::conformant::*;

pub static DEFS: &[Def] = simcore::catalog! {
    FLst SeqWorld "conformant FixedList<T4,1,sim>" 1 1 C4x1;
    FLst SeqWorld "conformant FixedList<T24,3,sim>" 1 1 C24x3;
    FLst SeqWorld "conformant FixedList<T8,4>" 1 1 C8x4;
    FLst SeqWorld "conformant FixedList<T32,2>" 1 1 C32x2;
    FLst SeqWorld "conformant FixedList<T12,5>" 0 1 C12x5;
    FLst SeqWorld "conformant FixedList<T64,2>" 1 1 C64x2;
};
