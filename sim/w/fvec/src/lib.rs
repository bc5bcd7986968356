use simcore::worlds::catalog::types::*;

pub static DEFS: &[Def] = simcore::catalog! {
    FVec SeqWorld "FixedVector<T12,1,sim>" 1 1 FixedVector<T12, 1, S>;
    FVec SeqWorld "FixedVector<T12,4,sim>" 1 1 FixedVector<T12, 4, S>;
    FVec SeqWorld "FixedVector<T24,8,default>" 0 1 FixedVector<T24, 8, D>;
    FVec SeqWorld "FixedVector<T32,3,sim>" 1 1 FixedVector<T32, 3, S>;
    FVec SeqWorld "FixedVector<u8,16,sim>" 1 0 FixedVector<u8, 16, S>;
    FVec SeqWorld "FixedVector<u16,64,default>" 0 0 FixedVector<u16, 64, D>;
    FVec SeqWorld "FixedVector<T8,20,sim>" 1 1 FixedVector<T8, 20, S>;
    FVec SeqWorld "FixedVector<Row,3,sim>" 1 0 FixedVector<Row, 3, S>;
};
