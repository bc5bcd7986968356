use simcore::worlds::catalog::types::*;

pub static DEFS: &[Def] = simcore::catalog! {
    FLst SeqWorld "FixedList<T12,1,sim>" 1 1 FixedList<T12, 1, S>;
    FLst SeqWorld "FixedList<T12,3,sim>" 1 1 FixedList<T12, 3, S>;
    FLst SeqWorld "FixedList<T24,8,default>" 0 1 FixedList<T24, 8, D>;
    FLst SeqWorld "FixedList<T32,4,sim>" 1 1 FixedList<T32, 4, S>;
    FLst SeqWorld "FixedList<u8,5,sim>" 1 0 FixedList<u8, 5, S>;
    FLst SeqWorld "FixedList<T8,20,sim>" 1 1 FixedList<T8, 20, S>;
    FLst SeqWorld "FixedList<Text,2,sim>" 1 0 FixedList<Text, 2, S>;
};
