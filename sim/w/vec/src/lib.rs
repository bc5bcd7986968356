use simcore::worlds::catalog::types::*;

pub static DEFS: &[Def] = simcore::catalog! {
    Vec SeqWorld "Vector<T12,sim>" 1 1 Vector<T12, S>;
    Vec SeqWorld "Vector<T4,sim>" 1 1 Vector<T4, S>;
    Vec SeqWorld "Vector<T32,sim>" 1 1 Vector<T32, S>;
    Vec SeqWorld "Vector<T24,default>" 0 1 Vector<T24, D>;
    Vec SeqWorld "Vector<u8,sim>" 1 0 Vector<u8, S>;
    Vec SeqWorld "Vector<u16,default>" 0 0 Vector<u16, D>;
    Vec SeqWorld "Vector<T4104,sim>" 1 1 Vector<T4104, S>;
    Vec SeqWorld "Vector<Text,sim>" 1 0 Vector<Text, S>;
};
