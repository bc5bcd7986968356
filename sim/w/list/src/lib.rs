use simcore::worlds::catalog::types::*;

pub static DEFS: &[Def] = simcore::catalog! {
    Lst SeqWorld "List<T12,sim>" 1 1 List<T12, S>;
    Lst SeqWorld "List<T32,sim>" 1 1 List<T32, S>;
    Lst SeqWorld "List<T24,default>" 0 1 List<T24, D>;
    Lst SeqWorld "List<u8,sim>" 1 0 List<u8, S>;
    Lst SeqWorld "List<T1032,sim>" 1 1 List<T1032, S>;
    Lst SeqWorld "List<Row,sim>" 1 0 List<Row, S>;
};
