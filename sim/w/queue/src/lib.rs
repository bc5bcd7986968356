use simcore::worlds::catalog::types::*;

pub static DEFS: &[Def] = simcore::catalog! {
    Deq SeqWorld "Deque<T64,default>" 0 1 Deque<'static, T64, D>;
    Deq SeqWorld "Deque<u16,sim>" 1 0 Deque<'static, u16, S>;
    Que SeqWorld "Queue<T40,sim>" 1 1 Queue<'static, T40, S>;
    Que SeqWorld "Queue<T16,default>" 0 1 Queue<'static, T16, D>;
    Que SeqWorld "Queue<T24,sim>" 1 1 Queue<'static, T24, S>;
    Que SeqWorld "Queue<u32,default>" 0 0 Queue<'static, u32, D>;
    Que SeqWorld "Queue<Row,sim>" 1 0 Queue<'static, Row, S>;
};
