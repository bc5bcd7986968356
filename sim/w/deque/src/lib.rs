use simcore::worlds::catalog::types::*;

pub static DEFS: &[Def] = simcore::catalog! {
    Deq SeqWorld "Deque<T4,sim>" 1 1 Deque<'static, T4, S>;
    Deq SeqWorld "Deque<T8,default>" 0 1 Deque<'static, T8, D>;
    Deq SeqWorld "Deque<T12,sim>" 1 1 Deque<'static, T12, S>;
    Deq SeqWorld "Deque<T32,sim>" 1 1 Deque<'static, T32, S>;
    Deq SeqWorld "Deque<T40,sim>" 1 1 Deque<'static, T40, S>;
    Deq SeqWorld "Deque<T1032,sim>" 1 1 Deque<'static, T1032, S>;
    Deq SeqWorld "Deque<Text,sim>" 1 0 Deque<'static, Text, S>;
};
