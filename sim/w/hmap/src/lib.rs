use simcore::worlds::catalog::types::*;

pub static DEFS: &[Def] = simcore::catalog! {
    Hash DictWorld "HashMap<T12,T8,sim>" 1 1 HashMap<T12, T8, S, Dh<T12>, Eq_<T12>>;
    Hash DictWorld "HashMap<T8,T24,sim,coarse>" 1 1 HashMap<T8, T24, S, PairHash<T8>, PairEq<T8>>;
    Hash DictWorld "HashMap<T4,T64,default>" 0 1 HashMap<T4, T64, D, Dh<T4>, Eq_<T4>>;
    Hash DictWorld "HashMap<T32,u8,sim>" 1 1 HashMap<T32, u8, S, Dh<T32>, Eq_<T32>>;
    Hash DictWorld "HashMap<u32,T16,default>" 0 1 HashMap<u32, T16, D, Dh<u32>, Eq_<u32>>;
    Hash DictWorld "HashMap<i8,T8,sim>" 1 1 HashMap<i8, T8, S, Dh<i8>, Eq_<i8>>;
    Hash DictWorld "HashMap<i64,u16,sim>" 1 0 HashMap<i64, u16, S, Dh<i64>, Eq_<i64>>;
    Hash DictWorld "HashMap<f64,T12,sim>" 1 1 HashMap<f64, T12, S, Dh<f64>, Eq_<f64>>;
    Hash DictWorld "HashMap<&str,T4,sim>" 1 1 HashMap<&'static str, T4, S, Dh<&'static str>, Eq_<&'static str>>;
    Hash DictWorld "HashMap<T16,T136,sim>" 1 1 HashMap<T16, T136, S, Dh<T16>, Eq_<T16>>;
    Hash DictWorld "HashMap<Text,Row,sim>" 1 0 HashMap<Text, Row, S, Dh<Text>, Eq_<Text>>;
};
