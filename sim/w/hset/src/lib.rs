use simcore::worlds::catalog::types::*;

pub static DEFS: &[Def] = simcore::catalog! {
    Hash DictWorld "HashSet<T12,sim>" 1 1 HashSet<T12, S, Dh<T12>, Eq_<T12>>;
    Hash DictWorld "HashSet<T8,sim,coarse>" 1 1 HashSet<T8, S, PairHash<T8>, PairEq<T8>>;
    Hash DictWorld "HashSet<T24,default>" 0 1 HashSet<T24, D, Dh<T24>, Eq_<T24>>;
    Hash DictWorld "HashSet<u32,sim>" 1 0 HashSet<u32, S, Dh<u32>, Eq_<u32>>;
    Hash DictWorld "HashSet<f32,sim>" 1 0 HashSet<f32, S, Dh<f32>, Eq_<f32>>;
    Hash DictWorld "HashSet<i32,default>" 0 0 HashSet<i32, D, Dh<i32>, Eq_<i32>>;
    Hash DictWorld "HashSet<bool,sim>" 1 0 HashSet<bool, S, Dh<bool>, Eq_<bool>>;
    Hash DictWorld "HashSet<Text,sim>" 1 0 HashSet<Text, S, Dh<Text>, Eq_<Text>>;
};
