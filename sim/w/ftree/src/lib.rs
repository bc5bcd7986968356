use simcore::worlds::catalog::types::*;

pub static DEFS: &[Def] = simcore::catalog! {
    FMap MapWorld "FixedMap<T12,T8,4>" 0 1 FixedMap<T12, T8, 4, Less<T12>>;
    FMap MapWorld "FixedMap<T24,T4,9,greater>" 0 1 FixedMap<T24, T4, 9, Greater<T24>>;
    FMap MapWorld "FixedMapWithOverflow<T12,T8,3,sim>" 1 1 FixedMapWithOverflow<T12, T8, 3, S, Less<T12>>;
    FMap MapWorld "FixedMapWithOverflow<T8,T16,1,default>" 0 1 FixedMapWithOverflow<T8, T16, 1, D, Remainder<T8>>;
    FMap MapWorld "FixedMap<T12,T8,9,halves>" 0 1 FixedMap<T12, T8, 9, Halves<T12>>;
};
