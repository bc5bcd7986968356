use simcore::worlds::catalog::types::*;

pub static DEFS: &[Def] = simcore::catalog! {
    VMap DictWorld "VectorMap<T12,T8,sim,less>" 1 1 VectorMap<T12, T8, S, Less<T12>>;
    VMap DictWorld "VectorMap<T8,T24,sim,greater>" 1 1 VectorMap<T8, T24, S, Greater<T8>>;
    VMap DictWorld "VectorMap<T12,T4,sim,remainder>" 1 1 VectorMap<T12, T4, S, Remainder<T12>>;
    VMap DictWorld "VectorMap<u32,T16,default,less>" 0 1 VectorMap<u32, T16, D, Less<u32>>;
    VMap DictWorld "VectorMap<T24,u8,default,greater>" 0 1 VectorMap<T24, u8, D, Greater<T24>>;
    VMap DictWorld "VectorMap<u32,u8,sim,less>" 1 0 VectorMap<u32, u8, S, Less<u32>>;
    VMap DictWorld "VectorMap<Text,Row,sim,less>" 1 0 VectorMap<Text, Row, S, Less<Text>>;
};
