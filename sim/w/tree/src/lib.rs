use simcore::worlds::catalog::types::*;

pub static DEFS: &[Def] = simcore::catalog! {
    Map MapWorld "Map<T12,T8,sim,less>" 1 1 Map<T12, T8, S, Less<T12>>;
    Map MapWorld "Map<T8,T24,default,greater>" 0 1 Map<T8, T24, D, Greater<T8>>;
    Map MapWorld "Map<T16,T4,sim,remainder>" 1 1 Map<T16, T4, S, Remainder<T16>>;
    Map MapWorld "Set<T12,sim,less>" 1 1 Set<T12, S, Less<T12>>;
    Map MapWorld "Set<T24,default,greater>" 0 1 Set<T24, D, Greater<T24>>;
    Map MapWorld "Map<T12,T4,sim,halves>" 1 1 Map<T12, T4, S, Halves<T12>>;
    Map MapWorld "Set<T8,sim,halves>" 1 1 Set<T8, S, Halves<T8>>;
    Map MapWorld "Map<u32,u16,sim,less>" 1 0 Map<u32, u16, S, Less<u32>>;
    Map MapWorld "Set<u32,sim,greater>" 1 0 Set<u32, S, Greater<u32>>;
    Map MapWorld "Map<Text,Row,sim,less>" 1 0 Map<Text, Row, S, Less<Text>>;
};
