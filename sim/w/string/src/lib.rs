use simcore::worlds::catalog::types::*;

pub static DEFS: &[Def] = &[
    Def { g: G::Str, name: "String<sim>", sim: true, tracked: false, make: |tag, _| Box::new(StrWorld::<SimAlloc>::new(tag)) },
    Def { g: G::Str, name: "String<default>", sim: false, tracked: false, make: |tag, _| Box::new(StrWorld::<DefaultAllocator>::new(tag)) },
];
