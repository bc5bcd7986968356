//! What each property's check simulates and which observations it reports.
use crate::ctx::*;
use crate::worlds::catalog::{Def, G};

#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    Plain,
    Readers,
    Isolation,
    Oom,
}
pub struct Prop {
    pub id: &'static str,
    pub groups: &'static [(G, u32)],
    pub report: u32,
    pub after: u32,
    pub after_kinds: u32,
    pub need_kinds: u32,
    /// Faults that may be injected, and in how many runs of eight.
    pub kinds: u32,
    pub fault_runs: u32,
    pub dens: &'static [u32],
    pub mode: Mode,
    pub sim: bool,
    pub def: bool,
    pub tracked: bool,
    pub iter_heavy: bool,
    /// A foreign peer takes turns.
    pub peer: bool,
    /// What is held and done is measured.
    pub costs: bool,
    /// Callbacks contradict themselves in some phases.
    pub lies: bool,
}
const fn b(c: Class) -> u32 {
    bit(c)
}
const MODEL: u32 = b(Class::Model) | b(Class::Panic) | b(Class::Iter) | b(Class::Capacity) | b(Class::Order) | b(Class::Strong);
const CALLS: u32 = fb(FK::Clone) | fb(FK::Eq) | fb(FK::Cmp) | fb(FK::Hash) | fb(FK::Closure) | fb(FK::Iter) | fb(FK::Fmt);
const ALL: u32 = !0;
const EVERY: &[(G, u32)] = &[
    (G::Vec, 3),
    (G::Deq, 4),
    (G::Que, 1),
    (G::Lst, 2),
    (G::FLst, 2),
    (G::FVec, 2),
    (G::Hash, 4),
    (G::VMap, 2),
    (G::Str, 2),
    (G::Map, 2),
    (G::FMap, 1),
];
const NOSTR: &[(G, u32)] = &[
    (G::Vec, 3),
    (G::Deq, 4),
    (G::Que, 1),
    (G::Lst, 2),
    (G::FLst, 2),
    (G::FVec, 2),
    (G::Hash, 4),
    (G::VMap, 2),
    (G::Map, 2),
    (G::FMap, 1),
];
const BASE: Prop = Prop {
    id: "",
    groups: &[],
    report: MODEL,
    after: 0,
    after_kinds: 0,
    need_kinds: 0,
    kinds: fb(FK::Alloc) | CALLS,
    fault_runs: 2,
    dens: &[12, 40],
    mode: Mode::Plain,
    sim: false,
    def: false,
    tracked: false,
    iter_heavy: false,
    peer: false,
    costs: false,
    lies: false,
};
pub const PROPS: &[Prop] = &[
    Prop { id: "C01", groups: &[(G::Vec, 1)], ..BASE },
    Prop { id: "C02", groups: &[(G::Deq, 4), (G::Que, 1)], ..BASE },
    Prop { id: "C03", groups: &[(G::Hash, 1)], ..BASE },
    Prop { id: "C04", groups: &[(G::VMap, 1)], ..BASE },
    Prop { id: "C05", groups: &[(G::Lst, 1), (G::FLst, 1)], ..BASE },
    Prop { id: "C06", groups: &[(G::Str, 1)], report: MODEL | b(Class::Nul) | b(Class::Utf8), kinds: fb(FK::Alloc), ..BASE },
    Prop {
        id: "C07",
        groups: &[(G::FVec, 1)],
        report: MODEL | b(Class::Inline) | b(Class::Proto) | b(Class::Leak) | b(Class::Handle),
        ..BASE
    },
    Prop {
        id: "C08",
        groups: &[(G::FLst, 3), (G::FMap, 1)],
        report: MODEL | b(Class::Pool) | b(Class::Proto) | b(Class::Leak) | b(Class::ElemLeak),
        ..BASE
    },
    Prop {
        id: "C09",
        groups: EVERY,
        report: b(Class::Proto) | b(Class::Leak) | b(Class::Handle),
        ..BASE
    },
    Prop {
        id: "C10",
        groups: NOSTR,
        report: b(Class::ElemLeak),
        after: MODEL,
        after_kinds: fb(FK::Drop),
        kinds: fb(FK::Drop) | fb(FK::Alloc) | CALLS,
        fault_runs: 5,
        dens: &[6, 16, 50],
        tracked: true,
        ..BASE
    },
    Prop {
        id: "C11",
        groups: EVERY,
        report: ALL,
        need_kinds: fb(FK::Alloc),
        kinds: fb(FK::Alloc),
        fault_runs: 8,
        dens: &[4, 10, 30],
        sim: true,
        ..BASE
    },
    Prop {
        id: "C12",
        groups: NOSTR,
        report: ALL,
        need_kinds: CALLS,
        kinds: CALLS,
        fault_runs: 8,
        dens: &[4, 10, 30],
        tracked: true,
        ..BASE
    },
    Prop { id: "C13", groups: EVERY, report: ALL, mode: Mode::Readers, kinds: 0, fault_runs: 0, ..BASE },
    Prop { id: "C14", groups: EVERY, report: ALL, mode: Mode::Isolation, fault_runs: 1, dens: &[60], ..BASE },
    Prop {
        id: "C15",
        groups: &[(G::Lst, 1), (G::FLst, 1), (G::Hash, 2), (G::Deq, 2)],
        report: b(Class::Moved),
        ..BASE
    },
    Prop {
        id: "C16",
        groups: &[(G::Map, 2), (G::FMap, 1)],
        report: MODEL | b(Class::Peer) | b(Class::Leak) | b(Class::ElemLeak) | b(Class::Proto) | b(Class::Handle),
        ..BASE
    },
    Prop {
        id: "C17",
        groups: &[(G::Vec, 3), (G::Deq, 3), (G::Que, 1), (G::Lst, 1), (G::FLst, 1), (G::FVec, 2), (G::Hash, 3), (G::VMap, 2), (G::Str, 3)],
        report: MODEL | b(Class::Nul) | b(Class::Proto),
        kinds: fb(FK::Oom),
        fault_runs: 7,
        dens: &[8, 25],
        mode: Mode::Oom,
        def: true,
        ..BASE
    },
    Prop {
        id: "C18",
        groups: EVERY,
        report: b(Class::Iter) | b(Class::Model) | b(Class::Panic) | b(Class::Leak) | b(Class::ElemLeak),
        iter_heavy: true,
        ..BASE
    },
    Prop {
        id: "C21",
        groups: &[(G::Vec, 2), (G::Deq, 4), (G::Que, 1), (G::Lst, 2), (G::FLst, 2), (G::FVec, 2), (G::Hash, 4), (G::VMap, 1)],
        report: MODEL | b(Class::Peer) | b(Class::Leak) | b(Class::ElemLeak) | b(Class::Proto) | b(Class::Inline) | b(Class::Pool),
        peer: true,
        ..BASE
    },
    Prop {
        id: "C22",
        groups: &[(G::Vec, 3), (G::Deq, 4), (G::Que, 1), (G::Lst, 1), (G::FLst, 1), (G::FVec, 1), (G::Hash, 4), (G::VMap, 2), (G::Str, 2)],
        report: b(Class::Space),
        sim: true,
        costs: true,
        ..BASE
    },
    Prop {
        id: "C23",
        groups: &[(G::Vec, 3), (G::Deq, 3), (G::Que, 1), (G::Lst, 1), (G::FLst, 1), (G::FVec, 1), (G::Hash, 4), (G::VMap, 3), (G::Str, 1), (G::Map, 2), (G::FMap, 1)],
        report: b(Class::Work),
        sim: true,
        costs: true,
        ..BASE
    },
    Prop {
        id: "C24",
        groups: &[(G::Hash, 4), (G::VMap, 3), (G::Map, 2), (G::FMap, 1)],
        report: b(Class::Model) | b(Class::Iter) | b(Class::ElemLeak) | b(Class::Leak) | b(Class::Proto) | b(Class::Handle) | b(Class::Peer),
        kinds: 0,
        fault_runs: 0,
        tracked: true,
        lies: true,
        ..BASE
    },
];
pub fn find(id: &str) -> Option<&'static Prop> {
    PROPS.iter().find(|p| p.id == id)
}
impl Prop {
    pub fn allows(&self, d: &Def) -> bool {
        (!self.sim || d.sim) && (!self.def || !d.sim) && (!self.tracked || d.tracked) && self.groups.iter().any(|g| g.0 == d.g)
    }
}
