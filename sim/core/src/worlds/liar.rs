//! Histories in which the hash, equality and order of keys contradict themselves.
//!
//! No outcome of a single operation is prescribed then, but whichever entry an operation settles on,
//! entries are conserved: each key and value is in the container once, was handed back, or was
//! released, and nothing else moves. Afterwards, once emptied, the container is as good as new.
use super::*;
use std::collections::BTreeSet;

enum Rule {
    /// Nothing may change.
    Read,
    /// One entry is added, or one value is replaced.
    Put(u32, u32, u32),
    /// One entry may be added, or one value changed in place to this.
    Entry(u32, u32, u32, u32),
    /// One value may be changed in place to this.
    Write(u32),
    /// One entry may leave.
    Del,
}

impl<D: Dict> DictWorld<D> {
    /// Does the next operation run with contradicting callbacks?
    pub(super) fn lies(&mut self) -> bool {
        if !cx().lies || !D::K::TRACKED {
            return false;
        }
        if self.lying {
            if draw(14) == 13 {
                self.truth();
                return false;
            }
        } else if draw(7) == 6 && !self.slots.is_empty() {
            let dens = [0, 1, 2, 4, 16];
            let mut d = [pick(&dens), pick(&dens), pick(&dens)];
            if d == [0; 3] {
                d = [2; 3]
            }
            cx().lie_den = d;
            cx().lie_style = draw(9);
            self.lying = true;
            for i in 0..self.slots.len() {
                self.slots[i].m = self.contents(i);
            }
            trace!("  from here on one answer of {:?} contradicts (equality, order, hash; 0: none)", d);
        }
        self.lying
    }
    fn truth(&mut self) {
        cx().lie_den = [0; 3];
        self.lying = false;
        trace!("  from here on answers are truthful; all containers are emptied");
        let mut i = self.slots.len();
        while i > 0 {
            i -= 1;
            if draw(3) == 2 {
                self.destroy(i);
                continue;
            }
            let c = self.slots[i].o.get();
            if let Out::Panic(m) = sut(0, || c.clr()) {
                violate(Class::Panic, format!("clear panicked: {m}"));
            }
            self.slots[i].m.clear();
        }
        probe("truthful-again-after-contradictions");
    }

    fn settle(&mut self, i: usize, before: &[KE], rule: Rule, panicked: bool, out_k: Option<u32>, out_v: Option<u32>) {
        let now = self.contents(i);
        let bad = |t: String| violate(Class::Model, format!("with contradicting answers {t}; before {}, now {}", show_m(before), show_m(&now)));
        let c = self.slots[i].o.get();
        if c.c_len() != now.len() || c.c_empty() != now.is_empty() {
            bad(format!("the length is {} where traversal meets {}", c.c_len(), now.len()));
        }
        let tv = D::V::TRACKED && !D::SET;
        let kids: BTreeSet<u32> = now.iter().map(|e| e.kid).collect();
        let vids: BTreeSet<u32> = now.iter().map(|e| e.vid).collect();
        if kids.len() != now.len() || (tv && vids.len() != now.len()) {
            violate(Class::ElemUse, "an element is held twice");
        }
        if out_k.is_some_and(|k| kids.contains(&k)) || (tv && out_v.is_some_and(|v| vids.contains(&v))) {
            violate(Class::ElemUse, "an element was handed out and is still held");
        }
        let at: BTreeMap<u32, &KE> = before.iter().map(|e| (e.kid, e)).collect();
        let mut added = vec![];
        let mut changed = vec![];
        for e in &now {
            match at.get(&e.kid) {
                None => added.push(*e),
                Some(b) => {
                    if e.vid != b.vid || e.vval != b.vval {
                        changed.push((**b, *e))
                    }
                    if e.kval != b.kval {
                        bad("a key changed".into());
                    }
                    if D::STABLE && (e.kaddr != b.kaddr || e.vaddr != b.vaddr) {
                        bad("an entry changed its address".into());
                    }
                }
            }
        }
        let lost: Vec<KE> = before.iter().filter(|e| !kids.contains(&e.kid)).copied().collect();
        let (may_add, may_change, may_lose) = match &rule {
            Rule::Read => (None, None, false),
            Rule::Put(k, v, vv) => (Some((*k, *v, *vv)), Some((*v, *vv)), false),
            Rule::Entry(k, v, vv, nv) => (Some((*k, *v, *vv)), Some((0, *nv)), false),
            Rule::Write(nv) => (None, Some((0, *nv)), false),
            Rule::Del => (None, None, true),
        };
        for e in &added {
            match may_add {
                Some((k, v, vv)) if e.kid == k && (D::SET || (e.vval == vv && (!tv || e.vid == v))) => {}
                // a value made in place
                Some((k, v, _)) if e.kid == k && matches!(rule, Rule::Entry(..)) && (!tv || e.vid == v) => {}
                _ => bad(format!("entry {}:{} comes from nowhere", e.kval, e.vval)),
            }
        }
        if added.len() + changed.len() > 1 && !panicked {
            bad(format!("{} entries were added and {} values changed at once", added.len(), changed.len()));
        }
        for (b, e) in &changed {
            match may_change {
                Some((v, vv)) if e.vval == vv && (!tv || e.vid == if matches!(rule, Rule::Put(..)) { v } else { b.vid }) => {
                    if matches!(rule, Rule::Put(..)) && tv && !panicked && out_v != Some(b.vid) {
                        bad(format!("the value of key {} was replaced but not handed back", e.kval));
                    }
                }
                _ => bad(format!("the value of key {} changed to {}", e.kval, e.vval)),
            }
        }
        if !lost.is_empty() && !(may_lose && lost.len() == 1) {
            bad(format!("key {} was lost", lost[0].kval));
        }
        if !panicked {
            match rule {
                Rule::Put(..) if !D::SET && tv && added.is_empty() && changed.is_empty() => bad("the insertion had no effect".into()),
                Rule::Put(..) if tv && !added.is_empty() && out_v.is_some() => bad("an added entry is reported as replaced".into()),
                Rule::Del if out_k.is_some() || out_v.is_some() => {
                    let fits = lost.len() == 1 && out_k.map_or(true, |k| k == lost[0].kid) && (!tv || out_v.map_or(true, |v| v == lost[0].vid));
                    if !fits {
                        bad("the removal hands out something else than what left".into());
                    }
                }
                Rule::Del if !lost.is_empty() => bad(format!("key {} left without being handed out", lost[0].kval)),
                _ => {}
            }
        }
        if let Some(cap) = c.cap() {
            if cap < now.len() {
                violate(Class::Model, format!("capacity {cap} is below the length {}", now.len()));
            }
        }
        self.slots[i].m = now;
    }
    /// Was what a lookup gives an entry of the container?
    fn met(&self, i: usize, k: Option<(u32, usize)>, v: Option<(u32, usize)>) {
        let hit = self.slots[i].m.iter().any(|e| k.map_or(true, |(id, a)| id == e.kid && a == e.kaddr) && v.map_or(true, |(id, a)| a == e.vaddr && (!D::V::TRACKED || id == e.vid)));
        if !hit {
            violate(Class::Model, "with contradicting answers a lookup gives something that is no entry");
        }
    }
    fn liar_put(&mut self, i: usize) {
        let (kval, vval) = (self.some_key(i), self.val());
        let before = self.slots[i].m.clone();
        let (k, v) = (D::K::make(kval), D::V::make(vval));
        let (kid, vid) = (k.id(), if D::SET { 0 } else { v.id() });
        trace!("      key {} value {} (#{}, #{})", kval, vval, kid, vid);
        let c = self.slots[i].o.get();
        let rule = Rule::Put(kid, vid, if D::SET { 0 } else { vval });
        match sut(0, || c.put(k, v)) {
            Out::Ok(Put::Had(Some(o))) => {
                let id = o.id();
                self.settle(i, &before, rule, false, None, Some(id));
                self.hold_v(o);
            }
            Out::Ok(_) => self.settle(i, &before, rule, false, None, None),
            _ => self.settle(i, &before, rule, true, None, None),
        }
    }
    fn liar_del(&mut self, i: usize, whole: bool) {
        let kval = self.some_key(i);
        let before = self.slots[i].m.clone();
        let k = D::K::make(kval);
        trace!("      key {}", kval);
        let c = self.slots[i].o.get();
        match sut(0, || c.del(&k, whole)) {
            Out::Ok(Some((gk, gv))) => {
                let (a, b) = (gk.as_ref().map(|k| k.id()), gv.as_ref().map(|v| v.id()));
                self.settle(i, &before, Rule::Del, false, a, b);
                gk.into_iter().for_each(|k| self.hold_k(k));
                gv.into_iter().for_each(|v| self.hold_v(v));
            }
            Out::Ok(None) => self.settle(i, &before, Rule::Del, false, None, None),
            _ => self.settle(i, &before, Rule::Del, true, None, None),
        }
    }

    pub(super) fn liar_step(&mut self) {
        let was = cx().told;
        self.liar_op();
        let now = cx().told;
        for (k, name) in ["contradicting equality tests", "contradicting comparisons", "contradicting hashes"].into_iter().enumerate() {
            if now[k] > was[k] {
                *cx().st.probes.entry(name.to_string()).or_insert(0) += now[k] - was[k];
                note(now[k] - was[k]);
            }
        }
    }
    fn liar_op(&mut self) {
        let ops = [(O::Put, 10), (O::Dup, 4), (O::Del, 6), (O::DelEntry, if D::SET { 0 } else { 4 }), (O::Get, 5), (O::GetMut, if D::SET { 0 } else { 4 }), (O::Entry, if D::SET { 0 } else { 6 }), (O::Iter, 2), (O::Fmt, 1), (O::Reloc, 1), (O::Clr, 1), (O::Recreate, 1), (O::Burst, 3), (O::Drain, 2), (O::Collect, if D::COLLECT { 2 } else { 0 })];
        let w: Vec<u32> = ops.iter().map(|o| o.1).collect();
        let o = ops[weighted(&w)].0;
        let name = OPS.iter().find(|x| x.0 == o).unwrap().2;
        op(name);
        if self.slots.is_empty() {
            self.construct("construct", fb(FK::Alloc), vec![], |p| unsafe { D::create(p, 0) });
            return;
        }
        let i = draw(self.slots.len() as u32) as usize;
        let n = self.slots[i].m.len();
        let before = self.slots[i].m.clone();
        let c = self.slots[i].o.get();
        trace!("{}: {} with contradicting answers on container {} {}", cx().run_ops, name, i, show_m(&before));
        match o {
            O::Put | O::Dup if n < self.max => self.liar_put(i),
            O::Del | O::DelEntry => self.liar_del(i, o == O::DelEntry),
            O::Get => {
                let k = D::K::make(self.some_key(i));
                sut(0, || c.has(&k));
                let c = self.slots[i].o.get();
                let r = sut(0, || {
                    c.look(&k).map(|(k, v)| {
                        let _h = InHarness::enter();
                        (k.map(|k| (k.id(), k as *const D::K as usize)), v.map(|v| (v.id(), v as *const D::V as usize)))
                    })
                });
                let lost = matches!(r, Out::Panic(_));
                if let Out::Ok(Some((a, b))) = r {
                    self.met(i, a, b);
                }
                self.settle(i, &before, Rule::Read, lost, None, None);
            }
            O::GetMut => {
                let k = D::K::make(self.some_key(i));
                let nv = self.val();
                let r = sut(0, || {
                    c.look_mut(&k).map(|v| {
                        let _h = InHarness::enter();
                        let was = (v.id(), v as *const D::V as usize);
                        v.set(nv);
                        was
                    })
                });
                let lost = matches!(r, Out::Panic(_));
                if let Out::Ok(Some(v)) = r {
                    self.met(i, None, Some(v));
                }
                self.settle(i, &before, Rule::Write(nv), lost, None, None);
            }
            O::Entry if n < self.max => {
                let kval = self.some_key(i);
                let how = draw(6);
                let (vval, nv) = (self.val(), self.val());
                let (k, v) = (D::K::make(kval), D::V::make(vval));
                let (kid, vid) = (k.id(), v.id());
                trace!("      key {} (#{}) form {} value {} (#{}) modified to {}", kval, kid, how, vval, vid, nv);
                match sut(0, || c.ent(k, how, v, nv)) {
                    Out::Ok(r) => {
                        let out = r.key.as_ref().map(|k| k.id());
                        self.settle(i, &before, Rule::Entry(kid, vid, vval, nv), false, out, None);
                        if let Some((id, _)) = r.val {
                            if D::V::TRACKED && !self.slots[i].m.iter().any(|e| e.vid == id) {
                                violate(Class::Model, "with contradicting answers the entry gives a value that is in no entry");
                            }
                        }
                        if let Some(k) = r.key {
                            self.hold_k(k);
                        }
                    }
                    _ => self.settle(i, &before, Rule::Entry(kid, vid, vval, nv), true, None, None),
                }
            }
            O::Iter => {
                let (m, es) = self.order(i);
                let mut w = c.walker();
                walk(&mut *w, &m, "iterator", &|t: &(&D::K, Option<&D::V>)| ent(t.0), |t, j| {
                    if t.1.is_some_and(|v| v.id() != es[j].vid) {
                        violate(Class::Iter, "iterator pairs a key with another value");
                    }
                });
            }
            O::Fmt => {
                if let Out::Ok(t) = sut(0, || c.fmt()) {
                    let want: Vec<u64> = before.iter().flat_map(|e| if D::SET { vec![e.kval as u64] } else { vec![e.kval as u64, e.vval as u64] }).collect();
                    if numbers(&t) != want {
                        violate(Class::Model, format!("rendering {t:?} does not list {}", show_m(&before)));
                    }
                }
            }
            O::Reloc => {
                let dst: Obj<D> = Obj::place();
                let old = std::mem::replace(&mut self.slots[i].o, dst);
                unsafe { ptr::copy_nonoverlapping(old.p as *const u8, self.slots[i].o.p as *mut u8, std::mem::size_of::<D>()) };
                old.vacate();
            }
            O::Clr => {
                sut(0, || c.clr());
                let left = c.c_len();
                if left != 0 {
                    violate(Class::Model, format!("{left} entries are left after clear"));
                }
                self.slots[i].m.clear();
            }
            O::Recreate => self.destroy(i),
            O::Burst => {
                cx().quiet_place = true;
                let k = 1 + draw(self.p.burst.min(150));
                trace!("      {} times", k);
                for _ in 0..k {
                    if self.slots[i].m.len() >= self.max.min(200) {
                        break;
                    }
                    self.liar_put(i);
                }
            }
            O::Drain => {
                cx().quiet_place = true;
                let k = 1 + draw(self.p.burst.min(150));
                trace!("      {} times", k);
                for _ in 0..k {
                    if self.slots[i].m.is_empty() {
                        break;
                    }
                    self.liar_del(i, false);
                }
            }
            O::Collect if self.slots.len() < 3 => {
                let k = draw(pick(&[4, 8, 20]));
                let mut items = vec![];
                for _ in 0..k {
                    let (kv, vv) = (self.key(), self.val());
                    items.push((D::K::make(kv), D::V::make(vv)));
                }
                let from: Vec<KE> = items.iter().map(|(k, v)| KE { kaddr: 0, vaddr: 0, ..Self::read(k, Some(v)) }).collect();
                let o: Obj<D> = Obj::place();
                let (hs, p) = (handles().st.len(), o.p);
                let listed = D::SORTED && draw(2) == 1;
                trace!("      of {}", show_m(&from));
                let r = if listed {
                    sut(0, || unsafe { ptr::write(p, D::from_list(items, 0)) })
                } else {
                    let src = source(items);
                    sut(0, || unsafe { ptr::write(p, D::from_it(src)) })
                };
                if let Out::Ok(()) = r {
                    let mut handle = GLOBAL;
                    if D::SIM {
                        let t = handles();
                        for h in hs..t.st.len() {
                            if t.st[h] == HState::Live && !t.inner[h] {
                                handle = FIRST_HANDLE + h as u32;
                            }
                        }
                    }
                    self.slots.push(DSlot { o, m: vec![], handle, a: Acct::default() });
                    let i = self.slots.len() - 1;
                    let now = self.contents_up_to(i, from.len() + 3);
                    let kids: BTreeSet<u32> = now.iter().map(|e| e.kid).collect();
                    if now.len() > from.len() || kids.len() != now.len() || self.slots[i].o.get().c_len() != now.len() {
                        violate(Class::Model, format!("with contradicting answers {} entries were made of {} items", now.len(), from.len()));
                    }
                    for e in &now {
                        let mut it = from.iter().filter(|f| f.kval == e.kval);
                        if (listed && it.next().is_none()) || (!listed && !from.iter().any(|f| f.kid == e.kid)) {
                            violate(Class::Model, format!("entry {}:{} comes from nowhere", e.kval, e.vval));
                        }
                    }
                    self.slots[i].m = now;
                } else {
                    o.vacate();
                }
            }
            _ => {}
        }
    }
    fn contents_up_to(&self, i: usize, limit: usize) -> Vec<KE> {
        let mut out = Vec::new();
        self.slots[i].o.get().each(limit, &mut |k, v| out.push(Self::read(k, v)));
        out
    }
    /// Nothing changes between operations.
    pub(super) fn liar_verify(&mut self) {
        for i in 0..self.slots.len() {
            let now = self.contents_up_to(i, self.slots[i].m.len() + 3);
            let m = &self.slots[i].m;
            let same = |(a, b): (&KE, &KE)| a.kid == b.kid && a.vid == b.vid && a.kval == b.kval && a.vval == b.vval;
            if now.len() != m.len() || !now.iter().zip(m).all(same) {
                violate(Class::Model, format!("the entries changed by themselves from {} to {}", show_m(m), show_m(&now)));
            }
        }
    }
}
