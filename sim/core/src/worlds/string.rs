//! Strings, against a reference text value and a foreign reader that scans for the terminator.
use super::*;
use crate::alloc::*;
use eastl_rs::hash::{DefaultHash, Hash};
use eastl_rs::string::String as EStr;
use std::ptr;

pub struct StrWorld<A: Al> {
    slots: Vec<(Obj<EStr<A>>, String)>,
    accts: Vec<Acct>,
    at: usize,
    asked: usize,
    tag: u32,
    w: Vec<u32>,
    wide: u32,
    max: usize,
}
unsafe impl<A: Al> Send for StrWorld<A> {}

#[derive(Clone, Copy, PartialEq)]
enum O {
    Nop,
    Push,
    Pop,
    Ins,
    Rem,
    Asg,
    Res,
    From,
    Cap,
    Clone,
    Eq,
    Show,
    Case,
    Reloc,
    Recreate,
    Burst,
    BadIndex,
    Drain,
    Flow,
}
const OPS: [(O, u32, &str); 19] = [
    (O::Nop, 1, "check"),
    (O::Push, 12, "push"),
    (O::Pop, 6, "pop"),
    (O::Ins, 8, "insert"),
    (O::Rem, 7, "remove"),
    (O::Asg, 6, "assign"),
    (O::Res, 4, "reserve"),
    (O::From, 4, "construct-from"),
    (O::Cap, 2, "with_capacity"),
    (O::Clone, 3, "clone"),
    (O::Eq, 2, "compare"),
    (O::Show, 2, "format"),
    (O::Case, 2, "change-case-in-place"),
    (O::Reloc, 4, "move"),
    (O::Recreate, 3, "destroy"),
    (O::Burst, 1, "push-many"),
    (O::BadIndex, 2, "index-outside"),
    (O::Drain, 1, "pop-many"),
    (O::Flow, 4, "push-and-pop"),
];

fn bound(s: &str, k: usize) -> usize {
    let mut k = k.min(s.len());
    while !s.is_char_boundary(k) {
        k -= 1;
    }
    k
}
fn brief(s: &str) -> String {
    if s.len() > 60 {
        format!("{:?}… ({} bytes)", &s[..bound(s, 60)], s.len())
    } else {
        format!("{s:?}")
    }
}

impl<A: Al> StrWorld<A> {
    pub fn new(tag: u32) -> Self {
        led().tag = tag;
        let w = OPS.iter().map(|(_, b, _)| b * [1, 2, 1, 0, 4][draw(5) as usize]).collect::<Vec<_>>();
        let mut w = w;
        w[1] = w[1].max(6);
        if !cx().costs {
            w[18] = 0;
        }
        let wide = draw(4);
        trace!("world: String with the {} (characters style {})", A::NAME, wide);
        StrWorld { slots: vec![], accts: vec![], at: 0, asked: 0, tag, w, wide, max: 3000 }
    }
    fn ch(&self) -> char {
        let narrow = ['a', 'b', 'z', 'Q', '0', ' ', '~', '\u{1}'];
        let two = ['é', 'ß', '\u{80}', '\u{ff}', '\u{7ff}', 'д'];
        let three = ['€', '中', '\u{800}', '\u{ffff}', '\u{2028}'];
        let four = ['😀', '\u{10000}', '\u{10ffff}', '𝄞'];
        let k = match self.wide {
            0 => 0,
            1 => [0, 0, 0, 1, 2, 3][draw(6) as usize],
            2 => [0, 1, 2, 3][draw(4) as usize],
            _ => [0, 0, 1, 4][draw(4) as usize],
        };
        match k {
            0 => narrow[draw(8) as usize],
            1 => two[draw(6) as usize],
            2 => three[draw(5) as usize],
            3 => four[draw(4) as usize],
            _ => '\0',
        }
    }
    fn text(&self, max: u32) -> String {
        (0..draw(max + 1)).map(|_| self.ch()).collect()
    }
    fn add(&mut self, what: &str, m: String, f: impl FnOnce(*mut EStr<A>)) -> bool {
        let o: Obj<EStr<A>> = Obj::place();
        let p = o.p;
        match sut(fb(FK::Alloc), || f(p)) {
            Out::Ok(()) => {
                self.slots.push((o, m));
                self.accts.push(Acct::default());
                true
            }
            Out::Fault(_) => {
                o.vacate();
                false
            }
            Out::Panic(e) => {
                violate(Class::Panic, format!("{what} panicked: {e}"));
                o.vacate();
                false
            }
        }
    }
    fn check_one(s: &EStr<A>, m: &str) {
        let b = s.as_bytes();
        if s.len() != m.len() || b.len() != m.len() || s.is_empty() != m.is_empty() {
            violate(Class::Model, format!("length is {}, should be {} for {}", s.len(), m.len(), brief(m)));
        }
        match std::str::from_utf8(b) {
            Err(e) => violate(Class::Utf8, format!("not valid UTF-8 at byte {} (should be {})", e.valid_up_to(), brief(m))),
            Ok(t) if t != m => violate(Class::Model, format!("text is {}, should be {}", brief(t), brief(m))),
            _ => {}
        }
        if s.as_str().as_bytes() != b || (**s).len() != b.len() || AsRef::<str>::as_ref(s).as_bytes() != b {
            violate(Class::Model, "the views of the text differ");
        }
        let cap = s.capacity();
        if cap < m.len() {
            violate(Class::Capacity, format!("capacity {cap} is below the length {}", m.len()));
        }
        if s.is_full() != (cap == m.len()) {
            violate(Class::Model, format!("is_full() is {} with length {} and capacity {cap}", s.is_full(), m.len()));
        }
        // the foreign reader: first word of the object is the start of the text
        let begin = unsafe { *(s as *const EStr<A> as *const usize) };
        if begin == 0 {
            if cap != 0 || !m.is_empty() {
                violate(Class::Capacity, "no buffer, but room is claimed");
            }
            return;
        }
        let (blk, size) = match cx().heap.block_of(begin) {
            Some((b, k)) => (b, k.size),
            None => {
                violate(Class::Oob, "the text lies in memory nobody holds");
                return;
            }
        };
        let room = blk + size - begin;
        if cap + 1 > room {
            violate(Class::Capacity, format!("claims room for {cap} bytes and a terminator in {room} bytes"));
            return;
        }
        let first_nul = m.bytes().position(|b| b == 0);
        let at = unsafe { *((begin + m.len()) as *const u8) };
        if at != 0 {
            violate(Class::Nul, format!("the byte after {} is {at:#04x}, not NUL", brief(m)));
            return;
        }
        let mut k = 0;
        while k < room && unsafe { *((begin + k) as *const u8) } != 0 {
            k += 1;
        }
        if k != first_nul.unwrap_or(m.len()) {
            violate(Class::Nul, format!("a reader scanning for NUL sees {k} bytes of {}", brief(m)));
        }
    }
    fn failed(&mut self, i: usize, out: Out<()>, olds: &str, what: &str) {
        match out {
            Out::Ok(()) => {}
            Out::Panic(e) => violate(Class::Panic, format!("{what} panicked: {e}")),
            Out::Fault(_) => {
                let now = self.slots[i].0.get().as_bytes().to_vec();
                let ok = now == olds.as_bytes();
                if !ok {
                    violate(Class::Strong, format!("{what} failed for lack of memory and left {:?}; before {}", String::from_utf8_lossy(&now), brief(olds)));
                }
                probe("resynchronised-after-fault");
                self.slots[i].1 = match String::from_utf8(now) {
                    Ok(s) => s,
                    Err(_) => {
                        violate(Class::Utf8, "not valid UTF-8 after a failed operation");
                        String::new()
                    }
                };
            }
        }
    }
    fn go(&mut self, o: O, name: &'static str) {
        (self.at, self.asked) = (usize::MAX, 0);
        if !cx().costs {
            return self.perform(o, name);
        }
        let (had, w) = (self.slots.len(), Work::now());
        let lens: Vec<usize> = self.slots.iter().map(|s| s.1.len()).collect();
        let room: Vec<usize> = self.slots.iter().map(|s| s.0.get().capacity()).collect();
        self.perform(o, name);
        let w = w.since();
        let made = self.slots.len() > had;
        let at = if made { had } else { self.at };
        if at < self.slots.len() && (made || o != O::Recreate) {
            let m = self.slots[at].1.len();
            // a failed attempt may have come as far as any one character
            let added = if !made && matches!(o, O::Push | O::Ins | O::Burst) { m - lens[at] + 4 } else { 0 };
            let a = &mut self.accts[at];
            a.need = a.need.max(self.asked).max(m + 4);
            let room = self.asked.max(if made || o == O::Asg { m } else { 0 });
            a.add((8 * added + 4 * room + if made { 80 } else { 0 } + if room > 0 { 16 } else { 0 }) as u64, w.bytes, name);
        }
        // what fits into the room there is needs no more
        if !made && at < room.len() && matches!(o, O::Push | O::Ins | O::Asg | O::Burst) && self.asked.max(self.slots[at].1.len()) <= room[at] && cx().fault_in_op.is_none() {
            no_requests(&w, name);
            probe("addition-within-capacity");
        }
        for (k, (o, m)) in self.slots.iter().enumerate() {
            let limit = 4 * self.accts[k].need + 16;
            let cap = o.get().capacity();
            let begin = unsafe { *(o.p as *const usize) };
            let size = cx().heap.block_of(begin).map_or(0, |b| b.1.size);
            if cap > limit || size > limit + 1 {
                violate(Class::Space, format!("a text of {} bytes that never needed more than {} holds {size} bytes with capacity {cap}", m.len(), self.accts[k].need));
            }
        }
        if !made && matches!(o, O::Nop | O::Pop | O::Rem | O::Eq | O::Show | O::Case | O::Reloc | O::Recreate | O::Drain) {
            no_requests(&w, name);
        }
    }
    fn perform(&mut self, o: O, name: &'static str) {
        op(name);
        if self.slots.is_empty() || matches!(o, O::From | O::Cap) {
            if self.slots.len() >= 3 {
                return;
            }
            let form = draw(6);
            if o == O::Cap {
                let n = if (A::SIM || cx().oom_mode) && chance(1, 4) { huge(1, draw(2) as usize) } else { pick(&[0usize, 1, 2, 7, 40]) };
                trace!("{}: with_capacity({n})", cx().run_ops);
                self.asked = n.min(1 << 20);
                if self.add("with_capacity", String::new(), |p| unsafe { ptr::write(p, EStr::with_capacity(n)) }) {
                    let cap = self.slots.last().unwrap().0.get().capacity();
                    if cap < n {
                        violate(Class::Capacity, format!("with_capacity({n}) gives capacity {cap}"));
                    }
                }
                return;
            }
            let t = if form < 3 { String::new() } else { self.text(8) };
            trace!("{}: construct {} (form {form})", cx().run_ops, brief(&t));
            let m = t.clone();
            self.add("construct", m, |p| unsafe {
                ptr::write(
                    p,
                    match form {
                        0 => EStr::new(),
                        1 => EStr::default(),
                        2 => EStr::new_in(A::default()),
                        3 => EStr::from(t.as_str()),
                        4 => t.parse().unwrap(),
                        _ => EStr::from_in(t.as_str(), A::default()),
                    },
                )
            });
            return;
        }
        let i = draw(self.slots.len() as u32) as usize;
        self.at = i;
        let m = self.slots[i].1.clone();
        let s = self.slots[i].0.get();
        trace!("{}: {} on string {} {}", cx().run_ops, name, i, brief(&m));
        let alloc = fb(FK::Alloc);
        match o {
            O::Nop | O::From | O::Cap => {}
            O::Push => {
                if m.len() > self.max {
                    return;
                }
                let c = self.ch();
                trace!("      {c:?}");
                match sut(alloc, || s.push(c)) {
                    Out::Ok(()) => self.slots[i].1.push(c),
                    out => self.failed(i, out, &m, "push"),
                }
            }
            O::Pop => match sut(0, || s.pop()) {
                Out::Ok(g) => {
                    let w = self.slots[i].1.pop();
                    if g != w {
                        violate(Class::Model, format!("pop returned {g:?}, should be {w:?}"));
                    }
                }
                Out::Panic(e) => violate(Class::Panic, format!("pop panicked: {e}")),
                _ => {}
            },
            O::Ins => {
                if m.len() > self.max {
                    return;
                }
                let k = bound(&m, draw(m.len() as u32 + 1) as usize);
                let c = self.ch();
                trace!("      {c:?} at {k}");
                match sut(alloc, || s.insert(k, c)) {
                    Out::Ok(()) => self.slots[i].1.insert(k, c),
                    out => self.failed(i, out, &m, "insert"),
                }
            }
            O::Rem => {
                let k = bound(&m, draw(m.len() as u32 + 2) as usize);
                trace!("      at {k}");
                match sut(0, || s.remove(k)) {
                    Out::Ok(g) => {
                        let w = if k < m.len() { Some(self.slots[i].1.remove(k)) } else { None };
                        if g != w {
                            violate(Class::Model, format!("remove({k}) returned {g:?}, should be {w:?}"));
                        }
                    }
                    Out::Panic(e) => violate(Class::Panic, format!("remove panicked: {e}")),
                    _ => {}
                }
            }
            O::Asg => {
                let t = if draw(3) == 0 && self.slots.len() > 1 {
                    self.slots[(i + 1) % self.slots.len()].1.clone()
                } else {
                    self.text(pick(&[0, 3, 12, 40]))
                };
                trace!("      {}", brief(&t));
                self.asked = t.len();
                match sut(alloc, || s.assign(t.as_str())) {
                    Out::Ok(()) => self.slots[i].1 = t,
                    out => self.failed(i, out, &m, "assign"),
                }
            }
            O::Res => {
                let n = if (A::SIM || cx().oom_mode) && chance(1, 6) { huge(1, s.capacity() + draw(2) as usize) } else { pick(&[0usize, 1, 2, 9, 60]) };
                trace!("      {n}");
                // what is reserved adds up
                self.asked = self.accts[i].need.max(m.len()) + n.min(1 << 20) + 1;
                match sut(alloc, || s.reserve(n)) {
                    Out::Ok(()) => {
                        if s.capacity() < m.len().saturating_add(n) {
                            violate(Class::Capacity, format!("reserve({n}) with length {} gives capacity {}", m.len(), s.capacity()));
                        }
                    }
                    out => self.failed(i, out, &m, "reserve"),
                }
            }
            O::Clone => {
                if self.slots.len() >= 3 || !A::SIM {
                    return;
                }
                self.add("clone", m, |p| {
                    if let Some(c) = A::clone_string(s) {
                        unsafe { ptr::write(p, c) }
                    }
                });
            }
            O::Eq => {
                let j = draw(self.slots.len() as u32) as usize;
                let t = self.slots[j].0.get();
                let want = m == self.slots[j].1;
                if let Out::Ok(g) = sut(0, || (*s == *t, *s != *t, DefaultHash::<EStr<A>>::hash(s) == DefaultHash::<EStr<A>>::hash(t), DefaultHash::<str>::hash(s.as_str()) == DefaultHash::<EStr<A>>::hash(s))) {
                    if g.0 != want || g.1 == want || (want && !g.2) || !g.3 {
                        violate(Class::Model, format!("{} and {} compare as {g:?}", brief(&m), brief(&self.slots[j].1)));
                    }
                }
            }
            O::Show => match sut(0, || (format!("{s}"), format!("{s:?}"))) {
                Out::Ok((a, b)) => {
                    if a != m || b != format!("\"{m}\"") {
                        violate(Class::Model, format!("rendered as {a:?} and {b:?}, text {}", brief(&m)));
                    }
                }
                Out::Panic(e) => violate(Class::Panic, format!("formatting panicked: {e}")),
                _ => {}
            },
            O::Case => {
                let up = draw(2) == 1;
                let _ = sut(0, || if up { s.make_ascii_uppercase() } else { s.make_ascii_lowercase() });
                let t = &mut self.slots[i].1;
                if up {
                    t.make_ascii_uppercase()
                } else {
                    t.make_ascii_lowercase()
                }
            }
            O::Reloc => {
                let dst: Obj<EStr<A>> = Obj::place();
                let old = std::mem::replace(&mut self.slots[i].0, dst);
                unsafe { ptr::copy_nonoverlapping(old.p as *const u8, self.slots[i].0.p as *mut u8, std::mem::size_of::<EStr<A>>()) };
                old.vacate();
            }
            O::Recreate => self.destroy(i),
            O::Burst => {
                cx().quiet_place = true;
                let n = 1 + draw(pick(&[8, 60, 300]));
                trace!("      {n} times");
                for _ in 0..n {
                    if self.slots[i].1.len() > self.max {
                        break;
                    }
                    let c = self.ch();
                    match sut(alloc, || s.push(c)) {
                        Out::Ok(()) => self.slots[i].1.push(c),
                        out => {
                            let m = self.slots[i].1.clone();
                            self.failed(i, out, &m, "push");
                            break;
                        }
                    }
                }
            }
            O::Flow => {
                cx().quiet_place = true;
                let n = draw(pick(&[10, 60, 400]));
                let how = draw(3);
                let t = if how == 2 { self.text(20) } else { String::new() };
                let c = self.ch();
                trace!("      {n} times {}", if how == 2 { "an assignment, then popping" } else { "a push, then a pop" });
                self.asked = if how == 2 { t.len() } else { m.len() + c.len_utf8() };
                for _ in 0..n {
                    let out = match how {
                        0 => sut(alloc, || s.push(c)),
                        1 => sut(alloc, || s.insert(0, c)),
                        _ => sut(alloc, || s.assign(t.as_str())),
                    };
                    if let Out::Ok(()) = out {
                        match how {
                            0 => self.slots[i].1.push(c),
                            1 => self.slots[i].1.insert(0, c),
                            _ => self.slots[i].1 = t.clone(),
                        }
                    } else {
                        let m = self.slots[i].1.clone();
                        self.failed(i, out, &m, "addition");
                        break;
                    }
                    let k = if how == 2 { t.chars().count() / 2 } else { 1 };
                    for _ in 0..k {
                        if let Out::Ok(g) = sut(0, || if how == 1 { s.remove(0) } else { s.pop() }) {
                            let w = if how == 1 { Some(self.slots[i].1.remove(0)) } else { self.slots[i].1.pop() };
                            if g != w {
                                violate(Class::Model, format!("removal returned {g:?}, should be {w:?}"));
                            }
                        }
                    }
                }
                probe("long-steady-flow");
            }
            O::Drain => {
                let n = 1 + draw(200);
                for _ in 0..n {
                    if let Out::Ok(g) = sut(0, || s.pop()) {
                        let w = self.slots[i].1.pop();
                        if g != w {
                            violate(Class::Model, format!("pop returned {g:?}, should be {w:?}"));
                        }
                        if w.is_none() {
                            break;
                        }
                    }
                }
            }
            O::BadIndex => {
                // an index past the end, or inside a character, is refused and changes nothing
                let k = draw(m.len() as u32 + 4) as usize;
                if m.is_char_boundary(k) {
                    return;
                }
                trace!("      at {k}");
                let c = self.ch();
                if draw(2) == 1 {
                    match sut(0, || s.insert(k, c)) {
                        Out::Ok(()) => violate(Class::Model, format!("insertion at {k} in {} was accepted", brief(&m))),
                        _ => probe("insertion-refused"),
                    }
                } else {
                    match sut(0, || s.remove(k)) {
                        Out::Ok(Some(c)) => violate(Class::Model, format!("removal at {k} in {} gives {c:?}", brief(&m))),
                        _ => probe("removal-refused"),
                    }
                }
            }
        }
    }
    fn destroy(&mut self, i: usize) {
        let (o, _) = self.slots.remove(i);
        self.accts.remove(i);
        let p = o.p;
        if let Out::Panic(e) = sut(0, || unsafe { ptr::drop_in_place(p) }) {
            violate(Class::Panic, format!("destruction panicked: {e}"));
        }
        o.vacate();
    }
}

impl<A: Al> World for StrWorld<A> {
    fn step(&mut self) {
        led().tag = self.tag;
        let k = weighted(&self.w);
        self.go(OPS[k].0, OPS[k].2);
    }
    fn verify(&mut self) {
        for (o, m) in &self.slots {
            Self::check_one(o.get(), m);
            note(mix(m.len() as u64, m.bytes().last().unwrap_or(0) as u64));
            state(m.len().min(40) as u64, o.get().capacity().min(64) as u64, 7);
        }
    }
    fn peek(&self) {
        if self.slots.is_empty() {
            return;
        }
        op("read");
        let (o, m) = &self.slots[draw(self.slots.len() as u32) as usize];
        let s: &EStr<A> = o.get();
        match draw(5) {
            0 => Self::check_one(s, m),
            1 => {
                let _ = sut(0, || s.chars().count());
                crate::sched::yield_point(30);
                match sut(0, || format!("{s}|{s:?}")) {
                    Out::Ok(t) => {
                        if t != format!("{m}|\"{m}\"") {
                            violate(Class::Model, "a reader rendered another text");
                        }
                    }
                    _ => violate(Class::Panic, "a reader's rendering panicked"),
                }
            }
            2 => {
                let h = |t: &str| DefaultHash::<str>::hash(t);
                match sut(0, || DefaultHash::<EStr<A>>::hash(s)) {
                    Out::Ok(g) if g == h(m) => {}
                    _ => violate(Class::Model, "a reader hashed another text"),
                }
            }
            3 => {
                let (o2, m2) = &self.slots[draw(self.slots.len() as u32) as usize];
                let t: &EStr<A> = o2.get();
                match sut(0, || *s == *t) {
                    Out::Ok(g) if g == (m == m2) => {}
                    _ => violate(Class::Model, "a reader's comparison is wrong"),
                }
            }
            _ => {
                if A::SIM {
                    let c: Obj<EStr<A>> = Obj::place();
                    let p = c.p;
                    match sut(0, || {
                        if let Some(k) = A::clone_string(s) {
                            unsafe { ptr::write(p, k) }
                        }
                    }) {
                        Out::Ok(()) => {
                            crate::sched::yield_point(31);
                            Self::check_one(c.get(), m);
                            let _ = sut(0, || unsafe { ptr::drop_in_place(p) });
                        }
                        _ => violate(Class::Panic, "a reader's copy panicked"),
                    }
                    c.vacate();
                }
            }
        }
    }
    fn expect_live(&self) -> isize {
        0
    }
    fn finish(&mut self) {
        while !self.slots.is_empty() {
            self.destroy(self.slots.len() - 1);
        }
    }
    fn tag(&self) -> u32 {
        self.tag
    }
}
