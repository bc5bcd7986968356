//! Threads under the simulator's control: real threads, of which exactly one holds the baton; who gets
//! it next, at every seam, is a simulator choice.
use crate::ctx::*;
use crate::elem::led;
use std::cell::Cell;
use std::sync::{Condvar, Mutex};

const NONE: usize = usize::MAX;
thread_local! {
    static ME: Cell<usize> = const { Cell::new(NONE) };
}
pub fn is_sim_thread() -> bool {
    ME.with(|m| m.get() != NONE)
}
pub fn adopt_main() {
    ME.with(|m| m.set(0))
}

#[derive(Clone, Copy)]
struct Saved {
    in_sut: bool,
    armed: Option<FK>,
    countdown: u32,
    fault_in_op: Option<FK>,
    op: &'static str,
    tag: u32,
    spy: bool,
    quiet: bool,
    world: &'static str,
}
struct Shared {
    active: usize,
    done: Vec<bool>,
    saved: Vec<Saved>,
    den: u32,
}
static SH: Mutex<Shared> = Mutex::new(Shared { active: 0, done: Vec::new(), saved: Vec::new(), den: 3 });
static CV: Condvar = Condvar::new();

fn snap() -> Saved {
    let c = cx();
    Saved {
        in_sut: c.in_sut,
        armed: c.armed,
        countdown: c.countdown,
        fault_in_op: c.fault_in_op,
        op: c.op,
        tag: led().tag,
        spy: c.spy,
        quiet: c.quiet_place,
        world: c.world,
    }
}
fn restore(s: Saved) {
    let c = cx();
    c.in_sut = s.in_sut;
    c.armed = s.armed;
    c.countdown = s.countdown;
    c.fault_in_op = s.fault_in_op;
    c.op = s.op;
    led().tag = s.tag;
    c.spy = s.spy;
    c.quiet_place = s.quiet;
    c.world = s.world;
}

/// A point at which the scheduler may hand the baton to another thread.
pub fn yield_point(_why: u32) {
    let me = ME.with(|m| m.get());
    if me == NONE {
        return;
    }
    // quiet while the simulator itself thinks
    let was = cx().in_sut;
    cx().in_sut = false;
    let mut g = SH.lock().unwrap();
    let ready: usize = g.done.iter().filter(|d| !**d).count();
    if ready <= 1 {
        drop(g);
        cx().in_sut = was;
        return;
    }
    let den = g.den;
    if !chance(1, den) {
        drop(g);
        cx().in_sut = was;
        return;
    }
    let k = draw(ready as u32 - 1) as usize;
    let mut next = NONE;
    let mut seen = 0;
    for (i, d) in g.done.iter().enumerate() {
        if !*d && i != me {
            if seen == k {
                next = i;
            }
            seen += 1;
        }
    }
    cx().st.switches += 1;
    note(0xC000 + next as u64);
    cx().in_sut = was;
    let s = snap();
    g.saved[me] = s;
    g.active = next;
    cx().in_sut = false;
    CV.notify_all();
    while g.active != me {
        g = CV.wait(g).unwrap();
    }
    let s = g.saved[me];
    drop(g);
    restore(s);
}

/// Runs the bodies on one thread each, interleaved by the simulator; returns when all are done.
pub fn run_threads(den: u32, bodies: Vec<Box<dyn FnOnce() + Send>>) {
    let n = bodies.len();
    let base = snap();
    {
        let mut g = SH.lock().unwrap();
        g.active = NONE;
        g.done = vec![false; n];
        g.saved = vec![base; n];
        g.den = den.max(2);
    }
    cx().threads = true;
    ME.with(|m| m.set(NONE));
    let mut hs = Vec::new();
    for (i, b) in bodies.into_iter().enumerate() {
        let h = std::thread::Builder::new()
            .stack_size(256 << 10)
            .spawn(move || {
                {
                    let mut g = SH.lock().unwrap();
                    while g.active != i {
                        g = CV.wait(g).unwrap();
                    }
                    let s = g.saved[i];
                    drop(g);
                    restore(s);
                }
                ME.with(|m| m.set(i));
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(b));
                cx().in_sut = false;
                if let Err(p) = r {
                    violate(Class::Panic, format!("panic outside any operation: {}", panic_text(&*p)));
                }
                ME.with(|m| m.set(NONE));
                let mut g = SH.lock().unwrap();
                g.done[i] = true;
                let left: Vec<usize> = (0..g.done.len()).filter(|k| !g.done[*k]).collect();
                let next = if left.is_empty() { NONE - 1 } else { left[draw(left.len() as u32) as usize] };
                g.active = next;
                CV.notify_all();
            })
            .unwrap();
        hs.push(h);
    }
    {
        let mut g = SH.lock().unwrap();
        g.active = draw(n as u32) as usize;
        CV.notify_all();
        while g.active != NONE - 1 {
            g = CV.wait(g).unwrap();
        }
    }
    for h in hs {
        let _ = h.join();
    }
    ME.with(|m| m.set(0));
    cx().threads = false;
    restore(base);
}

pub fn panic_text(p: &(dyn std::any::Any + Send)) -> String {
    if p.downcast_ref::<SimFault>().is_some() {
        "injected fault".into()
    } else if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "unknown".into()
    }
}
