//! Several threads: readers that share one container (C13), and containers each used by one thread at
//! a time (C14). Who runs is decided by the simulator at every seam.
use super::*;
use crate::sched::run_threads;

#[derive(Clone, Copy)]
struct Ptr(*mut dyn World);
unsafe impl Send for Ptr {}

/// One container, built by an ordinary history, then read by several threads at once while all its
/// memory is write-protected; repeated.
pub fn readers(mut w: Box<dyn World>, want: u32) {
    let mut done = 0;
    while cx().more(done, want) {
        cx().chunk();
        done += 1;
        if draw(6) < 4 {
            w.step();
            w.verify();
            conserve(&*w);
            cx().heap.tick();
            continue;
        }
        op("concurrent readers");
        let n = 2 + draw(3) as usize;
        let den = pick(&[2u32, 3, 6, 20]);
        trace!("{n} readers, all memory of the container write-protected");
        let p = Ptr(&mut *w);
        cx().heap.freeze();
        let mut bodies: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
        for _ in 0..n {
            let k = 1 + draw(4);
            bodies.push(Box::new(move || {
                let q = p;
                for _ in 0..k {
                    let w: &dyn World = unsafe { &*q.0 };
                    led().tag = w.tag();
                    w.peek();
                }
            }));
        }
        run_threads(den, bodies);
        cx().heap.thaw();
        w.verify();
        conserve(&*w);
    }
    finish_marker();
    cx().chunk();
    op("end");
    w.finish();
    w.verify();
    conserve(&*w);
}

pub struct Place {
    pub w: Box<dyn World>,
    /// Whether requests to the process allocator belong to this container.
    pub spy: bool,
    pub name: &'static str,
    pub busy: bool,
    pub last: usize,
}
#[derive(Clone, Copy)]
struct Shelf(*mut Vec<Place>);
unsafe impl Send for Shelf {}

fn turn(s: Shelf, me: usize) {
    let q = s;
    let v = unsafe { &mut *q.0 };
    let free: Vec<usize> = (0..v.len()).filter(|i| !v[*i].busy).collect();
    if free.is_empty() {
        return;
    }
    let i = free[draw(free.len() as u32) as usize];
    v[i].busy = true;
    if v[i].last != me {
        probe("container handed to another thread");
        v[i].last = me;
    }
    trace!("thread {me} takes container {i}");
    cx().spy = v[i].spy;
    cx().world = v[i].name;
    let n = 1 + draw(3);
    for _ in 0..n {
        v[i].w.step();
        cx().quiet_place = false;
        v[i].w.verify();
        conserve(&*v[i].w);
    }
    v[i].busy = false;
    crate::sched::yield_point(7);
}

/// Several containers, each used by whichever thread holds it.
pub fn isolation(mut places: Vec<Place>, want: u32) {
    let mut done = 0;
    while cx().more(done, want) {
        cx().chunk();
        done += 1;
        op("parallel phase");
        let n = 2 + draw(3) as usize;
        let den = pick(&[3u32, 8, 30, 100]);
        let s = Shelf(&mut places);
        let mut bodies: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
        for t in 0..n {
            let k = 1 + draw(3);
            bodies.push(Box::new(move || {
                let q = s;
                for _ in 0..k {
                    turn(q, t);
                }
            }));
        }
        run_threads(den, bodies);
        cx().heap.tick();
    }
    finish_marker();
    cx().chunk();
    op("end");
    let s = Shelf(&mut places);
    let n = places.len();
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
    for t in 0..n {
        bodies.push(Box::new(move || {
            let q = s;
            let v = unsafe { &mut *q.0 };
            cx().spy = v[t].spy;
            cx().world = v[t].name;
            v[t].w.finish();
            v[t].w.verify();
            conserve(&*v[t].w);
        }));
    }
    run_threads(4, bodies);
}
