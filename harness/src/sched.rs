//! Serialises a group of threads at yield points and chooses, from the
//! case's seed, which one runs next. Only for code holding no locks across
//! yield points.
use std::cell::Cell;
use std::sync::{Arc, Condvar, Mutex};

use crate::rng::{mix, Rng};

struct St { rng: Rng, live: Vec<usize>, current: usize, started: usize, want: usize, hash: u64, switches: u64, last: usize }

pub struct Sched { st: Mutex<St>, cv: Condvar }

thread_local! { static ME: Cell<usize> = const { Cell::new(usize::MAX) }; }

impl Sched {
    pub fn new(n: usize, seed: u64) -> Arc<Sched> {
        Arc::new(Sched {
            st: Mutex::new(St { rng: Rng::new(seed), live: (0..n).collect(), current: usize::MAX, started: 0, want: n, hash: 0, switches: 0, last: 0 }),
            cv: Condvar::new(),
        })
    }

    fn choose(s: &mut St) {
        if s.live.is_empty() { s.current = usize::MAX; return; }
        let i = s.rng.usize(s.live.len());
        s.current = s.live[i];
        if s.current != s.last { s.switches += 1; s.last = s.current; }
        s.hash = mix(s.hash ^ (s.current as u64 + 1));
    }

    /// Join the group; returns when first scheduled.
    pub fn enter(&self, me: usize) {
        ME.with(|m| m.set(me));
        let mut s = self.st.lock().unwrap();
        s.started += 1;
        if s.started == s.want { Sched::choose(&mut s); self.cv.notify_all(); }
        while s.current != me { s = self.cv.wait(s).unwrap(); }
    }

    /// Let the schedule decide who continues.
    pub fn point(&self) {
        let me = ME.with(|m| m.get());
        if me == usize::MAX { return; }
        let mut s = self.st.lock().unwrap();
        if !s.live.contains(&me) { return; }
        Sched::choose(&mut s);
        self.cv.notify_all();
        while s.current != me { s = self.cv.wait(s).unwrap(); }
    }

    pub fn leave(&self) {
        let me = ME.with(|m| m.replace(usize::MAX));
        let mut s = self.st.lock().unwrap();
        s.live.retain(|x| *x != me);
        Sched::choose(&mut s);
        self.cv.notify_all();
    }

    /// (hash of the schedule, number of switches)
    pub fn outcome(&self) -> (u64, u64) {
        let s = self.st.lock().unwrap();
        (s.hash, s.switches)
    }
}

/// Leaves the group even when the thread's closure unwinds.
pub struct Member(pub Arc<Sched>);
impl Drop for Member { fn drop(&mut self) { self.0.leave(); } }
