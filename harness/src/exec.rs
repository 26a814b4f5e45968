//! Hand-driven polling. Tasks are polled when woken (and sometimes
//! spuriously); a task never polled again because nobody woke it stays
//! asleep, which the watchdog recognises as a process that cannot move.
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex};
use std::task::{Context, Poll, Wake, Waker};

use blocking_permit::{blocking_permit_future, BlockingPermit, Semaphore};

use crate::rng::Rng;

#[derive(Default)]
pub struct Signal { woken: Mutex<bool>, cv: Condvar, pub wakes: AtomicU64 }

impl Wake for Signal {
    fn wake(self: Arc<Self>) {
        self.wakes.fetch_add(1, SeqCst);
        *self.woken.lock().unwrap() = true;
        self.cv.notify_all();
    }
}

impl Signal {
    pub fn new() -> Arc<Signal> { Arc::new(Signal::default()) }
    pub fn take(&self) -> bool { std::mem::replace(&mut *self.woken.lock().unwrap(), false) }
    pub fn is_woken(&self) -> bool { *self.woken.lock().unwrap() }
    /// Sleep until woken, however long that takes.
    pub fn wait(&self) {
        let mut g = self.woken.lock().unwrap();
        while !*g { g = self.cv.wait(g).unwrap(); }
        *g = false;
    }
}

/// How a task is driven.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Drive {
    /// Poll only after a wake-up.
    Woken,
    /// Also poll at random times without one, changing wakers.
    Spurious,
}

pub struct Driver {
    pub sig: Arc<Signal>,
    pub waker: Waker,
    pub drive: Drive,
    pub rng: Rng,
    pub polls: u64,
    pub pendings: u64,
    /// Nothing but the task itself can wake it: a pending poll without a
    /// wake-up is already the end.
    pub alone: bool,
    /// Permits some rival took, given back before any sleep.
    rival: Option<&'static Semaphore>,
    held: Vec<BlockingPermit<'static>>,
    /// Pending polls while a rival held permits.
    pub contended: u64,
}

/// A task that can never be polled again.
#[derive(Debug)]
pub struct Lost;

impl Driver {
    pub fn new(seed: u64, drive: Drive, alone: bool) -> Driver {
        let sig = Signal::new();
        Driver { waker: Waker::from(sig.clone()), sig, drive, rng: Rng::new(seed), polls: 0, pendings: 0, alone, rival: None, held: Vec::new(), contended: 0 }
    }

    /// Let a rival take permits, if there are any to take.
    pub fn contend(&mut self, sem: Option<&'static Semaphore>) { self.rival = sem; }

    fn take_permits(&mut self, sem: &'static Semaphore, cx: &mut Context<'_>) {
        loop {
            match Pin::new(&mut blocking_permit_future(sem)).poll(cx) {
                Poll::Ready(Ok(p)) => { p.enter(); self.held.push(p); }
                _ => return,
            }
        }
    }

    /// Poll `f` to completion.
    pub fn run<T>(&mut self, mut f: impl FnMut(&mut Context<'_>) -> Poll<T>) -> Result<T, Lost> {
        loop {
            if self.drive == Drive::Spurious && self.rng.chance(1, 4) {
                // Tasks may migrate: a later poll supersedes the waker.
                let s = Signal::new();
                self.waker = Waker::from(s.clone());
                self.sig = s;
            }
            let w = self.waker.clone();
            let mut cx = Context::from_waker(&w);
            self.polls += 1;
            if let Some(sem) = self.rival {
                if self.held.is_empty() && self.rng.chance(1, 3) { self.take_permits(sem, &mut Context::from_waker(Waker::noop())); }
            }
            if let Poll::Ready(v) = f(&mut cx) { self.held.clear(); return Ok(v); }
            self.pendings += 1;
            if !self.held.is_empty() {
                self.contended += 1;
                if self.drive == Drive::Woken || self.rng.chance(1, 2) { self.held.clear(); }
            }
            if self.drive == Drive::Spurious && self.rng.chance(1, 3) {
                std::thread::yield_now();
                continue;
            }
            self.held.clear();
            if self.alone {
                if !self.sig.take() { return Err(Lost); }
            } else {
                self.sig.wait();
            }
        }
    }
}

/// Drive a boxed future with default settings.
pub fn block_on<T>(mut fut: Pin<Box<dyn Future<Output = T> + '_>>) -> T {
    let mut d = Driver::new(1, Drive::Woken, false);
    d.run(|cx| fut.as_mut().poll(cx)).expect("waits")
}
