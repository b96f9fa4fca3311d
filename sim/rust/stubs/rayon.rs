// Stand-in for rayon's thread pool: worker threads are simulated. Jobs handed over with spawn wait in a
// queue; which of them runs, and when, is decided by the simulator's seeded scheduler at every point at
// which the caller touches the pool or a channel. install runs its closure to the end, as rayon's does.
use std::cell::RefCell;
type Job = Box<dyn FnOnce() + 'static>;
#[derive(Default)]
pub struct Sched { pub s: u64, pub mode: u32, q: Vec<(u64, Job)>, fifo: u64, pub spawned: u64, pub finished: u64, pub switches: u64, pub hash: u64, pub fail_build: bool, depth: u32, pub died: u64 }
thread_local! { static S: RefCell<Sched> = RefCell::new(Sched::default()); }
fn w<R>(f: impl FnOnce(&mut Sched) -> R) -> R { S.with(|s| f(&mut s.borrow_mut())) }
fn below(n: u64) -> u64 { w(|s| { s.s ^= s.s << 13; s.s ^= s.s >> 7; s.s ^= s.s << 17; s.hash = (s.hash ^ s.s).wrapping_mul(0x100000001b3); if n == 0 { 0 } else { (s.s >> 11) % n } }) }
pub mod sim {
    use super::*;
    pub fn reset(seed: u64, mode: u32) { let old = w(|s| std::mem::take(&mut s.q)); drop(old); w(|s| *s = Sched { s: seed | 1, mode, hash: seed, ..Default::default() }); }
    pub fn stat(i: i32) -> u64 { w(|s| match i { 0 => s.spawned, 1 => s.finished, 2 => s.q.len() as u64, 3 => s.switches, 4 => s.hash, _ => s.died }) }
    pub fn fail_next_pool(b: bool) { w(|s| s.fail_build = b); }
    /// Runs one waiting job, chosen by the scheduler; false if there is none.
    pub fn run_one() -> bool {
        let n = w(|s| s.q.len() as u64);
        if n == 0 { return false; }
        let k = below(n) as usize;
        let (_, j) = w(|s| { s.switches += 1; s.q.remove(k) });
        if std::panic::catch_unwind(std::panic::AssertUnwindSafe(j)).is_err() { w(|s| s.died += 1); }
        w(|s| s.finished += 1);
        true
    }
    /// A point at which worker threads may make progress.
    pub fn point() {
        if w(|s| s.depth > 0) { return; }
        w(|s| s.depth += 1);
        let mode = w(|s| s.mode);
        let n = match mode { 0 => 0, 1 => below(2), 2 => below(4), _ => u64::MAX };
        let mut i = 0;
        while i < n && run_one() { i += 1; }
        w(|s| s.depth -= 1);
    }
    pub fn drain() -> u32 { let mut n = 0; while run_one() { n += 1; } n }
}
#[derive(Debug)]
pub struct ThreadPoolBuildError;
impl std::fmt::Display for ThreadPoolBuildError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "cannot start worker threads") } }
impl std::error::Error for ThreadPoolBuildError {}
#[derive(Default)]
pub struct ThreadPoolBuilder { n: usize }
impl ThreadPoolBuilder {
    pub fn new() -> Self { Self::default() }
    pub fn num_threads(mut self, n: usize) -> Self { self.n = n; self }
    pub fn thread_name<F: FnMut(usize) -> String + 'static>(self, _f: F) -> Self { self }
    pub fn stack_size(self, _n: usize) -> Self { self }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> { if w(|s| std::mem::take(&mut s.fail_build)) { Err(ThreadPoolBuildError) } else { Ok(ThreadPool { n: if self.n == 0 { 4 } else { self.n } }) } }
}
pub struct ThreadPool { n: usize }
fn push(j: Job) { w(|s| { s.fifo += 1; let f = s.fifo; s.spawned += 1; s.q.push((f, j)); }); sim::point(); }
impl ThreadPool {
    pub fn install<OP, R>(&self, op: OP) -> R where OP: FnOnce() -> R + Send, R: Send {
        sim::point();
        w(|s| s.spawned += 1);
        let r = op();
        w(|s| s.finished += 1);
        sim::point();
        r
    }
    pub fn spawn<OP: FnOnce() + Send + 'static>(&self, op: OP) { push(Box::new(op)); }
    pub fn spawn_fifo<OP: FnOnce() + Send + 'static>(&self, op: OP) { push(Box::new(op)); }
    pub fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB) where A: FnOnce() -> RA + Send, B: FnOnce() -> RB + Send, RA: Send, RB: Send { join(a, b) }
    pub fn scope<'s, OP, R>(&self, op: OP) -> R where OP: FnOnce(&Scope<'s>) -> R + Send, R: Send { scope(op) }
    pub fn current_num_threads(&self) -> usize { self.n }
    pub fn current_thread_index(&self) -> Option<usize> { None }
}
pub fn spawn<OP: FnOnce() + Send + 'static>(op: OP) { push(Box::new(op)); }
pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB) where A: FnOnce() -> RA + Send, B: FnOnce() -> RB + Send, RA: Send, RB: Send {
    if below(2) == 0 { let x = a(); let y = b(); (x, y) } else { let y = b(); let x = a(); (x, y) }
}
pub struct Scope<'s> { q: RefCell<Vec<Box<dyn FnOnce(&Scope<'s>) + Send + 's>>> }
impl<'s> Scope<'s> { pub fn spawn<B: FnOnce(&Scope<'s>) + Send + 's>(&self, b: B) { self.q.borrow_mut().push(Box::new(b)); } }
pub fn scope<'s, OP, R>(op: OP) -> R where OP: FnOnce(&Scope<'s>) -> R + Send, R: Send {
    let sc = Scope { q: RefCell::new(Vec::new()) };
    let r = op(&sc);
    loop {
        let n = sc.q.borrow().len() as u64;
        if n == 0 { break; }
        let k = below(n) as usize;
        let j = sc.q.borrow_mut().remove(k);
        w(|s| s.spawned += 1);
        j(&sc);
        w(|s| s.finished += 1);
    }
    r
}
pub fn current_num_threads() -> usize { 4 }
