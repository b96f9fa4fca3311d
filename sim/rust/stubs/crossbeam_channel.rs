// Stand-in for crossbeam-channel: a channel between simulated threads. A receiver that finds nothing lets
// the simulator's scheduler run waiting jobs until something arrives; if nobody is left to send, the run
// has deadlocked, which is reported by a panic.
use std::collections::VecDeque;
use std::sync::{Arc, Mutex};
struct Ch<T> { q: VecDeque<T>, cap: Option<usize>, tx: usize, rx: usize }
pub struct Sender<T>(Arc<Mutex<Ch<T>>>);
pub struct Receiver<T>(Arc<Mutex<Ch<T>>>);
#[derive(Debug, PartialEq, Eq, Clone, Copy)] pub struct RecvError;
#[derive(Debug, PartialEq, Eq, Clone, Copy)] pub enum TryRecvError { Empty, Disconnected }
#[derive(Debug, PartialEq, Eq, Clone, Copy)] pub enum RecvTimeoutError { Timeout, Disconnected }
#[derive(PartialEq, Eq, Clone, Copy)] pub struct SendError<T>(pub T);
#[derive(PartialEq, Eq, Clone, Copy)] pub enum TrySendError<T> { Full(T), Disconnected(T) }
impl<T> std::fmt::Debug for SendError<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "SendError(..)") } }
impl<T> std::fmt::Debug for TrySendError<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "TrySendError(..)") } }
impl std::fmt::Display for RecvError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "receiving on an empty and disconnected channel") } }
impl std::error::Error for RecvError {}
fn mk<T>(cap: Option<usize>) -> (Sender<T>, Receiver<T>) { let c = Arc::new(Mutex::new(Ch { q: VecDeque::new(), cap, tx: 1, rx: 1 })); (Sender(c.clone()), Receiver(c)) }
pub fn bounded<T>(n: usize) -> (Sender<T>, Receiver<T>) { mk(Some(n)) }
pub fn unbounded<T>() -> (Sender<T>, Receiver<T>) { mk(None) }
fn g<T, R>(c: &Arc<Mutex<Ch<T>>>, f: impl FnOnce(&mut Ch<T>) -> R) -> R { f(&mut c.lock().unwrap_or_else(|e| e.into_inner())) }
impl<T> Sender<T> {
    pub fn try_send(&self, v: T) -> Result<(), TrySendError<T>> { g(&self.0, |c| if c.rx == 0 { Err(TrySendError::Disconnected(v)) } else if c.cap.map_or(false, |n| c.q.len() >= n.max(1)) { Err(TrySendError::Full(v)) } else { c.q.push_back(v); Ok(()) }) }
    pub fn send(&self, v: T) -> Result<(), SendError<T>> { match self.try_send(v) { Ok(()) => Ok(()), Err(TrySendError::Disconnected(v)) => Err(SendError(v)), Err(TrySendError::Full(_)) => panic!("simulated deadlock: send on a full channel") } }
    pub fn is_full(&self) -> bool { g(&self.0, |c| c.cap.map_or(false, |n| c.q.len() >= n)) }
    pub fn is_empty(&self) -> bool { g(&self.0, |c| c.q.is_empty()) }
    pub fn len(&self) -> usize { g(&self.0, |c| c.q.len()) }
}
impl<T> Clone for Sender<T> { fn clone(&self) -> Self { g(&self.0, |c| c.tx += 1); Sender(self.0.clone()) } }
impl<T> Clone for Receiver<T> { fn clone(&self) -> Self { g(&self.0, |c| c.rx += 1); Receiver(self.0.clone()) } }
impl<T> Drop for Sender<T> { fn drop(&mut self) { g(&self.0, |c| c.tx -= 1); } }
impl<T> Drop for Receiver<T> { fn drop(&mut self) { let q = g(&self.0, |c| { c.rx -= 1; if c.rx == 0 { std::mem::take(&mut c.q) } else { VecDeque::new() } }); drop(q); } }
impl<T> Receiver<T> {
    pub fn try_recv(&self) -> Result<T, TryRecvError> { rayon::sim::point(); self.take() }
    fn take(&self) -> Result<T, TryRecvError> { g(&self.0, |c| match c.q.pop_front() { Some(v) => Ok(v), None if c.tx == 0 => Err(TryRecvError::Disconnected), None => Err(TryRecvError::Empty) }) }
    pub fn recv(&self) -> Result<T, RecvError> {
        rayon::sim::point();
        loop {
            match self.take() { Ok(v) => return Ok(v), Err(TryRecvError::Disconnected) => return Err(RecvError), Err(TryRecvError::Empty) => {} }
            if !rayon::sim::run_one() { panic!("simulated deadlock: receiving from a channel nobody will send to"); }
        }
    }
    pub fn recv_timeout(&self, _d: std::time::Duration) -> Result<T, RecvTimeoutError> { rayon::sim::point(); self.take().map_err(|e| if e == TryRecvError::Empty { RecvTimeoutError::Timeout } else { RecvTimeoutError::Disconnected }) }
    pub fn is_full(&self) -> bool { rayon::sim::point(); g(&self.0, |c| c.cap.map_or(false, |n| c.q.len() >= n)) }
    pub fn is_empty(&self) -> bool { rayon::sim::point(); g(&self.0, |c| c.q.is_empty()) }
    pub fn len(&self) -> usize { rayon::sim::point(); g(&self.0, |c| c.q.len()) }
    pub fn iter(&self) -> Iter<'_, T> { Iter(self) }
    pub fn try_iter(&self) -> TryIter<'_, T> { TryIter(self) }
}
pub struct Iter<'a, T>(&'a Receiver<T>);
impl<'a, T> Iterator for Iter<'a, T> { type Item = T; fn next(&mut self) -> Option<T> { self.0.recv().ok() } }
pub struct TryIter<'a, T>(&'a Receiver<T>);
impl<'a, T> Iterator for TryIter<'a, T> { type Item = T; fn next(&mut self) -> Option<T> { self.0.try_recv().ok() } }
