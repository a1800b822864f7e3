//! Stands in for `flume`.
use sched_rt::chan::{Chan, Fail};
use std::sync::Arc;
use std::time::Duration;

macro_rules! errors {
    ($($n:ident),*) => { $(
        #[derive(Copy, Clone, PartialEq, Eq)]
        pub struct $n<T>(pub T);
        impl<T> $n<T> { pub fn into_inner(self) -> T { self.0 } }
        impl<T> std::fmt::Debug for $n<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(stringify!($n)) } }
        impl<T> std::fmt::Display for $n<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("sending on a closed channel") } }
        impl<T> std::error::Error for $n<T> {}
    )* };
}
errors!(SendError);
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum RecvError { Disconnected }
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum TryRecvError { Empty, Disconnected }
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum RecvTimeoutError { Timeout, Disconnected }
#[derive(Copy, Clone, PartialEq, Eq)]
pub enum TrySendError<T> { Full(T), Disconnected(T) }
impl<T> TrySendError<T> { pub fn into_inner(self) -> T { match self { TrySendError::Full(t) | TrySendError::Disconnected(t) => t } } }
impl<T> std::fmt::Debug for TrySendError<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("TrySendError") } }
impl<T> std::fmt::Display for TrySendError<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("sending failed") } }
impl<T> std::error::Error for TrySendError<T> {}
macro_rules! plain { ($($n:ident),*) => { $( impl std::fmt::Display for $n { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{self:?}") } } impl std::error::Error for $n {} )* } }
plain!(RecvError, TryRecvError, RecvTimeoutError);

pub struct Sender<T>(Arc<Chan<T>>);
pub struct Receiver<T>(Arc<Chan<T>>);

pub fn bounded<T>(n: usize) -> (Sender<T>, Receiver<T>) {
    let c = Arc::new(Chan::new(Some(n)));
    (Sender(c.clone()), Receiver(c))
}
pub fn unbounded<T>() -> (Sender<T>, Receiver<T>) {
    let c = Arc::new(Chan::new(None));
    (Sender(c.clone()), Receiver(c))
}
impl<T> Sender<T> {
    pub fn send(&self, t: T) -> Result<(), SendError<T>> {
        self.0.send(t).map_err(SendError)
    }
    pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
        self.0.try_send(t).map_err(|(f, t)| if f == Fail::Disconnected { TrySendError::Disconnected(t) } else { TrySendError::Full(t) })
    }
    pub fn is_disconnected(&self) -> bool { self.0.receivers() == 0 }
    pub fn len(&self) -> usize { self.0.len() }
    pub fn is_empty(&self) -> bool { self.0.len() == 0 }
    pub fn is_full(&self) -> bool { let n = self.0.len(); self.0.cap().map(|c| n >= c).unwrap_or(false) }
    pub fn capacity(&self) -> Option<usize> { self.0.cap() }
    pub fn receiver_count(&self) -> usize { self.0.receivers() }
}
impl<T> Receiver<T> {
    pub fn recv(&self) -> Result<T, RecvError> {
        self.0.recv().map_err(|_| RecvError::Disconnected)
    }
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        self.0.try_recv().map_err(|f| if f == Fail::Disconnected { TryRecvError::Disconnected } else { TryRecvError::Empty })
    }
    pub fn recv_timeout(&self, _: Duration) -> Result<T, RecvTimeoutError> {
        self.0.recv_timeout().map_err(|f| if f == Fail::Disconnected { RecvTimeoutError::Disconnected } else { RecvTimeoutError::Timeout })
    }
    pub fn is_disconnected(&self) -> bool { self.0.senders() == 0 }
    pub fn len(&self) -> usize { self.0.len() }
    pub fn is_empty(&self) -> bool { self.0.len() == 0 }
    pub fn is_full(&self) -> bool { let n = self.0.len(); self.0.cap().map(|c| n >= c).unwrap_or(false) }
    pub fn capacity(&self) -> Option<usize> { self.0.cap() }
    pub fn sender_count(&self) -> usize { self.0.senders() }
    pub fn iter(&self) -> Iter<'_, T> { Iter(self) }
    pub fn try_iter(&self) -> TryIter<'_, T> { TryIter(self) }
    pub fn drain(&self) -> std::vec::IntoIter<T> { self.try_iter().collect::<Vec<_>>().into_iter() }
}
impl<T> Clone for Sender<T> { fn clone(&self) -> Self { self.0.add_sender(); Sender(self.0.clone()) } }
impl<T> Clone for Receiver<T> { fn clone(&self) -> Self { self.0.add_receiver(); Receiver(self.0.clone()) } }
impl<T> Drop for Sender<T> { fn drop(&mut self) { self.0.drop_sender() } }
impl<T> Drop for Receiver<T> { fn drop(&mut self) { self.0.drop_receiver() } }
pub struct Iter<'a, T>(&'a Receiver<T>);
impl<'a, T> Iterator for Iter<'a, T> { type Item = T; fn next(&mut self) -> Option<T> { self.0.recv().ok() } }
pub struct TryIter<'a, T>(&'a Receiver<T>);
impl<'a, T> Iterator for TryIter<'a, T> { type Item = T; fn next(&mut self) -> Option<T> { self.0.try_recv().ok() } }
pub struct IntoIter<T>(Receiver<T>);
impl<T> Iterator for IntoIter<T> { type Item = T; fn next(&mut self) -> Option<T> { self.0.recv().ok() } }
impl<T> IntoIterator for Receiver<T> { type Item = T; type IntoIter = IntoIter<T>; fn into_iter(self) -> IntoIter<T> { IntoIter(self) } }
impl<'a, T> IntoIterator for &'a Receiver<T> { type Item = T; type IntoIter = Iter<'a, T>; fn into_iter(self) -> Iter<'a, T> { Iter(self) } }
