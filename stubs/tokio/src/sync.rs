use std::cell::UnsafeCell;
use std::collections::VecDeque;
use std::future::Future;
use std::ops::{Deref, DerefMut};
use std::pin::Pin;
use std::sync::{Arc, Mutex as M};
use std::task::{Context, Poll, Waker};

/// A semaphore that grants permits in the order they are asked for.
struct Semaphore(M<State>);
struct State {
    permits: usize,
    closed: bool,
    queue: VecDeque<(usize, Arc<M<Wait>>)>,
}
#[derive(Default)]
struct Wait {
    granted: bool,
    waker: Option<Waker>,
}
struct Acquire<'a> {
    s: &'a Semaphore,
    n: usize,
    wait: Option<Arc<M<Wait>>>,
    done: bool,
}
impl Semaphore {
    fn new(permits: usize) -> Self {
        Self(M::new(State { permits, closed: false, queue: VecDeque::new() }))
    }
    fn try_acquire(&self, n: usize) -> bool {
        let mut s = self.0.lock().unwrap();
        let ok = s.queue.is_empty() && s.permits >= n && !s.closed;
        if ok {
            s.permits -= n;
        }
        ok
    }
    fn release(&self, n: usize) {
        let mut s = self.0.lock().unwrap();
        s.permits += n;
        while let Some((n, w)) = s.queue.front().cloned() {
            if s.permits < n {
                break;
            }
            s.permits -= n;
            s.queue.pop_front();
            let mut w = w.lock().unwrap();
            w.granted = true;
            if let Some(w) = w.waker.take() {
                w.wake()
            }
        }
    }
    fn close(&self) {
        let mut s = self.0.lock().unwrap();
        s.closed = true;
        for (_, w) in s.queue.drain(..) {
            if let Some(w) = w.lock().unwrap().waker.take() {
                w.wake()
            }
        }
    }
    fn acquire(&self, n: usize) -> Acquire {
        Acquire { s: self, n, wait: None, done: false }
    }
}
impl Future for Acquire<'_> {
    /// false: closed
    type Output = bool;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<bool> {
        match self.wait.clone() {
            None => {
                if self.s.try_acquire(self.n) {
                    self.done = true;
                    return Poll::Ready(true);
                }
                let mut s = self.s.0.lock().unwrap();
                if s.closed {
                    return Poll::Ready(false);
                }
                let w = Arc::new(M::new(Wait { granted: false, waker: Some(cx.waker().clone()) }));
                s.queue.push_back((self.n, w.clone()));
                drop(s);
                self.wait = Some(w);
                Poll::Pending
            }
            Some(w) => {
                let closed = self.s.0.lock().unwrap().closed;
                let mut w = w.lock().unwrap();
                if w.granted {
                    self.done = true;
                    Poll::Ready(true)
                } else if closed {
                    Poll::Ready(false)
                } else {
                    w.waker = Some(cx.waker().clone());
                    Poll::Pending
                }
            }
        }
    }
}
impl Drop for Acquire<'_> {
    fn drop(&mut self) {
        if self.done {
            return;
        }
        if let Some(w) = self.wait.take() {
            let granted = w.lock().unwrap().granted;
            if granted {
                self.s.release(self.n);
            } else {
                self.s.0.lock().unwrap().queue.retain(|q| !Arc::ptr_eq(&q.1, &w));
                self.s.release(0);
            }
        }
    }
}

const ALL: usize = 1 << 20;

pub struct RwLock<T> {
    s: Semaphore,
    v: UnsafeCell<T>,
}
unsafe impl<T: Send> Send for RwLock<T> {}
unsafe impl<T: Send + Sync> Sync for RwLock<T> {}
pub struct RwLockReadGuard<'a, T>(&'a RwLock<T>);
pub struct RwLockWriteGuard<'a, T>(&'a RwLock<T>);
#[derive(Debug)]
pub struct TryLockError(());
impl<T> RwLock<T> {
    pub fn new(v: T) -> Self {
        Self { s: Semaphore::new(ALL), v: UnsafeCell::new(v) }
    }
    pub async fn read(&self) -> RwLockReadGuard<'_, T> {
        self.s.acquire(1).await;
        RwLockReadGuard(self)
    }
    pub async fn write(&self) -> RwLockWriteGuard<'_, T> {
        self.s.acquire(ALL).await;
        RwLockWriteGuard(self)
    }
    pub fn try_read(&self) -> Result<RwLockReadGuard<'_, T>, TryLockError> {
        self.s.try_acquire(1).then(|| RwLockReadGuard(self)).ok_or(TryLockError(()))
    }
    pub fn try_write(&self) -> Result<RwLockWriteGuard<'_, T>, TryLockError> {
        self.s.try_acquire(ALL).then(|| RwLockWriteGuard(self)).ok_or(TryLockError(()))
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.v.get_mut()
    }
    pub fn into_inner(self) -> T {
        self.v.into_inner()
    }
}
impl<T> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.v.get() }
    }
}
impl<T> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        self.0.s.release(1)
    }
}
impl<T> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.v.get() }
    }
}
impl<T> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.0.v.get() }
    }
}
impl<T> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        self.0.s.release(ALL)
    }
}

pub struct Mutex<T>(RwLock<T>);
pub type MutexGuard<'a, T> = RwLockWriteGuard<'a, T>;
impl<T> Mutex<T> {
    pub fn new(v: T) -> Self {
        Self(RwLock::new(v))
    }
    pub async fn lock(&self) -> MutexGuard<'_, T> {
        self.0.write().await
    }
    pub fn try_lock(&self) -> Result<MutexGuard<'_, T>, TryLockError> {
        self.0.try_write()
    }
}

pub mod mpsc {
    use super::*;
    struct Chan<T> {
        s: Semaphore,
        q: M<Queue<T>>,
        cap: usize,
    }
    struct Queue<T> {
        v: VecDeque<T>,
        senders: usize,
        closed: bool,
        waker: Option<Waker>,
    }
    pub struct Sender<T>(Arc<Chan<T>>);
    pub struct Receiver<T>(Arc<Chan<T>>);
    pub struct UnboundedSender<T>(Sender<T>);
    pub type UnboundedReceiver<T> = Receiver<T>;
    pub mod error {
        #[derive(PartialEq, Eq, Clone, Copy)]
        pub struct SendError<T>(pub T);
        #[derive(PartialEq, Eq, Clone, Copy)]
        pub enum TrySendError<T> {
            Full(T),
            Closed(T),
        }
        #[derive(PartialEq, Eq, Clone, Copy, Debug)]
        pub enum TryRecvError {
            Empty,
            Disconnected,
        }
        macro_rules! error {
            ($($t:ident),*) => {$(
                impl<T> std::fmt::Debug for $t<T> {
                    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(stringify!($t)) }
                }
                impl<T> std::fmt::Display for $t<T> {
                    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("channel closed") }
                }
                impl<T> std::error::Error for $t<T> {}
            )*};
        }
        error!(SendError, TrySendError);
    }
    use error::*;

    pub fn channel<T>(cap: usize) -> (Sender<T>, Receiver<T>) {
        assert!(cap > 0, "mpsc bounded channel requires buffer > 0");
        let c = Arc::new(Chan { s: Semaphore::new(cap), cap, q: M::new(Queue { v: VecDeque::new(), senders: 1, closed: false, waker: None }) });
        (Sender(c.clone()), Receiver(c))
    }
    pub fn unbounded_channel<T>() -> (UnboundedSender<T>, UnboundedReceiver<T>) {
        let (s, r) = channel(1 << 40);
        (UnboundedSender(s), r)
    }
    impl<T> Clone for UnboundedSender<T> {
        fn clone(&self) -> Self {
            Self(self.0.clone())
        }
    }
    impl<T> UnboundedSender<T> {
        pub fn send(&self, v: T) -> Result<(), SendError<T>> {
            self.0.try_send(v).map_err(|e| match e {
                TrySendError::Full(v) | TrySendError::Closed(v) => SendError(v),
            })
        }
        pub fn is_closed(&self) -> bool {
            self.0.is_closed()
        }
    }
    impl<T> std::fmt::Debug for Sender<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            f.write_str("Sender")
        }
    }
    impl<T> Clone for Sender<T> {
        fn clone(&self) -> Self {
            self.0.q.lock().unwrap().senders += 1;
            Sender(self.0.clone())
        }
    }
    impl<T> Drop for Sender<T> {
        fn drop(&mut self) {
            let mut q = self.0.q.lock().unwrap();
            q.senders -= 1;
            if q.senders == 0 {
                if let Some(w) = q.waker.take() {
                    w.wake()
                }
            }
        }
    }
    impl<T> Sender<T> {
        fn push(&self, v: T) {
            let mut q = self.0.q.lock().unwrap();
            q.v.push_back(v);
            if let Some(w) = q.waker.take() {
                w.wake()
            }
        }
        pub async fn send(&self, v: T) -> Result<(), SendError<T>> {
            if self.0.s.acquire(1).await {
                self.push(v);
                Ok(())
            } else {
                Err(SendError(v))
            }
        }
        pub fn try_send(&self, v: T) -> Result<(), TrySendError<T>> {
            if self.is_closed() {
                Err(TrySendError::Closed(v))
            } else if self.0.s.try_acquire(1) {
                self.push(v);
                Ok(())
            } else {
                Err(TrySendError::Full(v))
            }
        }
        pub fn is_closed(&self) -> bool {
            self.0.q.lock().unwrap().closed
        }
        pub fn capacity(&self) -> usize {
            self.0.s.0.lock().unwrap().permits
        }
        pub fn max_capacity(&self) -> usize {
            self.0.cap
        }
    }
    impl<T> Receiver<T> {
        pub async fn recv(&mut self) -> Option<T> {
            std::future::poll_fn(|cx| self.poll_recv(cx)).await
        }
        pub fn poll_recv(&mut self, cx: &mut Context) -> Poll<Option<T>> {
            let mut q = self.0.q.lock().unwrap();
            match q.v.pop_front() {
                Some(v) => {
                    drop(q);
                    self.0.s.release(1);
                    Poll::Ready(Some(v))
                }
                None if q.senders == 0 || q.closed => Poll::Ready(None),
                None => {
                    q.waker = Some(cx.waker().clone());
                    Poll::Pending
                }
            }
        }
        pub fn try_recv(&mut self) -> Result<T, TryRecvError> {
            let mut q = self.0.q.lock().unwrap();
            match q.v.pop_front() {
                Some(v) => {
                    drop(q);
                    self.0.s.release(1);
                    Ok(v)
                }
                None if q.senders == 0 || q.closed => Err(TryRecvError::Disconnected),
                None => Err(TryRecvError::Empty),
            }
        }
        pub fn close(&mut self) {
            self.0.q.lock().unwrap().closed = true;
            self.0.s.close();
        }
    }
    impl<T> Drop for Receiver<T> {
        fn drop(&mut self) {
            self.close()
        }
    }
}
