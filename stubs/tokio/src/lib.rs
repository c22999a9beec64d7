//! Stand-in for the parts of tokio the repository uses: channels and locks that queue their
//! waiters first come, first served, as documented for tokio 1, and `join!`. There is no
//! runtime: the explorer polls the tasks itself, in every order.
pub mod sync;

pub mod model {
    //! Hooks of the explorer.
    use std::cell::RefCell;
    thread_local! {
        static PICK: RefCell<Option<Box<dyn FnMut(usize) -> usize>>> = RefCell::new(None);
    }
    /// Who decides which branch of a `join!` is polled first.
    pub fn set_pick(f: Option<Box<dyn FnMut(usize) -> usize>>) {
        PICK.with(|p| *p.borrow_mut() = f);
    }
    pub fn pick(n: usize) -> usize {
        PICK.with(|p| p.borrow_mut().as_mut().map(|f| f(n)).unwrap_or(0))
    }
}

pub mod task {
    /// Lets other tasks run once.
    pub async fn yield_now() {
        let mut done = false;
        std::future::poll_fn(|cx| {
            if std::mem::replace(&mut done, true) {
                std::task::Poll::Ready(())
            } else {
                cx.waker().wake_by_ref();
                std::task::Poll::Pending
            }
        })
        .await
    }
}

#[doc(hidden)]
pub enum MaybeDone<F: std::future::Future> {
    Running(std::pin::Pin<Box<F>>),
    Done(Option<F::Output>),
}
impl<F: std::future::Future> MaybeDone<F> {
    pub fn new(f: F) -> Self {
        Self::Running(Box::pin(f))
    }
    /// true when there is a result
    pub fn poll(&mut self, cx: &mut std::task::Context) -> bool {
        if let Self::Running(f) = self {
            if let std::task::Poll::Ready(r) = f.as_mut().poll(cx) {
                *self = Self::Done(Some(r));
            }
        }
        matches!(self, Self::Done(_))
    }
    pub fn take(&mut self) -> F::Output {
        match self {
            Self::Done(r) => r.take().expect("result"),
            _ => unreachable!(),
        }
    }
}

#[macro_export]
macro_rules! join {
    ($a:expr $(,)?) => { ($a.await,) };
    ($a:expr, $b:expr $(,)?) => {{
        let (mut a, mut b) = ($crate::MaybeDone::new($a), $crate::MaybeDone::new($b));
        ::std::future::poll_fn(move |cx| {
            let ready = if $crate::model::pick(2) == 0 {
                let x = a.poll(cx);
                b.poll(cx) && x
            } else {
                let x = b.poll(cx);
                a.poll(cx) && x
            };
            if ready { ::std::task::Poll::Ready((a.take(), b.take())) } else { ::std::task::Poll::Pending }
        }).await
    }};
    ($a:expr, $b:expr, $($c:expr),+ $(,)?) => {{
        let (a, (b, c)) = $crate::join!($a, async { $crate::join!($b, async { $crate::join!($($c),+) }) });
        (a, b, c)
    }};
}
