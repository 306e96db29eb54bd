use std::any::Any;
use std::fmt;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

pub struct JoinError {
    cancelled: bool,
}
impl JoinError {
    pub fn is_cancelled(&self) -> bool {
        self.cancelled
    }
    pub fn is_panic(&self) -> bool {
        !self.cancelled
    }
    pub fn into_panic(self) -> Box<dyn Any + Send + 'static> {
        Box::new("task panicked")
    }
}
impl fmt::Debug for JoinError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(if self.cancelled { "JoinError::Cancelled" } else { "JoinError::Panic" })
    }
}
impl fmt::Display for JoinError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(self, f)
    }
}
impl std::error::Error for JoinError {}
impl From<JoinError> for std::io::Error {
    fn from(e: JoinError) -> Self {
        std::io::Error::new(std::io::ErrorKind::Other, e)
    }
}

struct Shared<T> {
    result: Option<Result<T, JoinError>>,
    done: bool,
    waker: Option<Waker>,
}
pub struct JoinHandle<T> {
    id: usize,
    shared: Arc<Mutex<Shared<T>>>,
}
#[derive(Clone)]
pub struct AbortHandle {
    id: usize,
}
impl AbortHandle {
    pub fn abort(&self) {
        simcore::abort_task(self.id)
    }
}
struct Completion<T>(Arc<Mutex<Shared<T>>>);
impl<T> Completion<T> {
    fn set(&self, r: Result<T, JoinError>) {
        let w = {
            let mut s = self.0.lock().unwrap_or_else(|e| e.into_inner());
            if s.done {
                return;
            }
            s.done = true;
            s.result = Some(r);
            s.waker.take()
        };
        if let Some(w) = w {
            w.wake()
        }
    }
}
impl<T> Drop for Completion<T> {
    fn drop(&mut self) {
        self.set(Err(JoinError { cancelled: !std::thread::panicking() }));
    }
}

pub fn spawn<F>(fut: F) -> JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    spawn_in(None, fut)
}
/// Spawns into an explicit group of the simulation.
pub fn spawn_in<F>(group: Option<simcore::Group>, fut: F) -> JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    let shared = Arc::new(Mutex::new(Shared { result: None, done: false, waker: None }));
    let c = Completion(shared.clone());
    let id = simcore::spawn_raw(
        group,
        Box::pin(async move {
            let c = c;
            let r = fut.await;
            c.set(Ok(r));
        }),
    );
    JoinHandle { id, shared }
}
pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R>
where
    F: FnOnce() -> R + Send + 'static,
    R: Send + 'static,
{
    spawn(async move { f() })
}
impl<T> JoinHandle<T> {
    pub fn abort(&self) {
        simcore::abort_task(self.id)
    }
    pub fn abort_handle(&self) -> AbortHandle {
        AbortHandle { id: self.id }
    }
    pub fn is_finished(&self) -> bool {
        self.shared.lock().unwrap().done
    }
}
impl<T> Unpin for JoinHandle<T> {}
impl<T> Future for JoinHandle<T> {
    type Output = Result<T, JoinError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let mut s = self.shared.lock().unwrap();
        match s.result.take() {
            Some(r) => Poll::Ready(r),
            None => {
                s.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}

pub async fn yield_now() {
    let mut yielded = false;
    std::future::poll_fn(move |cx| {
        if yielded {
            Poll::Ready(())
        } else {
            yielded = true;
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    })
    .await
}
pub async fn unconstrained<F: Future>(f: F) -> F::Output {
    f.await
}
