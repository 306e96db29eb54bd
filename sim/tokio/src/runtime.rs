use std::future::Future;
use std::io;

use crate::task::JoinHandle;

#[derive(Debug)]
pub struct Runtime(());
#[derive(Debug, Clone)]
pub struct Handle(());
impl Runtime {
    pub fn new() -> io::Result<Runtime> {
        Ok(Runtime(()))
    }
    /// Runs the whole simulation with `f` (a task of the system) as its root.
    pub fn block_on<F: Future>(&self, f: F) -> F::Output {
        struct AssertSend<T>(T);
        unsafe impl<T> Send for AssertSend<T> {}
        impl<T: Future> Future for AssertSend<T> {
            type Output = AssertSend<T::Output>;
            fn poll(
                self: std::pin::Pin<&mut Self>,
                cx: &mut std::task::Context<'_>,
            ) -> std::task::Poll<Self::Output> {
                unsafe { self.map_unchecked_mut(|s| &mut s.0) }.poll(cx).map(AssertSend)
            }
        }
        simcore::with_group(simcore::Group::System, || simcore::block_on(AssertSend(f))).0
    }
    pub fn spawn<F>(&self, f: F) -> JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        crate::spawn(f)
    }
    pub fn handle(&self) -> &Handle {
        static H: Handle = Handle(());
        &H
    }
}
impl Handle {
    pub fn current() -> Handle {
        Handle(())
    }
    pub fn spawn<F>(&self, f: F) -> JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        crate::spawn(f)
    }
}
#[derive(Debug, Default)]
pub struct Builder(());
impl Builder {
    pub fn new_multi_thread() -> Self {
        Builder(())
    }
    pub fn new_current_thread() -> Self {
        Builder(())
    }
    pub fn enable_all(&mut self) -> &mut Self {
        self
    }
    pub fn worker_threads(&mut self, _: usize) -> &mut Self {
        self
    }
    pub fn thread_name(&mut self, _: impl Into<String>) -> &mut Self {
        self
    }
    pub fn build(&mut self) -> io::Result<Runtime> {
        Runtime::new()
    }
}
