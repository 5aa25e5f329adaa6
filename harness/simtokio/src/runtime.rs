use std::future::Future;
use std::io;

#[derive(Clone, Debug)]
pub struct Handle(());
impl Handle {
    pub fn current() -> Handle {
        assert!(crate::in_context() || mc::tearing_down(), "there is no reactor running, must be called from the context of a Tokio 1.x runtime");
        Handle(())
    }
    pub fn try_current() -> Result<Handle, &'static str> {
        if crate::in_context() { Ok(Handle(())) } else { Err("no runtime") }
    }
    pub fn block_on<F: Future>(&self, f: F) -> F::Output {
        assert!(!crate::in_context(), "Cannot start a runtime from within a runtime");
        match crate::drive(f, true, None) {
            Some(v) => v,
            None => std::panic::resume_unwind(Box::new("world torn down")),
        }
    }
    pub fn spawn<F>(&self, f: F) -> crate::task::JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        crate::task::start(f)
    }
    pub fn enter(&self) -> impl Drop + use<> {
        crate::enter()
    }
}
#[derive(Debug)]
pub struct Runtime(Handle);
impl Runtime {
    pub fn new() -> io::Result<Runtime> {
        Ok(Runtime(Handle(())))
    }
    pub fn block_on<F: Future>(&self, f: F) -> F::Output {
        self.0.block_on(f)
    }
    pub fn handle(&self) -> &Handle {
        &self.0
    }
}
