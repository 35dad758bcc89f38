use rayon_core::control;
use std::collections::HashMap;
use std::sync::Mutex;
use std::thread::{Result, Thread};
use std::time::Duration;

pub fn yield_now() {
    control::yield_now();
    if !control::active() {
        std::thread::yield_now();
    }
}

pub fn sleep(d: Duration) {
    if control::active() {
        control::yield_now();
    } else {
        std::thread::sleep(d);
    }
}

pub struct JoinHandle<T>(std::thread::JoinHandle<T>, Option<usize>);
impl<T> JoinHandle<T> {
    pub fn join(self) -> Result<T> {
        if let Some(c) = self.1 {
            control::wait(c);
        }
        self.0.join()
    }
    pub fn thread(&self) -> &Thread {
        self.0.thread()
    }
    pub fn is_finished(&self) -> bool {
        control::point();
        self.0.is_finished()
    }
}

pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
{
    match control::child() {
        None => JoinHandle(std::thread::spawn(f), None),
        Some(c) => {
            let id = c.id();
            let h = std::thread::spawn(move || c.run(f));
            control::point();
            JoinHandle(h, Some(id))
        }
    }
}

#[repr(transparent)]
pub struct Scope<'scope, 'env: 'scope>(std::thread::Scope<'scope, 'env>);

pub struct ScopedJoinHandle<'scope, T>(std::thread::ScopedJoinHandle<'scope, T>, Option<usize>);

/// The controlled threads of each scope.
static CHILDREN: Mutex<Option<HashMap<usize, Vec<usize>>>> = Mutex::new(None);

pub fn scope<'env, F, T>(f: F) -> T
where
    F: for<'scope> FnOnce(&'scope Scope<'scope, 'env>) -> T,
{
    std::thread::scope(|s| {
        // The layouts are the same.
        let s: &Scope<'_, 'env> = unsafe { std::mem::transmute(s) };
        let key = s as *const _ as usize;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(s)));
        let children = CHILDREN.lock().unwrap().get_or_insert_with(HashMap::new).remove(&key);
        for c in children.unwrap_or_default() {
            control::wait(c);
        }
        match r {
            Ok(r) => r,
            Err(e) => std::panic::resume_unwind(e),
        }
    })
}

impl<'scope, 'env> Scope<'scope, 'env> {
    pub fn spawn<F, T>(&'scope self, f: F) -> ScopedJoinHandle<'scope, T>
    where
        F: FnOnce() -> T + Send + 'scope,
        T: Send + 'scope,
    {
        match control::child() {
            None => ScopedJoinHandle(self.0.spawn(f), None),
            Some(c) => {
                let id = c.id();
                let key = self as *const _ as usize;
                CHILDREN.lock().unwrap().get_or_insert_with(HashMap::new).entry(key).or_default().push(id);
                let h = self.0.spawn(move || c.run(f));
                control::point();
                ScopedJoinHandle(h, Some(id))
            }
        }
    }
}

impl<T> ScopedJoinHandle<'_, T> {
    pub fn join(self) -> Result<T> {
        if let Some(c) = self.1 {
            control::wait(c);
        }
        self.0.join()
    }
    pub fn thread(&self) -> &Thread {
        self.0.thread()
    }
    pub fn is_finished(&self) -> bool {
        control::point();
        self.0.is_finished()
    }
}

