//! Stand-in for `threadpool` in executor runs: the jobs run one after another,
//! in an arbitrary order (more than four: any one first, the others in the order
//! they were given or the opposite one), when the pool is joined (those that are never
//! joined: not at all).
use std::sync::{Arc, Mutex};
type Job = Box<dyn FnOnce() + Send + 'static>;
#[derive(Clone)]
pub struct ThreadPool { n: usize, jobs: Arc<Mutex<Vec<Job>>> }
impl ThreadPool {
    pub fn new(n: usize) -> ThreadPool {
        assert!(n >= 1);
        ThreadPool { n, jobs: Arc::new(Mutex::new(vec![])) }
    }
    pub fn with_name(_s: String, n: usize) -> ThreadPool { ThreadPool::new(n) }
    pub fn execute<F: FnOnce() + Send + 'static>(&self, f: F) { self.jobs.lock().unwrap().push(Box::new(f)) }
    pub fn join(&self) {
        let mut v: Vec<Job> = std::mem::take(&mut *self.jobs.lock().unwrap());
        if v.len() > 4 {
            let k = ndlib::split(ndlib::below(v.len()) as u64) as usize;
            (v.remove(k))();
            if ndlib::split(ndlib::below(2) as u64) == 1 { v.reverse(); }
            for j in v { j(); }
            return;
        }
        while !v.is_empty() {
            let k = ndlib::split(ndlib::below(v.len()) as u64) as usize;
            (v.remove(k))();
        }
    }
    pub fn max_count(&self) -> usize { self.n }
    pub fn active_count(&self) -> usize { 0 }
    pub fn queued_count(&self) -> usize { self.jobs.lock().unwrap().len() }
    pub fn panic_count(&self) -> usize { 0 }
    pub fn set_num_threads(&mut self, n: usize) { self.n = n }
}
