//! VERIF stub of threadpool: a job runs at once or at the next
//! synchronisation, as the (symbolic) schedule decides.
pub struct ThreadPool {
    n: usize,
}
impl ThreadPool {
    pub fn new(num_threads: usize) -> ThreadPool {
        assert!(num_threads >= 1);
        ThreadPool { n: num_threads }
    }
    pub fn with_name(_name: String, num_threads: usize) -> ThreadPool {
        ThreadPool::new(num_threads)
    }
    pub fn execute<F>(&self, job: F)
    where
        F: FnOnce() + Send + 'static,
    {
        verif_rt::submit_job(Box::new(job));
    }
    pub fn max_count(&self) -> usize {
        self.n
    }
    pub fn join(&self) {
        verif_rt::run_jobs();
    }
}
