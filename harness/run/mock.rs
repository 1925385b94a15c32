//! What the command-line program runs against: the real chains, whose updates
//! only count, and a cooperative model of threads and channels.
//!
//! An update leaves the spins arbitrary: the next time anything reads them
//! they are fresh unknowns.  What the updates do, and what a record of a log
//! says, is checked elsewhere.
use std::cell::{Cell, UnsafeCell};

/// A chain that was made: its number, whether it is a Langevin one, its
/// configuration and (for a Langevin chain) its damping.
pub struct Made {
    pub num: usize,
    pub langevin: bool,
    pub gamma: f64,
    pub conf: ::sc::config::Config,
}
/// Something that happened to a chain
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ev {
    Update,
    UpdateNoField,
    Log,
    LogExt,
}
pub struct Event {
    pub chain: usize,
    pub ev: Ev,
    /// clock of the chain after it
    pub t: f64,
    /// Metropolis updates of the chain so far, of all kinds
    pub ticks: u64,
}
/// A look at the spins of a chain after updates
#[derive(Clone, Copy)]
pub struct Look {
    pub chain: usize,
    pub version: usize,
    /// updates in time, and Metropolis updates of each kind, so far
    pub steps: usize,
    pub ticks: [u64; 5],
    pub t: f64,
    pub tau: f64,
    pub beta: f64,
}
pub struct World {
    pub made: Vec<Made>,
    pub events: Vec<Event>,
    pub looks: Vec<Look>,
    /// the spins seen, if they are not arbitrary
    pub preset: Option<fn(&Look, usize) -> [f64; 3]>,
    pub keep_looks: bool,
    /// looks are kept after so many updates in time
    pub keep_after: usize,
    /// largest error of the clock per update, in units of the step
    pub noise: f64,
    pub keep_updates: bool,
    pub config: Option<::sc::config::Config>,
    pub args: Vec<String>,
}
static mut WORLD: World =
    World {
        made: Vec::new(),
        events: Vec::new(),
        looks: Vec::new(),
        preset: None,
        keep_looks: true,
        keep_after: 0,
        noise: 0.0,
        keep_updates: true,
        config: None,
        args: Vec::new(),
    };
#[allow(static_mut_refs)]
pub fn world() -> &'static mut World {
    unsafe { &mut WORLD }
}
/// Metropolis updates of a chain, by kind
pub const PLAIN: u64 = 0;
pub const MAGLAB: u64 = 1;
pub const ROT: u64 = 2;
pub const FULL: u64 = 3;
pub const MAGNUS: u64 = 4;
pub fn ticks(chain: usize, kind: u64) -> u64 {
    verif_rt::verif_ticks(chain as u64 * 8 + kind)
}
pub fn all_ticks(chain: usize) -> u64 {
    ticks(chain, 0) + ticks(chain, 1) + ticks(chain, 2) + ticks(chain, 3) + ticks(chain, 4)
}
fn tick(chain: usize, kind: u64) {
    verif_rt::verif_tick(chain as u64 * 8 + kind);
}

macro_rules! chain {
    ($T:ident, $R:path) => {
        pub struct $T {
            id: usize,
            dirty: Cell<bool>,
            version: Cell<usize>,
            steps: usize,
            r: UnsafeCell<$R>,
        }
        unsafe impl Send for $T {}
        unsafe impl Sync for $T {}
        impl $T {
            fn wrap(r: $R, num: usize, langevin: bool, gamma: f64, conf: ::sc::config::Config) -> Self {
                let w = world();
                let id = w.made.len();
                w.made.push(Made { num, langevin, gamma, conf });
                Self { id, dirty: Cell::new(true), version: Cell::new(0), steps: 0, r: UnsafeCell::new(r) }
            }
            pub fn read_config(_f: &str) -> ::sc::config::Config {
                world().config.clone().unwrap()
            }
            pub fn solve_beta(e: f64) -> f64 {
                solved(e)
            }
            fn event(&self, ev: Ev) {
                let w = world();
                if w.keep_updates || ev == Ev::Log || ev == Ev::LogExt {
                    let t = unsafe { (*self.r.get()).t };
                    w.events.push(Event { chain: self.id, ev, t, ticks: all_ticks(self.id) });
                }
            }
            fn step(&mut self, ev: Ev) {
                let w = world();
                let r = unsafe { &mut *self.r.get() };
                let mut d = r.vars.dt;
                if w.noise > 0.0 {
                    let e = err(&label("err", &[self.steps]), w.noise);
                    d = d + d * e;
                }
                r.t = r.t + d;
                self.steps += 1;
                self.dirty.set(true);
                self.event(ev);
            }
            pub fn update(&mut self) {
                self.step(Ev::Update)
            }
            pub fn metropolis_update(&mut self) {
                tick(self.id, PLAIN);
                self.dirty.set(true);
            }
            pub fn metropolis_update_magnus(&mut self) {
                tick(self.id, MAGNUS);
                self.dirty.set(true);
            }
            pub fn log(&self) {
                self.event(Ev::Log)
            }
        }
        impl std::ops::Deref for $T {
            type Target = $R;
            fn deref(&self) -> &$R {
                self.refresh();
                unsafe { &*self.r.get() }
            }
        }
        impl std::ops::DerefMut for $T {
            fn deref_mut(&mut self) -> &mut $R {
                self.refresh();
                unsafe { &mut *self.r.get() }
            }
        }
        impl $T {
            fn refresh(&self) {
                if self.dirty.get() {
                    self.dirty.set(false);
                    let r = unsafe { &mut *self.r.get() };
                    let id = self.id;
                    let l = Look {
                        chain: id,
                        version: self.version.get(),
                        steps: self.steps,
                        ticks: [ticks(id, 0), ticks(id, 1), ticks(id, 2), ticks(id, 3), ticks(id, 4)],
                        t: r.t,
                        tau: r.vars.tau,
                        beta: r.vars.beta,
                    };
                    for i in 0..r.spins.len() {
                        r.spins[i].dir = spin_at(&l, i);
                    }
                    if world().keep_looks && self.steps >= world().keep_after {
                        world().looks.push(l);
                    }
                    self.version.set(self.version.get() + 1);
                }
            }
        }
    };
}
/// the spin at a site of a chain the v-th time it is looked at after updates
pub fn spin_of(chain: usize, v: usize, site: usize) -> [f64; 3] {
    [
        crate::env::sym(&label("s", &[chain, v, site, 0])),
        crate::env::sym(&label("s", &[chain, v, site, 1])),
        crate::env::sym(&label("s", &[chain, v, site, 2])),
    ]
}
/// the spin a look at a chain sees
pub fn spin_at(l: &Look, site: usize) -> [f64; 3] {
    match world().preset {
        Some(f) => f(l, site),
        None => spin_of(l.chain, l.version, site),
    }
}
/// the chain as a look saw it
pub fn seen(l: &Look) -> ::sc::spinchain::SpinChain {
    chain_at(&world().made[l.chain].conf, l)
}
/// the chain with a configuration, as a look saw it
pub fn chain_at(c: &::sc::config::Config, l: &Look) -> ::sc::spinchain::SpinChain {
    let mut c = cold(c);
    c.log = false;
    crate::env::fixed_draws(1);
    let mut r = ::sc::spinchain::SpinChain::new(c.clone(), 0);
    crate::env::fixed_draws(0);
    disorder(&c, l.chain, &mut r.j_couple, &mut r.static_h);
    for i in 0..r.spins.len() {
        r.spins[i].dir = spin_at(l, i);
    }
    r.t = l.t;
    r.vars.tau = l.tau;
    r
}
/// the disorder of a chain: arbitrary, different for each chain
fn disorder(c: &::sc::config::Config, chain: usize, j: &mut [[f64; 3]], h: &mut [[f64; 3]]) {
    if c.jvar == 0.0 {
        return;
    }
    for i in 0..j.len() {
        for k in 0..3 {
            j[i][k] = crate::env::sym(&label("j", &[chain, i, k]));
            h[i][k] += crate::env::sym(&label("h", &[chain, i, k]));
        }
    }
}
/// a name made of numbers
pub fn label(n: &str, ks: &[usize]) -> String {
    let mut s = String::from(n);
    for k in ks {
        let mut d = 1;
        while d * 10 <= *k {
            d *= 10;
        }
        while d > 0 {
            s.push((b'0' + (k / d % 10) as u8) as char);
            d /= 10;
        }
        s.push('_');
    }
    s
}
/// the initial spins do not matter: made at a fixed temperature
fn cold(c: &::sc::config::Config) -> ::sc::config::Config {
    let mut k = c.clone();
    k.beta = 1.5;
    k
}
/// an arbitrary rounding error
pub fn err(n: &str, b: f64) -> f64 {
    verif_rt::verif_err(n.as_ptr(), n.len(), b)
}
/// the inverse temperature `solve_beta` gives for an energy density
pub fn solved(e: f64) -> f64 {
    e * 3.5 + 17.25
}

pub mod sc {
    pub mod config {
        pub use ::sc::config::*;
    }
    pub mod spin {
        pub use ::sc::spin::*;
    }
    pub mod spinchain {
        use super::super::*;
        pub use ::sc::spinchain::SpinChain as Chain;
        chain!(SpinChain, ::sc::spinchain::SpinChain);
        impl SpinChain {
            pub fn new(conf: ::sc::config::Config, num: usize) -> SpinChain {
                crate::env::fixed_draws(1);
                let mut r = ::sc::spinchain::SpinChain::new(cold(&conf), num);
                r.vars = conf.clone();
                crate::env::fixed_draws(0);
                disorder(&conf, world().made.len(), &mut r.j_couple, &mut r.static_h);
                SpinChain::wrap(r, num, false, 0.0, conf)
            }
            pub fn update_no_field(&mut self) {
                self.step(Ev::UpdateNoField)
            }
            pub fn metropolis_update_maglab(&mut self) {
                tick(self.id, MAGLAB);
                self.dirty.set(true);
            }
            pub fn metropolis_update_rot_magnus(&mut self) {
                tick(self.id, ROT);
                self.dirty.set(true);
            }
            pub fn metropolis_update_mag_full(&mut self) {
                tick(self.id, FULL);
                self.dirty.set(true);
            }
            pub fn log_ext(&self) {
                self.event(Ev::LogExt)
            }
        }
    }
    pub mod spinchain_langevin {
        use super::super::*;
        chain!(SpinChainLangevin, ::sc::spinchain_langevin::SpinChainLangevin);
        impl SpinChainLangevin {
            pub fn new(conf: ::sc::config::Config, num: usize, gamma: f64) -> SpinChainLangevin {
                crate::env::fixed_draws(1);
                let mut r = ::sc::spinchain_langevin::SpinChainLangevin::new(cold(&conf), num, gamma);
                r.vars = conf.clone();
                crate::env::fixed_draws(0);
                SpinChainLangevin::wrap(r, num, true, gamma, conf)
            }
        }
    }
}

/// `toml::to_string` of a configuration
pub mod toml {
    use ::sc::config::Config;
    pub trait ToConfig {
        fn config(&self) -> &Config;
    }
    impl ToConfig for Config {
        fn config(&self) -> &Config {
            self
        }
    }
    impl<T: ToConfig> ToConfig for &T {
        fn config(&self) -> &Config {
            (**self).config()
        }
    }
    impl<T: ToConfig> ToConfig for &mut T {
        fn config(&self) -> &Config {
            (**self).config()
        }
    }
    #[derive(Debug)]
    pub struct Error {}
    pub fn to_string<T: ToConfig>(c: &T) -> Result<String, Error> {
        Ok(text(c.config()))
    }
    pub fn to_string_pretty<T: ToConfig>(c: &T) -> Result<String, Error> {
        to_string(c)
    }
    pub fn text(c: &Config) -> String {
        format!(
            "{} {} {} {} {} {} {} {} {} {} {} {} {} {} {} {} {} {} {} {} {} {} {} {} {} {} {}",
            c.offset, c.hsize, c.ssize, c.t, c.dt, c.runs, c.trel, c.threads, c.tau, c.lambda, c.jvar, c.hvar, c.method,
            c.ednsty, c.file, c.strob, c.beta, c.mc_points, c.e, c.drive.clone() as u8, c.log, c.hfield[0], c.hfield[1],
            c.hfield[2], c.hs[0], c.hs[1], c.hs[2]
        )
    }
}

/// Threads of their own: they run when joined, or (never joined) as far as
/// they happen to get before the program ends.
pub mod thread {
    use std::cell::RefCell;
    use std::rc::Rc;
    type Slot = Rc<RefCell<Option<Box<dyn FnOnce()>>>>;
    static mut LOOSE: Vec<Slot> = Vec::new();
    pub struct JoinHandle<T> {
        job: Slot,
        out: Rc<RefCell<Option<T>>>,
    }
    unsafe impl<T> Send for JoinHandle<T> {}
    impl<T> JoinHandle<T> {
        pub fn join(self) -> std::thread::Result<T> {
            let j = self.job.borrow_mut().take();
            if let Some(j) = j {
                j();
            }
            let r = self.out.borrow_mut().take();
            Ok(r.unwrap())
        }
    }
    #[allow(static_mut_refs)]
    pub fn spawn<F, T>(f: F) -> JoinHandle<T>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        let out = Rc::new(RefCell::new(None));
        let o = out.clone();
        let job: Box<dyn FnOnce()> = Box::new(move || {
            let v = f();
            *o.borrow_mut() = Some(v);
        });
        let job = Rc::new(RefCell::new(Some(job)));
        unsafe { LOOSE.push(job.clone()) };
        JoinHandle { job, out }
    }
    /// The program ends: each thread nobody waited for did nothing, or all it could.
    #[allow(static_mut_refs)]
    pub fn exit() {
        unsafe {
            super::mpsc::ENDING = true;
            for s in LOOSE.iter() {
                let j = s.borrow_mut().take();
                if let Some(j) = j {
                    if verif_rt::verif_choice(2, 2) == 1 {
                        j();
                    } else {
                        std::mem::forget(j);
                    }
                }
            }
        }
    }
    pub fn sleep(_d: std::time::Duration) {}
}

/// Channels between jobs that run one after another
pub mod mpsc {
    use std::cell::RefCell;
    use std::collections::VecDeque;
    use std::rc::Rc;
    pub static mut ENDING: bool = false;
    struct Chan<T> {
        q: VecDeque<T>,
        senders: usize,
    }
    pub struct Sender<T> {
        c: Rc<RefCell<Chan<T>>>,
    }
    pub struct Receiver<T> {
        c: Rc<RefCell<Chan<T>>>,
    }
    unsafe impl<T> Send for Sender<T> {}
    unsafe impl<T> Send for Receiver<T> {}
    #[derive(Debug, PartialEq, Eq, Clone, Copy)]
    pub struct RecvError;
    pub struct SendError<T>(pub T);
    impl<T> std::fmt::Debug for SendError<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("SendError")
        }
    }
    pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
        let c = Rc::new(RefCell::new(Chan { q: VecDeque::new(), senders: 1 }));
        (Sender { c: c.clone() }, Receiver { c })
    }
    impl<T> Sender<T> {
        pub fn send(&self, v: T) -> Result<(), SendError<T>> {
            self.c.borrow_mut().q.push_back(v);
            Ok(())
        }
    }
    impl<T> Clone for Sender<T> {
        fn clone(&self) -> Self {
            self.c.borrow_mut().senders += 1;
            Sender { c: self.c.clone() }
        }
    }
    impl<T> Drop for Sender<T> {
        fn drop(&mut self) {
            self.c.borrow_mut().senders -= 1;
        }
    }
    impl<T> Receiver<T> {
        pub fn recv(&self) -> Result<T, RecvError> {
            let v = self.c.borrow_mut().q.pop_front();
            if v.is_some() {
                return Ok(v.unwrap());
            }
            if self.c.borrow().senders == 0 {
                return Err(RecvError);
            }
            // the jobs of the pool go on meanwhile
            verif_rt::run_jobs();
            let v = self.c.borrow_mut().q.pop_front();
            if v.is_some() {
                return Ok(v.unwrap());
            }
            if self.c.borrow().senders > 0 && unsafe { !ENDING } {
                crate::env::ensure("the program does not wait for a message that never comes", false);
                crate::env::assume(false);
            }
            Err(RecvError)
        }
        pub fn iter(&self) -> Iter<'_, T> {
            Iter { r: self }
        }
        pub fn try_recv(&self) -> Result<T, RecvError> {
            self.c.borrow_mut().q.pop_front().ok_or(RecvError)
        }
    }
    pub struct Iter<'a, T> {
        r: &'a Receiver<T>,
    }
    impl<T> Iterator for Iter<'_, T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            self.r.recv().ok()
        }
    }
    pub struct IntoIter<T> {
        r: Receiver<T>,
    }
    impl<T> Iterator for IntoIter<T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            self.r.recv().ok()
        }
    }
    impl<T> IntoIterator for Receiver<T> {
        type Item = T;
        type IntoIter = IntoIter<T>;
        fn into_iter(self) -> IntoIter<T> {
            IntoIter { r: self }
        }
    }
}
