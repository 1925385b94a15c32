use crate::env::*;
use crate::refm::*;
use sc::config::{Config, DriveType};
use sc::spin::Spin;
use sc::spinchain::SpinChain;

pub fn drive_type(k: i64) -> DriveType {
    match k {
        0 => DriveType::xyplane,
        1 => DriveType::xyelliptic,
        2 => DriveType::uniaxial,
        3 => DriveType::staticfield,
        _ => DriveType::none,
    }
}

pub fn conf(n: i64, k: i64, drive: i64) -> Config {
    let mut c = Config::default();
    c.hsize = n as i32;
    c.ssize = k as i32;
    c.drive = drive_type(drive);
    c.log = false;
    c.jvar = 1.0;
    c.hvar = 1.0;
    c
}

/// An arbitrary chain: every real parameter is an unknown.
pub struct Fix {
    pub n: usize,
    pub k: usize,
    pub drive: i64,
    pub s: Vec<V>,
    pub j: Vec<V>,
    pub h: Vec<V>,
    pub t: f64,
    pub tau: f64,
    pub e: f64,
    pub hs: V,
    pub dt: f64,
    pub beta: f64,
}

pub fn fix() -> Fix {
    let n = int("n", 4, 8);
    let k = int("k", 2, 8);
    let drive = int("drive", 0, 4);
    let (n, k) = (n as usize, k as usize);
    let mut s = Vec::new();
    let mut j = Vec::new();
    let mut h = Vec::new();
    for i in 0..n {
        s.push(unit3(&name("s", i)));
        j.push(sym3(&name("j", i)));
        h.push(sym3(&name("h", i)));
    }
    Fix {
        n,
        k,
        drive,
        s,
        j,
        h,
        t: sym("t"),
        tau: pos("tau"),
        e: sym("e"),
        hs: sym3("hs"),
        dt: sym("dt"),
        beta: pos("beta"),
    }
}

impl Fix {
    pub fn chain(&self) -> SpinChain {
        fixed_draws(1);
        let mut c = SpinChain::new(conf(self.n as i64, self.k as i64, self.drive), 0);
        fixed_draws(0);
        for i in 0..self.n {
            c.spins[i].dir = self.s[i];
            c.j_couple[i] = self.j[i];
            c.static_h[i] = self.h[i];
        }
        c.t = self.t;
        c.vars.tau = self.tau;
        c.vars.e = self.e;
        for k in 0..3 {
            c.vars.hs[k] = self.hs[k];
        }
        c.vars.dt = self.dt;
        c.vars.beta = self.beta;
        c
    }
    /// field at each site at time t: static, plus the drive on the first k sites
    pub fn field(&self, t: f64) -> Vec<V> {
        let d = drive(self.drive, t, self.tau, self.e, &self.hs);
        let mut b = Vec::new();
        for i in 0..self.n {
            b.push(if i < self.k { add(&self.h[i], &d) } else { self.h[i] });
        }
        b
    }
}

/// nothing but the spins (and the clock) may change
pub fn frame(f: &Fix, c: &SpinChain) {
    ensure("sizes are kept", c.spins.len() == f.n && c.j_couple.len() == f.n && c.static_h.len() == f.n);
    for i in 0..f.n {
        eq3("couplings are kept", &c.j_couple[i], &f.j[i]);
        eq3("static fields are kept", &c.static_h[i], &f.h[i]);
    }
    eq("tau is kept", c.vars.tau, f.tau);
    eq("dt is kept", c.vars.dt, f.dt);
    eq("beta is kept", c.vars.beta, f.beta);
}

pub fn chain_total_energy() {
    let f = fix();
    let c = f.chain();
    let b = f.field(f.t);
    let e = (bonds(&f.s, &f.j, f.n, f.n) + zeeman(&f.s, &b, f.n)) / f.n as f64;
    eq("total_energy2", c.total_energy2(), e);
    eq("total_energy", c.total_energy(), e);
    for i in 0..f.n {
        eq3("an energy is a pure function", &c.spins[i].dir, &f.s[i]);
    }
}

pub fn chain_system_energy() {
    let f = fix();
    let c = f.chain();
    let b = f.field(f.t);
    let m = f.k - 1;
    eq("system_energy", c.system_energy(), (bonds(&f.s, &f.j, m, f.n) + zeeman(&f.s, &b, m)) / m as f64);
}

pub fn chain_mc_energy() {
    let f = fix();
    let c = f.chain();
    eq("mc_total_energy", c.mc_total_energy(), (bonds(&f.s, &f.j, f.n, f.n) + zeeman(&f.s, &f.h, f.n)) / f.n as f64);
    // the sampled subsystem closed into a ring of k sites
    let mut e = zeeman(&f.s, &f.h, f.k);
    for i in 0..f.k {
        e -= dot(&had(&f.s[i], &f.j[i]), &f.s[(i + 1) % f.k]);
    }
    eq("mc_system_energy", c.mc_system_energy(), e / f.k as f64);
}

pub fn chain_magnetisation() {
    let f = fix();
    let c = f.chain();
    let (mut a, mut b) = ([0.0; 3], [0.0; 3]);
    for i in 0..f.n {
        b = add(&b, &f.s[i]);
        if i < f.k {
            a = add(&a, &f.s[i]);
        }
    }
    eq3("m is the magnetisation of the subsystem", &c.m(), &a);
    eq3("m_tot is the magnetisation of the chain", &c.m_tot(), &b);
}

/// the drive, as seen through the energy of a single spin
pub fn chain_drive() {
    let f = fix();
    let mut c = f.chain();
    for i in 0..f.n {
        c.j_couple[i] = [0.0; 3];
        c.static_h[i] = [0.0; 3];
    }
    let d = drive(f.drive, f.t, f.tau, f.e, &f.hs);
    let mut m = [0.0; 3];
    for i in 0..f.k {
        m = add(&m, &f.s[i]);
    }
    let e = c.total_energy2() * f.n as f64;
    eq("the drive acts on the subsystem only", e, dot(&m, &d));
    c.t = f.t + f.tau;
    eq("the drive has period tau", c.total_energy2() * f.n as f64, e);
}

/// effective field of site i: J_{i-1} S_{i-1} + J_i S_{i+1} - B_i
pub fn omega(s: &[V], j: &[V], b: &[V], i: usize) -> V {
    let n = s.len();
    let l = (i + n - 1) % n;
    sub(&add(&had(&j[l], &s[l]), &had(&j[i], &s[(i + 1) % n])), &b[i])
}

/// second order Suzuki-Trotter step
pub fn trotter(s: &[V], j: &[V], b: &[V], dt: f64) -> Vec<V> {
    let mut s = s.to_vec();
    for (par, w) in [(0, 0.5), (1, 1.0), (0, 0.5)] {
        let old = s.clone();
        for i in 0..s.len() {
            if i % 2 == par {
                let o = omega(&old, j, b, i);
                opaque(&o);
                s[i] = precess(&old[i], &o, w * dt);
                cut3(&s[i]);
            }
        }
    }
    s
}

pub fn chain_update() {
    let f = fix();
    let mut c = f.chain();
    let b = f.field(f.t + 0.5 * f.dt);
    let r = trotter(&f.s, &f.j, &b, f.dt);
    c.update();
    for i in 0..f.n {
        eq3("update = Suzuki-Trotter step", &c.spins[i].dir, &r[i]);
    }
    eq("the clock advances by dt", c.t, f.t + f.dt);
    frame(&f, &c);
}

pub fn chain_update_twice() {
    let f = fix();
    let mut c = f.chain();
    let r = trotter(&f.s, &f.j, &f.field(f.t + 0.5 * f.dt), f.dt);
    let r = trotter(&r, &f.j, &f.field(f.t + 1.5 * f.dt), f.dt);
    c.update();
    c.update();
    for i in 0..f.n {
        eq3("two updates = two Suzuki-Trotter steps", &c.spins[i].dir, &r[i]);
    }
    eq("the clock advances by dt per step", c.t, f.t + 2.0 * f.dt);
}

pub fn chain_update_no_field() {
    let f = fix();
    let mut c = f.chain();
    let d = drive(f.drive, f.t + 0.5 * f.dt, f.tau, f.e, &f.hs);
    let mut b = Vec::new();
    for i in 0..f.n {
        b.push(if i < f.k { d } else { [0.0; 3] });
    }
    let r = trotter(&f.s, &f.j, &b, f.dt);
    c.update_no_field();
    for i in 0..f.n {
        eq3("update_no_field = Suzuki-Trotter step without static fields", &c.spins[i].dir, &r[i]);
    }
    eq("the clock advances by dt", c.t, f.t + f.dt);
    frame(&f, &c);
}

/// Laws of the step that do not depend on how it is computed.
/// Argument: a reference half-sweep keeps the energy of any state and is undone
/// by the half-sweep with -dt (lemmas, any state); the code's step is the
/// palindromic composition of three of them (lemma, any state and dt); the
/// code's energy is the reference's (lemma).  So a step keeps the energy when
/// the drive is constant in time, and a step with -dt undoes a step.
pub fn chain_invariants() {
    let f = fix();
    let mut c = f.chain();
    let b = f.field(f.t + 0.5 * f.dt);
    let e0 = c.total_energy2();
    if f.drive >= 3 {
        lemma("the code's energy is the reference's", e0, (bonds(&f.s, &f.j, f.n, f.n) + zeeman(&f.s, &b, f.n)) / f.n as f64);
    }
    for par in 0..2 {
        let (mut x, mut y) = (0.0, 0.0);
        for i in 0..f.n {
            if i % 2 == par {
                let o = omega(&f.s, &f.j, &b, i);
                opaque(&o);
                let s = precess(&f.s[i], &o, f.dt);
                lemma("a half-sweep keeps unit vectors", dot(&s, &s), 1.0);
                lemma3("a half-sweep can be undone", &precess(&s, &o, -f.dt), &f.s[i]);
                x -= dot(&f.s[i], &o);
                y -= dot(&s, &o);
            } else {
                x += dot(&f.s[i], &b[i]);
                y += dot(&f.s[i], &b[i]);
            }
        }
        lemma("the energy through the effective fields", x, bonds(&f.s, &f.j, f.n, f.n) + zeeman(&f.s, &b, f.n));
        lemma("a half-sweep keeps the energy", y, x);
    }
    let r = trotter(&f.s, &f.j, &b, f.dt);
    c.update();
    for i in 0..f.n {
        lemma3("the step is three half-sweeps", &c.spins[i].dir, &r[i]);
        derived("spins stay unit vectors", dot(&c.spins[i].dir, &c.spins[i].dir), 1.0);
    }
    lemma("the clock advances by dt", c.t, f.t + f.dt);
    if !native() {
        derived("spins stay unit vectors, energy is conserved, time can be reversed", 0.0, 0.0);
        return;
    }
    if f.drive >= 3 {
        derived("energy is conserved without a time-dependent drive", c.total_energy2(), e0);
    }
    c.vars.dt = -f.dt;
    c.update();
    for i in 0..f.n {
        derived3("a step backwards undoes a step", &c.spins[i].dir, &f.s[i]);
    }
    derived("the clock runs backwards", c.t, f.t);
}

pub fn new_dir(a: f64, b: f64) -> V {
    let pi = std::f64::consts::PI;
    let _ = Spin::new();
    angles(2.0 * pi * a, (1.0 - 2.0 * b).acos())
}
