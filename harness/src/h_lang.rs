//! The Langevin chain: a driven chain whose two ends are damped and kicked.
use crate::env::*;
use crate::h_chain::*;
use crate::h_mc::roles;
use crate::refm::*;
use sc::config::DriveType;
use sc::spinchain_langevin::SpinChainLangevin;

/// The couplings are private: read them off the energies of pairs of spins.
pub fn couplings(c: &mut SpinChainLangevin) -> Vec<V> {
    let n = c.spins.len();
    let mut keep = Vec::new();
    let mut h = Vec::new();
    for i in 0..n {
        keep.push(c.spins[i].dir);
        h.push(c.static_h[i]);
        c.spins[i].dir = [0.0; 3];
        c.static_h[i] = [0.0; 3];
    }
    let d = c.vars.drive.clone();
    c.vars.drive = DriveType::none;
    let mut out = Vec::new();
    for i in 0..n {
        let mut j = [0.0; 3];
        for a in 0..3 {
            c.spins[i].dir[a] = 1.0;
            c.spins[(i + 1) % n].dir[a] = 1.0;
            j[a] = -(n as f64) * c.total_energy2();
            c.spins[i].dir[a] = 0.0;
            c.spins[(i + 1) % n].dir[a] = 0.0;
        }
        out.push(j);
    }
    c.vars.drive = d;
    for i in 0..n {
        c.spins[i].dir = keep[i];
        c.static_h[i] = h[i];
    }
    out
}

pub struct Lang {
    pub f: Fix,
    pub gamma: f64,
    pub c: SpinChainLangevin,
}

/// An arbitrary chain.  The couplings are those of its construction: 1 plus a
/// normal draw, so arbitrary too.
pub fn lang() -> Lang {
    let mut f = fix();
    let gamma = pos("gamma");
    f.dt = pos("step");
    let mut c = conf(f.n as i64, f.k as i64, 4);
    c.lambda = 1.0;
    c.beta = 1.0;
    c.file = String::from("run");
    fixed_draws(2);
    let mut c = SpinChainLangevin::new(c, 3, gamma);
    fixed_draws(0);
    f.j = couplings(&mut c);
    for i in 0..f.n {
        c.spins[i].dir = f.s[i];
        c.static_h[i] = f.h[i];
    }
    c.t = f.t;
    c.vars.drive = drive_type(f.drive);
    c.vars.tau = f.tau;
    c.vars.e = f.e;
    for k in 0..3 {
        c.vars.hs[k] = f.hs[k];
    }
    c.vars.dt = f.dt;
    c.vars.beta = f.beta;
    Lang { f, gamma, c }
}

fn frame_l(l: &mut Lang) {
    let f = &l.f;
    let j = couplings(&mut l.c);
    ensure("sizes are kept", l.c.spins.len() == f.n && l.c.static_h.len() == f.n);
    for i in 0..f.n {
        eq3("couplings are kept", &j[i], &f.j[i]);
        eq3("static fields are kept", &l.c.static_h[i], &f.h[i]);
    }
    eq("tau is kept", l.c.vars.tau, f.tau);
    eq("dt is kept", l.c.vars.dt, f.dt);
    eq("beta is kept", l.c.vars.beta, f.beta);
    eq("gamma is kept", l.c.gamma, l.gamma);
}

pub fn lang_energy() {
    let l = lang();
    let (f, c) = (&l.f, &l.c);
    let b = f.field(f.t);
    let e = (bonds(&f.s, &f.j, f.n, f.n) + zeeman(&f.s, &b, f.n)) / f.n as f64;
    eq("total_energy2", c.total_energy2(), e);
    eq("total_energy", c.total_energy(), e);
    let m = f.k - 1;
    eq("system_energy", c.system_energy(), (bonds(&f.s, &f.j, m, f.n) + zeeman(&f.s, &b, m)) / m as f64);
    let (mut a, mut b) = ([0.0; 3], [0.0; 3]);
    for i in 0..f.n {
        b = add(&b, &f.s[i]);
        if i < f.k {
            a = add(&a, &f.s[i]);
        }
    }
    eq3("m is the magnetisation of the subsystem", &c.m(), &a);
    eq3("m_tot is the magnetisation of the chain", &c.m_tot(), &b);
}

/// numbers on a line
pub fn numbers(l: &str) -> Vec<f64> {
    let mut v = Vec::new();
    for t in l.split_whitespace() {
        v.push(num(t));
    }
    v
}

/// mean energy change through the two damped ends and the drive
fn boundary(l: &Lang) -> f64 {
    let (f, g) = (&l.f, l.gamma);
    let b = f.field(f.t);
    let q = f.k - 1;
    let o1 = sub(&had(&f.j[0], &f.s[1]), &b[0]);
    let ol = sub(&had(&f.j[q - 1], &f.s[q - 1]), &b[q]);
    let (x, y) = (dot(&o1, &f.s[0]), dot(&ol, &f.s[q]));
    let mut w = 0.0;
    let d = drive_prime(f.drive, f.t, f.tau, f.e);
    for i in 0..f.k {
        w += dot(&f.s[i], &d);
    }
    2.0 * g / f.beta * (x + y) - g * (dot(&o1, &o1) - x * x + dot(&ol, &ol) - y * y)
        + 2.0 * std::f64::consts::PI / f.tau * w
}

pub fn lang_boundary() {
    let l = lang();
    eq("boundary term", l.c.boundary_term(), boundary(&l));
}

pub fn lang_log() {
    let l = lang();
    let (f, c) = (&l.f, &l.c);
    c.log();
    let text = file_text("run3.dat");
    let mut it = text.lines();
    ensure("the log starts with a header", it.next().map_or(false, |x| x.starts_with("#t")));
    let v = numbers(it.next().unwrap_or(""));
    ensure("one record per call", it.next().is_none());
    ensure("a record has 8 columns", v.len() == 8);
    if v.len() != 8 {
        return;
    }
    let b = f.field(f.t);
    let m = f.k - 1;
    let e = (bonds(&f.s, &f.j, m, f.n) + zeeman(&f.s, &b, m)) / m as f64;
    eq("column 1: time", v[0], f.t);
    eq("column 2: energy", v[1], e);
    eq("column 3: energy of the system", v[2], e);
    let (mut x, mut z) = ([0.0; 3], 0.0);
    for i in 0..f.n {
        z += f.s[i][2];
        if i < f.k {
            x = add(&x, &f.s[i]);
        }
    }
    for a in 0..3 {
        eq("columns 4-6: magnetisation per subsystem spin", v[3 + a], x[a] / f.k as f64);
    }
    eq("column 7: z magnetisation of the chain per spin", v[6], z / f.n as f64);
    eq("column 8: boundary term", v[7], boundary(&l));
}

/// effective field in the open chain, the ends damped and kicked
fn omega_open(s: &[V], j: &[V], b: &[V], i: usize, gamma: f64, kick: &V) -> V {
    let n = s.len();
    let mut o = scale(-1.0, &b[i]);
    if i > 0 {
        o = add(&o, &had(&j[i - 1], &s[i - 1]));
    }
    if i + 1 < n {
        o = add(&o, &had(&j[i], &s[i + 1]));
    }
    if i == 0 || i + 1 == n {
        let damp = scale(gamma, &cross(&s[i], &o));
        return sub(&sub(&o, &damp), kick);
    }
    o
}

pub fn lang_update() {
    let mut l = lang();
    let n0 = ndraws(1);
    // which draw is which component of which end does not matter
    let alt = int("alt", 0, 7) as usize;
    let f = &l.f;
    let sigma = (2.0 * l.gamma * f.dt / f.beta).sqrt();
    let mut kick = [[0.0; 3]; 2];
    for e in 0..2 {
        for a in 0..3 {
            let side = (e + alt) % 2;
            let m = if alt / 2 % 2 == 0 { 3 * side + a } else { 2 * a + side };
            let x = draw(1, n0 + m);
            kick[e][a] = sigma * if alt >= 4 { -x } else { x } / f.dt;
        }
    }
    let b = f.field(f.t + f.dt);
    let mut s = f.s.clone();
    for (par, w) in [(0, 0.5), (1, 1.0), (0, 0.5)] {
        let old = s.clone();
        for i in 0..f.n {
            if i % 2 == par {
                let o = omega_open(&old, &f.j, &b, i, l.gamma, &kick[par]);
                opaque(&o);
                s[i] = precess(&old[i], &o, w * f.dt);
                cut3(&s[i]);
            }
        }
    }
    l.c.update();
    ensure("six draws: one vector per end", ndraws(1) == n0 + 6);
    for i in 0..l.f.n {
        eq3("update = Suzuki-Trotter step of the open chain, damped and kicked at its ends", &l.c.spins[i].dir, &s[i]);
    }
    eq("the clock advances by dt", l.c.t, l.f.t + l.f.dt);
    frame_l(&mut l);
}

fn metropolis_l(h: impl Fn(&Fix, &[V]) -> f64, step: impl Fn(&mut SpinChainLangevin)) {
    let mut l = lang();
    let (u0, i0) = (ndraws(0), ndraws(2));
    step(&mut l.c);
    ensure("one site is drawn", ndraws(2) == i0 + 1);
    let i = draw(2, i0) as usize;
    let (a, b, p) = roles(u0);
    let new = new_dir(a, b);
    let f = &l.f;
    let mut s2 = f.s.clone();
    s2[i] = new;
    let de = h(f, &s2) - h(f, &f.s);
    let accept = de < 0.0 || p < (-f.beta * de).exp();
    for k in 0..f.n {
        if k == i && accept {
            eq3("an accepted move puts the proposed spin", &l.c.spins[k].dir, &new);
        } else {
            eq3("all other spins stay", &l.c.spins[k].dir, &f.s[k]);
        }
    }
    eq("the clock stays", l.c.t, f.t);
    frame_l(&mut l);
}

pub fn lang_mc_plain() {
    metropolis_l(|f, s| bonds(s, &f.j, f.n, f.n), |c| c.metropolis_update());
}

pub fn lang_mc_magnus() {
    metropolis_l(crate::h_mc::h_magnus, |c| c.metropolis_update_magnus());
}

pub fn lang_disorder() {
    let p = crate::h_new::par();
    let n0 = ndraws(1);
    fixed_draws(2);
    let mut c = SpinChainLangevin::new(p.c.clone(), 7, pos("gamma"));
    fixed_draws(0);
    let j = couplings(&mut c);
    ensure("one spin and field per site", c.spins.len() == p.n && c.static_h.len() == p.n);
    let mut used = Vec::new();
    for i in 0..p.n {
        for a in 0..3 {
            let b = if a < 2 { 1.0 } else { p.lambda };
            crate::h_new::scattered("couplings scatter by jvar around (1,1,lambda)", j[i][a], b, p.jvar, n0, &mut used);
            let b = if i < p.k { p.hfield[a] + p.hs[a] } else { p.hfield[a] };
            crate::h_new::scattered("fields scatter by hvar around hfield (+hs on the subsystem)", c.static_h[i][a], b, p.hvar, n0, &mut used);
        }
    }
    eq("a run starts at -trel", c.t, -p.trel);
    ensure("a log file run7.dat exists", file_exists("run7.dat"));
    eq("configuration is kept: lambda", c.vars.lambda, p.lambda);
    eq("configuration is kept: trel", c.vars.trel, p.trel);
}
