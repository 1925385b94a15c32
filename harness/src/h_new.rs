//! Construction of a chain.
use crate::env::*;
use crate::h_chain::*;
use crate::refm::*;
use sc::config::Config;
use sc::spinchain::SpinChain;
use sc::spinchain_langevin::SpinChainLangevin;

pub struct Par {
    pub c: Config,
    pub n: usize,
    pub k: usize,
    pub jvar: f64,
    pub hvar: f64,
    pub lambda: f64,
    pub trel: f64,
    pub hfield: V,
    pub hs: V,
}

pub fn par() -> Par {
    let (n, k) = (int("n", 2, 8), int("k", 1, 8));
    let mut c = conf(n, k, int("drive", 0, 4));
    let p = Par {
        n: n as usize,
        k: k as usize,
        jvar: pos("jvar"),
        hvar: pos("hvar"),
        lambda: sym("lambda"),
        trel: sym("trel"),
        hfield: sym3("hfield"),
        hs: sym3("hs"),
        c: c.clone(),
    };
    c.jvar = p.jvar;
    c.hvar = p.hvar;
    c.lambda = p.lambda;
    c.trel = p.trel;
    c.hfield = p.hfield.to_vec();
    c.hs = p.hs.to_vec();
    c.log = int("log", 0, 1) == 1;
    c.file = String::from("run");
    Par { c, ..p }
}

/// x is b + w * (a normal draw that served nothing else)
pub fn scattered(l: &str, x: f64, b: f64, w: f64, n0: usize, used: &mut Vec<bool>) {
    for m in n0..ndraws(1) {
        while used.len() <= m {
            used.push(false);
        }
        if !used[m] && known(x, b + w * draw(1, m)) {
            used[m] = true;
            ensure(l, true);
            return;
        }
    }
    ensure(l, false);
}

pub fn new_disorder() {
    let p = par();
    let n0 = ndraws(1);
    fixed_draws(2);
    let c = SpinChain::new(p.c.clone(), 7);
    fixed_draws(0);
    ensure("one spin, coupling and field per site", c.spins.len() == p.n && c.j_couple.len() == p.n && c.static_h.len() == p.n);
    let mut used = Vec::new();
    for i in 0..p.n {
        for a in 0..3 {
            let b = if a < 2 { 1.0 } else { p.lambda };
            scattered("couplings scatter by jvar around (1,1,lambda)", c.j_couple[i][a], b, p.jvar, n0, &mut used);
            let b = if i < p.k { p.hfield[a] + p.hs[a] } else { p.hfield[a] };
            scattered("fields scatter by hvar around hfield (+hs on the subsystem)", c.static_h[i][a], b, p.hvar, n0, &mut used);
        }
    }
    eq("a run starts at -trel", c.t, -p.trel);
    ensure("a log file run7.dat exists iff logging is on", file_exists("run7.dat") == p.c.log);
    ensure("no log file without logging", c.file.is_some() == p.c.log);
    eq("configuration is kept: lambda", c.vars.lambda, p.lambda);
    eq("configuration is kept: trel", c.vars.trel, p.trel);
}

/// The draws of the initial spin, by role.
fn roles3(u0: usize) -> (f64, f64, f64) {
    let (a, b, p) = roles_alt(u0, int("alt", 0, 23) / 2);
    (a, b, p)
}

pub fn roles_alt(u0: usize, alt: i64) -> (f64, f64, f64) {
    let p = match alt % 6 {
        0 => [0, 1, 2],
        1 => [1, 0, 2],
        2 => [2, 0, 1],
        3 => [2, 1, 0],
        4 => [0, 2, 1],
        _ => [1, 2, 0],
    };
    let q = draw(0, u0 + p[2]);
    (draw(0, u0 + p[0]), draw(0, u0 + p[1]), if alt >= 6 { 1.0 - q } else { q })
}

/// Neighbouring initial spins: Gibbs weight exp(beta cos) of the angle between
/// them, any azimuth alike.
fn neighbours(obl: bool, new: &V, old: &V, d: &V, beta: f64, u: f64) {
    let mode = int("alt", 0, 23) % 2;
    let say = if obl { eq } else { lemma };
    let c = dot(new, old);
    if beta == 0.0 {
        say("the angle between neighbours: uniform cosine at infinite temperature", c, 1.0 - 2.0 * u);
    } else {
        let (e, f) = (beta.exp(), (-beta).exp());
        say("the angle between neighbours has Gibbs weight", (beta * c).exp(), e - u * (e - f));
    }
    let w = sub(new, &scale(c, old));
    let g = sub(d, &scale(dot(d, old), old));
    let l = "the azimuth is that of the drawn direction";
    if mode == 0 {
        say(l, dot(&w, &g), 0.0);
    } else {
        let x = cross(&w, &g);
        for a in 0..3 {
            say(l, x[a], 0.0);
        }
    }
    say("initial spins are unit vectors", dot(new, new), 1.0);
}

fn ensemble(spins: &[V], beta: f64, u0: usize) {
    let mut old = angles(0.01, std::f64::consts::PI / 2.0);
    for i in 0..spins.len() {
        let (a, b, u) = roles3(u0 + 3 * i);
        if i > 0 {
            neighbours(true, &spins[i], &old, &new_dir(a, b), beta, u);
        } else {
            eq("initial spins are unit vectors", dot(&spins[i], &spins[i]), 1.0);
        }
        old = spins[i];
    }
}

/// The construction by itself, one spin after another from arbitrary neighbours
/// (the spins are then treated as unknowns): it obeys the law.
fn hints(n: usize, beta: f64, u0: usize) {
    let mode = int("alt", 0, 23) % 2;
    let mut old = angles(0.01, std::f64::consts::PI / 2.0);
    for i in 0..n {
        let (a, b, u) = roles3(u0 + 3 * i);
        let d = new_dir(a, b);
        let x = cross(&old, &d);
        assume(dot(&x, &x) > 0.0);
        let q = sub(&d, &scale(dot(&d, &old), &old));
        let m = dot(&q, &q).sqrt();
        let p = [q[0] / m, q[1] / m, q[2] / m];
        let e = beta.exp();
        let c = if beta == 0.0 { 1.0 - 2.0 * u } else { (e - u * (e - 1.0 / e)).ln() / beta };
        cut(&c);
        let x = if mode == 0 { cross(&p, &old) } else { p };
        let s = (1.0 - c * c).sqrt();
        let new = [c * old[0] + s * x[0], c * old[1] + s * x[1], c * old[2] + s * x[2]];
        neighbours(false, &new, &old, &d, beta, u);
        old = new;
        cut3(&old);
    }
}

pub fn new_ensemble() {
    let p = par();
    let mut c = p.c.clone();
    c.beta = sym("beta");
    let u0 = ndraws(0);
    hints(p.n, c.beta, u0);
    fixed_draws(3);
    let c = SpinChain::new(c, 7);
    fixed_draws(0);
    let mut s = Vec::new();
    for x in &c.spins {
        s.push(x.dir);
    }
    ensemble(&s, c.vars.beta, u0);
}

pub fn new_ensemble_langevin() {
    let p = par();
    let mut c = p.c.clone();
    c.beta = sym("beta");
    let u0 = ndraws(0);
    hints(p.n, c.beta, u0);
    fixed_draws(3);
    let c = SpinChainLangevin::new(c, 7, pos("gamma"));
    fixed_draws(0);
    let mut s = Vec::new();
    for x in &c.spins {
        s.push(x.dir);
    }
    ensemble(&s, c.vars.beta, u0);
}
