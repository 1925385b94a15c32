//! Metropolis updates: whatever the code computes, the move must be the one of
//! Metropolis-Hastings for a Hamiltonian on the whole chain.
use crate::env::*;
use crate::h_chain::*;
use crate::refm::*;
use sc::spinchain::SpinChain;

/// omega = 2 pi / tau
fn om(f: &Fix) -> f64 {
    2.0 * std::f64::consts::PI / f.tau
}

/// The three uniform draws, by role.  Which draw has which role, and which pole
/// the polar angle is measured from, does not matter for the distribution: the
/// check tries the alternatives.
pub fn roles(u0: usize) -> (f64, f64, f64) {
    let alt = int("alt", 0, 11);
    let p = match alt % 6 {
        0 => [0, 1, 2],
        1 => [1, 0, 2],
        2 => [2, 0, 1],
        3 => [2, 1, 0],
        4 => [0, 2, 1],
        _ => [1, 2, 0],
    };
    let b = draw(0, u0 + p[1]);
    (draw(0, u0 + p[0]), if alt >= 6 { 1.0 - b } else { b }, draw(0, u0 + p[2]))
}

pub fn metropolis(f: &Fix, h: impl Fn(&[V]) -> f64, step: impl Fn(&mut SpinChain)) {
    let mut c = f.chain();
    let (u0, i0) = (ndraws(0), ndraws(2));
    step(&mut c);
    ensure("one site is drawn", ndraws(2) == i0 + 1);
    let i = draw(2, i0) as usize;
    let (a, b, p) = roles(u0);
    let new = new_dir(a, b);
    let mut s2 = f.s.clone();
    s2[i] = new;
    let de = h(&s2) - h(&f.s);
    let accept = de < 0.0 || p < (-f.beta * de).exp();
    for k in 0..f.n {
        if k == i && accept {
            eq3("an accepted move puts the proposed spin", &c.spins[k].dir, &new);
        } else {
            eq3("all other spins stay", &c.spins[k].dir, &f.s[k]);
        }
    }
    frame(f, &c);
    eq("the clock stays", c.t, f.t);
}

pub fn mc_plain() {
    let f = fix();
    metropolis(&f, |s| bonds(s, &f.j, f.n, f.n) + zeeman(s, &f.h, f.n), |c| c.metropolis_update());
}

/// time-averaged field of a rotating drive: -S^z / (2 omega) on every site
pub fn h_maglab(f: &Fix, s: &[V]) -> f64 {
    let mut e = bonds(s, &f.j, f.n, f.n);
    for x in s {
        e -= x[2] / (2.0 * om(f));
    }
    e
}

pub fn mc_maglab() {
    let f = fix();
    metropolis(&f, |s| h_maglab(&f, s), |c| c.metropolis_update_maglab());
}

/// S_i^z (S_a^x S_b^x + S_a^y S_b^y)
fn zxi(s: &[V], a: usize, b: usize, i: usize) -> f64 {
    s[i][2] * (s[a][0] * s[b][0] + s[a][1] * s[b][1])
}

/// rotating frame with the leading Magnus correction
pub fn h_rot(f: &Fix, s: &[V]) -> f64 {
    let n = f.n;
    let mut e = 0.0;
    let mut mg = 0.0;
    for i in 0..n {
        let r = (i + 1) % n;
        let l = (i + n - 1) % n;
        let j = f.j[i];
        e -= 0.5 * (j[0] + j[1]) * (s[i][0] * s[r][0] + s[i][1] * s[r][1]) + j[2] * s[i][2] * s[r][2];
        if i < f.k {
            e += s[i][0];
        }
        e -= om(f) * s[i][2];
        let d = j[1] - j[0];
        let dl = f.j[l][1] - f.j[l][0];
        mg += d * d * (zxi(s, i, i, r) + zxi(s, r, r, i));
        mg += 2.0 * d * dl * zxi(s, l, r, i);
    }
    e - mg / (16.0 * om(f))
}

pub fn mc_rot() {
    let f = fix();
    metropolis(&f, |s| h_rot(&f, s), |c| c.metropolis_update_rot_magnus());
}

/// exchange field of the neighbours
fn hx(f: &Fix, s: &[V], i: usize) -> V {
    let l = (i + f.n - 1) % f.n;
    add(&had(&f.j[l], &s[l]), &had(&f.j[i], &s[(i + 1) % f.n]))
}

/// leading order: time average plus -1/(2 omega) sum_{j<l} [S^z + 2 y.(h x S)]
pub fn h_magnus(f: &Fix, s: &[V]) -> f64 {
    let mut e = bonds(s, &f.j, f.n, f.n);
    for i in 0..f.k {
        e -= (s[i][2] + 2.0 * cross(&hx(f, s, i), &s[i])[1]) / (2.0 * om(f));
    }
    e
}

pub fn mc_magnus() {
    let f = fix();
    metropolis(&f, |s| h_magnus(&f, s), |c| c.metropolis_update_magnus());
}

/// second order, drive on the whole chain
pub fn h_full(f: &Fix, s: &[V]) -> f64 {
    let n = f.n;
    let (mut e1, mut e2) = (0.0, 0.0);
    let mut a = Vec::new();
    for i in 0..n {
        a.push(cross(&hx(f, s, i), &s[i]));
    }
    for i in 0..n {
        let r = (i + 1) % n;
        let l = (i + n - 1) % n;
        let (j, x, y) = (f.j[i], s[i], s[r]);
        e1 -= 0.5 * x[2] + (j[2] - j[0]) * (x[0] * y[2] + x[2] * y[0]);
        e2 += 0.5 * x[0];
        e2 -= 0.5 * (j[1] * x[2] * y[2] + j[2] * x[1] * y[1]) + 1.5 * (j[0] * x[2] * y[2] + j[2] * x[0] * y[0]);
        let h = hx(f, s, i);
        e2 += h[0] * dot(&x, &h) - x[0] * dot(&h, &h);
        e2 += cross(&add(&had(&f.j[l], &a[l]), &had(&j, &a[r])), &x)[0];
    }
    let o = om(f);
    bonds(s, &f.j, n, n) + e1 / o + e2 / (o * o)
}

pub fn mc_full() {
    let f = fix();
    assume(f.n == f.k);
    metropolis(&f, |s| h_full(&f, s), |c| c.metropolis_update_mag_full());
}

/// the energies averaged in Monte Carlo runs are those of the sampled Hamiltonian
pub fn mc_energies() {
    let f = fix();
    let c = f.chain();
    eq("rotating-frame energy per site", c.mc_system_energy_rot(), h_rot(&f, &f.s) / f.n as f64);
    eq("lab-frame energy per site", c.mc_system_energy_maglab(), h_maglab(&f, &f.s) / f.n as f64);
}
