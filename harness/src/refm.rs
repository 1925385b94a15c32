//! Reference definitions (what the physics says), written independently of the
//! code under test: plain loops over an explicit energy function or equation of
//! motion.
use crate::env::*;
pub type V = [f64; 3];

pub fn dot(a: &V, b: &V) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn cross(a: &V, b: &V) -> V {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
pub fn add(a: &V, b: &V) -> V {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
pub fn sub(a: &V, b: &V) -> V {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn scale(k: f64, a: &V) -> V {
    [k * a[0], k * a[1], k * a[2]]
}
pub fn had(a: &V, b: &V) -> V {
    [a[0] * b[0], a[1] * b[1], a[2] * b[2]]
}
pub fn angles(theta: f64, phi: f64) -> V {
    [theta.cos() * phi.sin(), theta.sin() * phi.sin(), phi.cos()]
}

/// Precession of the unit vector s about f for a time dt: ds/dt = s x f,
/// i.e. a rotation by the angle -|f| dt about f.
pub fn precess(s: &V, f: &V, dt: f64) -> V {
    let ff = dot(f, f);
    let m = ff.sqrt();
    if m == 0.0 {
        return *s;
    }
    let (c, d) = ((m * dt).cos(), (m * dt).sin());
    let n = [f[0] / m, f[1] / m, f[2] / m];
    let p = dot(&n, s);
    let x = cross(&n, s);
    let mut o = [0.0; 3];
    for k in 0..3 {
        o[k] = c * s[k] + (1.0 - c) * p * n[k] - d * x[k];
    }
    o
}

/// 0 xyplane, 1 xyelliptic, 2 uniaxial, 3 staticfield, 4 none
pub fn drive(kind: i64, t: f64, tau: f64, e: f64, hs: &V) -> V {
    let p = 2.0 * std::f64::consts::PI * t / tau;
    match kind {
        0 => [p.cos(), p.sin(), 0.0],
        1 => [p.cos(), e * p.sin(), 0.0],
        2 => [p.cos(), 0.0, 0.0],
        3 => *hs,
        _ => [0.0, 0.0, 0.0],
    }
}

/// d/dphi of the driving field
pub fn drive_prime(kind: i64, t: f64, tau: f64, e: f64) -> V {
    let p = 2.0 * std::f64::consts::PI * t / tau;
    match kind {
        0 => [-p.sin(), p.cos(), 0.0],
        1 => [-p.sin(), e * p.cos(), 0.0],
        2 => [-p.sin(), 0.0, 0.0],
        _ => [0.0, 0.0, 0.0],
    }
}

/// -sum S_i J_i S_{i+1} over the bonds first..last (bond i joins i and i+1 mod n)
pub fn bonds(s: &[V], j: &[V], nb: usize, n: usize) -> f64 {
    let mut e = 0.0;
    for i in 0..nb {
        e -= dot(&had(&s[i], &j[i]), &s[(i + 1) % n]);
    }
    e
}
/// sum S_i B_i over the first n sites
pub fn zeeman(s: &[V], b: &[V], n: usize) -> f64 {
    let mut e = 0.0;
    for i in 0..n {
        e += dot(&s[i], &b[i]);
    }
    e
}
