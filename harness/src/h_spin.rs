use crate::env::*;
use crate::refm::*;
use sc::spin::Spin;

pub fn spin_ctor() {
    let v = sym3("v");
    assume(dot(&v, &v) > 0.0);
    let s = Spin::new_xyz(&v);
    let m = dot(&v, &v).sqrt();
    eq3("new_xyz normalises its argument", &scale(m, &s.dir), &v);
    eq("new_xyz gives a unit vector", dot(&s.dir, &s.dir), 1.0);
    let (th, ph) = (sym("theta"), sym("phi"));
    let a = Spin::new_from_angles(th, ph);
    eq3("new_from_angles", &a.dir, &angles(th, ph));
    eq("new_from_angles gives a unit vector", dot(&a.dir, &a.dir), 1.0);
    let mut b = spin("s");
    let sd = b.dir;
    let x = b.xyz();
    ensure("xyz has three components", x.len() == 3);
    eq3("xyz returns the components", &[x[0], x[1], x[2]], &sd);
    let c = b.clone();
    eq3("a clone has the same direction", &c.dir, &sd);
    b.set_angles(th, ph);
    eq3("set_angles", &b.dir, &angles(th, ph));
    eq3("new is along x", &Spin::new().dir, &[1.0, 0.0, 0.0]);
    eq3("default is along x", &Spin::default().dir, &[1.0, 0.0, 0.0]);
}

pub fn spin_rotate() {
    let mut s = spin("s");
    let s0 = s.dir;
    let f = sym3("f");
    let dt = sym("dt");
    let r = precess(&s0, &f, dt);
    s.rotate(&f, dt);
    eq3("rotate = precession about the field by |f| dt", &s.dir, &r);
    eq("rotation keeps unit length", dot(&s.dir, &s.dir), 1.0);
    eq("rotation keeps the component along the field", dot(&s.dir, &f), dot(&s0, &f));
    s.rotate(&f, -dt);
    eq3("rotating back restores the spin", &s.dir, &s0);
}

/// rounding drift: the result is renormalised whatever the length of the input
pub fn spin_rotate_renorm() {
    let v = sym3("v");
    assume(dot(&v, &v) > 0.0);
    let mut s = Spin::new();
    s.dir = v;
    let f = sym3("f");
    assume(dot(&f, &f) > 0.0);
    let dt = sym("dt");
    s.rotate(&f, dt);
    eq("rotate renormalises", dot(&s.dir, &s.dir), 1.0);
}

pub fn spin_angles() {
    let s = spin("s");
    let (t, p) = (s.theta(), s.phi());
    let b = Spin::new_from_angles(t, p);
    eq3("theta and phi give the spin back", &b.dir, &s.dir);
}

pub fn spin_gs() {
    let old = sym3("o");
    let perp = sym3("p");
    let oo = dot(&old, &old);
    assume(oo > 0.0);
    let c = cross(&old, &perp);
    assume(dot(&c, &c) > 0.0);
    let g = Spin::gs(&old, &perp);
    // the reference: old x (perp x old) / |..|
    let r = sub(&scale(oo, &perp), &scale(dot(&old, &perp), &old));
    let m = dot(&r, &r).sqrt();
    eq3("gs is the normalised component orthogonal to old", &scale(m, &g), &r);
    eq("gs is a unit vector", dot(&g, &g), 1.0);
    eq("gs is orthogonal to old", dot(&g, &old), 0.0);
}

pub fn spin_rot_perp() {
    let (th, ph) = (sym("theta"), sym("phi"));
    let d = sym3("d");
    let a = sym("angle");
    let o = angles(th, ph);
    let c = cross(&o, &d);
    assume(dot(&c, &c) > 0.0);
    let q = sub(&d, &scale(dot(&d, &o), &o));
    let m = dot(&q, &q).sqrt();
    let p = [q[0] / m, q[1] / m, q[2] / m];
    let x = cross(&p, &o);
    let mut r = [0.0; 3];
    for k in 0..3 {
        r[k] = a.cos() * o[k] + a.sin() * x[k];
    }
    cut3(&r);
    let n = Spin::rot_perp(&[th, ph], &d, a);
    eq3("rot_perp turns the spin by the angle about the orthogonal direction", &angles(n[0], n[1]), &r);
}

pub fn spin_eq() {
    let (a, b) = (sym3("a"), sym3("b"));
    let (mut s, mut t) = (Spin::new(), Spin::new());
    s.dir = a;
    t.dir = b;
    let mut close = true;
    for k in 0..3 {
        if !((a[k] - b[k]).abs() < 0.001) {
            close = false;
        }
    }
    ensure("spins are equal iff every component agrees to 0.001", (s == t) == close);
    ensure("equality is symmetric", (s == t) == (t == s));
    ensure("ne is the negation of eq", (s != t) == !(s == t));
}
