//! What a run writes down.
use crate::env::*;
use crate::h_chain::*;
use crate::h_lang::numbers;
use crate::refm::*;
use sc::spinchain::SpinChain;

impl Fix {
    /// the same chain, logging to run0.dat
    pub fn logging(&self) -> SpinChain {
        let mut k = conf(self.n as i64, self.k as i64, self.drive);
        k.log = true;
        k.file = String::from("run");
        fixed_draws(1);
        let mut c = SpinChain::new(k, 0);
        fixed_draws(0);
        let d = self.chain();
        c.spins = d.spins.clone();
        c.j_couple = d.j_couple.clone();
        c.static_h = d.static_h.clone();
        c.t = self.t;
        c.vars = d.vars.clone();
        c
    }
}

pub fn obs_log() {
    let f = fix();
    let c = f.logging();
    let text0 = file_text("run0.dat");
    c.log();
    let text = file_text("run0.dat");
    ensure("a record is appended", text.len() > text0.len() && text.as_bytes()[..text0.len()] == *text0.as_bytes());
    if text.len() <= text0.len() {
        return;
    }
    let mut it = text[text0.len()..].lines();
    let v = numbers(it.next().unwrap_or(""));
    ensure("one record per call", it.next().is_none());
    ensure("a record has 13 columns", v.len() == 13);
    if v.len() != 13 {
        return;
    }
    let b = f.field(f.t);
    let m = f.k - 1;
    eq("column 1: time", v[0], f.t);
    eq("column 2: energy per spin of the chain", v[1], (bonds(&f.s, &f.j, f.n, f.n) + zeeman(&f.s, &b, f.n)) / f.n as f64);
    eq("column 3: energy of the subsystem", v[2], (bonds(&f.s, &f.j, m, f.n) + zeeman(&f.s, &b, m)) / m as f64);
    let (mut x, mut z) = ([0.0; 3], 0.0);
    for i in 0..f.n {
        z += f.s[i][2];
        if i < f.k {
            x = add(&x, &f.s[i]);
        }
    }
    for a in 0..3 {
        eq("columns 4-6: magnetisation per subsystem spin", v[3 + a], x[a] / f.k as f64);
        eq("columns 8-10: the spin a quarter into the subsystem", v[7 + a], f.s[f.k / 4][a]);
        eq("columns 11-13: the spin three quarters into the subsystem", v[10 + a], f.s[3 * f.k / 4][a]);
    }
    eq("column 7: z magnetisation of the chain per spin", v[6], z / f.n as f64);
}

pub fn obs_log_ext() {
    let f = fix();
    let c = f.logging();
    let text0 = file_text("run0.dat");
    c.log_ext();
    let text = file_text("run0.dat");
    ensure("a snapshot is appended", text.len() > text0.len() && text.as_bytes()[..text0.len()] == *text0.as_bytes());
    if text.len() <= text0.len() {
        return;
    }
    let mut it = text[text0.len()..].lines();
    let b = f.field(f.t);
    let last = if f.k < f.n - 1 { f.k } else { f.n - 1 };
    for j in 1..last {
        let v = numbers(it.next().unwrap_or(""));
        ensure("a line per site, of 6 columns", v.len() == 6);
        if v.len() != 6 {
            return;
        }
        eq("column 1: time", v[0], f.t);
        eq("column 2: site", v[1], j as f64);
        let e = dot(&b[j], &f.s[j])
            - 0.5 * (dot(&had(&f.s[j - 1], &f.j[j - 1]), &f.s[j]) + dot(&had(&f.s[j], &f.j[j]), &f.s[j + 1]));
        eq("column 3: energy at the site", v[2], e);
        for a in 0..3 {
            eq("columns 4-6: spin", v[3 + a], f.s[j][a]);
        }
    }
    ensure("an empty line ends a snapshot", it.next() == Some(""));
    ensure("nothing follows", it.next().is_none());
}

/// no log file: nothing to write, nothing to fail
pub fn obs_log_off() {
    let f = fix();
    let c = f.chain();
    c.log();
    c.log_ext();
    ensure("no file appears", !file_exists("run0.dat") && !file_exists("log0.dat"));
    for i in 0..f.n {
        eq3("logging changes nothing", &c.spins[i].dir, &f.s[i]);
    }
    eq("logging changes no clock", c.t, f.t);
}

pub fn obs_spectrum() {
    let f = fix();
    let c = f.chain();
    let e = c.energy_spectrum();
    ensure("one value per wave vector", e.len() == f.n);
    let mut sum = 0.0;
    for m in 0..f.n {
        // k = 2 pi m / n - pi
        let mut w = 0.0;
        for a in 0..3 {
            let (mut re, mut im) = (0.0, 0.0);
            for i in 0..f.n {
                let p = 2.0 * std::f64::consts::PI * (((2 * m + f.n) * i) % (2 * f.n)) as f64 / (2 * f.n) as f64;
                re += p.cos() * f.s[i][a];
                im += p.sin() * f.s[i][a];
            }
            w += re * re + im * im;
        }
        eq("spectral weight at k = 2 pi m / n - pi", e[m], w);
        sum += e[m];
    }
    // (follows from the above; shown where the phases are rational)
    if f.n <= 4 || native() {
        eq("the weights add up to n times the number of spins", sum, (f.n * f.n) as f64);
    }
}
