// What the command line was understood to say, field by field.
use crate::env::*;
use crate::scbin::h_run::Want;

fn same_number(a: Option<f64>, b: Option<f64>) {
    let l = "the options are understood as documented";
    ensure(l, a.is_some() == b.is_some());
    if let (Some(a), Some(b)) = (a, b) {
        eq(l, a, b);
    }
}
pub fn check(a: &Cli, w: &Want) {
    let l = "the options are understood as documented";
    let numbers = [
        (0, a.tau), (2, a.beta), (10, a.langevin.unwrap_or(None)), (14, a.adiabatic), (15, a.adiab2), (16, a.rot),
        (18, a.maglab), (20, a.fit), (21, a.fit_effective), (24, a.high_freq),
    ];
    for (i, x) in numbers.iter() {
        same_number(*x, w.number[*i]);
    }
    let counts = [
        (7, a.hist.unwrap_or(None)), (8, a.dynhist.unwrap_or(None)), (9, a.singletraj.unwrap_or(None)),
        (11, a.magnus_hist.unwrap_or(None)), (19, a.steps.map(|x| x as usize)),
    ];
    for (i, x) in counts.iter() {
        ensure(l, *x == w.count[*i]);
    }
    let there = [
        a.tau.is_some(), a.avg, a.beta.is_some(), a.mc, a.mc_profile, a.dyn_profile, a.mc_full, a.hist.is_some(),
        a.dynhist.is_some(), a.singletraj.is_some(), a.langevin.is_some(), a.magnus_hist.is_some(), a.config_desc,
        a.n_steps_taus.is_some(), a.adiabatic.is_some(), a.adiab2.is_some(), a.rot.is_some(), a.ext,
        a.maglab.is_some(), a.steps.is_some(), a.fit.is_some(), a.fit_effective.is_some(), a.response, a.two_point,
        a.high_freq.is_some(),
    ];
    for i in 0..25 {
        ensure(l, there[i] == w.there[i]);
    }
    if let Some(p) = &a.n_steps_taus {
        ensure(l, p.len() == w.list.len());
        if p.len() == w.list.len() {
            for i in 0..p.len() {
                eq(l, p[i], w.list[i]);
            }
        }
    }
}
