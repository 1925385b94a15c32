//! The temperature for an energy density.
use crate::env::*;
use sc::spinchain::SpinChain;
use sc::spinchain_langevin::SpinChainLangevin;

/// windows of energy densities from -1 up, 0.001 each
pub fn beta_of_energy() {
    let which = int("langevin", 0, 1);
    let w = int("chunk", 0, 13) * 50 + int("window", 0, 49);
    assume(w >= 10);
    let lo = -1.0 + (w as f64) * 0.001;
    let e = range("e", lo, lo + 0.001);
    let b = if which == 0 { SpinChain::solve_beta(e) } else { SpinChainLangevin::solve_beta(e) };
    ensure("the temperature is positive", b > 0.0);
    let l = 1.0 / b.tanh() - 1.0 / b;
    let tol = if w < 400 { 0.001 } else { 0.02 };
    ensure("the energy density is not too high", -l < e + tol);
    ensure("the energy density is not too low", -l > e - tol);
}
