pub mod env;
pub mod refm;
pub mod h_spin;
pub mod h_chain;
pub mod h_mc;
pub mod h_new;
pub mod h_lang;
pub mod h_obs;
pub mod h_beta;
pub mod h_conf;

macro_rules! harnesses {
    ($($m:ident :: $f:ident),* $(,)?) => {
        /// the harnesses, by name
        pub fn run(name: &str) -> bool {
            match name {
                $(stringify!($f) => $m::$f(),)*
                _ => return false,
            }
            true
        }
        pub mod entry {
            $(#[no_mangle] #[inline(never)] pub extern "C" fn $f() { crate::$m::$f() })*
        }
    };
}
harnesses! {
    h_spin::spin_ctor, h_spin::spin_rotate, h_spin::spin_rotate_renorm, h_spin::spin_angles,
    h_chain::chain_total_energy, h_chain::chain_system_energy, h_chain::chain_mc_energy,
    h_chain::chain_magnetisation, h_chain::chain_drive, h_chain::chain_update, h_chain::chain_update_twice,
    h_chain::chain_update_no_field, h_chain::chain_invariants,
    h_mc::mc_plain, h_mc::mc_maglab, h_mc::mc_rot, h_mc::mc_magnus, h_mc::mc_full, h_mc::mc_energies,
    h_new::new_disorder, h_new::new_ensemble, h_new::new_ensemble_langevin,
    h_spin::spin_gs, h_spin::spin_rot_perp, h_spin::spin_eq,
    h_lang::lang_disorder, h_lang::lang_energy, h_lang::lang_boundary, h_lang::lang_log, h_lang::lang_update,
    h_lang::lang_mc_plain, h_lang::lang_mc_magnus,
    h_beta::beta_of_energy,
    h_conf::conf_read, h_conf::conf_write, h_conf::conf_missing, h_conf::conf_invalid, h_conf::conf_described,
    h_obs::obs_log, h_obs::obs_log_ext, h_obs::obs_log_off, h_obs::obs_spectrum,
}
