//! Symbolic inputs and obligations, in a convenient form.
use sc::spin::Spin;
pub fn sym(n: &str) -> f64 {
    verif_rt::verif_sym(n.as_ptr(), n.len())
}
/// an arbitrary real with lo < x < hi
pub fn range(n: &str, lo: f64, hi: f64) -> f64 {
    let x = verif_rt::verif_sym_range(n.as_ptr(), n.len(), lo, hi);
    assume(x > lo);
    assume(x < hi);
    x
}
/// an arbitrary positive real
pub fn pos(n: &str) -> f64 {
    let x = verif_rt::verif_sym_range(n.as_ptr(), n.len(), 0.0, 2.0);
    assume(x > 0.0);
    x
}
pub fn int(n: &str, lo: i64, hi: i64) -> i64 {
    verif_rt::verif_int(n.as_ptr(), n.len(), lo, hi)
}
pub fn assume(c: bool) {
    verif_rt::verif_assume(c)
}
pub fn eq(l: &str, a: f64, b: f64) {
    verif_rt::verif_eq(l.as_ptr(), l.len(), a, b)
}
/// a step of the argument for `derived`
pub fn lemma(l: &str, a: f64, b: f64) {
    verif_rt::verif_lemma(l.as_ptr(), l.len(), a, b)
}
pub fn lemma3(l: &str, a: &[f64; 3], b: &[f64; 3]) {
    lemma(l, a[0], b[0]);
    lemma(l, a[1], b[1]);
    lemma(l, a[2], b[2]);
}
/// follows from the lemmas of the harness; checked when run natively
pub fn derived(l: &str, a: f64, b: f64) {
    verif_rt::verif_derived(l.as_ptr(), l.len(), a, b)
}
pub fn derived3(l: &str, a: &[f64; 3], b: &[f64; 3]) {
    derived(l, a[0], b[0]);
    derived(l, a[1], b[1]);
    derived(l, a[2], b[2]);
}
/// a native run: only there the code below a `lemma` needs to run
pub fn native() -> bool {
    verif_rt::verif_replaying()
}
pub fn ensure(l: &str, c: bool) {
    verif_rt::verif_true(l.as_ptr(), l.len(), c)
}
pub fn eq3(l: &str, a: &[f64; 3], b: &[f64; 3]) {
    eq(l, a[0], b[0]);
    eq(l, a[1], b[1]);
    eq(l, a[2], b[2]);
}
pub fn unit3(n: &str) -> [f64; 3] {
    let mut o = [0.0; 3];
    verif_rt::verif_unit3(n.as_ptr(), n.len(), o.as_mut_ptr());
    o
}
pub fn sym3(n: &str) -> [f64; 3] {
    [sym(&name(n, 0)), sym(&name(n, 1)), sym(&name(n, 2))]
}
pub fn spin(n: &str) -> Spin {
    let mut s = Spin::new();
    s.dir = unit3(n);
    s
}
/// n followed by a digit or two
pub fn name(n: &str, i: usize) -> String {
    let mut s = String::new();
    s.push_str(n);
    if i >= 10 {
        s.push((b'0' + (i / 10) as u8) as char);
    }
    s.push((b'0' + (i % 10) as u8) as char);
    s
}
pub fn cut(x: &f64) {
    verif_rt::verif_cut(x)
}
pub fn cut3(x: &[f64; 3]) -> bool {
    verif_rt::verif_cut3(x.as_ptr())
}
/// treat these three values as unknowns from here on
pub fn opaque(x: &[f64; 3]) {
    cut(&x[0]);
    cut(&x[1]);
    cut(&x[2]);
}
/// 0 all draws are free, 1 all are fixed, 2 the uniform ones are fixed, 3 the normal ones are
pub fn fixed_draws(mode: u64) {
    verif_rt::verif_fixed_draws(mode)
}
/// the two values are the same, for every input
pub fn known(a: f64, b: f64) -> bool {
    verif_rt::verif_known(a, b)
}
pub fn file_text(p: &str) -> String {
    let mut s = String::new();
    verif_rt::verif_file_text(p.as_ptr(), p.len(), &mut s);
    s
}
pub fn file_put(p: &str, t: &str) {
    verif_rt::verif_file_put(p.as_ptr(), p.len(), t.as_ptr(), t.len())
}
pub fn file_exists(p: &str) -> bool {
    verif_rt::verif_file_exists(p.as_ptr(), p.len())
}
pub fn num(s: &str) -> f64 {
    verif_rt::verif_num(s.as_ptr(), s.len())
}
pub fn ndraws(kind: u64) -> usize {
    verif_rt::verif_draws(kind) as usize
}
/// value of the i-th draw (0 uniform, 1 normal, 2 index)
pub fn draw(kind: u64, i: usize) -> f64 {
    verif_rt::verif_draw(kind, i as u64)
}

/// the program ends with an error there, and file p is left alone; nothing may
/// follow in the harness
pub fn panics(l: &str, p: &str, f: impl FnOnce()) {
    if native() {
        let before = std::fs::read(p).ok();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        ensure(l, r.is_err());
        ensure("a file was changed on the way to the error", std::fs::read(p).ok() == before);
    } else {
        verif_rt::verif_expect_panic(1);
        f();
    }
}
