//! Environment of the code under test: randomness, symbolic inputs, obligations.
//!
//! Every function here is intercepted by the symbolic executor (by its
//! `#[no_mangle]` name).  The bodies below are the *native* versions, used when
//! a solver model is replayed against the real code: they read the model from
//! the file named by `VERIF_TAPE` and record obligations that fail.
use std::collections::HashMap;
use std::sync::Mutex;

#[derive(Default)]
struct Rt {
    loaded: bool,
    syms: HashMap<String, f64>,
    ints: HashMap<String, i64>,
    units: Vec<f64>,
    normals: Vec<f64>,
    idx: Vec<u64>,
    pu: usize,
    pn: usize,
    pi: usize,
    prng: u64,
    failed: Vec<String>,
    assumed_false: bool,
    fixed: u64,
    choices: Vec<u64>,
    pc: usize,
    globbed: Vec<String>,
}

static RT: Mutex<Option<Rt>> = Mutex::new(None);

fn with<T>(f: impl FnOnce(&mut Rt) -> T) -> T {
    let mut g = RT.lock().unwrap_or_else(|e| e.into_inner());
    let rt = g.get_or_insert_with(Rt::default);
    if !rt.loaded {
        rt.loaded = true;
        rt.prng = std::env::var("VERIF_TAPE_SEED")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(0x9E37_79B9_7F4A_7C15);
        if let Ok(p) = std::env::var("VERIF_TAPE") {
            let txt = std::fs::read_to_string(p).expect("VERIF_TAPE");
            for l in txt.lines() {
                let w: Vec<&str> = l.split_whitespace().collect();
                match w.as_slice() {
                    ["sym", n, v] => {
                        rt.syms.insert(n.to_string(), v.parse().unwrap());
                    }
                    ["int", n, v] => {
                        rt.ints.insert(n.to_string(), v.parse().unwrap());
                    }
                    ["unit", v] => rt.units.push(v.parse().unwrap()),
                    ["normal", v] => rt.normals.push(v.parse().unwrap()),
                    ["choice", v] => rt.choices.push(v.parse().unwrap()),
                    ["index", v] => rt.idx.push(v.parse().unwrap()),
                    _ => {}
                }
            }
        }
    }
    f(rt)
}

fn next_prng(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

fn prng_unit(s: &mut u64) -> f64 {
    (next_prng(s) >> 12) as f64 / (1u64 << 52) as f64
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn verif_unit() -> f64 {
    with(|r| {
        if r.fixed == 1 || r.fixed == 2 {
            return 0.3;
        }
        r.pu += 1;
        match r.units.get(r.pu - 1) {
            Some(v) => *v,
            None => {
                let v = prng_unit(&mut r.prng);
                if r.pu <= 100_000 {
                    r.units.push(v);
                }
                v
            }
        }
    })
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn verif_index(n: u64) -> u64 {
    with(|r| {
        if r.fixed == 1 {
            return 0;
        }
        r.pi += 1;
        match r.idx.get(r.pi - 1) {
            Some(v) => *v % n,
            None => {
                let v = next_prng(&mut r.prng) % n;
                if r.pi <= 100_000 {
                    r.idx.push(v);
                }
                v
            }
        }
    })
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn verif_normal() -> f64 {
    with(|r| {
        if r.fixed == 1 || r.fixed == 3 {
            return 0.25;
        }
        r.pn += 1;
        match r.normals.get(r.pn - 1) {
            Some(v) => *v,
            None => {
                let a: f64 = prng_unit(&mut r.prng);
                let b: f64 = prng_unit(&mut r.prng);
                let v = (-2.0 * (1.0 - a).ln()).sqrt() * (2.0 * std::f64::consts::PI * b).cos();
                if r.pn <= 100_000 {
                    r.normals.push(v);
                }
                v
            }
        }
    })
}

/// (the harness catches the panic when run natively)
#[no_mangle]
#[inline(never)]
pub extern "C" fn verif_expect_panic(_c: u64) {}

/// The harness has seen enough
#[no_mangle]
#[inline(never)]
pub extern "C" fn verif_finish() {
    let (f, _) = result();
    eprintln!("REPLAY-DONE failed={}", f);
    std::process::exit(if f > 0 { 1 } else { 0 });
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn verif_bits() -> u64 {
    with(|r| next_prng(&mut r.prng))
}

pub fn unit() -> f64 {
    verif_unit()
}
pub fn open_unit() -> f64 {
    let u = verif_unit();
    if u == 0.0 {
        0.5
    } else {
        u
    }
}
pub fn index(n: u64) -> u64 {
    verif_index(n)
}
pub fn normal() -> f64 {
    verif_normal()
}
pub fn bits() -> u64 {
    verif_bits()
}

fn name(p: *const u8, n: usize) -> String {
    unsafe { String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).to_string() }
}

/// Default value of a symbol the tape does not mention (any value would do).
fn dflt(k: &str) -> f64 {
    let mut s = 0xcbf2_9ce4_8422_2325u64;
    for b in k.bytes() {
        s = (s ^ b as u64).wrapping_mul(0x1_0000_01b3);
    }
    0.1 + 0.8 * prng_unit(&mut s)
}

/// An arbitrary finite real
#[no_mangle]
#[inline(never)]
pub extern "C" fn verif_sym(p: *const u8, n: usize) -> f64 {
    let k = name(p, n);
    with(|r| r.syms.get(&k).copied().unwrap_or_else(|| dflt(&k)))
}

/// An arbitrary real of lo..hi
#[no_mangle]
#[inline(never)]
pub extern "C" fn verif_sym_range(p: *const u8, n: usize, lo: f64, hi: f64) -> f64 {
    let k = name(p, n);
    with(|r| r.syms.get(&k).copied().unwrap_or_else(|| lo + (hi - lo) * dflt(&k)))
}

/// An arbitrary real of -b..b: a rounding error
#[no_mangle]
#[inline(never)]
pub extern "C" fn verif_err(p: *const u8, n: usize, b: f64) -> f64 {
    let k = name(p, n);
    with(|r| r.syms.get(&k).copied().unwrap_or(0.0)).clamp(-b, b)
}

/// An arbitrary unit vector
#[no_mangle]
#[inline(never)]
pub extern "C" fn verif_unit3(p: *const u8, n: usize, out: *mut f64) {
    let k = name(p, n);
    let mut v = [0.0; 3];
    for (i, c) in ["x", "y", "z"].iter().enumerate() {
        let kk = format!("{}{}", k, c);
        v[i] = with(|r| r.syms.get(&kk).copied().unwrap_or_else(|| dflt(&kk)));
    }
    let m = (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt();
    for i in 0..3 {
        unsafe { *out.add(i) = v[i] / m };
    }
}

/// Hint: treat the value as an unknown in later proofs (no effect natively)
#[no_mangle]
#[inline(never)]
pub extern "C" fn verif_cut(_p: *const f64) {}
/// Hint: prove that the triple is a unit vector, then treat it as an unknown one
#[no_mangle]
#[inline(never)]
pub extern "C" fn verif_cut3(_p: *const f64) -> bool {
    true
}

/// Random draws are fixed constants that are not recorded: 0 none, 1 all,
/// 2 the uniform ones, 3 the normal ones
#[no_mangle]
#[inline(never)]
pub extern "C" fn verif_fixed_draws(mode: u64) {
    with(|r| r.fixed = mode);
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn verif_file_text(p: *const u8, n: usize, out: *mut String) {
    let k = name(p, n);
    unsafe { *out = std::fs::read_to_string(k).unwrap_or_default() };
}
/// What the program has printed so far
#[no_mangle]
#[inline(never)]
pub extern "C" fn verif_printed(out: *mut String) {
    use std::io::Write;
    std::io::stdout().flush().unwrap();
    unsafe { *out = std::fs::read_to_string(printed_name()).unwrap_or_default() };
}
fn printed_name() -> String {
    format!("{}.out", std::env::var("VERIF_TAPE").unwrap())
}
/// (native) from here on, standard output is kept for `verif_printed`
pub fn keep_printed() {
    use std::os::fd::AsRawFd;
    extern "C" {
        fn dup2(a: i32, b: i32) -> i32;
    }
    let f = std::fs::File::create(printed_name()).unwrap();
    unsafe { dup2(f.as_raw_fd(), 1) };
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn verif_file_put(p: *const u8, n: usize, q: *const u8, m: usize) {
    std::fs::write(name(p, n), unsafe { std::slice::from_raw_parts(q, m) }).unwrap();
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn verif_file_exists(p: *const u8, n: usize) -> bool {
    std::path::Path::new(&name(p, n)).exists()
}
/// Number a printed field stands for
#[no_mangle]
#[inline(never)]
pub extern "C" fn verif_num(p: *const u8, n: usize) -> f64 {
    name(p, n).trim().parse().unwrap_or(f64::NAN)
}

/// An arbitrary integer of lo..=hi
#[no_mangle]
#[inline(never)]
pub extern "C" fn verif_int(p: *const u8, n: usize, lo: i64, hi: i64) -> i64 {
    let k = name(p, n);
    with(|r| (*r.ints.get(&k).unwrap_or(&lo)).clamp(lo, hi))
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn verif_assume(c: bool) {
    if !c {
        let (n, _) = result();
        with(|r| r.assumed_false = true);
        eprintln!("REPLAY-ASSUME {}", n);
        std::process::exit(if n > 0 { 1 } else { 3 });
    }
}

fn fail(l: String) {
    eprintln!("REPLAY-FAIL {}", l);
    with(|r| r.failed.push(l));
}

/// Obligation: a = b (natively: up to rounding)
#[no_mangle]
#[inline(never)]
pub extern "C" fn verif_eq(p: *const u8, n: usize, a: f64, b: f64) {
    let tol = 1e-6 * (1.0 + a.abs().max(b.abs()));
    if !((a - b).abs() <= tol) {
        fail(format!("{} left={:e} right={:e}", name(p, n), a, b));
    }
}

/// A step of the argument for the obligations stated with `verif_derived`:
/// decided by the solver, not checked natively.
#[no_mangle]
#[inline(never)]
pub extern "C" fn verif_lemma(_p: *const u8, _n: usize, _a: f64, _b: f64) {}

/// An obligation that follows from the lemmas before it; checked natively.
#[no_mangle]
#[inline(never)]
pub extern "C" fn verif_derived(p: *const u8, n: usize, a: f64, b: f64) {
    verif_eq(p, n, a, b)
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn verif_true(p: *const u8, n: usize, c: bool) {
    if !c {
        fail(name(p, n));
    }
}

/// Are the two values the same for every input?  (natively: for this one)
#[no_mangle]
#[inline(never)]
pub extern "C" fn verif_known(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-9 * (1.0 + a.abs().max(b.abs()))
}

/// Is this a native run (not a symbolic one)?
#[no_mangle]
#[inline(never)]
pub extern "C" fn verif_replaying() -> bool {
    true
}

/// Number of random draws so far: 0 uniform, 1 normal, 2 index
#[no_mangle]
#[inline(never)]
pub extern "C" fn verif_draws(kind: u64) -> u64 {
    with(|r| match kind {
        0 => r.pu,
        1 => r.pn,
        _ => r.pi,
    } as u64)
}

/// Value of a past (or, for kind 0/1, future) draw
#[no_mangle]
#[inline(never)]
pub extern "C" fn verif_draw(kind: u64, i: u64) -> f64 {
    with(|r| {
        let i = i as usize;
        match kind {
            0 => r.units.get(i).copied().unwrap_or(f64::NAN),
            1 => r.normals.get(i).copied().unwrap_or(f64::NAN),
            _ => r.idx.get(i).copied().unwrap_or(0) as f64,
        }
    })
}

/// (number of failed obligations, an assumption was false)
pub fn result() -> (usize, bool) {
    with(|r| (r.failed.len(), r.assumed_false))
}

/// Jobs handed to the (stub) thread pool and not run yet.
static mut JOBS: Vec<Option<Box<dyn FnOnce()>>> = Vec::new();

/// Schedule choice: which of `n` alternatives happens next.
#[no_mangle]
#[inline(never)]
pub extern "C" fn verif_choice(_kind: u64, n: u64) -> u64 {
    with(|r| {
        r.pc += 1;
        r.choices.get(r.pc - 1).copied().unwrap_or(0).min(n - 1)
    })
}

/// One more of the events of a kind
#[no_mangle]
#[inline(never)]
pub extern "C" fn verif_tick(kind: u64) {
    // one thread only
    unsafe { TICKS[kind as usize] += 1 }
}
/// Number of events of a kind so far
#[no_mangle]
#[inline(never)]
pub extern "C" fn verif_ticks(kind: u64) -> u64 {
    unsafe { TICKS[kind as usize] }
}
static mut TICKS: [u64; 16384] = [0; 16384];

/// Jobs run in order, each when it is handed over.
pub static mut IN_ORDER: bool = false;
/// A job handed to a thread pool: runs now, or at the next synchronisation.
#[allow(static_mut_refs)]
pub fn submit_job(job: Box<dyn FnOnce()>) {
    if unsafe { IN_ORDER } || verif_choice(0, 2) == 0 {
        job();
    } else {
        unsafe { JOBS.push(Some(job)) };
    }
}

/// Synchronisation with the thread pool: every pending job has finished.
#[allow(static_mut_refs)]
pub fn run_jobs() {
    unsafe {
        loop {
            let n = JOBS.iter().filter(|j| j.is_some()).count();
            if n == 0 {
                break;
            }
            let mut c = verif_choice(1, n as u64);
            for i in 0..JOBS.len() {
                if JOBS[i].is_some() {
                    if c == 0 {
                        let j = JOBS[i].take().unwrap();
                        j();
                        break;
                    }
                    c -= 1;
                }
            }
        }
        JOBS.clear();
    }
}

/// Files matching a glob pattern (a prefix, *, a suffix) of the working
/// directory: how many, and the name of the i-th in alphabetical order.
#[no_mangle]
#[inline(never)]
pub extern "C" fn verif_glob_count(p: *const u8, n: usize) -> usize {
    let pat = name(p, n);
    let (a, b) = pat.split_once('*').unwrap_or((&pat, ""));
    let mut v: Vec<String> = std::fs::read_dir(".")
        .unwrap()
        .map(|e| e.unwrap().file_name().to_string_lossy().to_string())
        .filter(|f| f.len() >= a.len() + b.len() && f.starts_with(a) && f.ends_with(b))
        .collect();
    v.sort();
    with(|r| r.globbed = v);
    with(|r| r.globbed.len())
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn verif_glob_name(i: usize, buf: *mut u8) -> usize {
    with(|r| {
        let s = r.globbed[i].as_bytes();
        for (k, b) in s.iter().enumerate() {
            unsafe { *buf.add(k) = *b };
        }
        s.len()
    })
}
