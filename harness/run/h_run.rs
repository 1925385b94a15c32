//! Whole runs of the command-line program.
use super::*;
use super::h_cli as cli;
use crate::env::*;
use crate::mock::{self, label, seen, world, Ev, Look};

macro_rules! harnesses {
    ($($f:ident),* $(,)?) => {
        /// the harnesses, by name
        pub fn run(name: &str) -> bool {
            match name {
                $(stringify!($f) => $f(),)*
                _ => return false,
            }
            true
        }
        pub mod entry {
            $(#[no_mangle] #[inline(never)] pub extern "C" fn $f() { super::$f() })*
        }
    };
}
harnesses! {
    sim_runs, response_runs, tau_runs, mc_runs, profile_runs, dyn_profile_runs, dyn_hist_runs, trajectory_runs,
    hist_runs, hist_magnus_runs, averages, two_points,
    fit_runs, adiabatic_runs, prints, printed, defaults, cli_options, cli_refused
}

/// the command line given
pub fn words() -> Vec<String> {
    world().args.clone()
}
/// an option
fn with(a: &mut Vec<String>, option: &str) {
    a.push(String::from(option));
}
fn number(a: &mut Vec<String>, option: &str, x: f64) {
    a.push(format!("{}={}", option, x));
}
fn count(a: &mut Vec<String>, option: &str, n: usize) {
    a.push(String::from(option));
    a.push(n.to_string());
}

const EQUILIBRATION: u64 = 20_000_000;

/// a small system which logs; logs of two earlier runs are there
pub fn conf() -> Config {
    let mut c = Config::default();
    c.hsize = 4;
    c.ssize = 4;
    c.file = String::from("run");
    c.log = true;
    c.drive = DriveType::none;
    c.threads = 2;
    c.offset = 2;
    c.beta = 0.75;
    // what no other mode should look at
    c.mc_points = 7;
    c.e = 0.625;
    c.ednsty = sym("e0");
    c
}
fn old_log(k: usize) -> String {
    format!("0 {} {}\n", k, 7)
}
/// the program, from beginning to end
fn run_main(c: &Config, a: Vec<String>) {
    for k in 0..c.offset as usize {
        file_put(&format!("run{}.dat", k), &old_log(k));
    }
    world().config = Some(c.clone());
    world().args = a;
    main();
    mock::thread::exit();
    for k in 0..c.offset as usize {
        ensure("the logs of earlier runs are left alone", file_text(&format!("run{}.dat", k)) == old_log(k));
    }
}
/// the lines of a file, as numbers
pub fn table(f: &str) -> Vec<Vec<f64>> {
    let t = file_text(f);
    let mut v = Vec::new();
    for l in t.lines() {
        v.push(l.split(' ').filter(|w| !w.is_empty()).map(num).collect());
    }
    v
}
fn same_row(l: &str, got: &[f64], want: &[f64]) {
    ensure("columns of a record", got.len() == want.len());
    if got.len() == want.len() {
        for i in 0..want.len() {
            eq(l, got[i], want[i]);
        }
    }
}
/// a row for each item, in any order; the first column says which
fn same_rows(l: &str, mut got: Vec<Vec<f64>>, mut want: Vec<Vec<f64>>) {
    for t in [&mut got, &mut want] {
        t.sort_by(|a, b| a[0].partial_cmp(&b[0]).unwrap());
    }
    same_table(l, &got, &want);
}
fn same_table(l: &str, got: &[Vec<f64>], want: &[Vec<f64>]) {
    ensure("number of records", got.len() == want.len());
    if got.len() == want.len() {
        for i in 0..want.len() {
            same_row(l, &got[i], &want[i]);
        }
    }
}
/// the configuration file says: as used, and the next run gets numbers of its own
fn config_goes_on(before: &Config, runs: usize) {
    let mut want = world().made[0].conf.clone();
    want.offset = before.offset + runs as u32;
    ensure("the configuration on disk goes on from here", file_text("config.toml") == mock::toml::text(&want));
}
/// chain i was made with this configuration
fn made_with(i: usize, want: &Config) {
    let c = &world().made[i].conf;
    eq("at the temperature asked for", c.beta, want.beta);
    let mut w = want.clone();
    w.beta = c.beta;
    w.log = c.log;
    w.file = c.file.clone();
    ensure("with the parameters configured", mock::toml::text(c) == mock::toml::text(&w));
}
fn equilibrated(i: usize) -> bool {
    mock::ticks(i, mock::PLAIN) == EQUILIBRATION && mock::all_ticks(i) == EQUILIBRATION
}
/// temperature: from the command line, or from the energy density
fn temperature(c: &mut Config, a: &mut Vec<String>) {
    if int("beta", 0, 1) == 1 {
        c.beta = sym("b");
        number(a, "--beta", c.beta);
    } else {
        c.beta = mock::solved(c.ednsty);
    }
}

/// 0 simulation, 1 with snapshots, 2 Langevin
pub fn sim_runs() {
    let mode = int("mode", 0, 2);
    let runs = int("runs", 1, 3) as usize;
    let steps = int("steps", 1, 12) as usize;
    let period = int("period", 1, 4) as usize;
    let strob = int("strob", 0, 1) == 1;
    // a step which is a power of two: the clock meets the final time exactly
    let exact = int("exact", 0, 1) == 1;
    let mut c = conf();
    c.ssize = 2;
    c.runs = runs as i32;
    c.dt = if exact { 0.03125 } else { 0.03 };
    let mut tau = c.dt * period as f64;
    if exact {
        c.t = c.dt * steps as f64;
    } else {
        tau = tau * (1.0 + mock::err("etau", 1e-9));
        c.t = c.dt * (steps as f64 - 0.5);
        world().noise = 1e-9;
    }
    c.strob = strob;
    let mut a = vec![String::from("sc")];
    number(&mut a, "--tau", tau);
    if mode == 1 {
        with(&mut a, "--ext");
    }
    let gamma = if int("gamma", 0, 1) == 1 { sym("g") } else { 1.0 };
    if mode == 2 {
        if int("gamma", 0, 1) == 1 {
            number(&mut a, "--langevin", gamma);
        } else {
            with(&mut a, "-l");
        }
    }
    let before = c.clone();
    temperature(&mut c, &mut a);
    if mode == 1 && int("beta", 0, 1) == 0 {
        c.beta = before.beta;
    }
    c.tau = tau;
    if mode == 2 {
        c.hsize = c.ssize;
    }
    run_main(&before, a);
    let w = world();
    ensure("one chain per run", w.made.len() == runs);
    for i in 0..w.made.len() {
        let m = &w.made[i];
        ensure("numbered on from the offset", m.num == 2 + i);
        ensure("of the kind asked for", m.langevin == (mode == 2));
        if mode == 2 {
            eq("with the damping asked for", m.gamma, gamma);
        }
        made_with(i, &c);
        ensure("logging", m.langevin || m.conf.log && m.conf.file == "run");
        ensure("equilibrated by 20 million Metropolis updates", equilibrated(i));
        let mut n = 0;
        let mut want_log = true;
        let mut first = true;
        for e in w.events.iter() {
            if e.chain != i {
                continue;
            }
            ensure("equilibration comes before the dynamics", e.ticks == EQUILIBRATION);
            match e.ev {
                Ev::Update => {
                    ensure("no record is missing", !want_log);
                    n += 1;
                    want_log = !strob || n % period == 0;
                }
                Ev::Log | Ev::LogExt => {
                    ensure("no record too many", want_log);
                    ensure("records of the right kind", (e.ev == Ev::LogExt) == (mode == 1 && !first));
                    want_log = false;
                    first = false;
                }
                _ => ensure("ordinary steps only", false),
            }
        }
        ensure("no record is missing at the end", !want_log);
        ensure("the run covers the time asked for and no more", n == steps);
    }
    config_goes_on(&before, runs);
}

/// ordinary steps up to time 0, steps without static fields from then on
pub fn response_runs() {
    let runs = int("runs", 1, 3) as usize;
    let steps = int("steps", 1, 12) as usize;
    let period = int("period", 1, 4) as usize;
    let strob = int("strob", 0, 1) == 1;
    // a step which is a power of two: the clock meets time zero exactly
    let exact = int("exact", 0, 1) == 1;
    let mut c = conf();
    c.runs = runs as i32;
    c.dt = if exact { 0.03125 } else { 0.03 };
    c.tau = c.dt * period as f64;
    c.t = c.dt * steps as f64;
    if !exact {
        c.tau = c.tau * (1.0 + mock::err("etau", 1e-9));
        world().noise = 1e-9;
    }
    c.strob = strob;
    let mut a = vec![String::from("sc")];
    with(&mut a, "--response");
    let before = c.clone();
    temperature(&mut c, &mut a);
    run_main(&before, a);
    let w = world();
    ensure("one chain per run", w.made.len() == runs);
    for i in 0..w.made.len() {
        let m = &w.made[i];
        ensure("numbered on from the offset", m.num == 2 + i && !m.langevin);
        made_with(i, &c);
        ensure("logging", m.conf.log && m.conf.file == "run");
        ensure("equilibrated by 20 million Metropolis updates", equilibrated(i));
        let (mut n, mut driven) = (0, 0);
        let mut want_log = true;
        for e in w.events.iter() {
            if e.chain != i {
                continue;
            }
            ensure("equilibration comes before the dynamics", e.ticks == EQUILIBRATION);
            match e.ev {
                Ev::Update | Ev::UpdateNoField => {
                    ensure("no record is missing", !want_log);
                    if n == 0 {
                        ensure("it starts at minus the final time", (e.t + c.t - c.dt).abs() < 1e-6);
                    }
                    n += 1;
                    if e.ev == Ev::Update {
                        driven += 1;
                        ensure("the static fields are never switched on again", driven == n);
                    }
                    let p = if n > steps { n - steps } else { steps - n };
                    want_log = !strob || p % period == 0;
                }
                _ => {
                    ensure("no record too many", want_log);
                    ensure("records of the right kind", e.ev == Ev::Log);
                    want_log = false;
                }
            }
        }
        ensure("no record is missing at the end", !want_log);
        ensure("static fields for all negative times only", driven == steps || !exact && driven == steps + 1);
        ensure("the run covers the time asked for and no more", n == 2 * steps || !exact && n == 2 * steps + 1);
    }
    config_goes_on(&before, runs);
}

fn share(a: [f64; 3], n: i32) -> [f64; 3] {
    [a[0] / n as f64, a[1] / n as f64, a[2] / n as f64]
}

/// single shots at several periods
pub fn tau_runs() {
    let runs = int("runs", 1, 3) as usize;
    let steps = int("steps", 1, 3) as u32;
    let all = [0.5, 12.5, 9.75];
    let mut c = conf();
    c.ssize = 3;
    let f = format!("evt{}.dat", steps);
    file_put(&f, "1 2 3\n");
    let mut a = vec![String::from("sc")];
    let taus: Vec<String> = all[..runs].iter().map(|x| x.to_string()).collect();
    with(&mut a, "-n");
    a.push(taus.join(","));
    count(&mut a, "--steps", steps as usize);
    run_main(&c, a);
    let w = world();
    ensure("one chain per period", w.made.len() == runs);
    let mut want = Vec::new();
    for i in 0..w.made.len() {
        let m = &w.made[i];
        ensure("numbered on from the offset", m.num == 2 + i && !m.langevin);
        ensure("equilibrated by 20 million Metropolis updates", equilibrated(i));
        made_with(i, &c);
        let l = w.looks.iter().rfind(|l| l.chain == i).unwrap();
        let end = steps as f64 * all[i];
        let dt = if all[i] < 10.0 { all[i] / 100.0 } else { 0.1 };
        ensure("it ends after the number of periods asked for", l.t > end - 1e-6 && l.t < end + dt + 1e-6);
        let n = (end / dt + 0.5) as usize;
        ensure("in steps of the size laid down", l.steps == n || l.steps == n + 1);
        for e in w.events.iter() {
            if e.chain == i {
                ensure("equilibration comes before the dynamics", e.ticks == EQUILIBRATION);
                ensure("ordinary steps only", e.ev == Ev::Update || e.ev == Ev::Log);
            }
        }
        let r = seen(l);
        let m = share(r.m(), c.ssize);
        want.push(vec![all[i], l.t, r.total_energy2(), r.system_energy(), m[0], m[1], m[2]]);
    }
    let mut got = table(&f);
    ensure("earlier records are kept", got.len() > 0);
    if got.len() > 0 {
        same_row("earlier records are kept", &got.remove(0), &[1.0, 2.0, 3.0]);
    }
    same_rows("final state", got, want);
}

/// what a Monte-Carlo sample says
fn observables(l: &Look, c: &Config) -> Vec<f64> {
    let r = seen(l);
    let m = share(r.m(), c.ssize);
    let a = r.spins[c.ssize as usize / 4].dir;
    let b = r.spins[3 * c.ssize as usize / 4].dir;
    vec![
        r.total_energy2(), r.mc_system_energy(), m[0], m[1], m[2], a[0], a[1], a[2], b[0], b[1], b[2],
    ]
}
/// the looks taken as samples, a given number of updates apart
fn samples(kind: u64, apart: u64, start: u64) -> Vec<Look> {
    let mut v: Vec<Look> = Vec::new();
    for l in world().looks.iter() {
        if l.ticks[kind as usize] == start {
            continue;
        }
        let mut k = 0;
        let mut all = 0;
        for o in v.iter() {
            if o.chain == l.chain {
                k += 1;
            }
        }
        for i in 0..5 {
            all += l.ticks[i];
        }
        ensure("updates between samples", all == l.ticks[kind as usize] && all == start + (k + 1) * apart);
        v.push(*l);
    }
    v
}

/// 0 plain, 1 second-order Magnus
pub fn mc_runs() {
    let mode = int("mode", 0, 1);
    let points = int("points", 1, 6) as usize;
    let mut c = conf();
    c.threads = int("threads", 1, 4) as usize;
    c.mc_points = points;
    c.hsize = int("n", 4, 6) as i32;
    c.ssize = int("k", 2, 5) as i32;
    c.hfield = vec![0.5, 0.25, 0.0];
    let mut a = vec![String::from("sc")];
    if mode == 0 {
        with(&mut a, "-m");
    } else {
        with(&mut a, "--monte-carlo-magnus");
    }
    let before = c.clone();
    temperature(&mut c, &mut a);
    file_put("mc_live.dat", "1 2 3\n");
    run_main(&before, a);
    let w = world();
    let ss = samples(if mode == 0 { mock::PLAIN } else { mock::FULL }, 1_000_000, 0);
    ensure("as many samples as asked for", ss.len() == points);
    ensure("samples are shared among the threads", w.made.len() <= c.threads);
    for i in 0..w.made.len() {
        made_with(i, &c);
    }
    let mut want = vec![vec![1.0, 2.0, 3.0]];
    for l in ss.iter() {
        want.push(observables(l, &c));
    }
    same_table("sample", &table("mc_live.dat"), &want);
}

/// energy of a site (half of its two bonds) and its spin
fn site(l: &Look, i: usize) -> [f64; 4] {
    let r = seen(l);
    let n = r.spins.len();
    let (p, q) = ((i + n - 1) % n, (i + 1) % n);
    let s = r.spins[i].dir;
    let mut e = 0.0;
    for k in 0..3 {
        e -= 0.5 * s[k] * (r.spins[p].dir[k] * r.j_couple[p][k] + r.spins[q].dir[k] * r.j_couple[i][k]);
    }
    [e, s[0], s[1], s[2]]
}
fn profile(ss: &[Look], n: usize) -> Vec<Vec<f64>> {
    let mut t = Vec::new();
    for i in 0..n {
        let mut row = vec![i as f64, 0.0, 0.0, 0.0, 0.0];
        for l in ss {
            let x = site(l, i);
            for k in 0..4 {
                row[k + 1] += x[k] / ss.len() as f64;
            }
        }
        t.push(row);
    }
    t
}

pub fn profile_runs() {
    let points = int("points", 1, 4) as usize;
    let mut c = conf();
    c.threads = int("threads", 1, 3) as usize;
    c.mc_points = points;
    c.hsize = int("n", 2, 6) as i32;
    c.ssize = 2;
    let mut a = vec![String::from("sc")];
    with(&mut a, "-p");
    let before = c.clone();
    temperature(&mut c, &mut a);
    run_main(&before, a);
    let w = world();
    let ss = samples(mock::PLAIN, 1_000_000, 0);
    ensure("as many samples as asked for", ss.len() == points);
    for i in 0..w.made.len() {
        made_with(i, &c);
    }
    same_table("mean at a site", &table("mc_profile.dat"), &profile(&ss, c.hsize as usize));
}

pub fn dyn_profile_runs() {
    let runs = int("runs", 1, 3) as usize;
    let n = int("n", 2, 6) as usize;
    let fine = int("fine", 1, 2) as usize;
    let mut c = conf();
    c.runs = runs as i32;
    c.hsize = n as i32;
    c.ssize = 2;
    c.tau = 0.0206;
    c.dt = 500.0 * c.tau / fine as f64;
    world().noise = 1e-9;
    let mut a = vec![String::from("sc")];
    with(&mut a, "-P");
    let before = c.clone();
    temperature(&mut c, &mut a);
    c.t = 4000.0 * c.tau;
    run_main(&before, a);
    let w = world();
    ensure("one chain per run", w.made.len() == runs);
    for i in 0..w.made.len() {
        ensure("numbered on from the offset", w.made[i].num == 2 + i && !w.made[i].langevin);
        ensure("equilibrated by 20 million Metropolis updates", equilibrated(i));
        made_with(i, &c);
        for e in w.events.iter() {
            if e.chain == i {
                ensure("ordinary steps only", e.ev == Ev::Update && e.ticks == EQUILIBRATION);
            }
        }
    }
    for k in 1..9 {
        let mut ss = Vec::new();
        for l in w.looks.iter() {
            if l.steps == k * fine {
                ss.push(*l);
            }
        }
        ensure("a snapshot of every run", ss.len() == runs);
        let f = format!("dyn_profile-{}-tau.dat", 500 * k);
        same_table("mean at a site", &table(&f), &profile(&ss, n));
    }
    config_goes_on(&before, runs);
}

/// the state at the end of many runs
pub fn dyn_hist_runs() {
    let points = int("points", 1, 4) as usize;
    let steps = int("steps", 1, 8) as usize;
    let mut c = conf();
    c.threads = int("threads", 1, 3) as usize;
    c.ssize = 2;
    c.dt = 0.1;
    c.t = [0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.8][steps - 1];
    let mut a = vec![String::from("sc")];
    count(&mut a, "-d", points);
    let before = c.clone();
    temperature(&mut c, &mut a);
    run_main(&before, a);
    let w = world();
    ensure("one chain per sample", w.made.len() == points);
    let mut want = Vec::new();
    for i in 0..w.made.len() {
        made_with(i, &c);
        ensure("a chain of the right kind", !w.made[i].langevin);
        let mut last = None;
        for e in w.events.iter() {
            ensure("ordinary steps only", e.ev == Ev::Update);
        }
        for l in w.looks.iter() {
            if l.chain == i {
                last = Some(*l);
            }
        }
        let l = last.unwrap();
        ensure("sampled at the final time", l.steps == steps);
        let r = seen(&l);
        let m = share(r.m(), c.ssize);
        want.push(vec![i as f64, m[0], m[1], m[2], r.system_energy()]);
    }
    says("the final time printed is the one driven for", " i.e. t=", steps as f64 * 0.1);
    same_rows("final state", table(&format!("dyn-hist-t-{}.dat", c.t)), want);
}

/// one trajectory, sampled every period once 30 have gone by
pub fn trajectory_runs() {
    let points = int("points", 1, 4) as usize;
    let period = int("period", 1, 4) as usize;
    let mut c = conf();
    c.ssize = 2;
    c.dt = 0.03;
    c.tau = c.dt * period as f64 * (1.0 + mock::err("etau", 1e-9));
    world().noise = 1e-9;
    let mut a = vec![String::from("sc")];
    count(&mut a, "-s", points);
    let before = c.clone();
    temperature(&mut c, &mut a);
    run_main(&before, a);
    let w = world();
    ensure("one chain", w.made.len() == 1 && !w.made[0].langevin);
    made_with(0, &c);
    for e in w.events.iter() {
        ensure("ordinary steps only", e.ev == Ev::Update);
    }
    let mut want = Vec::new();
    for k in 0..points {
        for l in w.looks.iter() {
            if l.steps == (31 + k) * period {
                let r = seen(l);
                let m = share(r.m(), c.ssize);
                want.push(vec![l.t, m[0], m[1], m[2], r.system_energy()]);
            }
        }
    }
    ensure("a sample of every period", want.len() == points);
    same_table("sample", &table(&format!("hist-st-t-{}.dat", c.t)), &want);
}

fn hist_row(i: usize, l: &Look, c: &Config) -> Vec<f64> {
    let o = observables(l, c);
    let e = seen(l).system_energy();
    vec![i as f64, o[2], o[3], o[4], e, o[5], o[6], o[7], o[8], o[9], o[10]]
}

pub fn hist_magnus_runs() {
    let points = int("points", 1, 4) as usize;
    let mut c = conf();
    c.hsize = int("n", 4, 6) as i32;
    c.ssize = int("k", 2, 5) as i32;
    let mut a = vec![String::from("sc")];
    count(&mut a, "--magnus-hist", points);
    let before = c.clone();
    temperature(&mut c, &mut a);
    run_main(&before, a);
    let w = world();
    ensure("one chain", w.made.len() == 1 && !w.made[0].langevin);
    made_with(0, &c);
    let ss = samples(mock::MAGNUS, 10_000, 0);
    let mut want = Vec::new();
    for (i, l) in ss.iter().enumerate() {
        want.push(hist_row(i, l, &c));
    }
    ensure("as many samples as asked for", ss.len() == points);
    same_table("sample", &table("hist_mc_magnus.dat"), &want);
}

/// spins of `hist_runs`: arbitrary ones as Monte-Carlo samples; then candidates
/// for the initial state, of which the last is as it should be
fn candidate(l: &Look, i: usize) -> [f64; 3] {
    let points = int("points", 1, 4) as u64;
    let bad = int("bad", 0, 5);
    if l.steps > 0 || l.ticks[0] <= 10_000 * points {
        return mock::spin_of(l.chain, l.version, i);
    }
    let s = if i % 2 == 0 { 1.0 } else { -1.0 };
    if l.ticks[0] == 10_000 * (points + 1) {
        let d = range("d", 0.0035, 0.5);
        match bad {
            1 => return [s * (1.0 - d), 0.0, 0.0],
            2 => return [s + d, 0.0, 0.0],
            3 => return [s, d, 0.0],
            4 => return [s, 0.0, -d],
            5 => return [s + range("g", -0.0025, 0.0025), range("h", -0.0025, 0.0025), 0.0],
            _ => {}
        }
    }
    [s, 0.0, 0.0]
}

pub fn hist_runs() {
    let points = int("points", 1, 4) as usize;
    let bad = int("bad", 0, 5);
    let mut c = conf();
    c.ednsty = 1.0;
    c.jvar = 0.0;
    c.ssize = int("k", 2, 4) as i32;
    let mut a = vec![String::from("sc")];
    count(&mut a, "--histogram", points);
    let before = c.clone();
    temperature(&mut c, &mut a);
    world().preset = Some(candidate);
    run_main(&before, a);
    let w = world();
    ensure("one chain", w.made.len() == 1 && !w.made[0].langevin);
    made_with(0, &c);
    let (mut mc, mut dy) = (Vec::new(), Vec::new());
    let mut start = 0;
    for l in w.looks.iter() {
        if l.steps > 0 {
            start = l.ticks[0];
            if l.steps == (dy.len() + 1) * 10_000 {
                dy.push(hist_row(dy.len(), l, &c));
            }
        } else if l.ticks[0] > 0 && l.ticks[0] <= 10_000 * points as u64 {
            ensure("updates between samples", l.ticks[0] == 10_000 * (mc.len() as u64 + 1));
            mc.push(hist_row(mc.len(), l, &c));
        }
    }
    let tries = if bad == 0 || bad == 5 { 1 } else { 2 };
    ensure("the dynamics starts from the first state with the energy and magnetisation wanted",
        start == 10_000 * (points as u64 + tries));
    ensure("as many samples as asked for", mc.len() == points && dy.len() == points);
    for l in w.looks.iter() {
        if l.steps == 0 && l.ticks[0] == start {
            let r = seen(l);
            let m = share(r.m_tot(), c.hsize);
            let what = "what is printed about the initial state is so";
            said_last(what, "Initial e:", r.total_energy2());
            said_last(what, "Initial M_x:", m[0]);
            said_last(what, "Initial M_y:", m[1]);
            said_last(what, "Initial M_z:", m[2]);
        }
    }
    same_table("Monte-Carlo sample", &table("hist_mc.dat"), &mc);
    same_table("sample in time", &table("hist_dyn.dat"), &dy);
}

/// logs of earlier runs: as many as `files`, with `rows` records (the last file has one less), `start` of them
/// before time 0
fn logs(header: bool, start: usize) -> Vec<Vec<Vec<f64>>> {
    let files = int("files", 1, 3) as usize;
    let rows = int("rows", 1, 4) as usize;
    let mut all = Vec::new();
    for f in 0..files {
        let mut t = String::new();
        let mut d = Vec::new();
        if header {
            t.push_str("#t E_total E_sub M_x M_y M_z\n");
        }
        let n = if f > 0 && f == files - 1 { rows - 1 } else { rows };
        for r in 0..n {
            let mut row = vec![0.25 * (r as f64 - start as f64)];
            for k in 0..3 {
                row.push(sym(&label("x", &[f, r, k])));
            }
            t.push_str(&format!("{} {} {} {}\n", row[0], row[1], row[2], row[3]));
            d.push(row);
        }
        file_put(&format!("run{}.dat", f), &t);
        all.push(d);
    }
    file_put("other.dat", "1 2 3 4\n");
    all
}
fn texts() -> Vec<String> {
    let mut v = vec![file_text("other.dat")];
    for f in 0..int("files", 1, 3) {
        v.push(file_text(&format!("run{}.dat", f)));
    }
    v
}
fn mean(all: &[Vec<Vec<f64>>]) -> Vec<Vec<f64>> {
    let mut t: Vec<Vec<f64>> = Vec::new();
    for r in 0..all[0].len() {
        let mut row = vec![0.0; all[0][0].len()];
        let mut n = 0.0;
        for f in all {
            if r < f.len() {
                n += 1.0;
                for k in 0..row.len() {
                    row[k] += f[r][k];
                }
            }
        }
        for k in 0..row.len() {
            row[k] /= n;
        }
        t.push(row);
    }
    t
}

pub fn averages() {
    let all = logs(int("header", 0, 1) == 1, 0);
    let mut c = conf();
    c.offset = 0;
    let mut a = vec![String::from("sc")];
    with(&mut a, "-a");
    let before = texts();
    run_main(&c, a);
    ensure("the logs stay as they are", texts() == before);
    same_table("mean of the runs", &table("avg.dat"), &mean(&all));
    ensure("nothing is simulated", world().made.len() == 0);
}

pub fn two_points() {
    let start = int("start", 0, 1) as usize;
    let mut all = logs(int("header", 0, 1) == 1, start);
    let mut c = conf();
    c.offset = 0;
    let mut a = vec![String::from("sc")];
    with(&mut a, "--two-point");
    let before = texts();
    run_main(&c, a);
    ensure("the logs stay as they are", texts() == before);
    for f in all.iter_mut() {
        if f.len() <= start {
            continue;
        }
        let zero = f[start].clone();
        for r in f.iter_mut() {
            for k in 1..r.len() {
                r[k] *= zero[k];
            }
        }
    }
    same_table("mean of the products", &table("two-point.dat"), &mean(&all));
    ensure("nothing is simulated", world().made.len() == 0);
}

/// an ensemble: two states in turn, which depend on the temperature
fn ensemble(l: &Look, i: usize) -> [f64; 3] {
    let d = if l.version % 2 == 0 { 0.01 } else { -0.01 };
    [-0.1 * l.beta - 0.05 - d, 0.1 + d, 0.3 + 0.01 * i as f64 + d]
}
/// mean over the ensemble of the chain a configuration describes
fn ensemble_mean(c: &Config, beta: f64, f: &dyn Fn(&::sc::spinchain::SpinChain) -> [f64; 4]) -> [f64; 4] {
    let mut m = [0.0; 4];
    for v in 0..2 {
        let l = Look { chain: 0, version: v, steps: 0, ticks: [0; 5], t: 0.0, tau: c.tau, beta };
        let x = f(&mock::chain_at(c, &l));
        for k in 0..4 {
            m[k] += 0.5 * x[k];
        }
    }
    m
}

/// Monte-Carlo ensembles with a given energy: 0 -f, 1 -F, 2 -E, 3 -r, 4 -D, 5 -H
pub fn fit_runs() {
    let mode = int("mode", 0, 5);
    let w = int("window", 0, 3) as usize;
    let n = int("n", 2, 4) as i32;
    let mut c = conf();
    c.hsize = if mode == 0 || mode == 4 { 4 } else { n };
    c.ssize = n;
    c.jvar = 0.0;
    c.tau = 2.5;
    c.lambda = 0.5;
    c.hfield = vec![0.0, 0.25, 0.0];
    world().preset = Some(ensemble);
    world().keep_looks = false;
    // the ensemble and the energy
    let mut e = c.clone();
    let om = 2.0 * PI / c.tau;
    if mode == 0 || mode == 1 || mode == 4 {
        e.hs = vec![1.0, 0.0, 0.0];
        e.hfield = vec![0.0, 0.0, -om];
    }
    if mode == 0 {
        e.hsize = n;
    }
    if mode == 5 {
        e.hfield = vec![0.0, 0.0, -c.tau / (4.0 * PI)];
    }
    let k = e.ssize as f64;
    let energy = |r: &::sc::spinchain::SpinChain| -> [f64; 4] {
        let x = match mode {
            0 => r.mc_system_energy() + om * r.m()[2] / k,
            2 => r.mc_system_energy_maglab(),
            3 => r.mc_system_energy_rot(),
            _ => r.mc_total_energy(),
        };
        [x, 0.0, 0.0, 0.0]
    };
    let seen = |r: &::sc::spinchain::SpinChain| -> [f64; 4] {
        let m = r.m();
        let x = match mode {
            0 => om * m[2],
            2 | 3 => m[0],
            _ => 0.0,
        };
        [r.mc_system_energy() + x / k, m[0] / k, m[1] / k, m[2] / k]
    };
    let b = [0.07, 1.31, 2.505, 4.93][w];
    let of = |beta: f64| ensemble_mean(&e, beta, &energy)[0];
    let lo = of(b + 0.0008);
    let hi = of(b - 0.0008);
    ensure("the ensembles of the harness cool down", lo < hi);
    let target = range("target", lo, hi);
    let mut a = vec![String::from("sc")];
    match mode {
        0 => number(&mut a, "-f", target),
        1 => number(&mut a, "-F", target),
        2 => number(&mut a, "-E", target),
        3 => number(&mut a, "-r", target),
        4 => number(&mut a, "-D", c.tau),
        _ => number(&mut a, "-H", target),
    }
    if mode == 4 {
        c.ednsty = target;
    }
    let f = match mode {
        2 => "betat-maglab.dat",
        3 => "betat-rot.dat",
        4 => "beta.dat",
        _ => "betat.dat",
    };
    file_put(f, "1 2 3\n");
    run_main(&c, a);
    let t = table(f);
    ensure("one record is added", t.len() == 2 && t[0].len() == 3);
    if t.len() != 2 {
        return;
    }
    let kind = match mode {
        2 => mock::MAGLAB,
        3 => mock::ROT,
        _ => mock::PLAIN,
    };
    for i in 0..world().made.len() {
        ensure("sampled from the right ensemble", mock::ticks(i, kind) > 0 && mock::all_ticks(i) == mock::ticks(i, kind));
        let m = &world().made[i].conf;
        ensure("the fields of the ensemble", m.hs == e.hs && m.hfield == e.hfield && m.hsize == e.hsize);
        ensure("a chain driven as far as it should be", m.ssize == e.ssize);
    }
    let r = &t[1];
    if mode == 4 {
        ensure("columns of a record", r.len() == 3);
        says("the temperature printed is the one found", "Optimal beta:", r[2]);
    } else {
        ensure("columns of a record", r.len() == 7);
        eq("energy asked for", r[1], target);
    }
    if r.len() < 3 {
        return;
    }
    eq("period", r[0], c.tau);
    let beta = if mode == 5 { c.beta } else { r[2] };
    if mode == 5 {
        eq("temperature configured", r[2], c.beta);
    } else {
        ensure("no colder than it should be", of(beta + 0.001) <= target);
        ensure("no hotter than it should be", target <= of(beta - 0.001));
    }
    if r.len() == 7 {
        let x = ensemble_mean(&e, beta, &seen);
        for k in 0..4 {
            eq("averages in the ensemble", r[3 + k], x[k]);
        }
    }
}

static mut SHIFT: f64 = 0.0;
/// the state along a trajectory
fn moving(l: &Look, i: usize) -> [f64; 3] {
    if l.steps == 0 {
        return ensemble(l, i);
    }
    [-0.2 - 0.0001 * (l.steps % 10) as f64 + unsafe { SHIFT }, 0.0, 0.3]
}
/// energy of a trajectory, then the ensemble which has it
pub fn adiabatic_runs() {
    let runs = int("runs", 1, 2) as usize;
    let mut c = conf();
    c.runs = runs as i32;
    c.hsize = 2;
    c.ssize = 2;
    c.jvar = 0.0;
    c.lambda = 0.5;
    c.tau = 99.0;
    c.dt = 2.5;
    c.hs = vec![1.0, 0.0, 0.0];
    unsafe { SHIFT = range("shift", -0.00002, 0.00002) };
    world().preset = Some(moving);
    world().keep_after = 101;
    let mut a = vec![String::from("sc")];
    number(&mut a, "-A", 2.5);
    file_put("beta.dat", "1 2 3\n");
    run_main(&c, a);
    let (mut e, mut n) = (0.0, 0.0);
    let mut of: Vec<Option<f64>> = vec![None; 10];
    for l in world().looks.iter() {
        let k = l.steps % 10;
        if of[k].is_none() {
            of[k] = Some(seen(l).system_energy());
        }
        e += of[k].unwrap();
        n += 1.0;
    }
    let t = table("beta.dat");
    ensure("one record is added", t.len() == 2 && t[0].len() == 3);
    if t.len() != 2 {
        return;
    }
    let r = &t[1];
    ensure("columns of a record", r.len() == 8);
    if r.len() != 8 {
        return;
    }
    ensure("mean energy over the periods after the hundredth", (r[7] - e / n).abs() < 1e-4 && n > 899.5 * runs as f64);
    let mut h = c.clone();
    let om = 2.0 * PI / 2.5;
    h.tau = 2.5;
    h.hs = vec![1.0, 0.0, -om];
    let k = 2.0;
    let f = |r: &::sc::spinchain::SpinChain| -> [f64; 4] {
        let m = r.m();
        [r.mc_system_energy() + om * m[2] / k, m[0] / k, m[1] / k, m[2] / k]
    };
    says("the temperature printed is the one found", "Optimal beta:", r[2]);
    says("the energy printed is the one found", "Mean energy:", r[7]);
    eq("period", r[0], 2.5);
    eq("temperature it started from", r[1], c.beta);
    ensure("no colder than it should be", ensemble_mean(&h, r[2] + 0.001, &f)[0] <= r[7]);
    ensure("no hotter than it should be", r[7] <= ensemble_mean(&h, r[2] - 0.001, &f)[0]);
    let x = ensemble_mean(&h, r[2], &f);
    for k in 0..4 {
        eq("averages in the ensemble", r[3 + k], x[k]);
    }
}

/// spins of `defaults`: of the energy asked for, and no magnetisation
fn balanced(l: &Look, i: usize) -> [f64; 3] {
    if l.steps > 0 {
        // (8000 times 10 000 time steps would follow)
        ensure("as many samples as documented", file_text("hist_mc.dat").lines().count() == 8000);
        verif_rt::verif_finish();
    }
    [if i % 2 == 0 { 1.0 } else { -1.0 }, 0.0, 0.0]
}

/// an option whose value is left out stands for the documented one
pub fn defaults() {
    let mode = int("mode", 0, 3);
    let mut c = conf();
    c.threads = 1;
    c.ssize = 2;
    c.dt = 0.1;
    c.tau = 0.1;
    c.t = 0.1;
    let mut a = vec![String::from("sc")];
    with(&mut a, ["-d", "-s", "--magnus-hist", "--histogram"][mode as usize]);
    if mode == 3 {
        c.ednsty = 1.0;
        c.jvar = 0.0;
        c.ssize = 4;
        world().preset = Some(balanced);
    }
    // the schedules are the business of the other harnesses
    unsafe { verif_rt::IN_ORDER = true };
    let many = if mode < 2 { 1000 } else { 8000 };
    run_main(&c, a);
    let f = ["dyn-hist-t-0.1.dat", "hist-st-t-0.1.dat", "hist_mc_magnus.dat", "hist_mc.dat"][mode as usize];
    ensure("as many samples as documented", file_text(f).lines().count() == many);
}

/// the number printed after these words, if they are printed
fn said(words: &str) -> Option<f64> {
    let mut s = String::new();
    verif_rt::verif_printed(&mut s);
    for l in s.lines() {
        if let Some(i) = l.find(words) {
            let t = l[i + words.len()..].trim();
            return Some(num(t));
        }
    }
    None
}
fn says(l: &str, words: &str, want: f64) {
    let x = said(words);
    ensure(l, true);
    if let Some(x) = x {
        eq(l, x, want);
    }
}
/// says, the last time it is printed
fn said_last(l: &str, words: &str, want: f64) {
    let mut s = String::new();
    verif_rt::verif_printed(&mut s);
    ensure(l, true);
    for x in s.lines().rev() {
        if let Some(i) = x.find(words) {
            eq(l, num(x[i + words.len()..].trim()), want);
            return;
        }
    }
}

/// what is printed about a run is so
pub fn printed() {
    let mode = int("mode", 0, 6);
    let mut c = conf();
    c.ssize = 2;
    c.runs = 2;
    c.dt = 0.03125;
    c.tau = 0.0625;
    c.t = 0.0625;
    if mode == 5 {
        c.dt = 500.0 * c.tau;
    }
    unsafe { verif_rt::IN_ORDER = true };
    let mut a = vec![String::from("sc")];
    let gamma = sym("g");
    match mode {
        0 => (),
        1 => with(&mut a, "--ext"),
        2 => number(&mut a, "--langevin", gamma),
        3 => with(&mut a, "--response"),
        4 => {
            with(&mut a, "-n");
            with(&mut a, "0.5");
            count(&mut a, "--steps", 1);
        }
        5 => with(&mut a, "-P"),
        _ => count(&mut a, "--magnus-hist", 3),
    }
    let before = c.clone();
    temperature(&mut c, &mut a);
    run_main(&before, a);
    ensure("chains are made", world().made.len() > 0);
    if mode == 6 {
        let t = table("hist_mc_magnus.dat");
        ensure("samples", t.len() == 3);
        let names = ["mx:", "my:", "mz:", "ed:"];
        for k in 0..4 {
            let m = (t[0][k + 1] + t[1][k + 1] + t[2][k + 1]) / 3.0;
            match said(names[k]) {
                Some(x) => eq("the averages printed are those of the samples", x, m),
                None => ensure("the averages are printed", false),
            }
        }
    } else {
        for m in world().made.iter() {
            says("the energy density printed is the one asked for", "Energy density:", c.ednsty);
            says("the temperature printed is that of the chains", "Effective temperature:", m.conf.beta);
            if mode == 2 {
                says("the friction printed is that of the chains", "gamma=", m.gamma);
            }
        }
    }
}

/// the description of the configuration file: nothing is simulated
pub fn prints() {
    let c = conf();
    let mut a = vec![String::from("sc")];
    with(&mut a, "--config-desc");
    run_main(&c, a);
    ensure("nothing is simulated", world().made.len() == 0);
    ensure("nothing is configured", !file_exists("config.toml"));
    let mut s = String::new();
    verif_rt::verif_printed(&mut s);
    ensure("the description is printed", s.contains(CS.trim()));
}

/// option i, as documented: short and long name, what follows (0 nothing, 1 a
/// positive number, 2 a number, 3 perhaps a whole number, 4 perhaps a positive
/// number, 5 numbers, 6 a whole number)
const OPTIONS: [(&str, &str, u8); 25] = [
    ("-t", "--tau", 1),
    ("-a", "--avg", 0),
    ("-b", "--beta", 1),
    ("-m", "--monte-carlo", 0),
    ("-p", "--monte-carlo-profile", 0),
    ("-P", "--dynamic-profile", 0),
    ("", "--monte-carlo-magnus", 0),
    ("", "--histogram", 3),
    ("-d", "--dynamic-histogram", 3),
    ("-s", "--trajectory", 3),
    ("-l", "--langevin", 4),
    ("", "--magnus-hist", 3),
    ("", "--config-desc", 0),
    ("-n", "--n-steps", 5),
    ("-A", "--adiabatic", 1),
    ("-D", "--adiab_full", 1),
    ("-r", "--rot-frame", 2),
    ("-e", "--ext", 0),
    ("-E", "--magnus-fit", 2),
    ("", "--steps", 6),
    ("-f", "", 2),
    ("-F", "", 2),
    ("", "--response", 0),
    ("", "--two-point", 0),
    ("-H", "--high-freq", 2),
];

/// what the options stand for
#[derive(Default)]
pub struct Want {
    pub number: [Option<f64>; 25],
    pub count: [Option<usize>; 25],
    pub there: [bool; 25],
    pub list: Vec<f64>,
}
fn option(a: &mut Want, i: usize, x: &[f64], n: usize, absent: bool) {
    let kind = OPTIONS[i].2;
    a.there[i] = true;
    if !absent {
        match kind {
            1 | 2 | 4 => a.number[i] = Some(x[0]),
            3 | 6 => a.count[i] = Some(n),
            5 => a.list = x.to_vec(),
            _ => (),
        }
    }
}

/// option i on the command line: spelled 0 `-t 1`, 1 `--tau 1`, 2 `--tau=1`, 3
/// `-t1`; an option which may do without a value does with spelling 4
fn write_option(w: &mut Vec<String>, want: &mut Want, canon: &mut Vec<String>, i: usize, spelling: i64, n: &str) -> bool {
    let (short, long, kind) = OPTIONS[i];
    let by = if spelling % 3 == 0 { short } else { long };
    let by = if spelling == 4 && long == "" { short } else { by };
    if by == "" || (kind == 0 && spelling > 1) || (spelling == 4 && kind != 3 && kind != 4) {
        return false;
    }
    let absent = spelling == 4;
    let mut x = Vec::new();
    let mut s = String::new();
    let mut k = 0;
    match kind {
        1 | 4 => {
            x.push(pos(n));
            s = format!("{}", x[0]);
        }
        2 => {
            let p = pos(n);
            if int("sign", 0, 1) == 1 {
                x.push(-p);
                s = format!("-{}", p);
            } else {
                x.push(p);
                s = format!("{}", p);
            }
        }
        3 | 6 => {
            k = [1, 37, 4000000000][int("count", 0, 2) as usize];
            s = format!("{}", k);
        }
        5 => {
            for j in 0..int("taus", 1, 3) as usize {
                x.push(pos(&name(n, j)));
                if j > 0 {
                    s.push(',');
                }
                s.push_str(&format!("{}", x[j]));
            }
        }
        _ => (),
    }
    // in one way, whatever the spelling
    let full = if long == "" { short } else { long };
    canon.push(if kind == 0 || absent { String::from(full) } else { format!("{}={}", full, s) });
    if kind == 0 || absent {
        w.push(String::from(by));
    } else if spelling < 2 {
        w.push(String::from(by));
        w.push(s);
    } else {
        w.push(format!("{}{}{}", by, if spelling == 2 { "=" } else { "" }, s));
    }
    option(want, i, &x, k, absent);
    true
}

/// the command line is understood as documented
pub fn cli_options() {
    let i = int("option", 0, 25) as usize;
    let spelling = int("spelling", 0, 4);
    let mut w = vec![String::from("sc")];
    let mut canon = vec![String::from("sc")];
    let mut want = Want::default();
    let other = int("other", 0, 2);
    if other == 1 {
        assume(i != 2);
        write_option(&mut w, &mut want, &mut canon, 2, 1, "other");
    }
    if i < 25 {
        assume(write_option(&mut w, &mut want, &mut canon, i, spelling, "value"));
    } else {
        assume(spelling == 0);
    }
    if other == 2 {
        assume(i != 22);
        write_option(&mut w, &mut want, &mut canon, 22, 1, "other");
    }
    match (cli::parse(w), cli::parse(canon)) {
        (Some(a), Some(b)) => {
            cli::check(&a, &want);
            ensure("the spelling of an option makes no difference", format!("{:?}", a) == format!("{:?}", b));
            let none = cli::parse(vec![String::from("sc")]);
            ensure("no option needs to be given", none.is_some());
            if let Some(n) = none {
                let given = i < 25 || other > 0;
                ensure("an option makes a difference", given == (format!("{:?}", a) != format!("{:?}", n)));
            }
        }
        _ => ensure("a documented option is understood", false),
    }
}

/// other command lines are refused
pub fn cli_refused() {
    let w: Vec<&str> = match int("fault", 0, 9) {
        0 => vec!["sc", "--taw", "1"],
        1 => vec!["sc", "-t"],
        2 => vec!["sc", "-t", "fast"],
        3 => vec!["sc", "-b", "1", "-b", "2"],
        4 => vec!["sc", "--steps", "-1"],
        5 => vec!["sc", "-d", "3.5"],
        6 => vec!["sc", "-x"],
        7 => vec!["sc", "run"],
        8 => vec!["sc", "--avg=1"],
        _ => vec!["sc", "-n", "1,x"],
    };
    let r = cli::parse(w.iter().map(|x| String::from(*x)).collect());
    ensure("a mistake is reported", r.is_none());
}
