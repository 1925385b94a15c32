//! Configuration files.
use crate::env::*;
use sc::config::{Config, DriveType, CS};
use sc::spinchain::SpinChain;
use sc::spinchain_langevin::SpinChainLangevin;

const KEYS: [&str; 23] = [
    "hsize", "ssize", "t", "dt", "runs", "threads", "trel", "tau", "lambda", "hfield", "hs", "jvar", "hvar", "method",
    "ednsty", "file", "strob", "offset", "beta", "e", "mc_points", "drive", "log",
];

fn read(copy: i64) -> Config {
    match copy {
        0 => SpinChain::read_config("config.toml"),
        _ => SpinChainLangevin::read_config("config.toml"),
    }
}

/// as documented (mc_points, log: as in the program)
fn documented() -> Config {
    Config {
        hsize: 512,
        ssize: 8,
        t: 256.0,
        dt: 0.02,
        runs: 2,
        threads: 2,
        trel: 0.0,
        tau: 10.0,
        lambda: 1.0,
        hfield: vec![0.0; 3],
        hs: vec![0.0; 3],
        jvar: 0.001,
        hvar: 0.0,
        method: 2,
        ednsty: -0.66,
        file: String::from("log"),
        strob: false,
        offset: 0,
        beta: 2.88,
        e: 0.9,
        mc_points: 1000,
        drive: DriveType::xyplane,
        log: true,
    }
}

fn drive(i: i64) -> DriveType {
    match i {
        0 => DriveType::xyplane,
        1 => DriveType::xyelliptic,
        2 => DriveType::uniaxial,
        3 => DriveType::staticfield,
        _ => DriveType::none,
    }
}
fn drive_name(d: &DriveType) -> &'static str {
    match d {
        DriveType::xyplane => "xyplane",
        DriveType::xyelliptic => "xyelliptic",
        DriveType::uniaxial => "uniaxial",
        DriveType::staticfield => "staticfield",
        DriveType::none => "none",
    }
}

/// any configuration; whole numbers and names are one of two
fn any() -> Config {
    let other = int("other", 0, 1) == 1;
    Config {
        hsize: if other { 12 } else { 64 },
        ssize: if other { 3 } else { 16 },
        t: sym("t"),
        dt: sym("dt"),
        runs: if other { 0 } else { 123456 },
        threads: if other { 1 } else { 7 },
        trel: sym("trel"),
        tau: sym("tau"),
        lambda: sym("lambda"),
        hfield: sym3("hfield").to_vec(),
        hs: sym3("hs").to_vec(),
        jvar: sym("jvar"),
        hvar: sym("hvar"),
        method: if other { -1 } else { 1 },
        ednsty: sym("ednsty"),
        file: String::from(if other { "runs/a b-" } else { "x#\"=\\'" }),
        strob: other,
        offset: if other { 1 } else { 4000000000 },
        beta: sym("beta"),
        e: sym("e"),
        mc_points: if other { 5 } else { 10000000000 },
        drive: drive(int("drive", 0, 4)),
        log: !other,
    }
}

fn number(s: &mut String, x: f64) {
    s.push_str(&format!("{}", x));
}
fn vector(s: &mut String, x: &[f64], sep: &str) {
    s.push('[');
    for i in 0..3 {
        if i > 0 {
            s.push_str(sep);
        }
        number(s, x[i]);
    }
    s.push(']');
}
fn value(s: &mut String, c: &Config, key: usize, sep: &str) {
    match key {
        0 => s.push_str(&c.hsize.to_string()),
        1 => s.push_str(&c.ssize.to_string()),
        2 => number(s, c.t),
        3 => number(s, c.dt),
        4 => s.push_str(&c.runs.to_string()),
        5 => s.push_str(&c.threads.to_string()),
        6 => number(s, c.trel),
        7 => number(s, c.tau),
        8 => number(s, c.lambda),
        9 => vector(s, &c.hfield, sep),
        10 => vector(s, &c.hs, sep),
        11 => number(s, c.jvar),
        12 => number(s, c.hvar),
        13 => s.push_str(&c.method.to_string()),
        14 => number(s, c.ednsty),
        15 => {
            s.push('"');
            for x in c.file.chars() {
                if x == '"' || x == '\\' {
                    s.push('\\');
                }
                s.push(x);
            }
            s.push('"');
        }
        16 => s.push_str(if c.strob { "true" } else { "false" }),
        17 => s.push_str(&c.offset.to_string()),
        18 => number(s, c.beta),
        19 => number(s, c.e),
        20 => s.push_str(&c.mc_points.to_string()),
        21 => {
            s.push('"');
            s.push_str(drive_name(&c.drive));
            s.push('"');
        }
        _ => s.push_str(if c.log { "true" } else { "false" }),
    }
}
fn take(to: &mut Config, from: &Config, key: usize) {
    let f = from.clone();
    match key {
        0 => to.hsize = f.hsize,
        1 => to.ssize = f.ssize,
        2 => to.t = f.t,
        3 => to.dt = f.dt,
        4 => to.runs = f.runs,
        5 => to.threads = f.threads,
        6 => to.trel = f.trel,
        7 => to.tau = f.tau,
        8 => to.lambda = f.lambda,
        9 => to.hfield = f.hfield,
        10 => to.hs = f.hs,
        11 => to.jvar = f.jvar,
        12 => to.hvar = f.hvar,
        13 => to.method = f.method,
        14 => to.ednsty = f.ednsty,
        15 => to.file = f.file,
        16 => to.strob = f.strob,
        17 => to.offset = f.offset,
        18 => to.beta = f.beta,
        19 => to.e = f.e,
        20 => to.mc_points = f.mc_points,
        21 => to.drive = f.drive,
        _ => to.log = f.log,
    }
}

fn same_conf(l: &str, a: &Config, b: &Config) {
    ensure(l, a.hsize == b.hsize && a.ssize == b.ssize && a.runs == b.runs && a.threads == b.threads);
    ensure(l, a.method == b.method && a.offset == b.offset && a.mc_points == b.mc_points);
    ensure(l, a.file == b.file && a.strob == b.strob && a.log == b.log);
    ensure(l, drive_name(&a.drive) == drive_name(&b.drive));
    let x = [a.t, a.dt, a.trel, a.tau, a.lambda, a.jvar, a.hvar, a.ednsty, a.beta, a.e];
    let y = [b.t, b.dt, b.trel, b.tau, b.lambda, b.jvar, b.hvar, b.ednsty, b.beta, b.e];
    for i in 0..x.len() {
        eq(l, x[i], y[i]);
    }
    ensure(l, a.hfield.len() == 3 && a.hs.len() == 3);
    if a.hfield.len() == 3 && a.hs.len() == 3 {
        for k in 0..3 {
            eq(l, a.hfield[k], b.hfield[k]);
            eq(l, a.hs[k], b.hs[k]);
        }
    }
}

/// a file with one key, all keys but one, or all keys
pub fn conf_read() {
    let copy = int("copy", 0, 1);
    let key = int("key", 0, 23) as usize;
    let without = int("without", 0, 1) == 1;
    let layout = int("layout", 0, 1) == 1;
    let c = any();
    let mut want = documented();
    let mut s = String::new();
    if layout {
        s.push_str("# a comment\n\n");
    }
    for i in 0..23 {
        // layout 1: backwards
        let k = if layout { 22 - i } else { i };
        if (k == key) != without {
            s.push_str(KEYS[k]);
            s.push_str(if layout { "=" } else { " = " });
            value(&mut s, &c, k, if layout { "," } else { ", " });
            s.push_str(if layout { " # what it is\n" } else { "\n" });
            take(&mut want, &c, k);
        }
    }
    file_put("config.toml", &s);
    let got = read(copy);
    same_conf("the configuration is as the file says, and the defaults", &got, &want);
    ensure("the file is left alone", file_text("config.toml") == s);
}

/// what is written can be read
pub fn conf_write() {
    let copy = int("copy", 0, 1);
    let c = any();
    file_put("config.toml", &toml::to_string(&c).unwrap());
    let got = read(copy);
    same_conf("a configuration written is read back", &got, &c);
}

/// no file
pub fn conf_missing() {
    let copy = int("copy", 0, 1);
    let got = read(copy);
    same_conf("defaults without a file", &got, &documented());
    ensure("a file is written", file_exists("config.toml"));
    if file_exists("config.toml") {
        let again = read(copy);
        same_conf("and says the same", &again, &documented());
    }
}

/// a file which is no configuration
pub fn conf_invalid() {
    let copy = int("copy", 0, 1);
    let s: &[u8] = match int("fault", 0, 7) {
        0 => b"hsize = \"many\"\n",
        1 => b"hsize = 12\nssize 4\n",
        2 => b"drive = \"sideways\"\n",
        3 => b"runs = 3\ndt = [0.5]\n",
        4 => b"tau = 3.5\ntau = 4.5\n",
        5 => b"hsize = 12\nthreads = -1\n",
        6 => b"strob = 1\n",
        // not UTF-8
        _ => b"hsize = 12 # Gr\xf6\xdfe\n",
    };
    file_put("config.toml", unsafe { std::str::from_utf8_unchecked(s) });
    panics("a file which is no configuration ends the program", "config.toml", || {
        read(copy);
    });
}

/// the description of the configuration file is one, with the defaults
pub fn conf_described() {
    for k in KEYS.iter() {
        let mut there = false;
        for l in CS.lines() {
            let mut w = l.split('=');
            there |= w.next().map(|x| x.trim()) == Some(*k);
        }
        ensure("every key is described", there);
    }
    file_put("config.toml", CS);
    let got = read(0);
    same_conf("the description shows the defaults", &got, &documented());
    same_conf("the defaults are as described", &Config::default(), &got);
    file_put("config.toml", "");
    same_conf("an empty file gives what is described", &read(0), &got);
    same_conf("an empty file gives what is described", &read(1), &got);
}
