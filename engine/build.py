"""Builds, from /repo's current working tree: the LLVM IR which is executed
symbolically, and the native programs on which counterexamples are replayed."""
import fcntl
import glob
import hashlib
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = '/repo'
BUILD = os.path.join(ROOT, '.build')
TOOLCHAIN = 'stable-x86_64-unknown-linux-gnu'
LLVM = '/root/.rustup/toolchains/%s/lib/rustlib/x86_64-unknown-linux-gnu/bin/' % TOOLCHAIN

MANIFEST = '''[package]
name = "vh"
version = "0.1.0"
edition = "2021"

[workspace]

[lib]
path = "%(root)s/harness/src/lib.rs"

[[bin]]
name = "vreplay"
path = "%(root)s/harness/src/bin/vreplay.rs"

[dependencies]
sc = { path = "%(repo)s" }
verif_rt = { path = "%(root)s/stubs/verif_rt" }
toml = "0.8.19"
clap = { version = "4.5.16", features = ["derive"] }
rand = "0.8.5"
rand_distr = "0.4.3"
indicatif = "0.16.2"
threadpool = "1.8.1"
glob = "0.3.1"
rustfft = "6.2.0"

[patch.crates-io]
rand = { path = "%(root)s/stubs/rand" }
rand_distr = { path = "%(root)s/stubs/rand_distr" }
indicatif = { path = "%(root)s/stubs/indicatif" }
%(patch)s
[profile.dev]
panic = "%(panic)s"
debug = 0
overflow-checks = true
debug-assertions = false
incremental = false
codegen-units = 1
opt-level = %(opt)s
'''
IRPATCH = ''.join('%s = { path = "%s/stubs/%s" }\n' % (c, ROOT, c)
                  for c in ('threadpool', 'glob', 'rustfft', 'toml'))


RUN = MANIFEST[:MANIFEST.index('[lib]')].replace('"vh"', '"vb"') + '''[lib]
path = "%(build)s/gen/lib.rs"

[[bin]]
name = "vbreplay"
path = "%(root)s/harness/run/vbreplay.rs"

''' + MANIFEST[MANIFEST.index('[dependencies]'):]


FIELDS = [(n, t) for t, ns in (
    ('bool', 'avg mc mc_profile dyn_profile mc_full config_desc ext response two_point'),
    ('Option<f64>', 'tau beta adiabatic adiab2 rot maglab fit fit_effective high_freq'),
    ('Option<Option<usize>>', 'hist dynhist singletraj magnus_hist'),
    ('Option<Option<f64>>', 'langevin'),
    ('Option<Vec<f64>>', 'n_steps_taus'),
    ('Option<u32>', 'steps')) for n in ns.split()]


def generate():
    """the command-line program of /repo as a module of the crate vb: its
    sources, with the chains, threads, channels and the command line replaced
    by those of harness/run/mock.rs"""
    g = os.path.join(BUILD, 'gen')
    shutil.rmtree(g, ignore_errors=True)
    shutil.copytree(REPO + '/src', g + '/scbin')
    lib = open(REPO + '/src/lib.rs').read()
    cli, texts = None, {}
    for f in glob.glob(g + '/scbin/**/*.rs', recursive=True):
        s = open(f).read()
        name = os.path.splitext(os.path.relpath(f, g + '/scbin'))[0]
        if name == 'lib' or re.search(r'\bmod\s+%s\s*;' % re.escape(name), lib):
            os.unlink(f)
            continue
        s = re.sub(r'(?<![\w:])(?:::)?sc::(?=config|spin|spinchain|spinchain_langevin|\{)', 'crate::mock::sc::', s)
        s = re.sub(r'\bstd::sync::mpsc\b', 'crate::mock::mpsc', s)
        s = re.sub(r'\bstd::thread\b', 'crate::mock::thread', s)
        s = re.sub(r'(?<![\w:])toml::', 'crate::mock::toml::', s)
        # the command line is the one the harness gives
        words = 'crate::scbin::h_run::words()'
        s = re.sub(r'::(try_)?parse\(\)', r'::\1parse_from(%s)' % words, s)
        s = re.sub(r'\.(try_)?get_matches\(\)', r'.\1get_matches_from(%s)' % words, s)
        s = re.sub(r'\b(std::)?env::args\(\)', words + '.into_iter()', s)
        for m in re.finditer(r'#\[derive\(([^)]*\bParser\b[^)]*)\)\](?:\s|#\[[^\]]*\]|//[^\n]*)*(?:pub(?:\([^)]*\))?\s+)?struct\s+(\w+)', s):
            cli = (name, m.group(2), m.group(1))
        s = re.sub(r'#\[derive\(((?![^)]*\bDebug\b)[^)]*\bParser\b)', r'#[derive(Debug, \1', s)
        if name == 'main':
            s += '\n#[path = "%s/harness/run/h_run.rs"]\npub mod h_run;\n#[path = "%s/cli.rs"]\nmod h_cli;\n' % (ROOT, g)
        texts[name] = s
        with open(f, 'w') as fh:
            fh.write(s)
    # C49 looks at the fields of the struct that clap fills, where they are as
    # in the original, and otherwise (see cli_options) at the struct as a whole
    with open(g + '/cli.rs', 'w') as f:
        if cli is None:
            f.write('pub fn parse(_w: Vec<String>) -> Option<()> {\n    crate::env::assume(false);\n    None\n}\n')
            f.write('use crate::scbin::h_run::Want;\npub fn check(_a: &(), _w: &Want) {}\n')
        else:
            f.write('use crate::scbin::%s%s as Cli;\n' % ('' if cli[0] == 'main' else cli[0].replace('/', '::') + '::', cli[1]))
            f.write('pub fn parse(w: Vec<String>) -> Option<Cli> {\n    <Cli as clap::Parser>::try_parse_from(w).ok()\n}\n')
            body = re.search(r'struct\s+%s\s*\{(.*?)\n\}' % cli[1], texts[cli[0]], re.S)
            if body and all(re.search(r'(?m)^\s*(?:pub(?:\([^)]*\))?\s+)?%s\s*:\s*%s\s*,' % (n, re.escape(t)), body.group(1))
                            for n, t in FIELDS):
                f.write('include!("%s/harness/run/cli_fields.rs");\n' % ROOT)
            else:
                f.write('use crate::scbin::h_run::Want;\npub fn check(_a: &Cli, _w: &Want) {}\n')
    with open(g + '/lib.rs', 'w') as f:
        f.write("""#[path = "%s/harness/src/env.rs"]
pub mod env;
#[path = "%s/harness/run/mock.rs"]
pub mod mock;
#[allow(warnings)]
#[path = "scbin/main.rs"]
pub mod scbin;
pub use scbin::h_run::run;
""" % (ROOT, ROOT))


class BuildError(Exception):
    pass


def digest(*dirs):
    h = hashlib.sha256()
    for d in dirs:
        for base, ds, fs in os.walk(d):
            ds[:] = sorted(x for x in ds if x not in ('target', '.git', '__pycache__'))
            for f in sorted(fs):
                p = os.path.join(base, f)
                h.update(os.path.relpath(p, d).encode() + b'\0')
                with open(p, 'rb') as fh:
                    h.update(fh.read())
    return h.hexdigest()


def source_digest():
    h = hashlib.sha256()
    h.update(digest(REPO + '/src', ROOT + '/harness', ROOT + '/stubs').encode())
    h.update(open(REPO + '/Cargo.toml', 'rb').read())
    h.update(MANIFEST.encode() + open(__file__, "rb").read())
    return h.hexdigest()


def cargo(kind, flags, patch, opt, panic, extra=(), manifest=MANIFEST, target=None):
    ws = os.path.join(BUILD, 'ws-' + kind)
    os.makedirs(ws, exist_ok=True)
    m = manifest % dict(root=ROOT, repo=REPO, patch=patch, opt=opt, panic=panic, build=BUILD)
    mp = os.path.join(ws, 'Cargo.toml')
    if not os.path.exists(mp) or open(mp).read() != m:
        with open(mp, 'w') as f:
            f.write(m)
        shutil.copy(os.path.join(ROOT, 'harness', 'Cargo.lock'), os.path.join(ws, 'Cargo.lock'))
    target = os.path.join(BUILD, kind)
    for p in glob.glob(target + '/debug/.fingerprint/sc-*') + glob.glob(target + '/debug/.fingerprint/v[hb]-*') + \
            glob.glob(target + '/debug/.fingerprint/verif_rt-*'):
        shutil.rmtree(p, ignore_errors=True)
    for p in glob.glob(target + '/debug/deps/*.ll'):
        b = os.path.basename(p)
        if b.startswith(('sc-', 'vh-', 'vb-', 'vreplay-', 'vbreplay-', 'verif_rt-')):
            os.unlink(p)
    env = dict(os.environ, RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE='true')
    if flags:
        env.update(RUSTC_BOOTSTRAP='1', RUSTFLAGS=flags)
    r = subprocess.run(['cargo', 'build', '--offline', '--target-dir', target] + list(extra), cwd=ws, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError('%s build failed:\n%s' % (kind, r.stdout[-6000:]))


CRATES = ['sc', 'vh', 'verif_rt', 'rand', 'rand_distr', 'rustfft', 'num_complex', 'num_traits', 'indicatif',
          'glob', 'threadpool', 'toml', 'serde']

RUN_CRATES = ['vb'] + [c for c in CRATES if c not in ('vh', 'toml', 'serde')] + ['clap', 'clap_builder', 'clap_lex', 'strsim', 'anstyle', 'anstream']
IRPATCH_RUN = ''.join('%s = { path = "%s/stubs/%s" }\n' % (c, ROOT, c) for c in ('threadpool', 'glob'))


STD = '''[package]
name = "x"
version = "0.1.0"
edition = "2021"
[workspace]
[lib]
path = "lib.rs"
[profile.dev]
panic = "abort"
debug = 0
overflow-checks = false
debug-assertions = false
incremental = false
codegen-units = 1
opt-level = 0
'''


def optimise(src, dst):
    r = subprocess.run([LLVM + 'opt', '-S', '-passes=function(sroa<modify-cfg>,early-cse,instsimplify,dce)', src,
                        '-o', dst + '.tmp'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError('opt %s: %s' % (src, r.stdout[-2000:]))
    os.rename(dst + '.tmp', dst)


def stdlib():
    """IR of the standard library of the installed toolchain (built once)"""
    out = os.path.join(BUILD, 'std')
    os.makedirs(out, exist_ok=True)
    if all(os.path.exists(os.path.join(out, c + '.ll')) for c in ('core', 'alloc', 'std')):
        return
    ws = os.path.join(BUILD, 'ws-std')
    os.makedirs(ws, exist_ok=True)
    for f, t in (('Cargo.toml', STD), ('lib.rs', 'pub fn f() {}\n')):
        with open(os.path.join(ws, f), 'w') as fh:
            fh.write(t)
    target = os.path.join(BUILD, 'std-target')
    env = dict(os.environ, RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE='true', RUSTC_BOOTSTRAP='1',
               RUSTFLAGS='-Zshare-generics=no -Csymbol-mangling-version=v0 --cap-lints=allow '
                         '--emit=llvm-ir,link,metadata')
    r = subprocess.run(['cargo', 'build', '--offline', '-Zbuild-std=std,panic_abort', '--target',
                        'x86_64-unknown-linux-gnu', '--target-dir', target], cwd=ws, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError('std build failed:\n%s' % r.stdout[-6000:])
    for c in ('core', 'alloc', 'std'):
        ps = glob.glob(target + '/x86_64-unknown-linux-gnu/debug/deps/%s-*.ll' % c)
        optimise(max(ps, key=os.path.getmtime), os.path.join(out, c + '.ll'))
    shutil.rmtree(target, ignore_errors=True)


SETS = {
    # name: (manifest, patches of the native build, crates of /repo and /verif)
    'base': (MANIFEST, '', CRATES),
    'run': (RUN, IRPATCH_RUN, RUN_CRATES),
}


def build(log=lambda s: None, which='base'):
    """returns (paths of the optimised IR by crate, directory of native programs)"""
    os.makedirs(BUILD, exist_ok=True)
    manifest, npatch, crates = SETS[which]
    sfx = '' if which == 'base' else '-' + which
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        d = source_digest()
        stamp = os.path.join(BUILD, 'stamp' + sfx)
        out = os.path.join(BUILD, 'll' + sfx)
        if not (os.path.exists(stamp) and open(stamp).read() == d):
            if os.path.exists(stamp):
                os.unlink(stamp)
            t = time.time()
            if which == 'run':
                generate()
            # the native programs are built in parallel with the IR
            from concurrent.futures import ThreadPoolExecutor
            with ThreadPoolExecutor(3) as ex:
                a = ex.submit(cargo, 'ir' + sfx, '-Zshare-generics=no -Csymbol-mangling-version=v0 --cap-lints=allow '
                              '--emit=llvm-ir,link,metadata', IRPATCH, 0, 'abort', (), manifest)
                b = ex.submit(cargo, 'native' + sfx, '--cap-lints=allow', npatch, 1, 'unwind', (), manifest)
                c = ex.submit(stdlib)
                a.result()
                b.result()
                c.result()
            os.makedirs(out, exist_ok=True)

            def opt(c):
                ps = [p for p in glob.glob(BUILD + '/ir%s/debug/deps/%s-*.ll' % (sfx, c))]
                if not ps:
                    return
                ps.sort(key=os.path.getmtime)
                optimise(ps[-1], os.path.join(out, c + '.ll'))
            with ThreadPoolExecutor(8) as ex:
                list(ex.map(opt, crates))
            with open(stamp, 'w') as f:
                f.write(d)
            log('built in %.1f s' % (time.time() - t))
    ll = {c: os.path.join(out, c + '.ll') for c in crates}
    ll.update({c: os.path.join(BUILD, 'std', c + '.ll') for c in ('core', 'alloc', 'std')})
    return ll, os.path.join(BUILD, 'native' + sfx, 'debug')


if __name__ == '__main__':
    for w in SETS:
        try:
            build(print, w)
        except BuildError as e:
            print(e)
            if w == 'base':
                sys.exit(2)
