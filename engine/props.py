"""Which harnesses decide which property, and within what bounds."""
COMMON = [
    'floating point is read as exact real arithmetic (rounding is outside the claim; replays use a 1e-6 tolerance)',
    'uniform draws are arbitrary in (0,1), normal draws arbitrary reals, index draws arbitrary in range',
    'rustc, LLVM sroa/early-cse, the IR interpreter of /verif/engine, z3',
]


def P(jobs, bounds, assumptions=(), **k):
    return dict(jobs=jobs, bounds=bounds, assumptions=list(assumptions), **k)


def J(harness, **k):
    return dict(harness=harness, **k)


def pins(*nks, **k):
    return dict(pin_list=[dict(n=n, k=kk, **k) for n, kk in nks])


DR = [0, 1, 2, 3, 4]
Q = [(3, 2), (4, 2), (4, 3), (4, 4), (5, 3)]
T = [(3, 3), (5, 2), (5, 5), (6, 2), (6, 4), (6, 6), (7, 3), (8, 5), (8, 8), (16, 9)] + Q

QE = [(4, 2), (4, 3), (4, 4), (6, 4)]      # the step is defined on bipartite rings: even n
TE = [p for p in T if p[0] % 2 == 0]
TWO = [(2, 2)]         # closed chains only: the couplings of an open one are read off its bonds
BIG = (12, 7)          # one larger chain, with one drive


def NK(l, drives=(4,)):
    return [dict(n=n, k=k, drive=d) for n, k in dict.fromkeys(l) for d in drives] + [dict(n=BIG[0], k=BIG[1], drive=drives[0])]


ONE0 = dict(max_exceptional=1)
BQ = ('chain length n, subsystem size k as listed in the evidence: every chain of 2 to 6 sites of interest (thorough: up to n=16) with all five drive types, and '
      '(12,7) with one; every real parameter symbolic')
BE = ('chain length n, subsystem size k in {(2,2),(4,2),(4,3),(4,4),(6,4)} (thorough: even n up to 16; open chains: from n=4), all five drive types, and (12,7) with one; '
      'every real parameter symbolic; per path at most one effective field vanishes exactly')
BM = ('chain length n, subsystem size k as listed in the evidence (quick: n=3..6 and (12,7), thorough: up to 16), every index drawn; every real '
      'parameter and draw symbolic')
PROPS = {
    'C01': P([J('spin_ctor'), J('spin_eq')], 'all inputs (loop-free)'),
    'C02': P([J('spin_rotate'), J('spin_rotate_renorm')], 'all inputs (loop-free)'),
    'C03': P([J('spin_angles')], 'all unit vectors'),
    'C05': P([J('chain_total_energy', pins=NK(TWO + Q, DR), pins_thorough=NK(T, DR))], BQ),
    'C06': P([J('chain_system_energy', pins=NK(TWO + Q, DR), pins_thorough=NK(T, DR)),
              J('chain_mc_energy', pins=NK(TWO + Q), pins_thorough=NK(T))], BQ),
    'C07': P([J('chain_magnetisation', pins=NK(TWO + Q), pins_thorough=NK(T))], BQ),
    'C08': P([J('chain_drive', pins=NK(TWO + Q, DR), pins_thorough=NK(T, DR))], BQ),
    'C09': P([J('chain_update', pins=NK(TWO + QE, DR), pins_thorough=NK(TE, DR), opts=ONE0)], BE),
    'C10': P([J('chain_invariants', pins=NK(TWO + QE, DR), pins_thorough=NK(TE, DR), opts=ONE0)], BE),
    'C11': P([J('chain_update_no_field', pins=NK(TWO + QE, DR), pins_thorough=NK(TE, DR), opts=ONE0)], BE),
    'C12': P([J('mc_plain', pins=NK(Q), pins_thorough=NK(T), alts=12)], BM),
    'C13': P([J('mc_maglab', pins=NK(Q), pins_thorough=NK(T), alts=12)], BM),
    'C14': P([J('mc_rot', pins=NK(Q), pins_thorough=NK(T), alts=12)], BM),
    'C15': P([J('mc_magnus', pins=NK(Q + [(6, 3)]), pins_thorough=NK(T), alts=12)], BM),
    'C16': P([J('mc_full', pins=[dict(n=n, k=n) for n in (4, 5, 8)], pins_thorough=[dict(n=n, k=n) for n in (4, 5, 6, 7, 8, 9, 10)], alts=12)], BM),
    'C17': P([J('mc_energies', pins=NK(Q + [(5, 3)]), pins_thorough=NK(T))], BM),
    'C18': P([J('new_disorder', pins=[dict(n=n, k=k, drive=4, log=l) for n, k in ((2, 1), (3, 2), (4, 4)) for l in (0, 1)],
                pins_thorough=[dict(n=n, k=k, drive=d, log=l) for n, k in ((2, 1), (3, 2), (4, 4), (6, 3), (8, 5)) for l in (0, 1) for d in DR])],
             'n sites, subsystem k as listed (quick: n=2..4, thorough: up to 8); every parameter and normal draw symbolic; initial spins from fixed draws'),
    'C19': P([J(h, alts=24, pins=[dict(n=3, k=1, drive=4, log=0)],
                pins_thorough=[dict(n=n, k=1, drive=4, log=0) for n in (2, 3, 4, 5, 6)]) for h in ('new_ensemble', 'new_ensemble_langevin')],
             'chains of 3 sites (thorough: 2..6), both for SpinChain and SpinChainLangevin; beta any real, every uniform draw in (0,1) symbolic; drawn direction not parallel to the previous spin'),
    'C20': P([J('obs_log', pins=NK(Q + [(5, 5)], DR), pins_thorough=NK(T, DR)),
              J('obs_log_off', pins=NK(QE), pins_thorough=NK(TE))], BQ),
    'C21': P([J('obs_log_ext', pins=NK(Q + [(5, 5), (6, 3)], DR), pins_thorough=NK(T, DR))], BQ),
    'C22': P([J('obs_spectrum', pins=NK([(2, 2), (4, 2), (6, 3), (8, 4)]), pins_thorough=NK([(n, 2) for n in (2, 4, 6, 8, 10, 12, 16)]))],
             'even chain lengths n=2,4,6,8 (thorough: up to 16); every spin configuration symbolic; the FFT library is replaced by the '
             'defining sum of the discrete Fourier transform'),
    'C23': P([J('lang_disorder', pins=[dict(n=n, k=k, drive=4, log=l) for n, k in ((3, 2), (4, 4), (5, 3)) for l in (0, 1)],
                pins_thorough=[dict(n=n, k=k, drive=d, log=l) for n, k in ((3, 2), (4, 4), (6, 3), (8, 5)) for l in (0, 1) for d in DR])],
             'n sites, subsystem k as listed (quick: n=3..5, thorough: up to 8); every parameter and normal draw symbolic; initial spins from fixed draws'),
    'C24': P([J('lang_energy', pins=NK(Q + [(5, 3)], DR), pins_thorough=NK(T, DR))], BQ),
    'C25': P([J('lang_update', pins=NK(QE, DR), pins_thorough=NK(TE, DR), alts=8, opts=ONE0)], BE),
    'C26': P([J(h, pins=NK(Q + [(6, 5)], DR), pins_thorough=NK(T, DR)) for h in ('lang_boundary', 'lang_log')], BQ),
    'C27': P([J('lang_mc_plain', pins=NK(Q), pins_thorough=NK(T), alts=12)], BM),
    'C28': P([J('lang_mc_magnus', pins=NK(Q + [(6, 3)]), pins_thorough=NK(T), alts=12)], BM),
    'C46': P([J('beta_of_energy', pins=[dict(langevin=l, chunk=c) for l in (0, 1) for c in range(13, -1, -1)])],
             'energy densities from -0.99 to -0.3, cut into 690 windows, both copies of the function; tanh is known by its enclosure over a window'),
    'C04': P([J('spin_gs'), J('spin_rot_perp')], 'all inputs (loop-free)'),
}

RB = ('whole runs of the program from main() on, in a world where chains keep their real constructor, energies and observables, but an '
      'update leaves the spins arbitrary (fresh unknowns at the next look) and advances the clock by dt with an arbitrary relative error up '
      'to 1e-9; ')
TH = '; jobs of the thread pool run whole, one after another, in order or reversed; a thread nobody waits for has done nothing or everything when the program ends'
MODEL = ['the program outside the chains runs unchanged; std::thread, std::sync::mpsc, threadpool, indicatif, clap and toml are replaced by models',
         'files are exact; numbers written to a file are read back exactly']


def R(jobs, bounds, th=True):
    return P(jobs, RB + bounds + (TH if th else ''), MODEL, set='run')


def D(**k):
    """all combinations"""
    out = [{}]
    for a, vs in k.items():
        out = [dict(o, **{a: v}) for o in out for v in (vs if isinstance(vs, (list, tuple)) else [vs])]
    return out


def sim(mode, g=(0,)):
    return J('sim_runs', pins=D(mode=mode, runs=2, steps=5, period=2, strob=[0, 1], beta=0, gamma=g[0], exact=0)
             + D(mode=mode, runs=1, steps=[6, 7], period=3, strob=[0, 1], beta=1, gamma=g[-1], exact=0)
             + D(mode=mode, runs=1, steps=2, period=[1, 4], strob=1, beta=1, gamma=g[-1], exact=0)
             + D(mode=mode, runs=1, steps=6, period=3, strob=[0, 1], beta=1, gamma=g[-1], exact=1),
             pins_thorough=D(mode=mode, runs=[1, 2, 3], steps=[1, 5, 8, 12], period=[1, 2, 3, 4], strob=[0, 1], beta=[0, 1], gamma=list(g), exact=[0, 1]))


SB = ('runs, steps and period (in steps) as listed in the evidence (quick: up to 2 runs of 7 steps, thorough: up to 3 runs of 12), with and '
      'without stroboscopic records and a temperature on the command line')
MB = 'samples, threads and chain length as listed in the evidence (quick: up to 5 samples on 4 threads, thorough: up to 6)'
EARLIER = ['the logs of earlier runs are left alone']
FB = ('chains of 2 sites (thorough: up to 4), in an ensemble of two alternating states which depend on the temperature; energies asked for in '
      'a window (symbolic) around four temperatures (quick: one per mode)')
PROPS.update({
    'C29': R([sim(0)], SB),
    'C30': R([sim(1)], SB),
    'C31': R([sim(2, (0, 1))], SB),
    'C32': R([J('response_runs', pins=D(runs=2, steps=5, period=2, strob=[0, 1], beta=0, exact=0) + D(runs=1, steps=[4, 6], period=3, strob=[0, 1], beta=1, exact=[0, 1])
                + D(runs=1, steps=3, period=[1, 4], strob=1, beta=1, exact=[0, 1]),
                pins_thorough=D(runs=[1, 2], steps=[1, 4, 6, 9], period=[1, 2, 3, 4], strob=[0, 1], beta=[0, 1], exact=[0, 1]))], SB),
    'C33': R([J('tau_runs', pins=D(runs=2, steps=2) + D(runs=3, steps=1), pins_thorough=D(runs=[1, 2, 3], steps=[1, 2, 3]))],
             'one to three periods (0.5, 12.5, 9.75), 1 to 3 steps (quick: 2 periods and 2 steps, 3 and 1)'),
    'C34': R([J('mc_runs', pins=D(mode=[0, 1], points=5, threads=3, n=5, k=3, beta=1) + D(mode=[0, 1], points=4, threads=2, n=4, k=4, beta=0)
                + D(mode=[0, 1], points=2, threads=4, n=4, k=2, beta=0) + D(mode=[0, 1], points=1, threads=1, n=6, k=5, beta=1),
                pins_thorough=D(mode=[0, 1], points=[1, 2, 3, 5, 6], threads=[1, 2, 3, 4], n=[5, 6], k=[2, 3, 4, 5], beta=[0, 1]))], MB),
    'C35': R([J('profile_runs', pins=D(points=4, threads=3, n=5, beta=1) + D(points=1, threads=2, n=2, beta=0) + D(points=3, threads=2, n=4, beta=0),
                pins_thorough=D(points=[1, 2, 3, 4], threads=[1, 2, 3], n=[2, 3, 4, 6], beta=[0, 1]))], MB),
    'C36': R([J('dyn_profile_runs', pins=D(runs=1, n=5, fine=1, beta=0) + D(runs=2, n=3, fine=1, beta=1) + D(runs=1, n=2, fine=2, beta=1),
                pins_thorough=D(runs=[1, 2], n=[2, 4, 6], fine=[1, 2], beta=[0, 1]))],
             'up to 2 runs, chain lengths 2..6, steps of 500 or 250 periods'),
    'C37': R([J('dyn_hist_runs', pins=D(points=3, threads=2, steps=[3, 5], beta=1) + D(points=2, threads=3, steps=[1, 8, 7], beta=0),
                pins_thorough=D(points=[1, 2, 3, 4], threads=[1, 2, 3], steps=[1, 2, 3, 4, 5, 6, 7, 8], beta=[0, 1]))],
             'up to 4 samples (quick: 3) on up to 3 threads, final times of 1 to 8 steps of 0.1'),
    'C38': R([J('trajectory_runs', pins=D(points=3, period=3, beta=1) + D(points=2, period=[1, 2], beta=0),
                pins_thorough=D(points=[1, 2, 3, 4], period=[1, 2, 3, 4], beta=[0, 1]))],
             'up to 4 samples, periods of 1 to 4 steps', False),
    'C39': R([J('hist_runs', pins=D(points=2, bad=0, k=4, beta=0) + D(points=1, bad=[1, 2, 3, 4, 5], k=3, beta=[0]) + D(points=1, bad=0, k=2, beta=1),
                pins_thorough=D(points=[1, 2, 3, 4], bad=[0, 1, 2, 3, 4, 5], k=[2, 3, 4], beta=[0, 1]))],
             'up to 4 samples (quick: 2) of 4 spins; the first candidate for the initial state right (exactly, or by any amounts up to 0.0025), or off in the energy or one component of the magnetisation by '
             'any amount up to 0.5 which is more than allowed by at least 0.0005', False),
    'C40': R([J('hist_magnus_runs', pins=D(points=3, n=4, k=[2, 4], beta=0) + D(points=2, n=[5, 6], k=[3, 5], beta=1),
                pins_thorough=D(points=[1, 2, 3, 4], n=[5, 6], k=[2, 3, 4, 5], beta=[0, 1]))], 'up to 4 samples (quick: 3) of 4 to 6 spins', False),
    'C41': R([J('averages', pins=D(files=[1, 3], rows=3, header=[0, 1]) + D(files=2, rows=2, header=[0, 1]),
                pins_thorough=D(files=[1, 2, 3], rows=[1, 2, 3, 4], header=[0, 1]))], 'up to 3 logs of up to 4 records with arbitrary entries, one log shorter than the others', False),
    'C42': R([J('two_points', pins=D(files=[1, 3], rows=3, header=[0, 1], start=[0, 1]) + D(files=2, rows=2, header=[0, 1], start=0),
                pins_thorough=D(files=[1, 2, 3], rows=[3, 4], header=[0, 1], start=[0, 1]) + D(files=[1, 2], rows=2, header=[0, 1], start=0))], 'up to 3 logs of up to 4 records with arbitrary entries, one log shorter than the others, up to one record before time 0', False),
    'C43': R([J('fit_runs', pins=[dict(mode=m, window=w, n=2) for m, w in ((0, 0), (1, 3), (2, 2), (3, 1), (4, 0), (5, 1))],
                pins_thorough=D(mode=[0, 1, 2, 3, 4, 5], window=[0, 1, 2, 3], n=[2, 3]))], FB, False),
    'C44': R([J('adiabatic_runs', pins=D(runs=1), pins_thorough=D(runs=[1, 2]))],
             'chains of 2 sites, trajectories of 1000 periods of one step, whose energy is in a window (symbolic); the ensemble as for C43'),
    'C45': R([dict(J(h, pins=p), only=EARLIER) for h, p in (
        ('sim_runs', D(mode=[0, 1, 2], runs=2, steps=3, period=2, strob=0, beta=0, gamma=0, exact=0)),
        ('response_runs', D(runs=2, steps=3, period=2, strob=0, beta=0, exact=0)),
        ('tau_runs', D(runs=1, steps=1)),
        ('mc_runs', D(mode=[0, 1], points=2, threads=2, n=4, k=4, beta=0)),
        ('profile_runs', D(points=2, threads=2, n=4, beta=0)),
        ('dyn_profile_runs', D(runs=1, n=2, fine=1, beta=0)),
        ('dyn_hist_runs', D(points=2, threads=2, steps=2, beta=0)),
        ('trajectory_runs', D(points=1, period=2, beta=0)),
        ('hist_runs', D(points=1, bad=0, k=4, beta=0)),
        ('hist_magnus_runs', D(points=1, n=4, k=4, beta=0)),
        ('fit_runs', D(mode=5, window=1, n=2)),
        ('prints', D()))],
             'one small run in each mode of the program, with the logs of two earlier runs on disk'),
})

TOML = ['text is exact: a number written is read back as the same number; the reader and writer of TOML is a small one (/verif/stubs/toml) which agrees with the crate '
        'toml on everything replayed natively']
PROPS.update({
    'C47': P([J('conf_read', pins=D(copy=[0, 1], without=[0, 1], layout=[0, 1], drive=DR)), J('conf_invalid')],
             'files with one of the 23 keys, all but one, none or all, in two orders and layouts; numbers arbitrary, whole numbers, names and switches one of two each; eight faulty files', TOML),
    'C48': P([J('conf_write', pins=D(copy=[0, 1])), J('conf_missing')],
             'configurations with arbitrary numbers, every drive, whole numbers, names and switches one of two each', TOML),
    'C49': P([J('cli_options', pins=D(option=list(range(26)))), J('cli_refused'), J('defaults', pins=D(mode=[0, 1, 2, 3]))],
             'each of the 25 options in each of its spellings, alone or next to another option, with arbitrary positive numbers or, where energies are meant, numbers of any sign; counts 1, 37 '
             'and 4000000000; lists of 1 to 3 numbers; ten command lines with a mistake; whole runs of -d, -s, --histogram (up to the first time step) and --magnus-hist without a value', ['a number on the command line is read as the number written'], set='run'),
    'C50': P([J('conf_described')], 'the one description there is', TOML),
})
PROPS['C51'] = R([J('printed', pins=D(mode=[0, 1, 2, 3, 4, 5, 6], beta=[0, 1])), J('prints')],
                 'two runs of two steps (--tau: one period, --dynamic-profile: one snapshot step of 500 periods; --magnus-hist: a few samples), with and without a temperature on the command line', False)
