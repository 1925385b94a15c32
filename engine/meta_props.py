prop('C01', 'Spins are built as unit vectors in the requested direction',
     'Building a spin from any non-zero vector gives the unit vector in that direction; building or setting it from any pair of angles gives '
     'the unit vector with that azimuth and polar angle. Two spins compare equal exactly when all components agree to 0.001.',
     ['inputs'], 'every real vector (non-zero) and every pair of angles',
     'The unit tests build a handful of axis-aligned spins; the claim is over all vectors and angles.',
     [SP], [('constructors', SP + ' Spin::new, new_xyz, new_from_angles, set_angles'), ('comparison', SP + ' impl PartialEq for Spin')])
prop('C02', 'Rotating a spin is exact precession about the field and never degrades it',
     'Rotating a spin by a field for a time precesses it about the field by the angle |field| x time with the documented sense, keeps its '
     'component along the field, and always leaves a finite unit vector. Rotating for the opposite time restores the spin; a zero field '
     'leaves it as it is.',
     ['inputs'], 'every unit vector, every field (zero included) and every time step; renormalisation for every non-zero spin vector',
     'The tests rotate a few spins about coordinate axes and never about a zero or oblique field.',
     [SP], [('rotation formula', SP + ' Spin::rotate')])
prop('C03', 'The angles of a spin give the spin back',
     'For every unit vector, at the poles and on every half plane, the reported polar and azimuthal angles, turned back into a spin, '
     'reproduce the direction.',
     ['inputs'], 'every unit vector, including the poles and x = 0',
     'The tests evaluate the angles at a few points of one quadrant.',
     [SP], [('angles', SP + ' Spin::theta, Spin::phi')])
prop('C04', 'Orthogonalisation and perpendicular rotation are exact',
     'Orthogonalising a vector against a spin gives the unit vector in their common plane that is orthogonal to the spin; '
     'turning a spin given by angles about the orthogonalised direction by any angle gives the spin turned by exactly this angle.',
     ['inputs'], 'every pair of non-parallel vectors, every angle',
     'One test orthogonalises one pair of vectors.',
     [SP], [('Gram-Schmidt step', SP + ' Spin::gs'), ('perpendicular rotation', SP + ' Spin::rot_perp')])
prop('C05', 'The total energy is the anisotropic Heisenberg energy with fields and drive',
     'The energy per spin reported for the whole chain is minus the sum over all bonds (periodic) of the coupling-weighted products of '
     'neighbouring spins plus the sum over sites of spin times field, where the field is the static field plus, on the subsystem only, the '
     'drive at the current time; reading it changes nothing.',
     ['inputs', 'configurations'], 'every spin configuration, coupling, static field, time, period, drive type; chain length and subsystem size within bounds',
     'The tests evaluate the energy for a few aligned configurations of one chain.',
     [SC], [('total energy', SC + ' SpinChain::total_energy2, total_energy'), ('drive', SC + ' SpinChain::h_ext')])
prop('C06', 'Subsystem and Monte-Carlo energies count exactly the subsystem terms',
     'The subsystem energy counts the bonds and field terms inside the subsystem with the drive at the current time; the Monte-Carlo '
     'energies count static fields only, over the whole ring or over the subsystem closed into a ring; each is divided by the number of '
     'terms it documents.',
     ['inputs', 'configurations'], 'every spin configuration, coupling, field, time, drive type; sizes within bounds',
     'The tests look at uniform chains where many wrong index ranges give the right number.',
     [SC], [('subsystem energy', SC + ' SpinChain::system_energy'), ('Monte-Carlo energies', SC + ' SpinChain::mc_total_energy, mc_system_energy')])
prop('C07', 'Magnetisations are plain sums of the spins of the subsystem and of the chain',
     'The subsystem magnetisation is the vector sum of the subsystem spins and the total magnetisation the vector sum of all spins.',
     ['inputs', 'configurations'], 'every spin configuration; sizes within bounds',
     'The tests sum aligned spins only.',
     [SC], [('magnetisation', SC + ' SpinChain::m, m_tot')])
prop('C08', 'The drive acts on the subsystem only, has the documented form and is periodic',
     'For each drive type the driving field at any time is the documented one (rotating, elliptic, oscillating along x, static, none), it '
     'acts on every subsystem spin and no bath spin, and it repeats after one period.',
     ['inputs', 'configurations'], 'every time, period, ellipticity and static drive vector; each drive type; sizes within bounds',
     'The tests sample the drive at one or two times.',
     [SC], [('drive', SC + ' SpinChain::h_ext')])
prop('C09', 'One time step is the second-order Suzuki-Trotter step of the equations of motion',
     'One step turns the even spins by half a step, the odd spins by a full step and the even spins by half a step about their effective '
     'fields (couplings to both neighbours minus static field minus, on the subsystem, the drive at the middle of the step), advances the '
     'clock by one step and changes nothing else.',
     ['inputs', 'configurations'], 'every spin configuration, coupling, field, time, step (any sign), drive type; even chain lengths within bounds',
     'The tests compare a few steps of one chain to stored numbers or conserved quantities.',
     [SC], [('time step', SC + ' SpinChain::update, even_omega, odd_omega, rotate_even, rotate_odd')],
     [('spins', 'directions', SC), ('clock', 'time t', SC)])
prop('C10', 'Time evolution conserves spin length and energy and can be reversed',
     'Every step keeps all spins unit vectors; without a time-dependent drive it conserves the total energy exactly, for any step size; '
     'and for every drive a step followed by a step with the opposite time step restores spins and clock.',
     ['inputs', 'configurations', 'histories'], 'every state, coupling, field, step size and drive type, hence every number of steps; even chain lengths within bounds',
     'A test watches the energy of a few runs to a loose tolerance; exact conservation for every state and step size is out of its reach.',
     [SC, SP], [('symmetric splitting', SC + ' SpinChain::update'), ('exact precession', SP + ' Spin::rotate')],
     level_note='Proved by lemmas: a half-sweep conserves energy and is invertible from any state, and the step is a palindrome of half-sweeps. ')
prop('C11', 'The field-free time step ignores static fields and nothing else',
     'The variant of the step without static fields is the same Suzuki-Trotter step with the static fields taken as zero, the drive on the '
     'subsystem included.',
     ['inputs', 'configurations'], 'every spin configuration, coupling, field, time, step, drive type; even chain lengths within bounds',
     'No test calls it with fields that would show.',
     [SC], [('time step without static field', SC + ' SpinChain::update_no_field')])
MH_WHY = 'The tests run one sweep and look at averages with wide margins; detailed balance is a statement about every state and draw.'


def mh(id, title, ham, fn, extra='', bounds=''):
    prop(id, title,
         'Each update draws one site uniformly and one direction uniform on the sphere, and accepts by the Metropolis rule at inverse '
         'temperature beta for ' + ham + ': the proposed direction is taken when it lowers that energy, and otherwise with '
         'probability exp(-beta dE). A rejected move changes nothing, an accepted one changes the drawn spin only; fields, couplings and clock stay.' + extra,
         ['inputs', 'configurations'], 'every spin configuration, coupling, static field, beta, period and random draw; sizes within bounds',
         MH_WHY, [SC], [('Metropolis update', SC + ' ' + fn)], [('spins', 'directions', SC)])


mh('C12', 'The Metropolis update samples the Gibbs ensemble of the static chain',
   'the energy of the whole chain with static fields and no drive', 'SpinChain::metropolis_update')
mh('C13', 'The lab-frame Metropolis update samples the time-averaged chain',
   'the bond energy minus sum_i S_i^z/(2 omega) over the whole chain, omega = 2 pi/tau', 'SpinChain::metropolis_update_maglab')
mh('C14', 'The rotating-frame Metropolis update samples the rotating-frame Hamiltonian',
   'the rotating-frame Hamiltonian: bonds with the in-plane couplings averaged over x and y, the drive as a static x-field on the '
   'subsystem, the frame term -omega S^z on all sites, and the 1/(16 omega) correction from in-plane anisotropy',
   'SpinChain::metropolis_update_rot_magnus')
mh('C15', 'The Magnus Metropolis update samples the leading-order Magnus Hamiltonian',
   'the leading-order Magnus Hamiltonian: bond energy minus 1/(2 omega) times, summed over subsystem sites, '
   'S^z + 2 y.(h x S), with h the exchange field of the two neighbours', 'SpinChain::metropolis_update_magnus')
mh('C16', 'The second-order Magnus update samples the second-order Magnus Hamiltonian',
   'the Magnus Hamiltonian through order 1/omega^2 of a chain driven on every site', 'SpinChain::metropolis_update_mag_full',
   ' (The subsystem is the whole chain.)')
prop('C17', 'Monte-Carlo energies of the Magnus ensembles are those that are sampled',
     'The energies reported for rotating-frame and lab-frame Monte-Carlo runs are the Hamiltonians the corresponding Metropolis updates '
     'sample, per site.',
     ['inputs', 'configurations'], 'every spin configuration, coupling and period; sizes within bounds',
     'No test evaluates these energies.',
     [SC], [('Monte-Carlo energies', SC + ' SpinChain::mc_system_energy_rot, mc_system_energy_maglab')])
prop('C18', 'A new chain carries independent disorder of the configured strength',
     'A new chain has one spin, coupling and field per site. Every coupling component is its mean (1, 1, lambda) plus jvar times a normal '
     'draw of its own; every field component is hfield, plus hs on the subsystem, plus hvar times a normal draw of its own. The clock '
     'starts at -trel, the configuration is kept, and a log file with the number of the run exists exactly when logging is on.',
     ['inputs'], 'every jvar, hvar, lambda, field, trel and normal draw; sizes within bounds',
     'The tests use chains without disorder or look at one seeded chain; which draw goes where cannot be seen in a sample.',
     [SC], [('construction', SC + ' SpinChain::new')])
prop('C19', 'The initial spins are drawn from the Gibbs distribution of a chain at beta',
     'In a new chain, and in a new Langevin chain, each spin is at an angle to its left neighbour whose cosine is distributed with Gibbs '
     'weight exp(beta cos), for every real beta (uniformly at beta = 0), in an azimuth given by a direction uniform on the sphere; all '
     'initial spins are finite unit vectors.',
     ['inputs'], 'every real beta, zero included, and every uniform draw in (0,1); short chains',
     'The tests average energies of chains at a few temperatures with wide margins and never at beta = 0.',
     [SC, LA], [('initial ensemble', SC + ' SpinChain::new'), ('initial ensemble', LA + ' SpinChainLangevin::new')])

OB = ['inputs', 'configurations']
prop('C20', 'Each log record holds the time, energies, magnetisations and probe spins',
     'Each call to log of a chain appends to its log file one line of 13 columns: time, total energy per site, subsystem energy per bond, '
     'the subsystem magnetisation per subsystem spin (x, y, z), the z magnetisation of the whole chain per site, the spin a quarter into the '
     'subsystem and the spin three quarters into it. Earlier records stay. With logging off no file is made and nothing fails, and '
     'logging never changes the chain.',
     OB, 'every state, coupling, field, drive and time; sizes within bounds',
     'No test looks at what is written; columns which are swapped or normalised by the wrong length look plausible in any one run.',
     [SC], [('log record', SC + ' SpinChain::log')], [('log file', 'run<num>.dat', SC)], ['log file'])
prop('C21', 'A snapshot lists the interior subsystem sites with their energies and spins',
     'A snapshot of a chain (log_ext) appends, for each subsystem site which is neither the first nor the last of the chain, one line of '
     '6 columns, in order: time, site, local energy (field energy minus half of the bond energies to both neighbours), spin (x, y, z); an empty line ends it.',
     OB, 'every state, coupling, field, drive and time; sizes within bounds',
     'No test looks at what is written.', [SC], [('snapshot', SC + ' SpinChain::log_ext')], [('log file', 'run<num>.dat', SC)], ['log file'])
prop('C22', 'The spectrum is the spectral weight of the spins, a value per wave vector',
     'For a chain of even length n the energy spectrum has n values; value m is the sum over the three components of the squared modulus of '
     'sum_j S_j exp(i k j) at k = 2 pi m/n - pi; hence the values add up to n squared.',
     OB, 'every spin configuration; even sizes within bounds',
     'No test evaluates it.', [SC], [('spectrum', SC + ' SpinChain::energy_spectrum')])
prop('C23', 'A new Langevin chain carries independent disorder of the configured strength',
     'A new Langevin chain has one spin, coupling and field per site. Every coupling component is its mean (1, 1, lambda) plus jvar times a normal '
     'draw of its own; every field component is hfield, plus hs on the subsystem, plus hvar times a normal draw of its own. The clock '
     'starts at -trel, the configuration is kept, and a log file with the number of the run exists.',
     ['inputs'], 'every jvar, hvar, lambda, field, trel and normal draw; sizes within bounds',
     'The tests use the default configuration; which draw goes where cannot be seen in a sample.',
     [LA], [('construction', LA + ' SpinChainLangevin::new')])
prop('C24', 'Energies and magnetisations of a Langevin chain are those of its Hamiltonian',
     'For a Langevin chain the total energy (both functions) is minus the bond energies over the whole ring plus the field energies, the '
     'drive on the subsystem included, per site; the subsystem energy is the same sum over the first ssize-1 sites and bonds, per '
     'bond; the magnetisations are plain sums of the spins of subsystem and chain.',
     OB, 'every state, coupling, field, drive and time; sizes within bounds',
     'The tests evaluate the energies of one or two aligned configurations.',
     [LA], [('energies', LA + ' SpinChainLangevin::total_energy2, total_energy, system_energy'), ('magnetisation', LA + ' SpinChainLangevin::m, m_tot')])
prop('C25', 'A Langevin step is that of an open chain damped and kicked at its ends',
     'One step turns the even spins by half a step, the odd by a full step and the even again by half a step about their effective fields in '
     'the open chain (no bond between last and first spin), the drive at the end of the step acting on the subsystem. Only the first '
     'and the last spin are damped (Landau-Lifshitz-Gilbert, rate gamma, about their own effective field) and kicked, each by '
     'a noise vector of its own, of variance 2 gamma dt/beta per component, the same in both half-steps. The clock advances by dt; nothing else changes.',
     OB, 'every state, coupling, field, noise, gamma, beta, time, step, drive type; even chain lengths within bounds',
     'The only test of the step switches the interactions off and looks at a bulk spin.',
     [LA], [('Langevin step', LA + ' SpinChainLangevin::update, even_omega, odd_omega')], [('spins', 'directions', LA)])
prop('C26', 'A Langevin log record holds energies, magnetisations and boundary term',
     'Each call to log of a Langevin chain appends one line of 8 columns: time, subsystem energy (twice), subsystem magnetisation per subsystem spin '
     '(x, y, z), z magnetisation of the chain per site, and the boundary term: the mean energy change by damping and noise at the first and '
     'last subsystem spin (2 gamma/beta omega.S - gamma |omega x S|^2, omega the open-end effective field with static field and drive) plus '
     'the power of the drive.',
     OB, 'every state, coupling, field, drive, gamma, beta and time; sizes within bounds',
     'No test evaluates the boundary term or looks at the log.',
     [LA], [('boundary term', LA + ' SpinChainLangevin::boundary_term'), ('log record', LA + ' SpinChainLangevin::log')],
     [('log file', 'run<num>.dat', LA)], ['log file'])
mh('C27', 'The Metropolis update of a Langevin chain samples the chain in zero field',
   'the bond energy of the whole ring (no field)', 'SpinChainLangevin::metropolis_update')
mh('C28', 'The Langevin Magnus update samples the leading-order Magnus Hamiltonian',
   'the leading-order Magnus Hamiltonian: bond energy minus 1/(2 omega) times, summed over subsystem sites, '
   'S^z + 2 y.(h x S), with h the exchange field of the two neighbours', 'SpinChainLangevin::metropolis_update_magnus')
for p in PR[-2:]:
    p['anchors']['files'] = [LA]
    p['anchors']['mechanism'][0]['where'] = p['anchors']['mechanism'][0]['where'].replace(SC, LA)
    p['anchors']['state'][0]['where'] = LA

MA = 'src/main.rs'
OBS = 'src/obs.rs'
RO = ['inputs', 'configurations', 'schedules']


def run(id, title, statement, text, why, fn, flag, files=(), over=RO):
    prop(id, title, statement, over, text, why, [MA, OBS],
         [('mode of the program', OBS + ' ' + fn), ('command line', MA + ' main, ' + flag)],
         [('chains', 'states and clocks of the chains made', SC)], list(files) or ['files written'])


NT = 'No test runs the program: the functions of src/obs.rs and src/main.rs are never called by a test.'
SCHED = ('each of the configured number of runs is one chain, numbered on from the configured offset, made with the configured parameters at the temperature of the '
         'command line (%s), equilibrated by 20 million Metropolis updates before any dynamics, then stepped until its clock '
         'reaches the final time and no further. %s. Afterwards config.toml says what was used, the offset advanced by the number of runs.')
RECS = 'A record is logged at the start and after every step; with strob, after every whole period only'
run('C29', 'The default run simulates as long, as often and from where configured',
    'By default ' + SCHED % ('otherwise the one for the configured energy density', RECS) + ' Records are ordinary log records.',
    'every period and temperature and every clock error up to 1e-9 of a step; numbers of runs and steps within bounds', NT, 'run_sim', 'default mode', ['log records', 'config.toml'])
run('C30', 'A run with snapshots (--ext) logs them as long and as often as configured',
    'With --ext ' + SCHED % ('otherwise the configured beta', RECS) + ' The first record is an ordinary one, all others are snapshots of the chain (log_ext).',
    'every period and temperature and every clock error up to 1e-9 of a step; numbers of runs and steps within bounds', NT, 'run_ext', '--ext', ['log records', 'config.toml'])
run('C31', 'A Langevin run simulates the subsystem as long and as often as configured',
    'With -l ' + SCHED % ('otherwise the one for the configured energy density', RECS) +
    ' The chains are Langevin chains of the size of the subsystem, with the damping given, or 1.',
    'every damping, period and temperature and every clock error up to 1e-9 of a step; numbers of runs and steps within bounds', NT, 'run_langevin', '--langevin', ['log records', 'config.toml'])
run('C32', 'A response run loses its static fields at time zero',
    'With --response each of the configured number of runs is one chain, numbered on from the offset, made as configured and equilibrated as for a '
    'simulation. Its clock starts at minus the final time; it takes ordinary steps while the time is negative and steps without static fields from '
    'then on, until the final time; the static fields are never switched on again. A record is logged at the start and after every step; with strob, at '
    'whole periods counted from time zero only. Afterwards config.toml says what was used, the offset advanced by the number of runs.',
    'every period and temperature and every clock error up to 1e-9 of a step; numbers of runs and steps within bounds', NT, 'run_sim_response', '--response', ['log records', 'config.toml'])
run('C33', 'Runs over a list of periods record the final state at each period',
    'With --n-steps, one chain per period in the list, made as configured and equilibrated by 20 million Metropolis updates, is driven at '
    'this period with steps of a hundredth of it (of 0.1 if it is 10 or more) for the number of periods given by --steps. The file evt<steps>.dat gains one '
    'line for each: period, final time, total energy, subsystem energy, subsystem magnetisation per subsystem spin, all at the final state; '
    'lines already there stay, and all lines are there when the program ends.',
    'every final state; lists of periods within bounds; every order in which the jobs of the pool get done', NT, 'run_tau, write_in_bg', '--n-steps, --steps', ['evt<steps>.dat'])
run('C34', 'Monte-Carlo runs deliver as many independent samples as asked for',
    'With --monte-carlo (--monte-carlo-magnus) exactly mc_points lines are appended to mc_live.dat, from as many chains as threads at most, each made as configured; '
    'successive samples of a chain are a million Metropolis updates (of the second-order Magnus kind) apart. A line holds total energy, Monte-Carlo subsystem '
    'energy, subsystem magnetisation per subsystem spin, and the spins a quarter and three quarters along the subsystem, all at the sample. '
    'Lines already there stay, and all lines are there when the program ends.',
    'every sampled state and temperature; numbers of samples and threads within bounds; every order in which the jobs get done', NT, 'run_mc, run_mc_magnus, write_in_bg', '--monte-carlo, --monte-carlo-magnus', ['mc_live.dat'])
run('C35', 'The Monte-Carlo profile is the mean over all samples at each site',
    'With --monte-carlo-profile mc_profile.dat holds, for each site of the whole ring, its number and the means over exactly mc_points samples, taken by at most as many chains as '
    'threads a million Metropolis updates apart, of the bond energy of the site (half of each of its two bonds) and of its spin.',
    'every sampled state and temperature; numbers of samples and threads, chain length within bounds; every order in which the jobs get done', NT, 'run_mc_profile', '--monte-carlo-profile', ['mc_profile.dat'])
run('C36', 'Dynamic profiles are means over all runs, taken every 500 periods',
    'With --dynamic-profile each of the configured number of runs, numbered on from the offset and equilibrated as for a simulation, is driven for 4000 periods. For k = 1 to 8 '
    'the file dyn_profile-<500k>-tau.dat holds, for each site of the ring, its number and the means over the runs, 500k periods into the run, of the bond energy '
    'of the site (half of each of its two bonds) and of its spin. Afterwards config.toml says what was used, the offset advanced by the number of runs.',
    'every state at the snapshots, every temperature, every clock error up to 1e-9 of a step; runs, chain length and steps within bounds', NT, 'run_dyn_profile', '--dynamic-profile', ['dyn_profile-*-tau.dat', 'config.toml'])
run('C37', 'The dynamics histogram samples each chain once, at the final time',
    'With --dynamic-histogram each of the samples asked for is the state of a new chain, made as configured and driven for the number of steps nearest to final time over step. '
    'The file dyn-hist-t-<final time>.dat gains one line for each: its number, subsystem magnetisation per subsystem spin, subsystem energy; all lines are there when '
    'the program ends. The final time printed is the one driven for.',
    'every final state and temperature; samples, threads and steps within bounds; every order in which the jobs get done', NT, 'gen_hist_dynamics, write_in_bg', '--dynamic-histogram', ['dyn-hist-t-*.dat'])
run('C38', 'A single trajectory is sampled once every period after the first thirty',
    'With --trajectory one chain, made as configured, is driven; the file hist-st-t-<final time>.dat gains, at the end of each of the periods '
    'from the 31st on, as many as samples are asked for, one line: time, subsystem magnetisation per subsystem spin, subsystem energy.',
    'every state, period and temperature and every clock error up to 1e-9 of a step; samples and steps per period within bounds', NT, 'gen_single_traj', '--trajectory', ['hist-st-t-*.dat'])
run('C39', 'Histograms compare Monte-Carlo samples with a trajectory of their energy',
    'With --histogram, hist_mc.dat gets as many samples as asked for, 10,000 Metropolis updates apart, of one chain made as configured but undriven. Metropolis updates then go on, '
    '10,000 at a time, until a state has an energy density within 0.005 of the one wanted and a magnetisation per spin (both of the whole chain) within 0.003 of zero in each direction; from the first such state on, '
    'hist_dyn.dat gets as many samples 10,000 steps apart. A line holds its number, subsystem magnetisation per subsystem spin, subsystem energy, and the spins a quarter and three quarters along the subsystem. '
    'The energy and magnetisation printed for the initial state are those of this state.',
    'every sampled state; candidates within half of the tolerances or off by more; numbers of samples within bounds', NT, 'gen_hist', '--histogram', ['hist_mc.dat', 'hist_dyn.dat'])
run('C40', 'Magnus histograms hold as many samples of the Magnus ensemble as asked for',
    'With --magnus-hist, hist_mc_magnus.dat gets as many samples as asked for of one chain made as configured, 10,000 Magnus Metropolis updates apart. A line holds '
    'its number, subsystem magnetisation per subsystem spin, subsystem energy, and the spins a quarter and three quarters along the subsystem.',
    'every sampled state and temperature; numbers of samples and chain length within bounds', NT, 'gen_hist_magnus', '--magnus-hist', ['hist_mc_magnus.dat'])
run('C41', 'Averages over runs are the means of all records of all logs',
    'With --avg, avg.dat holds, record by record, the mean of each column over all log files that have this record, whether the logs start with a header line or not and '
    'whichever of them is shorter. The logs stay as they are; nothing is simulated.',
    'every content of the logs; numbers of logs and records within bounds', NT, 'average', '--avg', ['avg.dat'], ['inputs', 'histories'])
run('C42', 'Two-point averages correlate each log with its own state at time 0',
    'With --two-point, two-point.dat holds, record by record, the time, and for each other column the mean over all log files that have this record of its product with '
    'the value in the record of time 0 of the same log, whether the logs start with a header line or not and whichever of them is shorter. The logs stay as they are; nothing is simulated.',
    'every content of the logs; numbers of logs and records within bounds', NT, 'two_point_average', '--two-point', ['two-point.dat'], ['inputs', 'histories'])
run('C43', 'Fits find the temperature at which an ensemble has the energy asked for',
    'With -f, -F, -E, -r and -D, the inverse temperature reported is, within 0.001, the one between 0.01 and 5 at which the mean energy of the ensemble is the energy asked for '
    '(the configured one for -D). The ensembles: -f the effective Hamiltonian in the rotating frame on the subsystem (field (1,0,-omega)); -F and -D the whole chain with field -omega z, and x on '
    'the subsystem; -E and -r the first-order Magnus Hamiltonians in the lab and the rotating frame; -H takes the configured temperature and the field -tau/(4 pi) z. One line is appended to betat.dat '
    '(betat-maglab.dat, betat-rot.dat, beta.dat): period, energy asked for, inverse temperature, and the ensemble means of energy and magnetisation per spin (-D: period, configured and fitted inverse temperature, the latter also printed).',
    'every energy asked for in four windows; ensembles of two states', NT, 'find_beta, find_beta2, find_betah, find_beta_maglab, find_beta_rot, get_obs*, estim_e*', '-f, -F, -E, -r, -D, -H', ['betat*.dat', 'beta.dat'], ['inputs'])
run('C44', 'The adiabatic fit finds the ensemble with the mean energy of trajectories',
    'With -A, the configured number of chains at the configured temperature is driven at the period given for 1000 periods; the mean of the subsystem energy over the periods after the hundredth, '
    'over all chains, is the energy at which the effective ensemble in the rotating frame (subsystem field (1,0,-omega), energy in the lab frame) is looked for as for -f. One line '
    'is appended to beta.dat: period, temperature at the start, inverse temperature found, ensemble means of energy and magnetisation per spin, mean energy of the trajectories; this energy and the temperature found are printed.',
    'every mean energy in a window; every order in which the jobs get done', NT, 'trajectory_mean_e, find_beta, get_obs', '--adiabatic', ['beta.dat'])
run('C45', 'No mode of the program touches the logs of earlier runs',
    'Whatever the mode, the log files of earlier runs, those with numbers below the configured offset, are the same after the program has ended as before.',
    'every mode; the small run of each within bounds; every order in which jobs get done', NT, 'all modes', 'all modes', ['<file><num>.dat'])
prop('C46', 'The temperature for an energy density gives chains of this energy density',
     'The inverse temperature which is computed for a configured energy density e is positive, and the mean energy per bond of the ensemble of initial states at '
     'this temperature, 1/beta - coth(beta), is e: within 0.001 for e from -0.99 to -0.6, within 0.02 for e up to -0.3. This holds for closed and open chains.',
     ['inputs'], 'every energy density from -0.99 to -0.3',
     'The tests compute no temperature; the iteration stops when it has settled, and how far from the solution this is depends on the energy density.',
     [SC, LA], [('iteration', SC + ' SpinChain::solve_beta'), ('open chains', LA + ' SpinChainLangevin::solve_beta')])
CF = 'src/config.rs'
prop('C47', 'A configuration file sets what it names and leaves the rest at its default',
     'Reading config.toml gives, for each of the 23 keys, the value in the file if the file names the key and the documented default otherwise, in whatever order and layout the keys are written, for '
     'closed and open chains alike; the file is left as it is. A file which is not TOML, or has a value of the wrong type or an unknown kind of drive, ends the program with an error and is not '
     'taken for a configuration.',
     ['inputs'], 'every value of every number; subsets, orders and layouts within bounds', 'No test reads a configuration file.',
     [CF, SC, LA], [('configuration', CF + ' Config, DriveType'), ('reading', SC + ' SpinChain::read_config'), ('open chains', LA + ' SpinChainLangevin::read_config')],
     observe=['the configuration returned'])
prop('C48', 'A configuration that is written to disk is the one that is read back',
     'A configuration written to config.toml, as each run does for the next one, is read back with every value unchanged. Without a config.toml the documented defaults are used and written to '
     'config.toml, and the next run reads just these.',
     ['inputs', 'histories'], 'every value of every number, every drive', 'No test writes a configuration file.',
     [CF, SC, LA], [('configuration', CF + ' Config, DriveType'), ('first run', SC + ' SpinChain::read_config'), ('open chains', LA + ' SpinChainLangevin::read_config')],
     observe=['config.toml'])
prop('C49', 'The command line is understood as documented',
     'Each option listed by --help is understood in its short and its long spelling (-x 1, -x1, --xx 1, --xx=1), alone and together with another option, sets what it stands for to the value given '
     'and nothing else: numbers are taken as written, energies may be negative, -n takes a comma-separated list, and options with a default (POINTS, GAMMA) may be given without a value, which then is the documented one. '
     'Unknown options, missing, malformed or superfluous values and repeated options are reported as errors.',
     ['inputs'], 'every number; options, spellings and combinations within bounds', 'The tests start no program with options.',
     ['src/main.rs'], [('options', 'src/main.rs Args')], observe=['the options the modes of the program get'])
prop('C50', 'The description of the configuration names every key and its default',
     'The text which --config-desc prints is a configuration file which names each of the 23 keys, and the configuration it gives is the default one.',
     ['inputs'], 'the whole text', 'No test looks at the description.',
     [CF, 'src/config-desc.toml'], [('description', CF + ' CS'), ('option', 'src/main.rs print_config_description')], observe=['sc --config-desc'])
run('C51', 'What the program prints about a run is true of it',
    'Where the default mode, --ext, -l, --response, -n, --dynamic-profile and --magnus-hist print the energy density and the inverse temperature of a run, these are the configured energy density '
    'and the inverse temperature its chains are made with; the strength of the damping printed with -l is the one the chains are given. The averages of the magnetisation and the energy which --magnus-hist '
    'prints are the means over the samples it has written. --config-desc prints the description of the configuration and does nothing else.',
    'every temperature, energy density, damping and sampled state; numbers of runs and samples within bounds', NT, 'run_sim, run_langevin, run_ext, run_response, gen_hist_magnus', 'main, print_config_description', ['standard output'])
