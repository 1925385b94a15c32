"""check.py <property id>: decides one property; see DESIGN.md."""
import json
import os
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as B
import props

ROOT = B.ROOT
CRATES = B.CRATES


def jobs_of(pid, tier):
    spec = props.PROPS[pid]
    out = []
    for j in spec['jobs']:
        j = dict(j)
        if j.get('tier') == 'thorough' and tier != 'thorough':
            continue
        if j.get('tier') == 'quick' and tier != 'quick':
            continue
        split = j.pop('split', None)
        if tier == 'thorough' and 'split_thorough' in j:
            split = j['split_thorough']
        j.pop('split_thorough', None)
        pins = j.pop('pins', None) or [{}]
        if 'pins_thorough' in j:
            pt = j.pop('pins_thorough')
            pins = pt if tier == 'thorough' else pins
        for k, vals in (split or {}).items():
            pins = [dict(p, **{k: v}) for p in pins for v in vals]
        for p in pins:
            o = dict(j.get('opts', {}))
            if tier == 'thorough':
                o.update(j.get('opts_thorough', {}))
            o['pin'] = dict(o.get('pin', {}), **p)
            if j.get('alts'):
                o['pin'].setdefault('alt', 0)
            out.append(dict(harness=j['harness'], opts=o, alts=j.get('alts', 0), crates=B.RUN_CRATES if spec.get('set') == 'run' else CRATES,
                            only=j.get('only'), setup=j.get('setup'), env=j.get('env'), max_paths=j.get('max_paths', 3000),
                            witnesses=j.get('witnesses', 6)))
    return out


def known():
    p = os.path.join(ROOT, 'known_findings.jsonl')
    if not os.path.exists(p):
        return []
    return [json.loads(l) for l in open(p) if l.strip() and not l.startswith(('#', 'fixed:'))]


def main():
    pid = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    budget = 640 if tier == 'quick' else 6 * 3600
    ev = os.path.join(ROOT, 'evidence', pid + '.json')
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    rdir = os.path.join(ROOT, 'evidence', 'replay', pid)
    shutil.rmtree(rdir, ignore_errors=True)
    spec = props.PROPS[pid]
    try:
        ll, native = B.build(lambda s: print(s, flush=True), spec.get('set', 'base'))
    except B.BuildError as e:
        print(e)
        return 2
    jobs = jobs_of(pid, tier)

    stop = {}          # harness -> time of the first violation

    def one(j, may_stop=False):
        h = j['harness']
        hs = h if j['alts'] else '*'
        if may_stop and hs in stop:
            return dict(harness=h, pin=j['opts'].get('pin'), skipped=True, paths=0, violations=[], undecided=[])
        j = dict(j, ll=ll, native=native, replayer='vbreplay' if spec.get('set') == 'run' else 'vreplay', seed=seed, budget=max(20, budget - (time.time() - t0)))
        p = subprocess.Popen(['python3-vt', os.path.join(HERE, 'worker.py')], text=True, stdin=subprocess.PIPE,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             env=dict(os.environ, PYTHONHASHSEED='0', OMP_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1'))
        inp = json.dumps(j)
        while True:
            try:
                so, se = p.communicate(inp, timeout=2)
                break
            except subprocess.TimeoutExpired:
                inp = None
                if may_stop and hs in stop and time.time() - stop[hs] > 25:
                    p.kill()
                    p.communicate()
                    return dict(harness=h, pin=j['opts'].get('pin'), skipped=True, paths=0, violations=[], undecided=[])
        try:
            r = json.loads(so)
        except ValueError:
            r = dict(harness=h, pin=j['opts'].get('pin'), error='worker died: ' + se[-2000:], paths=0,
                     violations=[], undecided=[])
        if j.get('only'):
            for k in ('violations', 'undecided'):
                r[k] = [v for v in r[k] if v['label'] in j['only']]
        if may_stop and r['violations']:
            stop.setdefault(hs, time.time())
        return r
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: one(j, True), jobs))
        # alternatives: other, equally right, roles of the random draws
        for h in sorted({j['harness'] for j, r in zip(jobs, res) if j['alts'] and r['violations']}):
            ks = [k for k, j in enumerate(jobs) if j['harness'] == h]
            bad = [k for k in ks if res[k]['violations']]
            at = lambda k, a: dict(jobs[k], opts=dict(jobs[k]['opts'], pin=dict(jobs[k]['opts']['pin'], alt=a)))
            first = list(ex.map(one, [at(bad[0], a) for a in range(1, jobs[ks[0]]['alts'])]))
            for a, r in enumerate(first, 1):
                if r['violations'] or r.get('error') or time.time() - t0 > 500:
                    continue
                rs = list(ex.map(one, [at(k, a) for k in ks]))
                if not any(x['violations'] or x.get('error') for x in rs):
                    for k, x in zip(ks, rs):
                        res[k] = x
                    print('%s: read with draw roles %d' % (h, a))
                    break
    errors = [(r['harness'], r.get('pin'), r['error']) for r in res if r.get('error')]
    viols, kn = [], []
    kf = known()
    for r in res:
        for v in r['violations']:
            v['harness'], v['pin'] = r['harness'], r.get('pin')
            for k in kf:
                if k['property'] == pid and k['harness'] == r['harness'] and v['label'] == k['label'] and \
                        all(('int %s %s\n' % (a, b)) in v['tape'] for a, b in k.get('ints', {}).items()):
                    kn.append(k)
                    break
            else:
                viols.append(v)
    und = [dict(u, harness=r['harness']) for r in res for u in r['undecided']]
    tot = lambda k: sum(r.get(k, 0) for r in res)
    st = lambda k: sum(r.get('stats', {}).get(k, 0) for r in res)
    samples = [dict(harness=r['harness'], pin=r.get('pin'), input=s) for r in res for s in r.get('samples', [])][:6]
    if not samples:
        samples = [dict(harness=r['harness'], pin=r.get('pin')) for r in res][:4]
    functions = sorted({f for r in res for f in r.get('functions', [])})
    cov = dict(
        states=tot('paths'), transitions=tot('decisions'), traces_validated_against_impl=tot('witness'), samples=samples,
        exhaustive=not errors,
        functions_encoded=functions, bounds=spec['bounds'], queries=st('queries'), unsat=st('unsat'), sat=st('sat'),
        unknown=st('unknown'), solver_s=round(st('solver_s'), 3), merges_proved=st('merges'),
        obligations=tot('obligations'), discharged=tot('discharged'), undecided=und,
        definedness=dict(conditions=sum(r.get('domain', {}).get('conditions', 0) for r in res),
                         proved=sum(r.get('domain', {}).get('safe', 0) for r in res),
                         points_replayed=sum(r.get('domain', {}).get('replayed', 0) for r in res)),
        native_replays=tot('replays'),
        harnesses=[dict(harness=r['harness'], pin=r.get('pin'), paths=r['paths'], ends=r.get('ends'),
                        nodes=r.get('nodes'), wall_s=round(r.get('wall', 0), 2), error=r.get('error')) for r in res],
        explanation='states = paths explored symbolically (each covers every real value of the inputs on it); '
                    'transitions = decisions on them; traces_validated = concrete points of explored paths on which '
                    'the native build of the real code was run and agreed')
    with open(ev, 'w') as f:
        json.dump(dict(property=pid, tier=tier, seed=seed, level='model_checking', coverage=cov,
                       assumptions=spec['assumptions'] + props.COMMON, wall_s=round(time.time() - t0, 2),
                       violations=len(viols)), f, indent=1)
    for k in kn:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    for u in und[:20]:
        print('UNDECIDED: %s %s (no point found where the values differ)' % (u['harness'], u['label']))
    for i, v in enumerate(viols):
        os.makedirs(rdir, exist_ok=True)
        p = os.path.join(rdir, '%s-%d.tape' % (v['harness'], i))
        with open(p, 'w') as f:
            f.write('# %s: %s\n# replay: VERIF_TAPE=%s %s/%s %s\n' % (
                v['harness'], v['label'], p, native, 'vbreplay' if spec.get('set') == 'run' else 'vreplay', v['harness']))
            f.write(v['tape'])
        print('  %s: %s' % (v['harness'], v['label']))
        print('   ', v['output'].strip().replace('\n', '\n    ')[:600])
        print('VIOLATION property=%s replay=%s' % (pid, p))
    print('%s %s: %d paths, %d obligations, %d discharged, %d queries (%.2f s solver), %d witnesses, %.1f s' % (
        pid, tier, cov['states'], cov['obligations'], cov['discharged'], cov['queries'], cov['solver_s'],
        cov['traces_validated_against_impl'], time.time() - t0))
    if viols:
        return 1
    for h, p, e in errors[:8]:
        print('UNDECIDED: %s %s: %s' % (h, p, str(e)[:1500]))
    if errors and cov['states'] == 0:
        return 2        # nothing was explored
    return 0


if __name__ == '__main__':
    sys.exit(main())
