"""Runs one harness symbolically; prints one JSON object."""
import json
import os
import re
import sys
import time
import traceback
sys.setrecursionlimit(200000)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
import z3
from llir import Program, Unsupported
from machine import Machine, PathEnd
from terms import Term
import search


class Deadline(Exception):
    pass


class Enough(Exception):
    pass


def clean(d):
    return re.sub(r'\[[0-9a-f]{16}\]', '', d)


def run(job):
    t0 = time.time()
    seed = job['seed']
    M = Machine(Program([job['ll'][c] for c in job['crates']], [job['ll'][c] for c in ('core', 'alloc', 'std')]), seed)
    M.opts.update(job.get('opts', {}))
    M.max_paths = job.get('max_paths', 3000)
    if job.get('setup'):
        import models
        getattr(models, job['setup'])(M, job)
    deadline = t0 + job['budget']
    M.deadline = deadline
    h = job['harness']
    out = dict(harness=h, pin=M.opts.get('pin', {}), paths=0, ends={}, obligations=0, discharged=0, decisions=0,
               violations=[], undecided=[], domain=dict(conditions=0, safe=0, replayed=0), replays=0, samples=[],
               witness=0, error=None)
    dom_seen = set()
    t_dom, dslow = 0.0, 0
    fail_seen = {}
    extra_env = job.get('env')

    def rep(env, what, M=M):
        text = search.tape(M, env)
        rc, txt = search.replay(job['native'], h, text, extra_env=extra_env, prog=job.get('replayer', 'vreplay'))
        out['replays'] += 1
        bad = rc in (1, 2) or rc == 101 or rc in (134, -6, -11)
        return bad, rc, text, txt

    deferred = []
    KEEP = ('pathcond', 'signs', 'ints', 'draws', 'choices', 'taken')

    def snapshot():
        import copy
        return {k: copy.copy(getattr(M, k)) if k != 'draws' else {a: list(b) for a, b in M.draws.items()} for k in KEEP}

    def refute(f, sd, **kw):
        """look for a point of this path which breaks f, and replay it"""
        for env in search.points(M, f, sd, **kw):
            bad, rc, text, txt = rep(env, f)
            if bad:
                out['violations'].append(dict(
                    label=f[0], tape=text, rc=rc, output=txt[-1500:],
                    left=M.ctx.show(f[1])[:300] if f[1] is not None else None,
                    right=M.ctx.show(f[2])[:300] if f[2] is not None else None))
                return True
        return False

    def settle():
        """obligations no random point breaks: ask the solver"""
        t1 = time.time()
        tried = {}
        for f, sd, snap in deferred:
            for k, v in snap.items():
                setattr(M, k, v)
            n = tried[f[0]] = tried.get(f[0], 0) + 1
            late = time.time() - t1 > job.get('settle', 150) or time.time() > deadline
            if not late and n <= 6 and refute(f, sd):
                raise Enough()
            if f[1] is not None and not late:
                try:
                    d = M.ctx.sub(f[1], f[2])
                    if d.op != 'c' and M.smt_path(extra=[(d, {-1, 1})], timeout=8000) == z3.unsat:
                        out['discharged'] += 1
                        continue
                except (OverflowError, ZeroDivisionError):
                    pass
            out['undecided'].append(dict(label=f[0], taken=snap['taken'][:60]))

    def on_path(M, end):
        out['paths'] += 1
        out['ends'][end.kind] = out['ends'].get(end.kind, 0) + 1
        out['decisions'] += len(M.taken)
        if end.kind in ('assume', 'infeasible') and not M.fails:
            return
        out['obligations'] += M.nobl
        fails = list(M.fails)
        if end.kind == 'ok' and M.nobl == 0:
            fails.append(('no obligation reached', None, None))
        if end.kind in ('panic', 'ub', 'unreachable'):
            if not M.user.get('expect_panic'):
                fails.append(('%s: %s' % (end.kind, end.info), None, None))
            else:
                # this end was asked for, and is what is checked
                out['obligations'] += 1
                out['discharged'] += 1
                out['ends']['ok'] = out['ends'].get('ok', 0) + 1
                if M.vfs != M.user['files']:
                    fails.append(('a file was changed on the way to the error', None, None))
        elif M.user.get('expect_panic'):
            fails.append(('expected a panic', None, None))
        out['discharged'] += M.nobl - min(M.nobl, len(M.fails))
        for f in fails:
            key = f[0]
            st = fail_seen.setdefault(key, [0, False])
            if st[1] or st[0] > 40:
                continue
            st[0] += 1
            if not refute(f, seed + st[0], solver=False, rounds=8):
                deferred.append((f, seed + st[0], snapshot()))
            else:
                st[1] = True
            if time.time() > deadline:
                raise Deadline()
        if out['violations']:
            raise Enough()
        # definedness: divisors, square roots, logarithms, arc functions
        nonlocal t_dom, dslow
        for kind, d in M.domain:
            key = (kind, d.id, tuple(sorted(M.ints.items())))
            if key in dom_seen:
                continue
            dom_seen.add(key)
            out['domain']['conditions'] += 1
            if not M.ctx.symbols([d]):
                v = float(d.sig[0])
                if {'nonzero': abs(v) > 1e-9, 'nonneg': v > -1e-12, 'unit': abs(v) < 1 + 1e-12}.get(kind, v > 1e-9):
                    out['domain']['safe'] += 1
                    continue
            if kind == 'unit':
                one = M.ctx.const(1)
                viol = [(M.ctx.sub(d, one), {1}), (M.ctx.add(d, one), {-1})]
            elif kind == 'nonzero':
                viol = [(d, {0})]
            elif kind == 'nonneg':
                viol = [(d, {-1})]
            else:
                viol = [(d, {-1, 0})]
            for e, s in viol:
                if e.op == 'c':
                    continue
                neg = e.op == 'neg'
                if neg:
                    e, s = e.args[0], {-x for x in s}
                if e.flags and 'pos' in e.flags and e.op not in ('sqrt', 'abs') and 1 not in s:
                    continue
                cur = M.signs.get(e.id)
                if cur and not (cur[1] & s):
                    continue
                if not (cur and cur[1] <= s) and M.smt_path(extra=[(e, s)], timeout=max(300, int(3000 / (1 + dslow)))) == z3.unsat:
                    continue
                dslow += 1
                # reachable, as far as we can tell: replay such points on the real code
                nz = e if s == {0} else None
                saved = list(M.pathcond)
                t_d0 = time.time()
                if nz is None:
                    M.pathcond = saved + [(e, s)]
                try:
                    for env in search.points(M, ('definedness', None, None), seed + 5, rounds=9, n=300, near_zero=nz,
                                             solver=t_dom < 15):
                        bad, rc, text, txt = rep(env, None)
                        out['domain']['replayed'] += 1
                        if bad and not any(v['label'].startswith('undefined') for v in out['violations']):
                            out['violations'].append(dict(label='undefined operation (%s)' % kind, tape=text, rc=rc,
                                                          output=txt[-1500:], left=M.ctx.show(d)[:300], right=None))
                        if bad:
                            break
                finally:
                    M.pathcond = saved
                    t_dom += time.time() - t_d0
                break
            else:
                out['domain']['safe'] += 1
            if time.time() > deadline:
                raise Deadline()
        # a witness: a concrete point of this path, on which the real code must agree
        if (end.kind == 'ok' or M.user.get('expect_panic')) and (out['witness'] < job.get('witnesses', 6)) and not fails:
            for env in search.points(M, ('witness', None, None), seed + 77 + out['paths'], rounds=3, n=60):
                bad, rc, text, txt = rep(env, None)
                if bad:
                    out['violations'].append(dict(label='native run disagrees', tape=text, rc=rc, output=txt[-1500:],
                                                  left=None, right=None))
                elif rc == 0:
                    out['witness'] += 1
                    if len(out['samples']) < 2:
                        out['samples'].append(text[:600])
                break
        if out['violations']:
            raise Enough()
        if time.time() > deadline:
            raise Deadline()

    try:
        M.explore(lambda M: M.callname(h), on_path)
        settle()
    except Enough:
        pass
    except Deadline:
        out['error'] = 'time budget exceeded after %d paths' % out['paths']
    except Unsupported as e:
        out['error'] = 'unsupported: %s' % e
    except Exception:
        out['error'] = traceback.format_exc()[-3000:]
    if not out['error'] and out['ends'].get('ok', 0) == 0 and not out['violations']:
        out['error'] = 'vacuous: no path reaches the end'
    out['stats'] = M.ctx.stats
    out['nodes'] = len(M.ctx.nodes)
    fn = sorted({clean(M.dem(k)) for k, v in M.exec_count.items() if v})
    out['functions'] = [f for f in fn if re.search(r'\bsc::|\bvb::scbin::(?!h_run)', f)]
    out['wall'] = time.time() - t0
    return out


if __name__ == '__main__':
    job = json.load(sys.stdin)
    import threading
    threading.stack_size(512 << 20)
    res = []

    def go():
        res.append(run(job))
    t = threading.Thread(target=go)
    t.start()
    t.join()
    if not res:
        sys.exit(3)
    json.dump(res[0], sys.stdout)
