"""The properties, in words. `python3 engine/meta.py` writes properties.jsonl and
MANIFEST.json from this file."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = 'src/spinchain.rs'
SP = 'src/spin.rs'
LA = 'src/spinchain_langevin.rs'

PR = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), level_note=''):
    assert len(title) <= 80, title
    PR.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                                state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                                observe_at=list(observe), hook_needed=None)))
    PR[-1]['_note'] = level_note


exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'meta_props.py')).read())

NA = []
nap = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'meta_na.py')
if os.path.exists(nap):
    exec(open(nap).read())


def main():
    sys.path.insert(0, os.path.join(ROOT, 'engine'))
    import props
    na = {n['property'] for n in NA}
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in sorted(PR, key=lambda p: p['id']):
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}) + '\n')
    checks = []
    for p in sorted(PR, key=lambda p: p['id']):
        if p['id'] in na:
            continue
        assert p['id'] in props.PROPS, p['id']
        b = props.PROPS[p['id']]['bounds']
        assert b, p['id']
        checks.append(dict(
            property=p['id'], quick_cmd='python3 engine/check.py ' + p['id'],
            thorough_cmd='python3 engine/check.py %s --thorough' % p['id'],
            technique='symbolic execution of the LLVM IR of the real code; obligations decided by z3 over all real inputs '
                      'within bounds; counterexamples replayed on the native build',
            level='model_checking',
            level_note=('Bounds: %s. ' % b) + p['_note'] +
                       'Floating point is read as real arithmetic; the claim is about the formulas, not rounding.'))
    assert set(props.PROPS) <= {p['id'] for p in PR}, set(props.PROPS) - {p['id'] for p in PR}
    m = dict(version=1, setup_cmd='python3 engine/build.py', checks=checks, not_applicable=NA,
             notes='No hooks in /repo: the harness crate uses public items only. /repo carries fix: commits only.')
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
