#!/usr/bin/env python3
"""Builds and confirms planted bugs, and runs the checks against them in scratch copies.

plant.py make SPEC.py [ID...]     spec: SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=python source)]
plant.py matrix [ID...]           every check against every planted bug (own + all others), table on stdout
plant.py own [ID...]              only the check of the property each bug names
Scratch copies live under /tmp/plant and are removed.
"""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, 'seeded')
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg')
for k in ('VERIF_SEED', 'VERIF_TIER'):
    ENV.pop(k, None)


def sh(cmd, cwd, timeout=600, env=ENV):
    p = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def scratch():
    os.makedirs('/tmp/plant', exist_ok=True)
    d = tempfile.mkdtemp(dir='/tmp/plant')
    r = os.path.join(d, 'repo')
    shutil.copytree('/repo', r, symlinks=True)
    return d, r


def tests(repo):
    return sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'occuprob/tests'], repo)


def make(spec, only):
    s = importlib.util.spec_from_file_location('spec', spec)
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    for seed in m.SEEDS:
        if only and seed['id'] not in only:
            continue
        d, repo = scratch()
        try:
            for f, old, new in seed['edits']:
                p = os.path.join(repo, f)
                text = open(p).read()
                if text.count(old) != 1:
                    print('%-28s BAD EDIT: %d occurrences of %r' % (seed['id'], text.count(old), old[:60]))
                    break
                base = subprocess.run(['git', 'show', '468f284:' + f], cwd='/repo', capture_output=True, text=True).stdout
                lines_new = new.split('\n')
                for line in old.split('\n'):
                    if line.strip() and line not in lines_new and line not in base.split('\n') and old.strip() and line.strip() not in base:
                        print('%-28s warning: changes a line that is not original: %s' % (seed['id'], line.strip()))
                open(p, 'w').write(text.replace(old, new))
            else:
                code, diff = sh(['git', 'diff'], repo)
                out = os.path.join(d, 'seed')
                os.makedirs(out)
                open(os.path.join(out, 'patch.diff'), 'w').write(diff)
                open(os.path.join(out, 'demo.py'), 'w').write(seed['demo'].lstrip('\n'))
                open(os.path.join(out, 'demo.sh'), 'w').write(
                    '#!/bin/bash\n# cwd: the repository\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\n'
                    'scratch=$(mktemp -d)\ntrap \'rm -rf "$scratch"\' EXIT\nexport SCRATCH="$scratch" MPLCONFIGDIR="$scratch"\n'
                    'PYTHONPATH="$PWD" /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
                os.chmod(os.path.join(out, 'demo.sh'), 0o755)
                json.dump({'property': seed['property'], 'needs': seed['needs'], 'what_it_breaks': seed['breaks']},
                          open(os.path.join(out, 'meta.json'), 'w'), indent=1)
                t, tout = tests(repo)
                bad, bout = sh(['bash', os.path.join(out, 'demo.sh')], repo)
                sh(['git', 'checkout', '--', '.'], repo)
                good, gout = sh(['bash', os.path.join(out, 'demo.sh')], repo)
                apply_ok, aout = sh(['git', 'apply', '--check', os.path.join(out, 'patch.diff')], '/repo')
                ok = t == 0 and bad != 0 and good == 0 and apply_ok == 0
                print('%-28s %s' % (seed['id'], 'confirmed' if ok else 'REJECTED tests=%d demo+patch=%d demo=%d apply=%d' % (t, bad, good, apply_ok)))
                if 'Error' in bout and 'AssertionError' not in bout:
                    print('    demo with patch: ' + bout.strip().split('\n')[-1])
                if not ok:
                    print((tout[-1500:] if t else '') + (gout[-800:] if good else ''))
                else:
                    dst = os.path.join(SEEDED, seed['id'])
                    shutil.rmtree(dst, ignore_errors=True)
                    shutil.copytree(out, dst)
        finally:
            shutil.rmtree(d)


def check(prop, repo, tier='quick'):
    env = dict(ENV, RTM_REPO=repo, RTM_OUT=os.path.dirname(repo))
    code, out = sh(['./check', prop, '--tier', tier, '--seed', os.environ.get('PLANT_SEED', '1')], VERIF, 1200, env)
    ok = 'VIOLATION property=' + prop in out
    return prop, code, ok, out


def one(sid, props, workers):
    meta = json.load(open(os.path.join(SEEDED, sid, 'meta.json')))
    d, repo = scratch()
    try:
        code, out = sh(['git', 'apply', os.path.join(SEEDED, sid, 'patch.diff')], repo)
        assert code == 0, out
        with ThreadPoolExecutor(workers) as ex:
            res = list(ex.map(lambda p: check(p, repo), props or [meta['property']]))
        hit = [p for p, c, ok, _ in res if c == 1 and ok]
        odd = ['%s=%d' % (p, c) for p, c, ok, _ in res if c not in (0, 1)]
        print('%-28s %s %s by %s %s' % (sid, meta['property'], 'CAUGHT' if meta['property'] in hit else 'MISSED', ' '.join(hit) or '-', ' '.join(odd)), flush=True)
        if '-v' in sys.argv:
            for p, c, ok, o in res:
                if c:
                    print(o[-900:])
    finally:
        shutil.rmtree(d)


def matrix(only, own):
    props = [c['property'] for c in json.load(open(os.path.join(VERIF, 'MANIFEST.json')))['checks']]
    ids = [s for s in sorted(os.listdir(SEEDED)) if not only or s in only]
    if own:
        with ThreadPoolExecutor(6) as ex:
            list(ex.map(lambda s: one(s, None, 1), ids))
    else:
        for sid in ids:
            one(sid, props, 8)


if __name__ == '__main__':
    args = [a for a in sys.argv[2:] if a != '-v']
    if sys.argv[1] == 'make':
        make(args[0], args[1:])
    else:
        matrix(args, sys.argv[1] == 'own')
