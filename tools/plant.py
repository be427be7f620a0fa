#!/usr/bin/env python3
"""Confirm a planted bug: python3 tools/plant.py ID [PROP...]

seeded/ID/ holds patch.diff, demo.sh and meta.json.  Applies the patch to /repo, builds, runs the
stable tests, the demonstration and the checks of the given properties (default: the one in
meta.json), then restores /repo."""
import json
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(c, cwd='/repo', timeout=1000):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)


def demo(d):
    with tempfile.TemporaryDirectory() as t:
        subprocess.run('cp -a %s/. %s/ && rm -f %s/patch.diff %s/meta.json' % (d, t, t, t), shell=True)
        return sh('bash %s/demo.sh' % t)


def main(bid, props, run=True):
    d = os.path.join(HERE, 'seeded', bid)
    props = props or [json.load(open(d + '/meta.json'))['property']]
    assert not sh('git status --porcelain').stdout.strip(), '/repo is not clean'
    r = demo(d)
    print(bid, 'demo on clean tree:', r.returncode, r.stdout[-300:] + r.stderr[-300:] if r.returncode else '')
    a = sh('git apply %s/patch.diff' % d)
    if a.returncode:
        return print(bid, 'PATCH DOES NOT APPLY', a.stderr)
    try:
        b = sh('bash /opt/vp/build.sh')
        t = sh('bash /opt/vp/test.sh /tmp/o.json')
        res = json.load(open('/tmp/o.json'))
        stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
        bad = [x for x in stable if x not in res.get('passed', res)]
        r = demo(d)
        print(bid, 'build', b.returncode, 'broken stable tests', bad, 'demo with patch:', r.returncode,
              (r.stdout + r.stderr).strip().split('\n')[-1][-200:])
        for p in props if run else ():
            c = sh('VERIF_TIER=quick VERIF_SEED=1 /opt/venv/bin/python run_check.py ' + p, cwd=HERE)
            v = [x for x in c.stdout.split('\n') if x.startswith('VIOLATION')]
            print(bid, p, 'exit', c.returncode, 'CAUGHT' if c.returncode == 1 and v else 'MISSED', v[:1],
                  [x[:150] for x in c.stdout.split('\n') if x.startswith('INCONCLUSIVE')][:3], c.stderr[-300:])
            rf = os.path.join(HERE, 'tools', 'seeded.json')
            log = json.load(open(rf)) if os.path.exists(rf) else {}
            log.setdefault(bid, {})[p] = 'caught' if c.returncode == 1 and v else 'missed'
            json.dump(log, open(rf, 'w'), indent=1, sort_keys=True)
    finally:
        sh('git checkout -- .')
        sh('find /repo -name __pycache__ -type d -prune -exec rm -rf {} +')


if __name__ == '__main__':
    main(sys.argv[1], sys.argv[2:])
