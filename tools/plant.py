#!/usr/bin/env python3
"""plant.py <id> : (development) confirms a seeded change in a scratch copy of /repo:
it applies, builds, passes the stable tests, demo fails with it and passes without."""
import sys, os, subprocess, json, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main(i):
    d = os.path.join(HERE, 'seeded', i)
    r = '/tmp/rb-' + i
    sh('rm -rf %s; cp -a %s %s' % (r, os.environ.get('BASE','/repo'), r))
    try:
        x = sh('bash %s/demo.sh' % d, cwd=r)
        if x.returncode: return 'demo fails on the unchanged tree:\n' + x.stdout[-1500:]
        x = sh('git apply %s/patch.diff' % d, cwd=r)
        if x.returncode: return 'does not apply: ' + x.stdout
        x = sh('bash %s/demo.sh' % d, cwd=r)
        if not x.returncode: return 'demo does not notice the change'
        note = x.stdout[-300:]
        x = sh('. /opt/vp/env.sh; cd %s; cargo test --workspace --exclude z80emu-embedded-example --no-fail-fast --offline -- --test-threads 8 > target/vp-test.log 2>&1; python3 /opt/vp/results.py /tmp/rb-%s.json cargo:%s/target/vp-test.log' % (r, i, r), cwd=r)
        res = json.load(open('/tmp/rb-%s.json' % i)); os.unlink('/tmp/rb-%s.json' % i)
        base = json.load(open('/opt/vp/BASELINE.json'))
        return None, res, base, note
    finally:
        sh('rm -rf ' + r)
if __name__ == '__main__':
    for i in sys.argv[1:]:
        r = main(i)
        if isinstance(r, str): print(i, 'BAD', r); continue
        _, res, base, note = r
        b, p = set(base['stable']), set(res['passed'])
        print(i, 'OK' if b <= p else 'TESTS FAIL: %s' % sorted(b - p)[:5], '|', note.strip().splitlines()[-1:])
