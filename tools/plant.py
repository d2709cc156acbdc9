#!/usr/bin/env python3
"""plant.py ID CHECK... : confirm the planted bug seeded/ID in a scratch copy of /repo that is
bind-mounted over /repo in a private mount namespace (needs the privilege to unshare): applies,
builds, passes the stable tests, demo fails with it and passes without it; then run the given
checks against it (VF_REPO).  Nothing of /repo itself is touched."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def sh(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, **k)

def main():
    full = '--checks-only' not in sys.argv
    a = [x for x in sys.argv[1:] if not x.startswith('--')]
    bug, checks = a[0], a[1:]
    s = f'{V}/seeded/{bug}'
    if not checks:
        checks = [json.load(open(s + '/meta.json'))['property']]
    d = tempfile.mkdtemp(prefix='plant.', dir='/tmp')
    try:
        shutil.copytree('/repo', d + '/repo', symlinks=True)
        shutil.copytree(s, d + '/demo', ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
        r = sh(['git', '-C', d + '/repo', 'apply', s + '/patch.diff'])
        if r.returncode:
            return print(bug, 'PATCH DOES NOT APPLY', r.stderr)
        out = [bug]
        if full:
            demo = f'cd /repo && timeout 300 bash {d}/demo/demo.sh >{d}/demo.out 2>&1'
            out.append('clean-demo=%d' % sh(['bash', '-c', demo]).returncode)
            ns = lambda c: sh(['unshare', '-m', 'bash', '-c', f'mount --bind {d}/repo /repo && ' + c])
            r = ns(f'bash /opt/vp/test.sh {d}/t.json >{d}/t.log 2>&1; bash /opt/vp/build.sh > {d}/b.log 2>&1')
            out.append('build=%d' % r.returncode)
            if r.returncode:
                print(open(d + '/b.log').read()[-1500:])
            t = json.load(open(d + '/t.json'))
            miss = [x for x in json.load(open('/opt/vp/BASELINE.json'))['stable'] if x not in t['passed']]
            out.append('tests-broken=%s' % miss)
            out.append('bug-demo=%d' % ns(demo).returncode)
            print(*out, flush=True)
            print('   ', open(d + '/demo.out').read()[-300:].replace('\n', ' | '))
        for c in checks:
            e = dict(os.environ, VF_REPO=d + '/repo', VERIF_SEED='1', VERIF_TIER='quick')
            r = sh(['python3', V + '/check.py', c], env=e, cwd=V)
            print('   ', bug, c, r.returncode, [l[:300] for l in r.stdout.splitlines() if 'VIOLATION' in l][:1], flush=True)
    finally:
        shutil.rmtree(d)

main()
