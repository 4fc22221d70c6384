#!/usr/bin/env python3
"""Checks planted bugs in a scratch copy of /repo:  plant.py [-c] [-t] ID...

For each /verif/seeded/ID: applies patch.diff in /tmp/plant/repo, runs the stable tests there, the demo on the
clean and on the patched copy, and the property's check (plus others named in meta.json's "also") against it."""
import json, os, re, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/plant'
R = W + '/repo'


def sh(cmd, cwd=None, env=None, timeout=3600):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def prepare():
    os.makedirs(W, exist_ok=True)
    head = sh('git -C /repo rev-parse HEAD')[1].strip()
    if not os.path.isdir(R):
        sh('git clone -q /repo %s' % R)
    sh('git -C %s fetch -q origin && git -C %s checkout -q -f %s && git -C %s clean -fdq -e _build -e ext' % (R, R, head, R))
    for n in ('build.sh', 'test.sh'):
        s = open('/opt/vp/' + n).read()
        s = s.replace('/opt/vp/build.sh', W + '/build.sh').replace('/repo', R)
        open(W + '/' + n, 'w').write(s)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    prepare()
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for i in args:
        d = os.path.join(ROOT, 'seeded', i)
        meta = json.load(open(d + '/meta.json'))
        sh('git checkout -q -f . ', cwd=R)
        out = ['%-28s %s' % (i, meta['property'])]
        rc, t = sh('bash %s/demo.sh' % d, cwd=R, timeout=400)
        out.append('demo clean=%d' % rc)
        if rc:
            print(t[-1500:])
        rc, t = sh('git apply %s/patch.diff' % d, cwd=R)
        if rc:
            print(' '.join(out), 'PATCH DOES NOT APPLY', t)
            continue
        if '-t' not in sys.argv:
            rc, t = sh('bash %s/test.sh %s/out.json' % (W, W))
            try:
                o = json.load(open(W + '/out.json'))
                miss = stable - set(o['passed'])
                out.append('tests missing=%d' % len(miss))
                if miss:
                    print(t[-1500:] if len(miss) > 50 else '\n'.join(sorted(miss)[:10]))
            except Exception as e:
                out.append('tests ERROR %s %s' % (e, t[-500:]))
        rc, t = sh('bash %s/demo.sh' % d, cwd=R, timeout=400)
        out.append('demo patched=%d' % rc)
        if rc == 0 or '-v' in sys.argv:
            print(t[-1500:])
        if '-c' not in sys.argv:
            for p in [meta['property']] + meta.get('also', []):
                rc, t = sh('python3 %s/run.py %s' % (ROOT, p), env=dict(os.environ, VC_REPO=R))
                hit = 'VIOLATION property=%s' % p in t
                out.append('%s %s' % (p, 'CAUGHT' if rc == 1 and hit else 'rc=%d MISSED' % rc))
                if '-v' in sys.argv or rc not in (0, 1):
                    print(t[-1500:])
                m = re.search(r'  suite (.*)', t)
                if m and rc == 1:
                    out.append('[' + m.group(1)[:110] + ']')
        sh('git checkout -q -f . ', cwd=R)
        print(' '.join(out), flush=True)


main()
