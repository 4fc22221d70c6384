#!/usr/bin/env python3
"""Builds and runs the check of one property:  run.py C01 [--replay FILE]

Builds the harnesses of the property from /repo's current working tree (objects are cached by content
under /verif/build), runs every suite (8 at a time), merges the counts into evidence/<id>.json.
Exit 0: held on everything explored.  Exit 1 + 'VIOLATION property=<id> replay=<path>': broken.
Exit 2: the check itself could not run."""
import hashlib, json, os, resource, shutil, signal, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

REPO = os.environ.get('VC_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
TIER = 'thorough' if '--thorough' in sys.argv else os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
try:
    SEED = int(os.environ.get('VERIF_SEED', '1'))
except ValueError:
    SEED = 1
JOBS = os.cpu_count() or 8
QUICK_DEADLINE_S = 600  # no suite of a quick run explores beyond this point
HANG_S = 90          # an execution that makes no progress for this long ...
HANG_CONFIRM_S = 120  # ... is re-run alone with this limit before it is called a hang
T0 = time.time()

ENV = {k: v for k, v in os.environ.items() if not k.startswith('RC_')}
ENV.pop('CPLUS_INCLUDE_PATH', None)
ENV.pop('CPATH', None)
ENV['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=97:allocator_may_return_null=1:hard_rss_limit_mb=6000:detect_stack_use_after_return=0:max_allocation_size_mb=4096'
ENV['UBSAN_OPTIONS'] = 'halt_on_error=1:exitcode=97:print_stacktrace=0'
ENV['LC_ALL'] = 'C.UTF-8'


def die(msg):
    print('ERROR: ' + msg, file=sys.stderr)
    sys.exit(2)


def sha(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else p.encode())
        m.update(b'\0')
    return m.hexdigest()[:20]


def tree_hash(roots):
    m = hashlib.sha256()
    for root in roots:
        if os.path.isfile(root):
            files = [root]
        else:
            files = []
            for d, _, fs in os.walk(root):
                if '/_build' in d or '/.git' in d:
                    continue
                files += [os.path.join(d, f) for f in fs if f.endswith(('.h', '.hpp', '.cpp', '.cc', '.def'))]
        for f in sorted(files):
            m.update(f.encode())
            with open(f, 'rb') as fh:
                m.update(fh.read())
    return m.hexdigest()


SAN_FLAGS = {
    '': [],
    'asan': ['-fsanitize=address,bounds,null,return,unreachable,vla-bound,object-size,shift-exponent,integer-divide-by-zero',
             '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'],
}


def lib_sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, 'src')):
        out += [os.path.join(d, f) for f in fs if f.endswith('.cpp')]
    return sorted(out)


def incs(hd):
    i = []
    if hd['shim_first']:
        i += ['-I' + os.path.join(HERE, x) for x in hd['shim_first'].split()]
    if hd['variant'] == 'scripted':
        i.append('-I' + os.path.join(HERE, 'lib/shim'))
    i += ['-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(REPO, 'src'), '-I' + os.path.join(HERE, 'lib')]
    for e in ('gtest', 'gmock', 'catch', 'doctest', 'boost', 'boost_test'):
        i.append('-I' + os.path.join(REPO, 'extras', e, 'include'))
    return i


def build_all(pid, hds):
    """Returns a list of (binary, harness)."""
    th = tree_hash([os.path.join(REPO, 'include'), os.path.join(REPO, 'src'), os.path.join(REPO, 'extras')])
    lh = tree_hash([os.path.join(HERE, 'lib')])
    os.makedirs(BUILD, exist_ok=True)
    objs, links = {}, []

    def need(src, hd, opt):
        cxx = ['g++', '-std=' + hd['std'], '-w', '-g0', opt] + SAN_FLAGS[hd['san']] + incs(hd) + hd['flags'].split()
        with open(src, 'rb') as f:
            key = sha(' '.join(cxx), src, f.read(), th, lh)
        o = os.path.join(BUILD, key + '.o')
        objs[o] = cxx + ['-c', src, '-o', o + '.tmp%d.o' % os.getpid()]
        return o

    for hd in hds:
        os_ = [need(os.path.join(HERE, 'harness', hd['src']), hd, '-O1')]
        for e in hd['extra_src']:
            e, ef = e if isinstance(e, tuple) else (e, hd['flags'])
            os_.append(need(os.path.join(HERE, e), dict(hd, flags=ef), '-O1'))
        plain = dict(hd, flags=hd.get('libflags', hd['flags']))
        os_.append(need(os.path.join(HERE, 'lib/vc.cpp'), plain, '-O1'))
        if hd['variant'] == 'scripted':
            os_.append(need(os.path.join(HERE, 'lib/script.cpp'), plain, '-O1'))
        if hd['lib']:
            for s in lib_sources():
                if hd['variant'] == 'scripted' and s.endswith('/src/Random.cpp'):
                    continue
                os_.append(need(s, plain, '-O2' if s.endswith('Random.cpp') else '-O1'))
        exe = os.path.join(BUILD, pid + '_' + os.path.splitext(hd['src'])[0] + '_' + sha(*os_, hd['libs'], hd['san']))
        links.append((exe, os_, hd))

    todo = [o for o in objs if not os.path.exists(o)]
    # biggest first: harnesses, then library
    todo.sort(key=lambda o: 0 if '/harness/' in objs[o][-3] else 1)

    def comp(o):
        r = subprocess.run(objs[o], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0:
            os.replace(objs[o][-1], o)
        return o, r

    with ThreadPoolExecutor(JOBS) as ex:
        for o, r in ex.map(comp, todo):
            if r.returncode != 0:
                die('compilation failed: %s\n%s' % (' '.join(objs[o]), r.stdout[-6000:]))

    def link(t):
        exe, os_, hd = t
        if os.path.exists(exe):
            return t, None
        tmp = exe + '.tmp%d' % os.getpid()
        cmd = ['g++'] + SAN_FLAGS[hd['san']] + os_ + ['-o', tmp] + hd['libs'].split() + ['-lpthread']
        r = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0:
            os.replace(tmp, exe)
        return t, r

    with ThreadPoolExecutor(JOBS) as ex:
        for t, r in ex.map(link, links):
            if r is not None and r.returncode != 0:
                die('link failed: %s\n%s' % (t[0], r.stdout[-6000:]))
    return [(e, hd) for e, _, hd in links]


def read_live(path):
    try:
        with open(path, 'rb') as f:
            b = f.read()
        execs, n, done = struct.unpack_from('<QII', b, 0)
        n = min(n, 16384)
        ch = struct.unpack_from('<%dh' % n, b, 16) if n else ()
        return execs, done, list(ch)
    except Exception:
        return 0, 0, []


def preexec(hd):
    def f():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if not hd['san']:
            lim = 6 << 30
            resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    return f


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()


def describe_rc(rc, err):
    tail = [l for l in err.strip().splitlines() if l.strip()]
    key = [l for l in tail if 'ERROR:' in l or 'runtime error' in l or 'Assertion' in l or 'terminate' in l or 'what()' in l]
    t = (key or tail[-1:] or [''])[0]
    if rc < 0:
        return 'process died with signal %d (%s) %s' % (-rc, signal.Signals(-rc).name, t[:300])
    return 'process died with exit code %d: %s' % (rc, t[:300])


def replay_file(exe, path, limit, hd):
    err = tempfile.TemporaryFile(mode='w+')
    p = subprocess.Popen([exe, '--replay', path] + (['--thorough'] if TIER == 'thorough' else []), env=ENV,
                         stdout=subprocess.PIPE, stderr=err, text=True, preexec_fn=preexec(hd), cwd=WORK)
    try:
        out, _ = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        kill(p)
        return 'hang', ''
    err.seek(0)
    return p.returncode, out + err.read()[-3000:]


WORK = None
PID = None


STOP = False  # a violation was found: no further suites are started


def run_suite(job):
    global STOP
    r = run_suite_(job)
    if r['verdict'] == 'violation' and not any(k[0] == PID and k[1] and k[1] in r['msg'] for k in load_known()):
        STOP = True
    return r


def run_suite_(job):
    exe, hd, suite, shard, budget, tag = job
    if STOP:
        return dict(verdict='ok', msg='', suite=suite, shard=shard, executions=0, transitions=0, states=0, matched=0,
                    outcomes=0, capped=True, wall=0, samples=[], tag=tag, replay_src=None, maxdev=-1)
    if TIER == 'quick':
        budget = max(5, min(budget, QUICK_DEADLINE_S - (time.time() - T0)))
    base = os.path.join(WORK, tag)
    out, live, rep = base + '.json', base + '.live', base + '.replay'
    cmd = [exe, '--suite', suite, '--shard', str(shard), '--out', out, '--live', live, '--replay-out', rep,
           '--budget', '%.0f' % budget, '--seed', str(SEED)]
    if TIER == 'thorough':
        cmd.append('--thorough')
    errf = open(base + '.err', 'w+')
    p = subprocess.Popen(cmd, env=ENV, stdout=errf, stderr=errf, preexec_fn=preexec(hd), cwd=WORK)
    last, last_t = -1, time.time()
    hang = False
    while True:
        try:
            p.wait(timeout=0.05 if time.time() - T0 < 3 else 0.5)
            break
        except subprocess.TimeoutExpired:
            e, _, _ = read_live(live)
            now = time.time()
            if e != last:
                last, last_t = e, now
            elif now - last_t > HANG_S:
                hang = True
                kill(p)
                break
    execs, done, ch = read_live(live)
    res = None
    if os.path.exists(out):
        try:
            res = json.load(open(out))
        except Exception:
            res = None
    errf.seek(0)
    err = errf.read()
    errf.close()
    if res is not None and not hang:
        res['tag'] = tag
        res['replay_src'] = rep if os.path.exists(rep) else None
        return res
    # died or hung without a result
    if p.returncode in (3, 4) and not hang:
        return dict(verdict='error', msg='suite %s: %s' % (suite, err[-2000:]), suite=suite, tag=tag)
    msg = 'execution does not terminate' if hang else describe_rc(p.returncode, err)
    with open(rep, 'w') as f:
        f.write('suite %s\nchoices %s\n# %s\n' % (suite, ' '.join(map(str, ch)), msg))
        for l in err.splitlines()[-60:]:
            f.write('# | %s\n' % l)
    rc, txt = replay_file(exe, rep, HANG_CONFIRM_S, hd)
    confirmed = (rc == 'hang') if hang else (rc == 'hang' or rc not in (0,))
    if hang and not confirmed:
        if rc == 0:
            # merely slow (an overloaded machine): the shard ends here, its coverage is reported as capped
            return dict(verdict='ok', msg='', suite=suite, shard=shard, executions=execs, transitions=0, states=0,
                        matched=0, outcomes=0, capped=True, wall=HANG_S, samples=[], tag=tag, replay_src=None, maxdev=-1)
    if not hang and not confirmed:
        msg += '  (seen only after the earlier executions of this run)'
    if not hang and p.returncode == -signal.SIGKILL and not confirmed:
        return dict(verdict='error', msg='suite %s was killed from outside' % suite, suite=suite, tag=tag)
    return dict(verdict='violation', msg=msg, suite=suite, shard=shard, executions=execs, transitions=0, states=0,
                matched=0, outcomes=0, capped=True, wall=0, samples=[], tag=tag, replay_src=rep, maxdev=-1)


def load_known():
    """known_findings.txt: 'KNOWN-FINDING: property=<id> match=<text> :: <what fails>' lines."""
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('KNOWN-FINDING: property='):
                head, _, what = l.strip().partition(' :: ')
                pid = head.split('property=')[1].split()[0]
                m = head.split('match=')[1] if 'match=' in head else ''
                out.append((pid, m, what))
    return out


def main():
    global WORK, PID
    if len(sys.argv) < 2:
        die('usage: run.py <property id>')
    pid = sys.argv[1]
    if pid == '--setup':
        # Checks build what they need themselves (from /repo's current tree); only verify the toolchain here.
        r = subprocess.run(['g++', '--version'], capture_output=True, text=True)
        print(r.stdout.split('\n')[0])
        sys.exit(r.returncode)
    if pid not in CHECKS:
        die('no check for ' + pid)
    spec = CHECKS[pid]
    PID = pid
    only = None
    if '--suite' in sys.argv:
        only = sys.argv[sys.argv.index('--suite') + 1]
    bins = build_all(pid, spec['harnesses'])
    t_build = time.time() - T0
    if '--replay' in sys.argv:
        WORK = tempfile.mkdtemp(prefix='vc_')
        path = os.path.abspath(sys.argv[sys.argv.index('--replay') + 1])
        want = open(path).read().split('\n')[0].split()[1]
        for exe, hd in bins:
            if want + ' ' in subprocess.run([exe, '--list'], env=ENV, capture_output=True, text=True).stdout:
                rc, txt = replay_file(exe, path, 600, hd)
                print(txt, rc)
                shutil.rmtree(WORK)
                sys.exit(1 if rc != 0 else 0)
        die('suite %s not found' % want)
    WORK = tempfile.mkdtemp(prefix='vc_')
    budget = spec.get('budget', 420) if TIER == 'quick' else spec.get('thorough_budget', 3000)
    jobs = []
    for exe, hd in bins:
        r = subprocess.run([exe, '--list'], env=ENV, capture_output=True, text=True, cwd=WORK)
        if r.returncode != 0:
            # static initialisation of the code under test died
            die('cannot list suites of %s: %s' % (exe, r.stderr[-2000:]))
        for l in r.stdout.split('\n'):
            if l.strip():
                name, n = l.split()
                if only and name != only:
                    continue
                for s in range(int(n)):
                    jobs.append((exe, hd, name, s, budget, '%s.%d' % (name, s)))
    results = []
    with ThreadPoolExecutor(JOBS) as ex:
        for r in ex.map(run_suite, jobs):
            results.append(r)
    known = [k for k in load_known() if k[0] == pid]
    viol, errors, knownhit = [], [], []
    for r in results:
        if r['verdict'] == 'violation':
            k = [x for x in known if x[1] and x[1] in r['msg']]
            if k:
                knownhit.append((k[0], r))
            else:
                viol.append(r)
        elif r['verdict'] == 'error':
            errors.append(r)
    ok = [r for r in results if r['verdict'] != 'error']
    samples = []
    for r in ok:
        for s in r.get('samples', [])[:2]:
            if len(samples) < 12:
                samples.append(r['suite'] + ': ' + s)
    per = {}
    for r in ok:
        d = per.setdefault(r['suite'], dict(executions=0, transitions=0, states=0, compared=0, outcomes=0, capped=False, wall_s=0.0))
        d['executions'] += r['executions']
        d['transitions'] += r['transitions']
        d['states'] += r['states']
        d['compared'] += r['matched']
        d['outcomes'] += r['outcomes']
        d['capped'] = d['capped'] or r['capped']
        d['wall_s'] = round(d['wall_s'] + r['wall'], 2)
        if r.get('maxdev', -1) >= 0:
            d['deviation_bound'] = r['maxdev']
    cov = dict(
        states=sum(d['states'] for d in per.values()),
        transitions=sum(d['transitions'] for d in per.values()),
        traces_validated_against_impl=sum(d['compared'] for d in per.values()),
        executions=sum(d['executions'] for d in per.values()),
        exhaustive=not any(d['capped'] for d in per.values()) and not errors,
        samples=samples or ['(no execution completed)'],
        suites=per,
        rule='every execution of every suite within the bounds written in DESIGN.md was run against the code '
             'built from the current tree and compared with the reference model; states are distinct canonical '
             'states observed, transitions are operations plus enumerated decisions, traces are complete '
             'executions whose observations were compared',
    )
    for k, v in spec.get('extra_cov', {}).items():
        cov[k] = v
    ev = dict(property=pid, tier=TIER, seed=SEED, level='model_checking', coverage=cov,
              wall_s=round(time.time() - T0, 2), violations=len(viol),
              assumptions=spec.get('assumptions', []))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    print('%s [%s]: %d suites, %d executions, %d states, %d transitions, %d traces compared, build %.1fs, total %.1fs%s' % (
        pid, TIER, len(per), cov['executions'], cov['states'], cov['transitions'], cov['traces_validated_against_impl'],
        t_build, time.time() - T0, '' if cov['exhaustive'] else ' (capped)'))
    if '-v' in sys.argv:
        for k, d in per.items():
            print('   ', k, d)
    for (kid, m, what), r in knownhit:
        print('KNOWN-FINDING: property=%s %s' % (kid, what))
    rc = 0
    if viol:
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        for r in viol[:5]:
            path = os.path.join(HERE, 'replays', '%s_%s.txt' % (pid, r['tag']))
            if r.get('replay_src') and os.path.exists(r['replay_src']):
                shutil.copy(r['replay_src'], path)
            print('  suite %s: %s' % (r['suite'], r['msg'][:1500]))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        rc = 1
    elif errors:
        for r in errors:
            print('ERROR: ' + r['msg'], file=sys.stderr)
        rc = 2
    shutil.rmtree(WORK, ignore_errors=True)
    sys.exit(rc)


if __name__ == '__main__':
    main()
