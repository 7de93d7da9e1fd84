#!/usr/bin/env python3
"""Driver of every check in /verif.

  run.py <ID>                 run the check of one property (VERIF_SEED, VERIF_TIER=quick|thorough)
  run.py <ID> --replay FILE   rebuild what FILE needs from /repo and replay the shrunk failing case
  run.py --selfcheck          what setup_cmd runs: toolchain sanity

Exit 0: held on everything explored.  Exit 1 + "VIOLATION property=<id> replay=<path>": broken.
Exit 2: the check itself could not give an answer (e.g. its harness does not build).
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import jobs

REPO = os.environ.get('VERIF_REPO', '/repo')
WORK = os.environ.get('VERIF_WORK', os.path.join(HERE, '.work'))
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
NCPU = os.cpu_count() or 8
T0 = time.time()


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def tree_hash():
    h = hashlib.sha1()
    for root in ('include', 'src'):
        for d, dn, fn in os.walk(os.path.join(REPO, root)):
            dn.sort()
            for f in sorted(fn):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, REPO).encode())
                with open(p, 'rb') as fh:
                    h.update(fh.read())
    for f in sorted(glob.glob(os.path.join(HERE, "h", "**"), recursive=True)):
        if os.path.isfile(f):
            h.update(f.encode())
            with open(f, 'rb') as fh:
                h.update(fh.read())
    return h.hexdigest()


class BuildError(Exception):
    def __init__(self, name, out, in_library):
        self.name, self.out, self.in_library = name, out, in_library


def build(name, spec, thash):
    """Compiles one harness binary from /repo's working tree; returns its path."""
    cmds = jobs.commands(name, spec, REPO, HERE)          # list of (argv, output) ; last output is the binary
    key = hashlib.sha1((thash + json.dumps([c for c, _ in cmds])).encode()).hexdigest()[:20]
    d = os.path.join(WORK, 'b', key)
    out = os.path.join(d, name)
    if os.path.exists(out):
        return out
    tmp = d + '.tmp%d' % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    for argv, o in cmds:
        argv = [a.replace('@D@', tmp) for a in argv]
        r = sh(argv, cwd=tmp, timeout=850)
        if r.returncode != 0:
            lib = bool(re.search(r'(^|\s)%s/\S+:\d+(:\d+)?: (fatal )?error|static assertion' % re.escape(REPO), r.stdout, re.M)) \
                or bool(re.search(r'undefined reference to `.*(boost::context|fcontext)', r.stdout)) \
                or bool(re.search(r'error: (no match|use of deleted|invalid|cannot convert|could not convert|no matching|call of|.*boost::context)', r.stdout))
            shutil.rmtree(tmp, ignore_errors=True)
            raise BuildError(name, ' '.join(argv) + '\n' + r.stdout[-6000:], lib)
    shutil.rmtree(d, ignore_errors=True)
    os.rename(tmp, d)
    return out


def prune():
    b = os.path.join(WORK, 'b')
    try:
        ds = sorted((os.path.join(b, x) for x in os.listdir(b)), key=os.path.getmtime)
    except OSError:
        return
    for x in ds[:-120]:
        shutil.rmtree(x, ignore_errors=True)


def known_findings(pid):
    res = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding: property=(\S+) match=/(.*)/ (.*)$', line.strip())
            if m and m.group(1) == pid:
                res.append((m.group(2), m.group(3)))
    return res


def run_one(pid, idx, job, bins, tmpdir):
    """Runs one job; returns a result dict."""
    b = bins[job['build']]
    out = os.path.join(tmpdir, 'o%d.json' % idx)
    fo = os.path.join(tmpdir, 'f%d.txt' % idx)
    cases = job['thorough'] if TIER == 'thorough' else job['quick']
    argv = [b] + job['args'] + ['--cases', str(cases), '--seed', str(SEED * 1000003 + idx), '--workers', str(job.get('workers', NCPU)),
                                '--out', out, '--fail-out', fo, '--tmp', tmpdir,
                                '--max-wall', str(job.get('wall', 240 if TIER == 'quick' else 3000))] + job.get('xargs', [])
    env = dict(os.environ, VERIF_HERE=HERE)
    env.update(job.get('env', {}))
    t = time.time()
    try:
        r = sh(argv, env=env, cwd=tmpdir, timeout=800 if TIER == 'quick' else 7200)
    except subprocess.TimeoutExpired:
        return dict(job=job, rc=5, text='timeout of the harness itself', res=None, fail=None, argv=argv, wall=time.time() - t)
    res = None
    try:
        res = json.load(open(out))
    except Exception:
        pass
    return dict(job=job, rc=r.returncode, text=r.stdout[-3000:], res=res, fail=fo if os.path.exists(fo) else None, argv=argv, wall=time.time() - t)


def write_evidence(pid, prop, cov):
    ev = dict(property=pid, tier=TIER, seed=SEED, level=prop['level'], coverage=cov, wall_s=round(time.time() - T0, 2))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    p = os.path.join(HERE, 'evidence', pid + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(p + '.tmp', p)


def save_replay(pid, text, tag):
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%s-seed%d.txt' % (pid, tag, SEED))
    with open(p, 'w') as f:
        f.write(text)
    return p


def check(pid):
    prop = jobs.PROPS[pid]
    jl = [j for j in prop['jobs'] if (j['thorough'] if TIER == 'thorough' else j['quick']) > 0]
    names = []
    for j in jl:
        if j['build'] not in names:
            names.append(j['build'])
    th = tree_hash()
    bins, berr = {}, []
    tmpdir = os.path.join(WORK, 'run.%s.%d' % (pid, os.getpid()))
    os.makedirs(tmpdir, exist_ok=True)
    viol, errors, results = [], [], []
    try:
        with cf.ThreadPoolExecutor(max_workers=NCPU) as ex:
            futs = {n: ex.submit(build, n, jobs.BUILDS[n], th) for n in names}
            for idx, j in enumerate(jl):
                try:
                    bins[j['build']] = futs[j['build']].result()
                except BuildError as e:
                    if e not in berr:
                        berr.append(e)
        tb = time.time() - T0
        for e in berr:
            if prop.get('accepts') and e.in_library:
                p = save_replay(pid, 'build: %s\nmessage: a program written against the documented interface no longer compiles\n%s\n' % (e.name, e.out), 'build-' + e.name)
                viol.append(('a program written against the documented interface no longer compiles (%s)' % e.name, p))
            else:
                errors.append('build of %s failed:\n%s' % (e.name, e.out))
        todo = [(i, j) for i, j in enumerate(jl) if j['build'] in bins]
        par = prop.get('parallel', 1)
        if not viol:
            with cf.ThreadPoolExecutor(max_workers=par) as ex:
                futs = [ex.submit(run_one, pid, i, j, bins, tmpdir) for i, j in todo]
                stop = False
                for f in futs:
                    if stop and f.cancel():
                        continue
                    try:
                        r = f.result()
                    except cf.CancelledError:
                        continue
                    results.append(r)
                    if r['rc'] == 1 and r['res'] and r['res'].get('failed'):
                        m = r['res']['message']
                        kf = [k for k in known_findings(pid) if re.search(k[0], m + ' ' + r['res'].get('first_message', ''))]
                        if kf:
                            print('KNOWN-FINDING: property=%s %s' % (pid, kf[0][1]))
                            continue
                        txt = 'property: %s\nbuild: %s\nseed: %d\ncommand: %s\n' % (pid, r['job']['build'], SEED, ' '.join(r['argv']))
                        if r['fail']:
                            txt += open(r['fail'], errors='replace').read()
                        else:
                            txt += 'message: %s\n' % m
                        p = save_replay(pid, txt, r['job']['build'] + '-' + re.sub(r'\W+', '_', '-'.join(r['job']['args']))[-40:])
                        viol.append((m, p))
                        stop = True
                        for g in futs:
                            g.cancel()
                    elif r['rc'] != 0:
                        errors.append('%s: exit %s %s %s' % (' '.join(r['argv']), r['rc'], r['res'] and r['res'].get('harness_error_msg'), r['text']))
        # aggregate
        ev = sum(r['res']['cases'] for r in results if r['res'])
        dn = sum(r['res']['distinct_nontrivial'] for r in results if r['res'])
        samples, runs, rules = [], [], []
        for r in results:
            if not r['res']:
                continue
            q = r['res']
            if q.get('rule') and q['rule'] not in rules:
                rules.append(q['rule'])
            if len(samples) < 6:
                samples += [dict(build=r['job']['build'], args=' '.join(r['job']['args']), case=s) for s in q.get('samples', [])[:1]]
            runs.append(dict(build=r['job']['build'], args=' '.join(r['job']['args']), cases=q['cases'], nontrivial=q['nontrivial'], distinct_nontrivial=q['distinct_nontrivial'],
                             steps=q.get('steps'), wall_s=round(r['wall'], 1), cut_by_time_limit=bool(q.get('cut')), unreproduced=q.get('unreproduced'), labels=q.get('labels')))
        cov = dict(evaluations=ev, distinct_nontrivial=dn, rule=prop['rule'] + ' | ' + ' | '.join(rules), samples=samples,
                   runs=runs, builds={n: ' ; '.join(' '.join(c) for c, _ in jobs.commands(n, jobs.BUILDS[n], REPO, HERE))[:600] for n in names},
                   violations=[m for m, _ in viol], errors=[e[:500] for e in errors], build_wall_s=round(tb, 1))
        write_evidence(pid, prop, cov)
    finally:
        shutil.rmtree(tmpdir, ignore_errors=True)
        prune()
    print('%s: %d cases, %d distinct non-trivial, %.1fs (build %.1fs), tier %s seed %d' % (pid, ev, dn, time.time() - T0, tb, TIER, SEED))
    if viol:
        for m, p in viol:
            print('  ' + m)
            print('VIOLATION property=%s replay=%s' % (pid, p))
        return 1
    if errors:
        for e in errors:
            print('ERROR: ' + e)
        return 2
    return 0


def replay(pid, path):
    txt = open(path, errors='replace').read()
    m = re.search(r'^build: (\S+)', txt, re.M)
    name = m.group(1)
    try:
        b = build(name, jobs.BUILDS[name], tree_hash())
    except BuildError as e:
        print(e.out)
        print('RESULT build failed')
        return 1
    a = re.search(r'^args:(.*)$', txt, re.M)
    args = a.group(1).split() if a else []
    r = subprocess.run([b] + args + ['--replay', os.path.abspath(path)])
    return r.returncode


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == '--selfcheck':
        for t in ('g++', 'clang++'):
            r = sh([t, '--version'])
            print(r.stdout.splitlines()[0])
            if r.returncode:
                return 2
        return 0
    pid = sys.argv[1]
    os.makedirs(WORK, exist_ok=True)
    if len(sys.argv) > 3 and sys.argv[2] == '--replay':
        return replay(pid, sys.argv[3])
    return check(pid)


if __name__ == '__main__':
    sys.exit(main())
