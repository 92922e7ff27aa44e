#!/usr/bin/env python3
"""
Driver of the checks.

  run.py PROP [--tier quick|thorough]   decide one property
  run.py --setup                        build every harness
  run.py --replay FILE                  re-execute one reported violation
  run.py --list                         properties, harnesses, configurations

Builds the harnesses from /repo's current working tree (cached by content under
/verif/build), runs every configuration x shard of the property's explorations
on all cores, re-executes each reported state on its own before reporting it,
and writes evidence/<PROP>.json.
"""
import concurrent.futures as cf, fcntl, glob, hashlib, json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
NCPU = min(8, os.cpu_count() or 1)

BASE = ['-std=gnu++11', '-O1', '-w', '-DNDEBUG', '-DMIE_ATE_USE_GMP', '-march=x86-64', '-pthread',
        '-I%s/include' % REPO, '-I%s/src' % REPO, '-I%s' % REPO, '-I%s/harness' % HERE]
FLAV = {'n': [], 's': ['-DBN_SUPPORT_SNARK']}
LIBSRC = ['zm', 'zm2']

# configurations: (flavour, curve, mode, mulx)
CFG4 = [(f, c, m, x) for f, c in (('n', 'n'), ('s', 's1')) for m in (0, 1) for x in (0, 1)]
CFG6 = CFG4 + [('s', 's2', m, 1) for m in (0, 1)]
CFG_CURVES = [('n', 'n', 1, 1), ('s', 's1', 1, 1), ('s', 's2', 1, 1)]
CFG_ONE = [('n', 'n', 1, 1)]
CFG_TWO = [('n', 'n', 1, 1), ('s', 's1', 1, 1)]

# property -> list of (harness, configurations quick, configurations thorough, shards quick, shards thorough, extra args)
PLAN = {}
for _p in ('C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C16'):
    PLAN[_p] = [('h_field', CFG4, CFG6, 1, 4, ['--prop', _p])]
exec(open(os.path.join(HERE, 'plan.py')).read())


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', **kw)


def tree_hash():
    h = hashlib.sha256()
    fs = []
    for d in ('include', 'src', 'java'):
        for r, _, names in os.walk(os.path.join(REPO, d)):
            fs += [os.path.join(r, n) for n in names if n.endswith(('.h', '.hpp', '.cpp', '.i'))]
    fs += glob.glob(os.path.join(HERE, 'harness', '*'))
    for f in sorted(fs):
        h.update(f.encode()); h.update(b'\0'); h.update(open(f, 'rb').read()); h.update(b'\0')
    h.update(repr((BASE, FLAV, LIBSRC)).encode())
    h.update(sh(['g++', '--version']).stdout.encode())
    return h.hexdigest()[:20]


class BuildError(Exception):
    pass


def build(needs):
    """needs: set of (harness, flavour) -> dict to executable"""
    d = os.path.join(BUILD, tree_hash())
    os.makedirs(d, exist_ok=True)
    out = {}
    with open(os.path.join(BUILD, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        for o in os.listdir(BUILD):  # results of other trees
            p = os.path.join(BUILD, o)
            if os.path.isdir(p) and p != d and time.time() - os.stat(p).st_mtime > 3600:
                shutil.rmtree(p, ignore_errors=True)
        jobs = []
        todo = [(h, f) for h, f in sorted(needs) if not os.path.exists('%s/%s-%s' % (d, h, f))]
        for f in sorted(set(f for _, f in todo)):
            for s in LIBSRC:
                o = '%s/%s-%s.o' % (d, s, f)
                if not os.path.exists(o):
                    jobs.append((o, ['g++'] + BASE + FLAV[f] + ['-O2', '-c', '%s/src/%s.cpp' % (REPO, s)]))
        for h, f in todo:
            o = '%s/%s-%s.o' % (d, h, f)
            if not os.path.exists(o):
                jobs.append((o, ['g++'] + BASE + FLAV[f] + HARNESS_FLAGS.get(h, []) + ['-c', '%s/harness/%s.cpp' % (HERE, h)]))

        def comp(j):
            o, cmd = j
            r = sh(cmd + ['-o', o + '.tmp'])
            if r.returncode:
                return 'compilation failed: %s\n%s' % (' '.join(cmd), r.stderr[-4000:])
            os.rename(o + '.tmp', o)
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for e in ex.map(comp, jobs):
                if e:
                    raise BuildError(e)
        for h, f in todo:
            x = '%s/%s-%s' % (d, h, f)
            r = sh(['g++', '-pthread', '-rdynamic', '-Wl,-z,now', '%s/%s-%s.o' % (d, h, f)] + ['%s/%s-%s.o' % (d, s, f) for s in LIBSRC] + ['-lgmpxx', '-lgmp', '-ldl', '-o', x + '.tmp'])
            if r.returncode:
                raise BuildError('link failed\n' + r.stderr[-4000:])
            os.rename(x + '.tmp', x)
        for h, f in needs:
            out[h, f] = '%s/%s-%s' % (d, h, f)
    return out


def cfgname(c):
    return 'curve=%s mode=%s mulx=%s' % (c[1], c[2], c[3])


def run_job(job, timeout):
    fd, out = tempfile.mkstemp(prefix='mc')
    os.close(fd)
    try:
        t0 = time.time()
        try:
            r = sh(job['cmd'] + ['--out', out], timeout=timeout)
            rc, err = r.returncode, (r.stdout[-500:] + r.stderr[-1500:])
        except subprocess.TimeoutExpired:
            rc, err = 'timeout', ''
        lines = []
        for l in open(out, errors='replace'):
            try:
                lines.append(json.loads(l))
            except ValueError:
                pass
        return rc, err, lines, time.time() - t0
    finally:
        os.unlink(out)


def read_known(prop):
    res = []
    f = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith('finding: property=%s ' % prop):
                rest = l.split(' ', 2)[2]
                key, what = rest.split(' ', 1)
                res.append((key[len('at='):], what))
    return res


def main():
    a = sys.argv[1:]
    if a and a[0] == '--setup':
        needs = set((h, c[0]) for plan in PLAN.values() for (h, q, t, _, _, _) in plan for c in q)
        build(needs)
        return 0
    if a and a[0] == '--list':
        for p in sorted(PLAN):
            for e in PLAN[p]:
                print(p, e[0], len(e[1]), 'configurations', ' '.join(e[5]))
        return 0
    if a and a[0] == '--replay':
        d = json.load(open(a[1]))
        exes = build({(d['harness'], d['flavour'])})
        cmd = [exes[d['harness'], d['flavour']]] + d['args'] + d['select']
        print(' '.join(cmd))
        r = sh(cmd)
        print(r.stdout, r.stderr)
        return 1 if '"fail"' in r.stdout else 0
    prop = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    budget = 840 if tier == 'quick' else 24 * 3600
    t0 = time.time()
    plan = PLAN[prop]
    needs = set()
    jobs = []
    for h, q, t, sq, st, extra in plan:
        n = sq if tier == 'quick' else st
        for c in (q if tier == 'quick' else t):
            needs.add((h, c[0]))
            for i in range(n):
                jobs.append({'h': h, 'c': c, 'args': ['--tier', tier, '--curve', c[1], '--mode', str(c[2]), '--mulx', str(c[3])] + extra, 'shard': ['--shard', str(i), '--nshard', str(n)]})
    try:
        exes = build(needs)
    except BuildError as e:
        print('ERROR: the harness does not build against the current tree')
        print(e)
        return 2
    tb = time.time() - t0
    for j in jobs:
        j['cmd'] = [exes[j['h'], j['c'][0]]] + j['args'] + j['shard']
    # long jobs (other shards, other curves) are interleaved
    res = []
    with cf.ThreadPoolExecutor(NCPU) as ex:
        futs = {ex.submit(run_job, j, budget): j for j in jobs}
        for f in cf.as_completed(futs):
            res.append((futs[f], f.result()))
    st = steps = traces = ndom = 0
    outcomes, samples, perdom, fails, errors, exh = {}, [], {}, [], [], True
    for j, (rc, err, lines, sec) in sorted(res, key=lambda x: ' '.join(x[0]['args'] + x[0]['shard'])):
        nd = 0
        for l in lines:
            if 'domain' in l:
                nd += 1
                ndom += 1
                st += l['states']; steps += l['steps']; traces += l['traces']
                k = perdom.setdefault(l['domain'], [0, 0])
                k[0] += l['states']; k[1] += l['steps']
                if 'fail' in l:
                    fails.append((j, l))
            elif 'outcome' in l:
                outcomes[l['outcome']] = outcomes.get(l['outcome'], 0) + l['n']
            elif 'sample' in l:
                if len(samples) < 24:
                    samples.append('%s: %s' % (cfgname(j['c']), l['sample']))
        if rc != 0 or nd == 0:
            errors.append('%s: exit %s, %d domains: %s' % (' '.join(j['cmd']), rc, nd, err))
    # every failure is executed again, alone, before it is reported
    known = read_known(prop)
    seenfind = set()
    confirmed, unconfirmed, byname = [], [], {}
    for j, l in fails:
        key = (j['c'][1], l['domain'])
        if key in byname or len(confirmed) >= 12 or (confirmed and time.time() - t0 > budget / 2):
            continue
        byname[key] = 1
        where = '%s|%s:%s' % (j['c'][1], l['domain'], l['state'])
        # the state alone; the whole domain (a history of calls); all that the process had done before it
        for sel in (['--only', '%s:%s' % (l['domain'], l['state'])], ['--domain', l['domain']], j['shard']):
            if sel is j['shard'] and prop == 'C18':
                again = []
                break
            rc, err, lines, sec = run_job({'cmd': [exes[j['h'], j['c'][0]]] + j['args'] + sel}, max(30, min(400, budget + 30 - (time.time() - t0))))
            again = [x for x in lines if 'fail' in x and (sel is not j['shard'] or (x['domain'], x['state'], x['fail']) == (l['domain'], l['state'], l['fail']))]
            if again:
                break
        if not again:
            unconfirmed.append('%s %s: %s' % (cfgname(j['c']), l['domain'], l['fail']))
            continue
        k = [w for kk, w in known if kk == where]
        if k:
            seenfind.add(where)
            continue
        confirmed.append((j, l, again[0], sel))
    for kk, w in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, w))
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    for old in glob.glob(os.path.join(HERE, 'replays', prop + '-*.json')):
        os.unlink(old)
    for i, (j, l, ag, sel) in enumerate(confirmed):
        p = os.path.join(HERE, 'replays', '%s-%d.json' % (prop, i))
        json.dump({'property': prop, 'harness': j['h'], 'flavour': j['c'][0], 'config': cfgname(j['c']), 'args': j['args'], 'select': sel,
                   'domain': l['domain'], 'state': l['state'], 'what': ag['fail'], 'replay_with': 'python3 run.py --replay %s' % p}, open(p, 'w'), indent=1)
        print('%s, %s: %s' % (cfgname(j['c']), l['domain'], ag['fail'][:600]))
        print('VIOLATION property=%s replay=%s' % (prop, p))
    wall = time.time() - t0
    cov = {'states': st, 'transitions': steps, 'traces_validated_against_impl': traces, 'samples': samples or ['(none recorded)'],
           'exhaustive': not errors and not fails,
           'domains': len(perdom), 'domain_runs': ndom, 'configurations': sorted(set(cfgname(j['c']) for j in jobs)),
           'outcomes': outcomes, 'per_domain': {k: {'states': v[0], 'transitions': v[1]} for k, v in sorted(perdom.items())},
           'build_s': round(tb, 2)}
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': LEVEL.get(prop, 'model_checking'), 'coverage': cov,
          'assumptions': ASSUME.get(prop, []) + ASSUME['*'], 'wall_s': round(wall, 2), 'violations': len(confirmed)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    tmp = os.path.join(HERE, 'evidence', '.%s.tmp' % prop)
    json.dump(ev, open(tmp, 'w'), indent=1)
    os.rename(tmp, os.path.join(HERE, 'evidence', prop + '.json'))
    print('%s %s: %d states, %d transitions, %d traces, %d domains x configurations, %.1f s' % (prop, tier, st, steps, traces, ndom, wall))
    if confirmed:
        return 1
    if errors or unconfirmed:
        for e in errors + unconfirmed:
            print('ERROR:', e)
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
