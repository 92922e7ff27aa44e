#!/usr/bin/env python3
"""
Tries planted bugs of /verif/seeded in scratch copies of /repo.

  seed.py ID... [--checks own|all|none|C01,C02]

For each: applies, touches only original lines' files, builds, passes the stable
tests, demo 0 on the clean tree and nonzero with the patch; then runs the checks
against the scratch copy (VERIF_REPO) and prints which of them report it.
"""
import glob, json, os, re, shutil, subprocess, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = '/tmp/seed'


def sh(cmd, cwd=None, env=None, timeout=1800):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout)
    return p.returncode, p.stdout


def prep(name):
    d = '%s/%s' % (SEED, name)
    shutil.rmtree(d, ignore_errors=True)
    sh(['cp', '-a', '/repo', d])
    return d


def demo(bug, repo):
    t = SEED + '/demo_' + bug
    shutil.rmtree(t, ignore_errors=True)
    shutil.copytree('%s/seeded/%s' % (HERE, bug), t, ignore=shutil.ignore_patterns('*.diff', '*.patch', 'meta.json'))
    try:
        return sh(['bash', t + '/demo.sh'], cwd=repo, timeout=300)
    except subprocess.TimeoutExpired:
        return 124, 'timeout'
    finally:
        shutil.rmtree(t, ignore_errors=True)


def tests(repo):
    s = open('/opt/vp/vp.py').read().replace('REPO = "/repo"', 'REPO = "%s"' % repo)
    vp = repo + '/_build/vp_scratch.py'
    open(vp, 'w').write(s)
    rc, out = sh(['python3', vp, 'build'], cwd=repo)
    if rc:
        return 'BUILD FAILED\n' + out[-1500:]
    lines = repo + '/_build/results.lines'
    if os.path.exists(lines):
        os.remove(lines)
    sh(['python3', vp, 'test', lines], cwd=repo)
    sh(['python3', '/opt/vp/results.py', repo + '/_build/o.json', 'lines:' + lines], cwd=repo)
    o = json.load(open(repo + '/_build/o.json'))
    bad = sorted(set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - set(o['passed']))
    return 'TESTS FAIL %d: %s' % (len(bad), bad[:6]) if bad else ''


def attempt(bug, checks):
    meta = json.load(open('%s/seeded/%s/meta.json' % (HERE, bug)))
    diff = '%s/seeded/%s/patch.diff' % (HERE, bug)
    if not os.path.exists(SEED + '/clean'):
        prep('clean')
    rc, out = demo(bug, SEED + '/clean')
    if rc:
        return 'demo fails on clean (%d): %s' % (rc, out[-800:])
    d = prep('t_' + bug)
    try:
        rc, out = sh(['git', 'apply', diff], cwd=d)
        if rc:
            return 'does not apply: ' + out
        rc, out = demo(bug, d)
        if not rc:
            return 'demo passes with the patch: ' + out[-800:]
        res = 'demo %d (%s)' % (rc, out.strip().split('\n')[-1][:100])
        t = tests(d)
        if t:
            return res + ' ' + t
        res += '; tests pass'
        if checks == 'none':
            return res
        allp = [c['property'] if 'property' in c else c['property_id'] for c in json.load(open(HERE + '/MANIFEST.json'))['checks']]
        todo = [meta['property']] if checks == 'own' else allp if checks == 'all' else checks.split(',')
        for p in todo:
            rc, out = sh(['python3', HERE + '/run.py', p], env=dict(os.environ, VERIF_REPO=d))
            v = [l for l in out.split('\n') if l.startswith('VIOLATION')]
            res += '; %s %s' % (p, 'CAUGHT' if rc == 1 and v else 'quiet' if rc == 0 else 'rc=%d %s' % (rc, out[-300:]))
            if v:
                desc = [l for l in out.split('\n') if 'state' in l or 'got' in l or 'FAIL' in l][:1]
                res += ' [%s]' % (desc[0][:160] if desc else '')
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    a = sys.argv[1:]
    checks = 'own'
    if '--checks' in a:
        i = a.index('--checks'); checks = a[i + 1]; del a[i:i + 2]
    if not a:
        a = sorted(os.listdir(HERE + '/seeded'))
    for b in a:
        print(b, ':', attempt(b, checks), flush=True)
