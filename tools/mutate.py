#!/usr/bin/env python3
"""
Mutation analysis: systematically changes one place of the library, keeps the
mutants which compile and pass the existing tests, and runs the checks on those.

  mutate.py list FILE [SEED N]          the mutants (N of them, spread over the file)
  mutate.py run WORKERS FILE N SEED     results appended to /tmp/mut/results.jsonl

Everything happens in copies below /tmp/mut.
"""
import json, os, random, re, shutil, subprocess, sys, threading, queue, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MUT = '/tmp/mut'
ORDER = {
    'src/zm.cpp': ['C12', 'C13', 'C14'],
    'include/zm.h': ['C12', 'C13', 'C14', 'C10', 'C11', 'C16', 'C15', 'C03', 'C02'],
    'include/bn.h': ['C06', 'C05', 'C07', 'C09', 'C08', 'C16', 'C02', 'C01', 'C03', 'C10', 'C11', 'C15', 'C17', 'C04', 'C19', 'C14', 'C18'],
    'src/zm2.cpp': ['C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C16', 'C02', 'C01', 'C17', 'C15', 'C18'],
    'include/zm2.h': ['C04', 'C05', 'C06', 'C15', 'C14', 'C16'],
    'java/bn254_if.hpp': ['C19'],
}
SWAP = [
    (r'<=', ['<']), (r'>=', ['>']), (r'(?<![<>=!+\-*/&|^-])<(?![<=\w])', ['<=']), (r'(?<![<>=!\-])>(?![>=])', ['>=']),
    (r'==', ['!=']), (r'!=', ['==']), (r'&&', ['||']), (r'\|\|', ['&&']),
    (r'(?<![+\w])\+(?![+=])', ['-']), (r'(?<![-\w(,=<>])\s-\s', [' + ']), (r'\+=', ['-=']), (r'-=', ['+=']),
    (r'<<(?!=)', ['>>']), (r'>>(?!=)', ['<<']),
    (r'\badc\b', ['add']), (r'\bsbb\b', ['sub']), (r'\badd_rr\b', ['sub_rr']), (r'\bjc\b', ['jnc']), (r'\bjnc\b', ['jc']), (r'\bjnz\b', ['jz']), (r'\bjz\b', ['jnz']),
    (r'\bcmovc\b', ['cmovnc']), (r'\bcmovnc\b', ['cmovc']), (r'\bcmovz\b', ['cmovnz']), (r'\bcmovnz\b', ['cmovz']), (r'\bcmovs\b', ['cmovns']),
    (r'\badcx\b', ['adox']), (r'\badox\b', ['adcx']),
    (r'::add\(', ['::sub(', '::addNC(']), (r'::sub\(', ['::add(', '::subNC(']), (r'::addNC\(', ['::add(', '::subNC(']), (r'::subNC\(', ['::sub(', '::addNC(']),
    (r'::square\(', ['::mul(']), (r'::neg\(', ['::copy(']),
    (r'\ba_\b', ['b_']), (r'\bb_\b', ['a_']), (r'\bc_\b', ['a_']), (r'\bd_\b', ['c_']),
    (r'\[0\]', ['[1]']), (r'\[1\]', ['[0]', '[2]']), (r'\[2\]', ['[1]']), (r'\[3\]', ['[2]']),
    (r'\.([abc]_)\.', None),
    (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
    (r'(?<![\w.\[\"x])(\d+)(?![\w.\]\"])', ['INC', 'DEC']),
    (r'!(?=[\w(])', ['']),
    (r'\bt([0-5])\b', 'TEMP'), (r'\bT([0-5])\b', 'TEMP'),
]
SKIP = re.compile(r'^\s*(//|#|\*|/\*|static_assert|assert|throw|template|namespace|typedef|using|class|struct|friend|const_cast)|MIE_ASSERT|std::cerr|fprintf|errExit|exit\(|BENCH|L\(|put\(|printf|PUT')


def mutants(f):
    out = []
    incomment = False
    for i, l in enumerate(open('/repo/' + f, errors='replace').read().split('\n')):
        if '/*' in l:
            incomment = True
        if incomment:
            if '*/' in l:
                incomment = False
            continue
        if SKIP.search(l):
            continue
        code = l.split('//')[0]
        for pat, subs in SWAP:
            if subs is None:
                continue
            for m in re.finditer(pat, code):
                if '* 0' in code[max(0, m.start() - 6):m.end() + 4] or code[:m.start()].count('"') % 2:
                    continue
                if subs == 'TEMP':
                    n = int(m.group(1))
                    reps = [m.group(0)[0] + str(n ^ 1)]
                else:
                    reps = []
                    for s in subs:
                        if s == 'INC':
                            reps.append(str(int(m.group(1)) + 1))
                        elif s == 'DEC':
                            if m.group(1) not in ('0',):
                                reps.append(str(int(m.group(1)) - 1))
                        else:
                            reps.append(s)
                for r in reps:
                    out.append((i, code[:m.start()] + r + l[m.end():]))
        if re.match(r'^\s*[\w:.\->\[\]()]+\s*(\(.*\)|[-+*&|^]?=[^=].*|<<=.*|>>=.*);\s*$', code) and not re.match(r'^\s*(return|const|static|bool|int|size_t|Fp|auto)\b[^(]*[= ]', code):
            out.append((i, '/*del*/ ;'))
    return out


def pick(f, seed, n):
    ms = mutants(f)
    random.Random(seed).shuffle(ms)
    return ms[:n]


def sh(cmd, cwd=None, env=None, timeout=900):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        return 'timeout', ''


def prepare(w, f):
    d = '%s/w%d' % (MUT, w)
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    sh(['cp', '-a', '/repo', d + '/repo'])
    os.makedirs(d + '/verif')
    for n in ('run.py', 'plan.py', 'harness', 'known_findings.txt', 'properties.jsonl', 'MANIFEST.json'):
        sh(['cp', '-a', HERE + '/' + n, d + '/verif/'])
    s = open('/opt/vp/vp.py').read().replace('REPO = "/repo"', 'REPO = "%s/repo"' % d)
    s = s.replace('timeout=300', 'timeout=60')
    if f.startswith('java'):
        s = s.replace('VARIANTS = ["default", "snark", "java"]', 'VARIANTS = ["default", "java"]')
        s = re.sub(r'"default": \[[^\]]*\]', '"default": ["java_api"]', s, 1)
        s = s.replace('\nWANTED', '\nRUNS = [r for r in RUNS if r[0].startswith("java")]\nWANTED', 1)
    else:
        s = s.replace('VARIANTS = ["default", "snark", "java"]', 'VARIANTS = ["default", "snark"]')
        s = s.replace('"bench_test", ', '').replace('\nWANTED', '\nRUNS = [r for r in RUNS if r[0] not in ("test_zm", "bn", "bn-m0-nomulx", "bn-m1-mulx", "java-BN254Test")]\nWANTED', 1)
    open(d + '/vp2.py', 'w').write(s)
    c = open(d + '/repo/common.mk').read().replace('-O3', '-O1')
    open(d + '/repo/common.mk', 'w').write(c)
    return d


def results(d, n):
    rc, o = sh(['python3', d + '/vp%d.py' % n, 'build'], timeout=600)
    if rc:
        return 'build'
    ln = d + '/lines'
    if os.path.exists(ln):
        os.remove(ln)
    rc, o = sh(['python3', d + '/vp%d.py' % n, 'test', ln], timeout=600)
    if rc:
        return 'test run'
    res = {}
    for l in open(ln):
        a, b = l.rstrip('\n').split(' ', 1)
        res[b] = res.get(b, True) and a == 'PASS'
    stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
    ran = set(k.split('::')[0] for k in res)
    bad = [s for s in stable if s.split('::')[0] in ran and not res.get(s, False)]
    return bad[0] if bad else ''


ERR = re.compile(r'(\(\d+\): err |^err (?!=)|: ng$|^ERR\b|^NG\b|std::exception|unknown exception|terminate called)')
COMP = ['g++', '-std=gnu++11', '-O1', '-w', '-DNDEBUG', '-DMIE_ATE_USE_GMP', '-march=x86-64']
FAST = [(['./test_zm'], 0), (['./bn'], 0), (['./bn', '-m', '0', '-mulx', '0'], 0)]


def stream(cmd, cwd):
    """first error line, or why it ended badly, or ''"""
    p = subprocess.Popen(['stdbuf', '-oL'] + cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', start_new_session=True)
    t = threading.Timer(90, lambda: os.killpg(p.pid, 9))
    t.start()
    bad = ''
    try:
        for l in p.stdout:
            if ERR.search(l):
                bad = l.strip()[:80]
                break
        if bad:
            os.killpg(p.pid, 9)
        rc = p.wait()
        return bad or ('' if rc == 0 else 'exit %s' % rc)
    except ProcessLookupError:
        return bad or 'gone'
    finally:
        t.cancel()


def fast(d, f):
    """compiles and runs the main test programs only, stops at the first error"""
    o = d + '/fast'
    first = not os.path.isdir(o)
    os.makedirs(o, exist_ok=True)
    r = d + '/repo'
    objs = [('zm', 'src/zm.cpp', []), ('zm2', 'src/zm2.cpp', []), ('bn', 'test/bn.cpp', []), ('test_zm', 'test/test_zm.cpp', [])]
    ps = []
    for n, src, fl in objs:
        dep = {'src/zm.cpp': 'zm.cpp', 'src/zm2.cpp': 'zm2.cpp'}
        if not first and f.endswith('.cpp') and src != f and not getattr(fast, 'dirty', {}).get(d + n):
            continue
        if not first and f == 'include/bn.h' and n in ('zm', 'zms', 'test_zm'):
            continue
        ps.append(subprocess.Popen(COMP + fl + ['-I' + r + '/include', '-I' + r + '/src', '-I' + r + '/test', '-c', r + '/' + src, '-o', o + '/' + n + '.o'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL))
    if any([p.wait() for p in ps]):
        return 'build'
    for x, os_ in (('test_zm', ['test_zm', 'zm', 'zm2']), ('bn', ['bn', 'zm', 'zm2'])):
        rc, out = sh(['g++'] + [o + '/' + k + '.o' for k in os_] + ['-lgmpxx', '-lgmp', '-o', o + '/' + x])
        if rc:
            return 'link'
    for c, _ in FAST:
        e = stream(c, o)
        if e:
            return ' '.join(c) + ': ' + e
    return ''


def one(d, f, i, new):
    p = d + '/repo/' + f
    orig = open('/repo/' + f, errors='surrogateescape').read()
    ls = orig.split('\n')
    r = {'file': f, 'line': i + 1, 'old': ls[i].strip(), 'new': new.strip()}
    ls[i] = new
    open(p, 'w', errors='surrogateescape').write('\n'.join(ls))
    try:
        e = ('' if f.startswith('java') else fast(d, f)) or results(d, 2)
        if e:
            r['killed'] = e
            return r
        r['checks'] = {}
        env = dict(os.environ, VERIF_REPO=d + '/repo')
        for c in ORDER[f]:
            t0 = time.time()
            rc, o = sh(['python3', d + '/verif/run.py', c], env=env, timeout=600)
            v = [l for l in o.split('\n') if l.startswith('VIOLATION')]
            r['checks'][c] = [rc, round(time.time() - t0)]
            if rc == 1 and v:
                r['caught'] = c
                return r
            if rc != 0:
                r['checks'][c].append(o[-300:])
        return r
    finally:
        open(p, 'w', errors='surrogateescape').write(orig)
        b = d + '/verif/build'
        if os.path.isdir(b):
            shutil.rmtree(b)


def main():
    if sys.argv[1] == 'list':
        ms = mutants(sys.argv[2])
        print(len(ms))
        if len(sys.argv) > 3:
            for i, n in pick(sys.argv[2], int(sys.argv[3]), int(sys.argv[4])):
                print(i + 1, n)
        return
    w, f, n, seed = int(sys.argv[2]), sys.argv[3], int(sys.argv[4]), int(sys.argv[5])
    q = queue.Queue()
    done = set()
    rf = MUT + '/results.jsonl'
    os.makedirs(MUT, exist_ok=True)
    if os.path.exists(rf):
        for l in open(rf):
            r = json.loads(l)
            done.add((r['file'], r['line'], r['new']))
    for i, new in pick(f, seed, n):
        if (f, i + 1, new.strip()) not in done:
            q.put((i, new))
    lock = threading.Lock()

    def work(k):
        d = prepare(k, f)
        while True:
            try:
                i, new = q.get_nowait()
            except queue.Empty:
                break
            r = one(d, f, i, new)
            with lock:
                open(rf, 'a').write(json.dumps(r) + '\n')
        shutil.rmtree(d)
    ts = [threading.Thread(target=work, args=(k,)) for k in range(w)]
    [t.start() for t in ts]
    [t.join() for t in ts]


main()
