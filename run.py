#!/usr/bin/env python3
"""Builds and runs the checks.

  run.py setup                 build everything (all properties) from /repo's tree
  run.py C01 [--tier T]        run one check (VERIF_TIER, VERIF_SEED from the environment)
  run.py C01 --replay FILE     run one recorded failing case again
Build results are cached in .build by content, never by time.
"""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')  # another tree only for trials while developing
B = os.path.join(V, '.build')
NCPU = os.cpu_count() or 8

# property -> (quick cases, thorough cases, extra driver options)
CFG = json.load(open(os.path.join(V, 'budget.json')))
PROPS = sorted(os.path.basename(p)[:-4] for p in glob.glob(V + '/props/C*.cpp'))

INC = ['-I' + REPO, '-I' + REPO + '/src']
SAN = {
    'asan': ['-fsanitize=address,undefined', '-fno-sanitize=alignment,vptr', '-fno-sanitize-recover=all'],
    'tsan': ['-fsanitize=thread', '-D_GLIBCXX_EXTERN_TEMPLATE=0'],
    'fuzz': ['-fsanitize=address,undefined', '-fno-sanitize=alignment,vptr', '-fno-sanitize-recover=all'],
}
LIBEXTRA = {'asan': ['-fsanitize-coverage=inline-8bit-counters'], 'tsan': [], 'fuzz': ['-fsanitize=fuzzer-no-link']}
LIBS = ['-lcrypto', '-lssl', '-lsodium', '-lresolv', '-lpthread', '-ldl']


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b'\0')
    return h.hexdigest()[:32]


def read(f):
    with open(f, 'rb') as fh: return fh.read()


def tree(patterns):
    fs = sorted({f for p in patterns for f in glob.glob(p, recursive=True) if os.path.isfile(f)})
    return sha(*[x for f in fs for x in (f, read(f))])


class Build:
    def __init__(self, cxx='clang++'):
        self.cxx = cxx
        self.repo_h = tree([REPO + '/src/**/*.h', REPO + '/src/**/*.hpp', REPO + '/src/**/*.hxx', REPO + '/src/**/*.inc'])
        self.own_h = tree([V + '/engine/*.hpp', V + '/model/*.hpp', V + '/model/*.inc', V + '/props/*.hpp'])
        self.ver = subprocess.run([cxx, '--version'], capture_output=True).stdout
        os.makedirs(B + '/obj', exist_ok=True); os.makedirs(B + '/bin', exist_ok=True)

    def obj(self, src, flags, headers):
        cmd = [self.cxx] + flags + ['-c', src]
        key = sha(self.ver, ' '.join(cmd), read(src), headers)
        return key, cmd

    def compile(self, jobs):
        """jobs: list of (key, cmd). Compiles what is missing."""
        todo = {k: c for k, c in jobs if not os.path.exists(f'{B}/obj/{k}.o')}
        def one(kc):
            k, c = kc; tmp = f'{B}/obj/{k}.{os.getpid()}.tmp.o'
            r = subprocess.run(c + ['-o', tmp], capture_output=True, text=True)
            if r.returncode: return (c[-1], r.stderr)
            os.replace(tmp, f'{B}/obj/{k}.o'); return None
        with cf.ThreadPoolExecutor(NCPU) as ex:
            bad = [e for e in ex.map(one, sorted(todo.items(), key=lambda kc: 'props' not in kc[1][-1])) if e]
        if bad: raise RuntimeError('\n'.join(f'{s}:\n{e}' for s, e in bad)[:6000])

    def plan(self, prop, flavour):
        clang = self.cxx.startswith('clang')
        san = list(SAN[flavour])
        if not clang: san = [f.replace(',vptr', '') for f in san]
        base = ['-O1', '-g', '-w', '-pthread'] + san
        lib = ['-std=c++11'] + base + ['-DHAS_RES_NINIT'] + INC + (LIBEXTRA[flavour] if clang else [])
        own = ['-std=c++17'] + base + ['-DHAS_RES_NINIT'] + INC + (['-fsanitize=fuzzer-no-link'] if flavour == 'fuzz' else [])
        jobs = [self.obj(f, lib, self.repo_h) for f in sorted(glob.glob(REPO + '/src/**/*.cpp', recursive=True))]
        if prop == 'C28':
            jobs.append(self.obj(REPO + '/tools/src/main.cpp', lib + ['-Dmain=dkimtool_main'], self.repo_h + tree([REPO + '/tools/src/*.hpp', REPO + '/tools/src/*.h'])))
        hh = self.own_h + self.repo_h
        eng = ['pbt', 'clock', 'guard'] + (['fuzz'] if flavour == 'fuzz' else ['main'])
        jobs += [self.obj(f'{V}/engine/{e}.cpp', own, self.own_h) for e in eng]
        jobs += [self.obj(f'{V}/model/ref.cpp', own, self.own_h), self.obj(f'{V}/model/lib.cpp', own, hh), self.obj(f'{V}/props/{prop}.cpp', own, hh)]
        link = [self.cxx] + san + (['-fsanitize=fuzzer'] if flavour == 'fuzz' else []) + ['-rdynamic', '-pthread']
        return jobs, link

    def link(self, prop, flavour, jobs, link):
        key = sha(prop, flavour, ' '.join(link), *[k for k, _ in jobs])
        out = f'{B}/bin/{prop}-{flavour}-{key}'
        if not os.path.exists(out):
            for old in glob.glob(f'{B}/bin/{prop}-{flavour}-*'):
                try: os.unlink(old)
                except OSError: pass
            tmp = out + f'.{os.getpid()}.tmp'
            r = subprocess.run(link + [f'{B}/obj/{k}.o' for k, _ in jobs] + LIBS + ['-o', tmp], capture_output=True, text=True)
            if r.returncode: raise RuntimeError(r.stderr[:4000])
            os.replace(tmp, out)
        return out

    def build(self, prop, flavour):
        jobs, link = self.plan(prop, flavour)
        self.compile(jobs)
        return self.link(prop, flavour, jobs, link)


def flavour_of(prop): return 'tsan' if prop == 'C25' else 'asan'


def build(prop, flavour):
    try: return Build('clang++').build(prop, flavour)
    except RuntimeError as e:
        if flavour == 'fuzz': raise
        sys.stderr.write(f'clang++ build failed, trying g++\n{e}\n')
        return Build('g++').build(prop, flavour)


def setup():
    b = Build(); plans = []
    for p in PROPS: plans.append((p, flavour_of(p)) + b.plan(p, flavour_of(p)))
    b.compile([j for _, _, jobs, _ in plans for j in jobs])
    with cf.ThreadPoolExecutor(NCPU) as ex: list(ex.map(lambda t: b.link(*t), plans))
    # drop objects of earlier trees
    live = {k for _, _, jobs, _ in plans for k, _ in jobs}
    for f in glob.glob(B + '/obj/*.o'):
        if os.path.basename(f)[:-2] not in live: os.unlink(f)
    print(f'built {len(plans)} checks')


def harvest(path):
    """Numbers and short strings of the sources: seeds for sizes and words of the generators."""
    nums, strs = set(), set()
    for f in sorted(glob.glob(REPO + '/src/**/*.[ch]pp', recursive=True)):
        t = open(f, encoding='utf-8', errors='replace').read()
        t = re.sub(r'/\*.*?\*/', ' ', t, flags=re.S); t = re.sub(r'(?m)(?<![:"])//.*$', ' ', t)
        for m in re.finditer(r'"((?:[^"\\\n]|\\.)*)"', t):
            try: s = m.group(1).encode().decode('unicode_escape')
            except Exception: continue
            if 1 <= len(s) <= 32 and s.count(' ') <= 2 and '%' not in s and not s.endswith('.hpp') and not s.endswith('.h'): strs.add(s)
        t = re.sub(r'"(?:[^"\\\n]|\\.)*"', ' ', t)
        for m in re.finditer(r'\b(0[xX][0-9a-fA-F]+|\d+)\b', t):
            v = int(m.group(1), 0) if not re.match(r'0\d', m.group(1)) else int(m.group(1), 8 if re.match(r'^[0-7]+$', m.group(1)) else 10)
            if 16 <= v <= 70000: nums.add(v)
    with open(path, 'w') as o:
        for n in sorted(nums): o.write(f'N {n}\n')
        for s in sorted(strs): o.write('S ' + s.encode('latin-1', 'replace').hex() + '\n')


def run(cmd, timeout, env=None):
    """Runs cmd in its own session, all of which is ended at the timeout."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', start_new_session=True, env=env)
    try: out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); out, err = p.communicate(); return None, out, err
    finally:
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
    return p.returncode, out, err


def known(prop):
    r = []
    f = V + '/known_findings.txt'
    if os.path.exists(f):
        for l in open(f):
            if l.startswith(f'finding: property={prop} '): r.append(l[len('finding: '):].strip())
    return r


def fuzz(prop, seed, out, seconds, dictf, driver):
    """Coverage-guided search with libFuzzer over the same property; returns VIOLATION lines."""
    exe = build(prop, 'fuzz')
    arts = out + '/art'; os.makedirs(arts, exist_ok=True); corp = out + '/corpus'; os.makedirs(corp, exist_ok=True)
    procs = []
    for i in range(NCPU):
        log = open(f'{out}/fuzz{i}.log', 'w')
        procs.append(subprocess.Popen([exe, corp, f'-artifact_prefix={arts}/{i}-', f'-seed={seed * 100 + i + 1}', f'-max_total_time={seconds}', '-timeout=25', '-rss_limit_mb=2500', '-max_len=8192', '-len_control=20', '-reload=5', '-print_final_stats=1', '-verbosity=0', '-detect_leaks=0'],
                                      stdout=log, stderr=subprocess.STDOUT, start_new_session=True, cwd=out))
    end = time.time() + seconds + 120
    for p in procs:
        try: p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired: os.killpg(p.pid, signal.SIGKILL); p.wait()
    execs = 0
    for i in range(NCPU):
        t = open(f'{out}/fuzz{i}.log', errors='replace').read()
        m = re.search(r'stat::number_of_executed_units:\s*(\d+)', t)
        if m: execs += int(m.group(1))
    viol = []; fr = V + '/replays'
    for a in sorted(glob.glob(arts + '/*')):
        rc, o, e = run([driver, '--dict', dictf, '--bytes', a, '--replaydir', fr, '--out', out], 300)
        if rc == 1: viol.append(o); break
    return execs, len(os.listdir(corp)), viol


def check(prop, tier, seed):
    t0 = time.time(); cfgp = CFG.get(prop, CFG['default'])
    exe = build(prop, flavour_of(prop)); tb = time.time() - t0
    out = tempfile.mkdtemp(prefix=f'verif-{prop}-')
    try:
        dictf = out + '/dict'; harvest(dictf)
        cases = cfgp['quick'] if tier == 'quick' else cfgp['thorough']
        cmd = [exe, '--seed', str(seed), '--cases', str(cases), '--workers', '8', '--out', out, '--replaydir', V + '/replays', '--dict', dictf] + cfgp.get('args', [])
        cmd += ['--maxwall', '150' if tier == 'quick' else '1500']
        rc, o, e = run(cmd, 600 if tier == 'quick' else 3000)
        sys.stderr.write(e[-4000:])
        res = {}
        if os.path.exists(out + '/result.json'): res = json.load(open(out + '/result.json'))
        fz = None; text = o
        if rc in (0, 3) and tier == 'thorough' and prop != 'C25' and cfgp.get('fuzz', True):
            ex, nc, viol = fuzz(prop, seed, out, cfgp.get('fuzz_seconds', 300), dictf, exe)
            fz = {'libfuzzer_executions': ex, 'libfuzzer_corpus': nc}
            res['evaluations'] = res.get('evaluations', 0) + ex
            if viol: text += viol[0]; rc = 1
        for k in known(prop): print('KNOWN-FINDING: ' + k)
        labels = res.get('labels', {})
        cov = {'evaluations': res.get('evaluations', 0), 'distinct_nontrivial': res.get('distinct_nontrivial', 0), 'rule': res.get('rule', ''),
               'samples': res.get('samples', [])[:4], 'case_classes': {k: v for k, v in labels.items() if not k.startswith('engine:')},
               'search': {'random': labels.get('engine:random', 0), 'mutated_from_coverage_corpus': labels.get('engine:mutated', 0), 'nontrivial_cases': labels.get('engine:nontrivial', 0),
                          'library_coverage_counters': res.get('coverage_counters', 0), 'coverage_features_best_worker': res.get('coverage_features', 0), 'build_seconds': round(tb, 1)}}
        if fz: cov['search'].update(fz)
        if rc == 3: cov['unreproducible_failure'] = 'one case failed once and not again; not reported'
        ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov, 'assumptions': ASSUME, 'wall_s': round(time.time() - t0, 2), 'violations': 1 if rc == 1 else 0}
        while len(json.dumps(ev)) > 60000 and cov['samples']: cov['samples'].pop()
        os.makedirs(V + '/evidence', exist_ok=True)
        json.dump(ev, open(f'{V}/evidence/{prop}.json', 'w'), indent=1)
        if rc == 1: print(text, end=''); return 1
        if rc in (0, 3): print(f'{prop}: held on {cov["evaluations"]} cases, {cov["distinct_nontrivial"]} distinct non-trivial'); return 0
        sys.stderr.write(f'driver ended with {rc}\n{o[-2000:]}\n'); return 2
    finally:
        shutil.rmtree(out, ignore_errors=True)


ASSUME = ['OpenSSL, libsodium and the C++ runtime are correct', 'the reference model in /verif/model states RFC 6376/8463/8617 correctly', 'search over generated cases: no claim about cases not generated']


def main():
    a = sys.argv[1:]
    if not a: print(__doc__); return 2
    if a[0] == 'setup': setup(); return 0
    if a[0] == 'build':
        for p in a[1:]: print(build(p, flavour_of(p)))
        return 0
    prop = a[0]; tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if '--tier' in a: tier = a[a.index('--tier') + 1]
    if '--replay' in a:
        exe = build(prop, flavour_of(prop)); f = a[a.index('--replay') + 1]
        return subprocess.run([exe, '--replay', f] + CFG.get(prop, {}).get('args', [])).returncode
    return check(prop, tier, seed)


if __name__ == '__main__':
    try: sys.exit(main())
    except Exception as e:
        sys.stderr.write(f'no answer: {e}\n'); sys.exit(2)
