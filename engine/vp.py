#!/usr/bin/env python3
"""Deductive check driver: compile /repo + contracts to LLVM IR, translate to C (ll2c),
discharge every obligation with CBMC, replay counterexamples on the real code."""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile, time, glob, hashlib, signal

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
CLANG = '/usr/lib/llvm-18/bin/clang++'
LINK = '/usr/lib/llvm-18/bin/llvm-link'
NPROC = min(8, os.cpu_count() or 4)
sys.path.insert(0, VERIF)

def sh(cmd, timeout=None, cwd=None, mem_gb=None, env=None):
    pre = None
    if mem_gb:
        import resource
        lim = int(mem_gb * (1 << 30))
        pre = lambda: resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, preexec_fn=pre,
                         start_new_session=True, env=env)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode('utf8', 'replace'), e.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        o, e = p.communicate()
        return 'timeout', o.decode('utf8', 'replace'), e.decode('utf8', 'replace')

class CheckError(Exception): pass

def gen_includes(work):
    inc = os.path.join(work, 'inc', 'dynd')
    os.makedirs(os.path.join(inc, 'abi'), exist_ok=True)
    shutil.copy(os.path.join(HERE, 'gen', 'cmake_config.hpp'), inc)
    shutil.copy(os.path.join(HERE, 'gen', 'visibility.hpp'), inc)
    s = open(os.path.join(REPO, 'include/dynd/abi/version.h.in')).read()
    cm = open(os.path.join(REPO, 'CMakeLists.txt')).read()
    def sub(m):
        k = m.group(1)
        mm = re.search(r'set\(\s*%s\s+"?([0-9]+)"?\s*\)' % re.escape(k), cm, re.I)
        return mm.group(1) if mm else '1'
    s = re.sub(r'@(\w+)@', sub, s); s = re.sub(r'\$\{(\w+)\}', sub, s)
    open(os.path.join(inc, 'abi', 'version.h'), 'w').write(s)
    return os.path.join(work, 'inc')

def cflags(incdir, clang=True):
    f = ['-std=c++14', '-w', '-fno-access-control', '-I' + os.path.join(REPO, 'include'), '-I' + incdir,
         '-I' + os.path.join(REPO, 'thirdparty/utf8/source'), '-I' + os.path.join(REPO, 'thirdparty/datetime/include'), '-I' + HERE, '-I' + os.path.join(VERIF, 'harness'),
         '-I' + os.path.join(REPO, 'src')]
    if clang:
        f += ['-O2', '-Xclang', '-disable-llvm-passes', '-fno-vectorize', '-fno-slp-vectorize', '-ffp-contract=off',
              '-ferror-limit=20', '-ftemplate-depth=500', '-fno-builtin-memchr']
    return f

def compile_tu(tu, work, incdir):
    """tu: dict(src, repo[], ub, defs).  Returns bitcode path."""
    name = tu['name']
    objs = []
    fl = cflags(incdir)
    if tu.get('ub'):
        fl += ['-fsanitize=' + tu['ub'], '-fsanitize-trap=' + tu['ub']]
    for d in tu.get('defs', []): fl.append('-D' + d)
    jobs = [(os.path.join(VERIF, 'harness', tu['src']), os.path.join(work, name + '.h.bc'))]
    for r in tu.get('repo', []):
        jobs.append((os.path.join(REPO, r), os.path.join(work, name + '.' + r.replace('/', '_') + '.bc')))
    def one(j):
        return sh([CLANG] + fl + ['-emit-llvm', '-c', j[0], '-o', j[1]], timeout=600), j
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for (rc, o, e), j in ex.map(one, jobs):
            if rc != 0:
                raise CheckError('clang failed on %s:\n%s' % (j[0], e[-3000:]))
    out = os.path.join(work, name + '.bc')
    if len(jobs) == 1:
        return jobs[0][1]
    rc, o, e = sh([LINK] + [j[1] for j in jobs] + ['-o', out], timeout=300)
    if rc != 0:
        raise CheckError('llvm-link failed: ' + e[-2000:])
    return out

def parse_opts(s):
    r = {}
    for w in s.split():
        k, _, v = w.partition('=')
        r[k] = v if _ else '1'
    return r

CBMC_BASE = ['cbmc', '--no-standard-checks', '--bounds-check', '--pointer-check', '--div-by-zero-check',
             '--object-bits', '10', '--no-malloc-may-fail', '--drop-unused-functions', '--json-ui']

def run_cbmc(cfile, opts, work, reach=True, extra=(), timeout=None, unwind=None, sat=None, smt=None):
    cmd = list(CBMC_BASE) + ['-I', HERE, '-I', work]
    if reach: cmd += ['-DVP_REACH']
    if 'ufdiv' in opts: cmd += ['-DVP_UFDIV']
    if 'ufmul' in opts: cmd += ['-DVP_UFMUL']
    if 'uf' in opts: cmd += ['-DVP_UF']
    if 'bulk' in opts: cmd += ['-DVP_BULK']
    if 'ptrbuf' in opts: cmd += ['-DVP_PTRBUF']
    if 'track' in opts or 'sparse' in opts: cmd += ['-DVP_TRACK']
    u = unwind if unwind is not None else opts.get('unwind')
    if u: cmd += ['--unwind', str(u), '--unwinding-assertions']
    else: cmd += ['--unwind', '2', '--unwinding-assertions']
    if opts.get('fs'): cmd += ['--max-field-sensitivity-array-size', opts['fs']]
    s = smt or opts.get('smt')
    if s: cmd += ['--' + s]
    if sat or opts.get('sat'): cmd += ['--sat-solver', sat or opts['sat']]
    if opts.get('refine'): cmd += ['--refine']
    if 'noslice' not in opts and '--trace' not in extra: cmd += ['--slice-formula']
    cmd += list(extra) + [cfile]
    t0 = time.time()
    rc, o, e = sh(cmd, timeout=min(timeout or float(opts.get('t', 300)), float(os.environ.get('VP_T', 9999))), mem_gb=float(opts.get('mem', 8)))
    dt = time.time() - t0
    if rc == 'timeout':
        return {'status': 'timeout', 'time': dt, 'cmd': ' '.join(cmd)}
    try:
        js = json.loads(o)
    except Exception:
        return {'status': 'error', 'time': dt, 'msg': (o[-1500:] + e[-1500:]), 'cmd': ' '.join(cmd)}
    res = None; msgs = []
    for it in js:
        if 'result' in it: res = it['result']
        if it.get('messageType') == 'ERROR': msgs.append(it.get('messageText', ''))
    if res is None:
        return {'status': 'error', 'time': dt, 'msg': '\n'.join(msgs) + e[-1500:], 'cmd': ' '.join(cmd)}
    return {'status': 'ok', 'res': res, 'time': dt, 'cmd': ' '.join(cmd), 'msgs': msgs}

def trace_values(res):
    vals = []
    for st in res.get('trace', []):
        if st.get('stepType') == 'assignment' and st.get('lhs') == 'nd_logged' and not st.get('hidden'):
            v = st.get('value', {})
            b = v.get('binary')
            d = v.get('data')
            if b is not None and re.fullmatch('[01]+', b): vals.append(int(b, 2))
            elif d in ('TRUE', 'true'): vals.append(1)
            elif d in ('FALSE', 'false'): vals.append(0)
            else:
                try: vals.append(int(re.sub('[a-zA-Z]+$', '', str(d))))
                except Exception: vals.append(0)
    return vals

class Harness:
    def __init__(self, name, cfile, meta, tu):
        self.name, self.cfile, self.meta, self.tu = name, cfile, meta, tu
        self.opts = parse_opts(meta['opts'])
        self.obl = []          # list of dict(desc, status, fn)
        self.time = 0.0
        self.status = None     # proved / failed / undecided
        self.note = ''
        self.covers = 0
        self.values = None
        self.failed = []
        self.inv = []
        self.cmd = ''
        self.backend = 'cbmc 6.11 SAT (minisat2)'
        if self.opts.get('smt'): self.backend = 'cbmc 6.11 + ' + self.opts['smt']
        if self.opts.get('sat'): self.backend = 'cbmc 6.11 SAT (%s)' % self.opts['sat']

def classify(res):
    obl, cov, unw, cand = [], [], [], {}
    for r in res:
        d = r.get('description', ''); p = r.get('property', '')
        if d.startswith('COVER: '): cov.append((d, r['status']))
        elif d.startswith('cand '):
            n = int(d.split()[1]); cand[n] = cand.get(n, True) and r['status'] == 'SUCCESS'
        elif '.unwind.' in p or p.startswith('unwind') or 'unwinding assertion' in d or '.recursion' in p: unw.append(r)
        else: obl.append(r)
    return obl, cov, unw, cand

T0 = time.time()
BUDGET = 600.0  # seconds for the deductive phase of a quick run
def verify(h, work, tier):
    """decide one harness; fills h"""
    stop = T0 + BUDGET * (1 if tier == 'quick' else 6)
    if time.time() > stop - 5:
        h.status = 'undecided'; h.note = 'not started: time budget of the run used up'; return
    opts = h.opts
    ncand = len(h.meta.get('cands', []))
    t_end = min(stop, time.time() + float(opts.get('t', 300)) * (1 if tier == 'quick' else 3))
    extra = []
    on = [1] * ncand
    unwind = int(opts['unwind']) if 'unwind' in opts else None
    rounds = 0
    while True:
        rounds += 1
        if ncand:
            cf_ = os.path.join(work, h.name + '.cand.h')
            open(cf_, 'w').write(''.join('#define VP_ON_%d %d\n' % (i, b) for i, b in enumerate(on)))
            extra = ['-DVP_CANDFILE="%s"' % cf_]
        left = t_end - time.time()
        r = run_cbmc(h.cfile, opts, work, extra=extra, timeout=max(left, 5), unwind=unwind)
        h.time += r['time']; h.cmd = r.get('cmd', '')
        if r['status'] != 'ok':
            h.status = 'undecided'; h.note = r['status'] + ': ' + r.get('msg', '')[:1500]
            return
        obl, cov, unw, cand = classify(r['res'])
        bad = [i for i, ok in cand.items() if not ok and on[i]]
        if bad:
            for i in bad: on[i] = 0
            continue
        ub = [x for x in unw if x['status'] != 'SUCCESS']
        fails = [x for x in obl if x['status'] == 'FAILURE']
        if ub and not fails:
            nu = (unwind or 2) * 2
            if nu <= int(opts.get('maxunwind', max(64, 4 * int(opts.get('unwind', 2))))):
                unwind = nu; on = [1] * ncand
                continue
            h.status = 'undecided'; h.note = 'loop bound not sufficient (unwind %s)' % unwind
            h.unw = ub
            return
        break
    h.rounds = rounds; h.unwind = unwind
    h.inv = [h.meta['cands'][i] for i in range(ncand) if on[i]]
    h.extra = extra
    h.obl = [{'p': x['property'], 'd': x.get('description', ''), 's': x['status']} for x in obl]
    h.nunw = len(unw)
    # an optimised copy of a cover may sit on a dead branch: a cover point is reached when any copy is
    reached = {}
    for c, s in cov: reached[c] = reached.get(c, False) or s != 'SUCCESS'
    h.covers = len(reached)
    vac = [c for c, ok in reached.items() if not ok]
    if not any(x['status'] == 'FAILURE' for x in obl) and any(x['status'] != 'SUCCESS' for x in obl):
        h.status = 'undecided'; h.note = 'solver returned ' + '; '.join(['%s %s' % (x['status'], x.get('description', '')[:150]) for x in obl if x['status'] != 'SUCCESS'][:6]); return
    if fails:
        h.status = 'failed'; h.failed = [{'p': x['property'], 'd': x.get('description', '')} for x in fails]
        return
    if vac:
        h.status = 'undecided'; h.note = 'vacuous: unreachable ' + '; '.join(vac[:4]); return
    h.status = 'proved'

def get_trace(h, prop, work):
    for small in ((['-DVP_SMALL'],  []) if '__vp_size_any' in h.meta.get('models', []) else ([],)):
        r = run_cbmc(h.cfile, h.opts, work, reach=False, extra=list(getattr(h, 'extra', [])) + small + ['--trace', '--property', prop], timeout=60 if small else 60 if time.time() - T0 > 450 else 150, unwind=getattr(h, 'unwind', None))
        if r['status'] != 'ok': continue
        for x in r['res']:
            if x['property'] == prop and x['status'] == 'FAILURE': return trace_values(x)
    return None

def unwound_traces(h, work, descs, k=5):
    """counterexample search for a harness with cut loops: the same code with its loops unwound k times (no invariants)"""
    c = h.cfile[:-2] + '.unw.c'
    if not os.path.exists(c): return []
    o = dict(h.opts); o.pop('unwind', None)
    cmd = [x for x in CBMC_BASE] + ['-I', HERE, '-I', work] + (['-DVP_BULK'] if 'bulk' in o else []) + (['-DVP_PTRBUF'] if 'ptrbuf' in o else []) + (['-DVP_TRACK'] if 'track' in o or 'sparse' in o else []) + ['-DVP_SMALL'] + \
        ['--unwind', str(o.get('cexunwind', k)), '--trace', '--stop-on-fail', c]
    rc, out, e = sh(cmd, timeout=90, mem_gb=8)
    if rc == 'timeout': return []
    try: js = json.loads(out)
    except Exception: return []
    r = []
    for it in js:
        for x in it.get('result', []) or []:
            if x.get('trace'): r.append((x.get('description', ''), trace_values(x)))
        if it.get('trace'): r.append((it.get('description', ''), trace_values(it)))
    return r

class Replayer:
    def __init__(self, work, incdir):
        self.work, self.incdir, self.cache, self.built = work, incdir, {}, False
    def libs(self, build):
        """support code for the native executable (type printing etc.)"""
        l = os.path.join(REPO, '_build')
        if os.path.exists(os.path.join(l, 'libdynd.so')) and not build: return l
        b = os.path.join(self.work, 'nb')
        if not os.path.exists(os.path.join(b, 'libdynd.so')):
            sh(['cmake', '-S', REPO, '-B', b, '-G', 'Ninja', '-DCMAKE_C_COMPILER=/usr/bin/gcc', '-DCMAKE_CXX_COMPILER=/usr/bin/g++',
                '-DCMAKE_BUILD_TYPE=', '-DDYND_BUILD_TESTS=OFF', '-DCMAKE_POLICY_VERSION_MINIMUM=3.5', '-DCMAKE_CXX_FLAGS=-O1 -Wno-error'], timeout=120)
            sh(['ninja', '-C', b, '-j', str(NPROC), 'libdynd.so'], timeout=400)
        return b
    def exe(self, tu, build=False):
        if tu['name'] in self.cache and not build: return self.cache[tu['name']]
        out = os.path.join(self.work, tu['name'] + '.replay')
        srcs = [os.path.join(VERIF, 'harness', tu['src']), os.path.join(HERE, 'replay_main.cpp')] + [os.path.join(REPO, r) for r in tu.get('repo', [])]
        fl = ['-DVP_REPLAY'] + cflags(self.incdir, clang=False) + ['-O1', '-g', '-fsanitize=address', '-fno-omit-frame-pointer', '-ffp-contract=off']
        if tu.get('ub'): fl += ['-fsanitize=' + ','.join(x for x in tu['ub'].split(',') if x in ('signed-integer-overflow', 'shift', 'integer-divide-by-zero', 'float-cast-overflow', 'bool', 'null')), '-fno-sanitize-recover=undefined,float-cast-overflow']
        for d in tu.get('defs', []): fl.append('-D' + d)
        objs = []
        def one(s):
            o = os.path.join(self.work, tu['name'] + '.' + s.strip('/').replace('/', '_') + '.n.o')
            return sh(['g++'] + fl + ['-c', s, '-o', o], timeout=600), o
        ok = True; msg = ''
        with cf.ThreadPoolExecutor(NPROC) as ex:
            for (rc, so, se), o in ex.map(one, srcs):
                if rc != 0: ok = False; msg = se[-2000:]
                objs.append(o)
        if ok:
            L = self.libs(build) if build or os.path.exists(os.path.join(REPO, '_build', 'libdynd.so')) else ''
            la = []
            for n in ('libdynd.so', 'libdyndt.so'):
                if L and os.path.exists(os.path.join(L, n)): la.append(os.path.join(L, n))
            rc, so, se = sh(['g++', '-fsanitize=address,undefined', '-rdynamic', '-Wl,--unresolved-symbols=ignore-all', '-o', out] + objs + la + (['-Wl,-rpath,' + L] if L else []) + ['-ldl', '-lpthread'], timeout=300)
            if rc != 0: ok = False; msg = se[-2000:]
        self.cache[tu['name']] = (out if ok else None, msg)
        return self.cache[tu['name']]
    def run(self, tu, harness, vals, timeout=30):
        exe, msg = self.exe(tu)
        if not exe: return 'norun', 'native build failed: ' + msg
        f = os.path.join(self.work, harness + '.vals')
        open(f, 'w').write('\n'.join(str(v) for v in vals) + '\n')
        r = self._cls(sh([exe, harness, f], timeout=timeout, env=self.env()))
        if r[0] == 'norun' and 'unresolved' in r[1] and not os.path.exists(os.path.join(REPO, '_build', 'libdynd.so')) and not self.built:
            self.built = True
            exe, msg = self.exe(tu, True)
            if exe: r = self._cls(sh([exe, harness, f], timeout=timeout, env=self.env()))
        return r
    def env(self):
        e = dict(os.environ); e['ASAN_OPTIONS'] = 'detect_leaks=0:detect_odr_violation=0:handle_segv=1:allocator_may_return_null=1'; return e
    def random(self, tu, harness, n, seed, timeout=60):
        exe, msg = self.exe(tu)
        if not exe: return 'norun', msg
        return self._cls(sh([exe, harness, '-random', str(n), str(seed)], timeout=timeout, env=self.env()), rnd=True)
    def _cls(self, r, rnd=False):
        rc, o, e = r
        t = (o + '\n' + e)
        if rc == 'timeout': return ('hang' if not rnd else 'none'), 'native run did not terminate'
        if rc == 3: return 'fail', t[-3000:]
        if rc == 0: return 'pass', t[-500:]
        if rc == 4: return 'assume', t[-300:]
        if 'AddressSanitizer' in t or 'runtime error' in t:
            if re.search(r'pc 0x0+\b|SEGV on unknown address 0x0+ \(pc 0x0+', t): return 'norun', 'unresolved support symbol called natively'
            return 'crash', t[:3000]
        if rc in (5,): return 'norun', t[-300:]
        return 'crash', 'exit %s\n%s' % (rc, t[-2000:])

def load_known(pid):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip('\n')
            m = re.match(r'known: property=(\S+) harness=(\S+) obligation="([^"]*)" (.*)', l)
            if m and m.group(1) == pid: out.append((m.group(2), m.group(3), m.group(4)))
    return out

def main():
    import registry
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    only = None; keep = False
    for a in sys.argv[2:]:
        if a.startswith('--tier='): tier = a[7:]
        if a.startswith('--only='): only = a[7:]
        if a == '--keep': keep = True
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    prop = registry.PROPS[pid]
    os.makedirs(BUILD, exist_ok=True)
    rc, o, e = sh([os.path.join(HERE, 'build.sh'), BUILD], timeout=600)
    if rc != 0:
        print('cannot build translator', e[-2000:]); return 2
    work = tempfile.mkdtemp(prefix='w_%s_' % pid, dir=BUILD)
    try:
        return run(pid, prop, tier, seed, work, t0, only, keep)
    except CheckError as ex:
        # contracts no longer fit the source (does not compile / cannot be extracted): nothing is proved
        print('CHECK-ERROR', ex)
        d = os.path.join(VERIF, 'evidence', 'replays'); os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s_extraction.json' % pid)
        json.dump({'property': pid, 'failed_obligation': 'contracts could not be attached to the current source', 'output': str(ex)[:6000]}, open(path, 'w'), indent=1)
        json.dump({'property': pid, 'tier': tier, 'seed': seed, 'level': prop.get('level', 'proof'), 'coverage': {'obligations': 0, 'discharged': 0, 'checker_cmd': 'vp.py ' + pid, 'trusted_base': []}, 'assumptions': ['extraction failed: nothing was decided'], 'wall_s': round(time.time() - t0, 2), 'violations': 1}, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
        return 1
    finally:
        if not keep: shutil.rmtree(work, ignore_errors=True)
        else: print('work dir', work)

def run(pid, prop, tier, seed, work, t0, only, keep):
    incdir = gen_includes(work)
    tus = []
    for t in prop['tus']:
        t = dict(t); t.setdefault('name', os.path.splitext(t['src'])[0] + ('_' + t['tag'] if 'tag' in t else ''))
        if not os.environ.get('VP_TU') or os.environ['VP_TU'] in t['name']: tus.append(t)
    hs = []
    def prep(t):
        bc = compile_tu(t, work, incdir)
        od = os.path.join(work, t['name'] + '.out'); os.makedirs(od, exist_ok=True)
        rc, o, e = sh([os.path.join(BUILD, 'll2c'), bc, od, '-prefix', t.get('prefix', pid + '_')], timeout=600, env=dict(os.environ, **({'LL2C_DUMP': '1'} if keep else {})))
        if rc != 0: raise CheckError('extraction failed for %s: %s' % (t['name'], e[-2000:]))
        r = []
        for j in sorted(glob.glob(od + '/*.json')):
            m = json.load(open(j))
            if only and not re.search(only, m['harness']): continue
            h = Harness(m['harness'], j[:-5] + '.c', m, t)
            if 'thorough' in h.opts and tier != 'thorough': continue
            r.append(h)
        return r
    with cf.ThreadPoolExecutor(4) as ex:
        for r in ex.map(prep, tus): hs += r
    if not hs: raise CheckError('no harness extracted')
    want = prop.get('min_harnesses')
    if want and not only and len(hs) < want: raise CheckError('only %d harnesses extracted, expected %d' % (len(hs), want))
    t_comp = time.time() - t0
    # longest first
    hs.sort(key=lambda h: -float(h.opts.get('cost', 1)))
    par = int(prop.get('par', NPROC))
    def v(h):
        try: verify(h, work, tier)
        except Exception as ex:
            h.status = 'undecided'; h.note = 'driver: %r' % ex
        return h
    with cf.ThreadPoolExecutor(par) as ex: list(ex.map(v, hs))
    known = load_known(pid)
    rp = Replayer(work, incdir)
    viol, knownhit, und = [], [], []
    repdir = os.path.join(VERIF, 'evidence', 'replays'); os.makedirs(repdir, exist_ok=True)
    for h in hs:
        if h.status == 'failed':
            rest = []
            for f in h.failed:
                k = [x for x in known if re.fullmatch(x[0], h.name) and x[1] == f['d']]
                if k: knownhit.append((h, f, k[0]))
                else: rest.append(f)
            if not rest: h.status = 'known'; continue
            h.viol = rest
            viol.append(h)
        elif h.status == 'undecided': und.append(h)
    if os.environ.get('VP_FAST'):
        for h in hs:
            print('%-44s %-9s obl=%-4d %.1fs %s' % (h.name, h.status, len(h.obl), h.time, h.note[:300]))
            for f in getattr(h, 'viol', []): print('    failed obligation: %s [%s]' % (f['d'], f['p']))
        return 9
    # random native search for undecided harnesses: a concrete failing input decides
    lines = []
    nconf = 0
    for h in viol:
        rec = {'property': pid, 'harness': h.name, 'tu': h.tu['src'], 'failed_obligations': h.viol, 'checker_cmd': h.cmd, 'values': None, 'native': None}
        confirmed = False
        if time.time() - t0 < 620 and nconf < 2:
            cand = [f for f in h.viol if not f['d'].startswith('unreachable reached')][:3] or h.viol[:1]
            for f in cand:
                vals = get_trace(h, f['p'], work) if not h.meta.get('cands') else None
                if vals is None: continue
                st, out = rp.run(h.tu, h.name, vals)
                rec['values'], rec['native'] = vals, {'status': st, 'output': out}
                if st in ('fail', 'crash', 'hang'):
                    confirmed = True; rec['obligation'] = f['d']; break
            if not confirmed and h.meta.get('cands'):
                for d, vals in unwound_traces(h, work, cand):
                    st, out = rp.run(h.tu, h.name, vals)
                    rec['values'], rec['native'] = vals, {'status': st, 'output': out, 'found_by': 'loops unwound'}
                    if st in ('fail', 'crash', 'hang'): confirmed = True; rec['obligation'] = d; break
            if not confirmed and time.time() - t0 < 700:
                st, out = rp.random(h.tu, h.name, 200000, seed, timeout=25)
                if st in ('fail', 'crash'):
                    confirmed = True; m = re.search(r'VP-INPUT:([ 0-9]*)', out)
                    rec['values'] = [int(x) for x in m.group(1).split()] if m else None
                    rec['native'] = {'status': st, 'output': out, 'found_by': 'random search seed %d' % seed}
        if confirmed: nconf += 1
        path = os.path.join(repdir, '%s_%s.json' % (pid, h.name))
        json.dump(rec, open(path, 'w'), indent=1)
        lines.append((confirmed, 'VIOLATION property=%s replay=%s%s' % (pid, path, '' if confirmed else ' no-failing-input-found'), h))
    und2 = []
    for h in und:
        st = 'none'
        if time.time() - t0 < 700:
            st, out = rp.random(h.tu, h.name, 100000, seed, timeout=20)
        if st not in ('fail', 'crash') and h.meta.get('cands') and time.time() - t0 < 700:
            for d, vals in unwound_traces(h, work, []):
                st, out = rp.run(h.tu, h.name, vals)
                if st in ('fail', 'crash', 'hang'): out += '\nVP-INPUT: ' + ' '.join(map(str, vals)); st = 'fail'; break
        if st in ('fail', 'crash'):
            m = re.search(r'VP-INPUT:([ 0-9]*)', out)
            path = os.path.join(repdir, '%s_%s.json' % (pid, h.name))
            json.dump({'property': pid, 'harness': h.name, 'tu': h.tu['src'], 'note': h.note, 'values': [int(x) for x in m.group(1).split()] if m else None, 'native': {'status': st, 'output': out}}, open(path, 'w'), indent=1)
            lines.append((True, 'VIOLATION property=%s replay=%s' % (pid, path), h))
        elif h.note.startswith('loop bound') and getattr(h, 'unw', None):
            h.unwind = None
            vals = None
            st = 'none'
            try:
                r = run_cbmc(h.cfile, h.opts, work, reach=False, extra=['--trace', '--property', h.unw[0]['property']], timeout=100)
                if r['status'] == 'ok':
                    for x in r['res']:
                        if x['status'] == 'FAILURE' and x.get('trace'): vals = trace_values(x)
                if vals is not None: st, out = rp.run(h.tu, h.name, vals)
            except Exception as ex: out = repr(ex)
            if st in ('hang', 'fail', 'crash'):
                path = os.path.join(repdir, '%s_%s.json' % (pid, h.name))
                json.dump({'property': pid, 'harness': h.name, 'tu': h.tu['src'], 'note': h.note, 'values': vals, 'native': {'status': st, 'output': out}}, open(path, 'w'), indent=1)
                lines.append((True, 'VIOLATION property=%s replay=%s' % (pid, path), h))
            else: und2.append(h)
        else: und2.append(h)
    wall = time.time() - t0
    ev = evidence(pid, prop, tier, seed, hs, wall, t_comp, lines, knownhit, und2)
    if not only:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    for h in hs:
        print('%-44s %-9s obl=%-4d covers=%-3d inv=%-3d %.1fs %s' % (h.name, h.status, len(h.obl), h.covers, len(h.inv), h.time, h.note[:300]))
        for f in getattr(h, 'viol', []): print('    failed obligation: %s [%s]' % (f['d'], f['p']))
    seen = set()
    for h, f, k in knownhit:
        if k not in seen:
            seen.add(k); print('KNOWN-FINDING: property=%s %s' % (pid, k[2]))
    print('%s: %d harnesses, %d obligations, %d proved harnesses, %.1fs' % (pid, len(hs), sum(len(h.obl) for h in hs), sum(h.status == 'proved' for h in hs), wall))
    if lines:
        lines.sort(key=lambda x: not x[0])
        for c, l, h in lines: print(l)
        return 1
    if und2:
        # the proof does not go through on this source and no failing input is known: still a violation of the contract
        for h in und2:
            path = os.path.join(repdir, '%s_%s.json' % (pid, h.name))
            json.dump({'property': pid, 'harness': h.name, 'tu': h.tu['src'], 'failed_obligation': 'not discharged: ' + h.note[:1500], 'checker_cmd': h.cmd}, open(path, 'w'), indent=1)
            print('UNDECIDED', h.name, h.note[:1500])
        for h in und2:
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, os.path.join(repdir, '%s_%s.json' % (pid, h.name))))
        return 1
    return 0

def evidence(pid, prop, tier, seed, hs, wall, t_comp, lines, knownhit, und):
    obl = sum(len(h.obl) for h in hs if 'bounded' not in h.opts)
    dis = sum(sum(o['s'] == 'SUCCESS' for o in h.obl) for h in hs if 'bounded' not in h.opts)
    bo = sum(len(h.obl) for h in hs if 'bounded' in h.opts)
    bd = sum(sum(o['s'] == 'SUCCESS' for o in h.obl) for h in hs if 'bounded' in h.opts)
    fns = sorted(set(f for h in hs for f in h.meta.get('functions', [])))
    trusted = ['clang 18 front end and LLVM 18 mem2reg/inline/simplify passes', 'll2c IR-to-C translation (/verif/engine/ll2c.cpp)', 'CBMC 6.11 and its SAT solver']
    trusted += ['model of runtime function ' + m for m in sorted(set(m for h in hs for m in h.meta['models'] if not m.startswith('nd_') and not m.startswith('__vp')))]
    trusted += ['contract stub used in place of ' + s for s in sorted(set(s for h in hs for s in h.meta['stubs']))]
    back = {}
    for h in hs:
        b = back.setdefault(h.backend, {'harnesses': 0, 'obligations': 0, 'solver_s': 0.0}); b['harnesses'] += 1; b['obligations'] += len(h.obl); b['solver_s'] = round(b['solver_s'] + h.time, 2)
    samples = []
    for h in hs[:6]:
        samples.append({'harness': h.name, 'obligations': [o['d'] for o in h.obl if not o['d'].startswith('dereference')][:6]})
    cov = {'obligations': obl, 'discharged': dis,
           'checker_cmd': 'python3 /verif/engine/vp.py %s  (per harness: %s)' % (pid, re.sub(r'/verif/build/\S*/', '', hs[0].cmd) if hs else ''),
           'trusted_base': trusted,
           'functions_under_contract': fns, 'function_count': len(fns),
           'harnesses': len(hs), 'harnesses_proved': sum(h.status == 'proved' for h in hs),
           'vacuity_covers_reached': sum(h.covers for h in hs),
           'loops_with_invariants': sum(h.meta.get('cut_loops', 0) for h in hs),
           'inductive_invariants_discharged': sum(len(h.inv) for h in hs),
           'unwinding_assertions_discharged': sum(getattr(h, 'nunw', 0) for h in hs),
           'back_ends': back, 'compile_and_extract_s': round(t_comp, 1),
           'bounded_standins': [{'harness': h.name, 'bound': h.opts['bounded'].replace('_', ' '), 'obligations': len(h.obl), 'passed': sum(o['s'] == 'SUCCESS' for o in h.obl)} for h in hs if 'bounded' in h.opts],
           'bounded_obligations': bo, 'bounded_passed': bd,
           'samples': samples,
           'extraction_drops': 'exception message construction (calls dropped on paths that inevitably throw): ' + ', '.join(sorted(set(d.split('(')[0][-60:] for h in hs for d in h.meta['dropped']))[:25]),
           'undecided': [{'harness': h.name, 'why': h.note[:300]} for h in und]}
    ass = ['memory allocation never fails', 'x86-64 data layout as compiled by clang 18', 'static initialisers of globals with non-constant constructors are not run unless a harness does so'] + prop.get('assumptions', [])
    un = sorted(set(x for h in hs for x in h.meta['externs']))
    if un: ass.append('externals proved unreachable (each is an obligation): ' + ', '.join(u[:60] for u in un[:20]))
    lvl = prop.get('level', 'proof')
    if lvl == 'other': cov['explanation'] = prop['explanation']
    if knownhit: cov['known_findings'] = sorted(set(k[2] for _, _, k in knownhit))
    return {'property': pid, 'tier': tier, 'seed': seed, 'level': lvl, 'coverage': cov, 'assumptions': ass, 'wall_s': round(wall, 2), 'violations': len(lines)}

if __name__ == '__main__':
    sys.exit(main())
