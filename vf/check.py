"""Check driver: builds IR from /repo, runs jobs in parallel, replays
counterexamples natively, writes evidence, decides the exit status."""
import sys
if hasattr(sys, "set_int_max_str_digits"):
    sys.set_int_max_str_digits(0)
import os, sys, json, time, subprocess, tempfile, shutil, traceback, hashlib, atexit, signal, ctypes, mmap, pickle, random, resource
import multiprocessing as mp
from . import term as tm
from .term import T

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get('VERIF_OUT', HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
CLANG = 'clang++-18'
OPT = 'opt-18'
SIMD = ('-DCPU_FLAG_SSE2 -DCPU_FLAG_AVX2 -DCPU_FLAG_AES -DCPU_FLAG_MOVBE -DCPU_FLAG_BMI2 -DCPU_FLAG_RDSEED -DCPU_FLAG_RDRAND '
        '-DCPU_FLAG_PCLMUL -msse2 -mavx2 -maes -mmovbe -mbmi2 -mrdseed -mrdrnd -mpclmul').split()
VARIANT = {'portable': [], 'simd': SIMD, 'yang15': SIMD + ['-DSUPPORT_SM3_YANG15'], 'lang18': SIMD + ['-DSUPPORT_SM4_LANG18'],
           'lang18p': ['-DSUPPORT_SM4_LANG18'], 'full': SIMD + ['-DSUPPORT_SM3_YANG15', '-DSUPPORT_SM4_LANG18']}

_tmp = None


def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix='vf_')
        pid = os.getpid()

        def rm():
            if os.getpid() == pid:
                shutil.rmtree(_tmp, ignore_errors=True)
        atexit.register(rm)
    return _tmp


class BuildError(Exception):
    pass


def _srcargs(harness, srcs):
    out = ''
    out += '#include "%s"\n' % os.path.join(HERE, 'harness', harness)
    return out


def compile_ir(tag, harness, srcs=(), variant='portable', flags=()):
    """compile each source separately and link: returns path of .ll"""
    d = tmpdir()
    outs = []
    procs = []
    files = [os.path.join(HERE, 'harness', harness)] + [os.path.join(REPO, s) for s in srcs]
    for i, f in enumerate(files):
        o = os.path.join(d, '%s_%d.bc' % (tag, i))
        cmd = [CLANG, '-w', '-std=c++17', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names' if 0 else '-w', '-emit-llvm', '-c',
               '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(HERE, 'harness')] + VARIANT[variant] + list(flags) + [f, '-o', o]
        procs.append(subprocess.Popen(cmd, stderr=subprocess.PIPE, text=True))
        outs.append(o)
    for p, f in zip(procs, files):
        _, err = p.communicate()
        if p.returncode:
            raise BuildError('compiling %s failed:\n%s' % (f, err[-3000:]))
    l = os.path.join(d, tag + '.bc')
    ll = os.path.join(d, tag + '.ll')
    if len(outs) > 1:
        r = subprocess.run(['llvm-link-18'] + outs + ['-o', l], capture_output=True, text=True)
        if r.returncode:
            raise BuildError(r.stderr[-2000:])
    else:
        l = outs[0]
    r = subprocess.run([OPT, '-S', '-passes=mem2reg', l, '-o', ll], capture_output=True, text=True)
    if r.returncode:
        raise BuildError(r.stderr[-2000:])
    return ll


def compile_so(tag, harness, srcs=(), variant='portable', flags=()):
    d = tmpdir()
    so = os.path.join(d, tag + '.so')
    files = [os.path.join(HERE, 'harness', harness)] + [os.path.join(REPO, s) for s in srcs]
    cmd = [CLANG, '-w', '-std=c++17', '-O1', '-fPIC', '-shared', '-fwrapv', '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(HERE, 'harness')] + \
        VARIANT[variant] + list(flags) + files + ['-o', so]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError(r.stderr[-3000:])
    return so


# ---------------------------------------------------------------- native calls

def _guarded(data, size):
    """buffer whose end touches an unmapped page; returns address"""
    libc = ctypes.CDLL(None)
    libc.mmap.restype = ctypes.c_void_p
    libc.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
    libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
    pg = 4096
    n = (size + pg - 1) // pg * pg or pg
    base = libc.mmap(None, n + 2 * pg, 3, 0x4022, -1, 0)
    libc.mprotect(base, pg, 0)
    libc.mprotect(base + pg + n, pg, 0)
    a = base + pg + n - size
    if size:
        ctypes.memmove(a, bytes(data), len(data))
    return a


def native(so, calls, timeout=60):
    """run a list of calls (func, args) in a subprocess.
    args: int | ('buf', bytes) | ('ref', k) reuse buffer k of this session.
    Every ('buf', ...) gets the next buffer index.  Result: dict(ret=[...], bufs=[...]) or dict(crash=...)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            dn = os.open('/dev/null', os.O_WRONLY)
            os.dup2(dn, 1)
            os.dup2(dn, 2)
            signal.alarm(timeout)
            lib = ctypes.CDLL(so)
            bufs = []
            rets = []
            for fn, args in calls:
                f = getattr(lib, fn)
                f.restype = ctypes.c_uint64
                a = []
                for x in args:
                    if isinstance(x, int):
                        a.append(ctypes.c_uint64(x & (2**64 - 1)))
                    elif x[0] == 'buf':
                        ad = _guarded(x[1], len(x[1]))
                        bufs.append((ad, len(x[1])))
                        a.append(ctypes.c_void_p(ad))
                    elif x[0] == 'zbuf':
                        ad = _guarded(b'', x[1])
                        if x[2]:
                            ctypes.memmove(ad + x[1] - len(x[2]), x[2], len(x[2]))
                        bufs.append((ad, 0))
                        a.append(ctypes.c_void_p(ad))
                    else:
                        ad = bufs[x[1]][0] + (x[2] if len(x) > 2 else 0)
                        a.append(ctypes.c_void_p(ad))
                rets.append(f(*a))
            out = pickle.dumps(dict(ret=rets, bufs=[ctypes.string_at(ad, n) for ad, n in bufs]))
            os.write(w, out) if len(out) < 60000 else _writeall(w, out)
            os._exit(0)
        except BaseException as e:
            try:
                os.write(w, pickle.dumps(dict(crash='python: %r' % (e,))))
            finally:
                os._exit(3)
    os.close(w)
    data = b''
    while True:
        c = os.read(r, 1 << 16)
        if not c:
            break
        data += c
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if data:
        d = pickle.loads(data)
        if str(d.get('crash', '')).startswith('python:'):
            raise RuntimeError('native replay failed to run: ' + d['crash'])     # not an observation of the code
        return d
    return dict(crash='signal %d' % (st & 127) if st & 127 else 'exit %d' % (st >> 8))


def _writeall(w, b):
    while b:
        n = os.write(w, b)
        b = b[n:]


# ---------------------------------------------------------------- job results

class Job:
    """collects the results of one job; pickled back to the parent"""

    def __init__(self, name):
        self.name = name
        self.obl = 0
        self.dis = 0
        self.by_solver = 0
        self.structural = 0
        self.queries = 0
        self.solver_s = 0.0
        self.fns = {}
        self.viol = []
        self.known = []
        self.incon = []
        self.notes = []
        self.bounds = []
        self.paths = 0
        self.vac = []
        self.samples = []
        self.assume = []
        self._z = None

    def absorb(self, ex):
        s = ex.stats
        self.queries += s['queries']
        self.solver_s += s['solver_s']
        self.paths += s['paths']
        for k, v in s['fns'].items():
            k = ex.prog.dem.get(k, k)
            self.fns[k] = self.fns.get(k, 0) + v

    def bound(self, s):
        if s not in self.bounds:
            self.bounds.append(s)

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(s)

    def ok(self, structural=False, n=1):
        self.obl += n
        self.dis += n
        if structural:
            self.structural += n
        else:
            self.by_solver += n

    def inconclusive(self, what):
        self.obl += 1
        self.incon.append(what)

    def violation(self, what, cex=None):
        """cex: dict describing the concrete input (JSON-able); confirmed natively"""
        self.obl += 1
        self.viol.append((what, cex or {}))

    # ------------------------------------------------ generic decision
    def solver(self, uf=False, timeout=20000):
        import z3
        if self._z is None:
            self._z = (z3, tm.Z3Conv())
        z3, conv = self._z
        s = z3.Solver() if uf else z3.SolverFor('QF_BV')
        s.set('timeout', timeout)
        return z3, conv, s

    def query(self, conds, uf=False, timeout=20000):
        """satisfiability of a conjunction of width-1 terms -> ('unsat'|'sat'|'unknown', model-dict)"""
        for c in conds:
            if c.__class__ is int and not c:
                return 'unsat', None
        z3, conv, s = self.solver(uf, timeout)
        t0 = time.time()
        for c in conds:
            if c.__class__ is not int:
                s.add(conv.b(c))
        r = str(s.check())
        self.queries += 1
        self.solver_s += time.time() - t0
        m = None
        if r == 'sat':
            md = s.model()
            m = {}
            for v in tm.vars_of([c for c in conds if c.__class__ is not int]):
                m[v.a[0]] = md.eval(conv(v), model_completion=True).as_long()
        return r, m

    def equal(self, w, a, b, pc=(), what='', confirm=None, uf=False, timeout=30000, sim=24, seed=0):
        """decide a == b under pc for all values.  confirm(env) -> None (not reproduced) or a cex dict."""
        if a is b or (a.__class__ is int and b.__class__ is int and a == b):
            self.ok(structural=True)
            return True
        d = tm.ne(w, a, b)
        return self.never(list(pc) + [d], what, confirm, uf, timeout, sim)

    def never(self, conds, what, confirm=None, uf=False, timeout=30000, sim=24):
        """the conjunction must be unsatisfiable"""
        conds = [c for c in conds if not (c.__class__ is int and c)]
        if any(c.__class__ is int and not c for c in conds):
            self.ok(structural=True)
            return True
        if not conds:
            cx = confirm({}) if confirm else {}
            if cx is None:
                self.inconclusive(what + ': counterexample did not reproduce')
            else:
                self.violation(what, cx)
            return False
        env = simulate(conds, sim) if not uf else None
        if env is None:
            r, env = self.query(conds, uf, timeout)
            if r == 'unsat':
                self.ok()
                return True
            if r != 'sat':
                self.inconclusive(what + ': solver gave no answer within its budget')
                return None
        cx = confirm(env) if confirm else {'model': {k: hex(v) for k, v in list(env.items())[:64]}}
        if cx is None:
            self.inconclusive(what + ': counterexample did not reproduce natively')
            return None
        self.violation(what, cx)
        return False


_rnd = random.Random(int(os.environ.get('VERIF_SEED', '1')))


def corner(w):
    k = _rnd.randrange(6)
    m = (1 << w) - 1
    if k == 0:
        return 0
    if k == 1:
        return m
    if k == 2:
        return 1
    if k == 3:
        return 1 << (w - 1)
    return _rnd.getrandbits(w)


def simulate(conds, n):
    """try n assignments; returns an assignment satisfying all conds or None"""
    vs = tm.vars_of(conds)
    for i in range(n):
        if i % 2:
            env = {v.a[0]: _rnd.getrandbits(v.w) for v in vs}
        else:
            env = {v.a[0]: corner(v.w) for v in vs}
        try:
            if all(tm.evaluate(conds, env)):
                return env
        except Exception:
            return None
    return None


# ---------------------------------------------------------------- the check

class Check:
    def __init__(self, prop, level='other', budget=800, technique=''):
        self.prop = prop
        self.level = level
        self.t0 = time.time()
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.quick = self.tier != 'thorough'
        self.budget = budget if self.quick else budget * 8
        self.jobs = []
        self.bounds = []
        self.assumptions = []
        self.results = []
        self.trusted = ['clang 18 -O0 + mem2reg lowering of /repo to LLVM IR', 'vf/ symbolic executor and intrinsic models', 'z3 5.3 / cvc5']
        self.extra = {}

    def left(self):
        return self.budget - (time.time() - self.t0)

    def bound(self, s):
        self.bounds.append(s)

    def assume(self, s):
        self.assumptions.append(s)

    def job(self, name, fn, *args, **kw):
        self.jobs.append((name, fn, args, kw))

    def run(self, par=8):
        """run all jobs in forked processes"""
        tmpdir()
        pend = list(self.jobs)
        self.jobs = []
        live = {}
        ctx = mp.get_context('fork')
        known = load_known(self.prop)
        bad = 0
        while pend or live:
            # confirmed violations decide the outcome: stop when there are enough of them
            if bad >= 6 or bad and time.time() - self.t0 > 200:
                for name, p, t, tmo in live.values():
                    p.kill()
                    p.join(1)
                self.extra['stopped'] = '%d jobs not finished after the first confirmed violations' % (len(pend) + len(live))
                break
            while pend and len(live) < par:
                name, fn, args, kw = pend.pop(0)
                tmo = kw.pop('timeout', None)
                rx, tx = ctx.Pipe(False)
                p = ctx.Process(target=_runjob, args=(name, fn, args, kw, tx))
                p.start()
                tx.close()
                live[rx] = (name, p, time.time(), tmo)
            for rx in list(live):
                name, p, t, tmo = live[rx]
                done = False
                if rx.poll(0.02):
                    try:
                        j = rx.recv()
                    except EOFError:
                        j = Job(name)
                        j.inconclusive('job %s died (out of memory or killed)' % name)
                    done = True
                elif not p.is_alive() and not rx.poll(0.2):
                    j = Job(name)
                    j.inconclusive('job %s died' % name)
                    done = True
                elif self.left() < 0 or (tmo and time.time() - t > tmo):
                    p.kill()
                    j = Job(name)
                    j.inconclusive('job %s exceeded its time budget' % name)
                    done = True
                if done:
                    p.join(1)
                    if p.is_alive():
                        p.kill()
                    rx.close()
                    del live[rx]
                    j.wall = time.time() - t
                    self.results.append(j)
                    bad += any(not match_known(known, j.name, w, c) for w, c in j.viol)
                    if os.environ.get('VF_VERBOSE'):
                        print('[%s] %.1fs obl=%d dis=%d viol=%d incon=%s' % (j.name, j.wall, j.obl, j.dis, len(j.viol), j.incon[:3]), flush=True)

    def finish(self):
        R = self.results
        known = load_known(self.prop)
        viol = [(j.name, w, c) for j in R for w, c in j.viol]
        out = []
        seen = {}
        for n, w, c in viol:
            k = match_known(known, n, w, c)
            if k:
                seen[k['id']] = seen.get(k['id'], 0) + 1
                if seen[k['id']] == 1:
                    print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
            else:
                out.append((n, w, c))
        for j in R:
            for w in j.known:
                print('KNOWN-FINDING: property=%s %s' % (self.prop, w))
        incon = [x for j in R for x in j.incon]
        for x in incon:
            print('INCONCLUSIVE: %s' % x)
        obl = sum(j.obl for j in R)
        dis = sum(j.dis for j in R)
        fns = {}
        for j in R:
            for k, v in j.fns.items():
                fns[k] = fns.get(k, 0) + v
        bounds = list(self.bounds)
        for j in R:
            for b in j.bounds:
                if b not in bounds:
                    bounds.append(b)
        assume = list(self.assumptions)
        for j in R:
            for b in j.assume:
                if b not in assume:
                    assume.append(b)
        repo_fns = sorted(k for k in fns if not k.startswith(('std::', '__gnu', 'h_', 'operator')))
        expl = ('%d obligations (assertions over all values within the bounds), %d discharged (%d by a solver query, %d closed by the '
                'term normaliser before the query), %d undecided, %d violated; %d symbolic paths, %d solver queries, %.1f s solver time. '
                'Bounds: %s' % (obl, dis, sum(j.by_solver for j in R), sum(j.structural for j in R), len(incon), len(viol),
                                sum(j.paths for j in R), sum(j.queries for j in R), sum(j.solver_s for j in R), '; '.join(bounds)))
        cov = dict(explanation=expl, obligations=obl, discharged=dis, undecided=incon[:40], functions_encoded=repo_fns,
                   bounds=bounds, queries=sum(j.queries for j in R), solver_seconds=round(sum(j.solver_s for j in R), 2),
                   discharged_by_solver=sum(j.by_solver for j in R), discharged_by_normaliser=sum(j.structural for j in R),
                   paths=sum(j.paths for j in R), vacuity_witnesses=sorted({v for j in R for v in j.vac}),
                   jobs=[dict(name=j.name, obligations=j.obl, discharged=j.dis, wall_s=round(getattr(j, 'wall', 0), 2)) for j in R],
                   samples=[s for j in R for s in j.samples][:6] or ['(none)'],
                   checker_cmd='python3-vt checks/%s.py' % self.prop, trusted_base=self.trusted)
        cov.update(self.extra)
        if self.level == 'model_checking':
            cov.setdefault('states', cov['paths'])
            cov.setdefault('transitions', cov['queries'])
            cov.setdefault('traces_validated_against_impl', self.extra.get('validated', 0))
        ev = dict(property=self.prop, tier='thorough' if not self.quick else 'quick', seed=self.seed, level=self.level, coverage=cov,
                  assumptions=assume, wall_s=round(time.time() - self.t0, 2), violations=len(out))
        os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
        with open(os.path.join(OUT, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s: %s' % (self.prop, expl))
        if out:
            rd = os.path.join(OUT, 'out', self.prop)
            os.makedirs(rd, exist_ok=True)
            for i, (n, w, c) in enumerate(out[:10]):
                path = os.path.join(rd, 'cex_%d.json' % i)
                with open(path, 'w') as f:
                    json.dump(dict(property=self.prop, job=n, what=w, counterexample=c), f, indent=1, default=str)
                print('  [%s] %s' % (n, w))
                print('VIOLATION property=%s replay=%s' % (self.prop, path))
            sys.stdout.flush()
            sys.exit(1)
        sys.stdout.flush()
        sys.exit(0)


def _runjob(name, fn, args, kw, tx):
    j = Job(name)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (14 << 30, 14 << 30))
    except Exception:
        pass
    try:
        fn(j, *args, **kw)
    except MemoryError:
        j.inconclusive('%s: out of memory' % name)
    except BaseException as e:
        j.inconclusive('%s: %s: %s' % (name, type(e).__name__, str(e)[:500]))
        j.notes.append(traceback.format_exc())
        if os.environ.get('VF_VERBOSE'):
            traceback.print_exc(limit=-3)
    j._z = None
    try:
        tx.send(j)
    except BaseException as e:
        j2 = Job(name)
        j2.inconclusive('%s: result not transferable %r' % (name, e))
        tx.send(j2)
    tx.close()
    os._exit(0)


def load_known(prop):
    p = os.path.join(HERE, 'known_findings.jsonl')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('{'):
                d = json.loads(l)
                if d.get('property') == prop and d.get('kind') == 'finding':
                    out.append(d)
    return out


def match_known(known, job, what, cex):
    for k in known:
        if k.get('id') and k['id'] == (cex or {}).get('known_id'):
            return k
    return None
