"""Call sequences: a list of calls of exported functions on named buffers is run
symbolically and, for a counterexample, natively with the same arguments."""
from .check import *
from . import ex as X


class Script:
    def __init__(self, j, e, so, what, ufs=None, timeout=30000):
        self.j, self.e, self.so, self.what, self.ufs, self.timeout = j, e, so, what, ufs, timeout
        self.B = {}         # name -> (size, cells|None)
        self.calls = []     # (fn, args, expected return or None)
        self.pre = []
        self.st = X.State(e)
        self.final = {}     # name -> list of expected bytes (None = not judged)

    def buf(self, name, size, data=None):
        """data: list of terms / ints; None = uninitialised output"""
        self.B[name] = (size, data)
        p = self.st.alloc(size)
        if data is not None and size:
            self.st.putbytes(p, list(data))
        self.ptr = getattr(self, 'ptr', {})
        self.ptr[name] = p
        return name

    def long(self, name, total, tail):
        """read-only input of `total` bytes: zeros, then the bytes of `tail`"""
        self.B[name] = (total, list(tail))
        self.longs = getattr(self, 'longs', set()) | {name}
        self.ptr = getattr(self, 'ptr', {})
        self.ptr[name] = self.st.alloc_long(total, tail)
        return name

    def sym(self, name, size):
        v = [tm.var('%s_%d' % (name, i), 8) for i in range(size)]
        self.buf(name, size, v)
        return v

    def call(self, fn, *args, ret=None):
        """args: int, 'name' or ('name', offset)"""
        self.calls.append((fn, args, ret))

    def expect(self, name, data):
        self.final[name] = list(data)

    def native(self, env):
        idx = {}
        seen = []
        calls = []
        for fn, args, ret in self.calls:
            a = []
            for x in args:
                if isinstance(x, int):
                    a.append(x)
                    continue
                n, off = (x, 0) if isinstance(x, str) else x
                if n not in idx:
                    idx[n] = len(idx)
                    size, data = self.B[n]
                    if data is None:
                        raw = b'\xa5' * size
                    else:
                        raw = bytes(tm.evaluate(list(data), env, self.ufs))
                    if off:
                        # register at first use with offset: allocate through a dummy leading call is impossible, so
                        # such buffers are introduced by the harness function h_touch
                        raise Exception('first use of %s has an offset' % n)
                    a.append(('zbuf', size, raw) if n in getattr(self, 'longs', ()) else ('buf', raw))
                else:
                    a.append(('ref', idx[n], off))
            calls.append((fn, a))
        return native(self.so, calls, 300 if getattr(self, 'longs', None) else 60), idx

    def confirm(self, env, path=None):
        r, idx = self.native(env)
        cx = dict(what=self.what, calls=[(f, [x if isinstance(x, int) else str(x) for x in a]) for f, a, _ in self.calls],
                  inputs={n: bytes(tm.evaluate(list(d), env, self.ufs)).hex() for n, (s, d) in self.B.items() if d is not None and s})
        if 'crash' in r:
            cx['observed'] = r['crash']
            return cx
        for i, (f, a, ret) in enumerate(self.calls):
            if ret is None:
                continue
            w, t = ret if isinstance(ret, tuple) else (32, ret)
            ev = tm.evaluate([t], env, self.ufs)[0]
            if r['ret'][i] & ((1 << w) - 1) != ev & ((1 << w) - 1):
                cx['observed'] = 'call %d (%s) returned %#x' % (i, f, r['ret'][i] & ((1 << w) - 1))
                cx['expected'] = hex(ev)
                return cx
        for n, d in self.final.items():
            if n not in idx:
                continue
            got = r['bufs'][idx[n]]
            for k, x in enumerate(d):
                if x is None:
                    continue
                ev = tm.evaluate([x], env, self.ufs)[0]
                if got[k] != ev:
                    cx['observed'] = '%s = %s' % (n, got.hex())
                    cx['expected'] = 'byte %d = %#x' % (k, ev)
                    return cx
        return None

    def run(self, hunt=None):
        """decide everything; hunt(i) -> env for witness search when an obligation is not decided"""
        j = self.j
        paths = [self.st]
        bad = []
        for i, (fn, args, ret) in enumerate(self.calls):
            nxt = []
            for st in paths:
                a = [x if isinstance(x, int) else self.ptr[x] if isinstance(x, str) else self.e_add(x) for x in args]
                for p in self.e.call(st, fn, a):
                    if p.kind != 'ret':
                        self.never(p.st, [], '%s: call %d (%s): %s' % (self.what, i, fn, p.info or p.kind))
                        continue
                    if ret is not None:
                        w, t = ret if isinstance(ret, tuple) else (32, ret)
                        g = p.st.ret
                        g = g & ((1 << w) - 1) if g.__class__ is int else tm.extract(g, 0, w) if g.w > w else g
                        self.never(p.st, [tm.ne(w, g, t)], '%s: return value of call %d (%s)' % (self.what, i, fn))
                    nxt.append(p.st)
            paths = nxt
        for st in paths:
            for n, d in self.final.items():
                cells = st.cells(self.ptr[n], self.B[n][0])
                diff = []
                for k, x in enumerate(d):
                    if x is None:
                        continue
                    if cells[k] is None:
                        self.never(st, [], '%s: byte %d of %s never written' % (self.what, k, n))
                        diff = []
                        break
                    g = st.load(self.ptr[n] + k, 1)
                    c = tm.ne(8, g, x)
                    if c.__class__ is int and not c:
                        continue
                    diff.append(c)
                r = 0
                for c in diff:
                    r = tm.or_(1, r, c)
                if d:
                    self.never(st, [r], '%s: contents of %s' % (self.what, n))
        return paths

    def e_add(self, x):
        return self.ptr[x[0]] + x[1]

    def gen(self, i):
        import random
        rnd = random.Random(self.j.name + str(i))
        vs = tm.vars_of([x for s, d in self.B.values() if d is not None for x in d] + self.pre)
        groups = {}
        for v in vs:
            groups.setdefault(v.a[0].rsplit('_', 1)[0], []).append(v)
        for _ in range(50):
            env = {}
            for g in groups.values():
                mode = rnd.randrange(8)
                hot = rnd.choice(g)
                for v in g:
                    if mode < 4:
                        x = rnd.getrandbits(v.w)
                    elif mode == 4:
                        x = rnd.choice([0, (1 << v.w) - 1, rnd.getrandbits(v.w)])
                    elif mode == 5:
                        x = 0
                    elif mode == 6:
                        x = (1 << rnd.randrange(v.w)) if v is hot else 0
                    else:
                        x = (1 << v.w) - 1
                    env[v.a[0]] = x
            if all(tm.evaluate(self.pre, env, self.ufs)):
                return env
        return env

    def never(self, st, extra, what):
        j = self.j
        conds = [c for c in self.pre + st.conds() + extra if not (c.__class__ is int and c)]
        if any(c.__class__ is int for c in conds):
            j.ok(structural=True)
            return True
        r = 'sat'
        env = None
        if conds:
            for i in range(4):
                ev = self.gen(i)
                try:
                    if all(tm.evaluate(conds, ev, self.ufs)):
                        env = ev
                        break
                except Exception:
                    break
            if env is None:
                r, env = j.query(conds, uf=self.ufs is not None, timeout=self.timeout)
        if r == 'unsat':
            j.ok()
            return True
        if getattr(j, 'hunts', 0) < 40:
            j.hunts = getattr(j, 'hunts', 0) + 1
            for i in range(60):
                ev = env if i == 0 and env is not None else self.gen(i)
                cx = self.confirm(ev)
                if cx:
                    j.violation(what, cx)
                    return False
        j.inconclusive(what + (': solver gave no answer' if r != 'sat' else ': counterexample did not reproduce natively'))
        return None
