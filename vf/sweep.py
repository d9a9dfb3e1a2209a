"""Equivalence of two large bit-vector terms by sweeping: internal nodes that
agree on sample values are proved equal one by one with local solver queries
(over a cut of already merged nodes) and merged; the roots then coincide."""
import random
import time
from . import term as tm
from .term import T, kids, topo
from .intd import rebuild


def _cone(x, depth, mp, names, top=True):
    """x with everything deeper than depth, and every sum below the first
    non-sum operator, replaced by a variable (one per node)"""
    key = (x, depth, top)
    if x.__class__ is not T:
        return x
    if key in mp:
        return mp[key]
    arith = x.op in ('add', 'sub', 'mul')
    if x.op == 'var':
        r = x
    elif depth == 0 or (arith and not top):
        r = names.get(x)
        if r is None:
            r = names[x] = tm.fresh('cut', x.w)
    else:
        d = depth if x.op in ('concat', 'extract') or arith else depth - 1
        r = rebuild(x, [_cone(k, d, mp, names, arith) for k in kids(x)])
    mp[key] = r
    return r


class Sweep:
    def __init__(self, j, nsim=8, depths=(2, 4, 7), timeout=4000, budget=300, minw=8):
        self.j, self.depths, self.timeout, self.minw = j, depths, timeout, minw
        self.rnd = random.Random(11)
        self.nsim = nsim
        self.cache = [{} for _ in range(nsim)]
        self.envs = [{} for _ in range(nsim)]
        self.rep = {}
        self.lcache = {}
        self.sigs = {}
        self.end = time.time() + budget
        self.refuted = None     # an environment on which the roots differ

    def sig(self, x):
        if x.__class__ is int:
            return (x,) * self.nsim
        return tuple(c[x] for c in self.cache)

    def load(self, roots):
        for v in tm.vars_of(roots):
            for i, e in enumerate(self.envs):
                if v.a[0] not in e:
                    e[v.a[0]] = self.rnd.getrandbits(v.w) if i else 0
        for i in range(self.nsim):
            todo = [t for t in topo(roots) if t not in self.cache[i]]
            if todo:
                tm.evaluate(roots, self.envs[i], cache=self.cache[i])

    def add(self, roots):
        """register the reference nodes as representatives"""
        self.load(roots)
        for t in topo(roots):
            self.merge(t)

    def merge(self, t):
        r = self.rep.get(t)
        if r is not None:
            return r
        ks = kids(t)
        nk = [self.rep[k] if k.__class__ is T else k for k in ks]
        n = t if all(p is q for p, q in zip(ks, nk)) else rebuild(t, nk)
        if n.__class__ is not T:
            self.rep[t] = n
            return n
        if n is not t:
            for i in range(self.nsim):
                if n not in self.cache[i]:
                    tm.evaluate([n], self.envs[i], cache=self.cache[i])
            if n in self.rep:
                n = self.rep[n]
        r = n
        if n.__class__ is T and n.w >= self.minw and n.op not in ('var', 'extract') and time.time() < self.end:
            s = (n.w, self.sig(n))
            for cand in self.sigs.setdefault(s, []):
                if cand is n:
                    break
                if self.prove(n, cand):
                    r = cand
                    break
            else:
                if len(self.sigs[s]) < 4:
                    self.sigs[s].append(n)
        self.rep[t] = r
        if n is not t and n.__class__ is T:
            self.rep[n] = r
        return r

    def lin(self, x):
        """the bits of x as GF(2)-linear forms over the nodes below that are not xor, concat or extract"""
        m = self.lcache
        if x.__class__ is int:
            return None
        for t in topo([x], set(m)):
            if t.op == 'xor':
                p, q = (self._lb(k, t.w) for k in t.a)
                m[t] = [u ^ v for u, v in zip(p, q)]
            elif t.op == 'concat':
                o = []
                for i in range(len(t.a) - 2, -1, -2):
                    o += self._lb(t.a[i], t.a[i + 1])
                m[t] = o
            elif t.op == 'extract':
                m[t] = m[t.a[0]][t.a[1]:t.a[1] + t.w]
            else:
                m[t] = [frozenset([(t, i)]) for i in range(t.w)]
        return m[x]

    def _lb(self, x, w):
        if x.__class__ is T:
            return self.lcache[x]
        return [frozenset([1]) if x >> i & 1 else frozenset() for i in range(w)]

    def prove(self, a, b):
        if a.op in ('xor', 'concat') and b.op in ('xor', 'concat') and self.lin(a) == self.lin(b):
            self.j.ok(structural=True)
            return True
        for d in self.depths:
            mp, names = {}, {}
            x, y = _cone(a, d, mp, names), _cone(b, d, mp, names)
            if x is y:
                self.j.ok(structural=True)
                return True
            w = a.w
            ne = tm.ne(w, x, y)
            if ne.__class__ is int and ne:
                continue
            r, m = self.j.query([ne], timeout=self.timeout)
            if r == 'unsat':
                self.j.ok()
                return True
            if r != 'sat':
                return False
        return False

    def same(self, w, g, t):
        """True: proved equal; None: not decided; False: differ on a sample (self.refuted)"""
        roots = [x for x in (t, g) if x.__class__ is T]
        self.load(roots)
        sg, ss = self.sig(g), self.sig(t)
        for i in range(self.nsim):
            if sg[i] != ss[i]:
                self.refuted = self.envs[i]
                return False
        for n in topo([t]) if t.__class__ is T else ():
            self.merge(n)
        for n in topo([g]) if g.__class__ is T else ():
            self.merge(n)
        a = self.rep.get(g, g)
        b = self.rep.get(t, t)
        if a is b or (a.__class__ is int and a == b):
            return True
        for i in range(0, w, 8):
            k = min(8, w - i)
            x, y = tm.extract(a, i, k), tm.extract(b, i, k)
            if x is not y and not (x.__class__ is int and x == y):
                if x.__class__ is int or y.__class__ is int or not self.prove(x, y):
                    return None
        return True
