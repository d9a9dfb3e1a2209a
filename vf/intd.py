"""Integer reading of bit-vector terms.

Every term t of width w is read as a polynomial P (rational coefficients) over
integer atoms with  t = P mod 2^w  and a known interval for P.  Truncations
introduce `low` atoms:  low_k(P) = P mod 2^k, so that
floor(P / 2^k) = (P - low_k(P)) / 2^k  stays a polynomial and carry chains
telescope.  Linear side conditions go to z3 (integer arithmetic)."""
import time
from fractions import Fraction
from . import term as tm
from .term import T

ONE = ()


def _c(x):
    return x.numerator if x.__class__ is Fraction and x.denominator == 1 else x


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = _c(r.get(m, 0) + c * k)
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pscale(a, k):
    return {m: _c(c * k) for m, c in a.items()} if k else {}


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n)) if m and n else m or n
            v = _c(r.get(k, 0) + c * d)
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def pconst(c):
    return {ONE: c} if c else {}


class IntDom:
    def __init__(self, gran=32, timeout=20000):
        self.g = gran
        self.rng_ = []       # atom -> (lo, hi)
        self.name = []
        self.defs = {}       # low atom -> (poly, k)
        self.low_ = {}
        self.keyed = {}
        self.ite_ = {}       # atom -> (cond, P1, P2)
        self.bool_ = {}      # atom -> bool term
        self.div_ = {}       # quotient atom -> (Px, Pd, remainder atom poly)
        self.quot_ = {}      # quotient atom of an eliminated low atom
        self.c = {}
        self.vb = {}         # var name -> (lo,hi) extra bounds for whole vars
        self.solver_s = 0.0
        self.queries = 0
        self.timeout = timeout
        self.rw = {}

    # ------------------------------------------------------------- atoms
    def atom(self, key, lo, hi, name=None):
        a = self.keyed.get(key)
        if a is None:
            a = len(self.rng_)
            self.keyed[key] = a
            self.rng_.append((lo, hi))
            self.name.append(name or str(key))
        return a

    def mono_rng(self, m):
        lo, hi = 1, 1
        for a in m:
            l, h = self.rng_[a]
            if l >= 0 and lo >= 0:
                lo, hi = lo * l, hi * h
            else:
                xs = (lo * l, lo * h, hi * l, hi * h)
                lo, hi = min(xs), max(xs)
        return lo, hi

    def rng(self, P):
        lo = hi = 0
        for m, c in P.items():
            l, h = self.mono_rng(m)
            if c > 0:
                lo += c * l
                hi += c * h
            else:
                lo += c * h
                hi += c * l
        # the value is an integer
        return -((-lo) // 1), hi // 1

    def mkv(self, P, lo=None, hi=None):
        l, h = self.rng(P)
        if lo is not None:
            l = max(l, lo)
            h = min(h, hi)
        return (P, l, h)

    # ------------------------------------------------------------- low part
    def subst_zero(self, P, k):
        """is P = 0 mod 2^k identically, using the definitions of low atoms?"""
        M = 1 << k
        cur = P
        for _ in range(24):
            for m, c in cur.items():
                if c.__class__ is Fraction:
                    return False
            cur = {m: c % M for m, c in cur.items() if c % M}
            if not cur:
                return True
            # substitute the newest low atom with an integral definition of enough bits
            best = None
            for m in cur:
                for a in m:
                    d = self.defs.get(a)
                    if d and d[1] >= k and (best is None or a > best) and all(c.__class__ is int for c in d[0].values()):
                        best = a
            if best is None:
                return False
            D = self.defs[best][0]
            nxt = {}
            for m, c in cur.items():
                if best in m:
                    l = list(m)
                    l.remove(best)
                    nxt = padd(nxt, pmul({tuple(l): c}, D))
                else:
                    nxt = padd(nxt, {m: c})
            cur = nxt
            if len(cur) > 400:
                return False
        return False

    def canon(self, Q, k):
        M = 1 << k
        for _ in range(200):
            best = None
            for m, c in Q.items():
                if len(m) == 1 and c.__class__ is int:
                    d = self.defs.get(m[0])
                    if d and d[1] >= k and (best is None or m[0] > best):
                        best = m[0]
            if best is None or len(Q) > 300:
                break
            c = Q.pop((best,))
            n = padd(Q, self.defs[best][0], c)
            Q = {}
            for m, c in n.items():
                r = _c(c - M * (c // M)) if c.__class__ is Fraction else c % M
                if r:
                    Q[m] = r
        return Q

    def low(self, P, lo, hi, k):
        M = 1 << k
        if lo >= 0 and hi < M:
            return (P, lo, hi)
        Q = {}
        for m, c in P.items():
            r = _c(c - M * (c // M)) if c.__class__ is Fraction else c % M
            if r:
                Q[m] = r
        if not Q:
            return ({}, 0, 0)
        if len(Q) == 1 and ONE in Q and Q[ONE].__class__ is int:
            return (Q, Q[ONE], Q[ONE])
        l, h = self.rng(Q)
        if l >= 0 and h < M:
            return (Q, l, h)
        # signed representatives
        Qs = {m: (c - M if 2 * c > M else c) for m, c in Q.items()}
        l, h = self.rng(Qs)
        if Qs == P:
            l, h = max(l, lo), min(h, hi)
        if l >= 0 and h < M:
            return (Qs, l, h)
        if k == 1 and l >= -1 and h <= 0:
            return (pscale(Qs, -1), -h, -l)
        if l >= -M and h < 0:
            return self.mkv(padd(Qs, {ONE: M}), l + M, h + M)
        E = self.canon(dict(Q), k)
        if not E:
            return ({}, 0, 0)
        key = ('low', k, frozenset(E.items()))
        a = self.low_.get(key)
        if a is None:
            if self.subst_zero(Q, k):
                a = -1
            else:
                a = self.atom(key, 0, M - 1, 'low%d_%d' % (k, len(self.rng_)))
                self.defs[a] = (Qs if len(str(Qs)) < len(str(Q)) else Q, k)
            self.low_[key] = a
        if a == -1:
            return ({}, 0, 0)
        return ({(a,): 1}, 0, M - 1)

    def floor(self, P, lo, hi, k):
        if k == 0:
            return (P, lo, hi)
        L, _, _ = self.low(P, lo, hi, k)
        F = pscale(padd(P, L, -1), Fraction(1, 1 << k))
        return self.mkv(F, lo >> k, hi >> k)

    # ------------------------------------------------------------- readings
    def uval(self, t, w=None):
        if t.__class__ is int:
            return (pconst(t), t, t)
        P, lo, hi = self.val(t)
        return self.low(P, lo, hi, t.w)

    def sval(self, t):
        w = t.w
        P, lo, hi = self.val(t)
        H = 1 << (w - 1)
        if lo >= -H and hi < H:
            return (P, lo, hi)
        P, lo, hi = self.low(P, lo, hi, w)
        if hi < H:
            return (P, lo, hi)
        P2, l2, h2 = self.low(padd(P, {ONE: H}), lo + H, hi + H, w)
        return (padd(P2, {ONE: -H}), l2 - H, h2 - H)

    def val(self, t):
        if t.__class__ is int:
            return (pconst(t), t, t)
        c = self.c
        if t in c:
            return c[t]
        # iterative over topo
        for x in tm.topo([t], _Seen(c)):
            c[x] = self._val(x)
        return c[t]

    def _sv(self, x, w):
        """value of operand; constants of the upper half as negatives"""
        if x.__class__ is int:
            if 2 * x >= (1 << w):
                x -= 1 << w
            return (pconst(x), x, x)
        return self.c[x]

    def slice(self, v, lo, n):
        """slice of a variable"""
        g = self.g
        if v.w <= g:
            b = self.vb.get(v.a[0], (0, (1 << v.w) - 1))
            A = self.atom(('var', v.a[0], 0), b[0], b[1], v.a[0])
            base = ({(A,): 1},) + tuple(b)
            if lo == 0 and n == v.w:
                return base
            F = self.floor(*base, lo)
            return self.low(*F, n)
        r = {}
        for k in range(lo // g, (lo + n + g - 1) // g):
            wl = min(g, v.w - k * g)
            A = self.atom(('var', v.a[0], k), 0, (1 << wl) - 1, '%s.%d' % (v.a[0], k))
            s = ({(A,): 1}, 0, (1 << wl) - 1)
            b0 = max(lo - k * g, 0)
            b1 = min(lo + n - k * g, wl)
            if b0 or b1 < wl:
                s = self.low(*self.floor(*s, b0), b1 - b0)
            r = padd(r, s[0], 1 << (k * g + b0 - lo))
        return self.mkv(r, 0, (1 << n) - 1)

    def _val(self, t):
        op = t.op
        a = t.a
        w = t.w
        if op == 'var':
            return self.slice(t, 0, w)
        if op == 'extract':
            if a[0].op == 'var':
                return self.slice(a[0], a[1], w)
            P, lo, hi = self.c[a[0]]
            F = self.floor(P, lo, hi, a[1])
            # keep the representative small
            if F[1] < -(1 << w) or F[2] >= (2 << w):
                return self.low(*F, w)
            return F
        if op == 'add' or op == 'sub':
            x = self._sv(a[0], w)
            y = self._sv(a[1], w)
            if op == 'add':
                r = self.mkv(padd(x[0], y[0]), x[1] + y[1], x[2] + y[2])
            else:
                r = self.mkv(padd(x[0], y[0], -1), x[1] - y[2], x[2] - y[1])
            return r
        if op == 'mul':
            x = self._sv(a[0], w)
            y = self._sv(a[1], w)
            if len(x[0]) > 3:
                x = self.low(*x, w)
            if len(y[0]) > 3:
                y = self.low(*y, w)
            if len(x[0]) * len(y[0]) > 600:
                return self.opaque(t)
            q = (x[1] * y[1], x[1] * y[2], x[2] * y[1], x[2] * y[2])
            return self.mkv(pmul(x[0], y[0]), min(q), max(q))
        if op == 'concat':
            r = {}
            sh = w
            for i in range(0, len(a), 2):
                sh -= a[i + 1]
                v = self.uval(a[i])
                r = padd(r, v[0], 1 << sh)
            return self.mkv(r, 0, (1 << w) - 1)
        if op == 'sext':
            return self.sval(a[0])
        if op == 'shl' and a[1].__class__ is int:
            x = self._sv(a[0], w)
            return self.mkv(pscale(x[0], 1 << a[1]), x[1] << a[1], x[2] << a[1])
        if op == 'lshr' and a[1].__class__ is int:
            x = self.uval(a[0])
            return self.floor(*x, a[1])
        if op == 'ashr' and a[1].__class__ is int:
            x = self.sval(a[0])
            return self.floor(*x, a[1])
        if op == 'ite':
            r = self.iterw(a[0], a[1], a[2])
            if r is not None:
                return self.val(r)
            if w == 1:
                return self.boolatom(t)
            x = self.uval(a[1])
            y = self.uval(a[2])
            if x[0] == y[0]:
                return x
            A = self.atom(('ite', a[0], a[1], a[2]), min(x[1], y[1]), max(x[2], y[2]))
            self.ite_[A] = (a[0], x[0], y[0])
            return ({(A,): 1}, min(x[1], y[1]), max(x[2], y[2]))
        if w == 1 and op in ('eq', 'ult', 'slt', 'xor', 'and', 'or'):
            return self.boolatom(t)
        if op in ('udiv', 'urem'):
            q, r = self.divrem(a[0], a[1], w)
            return q if op == 'udiv' else r
        return self.opaque(t)

    def divrem(self, x, d, w):
        X = self.uval(x)
        D = self.uval(d)
        key = ('div', x if x.__class__ is int else x.id, d if d.__class__ is int else d.id, w)
        qh = X[2] // max(D[1], 1)
        A = self.atom(key, 0, qh)
        q = ({(A,): 1}, 0, qh)
        r = self.mkv(padd(X[0], pmul({(A,): 1}, D[0]), -1), 0, max(D[2] - 1, 0) if D[1] > 0 else max(D[2], 0))
        if A not in self.div_:
            self.div_[A] = (X[0], D[0], r[0])
            # tighten the quotient: q*d <= x
            if D[1] >= 1:
                for n in (8, 16, 32, 64):
                    if qh >= (1 << n):
                        if self.prove_q(A, X[0], D[0], 1 << n):
                            self.rng_[A] = (0, (1 << n) - 1)
                            q = ({(A,): 1}, 0, (1 << n) - 1)
                            break
        else:
            l, h = self.rng_[A]
            q = ({(A,): 1}, l, h)
        return q, r

    def prove_q(self, A, X, D, lim):
        """X < lim * D must hold (then q < lim): X - lim*D <= -1, by bounding known remainders r <= d-1"""
        E = padd(X, D, -lim)
        # X = 2^k * r + low  with r <= D-1 : substitute
        for B, (x2, d2, r2) in self.div_.items():
            if B == A or d2 != D:
                continue
            for sh in (8, 16, 32, 64):
                F = padd(E, padd(r2, padd(D, {ONE: -1}), -1), -(1 << sh))   # replaces r2 by D-1 at weight 2^sh (upper bound)
                if self.rng(F)[1] <= -1:
                    return True
        return self.rng(E)[1] <= -1

    def boolatom(self, t):
        A = self.atom(('bool', t), 0, 1)
        self.bool_[A] = t
        return ({(A,): 1}, 0, 1)

    def opaque(self, t):
        A = self.atom(('opq', t), 0, (1 << t.w) - 1)
        return ({(A,): 1}, 0, (1 << t.w) - 1)

    def iterw(self, c, x, y):
        """ite(c, x, y) where one side equals the other under the condition's equality"""
        neg = False
        while c.__class__ is T and c.op == 'xor' and c.a[1].__class__ is int and c.w == 1:
            c = c.a[0]
            neg = not neg
        if neg:
            x, y = y, x
        if c.op == 'eq' and (c.a[1].__class__ is int or c.a[0].__class__ is int):
            v, k = (c.a[0], c.a[1]) if c.a[1].__class__ is int else (c.a[1], c.a[0])
            if y.__class__ is T:
                y0 = subst(y, {v: k})
                if y0 is x or y0 == x:
                    return y
                x0 = subst(x, {v: k}) if x.__class__ is T else x
                if y0 is x0 or y0 == x0:
                    return y
        return None

    # ------------------------------------------------------------- z3
    def z3(self):
        import z3
        return z3

    def begin(self):
        self.zv = {}
        self.zcons = []
        self.zb = {}
        self.zdone = set()

    def zmono(self, m):
        z3 = self.z3()
        v = self.zv.get(m)
        if v is None:
            v = z3.Int('m' + '_'.join(map(str, m)))
            self.zv[m] = v
            lo, hi = self.mono_rng(m)
            self.zcons.append(v >= lo)
            self.zcons.append(v <= hi)
            if len(m) == 1:
                self.zatom(m[0], v)
        return v

    def zatom(self, a, v):
        z3 = self.z3()
        if a in self.ite_:
            c, p, q = self.ite_[a]
            if self.elim_on:
                p, q = self.elim(p), self.elim(q)
            d = max(self.den(p), self.den(q))
            self.zcons.append(d * v == z3.If(self.zbool(c), self.zint(pscale(p, d)), self.zint(pscale(q, d))))
        elif a in self.bool_:
            self.zcons.append(v == z3.If(self.zbool(self.bool_[a]), 1, 0))
        elif a in self.div_:
            X, D, R = self.div_[a]
            if list(D) == [ONE]:
                self.zcons.append(self.zint(R) >= 0)
                self.zcons.append(self.zint(R) <= D[ONE] - 1)
        elif a in self.quot_ and self.quot_defs:
            X, k = self.defs[self.quot_[a]]
            E = padd(self.elim(X), {(a,): -(1 << k)})
            self.zcons.append(self.zrel(E, '>='))
            self.zcons.append(self.zrel(padd(E, {ONE: 1 - (1 << k)}), '<='))
        elif a in self.defs and self.use_defs:
            P, k = self.defs[a]
            if len(P) <= self.use_defs:
                den = 1
                for c in P.values():
                    if c.__class__ is Fraction:
                        den = max(den, c.denominator)
                q = z3.Int('q%d' % a)
                lo, hi = self.rng(P)
                self.zcons.append(q >= lo >> k)
                self.zcons.append(q <= hi >> k)
                self.zcons.append(self.zint(pscale(P, den)) == den * v + den * (1 << k) * q)

    use_defs = 6

    def zint(self, P):
        """integer expression; coefficients must be integral"""
        z3 = self.z3()
        r = []
        for m, c in P.items():
            if c.__class__ is Fraction:
                raise FracErr()
            r.append(z3.IntVal(c) if m == ONE else c * self.zmono(m))
        return z3.Sum(r) if len(r) > 1 else r[0] if r else z3.IntVal(0)

    def den(self, P):
        d = 1
        for c in P.values():
            if c.__class__ is Fraction:
                d = d * c.denominator // __import__('math').gcd(d, c.denominator)
        return d

    # eliminate every low atom by its definition (a = X - 2^k q with an integer q): carry chains telescope
    def elim(self, P):
        cur = P
        while True:
            best = -1
            for m in cur:
                for a in m:
                    if a > best and a in self.defs and a not in self.keep:
                        best = a
            if best < 0:
                return cur
            X, k = self.defs[best]
            q = self.quot(best)
            D = padd(X, {(q,): -(1 << k)})
            nxt = {}
            for m, c in cur.items():
                if best in m:
                    l = list(m)
                    l.remove(best)
                    for mm, cc in pmul({tuple(l): c}, D).items():
                        v = _c(nxt.get(mm, 0) + cc)
                        if v:
                            nxt[mm] = v
                        else:
                            nxt.pop(mm, None)
                else:
                    v = _c(nxt.get(m, 0) + c)
                    if v:
                        nxt[m] = v
                    else:
                        nxt.pop(m, None)
            cur = nxt

    keep = ()
    elim_on = False
    quot_defs = False

    def quot(self, a):
        X, k = self.defs[a]
        lo, hi = self.rng(X)
        q = self.atom(('quot', a), lo >> k, hi >> k, 'q%d' % a)
        self.quot_[q] = a
        return q

    def fact(self, e):
        """range of a word-level value as a constraint"""
        if self.elim_on and e.__class__ is T and e not in self.zdone:
            self.zdone.add(e)
            P, lo, hi = self.uval(e)
            self.zcons.append(self.zrel(padd(P, {ONE: -lo}), '>='))
            self.zcons.append(self.zrel(padd(P, {ONE: -hi}), '<='))

    def zrel(self, P, op):
        """P op 0 with P scaled to integers"""
        if self.elim_on:
            P = self.elim(P)
        z = self.zint(pscale(P, self.den(P)))
        return {'==': z == 0, '<': z < 0, '<=': z <= 0, '>=': z >= 0, '!=': z != 0}[op]

    def zbool(self, t):
        z3 = self.z3()
        if t.__class__ is int:
            return z3.BoolVal(bool(t))
        r = self.zb.get(t)
        if r is not None:
            return r
        op, a = t.op, t.a
        if op == 'xor':
            if a[1].__class__ is int:
                r = z3.Not(self.zbool(a[0]))
            else:
                r = z3.Xor(self.zbool(a[0]), self.zbool(a[1]))
        elif op == 'and':
            r = z3.And(self.zbool(a[0]), self.zbool(a[1]))
        elif op == 'or':
            r = z3.Or(self.zbool(a[0]), self.zbool(a[1]))
        elif op == 'ite':
            r = z3.If(self.zbool(a[0]), self.zbool(a[1]), self.zbool(a[2]))
        elif op == 'eq':
            r = self.zeq(a[0], a[1])
        elif op == 'ult':
            r = self.zcmp(a[0], a[1], False)
        elif op == 'slt':
            r = self.zcmp(a[0], a[1], True)
        else:
            P = self.uval(t)[0]
            r = self.zrel(padd(P, {ONE: -1}), '==')
        self.zb[t] = r
        return r

    def zeq(self, x, y):
        z3 = self.z3()
        if x.__class__ is int:
            x, y = y, x
        # push equality with a constant through ite of constants
        if y.__class__ is int and x.op == 'ite' and self.iterw(*x.a) is None:
            return z3.If(self.zbool(x.a[0]), self.zeqc(x.a[1], y), self.zeqc(x.a[2], y))
        self.fact(x)
        self.fact(y)
        P = padd(self.uval(x)[0], self.uval(y)[0], -1)
        return self.zrel(P, '==')

    def zeqc(self, x, k):
        if x.__class__ is int:
            return self.z3().BoolVal(x == k)
        return self.zeq(x, k)

    def zcmp(self, x, y, signed):
        z3 = self.z3()
        for (u, v, sw) in ((x, y, False), (y, x, True)):
            if u.__class__ is T and u.op == 'ite' and v.__class__ is int and self.iterw(*u.a) is None:
                f = (lambda e: self.zcmpc(v, e, signed, u.w)) if sw else (lambda e: self.zcmpc(e, v, signed, u.w))
                return z3.If(self.zbool(u.a[0]), f(u.a[1]), f(u.a[2]))
        w = x.w if x.__class__ is T else y.w

        def rd(e):
            if e.__class__ is int:
                return pconst(e - (1 << w) if signed and e >> (w - 1) else e)
            self.fact(e)
            return (self.sval(e) if signed else self.uval(e))[0]
        return self.zrel(padd(rd(x), rd(y), -1), '<')

    def zcmpc(self, x, y, signed, w):
        if x.__class__ is int and y.__class__ is int:
            return self.z3().BoolVal(bool(tm.slt(w, x, y) if signed else tm.ult(w, x, y)))
        return self.zcmp(x, y, signed)

    def unsat(self, cons):
        """is the conjunction (plus side conditions) unsatisfiable? True/False/None"""
        z3 = self.z3()
        s = z3.Solver()
        s.set('timeout', self.timeout)
        s.add(*cons)
        s.add(*self.zcons)
        t0 = time.time()
        r = str(s.check())
        self.solver_s += time.time() - t0
        self.queries += 1
        return True if r == 'unsat' else False if r == 'sat' else None


class FracErr(Exception):
    pass


class _Seen:
    def __init__(self, c):
        self.c = c
        self.s = set()

    def __contains__(self, x):
        return x in self.s or x in self.c

    def add(self, x):
        self.s.add(x)


def rebuild(t, k):
    """same operator, new kids (in the order of tm.kids)"""
    op, a, w = t.op, t.a, t.w
    if op == 'extract':
        return tm.extract(k[0], a[1], w)
    if op == 'concat':
        return tm.concat(list(zip(k, a[1::2])))
    if op == 'sext':
        return tm.sext(w, k[0], a[0].w)
    if op == 'ite':
        return tm.ite(w, k[0], k[1], k[2])
    if op in ('eq', 'ult', 'slt'):
        ww = (a[0] if a[0].__class__ is T else a[1]).w
        return getattr(tm, op)(ww, k[0], k[1])
    if op == 'lookup':
        return tm.lookup(a[0], k[0])
    if op == 'sel':
        return tm.sel(w, tuple(k[:-1]), k[-1])
    if op == 'uf':
        return tm.uf(a[0], w, list(zip(k, a[2::2])))
    if op == 'var':
        return t
    f = {'and': tm.and_, 'or': tm.or_}.get(op) or getattr(tm, op)
    return f(w, k[0], k[1])


def subst(t, mp, cache=None):
    c = dict(mp) if cache is None else cache
    for x in tm.topo([t], _Seen(c)):
        ks = tm.kids(x)
        nk = [k if k.__class__ is int else c[k] for k in ks]
        c[x] = x if all(p is q for p, q in zip(ks, nk)) else rebuild(x, nk)
    return c[t]


def split_ites(dom, t, pc=(), limit=64):
    """case split a term on the conditions of its non-collapsible ite nodes: list of (conds, ite-free term)"""
    out = []
    work = [(list(pc), t)]
    while work:
        cs, g = work.pop()
        if g.__class__ is int:
            out.append((cs, g))
            continue
        nodes = [x for x in tm.topo([g]) if x.op == 'ite' and dom.iterw(*x.a) is None]
        if not nodes:
            out.append((cs, g))
            continue
        # the last one in topological order is closest to the root
        c = nodes[-1].a[0]
        for val in (1, 0):
            mp = {}
            for x in nodes:
                d = x.a[0]
                if d is c:
                    mp[x] = x.a[1] if val else x.a[2]
                elif d.__class__ is T and d.op == 'xor' and d.a[0] is c and d.a[1] == 1:
                    mp[x] = x.a[2] if val else x.a[1]
            # apply from the leaves up so that nested replacements are themselves rewritten
            cache = {}
            for x in tm.topo([g]):
                y = mp.get(x, x)
                if y.__class__ is int:
                    cache[x] = y
                elif y is not x:
                    cache[x] = cache[y]
                else:
                    ks = tm.kids(x)
                    nk = [k if k.__class__ is int else cache[k] for k in ks]
                    cache[x] = x if all(p is q for p, q in zip(ks, nk)) else rebuild(x, nk)
            n = cache[g]
            work.append((cs + [c if val else tm.not_(c)], n))
        if len(work) + len(out) > limit:
            return None
    return out
