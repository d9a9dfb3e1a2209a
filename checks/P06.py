from tower import *
import random
from N05 import ExpDom, NoExp
C = Check('P06', 'model_checking')
SEED = int(os.environ.get('VERIF_SEED', '1'))
ORD = P ** 12 - 1
EXPO = ORD // N9
T_ = 0x600000000058F98A
assert ORD % N9 == 0
S9 = r'sm9::internal::'


class BaseRing(Ring):
    """Ring where generators named b* are elements of GF(p)"""
    pass


class DomB2(Dom2):
    """fp2 level where an element built from base-field generators only is kept as its two coordinates"""

    def base(self, g):
        return self.R.names[g].startswith('b')

    def term(self, q):
        q = self.red(q)
        if all(g == self.ug or self.base(g) for x in q for g, e in x):
            lo, hi = self.halves(q)
            lo, hi = self.d1.term(self.R, lo), self.d1.term(self.R, hi)
            if lo.__class__ is int and hi.__class__ is int:
                return lo | hi << 256
            return tm.concat([(hi, 256), (lo, 256)])
        return Dom2.term(self, q)

    def halves(self, q):
        lo, hi = {}, {}
        for x, c in q.items():
            y = tuple(t for t in x if t[0] != self.ug)
            (hi if len(y) != len(x) else lo)[y] = c
        return lo, hi


class Pair:
    """one symbolic run of a pairing entry point"""

    def __init__(self, j, ll, fixP, fixQ):
        self.j = j
        e = self.e = X.Ex(X.Prog(ll), 300)
        R = self.R = BaseRing(P, 'p')
        self.d1 = Dom(e, {P: R})
        self.d2 = DomB2(e, R, self.d1)
        self.G1, self.G2 = CURVE['g1'], CURVE['g2']
        U = self.d2.U
        add, mul = R.add, self.d2.mul
        self.rules = [(self.d2.ug, 2, R.c(-2))]
        if fixP:
            self.P = [R.c(self.G1.G[0]), R.c(self.G1.G[1])]
        else:
            self.P = [R.gen('bxP'), R.gen('byP', nonzero=True)]
        if fixQ:
            q = [R.c(v) for c in self.G2.G for v in c]
        else:
            q = [R.gen(n) for n in ('bx0', 'bx1', 'by0', 'by1')]
        self.Qc = q
        self.Q = (add(q[0], mul(q[1], U)), add(q[2], mul(q[3], U)))
        self.nz = []            # polynomials known to be non-zero
        self.fp12 = {}          # vector key -> 12 coefficient polynomials
        self.vec = {}           # generator id -> (vector key, position)
        self.sym = {}           # line symbol -> (A, B)
        self.pts = []           # (label, (X, Y, Z))
        self.ltag = {}
        self.steps = dict(mul=0, sqr=0, line=0, ec=0, pow=0, inv=0)
        c = pow(-2, (P - 1) // 6, P)

        def conj(k):
            return [R.sub(q[2 * k], mul(q[2 * k + 1], U))][0]
        # (x, y) -> the twist image of (x^p, y^p) under w: x w^-2, y w^-3
        i = pow(-2, -((P - 1) // 6), P)
        self.Q1 = (R.scale(conj(0), i), R.scale(conj(1), pow(-2, -((P - 1) // 4) % (P - 1), P)))
        # the second application: conjugation twice is the identity, the constants multiply
        i2 = i * i % P
        j2 = pow(-2, -2 * ((P - 1) // 4) % (P - 1), P)
        self.Q2 = (R.scale(self.Q[0], i2), R.scale(self.Q[1], j2))
        h = self.hook
        h('sm9_fp12_mul', lambda st, r, a, b: self.fmul(st, r, a, b))
        h('sm9_fp12_sqr', lambda st, r, a: self.fmul(st, r, a, a))
        h('sm9_fp12_inv', self.finv)
        h('sm9_fp12_pow', self.fpow)
        h('sm9_ec2_j_dbl', self.dbl)
        h('sm9_ec2_j_add_a', lambda st, r, p, q: self.padd(st, r, self.getj(st, p), self.geta(st, q)))
        h('sm9_ec2_j_add', lambda st, r, p, q: self.padd(st, r, self.getj(st, p), self.getj(st, q)))

    def hook(self, name, f):
        self.e.hook(S9 + name, lambda ex, st, a: f(st, *a), required=False)

    # ---- points of the twist: labels (a, b, c) = aQ + b pi(Q) + c pi^2(Q)
    def affine(self, l):
        k = next((k for k in range(3) if abs(l[k]) == 1 and sum(map(abs, l)) == 1), None)
        if k is None:
            return None
        x, y = (self.Q, self.Q1, self.Q2)[k]
        return (x, self.R.scale(y, l[k]))

    def path(self):
        return Path(self.R, [], self.nz, self.rules)

    def label(self, X_, Y, Z):
        R, mul = self.R, self.d2.mul
        for l, (a, b, c) in self.pts:
            if a == X_ and b == Y and c == Z:
                return l
        for k in range(3):
            for s in (1, -1):
                l = tuple(s if i == k else 0 for i in range(3))
                x, y = self.affine(l)
                z2 = mul(Z, Z)
                if not R.sub(X_, mul(x, z2)) and not R.sub(Y, mul(y, mul(z2, Z))):
                    return l
        raise Lost('unknown point')

    def get2(self, st, p, n):
        return [self.d2.get(st, p + 64 * i) for i in range(n)]

    def getj(self, st, p):
        return self.label(*self.get2(st, p, 3))

    def geta(self, st, p):
        x, y = self.get2(st, p, 2)
        return self.label(x, y, self.R.c(1))

    def putj(self, st, r, l):
        R = self.R
        self.steps['ec'] += 1
        tag = '_%d' % self.steps['ec']
        v = (R.gen('X' + tag), R.gen('Y' + tag, nonzero=True), R.gen('Z' + tag, nonzero=True))
        self.pts.append((l, v))
        for i, x in enumerate(v):
            self.d2.put(st, r + 64 * i, x)

    def dbl(self, st, r, p):
        l = self.getj(st, p)
        self.putj(st, r, tuple(2 * x for x in l))

    def padd(self, st, r, l, m):
        if l == m or l == tuple(-x for x in m):
            raise Lost('degenerate addition')
        self.putj(st, r, tuple(x + y for x, y in zip(l, m)))

    # ---- target group
    def coefs(self, st, p):
        r = [None] * 12
        for i in range(3):
            for k in range(2):
                q = self.d2.get(st, p + 64 * (2 * i + k))
                r[i + 3 * k] = q
        return r[:6]     # coefficients over Fp2 of w^0..w^5

    def full(self, c6):
        """12 base coefficients when every coefficient is built from base generators"""
        r = [None] * 12
        for i, q in enumerate(c6):
            if any(g != self.d2.ug and not self.d2.base(g) for x in q for g, e in x):
                return None
            r[i], r[i + 6] = self.d2.halves(q)
        return r

    def vector(self, st, p):
        """exponent vector {symbol: integer} of a known product, or None"""
        c6 = self.coefs(st, p)
        f = self.full(c6)
        if f is None:
            return None, c6
        if all(all(x == () for x in q) for q in f):
            v = [q.get((), 0) for q in f]
            if v == [1] + [0] * 11:
                return {}, c6
        ks = set()
        cs = []
        for i, q in enumerate(f):
            if len(q) != 1:
                return None, c6
            (x, c), = q.items()
            if len(x) != 1 or x[0][1] != 1 or x[0][0] not in self.vec or self.vec[x[0][0]][1] != i:
                return None, c6
            ks.add(self.vec[x[0][0]][0])
            cs.append(c)
        if len(ks) != 1:
            return None, c6
        for k in range(12):
            g = pow(-2, (P ** k - 1) // 12 % (P - 1), P)
            if all(cs[i] == pow(g, i, P) for i in range(12)):
                return {s: n * P ** k % ORD for s, n in dict(ks.pop()).items()}, c6
        raise Lost('a linear map of a product that is no power of Frobenius')

    def put(self, st, r, v):
        v = {s: n % ORD for s, n in v.items() if n % ORD}
        key = frozenset(v.items())
        if key not in self.fp12:
            n = len(self.fp12)
            g = [self.R.gen('b%d_%d' % (n, i)) for i in range(12)]
            self.fp12[key] = g
            for i, q in enumerate(g):
                self.vec[next(iter(q))[0][0]] = (key, i)
        g = self.fp12[key] if v else [self.R.c(1)] + [{}] * 11
        for s, e in enumerate(SLOT[12]):
            st.store(r + 32 * s, self.d1.term(self.R, g[e]), 32)

    def fmul(self, st, r, a, b):
        self.steps['mul'] += 1
        v, c = self.vector(st, a)
        w, d = (v, c) if a is b else self.vector(st, b)
        if v is None:
            v = self.line(c)
        if w is None:
            w = self.line(d)
        o = dict(v)
        for s, n in w.items():
            o[s] = o.get(s, 0) + n
        self.put(st, r, o)

    def finv(self, st, r, a):
        self.steps['inv'] += 1
        v, c = self.vector(st, a)
        if v is None:
            v = self.line(c)
        self.put(st, r, {s: -n for s, n in v.items()})

    def fpow(self, st, r, a, e):
        self.steps['pow'] += 1
        v, c = self.vector(st, a)
        if v is None:
            v = self.line(c)
        k = st.load(e, 32)
        if k.__class__ is not int:
            raise Lost('symbolic exponent inside the pairing')
        k = int.from_bytes(k.to_bytes(32, 'little'), 'big')
        self.put(st, r, {s: n * k for s, n in v.items()})

    def line(self, c6):
        """recognise the value at P of a line through two known points, up to a factor in Fp2 times a power of w"""
        key = tuple(frozenset(q.items()) for q in c6)
        if key in self.ltag:
            return self.ltag[key]
        R, mul = self.R, self.d2.mul
        xP, yP = self.P
        # l = (yT - lam xT) + lam xP w^2 - yP w^3, up to w^s
        for s in range(6):
            rot = []
            for i in range(6):
                q = c6[(i + s) % 6]
                rot.append(q if i + s < 6 else mul(q, self.d2.U))
            if any(rot[i] for i in (1, 4, 5)):
                continue
            break
        else:
            raise Lost('not of the shape of a line')
        a0, a2, a3 = rot[0], rot[2], rot[3]
        used = {g for q in c6 for x in q for g, e in x}
        cand = [(l, v) for l, v in self.pts if any(next(iter(x))[0][0] in used for x in v)] or [(l, None) for l in self.unit()]
        others = self.unit()
        for l, v in cand:
            if v is None:
                x1, y1 = self.affine(l)
                z1 = R.c(1)
            else:
                x1, y1, z1 = v
            for m in [l] + [o for o in others if o != l]:
                if m == l:
                    # slope numerator / denominator over affine coordinates X/Z^2, Y/Z^3 : 3X^2 / (2YZ)
                    n, dn = R.scale(mul(x1, x1), 3), R.scale(mul(y1, z1), 2)
                    zn = mul(y1, z1)
                else:
                    x2, y2 = self.affine(m)
                    z2 = mul(z1, z1)
                    # (y2 - Y/Z^3) / (x2 - X/Z^2) = (y2 Z^3 - Y) / (Z (x2 Z^2 - X))
                    n = R.sub(mul(y2, mul(z2, z1)), y1)
                    dx = R.sub(mul(x2, z2), x1)
                    dn = mul(z1, dx)
                    zn = dx
                    if l == tuple(-x for x in m):
                        continue
                # yT - lam xT = (Y/Z^3) - (n/dn)(X/Z^2); multiply by dn Z^3
                z3 = mul(z1, mul(z1, z1))
                e0 = R.sub(mul(y1, dn), mul(n, mul(x1, z1)))
                e2 = mul(mul(n, xP), z3)
                e3 = R.scale(mul(mul(dn, yP), z3), -1)
                if not R.sub(mul(a0, e3), mul(a3, e0)) and not R.sub(mul(a2, e3), mul(a3, e2)) and not R.sub(mul(a2, e0), mul(a0, e2)):
                    # a3 = c * e3 / (dn Z^3): the factor c must not vanish.  T, R are distinct and not opposite, so dx != 0
                    pt = Path(R, [], [zn] if len(zn) > 1 else [], self.rules)
                    if not pt.nonzero(a3):
                        raise Lost('scaling factor of a line may vanish')
                    t = (min(l, m), max(l, m))
                    self.sym[t] = 1
                    self.steps['line'] += 1
                    self.ltag[key] = {t: 1}
                    return {t: 1}
        raise Lost('not the line through known points')

    def unit(self):
        return [tuple(s if i == k else 0 for i in range(3)) for k in range(3) for s in (1, -1)]


def neg(l):
    return tuple(-x for x in l)


def divisor(v):
    """sum n (A) with (-A) = -(A), (O) = 0: divisors modulo those of vertical lines, which lie in Fp6"""
    D = {}

    def put(l, n):
        if not any(l):
            return
        first = next(x for x in l if x)
        if first < 0:
            l, n = neg(l), -n
        D[l] = D.get(l, 0) + n
    for (a, b), n in v.items():
        put(a, n)
        put(b, n)
        put(tuple(x + y for x, y in zip(a, b)), -n)
    return {l: n % ORD for l, n in D.items() if n % ORD}


def job(j, L, variant, fn, fixP, fixQ):
    import pairref
    ll, so = lib(L, variant)
    what = '%s sm9_%s' % (variant, fn)
    S = Pair(j, ll, fixP, fixQ)
    e = S.e
    st = e.run_ctors(X.State(e))
    msg = None
    try:
        r, pp, pq = st.alloc(384), st.alloc(64), st.alloc(128)
        for i in range(2):
            st.store(pp + 32 * i, S.d1.term(S.R, S.P[i]), 32)
            S.d2.put(st, pq + 64 * i, S.Q[i])
        args = [r] + ([] if fixP else [pp]) + ([] if fixQ else [pq])
        n = 0
        for q in e.call(st, fn, args):
            if q.kind != 'ret':
                raise Lost(str(q.info or q.kind))
            n += 1
            v, _ = S.vector(q.st, r)
            if v is None:
                raise Lost('result is no product of line values')
            a = 6 * T_ + 2
            want = {(1, 0, 0): a, (0, 1, 0): 1, (0, 0, 1): -1, (a, 1, -1): -1}
            want = {l: c * EXPO % ORD for l, c in want.items()}
            got = divisor(v)
            if got != want:
                d = {l: (got.get(l, 0), want.get(l, 0)) for l in set(got) | set(want) if got.get(l, 0) != want.get(l, 0)}
                raise Lost('divisor of the computed function differs: ' + str(d)[:300])
            j.ok(structural=True)
            # factors of Fp2 and powers of w picked up by line values vanish in the final exponentiation
            # (w^12 = -2 lies in Fp; vertical lines lie in Fp6)
            for s, c in v.items():
                if c % (P ** 6 - 1) or c % (12 * (P - 1)):
                    raise Lost('subfield factors of the line values do not vanish')
                j.ok(structural=True)
        j.sample('%s: %s' % (what, S.steps))
        for k in range(S.steps['line']):
            j.ok(structural=True)
    except (X.Unsupported, Lost) as ex:
        msg = str(ex)
    if msg:
        cx = pairref.hunt(so)
        if cx:
            j.violation('%s: %s' % (what, msg), cx)
        else:
            j.inconclusive('%s: %s' % (what, msg))
    j.absorb(e)


def power(j, L, variant, lo, alias=False):
    """sm9_fp12_pow: products as exponent arithmetic; lo: index of the first non-zero exponent byte"""
    ll, so = lib(L, variant)
    what = '%s sm9_fp12_pow, exponents of %d significant bytes' % (variant, 32 - lo)
    e = X.Ex(X.Prog(ll), (120 if C.quick else 400))
    e.merge('.*')
    e.merge_check = True
    E = tm.var('e', 8 * (32 - lo))
    d = Exp12(e, E)
    d.j = j
    st = e.run_ctors(X.State(e))
    a, pe = st.alloc(384), st.alloc(32)
    r = a if alias else st.alloc(384)
    A = tm.var('a', 3072)
    d.reg[A] = 1
    st.store(a, A, 384)
    for i in range(lo):
        st.store(pe + i, 0, 1)
    st.store(pe + lo, rev(E, 32 - lo), 32 - lo)
    st.assume(tm.ne(8, tm.extract(E, 8 * (31 - lo), 8), 0))
    msg = None
    try:
        for q in e.call(st, 't12_pow', [r, a, pe]):
            if q.kind != 'ret':
                raise Lost(str(q.info or q.kind))
            x = d.expo(q.st.load(r, 384), q.st)
            if d.prove(x, tm.zext(272, E, 8 * (32 - lo)), q.st):
                j.ok()
            else:
                raise Lost('exponent relation undecided: ' + str(x)[:600])
    except (X.Unsupported, NoExp, Lost) as ex:
        msg = str(ex)
    if msg:
        cx = powhunt(so, 32 - lo)
        if cx:
            j.violation('%s: %s' % (what, msg), cx)
        else:
            j.inconclusive('%s: %s' % (what, msg))
    j.absorb(e)
    j.bound('sm9_fp12_pow: every base and every exponent with %d significant bytes' % (32 - lo))


class Exp12(ExpDom):
    def __init__(self, e, E):
        ExpDom.__init__(self, e, E)
        e.hook(S9 + 'sm9_fp12_mul', lambda ex, st, a: self.mul(st, a[0], a[1], a[2]), required=False)
        e.hook(S9 + 'sm9_fp12_sqr', lambda ex, st, a: self.mul(st, a[0], a[1], a[1]), required=False)
        e.hook(S9 + 'sm9_fp12_cpy', lambda ex, st, a: st.store(a[0], st.load(a[1], 384), 384), required=False)
        e.hook(S9 + 'sm9_fp12_equal_zero', lambda ex, st, a: self.is0(st, a[0]), required=False)

    def is0(self, st, p):
        t = st.load(p, 384)
        if t.__class__ is int:
            return int(t == 0)
        self.raw(t, st)     # a power of the non-zero base
        return 0

    def mul(self, st, r, pa, pb):
        a, b = st.load(pa, 384), st.load(pb, 384)
        x = tm.add(272, self.expo(a, st), self.expo(b, st))
        if x.__class__ is int:
            key = ('c', x)
            if key not in self.canon:
                self.canon[key] = tm.fresh('pw', 3072)
            t = self.canon[key]
        else:
            t = tm.fresh('pw', 3072)
        self.reg[t] = x
        st.store(r, t, 384)


def powhunt(so, n, N=60):
    r = random.Random(SEED)
    F = F12_
    calls, meta = [], []
    for i in range(N):
        k = r.getrandbits(8 * n) if i % 2 else int(''.join(r.choice('0123456789abcdef00f1') for _ in range(2 * n)), 16) if n else 0
        if n and k >> (8 * n - 8) == 0:
            k |= r.randrange(1, 256) << (8 * n - 8)
        if n and i % 3 == 0:
            k = k & ~(0xf0 << (8 * n - 8)) | r.randrange(1, 16) << (8 * n - 8)
        a = F.rnd(r)
        if a == F.zero and k == 0:
            continue
        meta.append((a, k))
        calls.append(('t12_pow', [('buf', bytes(384)), ('buf', F.enc(a)), ('buf', k.to_bytes(32, 'big'))]))
    g = native(so, calls)
    if 'crash' in g:
        return dict(function='sm9_fp12_pow', observed=g['crash'])
    for i, (a, k) in enumerate(meta):
        if g['bufs'][3 * i] != F.enc(F.pow(a, k)):
            return dict(function='sm9_fp12_pow', base=[hex(v) for v in a], exponent=hex(k), observed=[hex(v) for v in F.dec(g['bufs'][3 * i]) or ()])


def edge(j, L, variant):
    """exponent 0 for every non-zero base; base 0 for every non-zero exponent"""
    ll, so = lib(L, variant)
    for zero in (False, True):
        for alias in (False, True):
            what = '%s sm9_fp12_pow, %s' % (variant, 'base 0' if zero else 'exponent 0')
            e = X.Ex(X.Prog(ll), (120 if C.quick else 300))
            e.merge('.*')
            e.merge_check = True
            E = tm.var('e', 256)
            d = Exp12(e, None)
            st = e.run_ctors(X.State(e))
            a, pe = st.alloc(384), st.alloc(32)
            r = a if alias else st.alloc(384)
            A = tm.var('a', 3072)
            d.reg[A] = 1
            st.store(a, 0 if zero else A, 384)
            st.store(pe, E if zero else 0, 32)
            if zero:
                st.assume(tm.ne(256, E, 0))
            want = 0 if zero else int.from_bytes(F12_.enc(F12_.one), 'little')
            msg = None
            try:
                for q in e.call(st, 't12_pow', [r, a, pe]):
                    if q.kind != 'ret' or q.st.load(r, 384) != want:
                        raise Lost(str(q.info or 'wrong value'))
                    j.ok()
            except (X.Unsupported, NoExp, Lost) as ex:
                msg = str(ex)
            if msg:
                rr = random.Random(SEED)
                for k in range(40):
                    b, x = (F12_.zero, rr.getrandbits(rr.choice([8, 64, 256])) | 1) if zero else (F12_.rnd(rr), 0)
                    if not zero and b == F12_.zero:
                        continue
                    g = native(so, [('t12_pow', ([('buf', F12_.enc(b)), ('ref', 0)] if alias else [('buf', bytes(384)), ('buf', F12_.enc(b))]) + [('buf', x.to_bytes(32, 'big'))])])
                    if 'crash' in g or g['bufs'][0] != F12_.enc(F12_.pow(b, x)):
                        j.violation(what + ': ' + msg, dict(function='sm9_fp12_pow', base=[hex(v) for v in b], exponent=hex(x), alias=alias, observed=g.get('crash') or g['bufs'][0].hex()))
                        break
                else:
                    j.inconclusive('%s: %s' % (what, msg))
            j.absorb(e)


def main():
    L = build('ecP06', 'ec.cpp', FIELD)
    for v in ('portable', 'simd'):
        C.job(v + ' pairing', job, L, v, 'pairing', False, False)
        C.job(v + ' pairing_P1_Q', job, L, v, 'pairing_p1', True, False)
        C.job(v + ' pairing_P_P2', job, L, v, 'pairing_p2', False, True)
        C.job(v + ' fp12 pow edges', edge, L, v)
        for lo in (range(32) if not C.quick or v == 'portable' else (0, 15, 30)):
            C.job('%s fp12 pow %d' % (v, 32 - lo), power, L, v, lo)
        C.job('%s fp12 pow 2 in place' % v, power, L, v, 30, True)
    C.assume('the Montgomery operations and the tower operations are the field operations (N03-N05, P01); point operations follow the group law (P02)')
    C.assume('P and Q are finite points of order N, so the points met in the loop are finite and never equal or opposite to Q, pi(Q), pi^2(Q)')
    C.bound('every pair of points; line values compared as polynomial identities, the product as a divisor with exact exponents modulo p^12-1')
    C.run()
    C.finish()


if __name__ == '__main__':
    main()
