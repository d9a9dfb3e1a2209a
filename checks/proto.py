"""protocol-level domain: group elements as discrete logarithms (polynomials over GF(n)), coordinates as field generators,
hash as an uninterpreted function of its transcript, generator output as fresh symbols"""
from eclib import *
from ecgroup import sqrtp
import random
import u256
SEED = int(os.environ.get('VERIF_SEED', '1'))


class PDom(Dom):
    """Dom whose comparison variables are tied to the integer values of the elements"""

    def __init__(self, *a):
        self.vals = {}
        super().__init__(*a)

    def zero(self, ring, p):
        q = ring.strip(p)
        # common factors: a product vanishes when a factor does
        com = set.intersection(*[{g for g, e in x} for x in q]) if q else ()
        if com and (len(q) > 1 or len(com) > 1 or max(e for x in q for g, e in x) > 1):
            r = q
            z = 0
            for g in sorted(com):
                lo = min(dict(x)[g] for x in r)
                r = {ring.mono(x, ((g, -lo),)): c for x, c in r.items()}
                z = tm.or_(1, z, self.zero(ring, {((g, 1),): 1}))
            return tm.or_(1, z, self.zero(ring, r))
        k = (ring.m, ring.key(q)) if q else None
        new = bool(q) and not ring.unit(q) and k not in self.z
        z = super().zero(ring, p)
        if new:
            self.link(ring, p, z)
            self.link(ring, q, z)
            self.link(ring, ring.scale(p, -1), z)
            # single generator: g + c = 0
            gs = {g for x in q for g, e in x}
            if len(gs) == 1 and all(x in ((), ((next(iter(gs)), 1),)) for x in q):
                g = ((next(iter(gs)), 1),)
                c = -q.get((), 0) * pow(q[g], -1, ring.m) % ring.m
                t = self.tb.get((ring.m, ring.key({g: 1})))
                if t is not None:
                    self.cons.append(tm.xor(1, z, tm.not_(tm.eq(256, t, c))))
        return z

    def link(self, ring, p, z):
        t = self.tb.get((ring.m, ring.key(p)))
        if t is not None:
            self.cons.append(tm.xor(1, z, tm.not_(tm.eq(256, t, 0))))

    def residue(self, R, V, st=None, name=None):
        if V.__class__ is T and (R.m, V) in self.vals:
            return self.vals[R.m, V]
        if V.__class__ is T and (R.m, V) not in self.fb:
            # the same integer written differently
            vs = {v.a[0] for v in tm.vars_of([V])}
            for (m, V2), q in list(self.fb.items()):
                if m == R.m and V2.__class__ is T and V2.w == 256 and {v.a[0] for v in tm.vars_of([V2])} == vs and self.equal(V, V2):
                    self.fb[R.m, V] = q
                    return q
        return super().residue(R, V, st, name)

    def equal(self, a, b):
        import z3
        if not hasattr(self, 'cv_'):
            self.cv_ = tm.Z3Conv()
        vs = {v.a[0] for v in tm.vars_of([a, b])}
        s = z3.SolverFor('QF_BV')
        s.set('timeout', 3000)
        for c in self.cons:
            if c.__class__ is not int and {v.a[0] for v in tm.vars_of([c])} <= vs:
                s.add(self.cv_.b(c))
        s.add(self.cv_.b(tm.ne(256, a, b)))
        return str(s.check()) == 'unsat'

    def value(self, R, p):
        k = (R.m, R.key(p)) if p else None
        new = bool(p) and not (len(p) == 1 and () in p) and k not in self.tb
        t = super().value(R, p)
        self.vals[R.m, t] = p
        if new and not R.unit(R.strip(p)):
            z = Dom.zero(self, R, p)
            self.cons.append(tm.xor(1, z, tm.not_(tm.eq(256, t, 0))))
        return t

    def after(self, st):
        self.assume(st)

    def from_bytes_ex(self, st, ctx, r, src, n):
        R = self.ring(st, ctx)
        if n == 32:
            return self.from_bytes(st, ctx, r, src)
        if n.__class__ is not int or n > 80:
            raise Lost('from_bytes_ex with length %s' % n)
        V = rev(st.load(src, n), n)
        if V.__class__ is int:
            q = R.c(V)
        else:
            k = (R.m, ('ex', n, V))
            if k not in self.fb:
                self.fb[k] = R.gen('rex%d' % len(self.fb))
            q = self.fb[k]
        st.store(r, self.term(R, q), 32)


class Group:
    """one curve group of prime order n"""

    def __init__(self, S, curve, prefix, gen_nonzero=True):
        self.S, self.C = S, CURVE[curve]
        self.curve = curve
        C = self.C
        self.nc = C.F.size // 32
        self.J, self.A = 3 * C.F.size, 2 * C.F.size
        self.reg = {}        # jacobian token -> dlog
        self.tok = {}
        self.pts = []        # (dlog, coords)
        self.rn, self.rp, self.d, self.e = S.rn, S.rp, S.d, S.e
        G = [C.G[0], C.G[1]] if self.nc == 1 else list(C.G[0]) + list(C.G[1])
        self.pts.append((self.rn.c(1), [self.rp.c(v) for v in G]))
        self.made = [self.pts[0][1]]   # coordinates on the curve on every path
        J, A = self.J, self.A
        e = self.e

        def h(name, fn):
            def g(ex, st, a):
                r = fn(st, *a)
                self.d.assume(st)
                return r
            e.hook(prefix + name, g, required=False)

        def hj(name, fn):
            h(name, lambda st, r, *a: self.put(st, r, fn(st, *a)))
        N = self.rn
        hj('j_dbl', lambda st, p: N.scale(self.jac(st, p), 2))
        hj('j_neg', lambda st, p: N.scale(self.jac(st, p), -1))
        hj('j_add', lambda st, p, q: N.add(self.jac(st, p), self.jac(st, q)))
        hj('j_add_a', lambda st, p, q: N.add(self.jac(st, p), self.aff(st, q)))
        hj('j_cpy', lambda st, p: self.jac(st, p))
        hj('j_normal', lambda st, p: self.jac(st, p))
        hj('j_from_a', lambda st, p: self.aff(st, p))
        hj('j_set_inf', lambda st: {})
        hj('j_mul_g', lambda st, k: self.scalar(st, k, 'g'))
        hj('j_mul_a', lambda st, k, p: N.mul(self.scalar(st, k, 'a'), self.aff(st, p)))
        h('j_is_inf', lambda st, p: self.d.zero(N, self.jac(st, p)))
        h('j_equal', lambda st, p, q: self.d.zero(N, N.sub(self.jac(st, p), self.jac(st, q))))
        h('j_to_a', self.to_a)

    # ---- Jacobian
    def put(self, st, p, q):
        k = self.rn.key(q) if q else 0
        if k not in self.tok:
            t = self.tok[k] = tm.fresh('J' + self.curve, 8 * self.J)
            self.reg[t] = q
        st.store(p, self.tok[k], self.J)

    def jac(self, st, p):
        t = st.load(p, self.J)
        if t not in self.reg:
            raise Lost('not a point: ' + str(t)[:100])
        return self.reg[t]

    def scalar(self, st, k, how):
        V = rev(st.load(k, 32))
        st.data['scal'] = st.data.get('scal', ()) + ((self.curve, how, V),)
        return self.d.residue(self.rn, V)

    # ---- affine
    def curve_eq(self, c):
        R, C = self.rp, self.C
        n = self.nc

        def mul(a, b):
            if n == 1:
                return [R.mul(a[0], b[0])]
            return [R.sub(R.mul(a[0], b[0]), R.scale(R.mul(a[1], b[1]), 2)), R.add(R.mul(a[0], b[1]), R.mul(a[1], b[0]))]
        x, y = c[:n], c[n:]
        x3 = mul(mul(x, x), x)
        if n == 1:
            rhs = [R.add(R.add(x3[0], R.scale(x[0], C.a)), R.c(C.b))]
        else:
            rhs = [R.add(x3[0], R.c(C.b[0])), R.add(x3[1], R.c(C.b[1]))]
        return [R.sub(u, v) for u, v in zip(mul(y, y), rhs)], rhs

    def same(self, st, p, q):
        """equal as group elements on this path"""
        if p == q:
            return True
        if self.S.path(st).zero(self.rn.sub(p, q)):
            return True
        return False

    def coords(self, st, q):
        """affine coordinates (polynomials over GF(p)) of a non-zero element"""
        for p, c in self.pts:
            if self.same(st, p, q):
                return c
        R = self.rp
        n = self.nc
        for p, c in self.pts:
            if self.same(st, self.rn.scale(p, -1), q):
                c = c[:n] + [R.scale(y, -1) for y in c[n:]]
                self.pts.append((q, c))
                return c
        i = len(self.pts)
        if n == 1:
            c = [R.gen('X%s%d' % (self.curve, i)), R.gen('Y%s%d' % (self.curve, i), nonzero=True)]
        else:
            c = [R.gen('%s%s%d%d' % (a, self.curve, i, k)) for a in 'XY' for k in (0, 1)]
        self.pts.append((q, c))
        self.made.append(c)
        for f in self.curve_eq(c)[0]:
            self.d.cons.append(self.d.zero(R, f))
        self.d.assume(st)
        return c

    def aff(self, st, p):
        R = self.rp
        c = [self.d.poly(st.load(p + 32 * i, 32), R, st) for i in range(2 * self.nc)]
        return self.dlog(st, c)

    def dlog(self, st, c, trusted=False):
        R, n = self.rp, self.nc
        for q, k in self.pts:
            if k == c:
                return q
        for q, k in self.pts:
            if k[:n] == c[:n] and [R.scale(y, -1) for y in k[n:]] == c[n:]:
                q = self.rn.scale(q, -1)
                self.pts.append((q, c))
                return q
        # coordinates from outside: must be known to be on the curve
        for f in self.curve_eq(c)[0]:
            z = self.d.zero(R, f)
            self.d.assume(st)
            if not trusted and z != 1 and self.e.check(st, tm.not_(z)) != 'unsat':
                raise Lost('point used in the group law is not known to be on the curve')
        q = self.rn.gen('dl%s%d' % (self.curve, len(self.pts)), nonzero=True)
        self.pts.append((q, c))
        return q

    def to_a(self, st, r, p):
        q = self.jac(st, p)
        z = self.d.zero(self.rn, q)
        self.d.assume(st)
        if z.__class__ is int:
            if z:
                raise Lost('affine coordinates of infinity')
        elif self.e.check(st, z) != 'unsat' and not self.S.infeasible(st, [z]):
            raise Lost('affine coordinates of a point that may be infinity')
        for i, v in enumerate(self.coords(st, q)):
            st.store(r + 32 * i, self.d.term(self.rp, v), 32)


class Setting:
    """engine with the protocol domain installed"""

    def __init__(self, ll, curves, m, nm, draws=2, budget=500, sm9=False):
        self.e = e = X.Ex(X.Prog(ll), budget)
        u256.install(e)
        e.merge(r'number::.*|.*_bn_.*')
        e.merge_check = True
        self.rp, self.rn = Ring(MOD[m], 'p'), Ring(MOD[nm], 'n')
        self.n, self.p = MOD[nm], MOD[m]
        self.d = PDom(e, {MOD[m]: self.rp, MOD[nm]: self.rn})
        self.draws = draws
        self.G = {c: Group(self, c, pre) for c, pre in curves.items()}
        self.tr = {}        # transcript id -> tuple of (term, bytes)
        self.trid = {(): 1}
        self.tr[1] = ()
        self.dig = {}
        self.roots = {}
        e.hook('uf_init', lambda ex, st, a: st.store(a[0], 1, 8))
        e.hook('uf_update', self.update)
        e.hook('uf_final', self.final)
        e.hook('uf_rng', self.rng)
        pre = r'(?:sm2::internal::sm2|sm9::internal::sm9)_fp_sqrt'
        e.hook(pre, self.sqrt, required=False)
        self.pc = {}

    # ---- facts
    def path(self, st, extra=()):
        Z, N = self.d.facts([c for c in st.conds() if c.__class__ is not int] + list(extra), self.rn)
        k = (tuple(sorted(str(self.rn.key(z)) for z in Z)), tuple(sorted(str(self.rn.key(z)) for z in N)))
        if k not in self.pc:
            self.pc[k] = Path(self.rn, Z, N)
        return self.pc[k]

    def infeasible(self, st, extra=()):
        """no assignment of field elements satisfies the path"""
        import itertools
        import z3
        d = self.d
        cons = set(d.cons)
        conds = [c for c in st.conds() if c.__class__ is not int] + list(extra)
        core = [c for c in conds if c not in cons]
        known = {}
        for c in core:
            pol = 1
            while c.__class__ is T and c.op == 'xor' and c.w == 1 and c.a[1] == 1:
                c = c.a[0]
                pol ^= 1
            if c.__class__ is T and c.op == 'var' and c.a[0] in d.zinv:
                known[c.a[0]] = pol
        free = [v for v in tm.vars_of(core) if v.a[0] in d.zinv and v.a[0] not in known]
        if len(free) > 10:
            return False
        cv = tm.Z3Conv()
        sol = z3.SolverFor('QF_BV')
        sol.set('timeout', 5000)
        for c in conds:
            sol.add(cv.b(c))

        def bad(asg):
            for R in (self.rn, self.rp):
                Z, N = [q for r, q in d.rel if r is R], []
                for nm, v in asg.items():
                    r, q = d.zinv[nm]
                    if r is R:
                        (Z if v else N).append(q)
                P = Path(R, Z, N)
                if P.infeasible:
                    return True
                # an element the facts make constant has that integer value
                eqs = []
                for g, q in P.subs:
                    t = d.tb.get((R.m, R.key({((g, 1),): 1})))
                    if t is not None and t.__class__ is not int and (not q or (len(q) == 1 and () in q)):
                        eqs.append(tm.eq(256, t, q.get((), 0)))
                if eqs:
                    sol.push()
                    for c in eqs:
                        if c.__class__ is not int:
                            sol.add(cv.b(c))
                    r = 0 in eqs or str(sol.check()) == 'unsat'
                    sol.pop()
                    if r:
                        return True
            return False
        if bad(known):
            return True

        def rec(i, asg):
            if i == len(free):
                return False
            for v in (0, 1):
                a2 = dict(asg)
                a2[free[i].a[0]] = v
                sol.push()
                sol.add(cv.b(free[i] if v else tm.not_(free[i])))
                ok = str(sol.check()) == 'unsat' or bad(a2) or rec(i + 1, a2)
                sol.pop()
                if not ok:
                    return False
            return True
        return rec(0, known)

    # ---- hash
    def update(self, ex, st, a):
        i = st.load(a[0], 8)
        if i not in self.tr:
            raise Lost('hash object not initialised')
        n = a[2]
        if n.__class__ is not int:
            raise Lost('hash input of symbolic length')
        if not n:
            return None
        t = self.tr[i] + ((st.load(a[1], n), n),)
        k = self.norm(t)
        if k not in self.trid:
            self.trid[k] = len(self.trid) + 1
            self.tr[self.trid[k]] = k
        st.store(a[0], self.trid[k], 8)

    def norm(self, t):
        """one term for the whole transcript"""
        if not t:
            return ()
        n = sum(k for _, k in t)
        return ((tm.concat([(v, 8 * k) for v, k in reversed(t)]), n),)

    def digest(self, dl, t):
        k = (dl, self.norm(t))
        if k not in self.dig:
            v = tm.fresh('dig%d' % len(self.dig), 8 * dl)
            for (l2, t2), v2 in self.dig.items():      # one function: equal inputs, equal digests
                if l2 == dl and k[1] and t2 and t2[0][1] == k[1][0][1]:
                    c = tm.ne(8 * t2[0][1], t2[0][0], k[1][0][0])
                    if c != 1:
                        self.d.cons.append(tm.or_(1, c, tm.eq(8 * dl, v, v2)))
            self.dig[k] = v
        return self.dig[k]

    def final(self, ex, st, a):
        i = st.load(a[2], 8)
        if i not in self.tr:
            raise Lost('hash object not initialised')
        v = self.digest(a[1], self.tr[i])
        if getattr(self, 'firstnonzero', False) and not st.data.get('digs'):
            st.assume(tm.ne(8, tm.extract(v, 0, 8), 0))
        st.data['digs'] = st.data.get('digs', ()) + (v,)
        st.store(a[0], v, a[1])
        st.store(a[2], 1, 8)

    # ---- generator
    def rng(self, ex, st, a):
        i = st.data.get('draws', 0)
        if i >= self.draws:
            raise X.Halt('bound')
        if a[1] != 32:
            raise Lost('generator asked for %s bytes' % a[1])
        st.data['draws'] = i + 1
        st.store(a[0], tm.var('rnd%d' % i, 256), 32)

    def draw(self, i):
        return rev(tm.var('rnd%d' % i, 256))

    # ---- square root
    def sqrt(self, ex, st, a):
        R, d = self.rp, self.d
        q = d.poly(st.load(a[1], 32), R, st)
        k = R.key(q)
        for G in self.G.values():
            if G.nc == 1 and k not in self.roots:
                for c in G.made:
                    if R.sub(G.curve_eq(c)[1][0], q) == {}:
                        s = tm.fresh('sgn', 1)
                        return X.Split([(s, 0, lambda s_: s_.store(a[0], d.term(R, c[1]), 32)),
                                        (tm.not_(s), 0, lambda s_: s_.store(a[0], d.term(R, R.scale(c[1], -1)), 32))])
        b, y = self.root(q)
        d.assume(st)
        return X.Split([(b, 0xffffffff, None), (tm.not_(b), 0, lambda s: s.store(a[0], d.term(R, y), 32))])

    def root(self, q):
        """(no-root flag, root) of a field element"""
        R, d = self.rp, self.d
        k = R.key(q)
        if k not in self.roots:
            y = R.gen('sq%d' % len(self.roots), nonzero=True)
            b = tm.fresh('nonres', 1)
            self.roots[k] = (b, y)
            d.cons.append(tm.or_(1, b, d.zero(R, R.sub(R.mul(y, y), q))))
        return self.roots[k]

    # ---- judging
    def ctor(self):
        return self.e.run_ctors(X.State(self.e))


def buf(st, v, n):
    """buffer of n bytes holding term v (little endian)"""
    p = st.alloc(n)
    if n:
        st.store(p, v, n)
    return p


def nat(so, fn, args, rng=b'', digests=None):
    """one native call with scripted generator output and digest overrides: (ret, bufs) or crash"""
    calls = [('proto_reset', [])]
    nb = 0
    if rng:
        calls.append(('proto_rng', [('buf', rng), len(rng)]))
        nb += 1
    for i, d in sorted((digests or {}).items()):
        calls.append(('proto_digest', [i, ('buf', d), len(d)]))
        nb += 1
    calls.append((fn, args))
    calls.append(('proto_rng_used', []))
    g = native(so, calls)
    if 'crash' in g:
        return None, g['crash'], None
    return g['ret'][-2] & 0xffffffff, g['bufs'][nb:], g['ret'][-1]


class NHash:
    """the native hash of harness/proto.h"""

    def __init__(self, digests=None):
        self.o = digests or {}
        self.k = 0

    def h(self, data, n):
        M = (1 << 64) - 1
        h = 0xcbf29ce484222325
        for b in data:
            h = ((h ^ b) * 0x100000001b3) & M
        out = []
        for i in range(n):
            h ^= h >> 29
            h = ((h ^ i) * 0x100000001b3) & M
            out.append(h >> 40 & 0xff)
        r = self.o.get(self.k, bytes(out))
        self.k += 1
        return r


class Judge:
    """obligations of one job on the paths of one call"""

    def __init__(self, j, S, what, hunt):
        self.j, self.S, self.what, self._hunt = j, S, what, hunt
        self.cx = False

    def fail(self, msg):
        if self.cx is False:
            self.cx = self._hunt()
        if self.cx:
            self.j.violation('%s: %s' % (self.what, msg), self.cx)
        else:
            self.j.inconclusive('%s: %s' % (self.what, msg))

    def never(self, q, conds, msg):
        """no values satisfy the path and conds"""
        S = self.S
        S.d.assume(q.st)
        cs = q.st.conds() + S.d.cons + list(conds)
        if any(c == 0 for c in cs if c.__class__ is int):
            self.j.ok()
            return True
        r = self.j.query(cs)[0]
        if r == 'unsat' or (r == 'sat' and S.infeasible(q.st, [c for c in conds if c.__class__ is not int])):
            self.j.ok()
            return True
        if r == 'sat':
            self.fail(msg)
        else:
            self.j.inconclusive('%s: %s (solver: %s)' % (self.what, msg, r))
        return False

    def same(self, q, w, a, b, msg):
        if a is b or (a.__class__ is int and a == b):
            self.j.ok(structural=True)
            return True
        return self.never(q, [tm.ne(w, a, b)], msg)

    def paths(self, st, fn, args):
        for q in self.S.e.call(st, fn, args):
            if q.kind == 'bound' or (q.kind not in ('ret', 'throw', 'error') and str(q.info or q.kind) == 'bound'):
                continue
            if q.kind != 'ret':
                self.never(q, [], str(q.info or q.kind))
                continue
            yield q
