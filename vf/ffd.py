"""Finite-field domain: while the code runs, every field element is a polynomial over GF(m) in named generators.

The Montgomery-level operations of the library (decided against the code by N03-N05) are taken by contract; everything
above them is executed from the IR.  A comparison of two elements becomes a branch on a 1-bit variable that stands for
"this (normalised) polynomial vanishes"; each path therefore carries a list of polynomials known to be zero or non-zero.
Goals at the end of a path are polynomial identities modulo those facts, decided by normal forms (Path)."""
from . import term as tm
from .term import T
from . import ex as X

R256 = 1 << 256
M = r'number::internal::(?:common|x64)::mont256_'


class Lost(X.Unsupported):
    pass


class Ring:
    """sparse (Laurent in the generators marked non-zero) polynomials over GF(m): dict monomial -> coefficient"""

    def __init__(self, m, name='p', unit_order=None):
        self.m = m
        self.names = []
        self.nz = set()
        self.id = {}
        self.name = name
        self.ord = unit_order       # exponent modulus of non-zero generators that stand for base-field elements
        self.powred = set()

    def gen(self, name, nonzero=False, powred=False):
        if name in self.id:
            return {((self.id[name], 1),): 1}
        k = len(self.names)
        self.names.append(name)
        self.id[name] = k
        if nonzero:
            self.nz.add(k)
        if powred:
            self.powred.add(k)
        return {((k, 1),): 1}

    def c(self, v):
        v %= self.m
        return {(): v} if v else {}

    def add(self, a, b, k=1):
        r = dict(a)
        m = self.m
        for x, c in b.items():
            v = (r.get(x, 0) + k * c) % m
            if v:
                r[x] = v
            else:
                r.pop(x, None)
        return r

    def sub(self, a, b):
        return self.add(a, b, -1)

    def scale(self, a, k):
        k %= self.m
        return {x: c * k % self.m for x, c in a.items()} if k else {}

    def mono(self, x, y):
        if not x:
            return y
        if not y:
            return x
        r = []
        i = j = 0
        while i < len(x) and j < len(y):
            if x[i][0] < y[j][0]:
                r.append(x[i])
                i += 1
            elif x[i][0] > y[j][0]:
                r.append(y[j])
                j += 1
            else:
                e = self.expred(x[i][0], x[i][1] + y[j][1])
                if e:
                    r.append((x[i][0], e))
                i += 1
                j += 1
        r.extend(x[i:])
        r.extend(y[j:])
        return tuple(r)

    def expred(self, g, e):
        if g in self.powred:
            e %= self.ord
            if e > self.ord // 2:
                e -= self.ord
        return e

    def mul(self, a, b):
        if len(a) > len(b):
            a, b = b, a
        r = {}
        m = self.m
        mono = self.mono
        for x, c in a.items():
            for y, d in b.items():
                z = mono(x, y)
                r[z] = r.get(z, 0) + c * d
        return {x: c % m for x, c in r.items() if c % m}

    def pw(self, a, n):
        if n < 0:
            return self.pw(self.minv(a), -n)
        if len(a) == 1:
            (x, c), = a.items()
            if n > 4:
                return {tuple(t for t in ((g, self.expred(g, e * n)) for g, e in x) if t[1]): pow(c, n, self.m)}
        r = {(): 1}
        while n:
            if n & 1:
                r = self.mul(r, a)
            n >>= 1
            if n:
                a = self.mul(a, a)
        return r

    def unit(self, a):
        """a single monomial in non-zero generators"""
        if len(a) != 1:
            return False
        (x, c), = a.items()
        return all(g in self.nz for g, e in x)

    def minv(self, a):
        (x, c), = a.items()
        return {tuple((g, -e) for g, e in x): pow(c, -1, self.m)}

    def key(self, a):
        return frozenset(a.items())

    def strip(self, a):
        """divide by the monomial content in non-zero generators; make Laurent parts polynomial; make monic"""
        if not a:
            return a
        lo = {}
        for g in {g for x in a for g, e in x if g in self.nz}:
            lo[g] = min(dict(x).get(g, 0) for x in a)
        mul = tuple(sorted((g, -e) for g, e in lo.items() if e))
        if mul:
            a = {self.mono(x, mul): c for x, c in a.items()}
        lead = max(a)
        k = pow(a[lead], -1, self.m)
        return {x: c * k % self.m for x, c in a.items()}

    def sub_gen(self, a, g, b):
        """a with generator g replaced by polynomial b"""
        by = {}
        for x, c in a.items():
            d = dict(x)
            e = d.pop(g, 0)
            by.setdefault(e, {})[tuple(sorted(d.items()))] = c
        r = {}
        for e, q in by.items():
            if e < 0 and not self.unit(b):
                return None
            r = self.add(r, self.mul(q, self.pw(b, e)) if e else q)
        return r

    def divides(self, a, d):
        """exact quotient a / d or None (polynomial exponents, lex order on dense exponent vectors)"""
        if not a:
            return {}
        gs = sorted({g for x in list(a) + list(d) for g, e in x})
        ix = {g: i for i, g in enumerate(gs)}

        def vec(x):
            v = [0] * len(gs)
            for g, e in x:
                v[ix[g]] = e
            return tuple(v)
        A = {vec(x): c for x, c in a.items()}
        D = {vec(x): c for x, c in d.items()}
        ld = max(D)
        ic = pow(D[ld], -1, self.m)
        Q = {}
        steps = 0
        while A:
            la = max(A)
            q = tuple(x - y for x, y in zip(la, ld))
            if min(q, default=0) < 0 or steps > 20000:
                return None
            steps += 1
            k = A[la] * ic % self.m
            Q[q] = k
            for y, c in D.items():
                z = tuple(s + t for s, t in zip(q, y))
                v = (A.get(z, 0) - k * c) % self.m
                if v:
                    A[z] = v
                else:
                    A.pop(z, None)
        return {tuple((gs[i], e) for i, e in enumerate(q) if e): c for q, c in Q.items()}

    def show(self, a, n=6):
        s = []
        for x, c in sorted(a.items())[:n]:
            if c > self.m // 2:
                c -= self.m
            s.append((str(c) if abs(c) < 10**6 else hex(c)) + ''.join('*%s%s' % (self.names[g], '^%d' % e if e != 1 else '') for g, e in x))
        return ' + '.join(s) + (' + ..(%d terms)' % len(a) if len(a) > n else '') if s else '0'

    def eval(self, a, env):
        r = 0
        m = self.m
        for x, c in a.items():
            for g, e in x:
                v = env[g]
                c = c * pow(v, e, m) % m
            r += c
        return r % m


class Path:
    """the facts of one path as a rewriting system; nf() is sound: nf(a) == {} implies a = 0 under the facts"""

    def __init__(self, R, eqs, nzs, rules=()):
        self.R = R
        self.subs = []          # (gen, poly)
        self.lead = []          # (gen, power, poly): gen^power -> poly
        self.eqs = [e for e in eqs if e]
        self.nzs = list(nzs)
        self.infeasible = False
        for g, n, q in rules:
            self.lead.append((g, n, q))
        self.saturate()

    def nf(self, a):
        R = self.R
        for _ in range(200):
            for g, q in self.subs:
                if any(h == g for x in a for h, e in x):
                    b = R.sub_gen(a, g, q)
                    if b is None:
                        k = -min(dict(x).get(g, 0) for x in a)
                        b = R.sub_gen(R.mul(a, {((g, k),): 1}), g, q)   # scaling by a non-zero generator
                    a = b
            hit = False
            for g, n, q in self.lead:
                by = {}
                for x, c in a.items():
                    d = dict(x)
                    e = d.get(g, 0)
                    if e >= n:
                        hit = True
                        k = e // n
                        if e - k * n:
                            d[g] = e - k * n
                        else:
                            d.pop(g)
                    else:
                        k = 0
                    by.setdefault(k, {})
                    y = tuple(sorted(d.items()))
                    by[k][y] = (by[k].get(y, 0) + c) % R.m
                if any(by):
                    a = {}
                    for k, p in by.items():
                        p = {x: c for x, c in p.items() if c}
                        a = R.add(a, R.mul(p, R.pw(q, k)) if k else p)
            if not hit:
                break
        return a

    def saturate(self):
        R = self.R
        for _ in range(60):
            again = False
            work, self.eqs = self.eqs, []
            nz = []
            for d in self.nzs:
                d = R.strip(self.nf(d))
                if not d:
                    self.infeasible = True
                    return
                if len(d) > 1 or (len(d) == 1 and next(iter(d)) != ()):
                    if len(d) == 1:
                        (x, c), = d.items()
                        if len(x) == 1:
                            R_ = x[0][0]
                            if R_ not in R.nz:
                                nz.append(d)
                            continue
                    nz.append(d)
            self.nzs = nz
            for e in work:
                e = R.strip(self.nf(e))
                if not e:
                    continue
                for d in nz:
                    while True:
                        q = R.divides(e, d) if len(e) >= 1 else None
                        if q is None or not q:
                            break
                        e = R.strip(q)
                if len(e) == 1 and (() in e or R.unit(e)):
                    self.infeasible = True
                    return
                lin = self.linear(e)
                if lin and not again:
                    g, q = lin
                    if g in R.nz and R.strip(q) == {}:
                        self.infeasible = True
                        return
                    self.subs.append((g, q))
                    self.subs = [(h, R.sub_gen(p, g, q) if any(k == g for x in p for k, _ in x) else p) if h != g else (h, p) for h, p in self.subs]
                    # a rule whose leading generator was eliminated becomes an equation again
                    keep = []
                    for h, n, p in self.lead:
                        if h == g:
                            self.eqs.append(R.sub({((h, n),): 1}, p))
                        else:
                            p2 = self.nfsub(p)
                            keep.append((h, n, p2))
                    self.lead = keep
                    again = True
                else:
                    self.eqs.append(e)
            if not again:
                break

    def nfsub(self, p):
        for g, q in self.subs:
            if any(h == g for x in p for h, e in x):
                p = self.R.sub_gen(p, g, q)
        return p

    def linear(self, e):
        """(g, q) with e = 0 <=> g = q: g occurs once, linearly, with constant (or unit) coefficient"""
        R = self.R
        cand = {}
        for x, c in e.items():
            for g, k in x:
                cand.setdefault(g, []).append((x, c, k))
        best = None
        for g, l in cand.items():
            if len(l) == 1 and l[0][2] == 1:
                x, c, _ = l[0]
                rest = tuple(t for t in x if t[0] != g)
                if all(h in R.nz for h, _ in rest):
                    sc = (len(rest) > 0, -g)
                    if best is None or sc < best[0]:
                        best = (sc, g, x, c, rest)
        if best is None:
            return None
        _, g, x, c, rest = best
        q = {y: d for y, d in e.items() if y != x}
        inv = {tuple((h, -k) for h, k in rest): pow(-c, -1, R.m)}
        return g, R.mul(q, inv)

    def zero(self, a):
        R = self.R
        a = R.strip(self.nf(a))
        if not a:
            return True
        # an equation may divide it
        for e in self.eqs:
            q = R.divides(a, e)
            if q is not None:
                return True
        return False

    def nonzero(self, a):
        """provably non-zero: product of known non-zero polynomials and non-zero generators"""
        R = self.R
        a = R.strip(self.nf(a))
        if not a:
            return False
        for _ in range(20):
            if len(a) == 1:
                (x, c), = a.items()
                left = tuple((g, e) for g, e in x if g not in R.nz and {((g, 1),): 1} not in self.nzs)
                return not left
            for d in self.nzs:
                q = R.divides(a, d)
                if q is not None:
                    a = R.strip(q)
                    break
            else:
                return False
        return False


class Dom:
    """hooks of the field operations; one Ring per modulus"""

    def __init__(self, e, rings):
        """rings: modulus -> Ring"""
        self.e = e
        self.rings = rings
        self.reg = {}        # 256-bit term -> (ring, poly)   (Montgomery representation of the element)
        self.var = {}        # (modulus, key) -> term
        self.z = {}          # (modulus, key) -> 1-bit var
        self.zinv = {}       # var name -> (ring, poly)
        self.pows = {}
        self.tb = {}         # (modulus, key) -> 256-bit byte-value term (integer)
        self.fb = {}         # integer term -> (ring, poly) per modulus
        self.rel = []        # (ring, poly): always zero
        self.cons = []       # conditions that always hold (term)
        self.calls = {}
        self.hooks()

    # ---- terms <-> polynomials
    def poly(self, t, ring, st=None):
        if t.__class__ is int:
            return ring.c(t * pow(R256, -1, ring.m))
        if t in self.reg:
            r, p = self.reg[t]
            if r is not ring:
                raise Lost('element of another field')
            return p
        if t.op == 'ite' and st is not None:
            c, x, y = t.a
            for v, pol in ((x, c), (y, tm.not_(c))):
                if self.e.check(st, tm.not_(pol)) == 'unsat':
                    return self.poly(v, ring, st)
            raise X.Halt if 0 else Lost('conditional element')
        raise Lost('not a field element: ' + str(t)[:120])

    def term(self, ring, p):
        if not p:
            return 0
        if len(p) == 1 and () in p:
            return p[()] * R256 % ring.m
        k = (ring.m, ring.key(p))
        t = self.var.get(k)
        if t is None:
            t = self.var[k] = tm.fresh('fe_%s' % ring.name, 256)
            self.reg[t] = (ring, p)
        return t

    def ring(self, st, ctx):
        pp = st.load(ctx, 8)
        m = st.load(pp, 32)
        if m.__class__ is not int or m not in self.rings:
            raise Lost('unknown modulus')
        return self.rings[m]

    def get(self, st, ctx, p):
        r = self.ring(st, ctx)
        return r, self.poly(st.load(p, 32), r, st)

    def zero(self, ring, p):
        """term that is 1 exactly when p vanishes"""
        p = ring.strip(p)
        if not p:
            return 1
        if ring.unit(p):
            return 0
        k = (ring.m, ring.key(p))
        v = self.z.get(k)
        if v is None:
            v = self.z[k] = tm.fresh('z', 1)
            self.zinv[v.a[0]] = (ring, p)
        return v

    def facts(self, conds, ring):
        """known zero / non-zero polynomials of a path"""
        Z, N = [q for r, q in self.rel if r is ring], []
        for c in conds:
            pol = True
            while c.__class__ is T and c.op == 'xor' and c.w == 1 and c.a[1] == 1:
                c = c.a[0]
                pol = not pol
            if c.__class__ is T and c.op == 'var' and c.a[0] in self.zinv:
                r, q = self.zinv[c.a[0]]
                if r is ring:
                    (Z if pol else N).append(q)
        return Z, N

    def cases(self, conds, ring):
        """[(zero polys, non-zero polys)]: every consistent assignment of the comparison variables the path mentions"""
        conds = [c for c in conds if c.__class__ is not int]
        zs = [v for v in tm.vars_of(conds) if v.a[0] in self.zinv]
        known = {}
        for c in conds:
            pol = 1
            while c.__class__ is T and c.op == 'xor' and c.w == 1 and c.a[1] == 1:
                c = c.a[0]
                pol ^= 1
            if c.__class__ is T and c.op == 'var' and c.a[0] in self.zinv:
                known[c.a[0]] = pol
        free = [v for v in zs if v.a[0] not in known]
        if len(free) > 8:
            raise Lost('too many undecided comparisons')
        base = [q for r, q in self.rel if r is ring]
        out = []
        import itertools
        for bits in itertools.product((0, 1), repeat=len(free)):
            asg = dict(known)
            asg.update({v.a[0]: b for v, b in zip(free, bits)})
            if free:
                import z3
                sol = z3.SolverFor('QF_BV')
                sol.set('timeout', 5000)
                cv = tm.Z3Conv()
                for c in conds:
                    sol.add(cv.b(c))
                for v, b in zip(free, bits):
                    sol.add(cv.b(v if b else tm.not_(v)))
                if str(sol.check()) == 'unsat':
                    continue
            Z, N = list(base), []
            for n, b in asg.items():
                r, q = self.zinv[n]
                if r is ring:
                    (Z if b else N).append(q)
            out.append((Z, N))
        return out

    # ---- hooks
    def after(self, st):
        pass

    def hooks(self):
        e = self.e
        D = self

        def h(name, f):
            def g(ex, st, a):
                D.calls[name] = D.calls.get(name, 0) + 1
                r = f(st, *a)
                D.after(st)
                return r
            e.hook(M + name, g, required=False)

        def op2(f):
            def g(st, ctx, r, a, b):
                R, p = D.get(st, ctx, a)
                _, q = D.get(st, ctx, b)
                st.store(r, D.term(R, f(R, p, q)), 32)
            return g

        def op1(f):
            def g(st, ctx, r, a):
                R, p = D.get(st, ctx, a)
                st.store(r, D.term(R, f(R, p)), 32)
            return g
        h('add', op2(lambda R, p, q: R.add(p, q)))
        h('sub', op2(lambda R, p, q: R.sub(p, q)))
        h('mul', op2(lambda R, p, q: R.mul(p, q)))
        h('sqr', op1(lambda R, p: R.mul(p, p)))
        h('dbl', op1(lambda R, p: R.scale(p, 2)))
        h('tpl', op1(lambda R, p: R.scale(p, 3)))
        h('neg', op1(lambda R, p: R.scale(p, -1)))
        h('div2', op1(lambda R, p: R.scale(p, pow(2, -1, R.m))))
        h('inv', self.inv)
        h('pow', self.pow)

        def equal(st, ctx, a, b):
            R, p = D.get(st, ctx, a)
            _, q = D.get(st, ctx, b)
            return D.zero(R, R.sub(p, q))
        h('equal', equal)
        h('equal_zero', lambda st, ctx, a: D.zero(*D.get(st, ctx, a)))

        def eq1(st, ctx, a):
            R, p = D.get(st, ctx, a)
            return D.zero(R, R.sub(p, R.c(1)))
        h('equal_one', eq1)
        h('from_bytes', self.from_bytes)
        h('to_bytes', self.to_bytes)
        h('from_bytes_ex', self.from_bytes_ex)

    def inverse(self, R, p):
        """p known non-zero"""
        if R.unit(p):
            return R.minv(p)
        k = ('inv', R.m, R.key(p))
        if k not in self.pows:
            g = R.gen('inv%d' % len(self.pows), nonzero=True)
            self.pows[k] = g
            self.rel.append((R, R.sub(R.mul(g, p), R.c(1))))
        return self.pows[k]

    def inv(self, st, ctx, r, a):
        R, p = self.get(st, ctx, a)
        if not p:
            st.store(r, 0, 32)
            return None
        if R.unit(p):
            st.store(r, self.term(R, R.minv(p)), 32)
            return None
        z = self.zero(R, p)
        return X.Split([(z, 0, lambda s: s.store(r, 0, 32)), (tm.not_(z), 0, lambda s: s.store(r, self.term(R, self.inverse(R, p)), 32))])

    def pow(self, st, ctx, r, a, ee):
        R, p = self.get(st, ctx, a)
        n = st.load(ee, 32)
        if n.__class__ is not int:
            raise Lost('power with a symbolic exponent')
        if not p:
            q = {} if n else R.c(1)
        elif n < 6 or len(p) == 1:
            q = R.pw(p, n)
        else:
            raise Lost('large power of a sum')
        st.store(r, self.term(R, q), 32)

    # ---- integers
    def value(self, R, p):
        """256-bit integer term in [0, m) of the element"""
        if not p:
            return 0
        if len(p) == 1 and () in p:
            return p[()]
        k = (R.m, R.key(p))
        t = self.tb.get(k)
        if t is None:
            n = (R.m, R.key(R.scale(p, -1)))
            if n in self.tb:
                u = self.tb[n]
                t = self.tb[k] = tm.sub(256, R.m, u) if R.unit(R.strip(p)) else tm.ite(256, tm.eq(256, u, 0), 0, tm.sub(256, R.m, u))
                self.fb[(R.m, t)] = p
                return t
            t = self.tb[k] = tm.fresh('val_%s' % R.name, 256)
            self.fb[(R.m, t)] = p
            self.cons.append(tm.ult(256, t, R.m))
            if R.unit(p):
                self.cons.append(tm.ne(256, t, 0))
        return t

    def residue(self, R, V, st=None, name=None):
        """element of the integer term V (256 bits, any value)"""
        if V.__class__ is int:
            return R.c(V)
        k = (R.m, V)
        if k not in self.fb:
            g = R.gen(name or 'res%d' % len(self.fb))
            self.fb[k] = g
            t = V
            for _ in range(R256 // R.m):
                t = tm.ite(256, tm.ult(256, t, R.m), t, tm.sub(256, t, R.m))
            self.tb[(R.m, R.key(g))] = t
        return self.fb[k]

    def assume(self, st):
        """integer values handed out are residues"""
        for c in self.cons[st.data.get('ffcons', 0):]:
            st.assume(c)
        st.data['ffcons'] = len(self.cons)

    def from_bytes(self, st, ctx, r, src):
        R = self.ring(st, ctx)
        v = st.load(src, 32)
        st.store(r, self.term(R, self.residue(R, rev(v), st)), 32)

    def from_bytes_ex(self, st, ctx, r, src, n):
        R = self.ring(st, ctx)
        if n != 32:
            raise Lost('from_bytes_ex with length %s' % n)
        st.store(r, self.term(R, self.residue(R, rev(st.load(src, 32)), st)), 32)

    def to_bytes(self, st, ctx, out, a):
        R, p = self.get(st, ctx, a)
        v = self.value(R, p)
        self.assume(st)
        st.store(out, rev(v), 32)


def rev(v, n=32):
    if v.__class__ is int:
        return int.from_bytes(v.to_bytes(n, 'little'), 'big')
    return tm.concat([(tm.extract(v, 8 * i, 8), 8) for i in range(n)])     # most significant part first


class Dom2:
    """one level up: the sm9_fp2_* functions by contract (P01), elements are polynomials in a commutative ring with a
    generator U, U^2 = -2; base-field elements (level 1) embed"""
    PRE = r'sm9::internal::sm9_fp2_'
    N = 64
    GEN = 'U'

    def __init__(self, e, ring, d1):
        self.e, self.R, self.d1 = e, ring, d1
        self.U = ring.gen(self.GEN, nonzero=True)
        self.ug = ring.id[self.GEN]
        self.reg, self.var = {}, {}
        D, R = self, ring

        def h(name, f, req=False):
            def g(ex, st, a):
                return f(st, *a)
            e.hook(self.PRE + name, g, required=req)

        def op2(f):
            return lambda st, r, a, b: D.put(st, r, f(D.get(st, a), D.get(st, b)))

        def op1(f):
            return lambda st, r, a: D.put(st, r, f(D.get(st, a)))
        h('add', op2(R.add))
        h('sub', op2(R.sub))
        h('mul', op2(self.mul))
        h('sqr', op1(lambda p: self.mul(p, p)))
        h('dbl', op1(lambda p: R.scale(p, 2)))
        h('tpl', op1(lambda p: R.scale(p, 3)))
        h('neg', op1(lambda p: R.scale(p, -1)))
        self.more(h, op1, op2)
        h('equal', lambda st, a, b: self.zero(R.sub(D.get(st, a), D.get(st, b))))
        h('equal_zero', lambda st, a: self.zero(D.get(st, a)))
        h('equal_one', lambda st, a: self.zero(R.sub(D.get(st, a), R.c(1))))
        h('inv', self.inv)

    def more(self, h, op1, op2):
        h('mul_u', op1(lambda p: self.mul(p, self.U)))
        h('mul_fp', lambda st, r, a, b: self.put(st, r, self.mul(self.get(st, a), self.d1.poly(st.load(b, 32), self.R, st))))

    def zero(self, p):
        return self.d1.zero(self.R, p)

    def mul(self, a, b):
        return self.red(self.R.mul(a, b))

    def red(self, p):
        R, u = self.R, self.ug
        if any(g == u and e != 1 for x in p for g, e in x):
            r = {}
            for x, c in p.items():
                d = dict(x)
                e = d.pop(u, 0)
                k, e = divmod(e, 2)
                c = c * pow(-2, k, R.m) % R.m
                if e:
                    d[u] = 1
                y = tuple(sorted(d.items()))
                r[y] = (r.get(y, 0) + c) % R.m
            p = {x: c for x, c in r.items() if c}
        return p

    def get(self, st, p):
        t = st.load(p, self.N)
        if t in self.reg:
            return self.reg[t]
        return self.split(st, t)

    def split(self, st, t):
        lo, hi = tm.extract(t, 0, 256), tm.extract(t, 256, 256)
        R = self.R
        return R.add(self.d1.poly(lo, R, st), self.mul(self.d1.poly(hi, R, st), self.U))

    def put(self, st, p, q):
        st.store(p, self.term(q), self.N)

    def term(self, q):
        R = self.R
        q = self.red(q)
        if all(len(x) == 0 or x == ((self.ug, 1),) for x in q):
            return q.get((), 0) * R256 % R.m | (q.get(((self.ug, 1),), 0) * R256 % R.m) << 256
        k = R.key(q)
        if k not in self.var:
            t = self.var[k] = tm.fresh('f2', 8 * self.N)
            self.reg[t] = q
        return self.var[k]

    def inv(self, st, r, a):
        R, p = self.R, self.get(st, a)
        if not p:
            st.store(r, 0, self.N)
            return None
        if R.unit(p):
            self.put(st, r, self.red(R.minv(p)))
            return None
        z = self.zero(p)
        return X.Split([(z, 0, lambda s: s.store(r, 0, self.N)), (tm.not_(z), 0, lambda s: self.put(s, r, self.d1.inverse(R, p)))])


class Dom4(Dom2):
    """the sm9_fp4_* functions by contract (P01): polynomials in V with V^4 = -2 (V^2 = u)"""
    PRE = r'sm9::internal::sm9_fp4_'
    N = 128
    GEN = 'V'

    def more(self, h, op1, op2):
        R = self.R
        h('mul_v', op1(lambda p: self.mul(p, self.U)))
        h('mul_fp', lambda st, r, a, b: self.put(st, r, self.mul(self.get(st, a), self.d1.poly(st.load(b, 32), R, st))))
        h('mul_fp2', lambda st, r, a, b: self.put(st, r, self.mul(self.get(st, a), self.half(st, st.load(b, 64)))))

    def half(self, st, t):
        R = self.R
        lo, hi = tm.extract(t, 0, 256), tm.extract(t, 256, 256)
        return R.add(self.d1.poly(lo, R, st), self.mul(self.d1.poly(hi, R, st), self.mul(self.U, self.U)))

    def red(self, p):
        R, u = self.R, self.ug
        if any(g == u and not 0 < e < 4 for x in p for g, e in x):
            r = {}
            for x, c in p.items():
                d = dict(x)
                e = d.pop(u, 0)
                k, e = divmod(e, 4)
                c = c * pow(-2, k, R.m) % R.m
                if e:
                    d[u] = e
                y = tuple(sorted(d.items()))
                r[y] = (r.get(y, 0) + c) % R.m
            p = {x: c for x, c in r.items() if c}
        return p

    def split(self, st, t):
        R = self.R
        return R.add(self.half(st, tm.extract(t, 0, 512)), self.mul(self.half(st, tm.extract(t, 512, 512)), self.U))

    def term(self, q):
        R = self.R
        q = self.red(q)
        if all(all(g == self.ug for g, e in x) for x in q):
            c = [q.get(((self.ug, e),) if e else (), 0) * R256 % R.m for e in (0, 2, 1, 3)]
            return sum(v << (256 * i) for i, v in enumerate(c))
        k = R.key(q)
        if k not in self.var:
            t = self.var[k] = tm.fresh('f4', 8 * self.N)
            self.reg[t] = q
        return self.var[k]
