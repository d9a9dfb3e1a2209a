"""scalar multiplication: point operations by contract (E01, P02), points as integer multiples of the base point"""
from ecgroup import *
import u256, random
C = Check('E02', 'model_checking')
W = 272
OPN = {'s2': r'sm2::internal::sm2_ec_', 'g1': r'sm9::internal::sm9_ec_', 'g2': r'sm9::internal::sm9_ec2_'}
SEED = int(os.environ.get('VERIF_SEED', '1'))


class NoVal(Exception):
    pass


D = 24  # width of the offsets below (signed); coefficients and offsets are kept small


class Mult:
    """buffers holding points are opaque terms, each with the integer it is the multiple of, written
    a*(X >> i) + b*(S >> i) + d with integers a, b and an offset term d; X = 3 S and S the reduced scalar.
    Rewriting (2a, 2b, i, d) to (a, b, i-1, 0) is justified by X >> i-1 = 2 (X >> i) + X[i-1] (same for S) when the
    solver shows d = a X[i-1] + b S[i-1]."""

    def __init__(self, j, e, curve, L):
        self.j, self.e, self.L = j, e, L
        C = self.C = CURVE[curve]
        sz = C.F.size
        self.J, self.A = 3 * sz, 2 * sz
        self.reg, self.canon, self.fresh = {}, {}, {}
        self.S0 = None
        # X = 3 S < 3 2^256 with its leading bit at L, hence S < 2^L
        n = min(256, L)
        self.X = tm.concat([(1, 258 - L), (tm.var('X', L), L)]) if L < 257 else tm.concat([(2, 2), (tm.var('X', 256), 256)])
        self.S = tm.zext(256, tm.var('S', n), n)
        nm = OPN[curve]
        J, A = self.J, self.A

        def h(name, rs, fn):
            def g(ex, st, a):
                self.put(st, a[0], rs, fn(st, a))
            e.hook(nm + name, g, required=False)
        V = self.at
        
        def dbl(st, a):
            v = self.lead(V(st, a[1], J))
            return self.lin(v, v)
        h('j_dbl', J, dbl)
        h('j_add_a', J, lambda st, a: self.lin(V(st, a[1], J), V(st, a[2], A)))
        h('j_add', J, lambda st, a: self.lin(V(st, a[1], J), V(st, a[2], J)))
        h('j_neg', J, lambda st, a: self.neg(V(st, a[1], J)))
        h('a_neg', A, lambda st, a: self.neg(V(st, a[1], A)))
        h('j_from_a', J, lambda st, a: V(st, a[1], A))
        h('j_cpy', J, lambda st, a: V(st, a[1], J))
        h('a_cpy', A, lambda st, a: V(st, a[1], A))
        h('j_set_inf', J, lambda st, a: (0, 0, 0, 0))
        h('j_normal', J, lambda st, a: V(st, a[1], J))

        def tpl(ex, st, a):
            s = st.load(a[1], 32)
            if s.__class__ is int:
                r = 3 * s
                st.store(a[0], r & (1 << 256) - 1, 32)
                return r >> 256
            if self.S0 is None:
                self.S0 = s
            elif s is not self.S0 and s is not self.S:
                raise X.Unsupported('second tripling')
            if a[0] != a[1]:
                st.store(a[1], self.S, 32)
            st.store(a[0], tm.extract(self.X, 0, 256), 32)
            return tm.zext(32, tm.extract(self.X, 256, 2), 2)
        e.hook(u256.PRE + 'tpl_carry', tpl, required=False)

    def facts(self):
        f = [tm.eq(258, self.X, tm.mul(258, tm.zext(258, self.S, 256), 3))]
        return f + ([tm.eq(256, self.S, self.S0)] if self.S0 is not None else [])

    def small(self, v):
        a, b, i, d = v
        if max(abs(a), abs(b)) > 64:
            raise NoVal('coefficients grow')
        return v

    def lin(self, u, v):
        if not (u[0] or u[1]):
            u, v = v, u
        if (v[0] or v[1]) and u[2] != v[2]:
            raise NoVal('sum of different windows')
        return self.small((u[0] + v[0], u[1] + v[1], u[2], tm.add(D, u[3], v[3])))

    def neg(self, u):
        return (-u[0], -u[1], u[2], tm.sub(D, 0, u[3]))

    def put(self, st, p, size, v):
        k = (size, v)
        if k not in self.fresh:
            t = self.fresh[k] = tm.fresh('pt', 8 * size)
            self.reg[t] = v
        st.store(p, self.fresh[k], size)

    def at(self, st, p, size):
        return self.val(st.load(p, size), st)

    def raw(self, t, st):
        if t in self.reg:
            return self.reg[t]
        if t.__class__ is T and t.op == 'ite':
            c, x, y = t.a
            r = []
            for v, pol in ((x, c), (y, tm.not_(c))):
                try:
                    r.append(self.raw(v, st))
                except NoVal:
                    if self.e.check(st, pol) != 'unsat':
                        raise
                    r.append(None)
            u, v = r
            if u is None:
                return v
            if v is None:
                return u
            if u[:3] != v[:3]:
                u, v = self.align(u, v)
            return (u[0], u[1], u[2], tm.ite(D, c, u[3], v[3]))
        raise NoVal(str(t)[:200])

    def alts(self, t, st, pc=()):
        """[(conditions, value)] of a result"""
        if t not in self.reg and t.__class__ is T and t.op == 'ite':
            try:
                return [(list(pc), self.val(t, st))]
            except NoVal:
                c, x, y = t.a
                out = []
                for v, pol in ((x, c), (y, tm.not_(c))):
                    if self.e.check(st, pol) != 'unsat':
                        out += self.alts(v, st, list(pc) + [pol])
                return out
        return [(list(pc), self.val(t, st))]

    def bit(self, w, k):
        return tm.zext(D, tm.extract(w, k, 1), 1) if k < (258 if w is self.X else 256) else 0

    def align(self, u, v):
        """same windows: a (X >> i) = 2a (X >> i+1) + a X[i]"""
        for _ in range(8):
            if u[:3] == v[:3]:
                return u, v
            if u[2] < v[2] and (u[0] or u[1]):
                u = self.up(u)
            elif v[2] < u[2] and (v[0] or v[1]):
                v = self.up(v)
            else:
                break
        raise NoVal('windows differ %r %r' % (str(u)[:90], str(v)[:90]))

    def up(self, u):
        a, b, i, d = u
        d = tm.add(D, d, tm.add(D, tm.mul(D, self.bit(self.X, i), a), tm.mul(D, self.bit(self.S, i), b)))
        return self.small((2 * a, 2 * b, i + 1, d))

    def val(self, t, st):
        if t not in self.canon:
            self.canon[t] = self.norm(self.raw(t, st), st)
        return self.canon[t]

    def lead(self, v):
        """1 is the leading part of X"""
        return (1, -1, self.L, 0) if v == (0, 0, 0, 1) and self.S0 is not None else v

    def norm(self, v, st):
        for _ in range(8):
            a, b, i, d = v
            if not (a or b):
                return v
            if a % 2 or b % 2 or i == 0:
                return v
            a, b = a // 2, b // 2
            w = tm.add(D, tm.mul(D, self.bit(self.X, i - 1), a), tm.mul(D, self.bit(self.S, i - 1), b))
            if d is not w:
                for cs in ([], st.conds()):
                    if self.j.query(cs + [tm.ne(D, d, w)], timeout=10000)[0] == 'unsat':
                        break
                else:
                    return v
            v = (a, b, i - 1, 0)
        return v

    def term(self, v):
        a, b, i, d = v
        x = tm.zext(W, tm.extract(self.X, i, 258 - i), 258 - i) if i < 258 else 0
        s = tm.zext(W, tm.extract(self.S, i, 256 - i), 256 - i) if i < 256 else 0
        d = tm.sext(W, d, D) if d.__class__ is T else (d if d < 1 << (D - 1) else d - (1 << D)) % (1 << W)
        return tm.add(W, tm.add(W, tm.mul(W, x, a % (1 << W)), tm.mul(W, s, b % (1 << W))), d)


def tryk(so, curve, fn, ks, r):
    C = CURVE[curve]
    sz = C.F.size
    calls, want = [], []
    for k in ks:
        m = r.choice([1, 2, r.randrange(1, C.n)]) if fn == 'mula' else 1
        Pt = C.mul(m, C.G)
        a = [('buf', bytes(3 * sz)), ('buf', k.to_bytes(32, 'big'))] + ([('buf', C.affb(Pt))] if fn == 'mula' else [])
        calls.append(('%s_%s' % (curve, fn), a))
        want.append((k, Pt))
    g = native(so, calls)
    if 'crash' in g:
        if len(ks) == 1:
            return dict(function='%s %s' % (NAME[curve], fn), k=hex(ks[0]), observed=g['crash'])
        return next((c for c in (tryk(so, curve, fn, [k], r) for k in ks) if c), None)
    nb = 3 if fn == 'mula' else 2
    for i, (k, Pt) in enumerate(want):
        o = C.dejac(g['bufs'][nb * i])
        w = C.mul(k % C.n, Pt)
        if o != w:
            return dict(function='%s %s' % (NAME[curve], fn), k=hex(k), point=repr(Pt), observed=repr(o), expected=repr(w))


def scalars(n, L, r):
    lo, hi = -(-(1 << L) // 3), ((2 << L) - 1) // 3
    hi = min(hi, n - 1)
    out = []
    if lo <= hi:
        out += [lo, hi] + [r.randint(lo, hi) for _ in range(8)]
        for _ in range(6):
            v = r.choice([0, (1 << 256) - 1])
            for _ in range(r.randrange(1, 6)):
                v ^= 1 << r.randrange(max(1, L))
            v &= (1 << max(1, L)) - 1
            if lo <= v <= hi:
                out.append(v)
        out += [v + n for v in out if v + n < 1 << 256][:6]
    return out


def mul(j, L_, variant, curve, fn, Ls):
    ll, so = lib(L_, variant)
    Cv = CURVE[curve]
    n, sz = Cv.n, Cv.F.size
    prog = X.Prog(ll)
    edge = [0, 1, 2, 3, n - 2, n - 1, n, n + 1, n + 2, (1 << 256) - 1, 1 << 255, (1 << 255) - 1]
    for L in Ls:
        what = '%s %s %s, leading bit of 3k at %d' % (variant, NAME[curve], fn, L)
        r = random.Random(SEED * 1000 + L)

        def hunt(env=None):
            ks = scalars(n, L, r) + edge
            if env and 'k' in env:
                ks = [env['k'] % (1 << 256)] + ks
            for i in range(0, len(ks), 20):
                cx = tryk(so, curve, fn, ks[i:i + 20], r)
                if cx:
                    return cx
            for t in range(3):
                cx = tryk(so, curve, fn, [r.getrandbits(256) for _ in range(40)], r)
                if cx:
                    return cx

        def fail(msg, env=None):
            cx = hunt(env)
            if cx:
                j.violation('%s: %s' % (what, msg), cx)
            else:
                j.inconclusive('%s: %s' % (what, msg))
        e = X.Ex(prog, (150 if C.quick else 400))
        u256.install(e)
        e.merge('.*')
        e.merge_check = True
        d = Mult(j, e, curve, L)
        st = e.run_ctors(X.State(e))
        Rp, kp = st.alloc(3 * sz), st.alloc(32)
        K = tm.var('k', 256)
        st.store(kp, u256.rev(K), 32)
        args = [Rp, kp]
        G = int.from_bytes(Cv.affb(Cv.G), 'little')
        if fn == 'mula':
            pp = st.alloc(2 * sz)
            P = tm.var('P', 16 * sz)
            st.store(pp, P, 2 * sz)
            d.reg[P] = (0, 0, 0, 1)
            args.append(pp)
        else:
            d.reg[G] = (0, 0, 0, 1)
        S0 = tm.ite(256, tm.ult(256, K, n), K, tm.sub(256, K, n))
        try:
            for q in e.call(st, '%s_%s' % (curve, fn), args):
                pc = q.st.conds() + d.facts()
                if q.kind != 'ret':
                    res, env = j.query(pc)[:2]
                    if res == 'unsat':
                        j.ok()
                    elif res == 'sat':
                        fail(str(q.info or q.kind), env)
                    else:
                        j.inconclusive(what + ': ' + res)
                    continue
                res = d.alts(q.st.load(Rp, 3 * sz), q.st)
                for extra, v in res:
                    pc = q.st.conds() + extra
                    if v[:2] == (0, 0) and v[3].__class__ is int:
                        # fixed multiple: only for the scalars congruent to it
                        w = v[3] if v[3] < 1 << (D - 1) else v[3] - (1 << D)
                        res, env = j.query(pc + d.facts() + [tm.ne(256, K, (w + m) % (1 << 256)) for m in (0, n) if 0 <= w + m < 1 << 256])[:2]
                        if res == 'unsat':
                            j.ok()
                        else:
                            fail('a fixed multiple for other scalars', env)
                        continue
                    if d.S0 is None:
                        raise NoVal('scalar recoding not recognised')
                    if d.S0 is S0 or j.query(pc + [tm.ne(256, d.S0, K)] + ([tm.ne(257, tm.zext(257, d.S0, 256), tm.sub(257, tm.zext(257, K, 256), n))]))[0] == 'unsat':
                        j.ok()
                    else:
                        fail('recoded scalar not congruent to k modulo the order')
                        continue
                    res, env = j.query(d.facts()[:1] + [tm.ne(W, d.term(v), tm.zext(W, d.S, 256))])[:2]
                    if res != 'unsat':
                        res, env = j.query(pc + d.facts() + [tm.ne(W, d.term(v), tm.zext(W, d.S, 256))])[:2]
                    if res == 'unsat':
                        j.ok()
                    else:
                        fail('result is not the multiple asked for', env if res == 'sat' else None)
        except (NoVal, X.Unsupported) as ex:
            fail(str(ex))
        j.absorb(e)
    j.bound('%s %s %s: every scalar whose reduced value s has the leading bit of 3s at one of %s' % (variant, NAME[curve], fn, ','.join(map(str, Ls))))


def native_edges(j, L_, variant):
    pass


def main():
    L_ = build('ecE02', 'ec.cpp', FIELD)
    r = random.Random(SEED)
    for v in ('portable', 'simd'):
        for c in ('s2', 'g1', 'g2'):
            top = (3 * (CURVE[c].n - 1)).bit_length() - 1
            Ls = list(range(1, top + 1))
            if C.quick:
                Ls = sorted(set([1, 2, 3, 4, 5, 31, 32, 33, 63, 64, 65, 128, 129, 254, 255, 256, 257]) | set(r.sample(Ls, 6)) - {0})
                Ls = [x for x in Ls if x <= top]
            for i in range(0, len(Ls), 4):
                C.job('%s %s mula %s' % (v, c, Ls[i:i + 4]), mul, L_, v, c, 'mula', Ls[i:i + 4])
            G = Ls if not C.quick else [x for x in Ls if x in (1, 2, 32, 255, 256, 257) or x > 253]
            for i in range(0, len(G), 4):
                C.job('%s %s mulg %s' % (v, c, G[i:i + 4]), mul, L_, v, c, 'mulg', G[i:i + 4])
    C.assume('the point operations (double, mixed add, negate, copy, convert) compute the group law on every representative (E01, P02)')
    C.assume('uint256 word operations by contract (N01)')
    C.assume('points multiplied have order n (every point of SM2 and SM9 G1; the order-n subgroup of the twist)')
    C.run()
    C.finish()


if __name__ == '__main__':
    main()
