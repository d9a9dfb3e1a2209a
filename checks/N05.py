from numlib import *
import u256, random
C = Check('N05', 'model_checking')
W = 272
M = r'number::internal::(?:common|x64)::mont256_'


class NoExp(Exception):
    pass


class ExpDom:
    """montgomery products as exponent arithmetic: every residue made from the base is base^expo.  mont256_mul/sqr are
    taken by contract (N04): the result is the canonical residue of the product of its operands."""

    def __init__(self, e, E=None, one=None):
        self.e, self.E = e, E
        self.reg = {}
        self.canon = {}
        rnd = random.Random(5)
        self.samples = [(rnd.getrandbits(E.w) | 1 << (E.w - 1), {}) for i in range(70)] if E is not None else []
        if one is not None:
            self.reg[one] = 0
        e.hook(M + 'mul', lambda ex, st, a: self.mul(st, a[1], a[2], a[3]), required=False)
        e.hook(M + 'sqr', lambda ex, st, a: self.mul(st, a[1], a[2], a[2]), required=False)

    def mul(self, st, r, pa, pb):
        a, b = st.load(pa, 32), st.load(pb, 32)
        x = tm.add(W, self.expo(a, st), self.expo(b, st))
        if x.__class__ is int:
            key = ('c', x)
            if key not in self.canon:
                self.canon[key] = tm.fresh('pw', 256)
            t = self.canon[key]
        else:
            t = tm.fresh('pw', 256)
        self.reg[t] = x
        st.store(r, t, 32)

    def raw(self, t, st):
        if t in self.reg:
            return self.reg[t]
        if t.__class__ is T and t.op == 'ite':
            c, x, y = t.a
            r = []
            for v, pol in ((x, c), (y, tm.not_(c))):
                try:
                    r.append(self.raw(v, st))
                except NoExp:
                    if self.e.check(st, pol) != 'unsat':
                        raise
                    r.append(None)
            if r[0] is None:
                return r[1]
            if r[1] is None:
                return r[0]
            return tm.ite(W, c, r[0], r[1])
        raise NoExp(str(t)[:200])

    def expo(self, t, st):
        x = self.raw(t, st)
        if x.__class__ is int or self.E is None:
            return x
        if t not in self.canon:
            self.canon[t] = self.guess(x, st)
        return self.canon[t]

    def guess(self, x, st):
        """x as a window of the exponent, when the solver confirms it"""
        E = self.E
        if len(tm.topo([x])) <= 12:
            return x
        env = []
        pc = [c for c in st.conds() if c.__class__ is not int]
        for v, cache in self.samples:
            en = {E.a[0]: v, 'a': 5}
            if all(cache[c] if c in cache else tm.evaluate([c], en, cache=cache)[0] for c in pc):
                env.append((v, tm.evaluate([x], en, cache=cache)[0]))
                if len(env) >= 8:
                    break
        if not env:
            return x
        cand = []
        for s in range(E.w):
            for n in (1, 2, 4, 8):
                if s + n <= E.w and all(v >> s & ((1 << n) - 1) == y for v, y in env):
                    cand.append(tm.zext(W, tm.extract(E, s, n), n))
            for k in (0, 1, 2, 3, 4, 5, 8):
                if all((v >> s) << k == y for v, y in env):
                    cand.append(tm.shl(W, tm.zext(W, tm.extract(E, s, E.w - s), E.w - s), k))
            if s and all(v & ((1 << s) - 1) == y for v, y in env):
                cand.append(tm.zext(W, tm.extract(E, 0, s), s))
        for g in cand[:2]:
            if self.prove(x, g, st):
                return g
        return x

    def prove(self, x, g, st):
        if x is g or (x.__class__ is int and g.__class__ is int and x == g):
            return True
        if self.j.query(st.conds()[-2:] + [tm.ne(W, x, g)], timeout=5000)[0] == 'unsat':
            return True
        if self.j.query(st.conds() + [tm.ne(W, x, g)], timeout=20000)[0] == 'unsat':
            return True
        return False


def ref(m, base, ex):
    P = MOD[m]
    Ri = pow(R256, -1, P)
    if base == 0 and ex:
        return 0
    return pow(base * Ri % P, ex, P) * R256 % P


def run(j, variant, m, fn, base_nz, nn=None, extra=None, E=None):
    """yield (path, result exponent)"""
    ll, so = lib(LIB, variant)


def confirm_pow(so, m, fn, env, ex):
    b = env.get('a', 3)
    P = MOD[m]
    if fn.startswith('f_pow'):
        args = [('buf', bytes(32)), ('buf', b.to_bytes(32, 'little')), ('buf', ex.to_bytes(32, 'little'))]
    else:
        args = [('buf', bytes(32)), ('buf', b.to_bytes(32, 'little'))]
    r = native(so, [(fn, args)])
    cx = dict(function=fn, base=hex(b), exponent=hex(ex))
    if 'crash' in r:
        cx['observed'] = r['crash']
        return cx
    g = int.from_bytes(r['bufs'][0], 'little')
    if g != ref(m, b, ex):
        cx.update(observed=hex(g), expected=hex(ref(m, b, ex)))
        return cx


def engine(variant):
    ll, so = lib(LIB, variant)
    e = X.Ex(X.Prog(ll), (150 if C.quick else 400))
    u256.install(e)
    e.merge('.*')
    e.merge_check = True
    return e, so


def power(j, variant, m, nns, prefixes=False):
    """exponents with exactly nn significant hex digits, base any non-zero residue"""
    P = MOD[m]
    fn = 'f_pow_' + m
    for nn in nns:
        e, so = engine(variant)
        E = tm.var('e', 4 * nn)
        d = ExpDom(e, E, R256 % P)
        d.j = j
        st = e.run_ctors(X.State(e))
        r, a, ee = st.alloc(32), st.alloc(32), st.alloc(32)
        A = tm.var('a', 256)
        d.reg[A] = 1
        st.store(a, A, 32)
        st.store(ee, tm.zext(256, E, 4 * nn), 32)
        st.assume(tm.ne(256, A, 0))
        st.assume(tm.ult(256, A, P))
        st.assume(tm.ne(4, tm.extract(E, 4 * nn - 4, 4), 0))
        what = '%s mod %s: power with a %d-digit exponent' % (variant, m, nn)

        def confirm(env):
            return confirm_pow(so, m, fn, env, env.get('e', 1))

        def hunt():
            rnd = random.Random(C.seed)
            for i in range(400):
                ev = rnd.getrandbits(4 * nn) if i % 2 else int(''.join(rnd.choice('0123456789abcdef00f1') for _ in range(nn)), 16)
                ev |= rnd.randrange(1, 16) << (4 * nn - 4)
                ev &= (1 << 4 * nn) - 1
                cx = confirm(dict(a=rnd.randrange(1, P), e=ev))
                if cx:
                    j.violation(what, cx)
                    return True
        try:
            for q in e.call(st, fn, [r, a, ee]):
                if q.kind != 'ret':
                    j.never(q.st.conds(), what + ': ' + str(q.info or q.kind), confirm)
                    continue
                x = d.expo(q.st.load(r, 32), q.st)
                if d.prove(x, tm.zext(W, E, 4 * nn), q.st):
                    j.ok()
                elif not hunt():
                    j.inconclusive(what + ': exponent relation undecided')
        except (NoExp, X.Unsupported) as ex:
            if not hunt():
                j.inconclusive('%s: %s' % (what, ex))
        j.absorb(e)
    j.bound('%s mod %s: power for every non-zero residue and every exponent of %s hex digits' % (variant, m, '%d..%d' % (min(nns), max(nns)) if len(nns) > 1 else nns[0]))
    j.vac.append('a non-zero base and an exponent with its top digit non-zero exist')


def fixed(j, variant, m):
    """inverse = base^(P-2); square root structure; base 0; exponent 0"""
    P = MOD[m]
    Rm = R256 % P
    e, so = engine(variant)
    d = ExpDom(e, None, Rm)
    d.j = j
    for fn, want in (('f_inv_' + m, P - 2),):
        st = e.run_ctors(X.State(e))
        r, a = st.alloc(32), st.alloc(32)
        A = tm.var('a', 256)
        d.reg[A] = 1
        st.store(a, A, 32)
        st.assume(tm.ne(256, A, 0))
        st.assume(tm.ult(256, A, P))
        what = '%s mod %s: inverse is base^(P-2)' % (variant, m)

        def confirm(env):
            rnd = random.Random(C.seed)
            for i in range(100):
                b = rnd.randrange(1, P)
                cx = confirm_pow(so, m, fn, dict(a=b), P - 2)
                if cx:
                    return cx
        for q in e.call(st, fn, [r, a]):
            if q.kind != 'ret':
                j.never(q.st.conds(), what + ': ' + str(q.info or q.kind), confirm)
                continue
            try:
                x = d.expo(q.st.load(r, 32), q.st)
            except NoExp as ex:
                x = None
            # base^x = base^-1 for all non-zero bases of the prime field iff x = P-2 modulo P-1
            if x.__class__ is int and x % (P - 1) == P - 2:
                j.ok(structural=True)
            else:
                cx = confirm({})
                if cx:
                    j.violation(what, cx)
                else:
                    j.inconclusive(what + ': exponent not determined')
    # base 0, any non-zero exponent; inverse of 0 (0 by convention)
    for al in ('sep', 'alias'):
        st = e.run_ctors(X.State(e))
        ee = st.alloc(32)
        a = st.alloc(32)
        r = st.alloc(32) if al == 'sep' else a
        E = tm.var('e', 256)
        st.store(ee, E, 32)
        st.store(a, 0, 32)
        st.assume(tm.ne(256, E, 0))
        for q in e.call(st, 'f_pow_' + m, [r, a, ee]):
            cf = lambda env: confirm_pow(so, m, 'f_pow_' + m, dict(a=0), env.get('e', 1))
            if q.kind != 'ret':
                j.never(q.st.conds(), 'power of 0: ' + str(q.info or q.kind), cf)
            else:
                j.never(q.st.conds() + [tm.ne(256, q.st.load(r, 32), 0)], '%s mod %s: 0^e is 0' % (variant, m), cf)
        # exponent 0, any non-zero base
        st = e.run_ctors(X.State(e))
        ee = st.alloc(32)
        a = st.alloc(32)
        r = st.alloc(32) if al == 'sep' else a
        A = tm.var('a', 256)
        d.reg[A] = 1
        st.store(ee, 0, 32)
        st.store(a, A, 32)
        st.assume(tm.ne(256, A, 0))
        st.assume(tm.ult(256, A, P))
        for q in e.call(st, 'f_pow_' + m, [r, a, ee]):
            cf = lambda env: confirm_pow(so, m, 'f_pow_' + m, dict(a=env.get('a', 1)), 0)
            if q.kind != 'ret':
                j.never(q.st.conds(), 'exponent 0: ' + str(q.info or q.kind), cf)
            else:
                j.never(q.st.conds() + [tm.ne(256, q.st.load(r, 32), Rm)], '%s mod %s: base^0 is one' % (variant, m), cf)
    st = e.run_ctors(X.State(e))
    a, r = st.alloc(32), st.alloc(32)
    st.store(a, 0, 32)
    for q in e.call(st, 'f_inv_' + m, [r, a]):
        j.never(q.st.conds() + ([tm.ne(256, q.st.load(r, 32), 0)] if q.kind == 'ret' else []), '%s mod %s: inverse of 0 is 0' % (variant, m),
                lambda env: confirm_pow(so, m, 'f_inv_' + m, dict(a=0), P - 2))
    j.absorb(e)
    j.bound('%s mod %s: inverse of every residue; 0^e for every e; b^0 for every b' % (variant, m))


if __name__ == '__main__':
    LIB = build('n05', 'field.cpp', FIELD)
    for v in ('portable', 'simd'):
        for m in MOD:
            C.job('%s %s fixed' % (v, m), fixed, v, m)
        for nns in ([64], [63, 1], [33, 2]) if C.quick else [[a, 65 - a] for a in range(1, 33)]:
            C.job('%s pow p2 %s' % (v, nns), power, v, 'p2', nns)
        for m in ('n2', 'p9', 'n9'):
            C.job(v + ' pow ' + m, power, v, m, [2] if C.quick else [2, 63, 64])
    C.assume('mont256_mul and mont256_sqr return the canonical residue of the product (N04)')
    C.assume('base is a canonical residue; 0^0 is not judged')
    C.run()
    C.finish()
