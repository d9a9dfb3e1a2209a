from tower import *
import random
C = Check('P01', 'model_checking')
SEED = int(os.environ.get('VERIF_SEED', '1'))
# op -> number of tower operands, extra operand kind, alias patterns
BIN = ('sep', 'R=A', 'R=B', 'A=B', 'R=A=B')
UN = ('sep', 'R=A')
OPS = {'add': ('bin', BIN), 'sub': ('bin', BIN), 'mul': ('bin', BIN), 'sqr': ('un', UN), 'neg': ('un', UN), 'cpy': ('un', UN), 'inv': ('un', UN)}
EXTRA = {2: {'dbl': ('un', UN), 'tpl': ('un', UN), 'mulu': ('un', UN), 'mulfp': (1, UN)},
         4: {'mulv': ('un', UN), 'mulfp': (1, UN), 'mulfp2': (2, UN)},
         12: {'mulfp4': (4, UN)}}


def ref(op, F, a, b, add, sub, mul, scale, gen):
    """expected value for any representation of ring elements"""
    if op == 'add':
        return add(a, b)
    if op == 'sub':
        return sub(a, b)
    if op in ('mul', 'mulfp', 'mulfp2', 'mulfp4'):
        return mul(a, b)
    if op == 'sqr':
        return mul(a, a)
    if op == 'neg':
        return scale(a, -1)
    if op == 'cpy':
        return a
    if op == 'dbl':
        return scale(a, 2)
    if op == 'tpl':
        return scale(a, 3)
    if op in ('mulu', 'mulv'):
        return mul(a, gen)
    raise ValueError(op)


def want(op, n, a, b):
    F = EXT[n]
    if op == 'inv':
        return F.inv(a)
    g = tuple(1 if i == 1 else 0 for i in range(n))
    return ref(op, F, a, b, F.add, F.sub, F.mul, F.scale, g)


class Nat:
    def __init__(self, so, n, op, kind, alias):
        self.so, self.n, self.op, self.kind, self.alias = so, n, op, kind, alias

    def run(self, items):
        n, F, alias = self.n, EXT[self.n], self.alias
        calls, meta, nb = [], [], 0
        for a, b in items:
            A = F.enc(a)
            B = None if self.kind == 'un' else (F.enc(b) if self.kind == 'bin' else enc_sub(b, self.kind, n))
            if alias == 'sep':
                args, ri, k = [('buf', bytes(F.size)), ('buf', A)] + ([('buf', B)] if B is not None else []), 0, 3 if B is not None else 2
            elif alias == 'R=A':
                args, ri, k = [('buf', A), ('ref', nb)] + ([('buf', B)] if B is not None else []), 0, 2 if B is not None else 1
            elif alias == 'R=B':
                args, ri, k = [('buf', B), ('buf', A), ('ref', nb)], 0, 2
            elif alias == 'A=B':
                args, ri, k = [('buf', bytes(F.size)), ('buf', A), ('ref', nb + 1)], 0, 2
            else:
                args, ri, k = [('buf', A), ('ref', nb), ('ref', nb)], 0, 1
            calls.append(('t%d_%s' % (n, self.op), args))
            meta.append((a, b, nb))
            nb += k
        r = native(self.so, calls)
        if 'crash' in r:
            if len(items) == 1:
                return dict(function='sm9_fp%d_%s' % (n, self.op), alias=alias, operands=repr(items[0])[:1500], observed=r['crash'])
            return next((x for x in (self.run([i]) for i in items) if x), None)
        for a, b, k in meta:
            got = F.dec(r['bufs'][k])
            w = want(self.op, n, a, a if alias in ('A=B', 'R=A=B') else b)
            if got != w:
                return dict(function='sm9_fp%d_%s' % (n, self.op), alias=alias, operands=[[hex(v) for v in x] for x in (a, b) if x is not None],
                            observed=[hex(v) for v in got] if got else 'unreduced coefficient', expected=[hex(v) for v in w])
            if alias == 'sep' and r['bufs'][k + 1] != F.enc(a):
                return dict(function='sm9_fp%d_%s' % (n, self.op), observed='operand modified', operands=[hex(v) for v in a])

    def hunt(self, N=600):
        r = random.Random(SEED)
        F = EXT[self.n]

        def gb():
            if self.kind == 'un':
                return None
            if self.kind == 'bin':
                return F.rnd(r)
            return embed(r_sub(r, self.kind), self.kind, self.n)
        for _ in range(N // 50):
            cx = self.run([(F.rnd(r), gb()) for _ in range(50)])
            if cx:
                return cx


def r_sub(r, m):
    return (r.randrange(P),) if m == 1 else EXT[m].rnd(r)


def enc_sub(b, m, n):
    k = n // m
    v = tuple(b[i * k] for i in range(m))
    return (v[0] * R256 % P).to_bytes(32, 'little') if m == 1 else EXT[m].enc(v)


class Sy:
    """level-1 symbolic setting"""

    def __init__(self, L, variant):
        self.ll, self.so = lib(L, variant)
        self.e = X.Ex(X.Prog(self.ll), 300)
        self.R = Ring(P, 'p')
        self.d = Dom(self.e, {P: self.R})

    def elem(self, n, name, sub=None):
        """coefficients (t^i); sub: only the positions of a subfield of that degree"""
        k = n // (sub or n)
        return [self.R.gen('%s%d' % (name, i)) if i % k == 0 else {} for i in range(n)]

    def put(self, st, p, v, n, sub=None):
        m = sub or n
        k = n // m
        sl = SLOT[m] if m > 1 else [0]
        for s, e in enumerate(sl):
            st.store(p + 32 * s, self.d.term(self.R, v[e * k]), 32)

    def get(self, st, p, n):
        r = [None] * n
        for s, e in enumerate(SLOT[n]):
            r[e] = self.d.poly(st.load(p + 32 * s, 32), self.R, st)
        return r

    def mul(self, a, b):
        n = len(a)
        R = self.R
        r = [{} for _ in range(2 * n)]
        for i, x in enumerate(a):
            for j, y in enumerate(b):
                if x and y:
                    r[i + j] = R.add(r[i + j], R.mul(x, y))
        return [R.add(r[i], r[i + n], -2) for i in range(n)]

    def add(self, a, b): return [self.R.add(x, y) for x, y in zip(a, b)]
    def sub(self, a, b): return [self.R.sub(x, y) for x, y in zip(a, b)]
    def scale(self, a, k): return [self.R.scale(x, k) for x in a]


def confirm(j, what, msg, nat, memo):
    if 'cx' not in memo:
        memo['cx'] = nat.hunt() if nat else None
    if memo['cx']:
        j.violation(what, memo['cx'])
    else:
        j.inconclusive('%s: %s' % (what, msg))


def setup(st, S, n, kind, alias, a, b):
    sz = 32 * n
    m = None if kind in ('un', 'bin') else kind
    pa = st.alloc(sz)
    S.put(st, pa, a, n)
    pb = None
    if kind != 'un' and alias not in ('A=B', 'R=A=B'):
        pb = st.alloc(32 * (m or n))
        S.put(st, pb, b, n, m)
    if alias == 'A=B':
        args = [st.alloc(sz), pa, pa]
    elif alias == 'R=A=B':
        args = [pa, pa, pa]
    elif alias == 'R=B':
        args = [pb, pa, pb]
    elif alias == 'R=A':
        args = [pa, pa] + ([pb] if pb is not None else [])
    else:
        args = [st.alloc(sz), pa] + ([pb] if pb is not None else [])
    return args, pa, pb


def arith(j, L, variant, n, op, kind, alias):
    what = '%s %s_%s [%s]' % (variant, NM[n], op, alias)
    S = Sy(L, variant)
    memo = {}
    nat = Nat(S.so, n, op, kind, alias)
    st = S.e.run_ctors(X.State(S.e))
    m = None if kind in ('un', 'bin') else kind
    a = S.elem(n, 'a')
    b = None if kind == 'un' else (a if alias in ('A=B', 'R=A=B') else S.elem(n, 'b', m))
    args, pa, pb = setup(st, S, n, kind, alias, a, b)
    g = [S.R.c(1) if i == 1 else {} for i in range(n)]
    try:
        w = ref(op, None, a, b, S.add, S.sub, S.mul, S.scale, g)
        for q in S.e.call(st, 't%d_%s' % (n, op), args):
            if q.kind != 'ret':
                confirm(j, what, str(q.info or q.kind), nat, memo)
                continue
            out = S.get(q.st, args[0], n)
            for Z, N in S.d.cases(q.st.conds(), S.R):
                pt = Path(S.R, Z, N)
                if pt.infeasible:
                    j.ok(structural=True)
                    continue
                bad = [i for i in range(n) if not pt.zero(S.R.sub(out[i], w[i]))]
                if alias == 'sep' and S.get(q.st, pa, n) != a:
                    bad.append('operand')
                if bad:
                    confirm(j, what, 'coefficients %s differ' % bad, nat, memo)
                else:
                    j.ok(structural=True)
    except (X.Unsupported, Lost) as ex:
        confirm(j, what, str(ex), nat, memo)
    j.absorb(S.e)


def invert(j, L, variant, n, alias):
    """a^-1 at the level just below: coefficients are elements of the subfield, whose operations are taken by contract"""
    what = '%s %s_inv [%s]' % (variant, NM[n], alias)
    S = Sy(L, variant)
    R = S.R
    memo = {}
    nat = Nat(S.so, n, 'inv', 'un', alias)
    st = S.e.run_ctors(X.State(S.e))
    if n == 2:
        h, k, nr, rules, top = None, 2, R.c(-2), [], None
    elif n == 4:
        h = Dom2(S.e, R, S.d)
        k, nr, rules = 2, h.U, [(h.ug, 2, R.c(-2))]
    else:
        h = Dom4(S.e, R, S.d)
        k, nr, rules = 3, h.U, [(h.ug, 4, R.c(-2))]
    sz = 32 * n // k
    a = [R.gen('a%d' % i) for i in range(k)]
    pa = st.alloc(32 * n)
    for i in range(k):
        if h:
            h.put(st, pa + i * sz, a[i])
        else:
            st.store(pa + 32 * i, S.d.term(R, a[i]), 32)
    pr = pa if alias == 'R=A' else st.alloc(32 * n)
    mul = h.mul if h else R.mul

    def ext(x, y):
        """product in the extension of degree k, t^k = nr"""
        r = [{} for _ in range(2 * k)]
        for i, u in enumerate(x):
            for l, v in enumerate(y):
                r[i + l] = R.add(r[i + l], mul(u, v))
        return [R.add(r[i], mul(r[i + k], nr)) for i in range(k)]
    if k == 2:
        norm = R.sub(mul(a[0], a[0]), mul(nr, mul(a[1], a[1])))
    else:
        a0, a1, a2 = a
        norm = R.add(R.add(mul(a0, mul(a0, a0)), mul(nr, mul(a1, mul(a1, a1)))), mul(mul(nr, nr), mul(a2, mul(a2, a2))))
        norm = R.sub(norm, R.scale(mul(nr, mul(a0, mul(a1, a2))), 3))
    try:
        for q in S.e.call(st, 't%d_inv' % n, [pr, pa]):
            if q.kind != 'ret':
                confirm(j, what, str(q.info or q.kind), nat, memo)
                continue
            out = [h.get(q.st, pr + i * sz) if h else S.d.poly(q.st.load(pr + 32 * i, 32), R, q.st) for i in range(k)]
            for Z, N in S.d.cases(q.st.conds(), R):
                for nonzero in (True, False):
                    # a field has no zero divisors: the norm of a non-zero element is not zero
                    pt = Path(R, Z + ([] if nonzero else list(a)), N + ([norm] if nonzero else []), rules)
                    if pt.infeasible or any(pt.zero(d) for d in pt.nzs):
                        j.ok(structural=True)
                        continue
                    prod = ext(out, a)
                    w = [R.c(1 if nonzero and i == 0 else 0) for i in range(k)]
                    chk = prod if nonzero else out
                    bad = [i for i in range(k) if not member(S, pt, R.sub(chk[i], w[i]))]
                    if bad:
                        confirm(j, what, 'a * a^-1 differs from one in coefficients %s' % bad if nonzero else 'inverse of zero is not zero', nat, memo)
                    else:
                        j.ok(structural=True)
    except (X.Unsupported, Lost) as ex:
        confirm(j, what, str(ex), nat, memo)
    j.absorb(S.e)


def member(S, pt, a):
    """a = 0 given inv*D = 1: multiply by D where the inverse generator occurs linearly"""
    R = S.R
    if pt.zero(a):
        return True
    for k, g in S.d.pows.items():
        (x, _), = g.items()
        gi = x[0][0]
        D = dict(k[2])
        lo = {}
        hi = {}
        for y, c in a.items():
            d = dict(y)
            e = d.pop(gi, 0)
            if e not in (0, 1):
                return False
            (hi if e else lo)[tuple(sorted(d.items()))] = c
        # g*hi + lo = 0  <=>  hi + lo*D = 0
        if pt.zero(R.add(hi, R.mul(lo, D))):
            return True
    return False


def equality(j, L, variant, n):
    what = '%s %s equality' % (variant, NM[n])
    F = EXT[n]
    for op in ('eq', 'eq0', 'eq1'):
        S = Sy(L, variant)
        R = S.R
        st = S.e.run_ctors(X.State(S.e))
        a = S.elem(n, 'a')
        pa = st.alloc(32 * n)
        S.put(st, pa, a, n)
        args = [pa]
        o = [{}] * n
        if op == 'eq':
            o = S.elem(n, 'b')
            pb = st.alloc(32 * n)
            S.put(st, pb, o, n)
            args.append(pb)
        elif op == 'eq1':
            o = [R.c(1)] + [{}] * (n - 1)

        def hunt():
            r = random.Random(SEED)
            for i in range(n):
                for base in (F.zero, F.one, tuple(r.randrange(P) for _ in range(n))):
                    for d in (0, 1, P - 1):
                        x = list(base)
                        x[i] = (x[i] + d) % P
                        x = tuple(x)
                        y = {'eq': base, 'eq0': F.zero, 'eq1': F.one}[op]
                        g = native(S.so, [('t%d_%s' % (n, op), [('buf', F.enc(x))] + ([('buf', F.enc(y))] if op == 'eq' else []))])
                        if 'crash' in g or bool(g['ret'][0] & 255) != (x == y):
                            return dict(function='%s_%s' % (NM[n], op), a=[hex(v) for v in x], b=[hex(v) for v in y], observed=g.get('crash', g.get('ret')))
        try:
            for q in S.e.call(st, 't%d_%s' % (n, op), args):
                if q.kind != 'ret':
                    raise Lost(str(q.info or q.kind))
                r = q.st.ret
                bits = [(q.st.conds() + [b], v) for b, v in ((tm.ne(r.w, r, 0), 1), (tm.eq(r.w, r, 0), 0))] if r.__class__ is not int else [(q.st.conds(), int(bool(r & 255)))]
                for conds, ret in bits:
                    for Z, N in S.d.cases(conds, R):
                        pt = Path(R, Z, N)
                        if pt.infeasible:
                            j.ok(structural=True)
                            continue
                        ds = [R.sub(x, y) for x, y in zip(a, o)]
                        if ret:
                            ok = all(pt.zero(d) for d in ds)
                        else:
                            ok = Path(R, Z + ds, N).infeasible
                        if ok:
                            j.ok(structural=True)
                        else:
                            cx = hunt()
                            if cx:
                                j.violation(what, cx)
                            else:
                                j.inconclusive('%s: %s returns %d' % (what, op, ret))
        except (X.Unsupported, Lost) as ex:
            cx = hunt()
            if cx:
                j.violation(what, cx)
            else:
                j.inconclusive('%s: %s' % (what, ex))
        j.absorb(S.e)
    for op, v in (('set0', F.zero), ('set1', F.one)):
        S = Sy(L, variant)
        st = S.e.run_ctors(X.State(S.e))
        p = st.alloc(32 * n)
        try:
            for q in S.e.call(st, 't%d_%s' % (n, op), [p]):
                got = q.kind == 'ret' and S.get(q.st, p, n)
                if got and all(g == S.R.c(w) for g, w in zip(got, v)):
                    j.ok(structural=True)
                    continue
                g = native(S.so, [('t%d_%s' % (n, op), [('buf', b'\xa5' * 32 * n)])])
                if 'crash' in g or F.dec(g['bufs'][0]) != v:
                    j.violation(what, dict(function='%s_%s' % (NM[n], op), observed=g.get('crash') or g['bufs'][0].hex()))
                else:
                    j.inconclusive('%s %s' % (what, op))
        except (X.Unsupported, Lost) as ex:
            j.inconclusive('%s: %s' % (what, ex))


def bytesio(j, L, variant, n):
    what = '%s %s byte conversion' % (variant, NM[n])
    F = EXT[n]

    def hunt(to):
        r = random.Random(SEED)
        for k in range(40):
            a = F.rnd(r) if k else tuple(range(1, n + 1))
            b = F.tobytes(a) if k % 3 else bytes(r.randrange(256) for _ in range(32 * n))
            if to:
                g = native(S.so, [('t%d_to' % n, [('buf', bytes(32 * n)), ('buf', F.enc(a))])])
                if 'crash' in g or g['bufs'][0] != F.tobytes(a):
                    return dict(function=NM[n] + '_to_bytes', a=[hex(v) for v in a], observed=g.get('crash') or g['bufs'][0].hex(), expected=F.tobytes(a).hex())
            else:
                g = native(S.so, [('t%d_from' % n, [('buf', bytes(32 * n)), ('buf', b)])])
                if 'crash' in g or F.dec(g['bufs'][0]) != F.frombytes(b):
                    return dict(function=NM[n] + '_from_bytes', input=b.hex(), observed=g.get('crash') or g['bufs'][0].hex())
    for to in (True, False):
        S = Sy(L, variant)
        st = S.e.run_ctors(X.State(S.e))
        src, dst = st.alloc(32 * n), st.alloc(32 * n)
        try:
            if to:
                a = S.elem(n, 'a')
                S.put(st, src, a, n)
            else:
                V = [tm.var('c%d' % i, 256) for i in range(n)]
                for s, e in enumerate(reversed(SLOT[n])):
                    st.store(src + 32 * s, rev(V[e]), 32)
            for q in S.e.call(st, 't%d_%s' % (n, 'to' if to else 'from'), [dst, src]):
                if q.kind != 'ret':
                    raise Lost(str(q.info or q.kind))
                good = True
                if to:
                    for s, e in enumerate(reversed(SLOT[n])):
                        good = good and q.st.load(dst + 32 * s, 32) is rev(S.d.value(S.R, a[e]))
                else:
                    got = S.get(q.st, dst, n)
                    good = all(got[i] == S.d.residue(S.R, V[i]) for i in range(n))
                if good:
                    j.ok(structural=True)
                else:
                    raise Lost('%s bytes: wrong coefficient order' % ('to' if to else 'from'))
        except (X.Unsupported, Lost) as ex:
            cx = hunt(to)
            if cx:
                j.violation(what, cx)
            else:
                j.inconclusive('%s: %s' % (what, ex))
        j.absorb(S.e)


FROB = [('sm9_fp12_frobenius', 12, 1), ('sm9_fp12_frobenius2', 12, 2), ('sm9_fp12_frobenius3', 12, 3), ('sm9_fp12_frobenius6', 12, 6),
        ('sm9_fp2_conjugate', 2, 1), ('sm9_fp4_conjugate', 4, 2)]


def frobenius(j, L, variant):
    """internal maps: x -> x^(p^k).  They have no external linkage, so a difference is confirmed through the pairing."""
    import pairref
    S0 = Sy(L, variant)
    seen = 0
    for name, n, k in FROB:
        S = Sy(L, variant)
        R = S.R
        fs = S.e.prog.find(r'sm9::internal::%s' % name)
        if not fs:
            j.note.append('%s not found in this tree' % name) if hasattr(j, 'note') else None
            continue
        seen += 1
        for alias in UN:
            what = '%s %s [%s]' % (variant, name, alias)
            st = S.e.run_ctors(X.State(S.e))
            a = S.elem(n, 'a')
            pa = st.alloc(32 * n)
            S.put(st, pa, a, n)
            pr = pa if alias == 'R=A' else st.alloc(32 * n)
            c = pow(-2, (P ** k - 1) // n % (P - 1), P)
            msg = None
            try:
                for q in S.e.call(st, fs[0], [pr, pa]):
                    if q.kind != 'ret':
                        msg = str(q.info or q.kind)
                        continue
                    out = S.get(q.st, pr, n)
                    bad = [i for i in range(n) if out[i] != R.scale(a[i], pow(c, i, P))]
                    if bad:
                        msg = 'coefficients %s differ from the %d-th power of Frobenius' % (bad, k)
                    else:
                        j.ok(structural=True)
            except (X.Unsupported, Lost) as ex:
                msg = str(ex)
            if msg and alias == 'R=A':
                j.inconclusive('%s: %s' % (what, msg))      # aliasing is a matter of the callers (P06)
            elif msg:
                cx = pairref.hunt(S.so)
                if cx:
                    j.violation(what + ': ' + msg, cx)
                else:
                    j.inconclusive('%s: %s' % (what, msg))
        j.absorb(S.e)


def main():
    L = build('ecP01', 'ec.cpp', FIELD)
    for v in ('portable', 'simd'):
        for n in (2, 4, 12):
            for op, (kind, al) in list(OPS.items()) + list(EXTRA[n].items()):
                for alias in al:
                    if op == 'inv':
                        C.job('%s %s inv %s' % (v, NM[n], alias), invert, L, v, n, alias)
                    else:
                        C.job('%s %s %s %s' % (v, NM[n], op, alias), arith, L, v, n, op, kind, alias)
            C.job('%s %s equality' % (v, NM[n]), equality, L, v, n)
            C.job('%s %s bytes' % (v, NM[n]), bytesio, L, v, n)
        C.job('%s Frobenius' % v, frobenius, L, v)
    C.assume('the Montgomery operations return the canonical residue of the field operation (N03-N05)')
    C.assume('x^12 + 2 is irreducible over GF(p) (checked numerically by the harness), so norms of non-zero elements are non-zero')
    C.bound('every operand; result aliasing either or both operands; Frobenius maps and conjugations as linear maps on all twelve coefficients')
    C.run()
    C.finish()


if __name__ == '__main__':
    main()
