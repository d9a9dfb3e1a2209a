"""group-law jobs shared by E01 (SM2) and P02 (SM9 G1, G2)"""
from eclib import *
import random

EC_SRC = FIELD
FIN, INF = 'finite', 'infinite'


def ops(curve):
    """(op, classes of operands, alias patterns)"""
    out = []
    for cp in (FIN, INF):
        for cq in (FIN, INF):
            out.append(('add', (cp, cq), ('sep', 'R=P', 'R=Q')))
        out.append(('add', (cp,), ('P=Q', 'R=P=Q')))
        out.append(('adda', (cp, 'affine'), ('sep', 'R=P')))
        out.append(('dbl', (cp,), ('sep', 'R=P')))
        out.append(('neg', (cp,), ('sep', 'R=P')))
        out.append(('norm', (cp,), ('sep', 'R=P')))
        out.append(('cpy', (cp,), ('sep', 'R=P')))
        out.append(('isinf', (cp,), ('sep',)))
        for cq in (FIN, INF):
            out.append(('eq', (cp, cq), ('sep',)))
    out.append(('toa', (FIN,), ('sep', 'R=P')))
    out.append(('froma', ('affine',), ('sep', 'R=P')))
    out.append(('setinf', (), ('sep',)))
    out.append(('neg_a', ('affine',), ('sep', 'R=P')))
    out.append(('cpy_a', ('affine',), ('sep', 'R=P')))
    out.append(('check', ('any',), ('sep',)))
    return out


class Case:
    """native replay of one operation with concrete points"""

    def __init__(self, so, curve, op, classes, alias):
        self.so, self.curve, self.op, self.classes, self.alias = so, curve, op, classes, alias
        self.C = CURVE[curve]

    def run(self, items):
        """items: list of operand lists [(point or None, z or (a, b) for infinity)]; returns cex or None"""
        C, F = self.C, self.C.F
        sz = F.size
        calls, meta, nb = [], [], 0
        outn = 2 if self.op in ('toa', 'neg_a', 'cpy_a') else 3
        for ops_ in items:
            bs = []
            for (P, z), cl in zip(ops_, self.classes):
                if cl in ('affine', 'any'):
                    bs.append(C.affb(P))
                elif P is None:
                    bs.append(F.enc(z[0]) + F.enc(z[1]) + F.enc(F.zero))
                else:
                    bs.append(C.jac(P, z))
            args = []
            if self.op in ('isinf', 'eq', 'check'):
                args = [('buf', b) for b in bs]
                ri = None
                nb2 = len(bs)
            elif self.alias == 'sep':
                args = [('buf', bytes(sz * outn))] + [('buf', b) for b in bs]
                ri = nb
                nb2 = 1 + len(bs)
            elif self.alias == 'R=P':
                b0 = bs[0] + bytes(max(0, sz * outn - len(bs[0])))
                args = [('buf', b0), ('ref', nb)] + [('buf', b) for b in bs[1:]]
                ri = nb
                nb2 = len(bs)
            elif self.alias == 'R=Q':
                b0 = bs[1] + bytes(max(0, sz * outn - len(bs[1])))
                args = [('buf', b0), ('buf', bs[0]), ('ref', nb)]
                ri = nb
                nb2 = 2
            elif self.alias == 'P=Q':
                args = [('buf', bytes(sz * outn)), ('buf', bs[0]), ('ref', nb + 1)]
                ri = nb
                nb2 = 2
            else:
                args = [('buf', bs[0]), ('ref', nb), ('ref', nb)]
                ri = nb
                nb2 = 1
            calls.append(('%s_%s' % (self.curve, self.op), args))
            meta.append((ops_, ri, nb, bs))
            nb += nb2
        r = native(self.so, calls)
        if 'crash' in r:
            if len(items) == 1:
                return dict(function='%s_%s' % (self.curve, self.op), alias=self.alias, operands=repr(items[0])[:900], observed=r['crash'])
            for it in items:
                cx = self.run([it])
                if cx:
                    return cx
            return None
        for k, (ops_, ri, nb0, bs) in enumerate(meta):
            want = self.want(ops_)
            if ri is None:
                got = bool(r['ret'][k] & 0xff)
            elif outn == 2:
                b = r['bufs'][ri]
                got = (F.dec(b[:sz]), F.dec(b[sz:2 * sz]))
            else:
                got = C.dejac(r['bufs'][ri][:3 * sz])
            if got != want:
                return dict(function='%s_%s' % (self.curve, self.op), alias=self.alias, operands=[self.show(o) for o in ops_],
                            input_bytes=[b.hex() for b in bs], observed=self.show((got, '')), expected=self.show((want, '')))
            if self.op in ('isinf', 'eq', 'check') or self.alias == 'sep':
                for i, b in enumerate(bs):
                    if r['bufs'][nb0 + (0 if ri is None else 1) + i] != b:
                        return dict(function='%s_%s' % (self.curve, self.op), operands=[self.show(o) for o in ops_], observed='operand %d modified' % i)
        return None

    def show(self, o):
        P, z = o
        return '%s %s' % (repr(P), repr(z)) if z != '' else repr(P)

    def want(self, o):
        C = self.C
        if self.op == 'add':
            return C.add(o[0][0], o[1][0] if len(o) > 1 else o[0][0])
        if self.op == 'adda':
            return C.add(o[0][0], o[1][0])
        if self.op == 'dbl':
            return C.add(o[0][0], o[0][0])
        if self.op in ('neg', 'neg_a'):
            return C.neg(o[0][0])
        if self.op in ('norm', 'cpy', 'froma', 'toa', 'cpy_a'):
            return o[0][0]
        if self.op == 'setinf':
            return None
        if self.op == 'isinf':
            return o[0][0] is None
        if self.op == 'check':
            return C.on(o[0][0])
        if self.op == 'eq':
            return o[0][0] == o[1][0]

    def gen(self, r):
        C, F = self.C, self.C.F

        def zz():
            k = r.randrange(5)
            if k == 0:
                return F.one
            if k == 1:
                v = r.choice([2, F.p - 1 if hasattr(F, 'p') else 2, 1 << 32, 1 << 64, 3])
                return v % F.p if F.size == 32 else r.choice([(v % F.p, 0), (0, v % F.p)])
            return F.rnd(r)

        def pt():
            k = r.randrange(4)
            if k == 0:
                return C.mul(r.choice([1, 2, 3, C.n - 1, C.n - 2, (C.n + 1) // 2]), C.G)
            return C.rnd(r)
        out = []
        base = None
        for cl in self.classes:
            if cl == INF:
                t = zz()
                t2 = F.mul(t, t)
                out.append((None, (t2, F.mul(t2, t))))
                continue
            if base is not None and r.randrange(2):
                P = r.choice([base, C.neg(base), C.add(base, base), base])
            else:
                P = pt()
            if cl == 'any' and r.randrange(2):
                P = (P[0], F.add(P[1], F.rnd(r)))
            base = P
            out.append((P, zz() if cl == FIN else ''))
        return out

    def hunt(self, n=400, seed=1):
        r = random.Random(seed)
        for _ in range(n // 40):
            cx = self.run([self.gen(r) for _ in range(40)])
            if cx:
                return cx

    def special(self, S, rels, P, n=30, seed=2):
        """concrete points that satisfy the facts of a symbolic path: sampled x/y/z with the path's substitutions applied"""
        if self.C.F.size != 32:
            return None
        r = random.Random(seed)
        R, C, p = S.R, self.C, S.p
        sub = dict(P.subs)
        for _ in range(n):
            env = {}
            for g in range(len(R.names)):
                env[g] = r.randrange(1, p)
            ok = True
            for nme, (x, y) in S.pts.items():
                gx, gy = R.id['x' + nme], R.id['y' + nme]
                env[gx], env[gy] = C.rnd(r)
            for _ in range(3):
                for g, q in sub.items():
                    try:
                        env[g] = R.eval(q, env)
                    except ValueError:
                        ok = False
                for nme in S.pts:
                    gx, gy = R.id['x' + nme], R.id['y' + nme]
                    if gx in sub and gy not in sub:
                        rhs = (env[gx] ** 3 + C.a * env[gx] + C.b) % p
                        y = sqrtp(rhs, p)
                        if y is None:
                            ok = False
                        else:
                            env[gy] = r.choice([y, p - y])
            if not ok:
                continue
            items = []
            for i, cl in enumerate(self.classes):
                nme = '12'[i]
                if cl == INF:
                    items.append((None, (env[R.id['a' + nme]], env[R.id['b' + nme]])))
                else:
                    k = (env[R.id['x' + nme]], env[R.id['y' + nme]])
                    if cl != 'any' and not C.on(k):
                        ok = False
                    items.append((k, env[R.id['z' + nme]] if cl == FIN else ''))
            if ok:
                cx = self.run([items])
                if cx:
                    return cx


def sqrtp(a, p):
    if a == 0:
        return 0
    if pow(a, (p - 1) // 2, p) != 1:
        return None
    if p % 4 == 3:
        return pow(a, (p + 1) // 4, p)
    q, s = p - 1, 0
    while q % 2 == 0:
        q //= 2
        s += 1
    z = 2
    while pow(z, (p - 1) // 2, p) != p - 1:
        z += 1
    m, c, t, x = s, pow(z, q, p), pow(a, q, p), pow(a, (q + 1) // 2, p)
    while t != 1:
        i, u = 0, t
        while u != 1:
            u = u * u % p
            i += 1
        b = pow(c, 1 << (m - i - 1), p)
        m, c, t, x = i, b * b % p, t * b * b % p, x * b % p
    return x


def job(j, L, variant, curve, op, classes, alias):
    ll, so = lib(L, variant)
    e = X.Ex(X.Prog(ll), 120)
    S = Sym(e, curve)
    R, mul = S.R, S.mul
    sz = S.size
    case = Case(so, curve, op, classes, alias)
    what = '%s %s %s(%s) [%s]' % (variant, NAME[curve], op, ', '.join(classes), alias)
    st = e.run_ctors(X.State(e))
    opn, aff = [], []
    for i, cl in enumerate(classes):
        n = '12'[i]
        if cl == INF:
            t = R.gen('t' + n, nonzero=True)
            a, b = mul(t, t), mul(mul(t, t), t)
            if op != 'eq':
                a, b = R.gen('a' + n), R.gen('b' + n)
            opn.append([a, b, {}])
            aff.append(None)
        elif cl == 'any':
            x, y = R.gen('x' + n), R.gen('y' + n)
            opn.append([x, y])
            aff.append((x, y))
        else:
            x, y = S.point(n)
            aff.append((x, y))
            if cl == 'affine':
                opn.append([x, y])
            else:
                z = R.gen('z' + n, nonzero=True)
                z2 = mul(z, z)
                opn.append([mul(x, z2), mul(y, mul(z2, z)), z])
    outn = 2 if op in ('toa', 'neg_a', 'cpy_a') else 3
    ptrs = []
    for q in opn:
        p = st.alloc(sz * max(len(q), outn if alias != 'sep' else 0))
        S.put(st, p, q)
        ptrs.append(p)
    res = None
    if op in ('isinf', 'eq', 'check'):
        args = ptrs
    else:
        if alias == 'sep' or alias == 'P=Q':
            res = st.alloc(sz * outn)
        elif alias == 'R=Q':
            res = ptrs[1]
        else:
            res = ptrs[0]
        args = [res] + (ptrs * 2 if alias in ('P=Q', 'R=P=Q') else ptrs)
    hunted = []

    def fail(msg, P=None, N=400):
        cx = None
        if P is not None:
            try:
                cx = case.special(S, None, P)
            except Exception:
                cx = None
        if cx is None and not hunted:
            cx = case.hunt(N, C_SEED)
            hunted.append(cx)
        elif cx is None:
            cx = hunted[0]
        if cx:
            j.violation(what, cx)
            return True
        j.inconclusive('%s: %s' % (what, msg))
    try:
        paths = e.call(st, '%s_%s' % (curve, op), args)
        for q in paths:
            if q.kind != 'ret':
                if not fail(str(q.info or q.kind)):
                    pass
                continue
            alts = [(q.st.conds(), None)]
            if res is None:
                r = q.st.ret
                if r.__class__ is not int:
                    bit = tm.ne(r.w, r, 0)
                    alts = [(q.st.conds() + [bit], 1), (q.st.conds() + [tm.not_(bit)], 0)]
                else:
                    alts = [(q.st.conds(), int(bool(r)))]
            else:
                out = S.get(q.st, res, outn)
            for conds, ret in alts:
                for Z, N in S.d1.cases(conds, R):
                    for P, rel in relations(S, op, aff, alias, Z, N):
                        if P.infeasible:
                            j.ok(structural=True)
                            continue
                        if res is None:
                            good = check_ret(S, P, rel, op, aff, classes, ret)
                        else:
                            good = check_out(S, P, rel, op, aff, classes, out)
                        if good is True and (alias == 'sep' or res is None):
                            for i, p in enumerate(ptrs):
                                now = S.get(q.st, p, len(opn[i]))
                                for u, v in zip(now, opn[i]):
                                    if not P.zero(R.sub(u, v)):
                                        good = 'operand %d is modified' % (i + 1)
                        if good is True:
                            j.ok(structural=True)
                        else:
                            fail(good, P)
                            if len(j.incon) + len(j.viol) > 3:
                                return
    except (X.Unsupported, Lost) as ex:
        fail(str(ex))
    j.absorb(e)


C_SEED = int(os.environ.get('VERIF_SEED', '1'))


def relations(S, op, aff, alias, Z, N):
    """the mathematically possible relations of two finite operands"""
    R = S.R
    if len(aff) == 2 and aff[0] and aff[1]:
        (x1, y1), (x2, y2) = aff
        dx = R.sub(x2, x1)
        # difference of the two curve equations: lets y2^2 = y1^2 be used once x1 = x2
        yield S.path(Z, N + [dx]), 'generic'
        yield S.path([dx, R.sub(y2, y1)] + Z, N), 'same'
        yield S.path([dx, R.add(y2, y1)] + Z, N), 'opposite'
    else:
        yield S.path(Z, N), 'same' if alias in ('P=Q', 'R=P=Q') else None


def check_ret(S, P, rel, op, aff, classes, ret):
    R = S.R
    if op == 'isinf':
        want = aff[0] is None
    elif op == 'eq':
        if None in aff:
            want = aff[0] is None and aff[1] is None
        else:
            want = rel == 'same'
    else:
        x, y = aff[0]
        f = R.sub(S.mul(y, y), R.add(R.add(S.mul(S.mul(x, x), x), S.mul(S.a, x)), S.b))
        if ret:
            return True if P.zero(f) else 'accepts a point that need not be on the curve'
        # rejected: on the curve must contradict the facts
        P2 = S.path(P.eqs + [R.sub({((g, 1),): 1}, q) for g, q in P.subs] + [f], P.nzs)
        return True if P2.infeasible or any(P2.zero(d) for d in P2.nzs) else 'may reject a point on the curve'
    return True if bool(ret) == bool(want) else 'returns %d' % ret


def check_out(S, P, rel, op, aff, classes, out):
    R, mul = S.R, S.mul
    A = aff[0] if aff else None
    if op == 'add':
        if len(aff) == 1:
            B = A
        else:
            B = aff[1]
    elif op == 'adda':
        B = aff[1]
    elif op == 'dbl':
        B, rel = A, 'same'
    else:
        B = None
    if op in ('neg_a', 'cpy_a', 'toa'):
        y = R.scale(A[1], -1) if op == 'neg_a' else A[1]
        return True if P.zero(R.sub(out[0], A[0])) and P.zero(R.sub(out[1], y)) else 'wrong coordinates'
    X3, Y3, Z3 = out
    if op in ('neg', 'norm', 'cpy', 'froma', 'setinf') or A is None or B is None:
        if op in ('add', 'adda') and A is None:
            A = B
        if op == 'setinf' or A is None:
            return True if P.zero(Z3) else 'result is not infinity'
        y = R.scale(A[1], -1) if op == 'neg' else A[1]
        N_, D = None, None
        z2 = mul(Z3, Z3)
        if op == 'norm' and not P.zero(R.sub(Z3, R.c(1))):
            return 'Z is not one'
        if not P.nonzero(Z3):
            return 'Z may vanish'
        return True if P.zero(R.sub(X3, mul(A[0], z2))) and P.zero(R.sub(Y3, mul(y, mul(z2, Z3)))) else 'wrong point'
    x1, y1 = A
    x2, y2 = B
    if rel == 'opposite':
        return True if P.zero(Z3) else 'P + (-P) is not infinity'
    if rel == 'same':
        N_ = R.add(R.scale(mul(x1, x1), 3), S.a)
        D = R.scale(y1, 2)
        x2 = x1
    else:
        N_ = R.sub(y2, y1)
        D = R.sub(x2, x1)
    if not P.nonzero(Z3):
        return 'Z may vanish for a finite result'
    D2 = mul(D, D)
    D3 = mul(D2, D)
    xn = R.sub(mul(N_, N_), mul(R.add(x1, x2), D2))
    yn = R.sub(mul(N_, R.sub(mul(x1, D2), xn)), mul(y1, D3))
    X3, Y3, Z3, D2, D3, xn, yn = [P.nf(v) for v in (X3, Y3, Z3, D2, D3, xn, yn)]
    z2 = P.nf(mul(Z3, Z3))
    z3 = P.nf(mul(z2, Z3))
    if not P.zero(R.sub(mul(X3, D2), mul(xn, z2))):
        return 'x coordinate differs from the group law'
    if not P.zero(R.sub(mul(Y3, D3), mul(yn, z3))):
        return 'y coordinate differs from the group law'
    return True


def main(C, curves):
    L = build('ec' + C.prop, 'ec.cpp', EC_SRC)
    for v in ('portable', 'simd'):
        for c in curves:
            for op, classes, aliases in ops(c):
                for al in aliases:
                    C.job('%s %s %s %s %s' % (v, c, op, classes, al), job, L, v, c, op, classes, al)
    C.assume('the Montgomery operations return the canonical residue of the field operation (N03-N05)')
    if 'g2' in curves:
        C.assume('the sm9_fp2_* functions are the operations of GF(p)[u]/(u^2+2) (P01)')
    C.assume('the curve groups have odd order, so no finite point has y = 0 (SM2 and SM9 G1 have the prime order N; the order N(2p-N) of the twist is odd)')
    C.bound('every pair of points of the curve, every non-zero Z of each finite operand, every (X, Y, 0) for infinity; all alias patterns of result and operands')
    C.run()
    C.finish()
