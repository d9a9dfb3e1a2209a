"""point encodings and square roots: jobs shared by E03 (SM2) and P03 (SM9 G1, G2)"""
from eclib import *
from ecgroup import sqrtp
import random
SEED = int(os.environ.get('VERIF_SEED', '1'))
FMT = {'to04': (None, False), 'tounc': (4, False), 'tomix': (6, False), 'tocmp': (2, True)}


def flat(C, Pt):
    """coordinates in byte order (u coefficient first)"""
    return [Pt[0], Pt[1]] if C.F.size == 32 else [Pt[0][1], Pt[0][0], Pt[1][1], Pt[1][0]]


def encode(C, Pt, fmt):
    pre, cmp_ = FMT[fmt]
    c = flat(C, Pt)
    n = len(c) // 2
    body = b''.join(v.to_bytes(32, 'big') for v in (c[:n] if cmp_ else c))
    return body if pre is None else bytes([pre + (c[-1] & 1 if pre != 4 else 0)]) + body


def decode(C, b):
    """(point, length) or None"""
    p = C.F.p
    sz = C.F.size
    if not b:
        return None
    if b[0] in (4, 6, 7):
        if len(b) < 1 + 2 * sz:
            return None
        v = [int.from_bytes(b[1 + 32 * i:33 + 32 * i], 'big') for i in range(2 * sz // 32)]
        if max(v) >= p or (b[0] != 4 and b[0] & 1 != v[-1] & 1):
            return None
        Pt = (v[0], v[1]) if sz == 32 else ((v[1], v[0]), (v[3], v[2]))
        return (Pt, 1 + 2 * sz) if C.on(Pt) else None
    if b[0] in (2, 3) and sz == 32:
        if len(b) < 33:
            return None
        x = int.from_bytes(b[1:33], 'big')
        if x >= p:
            return None
        y = sqrtp((x ** 3 + C.a * x + C.b) % p, p)
        if y is None:
            return None
        if y & 1 != b[0] & 1:
            y = p - y
        return ((x, y), 33)
    return None


def small_x(C, r, n=40):
    """points with x small enough for x + p to fit in 32 bytes"""
    p = C.F.p
    out = []
    if C.F.size != 32:
        return out
    x = r.randrange(1000)
    while len(out) < n:
        y = sqrtp((x ** 3 + C.a * x + C.b) % p, p)
        if y is not None:
            out.append((x, r.choice([y, p - y])))
        x += 1
    return out


def mutate(C, r):
    """buffers around valid encodings"""
    p, sz = C.F.p, C.F.size
    k = r.randrange(10)
    Pt = C.rnd(r) if k % 2 else C.mul(r.choice([1, 2, 3, C.n - 1]), C.G)
    fmt = r.choice(['tounc', 'tomix', 'tocmp'])
    if k == 3 and sz == 32:
        Pt = r.choice(small_x(C, r, 4))
    b = bytearray(encode(C, Pt, fmt))
    if k == 3 and sz == 32:
        v = int.from_bytes(b[1:33], 'big') + p
        if v < 1 << 256:
            b[1:33] = v.to_bytes(32, 'big')
    if k == 4:
        b[r.randrange(len(b))] ^= 1 << r.randrange(8)
    if k == 5:
        b[0] = r.randrange(9)
    if k == 6:
        b = b[:r.randrange(len(b))]
    if k == 7:
        b += bytes([r.randrange(256)])
    if k == 8 and sz == 32:
        i = 1
        b[i:i + 32] = r.randrange(p).to_bytes(32, 'big')
    if k == 9:
        i = 1 + 32 * r.randrange((len(b) - 1) // 32)
        v = int.from_bytes(b[i:i + 32], 'big') + p
        if v < 1 << 256:
            b[i:i + 32] = v.to_bytes(32, 'big')
        elif r.randrange(2):
            b[i:i + 32] = p.to_bytes(32, 'big')
    return bytes(b)


def try_decode(so, curve, bufs):
    C = CURVE[curve]
    sz = C.F.size
    calls = [('%s_from' % curve, [('buf', bytes(2 * sz)), ('buf', bytes(8)), ('buf', b), len(b)]) for b in bufs]
    g = native(so, calls)
    if 'crash' in g:
        if len(bufs) == 1:
            return dict(function=curve + ' point decoding', input=bufs[0].hex(), length=len(bufs[0]), observed=g['crash'])
        return next((c for c in (try_decode(so, curve, [b]) for b in bufs) if c), None)
    for i, b in enumerate(bufs):
        w = decode(C, b)
        ok = g['ret'][i] & 0xffffffff == 0
        cx = dict(function=curve + ' point decoding', input=b.hex(), length=len(b))
        if ok != (w is not None):
            cx.update(observed='accepted' if ok else 'rejected', expected='rejected' if ok else 'accepted')
            return cx
        if ok:
            o = g['bufs'][3 * i]
            got = (C.F.dec(o[:sz]), C.F.dec(o[sz:]))
            n = int.from_bytes(g['bufs'][3 * i + 1], 'little')
            if (got, n) != w:
                cx.update(observed=repr((got, n)), expected=repr(w))
                return cx


def try_encode(so, curve, fmt, r, n=40):
    C = CURVE[curve]
    pts = [C.rnd(r) for _ in range(n)] + small_x(C, r, 4)
    L = len(encode(C, C.G, fmt))
    g = native(so, [('%s_%s' % (curve, fmt), [('buf', bytes(L)), ('buf', C.affb(Pt))]) for Pt in pts])
    if 'crash' in g:
        return dict(function='%s_%s' % (curve, fmt), observed=g['crash'])
    for i, Pt in enumerate(pts):
        if g['bufs'][2 * i] != encode(C, Pt, fmt):
            return dict(function='%s %s' % (curve, fmt), point=repr(Pt), observed=g['bufs'][2 * i].hex(), expected=encode(C, Pt, fmt).hex())


class Base:
    def __init__(self, L, variant, curve):
        self.ll, self.so = lib(L, variant)
        self.C = C = CURVE[curve]
        self.curve = curve
        self.p = C.F.p
        self.e = X.Ex(X.Prog(self.ll), 300)
        self.R = Ring(self.p, 'p')
        self.d = Dom(self.e, {self.p: self.R})
        self.nc = C.F.size // 32

    def mul2(self, a, b):
        R = self.R
        if self.nc == 1:
            return [R.mul(a[0], b[0])]
        return [R.sub(R.mul(a[0], b[0]), R.scale(R.mul(a[1], b[1]), 2)), R.add(R.mul(a[0], b[1]), R.mul(a[1], b[0]))]

    def rhs(self, x):
        R, C = self.R, self.C
        x3 = self.mul2(self.mul2(x, x), x)
        if self.nc == 1:
            return [R.add(R.add(x3[0], R.scale(x[0], C.a)), R.c(C.b))]
        return [R.add(x3[0], R.c(C.b[0])), R.add(x3[1], R.c(C.b[1]))]

    def curve_eq(self, x, y):
        y2 = self.mul2(y, y)
        return [self.R.sub(u, v) for u, v in zip(y2, self.rhs(x))]


def encodes(j, L, variant, curve):
    S = Base(L, variant, curve)
    R, d = S.R, S.d
    r = random.Random(SEED)
    for fmt in FMT:
        what = '%s %s %s' % (variant, NAME[curve], fmt)
        st = S.e.run_ctors(X.State(S.e))
        co = [R.gen(n) for n in ('x0', 'x1')[:S.nc]] + [R.gen('y%d' % i) for i in range(S.nc)]
        # byte order: u coefficient first
        order = [0, 1] if S.nc == 1 else [1, 0, 3, 2]
        pt = st.alloc(64 * S.nc)
        for i, q in enumerate(co):
            st.store(pt + 32 * i, d.term(R, q), 32)
        pre, cmp_ = FMT[fmt]
        n = (S.nc if cmp_ else 2 * S.nc) * 32 + (pre is not None)
        out = st.alloc(n)
        vals = [d.value(R, co[i]) for i in order]
        body = [(rev(v), 256) for v in (vals[:S.nc] if cmp_ else vals)]
        par = vals[-1]
        want = tm.concat(list(reversed(body)))
        if pre is not None:
            b0 = pre if pre == 4 else tm.add(8, pre, tm.zext(8, tm.extract(par, 0, 1), 1))
            want = tm.concat(list(reversed(body)) + [(b0, 8)])
        msg = None
        try:
            for q in S.e.call(st, '%s_%s' % (curve, fmt), [out, pt]):
                if q.kind != 'ret':
                    raise Lost(str(q.info or q.kind))
                got = q.st.load(out, n)
                if got is want:
                    j.ok(structural=True)
                elif j.query(q.st.conds() + d.cons + [tm.ne(8 * n, got, want)])[0] == 'unsat':
                    j.ok()
                else:
                    raise Lost('encoding differs')
        except (X.Unsupported, Lost) as ex:
            msg = str(ex)
        if msg:
            cx = try_encode(S.so, curve, fmt, r)
            if cx:
                j.violation(what, cx)
            else:
                j.inconclusive('%s: %s' % (what, msg))
    j.absorb(S.e)


def decodes(j, L, variant, curve, lens):
    for n in lens:
        decode1(j, L, variant, curve, n)
    j.bound('%s decoding: every buffer of %d..%d bytes' % (NAME[curve], min(lens), max(lens)))


def decode1(j, L, variant, curve, inl):
    S = Base(L, variant, curve)
    R, d, e, C, p = S.R, S.d, S.e, S.C, S.p
    what = '%s %s decoding of %d bytes' % (variant, NAME[curve], inl)
    sz = C.F.size
    nres = {}

    def sqrt(ex, st, a):
        q = d.poly(st.load(a[1], 32), R, st)
        k = R.key(q)
        if k not in nres:
            y = R.gen('sq%d' % len(nres), nonzero=True)
            nres[k] = (tm.fresh('nonres', 1), y, q)
        b, y, _ = nres[k]
        return X.Split([(b, 0xffffffff, None), (tm.not_(b), 0, lambda s: s.store(a[0], d.term(R, y), 32))])
    e.hook(r'(?:sm2::internal::sm2|sm9::internal::sm9)_fp_sqrt', sqrt, required=False)
    st = e.run_ctors(X.State(e))
    Rp, np_, ip = st.alloc(2 * sz), st.alloc(8), st.alloc(inl)
    B = tm.var('in', 8 * inl) if inl else 0
    if inl:
        st.store(ip, B, inl)
    b0 = tm.extract(B, 0, 8) if inl else 0
    full = 1 + 2 * sz
    done = {}

    def hunt():
        if 'cx' not in done:
            r = random.Random(SEED)
            done['cx'] = None
            for _ in range(12):
                bufs = [mutate(C, r) for _ in range(60)]
                bufs = [(b + bytes(inl))[:inl] for b in bufs] + bufs
                cx = try_decode(S.so, curve, bufs)
                if cx:
                    done['cx'] = cx
                    break
        return done['cx']

    def fail(msg, env=None):
        cx = None
        if env:
            b = env.get('in', 0).to_bytes(inl, 'little')
            cx = try_decode(S.so, curve, [b])
        cx = cx or hunt()
        if cx:
            j.violation('%s: %s' % (what, msg), cx)
        else:
            j.inconclusive('%s: %s' % (what, msg))

    def ask(conds, msg):
        r, env = j.query(conds + d.cons)[:2]
        if r == 'unsat':
            j.ok()
        elif r == 'sat':
            fail(msg, env if isinstance(env, dict) else None)
        else:
            j.inconclusive('%s: %s (solver: %s)' % (what, msg, r))

    def coord(i):
        return rev(tm.extract(B, 8 + 256 * i, 256))

    def is_(v):
        return tm.eq(8, b0, v)
    try:
        for q in e.call(st, '%s_from' % curve, [Rp, np_, ip, inl]):
            pc = q.st.conds()
            if q.kind != 'ret':
                ask(pc, str(q.info or q.kind))
                continue
            ret = tm.extract(q.st.ret, 0, 32) if q.st.ret.__class__ is not int else q.st.ret & 0xffffffff
            z0 = tm.eq(32, ret, 0)
            for ok, rc in ((True, z0), (False, tm.not_(z0))):
                if rc == 0:
                    continue
                pc = q.st.conds() + ([] if rc == 1 else [rc])
                if rc != 1 and j.query(pc + d.cons)[0] == 'unsat':
                    continue
                valid = []
                if inl >= full:
                    V = [coord(i) for i in range(2 * S.nc)]
                    o = [0, 1] if S.nc == 1 else [1, 0, 3, 2]
                    g = [d.residue(R, V[k]) for k in o]
                    eqs = S.curve_eq(g[:S.nc], g[S.nc:])
                    z = [d.zero(R, f) for f in eqs]
                    v04 = [tm.ult(256, v, p) for v in V] + z
                    par = tm.eq(1, tm.extract(b0, 0, 1), tm.extract(V[-1], 0, 1))
                    valid.append(('uncompressed or hybrid', tm.or_(1, is_(4), tm.and_(1, tm.or_(1, is_(6), is_(7)), par)), v04, g, full))
                if inl >= 33 and S.nc == 1:
                    Vx = coord(0)
                    gx = d.residue(R, Vx)
                    f = S.rhs([gx])[0]
                    k = R.key(f)
                    if k in nres:
                        nb, y, _ = nres[k]
                    elif ok:
                        nb, y = None, None
                    else:
                        y = R.gen('sq%d' % len(nres), nonzero=True)
                        nb = tm.fresh('nonres', 1)
                        nres[k] = (nb, y, f)
                    valid.append(('compressed', tm.or_(1, is_(2), is_(3)), [tm.ult(256, Vx, p)] + ([tm.not_(nb)] if nb is not None else []), (gx, y), 33))
                    if y is not None:
                        # the contract of the square root: y^2 = f
                        pc = pc + [tm.or_(1, nb, d.zero(R, R.sub(R.mul(y, y), f)))]
                if not ok:
                    for name, sel, cs, g, n in valid:
                        ask(pc + [sel] + cs, 'a valid %s encoding is rejected' % name)
                    continue
                anysel = 0
                for name, sel, cs, g, n in valid:
                    anysel = tm.or_(1, anysel, sel)
                    if j.query(pc + d.cons + [sel])[0] == 'unsat':
                        continue
                    for c in cs:
                        ask(pc + [sel, tm.not_(c)], '%s encoding of no point is accepted' % name)
                    cnt = q.st.load(np_, 8)
                    if cnt != n:
                        fail('reports %s bytes used for a %s encoding' % (cnt, name))
                    out = [d.poly(q.st.load(Rp + 32 * i, 32), R, q.st) for i in range(2 * S.nc)]
                    if name != 'compressed':
                        if any(R.sub(a, b) for a, b in zip(out, g)):
                            fail('decoded coordinates differ from the bytes')
                        else:
                            j.ok(structural=True)
                        continue
                    gx, y = g
                    if y is None or R.sub(out[0], gx) or (R.sub(out[1], y) and R.add(out[1], y)):
                        fail('decoded point is not a point with that x')
                    else:
                        j.ok(structural=True)
                        val = d.value(R, out[1])
                        ask(pc + [sel, tm.ne(1, tm.extract(val, 0, 1), tm.extract(b0, 0, 1))], 'y of the wrong parity')
                ask(pc + ([tm.not_(anysel)] if valid else []), 'an unknown format or a short buffer is accepted')
    except (X.Unsupported, Lost) as ex:
        fail(str(ex))
    j.absorb(e)


def sqrt_job(j, L, variant, fn, m):
    """square roots: a runs over all classes of GF(p)* modulo squares (fourth powers), and zero"""
    p = MOD[m]
    ll, so = lib(L, variant)
    what = '%s square root modulo %s' % (variant, m)

    def hunt():
        r = random.Random(SEED)
        for _ in range(30):
            a = r.choice([0 if m == 'p2' else 9, 1, 4, p - 1, r.randrange(p), pow(r.randrange(p), 2, p), pow(r.randrange(p), 4, p)])
            g = native(so, [(fn, [('buf', bytes(32)), ('buf', (a * R256 % p).to_bytes(32, 'little'))])])
            w = sqrtp(a, p)
            cx = dict(function=fn, a=hex(a))
            if 'crash' in g:
                cx['observed'] = g['crash']
                return cx
            ok = g['ret'][0] & 0xffffffff == 0
            if ok != (w is not None):
                cx['observed'] = 'root found' if ok else 'no root found'
                return cx
            y = int.from_bytes(g['bufs'][0], 'little') * pow(R256, -1, p) % p
            if ok and y * y % p != a:
                cx['observed'] = hex(y)
                return cx
    k = 2 if p % 4 == 3 else 4
    g0 = p - 1 if k == 2 else 2
    assert pow(g0, (p - 1) // 2, p) == p - 1 and (k == 2 or p % 8 == 5)
    for alias in (False, True):
        for cls in ([None] if m == 'p2' else []) + list(range(k)):
            e = X.Ex(X.Prog(ll), 120)
            R = Ring(p, 'p', unit_order=p - 1)
            d = Dom(e, {p: R})
            st = e.run_ctors(X.State(e))
            a = {} if cls is None else R.scale(R.pw(R.gen('c', nonzero=True, powred=True), k), pow(g0, cls, p))
            pa = st.alloc(32)
            st.store(pa, d.term(R, a), 32)
            pr = pa if alias else st.alloc(32)
            root = cls is None or cls % 2 == 0
            msg = None
            try:
                for q in e.call(st, fn, [pr, pa]):
                    if q.kind != 'ret' or q.st.ret.__class__ is not int:
                        raise Lost(str(q.info or q.kind))
                    for Z, N in d.cases(q.st.conds(), R):
                        if Path(R, Z, N).infeasible:
                            j.ok(structural=True)
                            continue
                        ok = q.st.ret & 0xffffffff == 0
                        if ok != root:
                            raise Lost('%s for class %s' % ('root reported' if ok else 'no root reported', cls))
                        if ok:
                            y = d.poly(q.st.load(pr, 32), R, q.st)
                            if R.sub(R.mul(y, y), a):
                                raise Lost('wrong root for class %s' % cls)
                        j.ok(structural=True)
            except (X.Unsupported, Lost) as ex:
                msg = str(ex)
            if msg:
                cx = hunt()
                if cx:
                    j.violation('%s: %s' % (what, msg), cx)
                else:
                    j.inconclusive('%s: %s' % (what, msg))
            j.absorb(e)
    j.bound('square root: every %s of the field (classes modulo %s powers)' % (('element', 'second') if k == 2 else ('nonzero element', 'fourth')))


def main(C, curves):
    L = build('ec' + C.prop, 'ec.cpp', FIELD)
    for v in ('portable', 'simd'):
        for c in curves:
            full = 1 + 2 * CURVE[c].F.size
            C.job('%s %s encode' % (v, c), encodes, L, v, c)
            lens = list(range(0, full + (2 if C.quick else 70)))
            for n in lens:
                C.job('%s %s decode %d' % (v, c, n), decodes, L, v, c, [n])
        for fn, m in (('fsqrt2', 'p2'),) if 's2' in curves else (('fsqrt9', 'p9'),):
            C.job('%s %s' % (v, fn), sqrt_job, L, v, fn, m)
    C.assume('the Montgomery operations return the canonical residue of the field operation (N03-N05)')
    C.assume('decoding takes the square root by its contract, which is decided separately here; no curve point has y = 0 (odd group order)')
    C.run()
    C.finish()
