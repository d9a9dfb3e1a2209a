"""H01: SM3 compression, chaining and padding against GB/T 32905, both implementations."""
from numlib import *
from hashes import IV3, sm3 as sm3_py
from vf.sweep import Sweep

SRC = ['src/sm3/sm3_common.cpp', 'src/sm3/sm3_yang15.cpp']
A = lambda *xs: _fold(tm.add, xs)
Xr = lambda *xs: _fold(tm.xor, xs)


def _fold(f, xs):
    r = xs[0]
    for x in xs[1:]:
        r = f(32, r, x)
    return r


def rol(x, n):
    n &= 31
    if not n:
        return x
    return tm.concat([(tm.extract(x, 0, 32 - n), 32 - n), (tm.extract(x, 32 - n, n), n)])


def be(bs):
    return tm.concat([(b, 8) for b in bs])


def cf(V, B):
    """the compression function of GB/T 32905 5.3: V 8 words, B 64 bytes"""
    W = [be(B[4 * i:4 * i + 4]) for i in range(16)]
    for i in range(16, 68):
        p = Xr(W[i - 16], W[i - 9], rol(W[i - 3], 15))
        W.append(Xr(p, rol(p, 15), rol(p, 23), rol(W[i - 13], 7), W[i - 6]))
    a, b, c, d, e, f, g, h = V
    for i in range(64):
        t = 0x79cc4519 if i < 16 else 0x7a879d8a
        ss1 = rol(A(rol(a, 12), e, rol(t, i)), 7)
        ss2 = Xr(ss1, rol(a, 12))
        if i < 16:
            ff, gg = Xr(a, b, c), Xr(e, f, g)
        else:
            ff = tm.or_(32, tm.or_(32, tm.and_(32, a, b), tm.and_(32, a, c)), tm.and_(32, b, c))
            gg = tm.or_(32, tm.and_(32, e, f), tm.and_(32, tm.xor(32, e, 0xffffffff), g))
        t1 = A(ff, d, ss2, Xr(W[i], W[i + 4]))
        t2 = A(gg, h, ss1, W[i])
        d, c, b, a = c, rol(b, 9), a, t1
        h, g, f, e = g, rol(f, 19), e, Xr(t2, rol(t2, 9), rol(t2, 17))
    return [Xr(x, y) for x, y in zip(V, (a, b, c, d, e, f, g, h))]


def selftest():
    m = bytes(range(64)) + b'abc'
    pad = m + b'\x80' + bytes((55 - len(m)) % 64) + (8 * len(m)).to_bytes(8, 'big')
    V = list(IV3)
    for i in range(0, len(pad), 64):
        V = [int(x) for x in cf(V, list(pad[i:i + 64]))]
    assert b''.join(x.to_bytes(4, 'big') for x in V) == sm3_py(m)
    assert sm3_py(b'abc').hex() == '66c7f0f462eeedd9d1f2d46bdc10e4e24167c4875cf2f7a2297da02b8f4ba8e0'


class SFn(Fn):
    def decide(self, w, g, t, pc, what, confirm):
        j = self.j
        if w <= 64:
            return super().decide(w, g, t, pc, what, confirm)
        S = Sweep(j)
        r = S.same(w, g, t)
        if r:
            j.ok()
            return True
        if r is None:
            return super().decide(w, g, t, pc, what, confirm)
        for env in S.envs + [None] * 8:
            if env is None:
                env = {v.a[0]: random.getrandbits(v.w) for v in self.V.values()}
            if pc and not all(tm.evaluate(list(pc), env)):
                env = dict(env, bits=env.get('bits', 0) >> 8)
                if not all(tm.evaluate(list(pc), env)):
                    continue
            cx = confirm(env)
            if cx:
                j.violation(what, cx)
                return False
        return super().decide(w, g, t, pc, what, confirm)


def sub(x, n):
    return [tm.extract(x, 8 * i, 8) for i in range(n)]


def words(x):
    return [tm.extract(x, 32 * i, 32) for i in range(8)]


def rd(x, n):
    """bytes of a native little-endian value, low first"""
    return sub(x, n)


def cat(ws, w):
    return tm.concat([(x, w) for x in reversed(ws)])


def eng(L, v):
    ll, so = lib(L, v)
    return X.Ex(X.Prog(ll), 600), so


def over(bits, k):
    """bits + k needs more than 64 bits (k < 2^73 as an 80-bit term)"""
    s = tm.add(80, tm.zext(80, bits, 64), k)
    return tm.ne(16, tm.extract(s, 64, 16), 0)


def init(j, L, v):
    iv = cat([x for x in IV3], 32)
    e, so = eng(L, v)
    SFn(j, e, so, 'p_init', [('out', 'st', 32), ('out', 'bits', 8)], v + ' initial state').check({'st': iv, 'bits': 0})
    SFn(j, e, so, 'p_reset', [('io', 'st', 32), ('io', 'bits', 8)], v + ' reset').check({'st': iv, 'bits': 0})
    j.absorb(e)
    # total bit count beyond 2^64: reported, whatever the block count
    e, so = eng(L, v)
    pre = lambda V: [over(V['bits'], tm.concat([(V['n'], 64), (0, 9)] if False else [(0, 7), (V['n'], 64), (0, 9)]))]
    SFn(j, e, so, 'p_updx', [('in', 'bits', 8), ('in', 'd', 64), ('u', 'n', 64)], v + ' update beyond 2^64 bits', pre=pre).check({'ret': (32, 1)})
    j.absorb(e)


def upd(j, L, v, n):
    e, so = eng(L, v)
    pre = lambda V: [tm.xor(1, over(V['bits'], 512 * n), 1)]
    f = SFn(j, e, so, 'p_upd', [('io', 'st', 32), ('io', 'bits', 8), ('in', 'd', 64 * n), ('k', n)], '%s update with %d blocks' % (v, n), pre=pre)
    B = sub(f.V['d'], 64 * n) if n else []
    S = words(f.V['st'])
    for i in range(n):
        S = cf(S, B[64 * i:64 * i + 64])
    f.check({'st': cat(S, 32), 'bits': tm.add(64, f.V['bits'], 512 * n), 'ret': (32, 0)})
    j.absorb(e)


def fin(j, L, v, n):
    e, so = eng(L, v)
    pre = lambda V: [tm.xor(1, over(V['bits'], 8 * n), 1)]
    f = SFn(j, e, so, 'p_fin', [('in', 'st', 32), ('in', 'bits', 8), ('out', 'dg', 32), ('in', 'd', n), ('k', n)], '%s final with %d bytes' % (v, n), pre=pre)
    tot = tm.add(64, f.V['bits'], 8 * n)
    m = (sub(f.V['d'], n) if n else []) + [0x80] + [0] * ((55 - n) % 64) + sub(tot, 8)[::-1]
    S = words(f.V['st'])
    for i in range(0, len(m), 64):
        S = cf(S, m[i:i + 64])
    f.check({'dg': cat([y for s in S for y in sub(s, 4)[::-1]], 8), 'ret': (32, 0)})
    j.absorb(e)
    if n:
        e, so = eng(L, v)
        pre = lambda V: [over(V['bits'], 8 * n)]
        Fn(j, e, so, 'p_finx', [('in', 'st', 32), ('in', 'bits', 8), ('in', 'd', n), ('k', n)], '%s final with %d bytes, beyond 2^64 bits' % (v, n), pre=pre).check({'ret': (32, 1)})
        j.absorb(e)


def fins(j, L, v, ns):
    for n in ns:
        fin(j, L, v, n)
    j.bound('%s final: every chaining value, every bit count, every tail of %s bytes' % (v, ns))


def upds(j, L, v, ns):
    for n in ns:
        upd(j, L, v, n)
    j.bound('%s update: every chaining value, every bit count, %s blocks' % (v, ns))


if __name__ == '__main__':
    selftest()
    C = Check('H01', 'model_checking')
    L = build('h01', 'sm3.cpp', SRC, ('portable', 'yang15'))
    q = C.quick
    for v in ('portable', 'yang15'):
        C.job(v + ' init', init, L, v)
        for ns in ([0, 1], [2], [3]) if q else ([0, 1, 2], [3], [4], [5], [6], [7], [8]):
            C.job('%s update %s' % (v, ns), upds, L, v, ns)
        for k in range(16):
            C.job('%s final %d' % (v, k), fins, L, v, list(range(k, 64, 16)))
    C.run()
    C.finish()
