"""G01: GHASH cores against multiplication in the GCM field, every key and every block."""
from numlib import *
from vf.gf2 import GF2, Unknown


def gbits(D, f):
    """GCM bit order: bit i of the element is bit 7 - i % 8 of byte i // 8"""
    return [f[8 * (i // 8) + 7 - i % 8] for i in range(128)]


def gmul(D, x, h):
    z = [0] * 128
    v = list(h)
    for i in range(128):
        for k in range(128):
            if v[k]:
                z[k] ^= D.mul(x[i], v[k])
        low = v[127]
        v = [0] + v[:127]
        for k in (0, 1, 2, 7):
            v[k] ^= low
    return z


def ref(x, h):
    z, v = 0, h
    for i in range(127, -1, -1):
        if x >> i & 1:
            z ^= v
        v = v >> 1 ^ (0xe1 << 120 if v & 1 else 0)
    return z


class GH(Fn):
    nblk = 0

    def decide(self, w, g, t, pc, what, confirm):
        j = self.j
        if not what.endswith(': o'):
            return super().decide(w, g, t, pc, what, confirm)
        D = GF2()
        D.pairs = True
        t0 = time.time()
        H = gbits(D, D.bits(self.V['h'], 128))
        s = [0] * 128
        X = D.bits(self.V['x'], 128 * max(1, self.total)) if 'x' in self.V else []
        for b in range(self.nblk):
            x = gbits(D, X[128 * b:128 * b + 128])
            s = gmul(D, [p ^ q for p, q in zip(s, x)], H)
            if b < self.nblk - 1:
                s = D.cut_at(s, 's%d' % b)
        same = None
        try:
            got = gbits(D, D.bits(g, 128))
            # products of the last block stay products; earlier states are the cut atoms
            same = [D.cut(x) for x in got] == [D.cut(x) for x in s]
        except Unknown as ex:
            same = False
        j.solver_s += time.time() - t0
        j.queries += 1
        if same:
            j.ok()
            return True
        rnd = random.Random(3)
        base = None
        if pc:
            r, m = j.query(list(pc))
            if r == 'unsat':
                j.ok()
                return True
            base = m
        for i in range(3000):
            env = {v.a[0]: rnd.getrandbits(v.w) for v in self.V.values()}
            if i % 3 == 1:
                env = {v.a[0]: rnd.getrandbits(v.w) & rnd.getrandbits(v.w) & rnd.getrandbits(v.w) & rnd.getrandbits(v.w) for v in self.V.values()}
            if i % 3 == 2:
                env['h'] = 1 << rnd.randrange(128)
            if base is not None and not all(tm.evaluate(list(pc), env)):
                env.update(base)
            cx = confirm(env)
            if cx is not None:
                j.violation(what, cx)
                return False
            if i > 200 and i % 3:
                continue
        j.inconclusive(what + ': normal forms differ, no input found that shows a difference')
        return None


def rev(v, n):
    return int.from_bytes(v.to_bytes(n, 'little'), 'big')


def one(j, v, nm, a, b, reset):
    ll, so = lib(L, v)
    e = X.Ex(prog(ll), 600)
    if nm in ('common', 'lut'):
        e.merge(r'ghash::internal::.*')
    tot = a + b + reset
    f = GH(j, e, so, 'gh_' + nm, [('out', 'o', 16), ('in', 'h', 16), ('in', 'x', 16 * max(1, tot)), ('k', a), ('k', b), ('k', reset)],
           '%s %s: %d+%d blocks%s' % (v, nm, a, b, ', after a reset' if reset else ''))
    f.nblk, f.total = a + b, tot
    want = tm.uf('ghash', 128, [(f.V['h'], 128), (f.V['x'], 128 * max(1, tot))])
    f.check({'o': want, 'ret': (32, 0)})
    j.absorb(e)


# replays compare against the specification: Fn evaluates the expected term through this table
def patch():
    ev = tm.evaluate

    def evaluate(roots, env, ufs=None, cache=None):
        u = {'ghash': lambda h, x: spec(h, x)}
        u.update(ufs or {})
        return ev(roots, env, u, cache)
    tm.evaluate = evaluate


NB = [0]


def spec(h, x):
    s = 0
    for i in range(NB[0]):
        s = ref(s ^ rev(x >> 128 * i & (1 << 128) - 1, 16), rev(h, 16))
    return rev(s, 16)


_p = {}


def prog(ll):
    if ll not in _p:
        _p[ll] = X.Prog(ll)
    return _p[ll]


def job(j, v, nm, cases):
    for a, b, r in cases:
        NB[0] = a + b
        one(j, v, nm, a, b, r)
    j.bound('%s %s: every H, every block; block counts %s' % (v, nm, sorted({c[0] + c[1] for c in cases})))


def final(j, v, nm):
    """a partial block is refused by the core"""
    ll, so = lib(L, v)
    e = X.Ex(prog(ll), 600)
    e.merge(r'ghash::internal::.*')
    for l in range(1, 17):
        st = X.State(e)
        h, x, o = st.alloc(16), st.alloc(16), st.alloc(16)
        st.store(h, tm.var('h', 128), 16)
        st.store(x, tm.var('x', 128), 16)
        for p in e.call(st, 'gp_' + nm, [o, h, x, l]):
            def confirm(env):
                r = native(so, [('gp_' + nm, [('buf', bytes(16)), ('buf', bytes(16)), ('buf', bytes(16)), l])])
                return None if r['ret'][0] & 0xffffffff else dict(function='gp_' + nm, observed='accepted %d trailing bytes' % l)
            if p.kind != 'ret':
                j.never(p.st.conds(), nm + ': ' + str(p.info or p.kind), confirm)
            else:
                j.never(p.st.conds() + [tm.eq(32, tm.extract(p.st.ret, 0, 32) if p.st.ret.__class__ is not int else p.st.ret & 0xffffffff, 0)], nm + ': partial block accepted', confirm)
    j.absorb(e)


if __name__ == '__main__':
    import random
    patch()
    assert ref(0x66e94bd4ef8a2c3b884cfa59ca342b2e, 1 << 127) == 0x66e94bd4ef8a2c3b884cfa59ca342b2e
    assert ref(0x0388dace60b6a392f328c2b971b2fe78, 0x66e94bd4ef8a2c3b884cfa59ca342b2e) == 0x5e2ec746917062882c85b0685353deb7
    C = Check('G01', 'model_checking')
    SRC = ['src/ghash/ghash_common.cpp', 'src/ghash/ghash_lut256.cpp', 'src/ghash/ghash_pclmul.cpp']
    L = build('g01', 'ghash.cpp', SRC)
    for v, nm in (('portable', 'common'), ('portable', 'lut'), ('simd', 'pclmul')):
        C.job('%s %s final' % (v, nm), final, v, nm)
        for cs in ([(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)], [(1, 1, 0)], [(2, 0, 0)], [(1, 0, 1)], [(2, 1, 0), (0, 3, 0)], [(0, 5, 0)], [(4, 0, 2)]) if C.quick else [[(a, b, r)] for a in range(5) for b in range(5) for r in range(3)]:
            C.job('%s %s %s' % (v, nm, cs), job, v, nm, cs)
    C.run()
    C.finish()
