from numlib import *
import u256
C = Check('N02', 'model_checking')


def rev(v, n):
    return tm.concat([(tm.extract(v, 8 * i, 8), 8) for i in range(n)]) if n else 0


def linear(j, v, sizes):
    ll, so = lib(U, v)
    p = X.Prog(ll)
    L = 8 if v == 'simd' else 4
    for n in sizes:
        w = 8 * L * n
        A, B, O = ('in', 'a', L * n), ('in', 'b', L * n), ('out', 'r', L * n)
        W = w + 64
        for fn in ('z_add', 'z_sub'):
            for c in (0, 1):
                cc = c if fn == 'z_add' else (-c) & (2**64 - 1)
                N = ('k', n)
                pats = [('separate', [O, A, B, ('k', cc), N], 'r'), ('r=a', [('io', 'a', L * n), ('same', 0), B, ('k', cc), N], 'a'),
                        ('r=b', [('io', 'b', L * n), A, ('same', 0), ('k', cc), N], 'b')]
                for alias, params, on in pats:
                    e = X.Ex(p, 300)
                    e.check_branches = False
                    e.merge('.*')
                    f = Fn(j, e, so, fn, params, '%s %s limbs=%d carry-in=%d %s' % (v, fn, n, c, alias))
                    if not n:
                        # an empty operand: the value 0, nothing is carried out
                        f.check({'ret': (32, 0)})
                        j.absorb(e)
                        continue
                    sg = 1 if fn == 'z_add' else -1

                    def confirm(env):
                        r, bi = f.native(env)
                        cx = dict(function=fn, what=f.what, inputs={k: hex(env.get(k, 0)) for k in f.V})
                        if 'crash' in r:
                            cx['observed'] = r['crash']
                            return cx
                        x = env['a'] + sg * (env['b'] + c)
                        want = (x & ((1 << w) - 1), (x >> w) & 0xffffffff)
                        got = (int.from_bytes(r['bufs'][0], 'little'), r['ret'][0] & 0xffffffff)
                        if got != want:
                            cx.update(observed='value %#x, returned %#x' % got, expected='value %#x, returned %#x' % want)
                            return cx
                    rnd = random.Random(C.seed)
                    for pth in e.call(f.st, fn, f.args):
                        if pth.kind != 'ret':
                            j.never(pth.st.conds(), f.what + ': ' + str(pth.info or pth.kind), confirm)
                            continue
                        dom = IntDom(8 * L)
                        t = pth.st.load(f.bufs[0][1], L * n)
                        S = {}
                        for i in range(n):
                            S = padd(S, dom.uval(tm.extract(t, 8 * L * i, 8 * L))[0], 1 << (8 * L * i))
                        ret = pth.st.ret
                        if ret.__class__ is int:
                            S = padd(S, {ONE: ret - (1 << 32) if ret >> 31 else ret}, 1 << w)
                        else:
                            S = padd(S, dom.sval(tm.extract(ret, 0, 32))[0], 1 << w)
                        D = padd(padd(padd(S, dom.uval(f.V['a'])[0], -1), dom.uval(f.V['b'])[0], -sg), {ONE: c} if c else {}, -sg)
                        polyzero(j, dom, D, f.what, confirm, lambda i: dict(a=limbs_rand(rnd, 8 * L, n), b=limbs_rand(rnd, 8 * L, n)))
                    j.absorb(e)
        e = X.Ex(p, 300)
        e.merge('.*')
        f = Fn(j, e, so, 'z_cmp', [A, B, ('k', n)], '%s z_cmp limbs=%d' % (v, n))
        if n:
            a, b = f.V['a'], f.V['b']
            f.check({'ret': (32, tm.ite(32, tm.ult(w, a, b), 0xffffffff, tm.ite(32, tm.ult(w, b, a), 1, 0)))})
        else:
            f.check({'ret': (32, 0)})
        j.absorb(e)
        for fn, sp in (('z_cpy', lambda a: a), ('z_from', lambda a: rev(a, L * n)), ('z_to', lambda a: rev(a, L * n))):
            for params, on in (([O, A, ('k', n)], 'r'),) + ((([('io', 'a', L * n), ('same', 0), ('k', n)], 'a'),) if fn == 'z_cpy' else ()):
                e = X.Ex(p, 300)
                f = Fn(j, e, so, fn, params, '%s %s limbs=%d' % (v, fn, n))
                f.check({on: sp(f.V['a'])} if n else {})
                j.absorb(e)
    j.bound('%s: add/subtract with carry-in 0 and 1, compare, copy, byte conversion: limb counts %s, every operand' % (v, list(sizes)))


def mul(j, v, sizes):
    ll, so = lib(U, v)
    p = X.Prog(ll)
    limb = 64 if v == 'simd' else 32
    L = limb // 8
    for n in sizes:
        A, B, O = ('in', 'a', L * n), ('in', 'b', L * n), ('out', 'r', 2 * L * n)
        for params in ([O, A, B, ('k', n)], [O, A, ('same', 1), ('k', n)]):
            e = X.Ex(p, 300)
            e.check_branches = False
            what = '%s z_mul limbs=%d%s' % (v, n, ' a=b' if params[2][0] == 'same' else '')
            f = Fn(j, e, so, 'z_mul', params, what)
            if not n:
                f.check({})
                continue

            def confirm(env):
                r, bi = f.native(env)
                cx = dict(function='z_mul', what=what, inputs={k: hex(env.get(k, 0)) for k in f.V})
                if 'crash' in r:
                    cx['observed'] = r['crash']
                    return cx
                a = env.get('a', 0)
                want = a * env.get('b', a)
                got = int.from_bytes(r['bufs'][0], 'little')
                if got != want:
                    cx.update(observed=hex(got), expected=hex(want))
                    return cx
            for pth in e.call(f.st, 'z_mul', f.args):
                if pth.kind != 'ret':
                    j.never(pth.st.conds(), what + ': ' + str(pth.info or pth.kind), confirm)
                    continue
                dom = IntDom(limb)
                S = {}
                t = pth.st.load(f.bufs[0][1], 2 * L * n)
                for i in range(2 * n):
                    S = padd(S, dom.uval(tm.extract(t, limb * i, limb))[0], 1 << (limb * i))
                a = dom.uval(f.V['a'])[0]
                D = padd(S, pmul(a, dom.uval(f.V['b'])[0] if 'b' in f.V else a), -1)
                r = not D
                if D:
                    dom.begin()
                    try:
                        dom.elim_on = True
                        r = dom.unsat([dom.zrel(D, '!=')]) is True
                    except FracErr:
                        r = False
                    j.queries += 1
                if r:
                    j.ok(structural=not D)
                else:
                    rnd = random.Random(C.seed)
                    cx = None
                    for i in range(2000):
                        env = {}
                        for k in f.V:
                            x = 0
                            for q in range(n):
                                x |= rnd.choice([0, (1 << limb) - 1, 1, 1 << (limb - 1), rnd.getrandbits(limb), (1 << limb) - 2]) << (limb * q)
                            env[k] = x
                        cx = confirm(env)
                        if cx:
                            break
                    if cx:
                        j.violation(what, cx)
                    else:
                        j.inconclusive(what + ': residual of %d monomials' % len(D))
            j.absorb(e)
    j.bound('%s: multiplication, limb counts %s, every operand' % (v, list(sizes)))


if __name__ == '__main__':
    U = build('n02', 'num.cpp', NUM)
    q = C.quick
    for v in ('portable', 'simd'):
        C.job(v + ' linear small', linear, v, range(0, 5))
        C.job(v + ' linear mid', linear, v, range(5, 8))
        C.job(v + ' linear 8', linear, v, list(range(8, 17 if q else 33)))
        C.job(v + ' mul', mul, v, range(0, 11 if q else 17))
    C.assume('carry-in is 0 or 1 (0 or -1 for subtraction); result buffers are an operand or disjoint (products disjoint); the result of an operation on 0 limbs is 0')
    C.run()
    C.finish()
