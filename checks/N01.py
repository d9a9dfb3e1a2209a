import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.fn import *
from vf.intd import *
from numlib import *
import N01mul

C = Check('N01', 'model_checking')
SRC = ['src/number/uint256_common.cpp', 'src/number/uint256_x64.cpp', 'src/number/mont256_common.cpp', 'src/number/mont256_x64.cpp',
       'src/number/mpz_common.cpp', 'src/number/mpz_x64.cpp']
M = (1 << 256) - 1


def z(v, w, W):
    return tm.zext(W, v, w)


def build1(variant):
    fl = ['-DX64'] if variant == 'simd' else []
    return (compile_ir('n01' + variant, 'num.cpp', SRC, variant, fl), compile_so('n01' + variant, 'num.cpp', SRC, variant, fl))


def cases(x64):
    """(function, params, spec(V)) - binary ops get all aliasing patterns"""
    A, B, O = ('in', 'a', 32), ('in', 'b', 32), ('out', 'r', 32)
    Z = 320

    def carry(e, x):     # (low 256 bits, carry as 32-bit int)
        return {'r': tm.extract(e, 0, 256), 'ret': (32, tm.extract(e, 256, 32))}

    def addb(k):
        return lambda V: carry(tm.add(Z, z(V['a'], 256, Z), z(k(V), 256, Z)), V)

    def subb(k):
        return lambda V: carry(tm.sub(Z, z(V['a'], 256, Z), z(k(V), 256, Z)), V)
    b = lambda V: V.get('b', V.get('a'))
    out = []
    for fn, sp in (('h_add', addb(b)), ('h_sub', subb(b))):
        out.append((fn, 'separate', [O, A, B], sp))
        out.append((fn, 'r=a', [('io', 'a', 32), ('same', 0), B], sp))
        out.append((fn, 'r=b', [('io', 'b', 32), A, ('same', 0)], sp))
        out.append((fn, 'a=b', [O, A, ('same', 1)], sp))
        out.append((fn, 'all equal', [('io', 'a', 32), ('same', 0), ('same', 0)], sp))
    kk = lambda m: lambda V: carry(tm.mul(Z, z(V['a'], 256, Z), m), V)
    for fn, m in (('h_dbl', 2), ('h_tpl', 3)):
        out.append((fn, 'separate', [O, A], kk(m)))
        out.append((fn, 'in place', [('io', 'a', 32), ('same', 0)], kk(m)))
    for fn, sp in (('h_add32', addb(lambda V: z(V['k'], 32, 256))), ('h_sub32', subb(lambda V: z(V['k'], 32, 256)))):
        out.append((fn, 'separate', [O, A, ('u', 'k', 32)], sp))
        out.append((fn, 'in place', [('io', 'a', 32), ('same', 0), ('u', 'k', 32)], sp))
    if x64:
        for fn, sp in (('h_addL', addb(lambda V: z(V['k'], 64, 256))), ('h_subL', subb(lambda V: z(V['k'], 64, 256)))):
            out.append((fn, 'separate', [O, A, ('u', 'k', 64)], sp))
            out.append((fn, 'in place', [('io', 'a', 32), ('same', 0), ('u', 'k', 64)], sp))
    cmp3 = lambda x, y: tm.ite(32, tm.ult(256, x, y), 0xffffffff, tm.ite(32, tm.ult(256, y, x), 1, 0))
    out.append(('h_cmp', '', [A, B], lambda V: {'ret': (32, cmp3(V['a'], V['b']))}))
    out.append(('h_cmp32', '', [A, ('u', 'k', 32)], lambda V: {'ret': (32, cmp3(V['a'], z(V['k'], 32, 256)))}))
    if x64:
        out.append(('h_cmpL', '', [A, ('u', 'k', 64)], lambda V: {'ret': (32, cmp3(V['a'], z(V['k'], 64, 256)))}))
        out.append(('h_setL', '', [O, ('u', 'k', 64)], lambda V: {'r': z(V['k'], 64, 256)}))
    out.append(('h_eq', '', [A, B], lambda V: {'ret': (1, tm.eq(256, V['a'], V['b']))}))
    out.append(('h_eq0', '', [A], lambda V: {'ret': (1, tm.eq(256, V['a'], 0))}))
    out.append(('h_eq1', '', [A], lambda V: {'ret': (1, tm.eq(256, V['a'], 1))}))
    out.append(('h_cpy', 'separate', [O, A], lambda V: {'r': V['a']}))
    out.append(('h_cpy', 'in place', [('io', 'a', 32), ('same', 0)], lambda V: {'r': V['a']}))
    out.append(('h_set0', '', [O], lambda V: {'r': 0}))
    out.append(('h_set1', '', [O], lambda V: {'r': 1}))
    out.append(('h_set32', '', [O, ('u', 'k', 32)], lambda V: {'r': z(V['k'], 32, 256)}))
    rev = lambda v: tm.concat([(tm.extract(v, 8 * i, 8), 8) for i in range(32)])
    out.append(('h_from', '', [O, A], lambda V: {'r': rev(V['a'])}))
    out.append(('h_to', '', [O, A], lambda V: {'r': rev(V['a'])}))
    for fn, alias, p, sp in out:
        yield fn, alias, p, sp


def job_linear(j, variant):
    ll, so = LIB[variant]
    p = X.Prog(ll)
    n = 0
    for fn, alias, params, spec in cases(variant == 'simd'):
        e = X.Ex(p, 300)
        e.merge('.*')
        io = [q[1] for q in params if q[0] == 'io']
        f = Fn(j, e, so, fn, params, '%s %s %s' % (variant, fn, alias))
        s = spec(f.V)
        if io and 'r' in s:
            s[io[0]] = s.pop('r')
        f.check(s)
        j.absorb(e)
        n += 1
    # bit test: every bit position
    e = X.Ex(p, 300)
    for i in range(256):
        f = Fn(j, e, so, 'h_bit', [('in', 'a', 32), ('k', i)], '%s bittest %d' % (variant, i))
        f.check({'ret': (1, tm.extract(f.V['a'], i, 1))})
    j.absorb(e)
    j.bound('%s: every operand value (2^256 each), %d function/aliasing combinations, bit test at all 256 positions' % (variant, n))
    j.vac.append('every function returns on a feasible path for unconstrained operands')


if __name__ == '__main__':
    LIB = {v: build1(v) for v in ('portable', 'simd')}
    for v in ('portable', 'simd'):
        C.job(v + ' linear', job_linear, v)
        C.job(v + ' mul/div', N01mul.poly_job, LIB, v)
    C.assume('uint256_div_*: divisor non-zero; add/sub/mul outputs are the same object as an input or disjoint from it (product buffers are disjoint)')
    C.run()
    C.finish()
