import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.check import *
from vf import ex as X

C = Check('U01', 'model_checking')
SRC = ['src/memory_utils/memxor.cpp']
VARIANT['sse2'] = ['-DCPU_FLAG_SSE2', '-msse2']
VARIANT['avx2'] = ['-DCPU_FLAG_SSE2', '-DCPU_FLAG_AVX2', '-mavx2']
ALIAS = {'separate': (0, 1, 2), 'out=in1': (1, 1, 2), 'out=in2': (2, 1, 2), 'in1=in2': (0, 1, 1), 'all equal': (1, 1, 1)}


def job(j, variant, fn, lens, aliases):
    ll = compile_ir('u01' + variant, 'u01.cpp', SRC, variant)
    so = compile_so('u01' + variant, 'u01.cpp', SRC, variant)
    p = X.Prog(ll)
    e = X.Ex(p, 700)
    for n in lens:
        for al in aliases:
            ix = ALIAS[al]
            st = X.State(e)
            A = [tm.var('a%d' % i, 8) for i in range(n)]
            B = [tm.var('b%d' % i, 8) for i in range(n)]
            buf = {}
            for k in sorted(set(ix)):
                buf[k] = st.alloc(n)
                if k == 1:
                    st.putbytes(buf[k], A)
                elif k == 2:
                    st.putbytes(buf[k], B)
            Bv = A if ix[2] == 1 else B
            want = [tm.xor(8, x, y) for x, y in zip(A, Bv)]

            def confirm(env, n=n, ix=ix):
                a = bytes(env.get('a%d' % i, (37 * i + 1) & 255) for i in range(n))
                b = bytes(env.get('b%d' % i, (91 * i + 7) & 255) for i in range(n))
                if ix[2] == 1:
                    b = a
                order = []
                args = []
                for k in ix:
                    if k in order:
                        args.append(('ref', order.index(k)))
                    else:
                        order.append(k)
                        args.append(('buf', {0: bytes(n), 1: a, 2: b}[k]))
                r = native(so, [(fn, args + [n])])
                cx = dict(variant=variant, function=fn, length=n, alias=ix, in1=a.hex(), in2=b.hex())
                if 'crash' in r:
                    cx['observed'] = r['crash']
                    return cx
                got = r['bufs'][order.index(ix[0])]
                exp = bytes(x ^ y for x, y in zip(a, b))
                if got != exp:
                    cx['observed'] = got.hex()
                    cx['expected'] = exp.hex()
                    return cx
                for k, d in ((1, a), (2, b)):
                    if k in order and k != ix[0] and r['bufs'][order.index(k)] != d:
                        cx['observed'] = 'input modified'
                        return cx
                return None
            for pth in e.call(st, fn, [buf[i] for i in ix] + [n]):
                what = '%s %s length %d (%s)' % (variant, fn, n, al)
                if pth.kind != 'ret':
                    j.never(pth.st.conds(), '%s: %s' % (what, pth.info or pth.kind), confirm)
                    continue
                got = pth.st.bytes(buf[ix[0]], n)
                d = 0
                for g, w in zip(got, want):
                    if g is None:
                        d = 1
                        break
                    d = tm.or_(1, d, tm.ne(8, g, w))
                for k, D in ((1, A), (2, B)):
                    if k in buf and k != ix[0]:
                        for g, w in zip(pth.st.bytes(buf[k], n), D):
                            d = tm.or_(1, d, tm.ne(8, g, w)) if g is not None else 1
                j.never(pth.st.conds() + [d], what, confirm)
            if e.deadline < time.time():
                return
    j.bound('%s %s: lengths %d..%d, aliasing %s' % (variant, fn, lens[0], lens[-1], '/'.join(aliases)))
    j.vac.append('every length reaches the comparison: one returning path per case')
    j.absorb(e)


if __name__ == '__main__':
    maxn = 1300 if C.quick else 2100
    for v in ('portable', 'sse2', 'avx2', 'simd'):
        al = list(ALIAS) if v in ('portable', 'avx2') or not C.quick else ['separate', 'out=in1', 'out=in2']
        step = 330
        for lo in range(0, maxn, step):
            C.job('%s n %d' % (v, lo), job, v, 'h_n', list(range(lo, min(maxn, lo + step))), al if lo == 0 else al[:3])
        C.job('%s t' % v, job, v, 'h_t', list(range(0, 700)) if not C.quick else list(range(0, 300)) + list(range(300, 700, 7)) + [511, 512, 513, 639, 640], al[:3])
    C.assume('input and output buffers are either identical or disjoint (partial overlap is not offered by the interface)')
    C.run()
    C.finish()
