from numlib import *
import u256
C = Check('N03', 'model_checking')
A, B, O = ('in', 'a', 32), ('in', 'b', 32), ('out', 'r', 32)
W = 264


def Z(x):
    return tm.zext(W, x, 256)


def modred(x, P, n):
    """x in [0, (n+1)P) -> canonical"""
    for _ in range(n):
        x = tm.ite(W, tm.ult(W, x, P), x, tm.sub(W, x, P))
    return tm.extract(x, 0, 256)


def mod_hooks(e, P, op):
    """calls of the modular add/sub/double of the same code by contract (each is decided against the code by its own job
    here); operands must be residues"""
    def mk(kind, off):
        def h(ex, st, args):
            v = [st.load(x, 32) for x in args[off + 1:off + (2 if kind == 'dbl' else 3)]]
            if off == 0 and st.load(args[3], 32) != P:
                raise X.Unsupported('modular add/sub for another modulus')
            for x in v:
                if ex.feasible(st, tm.not_(tm.ult(256, x, P))):
                    raise X.Unsupported('modular operation called with a possibly unreduced operand')
            a, b = v[0], v[-1]
            if kind == 'sub':
                r = tm.ite(256, tm.ult(256, a, b), tm.add(256, tm.sub(256, a, b), P), tm.sub(256, a, b))
            else:
                s = tm.add(257, tm.zext(257, a, 256), tm.zext(257, b, 256))
                c = tm.not_(tm.ult(257, s, P))
                lo = tm.extract(s, 0, 256)
                r = tm.ite(256, c, tm.sub(256, lo, P), lo)
            st.store(args[off], r, 32)
        return h
    M = r'number::internal::(?:common|x64)::mont256_'
    e.hook(u256.PRE + 'mod_add', mk('add', 0), required=False)
    e.hook(u256.PRE + 'mod_sub', mk('sub', 0), required=False)
    e.hook(M + 'add', mk('add', 1), required=False)
    e.hook(M + 'sub', mk('sub', 1), required=False)
    if op != 'dbl':
        e.hook(M + 'dbl', mk('dbl', 1), required=False)


def job(j, variant, m, ops):
    ll, so = lib(LIB, variant)
    P = MOD[m]
    p = X.Prog(ll)
    for op in ops:
        two = op in ('add', 'sub', 'madd', 'msub')
        fn = 'f_%s_%s' % (op, m)
        if two:
            pats = [('separate', [O, A, B], 'r'), ('r=a', [('io', 'a', 32), ('same', 0), B], 'a'), ('r=b', [('io', 'b', 32), A, ('same', 0)], 'b'),
                    ('a=b', [O, A, ('same', 1)], 'r'), ('all equal', [('io', 'a', 32), ('same', 0), ('same', 0)], 'a')]
        else:
            pats = [('separate', [O, A], 'r'), ('in place', [('io', 'a', 32), ('same', 0)], 'a')]
        for alias, params, on in pats:
            e = X.Ex(p, 400)
            e.check_branches = True
            f = Fn(j, e, so, fn, params, '%s %s mod %s (%s)' % (variant, op, m, alias),
                   pre=lambda V: [tm.ult(256, V[k], P) for k in sorted(V)], timeout=60000)
            u256.install(e)
            V = f.V
            xa = 'a' if 'a' in V else 'b'
            a = Z(V[xa])
            b = Z(V['b']) if 'b' in V else a
            bounds = {k: (0, P - 1) for k in V}
            lia = lia_feasible(e, 64 if variant == 'simd' and op in ('add', 'sub', 'madd', 'msub') else 256, bounds)
            if op not in ('add', 'sub', 'madd', 'msub'):
                mod_hooks(e, P, op)
            pa = lia.uval(V[xa])[0]
            pb = lia.uval(V['b'])[0] if 'b' in V else pa
            scale = 1
            if op in ('add', 'madd'):
                w = modred(tm.add(W, a, b), P, 1)
                target, ks = padd(pa, pb), (0, -1)
            elif op in ('sub', 'msub'):
                w = modred(tm.sub(W, tm.add(W, a, P), b), P, 1)
                target, ks = padd(pa, pb, -1), (0, 1)
            elif op == 'neg':
                w = modred(tm.sub(W, P, a), P, 1)
                target, ks = pscale(pa, -1), (0, 1)
            elif op == 'dbl':
                w = modred(tm.mul(W, a, 2), P, 1)
                target, ks = pscale(pa, 2), (0, -1)
            elif op == 'tpl':
                w = modred(tm.mul(W, a, 3), P, 2)
                target, ks = pscale(pa, 3), (0, -1, -2)
            else:
                s = tm.ite(W, tm.extract(a, 0, 1), tm.add(W, a, P), a)
                w = tm.extract(s, 1, 256)
                target = None

            def decide(ww, g, t2, pc, what, confirm):
                if target is not None and t2 is f.spec:
                    if residue(j, lia, pc, g, target, P, ks, what, confirm):
                        return True
                return j.equal(ww, g, t2, pc, what, confirm, timeout=20000)
            f.decide = decide
            f.spec = w
            f.st = ctors(e, f.st)
            f.check({on: w})
            j.absorb(e)
    j.bound('%s: %s for every residue pair modulo %s' % (variant, '/'.join(ops), m))
    j.vac.append('the precondition operands < modulus is satisfiable (0 and P-1 are admitted)')


def ctors(e, st):
    return e.run_ctors(st)


if __name__ == '__main__':
    LIB = build('n03', 'field.cpp', FIELD)
    U = build('n03u', 'num.cpp', NUM)
    for v in ('portable', 'simd'):
        C.job('contracts ' + v, lambda j, v: u256.contracts_job(j, *lib(U, v), v), v)
        for m in MOD:
            C.job('%s %s linear' % (v, m), job, v, m, ['add', 'sub', 'madd', 'msub'])
            C.job('%s %s scale' % (v, m), job, v, m, ['neg', 'dbl', 'tpl', 'div2'])
    C.assume('operands are residues in [0, P) (the library keeps every field element canonical; N04-N06 show that the producers are)')
    C.assume('outputs are identical to an operand or disjoint from the operands')
    C.run()
    C.finish()
