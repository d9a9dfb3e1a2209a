from numlib import *
import u256
import N01mul
C = Check('N04', 'model_checking')
A, B, O = ('in', 'a', 32), ('in', 'b', 32), ('out', 'r', 32)
INV = {m: pow(R256, -1, P) for m, P in MOD.items()}
RR = {m: R256 % P for m, P in MOD.items()}


def rev(x):
    return int.from_bytes(x.to_bytes(32, 'little'), 'big')


# op -> (params/alias list, python spec, kind)
def shapes(op):
    if op == 'mul':
        return [('separate', [O, A, B]), ('r=a', [('io', 'a', 32), ('same', 0), B]), ('r=b', [('io', 'b', 32), A, ('same', 0)]),
                ('a=b', [O, A, ('same', 1)]), ('all equal', [('io', 'a', 32), ('same', 0), ('same', 0)])]
    if op == 'set32':
        return [('', [O, ('u', 'k', 32)])]
    if op in ('from', 'to'):
        return [('', [O, A])]
    return [('separate', [O, A]), ('in place', [('io', 'a', 32), ('same', 0)])]


def pyspec(op, m, env):
    P = MOD[m]
    a = env.get('a', env.get('b', 0))
    b = env.get('b', a)
    if op == 'mul':
        return a * b * INV[m] % P
    if op == 'sqr':
        return a * a * INV[m] % P
    if op in ('from',):
        return rev(a) * R256 % P
    if op == 'from_bn':
        return a * R256 % P
    if op == 'to':
        return rev(a * INV[m] % P)
    if op == 'to_bn':
        return a * INV[m] % P
    if op == 'set32':
        return env['k'] * R256 % P
    raise KeyError(op)


def montgoal(j, e, f, op, m, variant, pth, Tv, muls):
    """prove: result g satisfies 2^256 g = X + M P - {0,1} 2^256 P and g < P, X the exact product to be reduced"""
    P = MOD[m]
    limb = 64 if variant == 'simd' else 32
    dom = IntDom(limb, 15000)
    dom.use_defs = 0
    g = pth.st.load(f.bufs[0][1], 32)
    V = f.V
    if op == 'to':
        g = u256.rev(g)
    if op in ('mul', 'sqr'):
        xa = V['a'] if 'a' in V else V['b']
        xb = V['b'] if 'b' in V and op == 'mul' else xa
        fa, fb = xa, xb
        for x in (xa, xb):
            dom.vb[x.a[0]] = (0, P - 1)
        lim = (P - 1) ** 2
    elif op in ('to', 'to_bn'):
        fa, fb = V['a'], None
        dom.vb['a'] = (0, P - 1)
        lim = P - 1
    else:
        fa = u256.rev(V['a']) if op == 'from' else V['a'] if op == 'from_bn' else tm.zext(256, V['k'], 32)
        fb = pow(2, 512, P)
        lim = (R256 - 1) * (P - 1)
    # target product as a polynomial
    if muls:
        ok = len(muls) == 1 and fb is not None and ((muls[0][0] is fa and muls[0][1] in (fb,)) or (muls[0][1] is fa and muls[0][0] in (fb,)))
        if not ok:
            return None
        dom.vb['T'] = (0, lim)
        X_ = dom.uval(Tv)[0]
    else:
        X_ = dom.uval(fa)[0]
        if fb is not None:
            X_ = pmul(X_, dom.uval(fb)[0])
    ms = []
    for x in tm.topo([g]):
        if x.op == 'mul' and (P >> (256 - limb)) in x.a:
            o = x.a[0] if x.a[1].__class__ is int else x.a[1]
            if o not in ms:
                ms.append(o)
    M = {}
    if len(ms) != 256 // limb:
        return None
    for i, x in enumerate(ms):
        M = padd(M, dom.uval(x)[0], 1 << (limb * i))
    cases = split_ites(dom, g, pth.st.conds())
    if cases is None:
        return None
    dom.elim_on = True
    dom.keep = {a for mm in M for a in mm}
    z3 = dom.z3()
    for cs, h in cases:
        S = dom.uval(h)[0]
        D = padd(padd(pscale(S, 1 << 256), X_, -1), M, -P)
        dom.begin()
        for _, hh in cases:
            dom.fact(hh)
        if muls:
            dom.fact(Tv)
        pc = []
        for c in cs:
            try:
                pc.append(dom.zbool(c))
            except FracErr:
                pass
        pc.append(dom.zrel(padd(X_, {ONE: -lim}), '<='))
        r1 = dom.unsat(pc + [dom.zrel(D, '!='), dom.zrel(padd(D, {ONE: P << 256}), '!=')])
        r2 = dom.unsat(pc + [z3.Or(z3.Not(dom.zrel(padd(S, {ONE: -P}), '<')), dom.zrel(S, '<'))])
        if not (r1 is True and r2 is True):
            return None
    j.solver_s += dom.solver_s
    j.queries += dom.queries
    return len(cases)


def job(j, variant, m):
    ll, so = lib(LIB, variant)
    P = MOD[m]
    p = X.Prog(ll)
    limb = 64 if variant == 'simd' else 32
    for op in ('mul', 'sqr', 'from', 'to', 'from_bn', 'to_bn', 'set32'):
        fn = 'f_%s_%s' % (op, m)
        if not p.find(fn):
            continue
        for alias, params in shapes(op):
            e = X.Ex(p, 200)
            e.check_branches = False
            e.merge('.*redc')
            u256.install(e)
            Tv = tm.var('T', 512)
            muls = []

            def hm(ex, st, args, two):
                a, b = st.load(args[1], 32), st.load(args[2 if two else 1], 32)
                if a.__class__ is int and b.__class__ is int:
                    st.store(args[0], a * b, 64)
                    return
                if muls:
                    raise X.Unsupported('second wide multiplication')
                muls.append((a, b))
                st.store(args[0], Tv, 64)
            e.hook(u256.PRE + 'mul', lambda ex, st, args: hm(ex, st, args, True), required=False)
            e.hook(u256.PRE + 'sqr', lambda ex, st, args: hm(ex, st, args, False), required=False)
            canon = op in ('mul', 'sqr', 'to', 'to_bn')
            what = '%s %s mod %s %s' % (variant, op, m, alias)
            f = Fn(j, e, so, fn, params, what, pre=(lambda V: [tm.ult(256, V[k], P) for k in sorted(V)]) if canon else None)
            f.st = e.run_ctors(f.st)
            w_out = 32

            def confirm(env):
                r, bi = f.native(env)
                cx = dict(function=fn, what=what, inputs={k: hex(env.get(k, 0)) for k in f.V})
                if 'crash' in r:
                    cx['observed'] = r['crash']
                    return cx
                want = pyspec(op, m, {k: env.get(k, 0) for k in f.V})
                got = int.from_bytes(r['bufs'][0], 'little')
                if got != want:
                    cx.update(observed=hex(got), expected=hex(want))
                    return cx
                return None
            good = True
            for pth in e.call(f.st, fn, f.args):
                if pth.kind != 'ret':
                    good = j.never(pth.st.conds(), what + ': ' + str(pth.info or pth.kind), confirm) and good
                    continue
                try:
                    r = montgoal(j, e, f, op, m, variant, pth, Tv, muls)
                except FracErr:
                    r = None
                if r:
                    j.ok(n=2 * r)
                    j.sample('%s: 2^256 r = X + M*P - {0,1}*2^256*P and 0 <= r < P, %d cases, integer-linear query over the exact carry chain' % (what, r))
                    continue
                good = False
                rnd = random.Random(C.seed)
                cx = None
                for i in range(3000):
                    env = {}
                    if op in ('mul',) and i % 2 and len(f.V) == 2:
                        env['a'], env['b'] = product_targeted(rnd, limb, P)
                    else:
                        for k in f.V:
                            env[k] = rnd.getrandbits(32) if k == 'k' else corner256(rnd, limb, P if canon else None)
                    cx = confirm(env)
                    if cx:
                        break
                if cx:
                    j.violation(what, cx)
                else:
                    j.inconclusive(what)
            j.absorb(e)
    # comparison / constants
    R = RR[m]
    for fn, params, spec in (('f_eq_', [A, B], lambda V: {'ret': (1, tm.eq(256, V['a'], V['b']))}), ('f_eq0_', [A], lambda V: {'ret': (1, tm.eq(256, V['a'], 0))}),
                             ('f_eq1_', [A], lambda V: {'ret': (1, tm.eq(256, V['a'], R))}), ('f_cpy_', [O, A], lambda V: {'r': V['a']}),
                             ('f_set0_', [O], lambda V: {'r': 0}), ('f_set1_', [O], lambda V: {'r': R})):
        e = X.Ex(p, 100)
        e.merge('.*')
        f = Fn(j, e, so, fn + m, params, '%s %s%s' % (variant, fn, m))
        f.st = e.run_ctors(f.st)
        f.check(spec(f.V))
        j.absorb(e)
    j.bound('%s, modulus %s: every residue pair (multiply, square, all aliasings), every 256-bit value (conversion in), every residue (conversion out)' % (variant, m))
    j.vac.append('the precondition operands < modulus is satisfiable (0 and P-1 are admitted); every function returns on a feasible path')


if __name__ == '__main__':
    LIB = build('n04', 'field.cpp', FIELD)
    U = build('n04u', 'num.cpp', NUM)
    for v in ('portable', 'simd'):
        C.job('contracts ' + v, lambda j, v: u256.contracts_job(j, *lib(U, v), v), v)
        C.job('wide products ' + v, lambda j, v: N01mul.poly_job(j, U, v, only=('h_mul', 'h_sqr')), v)
        for m in MOD:
            C.job('%s %s' % (v, m), job, v, m)
    C.assume('field operands are residues in [0, P) (every producer is checked to be canonical: N03-N06)')
    C.run()
    C.finish()
