"""exact integer readings of the uint256 products and division"""
from numlib import *
M = FULL
SEED = int(os.environ.get('VERIF_SEED', '1'))


def poly_job(j, LIB, variant, only=None):
    """multiplications and division by the integer reading"""
    ll, so = lib(LIB, variant)
    p = X.Prog(ll)
    limb = 64 if variant == 'simd' else 32
    L = limb // 8
    A, B = ('in', 'a', 32), ('in', 'b', 32)
    todo = [('h_mul', [('out', 'r', 64), A, B], 64, 'ab'), ('h_mul', [('out', 'r', 64), A, ('same', 1)], 64, 'aa'), ('h_sqr', [('out', 'r', 64), A], 64, 'aa'),
            ('h_mul32', [('out', 'r', 32), A, ('u', 'k', 32)], 32, 'ak'), ('h_mul32', [('io', 'a', 32), ('same', 0), ('u', 'k', 32)], 32, 'ak'),
            ('h_divL', [('out', 'r', 32), A, ('u', 'd', limb)], 32, 'div'), ('h_divL', [('io', 'a', 32), ('same', 0), ('u', 'd', limb)], 32, 'div')]
    if variant == 'simd':
        todo += [('h_mulL', [('out', 'r', 32), A, ('u', 'k', 64)], 32, 'ak'), ('h_mulL', [('io', 'a', 32), ('same', 0), ('u', 'k', 64)], 32, 'ak')]
    for fn, params, size, kind in todo:
        if only and fn not in only:
            continue
        e = X.Ex(p, 300)
        e.check_branches = False
        f = Fn(j, e, so, fn, params, '%s %s %s' % (variant, fn, kind), pre=(lambda V: [tm.ne(limb, V['d'], 0)]) if kind == 'div' else None)
        what = f.what
        V = f.V
        rw = 32 if fn == 'h_mul32' else limb
        outname = 'r' if params[0][0] == 'out' else 'a'

        def confirm(env, kind=kind, f=f, outname=outname):
            r, bi = f.native(env)
            a, b, k, d = (env.get(x, 0) for x in 'abkd')
            ret = 0
            if kind in ('ab', 'aa'):
                want = a * (b if kind == 'ab' else a)
            elif kind == 'ak':
                want, ret = (a * k) & M, (a * k) >> 256
            else:
                want, ret = a // d, a % d
            cx = dict(function=f.fn, what=f.what, inputs={x: hex(env.get(x, 0)) for x in f.V})
            if 'crash' in r:
                cx['observed'] = r['crash']
                return cx
            got = int.from_bytes(r['bufs'][0], 'little')
            gr = r['ret'][0] & ((1 << (32 if f.fn == 'h_mul32' else limb)) - 1) if kind in ('ak', 'div') else 0
            if got != want or gr != ret:
                cx['observed'] = 'value %#x, returned %#x' % (got, gr)
                cx['expected'] = 'value %#x, returned %#x' % (want, ret)
                return cx
            return None

        def refute():
            rnd = random.Random(SEED)
            for _ in range(400):
                env = dict(a=corner256(rnd, limb), b=corner256(rnd, limb), k=rnd.choice([0, 1, 2**32 - 1, rnd.getrandbits(32), (1 << limb) - 1 if fn == 'h_mulL' else 3]),
                           d=rnd.choice([1, (1 << limb) - 1, rnd.getrandbits(limb) | 1, 1 << (limb - 1), 3]))
                c = confirm(env)
                if c:
                    return c
            return None
        for pth in e.call(f.st, fn, f.args):
            if pth.kind != 'ret':
                j.never(pth.st.conds(), '%s: %s' % (what, pth.info or pth.kind), confirm)
                continue
            dom = IntDom(limb)
            if kind == 'div':
                dom.vb['d'] = (1, (1 << limb) - 1)
            t0 = time.time()
            S = {}
            t = pth.st.load(f.bufs[0][1], size)
            for i in range(size // L):
                S = padd(S, dom.uval(tm.extract(t, 8 * L * i, 8 * L))[0], 1 << (limb * i))
            a = dom.uval(V['a'])[0]
            ret = pth.st.ret
            if kind == 'ab':
                D = padd(S, pmul(a, dom.uval(V['b'])[0]), -1)
            elif kind == 'aa':
                D = padd(S, pmul(a, a), -1)
            elif kind == 'ak':
                D = padd(padd(S, dom.uval(tm.extract(ret, 0, rw))[0], 1 << 256), pmul(a, dom.uval(V['k'])[0]), -1)
            else:
                rem = dom.uval(tm.extract(ret, 0, limb))
                D = padd(padd(pmul(S, dom.uval(V['d'])[0]), rem[0]), a, -1)
                # remainder below divisor: it must be one of the remainder polynomials of a division by d
                okr = any(padd(R, rem[0], -1) == {} for X_, D_, R in dom.div_.values() if D_ == dom.uval(V['d'])[0])
                if not okr:
                    D = padd(D, {ONE: 1})
            good = not D
            if D:
                dom.begin()
                try:
                    good = kind != 'div' and dom.unsat([dom.zrel(D, '!=')]) is True
                except FracErr:
                    good = False
            j.solver_s += dom.solver_s
            j.queries += dom.queries
            if good:
                j.ok(structural=not dom.queries)
                j.sample('%s: result polynomial minus specification polynomial is 0 over %d atoms' % (what, len(dom.rng_)))
            else:
                r = refute()
                if r:
                    j.violation(what, r)
                else:
                    j.inconclusive(what + ': residual %d monomials' % len(D))
        j.absorb(e)
    j.bound('%s: multiplication, squaring, word multiplication and word division for all operand values (divisor non-zero)' % variant)
