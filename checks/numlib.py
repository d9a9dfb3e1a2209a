import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.fn import *
from vf.intd import *
NUM = ['src/number/uint256_common.cpp', 'src/number/uint256_x64.cpp', 'src/number/mont256_common.cpp', 'src/number/mont256_x64.cpp',
       'src/number/mpz_common.cpp', 'src/number/mpz_x64.cpp']
FIELD = NUM + ['src/sm2/sm2p256v1.cpp', 'src/sm9/sm9_field.cpp']
MOD = {'p2': 0xfffffffeffffffffffffffffffffffffffffffff00000000ffffffffffffffff,
       'n2': 0xfffffffeffffffffffffffffffffffff7203df6b21c6052b53bbf40939d54123,
       'p9': 0xb640000002a3a6f1d603ab4ff58ec74521f2934b1a7aeedbe56f9b27e351457d,
       'n9': 0xb640000002a3a6f1d603ab4ff58ec74449f2934b18ea8beee56ee19cd69ecf25}
R256 = 1 << 256
FULL = R256 - 1


def flags(variant):
    return ['-DX64'] if variant == 'simd' else []


def build(tag, harness, srcs, variants=('portable', 'simd'), extra=()):
    """compile for all variants in parallel; a variant that fails to build is reported as inconclusive by its jobs"""
    import concurrent.futures as cf
    tmpdir()
    out = {}
    with cf.ThreadPoolExecutor(8) as ex:
        fs = {}
        for v in variants:
            fs[v] = (ex.submit(compile_ir, tag + v, harness, srcs, v, flags(v) + list(extra)), ex.submit(compile_so, tag + v, harness, srcs, v, flags(v) + list(extra)))
        for v, (a, b) in fs.items():
            try:
                out[v] = (a.result(), b.result())
            except BuildError as e:
                out[v] = e
    return out


def lib(L, v):
    if isinstance(L[v], Exception):
        raise L[v]
    return L[v]


def corner256(rnd, limb, m=None):
    k = rnd.randrange(7)
    if k == 0:
        r = rnd.getrandbits(256)
    elif k == 1:
        r = FULL - rnd.getrandbits(rnd.randrange(1, 256))
    elif k == 2 and m:
        r = m - 1 - rnd.getrandbits(rnd.choice([1, 2, 32, 64, 96, 128]))
    elif k == 3:
        r = rnd.getrandbits(rnd.choice([1, 2, 32, 64, 96, 128]))
    else:
        r = 0
        for i in range(256 // limb):
            r |= rnd.choice([0, (1 << limb) - 1, 1, 1 << (limb - 1), rnd.getrandbits(limb), (1 << limb) - 2]) << (limb * i)
    return r % m if m else r


def product_targeted(rnd, limb, m):
    """a, b < m whose 512-bit product has chosen high limbs (long carry chains)"""
    H = corner256(rnd, limb)
    a = m - 1 - rnd.getrandbits(rnd.choice([1, 32, 64, 200, 250]))
    a %= m
    if a == 0:
        a = 1
    b = -(-(H << 256) // a)
    return a, b % m if b >= m else b


def lia_feasible(e, gran=256, bounds=None, timeout=5000):
    """replace branch feasibility queries by the integer reading (unknown counts as feasible)"""
    dom = IntDom(gran, timeout)
    dom.use_defs = 24
    dom.vb.update(bounds or {})

    def feas(st, c):
        if c.__class__ is int:
            return bool(c)
        dom.begin()
        try:
            r = dom.unsat([dom.zbool(x) for x in st.conds()] + [dom.zbool(c)])
        except FracErr:
            r = None
        e.stats['queries'] += 1
        return r is not True
    e.feasible = feas
    return dom


def residue(j, dom, pc, g, target, m, ks, what, confirm):
    """g (256-bit term) is the canonical residue: 0 <= g < m and g - target in {k*m : k in ks}"""
    t0 = time.time()
    try:
        dom.begin()
        G = dom.uval(g)[0]
        pcs = [dom.zbool(x) for x in pc]
        alts = [dom.zrel(padd(padd(G, target, -1), {ONE: -k * m} if k else {}), '==') for k in ks]
        rng = dom.zrel(padd(G, {ONE: -m}), '<')
        z3 = dom.z3()
        r = dom.unsat(pcs + [z3.Not(z3.And(rng, z3.Or(*alts)))])
    except FracErr:
        r = None
    if r is True:
        j.ok()
        return True
    return None


def limbs_rand(rnd, limb, n):
    x = 0
    for q in range(n):
        x |= rnd.choice([0, (1 << limb) - 1, 1, 1 << (limb - 1), rnd.getrandbits(limb), (1 << limb) - 2]) << (limb * q)
    return x


def polyzero(j, dom, D, what, confirm, gen, tries=2000, note=''):
    """the integer polynomial D (over the exact readings of the code's values) must vanish; otherwise look for a witness"""
    dom.elim_on = True
    t0 = time.time()
    E = dom.elim(D)
    r = not E
    if E:
        dom.begin()
        try:
            r = dom.unsat([dom.zrel(D, '!=')]) is True
        except FracErr:
            r = False
        j.queries += 1
    j.solver_s += time.time() - t0
    if r:
        j.ok(structural=not E)
        return True
    for i in range(tries):
        cx = confirm(gen(i))
        if cx:
            j.violation(what, cx)
            return False
    j.inconclusive(what + ': residual of %d monomials' % len(E))
    return None
