"""uint256 word-level contracts.  `install` replaces uint256_* calls by their contracts (256-bit
terms); `contracts_job` discharges those same contracts against the real code in the same run."""
from numlib import *
PRE = r'number::internal::(?:common|x64)::uint256_'
Z = 320


def zx(v, w, W=Z):
    return tm.zext(W, v, w)


def carry(e):            # (low 256, int carry)
    return tm.extract(e, 0, 256), tm.extract(e, 256, 32)


def cmp3(a, b):
    return tm.ite(32, tm.ult(256, a, b), 0xffffffff, tm.ite(32, tm.ult(256, b, a), 1, 0))


def rev(v, n=32):
    return tm.concat([(tm.extract(v, 8 * i, 8), 8) for i in range(n)])


# name -> (kind, spec).  kinds: 'rab' r,a,b buffers; 'ra'; 'rak' (k word w); 'ab' -> int; 'a' -> bool ; 'ak'
OPS = {
    'add_carry': ('rab', lambda a, b: carry(tm.add(Z, zx(a, 256), zx(b, 256))), 'h_add'),
    'sub_borrow': ('rab', lambda a, b: carry(tm.sub(Z, zx(a, 256), zx(b, 256))), 'h_sub'),
    'dbl_carry': ('ra', lambda a: carry(tm.mul(Z, zx(a, 256), 2)), 'h_dbl'),
    'tpl_carry': ('ra', lambda a: carry(tm.mul(Z, zx(a, 256), 3)), 'h_tpl'),
    'add_carry_uint32': ('rak32', lambda a, k: carry(tm.add(Z, zx(a, 256), zx(k, 32))), 'h_add32'),
    'sub_borrow_uint32': ('rak32', lambda a, k: carry(tm.sub(Z, zx(a, 256), zx(k, 32))), 'h_sub32'),
    'cpy': ('ra', lambda a: (a, None), 'h_cpy'),
    'set_zero': ('r', lambda: (0, None), 'h_set0'),
    'set_one': ('r', lambda: (1, None), 'h_set1'),
    'set_uint32': ('rk32', lambda k: (zx(k, 32, 256), None), 'h_set32'),
    'from_bytes': ('ra', lambda a: (rev(a), None), 'h_from'),
    'to_bytes': ('ra', lambda a: (rev(a), None), 'h_to'),
    'cmp': ('ab', lambda a, b: (32, cmp3(a, b)), 'h_cmp'),
    'cmp_uint32': ('ak32', lambda a, k: (32, cmp3(a, zx(k, 32, 256))), 'h_cmp32'),
    'equal': ('ab', lambda a, b: (1, tm.eq(256, a, b)), 'h_eq'),
    'equal_zero': ('a', lambda a: (1, tm.eq(256, a, 0)), 'h_eq0'),
    'equal_one': ('a', lambda a: (1, tm.eq(256, a, 1)), 'h_eq1'),
}


def install(e, names=None, skip=()):
    for nm in (names or OPS):
        if nm in skip:
            continue
        kind, spec, _ = OPS[nm]

        def h(ex, st, args, kind=kind, spec=spec):
            ld = lambda p: st.load(p, 32)
            if kind[0] == 'r':
                k = kind[1:]
            else:
                k = kind
            i = 1 if kind[0] == 'r' else 0
            vs = []
            for c in k.replace('32', ''):
                vs.append(ld(args[i]) if c in 'ab' else args[i])
                i += 1
            r = spec(*vs)
            if kind[0] == 'r':
                st.store(args[0], r[0], 32)
                return r[1]
            return r[1]
        e.hook(PRE + nm, h, required=False)


def contracts_job(j, ll, so, variant, names=None):
    p = X.Prog(ll)
    n = 0
    A, B, O = ('in', 'a', 32), ('in', 'b', 32), ('out', 'r', 32)
    for nm in (names or OPS):
        kind, spec, fn = OPS[nm]
        K = ('u', 'k', 32)
        if kind == 'rab':
            pats = [('r', [O, A, B]), ('a', [('io', 'a', 32), ('same', 0), B]), ('b', [('io', 'b', 32), A, ('same', 0)]), ('r', [O, A, ('same', 1)]),
                    ('a', [('io', 'a', 32), ('same', 0), ('same', 0)])]
        elif kind == 'ra':
            pats = [('r', [O, A])] + ([('a', [('io', 'a', 32), ('same', 0)])] if nm not in ('from_bytes', 'to_bytes') else [])
        elif kind == 'rak32':
            pats = [('r', [O, A, K]), ('a', [('io', 'a', 32), ('same', 0), K])]
        elif kind == 'rk32':
            pats = [('r', [O, K])]
        elif kind == 'r':
            pats = [('r', [O])]
        elif kind == 'ab':
            pats = [(None, [A, B])]
        elif kind == 'ak32':
            pats = [(None, [A, K])]
        else:
            pats = [(None, [A])]
        for out, params in pats:
            e = X.Ex(p, 300)
            e.merge('.*')
            f = Fn(j, e, so, fn, params, 'contract %s %s' % (variant, nm))
            V = f.V
            vs = []
            for c in kind.replace('32', '').lstrip('r'):
                vs.append(V['k'] if c == 'k' else V.get(c, V.get('a', V.get('b'))))
            r = spec(*vs)
            if out is None:
                s = {'ret': r}
            else:
                s = {out: r[0]}
                if r[1] is not None:
                    s['ret'] = (32, r[1])
            f.check(s)
            j.absorb(e)
            n += 1
    j.bound('%s: the uint256 contracts used below hold for all operand values (%d function/aliasing combinations)' % (variant, n))
