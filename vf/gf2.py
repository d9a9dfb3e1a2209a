"""Canonical forms over GF(2).

Every bit of a term becomes an affine form over atoms, held as an int (bit 0 is the constant 1).  Atoms are input bits, products
of two atoms (bilinear code such as GHASH) and, for each 8-bit table index, the monomials of degree >= 2 in a canonical (reduced
echelon) basis of the index bits.  Two bits with the same form are equal for every input; the rewriting is exact, so a difference
in forms is only ever a candidate that has to be replayed."""
from . import term as tm
from .term import T, TABLES


class Unknown(Exception):
    pass


MAXDIM = 9


class GF2:
    def __init__(self):
        self.next = 1
        self.atoms = {}
        self.bases = []          # (offset, dim, tuple of basis forms)
        self.basek = {}
        self.baseof = []         # sorted offsets
        self.cache = {}
        self.anfc = {}
        self.prod = {}
        self.ispair = {}
        self.cuts = []
        self.cutmask = 0

    # ------------------------------------------------------------ atoms
    def atom(self, k):
        i = self.atoms.get(k)
        if i is None:
            i = self.atoms[k] = self.next
            self.next += 1
        return i

    def word(self, name, w):
        return [1 << self.atom((name, i)) for i in range(w)]

    def base(self, forms):
        """forms: affine; -> (base index, for each form (mask over basis, const)).  None if the dimension is too big"""
        rows = []                # reduced: list of (pivot bit, form)
        for f in forms:
            f &= ~1
            for p, r in rows:
                if f >> p & 1:
                    f ^= r
            if f:
                p = f.bit_length() - 1
                rows = [(q, r ^ f if r >> p & 1 else r) for q, r in rows]
                rows.append((p, f))
        rows.sort()
        if len(rows) > MAXDIM:
            return None
        key = tuple(r for _, r in rows)
        b = self.basek.get(key)
        if b is None:
            b = len(self.bases)
            self.bases.append((self.next, len(key), key, [p for p, _ in rows]))
            self.next += 1 << len(key)
            self.basek[key] = b
        out = []
        for f in forms:
            c = f & 1
            f &= ~1
            m = 0
            for i, (p, r) in enumerate(rows):
                if f >> p & 1:
                    f ^= r
                    m |= 1 << i
            assert not f
            out.append((m, c))
        return b, out

    def from_table(self, b, tt):
        """form of the function with truth table tt (int, bit x = value at basis assignment x) on base b"""
        off, dim, key, _ = self.bases[b]
        n = 1 << dim
        a = self.anfc.get((dim, tt))
        if a is None:
            a = tt
            for i in range(dim):
                s = 1 << i
                # x -> x ^ (x with bit i cleared)
                a ^= (a & _low(dim, i)) << s
            self.anfc[(dim, tt)] = a
        r = a & 1
        hi = a & ~1
        for i in range(dim):
            if a >> (1 << i) & 1:
                r ^= key[i]
                hi &= ~(1 << (1 << i))
        return r ^ (hi << off)

    def baseids(self, f):
        """base ids whose monomials occur in f, latest first"""
        out = []
        f0 = f
        for b in range(len(self.bases) - 1, -1, -1):
            off, dim, key, _ = self.bases[b]
            if f0 >> off & ((1 << (1 << dim)) - 1):
                out.append(b)
                if len(out) > 3:
                    break
        return out

    def on_base(self, b, f):
        """truth table of f over base b, or None when f is no function of it"""
        off, dim, key, piv = self.bases[b]
        n = 1 << dim
        msk = (1 << n) - 1
        a = f >> off & msk
        rest = f ^ (a << off)
        c = rest & 1
        rest &= ~1
        a ^= c
        for i in range(dim):
            if rest >> piv[i] & 1:
                rest ^= key[i]
                a ^= 1 << (1 << i)
        if rest:
            return None
        for i in range(dim):
            a ^= (a & _low(dim, i)) << (1 << i)
        return a

    def func(self, forms, cols):
        """forms: k index forms (bit 0 first); cols: truth tables over the 2^k index values (ints) -> forms of the outputs"""
        k = len(forms)
        # a function of one earlier table index?
        cand = None
        top = max((f for f in forms), default=0)
        if top.bit_length() > 1:
            for b in self.baseids(top):
                ts = [self.on_base(b, f) for f in forms]
                if all(t is not None for t in ts):
                    cand = (b, ts)
                    break
        if cand is None:
            r = self.base(forms)
            if r is None:
                raise Unknown('a function of more than %d independent bits' % MAXDIM)
            b, ms = r
            dim = self.bases[b][1]
            n = 1 << dim
            ts = []
            for m, c in ms:
                t = 0
                for x in range(n):
                    if (bin(x & m).count('1') & 1) ^ c:
                        t |= 1 << x
                ts.append(t)
        else:
            b, ts = cand
        dim = self.bases[b][1]
        idx = []
        for x in range(1 << dim):
            v = 0
            for i in range(k):
                v |= (ts[i] >> x & 1) << i
            idx.append(v)
        out = []
        for c in cols:
            t = 0
            for x, v in enumerate(idx):
                if c >> v & 1:
                    t |= 1 << x
            out.append(self.from_table(b, t))
        return out

    def mul(self, a, b):
        """product of two affine forms"""
        if not a or not b:
            return 0
        if a == 1:
            return b
        if b == 1:
            return a
        if a == b:
            return a
        if a == b ^ 1:
            return 0
        if self.pairs:
            a, b = self.cut(a), self.cut(b)
            if a > b:
                a, b = b, a
            r = self.prod.get((a, b))
            if r is None:
                r = 0
                bb = _ones(b)
                for i in _ones(a):
                    for j in bb:
                        if i == j:
                            r ^= 1 << i
                        elif not i:
                            r ^= 1 << j
                        elif not j:
                            r ^= 1 << i
                        else:
                            r ^= 1 << self.pair(i, j)
                self.prod[(a, b)] = r
            return r
        return self.func([a, b], [8])[0]

    def cut_at(self, forms, name):
        """from here on products see the given forms (linearly independent) as fresh atoms; returns these atoms' forms"""
        out = []
        for i, f in enumerate(forms):
            a = 1 << self.atom((name, i))
            out.append(a)
            g, c = self._cutred(f)
            if g:
                self.cuts.append((g.bit_length() - 1, g, c ^ a))
                self.cutmask |= g
        return out

    def _cutred(self, f):
        """f = rest + combination: (rest, combination) with respect to the cut forms"""
        c = 0
        for p, g, k in self.cuts:
            if f >> p & 1:
                f ^= g
                c ^= k
        return f, c

    def cut(self, f):
        if not self.cuts or not f & self.cutmask:
            return f
        r, c = self._cutred(f)
        return r ^ c

    pairs = False
    maxdeg = 2

    def pair(self, i, j):
        s = (self.ispair.get(i) or frozenset((i,))) | (self.ispair.get(j) or frozenset((j,)))
        if len(s) > self.maxdeg:
            raise Unknown('product of degree above %d' % self.maxdeg)
        if len(s) == 1:
            return next(iter(s))
        k = ('*', s)
        n = self.atom(k)
        self.ispair[n] = s
        return n

    # ------------------------------------------------------------ terms
    def const(self, v, w):
        return [v >> i & 1 for i in range(w)]

    def bits(self, t, w=None):
        if t.__class__ is int:
            return self.const(t, w)
        C = self.cache
        for x in tm.topo([t], None, C):
            C[x] = self.node(x)
        return C[t]

    def g(self, x, w):
        return self.const(x, w) if x.__class__ is int else self.cache[x]

    def node(self, t):
        op, a, w = t.op, t.a, t.w
        if op == 'var':
            return self.word(a[0], w)
        if op == 'concat':
            out = []
            for i in range(len(a) - 2, -1, -2):
                out += self.g(a[i], a[i + 1])
            return out
        if op == 'extract':
            return self.cache[a[0]][a[1]:a[1] + w]
        if op == 'xor':
            return [x ^ y for x, y in zip(self.g(a[0], w), self.g(a[1], w))]
        if op == 'and':
            return [self.mul(x, y) for x, y in zip(self.g(a[0], w), self.g(a[1], w))]
        if op == 'or':
            return [x ^ y ^ self.mul(x, y) for x, y in zip(self.g(a[0], w), self.g(a[1], w))]
        if op == 'lookup':
            tb, idx = a
            f = self.g(idx, None)
            vals = TABLES[tb]
            cols = self.cols(tb, vals, w)
            return self.func(f, cols)
        if op == 'sel':
            ent, idx = a
            f = self.g(idx, None)
            k = len(f)
            n = 1 << k
            rows = [self.g(e, w) for e in ent] + [[0] * w] * (n - len(ent))
            rows = [list(r) for r in rows]
            for i in range(k):
                s = 1 << i
                for x in range(n):
                    if x & s:
                        p, q = rows[x], rows[x ^ s]
                        rows[x] = [u ^ v for u, v in zip(p, q)]
            out = list(rows[0])
            mono = {0: 1}
            for x in range(1, n):
                if any(rows[x]):
                    m = self.monomial(f, x, mono)
                    out = [o ^ self.mul(m, r) for o, r in zip(out, rows[x])]
            return out
        if op == 'ite':
            c = self.g(a[0], 1)[0]
            x, y = self.g(a[1], w), self.g(a[2], w)
            return [v ^ self.mul(c, u ^ v) for u, v in zip(x, y)]
        if op == 'clmul':
            h = w // 2
            x, y = self.g(a[0], h), self.g(a[1], h)
            out = [0] * w
            for i in range(h):
                if x[i]:
                    for j in range(h):
                        if y[j]:
                            out[i + j] ^= self.mul(x[i], y[j])
            return out
        if op == 'sext':
            f = self.cache[a[0]]
            return f + [f[-1]] * (w - len(f))
        if op in ('shl', 'lshr', 'ashr'):
            k = a[1]
            if k.__class__ is int:
                f = self.g(a[0], w)
                k = min(k, w)
                if op == 'shl':
                    return [0] * k + f[:w - k]
                return f[k:] + [f[-1] if op == 'ashr' else 0] * k
        if op == 'eq' and w == 1:
            x, y = a
            ww = x.w if x.__class__ is T else y.w
            r = 1
            for u, v in zip(self.g(x, ww), self.g(y, ww)):
                r = self.mul(r, u ^ v ^ 1)
            return [r]
        if op == 'mul':
            for x, y in ((a[0], a[1]), (a[1], a[0])):
                f = self.g(x, w)
                if not any(f[1:]):
                    return [self.mul(f[0], v) for v in self.g(y, w)]
                if y.__class__ is int and y & (y - 1) == 0 and y:
                    k = y.bit_length() - 1
                    return [0] * k + f[:w - k]
        if op == 'sub':
            x, y = self.g(a[0], w), self.g(a[1], w)
            if not any(x) and not any(y[1:]):
                return [y[0]] * w
        if op == 'add':
            x, y = self.g(a[0], w), self.g(a[1], w)
            if all(not u or not v for u, v in zip(x, y)):
                return [u ^ v for u, v in zip(x, y)]
            # ripple carry; only pays off for short chains
            out = []
            c = 0
            for u, v in zip(x, y):
                out.append(u ^ v ^ c)
                c = self.mul(u, v) ^ self.mul(c, u ^ v)
            return out
        raise Unknown('operation %s' % op)

    _colc = {}

    def cols(self, tb, vals, w):
        r = self._colc.get((tb, w))
        if r is None:
            r = []
            for i in range(w):
                c = 0
                for x, v in enumerate(vals):
                    c |= (v >> i & 1) << x
                r.append(c)
            self._colc[(tb, w)] = r
        return r

    def monomial(self, f, x, mono):
        r = mono.get(x)
        if r is None:
            lo = x & -x
            r = mono[x] = self.mul(self.monomial(f, x ^ lo, mono), f[lo.bit_length() - 1])
        return r


_lowc = {}


def _low(dim, i):
    """mask of the assignments of dim bits with bit i clear"""
    r = _lowc.get((dim, i))
    if r is None:
        r = 0
        for x in range(1 << dim):
            if not x >> i & 1:
                r |= 1 << x
        _lowc[(dim, i)] = r
    return r


def _ones(f):
    out = []
    while f:
        l = f & -f
        out.append(l.bit_length() - 1)
        f ^= l
    return out
