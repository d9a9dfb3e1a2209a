"""reference arithmetic of the SM9 tower: GF(p)[t]/(t^n + 2), n = 2 (u), 4 (v), 12 (w)"""
from eclib import *
P = P9
N9_ = N9
SLOT = {2: [0, 1], 4: [j + 2 * k for j in range(2) for k in range(2)],
        12: [i + 3 * j + 6 * k for i in range(3) for j in range(2) for k in range(2)]}
NM = {2: 'sm9_fp2', 4: 'sm9_fp4', 12: 'sm9_fp12'}


def irreducible():
    """x^12 + 2 is irreducible over GF(p): (Lang VI.9.1) -2 is no square, no cube and -4*c^4 is excluded by p = 1 mod 4"""
    return P % 12 == 1 and pow(-2, (P - 1) // 2, P) != 1 and pow(-2, (P - 1) // 3, P) != 1 or \
        (P % 3 == 1 and P % 4 == 1 and pow(-2, (P - 1) // 2, P) != 1 and pow(-2, (P - 1) // 3, P) != 1)


class Ext:
    """elements: tuples of n integers (coefficient of t^i)"""

    def __init__(self, n):
        self.n = n
        self.zero = (0,) * n
        self.one = (1,) + (0,) * (n - 1)
        self.size = 32 * n
        self.slot = SLOT[n]

    def add(self, a, b): return tuple((x + y) % P for x, y in zip(a, b))
    def sub(self, a, b): return tuple((x - y) % P for x, y in zip(a, b))
    def neg(self, a): return tuple(-x % P for x in a)
    def scale(self, a, k): return tuple(k * x % P for x in a)

    def mul(self, a, b):
        n = self.n
        r = [0] * (2 * n)
        for i, x in enumerate(a):
            if x:
                for j, y in enumerate(b):
                    r[i + j] += x * y
        return tuple((r[i] - 2 * r[i + n]) % P for i in range(n))

    def inv(self, a):
        """linear solve a * x = 1; zero for zero"""
        n = self.n
        if a == self.zero:
            return a
        cols = []
        t = a
        for i in range(n):
            cols.append(t)
            t = tuple([-2 * t[-1] % P] + list(t[:-1]))
        Mx = [[cols[j][i] for j in range(n)] + [1 if i == 0 else 0] for i in range(n)]
        for c in range(n):
            pv = next(r for r in range(c, n) if Mx[r][c])
            Mx[c], Mx[pv] = Mx[pv], Mx[c]
            k = pow(Mx[c][c], -1, P)
            Mx[c] = [v * k % P for v in Mx[c]]
            for r in range(n):
                if r != c and Mx[r][c]:
                    k = Mx[r][c]
                    Mx[r] = [(v - k * w) % P for v, w in zip(Mx[r], Mx[c])]
        return tuple(Mx[i][n] for i in range(n))

    def pow(self, a, k):
        if k < 0:
            return self.pow(self.inv(a), -k)
        r = self.one
        for b in bin(k)[2:]:
            r = self.mul(r, r)
            if b == '1':
                r = self.mul(r, a)
        return r

    def frob(self, a, k=1):
        """a^(p^k): t^i -> t^i * (-2)^((p^k - 1) i / n)"""
        n = self.n
        e = (P ** k - 1) // n
        c = pow(-2, e % (P - 1), P)
        return tuple(x * pow(c, i, P) % P for i, x in enumerate(a))

    def enc(self, a):
        return b''.join((a[e] * R256 % P).to_bytes(32, 'little') for e in self.slot)

    def dec(self, b):
        r = [0] * self.n
        i = pow(R256, -1, P)
        for s, e in enumerate(self.slot):
            v = int.from_bytes(b[32 * s:32 * s + 32], 'little')
            if v >= P:
                return None
            r[e] = v * i % P
        return tuple(r)

    def tobytes(self, a):
        return b''.join(a[e].to_bytes(32, 'big') for e in reversed(self.slot))

    def frombytes(self, b):
        r = [0] * self.n
        for s, e in enumerate(reversed(self.slot)):
            r[e] = int.from_bytes(b[32 * s:32 * s + 32], 'big') % P
        return tuple(r)

    def rnd(self, r):
        k = r.randrange(8)
        if k == 0:
            return self.zero
        if k == 1:
            return self.one
        v = [r.choice([0, 1, 2, P - 1, P - 2, r.randrange(P), 1 << 255 % 200]) % P for _ in range(self.n)]
        if k < 5:
            v = [r.randrange(P) for _ in range(self.n)]
        if k == 5:
            for i in range(self.n):
                if r.randrange(3):
                    v[i] = 0
        return tuple(v)


F2_, F4_, F12_ = Ext(2), Ext(4), Ext(12)
EXT = {2: F2_, 4: F4_, 12: F12_}
assert irreducible()


def embed(a, n, m):
    """element of the degree-n field in the degree-m field"""
    k = m // n
    r = [0] * m
    for i, x in enumerate(a):
        r[i * k] = x
    return tuple(r)
