"""reference curves (python) and the symbolic points used by E01, P02, E02"""
from numlib import *
from vf.ffd import *
P2, N2, P9, N9 = MOD['p2'], MOD['n2'], MOD['p9'], MOD['n9']
B2 = 0x28e9fa9e9d9f5e344d5a9e4bcf6509a7f39789f515ab8f92ddbcbd414d940e93
G2X = 0x32c4ae2c1f1981195f9904466a39c9948fe30bbff2660be1715a4589334c74c7
G2Y = 0xbc3736a2f4f6779c59bdcee36b692153d0a9877cc62a474002df32e52139f0a0
G9X = 0x93DE051D62BF718FF5ED0704487D01D6E1E4086909DC3280E8C4E4817C66DDDD
G9Y = 0x21FE8DDA4F21E607631065125C395BBC1C1C00CBFA6024350C464CD70A3EA616
# (a0, a1) of a0 + a1 u
H9X = (0x3722755292130B08D2AAB97FD34EC120EE265948D19C17ABF9B7213BAF82D65B, 0x85AEF3D078640C98597B6027B441A01FF1DD2C190F5E93C454806C11D8806141)
H9Y = (0xA7CF28D519BE3DA65F3170153D278FF247EFBA98A71A08116215BBA5C999A7C7, 0x17509B092E845C1266BA0D262CBEE6ED0736A96FA347C8BD856DC76B84EBEB96)


class F1:
    size = 32

    def __init__(self, p):
        self.p = p
        self.zero, self.one = 0, 1

    def add(self, a, b): return (a + b) % self.p
    def sub(self, a, b): return (a - b) % self.p
    def mul(self, a, b): return a * b % self.p
    def inv(self, a): return pow(a, -1, self.p)
    def rnd(self, r): return r.randrange(self.p)
    def enc(self, a): return (a * R256 % self.p).to_bytes(32, 'little')

    def dec(self, b):
        v = int.from_bytes(b, 'little')
        return v * pow(R256, -1, self.p) % self.p if v < self.p else None


class F2:
    size = 64

    def __init__(self, p):
        self.p = p
        self.zero, self.one = (0, 0), (1, 0)
        self.f = F1(p)

    def add(self, a, b): return tuple((x + y) % self.p for x, y in zip(a, b))
    def sub(self, a, b): return tuple((x - y) % self.p for x, y in zip(a, b))
    def mul(self, a, b): return ((a[0] * b[0] - 2 * a[1] * b[1]) % self.p, (a[0] * b[1] + a[1] * b[0]) % self.p)

    def inv(self, a):
        n = pow(a[0] * a[0] + 2 * a[1] * a[1], -1, self.p)
        return (a[0] * n % self.p, -a[1] * n % self.p)

    def rnd(self, r): return (r.randrange(self.p), r.randrange(self.p))
    def enc(self, a): return self.f.enc(a[0]) + self.f.enc(a[1])

    def dec(self, b):
        x, y = self.f.dec(b[:32]), self.f.dec(b[32:])
        return None if x is None or y is None else (x, y)


class EC:
    def __init__(self, F, a, b, n, G):
        self.F, self.a, self.b, self.n, self.G = F, a, b, n, G

    def on(self, P):
        F = self.F
        x, y = P
        return F.mul(y, y) == F.add(F.add(F.mul(F.mul(x, x), x), F.mul(self.a, x)), self.b)

    def neg(self, P):
        return None if P is None else (P[0], self.F.sub(self.F.zero, P[1]))

    def add(self, P, Q):
        F = self.F
        if P is None:
            return Q
        if Q is None:
            return P
        if P[0] == Q[0]:
            if P[1] != Q[1] or P[1] == F.zero:
                return None
            x2 = F.mul(P[0], P[0])
            l = F.mul(F.add(F.add(F.add(x2, x2), x2), self.a), F.inv(F.add(P[1], P[1])))
        else:
            l = F.mul(F.sub(Q[1], P[1]), F.inv(F.sub(Q[0], P[0])))
        x = F.sub(F.sub(F.mul(l, l), P[0]), Q[0])
        return (x, F.sub(F.mul(l, F.sub(P[0], x)), P[1]))

    def mul(self, k, P):
        R = None
        while k:
            if k & 1:
                R = self.add(R, P)
            P = self.add(P, P)
            k >>= 1
        return R

    def rnd(self, r):
        return self.mul(r.randrange(1, self.n), self.G)

    def jac(self, P, z):
        F = self.F
        z2 = F.mul(z, z)
        return F.enc(F.mul(P[0], z2)) + F.enc(F.mul(P[1], F.mul(z2, z))) + F.enc(z)

    def affb(self, P):
        return self.F.enc(P[0]) + self.F.enc(P[1])

    def dejac(self, b):
        """affine point, None for infinity, 'bad' for an unreduced coordinate"""
        F = self.F
        v = [F.dec(b[i:i + F.size]) for i in range(0, 3 * F.size, F.size)]
        if None in v:
            return 'bad'
        if v[2] == F.zero:
            return None
        i = F.inv(v[2])
        i2 = F.mul(i, i)
        return (F.mul(v[0], i2), F.mul(v[1], F.mul(i2, i)))


CURVE = {'s2': EC(F1(P2), P2 - 3, B2, N2, (G2X, G2Y)),
         'g1': EC(F1(P9), 0, 5, N9, (G9X, G9Y)),
         'g2': EC(F2(P9), (0, 0), (0, 5), N9, (H9X, H9Y))}
NAME = {'s2': 'SM2', 'g1': 'SM9 G1', 'g2': 'SM9 G2'}


class Sym:
    """symbolic setting for one curve: ring, hooks, generators"""

    def __init__(self, e, curve):
        self.e = e
        self.curve = curve
        C = CURVE[curve]
        self.p = C.F.p
        R = self.R = Ring(self.p, 'p')
        self.d1 = Dom(e, {self.p: R})
        self.size = C.F.size
        self.rules = []
        if curve == 'g2':
            self.d2 = Dom2(e, R, self.d1)
            self.rules.append((self.d2.ug, 2, R.c(-2)))
            self.a, self.b = {}, R.scale(self.d2.U, 5)
            self.mul = self.d2.mul
        else:
            self.d2 = None
            self.a, self.b = R.c(C.a), R.c(C.b)
            self.mul = R.mul
        self.pts = {}

    def point(self, n):
        """(x, y) with the curve equation as a rewriting rule, y non-zero (no point of order two exists)"""
        R = self.R
        x, y = R.gen('x' + n), R.gen('y' + n, nonzero=True)
        if n not in self.pts:
            self.pts[n] = (x, y)
            self.rules.append((R.id['y' + n], 2, R.add(R.add(R.mul(R.mul(x, x), x), R.mul(self.a, x)), self.b)))
        return x, y

    def put(self, st, p, polys):
        for i, q in enumerate(polys):
            if self.d2:
                self.d2.put(st, p + i * self.size, q)
            else:
                st.store(p + i * self.size, self.d1.term(self.R, q), 32)

    def get(self, st, p, n):
        if self.d2:
            return [self.d2.get(st, p + i * self.size) for i in range(n)]
        return [self.d1.poly(st.load(p + i * self.size, 32), self.R, st) for i in range(n)]

    def path(self, Z, N):
        return Path(self.R, Z, N, self.rules)
