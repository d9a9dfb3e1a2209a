"""the R-ate pairing of the standard (GM/T 0044.1, appendix), straight from its definition, and its native comparison"""
from tower import *
import random
T_ = 0x600000000058F98A
F = F12_
W = tuple(1 if i == 1 else 0 for i in range(12))
W2I = F.inv(F.mul(W, W))
W3I = F.inv(F.mul(W, F.mul(W, W)))


def twist(Q):
    """(x, y) over Fp2 -> E(Fp12)"""
    return F.mul(embed(Q[0], 2, 12), W2I), F.mul(embed(Q[1], 2, 12), W3I)


def line(A, B, Pt):
    """value at Pt of the line through A and B (tangent for A = B), and A + B"""
    (x1, y1), (x2, y2) = A, B
    if A == B:
        l = F.mul(F.scale(F.mul(x1, x1), 3), F.inv(F.scale(y1, 2)))
    elif x1 == x2:
        return F.sub(Pt[0], x1), None
    else:
        l = F.mul(F.sub(y2, y1), F.inv(F.sub(x2, x1)))
    g = F.sub(F.mul(l, F.sub(Pt[0], x1)), F.sub(Pt[1], y1))
    x3 = F.sub(F.sub(F.mul(l, l), x1), x2)
    return g, (x3, F.sub(F.mul(l, F.sub(x1, x3)), y1))


def pairing(Pt, Q):
    """Pt affine in G1, Q affine in G2 (twist coordinates)"""
    Pe = (embed((Pt[0],), 1, 12), embed((Pt[1],), 1, 12))
    Qe = twist(Q)
    a = 6 * T_ + 2
    f, Tp = F.one, Qe
    for b in bin(a)[3:]:
        g, Tp = line(Tp, Tp, Pe)
        f = F.mul(F.mul(f, f), g)
        if b == '1':
            g, Tp = line(Tp, Qe, Pe)
            f = F.mul(f, g)
    Q1 = (F.frob(Qe[0]), F.frob(Qe[1]))
    Q2 = (F.frob(Qe[0], 2), F.frob(Qe[1], 2))
    g, T1 = line(Tp, Q1, Pe)
    f = F.mul(f, g)
    g, _ = line(T1, (Q2[0], F.neg(Q2[1])), Pe)
    f = F.mul(f, g)
    return finalexp(f)


def finalexp(f):
    f = F.mul(F.frob(f, 6), F.inv(f))
    f = F.mul(F.frob(f, 2), f)
    return F.pow(f, (P ** 4 - P ** 2 + 1) // N9)


def hunt(so, n=6, seed=None):
    r = random.Random(seed or int(os.environ.get('VERIF_SEED', '1')))
    G1, G2 = CURVE['g1'], CURVE['g2']
    for k in range(n):
        a = 1 if k == 0 else r.choice([r.randrange(1, N9), 2, N9 - 1])
        b = 1 if k == 0 else r.choice([r.randrange(1, N9), 3, N9 - 1])
        Pt, Q = G1.mul(a, G1.G), G2.mul(b, G2.G)
        w = pairing(Pt, Q)
        for fn, args in (('pairing', [('buf', G1.affb(Pt)), ('buf', G2.affb(Q))]),
                         ('pairing_p1', [('buf', G2.affb(Q))]), ('pairing_p2', [('buf', G1.affb(Pt))])):
            g = native(so, [(fn, [('buf', bytes(384))] + args)])
            w2 = w if fn == 'pairing' else pairing(G1.G, Q) if fn == 'pairing_p1' else pairing(Pt, G2.G)
            if 'crash' in g:
                return dict(function='sm9_' + fn, P=repr(Pt), Q=repr(Q), observed=g['crash'])
            got = F.dec(g['bufs'][0])
            if got != w2:
                return dict(function='sm9_' + fn, P=repr(Pt), Q=repr(Q), observed=repr(got), expected=repr(w2))
