"""Function contracts: run one exported function symbolically on symbolic
buffers and compare everything it leaves behind with specification terms; a
counterexample is replayed natively against the same function."""
from .check import *
from . import ex as X


class Fn:
    """params: ('in'|'io', name, bytes) | ('out', name, bytes) | ('same', idx) | ('u', name, w) | ('k', value)"""

    def __init__(self, j, e, so, fn, params, what, pre=None, timeout=30000, seed_env=(), unpath=None):
        self.j, self.e, self.so, self.fn, self.params, self.what = j, e, so, fn, params, what
        self.timeout = timeout
        self.V = {}
        self.st = X.State(e)
        self.args = []
        self.bufs = []      # (param index, pointer, size, name, mode)
        for i, p in enumerate(params):
            if p[0] in ('in', 'io'):
                ptr = self.st.alloc(p[2])
                v = tm.var(p[1], 8 * p[2])
                self.V[p[1]] = v
                if p[2]:
                    self.st.store(ptr, v, p[2])
                self.bufs.append((i, ptr, p[2], p[1], p[0]))
                self.args.append(ptr)
            elif p[0] == 'out':
                ptr = self.st.alloc(p[2])
                self.bufs.append((i, ptr, p[2], p[1], p[0]))
                self.args.append(ptr)
            elif p[0] == 'data':
                ptr = self.st.alloc(len(p[2]))
                if p[2]:
                    self.st.putbytes(ptr, list(p[2]))
                self.bufs.append((i, ptr, len(p[2]), p[1], p[0]))
                self.args.append(ptr)
            elif p[0] == 'same':
                self.args.append(self.args[p[1]])
            elif p[0] == 'u':
                v = tm.var(p[1], p[2])
                self.V[p[1]] = v
                self.args.append(v)
            else:
                self.args.append(p[1])
        for c in (pre(self.V) if pre else ()):
            self.st.assume(c)

    def native(self, env):
        a = []
        bi = {}
        for i, p in enumerate(self.params):
            if p[0] in ('in', 'io'):
                bi[i] = len(bi)
                a.append(('buf', (env.get(p[1], 0)).to_bytes(p[2], 'little')))
            elif p[0] == 'out':
                bi[i] = len(bi)
                a.append(('buf', b'\xa5' * p[2]))
            elif p[0] == 'data':
                bi[i] = len(bi)
                a.append(('buf', bytes(p[2])))
            elif p[0] == 'same':
                k = p[1]
                a.append(('ref', bi[k]))
            elif p[0] == 'u':
                a.append(env.get(p[1], 0))
            else:
                a.append(p[1])
        return native(self.so, [(self.fn, a)]), bi

    def check(self, spec, fast=True):
        """spec: dict name -> term (whole buffer, little-endian) or 'ret' -> (w, term)"""
        j = self.j
        name2 = {b[3]: b for b in self.bufs}
        want = {}
        for k, v in spec.items():
            if k == 'ret':
                want[k] = v
            else:
                want[k] = (8 * name2[k][2], v)
        for b in self.bufs:
            if b[4] == 'in' and b[3] not in want:
                want[b[3]] = (8 * b[2], self.V[b[3]])

        def confirm(env):
            r, bi = self.native(env)
            cx = dict(function=self.fn, what=self.what, inputs={k: hex(env.get(k, 0)) for k in self.V})
            if 'crash' in r:
                cx['observed'] = r['crash']
                return cx
            for k, (w, t) in want.items():
                ex = tm.evaluate([t], env)[0] & ((1 << w) - 1)
                if k == 'ret':
                    got = r['ret'][0] & ((1 << w) - 1)
                else:
                    got = int.from_bytes(r['bufs'][bi[name2[k][0]]], 'little')
                if got != ex:
                    cx['observed'] = '%s = %s' % (k, hex(got))
                    cx['expected'] = hex(ex)
                    return cx
            return None
        self.confirm = confirm
        res = True
        paths = self.e.call(self.st, self.fn, self.args)
        for p in paths:
            pc = p.st.conds()
            if p.kind != 'ret':
                j.never(pc, '%s: %s' % (self.what, p.info or p.kind), confirm, timeout=self.timeout)
                continue
            for k, (w, t) in want.items():
                if k == 'ret':
                    got = p.st.ret
                    if got.__class__ is not int and got.w > w:
                        got = tm.extract(got, 0, w)
                    elif got.__class__ is int:
                        got &= (1 << w) - 1
                    pairs = [(w, got, t)]
                else:
                    b = name2[k]
                    if any(c is None for c in p.st.cells(b[1], b[2])):
                        j.never(pc, '%s: %s left partly unwritten' % (self.what, k), confirm)
                        continue
                    pairs = [(w, p.st.load(b[1], b[2]), t)] if b[2] else []
                for ww, g, t2 in pairs:
                    r = self.decide(ww, g, t2, pc, '%s: %s' % (self.what, k), confirm)
                    res = res and r
        return res

    def decide(self, w, g, t, pc, what, confirm):
        return self.j.equal(w, g, t, pc, what, confirm, timeout=self.timeout)
