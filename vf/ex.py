"""Symbolic executor for LLVM IR modules produced from /repo's sources."""
import time, re
from . import ir
from . import term as tm
from .term import T

M64 = (1 << 64) - 1
HALF = 1 << 31


class MemErr(Exception):
    def __init__(self, what, cond=None):
        self.what = what
        self.cond = cond      # extra condition term under which it happens


class NeedConc(Exception):
    def __init__(self, t):
        self.t = t


class Unsupported(Exception):
    pass


class Deadline(Unsupported):
    """out of time or paths"""

    def __init__(self, why='time budget of the symbolic run used up'):
        Unsupported.__init__(self, why)


class Throw(Exception):
    """raised by hooks to throw a C++ exception"""

    def __init__(self, obj=0):
        self.obj = obj


class Halt(Exception):
    """raised by hooks: path ends with this outcome"""

    def __init__(self, kind, info=None):
        self.kind = kind
        self.info = info


class Obj:
    __slots__ = ('size', 'data', 'own', 'kind', 'const')

    def __init__(self, size, data, own, kind, const=False):
        self.size = size
        self.data = data
        self.own = own
        self.kind = kind
        self.const = const


class LongBuf:
    """cells of a very large read-only input: zeros up to a short tail.  One instance per 4 GiB segment."""
    __slots__ = ('total', 'seg', 'tail')

    def __init__(self, total, seg, tail):
        self.total, self.seg, self.tail = total, seg, tail

    def __getitem__(self, s):
        a, b = (s.start, s.stop) if s.__class__ is slice else (s, s + 1)
        z = self.total - len(self.tail)
        if b - a > 1 << 20:
            raise Unsupported('whole copy of a very large buffer')
        r = [0 if i + self.seg < z else self.tail[i + self.seg - z] for i in range(a, b)]
        return r if s.__class__ is slice else r[0]

    def __iter__(self):
        raise MemErr('write into a large input buffer')


class Objs(dict):
    __slots__ = ('prog',)

    def __missing__(self, k):
        o = self.prog.gobj(k)
        if o is not None:
            self[k] = o
        return o


class Frame:
    __slots__ = ('fn', 'R', 'blk', 'prev', 'pc', 'allocas', 'dst', 'nb', 'ub')

    def __init__(self, fn):
        self.fn = fn
        self.R = [None] * fn.nregs
        self.blk = 0
        self.prev = -1
        self.pc = 0
        self.allocas = []
        self.dst = None
        self.nb = None
        self.ub = None

    def clone(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn
        f.R = list(self.R)
        f.blk = self.blk
        f.prev = self.prev
        f.pc = self.pc
        f.allocas = list(self.allocas)
        f.dst = self.dst
        f.nb = self.nb
        f.ub = self.ub
        return f


_tok = [0]


def newtok():
    _tok[0] += 1
    return _tok[0]


def ptr(k, off=0):
    return (k << 32) + HALF + off


class State:
    __slots__ = ('ex', 'frames', 'objs', 'pc', 'tok', 'nobj', 'conc', 'ipc', 'data', 'exc', 'ret', 'outcome', 'log', 'trail')

    def __init__(self, ex):
        self.ex = ex
        self.frames = []
        self.objs = Objs()
        self.objs.prog = ex.prog
        self.pc = ()          # path condition: linked (parent, term)
        self.tok = newtok()
        self.nobj = ex.prog.firstfree
        self.conc = {}
        self.ipc = 0
        self.data = {}        # harness-specific
        self.exc = None
        self.ret = None
        self.outcome = None
        self.log = ()
        self.trail = ()

    def clone(self):
        s = State.__new__(State)
        s.ex = self.ex
        s.frames = [f.clone() for f in self.frames]
        s.objs = Objs(self.objs)
        s.objs.prog = self.objs.prog
        s.pc = self.pc
        s.tok = newtok()
        self.tok = newtok()
        s.nobj = self.nobj
        s.conc = dict(self.conc)
        s.ipc = self.ipc
        s.data = dict(self.data)
        s.exc = self.exc
        s.ret = self.ret
        s.outcome = self.outcome
        s.log = self.log
        s.trail = self.trail
        return s

    def conds(self):
        out = []
        p = self.pc
        while p:
            out.append(p[1])
            p = p[0]
        out.reverse()
        return out

    def assume(self, c):
        if c.__class__ is int:
            return bool(c)
        self.pc = (self.pc, c)
        return True

    def logadd(self, ev):
        self.log = (self.log, ev)

    def events(self):
        out = []
        p = self.log
        while p:
            out.append(p[1])
            p = p[0]
        out.reverse()
        return out

    # ------------------------------------------------------------ memory
    def alloc(self, size, kind='heap', data=None):
        k = self.nobj
        self.nobj = k + 1
        if data is None:
            data = [None] * size
        self.objs[k] = Obj(size, data, self.tok, kind)
        return ptr(k)

    def alloc_long(self, total, tail):
        """read-only buffer of `total` bytes: zeros, then the cells of `tail`; only the lower half of each 4 GiB is addressable"""
        k = self.nobj
        n = (total >> 32) + 1
        self.nobj = k + n + 1
        cs = [v if v.__class__ is int else (v, 0) for v in tail]
        for i in range(n):
            self.objs[k + i] = Obj(min(total - (i << 32), 1 << 31), LongBuf(total, i << 32, cs), None, 'long', True)
        return ptr(k)

    def free(self, p):
        k = p >> 32
        if k in self.objs:
            self.objs[k] = None

    def load(self, p, n):
        if p.__class__ is not int:
            p = self.conc.get(p, p)
            if p.__class__ is not int:
                return self.symload(p, n)
        o = self.objs[p >> 32]
        off = (p & 0xffffffff) - HALF
        if o is None or off < 0 or off + n > o.size:
            raise MemErr(self.describe(p, n, 'read'))
        d = o.data[off:off + n]
        try:
            return int.from_bytes(d, 'little')
        except TypeError:
            return self.assemble(d)

    def describe(self, p, n, what):
        o = self.objs[p >> 32]
        off = (p & 0xffffffff) - HALF
        if p >> 32 == 0:
            return '%s of %d bytes through a null-like pointer %#x' % (what, n, p)
        if o is None:
            return '%s of %d bytes through a dangling or wild pointer' % (what, n)
        return '%s of %d bytes at offset %d of %s object of size %d' % (what, n, off, o.kind, o.size)

    def assemble(self, d):
        n = len(d)
        c = d[0]
        if c.__class__ is tuple and c[1] == 0:
            t = c[0]
            if t.w == 8 * n and all(x.__class__ is tuple and x[0] is t and x[1] == i for i, x in enumerate(d)):
                return t
        parts = []
        for c in reversed(d):
            if c.__class__ is int:
                parts.append((c, 8))
            elif c is None:
                parts.append((tm.fresh('undef', 8), 8))
            else:
                parts.append((tm.extract(c[0], 8 * c[1], 8), 8))
        return tm.concat(parts)

    def store(self, p, v, n):
        if p.__class__ is not int:
            p = self.conc.get(p, p)
            if p.__class__ is not int:
                raise NeedConc(p)
        k = p >> 32
        o = self.objs[k]
        off = (p & 0xffffffff) - HALF
        if o is None or off < 0 or off + n > o.size:
            raise MemErr(self.describe(p, n, 'write'))
        if o.own != self.tok:
            if o.const:
                raise MemErr('write to constant object')
            o = Obj(o.size, list(o.data), self.tok, o.kind)
            self.objs[k] = o
        if v.__class__ is int:
            o.data[off:off + n] = v.to_bytes(n, 'little')
        else:
            if v.op == 'concat':
                self.scatter(o.data, off, v, n)
            else:
                o.data[off:off + n] = [(v, i) for i in range(n)]

    def scatter(self, data, off, v, n):
        for i in range(n):
            x = tm.extract(v, 8 * i, 8)
            if x.__class__ is int:
                data[off + i] = x
            elif x.op == 'extract' and x.a[1] % 8 == 0 and x.a[0].w % 8 == 0:
                data[off + i] = (x.a[0], x.a[1] // 8)
            else:
                data[off + i] = (x, 0)

    def wobj(self, p):
        """writable object of a concrete pointer"""
        k = p >> 32
        o = self.objs[k]
        if o is None:
            raise MemErr('write through a dangling or null pointer')
        if o.own != self.tok:
            if o.const:
                raise MemErr('write to constant object')
            o = Obj(o.size, list(o.data), self.tok, o.kind)
            self.objs[k] = o
        return o

    def cells(self, p, n, what='read'):
        o = self.objs[p >> 32]
        off = (p & 0xffffffff) - HALF
        if o is None or off < 0 or off + n > o.size:
            raise MemErr(self.describe(p, n, what))
        return o.data[off:off + n]

    def putcells(self, p, cs):
        n = len(cs)
        self.cells(p, n, 'write')
        o = self.wobj(p)
        off = (p & 0xffffffff) - HALF
        o.data[off:off + n] = cs

    def bytes(self, p, n):
        """list of n 8-bit values (int or T); None for uninitialised"""
        out = []
        for c in self.cells(p, n):
            if c.__class__ is tuple:
                c = tm.extract(c[0], 8 * c[1], 8)
            out.append(c)
        return out

    def putbytes(self, p, vals):
        self.putcells(p, [v if v.__class__ is int or v is None else (v, 0) for v in vals])

    def term(self, p, n):
        return self.load(p, n)

    # symbolic-address load: constant base + scaled index
    def symload(self, p, n):
        base, x = (p.a[1], p.a[0]) if p.op == 'add' and p.a[1].__class__ is int else (0, p)
        o = self.objs[base >> 32] if base else None
        off = (base & 0xffffffff) - HALF
        if o is None:
            raise NeedConc(p)
        mx = tm.umax(x)
        if mx > 1 << 20 or (not o.const and mx > 1 << 14):
            raise NeedConc(p)
        # stride
        idx = x
        stride = 1
        if idx.op == 'mul' and idx.a[1].__class__ is int:
            stride = idx.a[1]
            idx = idx.a[0]
        if idx.op == 'concat' and idx.a[-2].__class__ is int and idx.a[-2] == 0:
            z = idx.a[-1]
            stride <<= z
            idx = tm.extract(idx, z, idx.w - z)
        cnt = tm.umax(idx)
        if off < 0 or off + n > o.size:
            # the lowest address is already outside: let the solver decide
            raise NeedConc(p)
        maxin = (o.size - n - off) // stride
        if cnt > maxin:
            # possibly out of bounds
            c = tm.ult(64, maxin * stride, x)
            if self.ex.feasible(self, c):
                raise MemErr('read of %d bytes beyond %s object of size %d (symbolic index)' % (n, o.kind, o.size), c)
            cnt = maxin
        nb = max(cnt.bit_length(), 1)
        idx = tm.extract(idx, 0, nb) if nb < idx.w else idx
        key = None
        if o.const:
            key = (id(o), off, stride, n, cnt)
            t = self.ex.prog.tabcache.get(key)
            if t is not None:
                return tm.lookup(t, idx)
        d = o.data
        ent = []
        for i in range(cnt + 1):
            a = off + i * stride
            cs = d[a:a + n]
            try:
                ent.append(int.from_bytes(cs, 'little'))
            except TypeError:
                ent.append(self.assemble(cs))
                key = None
        if all(e.__class__ is int for e in ent):
            t = tm.table(ent + [0] * ((1 << nb) - len(ent)), 8 * n)
            if key:
                self.ex.prog.tabcache[key] = t
            return tm.lookup(t, idx)
        return tm.sel(8 * n, ent, idx)


# ---------------------------------------------------------------- program

class Prog:
    """a parsed module, with lazily decoded functions"""

    def __init__(self, path):
        self.m = ir.load(path)
        self.gids = {}
        self.gnames = {}
        self.fids = {}
        k = 16
        for g in self.m.globals:
            self.gids[g] = k
            self.gnames[k] = g
            k += 1
        for f in list(self.m.fns) + [d for d in self.m.decls if d not in self.m.fns]:
            self.gids[f] = k
            self.fids[k] = f
            k += 1
        self.firstfree = k + 16
        self.decoded = {}
        self.gcache = {}
        self.tabcache = {}
        self.code = {}
        names = [n.strip('@"') for n in list(self.m.fns) + list(self.m.decls)]
        self.dem = {'@' + a: b for a, b in ir.demangle(names).items()}

    def addr(self, name, off=0):
        name = self.m.aliases.get(name, name)
        k = self.gids.get(name)
        if k is None:
            raise Unsupported('unknown symbol ' + name)
        return ptr(k, off)

    def find(self, rx, required=True):
        """functions (defined or declared) whose demangled name matches rx (fullmatch on the part before '(')"""
        r = re.compile(rx)
        out = []
        for n, d in self.dem.items():
            if r.fullmatch(_head(d)):
                out.append(n)
        return out

    def gobj(self, k):
        o = self.gcache.get(k)
        if o is not None:
            return o
        n = self.gnames.get(k)
        if n is None:
            return None
        ty, init, const = self.m.globals[n]
        sz = self.m.size(ty)
        data = [0] * sz if init is not None else [None] * sz
        if init is not None:
            self.init(ty, init, data, 0)
        else:
            const = False
        o = Obj(sz, data, 0, 'global ' + n, const)
        self.gcache[k] = o
        return o

    def init(self, ty, v, data, off):
        m = self.m
        k = v[0]
        if k == 'z' or k == 'u':
            return
        if k == 'str':
            data[off:off + len(v[1])] = v[1]
            return
        if k in ('c', 'g'):
            x = v[1] if k == 'c' else self.addr(v[1], v[2])
            n = m.size(ty)
            data[off:off + n] = list(x.to_bytes(n, 'little'))
            return
        if k == 'agg':
            ty = m.res(ty)
            if ty[0] == 's':
                offs, _ = m.layout(ty)
                for (ety, e), o in zip(v[1], offs):
                    self.init(ety, e, data, off + o)
            else:
                es = m.size(ty[2])
                for i, (ety, e) in enumerate(v[1]):
                    self.init(ety, e, data, off + i * es)
            return
        raise Unsupported('init %r' % (v,))

    # ------------------------------------------------------------ decode
    def fn(self, name):
        name = self.m.aliases.get(name, name)
        f = self.decoded.get(name)
        if f is not None:
            return f
        f = self.m.fns.get(name)
        if f is None:
            return None
        regs = {}

        def reg(r):
            i = regs.get(r)
            if i is None:
                i = regs[r] = len(regs)
            return i
        for p in f.params:
            reg(p)
        f.ins = []
        f.phis = []
        for b in f.blocks:
            lst = []
            ph = []
            for s in b:
                x = ir.parse_ins(self.m, s)
                if x[0] == 'phi':
                    ph.append(x)
                elif x[0] != 'nop':
                    lst.append(x)
            f.ins.append(lst)
            f.phis.append(ph)
        for ph, lst in zip(f.phis, f.ins):
            for x in ph:
                reg(x[1])
            for x in lst:
                if x[0] not in ('store', 'br', 'jmp', 'switch', 'ret', 'unreachable', 'resume') and x[1]:
                    reg(x[1])
        f.regs = regs
        f.nregs = len(regs)
        f.rw = [64] * len(regs)
        for r, ty in zip(f.params, f.pty):
            if ty.__class__ is tuple and ty[0] == 'i':
                f.rw[regs[r]] = ty[1]
        for x in [y for b in f.ins for y in b] + [y for b in f.phis for y in b]:
            if x[0] in ('load', 'phi', 'select', 'call'):
                ty = x[2]
            elif x[0] == 'bin':
                ty = x[3]
            elif x[0] == 'icmp':
                ty = ('i', 1)
            elif x[0] == 'cast':
                ty = x[-1]
            else:
                continue
            if x[1] in regs and ty.__class__ is tuple and ty[0] == 'i':
                f.rw[regs[x[1]]] = ty[1]
        f.segs = {}
        f.phic = {}
        f.succ = []
        for lst in f.ins:
            x = lst[-1]
            if x[0] == 'jmp':
                s = [f.labels[x[1]]]
            elif x[0] == 'br':
                s = [f.labels[x[2]], f.labels[x[3]]]
            elif x[0] == 'switch':
                s = [f.labels[x[3]]] + [f.labels[l] for _, l in x[4]]
            elif x[0] == 'call' and x[5]:
                s = [f.labels[x[5]], f.labels[x[6]]]
            else:
                s = []
            f.succ.append(s)
        f.ipd = None
        self.decoded[name] = f
        return f

    def ipdom(self, f, b):
        if f.ipd is None:
            f.ipd = _ipdoms(f)
        return f.ipd.get(b)

    def seg(self, f, blk, pc):
        k = (blk, pc)
        s = f.segs.get(k)
        if s is None:
            s = f.segs[k] = Gen(self, f).gen(blk, pc)
        return s

    def phifn(self, f, blk, prev):
        k = (blk, prev)
        s = f.phic.get(k)
        if s is None:
            s = f.phic[k] = Gen(self, f).genphi(blk, prev)
        return s


def _head(d):
    # demangled name without template return types / args: cut at the parameter list
    depth = 0
    i = 0
    d0 = d
    # drop a leading return type of template functions: keep last space-separated token outside <>
    res = []
    for ch in d:
        if ch == '<':
            depth += 1
        elif ch == '>':
            depth -= 1
        if ch == '(' and depth == 0:
            if d[i:i + 21] == '(anonymous namespace)':
                res.append(ch)
                i += 1
                depth += 0
                # let the anonymous namespace pass
                rest = d[i:]
                j = rest.index(')')
                return _head2(''.join(res) + rest[:j + 1] + _cut(rest[j + 1:]))
            break
        res.append(ch)
        i += 1
    return _head2(''.join(res))


def _cut(s):
    depth = 0
    out = []
    for ch in s:
        if ch == '<':
            depth += 1
        elif ch == '>':
            depth -= 1
        if ch == '(' and depth == 0:
            break
        out.append(ch)
    return ''.join(out)


def _head2(s):
    depth = 0
    last = 0
    for i, ch in enumerate(s):
        if ch == '<':
            depth += 1
        elif ch == '>':
            depth -= 1
        elif ch == ' ' and depth == 0 and 'operator' not in s[:i] and 'anonymous' not in s[max(0, i - 10):i]:
            last = i + 1
    return s[last:]


def _ipdoms(f):
    """immediate post-dominators over the intra-function CFG (exit = -1).
    Edges to landing pads are ignored (exceptional flow ends a merge region)."""
    n = len(f.ins)
    succ = []
    for i, lst in enumerate(f.ins):
        x = lst[-1]
        s = list(f.succ[i])
        if x[0] == 'call' and x[5]:
            s = [s[0]]
        succ.append(s)
    # blocks that cannot reach a ret are dropped
    good = set(i for i, lst in enumerate(f.ins) if lst[-1][0] == 'ret')
    ch = True
    while ch:
        ch = False
        for i in range(n):
            if i not in good and any(s in good for s in succ[i]):
                good.add(i)
                ch = True
    pd = {i: set(range(n)) | {-1} for i in good}
    for i in good:
        if f.ins[i][-1][0] == 'ret':
            pd[i] = {i, -1}
    ch = True
    order = sorted(good, reverse=True)
    while ch:
        ch = False
        for i in order:
            ss = [s for s in succ[i] if s in good]
            if not ss or f.ins[i][-1][0] == 'ret':
                continue
            x = set.intersection(*[pd[s] for s in ss]) | {i}
            if x != pd[i]:
                pd[i] = x
                ch = True
    out = {}
    for i in good:
        c = pd[i] - {i}
        best = None
        for x in c:
            if x == -1:
                continue
            # ipdom: the candidate post-dominated by all other candidates
            if pd[x] >= c - {x} and pd[x] | {x} >= c:
                best = x
        out[i] = best
    return out


# ---------------------------------------------------------------- code generation

class Gen:
    def __init__(self, prog, f):
        self.p = prog
        self.m = prog.m
        self.f = f
        self.pool = {}
        self.L = []

    def const(self, v):
        n = 'K%d' % len(self.pool)
        self.pool[n] = v
        return n

    def o(self, op, ty=None):
        """python expression for an operand"""
        k = op[0]
        if k == 'r':
            return 'R[%d]' % self.f.regs[op[1]]
        if k == 'c':
            return str(op[1])
        if k == 'g':
            return str(self.p.addr(op[1], op[2]))
        if k == 'z':
            return self.zero(ty or op[1])
        if k == 'u':
            t = self.m.res(op[1])
            if t[0] in ('i', 'p') and not getattr(self, 'noundef', False):
                return 'fresh("undef",%d)' % self.m.bits(t)
            return self.zero(t)
        if k == 'agg':
            t = self.m.res(ty)
            if t[0] == 'v':
                v = 0
                eb = self.m.bits(t[2])
                for i, (ety, e) in enumerate(op[1]):
                    if e[0] == 'c':
                        v |= e[1] << (i * eb)
                    elif e[0] not in ('u', 'z'):
                        raise Unsupported('vector constant')
                return str(v)
            if t[0] == 's':
                return '(' + ''.join(self.o(e, ety) + ',' for ety, e in op[1]) + ')'
        raise Unsupported('operand %r' % (op,))

    def zero(self, t):
        t = self.m.res(t)
        if t[0] == 's':
            return '(' + ''.join(self.zero(e) + ',' for e in t[1]) + ')'
        return '0'

    def gen(self, blk, pc):
        L = self.L
        ins = self.f.ins[blk]
        L.append('def seg(S,R):')
        i = pc
        n = len(ins)
        while i < n:
            x = ins[i]
            r = self.ins(x, i, blk)
            if r == 'end':
                break
            i += 1
        src = '\n '.join(L)
        g = dict(ENV)
        g.update(self.pool)
        exec(compile(src, self.f.name, 'exec'), g)
        return g['seg']

    def genphi(self, blk, prev):
        lab = [l for l, b in self.f.labels.items() if b == prev][0]
        es = []
        ds = []
        for x in self.f.phis[blk]:
            for v, l in x[3]:
                if l == lab:
                    ds.append('R[%d]' % self.f.regs[x[1]])
                    es.append(self.o(v, x[2]))
                    break
            else:
                raise Exception('phi')
        if not ds:
            return None
        src = 'def seg(S,R):\n ' + ','.join(ds) + '=' + ','.join(es)
        g = dict(ENV)
        g.update(self.pool)
        exec(src, g)
        return g['seg']

    def d(self, name):
        return 'R[%d]' % self.f.regs[name]

    def ins(self, x, i, blk):
        L = self.L
        k = x[0]
        m = self.m
        if k == 'bin':
            _, dst, op, ty, a, b = x
            ty = m.res(ty)
            A, B = self.o(a, ty), self.o(b, ty)
            w = m.bits(ty)
            D = self.d(dst)
            mask = (1 << w) - 1
            if ty[0] == 'v' and op not in ('xor', 'and', 'or'):
                n, e = ty[1], m.bits(ty[2])
                L.append('%s=vbin(%r,%d,%d,%s,%s)' % (D, op, n, e, A, B))
                return
            if op in ('add', 'sub', 'mul'):
                sym = {'add': '+', 'sub': '-', 'mul': '*'}[op]
                L.append('a=%s;b=%s' % (A, B))
                L.append('%s=(a%sb)&%d if a.__class__ is int and b.__class__ is int else %s(%d,a,b)' % (D, sym, mask, op, w))
            elif op in ('xor', 'and', 'or'):
                sym = {'xor': '^', 'and': '&', 'or': '|'}[op]
                fn = {'xor': 'xor', 'and': 'and_', 'or': 'or_'}[op]
                L.append('a=%s;b=%s' % (A, B))
                L.append('%s=a%sb if a.__class__ is int and b.__class__ is int else %s(%d,a,b)' % (D, sym, fn, w))
            elif op in ('shl', 'lshr', 'ashr'):
                L.append('%s=%s(%d,%s,%s)' % (D, op, w, A, B))
            elif op in ('udiv', 'urem', 'sdiv', 'srem'):
                L.append('b=%s' % B)
                L.append('S.ipc=%d' % i)
                L.append('chkdiv(S,%d,b)' % w)
                L.append('%s=%s(%d,%s,b)' % (D, op, w, A))
            else:
                raise Unsupported(op)
        elif k == 'icmp':
            _, dst, pred, ty, a, b = x
            ty = m.res(ty)
            A, B = self.o(a, ty), self.o(b, ty)
            D = self.d(dst)
            if ty[0] == 'v':
                L.append('%s=vicmp(%r,%d,%d,%s,%s)' % (D, pred, ty[1], m.bits(ty[2]), A, B))
                return
            w = m.bits(ty)
            if pred in ('eq', 'ne', 'ult', 'ule', 'ugt', 'uge'):
                sym = {'eq': '==', 'ne': '!=', 'ult': '<', 'ule': '<=', 'ugt': '>', 'uge': '>='}[pred]
                sw = pred in ('ugt', 'uge')
                fn = {'ugt': 'ult', 'uge': 'ule'}.get(pred, pred)
                L.append('a=%s;b=%s' % (A, B))
                L.append('%s=(1 if a%sb else 0) if a.__class__ is int and b.__class__ is int else %s(%d,%s)' % (
                    D, sym, fn, w, 'b,a' if sw else 'a,b'))
            else:
                fn = {'slt': 'slt', 'sle': 'sle', 'sgt': 'slt', 'sge': 'sle'}[pred]
                if pred in ('sgt', 'sge'):
                    A, B = B, A
                L.append('%s=%s(%d,%s,%s)' % (D, fn, w, A, B))
        elif k == 'cast':
            _, dst, op, ty, a, ty2 = x
            ty, ty2 = m.res(ty), m.res(ty2)
            A = self.o(a, ty)
            D = self.d(dst)
            if op in ('bitcast', 'ptrtoint', 'inttoptr'):
                w1, w2 = m.bits(ty), m.bits(ty2)
                if w1 == w2:
                    L.append('%s=%s' % (D, A))
                elif w1 > w2:
                    L.append('%s=extract(%s,0,%d)' % (D, A, w2))
                else:
                    L.append('%s=zext(%d,%s,%d)' % (D, w2, A, w1))
            elif ty[0] == 'v':
                L.append('%s=vcast(%r,%d,%d,%d,%s)' % (D, op, ty[1], m.bits(ty[2]), m.bits(ty2[2]), A))
            else:
                w1, w2 = m.bits(ty), m.bits(ty2)
                if op == 'trunc':
                    L.append('a=%s' % A)
                    L.append('%s=a&%d if a.__class__ is int else extract(a,0,%d)' % (D, (1 << w2) - 1, w2))
                elif op == 'zext':
                    L.append('a=%s' % A)
                    L.append('%s=a if a.__class__ is int else zext(%d,a,%d)' % (D, w2, w1))
                else:
                    L.append('%s=sext(%d,%s,%d)' % (D, w2, A, w1))
        elif k == 'load':
            _, dst, ty, p = x
            ty = m.res(ty)
            n = m.size(ty)
            L.append('S.ipc=%d' % i)
            if ty[0] == 's':
                L.append('%s=loadagg(S,%s,%s)' % (self.d(dst), self.const((m, ty)), self.o(p)))
            elif ty[0] == 'i' and ty[1] != 8 * n:
                L.append('%s=extract(S.load(%s,%d),0,%d)' % (self.d(dst), self.o(p), n, ty[1]))
            else:
                L.append('%s=S.load(%s,%d)' % (self.d(dst), self.o(p), n))
        elif k == 'store':
            _, ty, v, p = x
            ty = m.res(ty)
            n = m.size(ty)
            L.append('S.ipc=%d' % i)
            V = self.o(v, ty)
            if ty[0] == 's':
                L.append('storeagg(S,%s,%s,%s)' % (self.const((m, ty)), V, self.o(p)))
            else:
                if ty[0] == 'i' and ty[1] != 8 * n:
                    V = 'zext(%d,%s,%d)' % (8 * n, V, ty[1])
                L.append('S.store(%s,%s,%d)' % (self.o(p), V, n))
        elif k == 'gep':
            _, dst, ty, base, idx = x
            off = 0
            dyn = []
            cur = None
            for j, (it, o) in enumerate(idx):
                if j == 0:
                    sz = m.size(ty)
                    cur = m.res(ty)
                elif cur[0] == 's':
                    off += m.layout(cur)[0][o[1]]
                    cur = m.res(cur[1][o[1]])
                    continue
                else:
                    sz = m.size(cur[2])
                    cur = m.res(cur[2])
                if o[0] == 'c':
                    v = o[1]
                    w = m.bits(it)
                    if v >> (w - 1):
                        v -= 1 << w
                    off += v * sz
                elif o[0] in ('z',):
                    pass
                else:
                    dyn.append((self.o(o, it), m.bits(it), sz))
            D = self.d(dst)
            B = self.o(base)
            if not dyn:
                if off == 0:
                    L.append('%s=%s' % (D, B))
                else:
                    L.append('a=%s' % B)
                    L.append('%s=(a+%d)&M64 if a.__class__ is int else add(64,a,%d)' % (D, off, off & M64))
            else:
                L.append('a=%s' % B)
                for e, w, sz in dyn:
                    L.append('b=%s' % e)
                    if w < 64:
                        L.append('b=sext(64,b,%d)' % w)
                    L.append('a=(a+b*%d)&M64 if a.__class__ is int and b.__class__ is int else add(64,a,mul(64,b,%d))' % (sz, sz))
                if off:
                    L.append('a=add(64,a,%d)' % (off & M64))
                L.append('%s=a' % D)
        elif k == 'alloca':
            _, dst, ty, n = x
            sz = m.size(ty)
            if n is not None:
                c = n[1]
                if c[0] != 'c':
                    raise Unsupported('dynamic alloca')
                sz *= c[1]
            L.append('%s=a=S.alloc(%d,"stack")' % (self.d(dst), sz))
            L.append('S.frames[-1].allocas.append(a>>32)')
        elif k == 'jmp':
            L.append('return %d' % self.f.labels[x[1]])
            return 'end'
        elif k == 'br':
            L.append('c=%s' % self.o(x[1]))
            a, b = self.f.labels[x[2]], self.f.labels[x[3]]
            L.append('if c.__class__ is int: return %d if c else %d' % (a, b))
            L.append('S.ipc=%d' % i)
            L.append('return ("b",c,%d,%d)' % (a, b))
            return 'end'
        elif k == 'switch':
            _, ty, v, dflt, cs = x
            L.append('c=%s' % self.o(v, ty))
            tab = {c: self.f.labels[l] for c, l in cs}
            K = self.const(tab)
            d = self.f.labels[dflt]
            L.append('if c.__class__ is int: return %s.get(c,%d)' % (K, d))
            L.append('S.ipc=%d' % i)
            L.append('return ("s",c,%d,%s,%d)' % (m.bits(ty), K, d))
            return 'end'
        elif k == 'ret':
            if x[1] is None:
                L.append('return ("r",None)')
            else:
                L.append('return ("r",%s)' % self.o(x[2], x[1]))
            return 'end'
        elif k == 'select':
            _, dst, cty, c, ty, a, b = x
            cty = m.res(cty)
            ty = m.res(ty)
            if cty[0] == 'v':
                L.append('%s=vselect(%d,%d,%s,%s,%s)' % (self.d(dst), ty[1], m.bits(ty[2]), self.o(c, cty), self.o(a, ty), self.o(b, ty)))
            else:
                L.append('%s=ite(%d,%s,%s,%s)' % (self.d(dst), m.bits(ty), self.o(c), self.o(a, ty), self.o(b, ty)))
        elif k == 'call':
            return self.call(x, i)
        elif k == 'unreachable':
            L.append('return ("u",)')
            return 'end'
        elif k == 'xval':
            _, dst, ty, a, idx = x
            L.append('%s=%s%s' % (self.d(dst), self.o(a, ty), ''.join('[%d]' % j for j in idx)))
        elif k == 'ival':
            _, dst, ty, a, ety, e, idx = x
            if len(idx) != 1:
                raise Unsupported('insertvalue')
            self.noundef = True
            A = self.o(a, ty)
            self.noundef = False
            L.append('a=list(%s);a[%d]=%s;%s=tuple(a)' % (A, idx[0], self.o(e, ety), self.d(dst)))
        elif k == 'xelt':
            _, dst, ty, a, ix = x
            ty = m.res(ty)
            e = m.bits(ty[2])
            L.append('%s=extract(%s,%s*%d,%d)' % (self.d(dst), self.o(a, ty), self.o(ix), e, e))
        elif k == 'ielt':
            _, dst, ty, a, v, ix = x
            ty = m.res(ty)
            e = m.bits(ty[2])
            self.noundef = True
            A = self.o(a, ty)
            self.noundef = False
            L.append('%s=vins(%d,%d,%s,%s,%s)' % (self.d(dst), ty[1], e, A, self.o(v, ty[2]), self.o(ix)))
        elif k == 'shuf':
            _, dst, ty, a, b, mty, mk = x
            ty = m.res(ty)
            e = m.bits(ty[2])
            nm = mty[1]
            if mk[0] == 'z':
                mm = [0] * nm
            else:
                mm = [0 if q[1][0] == 'u' else q[1][1] for q in mk[1]]
            L.append('%s=vshuf(%d,%d,%s,%s,%s)' % (self.d(dst), ty[1], e, self.o(a, ty), self.o(b, ty), tuple(mm)))
        elif k == 'lpad':
            cl = []
            for c in x[2]:
                nm = self.m.aliases.get(c[1][1], c[1][1]) if len(c) > 1 and c[1][0] == 'g' else ''
                ad = int(self.o(c[1], ('p',))) if len(c) > 1 and c[1][0] in ('c', 'g') else 0
                cl.append((c[0], nm, ad))
            L.append('%s=lpad(S,%s,%s)' % (self.d(x[1]), self.const(cl), self.const({k: v for v, k in self.p.gids.items()})))
        elif k == 'resume':
            L.append('return ("x",%s)' % self.o(x[1]))
            return 'end'
        else:
            raise Unsupported(k)

    def call(self, x, i):
        L = self.L
        _, dst, ty, callee, args, nb, ub = x
        A = '[' + ','.join(self.o(o, t) for t, o in args) + ']'
        D = self.f.regs[dst] if dst else None
        nbi = self.f.labels[nb] if nb else None
        ubi = self.f.labels[ub] if ub else None
        m = self.m
        if callee[0] == 'asm':
            if callee[1].find('""') >= 0 or 'memory' in callee[1]:
                return
            raise Unsupported('asm ' + callee[1])
        if callee[0] == 'g':
            name = self.m.aliases.get(callee[1], callee[1])
            if name.startswith('@llvm.'):
                h = INTRIN(name, m, ty, args)
                if h is None:
                    return
                K = self.const(h)
                L.append('S.ipc=%d' % i)
                if D is None:
                    L.append('%s(S,%s)' % (K, A))
                else:
                    L.append('R[%d]=%s(S,%s)' % (D, K, A))
                return
            L.append('S.ipc=%d' % i)
            L.append('return ("c",%r,%s,%r,%d,%r,%r)' % (name, A, D, i + 1, nbi, ubi))
            return 'end'
        L.append('S.ipc=%d' % i)
        L.append('return ("c",%s,%s,%r,%d,%r,%r)' % (self.o(callee), A, D, i + 1, nbi, ubi))
        return 'end'


# ---------------------------------------------------------------- vector helpers

def vbin(op, n, e, a, b):
    f = BIN[op]
    if a.__class__ is int and b.__class__ is int:
        m = (1 << e) - 1
        r = 0
        for i in range(n):
            r |= f(e, (a >> (i * e)) & m, (b >> (i * e)) & m) << (i * e)
        return r
    return tm.concat([(f(e, tm.extract(a, i * e, e), tm.extract(b, i * e, e)), e) for i in range(n - 1, -1, -1)])


BIN = dict(add=tm.add, sub=tm.sub, mul=tm.mul, shl=tm.shl, lshr=tm.lshr, ashr=tm.ashr, udiv=tm.udiv, urem=tm.urem)
BIN['and'] = tm.and_
BIN['or'] = tm.or_
BIN['xor'] = tm.xor


def icmp(pred, w, a, b):
    return {'eq': tm.eq, 'ne': tm.ne, 'ult': tm.ult, 'ule': tm.ule, 'slt': tm.slt, 'sle': tm.sle}[pred](w, a, b) if pred[1:] not in ('gt', 'ge') \
        else {'ugt': tm.ult, 'uge': tm.ule, 'sgt': tm.slt, 'sge': tm.sle}[pred](w, b, a)


def vicmp(pred, n, e, a, b):
    return tm.concat([(icmp(pred, e, tm.extract(a, i * e, e), tm.extract(b, i * e, e)), 1) for i in range(n - 1, -1, -1)])


def vcast(op, n, e1, e2, a):
    if op == 'trunc':
        return tm.concat([(tm.extract(a, i * e1, e2), e2) for i in range(n - 1, -1, -1)])
    f = tm.zext if op == 'zext' else tm.sext
    return tm.concat([(f(e2, tm.extract(a, i * e1, e1), e1), e2) for i in range(n - 1, -1, -1)])


def vselect(n, e, c, a, b):
    return tm.concat([(tm.ite(e, tm.extract(c, i, 1), tm.extract(a, i * e, e), tm.extract(b, i * e, e)), e) for i in range(n - 1, -1, -1)])


def vins(n, e, a, v, ix):
    if ix.__class__ is not int:
        raise Unsupported('insertelement index')
    return tm.concat([(v if i == ix else tm.extract(a, i * e, e), e) for i in range(n - 1, -1, -1)])


def vshuf(n, e, a, b, mask):
    return tm.concat([(tm.extract(a, j * e, e) if j < n else tm.extract(b, (j - n) * e, e), e) for j in reversed(mask)])


def chkdiv(S, w, b):
    if b.__class__ is int:
        if b == 0:
            raise MemErr('division by zero')
    else:
        c = tm.eq(w, b, 0)
        if S.ex.feasible(S, c):
            raise MemErr('division by zero', c)


def loadagg(S, mt, p):
    m, ty = mt
    offs, _ = m.layout(ty)
    out = []
    for e, o in zip(ty[1], offs):
        e = m.res(e)
        if e[0] == 's':
            out.append(loadagg(S, (m, e), tm.add(64, p, o)))
        else:
            v = S.load(tm.add(64, p, o), m.size(e))
            if e[0] == 'i' and e[1] != 8 * m.size(e):
                v = tm.extract(v, 0, e[1])
            out.append(v)
    return tuple(out)


def storeagg(S, mt, v, p):
    m, ty = mt
    offs, _ = m.layout(ty)
    for e, o, x in zip(ty[1], offs, v):
        e = m.res(e)
        if e[0] == 's':
            storeagg(S, (m, e), x, tm.add(64, p, o))
        else:
            n = m.size(e)
            if e[0] == 'i' and e[1] != 8 * n:
                x = tm.zext(8 * n, x, e[1])
            S.store(tm.add(64, p, o), x, n)


STDBASE = {'St13runtime_error': 'St9exception', 'St11logic_error': 'St9exception', 'St16invalid_argument': 'St11logic_error',
           'St12length_error': 'St11logic_error', 'St12out_of_range': 'St11logic_error', 'St12domain_error': 'St11logic_error',
           'St11range_error': 'St13runtime_error', 'St14overflow_error': 'St13runtime_error', 'St15underflow_error': 'St13runtime_error',
           'St9bad_alloc': 'St9exception'}


def lpad(S, clauses, names):
    """exception object pointer and selector: the first matching catch clause, 0 for a cleanup"""
    exc = S.exc
    S.exc = None
    sel = 0
    tn = names.get((S.data.get('exc_types') or {}).get(exc, 0) >> 32, '').strip('@')
    if tn.startswith('_ZTI'):
        tn = tn[4:]
    for k, nm, ad in clauses:
        if k == 'catch':
            if ad == 0:
                sel = 1
                break
            want = nm.strip('@')[4:]
            t = tn
            while t and t != want:
                t = STDBASE.get(t)
            if t == want:
                sel = ad >> 32 & 0xffffffff
                break
    S.data['cur_exc'] = exc
    return (exc, sel)


ENV = dict(add=tm.add, sub=tm.sub, mul=tm.mul, xor=tm.xor, and_=tm.and_, or_=tm.or_, shl=tm.shl, lshr=tm.lshr,
           ashr=tm.ashr, udiv=tm.udiv, urem=tm.urem, sdiv=tm.sdiv, srem=tm.srem, eq=tm.eq, ne=tm.ne, ult=tm.ult,
           ule=tm.ule, slt=tm.slt, sle=tm.sle, extract=tm.extract, zext=tm.zext, sext=tm.sext, ite=tm.ite,
           fresh=tm.fresh, M64=M64, vbin=vbin, vicmp=vicmp, vcast=vcast, vselect=vselect, vins=vins, vshuf=vshuf,
           chkdiv=chkdiv, loadagg=loadagg, storeagg=storeagg, lpad=lpad)


def INTRIN(name, m, ty, args):
    from . import intrin
    return intrin.get(name, m, ty, args)


# ---------------------------------------------------------------- executor

class Path:
    """a finished path"""

    def __init__(self, st, kind, info=None):
        self.st = st
        self.kind = kind      # 'ret' | 'throw' | 'error' | other (Halt)
        self.info = info


class Ex:
    def __init__(self, prog, budget=600):
        self.prog = prog
        self.hooks = {}
        self.pres = {}
        self.mergers = []
        self.forkers = []
        self.merge_all = False
        self.check_branches = True
        self.deadline = time.time() + budget
        self.stats = dict(blocks=0, forks=0, merges=0, queries=0, solver_s=0.0, paths=0, fns={})
        self._solver = None
        self._stack = []
        self.conv = None
        self.conc_limit = 300
        self.max_paths = 20000
        self._mergec = {}
        self.qtimeout = 20000
        from . import intrin
        intrin.install(self)

    # ------------------------------------------------------------ hooks
    def hook(self, rx, fn, required=True):
        ns = self.prog.find(rx)
        if not ns and required:
            raise Unsupported('no function matches ' + rx)
        for n in ns:
            self.hooks[n] = fn
        return ns

    def pre(self, rx, fn):
        n0 = len(self.pres)
        for n in self.prog.find(rx):
            self.pres[n] = fn
        if len(self.pres) == n0:
            raise Unsupported('no function matches ' + rx)

    def unhook(self, rx):
        for n in self.prog.find(rx):
            self.hooks.pop(n, None)

    def merge(self, rx):
        self.mergers.append(re.compile(rx))
        self._mergec = {}

    def fork(self, rx):
        self.forkers.append(re.compile(rx))
        self._mergec = {}

    def is_merge(self, f):
        r = self._mergec.get(f.name)
        if r is None:
            h = _head(self.prog.dem.get(f.name, f.name))
            r = (self.merge_all or any(x.fullmatch(h) for x in self.mergers)) and not any(x.fullmatch(h) for x in self.forkers)
            self._mergec[f.name] = r
        return r

    # ------------------------------------------------------------ solver
    def solver(self):
        if self._solver is None:
            import z3
            self.z3 = z3
            self._solver = z3.SolverFor('QF_BV') if not getattr(self, 'use_uf', False) else z3.Solver()
            self._solver.set('timeout', self.qtimeout)
            self.conv = tm.Z3Conv()
        return self._solver

    def sync(self, st):
        s = self.solver()
        cs = st.conds()
        k = 0
        while k < len(cs) and k < len(self._stack) and self._stack[k] is cs[k]:
            k += 1
        while len(self._stack) > k:
            s.pop()
            self._stack.pop()
        for c in cs[k:]:
            s.push()
            s.add(self.conv.b(c))
            self._stack.append(c)
        return s

    def check(self, st, *extra):
        """'sat' | 'unsat' | 'unknown' for path condition and extra"""
        for e in extra:
            if e.__class__ is int and not e:
                return 'unsat'
        t0 = time.time()
        if t0 > self.deadline:
            raise Deadline()
        s = self.sync(st)
        s.push()
        for e in extra:
            if e.__class__ is not int:
                s.add(self.conv.b(e))
        r = str(s.check())
        self.model = s.model() if r == 'sat' else None
        s.pop()
        self.stats['queries'] += 1
        self.stats['solver_s'] += time.time() - t0
        return r

    def feasible(self, st, c):
        if c.__class__ is int:
            return bool(c)
        n = tm.not_(c)
        q = st.pc
        while q:
            if q[1] is c:
                return True         # the path condition itself is satisfiable
            if q[1] is n:
                return False
            q = q[0]
        return self.check(st, c) != 'unsat'

    def values(self, st, t, limit):
        """all feasible values of term t under the path condition (None if more than limit)"""
        t0 = time.time()
        s = self.sync(st)
        s.push()
        z = self.conv(t)
        out = []
        while True:
            if time.time() > self.deadline:
                s.pop()
                raise Deadline()
            r = s.check()
            self.stats['queries'] += 1
            if str(r) == 'unknown':
                s.pop()
                raise Unsupported('solver gave up while enumerating a value')
            if str(r) != 'sat':
                break
            v = s.model().eval(z, model_completion=True).as_long()
            out.append(v)
            if len(out) > limit:
                s.pop()
                return None
            s.add(z != v)
        s.pop()
        self.stats['solver_s'] += time.time() - t0
        return sorted(out)

    # ------------------------------------------------------------ running
    def start(self, fname, args, st=None):
        """state about to run function fname (demangled regex or symbol)"""
        st = st or State(self)
        f = self.prog.fn(fname)
        if f is None:
            ns = [n for n in self.prog.find(fname) if n in self.prog.m.fns]
            if len(ns) != 1:
                raise Unsupported('function %s: %d matches' % (fname, len(ns)))
            f = self.prog.fn(ns[0])
        fr = Frame(f)
        for i, a in enumerate(args):
            fr.R[i] = a
        fr.dst = 'top'
        st.frames.append(fr)
        return st

    def run_ctors(self, st):
        for c in self.prog.m.ctors:
            st = self.start(c, [], st)
            ps = self.run(st)
            if len(ps) != 1 or ps[0].kind != 'ret':
                raise Unsupported('static constructor')
            st = ps[0].st
        return st

    def call(self, st, fname, args):
        """run to completion, return list of Path; st must have no frames"""
        return self.run(self.start(fname, args, st))

    def call1(self, st, fname, args):
        ps = self.call(st, fname, args)
        if len(ps) != 1 or ps[0].kind != 'ret':
            raise Unsupported('%s: expected a single returning path, got %s' % (fname, [(p.kind, str(p.info)) for p in ps]))
        return ps[0].st

    def run(self, st):
        self.done = []
        base = len(st.frames) - 1
        self._run(st, base, None, None)
        d = self.done
        self.done = []
        self.stats['paths'] += len(d)
        return d

    def _run(self, st0, depth, stopblk, joined):
        """run st0 and everything forked from it until each path either leaves
        frame index `depth` (finished) or reaches stopblk in that frame (appended
        to `joined`)."""
        work = [st0]
        while work:
            st = work.pop()
            try:
                r = self._path(st, depth, stopblk, work)
            except Halt as h:
                self.done.append(Path(st, h.kind, h.info))
                continue
            if r == 'join':
                joined.append(st)
            if len(self.done) + len(work) > self.max_paths:
                raise Deadline('too many paths')

    def _finish(self, st, kind, info=None):
        self.done.append(Path(st, kind, info))
        return 'done'

    def _throw(self, st, depth, excobj):
        """unwind"""
        while True:
            fr = st.frames.pop()
            for k in fr.allocas:
                st.objs[k] = None
            if not st.frames or fr.dst == 'top':
                st.exc = excobj
                return False
            if fr.ub is not None:
                caller = st.frames[-1]
                caller.prev = caller.blk
                caller.blk = fr.ub
                caller.pc = 0
                st.exc = excobj
                return True

    def _path(self, st, depth, stopblk, work):
        prog = self.prog
        hooks = self.hooks
        stats = self.stats
        nblk = 0
        newblock = False
        while True:
            fr = st.frames[-1]
            f = fr.fn
            nblk += 1
            if nblk & 0x3ff == 0 and time.time() > self.deadline:
                raise Deadline()
            pc = fr.pc
            blk = fr.blk
            if pc == 0 and stopblk is not None and blk == stopblk and len(st.frames) == depth + 1:
                stats['blocks'] += nblk
                return 'join'
            if pc == 0 and f.phis[blk]:
                ph = f.phic.get((blk, fr.prev)) or prog.phifn(f, blk, fr.prev)
                ph(st, fr.R)
            seg = f.segs.get((blk, pc))
            if seg is None:
                try:
                    seg = prog.seg(f, blk, pc)
                except Exception as e:
                    raise Unsupported('%s in %s' % (e, f.name))
            try:
                act = seg(st, fr.R)
            except NeedConc as e:
                self._concretize(st, e.t, work, fr)
                stats['blocks'] += nblk
                return 'forked'
            except MemErr as e:
                stats['blocks'] += nblk
                return self._memerr(st, e, work, fr)
            except Throw as e:
                if not self._throw(st, depth, e.obj):
                    return self._finish(st, 'throw')
                continue
            if act.__class__ is int:
                fr.prev = blk
                fr.blk = act
                fr.pc = 0
                continue
            k = act[0]
            if k == 'c':
                _, callee, args, dst, npc, nb, ub = act
                if callee.__class__ is not str:
                    if callee.__class__ is not int:
                        raise Unsupported('symbolic call target')
                    nm = prog.fids.get(callee >> 32)
                    if nm is None:
                        self._finish(st, 'error', 'call through a bad function pointer %#x in %s' % (callee, f.name))
                        return 'done'
                    callee = nm
                if callee in self.pres:
                    # a stated restriction of the explored inputs: the path goes on only where it holds
                    try:
                        c = self.pres[callee](self, st, args)
                    except NeedConc as e:
                        fr.pc = st.ipc
                        self._concretize(st, e.t, work, fr)
                        return 'forked'
                    if c is not None:
                        if c.__class__ is int:
                            if not c:
                                return 'done'
                        elif not self.feasible(st, c):
                            return 'done'
                        else:
                            st.assume(c)
                h = hooks.get(callee)
                if h is not None:
                    try:
                        rv = h(self, st, args)
                    except NeedConc as e:
                        fr.pc = st.ipc
                        self._concretize(st, e.t, work, fr)
                        return 'forked'
                    except MemErr as e:
                        return self._memerr(st, e, work, fr)
                    except Throw as e:
                        if ub is not None:
                            fr.prev = blk
                            fr.blk = ub
                            fr.pc = 0
                            st.exc = e.obj
                            continue
                        if not self._throw(st, depth, e.obj):
                            return self._finish(st, 'throw')
                        continue
                    if rv.__class__ is Split:
                        # fork with different return values: [(cond, value, fn)]
                        for c, v, act2 in rv.alts:
                            if c.__class__ is int:
                                if not c:
                                    continue
                            elif not self.feasible(st, c):
                                continue
                            s2 = st.clone()
                            s2.assume(c)
                            if act2:
                                act2(s2)
                            f2 = s2.frames[-1]
                            self._cont(f2, dst, v, npc, nb)
                            work.append(s2)
                            stats['forks'] += 1
                        return 'forked'
                    self._cont(fr, dst, rv, npc, nb)
                    continue
                g = prog.fn(callee)
                if g is None:
                    raise Unsupported('call to undefined function %s' % prog.dem.get(callee, callee))
                d = stats['fns']
                d[callee] = d.get(callee, 0) + 1
                if len(st.frames) > 400:
                    self._finish(st, 'error', 'unbounded recursion')
                    return 'done'
                nf = Frame(g)
                R = nf.R
                for i, a in enumerate(args):
                    R[i] = a
                nf.dst = dst
                nf.nb = nb
                nf.ub = ub
                fr.pc = npc
                st.frames.append(nf)
                continue
            if k == 'r':
                fr = st.frames.pop()
                for o in fr.allocas:
                    st.objs[o] = None
                if fr.dst == 'top':
                    st.ret = act[1]
                    stats['blocks'] += nblk
                    return self._finish(st, 'ret', act[1])
                self._cont(st.frames[-1], fr.dst, act[1], st.frames[-1].pc, fr.nb)
                continue
            if k == 'b':
                _, c, a, b = act
                fr.pc = 0
                if self._undef(c):
                    return self._finish(st, 'error', 'branch on uninitialised data in %s' % prog.dem.get(f.name, f.name))
                if self.is_merge(f):
                    if self._merge(st, fr, blk, [(c, a), (tm.not_(c), b)], work):
                        continue
                    stats['blocks'] += nblk
                    return 'forked'
                if a == b:
                    fr.prev = blk
                    fr.blk = a
                    continue
                fa = self.feasible(st, c) if self.check_branches else True
                fb = (self.feasible(st, tm.not_(c)) if fa else True) if self.check_branches else True
                if fa and fb:
                    s2 = st.clone()
                    s2.assume(tm.not_(c))
                    f2 = s2.frames[-1]
                    f2.prev = blk
                    f2.blk = b
                    work.append(s2)
                    stats['forks'] += 1
                    st.assume(c)
                    fr.prev = blk
                    fr.blk = a
                elif fa:
                    fr.prev = blk
                    fr.blk = a
                else:
                    fr.prev = blk
                    fr.blk = b
                continue
            if k == 's':
                _, v, w, tab, dflt = act
                fr.pc = 0
                if self._undef(v):
                    return self._finish(st, 'error', 'branch on uninitialised data in %s' % prog.dem.get(f.name, f.name))
                by = {}
                rest = 1
                for cv, l in tab.items():
                    e = tm.eq(w, v, cv)
                    by[l] = tm.or_(1, by.get(l, 0), e)
                    rest = tm.and_(1, rest, tm.not_(e))
                by[dflt] = tm.or_(1, by.get(dflt, 0), rest)
                alts = [(c, l) for l, c in by.items() if not (c.__class__ is int and not c)]
                if self.is_merge(f):
                    if self._merge(st, fr, blk, alts, work):
                        continue
                    return 'forked'
                first = True
                for c, l in alts:
                    if not self.feasible(st, c):
                        continue
                    s2 = st.clone()
                    s2.assume(c)
                    f2 = s2.frames[-1]
                    f2.prev = blk
                    f2.blk = l
                    work.append(s2)
                    stats['forks'] += 1
                return 'forked'
            if k == 'u':
                return self._finish(st, 'error', 'reached unreachable code in %s' % prog.dem.get(f.name, f.name))
            if k == 'x':
                e = act[1]
                if not self._throw(st, depth, e[0] if e.__class__ is tuple else e):
                    return self._finish(st, 'throw')
                continue
            raise Unsupported('action %r' % (act,))

    def _cont(self, fr, dst, v, npc, nb):
        if dst is not None:
            fr.R[dst] = v
        if nb is not None:
            fr.prev = fr.blk
            fr.blk = nb
            fr.pc = 0
        else:
            fr.pc = npc

    def _undef(self, c):
        u = self.__dict__.setdefault('_uc', {})
        r = u.get(c)
        if r is None:
            if tm.nterms() > 500000 and not self.__dict__.get('track_undef', True):
                return False
            r = _has_undef(c)
            u[c] = r
        return r

    def _memerr(self, st, e, work, fr):
        if e.cond is not None:
            # error happens only under cond; continue the other side
            s2 = st.clone()
            s2.assume(e.cond)
            self._finish(s2, 'error', e.what + ' in ' + self.prog.dem.get(fr.fn.name, fr.fn.name))
            if st.assume(tm.not_(e.cond)) and self.check(st) != 'unsat':
                fr.pc = st.ipc
                work.append(st)
            return 'forked'
        return self._finish(st, 'error', e.what + ' in ' + self.prog.dem.get(fr.fn.name, fr.fn.name))

    def _concretize(self, st, t, work, fr):
        vs = self.values(st, t, self.conc_limit)
        if vs is None:
            raise Unsupported('symbolic address or length with more than %d values: %s in %s' % (
                self.conc_limit, tm.show(t, 3), self.prog.dem.get(fr.fn.name, fr.fn.name)))
        ipc = st.ipc
        for i, v in enumerate(vs):
            s2 = st.clone()
            s2.assume(tm.eq(t.w, t, v))
            s2.conc[t] = v
            s2.frames[-1].pc = ipc
            # registers holding exactly this term become concrete
            for f2 in s2.frames:
                R = f2.R
                for j, x in enumerate(R):
                    if x is t:
                        R[j] = v
            work.append(s2)
            self.stats['forks'] += 1

    # ------------------------------------------------------------ merging
    def _merge(self, st, fr, blk, alts, work):
        """run every alternative to the immediate post-dominator and join them
        back into st (in place).  Returns False if st is dead afterwards."""
        ip = self.prog.ipdom(fr.fn, blk)
        if ip is None:
            # no join point: plain fork
            for c, l in alts:
                if not self.feasible(st, c):
                    continue
                s2 = st.clone()
                s2.assume(c)
                f2 = s2.frames[-1]
                f2.prev = blk
                f2.blk = l
                work.append(s2)
            return False
        depth = len(st.frames) - 1
        res = []
        pc0 = st.pc
        for c, l in alts:
            if getattr(self, 'merge_check', False) and not self.feasible(st, c):
                continue
            s2 = st.clone()
            s2.assume(c)
            f2 = s2.frames[-1]
            f2.prev = blk
            f2.blk = l
            f2.pc = 0
            joined = []
            self._run(s2, depth, ip, joined)
            for j in joined:
                # guard of j relative to pc0
                g = 1
                p = j.pc
                while p is not pc0:
                    g = tm.and_(1, p[1], g)
                    p = p[0]
                # resolve phis of the join block now
                jf = j.frames[-1]
                if jf.fn.phis[ip]:
                    ph = self.prog.phifn(jf.fn, ip, jf.prev)
                    if ph:
                        ph(j, jf.R)
                res.append((g, j))
        if not res:
            return False
        self.stats['merges'] += 1
        if len(res) == 1:
            g, j = res[0]
            self._copyinto(st, j)
            f2 = st.frames[-1]
        else:
            g, acc = res[-1]
            full = g
            for g2, j in reversed(res[:-1]):
                self._join(acc, j, g2)
                full = tm.or_(1, full, g2)
            self._copyinto(st, acc)
            st.pc = pc0
            if not (full.__class__ is int):
                # no new condition when the alternatives cover every case
                if not (getattr(self, 'merge_check', False) and not self.feasible(st, tm.not_(full))):
                    st.assume(full)
        f2 = st.frames[-1]
        f2.blk = ip
        f2.prev = -2    # phis already resolved
        f2.pc = 0
        # emulate "phi done": use a trampoline pc
        if f2.fn.phis[ip]:
            f2.fn.phic[(ip, -2)] = _nophi
        return True

    def _copyinto(self, st, j):
        for n in ('frames', 'objs', 'pc', 'tok', 'nobj', 'conc', 'ipc', 'data', 'exc', 'ret', 'outcome', 'log', 'trail'):
            setattr(st, n, getattr(j, n))

    def _join(self, a, b, cb):
        """a := ite(cb, b, a)"""
        for fa, fb in zip(a.frames, b.frames):
            for i, x in enumerate(fa.R):
                y = fb.R[i]
                if x is y or (x.__class__ is int and y.__class__ is int and x == y):
                    continue
                if x is None or y is None:
                    fa.R[i] = None if x is None and y is None else (x if y is None else y)
                    continue
                fa.R[i] = self._ite(cb, y, x, fa.fn.rw[i])
            fa.allocas = sorted(set(fa.allocas) | set(fb.allocas))
        for k, ob in list(b.objs.items()):
            oa = a.objs.get(k)
            if oa is ob:
                continue
            if ob is None:
                continue
            if oa is None:
                if k in a.objs:
                    continue
                a.objs[k] = ob
                continue
            if oa.data == ob.data if False else False:
                continue
            self._joinobj(a, k, oa, ob, cb)
        a.nobj = max(a.nobj, b.nobj)
        a.conc = {k: v for k, v in a.conc.items() if b.conc.get(k) == v}
        if a.log is not b.log:
            a.logadd(('ite', cb, b.log, a.log))

    def _joinobj(self, st, k, oa, ob, cb):
        da, db = oa.data, ob.data
        diff = [i for i in range(oa.size) if not _same(da[i], db[i])]
        if not diff:
            return
        o = Obj(oa.size, list(da), st.tok, oa.kind)
        st.objs[k] = o
        i = 0
        n = oa.size
        ds = set(diff)
        while diff:
            i = diff[0]
            # chunk width
            w = 1
            for x in (da[i], db[i]):
                if x.__class__ is tuple and x[1] == 0:
                    w = max(w, x[0].w // 8)
            if w == 1 and i % 8 == 0 and i + 8 <= n and all(da[j].__class__ is int and db[j].__class__ is int for j in range(i, i + 8)):
                w = 8
            elif w == 1 and i % 4 == 0 and i + 4 <= n and all(da[j].__class__ is int and db[j].__class__ is int for j in range(i, i + 4)):
                w = 4
            if i + w > n:
                w = 1
            if any(da[j] is None or db[j] is None for j in range(i, i + w)):
                o.data[i] = None
                w = 1
            else:
                va = _cellval(st, da[i:i + w])
                vb = _cellval(st, db[i:i + w])
                v = tm.ite(8 * w, cb, vb, va)
                if v.__class__ is int:
                    o.data[i:i + w] = list(v.to_bytes(w, 'little'))
                elif v.op == 'concat':
                    st.scatter(o.data, i, v, w)
                else:
                    o.data[i:i + w] = [(v, j) for j in range(w)]
            lim = i + w
            diff = [j for j in diff if j >= lim]

    def _ite(self, c, a, b, w=64):
        if a.__class__ is tuple:
            return tuple(self._ite(c, x, y) for x, y in zip(a, b))
        w = a.w if a.__class__ is T else b.w if b.__class__ is T else w
        return tm.ite(w, c, a, b)


def _nophi(S, R):
    pass


def _same(x, y):
    if x is y:
        return True
    if x.__class__ is not y.__class__:
        return False
    if x.__class__ is int:
        return x == y
    if x.__class__ is tuple:
        return x[0] is y[0] and x[1] == y[1]
    return False


def _cellval(st, cs):
    try:
        return int.from_bytes(cs, 'little')
    except TypeError:
        return st.assemble(cs)


_hu = {}


def _has_undef(t):
    if t.__class__ is int:
        return False
    r = _hu.get(t)
    if r is not None:
        return r
    for x in tm.topo([t], None if len(_hu) < 1000 else tm._SeenProxy(_hu)):
        if x.op == 'var':
            _hu[x] = x.a[0].startswith('undef!')
        else:
            _hu[x] = any(_hu[k] for k in tm.kids(x) if k.__class__ is T)
    return _hu[t]


class Split:
    """hook result: fork on alternatives [(cond, value, state-fn or None)]"""

    def __init__(self, alts):
        self.alts = alts
