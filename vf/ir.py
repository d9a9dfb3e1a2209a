"""LLVM textual IR (clang 18, opaque pointers) -> parsed functions."""
import re, subprocess

TOK = re.compile(r'''%"[^"]*"|%[\w.$-]+|@"[^"]*"|@[\w.$-]+|c"[^"]*"|"[^"]*"|\$"[^"]*"|\$[\w.$]+|-?\d+\.\d+e[+-]\d+|0x[0-9A-Fa-f]+|-?\d+|\.\.\.|[A-Za-z_][\w.]*|![\w.]*|\#\d+|[(){}\[\]<>,=*:|+-]''')

OPSTART = {'null', 'undef', 'poison', 'zeroinitializer', 'true', 'false', 'getelementptr', 'inttoptr', 'ptrtoint',
           'bitcast', 'trunc', 'zext', 'sext', 'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', '{', '[', '<', 'none', 'splat', 'dso_local_equivalent', 'no_cfi'}

CONT = re.compile(r'^(      |    i\d+ |  \])')


class Toks:
    def __init__(self, s):
        self.t = TOK.findall(s)
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        r = self.t[self.i]
        self.i += 1
        return r

    def eat(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        r = self.next()
        if r != x:
            raise Exception('expected %s got %s in %s' % (x, r, ' '.join(self.t)))


class Mod:
    def __init__(self):
        self.types = {}
        self.globals = {}   # name -> (type, init-operand or None, const, align)
        self.fns = {}
        self.decls = {}
        self.aliases = {}
        self.ctors = []

    # ------------------------------------------------------------ types
    def ptype(self, t):
        x = t.next()
        if x[0] == 'i' and x[1:].isdigit():
            r = ('i', int(x[1:]))
        elif x == 'ptr':
            r = ('p',)
            if t.peek() == 'addrspace':
                t.next(); t.next(); t.next(); t.next()
        elif x == 'void':
            r = ('void',)
        elif x == '[':
            n = int(t.next())
            t.expect('x')
            e = self.ptype(t)
            t.expect(']')
            r = ('a', n, e)
        elif x == '<':
            if t.peek() == '{':
                t.next()
                el = self._plist(t, '}')
                t.expect('>')
                r = ('s', tuple(el), True)
            else:
                n = int(t.next())
                t.expect('x')
                e = self.ptype(t)
                t.expect('>')
                r = ('v', n, e)
        elif x == '{':
            r = ('s', tuple(self._plist(t, '}')), False)
        elif x[0] == '%':
            r = ('n', x)
        elif x in ('float', 'double', 'half', 'x86_fp80', 'fp128', 'metadata', 'label', 'token', 'opaque'):
            r = (x,)
        else:
            raise Exception('type ' + x + ' in ' + ' '.join(t.t))
        # function type: "i32 (ptr, ...)"
        return r

    def _plist(self, t, end):
        el = []
        if t.eat(end):
            return el
        while True:
            el.append(self.ptype(t))
            if t.eat(end):
                return el
            t.expect(',')

    def res(self, ty):
        while ty[0] == 'n':
            ty = self.types[ty[1]]
        return ty

    def size(self, ty):
        k = ty[0]
        if k == 'i':
            n = ty[1]
            b = (n + 7) // 8
            if n <= 64:
                p = 1
                while p < b:
                    p *= 2
                return p
            return (b + 15) // 16 * 16
        if k == 'p':
            return 8
        if k == 'a':
            return ty[1] * self.size(ty[2])
        if k == 'v':
            e = ty[2]
            bits = ty[1] * (e[1] if e[0] == 'i' else 64)
            return max(1, bits // 8)
        if k == 's':
            return self.layout(ty)[1]
        if k == 'n':
            return self.size(self.res(ty))
        if k == 'float':
            return 4
        if k == 'double':
            return 8
        if k == 'x86_fp80':
            return 16
        raise Exception('size %r' % (ty,))

    def align(self, ty):
        k = ty[0]
        if k in ('i', 'v'):
            return min(self.size(ty), 64)
        if k == 'p':
            return 8
        if k == 'a':
            return self.align(ty[2])
        if k == 's':
            if ty[2]:
                return 1
            return max([1] + [self.align(e) for e in ty[1]])
        if k == 'n':
            return self.align(self.res(ty))
        return self.size(ty)

    def layout(self, ty):
        c = getattr(self, '_lay', None)
        if c is None:
            c = self._lay = {}
        r = c.get(ty)
        if r:
            return r
        off = 0
        offs = []
        for e in ty[1]:
            if not ty[2]:
                a = self.align(e)
                off = (off + a - 1) // a * a
            offs.append(off)
            off += self.size(e)
        if not ty[2]:
            a = self.align(ty)
            off = (off + a - 1) // a * a
        c[ty] = (offs, off)
        return c[ty]

    def bits(self, ty):
        k = ty[0]
        if k == 'i':
            return ty[1]
        if k == 'p':
            return 64
        if k == 'v':
            return ty[1] * self.bits(ty[2])
        if k == 'n':
            return self.bits(self.res(ty))
        if k == 'double':
            return 64
        if k == 'float':
            return 32
        raise Exception('bits %r' % (ty,))

    # ------------------------------------------------------------ operands
    def skip_attrs(self, t):
        while True:
            x = t.peek()
            if x is None or x[0] in '%@' or x in OPSTART or x[0] == '-' or x[0].isdigit() or x.startswith('c"') or x in (',', ')'):
                return
            t.next()
            if x == 'align' and t.peek() and t.peek().isdigit():
                t.next()
            elif t.peek() == '(':
                d = 0
                while True:
                    y = t.next()
                    if y == '(':
                        d += 1
                    elif y == ')':
                        d -= 1
                        if d == 0:
                            break

    def operand(self, t, ty):
        x = t.next()
        c0 = x[0]
        if c0 == '%':
            return ('r', x)
        if c0 == '@':
            return ('g', x, 0)
        if c0 == '-' or (c0.isdigit() and x[:2] != '0x'):
            if ty[0] in ('double', 'float'):
                return ('c', 0)
            n = self.bits(ty)
            return ('c', int(x) & ((1 << n) - 1))
        if x[:2] == '0x':
            return ('c', int(x, 16))
        if x in ('null', 'none'):
            return ('c', 0)
        if x == 'true':
            return ('c', 1)
        if x == 'false':
            return ('c', 0)
        if x in ('undef', 'poison'):
            return ('u', ty)
        if x == 'zeroinitializer':
            return ('z', ty)
        if x.startswith('c"'):
            s = x[2:-1]
            out = []
            i = 0
            while i < len(s):
                if s[i] == '\\' and s[i + 1] == '\\':
                    out.append(0x5c)
                    i += 2
                elif s[i] == '\\':
                    out.append(int(s[i + 1:i + 3], 16))
                    i += 3
                else:
                    out.append(ord(s[i]))
                    i += 1
            return ('str', out)
        if x in ('{', '[', '<'):
            if x == '<' and t.peek() == '{':
                t.next()
                r = self._oplist(t, '}')
                t.expect('>')
                return ('agg', r)
            end = {'{': '}', '[': ']', '<': '>'}[x]
            return ('agg', self._oplist(t, end))
        if x == 'getelementptr':
            while t.peek() != '(':
                y = t.next()
                if y == 'inrange' and t.peek() == '(':
                    while t.next() != ')':
                        pass
            t.next()
            bty = self.ptype(t)
            t.expect(',')
            pty = self.ptype(t)
            base = self.operand(t, pty)
            idx = []
            while t.eat(','):
                t.eat('inrange')
                it = self.ptype(t)
                o = self.operand(t, it)
                v = o[1]
                n = self.bits(it)
                if v >> (n - 1):
                    v -= 1 << n
                idx.append(v)
            t.expect(')')
            off = self.gepoff(bty, idx)
            if base[0] == 'g':
                return ('g', base[1], base[2] + off)
            return ('c', (base[1] + off) & (2**64 - 1))
        if x in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'sext'):
            t.expect('(')
            fty = self.ptype(t)
            o = self.operand(t, fty)
            t.expect('to')
            tty = self.ptype(t)
            t.expect(')')
            if o[0] == 'c' and x == 'trunc':
                return ('c', o[1] & ((1 << self.bits(tty)) - 1))
            return o
        raise Exception('operand %s in %s' % (x, ' '.join(t.t)))

    def _oplist(self, t, end):
        r = []
        if t.eat(end):
            return r
        while True:
            ty = self.ptype(t)
            self.skip_attrs(t)
            r.append((ty, self.operand(t, ty)))
            if t.eat(end):
                return r
            t.expect(',')

    def gepoff(self, ty, idx):
        off = idx[0] * self.size(ty)
        ty = self.res(ty)
        for i in idx[1:]:
            if ty[0] == 's':
                off += self.layout(ty)[0][i]
                ty = self.res(ty[1][i])
            else:
                off += i * self.size(ty[2])
                ty = self.res(ty[2])
        return off

    def tyop(self, t):
        ty = self.ptype(t)
        self.skip_attrs(t)
        return ty, self.operand(t, ty)


class Fn:
    def __init__(self, name):
        self.name = name
        self.params = []
        self.pty = []
        self.blocks = []      # list of instr lists
        self.labels = {}
        self.noexcept = False


def load(path):
    m = Mod()
    cur = None
    lines = []
    for raw in open(path):
        raw = raw.rstrip('\n')
        if lines and CONT.match(raw) and cur is not None:
            lines[-1] += ' ' + raw.strip()
            continue
        s = raw
        if not s or s.startswith(';') or s.startswith('!') or s.startswith('source_filename') or s.startswith('target ') or s.startswith('attributes') or s.startswith('$'):
            continue
        if s.startswith('define '):
            cur = []
            lines.append(s)
            continue
        if s == '}':
            cur = None
            lines.append(s)
            continue
        lines.append(s)
    i = 0
    # types first
    for s in lines:
        if s[0] == '%' and ' = type ' in s:
            n, r = s.split(' = type ', 1)
            if r == 'opaque':
                m.types[n] = ('s', (), False)
            else:
                m.types[n] = m.ptype(Toks(r))
    pend = []
    infn = None
    for s in lines:
        if s.startswith('@') and infn is None:
            pend.append(s)
        elif s.startswith('define '):
            infn = _fnhead(m, s, True)
            m.fns[infn.name] = infn
            curb = None
        elif s.startswith('declare '):
            f = _fnhead(m, s, False)
            m.decls[f.name] = f
        elif s == '}':
            infn = None
        elif infn is not None:
            if not s.startswith(' '):
                lab = s.split(';')[0].strip()
                lab = lab[:-1]
                if not infn.blocks and curb is None:
                    infn.blocks = []
                curb = []
                infn.labels['%' + lab] = len(infn.blocks)
                infn.blocks.append(curb)
            else:
                if curb is None:
                    curb = []
                    infn.labels['%%%d' % len(infn.params)] = 0
                    infn.blocks.append(curb)
                body = s.strip()
                if body.startswith(';') or body.startswith('#dbg'):
                    continue
                curb.append(body)
    for s in pend:
        _global(m, s)
    return m


def _fnhead(m, s, define):
    mm = re.search(r'@("[^"]*"|[\w.$-]+)\(', s)
    name = '@' + mm.group(1)
    f = Fn(name)
    t = Toks(s[mm.end():])
    vararg = False
    if not t.eat(')'):
        while True:
            if t.eat('...'):
                f.vararg = True
                t.expect(')')
                break
            ty = m.ptype(t)
            m.skip_attrs(t)
            if t.peek()[0] == '%':
                f.params.append(t.next())
            else:
                f.params.append('%%%d' % len(f.params))
            f.pty.append(ty)
            if t.eat(')'):
                break
            t.expect(',')
    return f


def _global(m, s):
    name, r = s.split(' = ', 1)
    t = Toks(r)
    const = False
    if name == '@llvm.global_ctors':
        m.ctors = re.findall(r'ptr (@[\w.$"]+),', r)
        return
    if name in ('@llvm.used', '@llvm.compiler.used'):
        return
    ext = False
    while True:
        x = t.next()
        if x == 'alias':
            m.ptype(t)
            t.expect(',')
            m.ptype(t)
            o = m.operand(t, ('p',))
            m.aliases[name] = o[1]
            return
        if x == 'external':
            ext = True
        if x in ('global', 'constant'):
            const = x == 'constant'
            break
    ty = m.ptype(t)
    init = None
    if not ext and t.peek() is not None and t.peek() != ',':
        init = m.operand(t, ty)
    m.globals[name] = (ty, init, const)


def parse_ins(m, s):
    """parse one instruction line -> tuple"""
    # strip metadata
    j = s.find(', !')
    if j >= 0:
        s = s[:j]
    t = Toks(s)
    dst = None
    if t.peek(1) == '=' and t.peek()[0] == '%':
        dst = t.next()
        t.next()
    op = t.next()
    if op in ('tail', 'musttail', 'notail'):
        op = t.next()
    if op in ('add', 'sub', 'mul', 'udiv', 'urem', 'sdiv', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
        while t.peek() in ('nuw', 'nsw', 'exact', 'disjoint'):
            t.next()
        ty, a = m.tyop(t)
        t.expect(',')
        b = m.operand(t, ty)
        return ('bin', dst, op, ty, a, b)
    if op == 'icmp':
        pred = t.next()
        ty, a = m.tyop(t)
        t.expect(',')
        b = m.operand(t, ty)
        return ('icmp', dst, pred, ty, a, b)
    if op in ('trunc', 'zext', 'sext', 'bitcast', 'ptrtoint', 'inttoptr'):
        while t.peek() in ('nneg', 'nuw', 'nsw'):
            t.next()
        ty, a = m.tyop(t)
        t.expect('to')
        ty2 = m.ptype(t)
        return ('cast', dst, op, ty, a, ty2)
    if op == 'load':
        while t.peek() in ('volatile', 'atomic'):
            t.next()
        ty = m.ptype(t)
        t.expect(',')
        _, p = m.tyop(t)
        return ('load', dst, ty, p)
    if op == 'store':
        while t.peek() in ('volatile', 'atomic'):
            t.next()
        ty, v = m.tyop(t)
        t.expect(',')
        _, p = m.tyop(t)
        return ('store', ty, v, p)
    if op == 'getelementptr':
        while t.peek() in ('inbounds', 'nuw', 'nusw'):
            t.next()
        ty = m.ptype(t)
        t.expect(',')
        _, base = m.tyop(t)
        idx = []
        while t.eat(','):
            it, o = m.tyop(t)
            idx.append((it, o))
        return ('gep', dst, ty, base, idx)
    if op == 'alloca':
        ty = m.ptype(t)
        n = None
        if t.eat(','):
            if t.peek() != 'align':
                n = m.tyop(t)
        return ('alloca', dst, ty, n)
    if op == 'br':
        if t.peek() == 'label':
            t.next()
            return ('jmp', t.next())
        ty, c = m.tyop(t)
        t.expect(','); t.expect('label')
        a = t.next()
        t.expect(','); t.expect('label')
        b = t.next()
        return ('br', c, a, b)
    if op == 'switch':
        ty, v = m.tyop(t)
        t.expect(','); t.expect('label')
        d = t.next()
        t.expect('[')
        cs = []
        while not t.eat(']'):
            cty, c = m.tyop(t)
            t.expect(','); t.expect('label')
            cs.append((c[1], t.next()))
        return ('switch', ty, v, d, cs)
    if op == 'ret':
        if t.peek() == 'void':
            return ('ret', None, None)
        ty, v = m.tyop(t)
        return ('ret', ty, v)
    if op == 'phi':
        ty = m.ptype(t)
        inc = []
        while True:
            t.expect('[')
            v = m.operand(t, ty)
            t.expect(',')
            inc.append((v, t.next()))
            t.expect(']')
            if not t.eat(','):
                break
        return ('phi', dst, ty, inc)
    if op == 'select':
        ty, c = m.tyop(t)
        t.expect(',')
        ty2, a = m.tyop(t)
        t.expect(',')
        _, b = m.tyop(t)
        return ('select', dst, ty, c, ty2, a, b)
    if op in ('call', 'invoke'):
        # skip attrs until type
        while True:
            x = t.peek()
            if x in ('ptr', 'void', '[', '<', '{', 'double', 'float') or x[0] == '%' or (x[0] == 'i' and x[1:].isdigit()):
                break
            t.next()
            if x == 'align' and t.peek().isdigit():
                t.next()
            elif t.peek() == '(':
                d = 0
                while True:
                    y = t.next()
                    if y == '(':
                        d += 1
                    elif y == ')':
                        d -= 1
                        if d == 0:
                            break
        ty = m.ptype(t)
        if t.peek() == '(':   # function type
            while t.next() != ')':
                pass
        if t.peek() == 'asm':
            asm = []
            while t.peek() != '(':
                asm.append(t.next())
            callee = ('asm', ' '.join(asm))
        else:
            callee = m.operand(t, ('p',))
        t.expect('(')
        args = []
        if not t.eat(')'):
            while True:
                if t.peek() == 'metadata':
                    return ('nop',)
                aty = m.ptype(t)
                if aty[0] == 'p' or True:
                    m.skip_attrs(t)
                args.append((aty, m.operand(t, aty)))
                if t.eat(')'):
                    break
                t.expect(',')
        nb = ub = None
        if op == 'invoke':
            while t.next() != 'label':
                pass
            nb = t.next()
            while t.next() != 'label':
                pass
            ub = t.next()
        return ('call', dst, ty, callee, args, nb, ub)
    if op == 'unreachable':
        return ('unreachable',)
    if op == 'extractvalue':
        ty, a = m.tyop(t)
        idx = []
        while t.eat(','):
            idx.append(int(t.next()))
        return ('xval', dst, ty, a, idx)
    if op == 'insertvalue':
        ty, a = m.tyop(t)
        t.expect(',')
        ety, e = m.tyop(t)
        idx = []
        while t.eat(','):
            idx.append(int(t.next()))
        return ('ival', dst, ty, a, ety, e, idx)
    if op == 'extractelement':
        ty, a = m.tyop(t)
        t.expect(',')
        _, i = m.tyop(t)
        return ('xelt', dst, ty, a, i)
    if op == 'insertelement':
        ty, a = m.tyop(t)
        t.expect(',')
        ety, e = m.tyop(t)
        t.expect(',')
        _, i = m.tyop(t)
        return ('ielt', dst, ty, a, e, i)
    if op == 'shufflevector':
        ty, a = m.tyop(t)
        t.expect(',')
        _, b = m.tyop(t)
        t.expect(',')
        mty, mk = m.tyop(t)
        return ('shuf', dst, ty, a, b, mty, mk)
    if op == 'freeze':
        ty, a = m.tyop(t)
        return ('cast', dst, 'bitcast', ty, a, ty)
    if op == 'landingpad':
        ty = m.ptype(t)
        clauses = []
        while t.peek():
            x = t.next()
            if x == 'cleanup':
                clauses.append(('cleanup',))
            elif x == 'catch':
                _, o = m.tyop(t)
                clauses.append(('catch', o))
            elif x == 'filter':
                ty2 = m.ptype(t)
                clauses.append(('filter', m.operand(t, ty2)))
        return ('lpad', dst, clauses)
    if op == 'resume':
        ty, a = m.tyop(t)
        return ('resume', a)
    if op == 'fence':
        return ('nop',)
    raise Exception('instr ' + s)


def demangle(names):
    p = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
    return dict(zip(names, p.stdout.split('\n')))
