"""Generator of C programs for MesCC: total, terminating, defined behaviour (re-checked with gcc's UBSan in trap mode),
inside the fragment MesCC supports.  Identifiers that must be unique in a translation unit end in '@'.

Domain rules (see DESIGN.md): both operands of an operator whose result depends on signedness have the same type
(explicit casts where C would convert); no right shift of negative values; on x86_64 `unsigned int' values are only
combined by operators whose low 32 bits do not depend on the upper ones and are stored before they are compared.
"""

INTS64 = {'char': (1, True), 'signed char': (1, True), 'unsigned char': (1, False), 'short': (2, True), 'unsigned short': (2, False),
          'int': (4, True), 'unsigned int': (4, False), 'long': (8, True), 'unsigned long': (8, False)}
INTS32 = dict(INTS64)
INTS32['long'] = (4, True)
INTS32['unsigned long'] = (4, False)

NARROW = ['char', 'unsigned char', 'short', 'unsigned short']
CONST = [0, 1, 2, 3, 5, 7, 8, 10, 13, 16, 31, 32, 63, 64, 100, 127, 128, 129, 200, 254, 255, 256, 257, 1000, 4095, 4096, 32767, 32768, 65535, 65536, 100000]
BIGC = [1 << 20, (1 << 31) - 1, 123456789, (1 << 30), 0x7fff0000]
LCONST = [1 << 32, (1 << 32) - 1, 1 << 31, (1 << 40) + 7, (1 << 62), (1 << 63) - 1, 0x123456789abc]


class Var:
    def __init__(self, name, ty, ro=False, n=0, glob=False):
        self.name, self.ty, self.ro, self.n, self.glob = name, ty, ro, n, glob


EDGE = [127, 128, 129, 255, 256, 257, -1, -2, -127, -128, -129, -256, 32767, 32768, 65535, 65536]


class Struct:
    def __init__(self, name, fields, union=False):
        self.bytes = 0
        self.name, self.fields, self.union = name, fields, union   # [(fname, type)]; type: int name | ('arr', t, n) | ('ptr', t)

    def decl(self):
        kw = 'union' if self.union else 'struct'
        return '%s %s' % (kw, self.name)


class Func:
    def __init__(self, name, ret, params, pure):
        self.name, self.ret, self.params, self.pure = name, ret, params, pure


def cdecl(ty, name):
    if isinstance(ty, str):
        return '%s %s' % (ty, name)
    if isinstance(ty, Struct):
        return '%s %s' % (ty.decl(), name)
    k = ty[0]
    if k == 'ptr':
        t = ty[1]
        if isinstance(t, tuple) and t[0] == 'ptr':
            return cdecl(t, '*' + name)
        return cdecl(t, '*' + name)
    if k == 'arr':
        return cdecl(ty[1], '%s[%d]' % (name, ty[2]))
    raise AssertionError(ty)


class Gen:
    def __init__(self, src, bits):
        self.s = src
        self.bits = bits
        self.INTS = INTS64 if bits == 64 else INTS32
        self.longs = bits == 64
        self.top = []          # top-level text
        self.globals = []
        self.funcs = []
        self.structs = []
        self.enums = []
        self.feat = set()
        self.uid = 0
        self.lab = 0

    def fresh(self, p):
        self.uid += 1
        return '%s%d@' % (p, self.uid)

    # ---- classes
    def cls(self, t):
        """register class of an integer type after promotion"""
        size, sign = self.INTS[t]
        if size < 4:
            return 'int'
        if self.bits == 32:
            return 'int' if sign else 'uint'
        return {('int'): 'int', 'unsigned int': 'uint', 'long': 'long', 'unsigned long': 'ulong'}[t]

    CTYPE = {'int': 'int', 'uint': 'unsigned int', 'long': 'long', 'ulong': 'unsigned long'}

    def classes(self):
        return ['int', 'int', 'int', 'long', 'ulong', 'uint'] if self.longs else ['int', 'int', 'int', 'uint']

    def lit(self, c):
        s = self.s
        k = s.draw(10)
        if k < 5:
            v = s.draw(12)
        elif k < 8:
            v = s.pick(CONST)
        elif k == 8 and c in ('int', 'long'):
            v = s.pick(CONST)
        elif c in ('long', 'ulong') and self.longs:
            v = s.pick(LCONST + BIGC)
        else:
            v = s.pick(BIGC)
        f = s.draw(8)
        if f == 0 and chr(v & 127).isalnum() and v < 127:
            t = "'%s'" % chr(v)
            suf = False
        else:
            t = {1: hex(v), 2: '0%o' % v if v else '0'}.get(f, str(v))
            suf = True
        if c == 'int':
            if s.draw(6) == 0 and v:
                return '-' + t
            return t
        if c == 'uint':
            return t + 'U' if suf and s.bool() else '(unsigned int)%s' % t
        if c == 'long':
            t = t + 'L' if suf else '(long)' + t
            return '-' + t if s.draw(6) == 0 and v and suf else t
        if v > (1 << 63) - 1:
            return t + 'UL'
        return t + 'UL' if suf and s.bool() else '(unsigned long)%s' % (t + 'L' if suf else t)

    def lit_small(self, c):
        v = self.s.draw(100)
        return {'int': '%d', 'long': '%dL' if self.longs else '%d', 'uint': '%dU', 'ulong': '%dUL'}[c] % v

    # ---- readable places: (text, type) of integer type
    def int_places(self, scope, want=None, writable=False):
        out = []
        for v in scope + self.globals:
            if writable and v.ro:
                continue
            self._places(v.name, v.ty, v.n, out, 0)
        if want:
            out = [p for p in out if want(p[1])]
        return out

    def _places(self, text, ty, n, out, depth):
        if isinstance(ty, str):
            if ty in self.INTS:
                out.append((text, ty))
        elif isinstance(ty, Struct):
            for f, t in ty.fields:
                self._places('%s.%s' % (text, f), t, 0, out, depth + 1)
        elif ty[0] == 'arr':
            out_ = []
            self._places(text + '[\0]', ty[1], 0, out_, depth + 1)
            for t, y in out_:
                out.append((t.replace('\0', '\1%d\2' % ty[2], 1), y))
        elif ty[0] == 'ptr' and n:
            t = ty[1]
            if isinstance(t, Struct):
                for f, y in t.fields:
                    self._places('%s->%s' % (text, f), y, 0, out, depth + 1)
            elif isinstance(t, str) and t in self.INTS:
                out.append(('*' + text, t))
                out.append(('%s[\1%d\2]' % (text, n), t))

    def fill(self, place, scope, depth):
        """replace index markers \\1n\\2 by index expressions within bounds"""
        while '\1' in place:
            a = place.index('\1')
            b = place.index('\2')
            n = int(place[a + 1:b])
            place = place[:a] + self.index(n, scope, depth) + place[b + 1:]
        return place

    def index(self, n, scope, depth):
        s = self.s
        if depth <= 0 or s.bool(1, 2):
            return str(s.draw(n))
        loops = [v for v in scope if v.ro and v.n and v.n <= n and v.ty == 'int']
        if loops and s.bool(2, 3):
            return s.pick(loops).name
        if n & (n - 1) == 0:
            if n == 1:
                return '0'
            return '%s & %d' % (self.par(self.expr('int', depth - 1, scope, False)), n - 1)
        return '(%s & 0xff) %% %d' % (self.par(self.expr('int', depth - 1, scope, True)), n)

    def par(self, e):
        if all(c.isalnum() or c in '_@' for c in e):
            return e
        if e.startswith('(') and e.endswith(')'):
            d = 0
            for i, c in enumerate(e):
                if c == '(':
                    d += 1
                elif c == ')':
                    d -= 1
                    if d == 0 and i < len(e) - 1:
                        break
            else:
                return e
        return '(' + e + ')'

    def leaf(self, c, scope, sens, depth=0):
        s = self.s
        if s.draw(3):
            ps = self.int_places(scope, lambda t: self.cls(t) == c)
            if ps:
                p, t = s.pick(ps)
                p = self.fill(p, scope, min(depth, 1))
                if sens and not self.INTS[t][1] and c == 'int':
                    return '(int) ' + self.par(p) if not p.startswith('*') else '(int) (%s)' % p
                return p
        if c == 'int' and self.enums and s.draw(8) == 0:
            return s.pick(self.enums)
        return self.lit(c)

    def small(self, c, depth, scope, hi):
        """value in [0,hi] with hi = 2^k-1"""
        s = self.s
        if depth <= 0 or s.bool():
            return str(s.draw(hi + 1))
        return '(%s & %d)' % (self.par(self.expr('int', depth - 1, scope, False)), hi)

    def cond(self, depth, scope):
        """truth-value expression"""
        s = self.s
        k = s.draw(10)
        if depth <= 0 or k < 5:
            return self.compare(depth - 1, scope)
        if k == 5:
            return '%s && %s' % (self.par(self.cond(depth - 1, scope)), self.par(self.cond(depth - 1, scope)))
        if k == 6:
            return '%s || %s' % (self.par(self.cond(depth - 1, scope)), self.par(self.cond(depth - 1, scope)))
        if k == 7:
            return '!%s' % self.par(self.cond(depth - 1, scope))
        if k == 8:
            ps = [v for v in scope + self.globals if not isinstance(v.ty, (str, Struct)) and v.ty[0] == 'ptr' and v.n]
            if ps and s.bool():
                p = s.pick(ps)
                self.feat.add('pointer-test')
                return s.pick(['%s', '!%s', '%s != 0', '%s == 0']) % p.name
        return self.expr('int', depth - 1, scope, False)

    def compare(self, depth, scope):
        s = self.s
        c = s.pick(self.classes())
        op = s.pick(['<', '>', '<=', '>=', '==', '!='])
        if c == 'uint' and self.longs:
            return '%s %s %s' % (self.uplace(scope), op, self.uplace(scope))
        a, b = c, c
        k = s.draw(12)
        if k == 0:
            st = self.stride(scope)
            if st:
                return st
        elif k == 1 and c in ('int', 'long'):
            # around the edges of the immediate encodings
            self.feat.add('edge-compare')
            v = s.pick(EDGE)
            m = s.pick([0x1ff, 0xff, 0x1ffff]) if abs(v) < 1000 else 0x1ffff
            return '(%s & %d) - %d %s %d' % (self.par(self.expr('int', depth, scope, False)), m, s.pick([0, m // 2 + 1]), op, v)
        low = {'long': ['int'], 'ulong': ['int', 'long'], 'uint': [] if self.longs else ['int']}.get(c)
        if low and s.draw(4) == 0:
            self.feat.add('mixed-types')
            if s.bool():
                a = s.pick(low)
            else:
                b = s.pick(low)
        return '%s %s %s' % (self.par(self.expr(a, depth, scope, False)), op, self.par(self.expr(b, depth, scope, False)))

    def stride(self, scope):
        """distances between elements, independent of the layout of a structure"""
        s = self.s
        vs = [v for v in scope + self.globals if isinstance(v.ty, tuple) and v.ty[0] == 'arr' and isinstance(v.ty[1], (str, Struct))]
        if not vs:
            return None
        v = s.pick([x for x in vs if isinstance(x.ty[1], Struct)] if s.bool() and any(isinstance(x.ty[1], Struct) for x in vs) else vs)
        self.feat.add('stride')
        n = v.ty[2]
        i = self.par(self.index(n, scope, 1))
        j = s.draw(n)
        t = v.ty[1].decl() if isinstance(v.ty[1], Struct) else v.ty[1]
        k = s.draw(3)
        if k == 0:
            return '(char*) &%s[%s] - (char*) &%s[%d] %s %d * (%s - %d)' % (v.name, i, v.name, j, s.pick(['==', '!=']), self.sizeof(v.ty[1]), i, j) if self.sizeof(v.ty[1]) else None
        if k == 1:
            return '&%s[%s] %s &%s[%d]' % (v.name, i, s.pick(['==', '!=', '<', '>', '<=', '>=']), v.name, j)
        return '&%s[%s] %s &%s[0] + %d' % (v.name, i, s.pick(['==', '!=']), v.name, j)

    def sizeof(self, t):
        """size where MesCC's packed layout and the ABI agree, else 0"""
        if isinstance(t, str):
            return self.INTS[t][0] if t in self.INTS else 0
        if isinstance(t, Struct) and t.bytes:
            return t.bytes
        return 0

    def uplace(self, scope):
        ps = self.int_places(scope, lambda t: t == 'unsigned int')
        if ps and self.s.draw(4):
            p, t = self.s.pick(ps)
            return self.par(self.fill(p, scope, 0))
        return self.lit('uint')

    def expr(self, c, depth, scope, sens, top=False):
        """an integer expression of (promoted) class c.  sens: the context looks at MesCC's idea of the type"""
        s = self.s
        if depth <= 0:
            return self.leaf(c, scope, sens)
        wide_u = c == 'uint' and self.longs      # restricted operators
        opts = [(4, 'leaf'), (5, 'add'), (3, 'mul'), (4, 'bit'), (2, 'neg'), (2, 'not')]
        if not wide_u:
            opts += [(3, 'div'), (3, 'shr'), (2, 'cond'), (3, 'cast'), (2, 'comma')]
        opts += [(2, 'shl')]
        if c == 'int':
            opts += [(3, 'cmp'), (2, 'log'), (2, 'lnot'), (1, 'sizeof'), (2, 'strchar')]
        fs = [f for f in self.funcs if f.pure and f.ret in self.INTS and self.cls(f.ret) == c]
        if fs:
            opts.append((5, 'call'))
        k = s.weighted(opts)
        sens = False        # MesCC promotes and converts operands
        E = lambda cc, ss=sens: self.par(self.expr(cc, depth - 1, scope, ss))

        def pair():
            # one of the two operands may have a type of lower rank
            a, b = c, c
            low = {'long': ['int'], 'ulong': ['int', 'long'], 'uint': [] if self.longs else ['int']}.get(c)
            if low and s.draw(4) == 0:
                self.feat.add('mixed-types')
                if s.bool():
                    a = s.pick(low)
                else:
                    b = s.pick(low)
            return E(a), E(b)
        if k == 'leaf':
            return self.leaf(c, scope, sens, depth)
        if k == 'add':
            a, b = pair()
            return '%s %s %s' % (a, s.pick(['+', '-']), b)
        if k == 'mul':
            if c in ('int', 'long') and s.draw(4):
                return '(%s & %s) * %s' % (E(c), s.pick(['0xff', '0x7fff']), self.par('%s & %s' % (E(c), s.pick(['0xff', '0x7fff'])) if s.bool() else self.lit_small(c)))
            return '%s * %s' % pair()
        if k == 'bit':
            a, b = pair()
            return '%s %s %s' % (a, s.pick(['&', '|', '^']), b)
        if k == 'neg':
            return '-%s' % E(c)
        if k == 'not':
            return '~%s' % E(c)
        if k == 'div':
            op = s.pick(['/', '%'])
            if s.bool():
                d = self.lit(c)
                return '%s %s %s' % (E(c, True), op, self.par(d))
            d = '%s & %d' % (E(c, True), s.pick([7, 15, 255]))
            one = {'int': '1', 'uint': '1U', 'long': '1L', 'ulong': '1UL'}[c]
            return '%s %s ((%s) + %s)' % (E(c, True), op, d, one)
        if k == 'shr':
            if c in ('int', 'long'):
                m = s.pick(['0x7fffffff', '0xffff', '0xff'])
                return '(%s & %s) >> %s' % (E(c), m, self.small(c, depth - 1, scope, 7 if s.bool() else 31))
            return '%s >> %s' % (E(c), self.small(c, depth - 1, scope, 31))
        if k == 'shl':
            if c in ('int', 'long'):
                return '(%s & %s) << %s' % (E(c), s.pick(['0xff', '0xffff']), self.small(c, depth - 1, scope, 7))
            return '%s << %s' % (E(c), self.small(c, depth - 1, scope, 31))
        if k == 'cond':
            a, b = pair()
            return '%s ? %s : %s' % (self.par(self.cond(depth - 1, scope)), a, b)
        if k == 'cast':
            if c == 'int':
                t = s.pick(['char', 'unsigned char', 'short', 'unsigned short', 'int', 'int', 'signed char'])
                src = s.pick(['int', 'int', 'long', 'ulong'] if self.longs else ['int', 'int', 'uint'])
                e = '(%s) %s' % (t, E(src, False))
                if sens and not self.INTS[t][1]:
                    e = '(int) (%s)' % e
                return e
            if c == 'uint':
                return '(unsigned int) %s' % E(s.pick(['int', 'uint']), True)
            if c == 'long':
                return '(long) %s' % E(s.pick(['int', 'long', 'ulong']), True)
            return '(unsigned long) %s' % E(s.pick(['int', 'long', 'ulong']), True)
        if k == 'comma':
            self.feat.add('comma')
            return '(%s, %s)' % (E('int', False), E(c))
        if k == 'cmp':
            e = self.compare(depth - 1, scope)
            return '(int) (%s)' % e if sens else '(%s)' % e
        if k == 'log':
            e = '%s %s %s' % (self.par(self.cond(depth - 1, scope)), s.pick(['&&', '||']), self.par(self.cond(depth - 1, scope)))
            self.feat.add('logical-value')
            return '(int) (%s)' % e if sens else '(%s)' % e
        if k == 'lnot':
            e = '!%s' % self.par(self.cond(depth - 1, scope))
            return '(int) (%s)' % e if sens else '(%s)' % e
        if k == 'sizeof':
            self.feat.add('sizeof')
            t = s.pick(['char', 'short', 'int', 'long', 'unsigned char', 'unsigned short', 'char *', 'int *', 'void *'])
            arrs = [v for v in scope + self.globals if not isinstance(v.ty, (str, Struct)) and v.ty[0] == 'arr' and isinstance(v.ty[1], str)]
            if arrs and s.bool():
                v = s.pick(arrs)
                return s.pick(['(int) sizeof (%s)' % v.name, '(int) (sizeof (%s) / sizeof (%s[0]))' % (v.name, v.name)])
            return '(int) sizeof (%s)' % t
        if k == 'strchar':
            self.feat.add('string-index')
            w = s.pick(['abc', 'hello', 'x', '0123456789abcdef'])
            return '"%s"[%s]' % (w, self.index(len(w), scope, depth - 1))
        if k == 'call':
            f = s.pick(fs)
            self.feat.add('call-in-expr')
            e = self.call(f, depth, scope)
            return '(int) (%s)' % e if sens and c == 'int' and not self.INTS[f.ret][1] else e
        raise AssertionError(k)

    def call(self, f, depth, scope):
        args = []
        for p in f.params:
            args.append(self.arg(p, depth - 1, scope))
        return '%s (%s)' % (f.name, ', '.join(args))

    def arg(self, p, depth, scope):
        s = self.s
        ty = p.ty
        if isinstance(ty, str):
            return self.expr(self.cls(ty), min(depth, 2), scope, False)
        # pointer parameter to n elements
        t = ty[1]
        c = []
        for v in scope + self.globals:
            if isinstance(v.ty, tuple) and v.ty[0] == 'arr' and v.ty[1] == t and v.ty[2] >= p.n:
                c.append(v.name)
                if v.ty[2] > p.n:
                    c.append('&%s[%d]' % (v.name, s.draw(v.ty[2] - p.n + 1)))
                    c.append('%s + %d' % (v.name, s.draw(v.ty[2] - p.n + 1)))
            if isinstance(v.ty, tuple) and v.ty[0] == 'ptr' and v.ty[1] == t and v.n >= p.n:
                c.append(v.name)
            if isinstance(t, Struct) and v.ty is t and p.n == 1:
                c.append('&' + v.name)
            if isinstance(t, str) and v.ty == t and p.n == 1 and not v.ro:
                c.append('&' + v.name)
        if not c:
            g = self.global_array(t, max(p.n, 2)) if p.n > 1 or not isinstance(t, Struct) else None
            if g is None:
                g = self.global_struct(t)
                return '&' + g.name
            return g.name
        return s.pick(c)

    def global_array(self, t, n):
        v = Var(self.fresh('g'), ('arr', t, n), glob=True)
        self.pending.append('%s;' % cdecl(v.ty, v.name))
        self.globals.append(v)
        return v

    def global_struct(self, t):
        v = Var(self.fresh('g'), t, glob=True)
        self.pending.append('%s;' % cdecl(t, v.name))
        self.globals.append(v)
        return v

    # ---- statements
    def block(self, depth, scope, ctx, n=None):
        s = self.s
        sc = list(scope)
        out = []
        for _ in range(s.int(0, 2) if n is None else s.int(1, 3)):
            d, v = self.local(sc, depth)
            out.append(d)
            sc.append(v)
        for _ in range(s.int(1, 4) if n is None else n):
            out.append(self.stmt(depth, sc, ctx))
        return '{\n%s\n}' % '\n'.join(x for x in out if x)

    def body(self, depth, scope, ctx):
        if self.s.draw(4) == 0:
            t = self.simple(scope, ctx)
            return t if '\n' not in t else '{\n%s\n}' % t
        return self.block(depth, scope, ctx)

    def local(self, scope, depth):
        s = self.s
        k = s.draw(12)
        if k < 7 or ctx_no(self):
            t = s.pick(self.inttypes())
            v = Var(self.lname('x'), t)
            return '%s = %s;' % (cdecl(t, v.name), self.expr(self.cls(t), min(depth, 2), scope, False)), v
        if k < 9:
            t = s.pick(self.inttypes())
            n = s.pick([2, 3, 4, 8])
            v = Var(self.lname('a'), ('arr', t, n))
            self.feat.add('local-array')
            init = ', '.join(self.small_const(t) for _ in range(n))
            return '%s = {%s};' % (cdecl(v.ty, v.name), init), v
        if k < 10 and self.structs:
            st = s.pick(self.structs)
            v = Var(self.lname('s'), st)
            self.feat.add('local-struct')
            return '%s;\n%s' % (cdecl(st, v.name), self.init_struct(v.name, st)), v
        if k == 11 and s.bool():
            self.feat.add('static-local')
            t = s.pick(self.inttypes())
            v = Var(self.lname('st'), t, glob=True)
            if self.pure:
                return '', Var(self.fresh('zz'), ('none',))
            return 'static %s = %s;' % (cdecl(t, v.name), self.small_const(t)), v
        c = []
        for v in scope + self.globals:
            if isinstance(v.ty, tuple) and v.ty[0] == 'arr' and not isinstance(v.ty[1], tuple):
                k2 = s.draw(v.ty[2])
                c.append((v.ty[1], '%s' % v.name, v.ty[2], v.glob))
                c.append((v.ty[1], '&%s[%d]' % (v.name, k2), v.ty[2] - k2, v.glob))
                c.append((v.ty[1], '%s + %d' % (v.name, k2), v.ty[2] - k2, v.glob))
            elif isinstance(v.ty, Struct) or (isinstance(v.ty, str) and v.ty in self.INTS and not v.ro):
                c.append((v.ty, '&' + v.name, 1, v.glob))
        if self.pure:
            c = [x for x in c if not x[3]]
        if c:
            t, e, n, g = s.pick(c)
            v = Var(self.lname('p'), ('ptr', t), n=n)
            self.feat.add('pointer')
            return '%s = %s;' % (cdecl(v.ty, v.name), e), v
        t = 'int'
        v = Var(self.lname('x'), t)
        return '%s = %s;' % (cdecl(t, v.name), self.lit('int')), v

    def lname(self, p):
        # plain names, so that shadowing can happen in nested blocks is avoided: unique per function
        self.uid += 1
        return '%s%d' % (p, self.uid)

    def small_const(self, t):
        size, sign = self.INTS[t]
        v = self.s.pick([0, 1, 2, 5, 9, 100, 127] + ([200, 255] if not sign or size > 1 else [-1, -128]) + ([1000, -7] if size > 1 and sign else []) + ([65535] if size > 2 or (size == 2 and not sign) else []))
        return str(v)

    def init_struct(self, text, st):
        out = []
        for f, t in st.fields:
            if isinstance(t, str):
                out.append('%s.%s = %s;' % (text, f, self.small_const(t)))
            elif t[0] == 'arr':
                for i in range(t[2]):
                    out.append('%s.%s[%d] = %s;' % (text, f, i, self.small_const(t[1])))
            if st.union:
                break
        return ' '.join(out)

    def inttypes(self):
        if self.longs:
            return ['int', 'int', 'int', 'long', 'long', 'unsigned long', 'char', 'unsigned char', 'short', 'unsigned short', 'unsigned int']
        return ['int', 'int', 'int', 'unsigned int', 'unsigned int', 'char', 'unsigned char', 'short', 'unsigned short', 'long', 'unsigned long']

    def lval(self, scope, want=None):
        ps = []
        for v in scope + ([] if self.pure else self.globals):
            if v.ro:
                continue
            if self.pure and isinstance(v.ty, tuple) and v.ty[0] == 'ptr' and v.n and v in self.params:
                continue
            self._places(v.name, v.ty, v.n, ps, 0)
        if want:
            ps = [p for p in ps if want(p[1])]
        if not ps:
            return None
        p, t = self.s.pick(ps)
        return self.fill(p, scope, 1), t

    def simple(self, scope, ctx):
        s = self.s
        k = s.draw(20)
        lv = self.lval(scope)
        if lv is None or k == 0:
            return self.out(scope, ctx)
        p, t = lv
        c = self.cls(t)
        size, sign = self.INTS[t]
        if k < 9:
            return '%s = %s;' % (p, self.expr(c, 3, scope, False))
        if k < 13:
            ops = ['+=', '-=', '*=', '&=', '|=', '^=']
            self.feat.add('op-assign')
            return '%s %s %s;' % (p, s.pick(ops), self.par(self.expr(c, 2, scope, False)))
        if k == 13:
            if (t == 'unsigned int' and self.longs):
                return '%s = %s;' % (p, self.expr(c, 2, scope, False))
            op = s.pick(['/=', '%=', '>>=', '<<='])
            self.feat.add('op-assign')
            if op in ('>>=', '<<='):
                if sign:
                    return '%s = %s & 0x7f;\n%s %s %d;' % (p, p, p, op, s.draw(5 if op == '<<=' and size == 1 else 8) if op == '>>=' else s.draw(3))
                return '%s %s %d;' % (p, op, s.draw(8))
            return '%s %s %d;' % (p, op, s.int(1, 100))
        if k < 16:
            self.feat.add('inc-dec')
            q = '(%s)' % p if p.startswith('*') else p
            return s.pick(['%s++;', '%s--;', '++%s;', '--%s;']) % q
        if k == 16:
            lv2 = self.lval(scope, lambda y: self.cls(y) == c)
            if lv2 and lv2[1] == t and '[' not in p and '[' not in lv2[0] and p != lv2[0]:
                self.feat.add('chained-assign')
                return '%s = %s = %s;' % (p, lv2[0], self.expr(c, 2, scope, False))
            return '%s = %s;' % (p, self.expr(c, 2, scope, False))
        if k == 17:
            st = [v for v in scope + ([] if self.pure else self.globals) if isinstance(v.ty, Struct) and not v.ro]
            if len(st) >= 2:
                a = s.pick(st)
                b = s.pick([v for v in st if v.ty is a.ty])
                self.feat.add('struct-assign')
                return '%s = %s;' % (a.name, b.name)
            return self.out(scope, ctx)
        if k == 18:
            # value of an increment
            lv2 = self.lval(scope, lambda y: y in ('int', 'long', 'char', 'short', 'unsigned char'))
            if lv2 and lv2[0] != p and '*' not in p + lv2[0] and '[' not in p + lv2[0] and '->' not in p + lv2[0] and '.' not in p + lv2[0]:
                self.feat.add('inc-value')
                q = s.pick(['%s++', '%s--', '++%s', '--%s']) % lv2[0]
                if self.cls(lv2[1]) == c:
                    return '%s = %s;' % (p, q)
            return '%s = %s;' % (p, self.expr(c, 2, scope, False))
        fs = [f for f in self.funcs if f.ret == 'void' or f.ret in self.INTS]
        if self.pure:
            fs = [f for f in fs if f.pure]
        if fs:
            f = s.pick(fs)
            self.feat.add('call-stmt')
            if f.ret == 'void' or s.draw(4) == 0:
                return '%s;' % self.call(f, 2, scope)
            tv = [v for v in scope if isinstance(v.ty, str) and v.ty in self.INTS and not v.ro and not v.glob]
            if tv:
                return '%s = %s;' % (s.pick(tv).name, self.call(f, 2, scope))
        return self.out(scope, ctx)

    def out(self, scope, ctx):
        if self.pure:
            lv = self.lval(scope)
            if lv is None:
                return ';'
            return '%s = %s;' % (lv[0], self.expr(self.cls(lv[1]), 2, scope, False))
        c = self.s.pick(['int', 'int', 'long', 'ulong'] if self.longs else ['int', 'int', 'uint'])
        e = self.expr(c, 3, scope, True)
        return 'out (%s);' % e

    def stmt(self, depth, scope, ctx):
        s = self.s
        if depth <= 0:
            return self.simple(scope, ctx)
        k = s.draw(16)
        if k < 6:
            return self.simple(scope, ctx)
        if k < 8:
            r = 'if (%s)\n%s' % (self.cond(2, scope), self.body(depth - 1, scope, ctx))
            if s.bool():
                if not r.rstrip().endswith('}'):
                    pass
                r += '\nelse\n%s' % self.body(depth - 1, scope, ctx)
            return r
        if k == 8:
            self.feat.add('for')
            i = self.lname('i')
            n = s.int(0, 6)
            v = Var(i, 'int', ro=True, n=n)
            h = s.pick(['for (%(i)s = 0; %(i)s < %(n)d; %(i)s++)', 'for (%(i)s = %(n)d - 1; %(i)s >= 0; %(i)s--)', 'for (%(i)s = 0; %(i)s != %(n)d; %(i)s = %(i)s + 1)', 'for (%(i)s = 0; %(i)s <= %(n)d - 1; ++%(i)s)', 'for (%(i)s = 0, %(i)s = 0; %(n)d > %(i)s; %(i)s += 1)']) % {'i': i, 'n': n}
            return '{\nint %s;\n%s\n%s\n}' % (i, h, self.loopbody(depth, scope + [v], ctx))
        if k == 9:
            self.feat.add('while')
            i = self.lname('w')
            n = s.int(0, 5)
            v = Var(i, 'int', ro=True, n=n)
            f = s.draw(3)
            if f == 0:
                return '{\nint %s = %d;\nwhile (%s)\n{\n%s--;\n%s\n}\n}' % (i, n, i, i, self.loopbody(depth, scope + [v], ctx))
            if f == 1:
                return '{\nint %s = %d;\nwhile (%s-- > 0)\n%s\n}' % (i, n, i, self.loopbody(depth, scope + [v], ctx))
            return '{\nint %s = 0;\nwhile (%s < %d && %s)\n{\n%s\n%s++;\n}\n}' % (i, i, n, self.par(self.cond(1, scope)), self.block(depth - 1, scope + [v], dict(ctx, brk=False, cont=False, swb=False)), i)
        if k == 10:
            self.feat.add('do-while')
            i = self.lname('d')
            n = s.int(1, 4)
            v = Var(i, 'int', ro=True, n=n)
            return '{\nint %s = %d;\ndo\n{\n%s--;\n%s\n}\nwhile (%s > 0);\n}' % (i, n, i, self.loopbody(depth, scope + [v], ctx), i)
        if k == 11:
            return self.switch(depth, scope, ctx)
        if k == 12:
            if ctx.get('brk') and s.bool():
                return 'if (%s)\nbreak;' % self.cond(1, scope)
            if ctx.get('cont') and s.bool():
                return 'if (%s)\ncontinue;' % self.cond(1, scope)
            if ctx.get('ret') and s.draw(3) == 0:
                return 'if (%s)\nreturn %s;' % (self.cond(1, scope), self.retval(scope, ctx)) if ctx['ret'] != 'void' else 'if (%s)\nreturn;' % self.cond(1, scope)
            return self.simple(scope, ctx)
        if k == 13:
            # pointer walk over an array
            arrs = [v for v in scope + self.globals if isinstance(v.ty, tuple) and v.ty[0] == 'arr' and isinstance(v.ty[1], str) and v.ty[1] != 'unsigned int']
            lv = self.lval(scope, lambda t: t in ('int', 'long'))
            if arrs and lv:
                a = s.pick(arrs)
                self.feat.add('pointer-walk')
                p = self.lname('q')
                t = a.ty[1]
                n = a.ty[2]
                e = s.pick(['*%s', '%s[0]']) % p
                h = s.pick(['for (%(p)s = %(a)s; %(p)s < %(a)s + %(n)d; %(p)s++)', 'for (%(p)s = &%(a)s[0]; %(p)s != &%(a)s[%(n)d]; ++%(p)s)', 'for (%(p)s = %(a)s; %(p)s - %(a)s < %(n)d; %(p)s += 1)']) % {'p': p, 'a': a.name, 'n': n}
                cc = self.cls(lv[1])
                return '{\n%s *%s;\n%s\n%s = (%s ^ %s) & 0xfffff;\n}' % (t, p, h, lv[0], lv[0], self.conv(e, t, cc))
            return self.simple(scope, ctx)
        if k == 14:
            # string walk
            lv = self.lval(scope, lambda t: t in ('int', 'long', 'unsigned char', 'short'))
            if lv:
                self.feat.add('string-walk')
                p = self.lname('z')
                w = s.pick(['abc', '', 'hello, world', 'a\\tb\\n', '\\x41\\102\\\\', 'q' * 20])
                f = s.draw(3)
                if f == 0:
                    return '{\nchar *%s = "%s";\nwhile (*%s)\n%s = (%s & 0xff) * 3 + *%s++;\n}' % (p, w, p, lv[0], lv[0], p) if '[' not in lv[0] else ';'
                if f == 1:
                    return '{\nchar const *%s;\nfor (%s = "%s"; *%s; %s++)\n%s = (%s & 0xff) + *%s;\n}' % (p, p, w, p, p, lv[0], lv[0], p)
                return '{\nchar %s[] = "%s";\nint %si = 0;\nwhile (%s[%si])\n{\n%s = (%s & 0xff) + %s[%si];\n%si++;\n}\n%s[0] = 0;\n}' % (p, w, p, p, p, lv[0], lv[0], p, p, p, p)
            return self.simple(scope, ctx)
        # k == 15: goto forward
        self.feat.add('goto')
        self.lab += 1
        l = 'l%d' % self.lab
        return 'if (%s)\ngoto %s;\n%s\n%s:\n%s' % (self.cond(1, scope), l, self.simple(scope, ctx), l, self.simple(scope, ctx))

    def conv(self, e, t, c):
        if self.cls(t) == c:
            return e
        return '(%s) %s' % (self.CTYPE[c], self.par(e) if not e.startswith('*') else '(%s)' % e)

    def loopbody(self, depth, scope, ctx):
        return self.block(depth - 1, scope, dict(ctx, brk=True, cont=True))

    def retval(self, scope, ctx):
        t = ctx['ret']
        return self.expr(self.cls(t), 2, scope, False)

    def switch(self, depth, scope, ctx):
        s = self.s
        self.feat.add('switch')
        n = s.int(1, 5)
        vals = []
        edge = s.draw(3) == 0
        for i in range(n):
            v = s.pick([i, i, i * 3, 10 + i, -i - 1, 97 + i, 1000 * i + 7] + ([s.pick(EDGE)] * 3 if edge else []))
            if v not in vals:
                vals.append(v)
        out = []
        c2 = dict(ctx, brk=True)
        dpos = s.draw(len(vals) + 2)      # len(vals)+1: none
        m = max(1, len(vals))
        sel = s.pick([self.par(self.expr('int', 2, scope, False)), '(%s & 0xff) %% %d' % (self.par(self.expr('int', 2, scope, True)), m + 1)])
        pre = ''
        if edge:
            self.feat.add('switch-edge')
            sv = list(vals) + [s.pick(vals) + s.pick([1, -1, 256, -256]), s.pick(EDGE)]
            while len(sv) & (len(sv) - 1):
                sv.append(s.pick(EDGE))
            a = self.lname('w')
            pre = '%s = {%s};\n' % (cdecl(('arr', 'int', len(sv)), a), ', '.join(str(x) for x in sv))
            sel = '%s[%s]' % (a, self.index(len(sv), scope, 2))
        for i, v in enumerate(vals + [None]):
            if i == dpos:
                out.append('default:')
                self.caseblock(out, depth, scope, c2)
            if v is None:
                break
            t = str(v) if not (97 <= v < 123 and s.bool()) else "'%s'" % chr(v)
            out.append('case %s:' % t)
            if s.draw(5) == 0 and i < len(vals) - 1:
                self.feat.add('case-list')
                continue
            self.caseblock(out, depth, scope, c2)
        t = 'switch (%s)\n{\n%s\n}' % (sel, '\n'.join(out))
        return '{\n%s%s\n}' % (pre, t) if pre else t

    def caseblock(self, out, depth, scope, ctx):
        s = self.s
        if s.draw(3) == 0:
            out.append(self.block(depth - 1, scope, ctx))
        else:
            for _ in range(s.int(1, 2)):
                out.append(self.simple(scope, ctx))
        if s.draw(4):
            out.append('break;')
        else:
            self.feat.add('fallthrough')

    # ---- top level
    def gen_struct(self):
        s = self.s
        un = s.draw(5) == 0
        name = self.fresh('U' if un else 'S')
        fs = []
        for i in range(s.int(1, 5)):
            k = s.draw(6)
            f = 'f%d' % i
            t = s.pick(self.inttypes())
            if un:
                fs.append((f, t))
            elif k == 0:
                fs.append((f, ('arr', t, s.pick([2, 3, 4]))))
            else:
                fs.append((f, t))
        nbytes = 0
        if not un and s.draw(3) == 0:
            nbytes = s.pick([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 24, 25, 28, 32, 40])
            fs = [('f0', ('arr', s.pick(['char', 'unsigned char']), nbytes))]
        if un:
            # only the first member is accessed by generated code (others change representation)
            st = Struct(name, [fs[0]], True)
            self.feat.add('union')
        else:
            st = Struct(name, fs)
            st.bytes = nbytes
        self.top.append('%s\n{\n%s\n};' % (st.decl(), '\n'.join(cdecl(t, f) + ';' for f, t in fs)))
        self.structs.append(st)

    def gen_global(self):
        s = self.s
        k = s.draw(9)
        t = s.pick(self.inttypes())
        if k < 4:
            v = Var(self.fresh('g'), t, glob=True)
            init = ' = ' + self.small_const(t) if s.bool(2, 3) else ''
            self.top.append('%s%s;' % (cdecl(t, v.name), init))
        elif k < 6:
            n = s.pick([2, 3, 4, 8, 16])
            v = Var(self.fresh('g'), ('arr', t, n), glob=True)
            init = ' = {%s}' % ', '.join(self.small_const(t) for _ in range(n)) if s.bool(2, 3) else ''
            self.top.append('%s%s;' % (cdecl(v.ty, v.name), init))
        elif self.structs:
            st = s.pick(self.structs)
            if s.bool(1, 2) and not st.union:
                v = Var(self.fresh('g'), ('arr', st, s.pick([2, 4])), glob=True)
                self.feat.add('struct-array')
            else:
                v = Var(self.fresh('g'), st, glob=True)
            self.top.append('%s;' % cdecl(v.ty, v.name))
        else:
            return
        self.globals.append(v)

    def gen_func(self, pure):
        s = self.s
        self.pure = pure
        self.lab += 100
        name = self.fresh('f')
        ret = s.pick(['int', 'int', 'int', 'long', 'unsigned long', 'char', 'short', 'unsigned char'] if self.longs else ['int', 'int', 'unsigned int', 'long', 'char', 'unsigned short', 'unsigned char'])
        if not pure and s.draw(3) == 0:
            ret = 'void'
        params = []
        for _ in range(s.int(0, 6) if s.bool() else s.int(0, 3)):
            k = s.draw(6)
            if k < 4 or pure:
                v = Var(self.lname('p'), s.pick(self.inttypes()))
            elif k == 4 or not self.structs:
                v = Var(self.lname('p'), ('ptr', s.pick(self.inttypes())), n=s.pick([1, 2, 4]))
            else:
                v = Var(self.lname('p'), ('ptr', s.pick([x for x in self.structs])), n=1)
            params.append(v)
        self.params = params
        self.pending = []
        f = Func(name, ret, params, pure)
        sc = list(params)
        ctx = {'ret': ret}
        out = []
        for _ in range(s.int(1, 4)):
            d, v = self.local(sc, 2)
            out.append(d)
            sc.append(v)
        for _ in range(s.int(1, 6)):
            out.append(self.stmt(3, sc, ctx))
        if ret != 'void':
            out.append('return %s;' % self.retval(sc, ctx))
        self.top += self.pending
        self.top.append('%s\n%s (%s)\n{\n%s\n}' % (ret, name, ', '.join(cdecl(p.ty, p.name) for p in params) or 'void', '\n'.join(o for o in out if o)))
        self.funcs.append(f)

    def show(self, v, out):
        ps = []
        self._places(v.name, v.ty, v.n, ps, 0)
        for p, t in ps:
            # print every element
            self._show(p, t, out)

    def _show(self, p, t, out):
        if '\1' in p:
            a, b = p.index('\1'), p.index('\2')
            n = int(p[a + 1:b])
            for i in range(n):
                self._show(p[:a] + str(i) + p[b + 1:], t, out)
            return
        if t == 'unsigned int' and self.longs:
            out.append('out ((%s) & 0x7fffffff);' % p)
            return
        out.append('out (%s);' % p)

    def program(self):
        s = self.s
        if s.draw(3) == 0:
            n = s.int(1, 4)
            names = [self.fresh('E') for _ in range(n)]
            vals = []
            for x in names:
                vals.append(x + (' = %d' % s.pick([0, 3, 10, -2, 100]) if s.draw(3) == 0 else ''))
            self.top.append('enum %s {%s};' % (self.fresh('e'), ', '.join(vals)))
            self.enums = names
            self.feat.add('enum')
        for _ in range(s.int(0, 2)):
            self.gen_struct()
        for _ in range(s.int(1, 5)):
            self.gen_global()
        for _ in range(s.int(1, 4)):
            self.gen_func(s.bool())
        # function pointer use
        self.pure = False
        self.params = []
        self.pending = []
        out = []
        sc = []
        for f in self.funcs:
            for _ in range(s.int(1, 2)):
                c = self.call(f, 1, [])
                k = s.draw(8)
                if k < 2 and f.ret != 'unsigned int':
                    self.feat.add('function-pointer-' + ('global' if k else 'parameter'))
                    fp = self.fresh('fp') if k else self.lname('fp')
                    ps = ', '.join(cdecl(p.ty, '') for p in f.params) or 'void'
                    ref = s.pick(['', '&']) + f.name
                    use = s.pick(['%s', '(*%s)']) % fp
                    show = '%s;' if f.ret == 'void' else 'out (%s);'
                    if k:
                        self.pending.append('%s (*%s) (%s);' % (f.ret, fp, ps))
                        out.append('%s = %s;' % (fp, ref))
                        out.append(show % ('%s %s' % (use, c[len(f.name) + 1:])))
                    else:
                        w = self.fresh('w')
                        names = ['p%d' % i for i in range(len(f.params))]
                        pd = ['%s (*%s) (%s)' % (f.ret, fp, ps)] + [cdecl(p.ty, n) for p, n in zip(f.params, names)]
                        self.pending.append('%s\n%s (%s)\n{\n%s%s (%s);\n}' % (f.ret, w, ', '.join(pd), '' if f.ret == 'void' else 'return ', use, ', '.join(names)))
                        rest = c[len(f.name):].strip()
                        assert rest[0] == '(' and rest[-1] == ')', c
                        out.append(show % ('%s (%s%s)' % (w, ref, ', ' + rest[1:-1] if names else '')))
                elif f.ret == 'void':
                    out.append('%s;' % c)
                elif f.ret == 'unsigned int' and self.longs:
                    out.append('out (%s & 0x7fffffff);' % c)
                elif s.draw(4) == 0:
                    self.feat.add('function-pointer')
                    fp = self.lname('fp')
                    args = c[len(f.name) + 1:]
                    ps = ', '.join(cdecl(p.ty, '') for p in f.params) or 'void'
                    out.append('{\n%s (*%s) (%s);\n%s = %s%s;\nout (%s %s);\n}' % (f.ret, fp, ps, fp, s.pick(['', '&']), f.name, s.pick(['%s', '(*%s)']) % fp, args))
                else:
                    out.append('out (%s);' % c)
        for g in self.globals:
            self.show(g, out)
        self.top += self.pending
        self.top.append('void\nrun@ (void)\n{\n%s\n}' % '\n'.join(out))
        return '\n'.join(self.top) + '\n'


def ctx_no(g):
    return False


def program(src, bits):
    g = Gen(src, bits)
    return g.program(), sorted(g.feat)
