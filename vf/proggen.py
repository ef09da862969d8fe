"""Random total Scheme programs with lexical scope, closures, state and loops.

Every program terminates, stays within machine integers, and never depends on the order in
which operands are evaluated: operand positions hold expressions free of outside effects,
effects appear only in sequenced positions.
"""

# few names, so that shadowing is frequent; all of them are also globals (see PRE)
NAMES = ['a', 'b', 'c', 'd', 'f', 'g', 'h', 'k', 'm', 'n', 'p', 'q', 'x', 'y', 'z', 'lst', 'acc', 'foo', 'bar', 'v1', 'v2']
PRE = ''.join('(define %s 0)\n' % n for n in NAMES)
I, B, L, S = 'i', 'b', 'l', 's'


def F(n, pure=True):
    return ('f', n, pure)


class Prog:
    def __init__(self, src, max_nodes=70):
        self.s = src
        self.nodes = 0
        self.max = max_nodes
        self.feats = set()
        self.env = []           # [(name, type, mutable)]; later shadows earlier
        self.base = 0           # effects may touch only env[base:]
        self.out_ok = True      # display allowed here
        self.globals_ok = True

    # -- environment ---------------------------------------------------
    def visible(self):
        seen = {}
        for i in range(len(self.env) - 1, -1, -1):
            n = self.env[i][0]
            if n not in seen:
                seen[n] = i
        return seen

    def vars(self, t):
        vis = self.visible()
        out = []
        for n, i in vis.items():
            if self.env[i][1] == t:
                out.append(n)
        return sorted(out)

    def funs(self, pure_only):
        vis = self.visible()
        out = []
        for n, i in vis.items():
            t = self.env[i][1]
            if isinstance(t, tuple) and (t[2] or not pure_only):
                out.append((n, t))
        return sorted(out, key=lambda x: x[0])

    def mutable(self, t):
        vis = self.visible()
        return sorted(n for n, i in vis.items() if i >= self.base and self.env[i][1] == t and self.env[i][2])

    def fresh(self, avoid=()):
        n = self.s.pick(NAMES)
        while n in avoid:
            n = NAMES[(NAMES.index(n) + 1) % len(NAMES)]
        return n

    class Scope:
        def __init__(self, g, binds, pure=None):
            self.g, self.binds, self.pure = g, binds, pure

        def __enter__(self):
            g = self.g
            self.n = len(g.env)
            self.save = (g.base, g.out_ok)
            if self.pure:
                g.base = self.n
                g.out_ok = False
            elif self.pure is False:
                pass
            g.env.extend(self.binds)

        def __exit__(self, *a):
            g = self.g
            del g.env[self.n:]
            g.base, g.out_ok = self.save

    def scope(self, binds, pure=None):
        return Prog.Scope(self, binds, pure)

    def tick(self):
        self.nodes += 1
        return self.nodes > self.max

    # -- expressions (no outside effects) --------------------------------
    def lit(self, t):
        s = self.s
        if t == I:
            return str(s.pick([0, 1, 2, 3, 5, 7, 10, -1, -4, 42, 100]))
        if t == B:
            return s.pick(['#f', '#t'])
        if t == L:
            return s.pick(["'()", "'(1)", "'(1 2 3)", "(list 4 5)", "'(3 1 2 5 4)"])
        if t == S:
            return s.pick(["'a", "'b", "'foo", "'else", "'x"])
        return '(lambda (%s) %s)' % (' '.join('x%d' % i for i in range(t[1])), 'x0' if t[1] else '1')

    def atom(self, t):
        vs = self.vars(t)
        if vs and self.s.bool(3, 4):
            return self.s.pick(vs)
        return self.lit(t)

    def expr(self, t, d):
        if self.tick() or d <= 0 or self.s.draw(6) == 0:
            return self.atom(t)
        return getattr(self, 'x_' + (t if isinstance(t, str) else 'f'))(t, d - 1)

    def x_i(self, t, d):
        s = self.s
        k = s.draw(30)
        e = lambda t: self.expr(t, d)
        if k <= 2:
            return '(%s %s %s)' % (s.pick(['+', '-']), e(I), e(I))
        if k == 3:
            return '(modulo (* %s %s) 10007)' % (e(I), e(I))
        if k == 4:
            return '(length %s)' % e(L)
        if k == 5:
            self.feats.add('apply')
            return '(apply + %s)' % e(L) if s.bool() else '(apply + %s %s)' % (e(I), e(L))
        if k <= 9:
            return self.common(I, d)
        if k <= 13:
            fs = self.funs(True)
            if fs:
                f, ft = s.pick(fs)
                self.feats.add('call')
                return '(%s)' % ' '.join([f] + [e(I) for _ in range(ft[1])])
            return self.call_lambda(d)
        if k == 14:
            return self.call_lambda(d)
        if k == 15:
            x = self.fresh()
            with self.scope([(x, L, False)]):
                a = self.expr(I, d)
            self.feats.add('guarded-car')
            return '(let ((%s %s)) (if (pair? %s) (car %s) %s))' % (x, e(L), x, x, a)
        if k <= 17:
            return self.named_let(d)
        if k == 18:
            return self.letrec(d)
        if k == 19:
            self.feats.add('values')
            ns = [self.fresh()]
            ns.append(self.fresh(ns))
            vs = [e(I), e(I)]
            with self.scope([(x, I, True) for x in ns]):
                b = self.body(I, d)
            return '(call-with-values (lambda () (values %s %s)) (lambda (%s %s) %s))' % (vs[0], vs[1], ns[0], ns[1], b)
        if k <= 21:
            return self.callcc(d)
        if k == 22:
            f = self.expr(F(1), d)
            return '(%s %s)' % (f, e(I))
        if k == 23:
            return '(let loop ((l1 %s) (s1 0)) (if (null? l1) s1 (loop (cdr l1) (modulo (+ (* s1 31) (car l1)) 65521))))' % e(L)
        if k == 24:
            # accumulate by side effect on a local
            self.feats.add('local-state')
            v, x = self.fresh(), self.fresh()
            l, i0 = e(L), e(I)
            if x == v:
                x = self.fresh([v])
            with self.scope([(v, I, True)]):
                with self.scope([(x, I, False)]):
                    up = self.expr(I, d)
            return '(let ((%s %s)) (for-each (lambda (%s) (set! %s (modulo %s 10007))) %s) %s)' % (v, i0, x, v, up, 'l0', v) \
                if False else '((lambda (l0 %s) (for-each (lambda (%s) (set! %s (modulo %s 10007))) l0) %s) %s %s)' % (v, x, v, up, v, l, i0)
        if k == 25:
            self.feats.add('do')
            v, x = self.fresh(), self.fresh()
            if x == v:
                x = self.fresh([v])
            with self.scope([(v, I, True), (x, I, False)], pure=True):
                up = self.expr(I, d)
            return '(let ((%s %s)) (do ((%s 0 (+ %s 1))) ((= %s %d)) (set! %s (modulo %s 10007))) %s)' % (
                v, e(I), x, x, x, s.int(0, 5), v, up, v)
        if k == 26:
            self.feats.add('deep-recursion')
            n = s.pick([10, 100, 500, 1000])
            x = self.fresh()
            return '(let dp ((%s %d)) (if (= %s 0) %s (+ 1 (dp (- %s 1)))))' % (x, n, x, self.atom(I) if x not in self.vars(I) else '7', x)
        if k == 27:
            self.feats.add('tail-loop')
            n = s.pick([100, 3000, 3000, 30000])
            return s.pick([
                '(let tl ((i1 0) (s1 0)) (if (= i1 %d) s1 (tl (+ i1 1) (+ s1 1))))',
                '(let tl ((i1 0)) (cond ((= i1 %d) i1) (else (tl (+ i1 1)))))',
                '(let tl ((i1 0)) (or (and (= i1 %d) i1) (tl (+ i1 1))))',
                '(let tl ((i1 0)) (and #t (if (= i1 %d) i1 (begin 0 (tl (+ i1 1))))))',
                '(letrec ((ev (lambda (i1) (if (= i1 0) 1 (od (- i1 1))))) (od (lambda (i1) (if (= i1 0) 0 (ev (- i1 1)))))) (ev %d))',
                '(let tl ((i1 0)) (let* ((j1 (+ i1 1))) (when #t (if (< j1 %d) (apply tl (list j1)) j1))))',
            ]) % n
        if k == 28:
            return '(case %s %s (else %s))' % (e(S), ' '.join('((%s) %s)' % (' '.join(c), e(I)) for c in s.pick(
                [[['a']], [['a', 'b']], [['foo'], ['a', 'x']], [['b'], ['a'], ['x', 'foo']], []])), e(I))
        return '(case (modulo %s 5) %s (else %s))' % (e(I), ' '.join('((%s) %s)' % (' '.join(map(str, c)), e(I)) for c in s.pick(
            [[[0]], [[0, 1]], [[0], [1, 2]], [[3], [0, 4, 2]], [[1], [2], [3]]])), e(I))

    def x_b(self, t, d):
        s = self.s
        k = s.draw(10)
        e = lambda t: self.expr(t, d)
        if k <= 3:
            return '(%s %s %s)' % (s.pick(['=', '<', '>', '<=', '>=']), e(I), e(I))
        if k == 4:
            return '(not %s)' % e(B)
        if k == 5:
            return '(null? %s)' % e(L)
        if k == 6:
            return '(eq? %s %s)' % (e(S), e(S))
        if k == 7:
            return '(equal? %s %s)' % (e(L), e(L))
        if k == 8:
            return '(%s %s)' % (s.pick(['and', 'or']), ' '.join(e(B) for _ in range(s.int(0, 4))))
        return self.common(B, d)

    def x_s(self, t, d):
        if self.s.bool(1, 3):
            return '(car (list %s %s))' % (self.expr(S, d), self.expr(I, d))
        return self.common(S, d)

    def x_l(self, t, d):
        s = self.s
        k = s.draw(14)
        e = lambda t: self.expr(t, d)
        if k == 0:
            return '(list %s)' % ' '.join(e(I) for _ in range(s.int(0, 4)))
        if k == 1:
            return '(cons %s %s)' % (e(I), e(L))
        if k == 2:
            return '(append %s %s)' % (e(L), e(L))
        if k == 3:
            return '(reverse %s)' % e(L)
        if k == 4:
            self.feats.add('map')
            return '(map %s %s)' % (self.expr(F(1), d), e(L))
        if k == 5:
            self.feats.add('map2')
            return '(map %s %s %s)' % (self.expr(F(2), d), e(L), e(L))
        if k <= 7:
            self.feats.add('quasiquote')
            parts = []
            for _ in range(s.int(0, 4)):
                kk = s.draw(4)
                parts.append([lambda: str(s.int(0, 9)), lambda: ',' + e(I), lambda: ',@' + e(L), lambda: ',(+ 1 %s)' % e(I)][kk]())
            tail = s.pick(['', '', ' . ,%s'])
            if tail and parts and not parts[-1].startswith(',@'):
                return '`(%s%s)' % (' '.join(parts), tail % e(L))
            return '`(%s)' % ' '.join(parts)
        if k == 8:
            x = self.fresh()
            l = e(L)
            return '(let ((%s %s)) (if (pair? %s) (cdr %s) %s))' % (x, l, x, x, "'()")
        if k <= 10:
            self.feats.add('rest-args')
            ps = []
            for _ in range(s.int(0, 2)):
                ps.append(self.fresh(ps))
            r = self.fresh(ps)
            extra = s.int(0, 3)
            args = [e(I) for _ in range(len(ps) + extra)]
            with self.scope([(p, I, True) for p in ps] + [(r, L, True)]):
                b = self.body(L, d)
            formals = r if not ps else '(%s . %s)' % (' '.join(ps), r)
            if s.bool():
                return '((lambda %s %s) %s)' % (formals, b, ' '.join(args))
            return '(apply (lambda %s %s) %s (list %s))' % (formals, b, ' '.join(args[:1]), ' '.join(args[1:])) if args else \
                '(apply (lambda %s %s) (list))' % (formals, b)
        if k == 11:
            x = self.fresh()
            l = e(L)
            with self.scope([(x, I, True)], pure=True):
                p = self.expr(B, d)
            return '(filter (lambda (%s) %s) %s)' % (x, p, l)
        return self.common(L, d)

    def x_f(self, t, d):
        s = self.s
        k = s.draw(8)
        if k == 0 and t[1] == 1:
            self.feats.add('compose')
            return '(let ((f1 %s) (f2 %s)) (lambda (x) (f1 (f2 x))))' % (self.expr(t, d), self.expr(t, d))
        if k == 1:
            return '(if %s %s %s)' % (self.expr(B, d), self.expr(t, d), self.expr(t, d))
        if k == 2 and t[1] == 1:
            self.feats.add('closure-over-loop-var')
            x = self.fresh()
            y = self.fresh([x])
            c, i = s.int(1, 4), None
            with self.scope([(x, I, False), (y, I, True)], pure=True):
                b = self.expr(I, d)
            i = s.draw(c)
            return '(list-ref (map (lambda (%s) (lambda (%s) (modulo %s 10007))) (iota %d)) %d)' % (x, y, b, c, i)
        if k == 3:
            return self.common(t, d)
        return self.lam(t, d)

    def lam(self, t, d):
        ps = []
        for _ in range(t[1]):
            ps.append(self.fresh(ps))
        with self.scope([(p, I, True) for p in ps], pure=t[2] or None):
            b = self.body(I, d)
        self.feats.add('closure')
        return '(lambda (%s) %s)' % (' '.join(ps), self.wrapmod(b))

    def wrapmod(self, b):
        """b is a body (defines, statements, final expression): bound the result."""
        return '(modulo (let () %s) 100003)' % b

    def common(self, t, d):
        s = self.s
        k = s.draw(9)
        e = lambda t: self.expr(t, d)
        if k == 0:
            return '(if %s %s %s)' % (e(B), e(t), e(t))
        if k == 1:
            self.feats.add('cond')
            cl = ['(%s %s)' % (e(B), e(t)) for _ in range(s.int(0, 3))]
            return '(cond %s (else %s))' % (' '.join(cl), e(t))
        if k == 2:
            self.feats.add('cond=>')
            x = self.fresh()
            al = s.pick(["'((1 . 10) (2 . 20) (3 . 30))", "'((a . 5) (b . 6))"])
            key = e(I) if al.startswith("'((1") else e(S)
            with self.scope([(x, 'pair', False)]):
                with self.scope([('v3', I, False)]):
                    b = self.expr(t, d)
            return '(cond ((assoc %s %s) => (lambda (%s) (let ((v3 (cdr %s))) %s))) (else %s))' % (key, al, x, x, b, e(t))
        if k <= 4:
            self.feats.add('let')
            bs = self.bindings(d)
            with self.scope([(n, ty, True) for n, ty, _ in bs]):
                b = self.body(t, d)
            return '(let (%s) %s)' % (' '.join('(%s %s)' % (n, x) for n, _, x in bs), b)
        if k == 5:
            self.feats.add('let*')
            out = []
            n0 = len(self.env)
            base = self.base
            for _ in range(s.int(0, 3)):
                n, ty = self.fresh(), self.anytype()
                x = self.expr(ty, d)
                out.append('(%s %s)' % (n, x))
                self.env.append((n, ty, True))
            b = self.body(t, d)
            del self.env[n0:]
            self.base = base
            return '(let* (%s) %s)' % (' '.join(out), b)
        if k == 6:
            return '(begin %s %s)' % (e(self.anytype()), e(t))
        if k == 7:
            if t == B:
                return '(%s %s)' % (s.pick(['and', 'or']), ' '.join(e(B) for _ in range(s.int(0, 4))))
            return '(or %s %s)' % (s.pick(['#f', '(and #f %s)' % e(t)]), e(t)) if s.bool() else '(and %s %s)' % (e(I), e(t))
        x = self.fresh()
        a = e(I)
        with self.scope([(x, I, True)]):
            b = self.body(t, d)
        return '((lambda (%s) %s) %s)' % (x, b, a)

    def anytype(self):
        return self.s.pick([I, I, I, L, B, S, F(1), F(2), F(0)])

    def bindings(self, d):
        ns = []
        out = []
        for _ in range(self.s.int(0, 3)):
            n = self.fresh(ns)
            ns.append(n)
            ty = self.anytype()
            out.append((n, ty, self.expr(ty, d)))
        return out

    def call_lambda(self, d):
        ps = []
        for _ in range(self.s.int(0, 3)):
            ps.append(self.fresh(ps))
        args = [self.expr(I, d) for _ in ps]
        with self.scope([(p, I, True) for p in ps]):
            b = self.body(I, d)
        return '((lambda (%s) %s)%s)' % (' '.join(ps), b, ''.join(' ' + a for a in args))

    def named_let(self, d):
        s = self.s
        self.feats.add('named-let')
        lp = self.fresh()
        i = self.fresh([lp])
        ac = self.fresh([lp, i])
        n = s.int(0, 6)
        init = self.expr(I, d)
        with self.scope([(lp, 'loop', False), (i, I, False), (ac, I, True)], pure=True):
            up = self.expr(I, d)
            fin = self.expr(I, d)
        body = '(%s (- %s 1) (modulo %s 10007))' % (lp, i, up)
        if s.bool(1, 3):
            body = '(+ 1 %s)' % body
        return '(let %s ((%s %d) (%s %s)) (if (<= %s 0) %s %s))' % (lp, i, n, ac, init, i, fin, body)

    def letrec(self, d):
        s = self.s
        self.feats.add('letrec')
        f = self.fresh()
        g = self.fresh([f])
        x, y = self.fresh([f, g]), self.fresh([f, g])
        with self.scope([(f, 'rec', False), (g, 'rec', False), (x, I, False)], pure=True):
            a1 = self.expr(I, d)
        with self.scope([(f, 'rec', False), (g, 'rec', False), (y, I, False)], pure=True):
            a2 = self.expr(I, d)
        fb = '(if (<= %s 0) %s (%s (- %s 1)))' % (x, a1, g, x)
        gb = '(if (<= %s 0) %s (+ 1 (%s (- %s 1))))' % (y, a2, f, y)
        k = s.int(0, 7)
        if s.bool():
            return '(letrec ((%s (lambda (%s) %s)) (%s (lambda (%s) %s))) (%s %d))' % (f, x, fb, g, y, gb, s.pick([f, g]), k)
        self.feats.add('internal-define-mutual')
        return '(let () (define (%s %s) %s) (define (%s %s) %s) (%s %d))' % (f, x, fb, g, y, gb, s.pick([f, g]), k)

    def callcc(self, d):
        s = self.s
        self.feats.add('call/cc')
        k = self.fresh()
        kk = s.draw(3)
        name = s.pick(['call/cc', 'call-with-current-continuation'])
        with self.scope([(k, 'cont', False)], pure=True):
            a, b = self.expr(I, d), self.expr(I, d)
            if kk == 0:
                c = self.expr(B, d)
                return '(%s (lambda (%s) (if %s (+ 1000 (%s %s)) %s)))' % (name, k, c, k, a, b)
            if kk == 1:
                return '(%s (lambda (%s) (+ %s %s)))' % (name, k, a, b)
        x = self.fresh([k])
        l = self.expr(L, d)
        with self.scope([(k, 'cont', False), (x, I, False)], pure=True):
            c = self.expr(B, d)
            a = self.expr(I, d)
        return '(%s (lambda (%s) (for-each (lambda (%s) (if %s (%s %s))) %s) %s))' % (name, k, x, c, k, a, l if k not in l else "'(1 2)", b if x not in b else '9')

    # -- bodies ----------------------------------------------------------
    def body(self, t, d):
        """Definitions, statements and a final expression; in the current scope."""
        s = self.s
        if d <= 1 or self.nodes > self.max or s.bool(1, 2):
            return self.expr(t, d)
        out = []
        n0 = len(self.env)
        defs = []
        if s.bool(1, 3):
            for _ in range(s.int(1, 2)):
                n = self.fresh([x[0] for x in defs])
                defs.append((n, None))
            names = [x[0] for x in defs]
            for n in names:
                # names being defined are not visible while their initialisers run
                hide = [(x, 'undef', False) for x in names]
                ty = self.anytype()
                with self.scope(hide):
                    with self.scope([y for y in getattr(self, '_done', [])]):
                        if isinstance(ty, tuple):
                            ps = []
                            for _ in range(ty[1]):
                                ps.append(self.fresh(ps))
                            with self.scope([(p, I, True) for p in ps], pure=True):
                                b = self.wrapmod(self.body(I, d - 1))
                            txt = '(define (%s) %s)' % (' '.join([n] + ps), b)
                        else:
                            txt = '(define %s %s)' % (n, self.expr(ty, d - 1))
                out.append(txt)
                defs.append((n, ty))
            for n, ty in defs:
                if ty is not None:
                    self.env.append((n, ty, True))
            self.feats.add('internal-define')
        for _ in range(s.int(0, 3)):
            out.append(self.stmt(d - 1))
        out.append(self.expr(t, d))
        del self.env[n0:]
        return ' '.join(x for x in out if x)

    def stmt(self, d):
        s = self.s
        k = s.draw(9)
        if k <= 2:
            t = s.pick([I, I, L, B, F(1)])
            ms = self.mutable(t)
            if ms:
                self.feats.add('set!')
                v = s.pick(ms)
                if t == F(1):       # no cycles: the new procedure calls no procedure variable
                    fs = [(n, 'rec', False) for n, i in sorted(self.visible().items()) if isinstance(self.env[i][1], tuple)]
                    with self.scope(fs):
                        e = self.expr(t, d)
                else:
                    e = self.expr(t, d)
                return '(set! %s %s)' % (v, '(modulo %s 100003)' % e if t == I else e)
            k = 3
        if k == 3:
            if self.out_ok:
                return '(begin (write %s) (display " "))' % self.expr(s.pick([I, I, L, B, S]), d)
            return self.expr(I, d)
        if k == 4:
            return '(if %s %s)' % (self.expr(B, d), self.stmt(d - 1) if d > 0 else '0')
        if k == 5:
            self.feats.add('when/unless')
            return '(%s %s %s %s)' % (s.pick(['when', 'unless']), self.expr(B, d), self.stmt(d - 1) if d > 0 else '0', self.stmt(d - 1) if d > 0 else '0')
        if k == 6 and d > 0:
            x = self.fresh()
            l = self.expr(L, d - 1)
            with self.scope([(x, I, True)]):
                b = self.stmt(d - 1)
            self.feats.add('for-each')
            return '(for-each (lambda (%s) %s) %s)' % (x, b, l)
        fs = [f for f in self.funs(False) if not f[1][2]]
        if fs and self.out_ok and self.base == 0:
            # a call with effects, alone in its statement
            f, ft = s.pick(fs)
            self.feats.add('impure-call')
            call = '(%s)' % ' '.join([f] + [self.expr(I, d) for _ in range(ft[1])])
            return '(begin (write %s) (display " "))' % call
        return '(begin %s %s)' % (self.stmt(d - 1) if d > 0 else '0', self.expr(I, d))

    # -- whole programs ----------------------------------------------------
    def program(self):
        s = self.s
        forms = []
        top = {}                # redefinitions keep the type of the name
        for _ in range(s.int(1, 6)):
            k = s.draw(8)
            d = s.int(1, 4)
            self.max = self.nodes + 30
            if k <= 1:
                t = self.anytype()
                n = self.fresh([x for x in top if top[x] != t or t != I])
                top[n] = t
                forms.append('(define %s %s)' % (n, self.expr(t, d)))
                self.env.append((n, t, True))
            elif k == 2:
                n = self.fresh(top)
                top[n] = F
                ar = s.int(0, 3)
                ps = []
                for _ in range(ar):
                    ps.append(self.fresh(ps))
                hide = [(n, 'rec', False)]
                with self.scope(hide + [(p, I, True) for p in ps], pure=True):
                    b = self.wrapmod(self.body(I, d))
                forms.append('(define (%s) %s)' % (' '.join([n] + ps), b))
                self.env.append((n, F(ar), True))
                self.feats.add('define-procedure')
            elif k == 3:
                # a procedure with private state
                n = self.fresh(top)
                top[n] = F
                st = self.fresh([n])
                ar = s.int(0, 2)
                ps = []
                for _ in range(ar):
                    ps.append(self.fresh(ps + [st]))
                i0 = self.atom(I)
                with self.scope([(n, 'rec', False), (st, I, True)] + [(p, I, True) for p in ps]):
                    up = self.expr(I, d)
                    b = self.expr(I, d)
                forms.append('(define %s (let ((%s %s)) (lambda (%s) (set! %s (modulo (+ %s %s 1) 100003)) (modulo %s 100003))))' % (
                    n, st, i0, ' '.join(ps), st, st, up, b))
                self.env.append((n, F(ar, False), True))
                self.feats.add('stateful-closure')
            elif k == 4:
                forms.append(self.stmt(d))
            else:
                t = s.pick([I, I, L, B, S])
                forms.append('(begin (write %s) (newline))' % self.expr(t, d))
        for n in self.vars(I):
            forms.append('(begin (write %s) (display " "))' % n)
        for n in self.vars(L):
            forms.append('(begin (write %s) (display " "))' % n)
        return forms
