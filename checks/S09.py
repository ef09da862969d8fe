"""S09: macros, pattern matching, optional and keyword arguments (reference: Guile)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import pbt, scheme

MODS = ['(mes scm)', '(srfi srfi-1)', '(mes syntax)', '(mes match)', '(mes pmatch)', '(mes optargs)', '(srfi srfi-16)', '(srfi srfi-26)', '(srfi srfi-8)', '(mes getopt-long)']
HEAD = ('(use-modules (srfi srfi-1) (ice-9 match) (system base pmatch) (ice-9 optargs) (srfi srfi-26) (srfi srfi-8) (ice-9 getopt-long))\n'
        '(define-syntax-rule (let-syntax* b ...) (let-syntax b ...))\n')
PRE = r'''
(define (show x) (write x) (newline))
(define (twice thunk) (thunk) (thunk))
'''
SYM = ['a', 'b', 'c', 'foo', 'bar', 'x1', 'list', 'if', 'else']
CHARS = ['#\\a', '#\\space', '#\\(', '#\\0']


class Pat:
    """syntax-rules pattern: text, variables with depth, and how to make matching input"""

    def __init__(self, s, lits):
        self.s, self.lits, self.n = s, lits, 0

    def var(self):
        self.n += 1
        return 'v%d' % self.n

    def gen(self, depth, lvl):
        """-> (text, maker, [(var, lvl)])"""
        s = self.s
        k = s.draw(12)
        if depth <= 0 and k > 6:
            k = s.draw(7)
        if k < 5:
            v = self.var()
            return v, lambda: datum(s, 2), [(v, lvl)]
        if k == 5 and self.lits:
            l = s.pick(self.lits)
            return l, lambda: l, []
        if k == 6:
            c = s.pick(['1', '42', '"s"', '#\\a', '#t', '()', '-7'])
            return c, lambda: c, []
        return self.lst(depth, lvl)

    def lst(self, depth, lvl, head=None):
        s = self.s
        parts = [self.gen(depth - 1, lvl) for _ in range(s.length(0, 3))]
        text = [p[0] for p in parts]
        vs = [v for p in parts for v in p[2]]
        k = s.draw(6)
        if k < 2 and lvl < 2:
            p = self.gen(depth - 1, lvl + 1)
            if p[2]:
                text += [p[0], '...']
                vs += p[2]
                return '(%s)' % ' '.join(text), lambda: '(%s)' % ' '.join([q[1]() for q in parts] + [p[1]() for _ in range(s.draw(4))]), vs
        if k == 2 and text:
            v = self.var()
            vs.append((v, lvl))
            return '(%s . %s)' % (' '.join(text), v), lambda: '(%s%s' % (' '.join(q[1]() for q in parts), s.pick([')', ' . z)', ' 8 9)'])), vs
        return '(%s)' % ' '.join(text), lambda: '(%s)' % ' '.join(q[1]() for q in parts), vs

    def template(self, depth, lvl, vs):
        """template at ellipsis level lvl using variables of depth <= lvl"""
        s = self.s
        k = s.draw(10)
        now = [v for v, l in vs if l == lvl] or [v for v, l in vs if l < lvl]
        deep = [(v, l) for v, l in vs if l > lvl]
        if k < 3 and now or depth <= 0:
            return s.pick(now) if now else s.pick(['1', 'foo', '"t"', '()'])
        if k == 3:
            return s.pick(['1', 'foo', '"t"', '()', '#f', 'bar'])
        out = []
        for _ in range(s.length(0, 4)):
            if deep and s.draw(2) == 0:
                v, l = s.pick(deep)
                sub = self.one(v, l, lvl + 1, depth - 1, vs)
                out += [sub, '...']
            else:
                out.append(self.template(depth - 1, lvl, vs))
        low = [v for v, l in vs if l <= lvl]
        if out and low and s.draw(5) == 0:
            return '(%s . %s)' % (' '.join(out), s.pick(low))
        return '(%s)' % ' '.join(out)

    def one(self, v, l, lvl, depth, vs):
        """a template at level lvl that certainly has v (of depth l)"""
        s = self.s
        if l == lvl:
            k = s.draw(4)
            if k == 0:
                return '(%s %s)' % (v, self.low(lvl, vs))
            if k == 1:
                return '(%s . %s)' % (self.low(lvl, vs), v)
            return v
        sub = self.one(v, l, lvl + 1, depth - 1, vs)
        return '(%s%s ...)' % (s.pick(['', 'foo ', '1 ']), sub)

    def low(self, lvl, vs):
        low = [v for v, l in vs if l == 0]
        return self.s.pick(low + ['foo', '5'])


def datum(s, depth):
    k = s.draw(9)
    if k < 3 or depth <= 0:
        return s.pick(['1', '2', '-3', '"str"', '#t', '#f', '#\\a', 'foo', 'bar', 'zip', '()', '42'])
    if k < 5:
        return s.pick(SYM)
    n = s.draw(4)
    return '(%s%s)' % (' '.join(datum(s, depth - 1) for _ in range(n)), ' . foo' if n and s.draw(7) == 0 else '')


def value(s, depth=1):
    """an expression without side effects"""
    k = s.draw(7)
    if k < 3 or depth <= 0:
        return s.pick(['1', '2', '-3', '10', 'g1', 'g2'])
    if k == 3:
        return '(* %s %s)' % (value(s, depth - 1), value(s, depth - 1))
    if k == 4:
        return '(if (< %s %s) %s %s)' % tuple(value(s, depth - 1) for _ in range(4))
    if k == 5:
        return '(let ((t0 %s)) (+ t0 %s))' % (value(s, depth - 1), value(s, depth - 1))
    return '(+ %s %s)' % (value(s, depth - 1), value(s, depth - 1))


def c_rules(s):
    """syntax-rules whose templates are quoted: pure structure"""
    lits = s.pick([[], [], ['=>'], ['in', 'from']])
    rules, makers = [], []
    for _ in range(s.length(1, 3)):
        p = Pat(s, lits)
        t, mk, vs = p.lst(3, 0)
        inner = t[1:-1]
        rules.append('((_%s%s) (quote %s))' % (' ' if inner else '', inner, p.template(3, 0, vs)))
        makers.append(mk)
    rules.append('((_ . r) (quote (other r)))')
    uses = []
    for _ in range(s.length(1, 5)):
        k = s.draw(8)
        if k < 6:
            a = s.pick(makers)()[1:-1]
        else:
            a = ' '.join(datum(s, 2) for _ in range(s.draw(5)))
        uses.append('(show (m0%s%s))' % (' ' if a else '', a))
    d = '(define-syntax m0 (syntax-rules (%s) %s))' % (' '.join(lits), ' '.join(rules))
    if s.draw(4) == 0:
        return ['(let () %s %s)' % (d, ' '.join(uses))], 'syntax-rules'
    return [d] + uses, 'syntax-rules'


RECUR = [
    ('(define-syntax m-or (syntax-rules () ((_) #f) ((_ e) e) ((_ e r ...) ((lambda (t9) (if t9 t9 (m-or r ...))) e))))', lambda s: '(m-or %s)' % ' '.join(s.pick(['#f', '#f', '1', '(begin (display "x") #f)', '(> g1 2)']) for _ in range(s.draw(5)))),
    ('(define-syntax m-and (syntax-rules () ((_) #t) ((_ e) e) ((_ e r ...) (if e (m-and r ...) #f))))', lambda s: '(m-and %s)' % ' '.join(s.pick(['#f', '1', '2', '(begin (display "x") 3)', '(> g1 2)']) for _ in range(s.draw(5)))),
    ('(define-syntax m-let (syntax-rules () ((_ ((n v) ...) b ...) ((lambda (n ...) b ...) v ...))))', lambda s: '(m-let ((p %s) (q %s)) (display p) (list q p %s))' % (value(s), value(s), value(s))),
    ('(define-syntax m-let* (syntax-rules () ((_ () b ...) ((lambda () b ...))) ((_ ((n v) r ...) b ...) ((lambda (n) (m-let* (r ...) b ...)) v))))', lambda s: '(m-let* (%s) (list g1 p q))' % ' '.join('(%s %s)' % (n, v) for n, v in [('p', value(s)), ('q', '(+ p %s)' % value(s))] + [('p', '(list p q)')] * s.draw(2))),
    ('(define-syntax m-while (syntax-rules () ((_ c b ...) (let lp9 () (if c (begin b ... (lp9)) #f)))))', lambda s: '(let ((k 0)) (m-while (< k %d) (display k) (set! k (+ k 1))) k)' % s.draw(6)),
    ('(define-syntax m-for (syntax-rules (in from) ((_ x in l b ...) (for-each (lambda (x) b ...) l)) ((_ x from lo hi b ...) (do ((x lo (+ x 1))) ((> x hi)) b ...))))', lambda s: s.pick(['(begin (m-for y in (list %s %s) (display y) (display ".")) 7)' % (value(s), value(s)), '(begin (m-for y from 1 %d (display (* y y))) 8)' % s.draw(6)])),
    ('(define-syntax m-swap (syntax-rules () ((_ a b) (let ((tmp9 a)) (set! a b) (set! b tmp9)))))', lambda s: '(let ((p %s) (q %s)) (m-swap p q) (list p q))' % (value(s), value(s))),
    ('(define-syntax m-rev (syntax-rules () ((_ () (b ...)) (list b ...)) ((_ (a r ...) (b ...)) (m-rev (r ...) (a b ...)))))', lambda s: '(m-rev (%s) ())' % ' '.join(value(s) for _ in range(s.draw(6)))),
    ('(define-syntax m-def (syntax-rules () ((_ (n a ...) b ...) (define n (lambda (a ...) b ...))) ((_ n v) (define n v))))', lambda s: s.pick(['(let () (m-def (fn a b) (- a b)) (m-def vv 5) (fn vv %s))' % value(s)])),
    ('(define-syntax m-cond (syntax-rules (else =>) ((_ (else e ...)) (begin e ...)) ((_ (c => f) r ...) (let ((t9 c)) (if t9 (f t9) (m-cond r ...)))) ((_ (c e ...) r ...) (if c (begin e ...) (m-cond r ...)))))', lambda s: '(m-cond (%s (display "1") 11) (%s => list) (else (display "e") %s))' % (s.pick(['#f', '#t', '(> g1 5)', '(< g1 g2)']), s.pick(['#f', '7', 'g2', '(memv g1 (list 1 2 3))']), value(s))),
    ('(define-syntax m-sum (syntax-rules () ((_ (a b ...) ...) (+ (* a (+ b ...)) ...))))', lambda s: '(m-sum %s)' % ' '.join('(%s)' % ' '.join(value(s) for _ in range(1 + s.draw(4))) for _ in range(s.draw(4)))),
    ('(define-syntax-rule (m-unless c b ...) (if c #f (begin b ...)))', lambda s: '(m-unless (> g1 %s) (display "u") %s)' % (value(s), value(s))),
]


def c_recur(s):
    defs, uses = [], []
    for _ in range(s.length(1, 3)):
        d, u = s.pick(RECUR)
        if d not in defs:
            defs.append(d)
        for _ in range(s.length(1, 2)):
            x = u(s)
            k = s.draw(5)
            if k == 0:
                x = '((lambda (g1) %s) %s)' % (x, value(s))
            elif k == 1:
                x = '(let lp ((i 0) (r (quote ()))) (if (= i 3) r (lp (+ i 1) (cons %s r))))' % x
            elif k == 2:
                x = '(map (lambda (g2) %s) (list 1 5 9))' % x
            uses.append('(show %s)' % x)
    head = '(define g1 %d)(define g2 %d)' % (s.draw(10), s.draw(10))
    if s.draw(4) == 0:
        return [head, '(let () %s %s)' % (' '.join(d for d in defs), ' '.join(uses))], 'recursive'
    return [head] + defs + uses, 'recursive'


NAMES = ['p', 'q', 'i', 'loop', 'tmp']


def c_hygiene(s):
    """templates that bind variables, with the names the user has too"""
    out = ['(define g1 %d)(define g2 %d)' % (s.draw(10), s.draw(10))]
    for i in range(s.length(1, 3)):
        n = 1 + s.draw(3)
        ps = ['e%d' % j for j in range(n)]
        rest = s.draw(3) == 0

        def t(depth, env):
            k = s.draw(10)
            if depth <= 0 or k < 2:
                return s.pick(ps + env + [str(s.draw(9))])
            if k == 2:
                return '(+ %s %s)' % (t(depth - 1, env), t(depth - 1, env))
            if k == 3:
                return '(- %s g1)' % t(depth - 1, env)
            x, y = s.pick(NAMES), s.pick(NAMES)
            if k == 4:
                return '(let ((%s %s)) %s)' % (x, t(depth - 1, env), t(depth - 1, env + [x]))
            if k == 5:
                return '((lambda (%s) %s) %s)' % (x, t(depth - 1, env + [x]), t(depth - 1, env))
            if k == 6:
                return '(let* ((%s %s) (%s %s)) %s)' % (x, t(depth - 1, env), y, t(depth - 1, env + [x]), t(depth - 1, env + [x, y]))
            if k == 7:
                if x == y:
                    return t(depth - 1, env)
                return '(let %s ((%s 3) (r7 %s)) (if (< %s 1) (+ r7 %s) (%s (- %s 1) (+ r7 %s))))' % (x, y, t(depth - 1, env), y, t(depth - 1, [e for e in env if e != x] + [y]), x, y, t(0, [e for e in env if e != x] + [y]))
            if k == 8:
                return '(let ((%s %s)) (set! %s (+ %s %s)) %s)' % (x, t(depth - 1, env), x, x, t(depth - 1, env), t(depth - 1, env + [x]))
            if rest:
                return '(let ((%s (list es ...))) (+ (length %s) (apply + %s)))' % (x, x, x)
            return '(let ((%s %s) (%s9 %s)) %s)' % (x, t(depth - 1, env), y, t(depth - 1, env), t(depth - 1, env + [x, y + '9']))
        out.append('(define-syntax hy%d (syntax-rules () ((_ %s%s) %s)))' % (i, ' '.join(ps), ' es ...' if rest else '', t(3, [])))
        for _ in range(s.length(1, 3)):
            us = [s.pick(NAMES) for _ in range(2)]

            def arg():
                return s.pick(us + ['(+ %s %s)' % tuple(us), '(* 2 %s)' % us[0], '(let ((%s 4)) (+ %s %s))' % (us[0], us[0], us[1])])
            call = '(hy%d %s)' % (i, ' '.join(arg() for _ in range(n + (s.draw(3) if rest else 0))))
            if s.draw(3) == 0:
                call = '(hy%d %s)' % (i, ' '.join(s.pick([call, arg()]) for _ in range(n)))
            if us[0] == us[1]:
                out.append('(show (let ((%s %d)) %s))' % (us[0], s.draw(20), call))
            else:
                out.append('(show (let ((%s %d) (%s %d)) %s))' % (us[0], s.draw(20), us[1], s.draw(20), call))
    return out, 'template-variables'


def qq(s, depth, one, many):
    k = s.draw(8)
    if k < 2 or depth <= 0:
        return s.pick([',' + v for v in one] + ['foo', '1', '"s"'])
    if k == 2 and many:
        return '(%s)' % ' '.join(x for x in [qq(s, depth - 1, one, many)] * s.draw(2) + [',@' + s.pick(many)] + [qq(s, depth - 1, one, many)] * s.draw(2))
    if k == 3 and many:
        return '(foo . ,%s)' % s.pick(many)
    if k == 4:
        return '#(%s)' % ' '.join(qq(s, 0, one, many) for _ in range(s.draw(3))) if not any(1 for _ in ()) else ''
    return '(%s)' % ' '.join(qq(s, depth - 1, one, many) for _ in range(s.draw(4)))


def c_defmacro(s):
    """define-macro: structure, definitions, nesting, macros that make macros"""
    out = ['(define g1 %d)(define g2 %d)' % (s.draw(10), s.draw(10))]
    names = []
    for i in range(s.length(1, 3)):
        n = 'dm%d' % i
        k = s.draw(9)
        if k == 0:
            np = s.draw(3)
            ps = ['p%d' % j for j in range(np)]
            rest = s.bool()
            out.append('(define-macro (%s%s%s) (list (quote quote) `%s))' % (n, ''.join(' ' + p for p in ps), ' . rs' if rest else '', qq(s, 3, ps or ['g1'], ['rs'] if rest else [])))
            for _ in range(s.length(1, 3)):
                out.append('(show (%s %s))' % (n, ' '.join(datum(s, 2) for _ in range(np + (s.draw(4) if rest else 0)))))
        elif k == 1:
            out.append('(define-macro (%s nm . body) `(define (,nm x y) ,@body))' % n)
            out.append('(%s fn%d (display x) (+ x y %s))' % (n, i, value(s)))
            out.append('(show (fn%d %s %s))' % (i, value(s), value(s)))
            out.append('(show (let () (%s fn (* x y)) (fn %s 3)))' % (n, value(s)))
        elif k == 2:
            out.append('(define-macro (%s . es) (if (null? es) #f (let ((e (car es))) `(let ((t9 ,e)) (if t9 t9 (%s ,@(cdr es)))))))' % (n, n))
            out.append('(show (%s %s))' % (n, ' '.join(s.pick(['#f', '(> g1 4)', '(begin (display "d") #f)', '3']) for _ in range(s.draw(4)))))
        elif k == 3:
            out.append('(define-macro (%s a b) (list (quote +) a (list (quote *) 2 b)))' % n)
            e = '(%s %s %s)' % (n, value(s), value(s))
            out.append('(show (let ((r 0)) (do ((i 0 (+ i 1))) ((= i %d)) (set! r (+ r (%s i %s)))) r))' % (s.draw(5), n, e))
            out.append('(show (map (lambda (g1) %s) (list 1 2 3)))' % e)
        elif k == 4:
            out.append('(define-macro (%s nm e) `(define-macro (,nm x) (list (quote -) x ,e)))' % n)
            out.append('(%s mm%d %d)' % (n, i, s.draw(20)))
            out.append('(show (mm%d %s))' % (i, value(s)))
        elif k == 5:
            out.append('(define-macro (%s c . b) `(if ,c (begin ,@b) (quote no)))' % n)
            out.append('(show (%s (> g1 %d) (display "w") (%s (> g2 %d) %s)))' % (n, s.draw(10), n, s.draw(10), value(s)))
            out.append('(define (user%d x) (%s (> x %d) x))' % (i, n, s.draw(5)))
            out.append('(show (map user%d (list 0 1 2 3 4 5)))' % i)
        elif k == 6:
            out.append('(define cnt%d 0)' % i)
            out.append('(define-macro (%s v) `(begin (set! cnt%d (+ cnt%d 1)) (set! ,v (+ ,v 1)) ,v))' % (n, i, i))
            out.append('(show (let ((z %s)) (list (%s z) cnt%d)))' % (value(s), n, i))
            out.append('(define (up) (%s g1))' % n)
            out.append('(show (begin (up) (up) (list g1 cnt%d)))' % i)
        elif k == 7:
            out.append('(define-macro (%s bs . body) `((lambda ,(map car bs) ,@body) ,@(map cadr bs)))' % n)
            out.append('(show (%s ((u %s) (w %s)) (%s ((u w) (w u)) (list u w))))' % (n, value(s), value(s), n))
        else:
            out.append('(define-macro (%s x) (if (number? x) (* x x) (if (pair? x) (list (quote quote) (reverse x)) x)))' % n)
            for _ in range(s.length(1, 3)):
                out.append('(show (%s %s))' % (n, s.pick(['5', 'g1', '(1 2 3)', '-4', '"s"', '(a (b) c)'])))
        names.append(n)
    return out, 'define-macro'


class MPat:
    def __init__(self, s):
        self.s, self.n = s, 0

    def gen(self, depth):
        """-> (pattern, maker of a matching datum text, vars)"""
        s = self.s
        k = s.draw(14)
        if depth <= 0:
            k %= 6 if depth == 0 else 4
        if k < 3:
            self.n += 1
            v = 'v%d' % self.n
            return v, lambda: datum(s, 2), [v]
        if k == 3:
            return '_', lambda: datum(s, 2), []
        if k == 4:
            c = s.pick(['1', '42', '"str"', '#\\a', '#t', '()', '-7'])
            return c, lambda: c, []
        if k == 5:
            c = s.pick(SYM)
            return "'" + c, lambda: c, []
        if k == 6:
            p, good = s.pick([('symbol?', 'foo'), ('number?', '42'), ('string?', '"str"'), ('pair?', '(1 2)'), ('null?', '()')])
            self.n += 1
            v = 'v%d' % self.n
            if s.bool():
                return '(? %s)' % p, lambda: good, []
            return '(? %s %s)' % (p, v), lambda: good, [v]
        if k == 7:
            p, m, vs = self.gen(depth - 1)
            f, mk = s.pick([('car', lambda: '(%s . 9)' % m()), ('cdr', lambda: '(9 . %s)' % m()), ('cadr', lambda: '(9 %s 8)' % m())])
            return '(and (? pair?) (? (lambda (q) (and (list? q) (> (length q) 1)))) (= %s %s))' % (f, p), lambda: mk() if f == 'cadr' else '(1 2)', vs
        if k == 8:
            a = self.gen(0)
            b = self.gen(depth - 1)
            return '(and %s %s)' % (a[0] if a[2] else '_', b[0]), b[1], a[2] + b[2]
        if k == 9:
            cs = [s.pick(["'foo", "'bar", '1', '"str"', '#f']) for _ in range(1 + s.draw(3))]
            return '(or %s)' % ' '.join(cs), lambda: s.pick(cs).replace("'", ''), []
        if k == 10:
            c = s.pick(["'foo", '1', '"str"'])
            return '(not %s)' % c, lambda: 'zip', []
        parts = [self.gen(depth - 1) for _ in range(s.length(0, 3))]
        vs = [v for p in parts for v in p[2]]
        k = s.draw(6)
        if k < 2:
            p = self.gen(-1)              # another pattern than a variable before ... is a known finding
            tail = []
            if s.draw(3) == 0:
                tail = [self.gen(0) for _ in range(1)]
            return ('(%s)' % ' '.join([q[0] for q in parts] + [p[0], '...'] + [q[0] for q in tail]),
                    lambda: '(%s)' % ' '.join([q[1]() for q in parts] + [p[1]() for _ in range(s.draw(4))] + [q[1]() for q in tail]), vs + p[2] + [v for q in tail for v in q[2]])
        if k == 2 and parts:
            t = self.gen(0)
            return '(%s . %s)' % (' '.join(q[0] for q in parts), t[0]), lambda: '(%s . %s)' % (' '.join(q[1]() for q in parts), t[1]()), vs + t[2]
        return '(%s)' % ' '.join(q[0] for q in parts), lambda: '(%s)' % ' '.join(q[1]() for q in parts), vs





def c_match(s):
    clauses, makers = [], []
    for _ in range(s.length(1, 3)):
        p = MPat(s)
        t, mk, vs = p.gen(3)
        g = ''
        if s.draw(6) == 0 and vs:
            clauses.append('(%s (=> next) (if (number? %s) (next) (list %d %s)))' % (t, s.pick(vs), len(clauses), ' '.join(vs)))
        else:
            clauses.append('(%s (list %d %s))' % (t, len(clauses), ' '.join(vs)))
        makers.append(mk)
    clauses.append("(other (list 'other other))")
    f = '(define (mf x) (match x %s))' % ' '.join(clauses)
    uses = ["(show (mf '%s))" % (s.pick(makers)() if s.draw(5) else datum(s, 3)) for _ in range(s.length(1, 5))]
    if s.draw(3) == 0:
        uses.append('(show ((match-lambda ((a b) (list b a)) ((a . r) (list r a)) (_ 0)) (list %s)))' % ' '.join(value(s) for _ in range(1 + s.draw(3))))
    return ['(define g1 3)(define g2 4)', f] + uses, 'match'


class PPat:
    """pmatch: quasi patterns with unquoted variables"""

    def __init__(self, s):
        self.s, self.n = s, 0

    def gen(self, depth):
        s = self.s
        k = s.draw(9)
        if depth <= 0:
            k %= 5
        if k < 2:
            self.n += 1
            v = 'v%d' % self.n
            return ',' + v, lambda: datum(s, 2), [v]
        if k == 2:
            return '_', lambda: datum(s, 2), []
        if k < 5:
            c = s.pick(SYM + ['1', '"str"', '#\\a', '()', '#t', '-7'])
            return c, lambda: c, []
        parts = [self.gen(depth - 1) for _ in range(s.length(1, 3))]
        vs = [v for p in parts for v in p[2]]
        if s.draw(4) == 0:
            self.n += 1
            v = 'v%d' % self.n
            return '(%s . ,%s)' % (' '.join(q[0] for q in parts), v), lambda: '(%s%s' % (' '.join(q[1]() for q in parts), s.pick([')', ' 1 2)', ' . z)'])), vs + [v]
        return '(%s)' % ' '.join(q[0] for q in parts), lambda: '(%s)' % ' '.join(q[1]() for q in parts), vs


def c_pmatch(s):
    clauses, makers = [], []
    for _ in range(s.length(1, 4)):
        p = PPat(s)
        t, mk, vs = p.gen(3)
        g = ''
        if s.draw(4) == 0:
            g = '(guard %s) ' % (s.pick(['(symbol? %s)', '(pair? %s)', '(number? %s)', '(not (pair? %s))']) % s.pick(vs) if vs else s.pick(['#f', '#t', '(> g1 2)']))
        clauses.append('(%s %s(list %d %s))' % (t, g, len(clauses), ' '.join(vs)))
        makers.append(mk)
    clauses.append("(_ (list 'other))")
    f = '(define (pf x) (pmatch x %s))' % ' '.join(clauses)
    uses = ["(show (pf '%s))" % (s.pick(makers)() if s.draw(5) else datum(s, 3)) for _ in range(s.length(1, 5))]
    return ['(define g1 %d)' % s.draw(5), f] + uses, 'pmatch'


def c_optargs(s):
    """lambda* and define* with required, optional, keyword and rest arguments"""
    out = ['(define g1 %d)(define g2 %d)' % (s.draw(10), s.draw(10))]
    for i in range(s.length(1, 3)):
        req = ['r%d' % j for j in range(s.draw(3))]
        opt = ['o%d' % j for j in range(s.draw(3))] if s.bool() else []
        key = ['k%d' % j for j in range(1 + s.draw(3))] if s.bool() else []
        rest = not key and s.draw(3) == 0
        seen = list(req)
        formals = list(req)

        def spec(v):
            k = s.draw(3)
            if k == 0:
                return v
            d = s.pick(['1', "'dflt", '(* 2 3)', 'g1', '(list g1 g2)', '"s"'] + ['(list %s)' % x for x in seen])
            return '(%s %s)' % (v, d)
        if opt:
            formals.append('#:optional')
            for v in opt:
                formals.append(spec(v))
                seen.append(v)
        if key:
            formals.append('#:key')
            for v in key:
                formals.append(spec(v))
                seen.append(v)
        fl = ' '.join(formals)
        if rest:
            fl += ' . rs' if formals else ''
            if not formals:
                fl = '#:rest rs'
            seen.append('rs')
        body = '(list %s)' % ' '.join(seen)
        n = 'of%d' % i
        if s.bool():
            out.append('(define* (%s %s) %s)' % (n, fl, body))
        else:
            out.append('(define %s (lambda* (%s) %s))' % (n, fl, body))
        for _ in range(s.length(1, 4)):
            a = [value(s) for _ in req]
            no = s.draw(len(opt) + 1)
            a += [value(s) for _ in range(no)]
            if key and no == len(opt):
                ks = list(key)
                for _ in range(s.draw(len(key) + 1)):
                    kk = s.pick(ks)
                    ks.remove(kk)
                    a += ['#:' + kk, value(s)]
            if rest and no == len(opt):
                a += [value(s) for _ in range(s.draw(4))]
            if s.draw(4) == 0:
                out.append('(show (apply %s (list %s)))' % (n, ' '.join(a)))
            else:
                out.append('(show (%s %s))' % (n, ' '.join(a)))
    return out, 'optargs'


def c_lambda(s):
    """case-lambda, cut, receive"""
    out = ['(define g1 %d)(define g2 %d)' % (s.draw(10), s.draw(10))]
    for i in range(s.length(1, 3)):
        k = s.draw(4)
        if k == 0:
            ar = sorted(set(s.draw(5) for _ in range(1 + s.draw(3))))
            cl = []
            for n in ar:
                ps = ['p%d' % j for j in range(n)]
                cl.append('((%s) (list %d %s))' % (' '.join(ps), n, ' '.join(ps)))
            hi = ar[-1]
            rest = s.bool()
            if rest:
                n = s.draw(3)
                cl.append('((%s . rs) (list (quote rest) rs %s))' % (' '.join('p%d' % j for j in range(n)), ' '.join('p%d' % j for j in range(n)))
                          if n else '(rs (list (quote all) rs))')
            out.append('(define cl%d (case-lambda %s))' % (i, ' '.join(cl)))
            for _ in range(s.length(1, 4)):
                n = s.pick(ar) if not rest or s.bool() else hi + s.draw(3)
                if rest:
                    n = max(n, 2)
                    if n not in ar and n < 2:
                        continue
                out.append('(show (cl%d %s))' % (i, ' '.join(value(s) for _ in range(n))))
        elif k == 1:
            slots = [s.pick(['<>', '<>', value(s)]) for _ in range(s.draw(4))]
            more = s.draw(3) == 0
            op = s.pick(['list', 'list', '+', '<>'])
            args = [value(s) for x in slots if x == '<>']
            if more:
                args += [value(s) for _ in range(s.draw(3))]
            if op == '<>':
                args = ['list'] + args
            out.append('(show ((%s %s %s%s) %s))' % (s.pick(['cut', 'cut', 'cute']), op, ' '.join(slots), ' <...>' if more else '', ' '.join(args)))
        elif k == 2:
            n = s.draw(4)
            vs = ['w%d' % j for j in range(n)]
            m = s.draw(3)
            if m == 0:
                out.append('(show (receive (%s) (values %s) (list %s)))' % (' '.join(vs), ' '.join(value(s) for _ in vs), ' '.join(vs)))
            elif m == 1:
                out.append('(show (receive all (values %s) all))' % ' '.join(value(s) for _ in vs))
            elif n:
                out.append('(show (receive (%s . more) (values %s) (list more %s)))' % (' '.join(vs), ' '.join(value(s) for _ in range(n + s.draw(3))), ' '.join(vs)))
        else:
            out.append('(show (map (cut + <> %s) (list %s)))' % (value(s), ' '.join(value(s) for _ in range(s.draw(4)))))
    return out, 'procedures'


OPTS = [('help', 'h', 0), ('include', 'I', 1), ('version', 'V', 0), ('output', 'o', 1), ('verbose', None, 0), ('define', 'D', 1), ('level', None, 1), ('debug', 'd', 2)]


def c_getopt(s):
    os_ = [s.pick(OPTS) for _ in range(1 + s.draw(5))]
    os_ = [o for i, o in enumerate(os_) if o not in os_[:i]]
    spec = []
    for n, c, v in os_:
        p = []
        if c:
            p.append('(single-char #\\%s)' % c)
        if v:
            p.append('(value %s)' % ('#t' if v == 1 else 'optional'))
        if s.draw(4) == 0 and v != 2:
            p.append('(required? #f)')
        spec.append('(%s%s)' % (n, ''.join(' ' + x for x in p)))
    args = []
    for _ in range(s.draw(7)):
        k = s.draw(8)
        n, c, v = s.pick(os_)
        val = s.pick(['foo', 'x.c', 'a=b', '12', 'lib/'])
        emp = s.draw(8) == 7
        if k == 0:
            args.append('' if emp else s.pick(['file', 'x.c', 'a b', 'y', 'z=1', '-']))
        elif k == 1 and v == 1:
            args.append('--%s=%s' % (n, val))
        elif k == 2 and v == 1:
            args += ['--' + n, '' if emp else val]
        elif v == 0 and (k < 5 or not c):
            args.append('--' + n)
        elif v == 0 and c:
            fl = [x[1] for x in os_ if x[1] and x[2] == 0]
            t = '-' + c + ''.join(s.pick(fl) for _ in range(s.draw(3)))
            wa = [x[1] for x in os_ if x[1] and x[2] == 1]
            if wa and s.draw(3) == 0:
                t += s.pick(wa) + val
            args.append(t)
        elif v == 1 and c:
            if s.bool():
                args.append('-' + c + val)
            else:
                args += ['-' + c, val]
        elif v == 2:
            args.append(s.pick(['--debug', '--debug=3', '-d5']))
    if s.draw(6) == 0:
        args += ['--', '--help', '-x']
    stop = s.draw(3) == 2       # clusters of options are split before the end of the options is known
    a = ' '.join('"%s"' % x for x in ['prog'] + args)
    out = ["(define opts (getopt-long '(%s) '(%s)%s))" % (a, ' '.join(spec), ' #:stop-at-first-non-option #t' if stop and not any(x[0:1] == '-' and x[1:2] != '-' and len(x) > 2 for x in args) else '')]
    out += ['(show opts)', "(show (list (option-ref opts '() '(none)) %s))" % ' '.join("(option-ref opts '%s %s)" % (o[0], s.pick(['#f', '"d"', "'none"])) for o in os_)]
    return out, 'getopt'


GENS = [c_rules, c_rules, c_rules, c_recur, c_hygiene, c_hygiene, c_defmacro, c_defmacro, c_match, c_match, c_pmatch, c_pmatch, c_optargs, c_optargs, c_lambda, c_getopt]


class S09(pbt.Check):
    id = 'S09'
    quick = 6000
    thorough = 200000
    batch = 40
    quick_s = 40
    rule = ('a case is a few generated definitions and uses of one kind: syntax-rules (literals, nested ellipses, dotted and recursive rules, templates that bind the names of variables around the use), define-macro (structure, definitions, macros making macros, '
            'uses inside loops), match, pmatch, lambda* and define*, case-lambda, cut, receive, getopt-long; the printed values are compared with Guile; '
            'non-trivial = at least two printed values')
    assumptions = ['Guile 3.0.9 defines the meaning of these forms', 'names that a template uses freely (globals, keywords) are not shadowed where the macro is used']

    def prepare(self):
        self.mes = scheme.Mes(modules=MODS, prelude=PRE, stack=400000)
        self.guile = scheme.Guile(prelude=PRE, header=HEAD)

    def gen(self, src):
        forms, f = src.pick(GENS)(src)
        return {'forms': forms, 'f': f}

    def classify(self, c):
        return sum('(show' in x for x in c['forms']) >= 2, [c['f']]

    def run(self, cases, scratch):
        bodies = ['\n'.join(c['forms']) for c in cases]
        b = self.guile.run_batch(bodies, scratch, toplevel=True)
        ok = [k for k, y in enumerate(b) if not isinstance(y, dict)]
        a = [None] * len(cases)
        for k, x in zip(ok, self.mes.run_batch([bodies[k] for k in ok], scratch, toplevel=True)):
            a[k] = x
        out = []
        for c, x, y in zip(cases, a, b):
            if isinstance(y, dict):
                out.append({'tag': 'GUILE ' + c['f'] + str(y.get('stderr'))[-300:]} if os.environ.get('VF_G') else None)
            elif x == y:
                out.append(None)
            else:
                out.append({'tag': c['f'] + (' died' if isinstance(x, dict) else ' diff'), 'got': x, 'want': y})
        return out


if __name__ == '__main__':
    pbt.main(S09())
