"""S08: errors, handlers, continuations, multiple values and dynamic bindings (reference: Guile); exit status (model)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import pbt, scheme

PRE = r'''
(define (t x) (display "t") (write x) (display " ") x)
(define fl1 (make-fluid 100))
(define fl2 (make-fluid 200))
(define (burn n) (if (= n 0) 0 (+ 1 (burn (- n 1)))))
(define (tree-walk tree k)
  (cond ((null? tree) #f)
        ((pair? tree) (tree-walk (car tree) k) (tree-walk (cdr tree) k))
        (else (k tree))))
(define (make-gen tree)
  (define return #f)
  (define (start)
    (tree-walk tree (lambda (x)
                      (call/cc (lambda (next)
                                 (set! start (lambda () (next #f)))
                                 (return x)))))
    (return 'done))
  (lambda () (call/cc (lambda (r) (set! return r) (start)))))
'''
MES_PRE = ''
GUILE_PRE = ''
KEYS = ['a', 'b', 'c']
PRIMERR = ['(car 5)', "(cdr '())", '(cadr (list 1))', 'unbound-name', '(unbound-proc 1)', '(3 4)', '((car (list 1)) 2)',
           '((lambda (x) x))', '((lambda (x) x) 1 2)', '(car)', '(cons 1 2 3)', "(+ 1 'a)", "(map car '(1 2))",
           "(let ((q 1)) (q))", "(for-each cdr '((1) 2))"]


class Gen:
    def __init__(self, src):
        self.s = src
        self.n = 0
        self.f = set()
        self.size = 0

    def name(self, p):
        self.n += 1
        return p + str(self.n)

    def leaf(self, env):
        s = self.s
        k = s.draw(5)
        if k == 0:
            return str(s.int(0, 9))
        if k == 1 and env['vars']:
            return s.pick(env['vars'])
        if k == 2:
            return '(fluid-ref fl%d)' % s.int(1, 2)
        return '(t %d)' % s.int(0, 9)

    def e(self, d, env):
        s = self.s
        self.size += 1
        if d <= 0 or self.size > 60:
            return self.leaf(env)
        k = s.draw(20)
        sub = lambda **kw: self.e(d - 1, dict(env, **kw))
        if k == 0:
            return self.leaf(env)
        if k == 1:
            v, w = self.name('x'), self.name('x')
            a = sub()
            b = sub(vars=env['vars'] + [v])
            return '(let* ((%s %s) (%s %s)) (+ %s %s))' % (v, a, w, b, v, w)
        if k == 2:
            return '(begin %s %s)' % (sub(), sub())
        if k == 3:
            return '(if (odd? %s) %s %s)' % (sub(), sub(), sub())
        if k in (4, 5, 6):
            self.f.add('catch')
            key = s.pick(['#t', "'a", "'b", "'c"])
            inner = [key] + env['keys']
            body = sub(keys=inner, ks=[], noescape=False) if not env['noescape'] or key == '#t' else \
                sub(keys=inner, ks=[], noescape=True)
            if key == '#t':
                # anything may be thrown here
                body = self.e(d - 1, dict(env, keys=['#t'], ks=[], noescape=False))
            q, a = self.name('q'), self.name('a')
            h = self.handler(d - 1, env, q, a, key)
            return '(catch %s (lambda () %s) (lambda (%s . %s) %s))' % (key, body, q, a, h)
        if k in (7, 8):
            if env['noescape'] and not env['keys']:
                return self.leaf(env)
            self.f.add('throw')
            if env['noescape']:
                return self.leaf(env)
            key = s.pick(KEYS)
            return "(throw '%s %s)" % (key, ' '.join(sub() for _ in range(s.int(0, 2))))
        if k == 9:
            if env['noescape']:
                return self.leaf(env)
            if '#t' not in env['keys']:
                return self.leaf(env)
            self.f.add('primitive-error')
            return s.pick(PRIMERR)
        if k == 10:
            if env['noescape']:
                return self.leaf(env)
            self.f.add('throw-from-depth')
            key = s.pick(KEYS)
            return "(let dp ((i %d)) (if (= i 0) (throw '%s i) (+ 1 (dp (- i 1)))))" % (s.pick([1, 10, 300]), key)
        if k == 11:
            self.f.add('escape')
            c = self.name('k')
            env2 = dict(env, ks=env['ks'] + [c])
            b = self.e(d - 1, env2)
            if s.bool():
                self.f.add('escape-used')
                b = s.pick(['(+ 1 (%s %s))', '(begin (for-each (lambda (y) (if (= y 2) (%s %s)) (t y)) (list 1 2 3)) 5)',
                            '(let dp ((i 20)) (if (= i 0) (%s %s) (+ 1 (dp (- i 1)))))']) % (c, b)
            return '(call/cc (lambda (%s) %s))' % (c, b)
        if k == 12 and env['ks']:
            self.f.add('escape-used')
            return '(%s %s)' % (s.pick(env['ks']), sub())
        if k == 13:
            self.f.add('re-entry')
            c, n, v = self.name('k'), self.name('n'), self.name('v')
            lim = s.int(1, 4)
            body = self.e(d - 1, dict(env, vars=env['vars'] + [v]))
            return '(let ((%s #f) (%s 0)) (let ((%s (call/cc (lambda (c) (set! %s c) 0)))) (set! %s (+ %s 1)) %s (if (< %s %d) (%s (+ (t %s) 10)) (+ %s %s))))' % (
                c, n, v, c, n, n, body, n, lim, c, v, n, v)
        if k == 14:
            self.f.add('generator')
            tree = self.tree(3)
            return "(let ((g (make-gen '%s))) (let* ((a (g)) (b (g)) (c (g))) (t (list a b c)) %s))" % (tree, sub())
        if k == 15:
            self.f.add('values')
            n = s.int(0, 3)
            ps = [self.name('m') for _ in range(n)]
            prods = [sub() for _ in range(n)]
            if n == 0:
                return '(call-with-values (lambda () (values)) (lambda () %s))' % sub()
            binds = ' '.join('(%s %s)' % (p + 'i', x) for p, x in zip(ps, prods))
            body = self.e(d - 1, dict(env, vars=env['vars'] + ps))
            form = s.draw(3)
            if form == 0:
                return '(call-with-values (lambda () (let* (%s) (values %s))) (lambda %s %s))' % (
                    binds, ' '.join(p + 'i' for p in ps), '(%s)' % ' '.join(ps), body)
            if form == 1:
                return '(receive (%s) (let* (%s) (values %s)) %s)' % (
                    ' '.join(ps), binds, ' '.join(p + 'i' for p in ps), body)
            return '(receive (%s . rst) (let* (%s) (values %s 55)) (t rst) %s)' % (
                ' '.join(ps), binds, ' '.join(p + 'i' for p in ps), body)
        if k == 16:
            self.f.add('with-fluids')
            n = s.int(1, 2)
            bs = ' '.join('(fl%d %s)' % (i, sub()) for i in (s.pick([[1, 2], [1, 2], [2, 1], [1, 1]]) if n == 2 else [s.int(1, 2)]))
            body = self.e(d - 1, dict(env, noescape=True, ks=[]))
            return '(with-fluids (%s) %s)' % (bs, body)
        if k == 17:
            self.f.add('fluid-set!')
            return '(begin (fluid-set! fl%d %s) %s)' % (s.int(1, 2), sub(), sub())
        if k == 18:
            self.f.add('dynamic-wind')
            body = self.e(d - 1, dict(env, noescape=True, ks=[]))
            return '(dynamic-wind (lambda () (t 1)) (lambda () %s) (lambda () (t 2)))' % body
        x = self.name('y')
        self.f.add('for-each')
        return '(begin (for-each (lambda (%s) %s) (list 1 2 3)) %s)' % (
            x, self.e(d - 1, dict(env, vars=env['vars'] + [x])), sub())

    def handler(self, d, env, q, a, key):
        s = self.s
        k = s.draw(6)
        show = '(t (list %s %s))' % (q, a) if key != '#t' else '(t (if (memq %s (quote (a b c))) (list %s %s) 7))' % (q, q, a)
        if k == 0:
            return self.e(d, env)
        if k == 1:
            return '(begin %s 1)' % show
        if k == 2 and not env['noescape']:
            self.f.add('rethrow')
            return '(begin %s (apply throw %s %s))' % (show, q, a if key != '#t' else "(if (memq %s '(a b c)) %s '())" % (q, a)) \
                if key != '#t' or True else ''
        if k == 3 and not env['noescape']:
            self.f.add('throw-from-handler')
            return "(begin %s (throw '%s 3))" % (show, s.pick(KEYS))
        return '(begin %s %s)' % (show, self.e(d, env))

    def tree(self, d):
        s = self.s
        if d == 0 or s.bool(1, 3):
            return str(s.int(0, 9))
        return '(%s)' % ' '.join(self.tree(d - 1) for _ in range(s.int(1, 3)))

    def case(self):
        env = {'vars': [], 'keys': ['#t'], 'ks': [], 'noescape': False}
        b = self.e(self.s.int(2, 5), env)
        return '(catch #t (lambda () (t %s)) (lambda (q . a) (t (if (memq q (quote (a b c))) (list q a) 7)))) (t (fluid-ref fl1)) (t (fluid-ref fl2)) (fluid-set! fl1 100) (fluid-set! fl2 200)' % b


class S08(pbt.Check):
    id = 'S08'
    quick = 24000
    thorough = 300000
    batch = 40
    quick_s = 22
    rule = ('a case is one generated control program (nested catch/throw/rethrow with keys and arguments, errors of primitives, escapes and '
            're-entry of continuations, generators, multiple values, fluids, dynamic-wind) or one whole process with its exit status; '
            'non-trivial = at least two of these, or a process case')
    assumptions = ['Guile 3.0.9 for catch/throw/call/cc/values/fluids', 'programs in which a throw or continuation leaves with-fluids or dynamic-wind, '
                   'or a continuation leaves a catch, are not generated (Mes documents no unwinding there; see DESIGN.md)']

    def prepare(self):
        self.mes = scheme.Mes(modules=['(mes scm)', '(srfi srfi-1)', '(srfi srfi-8)', '(mes fluids)', '(mes catch)'], prelude=scheme.PRELUDE + PRE, stack=400000)
        self.guile = scheme.Guile(prelude=scheme.PRELUDE + PRE, header='(use-modules (srfi srfi-1) (srfi srfi-8))\n')
        self.raw = scheme.Mes(prelude='', stack=400000)

    def gen(self, src):
        if src.draw(25) == 24:
            return self.gen_exit(src)
        g = Gen(src)
        b = g.case()
        return {'body': b, 'f': sorted(g.f)}

    def gen_exit(self, s):
        """A whole program: some output, some caught errors, then an end."""
        forms, out = [], ''
        for i in range(s.int(0, 3)):
            k = s.draw(3)
            if k == 0:
                forms.append('(display "o%d")' % i)
                out += 'o%d' % i
            elif k == 1:
                forms.append("(display (catch #t (lambda () %s) (lambda (k . a) \"c%d\")))" % (s.pick(PRIMERR), i))
                out += 'c%d' % i
            else:
                forms.append("(display (catch 'a (lambda () (throw 'a 1)) (lambda (k . a) k)))")
                out += 'a'
        end = s.draw(6)
        if end == 0:
            st = 0
        elif end == 1:
            n = s.pick([0, 1, 2, 3, 42, 127, 128, 255])
            forms.append('(exit %d)' % n)
            st = n
        elif end == 2:
            n = s.pick([0, 1, 7, 200])
            forms.append("(catch #t (lambda () (exit %d)) (lambda (k . a) (display \"no\")))" % n)
            st = n
        elif end == 3:
            forms.append("(throw 'a 1)")
            st = 'fail'
        elif end == 4:
            forms.append(s.pick(PRIMERR))
            st = 'fail'
        else:
            forms.append("(begin (for-each (lambda (x) (if (= x 2) (exit 5)) (display x)) (list 1 2 3)) (exit 6))")
            out += '1'
            st = 5
        if end in (1, 2, 3, 4):
            forms.append('(display "not reached")')
        return {'prog': forms, 'out': out, 'st': st, 'f': ['process']}

    def classify(self, c):
        return 'prog' in c or len(c['f']) >= 2, c['f']

    def run(self, cases, scratch):
        out = [None] * len(cases)
        idx = [k for k, c in enumerate(cases) if 'body' in c]
        bodies = [cases[k]['body'] for k in idx]
        b = self.guile.run_batch(bodies, scratch)
        ok = [j for j, y in enumerate(b) if not isinstance(y, dict)]
        a = self.mes.run_batch([bodies[j] for j in ok], scratch)
        for j, x in zip(ok, a):
            if x != b[j]:
                out[idx[j]] = {'tag': 'died' if isinstance(x, dict) else 'diff', 'got': x, 'want': b[j]}
        for k, c in enumerate(cases):
            if 'prog' in c:
                text = scheme.PRE_MES + '\n'.join(c['prog']) + '\n'
                rc, o, e = self.raw.run_text(text, scratch)
                o = o.decode('latin1')
                good = o == c['out'] and (rc == c['st'] if c['st'] != 'fail' else (rc not in (0, 'timeout') and e != b''))
                if not good:
                    out[k] = {'tag': 'process', 'got': [rc, o, e.decode('latin1')[-300:]], 'want': [c['st'], c['out']]}
        return out


if __name__ == '__main__':
    pbt.main(S08())
