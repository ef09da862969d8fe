"""S11: an operation on a value outside its domain is reported, where it is and as what it is (reference: a Python model)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import pbt, scheme

PRE = r'''
(define (has? x a) (if (equal? x a) #t (and (pair? a) (or (has? x (car a)) (has? x (cdr a))))))
(define (tick n) (display "<") (display n) (display ">") n)
(define (probe culprit thunk)
  (let ((r (catch #t thunk
             (lambda (key . args)
               (display "!") (write key)
               (if (not (eq? culprit 'vf-none)) (begin (display (if (has? culprit args) "+" "-"))))
               'vf-error))))
    (if (eq? r 'vf-error) #t (begin (display "=") (write r)))
    (newline)))
'''
CATCH = '(mes-use-module (mes catch))(mes-use-module (mes scm))(mes-use-module (srfi srfi-1))\n'

NP = ['5', "'a", '"s"', '#\\c', '#t', '#f', '(vector 1 2)', '-1', "'()", '(string->symbol "q")', '""', '(make-vector 0 0)']   # no pairs
NL = [x for x in NP if x != "'()"]
NN = ["'a", '"s"', '#\\c', '#t', "'()", '(list 1)', '(vector 1)', '""', '#f', "'(1 . 2)"]       # no numbers
NA = ['5', '"s"', '#\\c', '-1', '(vector 1)', '(string-length "ab")', '#t', '#f', '(if #f #f)', '(make-hash-table 3)']  # no procedures
FIXED = [('car', 1), ('cdr', 1), ('cons', 2), ('set-car!', 2), ('vector-ref', 2), ('string-length', 1), ('eq?', 2), ('null?', 1), ('pair?', 1), ('char->integer', 1),
         ('modulo', 2), ('ash', 2), ('lognot', 1), ('vector-set!', 3), ('vector-length', 1), ('string-ref', 2), ('symbol->string', 1), ('assq', 2), ('list->string', 1),
         ('string->list', 1), ('list->vector', 1), ('append2', 2), ('last-pair', 1)]


def num(s):
    return s.pick([0, 1, 2, 3, 7, -1, -5, 100, 65536, -4096])


def pos(s):
    return s.pick([1, 2, 3, 7, 12])


def o_pair(s, bad):
    """list operations"""
    k = s.draw(14)
    n = num(s)
    x = s.pick(NP)
    if k < 4:
        op = s.pick(['car', 'cdr'])
        if not bad:
            return ('(%s (cons %d %d))' % (op, n, n)), n, None
        return '(%s %s)' % (op, x), 'not-a-pair', x
    if k < 6:
        op = s.pick(['set-car!', 'set-cdr!'])
        if not bad:
            return '(let ((p (cons 1 2))) (%s p %d) (%s p))' % (op, n, 'car' if op == 'set-car!' else 'cdr'), n, None
        return '(%s %s %d)' % (op, x, n), 'not-a-pair', x
    if k == 6:
        op, ok = s.pick([('caar', "'((%d))"), ('cadr', "'(1 %d)"), ('cdar', "'((1 . %d))"), ('cddr', "'(1 2 . %d)"), ('caddr', "'(1 2 %d)")])
        if not bad:
            return '(%s %s)' % (op, ok % n), n, None
        return '(%s %s)' % (op, s.pick([x, '(list 1)', '(cons 1 2)', "'()"])), 'not-a-pair', None
    x = s.pick(NL)
    if k == 7:
        if not bad:
            return '(apply + (append (list %d) %s))' % (n, s.pick(["'()", '(list 0)', "'(0 0)"])), n, None
        return s.pick(['(append %s (list 1))', '(append (list 1) %s (list 2))', '(append (cons 1 %s) (list 2))', '(append (list 0) (cons 1 (cons 2 %s)) (list 3))']) % x, 'not-a-pair', x
    if k == 8:
        if not bad:
            return '(car (append-reverse (list 2 %d) (list 1)))' % n, n, None
        return s.pick(['(append-reverse %s (list 1))', '(append-reverse (cons 1 %s) (list 2))']) % x, 'not-a-pair', x
    if k == 9:
        if not bad:
            return '(car (reverse! (list 2 %d)))' % n, n, None
        return s.pick(['(reverse! %s)', '(reverse! (cons 1 %s))', '(reverse! (cons 1 (cons 2 %s)))']) % x, 'not-a-pair', x
    if k == 10:
        if not bad:
            return '(car (reverse (list 2 %d)))' % n, n, None
        return s.pick(['(reverse %s)', '(reverse (cons 1 %s))']) % x, 'not-a-pair', x
    if k == 11:
        v = s.pick(["'b", '7', '#:k', '#\\z'])
        if not bad:
            return "(length (memq %s (list 1 'c #\\a %s 2 3)))" % (v, v), 3, None
        return "(memq %s %s)" % (v, s.pick([x, "(cons 'c %s)" % x])), 'not-a-pair', x if v != '#:k' or x[0] != '"' else None
    if k == 12:
        if not bad:
            return '(apply + (map (lambda (q) %d) (list 1)))' % n, n, None
        return '(map (lambda (q) q) %s)' % x, 'not-a-pair', x
    m = s.draw(4)
    l = '(list %s)' % ' '.join(str(n + i) for i in range(m))
    if not bad or m == 0:
        return '(car (list-tail %s %d))' % (l, max(m - 1, 0)), (n + m - 1 if m else 'not-a-pair'), None
    return s.pick(['(list-tail %s %d)' % (l, m + 1), '(list-ref %s %d)' % (l, m), '(list-head %s %d)' % (l, m + 1)]), 'not-a-pair', None


def o_number(s, bad):
    op = s.pick(['+', '-', '*', '/', '<', '>', '<=', '>=', '=', 'modulo', 'quotient', 'remainder', 'logand', 'logior', 'logxor', 'ash', 'lognot', 'abs', 'even?', 'odd?', 'zero?', 'max',
                 'number->string', 'expt'])
    x = s.pick(NN)
    n = pos(s)
    if op in ('lognot', 'abs', 'even?', 'odd?', 'zero?', 'number->string'):
        if not bad:
            v = {'lognot': ~n, 'abs': n, 'even?': 1 - n % 2, 'odd?': n % 2, 'zero?': 0, 'number->string': len(str(n))}[op]
            t = '(%s %d)' % (op, n)
            return ('(if %s 1 0)' % t if op[-1] == '?' else '(string-length %s)' % t if op == 'number->string' else t), v, None
        return '(%s %s)' % (op, x), 'not-a-number', x
    if op in ('modulo', 'quotient', 'remainder', 'ash', 'expt', 'max'):
        if not bad:
            v = {'modulo': n % 7, 'quotient': n // 7, 'remainder': n % 7, 'ash': n << 7, 'expt': n ** 7, 'max': max(n, 7)}[op]
            return '(%s %d 7)' % (op, n), v, None
        if op == 'expt':
            return '(expt %s 2)' % x, 'not-a-number', x
        return s.pick(['(%s %s %d)' % (op, x, n), '(%s %d %s)' % (op, n, x)]), 'not-a-number', x
    k = s.draw(3)
    if op in ('<', '>', '<=', '>=', '='):
        a = {'<': ['1', '2', '3'], '<=': ['1', '1', '3'], '>': ['9', '4', '-1'], '>=': ['9', '9', '0'], '=': ['4', '4', '4']}[op][:2 + s.draw(2)]
        if not bad:
            return '(if (%s %s) %d 0)' % (op, ' '.join(a), n), n, None
        a[k % len(a)] = x
        return '(%s %s)' % (op, ' '.join(a)), 'not-a-number', x
    a = ['100', '5', '2'][:1 + s.draw(3)]
    if not bad:
        z = [int(q) for q in a]
        v = z[0]
        for y in z[1:]:
            v = {'+': v + y, '-': v - y, '*': v * y, '/': v // y, 'logand': v & y, 'logior': v | y, 'logxor': v ^ y}[op]
        if len(z) == 1:
            v = {'-': -v}.get(op, v)
        return '(%s %s)' % (op, ' '.join(a)), v, None
    a[k % len(a)] = x
    return '(%s %s)' % (op, ' '.join(a)), 'not-a-number', x


def o_zero(s, bad):
    n = s.pick([1, -1, 12, 1000, -7])
    op = s.pick(['/', '/', 'modulo', 'quotient', 'remainder'])
    if op == '/' and s.bool():
        return '(/ %d 1 %d)' % (n, 0 if bad else 1), 'divide-by-zero' if bad else n, None
    if bad:
        return '(%s %d 0)' % (op, n), 'divide-by-zero', None
    return '(%s %d 1)' % (op, n), n if op in ('/', 'quotient') else 0, None


def o_unbound(s, bad):
    n = num(s)
    v = s.pick(['vf-nowhere', 'vf-missing?', 'vf:x', 'no-such-name'])
    if not bad:
        return '(let ((%s %d)) %s)' % (v, n, s.pick([v, '((lambda () %s))' % v, '(begin (set! %s (+ %s 0)) %s)' % (v, v, v)])), n, None
    k = s.draw(8)
    t = [v, '(%s)' % v, '(%s 1 2)' % v, '(+ 1 %s)' % v, '((lambda () %s))' % v, '(let ((y 1)) (if (= y 1) %s 3))' % v, "(eval '%s (current-module))" % v, '(map %s (list 1))' % v][k]
    return t, 'unbound-variable', "'" + v


def o_arity(s, bad):
    n = num(s)
    k = s.draw(7)
    if k < 3:
        f, ar = s.pick(FIXED)
        if not bad:
            return '(car (cons %d 2))' % n, n, None
        m = s.pick([i for i in range(5) if i != ar])
        args = ' '.join(s.pick(['1', "'a", '"s"', '(list 1 2)']) for _ in range(m))
        return ('(%s %s)' if s.bool() else '(apply %s (list %s))') % (f, args), 'wrong-number-of-args', None
    ar = s.draw(4)
    m = ar if not bad else s.pick([i for i in range(6) if i != ar])
    ps = ' '.join('p%d' % i for i in range(ar))
    args = ' '.join([str(n)] + ['1'] * (m - 1)) if m else ''
    body = 'p0' if ar else str(n)
    if k == 3:
        t = '((lambda (%s) %s) %s)' % (ps, body, args)
    elif k == 4:
        t = '(let ((f (lambda (%s) (tick 1) %s))) (f %s))' % (ps, body, args)
        return t, 'wrong-number-of-args' if bad else ('tick', n), None
    elif k == 5:
        t = '(apply (lambda (%s) %s) (list %s))' % (ps, body, args)
    else:
        t = '(call-with-values (lambda () (values %s)) (lambda (%s) %s))' % (args, ps, body)
        if m == 0 or m == 1 and bad:
            t = '((lambda (%s) %s) %s)' % (ps, body, args)
    return t, 'wrong-number-of-args' if bad else n, None


def o_apply(s, bad):
    n = num(s)
    x = s.pick(NA)
    if not bad:
        return s.pick(['((lambda (q) q) %d)', '(apply (lambda (q) q) (list %d))', '(let ((f +)) (f %d))', '((if #t + 5) %d 0)', '((car (list -)) %d 0)']) % n, n, None
    a = ' '.join(['1', '2'][:s.draw(3)])
    x2 = x
    k = s.draw(6)
    t = ['(%s %s)' % (x, a), '(let ((f %s)) (f %s))' % (x, a), '(apply %s (list %s))' % (x, a), '(map %s (list 1 2))' % x, '((car (list %s)) %s)' % (x, a), '(for-each %s (list 1))' % x][k]
    return t, 'wrong-type-arg', None


def o_string(s, bad):
    n = s.draw(6)
    t = ''.join(s.pick('abc z') for _ in range(n))
    if bad or n == 0:
        i = s.pick([n, n, n + 1, n + 100, -1, -2])
        return '(string-ref "%s" %d)' % (t, i), 'system-error', str(i)
    i = s.draw(n)
    return '(char->integer (string-ref "%s" %d))' % (t, i), ord(t[i]), None


def o_file(s, bad):
    if bad:
        return s.pick(['(open-input-file "%s")', '(with-input-from-file "%s" read)', '(load "%s")'][:1]) % '/nonexistent/vf', 'system-error', '"/nonexistent/vf"'
    return '(let ((p (open-input-string "42"))) (read p))', 42, None


def o_throw(s, bad):
    n = num(s)
    key = s.pick(['my-key', 'not-a-pair', 'vf-key', 'wrong-type-arg'])
    if not bad:
        return "(catch '%s (lambda () (throw '%s %d)) (lambda (k x) x))" % (key, key, n), n, None
    c = s.pick(["'(1 2)", '"s"', "'x", '3'])
    return "(throw '%s %s 1)" % (key, c), key, c


OPS = [o_pair, o_pair, o_pair, o_number, o_number, o_number, o_zero, o_unbound, o_arity, o_arity, o_apply, o_string, o_file, o_throw]
FATAL = ["(vector-ref (vector 1 2) %s)" % i for i in ('2', '3', '-1', '1000000')] + ["(vector-set! (vector 1 2) %s 5)" % i for i in ('2', '-1', '99999')] + \
    ["(vector-ref (make-vector 0 1) 0)", "(vector-ref '(1 2) 0)", "(vector-set! \"ab\" 0 1)", "(vector-length '(1))", "(string-length 'a)", "(string-length '(1))", "(string-length 5)",
     "(string-append \"a\" 'b)", "(string-append 5 \"a\")", "(string-append \"a\" \"b\" (list 1))", "(string->symbol 'a)", "(string->symbol 5)", "(make-vector -1)", "(make-vector -100 0)",
     "(exit 'a)", "(string=? \"a\" 'a)", "(string=? 5 \"a\")", "(string-ref 'a 0)", "(string-ref \"abc\" 'a)", "(struct-ref 5 0)", "(hashq-set! 'a 'b 'c)", "(make-vector 'a)", "(write-char \"abc\")"]


class Stop(Exception):
    pass


def layer(s):
    """-> (text with %s, model: (hole, out) -> value)"""
    k = s.draw(20)
    n = num(s)
    t = s.draw(90)
    if k == 0:
        return '(+ %d %%s 2)' % n, lambda h, o: n + h() + 2
    if k == 1:
        return '(let ((x %%s)) (tick %d) (- x 1))' % t, lambda h, o: (h(), o.append('<%d>' % t))[0] - 1
    if k == 2:
        return '(begin (tick %d) %%s)' % t, lambda h, o: (o.append('<%d>' % t), h())[1]
    if k == 3:
        return '(begin %%s (tick %d))' % t, lambda h, o: (h(), o.append('<%d>' % t), t)[2]
    if k == 4:
        return '(if (tick %d) %%s (tick 0))' % t, lambda h, o: (o.append('<%d>' % t), h())[1]
    if k == 5:
        return '(if (number? %%s) %d (tick 1))' % n, lambda h, o: (h(), n)[1]
    if k == 6:
        return '((lambda (y . z) (tick y)) %%s %d)' % n, lambda h, o: (lambda v: (o.append('<%d>' % v), v)[1])(h())
    if k == 7:
        return '(car (cdr (list %d %%s)))' % n, lambda h, o: h()
    if k == 8:
        m = 1 + s.draw(3)
        return '(apply + (map (lambda (z) (tick z) %%s) (list %s)))' % ' '.join('8%d' % i for i in range(m)), \
            lambda h, o: sum([(o.append('<8%d>' % i), h())[1] for i in range(m)])
    if k == 9:
        return '(begin (for-each (lambda (z) (tick z) %%s) (list 71 72)) %d)' % n, lambda h, o: (o.append('<71>'), h(), o.append('<72>'), h(), n)[4]
    if k == 10:
        return '(vector-ref (vector %d %%s) 1)' % n, lambda h, o: h()
    if k == 11:
        m = s.draw(5)
        return '(let loop ((i 0)) (if (< i %d) (begin (tick i) (loop (+ i 1))) (+ i %%s)))' % m, lambda h, o: (o.extend('<%d>' % i for i in range(m)), m + h())[1]
    if k == 12:
        return '(apply + (list %d %%s))' % n, lambda h, o: n + h()
    if k == 13:
        return '(call/cc (lambda (c) (+ 1 %s)))', lambda h, o: 1 + h()
    if k == 14:
        return '(call-with-values (lambda () (values %%s %d)) +)' % n, lambda h, o: h() + n
    if k == 15:
        return "(catch 'vf-other (lambda () %s) (lambda (k . a) (tick 99) 0))", lambda h, o: h()
    if k == 16:
        def m(h, o):
            try:
                return h()
            except Stop:
                o.append('<98>')
                return n
        return "(catch #t (lambda () %%s) (lambda (k . a) (tick 98) %d))" % n, m
    if k == 17:
        return '(let () (define w %%s) (define (g) (+ w %d)) (g))' % n, lambda h, o: h() + n
    if k == 18:
        return '(let* ((a (tick %d)) (b %%s)) (+ a b))' % t, lambda h, o: (o.append('<%d>' % t), t + h())[1]
    m = s.draw(6)
    return '(letrec ((deep (lambda (d) (if (= d 0) %%s (+ 1 (deep (- d 1))))))) (deep %d))' % m, lambda h, o: m + h()


class S11(pbt.Check):
    id = 'S11'
    quick = 8000
    thorough = 250000
    batch = 40
    quick_s = 60
    rule = ('a case is 1-5 probes: an operation applied to operands outside its domain (or, as often as not, to good ones) under 0-4 layers of bindings, calls, loops, handlers and continuations; '
            'the printed trace, the key of the error, whether the culprit is among its arguments, and the values of the good ones are compared with a Python model; '
            'one case in thirty is a whole process whose operation is not caught or cannot be caught: it must fail with a message, its earlier output intact and nothing after it; '
            'non-trivial = at least one operation outside its domain')
    assumptions = ['the error keys are those of the pinned sources (not-a-pair, not-a-number, divide-by-zero, unbound-variable, wrong-number-of-args, wrong-type-arg, system-error)']

    def prepare(self):
        self.mes = scheme.Mes(modules=['(mes scm)', '(srfi srfi-1)'], prelude=PRE, stack=400000)

    def gen(self, s):
        if s.draw(30) == 29:
            k = s.draw(3)
            if k == 0:
                while True:
                    t, v, c = s.pick(OPS)(s, True)
                    if isinstance(v, str):
                        break
                return {'proc': t, 'key': v, 'n': s.draw(100), 'f': ['uncaught']}
            return {'proc': s.pick(FATAL), 'key': '', 'n': s.draw(100), 'f': ['fatal'], 'caught': k == 1}
        pr = []
        for _ in range(s.length(1, 5)):
            bad = s.draw(5) > 1
            op = s.pick(OPS)
            t, v, c = op(s, bad)
            layers = [layer(s) for _ in range(s.draw(5))]
            out = []

            def hole():
                if isinstance(v, str):
                    raise Stop
                if isinstance(v, tuple):
                    out.append('<1>')
                    return v[1]
                return v
            h = hole
            text = t
            inner = False
            for lt, lm in reversed(layers):
                text = lt % text
                h = (lambda lm, h: lambda: lm(h, out))(lm, h)
            try:
                out.append('=%d' % h())
            except Stop:
                out.append('!' + v + ('+' if c is not None else ''))
            pr.append([text, c, ''.join(out), op.__name__[2:] + ('' if isinstance(v, str) else '-good')])
        return {'p': pr, 'f': sorted({p[3] for p in pr})}

    def classify(self, c):
        return any('-good' not in f for f in c['f']), c['f']

    def run(self, cases, scratch):
        out = [None] * len(cases)
        idx = [k for k, c in enumerate(cases) if 'p' in c]
        bodies = ['\n'.join("(probe %s (lambda () %s))" % (p[1] or "'vf-none", p[0]) for p in cases[k]['p']) for k in idx]
        for k, x in zip(idx, self.mes.run_batch(bodies, scratch, toplevel=True)):
            want = ''.join(p[2] + '\n' for p in cases[k]['p'])
            if x != want:
                out[k] = {'tag': 'died' if isinstance(x, dict) else 'diff', 'got': x, 'want': want}
                if not isinstance(x, dict):
                    for p, g, w in zip(cases[k]['p'], x.split('\n'), want.split('\n')):
                        if g != w:
                            out[k]['tag'] = p[3]
        for k, c in enumerate(cases):
            if 'proc' in c:
                out[k] = self.process(c, scratch)
        return out

    def process(self, c, scratch):
        t = c['proc']
        if c.get('caught'):
            t = '(catch #t (lambda () %s) (lambda (k . a) (exit 99)))' % t
        rc, o, e = self.mes.run_text(CATCH + PRE + '(display "before %d")(tick 1)(newline)\n(write (begin %s))\n(display "after")(exit 0)\n' % (c['n'], t), scratch)
        o, e = o.decode('latin1'), e.decode('latin1')
        want = 'before %d<1>\n' % c['n']
        if rc == 99 and c.get('caught') and o == want:
            return None
        if rc in (0, 'timeout') or o != want or not e or c['key'] not in e:
            return {'tag': 'process', 'got': [rc, o, e[-300:]], 'want': ['failure', want, c['key']]}
        return None


if __name__ == '__main__':
    pbt.main(S11())
