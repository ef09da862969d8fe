"""S12: strings and names up to the configured limit, and beyond it (Python model of the contents)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import pbt, scheme

LIMIT = 4000
FILE = 'S12.tmp'
PRE = r'''
(define vf-file "%s")
(define (put n c close)
  (let ((o (current-output-port)) (p (open-output-file vf-file)))
    (set-current-output-port p)
    (display close)
    (let loop ((n n)) (if (> n 0) (begin (display c) (loop (- n 1)))))
    (display close) (newline)
    (set-current-output-port o)))
(define (from-file thunk)
  (let* ((p (open-input-file vf-file)) (old (set-current-input-port p)))
    (let ((r (catch #t thunk (lambda (k . a) (list k)))))
      (set-current-input-port old)
      (if (pair? r) (throw (car r)) r))))
(define (get thunk)
  (catch #t thunk (lambda (k . a) (list k))))
(define (show x)
  (cond ((string? x) (display (string-length x)) (display ":") (display x))
        ((symbol? x) (display "'") (display x))
        ((pair? x) (display "!") (display (car x)))
        (else (write x)))
  (newline))
'''


class S12(pbt.Check):
    id = 'S12'
    quick = 1500
    thorough = 30000
    quick_s = 60
    batch = 10
    rule = ('a case is 2-8 operations that make strings or names (make-string, string-append, list->string, substring, string ports, reading '
            'of literals, identifiers and whole files), in an interpreter limited to %d characters: results within the limit must be right, '
            'results beyond it must end in a system-error, and after every one of them all earlier strings are compared again; non-trivial = '
            'at least one result longer than half the limit' % LIMIT)
    assumptions = ['results of exactly the limit, or one off it, may go either way']

    def prepare(self):
        self.mes = scheme.Mes(modules=['(mes scm)', '(mes guile)'], prelude='', env={'MES_MAX_STRING': str(LIMIT)})

    def length(self, s):
        k = s.draw(8)
        if k < 3:
            return s.draw(50)
        if k < 5:
            return s.draw(LIMIT // 2)
        if k == 5:
            return LIMIT - 2 - s.draw(20)
        if k == 6:
            return LIMIT + 2 + s.draw(20)
        return s.draw(2 * LIMIT)

    def gen(self, s):
        ops = []
        vals = []       # None = error
        for _ in range(s.length(2, 8)):
            good = [i for i, v in enumerate(vals) if v]
            k = s.draw(10)
            c = s.pick(list('abcXYZ'))
            if k < 3 or not good:
                how = s.pick(['make', 'literal', 'name', 'file'])
                n = self.length(s)
                if how == 'name' and n == 0:
                    n = 1
                op, v = [how, n, c], [[c, n]]
            elif k < 6:
                ix = [s.pick(good) for _ in range(1 + s.draw(4))]
                op, v = [s.pick(['append', 'append', 'list']), ix], [r for i in ix for r in vals[i]]
            elif k == 6:
                ix = [s.pick(good) for _ in range(1 + s.draw(2))]
                op, v = ['append-literal', ix, c], [[c, 1]] + [r for i in ix for r in vals[i]]
            elif k == 7:
                i = s.pick(good)
                t = self.text(vals[i])
                a = s.draw(len(t) + 1)
                b = a + s.draw(len(t) - a + 1)
                op, v = ['sub', i, a, b], [[x, 1] for x in t[a:b]]
                m = []
                for x, q in v:
                    if m and m[-1][0] == x:
                        m[-1][1] += 1
                    else:
                        m.append([x, 1])
                v = m
            elif k == 8:
                i = s.pick(good)
                op, v = ['symbol', i], vals[i]
            else:
                ix = [s.pick(good) for _ in range(2)]
                op, v = ['join', ix], vals[ix[0]] + [[',', 1]] + vals[ix[1]]
            n = sum(r[1] for r in v)
            if abs(n - LIMIT) < 2:
                continue
            ops.append(op)
            vals.append(v if n < LIMIT else None)
            if vals[-1] == []:
                vals[-1] = [['a', 0]]
        return {'ops': ops, 'v': vals}

    def text(self, v):
        return ''.join(c * n for c, n in v)

    def expr(self, op):
        h = op[0]
        if h == 'make':
            return '(make-string %d #\\%s)' % (op[1], op[2])
        if h in ('literal', 'name', 'file'):
            return '(begin (put %d "%s" %s) %s)' % (
                op[1], op[2], '"\\""' if h == 'literal' else '""',
                {'literal': '(from-file read)', 'name': '(symbol->string (from-file read))',
                 'file': '(let ((x (from-file (lambda () (read-string))))) (substring x 0 (- (string-length x) 1)))'}[h])
        v = lambda i: 's%d' % i
        if h == 'append':
            return '(string-append %s)' % ' '.join(map(v, op[1]))
        if h == 'append-literal':
            return '(string-append "%s" %s)' % (op[2], ' '.join(map(v, op[1])))
        if h == 'list':
            return '(list->string (append %s))' % ' '.join('(string->list s%d)' % i for i in op[1])
        if h == 'sub':
            return '(substring s%d %d %d)' % tuple(op[1:])
        if h == 'symbol':
            return '(symbol->string (string->symbol s%d))' % op[1]
        if h == 'join':
            return '(string-join (list %s) ",")' % ' '.join(map(v, op[1]))

    def run(self, cases, scratch):
        bodies, wants = [], []
        for c in cases:
            b, w = [], []
            for k, op in enumerate(c['ops']):
                b.append('(define s%d (get (lambda () %s)))' % (k, self.expr(op)))
                b.append(' '.join('(show s%d)' % i for i in range(k + 1)))
                for i in range(k + 1):
                    v = c['v'][i]
                    t = None if v is None else self.text(v)
                    w.append('!system-error' if t is None else '%d:%s' % (len(t), t))
            bodies.append(PRE % os.path.join(scratch, FILE) + '\n'.join(b))
            wants.append('\n'.join(w))
        out = []
        for x, w, c in zip(self.mes.run_batch(bodies, scratch, toplevel=True), wants, cases):
            if isinstance(x, dict):
                out.append({'tag': 'died', 'got': x})
            elif x.strip() != w.strip():
                gl, wl = x.strip().split('\n'), w.split('\n')
                bad = [(a[:80], b[:80]) for a, b in zip(gl, wl) if a != b][:2]
                out.append({'tag': 'diff', 'got': [b[0] for b in bad], 'want': [b[1] for b in bad], 'ops': c['ops']})
            else:
                out.append(None)
        return out

    def classify(self, c):
        return any(v is None or sum(r[1] for r in v) > LIMIT // 2 for v in c['v']), \
            sorted({o[0] for o in c['ops']} | {'beyond' if v is None else 'within' for v in c['v']})


if __name__ == '__main__':
    pbt.main(S12())
