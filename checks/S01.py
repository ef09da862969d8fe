"""S01: garbage collection does not change what a program computes (reference: the same program in an arena never collected)."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import pbt, scheme, build, proggen

BOOT = r'''(define (list . r) r)
(define (not x) (if x #f #t))
(define (cadr x) (car (cdr x)))
(define (map1 f l) (if (null? l) (list) (cons (f (car l)) (map1 f (cdr l)))))
(define (mk n) (if (= n 0) (list) (cons n (mk (- n 1)))))
(define (mkt n a) (if (= n 0) a (mkt (- n 1) (cons n a))))
(define (mks n) (if (= n 0) "" (string-append "ab" (mks (- n 1)))))
(define (app a b) (if (pair? a) (cons (car a) (app (cdr a) b)) b))
(define (rev l a) (if (pair? l) (rev (cdr l) (cons (car l) a)) a))
(define (len l) (if (pair? l) (+ 1 (len (cdr l))) 0))
(define (churn n) (if (= n 0) 0 (begin (cons n (make-vector 3 n)) (churn (- n 1)))))
(define (for1 f l) (if (pair? l) (begin (f (car l)) (for1 f (cdr l))) #f))
(define (counter n) (lambda (d) (set! n (+ n d)) n))
(define (gsym s n) (string->symbol (string-append s (list->string (map1 (lambda (i) (integer->char (+ 65 i))) (mk n))))))
(define (compose f g) (lambda (x) (f (g x))))
(define (deep n f) (if (= n 0) (f) (cons n (deep (- n 1) f))))
(define (table) (make-hash-table 7))
(define (show x) (core:write x) (core:display "\n"))
(define-macro (swap! a b) (list (list 'lambda (list 'tmp) (list 'set! a b) (list 'set! b 'tmp)) a))
(define-macro (when1 c . b) (list 'if c (cons 'begin b) #f))
(define kk #f)
(define kn 0)
(define v0 (list 1 2 3))
(define v1 "str")
(define v2 (make-vector 3 0))
(define v3 (table))
(define v4 (counter 5))
(define v5 'sym)
(define v6 (cons 1 2))
'''


class Heap:
    """Programs over seven typed globals: list string vector table closure symbol pair."""

    def __init__(self, s):
        self.s = s
        self.f = set()

    def small(self):
        s = self.s
        return s.pick(['%d' % s.int(0, 999), "'y%d" % s.int(0, 5), '"s%d"' % s.int(0, 99), '#\\%s' % s.pick('abc'), '(list 1 %d)' % s.int(0, 9),
                       '(cons %d "t")' % s.int(0, 9), '(string-append "p" "q%d")' % s.int(0, 9), '(gsym "g" %d)' % s.int(1, 4), '#:kw%d' % s.int(0, 3)])

    def any(self):
        s = self.s
        return s.pick(['v0', 'v1', 'v5', 'v6', '(vector->list v2)', self.small(), '(map1 (lambda (x) (cons x v5)) v0)', '(string->list v1)', '(v4 1)'])

    def op(self, d):
        s = self.s
        k = s.draw(34)
        a = self.any
        if k == 0:
            return '(set! v0 (cons %s v0))' % a()
        if k == 1:
            return '(set! v0 (mk %d))' % s.int(1, 60)
        if k == 2:
            return '(set! v0 (rev v0 (list)))'
        if k == 3:
            return '(set! v0 (app (mkt %d (list)) (list %s)))' % (s.int(0, 20), a())
        if k == 4:
            self.f.add('string')
            return '(set! v1 (mks %d))' % s.int(0, 40)
        if k == 5:
            self.f.add('string')
            return '(set! v1 (string-append "x" (list->string (rev (string->list v1) (list)))))'
        if k == 6:
            self.f.add('symbol')
            return '(set! v5 (gsym "z" %d))' % s.int(1, 9)
        if k == 7:
            self.f.add('vector')
            return '(set! v2 (make-vector %d %s))' % (s.int(1, 40), a())
        if k == 8:
            self.f.add('vector')
            return '(set! v2 (list->vector (cons %s v0)))' % a()
        if k in (9, 10):
            self.f.add('vector')
            return '(vector-set! v2 0 %s)' % self.small()
        if k in (11, 12):
            self.f.add('table')
            return "(hashq-set! v3 'y%d %s)" % (s.int(0, 9), a())
        if k == 13:
            self.f.add('table')
            return '(set! v3 (table))'
        if k == 14:
            self.f.add('table')
            return "(show (hashq-ref v3 'y%d %s))" % (s.int(0, 9), self.small())
        if k == 15:
            self.f.add('closure')
            return '(set! v4 (counter %d))' % s.int(0, 9)
        if k == 16:
            self.f.add('closure')
            return '(set! v4 (compose v4 (lambda (x) (+ x (len v0)))))' if s.bool(1, 3) else '(show (v4 %d))' % s.int(0, 5)
        if k == 17:
            self.f.add('mutate')
            return '(set-car! v6 %s)' % self.small()
        if k == 18:
            self.f.add('mutate')
            return '(set-cdr! v6 %s)' % self.small()
        if k == 19:
            return '(set! v6 (cons %s %s))' % (a(), a())
        if k == 20:
            self.f.add('churn')
            return '(churn %d)' % s.pick([10, 50, 200, 50, 10, 800])
        if k == 21:
            self.f.add('gc')
            return '(gc)'
        if k == 22:
            self.f.add('continuation')
            # re-entered twice through the saved continuation
            return '(begin (set! kn 0) (show (+ 100 (call-with-current-continuation (lambda (k) (set! kk k) (len v0))))) %s (set! kn (+ kn 1)) (if (< kn 3) (kk kn) #f))' % (
                s.pick(['(churn 30)', '(gc)', '(set! v0 (cons kn v0))', '(show kn)']))
        if k == 23:
            self.f.add('escape')
            return '(show (call-with-current-continuation (lambda (k) (deep 20 (lambda () (k (begin %s %s)))))))' % (self.op(0), self.small())
        if k == 24:
            self.f.add('deep')
            return '(show (len (deep %d (lambda () (begin %s v0)))))' % (s.int(1, 100), self.op(0))
        if k == 25:
            self.f.add('macro')
            return '(begin (swap! v0 v0) (when1 (pair? v0) (show (len v0))))'
        if k == 26 and s.bool():
            # a values object, keyword, port or special that is alive over a collection
            self.f.add('values')
            g = s.pick(['(gc)', '(churn 20)', '(begin (gc) (churn 30))', '(begin (churn 10) (gc))'])
            return s.pick([
                '((lambda (r) (begin %s (call-with-values (lambda () r) (lambda (a b c) (show (list a b c)))))) (values v5 %s (string-append v1 "!")))' % (g, self.small()),
                '((lambda (r) (begin %s (show (keyword->string r)))) (symbol->keyword v5))' % g,
                '((lambda (r) (begin %s (show (r 2)))) ((lambda (y) (lambda (x) (list x y v5))) %s))' % (g, self.small()),
                '((lambda (r) (begin %s (show (call-with-values (lambda () (r 2)) list)))) (lambda (x) (values x v1 v5)))' % g,
            ])
        if k == 26:
            self.f.add('values')
            return '(call-with-values (lambda () (values v5 %s (string-append v1 "!"))) (lambda (a b c) %s (show (list a b c))))' % (
                self.small(), s.pick(['(gc)', '(churn 20)', '#f']))
        if k == 27:
            self.f.add('apply')
            return '(show (core:apply list (map1 (lambda (x) (cons x x)) v0) (current-module)))'
        if k == 28:
            self.f.add('symbol')
            return "(show (eq? (gsym \"z\" 3) (begin %s (gsym \"z\" 3))))" % s.pick(['(gc)', '(churn 40)'])
        if k == 29:
            self.f.add('keyword')
            return '(show (list (symbol->keyword v5) (keyword->string #:abc) (symbol->string v5)))'
        if k == 30 and d > 0:
            self.f.add('loop')
            return '(for1 (lambda (i) %s) (mk %d))' % (self.op(d - 1), s.int(1, 12))
        if k == 31:
            self.f.add('eval')
            return "(show (core:eval (list 'cons ''%s (list 'quote v5)) (current-module)))" % s.pick(['q', 'r'])
        if k == 32:
            self.f.add('port')
            return '(begin (set-current-input-port (open-input-string "(a (b) c) rest")) (show (read-env (list))) %s (show (read-env (list))) (set-current-input-port 0))' % (
                s.pick(['(gc)', '(churn 40)', '#f']))
        return '(show %s)' % s.pick(['v0', 'v1', 'v2', 'v5', 'v6', '(vector->list v2)'])

    def program(self):
        s = self.s
        n = s.length(3, 40)
        ops = [self.op(2) for _ in range(n)]
        return ops


TAIL = "(show v0) (show v1) (show v2) (show v5) (show v6) (show (v4 0)) (core:display-error (gc-stats)) (show (map1 (lambda (k) (hashq-ref v3 k #f)) '(y0 y1 y2 y3 y4 y5 y6 y7 y8 y9)))"
COUNT = re.compile(rb'gc-count \. (\d+)')


class S01(pbt.Check):
    id = 'S01'
    quick = 2600
    thorough = 120000
    batch = 8
    quick_s = 28
    rule = ('a case is one program and two or three arena configurations (initial size, jam, safety margin, stack); small programs run on a boot file of '
            'their own so that the heap is a few thousand cells and a collection happens every few evaluation steps (at every step with a full safety '
            'margin), others run on the full system; non-trivial = at least one run collected and the program uses two kinds of heap object')
    assumptions = ['a run that stops with an out-of-memory or stack-full message is allowed (and counted), a different output is not']

    def prepare(self):
        self.t = build.tree()
        self.exe = self.t.mes()
        self.full = scheme.Mes(modules=['(mes scm)', '(srfi srfi-1)', '(srfi srfi-9)'], prelude=proggen.PRE + RECORDS, stack=20000)

    def gen(self, src):
        if src.draw(24) == 23:
            p = proggen.Prog(src)
            forms = []
            for f in p.program():
                if src.bool(1, 5):
                    forms.append(src.pick(RECUSE))
                if src.bool(1, 3):
                    forms.append('(gc)')
                forms.append(f)
            cfg = []
            for _ in range(2):
                cfg.append([src.int(420000, 900000), src.pick([900000, 900000, 300000]), src.pick([None, 3000, 20000, 100000])])
            return {'k': 'full', 'forms': forms, 'cfg': cfg, 'f': sorted(p.feats)}
        h = Heap(src)
        ops = h.program()
        cfg = []
        for _ in range(3):
            arena = src.weighted([(4, src.int(10500, 13000)), (3, src.int(12000, 20000)), (1, src.int(20000, 50000))])
            jam = src.weighted([(4, arena), (1, src.int(5000, 12000)), (1, None)])
            safety = src.weighted([(8, None), (5, src.int(50, 2000)), (1, src.int(arena // 2, arena))])
            cfg.append([arena, jam, safety])
        return {'k': 'core', 'forms': ops, 'cfg': cfg, 'f': sorted(h.f)}

    def classify(self, c):
        return len(c['f']) >= 2, c['f'] + [c['k']]

    def env(self, arena, jam, safety, stack=20000):
        e = self.t.mes_env(arena, arena, stack)
        if jam is not None:
            e['MES_JAM'] = str(jam)
        if safety is not None:
            e['MES_SAFETY'] = str(safety)
        return e

    def one(self, c, scratch, env, f):
        if c['k'] == 'core':
            env = dict(env)
            env['MES_BOOT'] = f
            env.pop('MES_PREFIX', None)
            rc, o, e = scheme.run_proc([self.exe], env, scratch, 20)
        else:
            rc, o, e = scheme.run_proc([self.exe, '--no-auto-compile', f], env, scratch, 20)
        return rc, o, e

    def run(self, cases, scratch):
        out = []
        for c in cases:
            out.append(self.judge(c, scratch))
        return out

    def judge(self, c, scratch):
        f = os.path.join(scratch, 'p%d.scm' % os.getpid())
        if c['k'] == 'core':
            text = BOOT + '\n'.join(c['forms']) + '\n' + TAIL + '\n'
        else:
            text = scheme.PRE_MES + scheme.mes_modules(self.full.modules) + self.full.prelude + '\n'.join(c['forms']) + '\n(exit 0)\n'
        with open(f, 'w') as fh:
            fh.write(text)
        ref = self.one(c, scratch, self.env(8000000, None, 1, 400000 if c['k'] == 'full' else 60000), f)
        if ref[0] == 'timeout':
            return {'skip': True}
        if ref[0] != 0:
            return {'tag': 'reference-run', 'got': [ref[0], ref[1].decode('latin1')[-300:], ref[2].decode('latin1')[-300:]], 'want': 'exit 0'}
        for cf in c['cfg']:
            stk = 60000 if c['k'] == 'core' else 400000
            rc, o, e = self.one(c, scratch, self.env(cf[0], cf[1], cf[2], stk), f)
            if rc == 'timeout' and not c.get('must'):
                # collecting at every step can be slow; not a verdict unless far beyond
                return {'tag': 'hang', 'got': ['timeout', cf], 'want': 'ends'} if not (cf[2] and cf[2] > cf[0] // 3) else None
            if rc != 0 and not c.get('must') and (b'out of memory' in e or b'STACK FULL' in e) and ref[1].startswith(o):
                self.note('config-out-of-memory')
                continue
            if rc == 0 and o == ref[1]:
                m = COUNT.search(e)
                n = int(m.group(1)) if m else 0
                self.note('config-never-collected' if m and n == 0 else 'config-same-output')
                self.note('collections', n)
                continue
            return {'tag': 'differs', 'got': [rc, o.decode('latin1')[-600:], e.decode('latin1')[-300:], cf], 'want': ref[1].decode('latin1')[-600:]}
        return None


RECORDS = r'''
(define-record-type <vfr> (make-vfr a b) vfr? (a vfr-a set-vfr-a!) (b vfr-b))
(define vfr-x (make-vfr 1 (list 2 3)))
(define (vfr-burn n) (if (= n 0) 0 (begin (cons n n) (vfr-burn (- n 1)))))
'''
RECUSE = ['(begin (set-vfr-a! vfr-x (list 1 2 (vfr-a vfr-x))) (write (vfr-b vfr-x)))', '(vfr-burn 20000)',
          '(begin (write (vfr? vfr-x)) (write (vfr-b (make-vfr vfr-x "s"))))', '(vfr-burn 100000)']

if __name__ == '__main__':
    pbt.main(S01())
