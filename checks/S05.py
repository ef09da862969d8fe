"""S05: list, association-list and SRFI-1 procedures behave as specified (reference: Guile)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import pbt, scheme, schemegen

SYMS = ['a', 'b', 'c', 'd', 'foo', 'bar']
STRS = ['', 'a', 'b', 'ab', 'foo', 'a b']


def num(src):
    return str(src.pick([0, 1, 2, 3, 4, 5, 6, 7, -1, -2, 9]) if not src.bool(1, 6) else src.int(-100000, 100000))


def sym(src):
    return "'" + src.pick(SYMS)


def datum(src, d=2):
    k = src.draw(8)
    if k <= 2 or d == 0:
        return str(src.pick([0, 1, 2, 3, 4, 97, 98, 4294967297, 4294967298, 4294967393, -4294967295]))
    if k <= 4:
        return src.pick(SYMS)
    if k == 5:
        return scheme.lit_str(src.pick(STRS))
    if k == 6:
        return '#\\' + src.pick('abx')
    return '(' + ' '.join(datum(src, d - 1) for _ in range(src.int(0, 3))) + ')'


def nlist(src):
    return "'(" + ' '.join(num(src) for _ in range(src.length(0, 12))) + ')'


def dlist(src):
    if src.bool(1, 30):
        return "(iota %d)" % src.int(20, 300)
    return "'(" + ' '.join(datum(src) for _ in range(src.length(0, 8))) + ')'


def alist(src):
    return '(list ' + ' '.join("(cons '%s %s)" % (src.pick(SYMS), num(src)) for _ in range(src.length(0, 6))) + ')'


def dalist(src):
    return '(list ' + ' '.join("(cons '%s %s)" % (datum(src), num(src)) for _ in range(src.length(0, 6))) + ')'


LEAVES = {
    'int': num,
    'idx': lambda s: str(s.int(0, 6)),
    'bool': lambda s: s.pick(['#t', '#f']),
    'sym': sym,
    'datum': lambda s: "'" + datum(s),
    'ints': nlist,
    'lst': dlist,
    'alist': alist,
    'dalist': dalist,
    'ch': lambda s: '#\\' + s.pick('abx'),
    'num2': lambda s: str(s.pick([97, 98, 120, 0])),
    'any': lambda s: s.pick([num, sym, nlist, dlist])(s),
    'pred': lambda s: s.pick(['even?', 'odd?', 'zero?', 'negative?', 'number?', '(lambda (v0) (> v0 2))', '(lambda (v0) (= v0 3))', '(lambda (v0) #f)', '(lambda (v0) #t)']),
    'dpred': lambda s: s.pick(['symbol?', 'number?', 'pair?', 'string?', 'char?', 'null?', 'list?', '(lambda (v0) #f)', '(lambda (v0) #t)']),
    'f1': lambda s: s.pick(['1+', '1-', '-', 'abs', '(lambda (v0) (* v0 v0))', '(lambda (v0) (remainder v0 3))']),
    'f2': lambda s: s.pick(['+', '-', 'max', 'min', '(lambda (v0 w0) (- w0 v0))', '(lambda (v0 w0) (+ v0 (* 2 w0)))']),
    'eqf': lambda s: s.pick(['eq?', 'equal?', 'eqv?', '=']),
}

# (safe n l): an index within l
PRODS = {
    'int': [
        '(+ {int} {int})', '(length {ints})', '(length {lst})', '(apply + {ints})', '(apply max 0 {ints})',
        '(fold + 0 {ints})', '(fold {f2} {int} {ints})', '(fold-right {f2} {int} {ints})',
        '(fold (lambda ({$x:int} {$y:int} {$z:int}) (- {$z} {int!|x,y})) 0 {ints} {ints})',
        '(let (({$l:ints} {ints})) (fold-right (lambda ({$x:int} {$y:int} {$z:int}) (- {int!|x,y} {$z})) 0 {$l} (map {f1} {$l})))',
        '(fold (lambda ({$x:int} {$y:int} {$z:int} {$w:int}) (+ (* 3 {$w}) (- {$x} {$y} {$z}))) 1 (list-head* {ints} 8) {ints} {ints})',
        '(let (({$l:ints} {ints})) (fold-right (lambda ({$x:int} {$y:int} {$z:int} {$w:int}) (- {$x} {$y} {$z} {$w})) 1 {$l} (map {f1} {$l}) (reverse {$l})))',
        '(let (({$l:ints} {ints})) (if (pair? {$l}) (car {$l}) {int}))',
        '(let (({$l:ints} {ints})) (if (pair? {$l}) (last {$l}) {int}))',
        '(let (({$l:ints} {ints})) (if (pair? {$l}) (car (last-pair {$l})) {int}))',
        '(let (({$l:ints} {ints})) (if (pair? {$l}) (list-ref {$l} (remainder {idx} (length {$l}))) {int}))',
        '(or (find {pred} {ints}) {int})', '(let (({$x:int} {int})) {int|x})',
        '(or (assq-ref {alist} {sym}) {int})', '(or (assoc-ref {dalist} {datum}) {int})',
        '(or (reduce* + {ints}) 0)',
        '(count* {pred} {ints})',
        '(if {bool} {int} {int})',
    ],
    'bool': [
        '(and {bool} {bool})', '(not {bool})', '(null? {ints})', '(pair? {lst})', '(list? {any})',
        '(equal? {lst} {lst})', '(equal2? {any} {any})', '(equal2? {lst} {lst})', '(eqv? {int!} {int!})', '(equal? (list->vector {lst}) (list->vector {lst}))', '(let (({$l:lst} {lst})) (equal? (list->vector {$l}) (list->vector (map identity {$l}))))', '(equal? {datum} {datum})', '(eq? {sym} {sym})', '(list? (cons {int} {int}))',
        '(let (({$l:lst} {lst})) (equal? {$l} (append {$l} (list))))',
        '(let (({$l:lst} {lst})) (equal? {$l} (map identity {$l})))',
        '(and (member {datum} {lst}) #t)', '(and (memq {sym} {lst}) #t)', '(and (every* {pred} {ints}) #t)', '(and (any* {pred} {ints}) #t)',
        '(> {int} {int})', '(equal? {any} {any} {any})',
        '(equal? (cons {int} {int}) (cons {int} {int}))',
        '(eq? {ints} {ints})', '(and (pair? {dalist}) #t)',
    ],
    'ints': [
        '(list {int} {int} {int})', '(cons {int} {ints})', '(reverse {ints})', '(append {ints} {ints})',
        '(append {ints} {ints} {ints})', '(append {ints})', '(map {f1} {ints})', '(map {f2} {ints} {ints})',
        '(map (lambda ({$x:int} {$y:int} {$z:int}) (+ {int|x,y,z} {int!|x,y,z})) {ints} {ints} {ints})',
        '(map (lambda ({$x:int}) {int|x}) {ints})',
        '(map (lambda ({$x:int} {$y:int}) {int|x,y}) {ints} {ints})',
        '(filter {pred} {ints})', '(remove {pred} {ints})', '(partition* {pred} {ints})',
        '(filter (lambda ({$x:int}) {bool|x}) {ints})',
        '(filter-map (lambda ({$x:int}) (and {bool|x} {int|x})) {ints})',
        '(filter-map (lambda ({$x:int} {$y:int}) (and {bool|x,y} {int|x,y})) {ints} {ints})',
        '(append-map (lambda ({$x:int}) {ints|x}) (list-head* {ints} 4))',
        '(append-map (lambda ({$x:int} {$y:int}) (list {int!|x} {int!|y})) {ints} {ints})',
        '(delete {int} {ints})', '(delq {int!} {ints})', '(delete-duplicates {ints})', '(delete-duplicates {ints} =)',
        '(list-head* {ints} {idx})', '(list-tail* {ints} {idx})', '(iota {idx})', '(iota {idx} {int})', '(iota {idx} {int!} {int!})',
        '(or (memq {int!} {ints}) (list))', '(or (member {int} {ints}) (list))', '(or (memv {int!} {ints}) (list))',
        '(or (member {int} {ints} (lambda (v0 w0) (= v0 (+ w0 1)))) (list))',
        '(take-while {pred} {ints})', '(make-list {idx} {int})', '(list-copy* {ints})', '(cons* {int} {int} {ints})',
        '(cons* {ints})', '(reverse! (list-copy* {ints}))', '(last-pair* {ints})',
        '(unfold (lambda ({$x:int}) (> {$x} {idx})) (lambda ({$x2:int}) {int|x2}) 1+ 0)',
        '(unfold (lambda ({$x:int}) (> {$x} {idx})) (lambda ({$x2:int}) {int|x2}) 1+ 0 (lambda ({$x3:int}) (list {int!|x3})))',
        '(fold cons (list) {ints})', '(fold-right cons (list) {ints})', '(fold cons* (list) {ints} {ints})',
        '(list-set* {ints} {idx} {int})', '(set-tail* {ints} {ints})', '(apply list {ints})', '(apply append {ints} (list {ints}))',
        '(apply list {int} {int} {ints})', '(apply cons* {int} (list {int} {ints}))',
        '(let (({$l:ints} {ints})) {ints|l})', '(if {bool} {ints} {ints})', '(for-each* {ints})', '(for-each2* {ints} {ints})',
        '(drop-right* {ints} {idx})', '(span* {pred} {ints})', '(list-index* {pred} {ints})',
    ],
    'alist': [
        '(acons {sym} {int} {alist})', '(assq-set! {alist} {sym} {int})', '(reverse {alist})', '(append {alist} {alist})',
        '(alist-delete* {sym} {alist})',
    ],
    'dalist': [
        '(acons {datum} {int} {dalist})', '(assoc-set! {dalist} {datum} {int})', '(append {dalist} {dalist})', '(cons (cons {int} {int}) {dalist})',
    ],
    'lst': [
        '(list {any} {any})', '(cons {any} {lst})', '(append {lst} {lst})', '(reverse {lst})', '(filter {dpred} {lst})', '(remove {dpred} {lst})',
        '(delete {datum} {lst})', '(delete-duplicates {lst})', '(map (lambda ({$x:any}) {any|x}) {lst})', '(map list {lst} {lst})', '(map cons {ints} {lst})',
        '(or (member {datum} {lst}) (list))', '(or (memq {sym} {lst}) (list))', '(list-head* {lst} {idx})', '(list-tail* {lst} {idx})', '(list-set* {lst} {idx} {any})',
        '(map car {dalist})', '(map cdr {alist})', '(list (assoc {datum} {dalist}) (assq {sym} {alist}) (assv {int!} (map (lambda (v0) (cons v0 v0)) {ints})))',
        '(list (find {dpred} {lst}))', '(or (memq {ch!} {lst}) (memq {int!} {lst}) (list))', '(list (assq {ch!} (map (lambda (v0) (cons v0 1)) {lst})))', '(list (assq {num2!} (map (lambda (v0) (cons v0 1)) {lst})))', '(append-map list {lst} {lst})', '(take-while {dpred} {lst})', '(delete-duplicates {lst} eq?)',
        '(list (list-index* {pred} {ints}))', '(map (lambda ({$p:any}) (cons {$p} {int})) {lst})', '(cons* {any} {any} {lst})',
        '(append {lst} {ints})', '(pairlis* {lst} {lst} {alist})', '(pairlis {sym} {lst} {alist})', '(list (xassq {sym} (map (lambda (v0) (cons 1 v0)) {lst})))', '(map core:car* {lst})', '(reverse {lst})', '(list (and=> {bool} not) (and=> (find number? {lst}) 1+))', '(list (list-index {dpred} {lst}) (list-index {pred} {ints}) (list-index = {ints} {ints}))', '(list (any {dpred} {lst}) (every {dpred} {lst}) (any < {ints} {ints}) (every < {ints} {ints}))', '(lset-union eq? {lst} {lst})', '(lset-intersection equal? {lst} {lst})', '(lset-difference equal? {lst} {lst})', '(list (assv-ref (map (lambda (v0) (cons v0 v0)) {ints}) {int!}))', '(map caar* {lst})', '(core:reverse! (list-copy* {lst}) (list))', '(core:reverse! (list-copy* {lst}) {ints})', '(append-reverse {lst} {ints})', '(list (equal? {lst} {lst}))', '(apply map list (list {ints} {lst}))',
        '(map car* {lst})', '(map cddr* {lst})', '(list (append {ints} {int}))', '(list (append))', '(fold cons* (list) {lst} {ints})',
    ],
    'any': ['{int}', '{ints}', '{lst}', '{sym}', '{bool}', '{datum}', '(cons {any} {any})', '{alist}'],
}

# helpers defined the same way for both systems (they make partial procedures total)
HELP = r'''
(define (list-head* l n) (let ((k (length l))) (list-head l (if (< n k) n k))))
(define (list-tail* l n) (let ((k (length l))) (list-tail l (if (< n k) n k))))
(define (drop-right* l n) (let ((k (length l))) (drop-right l (if (< n k) n k))))
(define (list-copy* l) (map (lambda (x) x) l))
(define (last-pair* l) (if (pair? l) (last-pair l) (list)))
(define (list-set* l k v) (let ((m (list-copy* l))) (if (< k (length m)) (list-set! m k v)) m))
(define (set-tail* l m) (let ((k (list-copy* l))) (if (pair? k) (begin (set-cdr! (last-pair k) m) k) m)))
(define (for-each* l) (let ((acc (list))) (for-each (lambda (x) (set! acc (cons x acc))) l) acc))
(define (for-each2* l m) (let ((acc (list))) (for-each (lambda (x y) (set! acc (cons (- x y) acc))) (list-head* l (length m)) m) acc))
(define (any* p l) (and (pair? l) (or (p (car l)) (any* p (cdr l)))))
(define (every* p l) (or (null? l) (and (p (car l)) (every* p (cdr l)))))
(define (count* p l) (length (filter p l)))
(define (reduce* f l) (and (pair? l) (fold f (car l) (cdr l))))
(define (partition* p l) (append (filter p l) (remove p l)))
(define (span* p l) (let ((h (take-while p l))) (list-tail l (length h))))
(define (list-index* p l) (let loop ((l l) (i 0)) (if (null? l) (list) (if (p (car l)) (list i) (loop (cdr l) (+ i 1))))))
(define (alist-delete* k l) (filter (lambda (e) (not (eq? (car e) k))) l))
(define (pairlis* x y a) (let ((n (if (< (length x) (length y)) (length x) (length y)))) (pairlis (list-head x n) (list-head y n) a)))
(define (core:car* x) (if (pair? x) (core:car x) x))
(define (caar* x) (if (and (pair? x) (pair? (car x))) (list (caar x) (cdar x)) x))
(define (car* x) (if (pair? x) (car x) x))
(define (cddr* x) (if (and (pair? x) (pair? (cdr x))) (cddr x) x))
'''


class S05(schemegen.SchemeDiff):
    id = 'S05'
    quick = 70000
    thorough = 2000000
    quick_s = 20
    mes_modules = ['(mes scm)', '(srfi srfi-1)', '(srfi srfi-13)']
    mes_header = HELP
    guile_header = '(use-modules (srfi srfi-1))\n' + HELP + r'''
(define equal2? equal?)
(define (xassq x a) (find (lambda (e) (eq? x (cdr e))) a))
(define (pairlis x y a) (cond ((null? x) a) ((pair? x) (cons (cons (car x) (car y)) (pairlis (cdr x) (cdr y) a))) (else (cons (cons x y) a))))
(define (core:reverse! x t) (if (null? x) t (core:reverse! (cdr x) (cons (car x) t))))
(define core:car car)
'''
    rule = ('a case is one generated typed expression over list, alist and SRFI-1 procedures (depth <= 5, nested '
            'procedures as arguments), evaluated by mes and by Guile; non-trivial = at least three nested calls')
    assumptions = ['Guile 3.0 implements the list procedures as specified',
                   'calls stay inside each procedure\'s documented domain (proper lists, indices within range)']

    def gen(self, src):
        g = schemegen.Gen(src, PRODS, LEAVES)
        t = src.pick(['ints', 'lst', 'ints', 'lst', 'int', 'bool', 'alist', 'dalist'])
        e = g.gen(t, src.int(1, 5))
        return {'e': '(write %s)' % e}

    def classify(self, c):
        names = schemegen.used_names(c['e'], KNOWN)
        return len(names) >= 2, names[:12]


KNOWN = schemegen.proc_names(PRODS)

if __name__ == '__main__':
    pbt.main(S05())
