"""S06: string, character, symbol and character-set procedures behave as specified (reference: Guile)."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import pbt, scheme, schemegen

ALPHA = 'abcABCxyzXYZ019 -_.,:;/+*=<>?!@$%&^~#()[]{}|\'`'


def ch(src):
    k = src.draw(8)
    if k <= 4:
        c = src.pick('abcABx ')
    elif k == 5:
        c = src.pick(ALPHA)
    elif k == 6:
        c = src.pick('\n\t')
    else:
        c = src.pick('azAZ09 ~!`@[{/:"\\')
    return c


def chlit(src):
    c = ch(src)
    return '#\\' + {' ': 'space', '\n': 'newline', '\t': 'tab'}.get(c, c)


def rawstr(src):
    k = src.draw(12)
    if k == 0:
        return ''
    n = src.length(0, 24) if k < 11 else src.pick([31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 300, 1000])
    if n > 30:
        u = [ch(src) for _ in range(3)]
        return ''.join(u[i % 3] if i % 7 else 'q' for i in range(n))
    return ''.join(ch(src) for _ in range(n))


def string(src):
    return scheme.lit_str(rawstr(src))


def zl(s):
    return '(list ' + ' '.join(s.pick(['#\\a', '#\\b', '#\\nul']) for _ in range(s.int(0, 4))) + ')'


LEAVES = {
    'str': string,
    'ch': chlit,
    'idx': lambda s: str(s.int(0, 9)),
    'int': lambda s: str(s.pick([0, 1, 2, 3, 7, 10, -1, -5, 42, 255, 65536, -123456, 4294967296])),
    'bool': lambda s: s.pick(['#t', '#f']),
    'zs': lambda s: '(list->string %s)' % zl(s),
    'zl': lambda s: zl(s),
    'hs': lambda s: '(list->string (map integer->char %s))' % LEAVES['codes'](s),
    'codes': lambda s: '(list ' + ' '.join(str(s.pick([65, 98, 1, 127, 128, 129, 200, 233, 254, 255, 128 + s.draw(128)])) for _ in range(s.int(0, 5))) + ')',
    'kw': lambda s: s.pick(['#:a', '#:foo', '#:b-c', '#:foo-bar', '#:A', '(symbol->keyword (quote foo))']),
    'chars': lambda s: '(list ' + ' '.join(chlit(s) for _ in range(s.int(0, 5))) + ')',
    'strs': lambda s: '(list ' + ' '.join(string(s) for _ in range(s.int(0, 4))) + ')',
    'sym': lambda s: "'" + s.pick(['a', 'b', 'foo', 'foo-bar', 'x!', 'A', '->b', 'a.b', '+', '...', 'list->x']),
    'cpred': lambda s: s.pick(['char-alphabetic?', 'char-numeric?', 'char-whitespace?', '(lambda (v0) (char=? v0 #\\a))', '(lambda (v0) (char>? v0 #\\M))']),
    'cfun': lambda s: s.pick(['char-upcase', 'char-downcase', '(lambda (v0) v0)', '(lambda (v0) (if (char=? v0 #\\space) #\\_ v0))']),
    'cset': lambda s: s.pick(['char-set:digit', 'char-set:whitespace', 'char-set:lower-case', 'char-set:upper-case', '(char-set #\\a #\\b #\\space)', '(string->char-set "abx ")', '(char-set-complement (char-set #\\space #\\a))', '(char-set-adjoin (char-set #\\x) #\\y #\\a)']),
}

PRODS = {
    'str': [
        '(string-append {str} {str})', '(string-append {str} {str} {str})', '(string-append {str})', '(string-append)',
        '(apply string-append {strs})', '(list->string {chars})', '(list->string (reverse (string->list {str})))', '(string-copy {str})',
        '(sub* {str} {idx} {idx})', '(sub1* {str} {idx})', '(take* {str} {idx})', '(drop* {str} {idx})', '(drop-right* {str} {idx})',
        '(number->string {int})', '(number->string {int} 16)', '(symbol->string {sym})', '(make-string {idx} {ch})',
        '(string-join {strs} {str})', '(string-join {strs})', "(string-join {strs} {str} 'infix)", "(string-join {strs} {str} 'prefix)", "(string-join {strs} {str} 'suffix)",
        '(string-trim {str})', '(string-trim-right {str})', '(string-trim-both {str})', '(string-map {cfun} {str})',
        '(string-upcase {str})', '(string-downcase {str})', '(string-delete {ch} {str})', '(string-delete {cpred} {str})',
        '(let (({$s:str} {str})) {str|s})', '(if {bool} {str} {str})', '(replace* {str} {str} {idx} {idx})',
        '(string-fold (lambda ({$c:ch} {$a:str}) (string-append {$a} (list->string (list {$c} {ch!|c})))) {str} {str})',
        '(string-fold-right (lambda ({$c:ch} {$a:str}) (string-append {$a} (list->string (list {$c})))) {str} {str})',
        '(reverse-list->string {chars})', '(substring/shared {str} 0)', '(let (({$s:str} {str})) (string-append {$s} "-" {$s}))',
        '(if (string-prefix? {str} {str}) {str} {str})', '(let (({$l:strs} {strs})) (if (pair? {$l}) (car {$l}) {str}))',
        '(with-output-to-string (lambda () (display {str}) (write {any})))', '(with-output-to-string (lambda () (write {str})))',
    ],
    'ch': [
        '(char-upcase {ch})', '(char-downcase {ch})', '(integer->char (char->integer {ch}))', '(let (({$s:str} {str})) (if (string-null? {$s}) {ch} (string-ref {$s} (remainder {idx} (string-length {$s})))))',
        '(let (({$l:chars} {chars})) (if (pair? {$l}) (car {$l}) {ch}))', '(integer->char (+ 32 (remainder (char->integer {ch}) 90)))',
    ],
    'int': [
        '(string-length {hs})', '(apply + {codes})', '(length {codes})', '(string-length (symbol->string (keyword->symbol {kw})))', '(or (let (({$s:hs} {hs})) (contains* (string-append {hs} {$s} {hs}) {$s})) -1)',
        '(string-length {zs})', '(apply + (map char->integer (string->list {zs})))', '(or (string-index {zs} #\\b) -1)',
        '(string-length {str})', '(char->integer {ch})', '(or (string-index {str} {ch}) -1)', '(or (string-rindex {str} {ch}) -1)', '(or (string-index {str} {cpred}) -1)',
        '(or (string-rindex {str} {cpred}) -1)', '(or (contains* {str} {str}) -1)', '(or (let (({$s:str} {str})) (contains* (string-append {str} {$s} {str}) {$s})) -1)', '(length {strs})', '(length {chars})', '(or (string->number (number->string {int})) 0)',
        '(string-fold (lambda ({$c:ch} {$n:int}) (+ {$n} 1)) 0 {str})', '(+ {int} {int})', '(string->number (number->string {int} 16) 16)', '(or (contains* {str} (sub* {str} {idx} {idx})) -1)',
    ],
    'bool': [
        '(eq? {kw} {kw})', '(eq? {kw!} (symbol->keyword (keyword->symbol {kw!})))', '(and (memq {kw} (list {kw} {kw} {kw})) #t)', '(and (assq {kw} (list (cons {kw} 1) (cons {kw} 2))) #t)', '(keyword? {kw})', '(symbol? {kw})', '(equal? {kw} {kw})', '(and (member {kw} (list {kw} {sym} {str})) #t)',
        '(string=? {hs} {hs})', '(equal? {hs} {hs})', '(let (({$s:hs} {hs})) (equal? {$s} (list->string (map integer->char (map char->integer (string->list {$s}))))))', '(eq? (string->symbol {hs}) (string->symbol {hs}))', '(string-prefix? {hs} {hs})', '(string-suffix? {hs} {hs})', '(and (contains* {hs} {hs}) #t)',
        '(let (({$s:hs} {hs})) (eq? (string->symbol {$s}) (string->symbol (string-append {$s} ""))))', '(char<? (integer->char (apply max 1 {codes})) (integer->char 200))', '(char-set= {cset} {cset})', '(char-set? {any})',
        '(string=? {str} {str})', '(let (({$s:str} {str})) (string=? {$s} (string-copy {$s})))', '(string-null? {str})', '(string? {any})', '(char? {any})', '(symbol? {any})',
        '(string-prefix? {str} {str})', '(string-suffix? {str} {str})', '(let (({$s:str} {str})) (string-prefix? (take* {$s} {idx}) {$s}))', '(let (({$s:str} {str})) (string-suffix? (drop* {$s} {idx}) {$s}))',
        '(char=? {ch} {ch})', '(char<? {ch} {ch})', '(char>? {ch} {ch})', '(char<=? {ch} {ch})', '(char>=? {ch} {ch})', '(char-alphabetic? {ch})', '(char-numeric? {ch})', '(char-whitespace? {ch})',
        '(equal? {str} {str})', '(eq? {sym} {sym})', '(eq? {sym} (string->symbol (symbol->string {sym})))', '(let (({$s:str} {str})) (eq? (string->symbol {$s}) (string->symbol (string-append {$s} ""))))', '(eq? (string->symbol {str}) (string->symbol {str}))', '(char-set-contains? {cset} {ch})', '(not {bool})',
        '(eq? (symbol-append {sym} {sym}) (symbol-append {sym} {sym}))', '(equal? {strs} {strs})', '(string= {str} {str})', '(let (({$s:str} {str})) (string= {$s} (string-append {str!} {$s}) 0))', '(keyword? {any})',
        '(string=? {zs} {zs})', '(equal? {zs} {zs})', '(let (({$s:zs} {zs})) (string=? (string-append {$s} {zs|s}) (string-append {$s} {zs|s})))', '(eq? (string->symbol {zs}) (string->symbol {zs}))', '(string-null? {zs})', '(let (({$s:zs} {zs})) (string=? {$s} (string-copy {$s})))',
    ],
    'chars': ['(string->list {str})', '(append {chars} (string->list (symbol->string (keyword->symbol {kw}))))', '(map {cfun} {chars})', '(filter {cpred} {chars})', '(reverse {chars})', '(append {chars} {chars})'],
    'strs': ['(string-split {str} {ch})', '(string-split (string-join {strs} "-") #\\-)', '(string-tokenize {str} {cset})', '(map string-upcase {strs})', '(cons {str} {strs})', '(map symbol->string (list {sym} {sym}))', '(map (lambda ({$s:str}) {str|s}) {strs})', '(map number->string (list {int} {int}))'],
    'sym': ['(string->symbol (symbol->string {sym}))', '(symbol-append {sym} {sym})', '(string->symbol (string-append "q" (symbol->string {sym})))'],
    # strings with NUL characters: only looked at by comparison, length and character code
    'zs': ['(list->string {zl})', '(list->string {zl})', '(string-append {zs} {zs})', '(string-append {zs} {str})', '(sub* {zs} {idx} {idx})', '(string-copy {zs})', '(make-string {idx} #\\nul)', '(let (({$s:zs} {zs})) (string-append {$s} {zs|s} {$s}))', '(symbol->string (string->symbol {zs}))', '(list->string (reverse (string->list {zs})))'],
    # strings with bytes above 127: looked at by comparison, length, position and character code
    'hs': ['(list->string (map integer->char {codes}))', '(list->string (map integer->char {codes}))', '(string-append {hs} {hs})', '(string-append {hs} {str})', '(sub* {hs} {idx} {idx})', '(string-copy {hs})',
           '(make-string {idx} (integer->char 200))', '(symbol->string (string->symbol {hs}))', '(list->string (reverse (string->list {hs})))', '(string-join (list {hs} {hs}) {hs})', '(take* {hs} {idx})', '(drop* {hs} {idx})',
           '(string-trim {hs})', '(string-map (lambda ({$c:ch}) {$c}) {hs})', '(apply string-append (string-split {hs} (integer->char 200)))', '(string-delete (integer->char 200) {hs})', '(symbol->string (symbol-append (string->symbol {hs}) {sym}))',
           '(with-output-to-string (lambda () (display {hs})))', '(replace* {hs} {hs} {idx} {idx})'],
    'codes': ['(map char->integer (string->list {hs}))', '(map char->integer (string->list {hs}))', '(append {codes} {codes})', '(filter (lambda (v0) (> v0 200)) {codes})', '(let (({$s:hs} {hs})) (map (lambda (v0) (char->integer (string-ref {$s} v0))) (iota (string-length {$s}))))',
              '(string-fold (lambda (v0 w0) (cons (char->integer v0) w0)) (list) {hs})', '(map string-length (string-split {hs} (integer->char 233)))', '(list (or (string-index {hs} (integer->char 200)) 1) (or (string-rindex {hs} (integer->char 255)) 2))'],
    'kw': ['(symbol->keyword {sym})', '(symbol->keyword (keyword->symbol {kw}))', '(symbol->keyword (symbol-append (keyword->symbol {kw}) {sym}))', '(if {bool} {kw} {kw})'],
    'any': ['{str}', '{ch}', '{int}', '{sym}', '{strs}', '{chars}', '{bool}'],
}
LEAVES['any'] = lambda s: s.pick([string, chlit, LEAVES['int'], LEAVES['sym']])(s)

HELP = r'''
(define (clip n k) (if (< n k) n k))
(define (sub* s i j) (let* ((k (string-length s)) (i (clip i k)) (j (clip j k))) (if (< i j) (substring s i j) (substring s j i))))
(define (sub1* s i) (substring s (clip i (string-length s))))
(define (take* s i) (string-take s (clip i (string-length s))))
(define (drop* s i) (string-drop s (clip i (string-length s))))
(define (drop-right* s i) (string-drop-right s (clip i (string-length s))))
(define (replace* s t i j) (let* ((k (string-length s)) (i (clip i k)) (j (clip j k))) (if (< i j) (string-replace s t i j) (string-replace s t j i))))
(define (contains* s t) (if (string-null? t) 0 (string-contains s t)))
'''
# Mes has only ASCII character sets; the Guile side uses the same members.
GHEAD = r'''(use-modules (srfi srfi-1) (srfi srfi-13) (srfi srfi-14))
(define char-set:digit (string->char-set "0123456789"))
(define char-set:lower-case (string->char-set "abcdefghijklmnopqrstuvwxyz"))
(define char-set:upper-case (string->char-set "ABCDEFGHIJKLMNOPQRSTUVWXYZ"))
'''


class S06(schemegen.SchemeDiff):
    id = 'S06'
    quick = 40000
    thorough = 400000
    quick_s = 20
    mes_modules = ['(mes scm)', '(srfi srfi-1)', '(srfi srfi-13)', '(srfi srfi-14)', '(mes guile)']
    mes_header = HELP
    guile_header = GHEAD + HELP
    rule = ('a case is one generated typed expression over string, character, symbol and character-set procedures '
            '(depth <= 5; strings of 0-1000 ASCII characters incl. quotes, backslashes, newlines, tabs), evaluated by '
            'mes and by Guile and written; non-trivial = at least two different procedures')
    assumptions = ['Guile 3.0 implements the string procedures as specified',
                   'ASCII characters; indices inside the string']

    def gen(self, src):
        g = schemegen.Gen(src, PRODS, LEAVES)
        t = src.pick(['str', 'str', 'bool', 'int', 'strs', 'chars', 'ch', 'sym'])
        e = g.gen(t, src.int(1, 5))
        if src.draw(6) == 0:
            t = src.pick(['codes', 'kw', 'codes'])
            e = g.gen(t, src.int(1, 5))
        return {'e': '(%s %s)' % (src.pick(['write', 'display']), e)}

    def classify(self, c):
        names = schemegen.used_names(c['e'], KNOWN)
        return len(names) >= 2, names[:12]


KNOWN = schemegen.proc_names(PRODS)

if __name__ == '__main__':
    pbt.main(S06())
