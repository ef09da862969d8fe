"""S07: vectors, hash tables, records and variables keep exactly what was stored (model: Python)."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import pbt, scheme

SYM = ['a', 'b', 'c', 'foo', 'bar', 'quux', 'x1', 'list->x', '+', 'zz']
SYM2 = ['k%d' % i for i in range(12)] + ['ka%d' % i for i in range(12)]
STR2 = ['k%d' % i for i in range(12)] + ['\xe9', '\xe9\xff', '\x80a', '\xe9\xfe']
STR = ['', 'a', 'b', 'ab', 'ba', 'foo', 'A', 'a b', 'abc', 'acb']


class Pair:
    """A mutable pair of the model."""

    def __init__(self, car, cdr):
        self.car, self.cdr = car, cdr

    def reaches(self, other):
        seen, todo = set(), [self]
        while todo:
            x = todo.pop()
            if x is other:
                return True
            if isinstance(x, Pair) and id(x) not in seen:
                seen.add(id(x))
                todo += [x.car, x.cdr]
        return False

    def size(self):
        n, todo = 0, [self]
        while todo and n < 200:
            x = todo.pop()
            if isinstance(x, Pair):
                n += 1
                todo += [x.car, x.cdr]
        return n

    def spine(self):
        x, out = self, []
        while isinstance(x, Pair):
            out.append(x)
            x = x.cdr
        return out, x


NIL = ('list', [])


def from_list(vs, tail=NIL):
    for v in reversed(vs):
        tail = Pair(v, tail)
    return tail


def wr(v):
    """How mes writes a model value."""
    if v is True:
        return '#t'
    if v is False:
        return '#f'
    if isinstance(v, int):
        return str(v)
    if isinstance(v, Pair):
        out = []
        while isinstance(v, Pair):
            out.append(wr(v.car))
            v = v.cdr
        return '(' + ' '.join(out) + ('' if v == NIL else ' . ' + wr(v)) + ')'
    if isinstance(v, tuple):
        if v[0] == 'sym':
            return v[1]
        if v[0] == 'str':
            return '"%s"' % v[1]
        if v[0] == 'ch':
            return '#\\' + v[1]
        if v[0] == 'list':
            return '(' + ' '.join(wr(x) for x in v[1]) + ')'
        if v[0] == 'vec':
            return '#(' + ' '.join(wr(x) for x in v[1]) + ')'
    raise ValueError(v)


def src_of(v):
    if isinstance(v, tuple) and v[0] in ('sym', 'list'):
        return "'" + wr(v)
    if isinstance(v, tuple) and v[0] == 'vec':
        return '(vector ' + ' '.join(src_of(x) for x in v[1]) + ')'
    return wr(v)


def val(src, d=1):
    k = src.draw(8)
    if k <= 2:
        return src.pick([0, 1, 2, 3, 7, -1, 1000, 97, 4294967297])
    if k == 3:
        return ('sym', src.pick(SYM))
    if k == 4:
        return ('str', src.pick(STR))
    if k == 5:
        return ('ch', src.pick('abz'))
    if k == 6:
        return src.pick([True, False])
    if d == 0:
        return 5
    return ('list', [val(src, 0) for _ in range(src.int(0, 3))])


def key(src, kind):
    if kind == 'q':
        return ('sym', src.pick(SYM + SYM2))
    return ('str', src.pick(STR + STR2))


def mkey(v):
    return wr(v) if not (isinstance(v, bool)) else str(v)


class Model:
    """Generates the program text and the expected output together."""

    def __init__(self, src):
        self.src = src
        self.text = []
        self.want = []
        self.vecs = []      # [(name, pylist)] aliasing shared lists
        self.tabs = []      # [(name, kind, dict key->(keyval, val))]
        self.recs = []      # [(name, type, fields)]
        self.pairs = []     # [(name, Pair)] that share structure
        self.als = []       # [[name, kind, Pair or NIL]]
        self.strs = []      # [(name, list)]
        self.n = 0
        self.ops = set()

    def name(self, p):
        self.n += 1
        return '%s%d' % (p, self.n)

    def show(self, expr, v):
        self.text.append('(write %s) (display " ")' % expr)
        self.want.append(wr(v) + ' ')

    def do(self, s):
        self.text.append(s)


RECORDS = r'''
(define-record-type rt1 (make-rt1 f1 f2) rt1? (f1 rt1-f1 set-rt1-f1!) (f2 rt1-f2))
(define-record-type rt2 (make-rt2 f1) rt2? (f1 rt2-f1 set-rt2-f1!) (f2 rt2-f2 set-rt2-f2!) (f3 rt2-f3 set-rt2-f3!))
(define-record-type rt3 (make-rt3 c a b) rt3? (c rt3-c set-rt3-c!) (a rt3-a set-rt3-a!) (b rt3-b set-rt3-b!))
(define-record-type rt4 (make-rt4 z x) rt4? (x rt4-x set-rt4-x!) (y rt4-y set-rt4-y!) (z rt4-z))
'''
RT = {'rt1': (['f1', 'f2'], ['f1', 'f2'], ['f1']), 'rt2': (['f1'], ['f1', 'f2', 'f3'], ['f1', 'f2', 'f3']),
      'rt3': (['c', 'a', 'b'], ['c', 'a', 'b'], ['c', 'a', 'b']),
      'rt4': (['z', 'x'], ['x', 'y', 'z'], ['x', 'y'])}


class S07(pbt.Check):
    id = 'S07'
    quick = 70000
    thorough = 2000000
    batch = 120
    quick_s = 20
    rule = ('a case is one generated history of 1-25 operations over up to four vectors (shared by alias and by '
            'nesting), mutable pairs sharing structure, association lists, structures, hash tables (hashq-/hash- access, colliding and equal-but-not-eq keys, several table sizes) and records, with the '
            'expected output computed by a Python model and all structures dumped at the end; non-trivial = at least '
            'one mutation followed by a read')
    assumptions = ['Python lists, dicts and pair objects are the model']

    def prepare(self):
        self.mes = scheme.Mes(modules=['(mes scm)', '(srfi srfi-1)', '(srfi srfi-9)', '(srfi srfi-43)'],
                              prelude=scheme.PRELUDE + RECORDS)

    def gen(self, src):
        m = Model(src)
        for _ in range(src.length(1, 25)):
            self.step(src, m)
        for n, l in m.vecs:
            m.show('(vector->list %s)' % n, ('list', list(l)))
        for n, kind, d in m.tabs:
            p = 'hashq' if kind == 'q' else 'hash'
            for kv, v in d.values():
                m.show('(%s-ref %s %s #f)' % (p, n, src_of(kv)), v)
        for n, t, f in m.recs:
            for x in RT[t][1]:
                if f[x] is not None:
                    m.show('(%s-%s %s)' % (t, x, n), f[x])
        for n, x in m.pairs:
            m.show(n, x)
        for n, kind, x in m.als:
            m.show(n, x)
        for n, l in m.strs:
            m.show('(let loop ((i 0)) (if (= i %d) (list) (cons (struct-ref %s (+ i 2)) (loop (+ i 1)))))' % (len(l), n), ('list', list(l)))
        return {'e': ' '.join(m.text), 'want': ''.join(m.want), 'ops': sorted(m.ops)}

    def frozen(self, l):
        """A model value for a vector's current contents (vectors nest by reference)."""
        return [x for x in l]

    def step(self, src, m):
        kinds = ['vec', 'vec', 'tab', 'tab', 'rec', 'pair', 'pair', 'alist', 'struct']
        k = src.pick(kinds)
        getattr(self, k)(src, m)

    def vec(self, src, m):
        k = src.draw(15)
        if not m.vecs or (k <= 1 and len(m.vecs) < 4):
            n = m.name('w')
            kk = src.draw(5)
            if kk == 0:
                l = [val(src) for _ in range(src.length(0, 10))]
                m.do('(define %s (vector %s))' % (n, ' '.join(map(src_of, l))))
            elif kk == 1:
                v = val(src)
                c = src.length(0, 40)
                l = [v] * c
                m.do('(define %s (make-vector %d %s))' % (n, c, src_of(v)))
            elif kk == 2:
                l = [val(src) for _ in range(src.length(0, 10))]
                m.do('(define %s (list->vector (list %s)))' % (n, ' '.join(map(src_of, l))))
            elif kk == 3:
                l = [x for x in range(src.length(0, 30))]
                m.do('(define %s (list->vector (iota %d)))' % (n, len(l)))
            else:
                if not m.vecs:
                    return
                o, ol = src.pick(m.vecs)
                l = list(ol)
                m.do('(define %s (list->vector (vector->list %s)))' % (n, o))
            m.vecs.append((n, l))
            m.ops.add('vec-new%d' % kk)
            return
        n, l = src.pick(m.vecs)
        if k <= 4:
            if l:
                i = src.draw(len(l))
                v = val(src)
                l[i] = v
                m.do('(vector-set! %s %d %s)' % (n, i, src_of(v)))
                m.ops.add('vector-set!')
        elif k <= 6:
            if l:
                i = src.draw(len(l))
                m.show('(vector-ref %s %d)' % (n, i), l[i])
                m.ops.add('vector-ref')
        elif k == 7:
            m.show('(vector-length %s)' % n, len(l))
        elif k == 8:
            # an alias shares, a list taken earlier does not
            a = m.name('w')
            m.do('(define %s %s)' % (a, n))
            if len(m.vecs) < 6:
                m.vecs.append((a, l))
            m.ops.add('alias')
        elif k == 9 and l:
            # vector->list is a snapshot
            a = m.name('l')
            m.do('(define %s (vector->list %s))' % (a, n))
            i = src.draw(len(l))
            old = list(l)
            v = val(src)
            l[i] = v
            m.do('(vector-set! %s %d %s)' % (n, i, src_of(v)))
            m.show(a, ('list', old))
            m.ops.add('vector->list-snapshot')
        elif k == 10:
            o, ol = src.pick(m.vecs)
            m.show('(equal? %s %s)' % (n, o), [wr(x) for x in l] == [wr(x) for x in ol])
            m.ops.add('equal?')
        elif k == 11:
            m.show('(vector-map (lambda (i v) (cons i (list v))) %s)' % n, ('vec', [('list', [i, v]) for i, v in enumerate(l)]))
            m.ops.add('vector-map')
        elif k == 12:
            m.show(n, ('vec', list(l)))
            m.ops.add('write-vector')
        elif k == 13:
            acc = m.name('l')
            m.do("(define %s '()) (vector-for-each (lambda (i v) (set! %s (cons v (cons i %s)))) %s)" % (acc, acc, acc, n))
            m.show(acc, ('list', [y for i, v in reversed(list(enumerate(l))) for y in (v, i)]))
            m.ops.add('vector-for-each')
        elif len(m.vecs) < 6:
            a = m.name('w')
            m.do('(define %s (vector-copy %s))' % (a, n))
            m.vecs.append((a, list(l)))
            m.ops.add('vector-copy')

    def tab(self, src, m):
        k = src.draw(12)
        if not m.tabs or (k == 0 and len(m.tabs) < 4):
            n = m.name('h')
            size = src.pick(['0', '0', '100', '10', '1', '31', '2', '500'])
            m.do('(define %s (make-hash-table %s))' % (n, size))
            m.tabs.append((n, src.pick(['q', 'e']), {}))
            m.ops.add('make-hash-table' + ('-sized' if size != '0' else ''))
            return
        n, kind, d = src.pick(m.tabs)
        kv = src.pick(list(d.values()))[0] if d and src.bool() else key(src, kind)
        mk = wr(kv)
        p = 'hashq' if kind == 'q' else 'hash'
        if k <= 5:
            v = val(src)
            d[mk] = (kv, v)
            m.do('(%s-set! %s %s %s)' % (p, n, src_of(kv), src_of(v)))
            m.ops.add(p + '-set!')
        elif k <= 8:
            if src.bool():
                m.show('(%s-ref %s %s #f)' % (p, n, src_of(kv)), d[mk][1] if mk in d else False)
            else:
                dv = val(src)
                m.show('(%s-ref %s %s %s)' % (p, n, src_of(kv), src_of(dv)), d[mk][1] if mk in d else dv)
            m.ops.add(p + '-ref')
        elif kind == 'q':
            m.show('(let ((h (hashq-get-handle %s %s #f))) (if h (cdr h) (quote none)))' % (n, src_of(kv)),
                   d[mk][1] if mk in d else ('sym', 'none'))
            m.ops.add('hashq-get-handle')

    def pair(self, src, m):
        k = src.draw(16)
        if not m.pairs or (k <= 2 and len(m.pairs) < 6):
            n = m.name('p')
            kk = src.draw(6) if m.pairs else src.draw(2)
            if kk == 0:
                vs = [val(src) for _ in range(src.int(1, 5))]
                x = from_list(vs)
                m.do('(define %s (list %s))' % (n, ' '.join(map(src_of, vs))))
            elif kk == 1:
                a, b = val(src), val(src)
                x = Pair(a, b)
                if isinstance(b, tuple) and b[0] == 'list':
                    x = Pair(a, from_list(b[1]))
                m.do('(define %s (cons %s %s))' % (n, src_of(a), src_of(b)))
            else:
                o, ox = src.pick(m.pairs)
                sp, end = ox.spine()
                if kk == 2:
                    a = val(src)
                    x = Pair(a, ox)
                    m.do('(define %s (cons %s %s))' % (n, src_of(a), o))
                elif kk == 3:
                    i = src.draw(len(sp))
                    x = sp[i]
                    m.do('(define %s (list-tail %s %d))' % (n, o, i))
                elif kk == 4:
                    o2, x2 = src.pick(m.pairs)
                    x = Pair(ox, x2)
                    m.do('(define %s (cons %s %s))' % (n, o, o2))
                else:
                    if end != NIL:
                        return
                    o2, x2 = src.pick(m.pairs)
                    x = from_list([y.car for y in sp], x2)
                    m.do('(define %s (append %s %s))' % (n, o, o2))
            if x.size() >= 100:
                x = from_list([1])
                m.do('(define %s (list 1))' % n)
            m.pairs.append((n, x))
            m.ops.add('pair-new%d' % kk)
            return
        n, x = src.pick(m.pairs)
        sp, end = x.spine()
        i = src.draw(len(sp))
        at = n if i == 0 else '(list-tail %s %d)' % (n, i)
        if k <= 8:
            c = src.draw(3)
            if c == 2:
                o, y = src.pick(m.pairs)
                if y.reaches(sp[i]) or y.size() + x.size() > 60:
                    return
            elif c == 1 and k % 2:
                o, y = "'()", NIL
            else:
                y = val(src)
                o = src_of(y)
                if isinstance(y, tuple) and y[0] == 'list':
                    y = from_list(y[1])
            if k == 3 and i:
                sp[i].car = y
                m.do('(list-set! %s %d %s)' % (n, i, o))
            elif k % 2:
                sp[i].cdr = y
                m.do('(set-cdr! %s %s)' % (at, o))
            else:
                sp[i].car = y
                m.do('(set-car! %s %s)' % (at, o))
            m.ops.add('pair-set!')
        elif k <= 10:
            m.show('(list-ref %s %d)' % (n, i), sp[i].car)
            m.ops.add('list-ref')
        elif k == 11:
            o, y = src.pick(m.pairs)
            m.show('(list (eq? %s %s) (equal? %s %s))' % (at, o, n, o), ('list', [sp[i] is y, wr(x) == wr(y)]))
            m.ops.add('pair-eq')
        elif k == 12 and end == NIL:
            m.show('(reverse %s)' % n, from_list([y.car for y in reversed(sp)]))
            m.ops.add('reverse')
        elif k == 13:
            m.show('(last-pair %s)' % n, sp[-1])
            m.ops.add('last-pair')
        elif k == 14 and end == NIL:
            m.show('(length %s)' % n, len(sp))
            m.show('(list->vector %s)' % n, ('vec', [y.car for y in sp]))
        else:
            m.show('(cdr %s)' % at, sp[i].cdr)
            m.ops.add('cdr')

    def alist(self, src, m):
        k = src.draw(10)
        if not m.als or (k == 0 and len(m.als) < 3):
            n = m.name('al')
            kind = src.pick('qe')
            x = NIL
            for _ in range(src.int(0, 3)):
                x = Pair(Pair(key(src, kind), val(src)), x)
            sp = x.spine()[0] if isinstance(x, Pair) else []
            m.do('(define %s (list %s))' % (n, ' '.join('(cons %s %s)' % (src_of(y.car.car), src_of(y.car.cdr)) for y in sp)))
            for y in sp:
                if isinstance(y.car.cdr, tuple) and y.car.cdr[0] == 'list':
                    y.car.cdr = from_list(y.car.cdr[1])
            m.als.append([n, kind, x])
            m.ops.add('alist-new')
            return
        e = src.pick(m.als)
        n, kind, x = e
        sp = x.spine()[0] if isinstance(x, Pair) else []
        kv = src.pick(sp).car.car if sp and src.bool() else key(src, kind)
        hit = next((y.car for y in sp if wr(y.car.car) == wr(kv)), None)
        q = 'assq' if kind == 'q' else 'assoc'
        if k <= 4:
            v = val(src)
            o = src_of(v)
            if isinstance(v, tuple) and v[0] == 'list':
                v = from_list(v[1])
            if k == 1:
                m.do('(set! %s (acons %s %s %s))' % (n, src_of(kv), o, n))
                e[2] = Pair(Pair(kv, v), x)
            else:
                m.do('(set! %s (%s-set! %s %s %s))' % (n, q, n, src_of(kv), o))
                if hit is not None:
                    hit.cdr = v
                else:
                    e[2] = Pair(Pair(kv, v), x)
            m.ops.add(q + '-set!')
        elif k <= 6:
            m.show('(%s-ref %s %s)' % (q, n, src_of(kv)), hit.cdr if hit else False)
            m.ops.add(q + '-ref')
        elif k == 7:
            m.show('(%s %s %s)' % (q, src_of(kv), n), hit if hit else False)
            m.ops.add(q)
        elif k == 8 and len(m.als) < 4:
            a = m.name('al')
            m.do('(define %s %s)' % (a, n))      # shares the entries
            m.als.append([a, kind, x])
            m.ops.add('alist-alias')
        else:
            m.show(n, x)

    def struct(self, src, m):
        k = src.draw(8)
        if not m.strs or (k == 0 and len(m.strs) < 3):
            n = m.name('st')
            l = [val(src) for _ in range(src.int(1, 6))]
            m.do("(define %s (make-struct 'type (list %s) #f))" % (n, ' '.join(map(src_of, l))))
            m.strs.append((n, l))
            return
        n, l = src.pick(m.strs)
        i = src.draw(len(l))
        if k <= 4:
            l[i] = val(src)
            m.do('(struct-set! %s %d %s)' % (n, i + 2, src_of(l[i])))
            m.ops.add('struct-set!')
        elif k <= 6:
            m.show('(struct-ref %s %d)' % (n, i + 2), l[i])
            m.ops.add('struct-ref')
        else:
            m.show('(struct-length %s)' % n, len(l) + 2)
            m.show('(struct-ref %s 0)' % n, ('sym', 'type'))

    def rec(self, src, m):
        k = src.draw(8)
        if not m.recs or (k <= 1 and len(m.recs) < 5):
            t = src.pick(sorted(RT))
            ctor, fields, _ = RT[t]
            vs = [val(src) for _ in ctor]
            n = m.name('s')
            m.do('(define %s (make-%s %s))' % (n, t, ' '.join(map(src_of, vs))))
            f = {x: None for x in fields}
            f.update(zip(ctor, vs))
            m.recs.append((n, t, f))
            m.ops.add('make-record')
            return
        n, t, f = src.pick(m.recs)
        if k <= 4:
            x = src.pick(RT[t][2])
            v = val(src)
            f[x] = v
            m.do('(set-%s-%s! %s %s)' % (t, x, n, src_of(v)))
            m.ops.add('record-set')
        elif k <= 6:
            xs = [x for x in RT[t][1] if f[x] is not None]
            if xs:
                x = src.pick(xs)
                m.show('(%s-%s %s)' % (t, x, n), f[x])
                m.ops.add('record-ref')
        else:
            t2 = src.pick(sorted(RT))
            m.show('(%s? %s)' % (t2, n), t2 == t)
            if m.vecs and src.bool():
                m.show('(%s? %s)' % (t2, m.vecs[0][0]), False)
            m.ops.add('record-pred')

    def classify(self, c):
        ops = c['ops']
        mut = [o for o in ops if o.endswith('set!') or o == 'record-set']
        return bool(mut) and len(ops) >= 3, ops

    def run(self, cases, scratch):
        outs = self.mes.run_batch([c['e'] + ' #t' for c in cases], scratch)
        return [None if o == c['want'] else {'tag': 'value', 'got': o, 'want': c['want']} for o, c in zip(outs, cases)]


if __name__ == '__main__':
    pbt.main(S07())
