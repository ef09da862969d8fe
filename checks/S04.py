"""S04: integer arithmetic, comparison, bit operations and numeric text conversions of the
interpreter agree with exact integer arithmetic (results within 63 bits)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import pbt, scheme, build

LIM = 1 << 62


def tdiv(a, b):
    q = abs(a) // abs(b)
    return -q if (a < 0) != (b < 0) else q


def to_radix(n, r):
    if n == 0:
        return '0'
    s, m = '', abs(n)
    while m:
        s = '0123456789abcdef'[m % r] + s
        m //= r
    return ('-' if n < 0 else '') + s


def num(src):
    k = src.draw(8)
    if k <= 2:
        return src.int(-20, 20)
    if k == 3:
        return src.int(-2000, 2000)
    if k == 4:
        v = (1 << src.int(0, 61)) + src.int(-2, 2)
        return -v if src.bool() else v
    if k == 5:
        v = (1 << src.pick([7, 8, 15, 16, 31, 32, 33])) + src.int(-3, 3)
        return -v if src.bool() else v
    if k == 6:
        v = src.draw(1 << src.int(1, 61))
        return -v if src.bool() else v
    return src.pick([0, 1, -1, 2, 10, -10, 100, 255, 256, 1000000007])


def lit(src, n):
    k = src.draw(12)
    if k == 9:
        return ('#x-%x' if n < 0 else '#x%x') % abs(n)
    if k == 10:
        return ('#o-%o' if n < 0 else '#o%o') % abs(n)
    if k == 11:
        return '#b%s%s' % ('-' if n < 0 else '', bin(abs(n))[2:])
    return str(n)


class S04(pbt.Check):
    id = 'S04'
    quick = 160000
    thorough = 2000000
    batch = 250
    quick_s = 20
    rule = ('a case is one generated arithmetic expression (1-4 levels, 1-5 operands, operands biased to 0, +-1, '
            'powers of two and 32-bit boundaries) with its exact value computed by the generator; every '
            'intermediate value lies within +-2^62; non-trivial = at least two operations or an operand beyond 2^31')
    assumptions = ['Python integers are the model', 'results beyond +-2^62 are outside the domain (no bignums in Mes)']

    def prepare(self):
        self.mes = scheme.Mes(modules=['(mes scm)'])

    def expr(self, src, depth):
        """-> (text, value, nops)"""
        if depth == 0 or src.draw(4) == 3:
            n = num(src)
            return lit(src, n), n, 0
        k = src.draw(24)
        sub = lambda: self.expr(src, depth - 1)
        text = val = None
        if k <= 4:
            op = src.pick(['+', '-', '*', 'max', 'min'])
            lo = {'+': 0, '*': 0, '-': 1}.get(op, 1)
            args = [sub() for _ in range(src.int(max(lo, 0), 4))]
            vs = [a[1] for a in args]
            if op == '+':
                val = 0
                for v in vs:
                    val += v
                    if abs(val) >= LIM:
                        break
            elif op == '*':
                val = 1
                for v in vs:
                    val *= v
                    if abs(val) >= LIM:
                        break
            elif op == '-':
                val = -vs[0] if len(vs) == 1 else vs[0]
                for v in vs[1:]:
                    val -= v
                    if abs(val) >= LIM:
                        break
            elif op == 'max':
                val = max(vs)
            else:
                val = min(vs)
            if abs(val) >= LIM:
                return args[0]
            return '(%s)' % ' '.join([op] + [a[0] for a in args]), val, 1 + sum(a[2] for a in args)
        if k <= 10:
            op = src.pick(['quotient', 'remainder', 'modulo', '/', 'modulo', 'remainder'])
            a, b = sub(), sub()
            if b[1] == 0:
                d = src.int(1, 9)
                b = (str(d), d, 0)
            if op in ('quotient', '/'):
                val = tdiv(a[1], b[1])
            elif op == 'remainder':
                val = a[1] - tdiv(a[1], b[1]) * b[1]
            else:
                val = a[1] % b[1]
            return '(%s %s %s)' % (op, a[0], b[0]), val, 1 + a[2] + b[2]
        if k == 11:
            a = sub()
            ds = []
            val = a[1]
            for _ in range(src.int(2, 3)):
                d = num(src) or 1
                ds.append(d)
                val = tdiv(val, d)
            return '(/ %s %s)' % (a[0], ' '.join(map(str, ds))), val, 2 + a[2]
        if k <= 13:
            op = src.pick(['logand', 'logior', 'logxor'])
            args = [sub() for _ in range(src.int(0, 4))]
            val = {'logand': -1, 'logior': 0, 'logxor': 0}[op]
            for a in args:
                val = (val & a[1]) if op == 'logand' else (val | a[1]) if op == 'logior' else (val ^ a[1])
            return '(%s)' % ' '.join([op] + [a[0] for a in args]), val, 1 + sum(a[2] for a in args)
        if k == 14:
            a = sub()
            return '(lognot %s)' % a[0], ~a[1], 1 + a[2]
        if k <= 16:
            a = sub()
            c = src.int(-62, 40) if src.draw(8) else -src.pick([63, 64, 65, 66, 70, 127, 128, 1000, 1 << 31, 1 << 32, 1 << 40, 5 << 40])
            v = a[1] << c if c >= 0 else a[1] >> min(-c, 100)
            if abs(v) >= LIM:
                c = -src.int(0, 61)
                v = a[1] >> -c
            return '(ash %s %d)' % (a[0], c), v, 1 + a[2]
        if k == 17:
            a = sub()
            return '(abs %s)' % a[0], abs(a[1]), 1 + a[2]
        if k == 18:
            b = src.int(-12, 12)
            e = src.int(0, 16)
            return '(expt %d %d)' % (b, e), b ** e, 1
        if k == 19:
            a = sub()
            op, f = src.pick([('1+', lambda v: v + 1), ('1-', lambda v: v - 1)])
            return '(%s %s)' % (op, a[0]), f(a[1]), 1 + a[2]
        if k <= 21:
            t, v, n = self.pred(src, depth - 1)
            a, b = sub(), sub()
            return '(if %s %s %s)' % (t, a[0], b[0]), (a[1] if v else b[1]), n + a[2] + b[2]
        if k == 22:
            a = sub()
            r = src.pick([10, 16, 10, 2, 8])
            return '(string->number (number->string %s %d) %d)' % (a[0], r, r), a[1], 2 + a[2]
        a = sub()
        return '(let ((v1 %s)) (+ v1 (- v1) v1))' % a[0], a[1], 3 + a[2]

    def pred(self, src, depth):
        sub = lambda: self.expr(src, depth)
        k = src.draw(8)
        if k <= 4:
            op = src.pick(['=', '<', '>', '<=', '>='])
            args = [sub() for _ in range(src.int(0, 5))]
            if len(args) > 1 and src.bool():
                i = src.int(1, len(args) - 1)
                args[i] = args[i - 1]
            if len(args) > 1 and src.bool(1, 3):
                args.sort(key=lambda a: a[1], reverse=op in ('>', '>='))
            vs = [a[1] for a in args]
            f = {'=': lambda x, y: x == y, '<': lambda x, y: x < y, '>': lambda x, y: x > y,
                 '<=': lambda x, y: x <= y, '>=': lambda x, y: x >= y}[op]
            v = all(f(x, y) for x, y in zip(vs, vs[1:]))
            return '(%s)' % ' '.join([op] + [a[0] for a in args]), v, 1 + sum(a[2] for a in args)
        a = sub()
        op, f = src.pick([('zero?', lambda v: v == 0), ('even?', lambda v: v % 2 == 0),
                          ('odd?', lambda v: v % 2 == 1), ('negative?', lambda v: v < 0),
                          ('positive?', lambda v: v > 0), ('number?', lambda v: True),
                          ('integer?', lambda v: True)])
        return '(%s %s)' % (op, a[0]), f(a[1]), 1 + a[2]

    def gen(self, src):
        k = src.draw(10)
        depth = src.int(1, 4)
        if k <= 5:
            t, v, n = self.expr(src, depth)
            return {'e': '(write %s)' % t, 'want': str(v), 'n': n, 'k': 'value'}
        if k <= 7:
            t, v, n = self.pred(src, depth - 1)
            return {'e': '(write %s)' % t, 'want': '#t' if v else '#f', 'n': n, 'k': 'predicate'}
        if k == 8:
            t, v, n = self.expr(src, depth - 1)
            r = src.pick([10, 16, 2, 8, 10])
            rt = '' if r == 10 and src.bool() else ' %d' % r
            return {'e': '(display (number->string %s%s))' % (t, rt), 'want': to_radix(v, r), 'n': n + 1, 'k': 'number->string'}
        # string->number on valid and invalid text
        n = num(src)
        r = src.pick([10, 16, 8, 2])
        s = to_radix(n, r)
        if r == 16 and src.bool():
            s = s.upper()
        bad = src.bool(1, 4)
        if bad:
            i = src.draw(len(s) + 1)
            s = s[:i] + src.pick(['z', 'g', ' ', '*', '_']) + s[i:]
        pre = r != 10 and not bad and n >= 0 and src.bool(1, 3)
        e = '(string->number "%s")' % ({16: '#x', 8: '#o', 2: '#b'}[r] + s) if pre else \
            '(string->number "%s"%s)' % (s, '' if r == 10 else ' %d' % r)
        return {'e': '(write %s)' % e, 'want': '#f' if bad else str(n), 'n': 1, 'k': 'string->number'}

    def classify(self, c):
        big = any(len(w.strip('()#xob-')) > 9 for w in c['e'].split())
        labels = [c['k']]
        if big:
            labels.append('wide-operand')
        if '-' in c['e'] and ('quotient' in c['e'] or '(/' in c['e'] or 'modulo' in c['e'] or 'remainder' in c['e']):
            labels.append('division-with-negative')
        return c['n'] >= 2 or big, labels

    def run(self, cases, scratch):
        outs = self.mes.run_batch([c['e'] for c in cases], scratch)
        return [None if o == c['want'] else {'tag': 'value', 'got': o, 'want': c['want']} for o, c in zip(outs, cases)]


if __name__ == '__main__':
    pbt.main(S04())
