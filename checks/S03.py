"""S03: reading and writing data (reference: a Python model of the datum syntax)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import pbt, scheme

NAMED = {0: 'nul', 7: 'alarm', 8: 'backspace', 9: 'tab', 10: 'newline', 11: 'vtab', 12: 'page', 13: 'return', 32: 'space'}
READ_NAMES = {0: ['nul'], 7: ['alarm', 'bel'], 8: ['backspace', 'bs'], 9: ['tab', 'ht'], 10: ['newline', 'linefeed'], 11: ['vtab', 'vt'],
              12: ['page'], 13: ['return', 'cr'], 27: ['esc'], 32: ['space', ' ']}
STR_READ = {0: '\\0', 7: '\\a', 8: '\\b', 9: '\\t', 10: '\\n', 11: '\\v', 12: '\\f', 13: '\\r', 27: '\\e', 92: '\\\\', 34: '\\"'}
STR_C = dict(STR_READ)
STR_M = {k: v for k, v in STR_READ.items() if k not in (13, 27)}     # (mes display) leaves these two as they are
SYM0 = 'abcdefghijklmnopqrstuvwxyzABCXYZ!$%&*/<=>?^_~'
SYM1 = SYM0 + '0123456789+-.@:'
ODD_SYMS = ['+', '-', '...', '1+', '-1+', '4a', '-4a', '+4a', '.x', '->x', 'a.b', '+a', '-a', '--', '1-', ':a', 'a:', '0x10', '12ab34']
ATOM, OPEN, CLOSE, STR, PREFIX, DOT = range(6)


# a datum: ['i', n] ['b', bool] ['c', code] ['s', latin1] ['y', name] ['k', name] ['l', [d...], tail|None] ['v', [d...]] ['q', name, d]

class G:
    def __init__(self, s):
        self.s = s
        self.n = 0
        self.f = set()

    def datum(self, d):
        s = self.s
        self.n += 1
        k = s.draw(16 if d > 0 and self.n < 60 else 9)
        if k <= 1:
            return ['i', s.weighted([(4, s.int(-20, 20)), (2, s.pick([0, 1, -1, 255, 256, 65535, 2147483647, -2147483648, 4294967296,
                    9223372036854775807, -9223372036854775807])), (2, s.int(-10 ** 6, 10 ** 6)), (1, s.int(-2 ** 62, 2 ** 62))])]
        if k == 2:
            return ['b', s.bool()]
        if k == 3:
            self.f.add('char')
            return ['c', s.weighted([(4, s.int(97, 122)), (3, s.int(33, 126)), (2, s.pick(sorted(READ_NAMES))), (1, s.int(0, 255))])]
        if k <= 5:
            self.f.add('string')
            return ['s', self.string()]
        if k <= 7:
            return ['y', self.symbol()]
        if k == 8:
            self.f.add('keyword')
            return ['k', s.pick(SYM0) + ''.join(s.pick(SYM1) for _ in range(s.int(0, 6)))]
        if k == 9:
            self.f.add('vector')
            return ['v', [self.datum(d - 1) for _ in range(s.length(0, 7))]]
        if k == 10:
            self.f.add('quote-form')
            return ['q', s.pick(sorted(PFX)), self.datum(d - 1)]
        if k == 11 and s.bool(1, 20):
            self.f.add('long-list')
            return ['l', [['i', i] for i in range(s.int(50, 400))], None]
        n = s.length(0, 8)
        items = [self.datum(d - 1) for _ in range(n)]
        tail = None
        if n and s.bool(1, 4):
            self.f.add('dotted')
            tail = self.datum(0) if s.bool(2, 3) else self.datum(d - 1)
        return ['l', items, tail]

    def string(self):
        s = self.s
        if s.bool(1, 30):
            return ''.join(s.pick('abc \n') for _ in range(40)) * s.int(1, 60)
        return ''.join(chr(s.weighted([(6, s.int(97, 122)), (4, s.int(32, 126)), (3, s.pick(sorted(STR_READ))), (1, s.int(0, 255))]))
                       for _ in range(s.length(0, 12)))

    def symbol(self):
        s = self.s
        if s.bool(1, 4):
            self.f.add('odd-symbol')
            return s.pick(ODD_SYMS)
        return s.pick(SYM0) + ''.join(s.pick(SYM1) for _ in range(s.weighted([(8, s.int(0, 8)), (1, s.int(30, 90))])))

    # -- surface text ------------------------------------------------------
    def ws(self, need):
        """Something that separates; may be empty unless need."""
        s = self.s
        out = ''
        n = s.weighted([(6, 0), (4, 1), (1, 2), (1, 3)])
        for i in range(n):
            k = s.draw(12)
            if k < 6:
                out += s.pick([' ', '\n', '  ', '\t', ' \n '])
            elif k == 6:
                out += s.pick(['\r\n', '\f', '\r', '\v'])
                self.f.add('odd-space')
            elif k == 7:
                out += ';' + ''.join(s.pick('ab ()"\';#|,') for _ in range(s.int(0, 8))) + '\n'
                self.f.add('line-comment')
            elif k == 8:
                out += ' #|' + ''.join(s.pick('ab ()"\';,\n') for _ in range(s.int(0, 8))) + '|#'
                self.f.add('block-comment')
            elif k == 9:
                out += ' #!' + ''.join(s.pick('ab ()"\';,\n') for _ in range(s.int(0, 8))) + '!#'
                self.f.add('block-comment')
            elif k == 10:
                g = G(s)
                g.n = 55
                out += ' #;' + g.text(g.datum(1)) + ' '
                self.f.add('datum-comment')
            else:
                out += ' '
        if need and not out:
            out = ' '
        return out

    def tokens(self, d):
        s = self.s
        t = d[0]
        if t == 'i':
            n = d[1]
            k = s.draw(6)
            if k == 0 and n >= 0:
                return [(ATOM, '+%d' % n)]
            if k == 1:
                h = '%x' % abs(n)
                if s.bool():
                    h = h.upper()
                self.f.add('radix')
                return [(ATOM, '#x%s%s%s' % ('-' if n < 0 else '', s.pick(['', '0']), h))]
            if k == 2:
                self.f.add('radix')
                return [(ATOM, '#%s%s%s' % (('o', '-' if n < 0 else '', '%o' % abs(n)) if s.bool() else ('b', '-' if n < 0 else '', bin(abs(n))[2:])))]
            if k == 3:
                return [(ATOM, '%s%s%d' % ('-' if n < 0 else '', s.pick(['', '0', '00']), abs(n)))]
            return [(ATOM, str(n))]
        if t == 'b':
            return [(ATOM, '#t' if d[1] else '#f')]
        if t == 'c':
            c = d[1]
            opts = []
            if c in READ_NAMES:
                opts += READ_NAMES[c]
            if c > 32 and c != 127:
                opts += [chr(c)] * 3
            if not opts or s.bool(1, 4):
                opts = ['%03o' % c, '%o' % c if c >= 8 else '%02o' % c, 'x%x' % c, 'x%02X' % c]
            return [(ATOM, '#\\' + s.pick(opts))]
        if t == 's':
            out = '"'
            for i, ch in enumerate(d[1]):
                c = ord(ch)
                if c in (92, 34, 0):
                    out += STR_READ[c]
                elif c in STR_READ and s.bool():
                    out += STR_READ[c]
                elif s.bool(1, 12) and not (i + 1 < len(d[1]) and d[1][i + 1] in '0123456789abcdefABCDEF') and len(d[1]) < 50:
                    out += '\\x%02x' % c
                else:
                    out += ch
            return [(STR, out + '"')]
        if t == 'y':
            return [(ATOM, d[1])]
        if t == 'k':
            return [(ATOM, '#:' + d[1])]
        if t == 'v':
            r = [(OPEN, '#(')]
            for x in d[1]:
                r += self.tokens(x)
            return r + [(CLOSE, ')')]
        if t == 'q':
            return [(PREFIX, PFX[d[1]])] + self.tokens(d[2])
        r = [(OPEN, '(')]
        for x in d[1]:
            r += self.tokens(x)
        if d[2] is not None:
            r += [(DOT, '.')] + self.tokens(d[2])
        return r + [(CLOSE, ')')]

    def text(self, d):
        toks = self.tokens(d)
        out = toks[0][1]
        prev = toks[0]
        plain = self.s.bool(1, 3)
        for tk in toks[1:]:
            need = (prev[0] in (ATOM, DOT) and not (tk[0] in (CLOSE, STR) or tk[1] == '(')) \
                or tk[0] == DOT and prev[0] == ATOM
            if plain:
                w = ' ' if need else ''
            else:
                w = self.ws(need)
                if prev[0] in (ATOM, DOT) and w.startswith('#'):
                    w = ' ' + w
                if prev[0] == PREFIX and prev[1] == ',' and (w + tk[1]).startswith('@'):
                    w = ' ' + w
            if prev[0] == PREFIX and prev[1] == ',' and tk[1].startswith('@'):
                w = w or ' '
            out += w + tk[1]
            prev = tk
        return out


PFX = {'quote': "'", 'quasiquote': '`', 'unquote': ',', 'unquote-splicing': ',@'}


def show(d, write, module, invec=False):
    t = d[0]
    if t == 'i':
        return str(d[1])
    if t == 'b':
        return '#t' if d[1] else '#f'
    if t == 'c':
        return ('#\\' + NAMED.get(d[1], chr(d[1]))) if write else chr(d[1])
    if t == 's':
        if not write:
            return d[1]
        e = STR_M if module else STR_C
        return '"' + ''.join(e.get(ord(c), c) for c in d[1]) + '"'
    if t == 'y':
        return d[1]
    if t == 'k':
        return '#:' + d[1]
    if t == 'v':
        if invec and module:
            return '#(...)'
        return '#(' + ' '.join(show(x, write, module, True) for x in d[1]) + ')'
    return '(' + inner(d, write, module) + ')'


def inner(d, write, module):
    """The text between the parentheses of a list."""
    if d[0] == 'q':
        return d[1] + ' ' + show(d[2], write, module)
    r = ' '.join(show(x, write, module) for x in d[1])
    t = d[2]
    if t is None:
        return r
    if t[0] in 'lq':
        i = inner(t, write, module)
        return r + (' ' + i if i else '')
    return r + ' . ' + show(t, write, module)


def lit(t):
    return '"' + t.replace('\\', '\\\\').replace('"', '\\"') + '"'


class S03(pbt.Check):
    id = 'S03'
    quick = 40000
    thorough = 600000
    batch = 60
    quick_s = 22
    rule = ('a case is one generated datum with one generated surface text (spacing, comments, radix, escapes, abbreviations) taken through '
            'one of: program text, string port, file, and printed by write or display, or written and read back; '
            'non-trivial = the datum has structure or a string/character/comment/abbreviation')
    assumptions = ['a vector directly inside a vector is abbreviated #(...) by (mes display), as its test demands, and is modelled so']

    def prepare(self):
        self.core = scheme.Mes(modules=[], prelude='', stack=400000)
        self.mod = scheme.Mes(modules=['(mes guile)'], prelude='', stack=400000)

    def gen(self, src):
        how = src.draw(8)
        g = G(src)
        d = g.datum(src.int(0, 4))
        t = g.text(d)
        if how in (2, 3, 4) and len(t) > 400:
            how = 0
        return {'d': d, 't': t, 'how': how, 'f': sorted(g.f)}

    def classify(self, c):
        return bool(c['f']) or c['d'][0] in 'lvq', c['f'] + [HOW[c['how']]]

    def sample(self, c):
        return {'text': c['t'][:300], 'how': HOW[c['how']]}

    def body(self, c, k, scratch):
        t, how = c['t'], c['how']
        if how in (0, 5):
            return "(write '%s)" % t
        if how in (1, 6):
            return "(display '%s)" % t
        if how in (2, 7):
            return '(write (read (open-input-string %s)))' % lit(t)
        if how == 3:
            return '(let* ((p (open-input-string %s)) (a (read p)) (b (read p))) (write (list a b)))' % lit(t + ' ' + 'end1')
        if how == 4:
            return "(let* ((x '%s) (s (with-output-to-string (lambda () (write x)))) (y (with-input-from-string s read))) (write (list (equal? x y) (string-length s))))" % t
        raise AssertionError

    def expect(self, c):
        d, how = c['d'], c['how']
        m = how >= 4 and how != 7
        if how in (0, 5, 2, 7):
            return show(d, True, how == 5)
        if how in (1, 6):
            return show(d, False, how == 6)
        if how == 3:
            return '(%s end1)' % show(d, True, False)
        if nested_vector(d):
            return None
        return '(#t %d)' % len(show(d, True, True))

    def run(self, cases, scratch):
        out = [None] * len(cases)
        for mes, sel in ((self.core, (0, 1, 2, 3)), (self.mod, (4, 5, 6))):
            idx = [k for k, c in enumerate(cases) if c['how'] in sel]
            got = mes.run_batch([self.body(cases[k], k, scratch) for k in idx], scratch, toplevel=True)
            for k, g in zip(idx, got):
                w = self.expect(cases[k])
                if w is not None and g != w:
                    out[k] = {'tag': 'died' if isinstance(g, dict) else 'diff', 'got': g, 'want': w}
        idx = [k for k, c in enumerate(cases) if c['how'] == 7]
        if idx:                     # all of these in one file, read one after another
            fn = os.path.join(scratch, 'data')
            bodies = []
            for k in idx:
                with open(fn + str(k), 'wb') as f:
                    f.write((cases[k]['t'] + '\n last ; end').encode('latin1'))
                bodies.append('(let* ((p (open-input-file "%s")) (a (read p)) (b (read p))) (write (list a b)))' % (fn + str(k)))
            got = self.core.run_batch(bodies, scratch, toplevel=True)
            for k, g in zip(idx, got):
                os.unlink(fn + str(k))
                w = '(%s last)' % show(cases[k]['d'], True, False)
                if g != w:
                    out[k] = {'tag': 'died' if isinstance(g, dict) else 'diff', 'got': g, 'want': w}
        return out


HOW = ['text-write', 'text-display', 'stringport-read', 'stringport-read-two', 'write-read', 'text-write-module', 'text-display-module', 'file-read']


def nested_vector(d, inv=False):
    t = d[0]
    if t == 'v':
        return inv or any(nested_vector(x, True) for x in d[1])
    if t == 'q':
        return nested_vector(d[2])
    if t == 'l':
        return any(nested_vector(x) for x in d[1]) or (d[2] is not None and nested_vector(d[2]))
    return False


if __name__ == '__main__':
    pbt.main(S03())
