"""S13: malformed program text is reported, and does no harm (reference: which tokens of a generated text were damaged)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import pbt, scheme
from S03 import G, show, lit, OPEN, CLOSE, PREFIX, ATOM, STR, DOT

SOUP = ['(', ')', '[', ']', "'", '`', ',', ',@', '@', '.', '#(', '#\\a', '#\\', '#\\space', '#x1f', '#x', '#b102', '#b', '#o9', '#o-', '"a"', '"',
        '\\', '#|', '|#', '#;', ';x\n', ';', '#:k', '#:', '#!', '!#', '...', '1.5', '-', '+', '-1', '#t', '#f', '#', '#<', '{', '}', '|', '#\\x41',
        '#\\777', '"\\x41;"', '"\\', "#'x", '#`x', '#,x', '#,@x', '#d10', 'a', 'foo', '\n', ' ', '\t', '\f', '\0', '\xff', '\x7f', '#\\aaaa',
        '#\\' + 'ab' * 40, '#\\***********', '((((((((((', '))))', "''''''''", '99999999999999999999999999']
KINDS = ['open-list', 'open-list', 'open-vector', 'open-string', 'open-comment', 'open-comment-in-list', 'char-name', 'long-char-name', 'number-keyword', 'dot-nothing',
         'string-in-list', 'prefix-in-list']
PAIR, SYSTEM = 'not-a-pair', 'system-error'
KNOWN_CHARS = {'nul', 'alarm', 'backspace', 'tab', 'linefeed', 'newline', 'vtab', 'page', 'return', 'esc', 'space', 'bel', 'bs', 'ht', 'vt', 'cr', '*eof*'}


def some(s, n, depth=2):
    out = []
    for _ in range(n):
        g = G(s)
        g.n = 40
        out.append(g.text(g.datum(depth)))
    return out


def word(s, n, alpha='abcdefghijklmnopqrstuvwxyz'):
    return ''.join(s.pick(alpha) for _ in range(n))


def damaged(s):
    """-> kind, text, the error it must be reported as"""
    k = s.pick(KINDS)
    if k in ('open-list', 'open-vector'):
        d = s.int(1, 4) if s.bool(9, 10) else s.int(20, 300)
        t = ''
        for i in range(d):
            t += ('#(' if k == 'open-vector' and i == 0 else '(') + ' '.join(some(s, s.draw(3), 1)) + ' '
        t += s.pick(['', ' ', '\n', '; tail (', 'a . ', '. a', 'x #;', ' #;(a) ', ' #| ) |# '])
        return k, t, PAIR
    if k == 'open-string':
        return k, '"' + word(s, s.draw(30), 'abc ()\n;#|'), SYSTEM
    if k == 'string-in-list':
        return k, '(a ' + ' '.join(some(s, s.draw(3), 1)) + ' "' + word(s, s.draw(30), 'abc ()\n;'), SYSTEM
    if k in ('open-comment', 'open-comment-in-list'):
        c = s.pick('|!')
        n = s.draw(40) if s.bool(3, 4) else s.draw(3000)
        body = word(s, min(n, 60), 'abc ()\n;"\'').ljust(n, 'x')
        pre = '(a ' + ' '.join(some(s, s.draw(3), 1)) + ' ' if k == 'open-comment-in-list' else ''
        return k, pre + '#' + c + body + s.pick(['', c, '#', '# ' + c, ')']), SYSTEM
    if k == 'char-name':
        w = word(s, s.int(2, 9))
        if s.bool(1, 3):
            w = s.pick(sorted(KNOWN_CHARS - {'*eof*'})) + s.pick('abcxyz')
        if w in KNOWN_CHARS or w[0] == 'x' and w[1] in 'abcdef':
            w = 'qq'
        return k, s.pick(['#\\%s', '(a #\\%s b)', '#(#\\%s)', '"x" #\\%s'][:3]) % w, SYSTEM
    if k == 'long-char-name':
        return k, s.pick(['#\\%s', '(a #\\%s)']) % ('q' + word(s, s.weighted([(3, s.int(9, 20)), (2, s.int(20, 300)), (1, s.int(300, 3000))]))), SYSTEM
    if k == 'number-keyword':
        return k, s.pick(['#:%d', '(a #:%d)']) % s.int(0, 999), SYSTEM
    if k == 'dot-nothing':
        return k, s.pick(['(.)', '(a . )', '( . )', '#(. )', '(a b\n.)', '((a . ) b)', "(a . #;b )", '(a . ; b\n)']), PAIR
    return k, '(a ' + s.pick(["'", '`', ',', ',@']) * s.int(1, 4) + s.pick(['(', '(b ', '#(']), PAIR


class S13(pbt.Check):
    id = 'S13'
    quick = 9000
    thorough = 200000
    quick_s = 40
    batch = 40
    rule = ('a case is up to four well-formed data followed by one damaged datum (twelve kinds of damage: an open list, vector, string or comment at the '
            'end of the input, an unknown or overlong character name, a dot before nothing, a number as keyword, ...), or random tokens, or a generated '
            'text with characters deleted, inserted or cut off; read from a string port, from a file, or run as a program; every datum before the damage '
            'must be read as it is, the damage reported as the error it is, an intact text read afterwards, and whatever else is read must end; '
            'non-trivial = the text is damaged and at least 3 characters long')
    assumptions = ['random tokens may be readable or not: they must be read to the end or reported, without the interpreter dying or hanging']

    def prepare(self):
        self.mes = scheme.Mes(modules=['(mes scm)'], prelude=scheme.PRELUDE, stack=400000, timeout=15)

    def gen(self, s):
        c = self.gen_(s)
        if c['how'] == 'string' and len(self.whole(c)) > 2500:      # a string port takes memory quadratic in its length
            c['how'] = 'file'
        return c

    def gen_(self, s):
        k = s.draw(12)
        if k < 7:
            kind, bad, err = damaged(s)
            data, ts = [], []
            for _ in range(s.draw(5)):
                g = G(s)
                g.n = 40
                d = g.datum(2)
                data.append(d)
                ts.append(g.text(d))
            g = G(s)
            g.n = 50
            d = g.datum(1)
            return {'how': s.pick(['string', 'string', 'string', 'file']) if s.bool(12, 13) else 'program', 'kind': kind, 'bad': bad, 'err': err, 'data': data, 'ts': ts, 'after': d, 'at': g.text(d)}
        if k < 9:
            t = ''.join(s.pick(SOUP) + s.pick(['', ' ', '']) for _ in range(s.int(1, 12)))
            return {'how': s.pick(['string', 'file']), 'kind': 'tokens', 'bad': t}
        g = G(s)
        g.n = 30
        t = list(g.text(g.datum(3)))
        for _ in range(s.int(1, 3)):
            if t:
                j = s.draw(len(t))
                r = s.draw(3)
                if r == 0:
                    del t[j]
                elif r == 1:
                    t.insert(j, s.pick(SOUP))
                else:
                    t = t[:j]
        return {'how': s.pick(['string', 'string', 'file']), 'kind': 'mutated', 'bad': ''.join(t)}

    def classify(self, c):
        return len(c['bad']) >= 3, [c['kind'], c['how']]

    def sample(self, c):
        return {'kind': c['kind'], 'text': ' '.join(c.get('ts', []))[:200] + ' >>> ' + c['bad'][:200]}

    def whole(self, c):
        return ' '.join(t + '\n' if ';' in t else t for t in c.get('ts', [])) + (' ' if c.get('ts') else '') + c['bad']

    def body(self, c, k, scratch):
        port = '(open-input-string %s)' % lit(self.whole(c)) if c['how'] == 'string' else '(open-input-file "%s")' % os.path.join(scratch, 'bad%d' % k)
        if 'err' not in c:
            return '(let ((p %s)) (let loop ((n 40)) (if (> n 0) (begin (read p) (loop (- n 1))))))' % port
        return ('(let ((p %s)) %s (display (catch #t (lambda () (read p) "read") (lambda (key . args) key))) (newline) (write (read (open-input-string %s))))'
                % (port, ''.join('(write (read p)) (newline) ' for _ in c['ts']), lit(c['at'] + ' ')))

    def want(self, c):
        return ''.join(show(d, True, False) + '\n' for d in c['data']) + c['err'] + '\n' + show(c['after'], True, False)

    def run(self, cases, scratch):
        out = [None] * len(cases)
        idx = [k for k, c in enumerate(cases) if c['how'] != 'program']
        for k in idx:
            if cases[k]['how'] == 'file':
                with open(os.path.join(scratch, 'bad%d' % k), 'wb') as f:
                    f.write(self.whole(cases[k]).encode('latin1'))
        got = self.mes.run_batch([self.body(cases[k], k, scratch) for k in idx], scratch)
        for k, g in zip(idx, got):
            c = cases[k]
            if isinstance(g, dict):
                if g is not scheme.SKIP and g.get('died') is not None:
                    out[k] = {'tag': 'died', 'got': g}
            elif 'err' in c:
                if g != self.want(c):
                    out[k] = {'tag': 'diff', 'got': g[:2000], 'want': self.want(c)[:2000]}
            elif '@@ERR' in g and g.strip() not in ('@@ERR not-a-pair', '@@ERR system-error'):
                out[k] = {'tag': 'other-error', 'got': g[:500]}
        for k in idx:
            if cases[k]['how'] == 'file':
                os.unlink(os.path.join(scratch, 'bad%d' % k))
        for k, c in enumerate(cases):
            if c['how'] == 'program':       # read before anything of it is run, and reported where nobody catches it
                text = scheme.PRE_MES + '(display "some")\n' + ''.join("(quote %s\n)\n" % t for t in c['ts']) + c['bad']
                rc, o, e = self.mes.run_text(text, scratch)
                e = e.decode('latin1')
                if rc == 'timeout' or rc == 0 or c['err'] not in e:
                    out[k] = {'tag': 'program', 'got': {'rc': str(rc), 'stdout': o.decode('latin1')[-300:], 'stderr': e[-500:]}}
        return out


if __name__ == '__main__':
    pbt.main(S13())
