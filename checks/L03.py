"""L03: formatted output and input (reference: glibc)."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import pbt, libc

EDGE = sorted(set(x + d for k in range(0, 64) for x in (1 << k, -(1 << k)) for d in (-1, 0, 1)) |
              set(x + d for k in range(1, 19) for x in (10 ** k, -10 ** k) for d in (-1, 0, 1)))
NAMES = {1: 'vsnprintf', 2: 'vsprintf', 3: 'vfprintf', 4: 'snprintf', 5: 'sprintf', 6: 'fprintf', 10: 'vsscanf', 11: 'vfscanf', 12: 'sscanf', 13: 'fscanf'}
LIT = 'abc XYZ,:(-\n\t0123\x80\xff'
BLANK = ' \t\n'


class L03(libc.LDiff):
    id = 'L03'
    driver = 'fmt'
    quick = 30000
    thorough = 400000
    quick_s = 18
    rule = ('a case is 1-8 calls: printf family with 0-6 conversions (c d i o u x X s % n; flags, width, precision, * and l) into a bounded '
            'buffer, an unbounded one and a stream, scanf family with 0-4 conversions (c d i u %; l, blanks and literals) over matching, nearly '
            'matching and random input from a string and from a stream; return value, text, variables, bytes after the buffer and the rest of '
            'the input are compared with glibc for the library built by gcc and by MesCC for x86_64 and x86; non-trivial = a conversion is involved')
    assumptions = ['glibc (C locale) implements the functions as specified',
                   'conversions the library reports as "not supported" (+ # h p e f g, %s of scanf) are not generated; on x86_64 arguments without l are '
                   'int values in a full word, as the library reads them (lib/tests/stdio/70-printf.c demands that)',
                   'variadic entry points are called in MesCC-built and x86 code; for gcc on x86_64 the va_list ones only']

    def number(self, s, lo, hi):
        k = s.draw(8)
        if k == 0:
            n = s.draw(3)
        elif k == 1:
            n = s.draw(1000)
        elif k < 5:
            n = s.pick([e for e in EDGE if lo <= e <= hi])
        else:
            n = s.draw(1 << 31)
            if hi > 1 << 40:
                n = n * s.draw(1 << 31) + s.draw(1 << 30)
        if s.draw(3) == 0:
            n = -n
        return min(max(n, lo), hi)

    def word(self, s, n):
        return ''.join(s.pick(LIT) for _ in range(n))

    def fmt(self, s, wide, maxargs):
        f, args = '', []
        for _ in range(s.length(0, 6)):
            if s.draw(3) == 0:
                f += self.word(s, s.draw(6))
            c = s.pick('cdddiouxXsss%n')
            need = 1 + 2 * (c not in '%n')
            if len(args) + need > maxargs:
                continue
            if c == '%':
                f += '%%'
                continue
            if c == 'n':
                f += '%n'
                args.append((2,))
                continue
            f += '%'
            fl = ''
            if s.draw(2):
                for _ in range(s.draw(3)):
                    fl += s.pick('-' if c in 'sc' else '-0' if c in 'ouxX' else '-0 ')
            f += fl
            k = s.draw(4)
            if k == 1:
                w = s.pick([0, 1, 2, 5, 10, s.draw(40)])
                f += str(w) if w else ''
            elif k == 2:
                f += '*'
                args.append((0, s.draw(60) - 20))
            if c != 'c':
                k = s.draw(5)
                if k == 1:
                    f += '.' + str(s.pick([0, 1, 2, 5, 10, s.draw(40)]))
                elif k == 2:
                    f += '.*'
                    args.append((0, s.draw(30) - 4))
                elif k == 3 and s.draw(3) == 0:
                    f += '.'
            if c == 's':
                args.append((1, self.word(s, s.length(0, 30))))
            elif c == 'c':
                args.append((0, 1 + s.draw(255)))
            else:
                lng = s.draw(3) == 0
                if lng:
                    f += 'l'
                    lo, hi = (-2 ** 63, 2 ** 63 - 1) if wide else (-2 ** 31, 2 ** 31 - 1)
                    v = self.number(s, lo, hi)
                    if not wide and c in 'ouxX':
                        v &= 0x7fffffff
                elif c in 'di':
                    v = self.number(s, -2 ** 31, 2 ** 31 - 1)
                else:
                    v = abs(self.number(s, -2 ** 31, 2 ** 31 - 1)) & 0x7fffffff
                args.append((0, v))
            f += c
        if s.draw(3) == 0:
            f += self.word(s, s.draw(6))
        return f, args

    def scan(self, s, wide):
        """template, kinds and an input made along"""
        t, inp, kinds = '', '', []
        for _ in range(s.length(0, 6)):
            k = s.draw(8)
            if k == 0:
                t += s.pick(BLANK)
                inp += ''.join(s.pick(BLANK) for _ in range(s.draw(3)))
            elif k == 1:
                w = ''.join(s.pick('ab,:;x-\x80') for _ in range(1 + s.draw(3)))
                t += w
                inp += w
            elif k == 2:
                t += '%%'
                inp += s.pick(['', '', ' ']) + '%'
            elif len(kinds) < 4:
                c = s.pick('cdddiiu')
                lng = c != 'c' and s.draw(3) == 0
                t += '%' + ('l' if lng else '') + c
                if c == 'c':
                    kinds.append(0)
                    inp += s.pick('ab1 \n\x80\xff%')
                else:
                    kinds.append(2 if lng else 1)
                    lo, hi = (-2 ** 63, 2 ** 63 - 1) if lng and wide else (-2 ** 31, 2 ** 31 - 1)
                    v = self.number(s, lo, hi)
                    if c == 'u':
                        v = abs(v) & 0x7fffffff
                    a = str(abs(v))
                    if c == 'i':
                        a = s.pick([str(abs(v)), '0%o' % abs(v), '0x%x' % abs(v), '0X%X' % abs(v)])
                    inp += s.pick(['', '', ' ', '\n \t']) + ('-' if v < 0 else s.pick(['', '', '+'])) + a
        k = s.draw(6)
        if k == 0 and inp:
            i = s.draw(len(inp))
            inp = inp[:i]
        elif k == 1 and inp:
            i = s.draw(len(inp))
            inp = inp[:i] + s.pick('a %z,-') + inp[i + 1:]
        elif k == 2:
            inp += s.pick(['rest', ' 1', '\n', '%', '9', '-'])
        # sequences where the standard asks for more than one character of push-back, or where digits run together
        inp = re.sub(r'0[xX](?![0-9a-fA-F])', '0', inp)
        inp = re.sub(r'0[bB]', '0,', inp)
        inp = re.sub(r'[-+](?!\d)', ',', inp)
        inp = re.sub(r'\d{11,}' if not wide else r'\d{20,}', '7', inp)
        big = 2 ** 63 if wide else 2 ** 31

        def cap(m):
            d = m.group()
            try:
                v = int(d, 16) if d[:2].lower() == '0x' else int(d)
            except ValueError:
                return d
            return d if v < 2 ** 31 or (wide and v < 2 ** 63) else '12'
        inp = re.sub(r'0[xX][0-9a-fA-F]+|\d+', cap, inp)
        return inp, t, kinds

    def op(self, s, wide, variadic):
        k = s.pick([4, 5, 6, 12, 13] if variadic else [1, 1, 1, 2, 3, 3, 10, 11])
        if k >= 10:
            inp, t, kinds = self.scan(s, wide)
            # int variables hold what fits
            if wide and 1 in kinds and re.search(r'\d{10,}|0[xX][0-9a-fA-F]{8,}|0[0-7]{11,}', inp):
                t = t.replace('%d', '%ld').replace('%i', '%li').replace('%u', '%lu')
                kinds = [2 if x == 1 else x for x in kinds]
            if '\0' in inp:
                inp = inp.replace('\0', '')
            return [k, inp, t, len(kinds)] + kinds
        f, args = self.fmt(s, wide, 6 if variadic else 8)
        if variadic:
            args = [(0, 5) if a[0] == 2 else a for a in args] if '%n' not in f else None
            if args is None:
                f, args = 'x%dy', [(0, s.draw(1000))]
        flat = [x for a in args for x in a]
        n = len(args)
        if k in (1, 4):
            size = s.pick([0, 1, 2, s.draw(20), s.draw(100), 300, 300])
            return [k, size, f, n] + flat
        return [k, f, n] + flat

    def gen(self, s):
        wide = s.draw(4) == 0
        variadic = s.draw(4) == 0
        return {'w': int(wide), 'v': int(variadic), 'ops': [self.op(s, wide, variadic) for _ in range(s.length(1, 8))]}

    def wide(self, c):
        return c['w']

    def skip(self, c, tg):
        return c['v'] and tg == 'gcc64'

    def norm(self, line, tg):
        if tg.endswith('32'):
            return re.sub(r'(?<= )-?\d+', lambda m: str(int(m.group()) & 0xffffffff), line)
        return line

    def classify(self, c):
        conv = set()
        for o in c['ops']:
            f = [x for x in o[1:] if isinstance(x, str)]
            f = f[1] if o[0] >= 10 else f[0]
            conv |= set(re.findall(r'%[^a-zA-Z%]*l?([a-zA-Z%])', f))
        return bool(conv), sorted(set(NAMES[o[0]] for o in c['ops'])) + ['%' + x for x in sorted(conv)]


if __name__ == '__main__':
    pbt.main(L03())
