"""L02: character classes, number to text and text to number (reference: glibc)."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import pbt, libc

EDGE = sorted(set(x + d for k in range(0, 64) for x in (1 << k, -(1 << k)) for d in (-1, 0, 1)) |
              set(x + d for k in range(1, 19) for x in (10 ** k, -10 ** k) for d in (-1, 0, 1)))
DIG = '0123456789abcdefghijklmnopqrstuvwxyz'
NAMES = {1: 'ctype', 2: 'isnumber', 3: 'atoi', 4: 'atol', 5: 'strtol', 6: 'strtoul', 7: 'strtoll', 8: 'strtoull', 9: 'strtol-null', 10: 'itoa',
         11: 'ltoa', 12: 'ultoa', 13: 'utoa', 14: 'ltoab', 15: 'ntoab', 16: 'abs', 17: 'abtol', 18: 'uldiv', 30: 'strtod', 31: 'atof', 32: 'dtoab',
         33: 'floor', 34: 'ceil', 35: 'fabs', 36: 'strtof'}


def digits(n, base):
    r = ''
    while True:
        r = DIG[n % base] + r
        n //= base
        if not n:
            return r


class L02(libc.LDiff):
    id = 'L02'
    driver = 'conv'
    quick = 24000
    thorough = 400000
    quick_s = 15
    rule = ('a case is 1-16 calls of the character class, integer/text and (gcc only) floating point/text functions; numbers and texts lean to '
            'powers of two and ten and their neighbours, with signs, prefixes, blanks, mixed case and trailing text; compared with glibc (or with '
            'a plain reference for the non-standard ones) for the library built by gcc and by MesCC for x86_64 and x86; non-trivial = a number of '
            'more than two digits, a base other than ten, or text with more than digits is involved')
    assumptions = ['glibc (C locale) implements the standard functions as specified', 'values outside the result type are not generated: overflow is '
                   'not specified by this library', 'floating point is compared to 8 digits, for gcc-built code only (MesCC does not do floating point)']

    def number(self, s, lo, hi):
        k = s.draw(8)
        if k == 0:
            n = s.draw(20)
        elif k == 1:
            n = s.draw(1000)
        elif k < 5:
            n = s.pick([e for e in EDGE if lo <= e <= hi])
        elif k == 5:
            n = s.draw(1 << 16)
        else:
            n = s.draw(1 << 31)
            if hi > 1 << 40:
                n = n * s.draw(1 << 31) + s.draw(1 << 30)
        if s.draw(3) == 0:
            n = -n
        return min(max(n, lo), hi)

    def text(self, s, base, lo, hi):
        """text for the function taking `base` (0: by prefix)"""
        b = base
        pre = ''
        if base == 0:
            b = s.pick([10, 10, 16, 8])
            pre = {10: '', 16: s.pick(['0x', '0X']), 8: '0'}[b]
        elif base == 16 and s.draw(3) == 0:
            pre = s.pick(['0x', '0X'])
        elif s.draw(8) == 0:
            pre = '0' * s.draw(4)
            if base == 0:
                pre = ''
        n = self.number(s, lo, hi)
        d = digits(abs(n), b)
        if base == 0 and b == 10 and d[0] == '0':
            d = '0'
        if s.draw(3) == 0:
            d = ''.join(c.upper() if s.draw(2) else c for c in d)
        sign = '-' if n < 0 else s.pick(['', '', '', '+'])
        ws = ''.join(s.pick(list(' \t\n\v\f\r')) for _ in range(s.draw(3))) if s.draw(3) == 0 else ''
        tail = s.pick(['', '', ' ', 'z', '-', '+1', ' 12', '.5', 'g', 'G', '/', ':', '@', '`', 'x', 'e3', '_', '\x80', '\xb1'])
        if s.draw(14) == 0:
            k = s.draw(8)
            r = ['', '-', '+', '+-5', '-+5', '- 5', ' ', '0x'][k] if base not in (0, 16) else ['', '-', '+', '+-5', '-+5', '- 5', 'xyz', '0xg'][k]
            return ws + r
        if tail and tail[0].lower() in DIG and DIG.index(tail[0].lower()) < b:
            tail = ''
        if d == '0' and pre == '' and base in (0, 16, 8) and tail in ('x',):
            tail = ''
        return ws + sign + pre + d + tail

    def ftext(self, s):
        i = digits(s.draw(s.pick([1, 10, 100, 1000, 100000, 10000000])), 10)
        t = i
        k = s.draw(4)
        if k >= 1:
            f = ''.join(DIG[s.draw(10)] if s.draw(3) else '0' for _ in range(1 + s.draw(6)))
            t = (i if s.draw(5) else '') + '.' + f
        if s.draw(4) == 0:
            t += s.pick('eE') + s.pick(['', '+', '-']) + str(s.draw(12))
        return s.pick(['', ' ', '']) + s.pick(['', '-', '+', '']) + t + s.pick(['', '', ' ', 'f', ',', '-', '.'] if '.' in t else ['', '', ' ', 'f', ','])

    def op(self, s, wide, floats):
        lo, hi = (-2 ** 63, 2 ** 63 - 1) if wide else (-2 ** 31, 2 ** 31 - 1)
        uhi = 2 ** 64 - 1 if wide else 2 ** 32 - 1
        if floats:
            k = s.pick([30, 30, 31, 32, 32, 33, 34, 35, 36])
            if k in (30, 31, 36):
                return [k, self.ftext(s)]
            if k == 32:
                return [k, s.draw(2000001) * s.pick([1, -1]), s.pick([1, 2, 4, 5, 8, 10, 16, 20, 25, 32, 40, 50, 64, 80, 100, 125, 1000, 10000])]
            return [k, s.draw(2001) * s.pick([1, -1]), s.pick([1, 2, 3, 4, 7, 8, 10, 16, 100, 1024])]
        k = s.pick([1, 1, 2, 3, 4, 5, 5, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 15, 16, 17, 17, 18])
        if k == 1:
            return [1, s.draw(257) - 1]
        if k == 2:
            return [2, s.draw(257) - 1, s.pick([2, 8, 10, 16])]
        if k == 3:
            return [k, self.text(s, 10, -2 ** 31, 2 ** 31 - 1)]
        if k == 4:
            return [k, self.text(s, 10, lo, hi)]
        base = s.pick([10, 10, 16, 16, 8, 2, 0, 0, 0, 3, 7, 11, 36, 2 + s.draw(35)])
        if k in (5, 7, 9):
            return [k, self.text(s, base, lo, hi), base]
        if k in (6, 8):
            return [k, self.text(s, base, 0, uhi), base]
        if k == 17:
            base = s.pick([0, 2, 8, 10, 16])
            t = re.sub('0[xX]', '', self.text(s, base or 10, lo, hi))
            m = re.match(r'[ \t\n\v\f\r]*[+-]?([0-9a-zA-Z])', t)
            if not m or DIG.index(m.group(1).lower()) >= (base or 10):
                t = '7'        # without digits the end is not specified
            return [k, t, base]
        if k in (10, 13):
            n = self.number(s, -2 ** 31, 2 ** 31 - 1)
            return [k, abs(n) & 0x7fffffff if k == 13 else n]
        if k == 11:
            return [k, self.number(s, lo, hi)]
        if k == 12:
            return [k, self.number(s, lo, hi) if wide else abs(self.number(s, lo + 1, hi))]
        if k == 14:
            return [k, self.number(s, lo, hi), 2 + s.draw(35)]
        if k == 15:
            sg = s.draw(2)
            n = self.number(s, lo, hi)
            return [k, n if wide or sg else abs(n) & 0x7fffffff, s.pick([2, 8, 10, 16, 2 + s.draw(35)]), sg]
        if k == 16:
            return [k, self.number(s, -2 ** 31 + 1, 2 ** 31 - 1)]
        if k == 18:
            a = self.number(s, lo, hi)
            b = self.number(s, lo, hi)
            if not wide:
                a, b = abs(a) & 0x7fffffff, abs(b) & 0x7fffffff
            return [k, a, b or 1]

    def gen(self, s):
        m = s.draw(6)
        wide, floats = m in (0, 1), m == 2
        return {'w': int(wide), 'f': int(floats), 'ops': [self.op(s, wide, floats) for _ in range(s.length(1, 16))]}

    def wide(self, c):
        return c['w']

    def skip(self, c, tg):
        return c['f'] and tg.startswith('mescc')

    def norm(self, line, tg):
        if tg.endswith('32'):
            return re.sub(r'(?<= )-?\d+', lambda m: str(int(m.group()) & 0xffffffff), line)
        return line

    def same(self, a, b):
        """floating point results equal to about seven digits"""
        a, b = a.split(), b.split()
        if len(a) != len(b) or a[0] not in ('30', '31', '33', '34', '35', '36'):
            return False
        if a[1] != b[1] or a[4:] != b[4:]:
            return False
        def val(t):
            e = int(t[3])
            return float('%s%d' % (t[2], e - (1 << 32) if e >> 31 else e))
        x, y = val(a), val(b)
        return abs(x - y) <= (1e-6 if a[0] == '36' else 1e-7) * abs(x)

    def classify(self, c):
        big = any(isinstance(x, int) and abs(x) > 99 or isinstance(x, str) and not x.isdigit() for o in c['ops'] for x in o[1:])
        return big or any(o[0] in (5, 6, 7, 8, 9, 14, 15, 17) and 10 not in o[1:] for o in c['ops']), sorted(set(NAMES[o[0]] for o in c['ops']))


if __name__ == '__main__':
    pbt.main(L02())
