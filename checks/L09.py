"""L09: library functions stay within the memory they are given (operands between inaccessible pages; reference: glibc)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import pbt, libc

OPS = {2: 'strlen', 3: 'strcpy', 4: 'strncpy', 5: 'strcat', 6: 'strncat', 7: 'strcmp', 8: 'strncmp', 9: 'memcmp', 10: 'strchr',
       11: 'strrchr', 12: 'memchr', 13: 'strstr', 14: 'memmem', 15: 'strspn', 16: 'strcspn', 17: 'strpbrk', 18: 'memcpy', 19: 'memmove',
       20: 'memset', 21: 'strdup', 22: 'strlwr', 23: 'strupr', 24: 'index', 25: 'rindex', 26: 'bcmp', 27: 'bcopy', 28: 'bzero',
       30: 'atoi', 31: 'atol', 32: 'strtol', 33: 'strtoul', 40: 'snprintf %.*s', 41: 'snprintf', 42: 'sprintf', 43: 'sscanf',
       50: 'qsort', 60: 'fgets', 61: 'fread', 62: 'read', 63: 'write', 64: 'fwrite', 65: 'fputs', 70: 'getenv', 71: 'setenv',
       72: 'unsetenv', 73: 'access', 74: 'open', 75: 'realloc'}
VARIADIC = (40, 41, 42, 43)
ALPHA = [b'ab', b'aAbB', b'a\x80\xff', b'abcdefgh', b'0123456789', bytes(range(1, 256))]


class Gen:
    def __init__(self, src):
        self.s = src

    def size(self):
        s = self.s
        return s.pick([0, 1, 2, 3, 4, 7, 8, 9, s.draw(40), s.draw(40), 100 + s.draw(200), s.pick([127, 128, 129, 1024])])

    def bytes(self, n, zero=False):
        s = self.s
        al = s.pick(ALPHA)
        if n > 40:
            r = bytes(al[(i * i + i // 3) % len(al)] for i in range(n))
        else:
            r = bytes(al[s.draw(len(al))] for _ in range(n))
        if zero and n and s.bool():
            k = s.draw(n)
            r = r[:k] + b'\0' + r[k + 1:]
        return r

    def like(self, a):
        """often a variant of A"""
        s = self.s
        k = s.draw(5)
        if k == 0:
            return self.bytes(self.size())
        if k == 1:
            return a
        if k == 2:
            return a[:s.draw(len(a) + 1)]
        if k == 3:
            return a[s.draw(len(a) + 1):]
        b = bytearray(a)
        if b:
            i = s.draw(len(b))
            b[i] = (b[i] + 1 + s.draw(3)) % 255 + 1
        return bytes(b)

    def o(self, b, ro=1):
        """operand: side, bytes, read-only"""
        s = self.s
        return [1 if s.draw(3) else 0, b.decode('latin1'), ro]

    def ch(self, a):
        s = self.s
        if a and s.draw(3):
            return a[s.draw(len(a))]
        return s.pick([0, s.draw(256), 97])

    def op(self):
        s = self.s
        op = s.pick(sorted(OPS))
        a = self.bytes(self.size())
        Z = b'\0'
        if op in (2, 21):
            return [op] + self.o(a + Z)
        if op in (22, 23):
            return [op] + self.o(a + Z, 0)
        if op == 3:
            return [op] + self.o(b'.' * (len(a) + 1 + (s.draw(4) if s.draw(3) == 0 else 0)), 0) + self.o(a + Z)
        if op == 4:
            # the source is a string, or an array of at least n bytes
            n = self.size()
            src = a + Z if s.bool() or len(a) < n else a[:n + s.draw(2)]
            return [op] + self.o(b'.' * (n + s.draw(2)), 0) + self.o(src) + [n]
        if op == 5:
            d = self.bytes(self.size())
            return [op] + self.o(d + Z + b'.' * len(a), 0) + self.o(a + Z)
        if op == 6:
            d = self.bytes(self.size())
            n = s.pick([len(a), self.size(), max(0, len(a) - 1)])
            src = a + Z if n > len(a) or s.bool() else a[:n]
            k = min(n, len(a))
            return [op] + self.o(d + Z + b'.' * k, 0) + self.o(src) + [n]
        if op in (7, 13, 15, 16, 17):
            return [op] + self.o(a + Z) + self.o(self.like(a) + Z)
        if op == 8:
            b = self.like(a)
            n = s.pick([min(len(a), len(b)), self.size()])
            x = a[:n] if len(a) >= n else a + Z
            y = b[:n] if len(b) >= n else b + Z
            return [op] + self.o(x) + self.o(y) + [n]
        if op in (9, 26):
            a = self.bytes(self.size(), True)
            b = self.like(a)
            n = min(len(a), len(b))
            return [op] + self.o(a[:n]) + self.o(b[:n]) + [n]
        if op in (10, 11, 24, 25):
            return [op] + self.o(a + Z) + [self.ch(a)]
        if op == 12:
            a = self.bytes(self.size(), True)
            c = self.ch(a)
            n = len(a)
            if c in a and s.draw(3) == 0:
                n += s.draw(50)
            return [op] + self.o(a) + [c, n]
        if op == 14:
            a = self.bytes(self.size(), True)
            return [op] + self.o(a) + self.o(self.like(a))
        if op in (18, 27):
            a = self.bytes(self.size(), True)
            return [op] + self.o(b'.' * len(a), 0) + self.o(a)
        if op == 19:
            a = self.bytes(self.size(), True)
            n = s.draw(len(a) + 1)
            k, m = s.draw(len(a) - n + 1), s.draw(len(a) - n + 1)
            return [op] + self.o(a, 0) + [k, m, n]
        if op == 20:
            return [op] + self.o(a, 0) + [s.draw(256)]
        if op == 28:
            return [op] + self.o(a, 0)
        if op in (30, 31, 32, 33, 43):
            base = s.pick([8, 10, 16, 2]) if op in (32, 33) else 10
            digits = '0123456789abcdef'[:base]
            t = s.pick(['', ' ', '\t ']) + s.pick(['', '-', '+']) + ''.join(s.pick(list(digits)) for _ in range(s.draw(8) if op not in (43,) else 1 + s.draw(7)))
            t += s.pick(['', '', 'z', ' ', '-'])
            return [op] + self.o(t.encode('latin1') + Z) + ([base] if op in (32, 33) else [])
        if op == 40:
            k = self.size()
            n = s.pick([0, 1, k, k + 1, self.size()])
            src = a[:k] if len(a) >= k else a + Z
            ln = min(len(a), k)
            return [op] + self.o(b'.' * s.pick([n, n + 1]), 0) + self.o(src) + [n, k]
        if op == 41:
            f = s.pick(['', 'a', 'ab%', 'xyz ']) + s.pick(['%d', '%5d', '%-5d', '%x', '%05d', '%c', '%.3d']) + s.pick(['', 'b', 'c d'])
            f = f.replace('%%', '%')
            if f.startswith('ab%'):
                f = 'ab%%' + f[3:] if f[3] == '%' else 'ab%%%' + f[3:]
            v = s.pick([0, 1, -1, 65, 12345, -99999])
            if '%c' in f:
                v = 65
            if '%x' in f:
                v = abs(v)
            return [op] + self.o(b'.' * s.pick([0, 1, 2, 5, 6, 7, 20]), 0) + self.o(f.encode() + Z) + [v]
        if op == 42:
            return [op] + self.o(b'.' * (len(a) + 1), 0) + self.o(a + Z)
        if op == 50:
            k = s.pick([1, 2, 3, 4, 5, 8, 12, 16])
            n = s.draw(12)
            vals = list(range(n))
            for i in range(n - 1, 0, -1):
                j = s.draw(i + 1)
                vals[i], vals[j] = vals[j], vals[i]
            r = b''.join(bytes([v * 7 + 1]) + bytes((v + 3 * i) % 256 for i in range(k - 1)) for v in vals)
            return [op] + self.o(r, 0) + [n, k]
        if op == 60:
            n = 1 + self.size()
            t = self.bytes(self.size()).replace(b'\x05', b'\n')
            if t and s.bool():
                i = s.draw(len(t))
                t = t[:i] + b'\n' + t[i:]
            return [op] + self.o(b'.' * n, 0) + [t.decode('latin1')]
        if op in (61, 64):
            size = s.pick([1, 1, 1, 2, 3, 4, 8])
            n = s.draw(40) if s.draw(4) else 150
            if op == 61:
                t = self.bytes(s.pick([0, size * n, size * n + 3, s.draw(300)]))
                return [op] + self.o(b'.' * (size * n), 0) + [t.decode('latin1'), size, n]
            return [op] + self.o(self.bytes(size * n, True)) + [size, n]
        if op == 62:
            return [op] + self.o(b'.' * self.size(), 0) + [self.bytes(s.pick([0, 1, s.draw(300), 1200])).decode('latin1')]
        if op == 63:
            return [op] + self.o(self.bytes(self.size(), True))
        if op == 65:
            return [op] + self.o(a + Z)
        if op in (70, 71, 72):
            nm = s.pick([b'A', b'AB', b'ABC', b'B', b'HOME'])
            r = [op] + self.o(nm + Z)
            return r + (self.o(a[:60] + Z) if op == 71 else [])
        if op in (73, 74):
            return [op] + self.o(b'nonexistent' + bytes(97 + s.draw(26) for _ in range(s.draw(20))) + Z)
        if op == 75:
            a = a or b'a'
            return [op] + self.o(a) + [s.pick([1, len(a), len(a) + 1, 2 * len(a), max(1, len(a) - 1), 300])]


class L09(libc.LDiff):
    id = 'L09'
    driver = 'guard'
    quick = 20000
    thorough = 300000
    quick_s = 30
    batch = 60
    rule = ('a case is a sequence of 1-8 calls of library functions; every operand is an object of exactly the size the function may access, '
            'lying against a page that cannot be accessed (before or behind it), and read-only when the function may only read it; the result, '
            'the operands and the bytes around them are compared with glibc for the library built by gcc and by MesCC for x86_64 and x86; '
            'non-trivial = at least one operand of one byte or more')
    assumptions = ['glibc stays within the operands under the preconditions of C', 'variadic functions are not called in the 64-bit library built by gcc']

    def gen(self, src):
        g = Gen(src)
        ops = [g.op() for _ in range(src.length(1, 8))]
        return {'ops': ops}

    def skip(self, case, target):
        return target == 'gcc64' and any(o[0] in VARIADIC for o in case['ops'])

    def classify(self, c):
        return any(isinstance(x, str) and x for o in c['ops'] for x in o[1:]), sorted(set(OPS[o[0]] for o in c['ops']))


if __name__ == '__main__':
    pbt.main(L09())
