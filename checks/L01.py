"""L01: string and memory functions of the C library (reference: glibc, on an arena shared by all operations)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import pbt, libc

N = 960       # arena bytes written by generated operations (the rest of the 1024 stays zero)
OPS = {1: 'put', 2: 'strlen', 3: 'strcpy', 4: 'strncpy', 5: 'strcat', 6: 'strncat', 7: 'strcmp', 8: 'strncmp', 9: 'memcmp', 10: 'strchr',
       11: 'strrchr', 12: 'memchr', 13: 'strstr', 14: 'memmem', 15: 'strspn', 16: 'strcspn', 17: 'strpbrk', 18: 'memcpy', 19: 'memmove',
       20: 'memset', 21: 'strdup', 22: 'strlwr', 23: 'strupr', 24: 'index', 25: 'rindex', 26: 'bcmp', 27: 'bcopy', 28: 'bzero'}
ALPHA = [b'ab', b'aAbB', b'a\x80\xff', b'\x7f\x80\x81\xe9', b'abcdefgh', bytes(range(1, 256))]


class Arena:
    """what the operations leave in memory, to keep to their preconditions"""

    def __init__(self, src):
        self.s = src
        self.m = bytearray(1024)
        self.ops = []
        self.spots = [0]

    def slen(self, a):
        return self.m.index(0, a) - a

    def spot(self):
        s = self.s
        k = s.draw(4)
        if k < 3:
            a = s.pick(self.spots) + (s.draw(4) if k == 2 else 0)
        else:
            a = s.draw(200)
        return min(a, 400)

    def data(self):
        s = self.s
        al = s.pick(ALPHA)
        n = s.length(0, 60) if s.draw(12) else s.int(60, 300)
        if n > 60:
            return bytes(al[(i * i + i // 3) % len(al)] for i in range(n))
        return bytes(al[s.draw(len(al))] for _ in range(n))

    def ch(self):
        s = self.s
        k = s.draw(6)
        a = self.spot()
        if k < 3:
            c = self.m[a + s.draw(max(1, self.slen(a)))]
        elif k == 3:
            c = 0
        else:
            c = s.draw(256)
        return c if s.draw(4) else (c - 256 if c > 127 else c + 256 * s.draw(2))

    def len_(self, hi):
        s = self.s
        return min(hi, s.pick([0, 1, 2, 3, s.draw(20), s.draw(300)]))

    def step(self):
        s = self.s
        m = self.m
        op = s.pick([1, 1, 1] + list(range(2, 29)))
        a = self.spot()
        if op == 1:
            d = self.data()
            if s.draw(4):
                d += b'\0'
            if s.draw(8) == 0 and len(d) > 2:
                d = d[:len(d) // 2] + b'\0' + d[len(d) // 2:]
            m[a:a + len(d)] = d
            self.spots.append(a)
            if s.draw(3):
                self.spots.append(min(400, a + len(d)))
            self.ops.append([1, a, d.decode('latin1')])
            return
        b = self.spot()
        la, lb = self.slen(a), self.slen(b)
        args = None
        if op in (2, 21):
            args = [a]
        elif op in (22, 23):
            args = [a]
            t = m[a:a + la]
            m[a:a + la] = bytes((c + 32 if op == 22 and 65 <= c <= 90 else c - 32 if op == 23 and 97 <= c <= 122 else c) for c in t)
        elif op in (3, 4, 5, 6):
            n = lb if op in (3, 5) else self.len_(300)
            if op == 3:
                w = bytes(m[b:b + lb + 1])
                d = a
            elif op == 4:
                w = bytes(m[b:b + min(lb, n)]) + bytes(max(0, n - lb))
                d = a
            else:
                w = bytes(m[b:b + min(lb, n)]) + b'\0'
                d = a + la
            need = min(lb, n) + (1 if op in (3, 5) or lb < n or op == 6 else 0)
            lo, hi = (a, d + len(w))
            if d + len(w) > N or not (hi <= b or b + need <= lo):
                return
            m[d:d + len(w)] = w
            args = [a, b] + ([n] if op in (4, 6) else [])
        elif op in (7, 13, 15, 16, 17):
            args = [a, b]
        elif op == 8:
            args = [a, b, self.len_(500)]
        elif op in (9, 26):
            if s.bool():
                n = 0
                while n < 300 and m[a + n] == m[b + n]:
                    n += 1
                n += s.draw(3)
            else:
                n = self.len_(500)
            args = [a, b, n]
        elif op in (10, 11, 24, 25):
            args = [a, self.ch()]
        elif op == 12:
            args = [a, self.ch(), self.len_(500)]
        elif op == 14:
            args = [a, self.len_(300), b, min(self.len_(300), s.pick([1, 2, 3, 300]))]
        elif op in (18, 19, 27):
            n = self.len_(300)
            if max(a, b) + n > N or (op == 18 and not (a + n <= b or b + n <= a)):
                return
            m[a:a + n] = bytes(m[b:b + n])
            args = [a, b, n]
        elif op in (20,):
            n = self.len_(300)
            c = self.ch()
            m[a:a + n] = bytes([c & 255]) * n
            args = [a, c, n]
        elif op == 28:
            n = self.len_(100)
            m[a:a + n] = bytes(n)
            args = [a, n]
        self.ops.append([op] + args)


class L01(libc.LDiff):
    id = 'L01'
    driver = 'string'
    quick = 30000
    thorough = 400000
    quick_s = 15
    rule = ('a case is a sequence of 1-30 operations (28 string and memory functions) on one 1 kB arena, all operands inside it and the '
            'preconditions of C respected; every result and a digest of the memory (with guard zones) after every operation is compared with '
            'glibc for the library built by gcc and by MesCC for x86_64 and x86; non-trivial = at least three operations')
    assumptions = ['glibc implements the functions as specified by C and POSIX',
                   'pointers outside the arena, overlapping copies and unterminated strings are not generated']

    def gen(self, src):
        a = Arena(src)
        for _ in range(src.length(2, 30)):
            a.step()
        return {'ops': a.ops}

    def classify(self, c):
        return len(c['ops']) >= 3, sorted(set(OPS[o[0]] for o in c['ops']))


if __name__ == '__main__':
    pbt.main(L01())
