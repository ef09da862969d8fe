"""L06: descriptors and file names: the system call layer of the C library, with the buffering of read."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import pbt, libc

NAMES = ['a', 'a', 'a', 'b', 'b', 'c', 'd', 'd/a', 'd/b', 'd/c', 'l', 'no/x', 'a/x', 'd/', '']
OPN = {1: 'open', 2: 'close', 3: 'read', 4: 'write', 5: 'lseek', 6: 'dup', 7: 'dup2', 8: 'fstat', 9: 'pipe', 10: 'fcntl', 11: 'fsync',
       12: 'isatty', 30: 'access', 31: 'chmod', 32: 'link', 33: 'symlink', 34: 'readlink', 35: 'rename', 36: 'rmdir', 37: 'mkdir', 38: 'unlink',
       39: 'stat', 40: 'lstat', 41: 'mkfifo', 42: 'readdir', 43: 'remove', 44: 'chdir', 46: 'getcwd'}


class L06(libc.FDiff):
    id = 'L06'
    driver = 'file'
    batch = 25
    quick = 6000
    thorough = 160000
    quick_s = 25
    rule = ('a case is a history of 1-40 calls (open with every combination of access mode, creation, exclusion, truncation and append; read, write, '
            'lseek, dup, dup2, close, fstat, pipe, fcntl; names: mkdir, rmdir, link, symlink, readlink, rename, unlink, remove, stat, lstat, access, chmod, '
            'chdir, readdir) on a directory of its own; every result, errno and byte is compared with glibc in a twin directory, and so are the file contents and listings at the '
            'end; library built by gcc and by MesCC for x86_64 and x86; non-trivial = data written and read back through descriptors, or five name operations')
    assumptions = ['runs as root, so permission failures do not occur', 'two descriptors of one open file are not both read (read buffers per descriptor)',
                   'i386 statistics use 16-bit identifiers (old stat call)']

    def gen(self, s):
        ops = []
        names = s.draw(3)
        openfd = set()
        dead = set()       # descriptors that share an open file with one in use
        ahead = set()      # descriptors that may have data read ahead
        pipes = set()

        def fresh(i):
            for x in (dead, ahead, pipes):
                x.discard(i)
        if s.draw(3) == 0:
            ops.append([37, 'd', 0o755])
        for _ in range(s.length(2, 36)):
            if names == 0 or (names == 1 and s.bool()):
                self.name_op(s, ops)
                continue
            k = s.pick(sorted(openfd)) if openfd and s.draw(8) else s.draw(6)
            op = s.pick([1, 2, 3, 3, 3, 3, 4, 4, 4, 5, 5, 5, 6, 7, 8, 9, 11, 12, 10 if not s.draw(4) else 3])
            if op in (3, 4, 5, 8, 10, 11, 12, 2) and k not in openfd and s.draw(6):
                op = 1
            if op == 1:
                m = s.pick([0, 1, 2, 2, 2]) | (4 if s.draw(3) else 0) | (8 if not s.draw(8) else 0) | (16 if not s.draw(5) else 0) | (32 if not s.draw(5) else 0) \
                    | (64 if not s.draw(20) else 0)
                ops.append([1, k, s.pick(NAMES), m, s.pick([0o644, 0o600, 0o777, 0o640])])
                openfd.add(k)
                fresh(k)
            elif op == 2:
                ops.append([2, k])
                openfd.discard(k)
                fresh(k)
            elif k in dead:
                continue
            elif op == 3:
                ahead.add(k)
                n = s.pick([1, 1, 2, 3, 5, 10, 50, 99, 100, 101, 127, 128, 129, 130, 200, 300, 1000, 1 + s.draw(400)])
                ops.append([3, k, n])
            elif op == 4:
                if k in pipes:
                    continue
                ahead.discard(k)
                n = s.pick([0, 1, 2, 5, 20, 100, 128, 129, 300, s.draw(300)])
                b = s.draw(256)
                ops.append([4, k, bytes((b + i * 7 + i // 13) & 255 for i in range(n)).decode('latin1')])
            elif op == 5:
                ops.append([5, k, s.pick([0, 0, 0, 1, 2, 5, 10, 100, 127, 128, 200, -1, -2, -5, -10, -100, 500]), s.pick([0, 0, 1, 1, 1, 2, 2, 3, 9])])
            elif op in (6, 7):
                i = s.draw(6)
                if op == 7 and (i not in openfd or k not in openfd or i in ahead):
                    continue
                if i == k or k in ahead:
                    continue
                ops.append([op, k, i])
                fresh(i)
                openfd.discard(i)
                if k in openfd:
                    openfd.add(i)
                    dead.add(k)
                    if k in pipes:
                        pipes.add(i)
            elif op == 9:
                b = s.draw(256)
                i = (k + 1) % 8
                ops.append([9, k, bytes((b + j * 3) & 255 for j in range(s.pick([0, 1, 5, 100, 127, 128, 129, 200, 300]))).decode('latin1')])
                openfd.add(k)
                openfd.discard(i)
                fresh(k)
                fresh(i)
                pipes.add(k)
            elif op == 10:
                ops.append([10, k, s.draw(2)])
            else:
                ops.append([op, k])
        return {'ops': ops}

    def name_op(self, s, ops):
        n = s.pick(NAMES)
        op = s.pick([30, 30, 31, 32, 33, 34, 35, 35, 36, 37, 37, 38, 38, 39, 39, 40, 40, 41, 42, 43, 44, 46, 1, 1, 1])
        if op == 46:
            ops.append([46])
        elif op == 1:
            ops.append([1, 7, n, 2 | 4, 0o644])
            if s.bool():
                ops.append([4, 7, s.pick(['x', 'hello', ''])])
            ops.append([2, 7])
        elif op == 30:
            ops.append([30, n, s.draw(8)])
        elif op == 31:
            ops.append([31, n, s.pick([0o644, 0o600, 0o755, 0o4755, 0o000, 0o777])])
        elif op in (32, 33, 35):
            ops.append([op, n, s.pick(NAMES)])
        elif op == 34:
            ops.append([34, s.pick(['l', 'l', n]), s.pick([1, 2, 3, 10, 100])])
        elif op == 37:
            ops.append([37, s.pick(['d', 'd', n]), s.pick([0o755, 0o700, 0o777])])
        elif op == 44:
            ops.append([44, s.pick(['d', 'a', 'no', '.', ''])])
        else:
            ops.append([op, s.pick(['d', n, n]) if op in (36, 42) else n])

    def skip(self, c, target):
        return target == 'gcc64' and any(o[0] == 10 for o in c['ops'])     # variadic fcntl, see <stdarg.h>

    def same(self, a, b):
        return a.startswith(' 5 -1 ') and b.startswith(' 5 -1 ')      # which of two errors lseek reports

    def classify(self, c):
        w = r = n = 0
        lab = set()
        for o in c['ops']:
            lab.add(OPN[o[0]])
            w += o[0] == 4 and len(o[2]) > 0
            r += o[0] == 3 and w > 0
            n += o[0] >= 30
        return (w and r) or n > 4, sorted(lab)


if __name__ == '__main__':
    pbt.main(L06())
