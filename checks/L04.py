"""L04: allocation (malloc, calloc, realloc, free, strdup): a heap history with an invariant over all live blocks."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import pbt, libc

NAMES = {1: 'malloc', 2: 'calloc', 3: 'realloc', 4: 'free', 5: 'malloc too much', 6: 'calloc too much', 7: 'realloc too much', 8: 'strdup'}


class L04(libc.LDiff):
    id = 'L04'
    driver = 'mem'
    quick = 16000
    thorough = 300000
    quick_s = 12
    rule = ('a case is a history of 1-30 allocation calls on 24 slots, every block filled with a pattern of its own; after every call all live '
            'blocks keep their contents, do not overlap and are aligned, calloc blocks are zero, realloc keeps the common part, and requests '
            'beyond the address space or overflowing calloc products yield NULL; answers are compared with glibc; library built by gcc and by MesCC for '
            'x86_64 and x86; non-trivial = at least three calls with two blocks live')
    assumptions = ['realloc to size 0 and malloc of size 0 are not generated (implementation defined)', 'histories stay below 4 MB a case']

    def gen(self, s):
        ops = []
        live = {}
        for _ in range(s.length(2, 30)):
            k = s.draw(24) if s.draw(3) == 0 or not live else s.pick(sorted(live))
            op = s.pick([1, 1, 1, 2, 2, 3, 3, 3, 4, 5, 6, 7, 8])
            n = s.pick([1, 2, 3, 7, 8, 9, 15, 16, 17, 1 + s.draw(64), 1 + s.draw(64), 1 + s.draw(1000), 1 + s.draw(1000), 1 + s.draw(20000) if s.draw(6) == 0 else 4096])
            if op == 1:
                ops.append([1, k, n, s.draw(256)])
                live[k] = 1
            elif op == 2:
                a, b = s.pick([(n, 1), (1, n), (1 + n // 8, 8), (8, 1 + n // 8), (1 + n // 4, 4), (1 + s.draw(30), 1 + s.draw(30))])
                ops.append([2, k, a, b, s.draw(256)])
                live[k] = 1
            elif op == 3:
                ops.append([3, k, n, s.draw(256)])
                live[k] = 1
            elif op == 4:
                ops.append([4, k])
                live.pop(k, None)
            elif op == 8:
                n = min(n, 300)
                ops.append([8, k, ''.join(chr((5 + i * 7) % 256) if (5 + i * 7) % 256 else '\0' for i in range(n)).split('\0')[0]])
                live[k] = 1
            elif s.draw(4) == 0:
                if op == 5:
                    ops.append([5, k, -1 - s.draw(100000)])
                elif op == 6:
                    ops.append([6, k] + s.pick([[-1, 1], [-1, 2], [-2, 8]]))
                else:
                    ops.append([7, k, -1 - s.draw(1000)])
        return {'ops': ops or [[1, 0, 8, 1]]}

    def classify(self, c):
        n = len(set(o[1] for o in c['ops'] if o[0] in (1, 2, 3, 8)))
        return len(c['ops']) >= 3 and n >= 2, sorted(set(NAMES[o[0]] for o in c['ops']))


if __name__ == '__main__':
    pbt.main(L04())
