"""L05: qsort; the environment."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import pbt, libc

VARS = ['A', 'AB', 'ABC', 'B', 'PATH', 'LD', 'X_1', 'HOME', 'a', '_']


def wide_tail(s, n):
    """A tail whose every byte depends on two drawn numbers."""
    a, b = s.draw(256), s.draw(256)
    return bytes((a + b * i + (i >> 7)) & 255 for i in range(n))


class L05(libc.LDiff):
    id = 'L05'
    driver = 'mem'
    quick = 16000
    thorough = 300000
    quick_s = 12
    rule = ('a case is 1-4 qsort calls (0-120 elements of 1-24, sometimes of up to 624 bytes, keys shorter than elements, few or many distinct keys, sorted, '
            'reversed and random order) or a history of 1-20 setenv, unsetenv and getenv calls over names that are prefixes of each other; keys in order, '
            'no element lost or invented, nothing outside the array touched, the comparison only called on elements; the whole environment after every '
            'call; compared with glibc for the library built by gcc and by MesCC for x86_64 and x86; non-trivial = more than two elements or calls')
    assumptions = ['the order of elements with equal keys is not specified']

    def gen(self, s):
        ops = []
        if s.bool():
            for _ in range(1 + s.draw(4)):
                size = s.pick([1, 1, 2, 4, 4, 8, 3, 5, 12, 16, 24, 1 + s.draw(24)])
                wide = s.draw(8) == 0
                if wide:
                    size = s.pick([31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 25 + s.draw(600)])
                key = min(size, s.pick([min(size, 24), size if not wide else 8, 1, 2, 4]))
                n = s.draw(7) if wide else s.length(0, 40) if s.draw(6) else s.draw(120)
                alpha = s.pick([2, 3, 5, 256, 256])
                els = [bytes(s.draw(alpha) for _ in range(key)) 
                       + (bytes(s.draw(256) for _ in range(size - key)) if not wide else wide_tail(s, size - key)) for _ in range(n)]
                k = s.draw(6)
                if k == 0:
                    els.sort()
                elif k == 1:
                    els.sort(reverse=True)
                elif k == 2 and n:
                    els = els[:1 + n // 3] * 3
                ops.append([10, size, key, b''.join(els).decode('latin1')])
        else:
            for _ in range(s.length(1, 20)):
                k = s.draw(8)
                v = s.pick(VARS) if s.draw(3) else s.pick(VARS[:3])
                if k < 4:
                    ops.append([20, v, ''.join(s.pick('ab=:/ \xe9') for _ in range(s.length(0, 12))), s.draw(2)])
                elif k < 6:
                    ops.append([21, v])
                else:
                    ops.append([22, v])
        return {'ops': ops}

    def classify(self, c):
        q = [o for o in c['ops'] if o[0] == 10]
        lab = set()
        for o in q:
            lab |= {'qsort', 'size %s' % (o[1] if o[1] < 25 else 'wide')}
            if o[2] < o[1]:
                lab.add('partial key')
        for o in c['ops']:
            lab |= {20: {'setenv'}, 21: {'unsetenv'}, 22: {'getenv'}}.get(o[0], set())
        return len(c['ops']) > 2 if not q else any(len(o[3]) > 2 * o[1] for o in q), sorted(lab)


if __name__ == '__main__':
    pbt.main(L05())
