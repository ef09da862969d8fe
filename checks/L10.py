"""L10: getopt, getopt_long and getopt_long_only against glibc (in the order of POSIX: no permutation)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import pbt, libc

LONG = ['help', 'version', 'verbose', 'output', 'out', 'output-dir', 'include', 'in', 'x', 'a', 'long-name', 'he', 'v1', 'debug']
ARGS = ['', '-', 'file', 'a', 'x=y', '-1', '=', 'a b', '\xe9', '--', '-x', 'out']


class L10(libc.LDiff):
    id = 'L10'
    driver = 'getopt'
    extra = ('lib/posix/getopt.c',)
    quick = 30000
    thorough = 600000
    quick_s = 12
    rule = ('a case is 1-3 command lines of 1-10 elements (short options alone and in clusters, with required and optional arguments attached, in the next '
            'element, or missing; long options by full name, unique and ambiguous abbreviations and unknown names, with =, without; '
            '--, -, empty strings and operands) parsed by getopt, getopt_long or getopt_long_only, restarted for each: every value returned, optarg, optind, '
            'the index of the long option, the flags set and argv; compared with glibc in POSIX order; library built by gcc and by MesCC for x86_64 and '
            'i386; non-trivial = at least two options in the command line')
    assumptions = ['messages on standard error are not compared', 'permutation of operands is not part of the Mes library',
                   'for getopt_long_only a single letter that is both a short option and an abbreviation of a long one is not generated']

    def element(self, s, short, longs, kind):
        k = s.draw(12)
        if k < 5:
            t = '-'
            for _ in range(1 + s.draw(4) if kind != 2 else 1):
                t += s.pick(short)[0] if short and s.draw(8) else s.pick('abxqzA1:?')
            if s.draw(3) == 0 and kind != 2:
                t += s.pick(ARGS)
            return t
        if k < 9 and kind:
            n = s.pick(longs)[0] if longs and s.draw(8) else s.pick(LONG)
            if s.draw(3) == 0:
                n = n[:1 + s.draw(len(n))]
            if s.draw(12) == 0:
                n += s.pick('sz-')
            t = '--' + n
            if kind == 2 and s.bool() and len(n) > 1:
                t = '-' + n
                if not any(l[0].startswith(n) for l in longs) and any(c[0] in n for c in short):
                    t = '-' + t
            if s.draw(3) == 0:
                t += '=' + s.pick(ARGS)
            return t
        if k == 9 and s.draw(3) == 0:
            return '--'
        return s.pick(ARGS)

    def checked(self, s, short, longs, kind):
        t = self.element(s, short, longs, kind)
        if kind == 2 and len(t) == 2 and t[0] == '-' and t != '--' and any(l[0].startswith(t[1]) for l in longs):
            return 'op'
        return t

    def gen(self, s):
        ops = []
        for _ in range(1 + s.draw(3)):
            kind = s.draw(3) if s.draw(3) else 1
            letters = []
            for _ in range(s.draw(7)):
                c = s.pick('abcdefxyABV019?')
                if c not in [x[0] for x in letters]:
                    letters.append((c, s.pick([0, 0, 1, 1, 2])))
            longs = []
            if kind:
                for _ in range(s.draw(7)):
                    n = s.pick(LONG)
                    if n not in [x[0] for x in longs]:
                        longs.append((n, s.draw(3), s.draw(4) == 0, s.pick([300 + len(longs), 300 + len(longs), ord('a') + len(longs)])))
            av = ['prog'] + [self.checked(s, letters, longs, kind) for _ in range(s.length(1, 9))]
            op = [1, kind, ''.join(c + ':' * n for c, n in letters), len(longs)]
            for n, h, f, v in longs:
                op += [n, h, int(f), v]
            op += [len(av)] + av + [1 + s.draw(6) if s.draw(6) == 0 else -1]
            ops.append(op)
        return {'ops': ops}

    def classify(self, c):
        lab = set()
        n = 0
        for o in c['ops']:
            lab.add(['getopt', 'getopt_long', 'getopt_long_only'][o[1]])
            for a in o[4 + 4 * o[3] + 1:-1]:
                if a[:1] == '-':
                    n += 1
                    lab.add('end of options' if a == '--' else 'long' if a[:2] == '--' else 'dash' if a == '-' else 'cluster' if len(a) > 2 else 'short')
                    if a[:2] == '--' and '=' in a:
                        lab.add('with =')
        return n >= 2, sorted(lab)


if __name__ == '__main__':
    pbt.main(L10())
