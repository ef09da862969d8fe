"""L08: processes: fork, wait, exec and its search path, exit, signals, pipes; non-local jumps."""
import os, sys, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import pbt, libc

OPN = {1: 'exit', 2: '_exit', 3: 'raise', 4: 'signal ignored', 5: 'atexit', 6: 'abort', 7: 'execvp', 8: 'execve', 9: 'execv', 10: 'execl', 11: 'execlp',
       12: 'children', 13: 'pipe', 14: 'getpid', 15: 'longjmp', 16: 'signal handled', 17: 'time'}
FATAL = [1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 12, 13, 14, 15, 16, 24, 25, 26, 27, 29]
MILD = [17, 18, 23, 28, 0]
LONG = 'no/' + 'x' * 120 + '/y'


class L08(libc.FDiff):
    id = 'L08'
    driver = 'proc'
    batch = 12
    quick = 2000
    thorough = 60000
    quick_s = 25
    rule = ('a case is 1-6 process operations: children that exit, return, abort or are killed by any terminating signal, with signals ignored, handled or default; '
            'exit handlers; several children ended and waited for in any order; execv, execve, execvp, execl, execlp with generated search path, name, arguments '
            'and environment; data through pipes and a child; nested setjmp and longjmp; every status, result and byte is compared with glibc; library built by gcc and '
            'by MesCC for x86_64 and x86; non-trivial = at least two operations, or an exec, a wait order or a jump')
    assumptions = ['handlers that return are judged on x86 only (the x86_64 library has no signal trampoline)', 'variadic exec calls are not judged for gcc on x86_64, where the '
                   "library's <stdarg.h> does not match gcc's calling convention"]

    def exec(self, target, text):
        self.exe = self.d.exe[target]
        return super().exec(target, text)

    def populate(self, w):
        os.makedirs(w + '/p1/sub')
        os.makedirs(w + '/p2')
        os.makedirs(w + '/p3')
        os.makedirs(w + '/prog4')
        os.makedirs(w + '/' + LONG)
        t = w + '/p1/prog'
        shutil.copyfile(self.exe, t)
        os.chmod(t, 0o755)
        for x in ('p2/prog', 'p2/prog2', 'p1/sub/prog3', 'prog', 'prog5', LONG + '/prog6'):
            os.link(t, w + '/' + x)
        with open(w + '/p3/prog', 'w') as f:
            f.write('no program\n')
        with open(w + '/p3/prog2', 'w') as f:
            f.write('no program\n')

    def gen(self, s):
        ops = []
        for _ in range(s.length(1, 6)):
            op = s.pick([1, 2, 3, 4, 4, 5, 5, 6, 7, 7, 7, 7, 8, 9, 10, 11, 12, 12, 13, 13, 14, 15, 15, 15, 16, 17])
            if op in (1, 2):
                ops.append([op, s.pick([0, 1, 2, 42, 127, 128, 255, 256, -1, s.draw(256)])])
            elif op == 3:
                ops.append([3, s.pick(FATAL + [9] + MILD)])
            elif op in (4, 16):
                sg = [s.pick(FATAL) for _ in range(2)]
                a = []
                for _ in range(1 + s.draw(6)):
                    g = s.pick(sg) if s.draw(8) else s.pick(MILD + [9])
                    k = s.pick([0, 1, 1, 1, 2, 2]) if op == 4 else s.pick([0, 1, 1, 1, 2, 2, 2, 3])
                    if g == 0:
                        k = 2
                    if g in (17, 18, 23, 28) and op == 16:
                        continue
                    if g == 9 and op == 16:
                        continue
                    a += [g, k]
                ops.append([op, len(a) // 2] + a)
            elif op == 5:
                n = s.draw(5)
                ops.append([5, n] + [s.draw(4) for _ in range(n)] + [s.draw(200), 1 if s.draw(5) == 0 else 0])
            elif op in (7, 8, 9, 10, 11):
                name = s.pick(['prog', 'prog', 'prog2', 'prog3', 'prog4', 'prog5', 'prog6', 'nothing', './prog', 'p1/prog', 'p1/sub/prog3', 'p3/prog', 'p1', 'no/prog'])
                path = ':'.join(s.pick(['p1', 'p2', 'p3', 'no', '.', 'p1/sub', 'p2/', './p2', LONG, '', 'xx/' * 100]) for _ in range(s.draw(5)))
                if op not in (7, 11) and '/' not in name:
                    name = './' + name
                args = [s.pick(['prog', name, '', 'a b', 'x=y']), s.pick(['@x', '@x', '@x', '@r', '@e'])]
                if args[1] != '@x':
                    args.append(str(s.pick([0, 1, 77, 255, 256])))
                else:
                    args += [''.join(s.pick('ab \xe9"$') for _ in range(s.length(0, 6))) for _ in range(s.draw(3))]
                env = [s.pick(['A=1', 'PATH=p1', 'B=', 'C=x=y', 'AA=2', 'LONG=' + 'z' * 100]) for _ in range(s.draw(4))]
                ops.append([op, path if path or s.bool() else None, name, len(args)] + args + [len(env)] + env)
                if ops[-1][1] is None and op in (7, 11) and '/' not in name:
                    ops[-1][1] = ''
            elif op == 12:
                ops.append([12] + self.children(s))
            elif op == 13:
                n = s.pick([0, 1, 5, 50, 127, 128, 129, 200, 255, 256, 1000])
                b = s.draw(256)
                ops.append([13, bytes((b + i * 11 + i // 9) & 255 for i in range(n)).decode('latin1'), s.pick([0, 1, 3, 100, 127, 128, 129, 1000])])
            elif op == 15:
                ops.append([15] + self.jumps(s))
            else:
                ops.append([op])
        return {'ops': ops}

    def children(self, s):
        n = 1 + s.draw(4)
        st = ['run'] * n
        a = []
        for _ in range(s.length(1, 12)):
            i = s.draw(n)
            k = 1 + s.draw(6)
            ended = [j for j in range(n) if st[j] == 'end']
            if k == 1 and st[i] == 'run':
                st[i] = 'end'
            elif k == 2 and st[i] != 'run':
                st[i] = 'gone'
            elif k == 6 and st[i] == 'end':
                st[i] = 'gone'
            elif k == 3 and st[i] in ('run', 'gone'):
                pass
            elif k == 4 and (len(ended) == 1 or all(x == 'gone' for x in st)):
                for j in ended:
                    st[j] = 'gone'
                i = 0
            elif k == 5 and st[i] == 'run':
                a += [5, i, s.pick(FATAL + [9])]
                st[i] = 'end'
                continue
            else:
                continue
            a += [k, i]
        for i in range(n):
            if st[i] == 'run':
                a += [1, i]
                st[i] = 'end'
            if st[i] == 'end':
                a += [2, i]
        return [n] + a + [0]

    def jumps(self, s):
        d = 0
        a = []
        n = s.length(2, 25)
        while n > 0:
            n -= 1
            k = s.draw(5)
            if k < 3 and d < 9:
                a.append(1)
                d += 1
            elif k == 4 or (k < 3 and d > 8):
                t = s.draw(d + 1)
                a += [2, t, s.pick([0, 1, 2, -1, 1000, s.draw(100000)])]
                d = t
            elif d > 0:
                a.append(0)
                d -= 1
        return a + [0] * (d + 1)

    def skip(self, c, target):
        if target == 'gcc64' and any(o[0] in (10, 11) for o in c['ops']):
            return True
        return target.endswith('64') and any(o[0] == 16 for o in c['ops'])

    def classify(self, c):
        lab = {OPN[o[0]] for o in c['ops']}
        return len(c['ops']) > 1 or any(o[0] in (7, 8, 9, 10, 11, 12, 15) for o in c['ops']), sorted(lab)


if __name__ == '__main__':
    pbt.main(L08())
