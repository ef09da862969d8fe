"""L07: streams of the C library."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import pbt, libc

NAMES = ['a', 'a', 'a', 'b', 'b', 'd/a', 'no/x']
OPN = {60: 'fopen', 61: 'fclose', 62: 'fread', 63: 'fwrite', 64: 'fgetc', 65: 'getc', 66: 'fputc', 67: 'fputs', 68: 'fgets', 69: 'ungetc', 70: 'fseek',
       71: 'ftell', 72: 'feof', 73: 'ferror', 74: 'putc', 75: 'fprintf', 76: 'freopen', 80: 'stdin', 81: 'getchar', 82: 'ungetc stdin', 83: 'fgets stdin',
       84: 'fread stdin', 85: 'putchar', 86: 'puts', 87: 'fputs stdout', 88: 'fputs stderr', 89: 'printf', 37: 'mkdir', 38: 'unlink'}


class L07(libc.FDiff):
    id = 'L07'
    driver = 'file'
    batch = 25
    quick = 4000
    thorough = 160000
    quick_s = 25
    rule = ('a case is a history of 1-40 stream calls (fopen and freopen with the six modes on existing and missing files, fread, fwrite, fgetc, fputc, fgets, fputs, '
            'ungetc, fseek, ftell, feof, fclose on up to four streams; getchar, fgets, puts, putchar, printf on the standard streams), contents with NUL and bytes above '
            '127, lengths around the read buffer size; every result and the file contents at the end are compared with glibc in a twin directory; library '
            'built by gcc and by MesCC for x86_64 and x86; non-trivial = data written and read back, or three calls on standard input')
    assumptions = ['between a read and a write on one stream there is a seek, as C demands', 'one character of push-back, the one just read',
                   'one stream per file at a time when it is written']

    def data(self, s, nul=True):
        n = s.pick([0, 1, 2, 3, 5, 8, 20, 50, 99, 100, 101, 127, 128, 129, 200, 256, 300, s.draw(300)])
        al = s.pick([b'ab\n', b'abc\n\x00\xff\x80', b'x', bytes(range(256)), b'0123456789 \n'])
        if not nul:
            al = al.replace(b'\0', b'z')
        b = s.draw(256)
        k = 1 + s.draw(7)
        return bytes(al[(b + i * k + i * i // 7) % len(al)] for i in range(n)).decode('latin1')

    def gen(self, s):
        ops = []
        st = {}            # stream -> [name, mode, last: None, 'r', 'w']
        if s.draw(4) == 0:
            ops.append([37, 'd', 0o755])
        std = s.draw(3) == 0
        for _ in range(s.length(3, 36)):
            if std and s.bool():
                self.std_op(s, ops)
                continue
            k = s.pick(sorted(st)) if st and s.draw(6) else s.draw(4)
            if k not in st or s.draw(10) == 0:
                name, mode = s.pick(NAMES), s.pick(['r', 'r', 'r+', 'r+', 'w', 'w', 'w+', 'w+', 'a', 'a+'])
                if name in ('/dev/full', 'd'):
                    mode = 'w' if name[0] == '/' or s.draw(3) == 0 else 'r'
                if any(j != k and v[0] == name and (mode != 'r' or v[1] != 'r') for j, v in st.items()):
                    continue
                if k in st and st[k][0] == name and s.bool():
                    ops.append([61, k])
                ops.append([76 if s.draw(4) == 0 else 60, k, name, mode])
                if 'no/' in name or name == 'd' and (mode == 'w' or not ops[:1] == [[37, 'd', 0o755]]):
                    st.pop(k, None)
                else:
                    st[k] = [name, mode, None]
                continue
            v = st[k]
            rd, wr = v[1][0] == 'r' or '+' in v[1], v[1] != 'r'
            op = s.pick([61, 62, 62, 63, 63, 64, 65, 66, 67, 68, 68, 69, 69, 70, 70, 70, 71, 72, 72, 74, 75, 73])
            if v[0] in ('/dev/full', 'd') and op not in (61, 62, 63, 64, 65, 66, 67, 68, 74):
                continue        # ferror is not kept, positions of a device are its own
            if v[0] == '/dev/null' and op in (70, 71):
                continue
            if op in (62, 64, 65, 68, 69, 72):
                if not rd:
                    continue
                if v[2] == 'w':
                    self.seek(s, ops, k)
                v[2] = 'r'
            elif op in (63, 66, 67, 74, 75):
                if not wr:
                    continue
                if v[2] == 'r':
                    self.seek(s, ops, k)
                if op not in (63, 67):
                    v[2] = 'w'
            if op == 61:
                ops.append([61, k])
                st.pop(k)
            elif op == 62:
                ops.append([62, k, s.pick([1, 1, 1, 2, 3, 10, 128]), s.pick([1, 2, 5, 10, 50, 127, 128, 129]) if s.draw(4) else s.draw(30)])
            elif op == 63:
                n = s.pick([1, 1, 1, 2, 3, 7])
                d = self.data(s)
                ops.append([63, k, n, d[:len(d) // n * n]])
                if ops[-1][3]:
                    v[2] = 'w'
            elif op in (66, 74):
                ops.append([op, k, s.draw(256)])
            elif op == 67:
                ops.append([67, k, self.data(s, False)])
                if ops[-1][2]:
                    v[2] = 'w'
            elif op == 68:
                ops.append([68, k, s.pick([1, 2, 3, 5, 10, 50, 100, 128, 130, 300])])
            elif op == 69:
                ops.append([69, k, s.draw(3)])
                if s.bool():
                    ops.append([s.pick([62, 68]), k] + ([1, s.pick([1, 2, 3, 50, 130])] if ops and s.bool() else [2, s.pick([1, 2, 5, 70])]))
                    if ops[-1][0] == 68:
                        ops[-1] = [68, k, s.pick([2, 3, 10, 200])]
            elif op == 70:
                self.seek(s, ops, k, v[1][0] == 'a' and v[2] is None)      # initial position unspecified
                if ops[-1][3] == 0:
                    v[2] = None
            elif op == 71 and v[1][0] == 'a' and v[2] is None:
                continue      # before the first write in append mode
            elif op == 75:
                ops.append([75, k, s.int(-1000, 1000)])
            else:
                ops.append([op, k])
        return {'ops': ops}

    def seek(self, s, ops, k, sure=True):
        w = 0 if sure else s.draw(3)
        ops.append([70, k, s.pick([0, 0, 1, 2, 5, 50, 128]) if w == 0 else s.pick([0, 0, -1, -2, -10, -130, 1, 3, 20]), w])

    def std_op(self, s, ops):
        if not any(o[0] == 80 for o in ops) or s.draw(15) == 0:
            ops.append([80, self.data(s)])
            return
        op = s.pick([81, 81, 82, 82, 83, 83, 84, 85, 86, 87, 88, 89])
        if op == 82:
            ops.append([82])
            ops.append([s.pick([81, 83, 84])])
            if ops[-1][0] == 83:
                ops[-1].append(s.pick([2, 3, 10, 200]))
            elif ops[-1][0] == 84:
                ops[-1].append(s.pick([1, 2, 10, 200]))
        elif op == 83:
            ops.append([83, s.pick([1, 2, 3, 10, 50, 130])])
        elif op == 84:
            ops.append([84, s.pick([1, 2, 3, 10, 50, 130])])
        elif op == 85:
            ops.append([85, s.draw(256)])
        elif op in (86, 87, 88):
            ops.append([op, self.data(s, False)])
        elif op == 89:
            ops.append([89, s.int(-100000, 100000), self.data(s, False)])
        else:
            ops.append([op])

    def classify(self, c):
        w = r = n = 0
        lab = set()
        for o in c['ops']:
            lab.add(OPN[o[0]] + (' ' + o[3] if o[0] == 60 else ''))
            w += o[0] in (63, 66, 67, 74, 75)
            r += o[0] in (62, 64, 65, 68, 69) and w > 0
            n += o[0] in (81, 82, 83, 84)
        return (w and r) or n > 2, sorted(lab)


if __name__ == '__main__':
    pbt.main(L07())
