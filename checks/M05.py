"""M05: MesCC running on Mes compiles every program to what it compiles it to when it runs on Guile."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import pbt, build, cgen, scheme

HEADERS = ['stdio.h', 'string.h', 'stdlib.h', 'errno.h', 'limits.h', 'ctype.h', 'sys/types.h', 'unistd.h', 'stdarg.h']
ESC = ['\\n', '\\t', '\\\\', '\\"', '\\0" "', '\\r', '\\x41" "', '\\x07" "', '\\033" "', '\\101" "', "\\'", '\\a', '\\b', '\\f', '\\v', '\\e']

CONTROL = re.compile(r'\\(?:[abtnvfre0]|x[0-9a-fA-F]{2})|[\x00-\x20\x7f]')        # spaced and written differently by the two hosts


def string(s):
    return '"' + ''.join(s.pick(ESC) if s.bool(1, 4) else s.pick('abc XYZ019%;{}()/*#<>?') for _ in range(s.length(0, 14))).replace('??', '?') + '"'


def const(s, d=2):
    """A constant expression for #if and initializers, small enough for every host's integers."""
    k = s.draw(9 if d else 3)
    if k < 3:
        n = s.weighted([(4, s.int(0, 9)), (2, s.int(0, 300)), (1, s.pick([127, 128, 255, 256, 32767, 65535, 65536, 2147483647]))])
        return s.pick(['%d', '%d', '0x%x', '0%o', '%d']) % n
    a, b = const(s, d - 1), const(s, d - 1)
    if k < 6:
        return '(%s %s %s)' % (a, s.pick(['+', '-', '*', '&', '|', '^']), b)
    if k == 6:
        return '(%s %s %d)' % (a, s.pick(['<<', '>>', '%']), s.int(1, 7))
    if k == 7:
        return '(%s %s %s)' % (a, s.pick(['<', '<=', '>', '>=', '==', '!=', '&&', '||']), b)
    return '(%s %s)' % (s.pick(['-', '!', '~']), a)


def number(s):
    n = s.weighted([(4, s.int(0, 9)), (2, s.int(0, 300)), (1, s.pick([127, 128, 255, 256, 32767, 65535, 65536, 2147483647]))])
    return s.pick(['%d', '%d', '-%d', '0x%x', '0%o', '%d']) % n


def extra(s, i, f):
    """Top-level text around what the program generator makes: preprocessing, literals, comments."""
    n = 'x%d@' % i
    k = s.draw(12)
    if k == 0:
        f.add('if')
        return '#define %s %s\n#if %s\nint %s_a = %s;\n#elif %s\nint %s_b = %s;\n#else\nint %s_c = %s;\n#endif\n' % (
            n, const(s, 1), s.pick(['%s > %s' % (n, const(s)), '%s == %s' % (n, const(s, 1)), 'defined %s' % n, '!defined (%s) || %s' % (n, const(s, 1)), const(s)]),
            n, number(s), const(s), n, number(s), n, number(s))
    if k == 1:
        f.add('ifdef')
        return '#%s %s\nint %s_a;\n%s#else\nchar *%s_b = %s;\n#endif\n' % (s.pick(['ifdef', 'ifndef']), s.pick([n, '__MESC__', '__GNUC__', 'vf_d@']), n, s.pick(['', '#define vf_d@ 1\n', '#undef vf_d@\n']), n, string(s))
    if k == 2:
        f.add('macro')
        return '#define %s_m(a, b) %s\nint %s (int a, int b) { return %s_m (%s, %s); }\n' % (
            n, s.pick(['((a) + (b))', '(a ? b : a)', 'a * b', '((a) << 2) - b', 'b', '(a, b)']), n, n, s.pick(['a', 'b + 1', '(a, b)', "'x'", const(s, 1)]), s.pick(['b', 'a - b', const(s, 1)]))
    if k == 3:
        f.add('paste')
        return '#define %s_p(a, b) %s\n%s\n' % (n, s.pick(['a ## b', '#a', '#b']), 'int %s;' % n) if s.bool() else '#define %s_s(a) #a\nchar *%s = %s_s (%s);\n' % (n, n, n, s.pick(['abc', 'a + b', '1', 'x y']))
    if k == 4:
        f.add('string')
        return 'char *%s = %s;\n' % (n, ' '.join(string(s) for _ in range(s.int(1, 3))))
    if k == 5:
        f.add('char')
        return 'int %s[] = {%s};\n' % (n, ', '.join("'%s'" % s.pick(['a', '0', ' ', '\\n', '\\0', '\\\\', "\\'", '"', '\\x41', '\\101', '\\t', '~']) for _ in range(s.int(1, 6))))
    if k == 6:
        f.add('array')
        return '%s %s[%s] = {%s};\n' % (s.pick(['int', 'char', 'short', 'long', 'unsigned', 'unsigned char']), n, s.pick(['', '8', '4 + 4']), ', '.join(number(s) for _ in range(s.int(1, 8))))
    if k == 7:
        f.add('enum')
        return 'enum %s { %s };\nint %s_v = %sA1;\n' % (n, ', '.join('%sA%d%s' % (n, j, ' = ' + number(s) if s.bool(1, 3) else '') for j in range(s.int(2, 5))), n, n)
    if k == 8:
        f.add('comment')
        return '/* %s */\nint %s; // %s\n' % (s.pick(['a', '* * /', '"', "it's", '#if 0', '\n\n']), n, s.pick(['end', '"', '/* x', '\\']) + '.')
    if k == 9:
        f.add('splice')
        return 'int \\\n%s \\\n= %s;\n' % (n, number(s))
    if k == 10:
        f.add('typedef')
        return 'typedef %s %s_t;\n%s_t *%s (%s_t *p, int n) { return p + n; }\nint %s_z = sizeof (%s_t);\n' % (
            s.pick(['struct %s_s { int a; char b[%s]; struct %s_s *n; }' % (n, s.int(1, 9), n), 'unsigned long', 'char *', 'short', 'int (*'[:3]]), n, n, n, n, n, n)
    f.add('const')
    return 'long %s = %s;\n' % (n, number(s)) if s.bool() else 'long %s () { return %s; }\n' % (n, const(s, 3))


class M05(pbt.Check):
    id = 'M05'
    quick = 200
    thorough = 4000
    batch = 3
    quick_s = 60
    rule = ('a case is one generated C program (the generator of M01 and M02, with preprocessor directives, macros, literals, comments and headers of the library '
            'around it), compiled (-S) or preprocessed (-E) for x86_64 or i386 by MesCC running on Mes and by MesCC running on Guile; both must give the same '
            'text; non-trivial = more than 500 characters of source')
    assumptions = ['numbers in the source fit the word of the host', 'running out of the arena is not judged']

    def prepare(self):
        t = self.t = build.tree()
        t.mescc_go()
        self.mes = t.mes()

    def gen(self, s):
        bits = s.pick([64, 32])
        f = set()
        pre = ''.join(extra(s, i, f) for i in range(s.length(0, 7)))
        inc = ''
        if s.bool(1, 8):
            f.add('header')
            inc = ''.join('#include <%s>\n' % s.pick(HEADERS) for _ in range(s.int(1, 2)))
        body = ''
        if s.bool(2, 3):
            body, g = cgen.program(s, bits)
            f.add('program')
        return {'bits': bits, 'how': s.pick(['-S', '-S', '-S', '-E']), 'inc': inc, 'c': pre + body, 'f': sorted(f)}

    def classify(self, c):
        return len(c['c']) > 500, c['f'] + ['%s%d' % (c['how'], c['bits'])]

    def sample(self, c):
        return {'how': c['how'], 'bits': c['bits'], 'source': c['c'][:400]}

    def compile(self, host, how, bits, src, scratch):
        t = self.t
        e = dict(t.mescc_env(bits))
        cmd = t.mescc_cmd(bits)
        if host == 'mes':
            e.update({'MES_ARENA': '20000000', 'MES_MAX_ARENA': '20000000', 'MES_STACK': '6000000', 'GUILE_LOAD_PATH': '%s/module:%s/mes:/usr/share/guile/site/3.0' % (t.dir, t.dir)})
            cmd = [self.mes, '--no-auto-compile', '-e', 'main', '-L', '/usr/share/guile/site/3.0', '-C', '/none', t.dir + '/scripts/mescc.scm', '--', '-m', str(bits)]
        o = os.path.join(scratch, 'p.out')
        with open(os.path.join(scratch, 'p.c'), 'w') as fh:
            fh.write(src)
        cpu = 'x86_64' if bits == 64 else 'x86'
        rc, out, err = scheme.run_proc(cmd + [how, '-I', t.dir + '/include', '-I', t.dir + '/include/linux/' + cpu, '-D', 'HAVE_CONFIG_H=1', '-o', 'p.out', 'p.c'], e, scratch, 110)
        text = None
        if os.path.exists(o):
            with open(o, 'rb') as fh:
                text = fh.read().decode('latin1')
            if how == '-E':             # Guile breaks the lines of the tree
                text = CONTROL.sub('', text)
            os.unlink(o)
        return rc, text, err.decode('latin1')[-600:]

    def both(self, how, bits, src, scratch):
        g = self.compile('guile', how, bits, src, scratch)
        if g[0] == 'timeout':
            return None
        m = self.compile('mes', how, bits, src, scratch)
        if m[0] == 'timeout' or 'out of memory' in m[2]:
            return None
        if (g[0] == 0) != (m[0] == 0):
            return {'tag': 'status', 'guile': [g[0], g[2]], 'mes': [m[0], m[2]]}
        if g[0] == 0 and g[1] != m[1]:
            a, b = (g[1] or '').split('\n'), (m[1] or '').split('\n')
            i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
            return {'tag': 'text', 'line': i, 'guile': a[max(0, i - 3):i + 3], 'mes': b[max(0, i - 3):i + 3]}
        return None

    def run(self, cases, scratch):
        out = [None] * len(cases)
        for key in sorted({(c['how'], c['bits']) for c in cases}):
            idx = [i for i, c in enumerate(cases) if (c['how'], c['bits']) == key]
            src = ['void out (long n);\n' + ''.join(cases[i]['inc'] for i in idx)] + [cases[i]['c'].replace('@', '_%d' % i) for i in idx]
            if len(idx) == 1:
                out[idx[0]] = self.both(*key, '\n'.join(src), scratch)
                continue
            if self.both(*key, '\n'.join(src), scratch) is None:
                continue
            for i in idx:
                out[i] = self.both(*key, 'void out (long n);\n' + cases[i]['inc'] + cases[i]['c'].replace('@', '_0'), scratch)
        return out


if __name__ == '__main__':
    pbt.main(M05())
