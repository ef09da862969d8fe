"""Batches of C cases compiled by MesCC (on Guile) and by gcc (freestanding, UBSan in trap mode), run and compared."""
import ctypes, os, re, subprocess, resource
from . import build, pbt

_libc = ctypes.CDLL(None)

RT = r'''
#ifdef __MESC__
#include <mes/lib.h>
#else
int oputs (char const *s);
#endif
char out_buf[40];
void
out (long n)
{
  char *p = out_buf + 38;
  long d;
  int neg = 0;
  p[0] = '\n';
  p[1] = 0;
  if (n < 0)
    neg = 1;
  else
    n = 0 - n;
  do
    {
      d = n / 10;
      p = p - 1;
      p[0] = '0' - (n - d * 10);
      n = d;
    }
  while (n);
  if (neg)
    {
      p = p - 1;
      p[0] = '-';
    }
  oputs (p);
}
'''
# The harness number printer above uses only what the scaffold tests establish.  It is linked into both programs.

GCC_RT = r'''
#if __x86_64__
long sys_write (long fd, char const *s, long n)
{ long r; __asm__ volatile ("syscall" : "=a"(r) : "a"(1L), "D"(fd), "S"(s), "d"(n) : "rcx", "r11", "memory"); return r; }
void sys_exit (long n) { __asm__ volatile ("syscall" : : "a"(60L), "D"(n)); }
__asm__ (".globl _start\n_start: mov (%rsp),%rdi\n lea 8(%rsp),%rsi\n and $-16,%rsp\n call main\n mov %rax,%rdi\n call sys_exit\n");
#else
long sys_write (long fd, char const *s, long n)
{ long r; __asm__ volatile ("int $0x80" : "=a"(r) : "a"(4L), "b"(fd), "c"(s), "d"(n) : "memory"); return r; }
void sys_exit (long n) { __asm__ volatile ("int $0x80" : : "a"(1L), "b"(n)); }
__asm__ (".globl _start\n_start: mov (%esp),%eax\n lea 4(%esp),%edx\n and $-16,%esp\n sub $8,%esp\n push %edx\n push %eax\n call main\n push %eax\n call sys_exit\n");
#endif
int oputs (char const *s) { long n = 0; while (s[n]) n++; return sys_write (1, s, n); }
void *memcpy (char *d, char *s, unsigned long n) { while (n--) d[n] = s[n]; return d; }
void *memset (char *d, int c, unsigned long n) { while (n--) d[n] = c; return d; }
'''


def default_signals():
    """A shell starts its background jobs with some signals ignored."""
    for i in range(1, 32):
        if i not in (9, 19):
            _libc.signal(i, None)
    _libc.sigprocmask(2, bytes(128), None)
    os.umask(0o022)


def limits(mem=2 << 30, cpu=10):
    def f():
        default_signals()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu))
        resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 24, 1 << 24))
    return f


def prog(exe, args=(), timeout=20, cwd=None, **kw):
    try:
        p = subprocess.run([exe] + list(args), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout, preexec_fn=limits(), cwd=cwd, **kw)
        return p.returncode, p.stdout[:200000].decode('latin1'), p.stderr[:2000].decode('latin1')
    except subprocess.TimeoutExpired:
        return 'timeout', '', ''


class MesCC:
    """MesCC run on Guile, with its libraries built by itself."""

    def __init__(self, bits, libs=('libc_mini', 'libmescc')):
        self.bits = bits
        self.t = build.tree()
        self.cpu = 'x86_64' if bits == 64 else 'x86'
        self.L = self.t.mescc_libdir(bits, libs)
        self.env = self.t.mescc_env(bits)
        self.inc = ['-I', self.t.dir + '/include', '-I', self.t.dir + '/include/linux/' + self.cpu, '-D', 'HAVE_CONFIG_H=1']
        self.crt = '%s/%s-mes/crt1.o' % (self.L, self.cpu)

    def run(self, args, cwd, timeout=120):
        return build.run(self.t.mescc_cmd(self.bits) + list(args), cwd=cwd, env=self.env, timeout=timeout)

    def link(self, src, exe, cwd, libs=('c-mini', 'mescc'), timeout=180, extra=()):
        a = ['-nostdlib'] + self.inc + ['-o', exe, '-L', self.L, src, self.crt, *extra]
        for l in libs:
            a += ['-l', l]
        return self.run(a, cwd, timeout)


def gcc_ref(src, exe, bits, cwd, san=True, strict=False):
    c = ['clang', '-m%d' % bits, '-Werror=return-type',  '-Werror=int-conversion', '-Werror=incompatible-pointer-types', '-Werror=implicit-function-declaration', '-Werror=switch-unreachable', '-O0', '-static', '-nostdlib', '-ffreestanding', '-fno-stack-protector', '-fno-pic', '-no-pie',
         '-fno-asynchronous-unwind-tables', '-fno-strict-aliasing']
    if strict:
        c += ['-Werror=overflow', '-Werror=shift-count-overflow', '-Werror=shift-count-negative', '-Werror=uninitialized', '-Werror=unused-value', '-Werror=sign-compare', '-Werror=div-by-zero']
    if san:
        c += ['-fsanitize=undefined', '-fno-sanitize=alignment,function', '-fsanitize-trap=all', '-fstrict-flex-arrays=3']
    return build.run(c + [src, '-o', exe], cwd=cwd)


class CDiff(pbt.Check):
    """A case has 'c' (source using '@' as the case number, defining run@) ; each case's output is compared."""
    bits = 64
    batch = 12
    libs = ('c-mini', 'mescc')
    head = ''

    def prepare(self):
        self.cc = MesCC(self.bits)

    def source(self, cases):
        body = [RT, self.head]
        for i, c in enumerate(cases):
            body.append(c['c'].replace('@', '_%d' % i))
        n = len(cases)
        body.append('int\nmain (int argc, char **argv)\n{\n  int n = 0;\n  char *p = argv[1];\n  while (p[0])\n    {\n      n = n * 10 + p[0] - 48;\n      p = p + 1;\n    }\n'
                    + ''.join('  if (n == %d)\n    run_%d ();\n' % (i, i) for i in range(n)) + '  return 0;\n}\n')
        return '\n'.join(body)

    def variants(self, case):
        """Smaller sources: line ranges (balanced in braces) removed, parenthesised parts replaced."""
        L = case['c'].split('\n')
        n = len(L)

        def mk(lines):
            d = dict(case)
            d['c'] = '\n'.join(lines)
            d['strict'] = 1
            return d
        bs = n // 2
        while bs >= 1:
            for i in range(0, n - bs + 1, max(1, bs // 2)):
                cut = L[i:i + bs]
                if sum(x.count('{') - x.count('}') for x in cut) == 0:
                    yield mk(L[:i] + L[i + bs:])
            bs //= 2
        # unwrap a block: drop its brace lines
        st = []
        for i, x in enumerate(L):
            if x == '{':
                st.append(i)
            elif x == '}' and st:
                j = st.pop()
                yield mk(L[:j] + L[j + 1:i] + L[i + 1:])
                yield mk(L[:max(0, j - 1)] + L[j + 1:i] + L[i + 1:])
                yield mk(L[:max(0, j - 1)] + L[j:])
                yield mk(L[:j] + L[i + 1:])
        for i, x in enumerate(L):
            depth = []
            for k, ch in enumerate(x):
                if ch == '(':
                    depth.append(k)
                elif ch == ')' and depth:
                    j = depth.pop()
                    inner = x[j + 1:k]
                    cast = re.match(r'\((?:unsigned |signed )?(?:int|char|short|long)\) ', inner)
                    reps = [inner] if x[:j].endswith('(') or x[:j].endswith('= ') or not x[:j].endswith(') ') else []
                    if cast:
                        reps += [cast.group(0) + '0', cast.group(0) + '1']
                    elif x[:j].endswith(') ') or x[:j].endswith('if '):
                        reps += ['0', '1']
                    for rep in reps:
                        yield mk(L[:i] + [x[:j] + rep + x[k + 1:]] + L[i + 1:])
                    m = re.match(r'(.*?) (?:\+|-|\*|/|%|&|\||\^|<<|>>|<|>|<=|>=|==|!=|&&|\|\|) (.*)$', inner)
                    if m:
                        for rep in m.groups():
                            yield mk(L[:i] + [x[:j + 1] + rep + x[k:]] + L[i + 1:])
            m = re.match(r'(.* = )(.*);$', x)
            if m and m.group(2) not in ('0', '1'):
                yield mk(L[:i] + [m.group(1) + '0;'] + L[i + 1:])
                yield mk(L[:i] + [m.group(1) + '1;'] + L[i + 1:])

    def run(self, cases, scratch):
        return self.run_(cases, scratch)

    def run_(self, cases, scratch, single=False):
        src = os.path.join(scratch, 'a.c')
        with open(src, 'w') as f:
            f.write(self.source(cases))
        with open(os.path.join(scratch, 'ref.c'), 'w') as f:
            f.write(open(src).read() + GCC_RT)
        g = gcc_ref('ref.c', 'ref', self.bits, scratch, strict=cases[0].get('strict'))
        if g.returncode:
            if len(cases) == 1 and b'Werror=' in g.stderr:
                self.note('rejected by gcc (not judged)')
                return [{'skip': True}]
            if len(cases) == 1:
                raise RuntimeError('gcc: ' + g.stderr.decode('latin1')[:1500] + cases[0]['c'])
            return [self.run_([c], scratch)[0] for c in cases]
        try:
            os.unlink(os.path.join(scratch, 'mes'))
        except OSError:
            pass
        try:
            p = self.cc.link('a.c', 'mes', scratch, self.libs)
            err = (p.stdout + p.stderr).decode('latin1')
            ok = p.returncode == 0 and os.path.exists(os.path.join(scratch, 'mes'))
        except subprocess.TimeoutExpired:
            ok, err = False, 'timeout'
        if not ok and len(cases) > 1:
            return [self.run_([c], scratch)[0] for c in cases]
        bad = set()
        if b'integer overflow in expression' in g.stderr:
            # folded by gcc before the sanitizer sees it
            ends, n = [], self.head.count('\n') + RT.count('\n') + 2
            for i, c in enumerate(cases):
                n += c['c'].count('\n') + 1
                ends.append(n)
            for m in re.finditer(r':(\d+):\d+: warning: integer overflow in expression', g.stderr.decode('latin1')):
                bad.add(sum(1 for e in ends if e < int(m.group(1))))
        out = []
        for i, c in enumerate(cases):
            r = prog('./ref', [str(i)], cwd=scratch)
            if r[0] != 0 or i in bad:
                self.note('undefined-or-long (not judged)')
                out.append({'skip': True})
                continue
            if not ok:
                es = [x for x in re.sub(r'_\d+|a\.c:\d+|\d+|In .*', '', err).split('\n') if re.search(r'fail|error|rror:|not supported|procedure', x)]
                out.append({'tag': 'compile: ' + (es[0] if es else '')[:60], 'want': 'compiles', 'got': err[-1200:]})
                continue
            m = prog('./mes', [str(i)], cwd=scratch)
            if m[0] == r[0] and m[1] == r[1]:
                out.append(None)
            else:
                out.append({'tag': 'output', 'want': [r[0], r[1][:3000]], 'got': [m[0], m[1][:3000]]})
        return out
