"""C library drivers: one C program compiled against glibc (reference), against the Mes C library by gcc (64 and 32
bits) and by MesCC (64 and 32 bits), fed with generated scripts."""
import os, re, shutil, subprocess, tempfile
from . import build, pbt, ccdiff
from concurrent.futures import ThreadPoolExecutor

CDRV = os.path.join(pbt.VERIF, 'cdrv')
TARGETS = ['gcc64', 'mescc64', 'gcc32', 'mescc32']


def hexs(b):
    if b is None:
        return '-'
    if isinstance(b, str):
        b = b.encode('latin1')
    return 'x' + b.hex()


def enc(x):
    if isinstance(x, int):
        return str(x)
    if x is None or isinstance(x, (str, bytes)):
        return hexs(x)
    raise TypeError(x)


class Drivers:
    """exe[target] for target in glibc, gcc64, ...; broken[target] = error text when it cannot be built."""

    def __init__(self, name, targets=TARGETS, libs=('libmescc', 'libc', 'libc_tcc', 'libc_gnu'), extra=()):
        self.extra = list(extra)
        self.t = build.tree()
        self.name = name
        self.src = open(os.path.join(CDRV, name + '.c')).read()
        self.base = open(os.path.join(CDRV, 'base.h')).read()
        self.exe, self.broken = {}, {}
        with build.Lock('drv-' + name):
            self.ref()
            # MesCC's own modules are compiled once, before the parallel part
            if any(t.startswith('mescc') for t in targets):
                self.t.mescc_go()
            for tg in targets:
                try:
                    if tg.startswith('gcc'):
                        self.exe[tg] = self.gcc(int(tg[-2:]))
                    else:
                        self.exe[tg] = self.mescc(int(tg[-2:]), libs)
                except build.BuildError as e:
                    self.broken[tg] = str(e)

    def dest(self, *key):
        d = os.path.join(build.BUILD, 'obj')
        os.makedirs(d, exist_ok=True)
        return os.path.join(d, 'drv-%s-%s' % (self.name, build.sha(self.src, self.base, *key)))

    def finish(self, t, exe):
        os.chmod(t, 0o755)
        os.rename(t, exe)
        return exe

    def ref(self):
        exe = self.dest('glibc')
        if not os.path.exists(exe):
            t = exe + '.%d' % os.getpid()
            p = build.run(['gcc', '-w', '-O0', '-fno-builtin', '-D_FORTIFY_SOURCE=0', '-U_FORTIFY_SOURCE', '-DVF_GLIBC', '-I', CDRV, '-o', t, os.path.join(CDRV, self.name + '.c'), '-lm'])
            if p.returncode:
                raise RuntimeError('reference driver: ' + p.stderr.decode('latin1')[-2000:])
            self.finish(t, exe)
        self.exe['glibc'] = exe

    def gcc(self, bits):
        t = self.t
        lib = t.gcc_lib('libc_gnu', bits)
        crt = t.crt1(bits)
        xo = t.gcc_objs(self.extra, bits) if self.extra else []
        exe = self.dest('gcc', str(bits), lib, crt, *xo)
        if not os.path.exists(exe):
            o = exe + '.%d.o' % os.getpid()
            p = build.run(['gcc', '-c', '-w'] + t.gcc_flags(bits) + ['-I', CDRV, '-o', o, os.path.join(CDRV, self.name + '.c')], cwd=t.dir)
            if p.returncode:
                raise build.BuildError('gcc driver: ' + p.stderr.decode('latin1')[-1500:])
            tmp = exe + '.%d' % os.getpid()
            extra = ['-lgcc'] if bits == 64 else []
            p = build.run(['gcc'] + (['-m32'] if bits == 32 else []) + ['-static', '-nostdlib', '-no-pie', '-o', tmp, crt, o] + xo + [lib] + extra + [lib])
            os.unlink(o)
            if p.returncode:
                raise build.BuildError('link driver: ' + p.stderr.decode('latin1')[-1500:])
            self.finish(tmp, exe)
        return exe

    def mescc(self, bits, libs):
        cc = ccdiff.MesCC(bits, libs)
        xs = [os.path.join(self.t.dir, x) for x in self.extra]
        exe = self.dest('mescc', str(bits), cc.L, self.t.mescc_key(), *[open(x, encoding='latin1').read() for x in xs])
        if not os.path.exists(exe):
            d = exe + '.d'
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            # MesCC looks for include "base.h" beside the other include directories
            with open(d + '/a.c', 'w') as f:
                f.write(self.src.replace('#include "base.h"', self.base))
            p = cc.link('a.c', 'a', d, ('c+gnu', 'mescc'), extra=self.t.mescc_objs(self.extra, bits) if xs else ())
            if p.returncode or not os.path.exists(d + '/a'):
                raise build.BuildError('mescc driver: ' + (p.stdout + p.stderr).decode('latin1')[-1500:])
            self.finish(d + '/a', exe)
            shutil.rmtree(d, ignore_errors=True)
        return exe


class LDiff(pbt.Check):
    """A case has 'ops': [[op-number, args...]].  The driver prints one line per operation and a last one for the state."""
    driver = None
    targets = TARGETS
    batch = 40
    extra = ()
    level = 'exploration'

    def prepare(self):
        self.d = Drivers(self.driver, self.targets, extra=self.extra)

    def script(self, case):
        return '\n'.join(' '.join(enc(x) for x in op) for op in case['ops']) + '\n0\n'

    def exec(self, target, text):
        try:
            p = subprocess.run([self.d.exe[target]], input=text.encode('latin1'), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               timeout=30, preexec_fn=ccdiff.limits(), env={})
            return p.returncode, p.stdout.decode('latin1')
        except subprocess.TimeoutExpired:
            return 'timeout', ''

    def wide(self, case):
        """only for 64-bit targets"""
        return False

    def skip(self, case, target):
        """not for this target"""
        return False

    def parts(self, out):
        """per case output: split after the line ending in '.'"""
        r, cur = [], []
        for l in out.split('\n'):
            cur.append(l)
            if l.endswith('.'):
                r.append(cur)
                cur = []
        return r

    def norm(self, line, target):
        if target.endswith('32'):
            return re.sub(r'(?<= )-?\d{9,}', lambda m: str(int(m.group()) & 0xffffffff), line)
        return line

    def run(self, cases, scratch):
        want = self.exec('glibc', ''.join(self.script(c) for c in cases))
        wp = self.parts(want[1])
        if want[0] != 0 or len(wp) != len(cases):
            if len(cases) == 1:
                raise RuntimeError('reference driver: %r %r on %s' % (want[0], want[1][-300:], cases[0]))
            return [self.run([c], scratch)[0] for c in cases]
        out = [None] * len(cases)
        for tg in self.targets:
            if tg in self.d.broken:
                return [{'tag': 'build ' + tg, 'want': 'a driver program', 'got': self.d.broken[tg]} for c in cases]
            idx = [i for i, c in enumerate(cases) if not (tg.endswith('32') and self.wide(c)) and not self.skip(c, tg)]
            if not idx:
                continue
            got = self.exec(tg, ''.join(self.script(cases[i]) for i in idx))
            gp = self.parts(got[1])
            if got[0] != 0 or len(gp) != len(idx):
                if len(cases) > 1:
                    return [self.run([c], scratch)[0] for c in cases]
                out[0] = out[0] or {'tag': 'crash %s' % tg, 'want': wp[0], 'got': [got[0], got[1][-1500:]]}
                continue
            for j, i in enumerate(idx):
                if out[i] is None:
                    out[i] = self.compare(cases[i], wp[i], gp[j], tg)
        return out

    def same(self, a, b):
        return False

    def compare(self, case, want, got, tg):
        for k, (a, b) in enumerate(zip(want, got)):
            a2, b2 = self.norm(a, tg), self.norm(b, tg)
            if a2 != b2 and not self.same(a2, b2):
                op = case['ops'][k] if k < len(case['ops']) else 'end'
                return {'tag': 'op %s' % (op[0] if op != 'end' else 'end'), 'target': tg, 'op': op, 'want': a[:400], 'got': b[:400]}
        if len(want) != len(got):
            return {'tag': 'lines', 'target': tg, 'want': want[-3:], 'got': got[-3:]}
        return None


class FDiff(LDiff):
    """Every target runs in a directory of its own; script and output are files outside of it."""

    def populate(self, w):
        """Put what the cases expect into the directory W."""

    def exec(self, target, text):
        d = tempfile.mkdtemp(prefix='f-', dir=pbt._ROOT)
        try:
            w = os.path.join(d, 'w')
            os.mkdir(w)
            self.populate(w)
            with open(d + '/script', 'w', encoding='latin1') as f:
                f.write(text)
            lim = ccdiff.limits()

            def pre():
                lim()
                os.umask(0o22)
            try:
                p = subprocess.run([self.d.exe[target], d + '/script', d + '/out'], cwd=w, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                                   stderr=subprocess.PIPE, timeout=30, preexec_fn=pre, env={})
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = 'timeout'
            try:
                out = open(d + '/out', encoding='latin1').read()
            except OSError:
                out = ''
            return rc, out
        finally:
            shutil.rmtree(d, ignore_errors=True)
