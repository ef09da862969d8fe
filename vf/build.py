"""Builds what the checks need from /repo's working tree, outside /repo.

Everything lands in /verif/build (git-ignored), keyed by the content it was made
from: tree/<hash> is a configured copy of the sources, obj/<hash> one compiled
object.  A change to one library source therefore rebuilds one object.
"""
import fcntl, hashlib, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
JOBS = os.cpu_count() or 4
GUILE_SITE = '/usr/share/guile/3.0:/usr/share/guile/site/3.0'
BASE_ENV = {
    'HOME': '/root',
    'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
    'LANG': 'C.UTF-8', 'GUILE_AUTO_COMPILE': '0', 'V': '0',
}


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(b'%d:' % len(p))
        h.update(p)
    return h.hexdigest()[:24]


def read(p):
    with open(p, 'rb') as f:
        return f.read()


def run(cmd, cwd=None, env=None, timeout=300, input=None):
    e = dict(BASE_ENV)
    if env:
        e.update(env)
    return subprocess.run(cmd, cwd=cwd, env=e, timeout=timeout, input=input,
                          stdout=subprocess.PIPE, stderr=subprocess.PIPE)


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.path = os.path.join(BUILD, name + '.lock')

    def __enter__(self):
        self.f = open(self.path, 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


SKIP_TOP = ('doc', 'tests', 'guix')


def repo_files():
    """Source files of /repo's working tree (tracked or new, not ignored)."""
    p = subprocess.run(['git', '-c', 'safe.directory=*', '-C', REPO, 'ls-files', '-co',
                        '--exclude-standard', '-z'], stdout=subprocess.PIPE)
    if p.returncode == 0:
        names = [n for n in p.stdout.decode().split('\0') if n]
    else:                               # no git: walk
        names = []
        for d, ds, fs in os.walk(REPO):
            ds[:] = [x for x in ds if x not in ('.git', '_vp', 'bin', 'gcc-lib', 'mescc-lib')]
            for f in fs:
                if f.endswith(('.o', '.go', '.a')):
                    continue
                names.append(os.path.relpath(os.path.join(d, f), REPO))
    out = []
    for n in sorted(set(names)):
        top = n.split('/')[0]
        if top in SKIP_TOP:
            continue
        full = os.path.join(REPO, n)
        if os.path.isfile(full) or os.path.islink(full):
            out.append(n)
    return out


class Tree:
    def __init__(self):
        self.files = repo_files()
        self.digest = {}
        for n in self.files:
            full = os.path.join(REPO, n)
            self.digest[n] = sha(os.readlink(full) if os.path.islink(full) else read(full))
        self.hash = sha(*[n + '\0' + self.digest[n] for n in self.files])
        self.dir = os.path.join(BUILD, 'tree', self.hash)
        self._conf = None
        with Lock('tree'):
            if not os.path.exists(self.dir + '/.ready'):
                self._make_tree()
        self.conf64 = self.sources(64, 'gcc')

    def _prune(self):
        root = os.path.join(BUILD, 'tree')
        if not os.path.isdir(root):
            return
        ds = sorted((os.path.getmtime(os.path.join(root, d)), d) for d in os.listdir(root))
        for _, d in ds[:-6]:
            shutil.rmtree(os.path.join(root, d), ignore_errors=True)

    def _make_tree(self):
        self._prune()
        tmp = self.dir
        shutil.rmtree(tmp, ignore_errors=True)
        for n in self.files:
            dst = os.path.join(tmp, n)
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            shutil.copy2(os.path.join(REPO, n), dst, follow_symlinks=False)
        p = run(['./configure', 'CC=gcc', 'CFLAGS=-fno-stack-protector'], cwd=tmp,
                env={'GUILE_LOAD_PATH': GUILE_SITE})
        if p.returncode:
            raise BuildError('configure: ' + p.stderr.decode('latin1')[-2000:])
        open(tmp + '/.ready', 'w').close()

    def group(self, *prefixes):
        return sha(*[n + '\0' + self.digest[n] for n in self.files
                     if n.startswith(prefixes)])

    # ---- source lists, from the project's own build scripts
    def sources(self, bits, compiler, cpu=None):
        cpu = cpu or ('x86_64' if bits == 64 else 'x86')
        key = (cpu, compiler)
        if not hasattr(self, '_src'):
            self._src = {}
        if key in self._src:
            return self._src[key]
        names = ['libc_mini', 'libmescc', 'libmes', 'libc', 'libtcc1', 'libc_tcc', 'libc_gnu', 'mes']
        script = ('. ./config.sh >/dev/null; mes_cpu=%s mes_bits=%d compiler=%s mes_libc=mes mes_kernel=linux; '
                  'set +eu; . build-aux/configure-lib.sh >/dev/null 2>&1; set +eu; mes_cpu=%s; '
                  % (cpu, bits, compiler, cpu))
        # configure-lib.sh sources config.sh again: override through a patched copy
        conf = read(self.dir + '/config.sh').decode()
        conf += '\nmes_cpu=%s\nmes_bits=%d\ncompiler=%s\nmes_libc=mes\nmes_kernel=linux\n' % (cpu, bits, compiler)
        d = os.path.join(self.dir, '.conf-%s-%s' % (cpu, compiler))
        os.makedirs(d + '/build-aux', exist_ok=True)
        with open(d + '/config.sh', 'w') as f:
            f.write(conf)
        shutil.copy(self.dir + '/build-aux/configure-lib.sh', d + '/build-aux/')
        script = '. ./build-aux/configure-lib.sh >/dev/null; set +eu; ' + ' '.join(
            'echo "%s:" ${%s_SOURCES};' % (n, n) for n in names)
        p = run(['bash', '-c', script], cwd=d)
        res = {}
        for line in p.stdout.decode().split('\n'):
            if ':' in line:
                k, v = line.split(':', 1)
                seen, out = set(), []
                for s in v.split():
                    o = os.path.basename(s)
                    if o in seen and k != 'mes':
                        continue
                    seen.add(o)
                    out.append(s)
                res[k] = out
        if not res.get('libc') or not res.get('mes'):
            raise BuildError('configure-lib: ' + p.stderr.decode('latin1'))
        res['getopt'] = ['lib/posix/getopt.c']
        res['crt1'] = ['lib/linux/%s-mes-%s/crt1.c' % (cpu, compiler)]
        self._src[key] = res
        return res

    def _srckey(self, src):
        data = read(os.path.join(self.dir, src))
        extra = ''
        if b'.c>' in data or b'.c"' in data:
            extra = self.group('lib/')
        return sha(src, data, extra)

    # ---- gcc
    def gcc_flags(self, bits=64, cpu=None):
        cpu = cpu or ('x86_64' if bits == 64 else 'x86')
        return ['-D', 'HAVE_CONFIG_H=1', '-I', 'lib', '-I', 'include', '-I', 'include/linux/' + cpu,
                '-static', '-nostdinc', '-nostdlib', '-fno-builtin', '-fno-stack-protector',
                '-fno-pic', '-fno-pie'] + (['-m32'] if bits == 32 else [])

    def gcc_objs(self, srcs, bits=64, extra=()):
        inc = self.group('include/', 'lib/mes', 'src/builtins') + sha(*[self.digest[n] for n in self.files if n.endswith('.h')])
        jobs = []
        out = []
        for s in srcs:
            k = sha('gcc', str(bits), ' '.join(extra), inc, self._srckey(s))
            o = os.path.join(BUILD, 'obj', k + '.o')
            out.append(o)
            if not os.path.exists(o):
                jobs.append((s, o))
        os.makedirs(os.path.join(BUILD, 'obj'), exist_ok=True)

        def one(job):
            s, o = job
            t = o + '.%d.%d.tmp.o' % (os.getpid(), id(job))
            p = run(['gcc', '-c'] + self.gcc_flags(bits) + list(extra) + ['-w', '-o', t, s], cwd=self.dir)
            if p.returncode:
                raise BuildError('%s: %s' % (s, p.stderr.decode('latin1')[-1500:]))
            os.rename(t, o)
        with ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(one, jobs))
        return out

    def gcc_lib(self, name='libc_gnu', bits=64):
        """Archive (path) of one library built by gcc; also returns crt1."""
        conf = self.sources(bits, 'gcc')
        objs = self.gcc_objs(conf[name], bits)
        a = os.path.join(BUILD, 'obj', 'lib-' + sha(*objs) + '.a')
        if not os.path.exists(a):
            t = a + '.%d' % os.getpid()
            # object names: original basenames, so that symbols read well
            p = run(['ar', 'crD', t] + objs)
            if p.returncode:
                raise BuildError(p.stderr.decode())
            os.rename(t, a)
        return a

    def crt1(self, bits=64):
        return self.gcc_objs(self.sources(bits, 'gcc')['crt1'], bits)[0]

    def mes(self, bits=64, extra=()):
        """The interpreter, built as the project builds bin/mes (gcc + Mes C library)."""
        conf = self.sources(64, 'gcc')
        objs = self.gcc_objs(conf['mes'], 64, extra)
        lib = self.gcc_lib('libc')
        crt = self.crt1()
        exe = os.path.join(BUILD, 'obj', 'mes-' + sha(lib, crt, *objs))
        if not os.path.exists(exe):
            t = exe + '.%d' % os.getpid()
            p = run(['gcc', '-static', '-nostdlib', '-no-pie', '-o', t, crt] + objs + [lib, '-lgcc', lib])
            if p.returncode:
                raise BuildError('link mes: ' + p.stderr.decode('latin1')[-1500:])
            os.rename(t, exe)
        return exe

    def mes_asan(self):
        """The interpreter on the system C library (as simple.make builds it), watched by AddressSanitizer."""
        srcs = self.sources(64, 'gcc')['mes']
        mk = read(self.dir + '/simple.make').decode().replace('\\\n', ' ')
        lib = next((l.split('=', 1)[1].split() for l in mk.split('\n') if l.startswith('GCC_SOURCES')), [])
        flags = ['-D_GNU_SOURCE', '-Dconst=', '-g', '-O1', '-DSYSTEM_LIBC=1', '-DMES_VERSION="git"', '-DMES_PKGDATADIR="/usr/local/share/mes"',
                 '-I', 'include', '-fno-builtin', '-w', '-fsanitize=address,bounds,integer-divide-by-zero,vla-bound,unreachable',
                 '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
        inc = self.group('include/', 'lib/mes', 'src/builtins') + sha(*[self.digest[n] for n in self.files if n.endswith('.h')])
        objs, jobs = [], []
        for s in [x for x in lib if x not in srcs] + srcs:
            o = os.path.join(BUILD, 'obj', sha('asan', ' '.join(flags), inc, self._srckey(s)) + '.o')
            objs.append(o)
            if not os.path.exists(o):
                jobs.append((s, o))

        def one(job):
            s, o = job
            t = o + '.%d.%d.tmp.o' % (os.getpid(), id(job))
            p = run(['gcc', '-c'] + flags + ['-o', t, s], cwd=self.dir)
            if p.returncode:
                raise BuildError('%s: %s' % (s, p.stderr.decode('latin1')[-1500:]))
            os.rename(t, o)
        os.makedirs(os.path.join(BUILD, 'obj'), exist_ok=True)
        with ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(one, jobs))
        exe = os.path.join(BUILD, 'obj', 'mes-' + sha('asan', *objs))
        with Lock('mes-asan'):
            if not os.path.exists(exe):
                t = exe + '.%d' % os.getpid()
                p = run(['gcc', '-fsanitize=address,undefined', '-o', t] + objs)
                if p.returncode:
                    raise BuildError('link mes-asan: ' + p.stderr.decode('latin1')[-1500:])
                os.rename(t, exe)
        return exe

    def mes_other(self, target):
        """The interpreter for another target: gcc32, mescc64, mescc32."""
        bits = int(target[-2:])
        comp = target[:-2]
        srcs = self.sources(bits, comp)['mes']
        if comp == 'gcc':
            lib, crt, objs = self.gcc_lib('libc', bits), self.crt1(bits), self.gcc_objs(srcs, bits)
            exe = os.path.join(BUILD, 'obj', 'mes-' + sha(lib, crt, *objs))
            cmd = ['gcc', '-m%d' % bits, '-static', '-nostdlib', '-no-pie', '-o', '@', crt] + objs + [lib]
            env, cwd = None, None
        else:
            L = self.mescc_libdir(bits)
            objs = self.mescc_objs(srcs, bits)
            exe = os.path.join(BUILD, 'obj', 'mes-' + sha(L, self.mescc_key(), *objs))
            crt = '%s/%s-mes/crt1.o' % (L, 'x86_64' if bits == 64 else 'x86')
            cmd = self.mescc_cmd(bits) + ['-nostdlib', '-o', '@', '-L', L, crt] + objs + ['-l', 'c', '-l', 'mescc']
            env, cwd = self.mescc_env(bits), os.path.join(BUILD, 'obj')
        with Lock('mes-' + target):
            if not os.path.exists(exe):
                t = exe + '.%d' % os.getpid()
                p = run([t if a == '@' else a for a in cmd], env=env, cwd=cwd)
                if p.returncode or not os.path.exists(t):
                    raise BuildError('link %s mes: %s' % (target, p.stderr.decode('latin1')[-1500:]))
                os.chmod(t, 0o755)
                os.rename(t, exe)
        return exe

    def mes_env(self, arena=20000000, max_arena=None, stack=5000000, **kw):
        e = dict(BASE_ENV)
        e.update({
            'MES_PREFIX': self.dir,
            'GUILE_LOAD_PATH': '%s/module:%s/mes:%s' % (self.dir, self.dir, GUILE_SITE),
            'MES_ARENA': str(arena),
            'MES_MAX_ARENA': str(max_arena if max_arena is not None else arena),
            'MES_STACK': str(stack),
        })
        e.update({k: str(v) for k, v in kw.items()})
        return e

    # ---- MesCC
    def mescc_key(self):
        return self.group('module/', 'mes/', 'lib/linux/', 'lib/x86', 'lib/arm', 'scripts/') + \
            sha(*[self.digest[n] for n in self.files if n.endswith('.M1')])

    def mescc_go(self):
        """Compiled (.go) MesCC modules for Guile."""
        with Lock('go'):
            return self._mescc_go()

    def _mescc_go(self):
        k = self.group('module/')
        god = os.path.join(BUILD, 'go', k)
        if os.path.exists(god + '/.ready'):
            return god
        root = os.path.join(BUILD, 'go')
        if os.path.isdir(root):
            ds = sorted((os.path.getmtime(os.path.join(root, d)), d) for d in os.listdir(root))
            for _, d in ds[:-8]:
                shutil.rmtree(os.path.join(root, d), ignore_errors=True)
        mods = [n for n in self.files if n.startswith('module/') and n.endswith('.scm')]
        script = read(self.dir + '/build-aux/build-guile.sh').decode()
        want = []
        in_list = False
        for line in script.split('\n'):
            line = line.strip()
            if line.startswith('SCM_FILES='):
                in_list = True
                continue
            if in_list:
                if line.startswith('"'):
                    break
                if line in mods:
                    want.append(line)
        env = {'GUILE_LOAD_PATH': GUILE_SITE}

        def one(m):
            o = os.path.join(god, m[len('module/'):-4] + '.go')
            os.makedirs(os.path.dirname(o), exist_ok=True)
            p = run(['guild', 'compile', '-O1', '-L', 'module', '-L', 'build-aux', '-L', 'scripts',
                     '-o', o, m], cwd=self.dir, env=env)
            if p.returncode:
                raise BuildError('guild %s: %s' % (m, p.stderr.decode('latin1')[-1500:]))
        with ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(one, want))
        open(god + '/.ready', 'w').close()
        return god

    def mescc_env(self, bits=64, libdirs=None):
        go = self.mescc_go()
        e = dict(BASE_ENV)
        e.update({
            'abs_top_srcdir': self.dir, 'abs_top_builddir': self.dir,
            'srcdest': self.dir + '/',
            'MES_PREFIX': self.dir,
            'MES_UNINSTALLED': '1',
            'prefix': '/usr/local',
            'includedir': self.dir + '/include',
            'libdir': self.dir + '/lib',
            'numbered_arch': 'false',
            'GUILE_LOAD_PATH': '%s/module:%s/mes:%s' % (self.dir, self.dir, GUILE_SITE),
            'GUILE_LOAD_COMPILED_PATH': go,
        })
        return e

    def mescc_cmd(self, bits=64):
        return ['guile', '--no-auto-compile', '-e', 'main', self.dir + '/scripts/mescc.scm', '-m', str(bits)]

    def mescc_objs(self, srcs, bits=64):
        """[(o, s)] of library/interpreter sources compiled by MesCC (run on Guile)."""
        key = self.mescc_key()
        hdr = sha(*[self.digest[n] for n in self.files if n.endswith('.h')])
        cpu = 'x86_64' if bits == 64 else 'x86'
        jobs, out = [], []
        for s in srcs:
            k = sha('mescc', str(bits), key, hdr, self._srckey(s))
            base = os.path.join(BUILD, 'obj', k)
            out.append(base + '.o')
            if not os.path.exists(base + '.o'):
                jobs.append((s, base))
        if jobs:
            env = self.mescc_env(bits)
            os.makedirs(os.path.join(BUILD, 'obj'), exist_ok=True)

            def one(job):
                s, base = job
                t = base + '-%d' % os.getpid()
                p = run(self.mescc_cmd(bits) + ['-c', '-D', 'HAVE_CONFIG_H=1', '-I', 'lib', '-I', 'include',
                                                '-I', 'include/linux/' + cpu, '-o', t + '.o', s],
                        cwd=self.dir, env=env)
                if p.returncode or not os.path.exists(t + '.o'):
                    raise BuildError('mescc %s: %s' % (s, p.stderr.decode('latin1')[-1500:]))
                os.rename(t + '.s', base + '.s')
                os.rename(t + '.o', base + '.o')
            with ThreadPoolExecutor(JOBS) as ex:
                list(ex.map(one, jobs))
        return out

    def mescc_libdir(self, bits=64, libs=('libmescc', 'libc', 'libc_tcc')):
        """Directory to pass as -L to MesCC: <dir>/<cpu>-mes/{crt1.o,lib*.a}."""
        conf = self.sources(bits, 'mescc')
        cpu = 'x86_64' if bits == 64 else 'x86'
        fn = {'libc_mini': 'libc-mini', 'libmescc': 'libmescc', 'libmes': 'libmes', 'libc': 'libc',
              'libtcc1': 'libtcc1', 'libc_tcc': 'libc+tcc', 'libc_gnu': 'libc+gnu', 'getopt': 'libgetopt'}
        allsrc = list(conf['crt1'])
        for l in libs:
            allsrc += [s for s in conf[l] if s not in allsrc]
        objs = dict(zip(allsrc, self.mescc_objs(allsrc, bits)))
        d = os.path.join(BUILD, 'obj', 'mlib-' + sha(str(bits), ' '.join(libs), *objs.values()))
        if not os.path.exists(d + '/.ready'):
            dd = d + '/%s-mes' % cpu
            os.makedirs(dd, exist_ok=True)
            shutil.copy(objs[conf['crt1'][0]], dd + '/crt1.o')
            shutil.copy(objs[conf['crt1'][0]][:-2] + '.s', dd + '/crt1.s')
            for l in libs:
                for ext in ('.a', '.s'):
                    with open(dd + '/' + fn[l] + ext, 'wb') as f:
                        for s in conf[l]:
                            o = objs[s]
                            f.write(read(o if ext == '.a' else o[:-2] + '.s'))
            open(d + '/.ready', 'w').close()
        return d


_tree = None


def tree():
    global _tree
    if _tree is None:
        _tree = Tree()
    return _tree


def trim_obj_cache(limit=1500 << 20):
    d = os.path.join(BUILD, 'obj')
    if not os.path.isdir(d):
        return
    fs = []
    tot = 0
    for n in os.listdir(d):
        p = os.path.join(d, n)
        if os.path.isfile(p):
            st = os.stat(p)
            fs.append((st.st_mtime, st.st_size, p))
            tot += st.st_size
    fs.sort()
    for m, s, p in fs:
        if tot <= limit:
            break
        if time.time() - m < 3600:
            break
        os.unlink(p)
        tot -= s
