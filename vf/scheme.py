"""Running batches of Scheme cases on the freshly built mes (and on Guile)."""
import ctypes, os, re, resource, subprocess, signal
from . import build, ccdiff

TAIL = 700
SKIP = {'skip': True}         # not run: too many hangs in this batch already
PRE_MES = '(mes-use-module (mes catch))\n'

PRELUDE = r'''
(define (vf-case k thunk)
  (display "\n@@B ") (display k) (newline)
  (catch #t thunk
    (lambda (key . args)
      (display "@@ERR ") (display key)))
  (display "\n@@E ") (display k) (newline))
'''


def split_output(out, n):
    """-> list of n strings or None (missing)."""
    res = [None] * n
    text = out.decode('latin1')
    for m in re.finditer(r'\n@@B (\d+)\n(.*?)\n@@E \1\n', text, re.S):
        res[int(m.group(1))] = m.group(2)
    return res


_libc = ctypes.CDLL(None, use_errno=True)


def _child_limits():
    """The child dies with its worker, and cannot spin for ever."""
    _libc.prctl(1, signal.SIGKILL)
    ccdiff.default_signals()
    resource.setrlimit(resource.RLIMIT_CPU, (120, 120))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 28, 1 << 28))


def run_proc(cmd, env, cwd, timeout, stdin=None):
    p = subprocess.Popen(cmd, env=env, cwd=cwd, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True, preexec_fn=_child_limits)
    try:
        o, e = p.communicate(stdin, timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        return 'timeout', o, e


def mes_modules(mods):
    return ''.join('(mes-use-module %s)\n' % m for m in mods)


def join_cases(bodies, toplevel):
    if toplevel:
        return ''.join('(display "\\n@@B %d\\n")\n%s\n(display "\\n@@E %d\\n")\n' % (k, b, k)
                       for k, b in enumerate(bodies)) + '(exit 0)\n'
    return ''.join('(vf-case %d (lambda () %s))\n' % (k, b) for k, b in enumerate(bodies)) + '(exit 0)\n'


class Mes:
    def __init__(self, modules=(), arena=20000000, max_arena=None, stack=5000000, exe=None, tree=None,
                 prelude=PRELUDE, timeout=12, env=None):
        self.tree = tree or build.tree()
        self.exe = exe or self.tree.mes()
        self.modules = modules
        self.prelude = prelude
        self.timeout = timeout
        self.env = self.tree.mes_env(arena, max_arena, stack, **(env or {}))

    def text(self, bodies, toplevel=False):
        return PRE_MES + mes_modules(self.modules) + self.prelude + join_cases(bodies, toplevel)

    def run_text(self, text, scratch, timeout=None, name='batch'):
        f = os.path.join(scratch, '%s-%d.scm' % (name, os.getpid()))
        with open(f, 'wb') as fh:
            fh.write(text.encode('latin1') if isinstance(text, str) else text)
        r = run_proc([self.exe, '--no-auto-compile', f], self.env, scratch, timeout or self.timeout)
        os.unlink(f)
        return r

    def run_one(self, body, scratch, toplevel=False):
        rc, o, e = self.run_text(self.text([body], toplevel), scratch, timeout=12)
        s = split_output(o, 1)[0]
        if s is None:
            return {'died': str(rc), 'stdout': o.decode('latin1')[-500:], 'stderr': e.decode('latin1')[-TAIL:]}
        if rc != 0:
            return {'died': 'exit %s' % rc, 'out': s, 'stderr': e.decode('latin1')[-TAIL:]}
        return s

    def run_batch(self, bodies, scratch, budget=None, toplevel=False):
        """list of bodies -> list of str (captured output) | dict (died/hung/not run)."""
        if not bodies:
            return []
        budget = budget if budget is not None else [4]
        if budget[0] <= 0:
            return [SKIP] * len(bodies)
        rc, o, e = self.run_text(self.text(bodies, toplevel), scratch)
        if rc == 'timeout':
            budget[0] -= 1
        res = split_output(o, len(bodies))
        if rc == 0 and all(r is not None for r in res):
            return res
        if len(bodies) == 1:
            return [self.run_one(bodies[0], scratch, toplevel)]
        # something died: keep what completed before the first missing, bisect the rest
        first = next((i for i, r in enumerate(res) if r is None), len(bodies))
        if rc != 0 and first == len(bodies):
            first = 0
            h = len(bodies) // 2
            return self.run_batch(bodies[:h], scratch, budget, toplevel) + self.run_batch(bodies[h:], scratch, budget, toplevel)
        out = list(res[:first])
        out.append(self.run_one(bodies[first], scratch, toplevel))
        return out + self.run_batch(bodies[first + 1:], scratch, budget, toplevel)


class Guile:
    def __init__(self, prelude=PRELUDE, header='', timeout=8, site=None):
        self.header = header
        self.prelude = prelude
        self.timeout = timeout
        self.env = dict(build.BASE_ENV)
        self.env['GUILE_LOAD_PATH'] = build.GUILE_SITE

    def text(self, bodies, toplevel=False):
        return self.header + self.prelude + join_cases(bodies, toplevel)

    def run_batch(self, bodies, scratch, toplevel=False):
        if not bodies:
            return []
        f = os.path.join(scratch, 'g-%d.scm' % os.getpid())
        with open(f, 'wb') as fh:
            fh.write(self.text(bodies, toplevel).encode('latin1'))
        rc, o, e = run_proc(['guile', '--no-auto-compile', '-s', f], self.env, scratch, self.timeout)
        os.unlink(f)
        res = split_output(o, len(bodies))
        if rc == 0 and all(r is not None for r in res):
            return res
        if len(bodies) == 1:
            return [{'died': str(rc), 'stderr': e.decode('latin1')[-600:]}]
        h = len(bodies) // 2
        return self.run_batch(bodies[:h], scratch, toplevel) + self.run_batch(bodies[h:], scratch, toplevel)


def lit_str(s):
    """A string literal both readers agree on (no escapes but \\" \\\\ \\n \\t)."""
    out = '"'
    for c in s:
        if c == '"' or c == '\\':
            out += '\\' + c
        elif c == '\n':
            out += '\\n'
        elif c == '\t':
            out += '\\t'
        else:
            out += c
    return out + '"'
