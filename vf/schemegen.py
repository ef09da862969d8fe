"""Typed random Scheme expressions from tables of templates.

A template is text with holes:
  {T}        an expression of type T
  {T!}       a literal/leaf of type T
  {$k:T}     a fresh variable name of type T (declared here)
  {$k}       that name again
  {T|k,m}    an expression of type T that may use fresh variables k and m
"""
import re
from . import pbt, scheme

HOLE = re.compile(r'\{(\$?)([A-Za-z0-9_]+)(!?)(?::([A-Za-z0-9_]+))?(?:\|([A-Za-z0-9_,]+))?\}')


class Gen:
    def __init__(self, src, prods, leaves, max_nodes=60):
        self.src = src
        self.prods = prods
        self.leaves = leaves
        self.nvar = 0
        self.nodes = 0
        self.max_nodes = max_nodes
        self.used = {}

    def leaf(self, t, env):
        vs = [n for n, vt in env if vt == t]
        if vs and self.src.bool(2, 3):
            return self.src.pick(vs[-6:])
        return self.leaves[t](self.src)

    def gen(self, t, depth, env=()):
        self.nodes += 1
        if depth <= 0 or self.nodes > self.max_nodes or t not in self.prods or self.src.draw(6) == 0:
            return self.leaf(t, env)
        ps = self.prods[t]
        k = self.src.draw(len(ps))
        p = ps[k]
        self.used[t + str(k)] = 1
        return self.fill(p, depth, env)

    def fill(self, p, depth, env=()):
        if callable(p):
            return p(self, depth, env)
        names = {}
        out = []
        pos = 0
        for m in HOLE.finditer(p):
            out.append(p[pos:m.start()])
            pos = m.end()
            dollar, name, bang, typ, uses = m.groups()
            if dollar:
                if name not in names:
                    self.nvar += 1
                    names[name] = ('v%d' % self.nvar, typ)
                out.append(names[name][0])
            else:
                e = env
                if uses:
                    e = tuple(env) + tuple(names[u] for u in uses.split(','))
                if bang:
                    out.append(self.leaf(name, e))
                else:
                    out.append(self.gen(name, depth - 1, e))
        out.append(p[pos:])
        return ''.join(out)


def proc_names(prods):
    names = set()
    for ps in prods.values():
        for p in ps:
            if isinstance(p, str):
                names.update(re.findall(r'\(([a-z][A-Za-z0-9*!?>/=-]*[a-z0-9!?*])', p))
    return names - {'lambda', 'let', 'list', 'if', 'or', 'and', 'begin', 'let*', 'define', 'write', 'display'}


def used_names(text, known):
    return sorted(known & set(re.findall(r'[a-z][A-Za-z0-9*!?>/=-]*', text)))


class SchemeDiff(pbt.Check):
    """Each case's body is run by mes and by Guile; the captured output must agree."""
    batch = 100
    mes_modules = ['(mes scm)']
    guile_header = ''
    mes_header = ''
    norm_errors = True

    def prepare(self):
        self.mes = scheme.Mes(modules=self.mes_modules, prelude=scheme.PRELUDE + self.mes_header)
        self.guile = scheme.Guile(header=self.guile_header)

    def norm(self, o):
        if isinstance(o, str) and self.norm_errors:
            i = o.find('@@ERR')
            if i >= 0:
                return o[:i] + '@@ERR'
        return o

    def run(self, cases, scratch):
        bodies = [c['e'] for c in cases]
        a = self.mes.run_batch(bodies, scratch)
        b = self.guile.run_batch(bodies, scratch)
        out = []
        for x, y in zip(a, b):
            if isinstance(y, dict):
                out.append(None)      # reference gave no answer: not judged
            elif self.norm(x) == self.norm(y):
                out.append(None)
            else:
                out.append({'tag': 'diff', 'got': x, 'want': y})
        return out
