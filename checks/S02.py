"""S02: expressions and programs evaluate as the language defines (reference: Guile)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import pbt, scheme, schemegen, proggen


class S02(pbt.Check):
    id = 'S02'
    quick = 16000
    thorough = 300000
    batch = 50
    quick_s = 25
    rule = ('a case is one generated program of 1-6 top-level definitions, statements and expressions (closures, '
            'private state, shadowed names, rest arguments, apply, named let, letrec, internal definitions, cond/case/do, '
            'quasiquote, escaping continuations, deep recursion, long tail loops); non-trivial = at least two of these '
            'features and one closure or binding construct')
    assumptions = ['Guile 3.0.9 evaluates the generated fragment correctly',
                   'programs are generated free of dependence on operand evaluation order and of integers beyond the machine word']

    def prepare(self):
        self.mes = scheme.Mes(modules=['(mes scm)', '(srfi srfi-1)'], prelude=proggen.PRE, stack=400000)
        self.guile = scheme.Guile(prelude=proggen.PRE, header='(use-modules (srfi srfi-1))\n')

    def gen(self, src):
        p = proggen.Prog(src)
        forms = p.program()
        return {'forms': forms, 'f': sorted(p.feats)}

    def classify(self, c):
        f = c['f']
        return len(f) >= 2 and bool(set(f) & {'closure', 'let', 'let*', 'named-let', 'letrec', 'internal-define',
                                              'stateful-closure', 'define-procedure', 'rest-args'}), f

    def run(self, cases, scratch):
        bodies = ['\n'.join(c['forms']) for c in cases]
        b = self.guile.run_batch(bodies, scratch, toplevel=True)
        ok = [k for k, y in enumerate(b) if not isinstance(y, dict)]
        a = [None] * len(cases)
        for k, x in zip(ok, self.mes.run_batch([bodies[k] for k in ok], scratch, toplevel=True)):
            a[k] = x
        out = []
        for x, y in zip(a, b):
            if isinstance(y, dict):
                out.append(None)
            elif x == y:
                out.append(None)
            else:
                out.append({'tag': 'died' if isinstance(x, dict) else 'diff', 'got': x, 'want': y})
        return out


if __name__ == '__main__':
    pbt.main(S02())
