"""M03: the interpreter compiled by MesCC, or for 32 bits, behaves as the one compiled by gcc for x86_64."""
import json, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import pbt, scheme, build, proggen
import S02, S03, S04, S05, S06, S07, S08, S09, S10, S11, S12

TARGETS = ['gcc32', 'mescc32', 'mescc64']
KINDS = ['S02', 'S05', 'S06', 'S07', 'S08', 'S03', 'S04', 'S09', 'S10', 'S11', 'S12']
MODELLED = {'S10': S10.S10, 'S11': S11.S11, 'S12': S12.S12}
SLOW = ['S05', 'S06', 'S04', 'S07', 'S03', 'S02']
WIDE = 1 << 30


class Arith(S04.S04):
    def expr(self, src, depth):
        r = super().expr(src, depth)
        self.top = max(self.top, abs(r[1]))
        return r

    def gen(self, src):
        self.top = 0
        c = super().gen(src)
        for w in re.findall(r'-?\d+', c['e'] + c['want']):
            self.top = max(self.top, abs(int(w)))
        c['wide'] = self.top >= WIDE
        return c


class M03(pbt.Check):
    id = 'M03'
    quick = 6000
    thorough = 120000
    batch = 200
    quick_s = 40
    tier = 'quick'
    rule = ('a case is one generated Scheme program or expression (the generators of S02 to S12) run by the interpreter built by gcc for x86_64 and by '
            'one built by gcc for i386, by MesCC for i386 or by MesCC for x86_64, with the same output expected; non-trivial = the case prints '
            'at least two characters and does not end in a failure')
    assumptions = ['integers that do not fit the 32-bit word are only generated for the x86_64 target']

    def prepare(self):
        t = build.tree()
        ref = t.mes()
        exes = {}
        self.unbuilt = {}
        for x in TARGETS if self.tier == 'thorough' else TARGETS[:2]:
            try:
                exes[x] = t.mes_other(x)
            except build.BuildError as e:
                self.unbuilt[x] = str(e)[-500:]
                if x != 'gcc32':    # not part of the property: sources beyond what MesCC accepts
                    continue
                return {'case': {'build': x}, 'failure': {'tag': 'build', 'error': str(e)[-3000:]}}
        self.sub = {'S02': S02.S02(), 'S03': S03.S03(), 'S04': Arith(), 'S05': S05.S05(), 'S06': S06.S06(), 'S07': S07.S07(), 'S08': S08.S08(), 'S09': S09.S09()}
        self.conf = {}
        for k, c in self.sub.items():
            c.prepare()
            m = c.core if k == 'S03' else c.mes
            self.conf[k] = {}
            for x, e in [('ref', ref)] + list(exes.items()):
                self.conf[k][x] = scheme.Mes(modules=m.modules, prelude=m.prelude, exe=e, stack=400000, arena=8000000, timeout=400 if x == 'mescc64' else 40)

        self.model = {}
        for k, f in MODELLED.items():
            for x, e in exes.items():
                if x == 'mescc64' or k != 'S10' and x == 'mescc32':
                    continue
                c = self.model[k, x] = f()
                c.tier = self.tier
                c.prepare()
                c.mes.exe = e

    def extra_evidence(self):
        return {'targets_that_cannot_be_built': self.unbuilt}

    def make_case(self, seed, idx, size):
        s = pbt.Src(seed=pbt.h64(self.id, seed, idx), size=size)
        big = int(self.tier == 'thorough' and idx % 1000 == 3)
        d = s.draw

        def first(n):               # which cases are groups for the slow target is not left to chance
            s.draw = d
            s.rec.append(big)
            return big
        s.draw = first
        v = self.gen(s)
        return pbt.Case(s.rec, v)

    def gen(self, src):
        if src.draw(2):
            # MesCC x86_64 code starts slowly here (its stack frames are not aligned): many bodies in one process
            k = src.pick(SLOW)
            return {'k': k, 'x': 'mescc64', 'bs': [self.one(src, 'mescc64', k) for _ in range(src.int(1, 60))]}
        x = src.pick(['gcc32', 'mescc32'])
        k = src.pick(KINDS)
        if k in MODELLED:       # these bring the expected behaviour along
            c = MODELLED[k]()
            while True:
                v = c.gen(src)
                if not wide(json.dumps(v)):
                    break
            if k != 'S10' or set(v['f']) & {'missing-file', 'error', 'child-output'}:
                x = 'gcc32'
            return {'k': k, 'x': x, 'c': v}
        if k == 'S08':          # MesCC compiles the interpreter without the checks that signal errors
            x = 'gcc32'
        return {'k': k, 'x': x, 'bs': [self.one(src, x, k)]}

    def one(self, src, x, k):
        while True:
            c = self.sub[k].gen(src)
            if k in ('S02', 'S09'):
                b = '\n'.join(c['forms'])
            elif k == 'S08':
                if 'body' not in c:
                    continue
                b = c['body']
            elif k == 'S03':
                if c['how'] not in (0, 1, 2):
                    continue
                b = self.sub[k].body(c, 0, None)
            else:
                b = c['e'] + (' #t' if k == 'S07' else '')
            b = b.replace('100003', '30011').replace('65521', '30011')        # products fit 32 bits
            if x != 'mescc64' and (c.get('wide') or wide(b)):
                continue
            return b

    def classify(self, c):
        return 'c' in c or any(len(b) > 30 for b in c['bs']), [c['k'] + '-' + c['x']]

    def variants(self, c):
        for i in range(len(c['bs']) if len(c.get('bs', '')) > 1 else 0):
            yield dict(c, bs=[c['bs'][i]])

    def run(self, cases, scratch):
        out = [None] * len(cases)
        for (k, x), m in self.model.items():
            idx = [i for i, c in enumerate(cases) if c['k'] == k and c['x'] == x]
            if idx:
                for i, r in zip(idx, m.run([cases[i]['c'] for i in idx], scratch)):
                    if pbt.judged(r):
                        out[i] = dict(r, tag=x + ' ' + str(r.get('tag')))
        for k in self.conf:
            for x in TARGETS:
                idx = [(i, b) for i, c in enumerate(cases) if c['k'] == k and c['x'] == x for b in c['bs']]
                if not idx or x not in self.conf[k]:
                    continue
                top = k in ('S02', 'S03', 'S09')
                a = self.conf[k]['ref'].run_batch([b for _, b in idx], scratch, toplevel=top)
                # in an interpreter that MesCC compiled an error ends the process (src/core.c: error)
                ok = [j for j, y in enumerate(a) if not isinstance(y, dict) and not (x != 'gcc32' and '@@ERR' in y)
                      and not (x != 'mescc64' and wide(y))]
                g = self.conf[k][x].run_batch([idx[j][1] for j in ok], scratch, toplevel=top)
                for j, y in zip(ok, g):
                    if y == a[j] or (x != 'gcc32' and isinstance(y, dict) and 'assert fail: ERROR' in y.get('stderr', '')):
                        continue
                    r = {'tag': x + (' died' if isinstance(y, dict) else ' diff'), 'body': idx[j][1], 'got': y, 'want': a[j]}
                    out[idx[j][0]] = out[idx[j][0]] or pbt.judged(r)
        return out


def wide(t):
    return any(abs(int(w)) >= WIDE for w in re.findall(r'\d+', t)) or \
        re.search(r'#x[-+]?[0-9a-fA-F]{8}|#b[-+]?[01]{31}|#o[-+]?[0-7]{11}', t) is not None


if __name__ == '__main__':
    pbt.main(M03())
