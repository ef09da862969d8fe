"""M04: the interpreter stays inside its memory, and does on the system C library what it does on its own (AddressSanitizer build)."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import pbt, scheme, build
import S02, S03, S04, S05, S06, S07, S08, S09, S10, S11, S12, S13

GROUPS = {'S02': S02.S02, 'S03': S03.S03, 'S04': S04.S04, 'S05': S05.S05, 'S06': S06.S06, 'S07': S07.S07, 'S08': S08.S08, 'S09': S09.S09}
MODELLED = {'S10': S10.S10, 'S11': S11.S11, 'S12': S12.S12, 'S13': S13.S13}
KINDS = ['S02', 'S03', 'S03', 'S04', 'S05', 'S06', 'S06', 'S07', 'S08', 'S09', 'S10', 'S10', 'S11', 'S11', 'S12', 'S12', 'S13', 'S13', 'S13', 'LIM', 'LIM']
ASAN = {'ASAN_OPTIONS': 'detect_leaks=0:handle_segv=0:handle_abort=0:handle_sigfpe=0:handle_sigbus=0:print_legend=0:allocator_may_return_null=1:detect_stack_use_after_return=0',
        'UBSAN_OPTIONS': 'print_stacktrace=0'}
REPORT = re.compile(r'AddressSanitizer|runtime error:')


class M04(pbt.Check):
    id = 'M04'
    quick = 6000
    thorough = 250000
    batch = 150
    quick_s = 40
    rule = ('a case is one program (the generators of S02 to S13) run by the interpreter built on the system C library with AddressSanitizer, where it must do '
            'what the project build (or, for ports, errors, the length limit and damaged text, the Python model) does, without an access outside '
            'the memory it owns being reported; non-trivial = the program is longer than 30 characters')
    assumptions = ['accesses inside the arena and the stack array count as inside (their contents are compared by the other checks)',
                   'collections happen in arenas of several sizes; the arena does not grow past its limit; running out of the smaller one is not judged']

    def prepare(self):
        scheme.TAIL = 4000
        t = build.tree()
        ref = t.mes()
        self.unbuilt = ''
        try:
            exe = t.mes_asan()
        except build.BuildError as e:       # not part of the property; the evidence says so
            self.unbuilt, exe = str(e)[-800:], ref
        self.sub, self.conf, self.model = {}, {}, {}
        for k, f in GROUPS.items():
            c = self.sub[k] = f()
            c.tier = self.tier
            c.prepare()
            m = c.core if k == 'S03' else c.mes
            self.conf[k] = {x: scheme.Mes(modules=m.modules, prelude=m.prelude, exe=e, stack=400000, arena=a, timeout=60, env=ASAN)
                            for x, e, a in (('ref', ref, 8000000), ('big', exe, 8000000), ('small', exe, 2500000))}
        for k, f in MODELLED.items():
            c = self.model[k] = f()
            c.tier = self.tier
            c.prepare()
            c.mes.exe = exe
            c.mes.env.update(ASAN)

        self.posix = scheme.Mes(modules=['(mes scm)', '(mes guile)', '(mes posix)'], exe=exe, stack=400000, arena=8000000, timeout=60, env=ASAN)

    def extra_evidence(self):
        return {'build_failure': self.unbuilt}

    def gen(self, src):
        k = src.pick(KINDS)
        if k in MODELLED:
            return {'k': k, 'c': MODELLED[k]().gen(src)}
        if k == 'LIM':
            return dict(self.limit(src), k=k)
        while True:
            c = self.sub[k].gen(src)
            if k in ('S02', 'S09'):
                b = '\n'.join(c['forms'])
            elif k == 'S08':
                if 'body' not in c:
                    continue
                b = c['body']
            elif k == 'S03':
                if c['how'] not in (0, 1, 2):
                    continue
                b = self.sub[k].body(c, 0, None)
            else:
                b = c['e'] + (' #t' if k == 'S07' else '')
            return {'k': k, 'b': b, 'a': src.pick(['big', 'small'])}

    def limit(self, s):
        """Names and arguments around the sizes of fixed buffers -> body, output."""
        n = s.weighted([(2, s.int(1, 60)), (3, s.pick([1022, 1023, 1024, 1025, 2000, 4094, 4095, 4096, 4097])), (2, s.int(60, 9000))])
        k = s.draw(6)
        if k == 5:               # refused, and nothing replaced
            n = s.weighted([(2, s.int(1001, 1100)), (2, s.pick([1022, 1023, 1024, 1025, 2048])), (1, s.int(1001, 6000))])
            return {'b': '(write (catch #t (lambda () (execl "/bin/true" (make-list %d "x")) (quote returned)) (lambda (k . a) k)))' % n, 'want': 'system-error'}
        if k < 2:
            m = s.draw(3) * s.draw(3000)
            return {'b': '(let ((n (make-string %d #\\%s))) (setenv n "old") (setenv n (make-string %d #\\v)) (write (string-length (getenv n))) (write (getenv (string-append n "z"))))'
                    % (n, s.pick('ABN'), m), 'want': '%d#f' % m}
        if k == 2:
            return {'b': '(write (catch #t (lambda () (open-input-file (make-string %d #\\f)) (quote opened)) (lambda (k . a) (quote error)))) (write (access? (make-string %d #\\f) 0))' % (n, n),
                    'want': 'error#f'}
        n = s.weighted([(2, s.int(1, 20)), (2, s.int(900, 980)), (1, s.int(20, 900))])
        c = s.pick('abc')
        return {'b': '(write (apply system* "sh" "-c" "test $# = %d -a x$%d%s = x%s" "-" (map (lambda (i) (make-string %d #\\%s)) (iota %d))))' % (n, 1, '', c * 3, 3, c, n), 'want': '0'}

    def classify(self, c):
        return 'c' in c or len(c['b']) > 30, [c['k']] + ([c['a']] if 'a' in c else [])

    def sample(self, c):
        return {'kind': c['k'], 'body': c['b'][:300]} if 'b' in c else {'kind': c['k'], 'case': str(c['c'])[:300]}

    def run(self, cases, scratch):
        out = [None] * len(cases)
        for k, m in self.model.items():
            idx = [i for i, c in enumerate(cases) if c['k'] == k]
            if idx:
                for i, r in zip(idx, m.run([cases[i]['c'] for i in idx], scratch)):
                    if pbt.judged(r):
                        out[i] = dict(r, tag=k + ' ' + ('memory' if REPORT.search(str(r)) else str(r.get('tag'))))
        idx = [i for i, c in enumerate(cases) if c['k'] == 'LIM']
        for i, g in zip(idx, self.posix.run_batch([cases[i]['b'] for i in idx], scratch)):
            if g != cases[i]['want']:
                out[i] = pbt.judged({'tag': 'LIM', 'got': g, 'want': cases[i]['want']})
        for k in self.conf:
            for x in ('big', 'small'):
                idx = [i for i, c in enumerate(cases) if c['k'] == k and c.get('a') == x]
                if not idx:
                    continue
                top = k in ('S02', 'S03', 'S09')
                bs = [cases[i]['b'] for i in idx]
                a = self.conf[k]['ref'].run_batch(bs, scratch, toplevel=top)
                g = self.conf[k][x].run_batch(bs, scratch, toplevel=top)
                for i, y, w in zip(idx, g, a):
                    if isinstance(y, dict) and REPORT.search(y.get('stderr', '')):
                        out[i] = {'tag': k + ' memory', 'got': y}
                    elif isinstance(w, dict) or y == w or isinstance(y, dict) and x == 'small' and 'out of memory' in y.get('stderr', ''):
                        continue
                    else:
                        r = {'tag': k + (' died' if isinstance(y, dict) else ' diff'), 'got': y, 'want': w}
                        out[i] = pbt.judged(r)
        return out


if __name__ == '__main__':
    pbt.main(M04())
