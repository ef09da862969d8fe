"""A small property-based-testing core: recorded choices, batch execution, shrinking,
replay files, known findings, evidence.

A case is a JSON-able value produced from a Src (a recorded sequence of bounded
integer choices).  Shrinking edits the choice sequence and regenerates.
"""
import hashlib, json, multiprocessing, os, random, signal, sys, time, traceback, shutil, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Src:
    def __init__(self, seed=None, prefix=None, size=30):
        self.rng = random.Random(seed) if prefix is None else None
        self.prefix = prefix
        self.i = 0
        self.rec = []
        self.size = size

    def draw(self, n):
        """An integer in [0, n)."""
        if n <= 1:
            return 0
        if self.prefix is not None:
            v = self.prefix[self.i] if self.i < len(self.prefix) else 0
            v = v if v < n else v % n
        else:
            v = self.rng.randrange(n)
        self.i += 1
        self.rec.append(v)
        return v

    def int(self, lo, hi):
        return lo + self.draw(hi - lo + 1)

    def bool(self, num=1, den=2):
        return self.draw(den) >= den - num

    def pick(self, seq):
        return seq[self.draw(len(seq))]

    def weighted(self, pairs):
        """pairs: [(weight, value)]; simplest first."""
        tot = sum(w for w, _ in pairs)
        r = self.draw(tot)
        for w, v in pairs:
            if r < w:
                return v
            r -= w
        raise AssertionError

    def length(self, lo, hi):
        """A length, biased to small but reaching hi."""
        if self.bool(1, 3):
            return self.int(lo, hi)
        return self.int(lo, min(hi, lo + 4))

    def list(self, f, lo, hi):
        return [f() for _ in range(self.length(lo, hi))]


def h64(*a):
    return int.from_bytes(hashlib.sha256(repr(a).encode()).digest()[:8], 'big')


class Case:
    __slots__ = ('choices', 'value', 'key')

    def __init__(self, choices, value):
        self.choices = choices
        self.value = value
        self.key = json.dumps(value, sort_keys=True)


class Check:
    """Subclass: id, title; gen(src) -> case value; run(cases, scratch) -> [None | failure dict]."""
    id = None
    level = 'exploration'
    rule = ''
    quick = 2000
    thorough = 40000
    batch = 50
    quick_s = 45          # soft time budget for generation+execution
    thorough_s = 1200
    shrink_s = 40
    assumptions = []
    obs = {}              # counters a run() may add to; reported with the classes

    def note(self, what, n=1):
        self.obs[what] = self.obs.get(what, 0) + n
    workers = os.cpu_count() or 4

    def prepare(self):
        """Build what is needed; runs once, in the parent."""

    def gen(self, src):
        raise NotImplementedError

    def run(self, cases, scratch):
        raise NotImplementedError

    def classify(self, case):
        """-> (nontrivial, [labels])"""
        return True, []

    def sample(self, case):
        return case

    def extra_evidence(self):
        return {}

    # ------------------------------------------------------------------
    def make_case(self, seed, idx, size):
        s = Src(seed=h64(self.id, seed, idx), size=size)
        v = self.gen(s)
        return Case(s.rec, v)

    def regen(self, choices):
        s = Src(prefix=choices)
        try:
            v = self.gen(s)
        except RecursionError:
            return None
        return Case(s.rec, v)


_ROOT = None


def _scratch_root():
    return tempfile.mkdtemp(prefix='w-', dir=_ROOT)


_CHECK = None


def _worker(args):
    seed, lo, hi, tier, deadline = args
    check = _CHECK
    out = {'lo': lo, 'n': 0, 'nontrivial': [], 'labels': {}, 'fails': [], 'samples': [], 'skipped': 0}
    scratch = _scratch_root()
    check.obs = {}
    try:
        b = lo
        while b < hi:
            if time.time() > deadline:
                out['skipped'] += hi - b
                break
            e = min(hi, b + check.batch)
            cases = [check.make_case(seed, i, 30) for i in range(b, e)]
            res = check.run([c.value for c in cases], scratch)
            assert len(res) == len(cases)
            for k, (c, r) in enumerate(zip(cases, res)):
                r = judged(r)
                out['n'] += 1
                nt, labels = check.classify(c.value)
                for l in labels:
                    out['labels'][l] = out['labels'].get(l, 0) + 1
                if nt:
                    out['nontrivial'].append(h64(c.key))
                    if len(out['samples']) < 2:
                        out['samples'].append(check.sample(c.value))
                if r is not None:
                    out['fails'].append((c.choices, c.value, r, [x.value for x in cases[:k + 1]]))
            b = e
            if out['fails']:
                break
        for l, n in check.obs.items():
            out['labels'][l] = out['labels'].get(l, 0) + n
        return out
    except Exception:
        out['error'] = traceback.format_exc()
        return out
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _eval(args):
    values = args
    scratch = _scratch_root()
    try:
        if len(values) == 1 and '_joined' in values[0]:
            return [last_failure(_CHECK.run(values[0]['_joined'], scratch))]
        return [judged(r) for r in _CHECK.run(values, scratch)]
    except Exception:
        return [{'error': traceback.format_exc()}] * len(values)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def lost_worker():
    """A worker died or hangs beyond every limit: no verdict, and no waiting for it."""
    print('harness error (no verdict): a worker was lost', file=sys.stderr, flush=True)
    shutil.rmtree(_ROOT, ignore_errors=True)
    for p in multiprocessing.active_children():
        p.kill()
    os._exit(2)


def pmap(pool, items):
    try:
        return pool.map_async(_eval, items, chunksize=1).get(timeout=300)
    except multiprocessing.TimeoutError:
        lost_worker()


def last_failure(rs):
    rs = [r for r in map(judged, rs) if r is not None]
    return rs[-1] if rs else None


def shrink_joined(check, pool, cases, tag, budget):
    """Fewest cases, then fewest operations, that still fail together."""
    deadline = time.time() + budget

    def bad(c):
        r = c[0]
        return real(r) and r.get('tag') == tag

    def first(cands):
        for k in range(0, len(cands), check.workers):
            if time.time() > deadline:
                return None
            g = cands[k:k + check.workers]
            for c, r in zip(g, pmap(pool, [[{'_joined': c}] for c in g])):
                if bad(r):
                    return c
        return None

    for edit in (lambda cs: [cs[-n:] for n in (2, 3, 5, 9, 17) if n < len(cs)],
                 lambda cs: [cs[:i] + cs[i + 1:] for i in range(len(cs) - 1)],
                 lambda cs: [cs[:i] + [dict(c, ops=c['ops'][:j] + c['ops'][j + 1:])] + cs[i + 1:]
                             for i, c in enumerate(cs) if isinstance(c.get('ops'), list) and len(c['ops']) > 1 for j in range(len(c['ops']))]):
        while True:
            c = first(edit(cases))
            if c is None:
                break
            cases = c
    return cases


def real(r):
    return r is not None and 'error' not in r


def judged(r):
    """Drop outcomes of cases that were not run."""
    if r is not None and (r.get('skip') or r.get('got') == {'skip': True}):
        return None
    return r


def size_of(value):
    return len(json.dumps(value))


def shrink(check, pool, choices, value, failure, budget):
    deadline = time.time() + budget
    best = Case(list(choices), value)
    bestr = failure
    seen = {best.key}
    steps = 0

    def try_all(cands):
        """First failing candidate (in order), evaluated in parallel chunks."""
        nonlocal best, bestr, steps
        fresh = []
        for ch in cands:
            c = check.regen(ch)
            if c is None or c.key in seen:
                continue
            # must be no larger
            if (len(c.choices), c.choices) >= (len(best.choices), best.choices):
                continue
            seen.add(c.key)
            fresh.append(c)
        W = check.workers
        for k in range(0, len(fresh), W * 2):
            if time.time() > deadline:
                return False
            grp = fresh[k:k + W * 2]
            rs = pmap(pool, [[c.value] for c in grp])
            for c, r in zip(grp, rs):
                steps += 1
                if real(r[0]) and r[0].get('tag') == bestr.get('tag'):
                    best, bestr = c, r[0]
                    return True
        return False

    improved = True
    while improved and time.time() < deadline:
        improved = False
        n = len(best.choices)
        for bs in (n // 2, n // 4, 32, 16, 8, 4, 3, 2, 1):
            if bs < 1 or bs > len(best.choices):
                continue
            while time.time() < deadline:
                ch = best.choices
                cands = [ch[:i] + ch[i + bs:] for i in range(0, len(ch) - bs + 1, max(1, bs // 2))]
                if not try_all(cands):
                    break
                improved = True
        while time.time() < deadline:
            ch = best.choices
            cands = []
            for bs in (8, 4, 2, 1):
                for i in range(0, len(ch) - bs + 1):
                    if any(ch[i:i + bs]):
                        cands.append(ch[:i] + [0] * bs + ch[i + bs:])
            if not try_all(cands):
                break
            improved = True
        while time.time() < deadline:
            ch = best.choices
            cands = []
            for i, v in enumerate(ch):
                if v > 1:
                    cands.append(ch[:i] + [v // 2] + ch[i + 1:])
                if v > 0:
                    cands.append(ch[:i] + [v - 1] + ch[i + 1:])
            if not try_all(cands):
                break
            improved = True
    # edits of the case itself, where the check knows some
    if hasattr(check, 'variants') and not os.environ.get('VF_NOVARIANTS'):
        deadline = time.time() + budget
        improved = True
        while improved and time.time() < deadline:
            improved = False
            cands = []
            W = check.workers
            it = check.variants(best.value)
            while time.time() < deadline:
                grp = []
                for v in it:
                    k = json.dumps(v, sort_keys=True)
                    if k in seen or len(k) >= len(best.key):
                        continue
                    seen.add(k)
                    grp.append(v)
                    if len(grp) >= W:
                        break
                if not grp:
                    break
                rs = pmap(pool, [[v] for v in grp])
                hit = False
                for v, r in zip(grp, rs):
                    steps += 1
                    if real(r[0]) and r[0].get('tag') == bestr.get('tag'):
                        best, bestr = Case(None, v), r[0]
                        hit = improved = True
                        break
                if hit:
                    break
    return best, bestr, steps


def load_known(pid):
    out = []
    p = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if line.startswith('{'):
                    d = json.loads(line)
                    if d.get('property') == pid:
                        out.append(d)
    return out


def corpus(pid):
    p = os.path.join(VERIF, 'corpus', pid + '.jsonl')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [json.loads(l) for l in f if l.strip()]


def main(check):
    global _ROOT
    _ROOT = tempfile.mkdtemp(prefix='vf-', dir='/tmp')
    os.chmod(_ROOT, 0o755)
    try:
        main_(check)
    finally:
        for _ in range(3):
            shutil.rmtree(_ROOT, ignore_errors=True)
            if not os.path.exists(_ROOT):
                break


def main_(check):
    global _CHECK
    _CHECK = check
    t0 = time.time()
    args = sys.argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    replay = None
    n_override = None
    i = 0
    while i < len(args):
        if args[i] == '--tier':
            tier = args[i + 1]; i += 2
        elif args[i] == '--seed':
            seed = int(args[i + 1]); i += 2
        elif args[i] == '--replay':
            replay = args[i + 1]; i += 2
        elif args[i] == '-n':
            n_override = int(args[i + 1]); i += 2
        else:
            raise SystemExit('unknown argument ' + args[i])
    signal.signal(signal.SIGPIPE, signal.SIG_IGN)   # a child that does not read its input must not end a worker
    sys.setrecursionlimit(10000)
    check.tier = tier
    pre = check.prepare()
    if isinstance(pre, dict):       # preparation itself refuted the property
        return finish_violation(check, pre, tier, seed, t0)
    t_prep = time.time() - t0
    if replay:
        with open(replay) as f:
            d = json.load(f)
        r = _eval([d['case']])[0]
        print(json.dumps(r, indent=1) if r else 'replay: property holds on this case')
        sys.exit(1 if real(r) else (2 if r else 0))
    total = n_override or (check.thorough if tier == 'thorough' else check.quick)
    budget = check.thorough_s if tier == 'thorough' else check.quick_s
    deadline = time.time() + budget
    stats = {'n': 0, 'labels': {}, 'samples': [], 'skipped': 0, 'known': 0}
    nontriv = set()
    fails = []
    errors = []
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(check.workers) as pool:
        known = load_known(check.id)
        for k in known:
            rs = [_eval([k['case']])[0] for _ in range(1)]
            if real(rs[0]):
                stats['known'] += 1
                print('KNOWN-FINDING: property=%s %s' % (check.id, k['what']), flush=True)
        known_keys = {json.dumps(k['case'], sort_keys=True) for k in known}
        # saved cases first
        cor = corpus(check.id)
        if cor:
            groups = [cor[i:i + check.batch] for i in range(0, len(cor), check.batch)]
            for g, rs in zip(groups, pmap(pool, groups)):
                for v, r in zip(g, rs):
                    stats['n'] += 1
                    nt, labels = check.classify(v)
                    if nt:
                        nontriv.add(h64(json.dumps(v, sort_keys=True)))
                    if r is not None and json.dumps(v, sort_keys=True) not in known_keys:
                        if 'error' in r:
                            errors.append(r['error'])
                        else:
                            fails.append((None, v, r, [v]))
    chunk = check.batch
    jobs = [(seed, lo, min(total, lo + chunk), tier, deadline) for lo in range(0, total, chunk)]
    done = set()
    violation = None
    rounds = 0
    while violation is None and (fails or (not errors and len(done) < len(jobs) and rounds < 5)):
        rounds += 1
        if not fails:
            with ctx.Pool(check.workers) as pool:
                todo = [j for j in jobs if j[1] not in done]
                it = pool.imap_unordered(_worker, todo, chunksize=1)
                while True:
                    try:
                        out = it.next(timeout=max(0, deadline - time.time()) + 200)
                    except StopIteration:
                        break
                    except multiprocessing.TimeoutError:
                        lost_worker()
                    done.add(out['lo'])
                    stats['n'] += out['n']
                    stats['skipped'] += out['skipped']
                    for l, c in out['labels'].items():
                        stats['labels'][l] = stats['labels'].get(l, 0) + c
                    nontriv.update(out['nontrivial'])
                    if len(stats['samples']) < 6:
                        stats['samples'] += out['samples'][:1]
                    if 'error' in out:
                        errors.append(out['error'])
                    for f in out['fails']:
                        if json.dumps(f[1], sort_keys=True) in known_keys:
                            continue
                        if 'error' in f[2]:
                            errors.append(f[2]['error'])
                        else:
                            fails.append(f)
                    if len(fails) >= 4 and (len(fails) >= 20 or time.time() > deadline):
                        break
                    if fails and tier == 'quick':
                        break
                if fails:
                    pool.terminate()
        if fails:
            with ctx.Pool(check.workers) as pool2:
                fails.sort(key=lambda f: size_of(f[1]))
                for choices, value, r, batch in fails[:5]:
                    # must reproduce 3 times
                    rr = [x[0] for x in pmap(pool2, [[value]] * 3)]
                    if not all(real(x) for x in rr):
                        # or, when state is left behind by the cases before it, together with them
                        j = {'_joined': batch}
                        rr2 = [x[0] for x in pmap(pool2, [[j]] * 3)] if len(batch) > 1 else []
                        if not rr2 or not all(real(x) and x.get('tag') == r.get('tag') for x in rr2):
                            stats.setdefault('unreproduced', []).append(
                                {'case': value, 'failure': r, 'again': rr, 'together': rr2})
                            continue
                        j = {'_joined': shrink_joined(check, pool2, batch, r.get('tag'), check.shrink_s)}
                        rr2 = [x[0] for x in pmap(pool2, [[j]] * 3)]
                        if not all(real(x) for x in rr2):
                            j = {'_joined': batch}
                        violation = {'case': j, 'failure': rr2[0] or r, 'shrink_steps': 0}
                        break
                    r = rr[0]
                    steps = 0
                    if choices is not None:
                        best, br, steps = shrink(check, pool2, choices, value, r, check.shrink_s)
                        rr = [x[0] for x in pmap(pool2, [[best.value]] * 3)]
                        if all(real(x) for x in rr):
                            value, r = best.value, rr[0]
                    if json.dumps(value, sort_keys=True) in known_keys:
                        continue
                    violation = {'case': value, 'failure': r, 'shrink_steps': steps}
                    break
            fails = []
    if violation:
        stats['viol'] = violation
    ev = {
        'property': check.id, 'tier': tier, 'seed': seed, 'level': check.level,
        'coverage': {
            'evaluations': stats['n'], 'distinct_nontrivial': len(nontriv),
            'rule': check.rule,
            'samples': stats['samples'][:5],
            'classes': dict(sorted(stats['labels'].items())),
            'budget_hit_cases_not_run': stats['skipped'],
            'known_findings_seen': stats['known'],
            'saved_cases_replayed': len(cor),
        },
        'assumptions': list(check.assumptions),
        'wall_s': round(time.time() - t0, 2),
        'violations': 1 if violation else 0,
    }
    ev['coverage'].update(check.extra_evidence())
    if stats.get('unreproduced'):
        ev['coverage']['unreproduced_failures'] = len(stats['unreproduced'])
        ev['coverage']['unreproduced_first'] = json.dumps(stats['unreproduced'][0])[:1500]
    if errors:
        ev['coverage']['harness_errors'] = len(errors)
        ev['coverage']['harness_error_first'] = errors[0][-1500:]
    write_evidence(check, ev)
    if violation:
        write_violation(check, violation, seed)
        sys.exit(1)
    if errors:
        print('harness error (no verdict): ' + errors[0], file=sys.stderr)
        sys.exit(2)
    print('%s: held on %d cases (%d distinct non-trivial), %d not run, %.1fs (prep %.1fs)' % (
        check.id, stats['n'], len(nontriv), stats['skipped'], time.time() - t0, t_prep))
    print('  classes: ' + ', '.join('%s=%d' % kv for kv in sorted(stats['labels'].items())))
    if stats.get('unreproduced'):
        print('  note: unreproduced ' + json.dumps(stats['unreproduced'][0])[:3000])
    sys.exit(0)


def _cut(x, n=4000):
    if isinstance(x, str):
        return x if len(x) <= n else x[:n] + '...[%d chars]' % len(x)
    if isinstance(x, list):
        return [_cut(y, n) for y in x[:60]]
    if isinstance(x, dict):
        return {k: _cut(v, n) for k, v in x.items()}
    return x


def write_evidence(check, ev):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    p = os.path.join(VERIF, 'evidence', check.id + '.json')
    s = json.dumps(ev, indent=1)
    n = 4000
    while len(s) > 60000 and n > 50:
        ev['coverage']['samples'] = _cut(ev['coverage']['samples'], n)
        s = json.dumps(ev, indent=1)
        n //= 2
    with open(p + '.tmp', 'w') as f:
        f.write(s + '\n')
    os.replace(p + '.tmp', p)


def write_violation(check, violation, seed):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%s.json' % (check.id, hashlib.sha256(
        json.dumps(violation['case'], sort_keys=True).encode()).hexdigest()[:12]))
    with open(p, 'w') as f:
        json.dump({'property': check.id, 'seed': seed, 'case': violation['case'],
                   'failure': violation['failure'],
                   'how': 'python3 checks/%s.py --replay %s' % (check.id, p)}, f, indent=1)
    print('minimal case: ' + json.dumps(violation['case'])[:2500])
    print('failure: ' + json.dumps(violation['failure'])[:2500])
    print('VIOLATION property=%s replay=%s' % (check.id, p), flush=True)


def finish_violation(check, pre, tier, seed, t0):
    ev = {'property': check.id, 'tier': tier, 'seed': seed, 'level': check.level,
          'coverage': {'evaluations': 1, 'distinct_nontrivial': 1, 'rule': check.rule,
                       'samples': [_cut(pre)]},
          'assumptions': list(check.assumptions),
          'wall_s': round(time.time() - t0, 2), 'violations': 1}
    write_evidence(check, ev)
    write_violation(check, pre, seed)
    sys.exit(1)
