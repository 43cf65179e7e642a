"""Runs a property's workload: batches of jobs on a pool of workers, verdicts, evidence, replay files, known findings."""
import argparse, base64, hashlib, json, multiprocessing, os, random, re, sys, time, traceback
import build, runner

VERIF = build.VERIF
KNOWN = os.path.join(VERIF, 'known-findings.txt')


class Job:
    """One execution that gets a verdict. judge(case, result) returns None or what is wrong. A job may need several
    executions: `cases` is then a list of (driver, case), and judge gets lists."""
    __slots__ = ('runs', 'judge', 'label', 'nontrivial', 'ends')
    def __init__(self, runs, judge, label='', nontrivial=None, ends=False):
        self.runs, self.judge, self.label, self.nontrivial, self.ends = runs, judge, label, nontrivial, ends


class Prop:
    """A property's check. Subclasses provide batch(k, rng, tier) -> list of Job and set the fields below."""
    id = None
    targets = ()          # build targets, see build.build
    rule = ''
    assumptions = ()
    quick, thorough = 16, 400   # number of batches
    directed = ()         # fixed jobs, built by directed_jobs()
    level = 'exploration'

    def batch(self, k, rng, tier): return []
    def directed_jobs(self): return []
    def finish(self, total): """Adjust the coverage record."""


def sources(case):
    return [b.decode('latin-1') for _, b in case.ops if b is not None]


def case_text(runs):
    o = []
    for drv, c in runs:
        o.append('## driver %s options %s' % (drv, ' '.join('%s=%s' % kv for kv in sorted(c.opts.items()))))
        for line, blob in c.ops: o.append(line + (' ' + blob.decode('latin-1') if blob is not None else ''))
    return '\n'.join(o)


_prop = None
_exe = None
_seed = 1
_tier = 'quick'


def _opsbits(s):
    n = int(s[::-1], 16) if s else 0
    return n


def execute(jobs):
    """[(job, verdict, results)] where verdict is None (held), 'inconclusive' or a message."""
    by = {}
    for j, job in enumerate(jobs):
        for i, (drv, case) in enumerate(job.runs): by.setdefault(drv, []).append((j, i, case))
    res = {}
    for drv, l in by.items():
        for (j, i, _), r in zip(l, runner.run_batch(_exe[drv], [c for _, _, c in l], hangs=1 if all(jobs[j].ends for j, _, _ in l) else 2)): res[j, i] = r
    out = []
    for j, job in enumerate(jobs):
        rs = [res[j, i] for i in range(len(job.runs))]
        if any(r.status == 'timeout' for r in rs):
            # Work that the model bounds takes milliseconds; if it exceeds its CPU time twice (20 s, 80 s), it does not end.
            hang = job.ends and any(r.hang for r in rs)
            out.append((job, 'the execution does not end: it exceeded its CPU time twice' if hang else 'inconclusive', rs))
            continue
        v = job.judge(job.runs[0][1], rs[0]) if len(rs) == 1 else job.judge([c for _, c in job.runs], rs)
        if v and 'source' in v and ' BUDGET' in v: v = 'inconclusive'
        out.append((job, v, rs))
    return out


def _work(k):
    try:
        rng = random.Random('%d:%s:%s' % (_seed, _prop.id, k))
        t0 = time.time()
        jobs = _prop.directed_jobs() if k == 'directed' else _prop.batch(k, rng, _tier)
        t1 = time.time()
        S = dict(evaluations=0, sources=0, steps=0, allocs=0, collections=0, forced=0, heap_checks=0, observations=0, values=0, errors=0,
                 rejected=0, inconclusive=0, fault_points=0, faults_hit=0, max_stack=0, mallocs=0, users=0, bytecodes_decoded=0, instructions_decoded=0, frames=0, operands_checked=0, notes={}, gen_s=t1 - t0)
        ops = 0
        seen, samples, viol = set(), [], []
        for idx, (job, v, rs) in enumerate(execute(jobs)):
            S['evaluations'] += len(rs)
            steps = obs = 0
            for r in rs:
                st = r.stat
                S['steps'] += int(st.get('steps', 0))
                steps += int(st.get('steps', 0))
                for a, b in (('allocs', 'allocs'), ('collections', 'collections'), ('forced', 'forced'), ('heap_checks', 'checks'),
                             ('fault_points', 'faultcount'), ('faults_hit', 'faulthits'), ('mallocs', 'mallocs'), ('users', 'users'), ('bytecodes_decoded', 'codes'), ('instructions_decoded', 'instructions'), ('frames', 'frames'), ('operands_checked', 'operands')):
                    S[a] += int(st.get(b, 0))
                S['max_stack'] = max(S['max_stack'], int(st.get('maxstack', 0)))
                ops |= _opsbits(st.get('ops', ''))
                for tag, rest in r.obs:
                    if tag in 'Tc': obs += 1
                    elif tag == 'R':
                        S['values' if rest.startswith('0 ') else 'errors'] += 1
                    elif tag == 'C' and not rest.startswith('0'): S['rejected'] += 1
            S['observations'] += obs
            S['sources'] += sum(len(c.ops) for _, c in job.runs)
            if v == 'inconclusive':
                S['inconclusive'] += 1
                continue
            nt = job.nontrivial(rs) if job.nontrivial else steps >= 8
            h = hashlib.sha256(case_text(job.runs).encode('latin-1', 'replace')).digest()[:10]
            if nt: seen.add(h)
            if job.label: S['notes'][job.label] = S['notes'].get(job.label, 0) + 1
            if v:
                viol.append(dict(batch=k, index=idx, message=v, text=case_text(job.runs)[:200000],
                                 signature=signature(v, rs)))
                if len(viol) >= 5: break
            elif len(samples) < 1:
                samples.append(dict(case=case_text(job.runs)[:1200], observed=rs[0].summary()[:600]))
        return S, ops, seen, samples, viol, None
    except Exception:
        return None, 0, set(), [], [], traceback.format_exc()


def signature(msg, rs):
    for r in rs:
        if r.status == 'crash': return runner.crash_signature(r.stderr)
    return re.sub(r'\d+', 'N', msg)[:160]


def known(pid):
    """Entries of the known-findings file for a property: [(signature regex, what fails)]."""
    res = []
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            m = re.match(r'known: property=(\S+) signature=/(.*)/ case=(\S+) :: (.*)', ln)
            if m and m.group(1) == pid: res.append((re.compile(m.group(2)), m.group(3), m.group(4).strip()))
    return res


def run(prop, tier, seed, workers=None, only=None, quiet=False):
    global _prop, _exe, _seed, _tier
    t0 = time.time()
    _prop, _seed, _tier = prop, seed, tier
    _exe = build.build(list(prop.targets))
    build_s = time.time() - t0
    n = prop.quick if tier == 'quick' else prop.thorough
    keys = (['directed'] if True else []) + list(range(n))
    if only is not None: keys = only
    total, ops, seen, samples, viol = {}, 0, set(), [], []
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(workers or os.cpu_count() or 4, maxtasksperchild=20) as pool:
        for S, o, s, sm, v, err in pool.imap_unordered(_work, keys):
            if err:
                sys.stderr.write('check machinery failed:\n' + err)
                pool.terminate()
                return 3
            for a, b in S.items():
                if a == 'max_stack': total[a] = max(total.get(a, 0), b)
                elif a == 'notes':
                    d = total.setdefault('notes', {})
                    for x, y in b.items(): d[x] = d.get(x, 0) + y
                else: total[a] = total.get(a, 0) + b
            ops |= o
            seen |= s
            if len(samples) < 3: samples += sm
            viol += v
            if len(viol) >= 40 or sum(x['message'].startswith('the execution does not end') for x in viol) >= 2:
                pool.terminate()
                break
    kn = known(prop.id)
    fresh, old = [], set()
    for v in viol:
        for rx, case, what in kn:
            if rx.search(v['signature']) or rx.search(v['message']):
                old.add(what)
                break
        else: fresh.append(v)
    for _, _, what in kn: print('KNOWN-FINDING: property=%s %s' % (prop.id, what))
    notes = total.pop('notes', {})
    total.pop('gen_s', None)
    evaluations = total.pop('evaluations')
    cov = dict(evaluations=evaluations, distinct_nontrivial=len(seen), rule=prop.rule, samples=samples[:3],
               distinct_opcodes=bin(ops).count('1'), batches=len(keys), cases_by_kind=notes)
    cov.update({a: b for a, b in total.items() if b})
    prop.finish(cov)
    ev = dict(property=prop.id, tier=tier, seed=seed, level=prop.level, coverage=cov, assumptions=list(prop.assumptions),
              wall_s=round(time.time() - t0, 2), violations=len(fresh))
    if only is None:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop.id + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    rd = os.path.join(VERIF, 'build', 'replay')
    os.makedirs(rd, exist_ok=True)
    done = set()
    for v in fresh:
        if v['signature'] in done or len(done) >= 5: continue
        done.add(v['signature'])
        p = os.path.join(rd, '%s-%s-%s.json' % (prop.id, v['batch'], v['index']))
        with open(p, 'w') as f: json.dump(dict(v, property=prop.id, tier=tier, seed=seed), f, indent=1)
        print('VIOLATION property=%s replay=%s' % (prop.id, p))
        print('  ' + v['message'][:700].replace('\n', '\n  '))
        if not quiet: print('  ' + v['text'][:1500].replace('\n', '\n  '))
    print('%s %s: %d executions, %d distinct non-trivial, %d inconclusive, %d violations, build %.1f s, total %.1f s' %
          (prop.id, tier, evaluations, len(seen), total.get('inconclusive', 0), len(fresh), build_s, time.time() - t0))
    return 1 if fresh else 0


def main(props):
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--batches', type=int)
    ap.add_argument('--only', help='run one batch')
    ap.add_argument('--replay')
    a = ap.parse_args()
    only = None
    if a.replay:
        r = json.load(open(a.replay))
        a.property, a.tier, a.seed = r['property'], r['tier'], r['seed']
        only = [r['batch']]
    elif a.only: only = [a.only if a.only == 'directed' else int(a.only)]
    p = props[a.property]()
    if a.batches is not None: p.quick = p.thorough = a.batches
    try:
        sys.exit(run(p, a.tier, a.seed, only=only))
    except build.BuildError as e:
        sys.stderr.write('build failed: %s\n' % e)
        sys.exit(2)
