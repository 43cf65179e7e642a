"""Properties of the support library and of instances: allocator, containers, sorts, conversions, threads."""
import random
import closgen, gen, judge, macrogen, runner, sess
from engine import Job, Prop
from props_lang import ASSUME_REF, evaluate
from props_vm import ANY
from syntax import Id as I, text

ALLOCATORS = ['portable', 'default']


def lib(c): return ('lib_' + c, 'lib.c', c, 'asan', False, True)


def libjob(config, kind, seed, label=None, **kw):
    return Job([('lib_' + config, runner.Case([], dict(kw, kind=kind, seed=seed)))], lambda case, res: judge.broken(res), label or kind, nontrivial=lambda rs: int(rs[0].stat.get('checks', 0)) > 0, ends=True)


class P20(Prop):
    id = 'P20'
    targets = [lib(c) for c in ALLOCATORS]
    quick, thorough = 40, 4000
    rule = ('Sequences of allocations, resizes and frees (of every size from 0 to beyond the pool, in phases of growth and decay, with stale, foreign and null pointers) on pools of 100 bytes to 1 MB with every strategy run next to a '
            'model that knows every block: after each operation the blocks lie in the pool, apart and aligned, hold what was written, refusals are for lack of room, and in the end the pool is whole. Non-trivial: something was checked.')
    assumptions = ['A refusal is only counted as wrong if one gap had room for the request and a table of blocks with 16 more entries.']

    def batch(self, k, r, tier):
        jobs = []
        for _ in range(12):
            c = 'default' if r.random() < .1 else 'portable'
            jobs.append(libjob(c, 'allocator', r.randrange(1 << 40), n=r.choice([50, 300, 1500, 3000]), a=r.choice([100, 200, 500, 1000, 3000, 10000, 50000, 200000, 1000000, r.randrange(96, 5000)]), b=r.randrange(4), c=r.randrange(4)))
        return jobs


class P21(Prop):
    id = 'P21'
    targets = [lib(c) for c in ALLOCATORS]
    quick, thorough = 40, 4000
    rule = ('Arrays (every element size up to 24, both strategies), tries (keys that share prefixes, contain each other or any bytes) and their refused allocations run next to models that are compared after every operation; the three sorts '
            'run on nine shapes of input, on a stack of 256 KB, and are compared with the sorted input; conversions between text and numbers, and memory primitives with overlap, are compared with the C library\'s. Non-trivial: something was checked.')
    assumptions = ['A decimal fraction may differ from the nearest double by one rounding for its digits and one for every power of ten in its exponent.']

    def batch(self, k, r, tier):
        jobs = []
        for _ in range(6):
            c = r.choice(ALLOCATORS)
            s = lambda: r.randrange(1 << 40)
            jobs.append(libjob(c, 'arrays', s(), n=r.choice([50, 400]), a=r.choice([0, 1])))
            jobs.append(libjob(c, 'tries', s(), n=r.choice([20, 150, 400]), a=r.choice([0, 1]), b=r.choice([1, 2, 3, 26, 256])))
            jobs.append(libjob(c, 'conversions', s(), n=r.choice([100, 400])))
            for _ in range(3):
                jobs.append(libjob(c, 'sorts', s(), n=r.choice([1, 2, 3, 4, 5, 7, 8, 16, 17, 31, 100, 257]), a=r.randrange(3), b=r.randrange(9), c=r.choice([1, 8, 9, 16, 24, 33])))
        return jobs

    def directed_jobs(self):
        jobs = []
        for c in ALLOCATORS:
            for algo in range(3):
                for shape in range(9):
                    for n in (0, 1, 2, 3, 6, 10, 400 if algo == 0 else 3000): jobs.append(libjob(c, 'sorts', n + shape, n=n, a=algo, b=shape, c=8))
            for shape in range(9):
                if c == 'portable': jobs.append(libjob(c, 'sorts', shape, n=200000 if shape not in (4,) else 5000, a=2, b=shape, c=8, label='large sorts'))
            for seed in range(30): jobs.append(libjob(c, 'tries', seed, n=60, a=1, b=2))
        return jobs


# ------------------------------------------------------------------------------------------------ P24
def iso(c, san): return ('iso_%s_%s' % (c, san), 'iso.c', c, san, False, False)


def together(case, res):
    """case.exp: the expectations of every instance. Each must show what it shows alone, every time."""
    b = judge.broken(res)
    if b: return b
    reps, cur = [], None
    for tag, rest in res.obs:
        if tag == 'INSTANCE': reps.append([])
        elif tag == 'REP':
            cur = runner.Result()
            cur.status = 'ok'
            reps[-1].append(cur)
        else: cur.obs.append((tag, rest))
    if len(reps) != len(case.exp): return '%d of %d instances reported' % (len(reps), len(case.exp))
    for i, rs in enumerate(reps):
        if len(rs) != case.meta: return 'instance %d ran %d of %d times' % (i, len(rs), case.meta)
        for r in rs:
            c = runner.Case([op for op in case.ops if op[0] == 'T %d' % i], exp=case.exp[i])
            v = judge.units(c, r)
            if v: return 'instance %d of %d: %s' % (i, len(reps), v)
    return None


class P24(Prop):
    id = 'P24'
    targets = [iso(c, s) for c in ANY for s in ('asan', 'tsan')]
    quick, thorough = 32, 2000
    rule = ('2 to 8 instances of the compiler and the virtual machine, each with a session of its own that uses the same names for other things, run on threads (under ThreadSanitizer and AddressSanitizer), or take turns on one thread, '
            'also from inside each other\'s callbacks, and start and stop while others run; what each shows is compared with the reference for its session alone. Non-trivial: at least two turns were taken.')
    assumptions = [ASSUME_REF, 'Only those schedules of the threads are seen that occur; ThreadSanitizer reports unordered accesses even if they did not collide.']

    def session(self, r):
        while True:
            asts = []
            for _ in range(r.choice([1, 2, 4])):
                k = r.randrange(5)
                if k == 0: asts.append([[]] + gen.Gen(r, size=r.choice([5, 15, 40])).program())
                elif k == 1: asts.append([[]] + closgen.ClosGen(r, r.choice([8, 20, 40])).program())
                elif k == 2:
                    p = [[]] + gen.Gen(r, size=r.choice([5, 10]), stmts=dict(comp=0)).program()
                    asts.append((p, macrogen.Rewriter(r, p).run(r.choice([1, 3]))))
                elif k == 3:
                    x = r.randrange(1000)
                    f = lambda macro: [[], [I('global'), I('g1'), x], [I('emit'), I('g1')]] + macro + [[I('emit'), [I('list'), [I('quote'), I('s%d' % x)], [I('quote'), I('common')]]], [I('setq'), I('g1'), [I('+'), I('g1'), 1]], I('g1')]
                    asts.append((f([[I('emit'), x + 1]]), f([[I('defmacro'), I('m1'), [], x + 1], [I('emit'), [I('m1')]]])))
                else:
                    u = sess.Sess(r, r.sample(list(sess.OPS), 2), .12).build(r.choice([5, 15]))
                    asts += [a for a, _, _ in u]
            exp = evaluate([a[0] if isinstance(a, tuple) else a for a in asts])
            if exp is not None: return [text(a[1] if isinstance(a, tuple) else a) for a in asts][:60], exp[:60]

    def batch(self, k, r, tier):
        jobs = []
        for _ in range(8):
            mode = r.choice([0, 0, 0, 1, 2, 2])
            reps = r.choice([1, 1, 3]) if mode == 0 else 1
            n = r.choice([2, 3, 4, 8])
            ss = [self.session(r) for _ in range(n)]
            if r.random() < .3: ss = [ss[0]] * n   # the same everywhere
            ops = [('T %d' % i, s) for i, (src, _) in enumerate(ss) for s in src]
            c = runner.Case(ops, dict(mode=mode, reps=reps, seed=r.randrange(1 << 30), objs=r.choice([1500, 6000, 20000]), pool=64 << 20), [e for _, e in ss], reps)
            d = 'iso_%s_%s' % (r.choice(ANY), 'tsan' if mode == 0 and r.random() < .75 else 'asan')
            jobs.append(Job([(d, c)], together, ('threads', 'turns', 'turns from inside')[mode] + (' tsan' if d.endswith('tsan') else ''), nontrivial=lambda rs: int(rs[0].stat.get('steps', 0)) >= 2))
        return jobs


ALL = [P20, P21, P24]
