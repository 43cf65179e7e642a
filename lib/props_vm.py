"""Properties of the virtual machine: garbage collection, memory, exhaustion, errors, the C interface."""
import random, re
import closgen, engine, gen, judge, macrogen, ref, runner, sess
from engine import Job, Prop
from props_lang import (ASSUME_REF, MON, all_units, closure_job, directed, drv, evaluate, expjob, gcopts, program_job, retry, session_job)
from props_lang2 import P10, agree, mutate, schedule
from syntax import Flt, Id, Int, Str, read, text

ANY = ['default', 'portable', 'noopt', 'inference']


def I(n): return Id(n)


def users(r, n=None):
    """A program about objects that the host owns: handles in every kind of container, dropped, replaced and kept."""
    n = n or r.choice([10, 25, 60])
    body, names = [[]], []
    def value(d=0):
        k = r.randrange(10)
        if k < 3 and names: return I(r.choice(names))
        if k < 5: return [I('cb-user'), value(d + 1)] if d < 4 else 0
        if k == 5: return [I('list')] + [value(d + 1) for _ in range(r.randint(0, 3))] if d < 3 else 1
        if k == 6: return [I('vector')] + [value(d + 1) for _ in range(r.randint(1, 3))] if d < 3 else 2
        if k == 7: return [I('cons'), value(d + 1), value(d + 1)] if d < 3 else 3
        if k == 8: return [[], [I('var'), I('t'), value(d + 1)], [I('lambda'), [], I('t')]] if d < 3 else 4
        return r.choice([0, 5, True, Str(b'text'), [I('make-instance'), [I('make-type')], [I('cb-user'), 1], [I('lambda'), [], 2]]])
    globs = ['u%d' % i for i in range(3)]
    for g in globs: body.append([I('global'), I(g), value(2)])
    for s in range(n):
        k = r.randrange(9)
        if k == 0:
            body.append([I('var'), I('v%d' % s), value()])
            names.append('v%d' % s)
        elif k == 1 and names: body.append([I('setq'), I(r.choice(names)), value()])
        elif k == 2: body.append([I('setq'), I(r.choice(globs)), value()])
        elif k == 3: body.append([I('emit'), value(1)])
        elif k == 4: body.append([[], [I('var'), I('i'), 0], [I('while'), [I('<'), I('i'), r.choice([2, 20, 60])], [I('setq'), I(r.choice(globs)), value(1)], [I('setq'), I('i'), [I('+'), I('i'), 1]]]])
        elif k == 5: body.append([I('emit'), [I('type-of'), [I('cb-user'), value(2)]]])
        elif k == 6: body.append([I('cb-gc')])
        elif k == 7: body.append([I('emit'), I(r.choice(globs))])
        else: body.append([I('emit'), [I('funcall'), [I('lambda'), [I('p')], [I('list'), I('p'), value(2)]], value(2)]])
    return body + [0]


def deepdata(r):
    """Structures that are long and deep, shared and cyclic, dropped and rebuilt."""
    n = r.choice([20, 200, 500])
    k = r.randrange(6)
    if k == 0: s = '(() (var l ()) (var i 0) (while (< i %d) (setq l (list l i)) (setq i (+ i 1))) (cb-gc) (var d 0) (while (not (null? l)) (setq l (car l)) (setq d (+ d 1))) d)' % n
    elif k == 1: s = '(() (var l (list 0)) (var i 0) (while (< i %d) (set-cdr l (cons i (cdr l))) (setq i (+ i 1))) (cb-gc) (length l))' % n
    elif k == 2: s = '(() (var f (lambda () 0)) (var i 0) (while (< i %d) (var g f) (var j i) (setq f (lambda () (cons j g))) (setq i (+ i 1))) (cb-gc) (var d 0) (while (not (= 0 (funcall f))) (setq f (cdr (funcall f))) (setq d (+ d 1))) d)' % min(n, 200)
    elif k == 3: s = '(() (var v (make-vector %d 0)) (var i 0) (while (< i %d) (set-vector-element v i (vector i v)) (setq i (+ i 1))) (cb-gc) (setq i 0) (var s 0) (while (< i %d) (setq s (+ s (get-vector-element (get-vector-element v i) 0))) (setq i (+ i 1))) s)' % (n, n, n)
    elif k == 4: s = '(() (var l (list 1 2)) (set-cdr (cdr l) l) (var i 0) (while (< i %d) (var m (list l i)) (setq i (+ i 1))) (cb-gc) (setq l 0) (cb-gc) (setq i 0) (while (< i %d) (var m (list i i)) (set-cdr m m) (setq i (+ i 1))) i)' % (n, n)
    else: s = '(() (var s "") (var i 0) (while (< i %d) (setq s (concatenate (cdr s) "ab")) (var t (substring s 0 1)) (setq i (+ i 1))) (cb-gc) (length s))' % min(n, 200)
    return read(s)


# ------------------------------------------------------------------------------------------------ P12
class P12(Prop):
    id = 'P12'
    targets = [drv(c) for c in ANY]
    quick, thorough = 40, 2500
    rule = ('Programs, closures, sessions, macro programs, schedules, host objects, deep and cyclic data, and arbitrarily changed programs run with a collection before every n-th allocation (n from 1), and again in a heap '
            'that has exactly the size of their largest set of reachable objects; freed objects are poisoned, after each collection an independent traversal compares what is reachable with what was '
            'kept, and what the program shows is compared with the reference and with a run without forced collections. Non-trivial: at least 8 VM instructions.')
    assumptions = [ASSUME_REF, 'The roots of the independent traversal are the data stack, the upvalue stack, globals, call frames, the upvalue arrays of running functions and the running bytecode.']

    def tight(self, r):
        """The same programs in the smallest heap that must suffice."""
        jobs = []
        for _ in range(16):
            k = r.randrange(6)
            o = dict(MON, objs=6000, cobjs=6000, gc=1)
            d = 'drv_' + r.choice(ANY[:3])
            if k == 0: j = program_job(r, d, opts=o)
            elif k == 1: j = closure_job(r, d, opts=o)
            elif k == 2: j = session_job(r, list(sess.OPS), 25, .1, d, opts=o)
            elif k == 3: j = expjob([users(r)], d, o)
            elif k == 4: j = expjob([deepdata(r)], d, o)
            else: j = self.macro(r, d, o)
            if j: jobs.append(j)
        by = {}
        for j in jobs: by.setdefault(j.runs[0][0], []).append(j)
        out = []
        for d, l in by.items():
            for j, x in zip(l, runner.run_batch(engine._exe[d], [j.runs[0][1] for j in l])):
                c = j.runs[0][1]
                if x.status != 'ok' or not x.stat:
                    out.append(j)
                    continue
                s = r.choice([0, 0, 1, 4])
                o = dict(c.opts, objs=max(1, int(x.stat['reach'])) + 1 + s, cobjs=max(1, int(x.stat['creach'])) + 1 + s, gc=r.choice([0, 0, 2, 5]))
                out.append(Job([(d, runner.Case(c.ops, o, c.exp, c.meta))], j.judge, 'smallest heap'))
        return out

    def macro(self, r, d, o):
        p = [[]] + gen.Gen(r, size=r.choice([10, 30]), stmts=dict(comp=0)).program()
        exp = evaluate([p])
        if exp is None: return None
        return Job([(d, runner.Case([('L', text(macrogen.Rewriter(r, p).run(r.choice([2, 5, 10]))))], o, exp))], judge.units, 'macros')

    def forced(self, r):
        d = 'drv_' + r.choice(ANY)
        o = dict(MON, objs=r.choice([7000, 9000]), cobjs=r.choice([6000, 9000]), gc=r.choice([1, 1, 1, 2, 3, 5]))
        k = r.randrange(8)
        if k < 2: return program_job(r, d, opts=o)
        if k == 2: return closure_job(r, d, opts=o)
        if k == 3: return session_job(r, list(sess.OPS), 30, .15, d, opts=o)
        if k == 4: return expjob([users(r)], d, o, label='host objects')
        if k == 5: return expjob([deepdata(r)], d, o, label='deep data')
        if k == 6: return self.macro(r, d, o)
        s = sess.Sess(r, list(sess.OPS), .2)
        return schedule(r, [a for a, _, _ in s.build(15)], d, o)

    def arbitrary(self, r):
        a = [mutate(r, x, r.choice([1, 2, 4])) for x in P10.asts(self, r)]
        t = [('L', text(x)) for x in a]
        o = dict(poison=1, check=1, objs=20000, cobjs=20000, budget=100000, unbal=1, cpu=10)
        return Job([('drv_default', runner.Case(t, dict(o, gc=g), meta='drv_default')) for g in (0, 1)], agree, 'arbitrary programs')

    def reading(self, r):
        """Expressions that are read, built and returned at compile time."""
        s = text(([[]] + gen.Gen(r, size=15, cb=False).program())).decode('latin-1')
        lit = text(Str(s.encode('latin-1'))).decode('latin-1')
        exp = evaluate([read(s)])
        if exp is None: return None
        t = '(() (defmacro m () (car (read %s false))) (m))' % lit
        return Job([('drv_default', runner.Case([('L', t.encode('latin-1'))], dict(MON, objs=3000, cobjs=9000, gc=r.choice([0, 1, 1, 2])), exp))], judge.units, 'read')

    def batch(self, k, r, tier):
        return retry(24, lambda: self.forced(r)) + self.tight(r) + retry(8, lambda: self.arbitrary(r)) + retry(4, lambda: self.reading(r))

    def directed_jobs(self):
        o = dict(MON, objs=200, cobjs=2000, gc=1)
        return directed([
            '(() (vector (list 1) (list 2) (vector 3 (list 4))))', '(() (defun f (a &rest b) (cons a b)) (f (list 1) (list 2) (list 3)))',
            ['(() (global f (lambda () (global f 5) (var l (list 1 2 3)) (cb-gc) l)) (f))', '(() f)'], '(() (var f (lambda () (setq f 0) (cb-gc) (list 1 2))) (funcall f))',
            '(() (var x 1) (var f (lambda () (setq f 0) (cb-gc) (setq x (+ x 1)) x)) (funcall f))', '(() (apply (lambda (a b) (cb-gc) (list a b)) (list (list 1) (list 2))))',
            '(() (defun f (n) (if (< n 1) (list n) (() (var l (list n)) (self (- n 1)) (cb-gc) l))) (f 10))', '(() (var c (make-instance (make-type) (list 1) (lambda () (cb-gc) (list 2)))) (list (funcall c) (composite-value c)))',
            *[['(() (global f (lambda (kill n) (funcall kill) (list n (list n 2)))) 0)', '(() (defun rec (n) (if (< n 1) (() (var h f) (var kill (lambda () (setq h 0) (global f 0) (cb-gc) 0)) (funcall h kill n)) (() (var x (self (- n 1))) (cons n (cdr x))))) (rec %d))' % n, 'f'] for n in (0, 1, 7, 31, 70, 120)],
            '(() (var u (cb-user (list 1 2))) (cb-gc) (emit u) (setq u 0) (cb-gc) u)', '(() (var l (list (cb-user (vector (cb-user 1))))) (cb-gc) (setq l (car l)) (cb-gc) l)'], opts=o)


# ------------------------------------------------------------------------------------------------ P13
def leaked(res):
    """Blocks that were not returned, if no compile error excuses it."""
    if res.get('LEAK') and not res.get('C'): return '%s memory blocks still allocated after quitting' % res.get('LEAK')[0]
    return None


def text_of(case): return ' '.join(b.decode('latin-1') for _, b in case.ops if b)


def returned(case, res): return judge.units(case, res) or leaked(res)


def steady(case, res):
    """After the first few repetitions the heap and the host's memory hold as much as before."""
    b = judge.broken(res)
    if b: return b
    if leaked(res): return leaked(res)
    g = [tuple(map(int, x.split())) for x in res.get('G')]
    if 'gensym' in text_of(case): g = [(0, x[1], 0) for x in g]
    if res.get('C'): return None
    n, warm = case.meta
    if len(g) != n: return '%d of %d measurements; %s' % (len(g), n, res.summary()[:300])
    for i in range(warm + 1, n):
        if g[i] != g[warm]: return 'repetition %d holds %d objects and %d memory blocks, repetition %d held %d and %d' % (i, g[i][1], g[i][2], warm, g[warm][1], g[warm][2])
    if case.exp is not None: return judge.units(runner.Case([o for o in case.ops if o[0][0] in 'LX'], case.opts, case.exp, [False] * len(case.exp)), res)
    return None


class P13(Prop):
    id = 'P13'
    targets = [drv(c) for c in ANY]
    quick, thorough = 16, 2000
    rule = ('Programs without compile errors run on counted memory: every block that the library obtained must have been returned when compiler and VM have been quit, every host object with a destructor must be destroyed exactly '
            'once, not before it is unreachable and at the latest with its VM, and a source that is executed or compiled and executed again and again must, after a warm-up, leave exactly the same number of heap '
            'objects and memory blocks. Non-trivial: at least 8 VM instructions.')
    assumptions = [ASSUME_REF, 'docs/api.md: memory may leak after a compile error; such sources are not measured.']

    def program(self, r):
        """A program as a closed unit: it leaves nothing behind but its globals."""
        k = r.randrange(6)
        if k == 0: return [[]] + gen.Gen(r, size=r.choice([20, 60])).program()
        if k == 1: return [[]] + closgen.ClosGen(r, r.choice([15, 40])).program()
        if k == 2: return users(r)
        if k == 3: return deepdata(r)
        p = [[]] + gen.Gen(r, size=r.choice([10, 30]), stmts=dict(comp=0)).program()
        if k == 4: return p
        return macrogen.Rewriter(r, p).run(r.choice([2, 5]))

    def repeat(self, r):
        p = self.program(r)
        comp = r.random() < .4
        n = r.choice([6, 6, 6, 12])
        ops = [] if comp else [('K 0', text(p))]
        for _ in range(n): ops += [('L', text(p)) if comp else ('X 0', None), ('G', None)]
        return Job([('drv_' + r.choice(ANY), runner.Case(ops, dict(MON, objs=6000, cobjs=8000, gc=r.choice([0, 0, 1, 7]), leak=1), meta=(n, 3)))], steady, 'recompiled' if comp else 'executed again')

    def erring(self, r):
        """The same with runtime errors."""
        k = r.randrange(3)
        p = [[]] + gen.Gen(r, size=r.choice([20, 40]), errors=.1).program() if k == 0 else self.program(r) + [r.choice([[I('car'), 5], [I('cb-fail'), 1], [[], [I('var'), I('z'), 1], [I('global'), I('gz'), [I('lambda'), [], I('z')]], [I('cdr'), 5]], [I('get-vector-element'), [I('vector'), 1], 3], [I('funcall'), 5]])]
        n = r.choice([6, 6, 9])
        ops = [('K 0', text(p))]
        for _ in range(n): ops += [('X 0', None), ('G', None)]
        return Job([('drv_' + r.choice(ANY), runner.Case(ops, dict(MON, objs=6000, cobjs=8000, gc=r.choice([0, 1]), leak=1), meta=(n, 3)))], steady, 'failing again')

    def returned(self, r):
        """Everything is returned at the end, whatever the history."""
        k = r.randrange(4)
        d = 'drv_' + r.choice(ANY)
        o = dict(MON, objs=6000, cobjs=8000, gc=r.choice([0, 3]), leak=1)
        if k == 0: j = session_job(r, list(sess.OPS), 30, .15, d, opts=o, label='returned')
        elif k == 1: j = expjob([users(r), users(r)], d, o, label='returned')
        elif k == 2:
            s = sess.Sess(r, list(sess.OPS), .2)
            j = schedule(r, [a for a, _, _ in s.build(15)], d, o, fresh=.2, label='returned')
        else: j = program_job(r, d, label='returned', opts=o)
        if j: j.judge = returned
        return j

    def batch(self, k, r, tier):
        return retry(20, lambda: self.repeat(r)) + retry(8, lambda: self.erring(r)) + retry(14, lambda: self.returned(r))

    def directed_jobs(self):
        out = []
        for s in ['(() (vector 1 2 3))', '(() "text")', '(() (var x 1) (lambda () x))', '(() (cb-user 1))', '(() (concatenate "a" "b"))', '(() (make-vector 10 0))', '(() (defmacro m (x) (list (quote list) x)) (m 1))', '(() (make-instance (make-type) 1 2))',
                  '(() (var f (lambda (&rest a) a)) (f 1 2 3))', '(() (car 5))', '(() (var x 1) (global f (lambda () x)) (car 5))', '(() (comptime (list 1 2)))', '(() (quote (a b)))', '(() (substring "abc" 1 2))', '(() (symbol-string (quote abc)))']:
            for comp in (0, 1):
                ops = [] if comp else [('K 0', s.encode())]
                for _ in range(8): ops += [('L', s.encode()) if comp else ('X 0', None), ('G', None)]
                for d in ('drv_default', 'drv_portable'): out.append(Job([(d, runner.Case(ops, dict(MON, objs=500, cobjs=2000, gc=0, leak=1), meta=(8, 3)))], steady, 'directed', nontrivial=lambda rs: True))
        return out


# ------------------------------------------------------------------------------------------------ P14
def ends(res):
    """[(kind, fields, trace)] per source: kind is R or C."""
    out, cur = [], []
    for t, x in res.obs:
        if t == 'T': cur.append(x)
        elif t == 'R':
            out.append(('R', x.split(' ', 2), cur))
            cur = []
        elif t == 'C':
            out.append(('C', [x], cur))
            cur = []
    return out


def types(s): return re.sub(r'T(1[7-9]|[2-9]\d|\d{3,})', 'T*', s)


def contained(case, res):
    """Every source has its value or fails cleanly. case.meta: how many sources may fail, or None."""
    if res.status == 'crash': return 'the process died: ' + res.stderr[:1500]
    if res.monitors: return 'monitor: ' + '; '.join(res.monitors)
    if res.get('SOFTRESET'): return 'soft reset failed: ' + res.get('SOFTRESET')[0]
    if res.get('START'): return None
    es = ends(res)
    if len(es) != len(case.exp): return '%d of %d sources ended' % (len(es), len(case.exp))
    failed, some = 0, False
    for k, ((kind, f, tr), (e, et)) in enumerate(zip(es, case.exp)):
        if some: e, et, f, tr = (e[0], types(e[1])) if e[0] == 'V' else e, [types(x) for x in et], [types(x) for x in f], [types(x) for x in tr]  # The failed source made fewer types.
        if kind == 'C' or f[0] != '0':
            some = True
            if kind == 'R' and f[2] == 'BUDGET': return 'inconclusive'
            if e[0] == 'V': failed += 1
            if tr != et[:len(tr)]: return 'source %d showed %s before it failed, the reference has %s' % (k, tr[:6], et[:6])
            continue
        if e[0] == 'E': return 'source %d has a value, the reference has an error' % k
        if f[2] != e[1]: return 'source %d: value %s, the reference has %s' % (k, f[2][:200], e[1][:200])
        if tr != et: return 'source %d showed %s, the reference has %s' % (k, tr[:6], et[:6])
    if case.meta is not None and failed > case.meta: return '%d sources failed, one allocation did; %s' % (failed, ' '.join(res.get('E'))[:600])
    return None


def after(pre, jobs):
    """Jobs that depend on what a first execution measured."""
    by = {}
    for d, c, f in jobs: by.setdefault(d, []).append((c, f))
    out = []
    for d, l in by.items():
        for (c, f), x in zip(l, runner.run_batch(engine._exe[d], [c for c, _ in l])):
            if x.status == 'ok': out += [Job([(d, n)], contained, lab) for n, lab in f(c, x)]
    return out


class P14(Prop):
    id = 'P14'
    targets = [drv(c) for c in ANY]
    quick, thorough = 96, 4000
    rule = ('Sequences of independent sources are executed while one chosen allocation, or every allocation from a chosen one on, is refused (all positions from the first allocation of the compiler on are candidates), with heaps from one '
            'object upwards, memory pools too small for the work, and low depth limits; each source must show what the reference has or fail cleanly after a prefix of it, at most one source may fail for one refused '
            'allocation, and no memory error, broken invariant or failed reset may occur. Non-trivial: an allocation was refused or at least 8 VM instructions ran.')
    assumptions = [ASSUME_REF]

    def sources(self, r, n=None):
        """Sources that do not depend on each other."""
        while True:
            asts = []
            for _ in range(n or r.choice([2, 3, 5])):
                k = r.randrange(6)
                if k < 2: asts.append([[]] + gen.Gen(r, size=r.choice([5, 10, 25])).program())
                elif k == 2: asts.append([[]] + closgen.ClosGen(r, r.choice([8, 20])).program())
                elif k == 3: asts.append(users(r, 8))
                elif k == 4:
                    p = [[]] + gen.Gen(r, size=r.choice([5, 10]), stmts=dict(comp=0)).program()
                    asts.append((p, macrogen.Rewriter(r, p).run(r.choice([1, 3]))))
                else: asts.append([[], [I('list'), 1, Str(b'a'), [I('vector'), 1, [I('lambda'), [I('&rest'), I('x')], I('x')]], [I('quote'), [I('p'), [I('q')]]]]])
            # Names that one source leaves behind mean nothing in the next: every one defines what it uses.
            exp = evaluate([a[0] if isinstance(a, tuple) else a for a in asts])
            if exp is not None and all(e[0] == 'V' for e, _ in exp): return [text(a[1] if isinstance(a, tuple) else a) for a in asts], exp

    def faults(self, r):
        jobs = []
        for _ in range(6):
            src, exp = self.sources(r)
            d = 'drv_' + r.choice(ANY)
            o = dict(MON, objs=r.choice([400, 3000]), cobjs=6000, gc=r.choice([0, 0, 1, 5]), phase=r.choice([0, 1, 1, 1]))
            ops = [('L', s) for s in src]
            def make(c, x, o=o, ops=ops, exp=exp):
                n = int(x.stat['faultcount'])
                if n < 1: return []
                picks = [r.randint(1, n) for _ in range(8)] + [r.randint(1, min(n, 60)) for _ in range(2)]
                return ([(runner.Case(ops, dict(o, fault=k), exp, 1), 'one allocation refused') for k in picks] +
                        [(runner.Case(ops, dict(o, fault=k, sticky=1), exp), 'all allocations refused') for k in picks[:2]])
            jobs.append((d, runner.Case(ops, dict(o, fault=0)), make))
        return after(None, jobs)

    def small(self, r):
        out = []
        for _ in range(6):
            src, exp = self.sources(r)
            ops = [('L', s) for s in src]
            for _ in range(3):
                d = 'drv_' + r.choice(ANY)
                k = r.randrange(4)
                o = dict(MON, objs=3000, cobjs=6000, gc=r.choice([0, 0, 1]))
                if k == 0: o['objs'], lab = r.choice([1, 2, 3, 5, 8, 12, 20, 30, 60]), 'few objects'
                elif k == 1: o['cobjs'], lab = r.choice([1, 2, 5, 10, 12, 15, 20, 30, 60]), 'few objects in the compiler'
                elif k == 2: d, o['pool'], lab = 'drv_portable', r.choice([1, 100, 1000, 10000, 50000, 100000, 200000, 300000, 400000, 500000, 800000]), 'small pool'
                else: o[r.choice(['pdepth', 'gdepth'])], lab = r.choice([1, 2, 3, 5, 8, 20]), 'low depth limit'
                out.append(Job([(d, runner.Case(ops, o, exp))], contained, lab))
        return out

    HEAP = ['(() (var l ()) (while true (setq l (cons 1 l))))', '(() (var l ()) (while true (setq l (list l))))', '(() (var l 0) (while true (setq l (vector l 1))))', '(() (var f 0) (while true (var g f) (setq f (lambda () g))))',
            '(() (defun f (&rest a) (apply self (cons 1 a))) (f))', '(() (defun f (n) (cons n (self (cons n n)))) (f 0))', '(() (defmacro m (x) (while true (setq x (cons 1 x)))) (m 1))', '(() (var s 0) (while true (setq s (make-instance (make-type) s s))))',
            '(() (var u 0) (while true (setq u (cb-user u))))', '(() (var g ()) (defun f (n) (setq g (cons n g)) (self n)) (f 1))', '(() (defun f (g) (lambda () (funcall g))) (var h (lambda () 0)) (while true (setq h (f h))))']
    HUGE = ['(make-vector %d 0)' % n for n in (10 ** 12, 2 ** 60, 2 ** 61, 2 ** 61 + 1, 2 ** 62, 2 ** 62 + 7, 2 ** 63 - 1, 2 ** 61 + 2 ** 59)]
    POOL = ['(() (defun f (n) (+ 1 (self n))) (f 0))', '(() (var s "ab") (while true (setq s (concatenate s s))))', '(() (var v 0) (var n 1) (while true (setq n (* n 2)) (setq v (make-vector n v))))', '(() (defun f (n) (cb-call1 (lambda (x) x) (+ 1 (self n)))) (f 0))',
            '(() (defun f (n) (var l (list n)) (+ 1 (self l))) (comptime ()) (cb-call0 (lambda () (f 1))))', '(() (defmacro m (n) (defun f (n) (+ 1 (self n))) (f 0)) (m 1))', '(() (var s "x") (while true (setq s (concatenate (substring s 0 1) (concatenate s s)))))']

    def runaway(self, r):
        """Programs that need more than there is, among others that do not."""
        out = []
        for _ in range(3):
            src, exp = self.sources(r, 2)
            k = r.randrange(3)
            d, o = 'drv_' + r.choice(ANY), dict(MON, objs=3000, cobjs=6000, gc=0)
            if k == 0: bad = r.choice(self.HEAP)
            elif k == 1: bad = r.choice(self.HUGE)
            else: bad, d, o['pool'] = r.choice(self.POOL), 'drv_portable', r.choice([2000000, 4000000])
            e = ('E', ''), []
            out.append(Job([(d, runner.Case([('L', src[0]), ('L', bad.encode()), ('L', src[1])], o, [exp[0], e, exp[1]], 0))], contained, 'runaway'))
        return out

    def batch(self, k, r, tier):
        return self.faults(r) + self.small(r) + self.runaway(r) + self.brink(r)

    def directed_jobs(self):
        out = []
        good, e = '(() (emit 1) (list 1 2))', (('V', '(i1 i2)'), ['i1'])
        for bad in self.HEAP + self.HUGE + self.POOL:
            x = (('E', ''), [])
            out.append(Job([('drv_portable', runner.Case([('L', good.encode()), ('L', bad.encode()), ('L', good.encode())], dict(MON, objs=2000, cobjs=6000, pool=4000000), [e, x, e], 0))], contained, 'runaway'))
        # Every allocation of the compiler's and the VM's start, of a compilation and of an execution, refused in turn.
        for d in ('drv_default', 'drv_portable'):
            for k in list(range(1, 40)) + list(range(40, 1100, 23)): out.append(Job([(d, runner.Case([('L', good.encode())] * 3, dict(MON, objs=100, cobjs=3000, fault=k), [e] * 3, 1))], contained, 'start', nontrivial=lambda rs: True))
            s = '(() (defmacro m (x y) (list (quote list) x (quote (quote new-symbol)) "text")) (var v (vector 1 "a")) (defun f (x &rest y) (setq v x) (m x y)) (f 1 2) (emit (f 3)) (global a-global (lambda () v)) (symbol-string (quote ab)))'
            for k in range(1, 400, 3): out.append(Job([(d, runner.Case([('L', s.encode()), ('L', good.encode())], dict(MON, objs=100, cobjs=3000, fault=k, phase=1), None, 1))], contained, 'every allocation', nontrivial=lambda rs: True))
        # Global variables that could not be added may not disturb those that are added later.
        few = ['(() %s 0)' % ' '.join('(global c%d %d)' % (k, k) for k in range(n)) for n in (1, 2, 4, 8)]
        for n, s in zip((1, 2, 4, 8), few):
            src = [s, '(() (global d1 "d1") (global d2 "d2") (global d3 "d3") 0)', '(list d1 d2)', '(list d3)', '(list d2)', '(list c%d)' % (n - 1)]
            for k in range(1, 90 + 30 * n): out.append(Job([('drv_' + ANY[k % len(ANY)], runner.Case([('L', x.encode()) for x in src], dict(MON, objs=200, cobjs=3000, fault=k, phase=1), None, None))], contained, 'globals'))
        # Every operation that needs objects, with every number of objects from none to enough.
        out += [j for k, b in enumerate(self.EDGE) for j in self.edge([b], ANY[k % len(ANY)], (0, 1), range(1, 72))]
        return [j for j in out if self.expected(j)]

    _L = '(() (defun sum (l) (var s 0) (while l (setq s (+ (* s 3) (car l))) (setq l (cdr l))) s) '
    EDGE = [_L + '(defun f (&rest a) (sum a)) (list (f 1 2 3 4 5 6 7 8) (f) (f 1)))', _L + '(defun f (a b &rest c) (+ a (+ b (sum c)))) (f (f 1 2 3) 4 5 (f 1 2) 7))', _L + '(defun f (a &rest c) (+ a (sum c))) (apply f (list 1 2 3 4 5 6 7)))',
            _L + '(var f (lambda (&rest c) (sum c))) (funcall f 9 8 7 (apply f (list 1 2 3 4)) 5))', _L + '(defun f (&rest c) (emit (sum c)) (if c (apply self (cdr c)) 0)) (f 1 2 3 4 5))', _L + '(emit (apply cb-sub (list 9 4))) (sum (cb-call3 (lambda (&rest l) l) 1 2 3)))',
            _L + '(sum (list 1 2 3 4 5 (sum (list 6 7 8)) 9 10)))', _L + '(var v (vector 1 2 3 4 5 6)) (var l ()) (while v (setq l (cons (car v) l)) (setq v (cdr v))) (sum l))', '(() (var v (vector (list 1 2) (vector 3 "a") (lambda (x) x))) (list (get-vector-element v 0) (funcall (get-vector-element v 2) 8)))',
            '(() (var v (make-vector 9 (list 1))) (set-vector-element v 3 (vector 1 2)) (list (get-vector-element v 3) (get-vector-element v 8)))', '(() (var s (concatenate (concatenate "ab" "cd") (substring "efgh" 1 3))) (list s (length s) (make-string (list 65 66)) (concatenate s s)))',
            '(() (var t (make-type)) (var c (make-instance t (list 1) (lambda (x) (list x 2)))) (set-composite-value c (vector 1 2)) (list (funcall c 5) (composite-value c)))',
            '(() (defun counter (n) (lambda (d) (setq n (+ n d)) (list n d))) (var a (counter 1)) (var b (counter 10)) (list (funcall a 1) (funcall b 2) (funcall a 3)))',
            '(() (var fs ()) (var i 0) (while (< i 4) (var j i) (setq fs (cons (lambda () (setq j (+ j 1)) j) fs)) (setq i (+ i 1))) (list (funcall (car fs)) (funcall (car (cdr fs))) (funcall (car fs))))',
            '(() (defun a (x) (lambda (y) (lambda (z) (list x y z)))) (funcall (funcall (a 1) "two") (list 3)))', '(() (defun f (n) (var m (list n)) (if (= n 0) (lambda () m) (() (var g (self (- n 1))) (lambda () (cons m (funcall g)))))) (funcall (f 3)))',
            '(list (quote new-symbol) (symbol-string (quote other-symbol)) (quote (a (b "c") 1.5)) (symbol-string (quote a)))', '(() (global edge-g (list 1 2)) (global edge-h (vector 3 edge-g)) (setq edge-g (lambda () edge-h)) (list (funcall edge-g) edge-h))',
            '(() (var l (list 1 2 3)) (set-car l (list 4 5)) (set-cdr (cdr l) (list 6)) (var v (vector 1 2)) (set-car v "x") (list l v (cdr v)))', '(() (defmacro m (&rest a) (cons (quote list) (cons "m" a))) (defmacro n (x y) (list (quote m) x (list (quote vector) y y))) (list (m 1 2 3) (n 4 5)))', '(() (comptime (() (global edge-c (list 1 2 "three" (lambda () (quote four)))) 0)) (comptime (list (length "abc") (list (funcall (car (cdr (cdr (cdr edge-c)))))))) 5)', '(cb-call2 (lambda (a &rest b) (list a b)) (list 1) (cb-call1 (lambda (&rest x) x) 5))']

    EXPANDED = {x: y for x in EDGE for m, y in (('defmacro', '(list (list "m" 1 2 3) (list "m" 4 (vector 5 5)))'), ('comptime', '5')) if m in x}

    def edge(self, srcs, config, gcs=(0, 1), objects=range(1, 60)):
        known = [self.EXPANDED.get(x, x) for x in srcs]
        exp = evaluate([read(x) for x in known])
        if exp is None: return []
        ops = [('L', x.encode()) for x in srcs]
        jobs = [Job([('drv_' + config, runner.Case(ops, dict(MON, objs=n, cobjs=3000, gc=g), exp))], contained, 'edge of the heap') for g in gcs for n in objects]
        if any(m in x for x in srcs for m in ('macro', 'comptime')): jobs += [Job([('drv_' + config, runner.Case(ops, dict(MON, objs=900, cobjs=n, gc=g), exp))], contained, "edge of the compiler's heap") for g in gcs for n in objects]
        return jobs

    def brink(self, r):
        """A random source with every number of objects around the least that it needs."""
        while True:
            src, exp = self.sources(r, 1)
            if len(src[0]) < 1500: break
        d, g = 'drv_' + r.choice(ANY), r.choice([0, 1])
        case = lambda n: runner.Case([('L', src[0])], dict(MON, objs=n, cobjs=6000, gc=g), exp)
        sizes = list(range(2, 400, 9))
        enough = 400
        for n, x in zip(sizes, runner.run_batch(engine._exe[d], [case(n) for n in sizes])):
            if x.get('R') and x.get('R')[-1].startswith('0 '): enough = n; break
        return [Job([(d, case(n))], contained, 'brink of the heap') for n in range(max(1, enough - 18), enough + 2)]

    def expected(self, j):
        c = j.runs[0][1]
        if c.exp is None: c.exp = evaluate([read(b.decode().replace('(m x y)', "(list x (quote new-symbol) \"text\")").replace('(defmacro m (x y) (list (quote list) x (quote (quote new-symbol)) "text"))', '')) for _, b in c.ops])
        return c.exp is not None


# ------------------------------------------------------------------------------------------------ P15
def survives(case, res):
    """Expectations V, E (runtime error) and C (refused by the compiler) per source; the stack is looked at by the driver."""
    b = judge.broken(res)
    if b: return b
    es = ends(res)
    if len(es) != len(case.exp): return '%d of %d sources ended' % (len(es), len(case.exp))
    for k, ((kind, f, tr), (e, et)) in enumerate(zip(es, case.exp)):
        if kind == 'R' and f[2] == 'BUDGET': return 'source %d did not end within the instruction budget' % k
        if tr != et: return 'source %d showed %s, the reference has %s' % (k, [x[:120] for x in tr[-4:]], [x[:120] for x in et[-4:]])
        got = 'C' if kind == 'C' else 'V' if f[0] == '0' else 'E'
        if got != e[0]: return 'source %d ended with %s, the reference has %s' % (k, ' '.join(f)[:300], ' '.join(e)[:300])
        if got == 'V' and f[2] != e[1]: return 'source %d: value %s, the reference has %s' % (k, f[2][:300], e[1][:300])
    return None


def q(s): return read(s)


BOMBS = ['(car 5)', '(cb-fail 1)', '(list undefined-variable)', '(undefined-function 1)', '(funcall 5)', '(apply (lambda (a) a) 3)', '(funcall (lambda (a) a))', '(+ 1 "x")', '(get-vector-element (vector 1 2) 2)', '(get-vector-element (vector 1 2) -1)', '(set-vector-element (vector 1) 1 0)',
         '(/ 1 0)', '(< "a" 1)', '(composite-value 1)', '(set-composite-function (vector 1) 1)', '(substring "abc" 2 1)', '(make-vector -1 0)', '(symbol-string 5)', '(length 5)', '(concatenate 1 "a")', '(make-string 5)', '(make-instance 1 2 3)', '(cdr (quote a))', '(set-car () 1)',
         '(cb-call1 (lambda () 1) 2)', '(cb-call0 5)', '(cb-sub 1 "x")', '(funcall (make-instance (make-type) 1 2))', '(apply (lambda (a &rest b) b) ())', '(set-cdr (vector 1) 5)', '(cb-call2 (lambda (x y) (car x)) 1 2)', '(apply cb-sub (list 1 (quote a)))']


class Chain:
    """An error below many kinds of frames."""
    def __init__(self, r): self.r, self.n, self.names = r, 0, []

    def name(self, p):
        self.n += 1
        return '%s%d' % (p, self.n)

    def wrap(self, e):
        r = self.r
        k = r.randrange(24)
        a, b = self.name('p'), self.name('p')
        s = {0: '(funcall (lambda (A) E) 3)', 1: '(funcall (lambda (A B) (var t A) (list A E t)) 1 "x")', 2: '(apply (lambda (A B) E) (list 1 2))', 3: '(apply (lambda (A &rest B) (cons E B)) 1 2 (list 3))', 4: '(cb-call0 (lambda () E))',
             5: '(cb-call2 (lambda (A B) E) 1 (list 2))', 6: '(() (defun A (B) (emit B) E) (A 4))', 7: '(funcall (make-instance (make-type) 0 (lambda (A) (list A E))) 2)', 8: '(list 1 E 2)', 9: '(vector (list 1) E (vector 2))', 10: '(() (var A 5) (funcall (lambda () (setq A (+ A 1)) E)))',
             11: '(if E 1 2)', 12: '(if true E 0)', 13: '(() (var A 0) (while (< A 3) (setq A (+ A 1)) (emit A) E))', 14: '(when 1 (emit 7) E)', 15: '(unless false E)', 16: '(() (var A E) A)', 17: '(() (setq ga E) 3)', 18: '(() (var A 10) (setq gf (lambda () (setq A (+ A 1)) A)) (list A E))',
             19: '(() (defun A (n) (if (< n 1) E (self (- n 1)))) (A 12))', 20: '(() (defun A (n) (if (< n 1) E (cons n (self (- n 1))))) (A 6))', 21: '(() (var A (list 1 2)) (setq gl (cons 1 gl)) (funcall (lambda (B) (setq gf (lambda () (cons A B))) E) 8))',
             22: '(cb-call1 (lambda (A) (cb-call1 (lambda (B) (emit (list A B)) E) (+ A 1))) 1)', 23: '(car (cons E (list 1)))'}[k]
        def sub(x):
            if isinstance(x, list): return [sub(y) for y in x]
            if isinstance(x, Id): return e if x.name == 'E' else I(a) if x.name == 'A' else I(b) if x.name == 'B' else x
            return x
        return sub(q(s))

    def build(self, depth, bomb):
        e = bomb
        for _ in range(depth): e = self.wrap(e)
        return e


class P15(Prop):
    id = 'P15'
    targets = [drv(c) for c in ANY]
    quick, thorough = 40, 3000
    rule = ('Errors of every kind are placed below up to 30 frames of every kind (calls, applies, callbacks that call back, composites, recursion, arguments, loops, assignments, macros), every operation is given values of every type in every '
            'argument, sessions apply operations to wrong values, and programs fail at random points; what was shown before each error, that it ends this source, and everything that the following sources find (globals, '
            'closures over variables of abandoned frames, macros) is compared with the reference, with and without a reset between sources. Non-trivial: at least 8 VM instructions.')
    assumptions = [ASSUME_REF]

    SETUP = ['(() (global ga 1) (global gf (lambda () 0)) (global gl ()))']

    def opts(self, r):
        return dict(MON, objs=r.choice([1500, 6000]), cobjs=6000, gc=r.choice([0, 0, 1, 3, 20]), noreset=r.choice([0, 0, 1]))

    def chains(self, r):
        asts = [q(s) for s in self.SETUP]
        for _ in range(r.choice([2, 5, 9])):
            bomb = q(r.choice(BOMBS)) if r.random() < .85 else r.choice([5, [I('emit'), 1], [I('list'), 1, 2]])
            e = Chain(r).build(r.choice([0, 1, 2, 4, 8, 16, 30]), bomb)
            if r.random() < .3: e = Chain(r).build(r.choice([1, 2, 5]), [I('list'), e, Chain(r).build(2, q(r.choice(BOMBS)))])
            asts.append([[], e])
            asts.append(q(r.choice(['(() (emit ga) (emit gl) (emit (funcall gf)) (list (funcall gf)))', '(list ga gl)', '(() (defun h (n) (if (< n 1) gl (self (- n 1)))) (emit (h 5)) (emit (funcall gf)) (cb-call0 gf))'])))
            if r.random() < .3: asts.append([[]] + gen.Gen(r, size=10).program())
        exp = evaluate(asts)
        if exp is None: return None
        return Job([('drv_' + r.choice(ANY), runner.Case([('L', text(a)) for a in asts], self.opts(r), exp))], survives, 'chain')

    def comptime(self, r):
        """The same at compile time: the source is refused, and the next one works."""
        m = ref.Machine()
        ops, exp = [], []
        for s in ('(() (comptime (() (global ga 1) (global gf (lambda () 0)) (global gl ()) 0)) 1)',):
            ops.append(('L', s.encode()))
            exp.append((('V', 'i1'), []))
        for _ in range(r.choice([2, 4])):
            bad = r.random() < .8
            e = Chain(r).build(r.choice([0, 1, 3, 8]), q(r.choice(BOMBS)) if bad else 7)
            ref_ = ref.Machine()
            pre = evaluate([q(self.SETUP[0]), [[], e]], ref_)
            if pre is None: return None
            v = pre[1][0]
            src = r.choice([lambda: [[], [I('comptime'), [[], e, 0]], 1], lambda: [[], [I('defmacro'), I('m'), [I('x')], e, 1], [I('m'), 2]], lambda: [[], [I('emit'), [[], [I('comptime'), [[], e, 1]]]]]])()
            ops.append(('L', text(src)))
            tr = ['i1'] if src[1][0].name == 'emit' and v[0] == 'V' else []
            exp.append((('V', 'i1') if v[0] == 'V' else ('C', v[1]), tr))
            p = r.choice([lambda: q('(() (defmacro m (x) (list (quote list) x x)) (emit (m 3)) (m (m 1)))'), lambda: [[]] + gen.Gen(r, size=15).program(), lambda: q('(() (defmacro k () (list (quote quote) (comptime (list 1 2)))) (k))')])()
            if p[1] and isinstance(p[1], list) and isinstance(p[1][0], Id) and p[1][0].name == 'defmacro':
                ops.append(('L', text(p)))
                exp.append((('V', '((i1 i1) (i1 i1))'), ['(i3 i3)']) if p[1][1].name == 'm' else (('V', '(i1 i2)'), []))
            else:
                x = evaluate([p])
                if x is None: return None
                ops.append(('L', text(p)))
                exp.append(x[0])
        return Job([('drv_' + r.choice(ANY), runner.Case(ops, self.opts(r), exp))], survives, 'compile time')

    KINDS = ['3', '-1', '2.5', 'true', 'false', '"ab"', '""', '(quote s)', '()', '(list 1 2)', '(cons 1 2)', '(vector 1 2)', '(lambda (x) x)', 'emit', '(type-of 1)', '(make-type)', '(make-instance (make-type) 1 (lambda (x) x))', '(cb-user 1)', '(cdr (vector 1))', '0']

    def matrix_sources(self):
        ops = sorted({(o, len(k)) for g in sess.OPS.values() for o, k in g if not o.startswith('cb-call')})
        out = []
        for o, n in ops:
            if n == 0 or n > 3: continue
            if n < 3:
                import itertools
                out += [(o, c) for c in itertools.product(self.KINDS, repeat=n)]
            else: out.append((o, None))
        return out

    def matrix(self, r):
        """Operations on values of all types."""
        if not hasattr(P15, '_matrix'): P15._matrix = self.matrix_sources()
        asts, exp, m = [], [], ref.Machine()
        for o, c in r.sample(P15._matrix, min(60, len(P15._matrix))):
            if c is None: c = [r.choice(self.KINDS) for _ in range(3)]
            f = [I(o)] + [q(x) for x in c]
            if r.random() < .5:
                f = [I('funcall'), [I('lambda'), [I('a%d' % i) for i in range(len(c))], [I(o)] + [I('a%d' % i) for i in range(len(c))]]] + f[1:]
            a = [[], [I('emit'), f]] if r.random() < .6 else [[], f, [I('emit'), 1]]
            n = m.nextType
            e = evaluate([a], m)
            if e is None:
                m = m  # Not specified: not run. Types that it made on the reference are unmade.
                m.nextType = n
                continue
            asts.append(a)
            exp.append(e[0])
        return Job([('drv_' + r.choice(ANY), runner.Case([('L', text(a)) for a in asts], self.opts(r), exp))], survives, 'types')

    def session(self, r):
        j = session_job(r, list(sess.OPS), 40, r.choice([.3, .5]), 'drv_' + r.choice(ANY), opts=self.opts(r), label='session')
        if j: j.judge = survives
        return j

    def programs(self, r):
        asts = []
        for _ in range(r.choice([2, 4])):
            k = r.randrange(3)
            if k < 2: asts.append([[]] + gen.Gen(r, size=r.choice([10, 30, 60]), errors=r.choice([.02, .05, .2])).program())
            else: asts.append([[]] + closgen.ClosGen(r, r.choice([15, 30])).program())
        exp = evaluate(asts)
        if exp is None: return None
        return Job([('drv_' + r.choice(ANY), runner.Case([('L', text(a)) for a in asts], self.opts(r), exp))], survives, 'failing programs')

    def batch(self, k, r, tier):
        return retry(24, lambda: self.chains(r)) + retry(8, lambda: self.comptime(r)) + [self.matrix(r) for _ in range(8)] + retry(8, lambda: self.session(r)) + retry(10, lambda: self.programs(r))

    def directed_jobs(self):
        out = []
        good = '(() (emit (list ga gl)) (defun h (n) (if (< n 1) (funcall gf) (self (- n 1)))) (h 3))'
        for noreset in (0, 1):
            for w in ['B', '(list 1 B)', '(cb-call1 (lambda (x) (cb-call1 (lambda (y) B) 2)) 1)', '(() (defun f (n) (if (< n 1) B (+ 1 (self (- n 1))))) (f 40))', '(apply (lambda (&rest x) B) (list 1 2 3))', '(() (var x (list 1 2)) (setq gf (lambda () x)) (funcall (lambda () B)))']:
                srcs = [self.SETUP[0]]
                for b in BOMBS: srcs += ['(() %s)' % w.replace('B', b), good]
                asts = [q(s) for s in srcs]
                exp = evaluate(asts)
                assert exp, w
                for d in ('drv_default', 'drv_noopt'): out.append(Job([(d, runner.Case([('L', s.encode()) for s in srcs], dict(MON, objs=3000, gc=1, noreset=noreset), exp))], survives, 'directed'))
        return out


def flat(a):
    if isinstance(a, list):
        for x in a: yield from flat(x)
    else: yield a
