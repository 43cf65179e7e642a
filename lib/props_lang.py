"""Properties of the language: what programs mean, decided by comparing every observation with the reference evaluator."""
import random
import build, closgen, engine, gen, judge, ref, runner, sess, syntax
from engine import Job, Prop
from syntax import Id, Flt, Int, Str, read, text


def drv(c): return ('drv_' + c, 'drv.c', c, 'asan', True, True)


MON = dict(poison=1, check=1)


def evaluate(asts, m=None):
    """Expectations of a sequence of sources, or None if one of them leaves the specified language."""
    m = m or ref.Machine()
    exp = []
    for a in asts:
        t = len(m.trace)
        try:
            r = ref.run_program(a, m)
            if r[0] == 'V': r = ('V', ref.show(r[1]))
        except ref.Discard:
            return None
        exp.append((r, m.trace[t:]))
    return exp


def expjob(asts, drivers, opts, rng=None, label='', exp=None, texts=None):
    """Job that runs sources and compares with the reference. drivers: one or several."""
    exp = exp or evaluate(asts)
    if exp is None: return None
    ops = [('L', t) for t in (texts or [text(a, rng) for a in asts])]
    runs = [(d, runner.Case(ops, o, exp)) for d, o in drivers_opts(drivers, opts)]
    if len(runs) == 1: return Job(runs, judge.units, label, ends=True)
    return Job(runs, all_units, label, ends=True)


def drivers_opts(drivers, opts):
    ds = [drivers] if isinstance(drivers, str) else drivers
    os_ = opts if isinstance(opts, list) else [opts] * len(ds)
    if isinstance(drivers, str) and isinstance(opts, list): ds = [drivers] * len(opts)
    return list(zip(ds, os_))


def all_units(cases, results):
    for k, (c, r) in enumerate(zip(cases, results)):
        v = judge.units(c, r)
        if v: return 'execution %d: %s' % (k, v)
    return None


def directed(lists, drivers='drv_default', opts=None, label='directed'):
    """lists: each a list of source texts (or one text). The reference supplies the expectation."""
    jobs = []
    for l in lists:
        l = [l] if isinstance(l, str) else l
        asts = [read(s) for s in l]
        j = expjob(asts, drivers, opts or dict(MON, gc=1, objs=2000), texts=[s.encode('latin-1') for s in l], label=label)
        assert j is not None, l
        jobs.append(j)
    return jobs


def retry(n, f):
    """n jobs from f, which may return None for programs that are not specified."""
    out = []
    for _ in range(8 * n):
        if len(out) >= n: break
        j = f()
        if j is not None: out.append(j)
    return out


def gcopts(r, **kw):
    return dict(MON, objs=r.choice([3000, 5000]), gc=r.choice([0, 1, 2, 3, 7, 50]), **kw)


def program_job(r, drivers='drv_default', label='program', size=None, errors=None, opts=None, **kw):
    g = gen.Gen(r, size=size or r.choice([10, 30, 60, 120]), errors=r.choice([0, 0, 0, 0.01]) if errors is None else errors, **kw)
    p = [[]] + g.program()
    return expjob([p], drivers, opts or gcopts(r), r if r.random() < .4 else None, label)


def session_job(r, groups, steps=40, wrong=0.12, drivers='drv_default', label='session', opts=None):
    s = sess.Sess(r, groups, wrong)
    u = s.build(steps)
    exp = [(e, t) for _, e, t in u]
    return expjob([a for a, _, _ in u], drivers, opts or gcopts(r), None, label, exp=exp)


def closure_job(r, drivers='drv_default', label='closures', opts=None):
    p = [[]] + closgen.ClosGen(r, r.choice([15, 30, 60])).program()
    return expjob([p], drivers, opts or gcopts(r), r if r.random() < .3 else None, label)


ASSUME_REF = ('The reference evaluator in lib/ref.py states what docs/language.md and docs/language-reference.md define; programs that leave the '
              'specified part (integer overflow, float division by zero, string mutation, equality of functions) are not generated or are dropped.')


# ------------------------------------------------------------------------------------------------ P01
class P01(Prop):
    id = 'P01'
    targets = [drv('default'), ('plain_default', 'drv.c', 'default', 'plain', True, True)]
    quick, thorough = 48, 1600
    rule = ('Random well-typed programs (8 to 120 expressions over all operators, scopes, conditionals, loops, functions, globals) and sessions of '
            'arithmetic and comparison on literals and globals, half of them with varied whitespace and comments, are compiled and run under ASan/UBSan; every '
            'emitted value and the final value are compared with the reference. Non-trivial: at least 8 VM instructions were executed.')
    assumptions = [ASSUME_REF]

    def batch(self, k, r, tier):
        return (retry(26, lambda: program_job(r)) + retry(12, lambda: session_job(r, ['arith'], 40)) +
                retry(14, lambda: program_job(r, label='operators', size=60, types=['I', 'I', 'F', 'B'], stmts=dict(fn=0, loop=0, comp=0, setcons=0, setvec=0, glob=0))) +
                retry(14, lambda: program_job(r, label='control flow', size=80, types=['I', 'I', 'B', 'L'], emit=.3, stmts=dict(when=6, iff=6, loop=4, noscope=4, comp=0))) +
                self.division(r))

    def division(self, r):
        """Every sign combination and operand kind of the arithmetic operators, on constants and on variables."""
        out = []
        for _ in range(6):
            vals = [r.choice([0, 1, -1, 2, -3, 7, -7, 100, -128, 127, 255, 256, 65536, -65536, 2**31, -2**31, 2**40 + 1]) for _ in range(6)]
            fl = [Flt(x) for x in ('0.5', '-2.0', '3.25', '1.0', '0.0')]
            body = [[]]
            for op in '+-*/<>=':
                for _ in range(5):
                    a = r.choice(vals + fl + [True, False])
                    b = r.choice(vals + fl + [True, False])
                    if op == '/' and (b == 0 or isinstance(b, bool) or (isinstance(b, Flt) and b.value == 0)): b = 3
                    if isinstance(a, bool) and isinstance(b, bool): a = 1
                    e = [Id(op), a, b]
                    q = r.randrange(4)
                    if q == 1: e = [[], [Id('var'), Id('a'), a], [Id(op), Id('a'), b]]
                    elif q == 2: e = [[], [Id('var'), Id('b'), b], [Id(op), a, Id('b')]]
                    elif q == 3: e = [Id('funcall'), [Id('lambda'), [Id('a'), Id('b')], [Id(op), Id('a'), Id('b')]], a, b]
                    body.append([Id('emit'), e])
            j = expjob([body], 'drv_default', gcopts(r), None, 'operator table')
            if j: out.append(j)
        return out

    NUMBERS = [True, False, 0, 1, -1, 2, -2, 3, 7, -7, Flt('0.0'), Flt('-0.5'), Flt('0.5'), Flt('1.0'), Flt('-1.5'), Flt('2.0'), Flt('2.5'), Flt('-7.25')]
    OTHERS = [Str(b''), Str(b'a'), [], [Id('list'), 1], [Id('quote'), Id('q')], [Id('vector'), 1], [Id('make-type')], [Id('lambda'), [], 1], Id('emit')]

    def widths(self, op, n, values):
        """An operator on every pair of values, which lie n places down the stack: the machine has code for each kind of operand and each width of its address."""
        names = [Id('n%d' % i) for i in range(len(values))]
        good, bad = [], []
        for a, x in enumerate(values):
            for b, y in enumerate(values):
                e = evaluate([[[], [Id('var'), Id('a'), x], [Id('var'), Id('b'), y], [Id(op), Id('a'), Id('b')]]])
                if e is None: continue
                (bad if e[0][0][0] == 'E' else good).append([Id(op), names[a], names[b]])
        binds = [[Id('var'), m, v] for m, v in zip(names, values)]
        def deep(body): return [[]] + binds + [[Id('get-vector-element'), [Id('vector'), [[]] + body] + [0] * n, 0]] if n else [[]] + binds + body
        opts = dict(MON, gc=0, objs=200000, cobjs=5000, pool=(1 << 30))
        d = 'plain_default' if n > 1000 else 'drv_default'
        out = [[[Id('emit'), f] for f in good[i:i + 100]] + [0] for i in range(0, len(good), 100)], [[f] for f in (bad if n < 1000 else bad[::9])]
        exp = lambda b: evaluate([[[]] + binds + b])[0]  # Padding changes nothing.
        return [expjob([deep(b) for b in l], d, opts, None, 'operand kinds and widths', [exp(b) for b in l]) for l in out if l]

    def directed_jobs(self):
        return [j for op in '+-*/<>=' for n in (0, 300, 65600) for j in self.widths(op, n, self.NUMBERS + self.OTHERS[:9 if op == '=' or n < 1000 else 2])] + directed([
            '(() (+ 1 2))', '(() (/ 7 0))', ['(() (/ 1 0))', '(() (+ 1 1))'], '(() (if "" 1 2))', '(() (var s "") (if s 1 2))', '(() (var s "x") (when s 3))',
            '(() (not ""))', '(() (var v (vector 1 2)) (set-cdr v ()) (not (cdr v)))', '(() (/ -7 2))', '(() (/ 7 -2))', '(() (var i 0) (while (< i 300) (setq i (+ i 1))) i)',
            '(() (unless false 1))', '(() (unless true 1))', '(() (when false 1))', '(() (if () 1 2))', '(() (if 0.0 1 2))', '(() (if 0 1 2))',
            '(() (= 1 1.0))', '(() (= "a" "a"))', '(() (= (quote a) (quote a)))', '(() (= (list 1) (list 1)))', '(() (noscope (var x 1) (var y 2)) (+ x y))',
            ['(global x 5)', '(() (setq x (+ x 1)))', '(() x)'], ['(global g0 0)'] + ['(() (var a 1) (var b 2) (setq g0 (+ g0 (+ a b))) g0)'] * 3,
            ['(() ' + ' '.join('(var a%d %d)' % (i, i) for i in range(40)) + ' (global h 3) (setq h 9) (emit h) (list a0 a9 a10 a11 a39 h))', '(() h)'],
        ])


# ------------------------------------------------------------------------------------------------ P02
class P02(Prop):
    id = 'P02'
    targets = [drv('default')]
    quick, thorough = 48, 1600
    rule = ('Random programs in which functions capture, share, outlive and assign variables: loops that make one closure per iteration, recursion that leaves closures '
            'behind, closures that return closures, shadowing, reassigned function variables, lists of closures over the same variables; every emitted number is '
            'compared with an evaluator that binds names lexically. Non-trivial: at least 8 VM instructions.')
    assumptions = [ASSUME_REF]

    def batch(self, k, r, tier):
        return (retry(90, lambda: closure_job(r)) +
                retry(10, lambda: program_job(r, label='functions', size=100, types=['I', 'I', 'B', 'L'], stmts=dict(fn=8, callw=5, setq=6, loop=2, comp=0))) +
                retry(10, lambda: self.interleaved(r)))

    def interleaved(self, r):
        """Closures kept in globals are called from later sources, with errors in between."""
        n = r.randint(1, 4)
        vs = [Id('c%d' % i) for i in range(n)]
        units = [[[]] + [[Id('var'), v, r.randint(0, 9)] for v in vs] +
                 [[Id('global'), Id('get%d' % i), [Id('lambda'), [], v]] for i, v in enumerate(vs)] +
                 [[Id('global'), Id('put%d' % i), [Id('lambda'), [Id('x')], [Id('setq'), v, [Id('+'), v, Id('x')]]]] for i, v in enumerate(vs)] +
                 ([[Id('car'), 1]] if r.random() < .3 else []) + [0]]
        for _ in range(r.randint(3, 12)):
            i = r.randrange(n)
            k = r.randrange(4)
            c = [Id('get%d' % i)] if k < 2 else [Id('put%d' % i), r.randint(-5, 5)]
            pad = [[Id('var'), Id('p%d' % j), 1000 + j] for j in range(r.choice([0, 0, 2, 5]))]
            tail = [[Id('cdr'), 5]] if r.random() < .2 else []
            units.append([[]] + pad + [[Id('emit'), c]] + tail + [0])
        return expjob(units, 'drv_default', gcopts(r), None, 'closures across sources')

    def directed_jobs(self):
        return directed([
            '(() (var f ()) (() (var x 1) (setq f (lambda () (setq x (+ x 1))))) (emit (funcall f)) (emit (funcall f)))',
            '(() (var l ()) (var i 0) (while (< i 3) (var x i) (setq l (cons (lambda () (setq x (+ x 10))) l)) (setq i (+ i 1))) (emit (funcall (car l))) (emit (funcall (car l))) (emit (funcall (car (cdr l)))) (funcall (car (cdr (cdr l)))))',
            ['(() (var x 1) (global f (lambda () x)) (setq x 2) (car 1))', '(() (var a 77) (var b 78) (var c 79) (funcall f))'],
            ['(() (var x 1) (global f (lambda () (setq x (+ x 1)))) (global g (lambda () x)) (funcall f))', '(() (var a 77) (f) (g))'],
            '(() (var t (make-type)) (var c (make-instance t 0 0)) (() (var x 5) (set-composite-function c (lambda () (set-composite-function c (lambda () 1)) (cb-gc) x))) (emit (funcall c)) (funcall c))',
            '(() (defun mk (n) (lambda () (setq n (+ n 1)))) (var a (mk 1)) (var b (mk 10)) (emit (funcall a)) (emit (funcall b)) (emit (funcall a)) (funcall b))',
            '(() (defun f (n) (if (< n 1) (list 0) (cons n (self (- n 1))))) (f 5))',
            '(() (var x 1) (defun f () x) (() (var x 2) (emit (f)) x))',
            '(() (defun f (a) (lambda (b) (lambda (c) (list a b c)))) (funcall (funcall (f 1) 2) 3))',
        ])


# ------------------------------------------------------------------------------------------------ P03
class P03(Prop):
    id = 'P03'
    targets = [drv('default')]
    quick, thorough = 48, 1600
    rule = ('Histories of 40 to 60 sequence operations (construction, element access, mutation, slicing, length, conversion, comparison) applied to lists, vectors and '
            'strings that are shared between globals, locals, upvalues and other sequences, with valid, boundary and invalid indices and arguments of the wrong type; every '
            'value or error is compared with the reference. Non-trivial: at least 8 VM instructions.')
    assumptions = [ASSUME_REF]

    def batch(self, k, r, tier):
        j = []
        for g in (['list'], ['vector'], ['string'], ['list', 'vector', 'string']):
            j += retry(7, lambda: session_job(r, g, r.choice([40, 60])))
        j += retry(12, lambda: program_job(r, label='sequence programs', size=100, types=['L', 'V', 'S', 'I'], stmts=dict(setcons=5, setvec=5, comp=0, fn=1)))
        return j + retry(8, lambda: self.slices(r)) + retry(8, lambda: self.aliased(r)) + retry(3, lambda: self.rho(r)) + retry(2, lambda: self.large(r))

    def slices(self, r):
        """Chains of substring, CDR and concatenation of one string, and all its elements."""
        b = bytes(r.choice(b'abcdefghij\x00\xff"\\\n') for _ in range(r.randint(0, 12)))
        body, cur, n = [[], [Id('var'), Id('s0'), Str(b)]], b, 0
        for _ in range(r.randint(2, 10)):
            k = r.randrange(5)
            v = Id('s%d' % n)
            if k < 2:
                i = r.randint(0, len(cur)); j = r.randint(i, len(cur))
                e, cur2 = [Id('substring'), v, i, j], cur[i:j]
            elif k == 2: e, cur2 = [Id('cdr'), v], cur[1:]
            elif k == 3: e, cur2 = [Id('concatenate'), v, v], cur + cur
            else: e, cur2 = [Id('concatenate'), v, [Id('cdr'), v]], cur + cur[1:]
            if len(cur2) > 300: continue
            n += 1
            body.append([Id('var'), Id('s%d' % n), e])
            body.append([Id('emit'), [Id('length'), Id('s%d' % n)]])
            cur = cur2
            if cur and r.random() < .5: body.append([Id('emit'), [Id('get-vector-element'), Id('s%d' % n), r.randrange(len(cur))]])
        body.append([Id('list')] + [Id('s%d' % i) for i in range(n + 1)])
        return expjob([body], 'drv_default', gcopts(r), None, 'slices')

    def aliased(self, r):
        """Several views of one vector, writes through one and reads through all."""
        n = r.randint(1, 6)
        body = [[], [Id('var'), Id('v0'), [Id('vector')] + [r.randint(0, 9) for _ in range(n)]]]
        lens, bases = [n], 1
        for _ in range(r.randint(3, 12)):
            i = r.randrange(bases)
            v = Id('v%d' % i)
            k = r.randrange(6)
            if k == 0 and bases < 8:
                body.append([Id('var'), Id('v%d' % bases), [Id('cdr'), v]])
                bases += 1
            elif k == 1: body.append([Id('when'), [Id('<'), 0, [Id('length'), v]], [Id('set-vector-element'), v, 0, r.randint(100, 200)]])
            elif k == 2: body.append([Id('when'), [Id('<'), 1, [Id('length'), v]], [Id('set-vector-element'), v, 1, r.randint(100, 200)]])
            elif k == 3 and r.random() < .4: body.append([Id('when'), [Id('<'), 0, [Id('length'), v]], [Id('set-cdr'), v, []]])
            elif k == 4: body.append([Id('emit'), [Id('list')] + [[Id('length'), Id('v%d' % q)] for q in range(bases)]])
            else: body.append([Id('emit'), [Id('list')] + [Id('v%d' % q) for q in range(bases)]])
        body.append([Id('list')] + [Id('v%d' % q) for q in range(bases)])
        return expjob([body], 'drv_default', gcopts(r), None, 'aliases')

    def large(self, r):
        """Strings, vectors and lists around the sizes at which a narrower counter would overflow."""
        n = r.choice([127, 128, 255, 256, 257, 32767, 32768, 32769, 65535, 65536, 65537, r.randint(1000, 70000)])
        kind = r.choice(['string', 'string', 'vector', 'vector', 'list'])
        j = [r.randrange(n) for _ in range(3)] + [n - 1, n - 2, r.choice([i for i in (126, 127, 128, 255, 256, 32768, 65535) if i < n])]
        get = lambda i, v='v': '(get-vector-element %s %d)' % (v, i)
        if kind == 'list':
            n = min(n, 40000)
            s = '(() (var v ()) (var k %d) (while (< 0 k) (setq v (cons k v)) (setq k (- k 1))) (emit (list (length v) (length (cdr (cdr v))))) (emit (length (list v v))) %s)' % (n, '(= v v)')
        elif kind == 'string':
            s = '(() (var s "abcdefg") (while (< (length s) %d) (setq s (concatenate s s))) (var v (substring s 0 %d)) (emit (list (length s) (length v) (length (cdr v))))' % (n, n)
            s += ' (emit (list %s))' % ' '.join(get(i) for i in j)
            a, b = sorted(r.choice(j) for _ in range(2))
            s += ' (emit (list (length (substring v %d %d)) (substring v %d %d) (= (concatenate (substring v 0 %d) (substring v %d %d)) v)))' % (a, b, max(0, b - 5), b, a, a, n)
            s += ' (emit (list (= v (substring s 0 %d)) (car (substring v %d %d)))) %s)' % (n - 1, n - 1, n, get(n))
        else:
            s = '(() (var v (make-vector %d 7)) (emit (list (length v) (length (cdr v))))' % n
            for q, i in enumerate(j): s += ' (set-vector-element v %d %d)' % (i, q)
            s += ' (emit (list %s)) (emit (list %s))' % (' '.join(get(i) for i in j), ' '.join(get(max(0, i - 1), '(cdr v)') for i in j if i))
            s += ' (var k 0) (while (< k %d) (setq k (+ k 1)) (setq v (cdr v))) (emit (list (length v) (car v))) %s)' % (n - 3, get(3))
        ast, sizes = read(s), ref.SIZE[:]
        try:
            ref.SIZE[:] = [80000, 200000]
            return expjob([ast], 'drv_default', dict(MON, objs=200000 if kind == 'list' else 90000, gc=0), None, 'large ' + kind, evaluate([ast], ref.Machine(3000000)), [s.encode()])
        finally: ref.SIZE[:] = sizes

    def rho(self, r):
        """Lists of many lengths that end in a cycle, in something else or properly, changed from one to the other."""
        n = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 16, 17, 31, 33, 64, 100, 300, 700])
        nth = lambda i: [Id('nth'), Id('l'), i]
        units = [read('(() (defun nth (l n) (while (< 0 n) (setq l (cdr l)) (setq n (- n 1))) l) (global nth nth) (global l ()) (var k %d) (while (< 0 k) (setq l (cons k l)) (setq k (- k 1))) (length l))' % n)]
        cell = r.randrange(n)
        units[0].insert(4, [Id('global'), Id('m'), []])
        for _ in range(r.randint(1, 4)):
            last = cell if r.random() < .3 else n - 1
            end = r.choice(['cycle', 'cycle', 'cycle', 'proper', 'number', 'shared'])
            new = ([Id('nth'), Id('l'), r.randint(max(0, last - r.choice([0, 1, 2, 3, 9, 700])), last)] if end == 'cycle' else [] if end == 'proper' else r.randint(0, 9) if end == 'number' else [Id('list'), 1, 2])
            # nth is a global variable in the later sources
            call = lambda a: [Id('funcall'), Id('nth'), a[1], a[2]]
            units.append([Id('setq'), Id('m'), call([0, Id('l'), last])])
            units.append([[], [Id('set-cdr'), Id('m'), call(new) if end == 'cycle' else new], 0])
            n = last + 1 if end != 'shared' else last + 3
            if end == 'shared': last += 2
            cell = r.randrange(n)
            at = r.choice([0, 0, r.randint(0, last), r.randint(0, last)])
            units.append([Id('length'), call([0, Id('l'), at])])
            units.append([Id('car'), call([0, Id('l'), r.randint(0, last)])])
            if end == 'cycle': units.append([Id('car'), call([0, Id('l'), r.randint(0, 3 * n)])])
            if end == 'number': break
        return expjob(units, 'drv_default', gcopts(r), None, 'list ends')

    def directed_jobs(self):
        return directed([
            '(() (concatenate (substring "abcdef" 1 3) "x"))', '(() (concatenate (cdr "abc") (cdr "de")))', '(() (concatenate "" ""))', '(() (concatenate "" (quote a)))',
            '(() (symbol-string (quote abc)))', '(() (make-string (list 65 "x")))', '(() (make-string (vector 65 1.5)))', '(() (make-string ()))', '(() (make-string (list 65 66)))',
            '(() (var v (vector 1 2 3)) (set-vector-element (cdr v) -1 9))', '(() (get-vector-element (cdr (vector 1)) 0))', '(() (car (cdr (vector 1))))',
            '(() (var v (vector 1 2 3)) (var w (cdr (cdr v))) (set-cdr v ()) (emit (length w)) (set-car w 5))', '(() (var v (vector 1 2 3)) (set-cdr v ()) (list v (length v)))',
            '(() (var v (vector 1 2 3)) (set-cdr (cdr v) ()) v)', '(() (vector (list 1) (list 2) (list 3) (list 4)))', '(() (make-vector 5 (list 1)))', '(() (length (vector 1 2)))',
            '(() (set-car (cdr (vector 1)) 1))', '(() (vector (vector "a" (vector "b" "c")) "d" (list "e" (vector "f"))))', '(() (get-vector-element (vector 1 2 3) 3))',
            '(() (var l (list 1 2)) (set-cdr l (cons 5 6)) l)', '(() (var l (list 1)) (set-cdr (cdr l) 5))', '(() (substring "abc" 2 1))', '(() (substring "abc" 0 4))', '(() (substring "abc" 3 3))',
            '(() (var a (list 1 2)) (list (= a a) (= a (cdr a)) (= (cdr a) (cdr a))))', '(() (not (vector 1)))', '(() (null? (cdr "a")))',
        ])


# ------------------------------------------------------------------------------------------------ P04
class P04(Prop):
    id = 'P04'
    targets = [drv('default')]
    quick, thorough = 48, 1600
    rule = ('Calls of closures, recursive and variadic functions, composites and C callbacks through direct calls, funcall, apply and callbacks, with 0 to 255 arguments, right and '
            'wrong argument counts, improper callees; argument values, rest lists, order of evaluation and errors are compared with the reference. Non-trivial: at least 8 VM '
            'instructions.')
    assumptions = [ASSUME_REF]

    def batch(self, k, r, tier):
        return (retry(22, lambda: session_job(r, ['call'], 40)) + retry(16, lambda: self.arity(r)) + retry(10, lambda: self.order(r)) +
                retry(14, lambda: program_job(r, label='call programs', size=90, errors=r.choice([0, 0, .03]), stmts=dict(fn=8, callw=5, comp=2))))

    def arity(self, r):
        """One function, many calls."""
        n = r.choice([0, 1, 2, 3, 4, 5, 8, 16, 63, 127, 128, 200, 254, 255])
        rest = r.random() < .5
        if rest and n == 255: n = 254
        ps = [Id('p%d' % i) for i in range(n)]
        pick = [r.randrange(n) for _ in range(min(n, 4))]
        res = [Id('list')] + [Id('p%d' % i) for i in pick] + ([Id('more')] if rest else [])
        pl = ps + ([Id('&rest'), Id('more')] if rest else [])
        units = [[[], [Id('global'), Id('f'), [Id('lambda'), pl, res]]]]
        for _ in range(r.randint(4, 10)):
            m = r.choice([n, n, n, n + 1, n - 1, n + 3, 0, 1, 255, 254])
            if not 0 <= m <= 255: m = n
            args = [r.randint(0, 999) for _ in range(m)]
            k = r.randrange(4)
            if k == 0: c = [Id('f')] + args
            elif k == 1: c = [Id('funcall'), Id('f')] + args
            else:
                j = r.randint(0, m)
                c = [Id('apply'), Id('f')] + args[:j] + [[Id('list')] + args[j:] if args[j:] else []]
            q = r.randrange(4)
            if q == 0: c = [[], [Id('var'), Id('keep'), 5], [Id('list'), c, Id('keep')]]
            elif q == 1: c = [[], [Id('defun'), Id('h'), pl, res], c if k else [Id('h')] + args]
            units.append(c if c[0] == [] else [[], c])
        return expjob(units, 'drv_default', gcopts(r), None, 'arity')

    def order(self, r):
        """Arguments with side effects, in every kind of call."""
        n = r.randint(1, 5)
        args = [[Id('emit'), r.randint(0, 99)] for _ in range(n)]
        f = [Id('lambda'), [Id('p%d' % i) for i in range(n)], [Id('list')] + [Id('p%d' % i) for i in reversed(range(n))]]
        forms = [[Id('funcall'), Id('f')] + args, [Id('g')] + args, [Id('d')] + args, [Id('apply'), Id('f')] + args + [[]], [Id('cons'), args[0], args[-1]],
                 [Id('+'), args[0], args[-1]], [Id('list')] + args, [Id('vector')] + args, [Id('setq'), Id('x'), args[0]], [Id('if'), args[0], args[-1], args[0]],
                 [Id('<'), args[0], args[-1]], [Id('cb-sub'), args[0], args[-1]], [Id('concatenate'), [Id('emit'), Str(b'a')], [Id('emit'), Str(b'b')]],
                 [Id('substring'), [Id('emit'), Str(b'abc')], [Id('emit'), 1], [Id('emit'), 2]], [Id('get-vector-element'), [Id('emit'), [Id('vector'), 1, 2]], [Id('emit'), 1]]]
        r.shuffle(forms)
        return expjob([[[], [Id('var'), Id('x'), 0], [Id('var'), Id('f'), f], [Id('global'), Id('g'), f], [Id('defun'), Id('d')] + f[1:]] + [[Id('emit'), x] for x in forms[:8]] + [0]],
                      'drv_default', gcopts(r), None, 'evaluation order')

    def directed_jobs(self):
        a = ' '.join(str(i) for i in range(255))
        ps = ' '.join('p%d' % i for i in range(255))
        j = directed([
            '(() (funcall (lambda () 1)))', '(() (apply (lambda () 1) ()))', '(() (apply (lambda (a) a) (list 1 2 3)))', '(() (apply (lambda (a b) b) 1 (list 2)))',
            '(() (apply cb-sub (list 5 3)))', '(() (apply cb-sub 5 (list 3)))', '(() (var e emit) (funcall e 3))', ['(() (global g emit) (g 5))'],
            ['(() (setq cb-seven 5) 1)', '(() (cb-seven))', '(() (+ 1 1))'],
            '(() ((lambda (a) a) 5))' if False else '(() (funcall (lambda (a &rest b) (list a b)) 1))', '(() (funcall (lambda (&rest b) b)))', '(() (funcall (lambda (a) a)))',
            '(() (funcall (lambda (%s) (list p0 p127 p128 p254)) %s))' % (ps, a), '(() (funcall (lambda (&rest m) (length m)) %s))' % a, '(() (funcall 5 1))', '(() (funcall "x"))',
            '(() (apply (lambda (a) a) 5))', '(() (defun f (a) a) (f))', '(() (defun f (a) a) (f 1 2))', '(() (defun f (a &rest m) m) (f))',
            '(() (var t (make-type)) (funcall (make-instance t 1 (lambda (x) (+ x 1))) 4))', '(() (var t (make-type)) (apply (make-instance t 1 (make-instance t 2 (lambda (x y) (- x y)))) 4 (list 1)))',
        ])
        # More arguments than a call can encode are refused, not truncated.
        def refused(case, res):
            b = judge.broken(res)
            if b: return b
            if res.get('C') != ['1'] and not any(x[0] != '0' for x in res.runs()): return 'a call with too many arguments was accepted: %s' % res.summary()
        for n in (256, 257, 300, 512, 513):
            args = ' '.join('1' for _ in range(n))
            for s in ('(() (global f (lambda (&rest m) (length m))) (f %s))', '(() (funcall (lambda (&rest m) (length m)) %s))', '(() (defun f (&rest m) (length m)) (f %s))', '(() (apply (lambda (&rest m) (length m)) %s ()))'):
                j.append(Job([('drv_default', runner.Case([('L', (s % args).encode())], dict(MON, objs=5000)))], refused, 'too many arguments', nontrivial=lambda rs: True))
        return j


# ------------------------------------------------------------------------------------------------ P05
class P05(Prop):
    id = 'P05'
    targets = [drv('default')]
    quick, thorough = 48, 1600
    rule = ('Histories of type and composite operations (type-of on values of every kind, make-type, make-instance, access, replacement of value and function, calls through '
            'composites and chains of composites) mixed with wrong operands, plus programs built around instances; every value, type identity and error is compared with '
            'the reference. Non-trivial: at least 8 VM instructions.')
    assumptions = [ASSUME_REF]

    def batch(self, k, r, tier):
        return (retry(26, lambda: session_job(r, ['type'], 40)) + retry(8, lambda: session_job(r, ['type', 'call', 'list'], 40)) + retry(16, lambda: self.objects(r)) +
                retry(8, lambda: program_job(r, label='composite programs', size=90, stmts=dict(comp=8))))

    def objects(self, r):
        """Types as identities: many types and instances in lists, compared pairwise."""
        n = r.randint(1, 6)
        body = [[]] + [[Id('var'), Id('t%d' % i), [Id('make-type')]] for i in range(n)]
        vals = {'v0': 3, 'v1': Flt('1.5'), 'v2': Str(b's'), 'v3': [Id('quote'), Id('q')], 'v4': [], 'v5': [Id('list'), 1], 'v6': [Id('vector'), 1], 'v7': [Id('lambda'), [], 1],
                'v8': Id('emit'), 'v9': True, 'v10': Id('t0'), 'v11': [Id('cb-user'), 1]}
        for a, b in vals.items(): body.append([Id('var'), Id(a), b])
        m = r.randint(1, 5)
        fn = {}   # what an instance calls
        for i in range(m):
            f = r.choice(['v7', 'emit'] + ['c%d' % q for q in range(i)] * 2)
            fn['c%d' % i] = f
            body.append([Id('var'), Id('c%d' % i), [Id('make-instance'), Id('t%d' % r.randrange(n)), Id('v%d' % r.randrange(12)), Id(f)]])
        names = ['v%d' % i for i in range(12)] + ['c%d' % i for i in range(m)]
        def call(c):
            f = c
            while f in fn: f = fn[f]
            a = [] if f == 'v7' else [r.randint(0, 9)]
            if r.random() < .03: a = a + [1]
            return r.choice([[Id('funcall'), Id(c)] + a, [Id('apply'), Id(c), [Id('list')] + a], [Id('apply'), Id(c)] + a + [[]]])
        for _ in range(r.randint(4, 14)):
            k = r.randrange(10)
            c = Id('c%d' % r.randrange(m))
            if k > 6:
                if k == 9:
                    # Instances come to refer only to those before them.
                    i = r.randrange(m)
                    f = r.choice(['v7', 'emit'] + ['c%d' % q for q in range(i)] * 2)
                    body.append([Id('set-composite-function'), Id('c%d' % i), Id(f)])
                    fn['c%d' % i] = f
                body.append([Id('emit'), call('c%d' % r.randrange(m))])
            elif k < 2: body.append([Id('emit'), [Id('='), [Id('type-of'), Id(r.choice(names))], [Id('type-of'), Id(r.choice(names))]]])
            elif k == 2: body.append([Id('emit'), [Id('type-of'), Id(r.choice(names))]])
            elif k == 3: body.append([Id('emit'), [Id('type-of'), [Id('composite-value'), c]]])
            elif k == 4: body.append([Id('set-composite-value'), c, Id(r.choice(names[:12]))])
            elif k == 5: body.append([Id('emit'), [Id('='), [Id('type-of'), c], Id('t%d' % r.randrange(n))]])
            else: body.append([Id('emit'), [Id('type-of'), [Id('composite-function'), c]]])
        return expjob([body + [0]], 'drv_default', gcopts(r), None, 'type identities')

    def directed_jobs(self):
        return directed([
            '(() (make-type))', ['(() (make-type))'] * 3, '(() (var t (make-type)) (make-instance t 5 emit))', '(() (make-instance (type-of 1) 1 emit))', '(() (make-instance 5 1 emit))',
            '(() (var t (make-type)) (var c (make-instance t 5 emit)) (set-composite-value c c) (= (type-of (composite-value c)) t))', '(() (composite-value 5))',
            '(() (composite-function (list)))', '(() (type-of (type-of 1)))', '(() (list (type-of true) (type-of 1) (type-of 1.0) (type-of "") (type-of ()) (type-of (quote a)) (type-of emit) (type-of (lambda () 1)) (type-of (vector 1)) (type-of (make-type))))',
            '(() (var t (make-type)) (var c (make-instance t 1 (lambda (x) (list x (quote first))))) (emit (funcall c 1)) (set-composite-function c (lambda (x) (list x (quote second)))) (funcall c 2))',
        ])
