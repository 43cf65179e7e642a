"""The property of the forms that a host adds to the language."""
import random
import closgen, gen, infer, judge, macrogen, runner, sess
from engine import Job, Prop
from props_lang import MON, drv, evaluate, expjob, retry
from ref import esc, fhex
from syntax import Flt, Id, Int, Str, read, text

I = Id
CONF = ['default', 'noopt', 'portable', 'inference']
TYPES = {'h-seven': infer.F(''), 'h-sum': infer.F('I', (1, 'I')), 'h-swap': infer.F('II'), 'h-log': infer.F('LI'), 'h-fail': infer.F('I'), 'h-let': infer.F('LII')}

KINDS = list(TYPES) + ['h-show', 'p-rev', 'p-pick', 'p-fail']


class Hosted:
    """A program and the same with forms of the host in it, none of which changes what is shown."""
    def __init__(self, r, prog, share=.15, actions=True):
        self.r, self.logs, self.shown, self.n, self.head = r, [], [], 0, {}
        rw = macrogen.Rewriter(r, prog)
        self.prog = rw.p
        pos = [(x, i) for x, i, _ in rw.positions()
               if not (isinstance(x[i], list) and x[i] and isinstance(x[i][0], Id) and macrogen.name(x[i][0]) in ('var', 'defun', 'noscope', 'defmacro', 'global'))
               and not (x[i] == [] and i == 0)]
        # Inner positions first, so that what replaces an outer one contains the forms within.
        for x, i in reversed([p for p in pos if r.random() < share]): x[i] = self.wrap(x[i], actions)
        self.used = self.n

    def counts(self, kind={}):
        """What the host has to see of the forms it counts."""
        d = dict(self.shown)
        return [(t, '%s i%d %s' % (esc(self.head[t]) if t in self.head else 'h-show', t, ast(d[t], kind)) if t in d else None) for t in self.logs]

    def constant(self, actions=True):
        r = self.r
        k = r.randrange(7 if actions else 5)
        if k == 0: return [I('h-seven')]
        if k == 1: return [I('h-sum')] + [self.constant(False) if r.random() < .2 else r.randint(-9, 300) for _ in range(r.randint(2, 4))]
        if k == 2: return [I('h-let'), self.name(), r.randint(0, 9), [I('h-seven')]]
        if k == 5: return [I('p-rev'), 1, [I('quote'), [I('p-rev'), I('a'), [I('p-pick'), 2, 3]]]]
        if k == 6: return [I('p-pick'), r.randint(0, 9), [I('p-rev')], [I('h-fail'), I('unknown')]]
        return r.randint(-300, 300)

    def name(self):
        self.n += 1
        return I('hv%d' % self.n)

    def wrap(self, e, actions):
        r = self.r
        self.n += 1
        k = r.randrange(8 if actions else 6)
        if k < 2:
            self.logs.append(len(self.logs) + 100)
            return [I('h-log'), self.logs[-1], e]
        if k == 2 and actions and r.random() < .6:
            self.logs.append(len(self.logs) + 100)
            self.shown.append((self.logs[-1], e))
            return [I('h-show'), self.logs[-1], e]
        if k == 2: return [I('h-sum'), e]
        if k == 3: return [I('car'), [I('h-swap'), e, self.constant(actions)]]
        if k == 4: return [I('cdr'), [I('h-swap'), self.constant(actions), e]]
        if k == 5:
            n = self.name()
            return [I('h-let'), n, self.constant(actions), e] if r.random() < .6 else [I('h-let'), n, e, n]
        if k == 6: return [I('p-pick'), e] + [r.choice([1, Str(b'x'), I('undefined'), [I('h-log'), 1, 2], [I('p-rev'), 1, 2], []]) for _ in range(r.randrange(3))]
        n = r.randrange(3)
        f = [I('p-rev')] + [self.constant() for _ in range(n)] + [e]
        return [I('car'), f]


def known(case, res):
    v = judge.units(case, res)
    if v: return v
    if any(e[0] == 'C' for e, _ in case.exp): return None
    if res.get('LEAK'): return '%s memory blocks still allocated after quitting' % res.get('LEAK')[0]
    if any(h != '0' for h in res.get('H')): return 'a form was not added'
    got = sorted(res.get('X') + res.get('Y'))
    exp = sorted(str(t) if y is None else y for t, y in case.meta.logs)
    if case.meta.exact and got == exp or not case.meta.exact and len(set(got)) == len(got) and set(got) <= set(exp): return None  # The branch that a constant condition excludes is not compiled.
    bad = [g for g in got if g not in exp] or [g for g in set(got) if got.count(g) > 1] or got
    return 'forms of the host were compiled as %s, the sources contain %s' % (', '.join(bad)[:600], ', '.join(exp)[:600])


def ast(x, kind={}):
    """The tree that the reader makes of a form, after its actions. kind: what names stand for."""
    if isinstance(x, bool): return '#t' if x else '#f'
    if isinstance(x, int): return 'i%d' % x
    if isinstance(x, Int): return 'i%d' % x.value
    if isinstance(x, Flt): return fhex(x.value)
    if isinstance(x, Str): return '"%s"' % esc(x.b)
    if isinstance(x, Id): return esc(x.name)
    k = x[0].name if x and isinstance(x[0], Id) else None
    k = kind.get(k, k)
    if k == 'p-pick': return ast(x[1], kind)
    if k == 'p-rev': return '(%s)' % ' '.join(['list'] + [ast(y, kind) for y in reversed(x[1:])])
    return '(%s)' % ' '.join([ast(y, kind) for y in x])


def rename(r, h, x, names):
    """The host's forms under the names they have now; in place."""
    if not isinstance(x, list): return
    if x and isinstance(x[0], Id) and x[0].name in names:
        n = r.choice(names[x[0].name])
        if x[0].name == 'h-show': h.head[x[1]] = n
        x[0] = I(n)
    for y in x: rename(r, h, y, names)


class Meta(list): logs, exact = (), False


def case(ops, opts, exp, meta, logs, exact=False):
    m = Meta(meta)
    m.exact = exact
    m.logs = [(x, None) if isinstance(x, int) else x for x in logs]
    return runner.Case(ops, dict(opts, ext=1, leak=1), exp, m)


class P25(Prop):
    id = 'P25'
    targets = [drv(c) for c in CONF]
    quick, thorough = 40, 2000
    rule = ('Generators (that emit a constant, fold over any number of operands, evaluate in their own order, bind a variable around a body by compiling a new form, count their uses, or fail) and actions of the reader (that rewrite, replace or '
            'refuse what was read) are added by the host to four builds. Random programs, closures, sessions and macro-rewritten programs get these forms around their expressions, in ways that change nothing, with inference too; everything shown '
            'must be what the reference has without them, each counted form must be compiled exactly once, shown operands must be the tree that was written. Forms are also added between sources, by the hundred, under names that start alike, and replaced. Errors of a host form must refuse its source alone. Under ASan/UBSan, heap monitors and counts of leaked blocks. Non-trivial: at least 8 VM instructions.')
    assumptions = ['The reference evaluator is right about the language.']

    def tree(self, r):
        k = r.randrange(4)
        if k == 0: return [[]] + closgen.ClosGen(r, r.choice([8, 20, 40])).program()
        return [[]] + gen.Gen(r, size=r.choice([10, 30, 60]), errors=r.choice([0, 0, .01])).program()

    def opts(self, r): return dict(MON, objs=r.choice([3000, 6000]), cobjs=8000, gc=r.choice([0, 0, 1, 3, 50]))

    def program(self, r):
        p = self.tree(r)
        exp = evaluate([p])
        if not exp: return None
        h = Hosted(r, p, r.choice([.05, .15, .4]))
        return Job([('drv_' + r.choice(CONF), case([('L', text(h.prog, r if r.random() < .3 else None))], self.opts(r), exp, [True], h.counts()))], known, 'programs', ends=True)

    def macros(self, r):
        """In the code that macros build and in the arguments of macros."""
        p = self.tree(r)
        exp = evaluate([p])
        if not exp: return None
        h = Hosted(r, p, .15, False)
        rw = macrogen.Rewriter(r, h.prog)
        rw.opaque |= {'h-log', 'h-let'}
        m = rw.run(r.choice([1, 3, 6]))
        # Code that is moved to compile time may be compiled there as well.
        j = Job([('drv_' + r.choice(CONF), case([('L', text(m))], self.opts(r), exp, [True], h.counts()))], judge.units, 'macros', ends=True)
        return j

    def inferred(self, r):
        p = self.tree(r)
        exp = evaluate([p])
        if not exp: return None
        h = Hosted(r, p, r.choice([.05, .2]), False)
        w = infer.rewrite(r, h.prog, more=TYPES, drop=r.choice([0, .5, .9]), literal=0)
        if not w: return None
        return Job([('drv_inference', case([('L', w[0])], dict(self.opts(r), infer=1), exp, [True], h.counts()))], known, 'inferred', ends=True)

    def session(self, r):
        u = sess.Sess(r, r.sample(list(sess.OPS), 3), .1).build(r.choice([5, 20]))
        ops, logs = [], []
        for a, _, _ in u:
            if isinstance(a, list) and a:
                w = [[], [I('emit'), 0], a]
                h = Hosted(r, a, .3) if not (isinstance(a[0], Id) and macrogen.name(a[0]) in ('var', 'defun', 'defmacro', 'noscope')) else None
                if h:
                    for n in walk_logs(h.prog): n[1] += 100 * len(ops)
                    h.logs = [100 * len(ops) + x for x in h.logs]
                    h.shown = [(100 * len(ops) + x, e) for x, e in h.shown]
                    a, logs = h.prog, logs + h.counts()
            ops.append(('L', text(a)))
        return Job([('drv_' + r.choice(CONF), case(ops, self.opts(r), [(e, t) for _, e, t in u], [False] * len(u), logs))], known, 'session', ends=True)

    BAD = ['(h-fail 1)', '(h-seven 1)', '(h-sum)', '(h-swap 1)', '(h-swap 1 2 3)', '(h-let x 1)', '(h-log x 1)', '(p-fail)', '(p-fail 1 (p-rev 2))', '(p-pick)', '(quote (p-fail))', '(quote (a (p-pick)))', '(h-let 5 1 2)', '(h-sum 1 (h-swap 2 (h-fail 3)))', '(lambda () (h-fail 1))',
           '(() (defmacro bad-m () (quote (h-fail))) (bad-m))', '(() (defun bad-f (x) (h-sum x (h-fail x))) 1)', '(() (comptime (h-fail 1)) 2)', '(() (var x 1) (lambda () (h-sum x (h-fail 2))))', '(h-let a 1 (h-let b a (h-fail b)))', '(() (defmacro bad-m (x) (h-fail x)) (bad-m 1))', '(list 1 (p-rev 1 (p-fail)))']

    def refused(self, r):
        """One form that fails, anywhere in one of three sources."""
        ops, exp = [], []
        bad = r.randrange(3)
        for i in range(3):
            p = self.tree(r)
            e = evaluate([p])
            if not e or e[0][0][0] != 'V': return None
            h = Hosted(r, p, .15)
            if i == bad:
                b = read(r.choice(self.BAD))
                for _ in range(r.randrange(4)):
                    b = r.choice([[I('+'), 1, b], [I('lambda'), [I('x')], b], [[], [I('var'), I('bad-v'), b]], [I('list'), [], b, 2], [I('h-swap'), b, 1], [I('h-let'), I('bad-v'), 1, b], [I('p-rev'), 1, b], [I('p-pick'), b, 1], [I('while'), [I('emit'), 1], b],
                                  [I('if'), [I('emit'), 1], b, 2], [[], [I('defun'), I('bad-f'), [], b], 1], [I('emit'), b], [[I('lambda'), [I('&rest'), I('x')], b]]])
                h.prog.insert(r.randint(1, len(h.prog)), b)
                e = [(('C', ''), [])]
            ops.append(('L', text(h.prog)))
            exp += e
        return Job([('drv_' + r.choice(CONF), case(ops, self.opts(r), exp, [True] * 3, []))], known, 'refused', ends=True)

    def late(self, r):
        """Forms that are added between sources, under any names, and replaced by others."""
        ops, exp, logs, kind = [], [], [], {}
        def fresh():
            while True:
                n = 'hh' + ''.join(r.choice('abc-\xe9') for _ in range(r.choice([0, 1, 2, 3, 3, 8])))
                if n not in kind: return n
        def add(k, n):
            kind[n] = k
            ops.append(('H ' + k, n.encode('latin-1')))
        for _ in range(r.choice([0, 0, 20, 300])):
            k = r.choice(KINDS)
            add(k, '%s-many%d' % (k[0], r.randrange(500)))
        for k in r.sample(KINDS, len(KINDS)): add(k, fresh())
        for i in range(r.randint(2, 5)):
            for _ in range(r.choice([0, 1, 4])):
                k, n = r.choice(KINDS), None
                if r.random() < .7:
                    n = r.choice(list(kind))
                    if (kind[n][0] == 'p') != (k[0] == 'p') or list(kind.values()).count(kind[n]) < 2: n = None
                add(k, n or fresh())
            if r.random() < .3:
                # Not yet added.
                n = fresh()
                e = evaluate([[[], [I('emit'), i], [I(n), 2]]])
                if not e: return None
                ops.append(('L', text([[], [I('emit'), i], [I(n), 2]])))
                exp += e
                add(r.choice(KINDS), n)
            p = self.tree(r)
            e = evaluate([p])
            if not e: return None
            h = Hosted(r, p, r.choice([.1, .3]))
            for n in walk_logs(h.prog): n[1] += 1000 * i
            h.logs = [1000 * i + x for x in h.logs]
            h.shown = [(1000 * i + x, y) for x, y in h.shown]
            names = {}
            for n, k in kind.items(): names.setdefault(k, []).append(n)
            rename(r, h, h.prog, names)
            ops.append(('L', text(h.prog)))
            logs += h.counts(dict(kind))
            exp += e
        return Job([('drv_' + r.choice(CONF), case(ops, self.opts(r), exp, [False] * len(exp), logs))], known, 'late', ends=True)

    def batch(self, k, r, tier):
        return (retry(16, lambda: self.program(r)) + retry(6, lambda: self.macros(r)) + retry(6, lambda: self.inferred(r)) + retry(4, lambda: self.session(r)) + retry(6, lambda: self.refused(r)) + retry(5, lambda: self.late(r)))

    GOOD = [('(h-sum 1 (h-seven) (* 2 (h-seven)))', 'i22'), ('(list (h-swap 1 2) (h-seven))', '((i1 . i2) i7)'), ('(h-let x 5 (() (var f (lambda () (setq x (+ x 1)) x)) (funcall f) (h-log 3 (funcall f))))', 'i7'), ('(p-rev 1 2 (p-pick 3 4))', '(i3 i2 i1)'),
            ("(quote (a (p-rev b c)))", "('a ('list 'c 'b))"), ('(() (defmacro m (x) (list (quote h-sum) x (h-seven))) (m (h-seven)))', 'i14'), ('(comptime (h-sum 1 (h-let x 4 (* x x))))', 'i17'), ('(() (defun f (&rest a) (h-swap a (h-seven))) (f 1 2))', '((i1 i2) . i7)'),
            ('(() (var i 0) (var s 0) (while (h-log 1 (< i 5)) (setq s (h-sum s i (h-seven))) (setq i (h-sum i 1))) s)', 'i45'), ('(() (var v (lambda (x) (h-let y (h-sum x 1) (lambda () (setq y (+ y x)) y)))) (var a (funcall v 1)) (var b (funcall v 10)) (funcall a) (list (funcall a) (funcall b)))', '(i4 i21)'),
            ('(() (defmacro h-user (x) (list (quote h-swap) x x)) (h-user 4))', '(i4 . i4)'), ('(p-pick 5)', 'i5'), ('(p-pick (p-pick (p-pick "x" 1) 2) 3)', '"x"'), ('(p-rev)', '()'), ('(h-let h-seven 5 (list h-seven (h-seven)))', '(i5 i7)'),
            ('(() (var p-rev 3) (p-rev 1 p-rev))', '(i3 i1)'), ('(h-let x 1 (h-let x (+ x 1) (h-let x (* x 5) (list x (h-let x 3 x)))))', '(i10 i3)')]

    def directed_jobs(self):
        out = []
        for d in CONF:
            for g in (0, 1):
                ops, exp, logs = [], [], []
                for k, (s, v) in enumerate(self.GOOD):
                    ops += [('L', s.encode()), ('L', self.BAD[k % len(self.BAD)].encode())]
                    exp += [(('V', v), []), (('C', ''), [])]
                for b in self.BAD:
                    ops += [('L', b.encode()), ('L', b'(h-sum 1 2)')]
                    exp += [(('C', ''), []), (('V', 'i3'), [])]
                out.append(Job([('drv_' + d, case(ops, dict(MON, objs=3000, cobjs=8000, gc=g), exp, [False] * len(exp), []))], known, 'directed', ends=True))
                ops = [('L', s.encode()) for s, _ in self.GOOD]
                out.append(Job([('drv_' + d, case(ops, dict(MON, objs=3000, cobjs=8000, gc=g), [(('V', v), []) for _, v in self.GOOD], [False] * len(ops), [1, 3], True))], known, 'directed', ends=True))
        hint = [(s, v) for s, v in (('(list h-seven h-sum 1 h-seven h-swap 1 h-seven)', '(i7 i8 (i1 . i7))'), ('(h-let x 5 h-sum x h-seven)', 'i12'), ('(() h-let x 5 + x 1)', 'i6'), ('(() (declare h-log (L I)) h-log 4 h-seven)', 'i7'),
                ('(list h-let a h-let b 2 + b 1 * a 2 h-seven)', '(i6 i7)'), ('(h-sum 1 h-seven h-seven h-seven)', 'i22'))]
        out.append(Job([('drv_inference', case([('L', s.encode()) for s, _ in hint], dict(MON, objs=3000, cobjs=8000, infer=1, gc=1), [(('V', v), []) for _, v in hint], [False] * len(hint), [4], True))], known, 'directed', ends=True))
        return out


def walk_logs(x):
    if isinstance(x, list) and x:
        if isinstance(x[0], Id) and x[0].name in ('h-log', 'h-show') and x[1] >= 100: yield x
        for y in x: yield from walk_logs(y)
