"""Sessions: one compiler and one VM, many small sources. Every source applies operations to values that live in globals, to
literals, or to values of the wrong type, so each one either has a value that the reference fixes or is a runtime error
that the session survives."""
import copy
from syntax import Id, Flt, Str, Int
import ref


def I(n): return Id(n)


# operation: (argument kinds). Kinds: N number, I integer, S string, Y symbol, L list, V vector, Q sequence, F function,
# T type, C composite, A anything, X index, B bool
OPS = {
    'arith': [('+', 'NN'), ('-', 'NN'), ('*', 'NN'), ('/', 'NN'), ('<', 'NN'), ('>', 'NN'), ('=', 'AA'), ('=', 'NN'), ('not', 'A'), ('=', 'SS'), ('=', 'YY')],
    'list': [('cons', 'AL'), ('cons', 'AA'), ('car', 'L'), ('cdr', 'L'), ('set-car', 'LA'), ('set-cdr', 'LL'), ('set-cdr', 'LA'), ('length', 'L'),
             ('null?', 'L'), ('list', 'AAA'), ('list', 'A'), ('list', ''), ('=', 'LL'), ('not', 'L'), ('make-string', 'J')],
    'vector': [('vector', 'AAA'), ('vector', 'A'), ('make-vector', 'XA'), ('get-vector-element', 'VX'), ('set-vector-element', 'VXA'), ('car', 'V'), ('cdr', 'V'),
               ('set-car', 'VA'), ('set-cdr', 'VZ'), ('length', 'V'), ('null?', 'V'), ('=', 'VV'), ('not', 'V'), ('make-string', 'K')],
    'string': [('concatenate', 'SS'), ('concatenate', 'SY'), ('concatenate', 'YY'), ('substring', 'SXX'), ('substring', 'SXX'), ('length', 'S'), ('null?', 'S'), ('symbol-string', 'Y'),
               ('get-vector-element', 'SX'), ('car', 'S'), ('cdr', 'S'), ('=', 'SS'), ('=', 'YY'), ('not', 'S'), ('make-string', 'J'), ('make-string', 'K')],
    'type': [('type-of', 'A'), ('type-of', 'C'), ('make-type', ''), ('make-instance', 'TAF'), ('make-instance', 'TAA'), ('composite-value', 'C'), ('composite-function', 'C'),
             ('set-composite-value', 'CA'), ('set-composite-function', 'CF'), ('=', 'TT'), ('null?', 'A'), ('=', 'OO'), ('composite-value', 'A')],
    'call': [('funcall', 'FAA'), ('funcall', 'FA'), ('funcall', 'F'), ('apply', 'FL'), ('apply', 'FAL'), ('apply', 'FAAL'), ('funcall', 'FAAA'), ('funcall', 'CAA'), ('funcall', 'CA'),
             ('apply', 'CL'), ('cb-call1', 'FA'), ('cb-call2', 'FAA'), ('cb-call0', 'F'), ('funcall', 'A'), ('apply', 'AL'), ('apply', 'FA'), ('cb-call3', 'FAAA')],
}
ALLK = 'NISYLVFTCB'


class Sess:
    def __init__(self, rng, ops, wrong=0.12, glob=0.6):
        self.r = rng
        self.ops = [o for g in ops for o in OPS[g]]
        self.wrong = wrong
        self.glob = glob
        self.m = ref.Machine()
        self.types = {}  # global -> kind
        self.n = 0
        self.units = []  # (ast, expectation, trace)
        self.skipped = 0

    # -------------------------------------------------------------- values
    def lit_int(self):
        r = self.r
        k = r.random()
        if k < .6: return r.randint(-3, 12)
        if k < .85: return r.choice([0, 1, -1, 2, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, 2**31 - 1, 2**31, -2**31, -2**31 - 1])
        return r.randint(-10**6, 10**6)

    def lit(self, k):
        r = self.r
        if k == 'N': return r.choice([self.lit_int, self.lit_int, lambda: self.lit('D'), lambda: r.random() < .5])()
        if k == 'D': return Flt(r.choice(['0.0', '1.0', '-1.5', '2.25', '100.0', '-0.125', '3.0', '1e3', '12345.5']))
        if k == 'I': return self.lit_int()
        if k == 'X': return r.randint(0, 4) if r.random() < .85 else r.choice([-1, 5, 9, 255, 256, 65536, -2**40, 2**40])
        if k == 'B': return r.random() < .5
        if k == 'Z': return r.choice([[], [], [I('vector')], self.lit('V'), self.lit('A')])
        if k == 'S':
            n = r.choice([0, 1, 2, 3, 4, 6])
            return Str(bytes(r.choice(b'abcABC 09"\\\n\xf0\x01') for _ in range(n)))
        if k == 'Y': return [I('quote'), I(r.choice(['a', 'b', 'foo', 'bar', 'x-1', 'list', 'nil']))]
        if k == 'L':
            if r.random() < .25: return []
            return [I('list')] + [self.lit(r.choice('NSYBI')) for _ in range(r.randint(1, 4))]
        if k == 'J': return [I('list')] + [r.choice([65, 97, 48, 255, 256, 0, 10, -1]) if r.random() < .95 else self.lit('A') for _ in range(r.randint(0, 4))]
        if k == 'K': return [I('vector')] + [r.choice([65, 97, 48, 255, 300, 1]) if r.random() < .95 else self.lit('A') for _ in range(r.randint(1, 4))]
        if k == 'V': return [I('vector')] + [self.lit(r.choice('NSYBI')) for _ in range(r.randint(1, 4))]
        if k == 'F': return self.lit_fun()
        if k == 'T': return r.choice([[I('make-type')], [I('type-of'), self.lit(r.choice('NISYLVF'))]])
        if k == 'C': return [I('make-instance'), [I('make-type')], self.lit(r.choice('NSYL')), self.lit_fun()]
        if k == 'O': return [I('type-of'), self.arg(r.choice(ALLK))]
        return self.lit(r.choice('NNISYLVFTCBD'))

    def lit_fun(self):
        r = self.r
        k = r.randrange(9)
        if k == 0: return I('emit')
        if k == 1: return I(r.choice(['cb-sub', 'cb-seven', 'emit', 'cb-fail']))
        if k == 2: return [I('lambda'), [I('&rest'), I('m')], I('m')]
        if k == 3: return [I('lambda'), [I('a'), I('&rest'), I('m')], [I('cons'), I('a'), [I('length'), I('m')]]]
        ps = [I('p%d' % i) for i in range(r.choice([0, 1, 1, 2, 2, 3]))]
        if ps and r.random() < .7:
            b = r.choice([[I('list')] + ps[::-1], [I('vector')] + ps, ps[-1], [I('emit'), ps[0]], [I('cons'), ps[0], ps[-1]], [I('+'), ps[0], ps[-1]]])
        else: b = r.choice([7, Str(b'r'), [I('quote'), I('done')], [I('setq'), I('gk'), [I('+'), I('gk'), 1]]])
        return [I('lambda'), ps, b]

    def arg(self, k, depth=0):
        r = self.r
        if r.random() < self.wrong * .5: k = r.choice(ALLK)
        if r.random() < self.glob:
            want = {'J': 'L', 'K': 'V', 'X': 'I', 'Z': 'V', 'D': 'N', 'O': 'T'}.get(k, k)
            vs = [n for n, t in self.types.items() if t == want or k == 'A' or (want == 'N' and t in 'IN')]
            if vs and not (k == 'X' and r.random() < .8): return I(r.choice(vs))
        if depth < 2 and r.random() < .15:
            op, kinds = r.choice(self.ops)
            return self.form(op, kinds, depth + 1)
        return self.lit(k)

    def form(self, op, kinds, depth=0):
        r = self.r
        n = op if r.random() > .05 or op.startswith('cb-') else '__' + op
        if r.random() < self.wrong * .2 and op in ('list', 'vector'): kinds = kinds + 'A' * r.randint(1, 5)
        return [I(n)] + [self.arg(k, depth) for k in kinds]

    def wrap(self, f):
        """The same operation on locals, upvalues, arguments or temporaries."""
        r = self.r
        k = r.randrange(6)
        if k == 0 or len(f) < 2: return f
        idx = [i for i in range(1, len(f)) if r.random() < .7]
        names = {i: 'l%d' % i for i in idx}
        g = [I(names[i]) if i in names else f[i] for i in range(len(f))]
        binds = [[I('var'), I(names[i]), f[i]] for i in idx]
        pad = [[I('var'), I('pad%d' % j), j] for j in range(r.choice([0, 0, 1, 3]))]
        if k in (1, 2): return [[]] + pad + binds + [g]
        if k == 3: return [[]] + pad + binds + [[I('funcall'), [I('lambda'), [], g]]]
        if k == 4: return [I('funcall'), [I('lambda'), [I(names[i]) for i in idx], g]] + [f[i] for i in idx]
        return [[]] + binds + [[I('defun'), I('loc'), [I('q')], [I('emit'), I('q')], g], [I('loc'), 1]]

    # -------------------------------------------------------------- units
    def unit(self, ast):
        """Evaluate on the reference. A source outside the specified language is dropped before it had an effect."""
        m = self.m
        if self.r.random() < .85: ast = [[], ast]
        saved = (copy.deepcopy(m.globals), m.nextType)
        t = len(m.trace)
        try:
            res = ref.run_program(ast, m)
            if res[0] == 'V': res = ('V', ref.show(res[1]))
        except ref.Discard:
            # The source is not run, so whatever it did to the reference is undone.
            m.globals, m.nextType = saved
            del m.trace[t:]
            self.skipped += 1
            return False
        self.units.append((ast, res, m.trace[t:]))
        return res[0]

    def define(self, kind=None):
        k = kind or self.r.choice(ALLK)
        n = 'g%d' % self.n
        self.n += 1
        if self.unit([I('global'), I(n), self.lit(k)]) == 'V': self.types[n] = k
        return n

    def step(self):
        r = self.r
        op, kinds = r.choice(self.ops)
        f = self.form(op, kinds)
        if any(isinstance(x, list) and x and isinstance(x[0], Id) and x[0].name.lstrip('_') in ('set-car', 'set-cdr', 'set-vector-element') for x in f[1:]):
            return
        f = self.wrap(f)
        k = r.random()
        if k < .35: f = [I('emit'), f]
        elif k < .5:
            n = 'g%d' % self.n
            before = len(self.units)
            if self.unit([I('global'), I(n), f]) == 'V':
                self.n += 1
                self.types[n] = self.kind(self.m.globals[n].v)
            return
        self.unit(f)

    def kind(self, v):
        if isinstance(v, bool): return 'B'
        if isinstance(v, int): return 'I'
        if isinstance(v, float): return 'N'
        if isinstance(v, ref.S): return 'S'
        if isinstance(v, ref.Sym): return 'Y'
        if isinstance(v, (ref.Cons, ref.Nil)): return 'L'
        if isinstance(v, ref.Vec): return 'V'
        if isinstance(v, (ref.Clo, ref.Cb)): return 'F'
        if isinstance(v, ref.Ty): return 'T'
        if isinstance(v, ref.Comp): return 'C'
        return '?'

    def build(self, steps):
        self.unit([I('global'), I('gk'), 0])
        for k in ALLK: self.define(k)
        for _ in range(self.r.randint(2, 6)): self.define()
        for _ in range(steps): self.step()
        return self.units
