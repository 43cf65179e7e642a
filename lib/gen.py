"""Random well-typed duck-lisp programs.

The generator keeps to programs whose meaning the documentation fixes. In particular it never lets one argument of an
operator change what a sibling argument reads: at most one argument of a form may write, and then the others are
constants. Emitting is allowed anywhere, because evaluation order is fixed."""
from syntax import Id, Flt, Str, Int

SIMPLE = ['I', 'F', 'B', 'S', 'Y', 'L', 'V']
NAMES = ['a', 'b', 'c', 'x', 'y', 'z', 'foo', 'bar', 'n', 'acc', 'tmp', 'x2', 'a-b', 'p?', '*g*', 'very-long-variable-name', 'i-0']
SYMS = ['a', 'b', 'foo', 'sym', 'if', 'emit', 'q-1', 'other-symbol', '*z*', 'x']


def I(n): return Id(n)


def L(*a): return list(a)


class Fn:
    """Static knowledge about a function value: argument types, rest, result type, whether calling it writes."""
    def __init__(self, args, rest, ret, writes): self.args, self.rest, self.ret, self.writes = args, rest, ret, writes


class Gen:
    TYPES = ['I', 'I', 'I', 'F', 'B', 'S', 'Y', 'L', 'L', 'V', 'V']
    STMTS = dict(var=5, fn=2, loop=1, when=1, iff=1, glob=1, setq=3, setcons=1, setvec=2, callw=1, comp=1, emit=1, drop=1, noscope=1)

    def __init__(self, rng, size=40, errors=0.0, alias=0.05, types=None, stmts=None, cb=True, emit=0.15):
        self.r = rng
        self.types = types or self.TYPES
        w = dict(self.STMTS, **(stmts or {}))
        self.kinds = [k for k, n in w.items() for _ in range(n)]
        self.left = size
        self.errors = errors
        self.aliasp = alias
        self.cb = cb
        self.emitp = emit
        self.scopes = [({}, {})]
        self.globals = {}
        self.depth = 0
        self.infun = 0
        self.serial = 0
        self.hot = None  # names the current function may write
        self.loopdepth = 0

    # ------------------------------------------------------------ utilities
    def k(self, name):
        """A keyword, sometimes through its double-underscore alias."""
        if self.r.random() < self.aliasp: return Id('__' + name)
        return Id(name)

    def fresh(self):
        self.serial += 1
        if self.r.random() < 0.5: return self.r.choice(NAMES)
        return 'v%d' % self.serial

    def vars(self, pred):
        """Visible variables (innermost binding wins) that satisfy pred(type)."""
        seen, res = set(), []
        for v, _ in reversed(self.scopes):
            for n, t in v.items():
                if n not in seen:
                    seen.add(n)
                    if pred(t): res.append(n)
        for n, t in self.globals.items():
            if n not in seen and pred(t): res.append(n)
        return res

    def funs(self, pred):
        seen, res = set(), []
        for _, f in reversed(self.scopes):
            for n, t in f.items():
                if n not in seen:
                    seen.add(n)
                    if pred(t): res.append(n)
        return res

    def ty(self, d=0):
        return self.r.choice(self.types)

    def nest(self):
        self.scopes.append(({}, {}))

    def unnest(self):
        self.scopes.pop()

    # ------------------------------------------------------------ literals
    def int_lit(self):
        r = self.r
        k = r.random()
        if k < 0.5: n = r.randint(-10, 20)
        elif k < 0.7: n = r.choice([0, 1, -1, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536])
        elif k < 0.9: n = r.randint(-70000, 70000)
        else: n = r.choice([2**31 - 1, 2**31, -2**31, -2**31 - 1, 2**32, 2**40 + 7, -2**45, 2**53 - 1])
        if r.random() < 0.1:
            return Int(('-' if n < 0 else '') + '0x' + '%x' % abs(n), n)
        return n

    def flt_lit(self):
        r = self.r
        k = r.random()
        if k < 0.4: return Flt('%d.%d' % (r.randint(-99, 99), r.choice([0, 5, 25, 75, 125])))
        if k < 0.6: return Flt('%d.5' % r.randint(-5, 5)) if r.random() < .5 else Flt('%d.25' % r.randint(-5000, 5000))
        return Flt(r.choice(['0.0', '1.0', '-1.0', '2.0', '1.5', '0.125', '3.0', '-0.5', '100.0', '1.5e1', '2.0e2', '4.0e0']))

    def str_lit(self):
        r = self.r
        n = r.choice([0, 1, 2, 3, 5, 8, 20])
        k = r.random()
        if k < 0.8: return Str(bytes(r.choice(b'abcdefgh XYZ019-_()') for _ in range(n)))
        return Str(bytes(r.choice([9, 10, 34, 92, 1, 127, 128, 200, 255, 65, 66]) for _ in range(n)))

    def sym_lit(self): return L(self.k('quote'), I(self.r.choice(SYMS)))

    def quoted(self, d=0):
        r = self.r
        k = r.random()
        if d > 3 or k < 0.6:
            return r.choice([lambda: self.int_lit(), lambda: self.flt_lit(), lambda: r.random() < .5, lambda: self.str_lit(),
                             lambda: I(r.choice(SYMS))])()
        return [self.quoted(d + 1) for _ in range(r.randint(0, 4))]

    def const(self, t):
        r = self.r
        if t == 'I': return self.int_lit()
        if t == 'F': return self.flt_lit()
        if t == 'B': return r.random() < 0.5
        if t == 'S': return self.str_lit()
        if t == 'Y': return self.sym_lit()
        if t == 'L':
            if r.random() < 0.3: return L()
            return L(self.k('quote'), [self.quoted(1) for _ in range(r.randint(0, 4))])
        if t == 'V': return L(self.k('vector'), *[self.const(r.choice(['I', 'S', 'F'])) for _ in range(r.randint(1, 4))])
        return self.const(r.choice(SIMPLE))

    # ------------------------------------------------------------ expressions
    def expr(self, t, w=False, d=0):
        """An expression of type t ('G' is any). w: it may write variables and shared structure."""
        r = self.r
        if self.errors and r.random() < self.errors:
            t2 = r.choice(SIMPLE)
            return self.expr(t2, w, d + 1)
        if t == 'G': t = self.ty()
        if isinstance(t, Fn): return self.fn_expr(t, d)
        if self.left <= 0 or d > 5 or r.random() < 0.18:
            vs = self.vars(lambda x: x == t)
            if vs and r.random() < 0.75: return I(r.choice(vs))
            return self.const(t)
        self.left -= 1
        if r.random() < self.emitp:
            return L(I('emit'), self.expr(t, w, d + 1))
        k = r.random()
        if k < 0.30: return self.generic(t, w, d)
        return getattr(self, 'e_' + t)(w, d)

    def args(self, types, w, d):
        """Arguments of one form. Either one of them may write and the others are constants, or none writes."""
        r = self.r
        if w and r.random() < 0.25:
            j = r.randrange(len(types))
            return [self.expr(t, True, d + 1) if i == j else self.const(t if not isinstance(t, Fn) else 'I')
                    if not isinstance(t, Fn) else self.fn_expr(t, 9) for i, t in enumerate(types)]
        return [self.expr(t, False, d + 1) for t in types]

    def cond(self, w, d):
        k = self.r.random()
        if k < 0.8: return self.expr('B', w, d + 1)
        return self.expr(self.r.choice(['I', 'L', 'Y', 'F', 'S']), w, d + 1)

    def generic(self, t, w, d):
        r = self.r
        k = r.randrange(11)
        if k == 0:
            c = self.cond(w, d)
            self.nest(); a = self.expr(t, w, d + 1); self.unnest()
            self.nest(); b = self.expr(t, w, d + 1); self.unnest()
            return L(self.k('if'), c, a, b)
        if k in (1, 2): return self.scope(t, w, d)
        if k == 3:
            fs = self.funs(lambda f: f.ret == t and (w or not f.writes))
            if fs: return self.call_named(r.choice(fs), w, d)
            return self.scope(t, w, d)
        if k == 4:
            fs = self.vars(lambda f: isinstance(f, Fn) and f.ret == t and (w or not f.writes))
            if fs: return self.call_var(r.choice(fs), w, d)
            return self.call_inline(t, w, d)
        if k == 5: return self.call_inline(t, w, d)
        if k == 6: return L(self.k('car'), L(self.k('cons'), *self.args([t, 'G'], w, d)))
        if k == 7: return L(self.k('cdr'), L(self.k('cons'), *self.args(['G', t], w, d)))
        if k == 8:
            n = r.randint(1, 4)
            j = r.randrange(n)
            els = [self.const('G') if i != j else self.expr(t, w, d + 1) for i in range(n)]
            return L(self.k('get-vector-element'), L(self.k('vector'), *els), j)
        if k == 9 and w:
            vs = self.vars(lambda x: x == t)
            vs = [v for v in vs if self.may_write(v)]
            if vs: return L(self.k('setq'), I(r.choice(vs)), self.expr(t, False, d + 1))
        if k == 10 and self.cb:
            f = Fn([self.ty() for _ in range(r.randint(0, 3))], None, t, False)
            return L(I('cb-call%d' % len(f.args)), self.fn_expr(f, d + 1), *[self.expr(a, False, d + 2) for a in f.args])
        return L(self.k('noscope'), self.expr(t, w, d + 1)) if False else L(self.k('if'), r.random() < .5, self.in_scope(t, w, d), self.in_scope(t, w, d))

    def in_scope(self, t, w, d):
        self.nest()
        e = self.expr(t, w, d + 1)
        self.unnest()
        return e

    def may_write(self, name):
        if self.hot is None: return True
        return name in self.hot

    def scope(self, t, w, d):
        self.nest()
        body = self.stmts(self.r.randint(0, 3), w, d + 1)
        body.append(self.expr(t, False, d + 1))
        self.unnest()
        return L(L(), *body)

    def passargs(self, f, w, d):
        args = self.args(f.args, w, d) if f.args else []
        if f.rest is not None:
            for _ in range(self.r.choice([0, 0, 1, 2, 3])): args.append(self.const(f.rest))
        return args

    def badarity(self, args):
        if self.errors and self.r.random() < self.errors * 2:
            if args and self.r.random() < .5: args.pop()
            else: args.append(self.const('I'))
        return args

    def call_named(self, n, w, d):
        f = None
        for _, fs in reversed(self.scopes):
            if n in fs: f = fs[n]; break
        args = self.badarity(self.passargs(f, w, d))
        k = self.r.random()
        vf = self.static(n)
        if k < 0.6 or vf is not f: return L(I(n), *args)
        return self.invoke(I(n), args)

    def static(self, n):
        for v, _ in reversed(self.scopes):
            if n in v: return v[n]
        return self.globals.get(n)

    def invoke(self, e, args):
        r = self.r
        k = r.random()
        if k < 0.6: return L(self.k('funcall'), e, *args)
        j = r.randint(0, len(args))
        return L(self.k('apply'), e, *args[:j], L(self.k('list'), *args[j:]) if args[j:] or r.random() < .5 else L())

    def call_var(self, n, w, d):
        f = self.static(n)
        args = self.badarity(self.passargs(f, w, d))
        local = any(n in v for v, _ in self.scopes)
        if not local and not any(n in fs for _, fs in self.scopes) and self.r.random() < 0.6: return L(I(n), *args)
        return self.invoke(I(n), args)

    def fn_sig(self, t):
        r = self.r
        return Fn([self.ty() for _ in range(r.choice([0, 1, 1, 2, 2, 3]))], None if r.random() < 0.75 else self.ty(), t, False)

    def call_inline(self, t, w, d):
        f = self.fn_sig(t)
        return self.invoke(self.fn_expr(f, d + 1), self.passargs(f, w, d))

    def params(self, f):
        """Parameter list and the bindings it makes."""
        names, ps = {}, []
        for t in f.args:
            n = self.fresh()
            while n in names: n = 'v%d' % self.r.randrange(10**6)
            names[n] = t
            ps.append(I(n))
        if f.rest is not None:
            n = self.fresh()
            while n in names: n = 'v%d' % self.r.randrange(10**6)
            names[n] = 'L'
            ps += [I('&rest'), I(n)]
        return ps, names

    def fn_body(self, f, names, d):
        hot = self.hot
        self.scopes.append((dict(names), {}))
        self.infun += 1
        if not f.writes: self.hot = set(names) | (set() if True else set())
        body = self.stmts(self.r.choice([0, 0, 1, 2]), True if f.writes else 'local', d + 1)
        body.append(self.expr(f.ret, False, d + 1))
        self.infun -= 1
        self.hot = hot
        self.scopes.pop()
        return body

    def fn_expr(self, f, d):
        ps, names = self.params(f)
        return L(self.k('lambda'), ps, *self.fn_body(f, names, d + 1))

    # ------------------------------------------------------------ typed operators
    def e_I(self, w, d):
        r = self.r
        k = r.randrange(11)
        if k < 5:
            op = r.choice(['+', '-', '*', '+', '-', '/'])
            if op == '/':
                a = self.expr('I', w, d + 1)
                b = r.choice([1, 2, 3, -2, 7, -1, 10])
                if self.errors and r.random() < self.errors * 3: b = 0
                return L(self.k('/'), a, b)
            if op == '*': return L(self.k('*'), self.expr('I', w, d + 1), r.randint(-9, 9))
            return L(self.k(op), *self.args(['I', 'I'], w, d))
        if k == 5: return L(self.k('length'), self.expr(r.choice(['L', 'V', 'S']), w, d + 1))
        if k == 6:
            n = r.randint(1, 5)
            i = r.randrange(n)
            if self.errors and r.random() < self.errors * 3: i = r.choice([-1, n, n + 5, -100, 2**40])
            return L(self.k('get-vector-element'), L(self.k('vector'), *[self.expr('I', False, d + 2) for _ in range(n)]), i)
        if k == 7: return L(self.k('not'), self.expr('I', w, d + 1))
        if k == 8:
            s = Str(bytes(r.choice(b'abcxyz\xf0') for _ in range(r.randint(1, 6))))
            return L(self.k('get-vector-element'), s, r.randrange(len(s.b))) if r.random() < .5 else L(self.k('car'), s)
        if k == 9 and self.cb: return L(I('cb-sub'), *self.args(['I', 'I'], w, d)) if r.random() < .6 else L(I('cb-seven'))
        op = r.choice(['+', '-', '*'])
        a, b = self.expr('I', False, d + 1), r.random() < .5
        return L(self.k(op), *( (a, b) if r.random() < .5 else (b, a)))

    def e_F(self, w, d):
        r = self.r
        k = r.randrange(6)
        if k < 4:
            op = r.choice(['+', '-', '*', '/'])
            if op == '/': return L(self.k('/'), self.expr('F', w, d + 1), r.choice([Flt('2.0'), 4, Flt('0.5'), Flt('-8.0'), 3]))
            ts = r.choice([['F', 'F'], ['I', 'F'], ['F', 'I'], ['F', 'F'], ['B', 'F'], ['F', 'B']])
            return L(self.k(op), *self.args(ts, w, d))
        if k == 4: return L(self.k('not'), self.expr('F', w, d + 1))
        return L(self.k('car'), L(self.k('list'), self.expr('F', w, d + 1)))

    def e_B(self, w, d):
        r = self.r
        k = r.randrange(9)
        if k < 3:
            ts = r.choice([['I', 'I'], ['I', 'I'], ['F', 'F'], ['I', 'F'], ['F', 'I'], ['I', 'B']])
            return L(self.k(r.choice('<>')), *self.args(ts, w, d))
        if k < 5:
            t = r.choice(['I', 'I', 'S', 'Y', 'B', 'F'])
            u = t if r.random() < 0.85 else r.choice(['I', 'S', 'Y', 'F', 'B', 'L'])
            return L(self.k('='), *self.args([t, u], w, d))
        if k == 5: return L(self.k('not'), self.expr(r.choice(['B', 'B', 'B', 'L', 'V', 'S']) if False else 'B', w, d + 1))
        if k == 6: return L(self.k('null?'), self.expr(r.choice(['L', 'V', 'S', 'I', 'Y']), w, d + 1))
        if k == 7:
            t, u = self.ty(), self.ty()
            return L(self.k('='), L(self.k('type-of'), self.expr(t, w, d + 1)), L(self.k('type-of'), self.const(u)))
        vs = self.vars(lambda x: x in ('L', 'V'))
        if vs:
            v = r.choice(vs)
            x = r.choice(vs)
            if self.static(v) == 'V' or self.static(x) == 'V': return L(self.k('null?'), I(v))
            return L(self.k('='), I(v), I(x))
        return L(self.k('not'), self.expr('B', w, d + 1))

    def e_S(self, w, d):
        r = self.r
        k = r.randrange(6)
        if k < 2: return L(self.k('concatenate'), *self.args([r.choice('SSY'), r.choice('SSY')], w, d))
        if k == 2:
            s = self.str_lit()
            i = r.randint(0, len(s.b)); j = r.randint(i, len(s.b))
            if self.errors and r.random() < self.errors * 3: i, j = r.choice([(j, i), (-1, j), (i, len(s.b) + 1), (j + 1, j)])
            return L(self.k('substring'), s, i, j)
        if k == 3: return L(self.k('symbol-string'), self.expr('Y', w, d + 1))
        if k == 4:
            n = r.randint(1, 6)
            els = [r.choice([65, 66, 97, 98, 48, 200, 255, 1]) for _ in range(n)]
            return L(self.k('make-string'), L(self.k(r.choice(['list', 'vector'])), *els))
        return L(self.k('cdr'), L(self.k('concatenate'), Str(b'k'), self.expr('S', w, d + 1)))

    def e_Y(self, w, d): return self.generic('Y', w, d) if self.r.random() < .5 else self.sym_lit()

    def e_L(self, w, d):
        r = self.r
        k = r.randrange(8)
        if k < 3:
            n = r.choice([0, 1, 2, 3, 5])
            if n == 0: return L(self.k('list')) if r.random() < .5 else L()
            return L(self.k('list'), *self.args(['G'] * n, w, d))
        if k < 5: return L(self.k('cons'), *self.args(['G', 'L'], w, d))
        if k == 5: return L(self.k('cdr'), self.expr('L', w, d + 1))
        if k == 6:
            # The rest list of a variadic function.
            n = r.randint(0, 4)
            return self.invoke(L(self.k('lambda'), [I('&rest'), I('more')], I('more')), [self.const('G') for _ in range(n)])
        if k == 7 and self.cb and self.errors == 0 and r.random() < .5:
            return L(I('cb-gc'))
        return self.const('L')

    def e_V(self, w, d):
        r = self.r
        k = r.randrange(6)
        if k < 3:
            n = r.choice([1, 1, 2, 3, 5])
            return L(self.k('vector'), *self.args(['G'] * n, w, d))
        if k == 3: return L(self.k('make-vector'), r.choice([1, 2, 3, 7]), self.expr('G', w, d + 1))
        if k == 4: return L(self.k('cdr'), self.expr('V', w, d + 1))
        return self.const('V')

    # ------------------------------------------------------------ statements
    def stmts(self, n, w, d):
        res = []
        for _ in range(n): res += self.stmt(w, d)
        return res

    def targets(self, w, pred):
        vs = self.vars(pred)
        if w is True:
            return [v for v in vs if self.may_write(v)]
        own = set(self.scopes[-1][0])
        return [v for v in vs if v in own and not (v in self.scopes[-1][1])]

    def stmt(self, w, d):
        r = self.r
        self.left -= 1
        ww = w is True
        k = r.choice(self.kinds)
        top = self.scopes[-1]
        if d > 6: k = 'var'
        if k == 'var':
            t = self.ty()
            n = self.fresh()
            e = self.expr(t, ww, d + 1)
            top[0][n] = t
            return [L(self.k('var'), I(n), e)]
        if k == 'noscope':
            return [L(self.k('noscope'), *self.stmts(r.randint(1, 2), w, d + 1))]
        if k == 'fn':
            t = self.fn_sig(self.ty())
            t.writes = ww and r.random() < 0.5
            n = self.fresh()
            if r.random() < 0.6:
                ps, names = self.params(t)
                b = self.fn_body(t, names, d + 1)
                top[0][n] = t
                top[1][n] = t
                return [L(self.k('defun'), I(n), ps, *b)]
            e = self.fn_expr(t, d + 1)
            top[0][n] = t
            return [L(self.k('var'), I(n), e)]
        if k == 'loop': return [self.loop(w, d)]
        if k == 'when':
            c = self.cond(ww, d)
            self.nest()
            b = self.stmts(r.randint(1, 3), 'local' if not ww else True, d + 1) or [1]
            self.unnest()
            return [L(self.k(r.choice(['when', 'unless'])), c, *b)]
        if k == 'iff':
            c = self.cond(ww, d)
            br = []
            for _ in range(2):
                self.nest()
                br.append(L(L(), *(self.stmts(r.randint(1, 2), True if ww else 'local', d + 2)), self.expr('I', False, d + 2)))
                self.unnest()
            return [L(self.k('if'), c, *br)]
        if k == 'glob' and ww and self.hot is None and self.infun == 0:
            n = 'g%d' % r.randrange(6)
            t = self.globals.get(n)
            if t is None: t = self.ty() if r.random() < .7 else self.fn_sig(self.ty())
            if isinstance(t, Fn):
                e = self.fn_expr(t, d + 1)
            else: e = self.expr(t, True, d + 1)
            if self.loopdepth == 0 and self.infun == 0 and len(self.scopes) <= 1: self.globals[n] = t
            elif self.globals.get(n) is None: return [e]
            return [L(self.k('global'), I(n), e)]
        if k == 'setq':
            t = self.ty()
            vs = self.targets(w, lambda x: x == t)
            if vs: return [L(self.k('setq'), I(r.choice(vs)), self.expr(t, ww, d + 1))]
        if k == 'setcons' and ww:
            vs = self.targets(w, lambda x: x == 'L')
            if vs:
                v = r.choice(vs)
                self.nest()
                if r.random() < .6: b = L(self.k('set-car'), I(v), self.expr('G', False, d + 1))
                else: b = L(self.k('set-cdr'), I(v), self.fresh_list(d))
                self.unnest()
                return [L(self.k('when'), L(self.k('not'), L(self.k('null?'), I(v))), b)]
        if k == 'setvec' and ww:
            vs = self.targets(w, lambda x: x == 'V')
            if vs:
                v = r.choice(vs)
                self.nest()
                q = r.random()
                if q < .6: b = L(self.k('set-vector-element'), I(v), 0, self.noalias(d))
                elif q < .8: b = L(self.k('set-car'), I(v), self.noalias(d))
                else: b = L(self.k('set-cdr'), I(v), L())
                self.unnest()
                return [L(self.k('unless'), L(self.k('null?'), I(v)), b)]
        if k == 'callw' and ww:
            fs = self.vars(lambda f: isinstance(f, Fn) and f.writes)
            if fs:
                n = r.choice(fs)
                return [L(I('emit'), self.call_var(n, False, d))]
        if k == 'comp': return [self.composite(d)]
        e = self.expr(self.ty(), ww, d + 1)
        # A value that nobody wants. Bare names are left out: their reads may be dropped, errors included.
        if k == 'drop' and isinstance(e, list) and e and isinstance(e[0], Id): return [e]
        return [L(I('emit'), e)]

    def fresh_list(self, d):
        """A list that cannot contain the list it is being attached to."""
        return L(self.k('list'), *[self.noalias(d) for _ in range(self.r.randint(0, 3))])

    def noalias(self, d): return self.expr(self.r.choice(['I', 'F', 'B', 'S', 'Y']), False, d + 1) if self.r.random() < .7 else self.const('G')

    def composite(self, d):
        """Make a type and an instance, look inside, call it."""
        r = self.r
        self.nest()
        t, c = 'ty%d' % r.randrange(4), 'co%d' % r.randrange(4)
        f = self.fn_sig(self.ty())
        val = self.ty()
        body = [L(self.k('var'), I(t), L(self.k('make-type'))),
                L(self.k('var'), I(c), L(self.k('make-instance'), I(t), self.expr(val, False, d + 1), self.fn_expr(f, d + 1)))]
        for _ in range(r.randint(1, 4)):
            k = r.randrange(6)
            if k == 0: body.append(L(I('emit'), L(self.k('composite-value'), I(c))))
            elif k == 1: body.append(L(I('emit'), self.invoke(I(c), self.passargs(f, False, d))))
            elif k == 2: body.append(L(I('emit'), L(self.k('='), L(self.k('type-of'), I(c)), I(t))))
            elif k == 3: body.append(L(self.k('set-composite-value'), I(c), self.expr('G', False, d + 1)))
            elif k == 4: body.append(L(self.k('set-composite-function'), I(c), self.fn_expr(f, d + 1)))
            else: body.append(L(I('emit'), self.invoke(L(self.k('composite-function'), I(c)), self.passargs(f, False, d))))
        self.unnest()
        return L(L(), *body)

    def loop(self, w, d):
        r = self.r
        self.nest()
        i = 'i%d' % r.randrange(1000)
        n = r.choice([0, 1, 2, 3, 5])
        pre = L(self.k('var'), I(i), 0)
        self.loopdepth += 1
        self.scopes[-1][0][i] = 'LOOP'
        self.nest()
        body = self.stmts(r.randint(0, 3), True if w is True else 'local', d + 2)
        if r.random() < .5: body.append(L(I('emit'), I(i)))
        self.unnest()
        self.loopdepth -= 1
        self.unnest()
        step = L(self.k('setq'), I(i), L(self.k('+'), I(i), 1))
        return L(L(), pre, L(self.k('while'), L(self.k('<'), I(i), n), *body, step))

    def recursive(self):
        """A recursive function definition and a call to it, in one of several shapes."""
        r = self.r
        n = 'rec%d' % r.randrange(100)
        k = r.randrange(5)
        me = I('self') if r.random() < .8 else None
        cnt = r.randint(0, 12)
        if k == 0:
            df = L(I('defun'), I(n), [I('n'), I('acc')],
                   L(I('if'), L(I('<'), I('n'), 1), I('acc'), L(I('self'), L(I('-'), I('n'), 1), L(I('+'), I('acc'), I('n')))))
            return [df, L(I('emit'), L(I(n), cnt, 0))]
        if k == 1:
            df = L(I('defun'), I(n), [I('n')],
                   L(I('if'), L(I('<'), I('n'), 2), I('n'), L(I('+'), L(I('self'), L(I('-'), I('n'), 1)), L(I('self'), L(I('-'), I('n'), 2)))))
            return [df, L(I('emit'), L(I(n), min(cnt, 10)))]
        if k == 2:
            df = L(I('defun'), I(n), [I('l')],
                   L(I('if'), L(I('null?'), I('l')), L(), L(I('cons'), L(I('list'), L(I('car'), I('l'))), L(I('self'), L(I('cdr'), I('l'))))))
            return [df, L(I('emit'), L(I(n), self.const('L')))]
        if k == 3:
            # Mutual recursion through globals.
            return [L(I('global'), I(n + 'e'), L(I('lambda'), [I('n')], L(I('if'), L(I('='), I('n'), 0), True, L(I(n + 'o'), L(I('-'), I('n'), 1))))),
                    L(I('global'), I(n + 'o'), L(I('lambda'), [I('n')], L(I('if'), L(I('='), I('n'), 0), False, L(I(n + 'e'), L(I('-'), I('n'), 1))))),
                    L(I('emit'), L(I(n + 'e'), cnt))]
        # A counter object: shared upvalues between two closures.
        return [L(I('var'), I(n), L(L(), L(I('var'), I('count'), self.int_lit()),
                                   L(I('list'), L(I('lambda'), [], L(I('setq'), I('count'), L(I('+'), I('count'), 1))),
                                     L(I('lambda'), [], I('count'))))),
                L(I('emit'), L(I('funcall'), L(I('car'), I(n)))),
                L(I('emit'), L(I('funcall'), L(I('car'), L(I('cdr'), I(n)))))]

    def program(self, n=None):
        r = self.r
        forms = []
        for _ in range(n if n is not None else r.randint(1, 8)):
            if r.random() < 0.08: forms += self.recursive()
            else: forms += self.stmt(True, 0)
            if self.left <= 0: break
        forms.append(self.expr('G', True, 0))
        return forms
