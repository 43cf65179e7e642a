"""Programs about closures: which variable a name means, how long it lives, and who shares it.

Every statement performs at most one call and passes it variables and constants, so that evaluation order never matters.
Types: 'N' a number; ('C', n, ret) a function of n numbers that returns ret; ('H', c) a function that takes a c and returns a
number; ('O', c) a list of functions of type c."""
from syntax import Id

NAMES = ['a', 'b', 'c', 'x', 'y', 'acc', 'n']


def I(n): return Id(n)


class ClosGen:
    def __init__(self, rng, size=40):
        self.r = rng
        self.left = size
        self.scopes = [{}]
        self.globs = {}
        self.serial = 0
        self.depth = 0
        self.loops = 0
        self.funs = [set()]  # names that defun bound, per scope: they can be called directly

    # ---------------------------------------------------------------- names
    def fresh(self):
        self.serial += 1
        return self.r.choice(NAMES) if self.r.random() < .45 else 'v%d' % self.serial

    def vars(self, pred):
        seen, res = set(), []
        for s in reversed(self.scopes):
            for n, t in s.items():
                if n not in seen:
                    seen.add(n)
                    if pred(t): res.append(n)
        for n, t in self.globs.items():
            if n not in seen and pred(t): res.append(n)
        return res

    def num(self):
        return self.r.choice([0, 1, 2, 3, 5, -1, -7, 10, 100, 127, 128, 1000, 70000]) if self.r.random() < .4 else self.r.randint(-20, 50)

    def simple(self):
        vs = self.vars(lambda t: t == 'N')
        if vs and self.r.random() < .75: return I(self.r.choice(vs))
        return self.num()

    def nexpr(self, d=0):
        """A number without side effects."""
        r = self.r
        k = r.random()
        if d > 2 or k < .45: return self.simple()
        if k < .8: return [I(r.choice('+-')), self.nexpr(d + 1), self.nexpr(d + 1)]
        if k < .9: return [I('if'), [I(r.choice('<>=')), self.simple(), self.simple()], self.nexpr(d + 1), self.nexpr(d + 1)]
        return [[], [I('var'), I('t'), self.nexpr(d + 1)], [I('+'), I('t'), self.num()]]

    # ---------------------------------------------------------------- types
    def ctype(self, d=0):
        r = self.r
        if d < 3 and r.random() < .25: return ('C', r.choice([0, 0, 1, 2]), self.ctype(d + 1))
        if d < 2 and r.random() < .08: return ('O', self.ctype(d + 2)) if d else ('C', r.choice([0, 1]), ('O', ('C', 0, 'N')))
        return ('C', r.choice([0, 0, 1, 1, 2, 3]), 'N')

    # ---------------------------------------------------------------- functions
    def func(self, t, depth=0):
        """(params, body) of a function of type t."""
        r = self.r
        s, ps = {}, []
        if t[0] == 'H':
            s['cb'] = t[1]
            ps.append(I('cb'))
        else:
            for _ in range(t[1]):
                n = self.fresh()
                while n in s: n = 'p%d' % r.randrange(10**5)
                s[n] = 'N'
                ps.append(I(n))
            if r.random() < .07:
                n = 'rest%d' % r.randrange(100)
                ps += [I('&rest'), I(n)]
                s[n] = 'R'
        self.scopes.append(s)
        self.funs.append(set())
        self.depth += 1
        lo, self.loops = self.loops, 0
        body = []
        if self.depth < 6:
            for _ in range(r.choice([0, 1, 1, 2, 3])): body += self.stmt()
        body.append(self.result(t[2] if t[0] == 'C' else 'N', t))
        self.loops = lo
        self.depth -= 1
        self.funs.pop()
        self.scopes.pop()
        return ps, body

    def result(self, ret, t):
        r = self.r
        if ret == 'N':
            vs = self.targets()
            if vs and r.random() < .35:
                v = r.choice(vs)
                return [I('setq'), I(v), [I(r.choice('+-')), I(v), self.simple()]]
            rs = self.vars(lambda x: x == 'R')
            if rs and r.random() < .5: return [I('length'), I(rs[0])]
            return self.nexpr()
        if ret[0] == 'O': return self.obj(ret)
        vs = self.vars(lambda x: x == ret)
        if vs and r.random() < .2: return I(r.choice(vs))
        return self.lam(ret)

    def lam(self, t):
        ps, b = self.func(t)
        return [I('lambda'), ps] + b

    def obj(self, t):
        """A list of closures over the same variables."""
        return [I('list')] + [self.lam(t[1]) for _ in range(self.r.randint(1, 3))]

    def targets(self): return self.vars(lambda x: x == 'N')

    # ---------------------------------------------------------------- calls
    def callform(self, f, args):
        r = self.r
        direct = isinstance(f, Id) and self.isfun(f.name)
        k = r.random()
        if direct and k < .5: return [f] + args
        if k < .8: return [I('funcall'), f] + args
        if k < .92:
            j = r.randint(0, len(args))
            return [I('apply'), f] + args[:j] + [[I('list')] + args[j:]]
        if len(args) <= 3: return [I('cb-call%d' % len(args)), f] + args
        return [I('funcall'), f] + args

    def isfun(self, n):
        for s, f in zip(reversed(self.scopes), reversed(self.funs)):
            if n in f: return True
            if n in s: return False
        return False

    def use(self, e, t, d=0):
        """Statements that observe a value of type t."""
        r = self.r
        if t == 'N': return [[I('emit'), e]]
        if t[0] == 'C':
            args = [self.simple() for _ in range(t[1])]
            f = self.callform(e, args)
            if t[2] == 'N': return [[I('emit'), f]]
            n = 'k%d' % r.randrange(100)
            if r.random() < .5 or d > 2:
                return [[I('emit'), self.usechain(f, t[2])]]
            self.scopes[-1][n] = t[2]
            self.funs[-1].discard(n)
            res = [[I('var'), I(n), f]]
            for _ in range(r.randint(1, 2)): res += self.use(I(n), t[2], d + 1)
            return res
        if t[0] == 'H':
            vs = self.vars(lambda x: x == t[1])
            return [[I('emit'), self.callform(e, [I(r.choice(vs)) if vs and r.random() < .7 else self.lam(t[1])])]]
        if t[0] == 'O':
            return [[[], [I('var'), I('o'), e],
                     [I('while'), [I('not'), [I('null?'), I('o')]],
                      [I('emit'), self.usechain([I('car'), I('o')], t[1])],
                      [I('setq'), I('o'), [I('cdr'), I('o')]]]]]
        return []

    def usechain(self, e, t):
        if t == 'N': return e
        if t[0] == 'O': return self.usechain([I('car'), e], t[1])
        return self.usechain([I('funcall'), e] + [self.num() for _ in range(t[1])], t[2])

    # ---------------------------------------------------------------- statements
    def stmts(self, n):
        o = []
        for _ in range(n): o += self.stmt()
        return o

    def bind(self, n, t, fun=False):
        self.scopes[-1][n] = t
        (self.funs[-1].add if fun else self.funs[-1].discard)(n)

    def stmt(self):
        r = self.r
        self.left -= 1
        if self.left < 0: return [[I('emit'), self.simple()]]
        k = r.randrange(24)
        if k < 4:
            n, e = self.fresh(), self.nexpr()
            self.bind(n, 'N')
            return [[I('var'), I(n), e]]
        if k < 7:
            vs = self.targets()
            if vs:
                v = r.choice(vs)
                return [[I('setq'), I(v), r.choice([[I('+'), I(v), self.simple()], self.nexpr()])]]
        if k < 11:
            t = self.ctype()
            if r.random() < .12: t = ('H', ('C', r.choice([0, 1]), 'N'))
            n = self.fresh()
            if r.random() < .5:
                ps, b = self.func(t)
                self.bind(n, t, True)
                return [[I('defun'), I(n), ps] + b]
            e = self.lam(t)
            self.bind(n, t)
            return [[I('var'), I(n), e]]
        if k < 15:
            vs = self.vars(lambda t: isinstance(t, tuple))
            if vs:
                n = r.choice(vs)
                return self.use(I(n), self.lookup(n))
        if k == 15: return self.inner(lambda: [[[]] + self.stmts(r.randint(1, 4)) + [self.nexpr()]])
        if k == 16:
            c = [I(r.choice('<>=')), self.simple(), self.simple()]
            return self.inner(lambda: [[I(r.choice(['when', 'unless'])), c] + (self.stmts(r.randint(1, 3)) or [1])])
        if k in (17, 18) and self.loops < 2: return self.loop()
        if k == 19 and self.depth == 0 and self.loops == 0:
            n = 'g%d' % r.randrange(4)
            t = self.globs.get(n)
            if t is None: t = 'N' if r.random() < .4 else self.ctype()
            e = self.nexpr() if t == 'N' else self.lam(t) if t[0] == 'C' else self.obj(t)
            if len(self.scopes) == 1: self.globs[n] = t
            elif n not in self.globs: return [[I('emit'), e]] if t == 'N' else self.stmt()
            return [[I('global'), I(n), e]]
        if k == 20:
            # Give an existing function variable another function of the same type.
            vs = self.vars(lambda t: isinstance(t, tuple) and t[0] == 'C')
            if vs:
                n = r.choice(vs)
                t = self.lookup(n)
                other = [v for v in vs if self.lookup(v) == t and v != n]
                return [[I('setq'), I(n), I(r.choice(other)) if other and r.random() < .5 else self.lam(t)]]
        if k == 21:
            t = ('O', ('C', r.choice([0, 1]), 'N'))
            n = self.fresh()
            e = self.obj(t)
            self.bind(n, t)
            return [[I('var'), I(n), e]] + self.use(I(n), t)
        if k == 22: return self.recursion()
        if k == 23: return [[I('cb-gc')]]
        return [[I('emit'), self.simple()]]

    def lookup(self, n):
        for s in reversed(self.scopes):
            if n in s: return s[n]
        return self.globs[n]

    def inner(self, f):
        self.scopes.append({})
        self.funs.append(set())
        try: return f()
        finally:
            self.scopes.pop()
            self.funs.pop()

    def loop(self):
        """Closures made in a loop. Each iteration has its own variables."""
        r = self.r
        i, l = 'i%d' % r.randrange(100), 'l%d' % r.randrange(100)
        n = r.choice([1, 2, 3, 4])
        t = ('C', r.choice([0, 0, 1]), 'N')
        self.loops += 1
        self.scopes += [{l: 'X'}, {}]
        self.funs += [set(), set()]
        body = []
        q = 'q%d' % r.randrange(10)
        body.append([I('var'), I(q), r.choice([I(i), [I('+'), I(i), self.simple()], self.simple()])])
        self.scopes[-1][q] = 'N'
        body += self.stmts(r.randint(0, 2))
        lam = self.lam(t)
        if r.random() < .5: lam = [I('lambda'), lam[1], [I('setq'), I(q), [I('+'), I(q), 1]]] + lam[2:]
        if r.random() < .4:
            n2 = 'f%d' % r.randrange(10)
            body.append([I('defun'), I(n2)] + lam[1:])
            body.append([I('setq'), I(l), [I('cons'), I(n2), I(l)]])
        else: body.append([I('setq'), I(l), [I('cons'), lam, I(l)]])
        body += self.stmts(r.randint(0, 1))
        body.append([I('setq'), I(i), [I('+'), I(i), 1]])
        self.funs = self.funs[:-2]
        self.scopes = self.scopes[:-2]
        self.loops -= 1
        use = self.use(I(l), ('O', t))
        return [[[], [I('var'), I(l), []], [I('var'), I(i), 0], [I('while'), [I('<'), I(i), n]] + body] + use * r.choice([1, 2])]

    def recursion(self):
        """A recursive function whose activations each leave a closure behind."""
        r = self.r
        n = 'rec%d' % r.randrange(10)
        c = r.randint(1, 5)
        k = r.randrange(3)
        if k == 0:
            d = [I('defun'), I(n), [I('m')], [I('if'), [I('<'), I('m'), 1], [], [I('cons'), [I('lambda'), [], [I('setq'), I('m'), [I('+'), I('m'), 1]]], [I('self'), [I('-'), I('m'), 1]]]]]
            call = [I(n), c]
        elif k == 1:
            d = [I('defun'), I(n), [I('m'), I('l')], [I('var'), I('own'), [I('+'), I('m'), self.simple()]],
                 [I('if'), [I('<'), I('m'), 1], I('l'), [I('self'), [I('-'), I('m'), 1], [I('cons'), [I('lambda'), [], [I('setq'), I('own'), [I('+'), I('own'), I('m')]]], I('l')]]]]
            call = [I(n), c, []]
        else:
            d = [I('var'), I(n), [I('lambda'), [I('m'), I('l')], [I('var'), I('s'), I('self')],
                                  [I('if'), [I('<'), I('m'), 1], I('l'), [I('funcall'), I('s'), [I('-'), I('m'), 1], [I('cons'), [I('lambda'), [], I('m')], I('l')]]]]]
            call = [I('funcall'), I(n), c, []]
        f = k < 2
        self.bind(n, ('X',), f)
        l = 'rl%d' % r.randrange(10)
        self.bind(l, ('O', ('C', 0, 'N')))
        u = self.use(I(l), ('O', ('C', 0, 'N')))
        return [d, [I('var'), I(l), call]] + u + (u if r.random() < .5 else [])

    def program(self):
        p = []
        for _ in range(self.r.randint(4, 14)):
            p += self.stmt()
            if self.left < 0: break
        return p + [self.simple()]
