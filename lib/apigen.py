"""Histories of C interface operations with the results that a model of the documented interface predicts.

The model is concrete: it is stepped while the history is generated, and the driver's log is compared with it offline."""
import math
from ref import Base, Cb, Clo, Comp, Cons, Discard, NIL, S, Sym, Ty, User, Vec, esc, fhex

ANYTHING = object()


class Fail(Exception):
    """A called function fails; the stack above the call is not specified."""


class Fn:
    __slots__ = ('name', 'arity', 'rest', 'ups', 'run')
    def __init__(self, name, arity, rest, ups, run): self.name, self.arity, self.rest, self.ups, self.run = name, arity, rest, ups, run


class Cell:
    __slots__ = ('v',)
    def __init__(self, v): self.v = v


class New:
    """The n-th type that the host created."""
    __slots__ = ('n',)
    def __init__(self, n): self.n = n


def tyname(t): return 'N%d' % t.n if isinstance(t, New) else 'T%d' % t


class Printer:
    def __init__(self, nodes): self.n, self.o = nodes, []
    def show(self, v, depth=0):
        o = self.o
        self.n -= 1
        if self.n < 0 or depth > 60: raise Discard('large')
        if v is True: o.append('#t')
        elif v is False: o.append('#f')
        elif isinstance(v, int): o.append('i%d' % v)
        elif isinstance(v, float): o.append(fhex(v))
        elif isinstance(v, S): o.append('"' + esc(v.b) + '"')
        elif isinstance(v, Sym): o.append("'" + ('#stripped' if v.name[1] is None else esc(v.name[1])))
        elif isinstance(v, Cb): o.append('#fn')
        elif isinstance(v, Fn): o.append('#clo(%d%s)' % (v.arity, '?' if v.rest else ''))
        elif isinstance(v, Ty): o.append(tyname(v.n))
        elif isinstance(v, User): o.append('#user')
        elif isinstance(v, Comp):
            o.append('#C(%s ' % tyname(v.ty))
            self.show(v.val, depth + 1)
            o.append(' ')
            self.show(v.fn, depth + 1)
            o.append(')')
        elif v is NIL: o.append('()')
        elif isinstance(v, Cons):
            o.append('(')
            first = True
            while isinstance(v, Cons):
                self.n -= 1
                if self.n < 0: raise Discard('large')
                if not first: o.append(' ')
                first = False
                self.show(v.car, depth + 1)
                v = v.cdr
            if v is not NIL:
                o.append(' . ')
                self.show(v, depth + 1)
            o.append(')')
        elif isinstance(v, Vec):
            o.append('[')
            for k in range(v.off, len(v.base.v) if v.base else 0):
                if k != v.off: o.append(' ')
                self.show(v.base.v[k], depth + 1)
            o.append(']')
        else: raise AssertionError(v)


def show(v, nodes=60):
    p = Printer(nodes)
    try: p.show(v)
    except Discard: return None
    return ''.join(p.o)


TYPE = ['none', 'bool', 'int', 'float', 'string', 'list', 'symbol', 'function', 'closure', 'vector', 'type', 'composite', 'user']


def kind(v):
    if isinstance(v, bool): return 'bool'
    if isinstance(v, int): return 'int'
    if isinstance(v, float): return 'float'
    for c, n in ((S, 'string'), (Sym, 'symbol'), (Cb, 'function'), (Fn, 'closure'), (Vec, 'vector'), (Ty, 'type'), (Comp, 'composite'), (User, 'user')):
        if isinstance(v, c): return n
    return 'list'


def conses(v, limit=5000):
    """Number of conses, None if cyclic."""
    n = 0
    seen = set()
    while isinstance(v, Cons):
        if id(v) in seen: return None
        seen.add(id(v))
        n += 1
        v = v.cdr
    return n


def mklist(xs):
    r = NIL
    for x in reversed(xs): r = Cons(x, r)
    return r


class Gen:
    """One history. `lines` is what the driver runs, `expect` what it has to log."""
    def __init__(self, r, calls, depth=4):
        self.r, self.calls, self.depth = r, calls, depth
        self.ops, self.expect, self.queue = [], [], []
        self.newtypes = 0
        self.nops = self.ncalls = self.nested = self.errors = 0
        self.globals = {}
        self.level = 0
        self.budget = 400
        self.functions()

    # ------------------------------------------------------------------ functions of the script
    def functions(self):
        M = self
        cell, acc = Cell(0), Cell(0)
        src = ['((var c 0) (var n 0)']
        def add(name, text, fn):
            src.append(' (global %s %s)' % (name, text))
            M.globals[name] = fn
        def setc(c):
            def f(m, a):
                c.v = a[0]
                return a[0]
            return f
        def accf(m, a):
            acc.v += a[0]
            return acc.v
        def failf(m, a): raise Fail()
        def mk(m, a):
            c = Cell(a[0])
            return mklist([Fn(None, 0, False, [c], lambda m, b: c.v), Fn(None, 1, False, [c], setc(c))])
        def curry(m, a):
            c = Cell(a[0])
            return Fn(None, 1, False, [c], lambda m, b: Cons(c.v, b[0]))
        def opened(m, a):
            c = Cell(a[0])
            m.callback(Fn(None, 0, False, [c], lambda m, b: c.v))
            return c.v
        def setcar(m, a):
            if isinstance(a[0], Vec) and a[0].length(): a[0].base.v[a[0].off] = a[1]
            elif not isinstance(a[0], Cons): raise Fail()
            else: a[0].car = a[1]
            return a[0]
        def setcdr(m, a):
            l, v = a
            if isinstance(l, Cons): l.cdr = v
            elif isinstance(l, Vec) and l.length() and v is NIL: del l.base.v[l.off + 1:]
            elif kind(l) in ('vector', 'string'): raise Discard('argument')
            else: raise Fail()
            return l
        add('f-id', '(lambda (x) x)', Fn('f-id', 1, False, [], lambda m, a: a[0]))
        add('f-k', '(lambda () 42)', Fn('f-k', 0, False, [], lambda m, a: 42))
        add('f-list', '(lambda (&rest r) r)', Fn('f-list', 0, True, [], lambda m, a: mklist(a)))
        add('f-rest', '(lambda (a &rest r) (cons a r))', Fn('f-rest', 1, True, [], lambda m, a: mklist(a)))
        add('f-cons', '(lambda (a b) (cons a b))', Fn('f-cons', 2, False, [], lambda m, a: Cons(a[0], a[1])))
        add('f-vec', '(lambda (a b c) (vector a b c))', Fn('f-vec', 3, False, [], lambda m, a: Vec(Base(list(a)))))
        add('f-setcar', '(lambda (l v) (set-car l v) l)', Fn('f-setcar', 2, False, [], setcar))
        add('f-setcdr', '(lambda (l v) (set-cdr l v) l)', Fn('f-setcdr', 2, False, [], setcdr))
        add('f-get', '(lambda () c)', Fn('f-get', 0, False, [cell], lambda m, a: cell.v))
        add('f-set', '(lambda (x) (setq c x))', Fn('f-set', 1, False, [cell], setc(cell)))
        add('f-acc', '(lambda (k) (setq n (+ n k)) n)', Fn('f-acc', 1, False, [acc], accf))
        add('f-fail', '(lambda (x) (cb-fail x))', Fn('f-fail', 1, False, [], failf))
        add('f-mk', '(lambda (x) (list (lambda () x) (lambda (y) (setq x y))))', Fn('f-mk', 1, False, [], mk))
        add('f-nest', '(lambda (x) (funcall (lambda () (funcall (lambda () (list (lambda () x) (lambda (y) (setq x y))))))))', Fn('f-nest', 1, False, [], mk))
        add('f-nest3', '(lambda (x) (funcall (lambda () (funcall (lambda () (funcall (lambda () (funcall (lambda () (list (lambda () x) (lambda (y) (setq x y))))))))))))', Fn('f-nest3', 1, False, [], mk))
        add('f-open', '(lambda (x) ((cb-api (lambda () x)) x))', Fn('f-open', 1, False, [], opened))
        add('f-open3', '(lambda (x) ((funcall (lambda () (funcall (lambda () (funcall (lambda () (cb-api (lambda () x)))))))) x))', Fn('f-open3', 1, False, [], opened))
        add('f-curry', '(lambda (x) (lambda (y) (cons x y)))', Fn('f-curry', 1, False, [], curry))
        add('f-deep', '(lambda (n) (if (= n 0) 0 (+ 1 (self (- n 1)))))', Fn('f-deep', 1, False, None, lambda m, a: a[0]))
        add('f-call', '(lambda (f x) (funcall f x))', Fn('f-call', 2, False, [], lambda m, a: m.apply(a[0], [a[1]])))
        add('f-apply', '(lambda (f l) (apply f l))', Fn('f-apply', 2, False, [], lambda m, a: m.apply(a[0], m.listargs(a[1]))))
        add('f-back', '(lambda (f x) (cb-call1 f x))', Fn('f-back', 2, False, [], lambda m, a: m.apply(a[0], [a[1]])))
        add('f-api', '(lambda (x) (cb-api x))', Fn('f-api', 1, False, [], lambda m, a: m.callback(a[0])))
        add('f-api2', '(lambda (x) ((var y (cb-api x)) (cons (cb-api y) x)))', Fn('f-api2', 1, False, [], lambda m, a: Cons(m.callback(m.callback(a[0])), a[0])))
        add('f-gget', '(lambda () g0)', Fn('f-gget', 0, False, None, lambda m, a: m.getglobal('g0')))
        add('f-gset', '(lambda (x) (setq g1 x))', Fn('f-gset', 1, False, None, lambda m, a: m.globals.__setitem__('g1', a[0]) or a[0]))
        src.append(' (global g1 1) 0)')
        self.globals['g1'] = 1
        self.source(''.join(src), 'i0')

    def getglobal(self, n):
        if n not in self.globals: raise Fail()
        return self.globals[n]

    def listargs(self, l):
        if kind(l) != 'list' or conses(l) is None: raise Fail()
        xs = []
        while isinstance(l, Cons):
            xs.append(l.car)
            l = l.cdr
        if l is not NIL or len(xs) > 250: raise Fail()
        return xs

    def apply(self, f, args):
        for _ in range(30):
            if isinstance(f, Comp): f = f.fn
        if isinstance(f, Comp): raise Discard('composites in a circle')
        if isinstance(f, Cb):
            if f.name == 'cb-api': return self.callback(args[0])
            raise Fail()
        if not isinstance(f, Fn): raise Fail()
        if (len(args) < f.arity) if f.rest else (len(args) != f.arity): raise Fail()
        if f.name in ('f-acc', 'f-deep') and (not isinstance(args[0], int) or isinstance(args[0], bool)): raise Discard('argument')
        if f.name == 'f-acc' and abs(args[0]) > 1 << 40: raise Discard('argument')
        if f.name == 'f-deep' and not 0 <= args[0] <= 60: raise Discard('argument')
        if f.name == 'f-setcar' and isinstance(args[0], Vec) and not args[0].length(): raise Discard('argument')
        self.level += 1
        try:
            if self.level > 12: raise Discard('depth')
            return f.run(self, args)
        finally: self.level -= 1

    def callable(self, f, args):
        """Whether the model can say what the call does (without running it)."""
        for _ in range(20):
            if isinstance(f, Comp): f = f.fn
        if isinstance(f, Comp): return False
        if isinstance(f, Cb): return f.name == 'cb-api' and len(args) == 1
        if not isinstance(f, Fn): return True
        if (len(args) < f.arity) if f.rest else (len(args) != f.arity): return True
        if f.name in ('f-acc', 'f-deep'): return isinstance(args[0], int) and not isinstance(args[0], bool) and 0 <= args[0] <= 60
        if f.name == 'f-setcar': return not isinstance(args[0], Vec) or args[0].length() > 0
        if f.name == 'f-setcdr': return kind(args[0]) not in ('string', 'vector') or (kind(args[0]) == 'vector' and args[0].length() > 0 and args[1] is NIL)
        if f.name in ('f-call', 'f-back'): return f.name != args[0] and self.callable(args[0], [args[1]])
        if f.name == 'f-apply':
            try: return self.callable(args[0], self.listargs(args[1]))
            except Fail: return False
        return True

    # ------------------------------------------------------------------ output
    def source(self, text, value):
        self.ops.append(('L', text.encode()))
        self.expect.append(('R', value))

    def script(self, lines): self.ops.append(('A', '\n'.join(lines).encode()))

    def callback(self, arg):
        """The host's callback: runs the next queued history on top of the stack."""
        if self.depth <= 0 or self.budget <= 0: raise Discard('depth')
        self.depth -= 1
        self.level += 1
        self.nested += 1
        slot = len(self.queue)
        self.queue.append(None)
        lines = []
        st = [arg]
        try:
            ok = self.steps(lines, st, self.r.choice([1, 3, 8, 15]), True)
            if not ok:
                lines.append('fail')
                self.expect.append(('O', 'fail'))
                raise Fail()
            if not st: self.do(lines, st, 'nil')
            elif len(st) > 1:
                self.do(lines, st, 'cft', '@0')
                self.do(lines, st, 'popn', len(st) - 1)
            return st[0]
        finally:
            self.queue[slot] = '\n'.join(lines).encode()
            self.depth += 1
            self.level -= 1

    # ------------------------------------------------------------------ one operation
    def do(self, lines, st, op, *args):
        self.nops += 1
        self.budget -= 1
        lines.append(' '.join([op] + [str(a) for a in args]))
        before = list(st)
        e, ret = 0, ''
        try:
            ret = self.step(st, op, *args)
            if ret is None: ret = ''
        except Err:
            st[:] = before
            e, ret = 1, ''
            self.errors += 1
        except Fail:
            st[:] = before
            self.expect.append(('O', '%s 1 ' % op))
            self.expect.append(('K', None))
            self.errors += 1
            return False
        if op in ('gettype', 'comptype') and not e:
            self.expect.append(('O=', ret))
            ret = ''
        self.expect.append(('O', '%s %d %s' % (op, e, ret)))
        self.expect.append(('K', [show(v) for v in st]))
        return True

    def index(self, st, i):
        if isinstance(i, str): i = int(i[1:])   # from the script's base
        elif i < 0: i += len(st)
        else: raise AssertionError
        if not 0 <= i < len(st): raise Err()
        return i

    def step(self, st, op, *a):
        def top(k=None):
            if not st: raise Err()
            if k and kind(st[-1]) != k: raise Err()
            return st[-1]
        if op == 'push': st.append(st[self.index(st, a[0])])
        elif op == 'pop':
            top()
            st.pop()
        elif op == 'popn':
            if a[0] > len(st): raise Err()
            if a[0]: del st[-a[0]:]
        elif op == 'cft':
            t = top()
            st[self.index(st, a[0])] = t
        elif op == 'len': return str(len(st))
        elif op == 'typeof': return str(self.typenum(top()))
        elif op == 'is':
            t = top()
            k = kind(t)
            if a[0] == 'nil': x = t is NIL
            elif a[0] == 'cons': x = isinstance(t, Cons)
            elif a[0] == 'empty':
                x = (t is NIL if k == 'list' else (t.base is None or len(t.base.v) <= t.off) if k == 'vector' else not t.b if k == 'string'
                     else (not t.ups) if k == 'closure' else False)
            else: x = k == a[0]
            return str(int(x))
        elif op == 'bool': st.append(False)
        elif op == 'setbool': top('bool'); st[-1] = bool(a[0])
        elif op == 'getbool': return str(int(top('bool')))
        elif op == 'int': st.append(0)
        elif op == 'setint': top('int'); st[-1] = a[0]
        elif op == 'getint': return str(top('int'))
        elif op == 'getuint': return str(top('int') % (1 << 64))
        elif op == 'float': st.append(0.0)
        elif op == 'setfloat': top('float'); st[-1] = float.fromhex(a[0])
        elif op == 'getfloat':
            x = top('float')
            return 'nan' if x != x else fhex(x)[1:]
        elif op == 'str': st.append(S(bytes.fromhex(a[0] if a else '')))
        elif op == 'getstr': return 'x' + top('string').b.hex()
        elif op == 'sym': st.append(Sym((a[0], bytes.fromhex(a[1] if len(a) > 1 else ''))))
        elif op == 'csym': st.append(Sym((a[0], None)))
        elif op == 'symname': return 'x' + (top('symbol').name[1] or b'').hex()
        elif op == 'symid': return str(top('symbol').name[0])
        elif op == 'newtype':
            st.append(Ty(New(self.newtypes)))
            self.newtypes += 1
        elif op == 'type': st.append(Ty(self.ty(a[0])))
        elif op == 'gettype': return tyname(top('type').n)
        elif op == 'comp': st.append(Comp(self.ty(a[0]), NIL, NIL))
        elif op == 'comptype': return tyname(top('composite').ty)
        elif op == 'compval': st.append(top('composite').val)
        elif op == 'compfn': st.append(top('composite').fn)
        elif op in ('setcompval', 'setcompfn'):
            t = top()
            c = st[self.index(st, a[0])]
            if not isinstance(c, Comp): raise Err()
            if op == 'setcompval': c.val = t
            else: c.fn = t
        elif op == 'nil': st.append(NIL)
        elif op == 'cons': st.append(Cons(NIL, NIL))
        elif op == 'vec': st.append(Vec(Base([NIL] * a[0])))
        elif op == 'cloarity': return str(top('closure').arity)
        elif op == 'clovar': return str(int(top('closure').rest))
        elif op in ('cloname', 'clobc'): top('closure')
        elif op in ('car', 'first'): st.append(self.element(top(), 0, True))
        elif op == 'elem': st.append(self.element(top(), a[0], False))
        elif op in ('cdr', 'rest'):
            t = top()
            k = kind(t)
            if k == 'list': st.append(t.cdr if isinstance(t, Cons) else NIL)
            elif k == 'vector':
                if t.length() < 2: raise Err()
                st.append(Vec(t.base, t.off + 1))
            elif k == 'string':
                if len(t.b) < 2: raise Err()
                st.append(S(t.b[1:]))
            else: raise Err()
        elif op in ('setcar', 'setfirst', 'setelem'):
            t = top()
            n = a[0] if op == 'setelem' else 0
            q = st[self.index(st, a[-1])]
            k = kind(q)
            if k == 'list':
                if n < 0: raise Err()
                for _ in range(n):
                    if not isinstance(q, Cons): raise Err()
                    q = q.cdr
                if not isinstance(q, Cons): raise Err()
                q.car = t
            elif k == 'vector':
                if not 0 <= n < q.length(): raise Err()
                q.base.v[q.off + n] = t
            elif k == 'closure':
                # Every closure that shares the variable sees the new value.
                if not 0 <= n < len(q.ups): raise Err()
                q.ups[n].v = t
            else: raise Err()
        elif op in ('setcdr', 'setrest'):
            t = top()
            q = st[self.index(st, a[0])]
            if not isinstance(q, Cons): raise Err()
            q.cdr = t
        elif op == 'length':
            t = top()
            k = kind(t)
            if k == 'list':
                n = conses(t)
                if n is None: raise Err()
            elif k == 'vector': n = t.length()
            elif k == 'string': n = len(t.b)
            elif k == 'closure': n = len(t.ups)
            else: raise Err()
            return str(n)
        elif op == 'gpush':
            if a[0] not in self.globals: raise Err()
            st.append(self.globals[a[0]])
        elif op == 'gset': self.globals[a[0]] = top()
        elif op == 'call':
            i = self.index(st, a[0])
            f, n = st[i], a[1]
            args = st[len(st) - n:]
            g = f
            for _ in range(30):
                if isinstance(g, Comp): g = g.fn
            if isinstance(g, Comp): raise Discard('composites in a circle')
            if not isinstance(g, (Fn, Cb)): raise Err()
            if isinstance(g, Fn) and ((n < g.arity) if g.rest else (n != g.arity)): raise Err()
            self.ncalls += 1
            v = self.apply(f, args)
            del st[len(st) - n:]
            st.append(v)
        elif op == 'gc': pass
        elif op == 'reset': del st[:]
        else: raise AssertionError(op)

    def ty(self, t): return New(int(t[1:])) if isinstance(t, str) else t

    def typenum(self, v): return dict(bool=1, int=2, float=3, string=4, list=5, symbol=6, function=7, closure=8, vector=9, type=10, composite=11, user=12)[kind(v)]

    def element(self, t, n, nilok):
        k = kind(t)
        if k == 'list':
            if n < 0: raise Err()
            if nilok and t is NIL: return NIL
            for _ in range(n):
                if not isinstance(t, Cons): raise Err()
                t = t.cdr
            if not isinstance(t, Cons): raise Err()
            return t.car
        if k == 'vector':
            if not 0 <= n < t.length(): raise Err()
            return t.base.v[t.off + n]
        if k == 'string':
            if not 0 <= n < len(t.b): raise Err()
            return t.b[n]
        if k == 'closure':
            if not 0 <= n < len(t.ups): raise Err()
            return t.ups[n].v
        raise Err()

    # ------------------------------------------------------------------ generation
    def pick(self, st):
        """An operation and its arguments; mostly meaningful, now and then not."""
        r = self.r
        t = st[-1] if st else None
        k = kind(t) if st else None
        wild = r.random() < .12
        def idx():
            if wild and r.random() < .5: return r.choice([-len(st) - 1, -len(st) - 3, '@%d' % len(st), '@%d' % (len(st) + 2)]) if self.level == 0 else '@%d' % len(st)
            if not st: return -1 if self.level == 0 else '@0'
            i = r.randrange(len(st))
            return '@%d' % i if r.random() < .4 else i - len(st)
        def where(*ks):
            c = [i for i in range(len(st)) if kind(st[i]) in ks]
            if not c or wild: return idx()
            i = r.choice(c)
            return '@%d' % i if r.random() < .4 else i - len(st)
        if len(st) > 9: return r.choice([('pop',), ('popn', r.randint(1, 8)), ('cft', idx())])
        x = r.random()
        if x < self.calls:
            # push a function and arguments, then call
            return ('CALL',)
        x = r.random()
        if not st or x < .28:
            return r.choice([('bool',), ('int',), ('int',), ('float',), ('str', bytes(r.randrange(256) for _ in range(r.choice([0, 1, 2, 5, 30]))).hex()),
                             ('sym', r.choice([0, 1, 5, 70000]), bytes(r.randrange(33, 127) for _ in range(r.choice([0, 1, 6]))).hex()), ('csym', r.choice([0, 3, 900])),
                             ('newtype',), ('type', r.choice([1, 2, 5, 12])), ('comp', r.choice([100, 5000, 'n0'] if self.newtypes else [100, 77777])), ('nil',), ('cons',), ('cons',),
                             ('vec', r.choice([0, 1, 2, 3, 7, 40])), ('gpush', r.choice(list(self.globals) + ['900001', 'g0', 'cb-api', 'no-such-name']))])
        if x < .42: return r.choice([('push', idx()), ('push', idx()), ('pop',), ('popn', r.randint(0, min(3, len(st)))), ('cft', idx()), ('len',), ('gc',)])
        if x < .55: return ('is', r.choice(['none', 'bool', 'int', 'float', 'string', 'symbol', 'type', 'composite', 'list', 'nil', 'cons', 'vector', 'closure', 'user', 'empty'])) if r.random() < .7 else ('typeof',)
        if x < .60: return ('gset', r.choice(['g0', 'g1', 'g0', '900001', '900002']))
        if wild: k = r.choice(['bool', 'int', 'float', 'string', 'symbol', 'type', 'composite', 'list', 'vector', 'closure'])
        y = r.random()
        if y < .3:
            return r.choice([('setcar', where('list', 'vector', 'closure')), ('setfirst', where('vector', 'list', 'closure')), ('setcdr', where('list')), ('setrest', where('list')),
                             ('setelem', r.choice([0, 0, 1, 2, 3, 6, -1]), where('vector', 'list', 'closure', 'closure')), ('setcompval', where('composite')), ('setcompfn', where('composite'))])
        seq = [('car',), ('first',), ('cdr',), ('rest',), ('rest',), ('elem', r.choice([0, 1, 2, 3, 6, -1, 41])), ('length',)]
        return r.choice({
            'bool': [('setbool', r.randrange(2)), ('getbool',)],
            'int': [('setint', r.choice([0, 1, -1, 7, 255, 256, -129, 1 << 31, -(1 << 63), (1 << 63) - 1, r.randrange(60)])), ('setint', r.randrange(60)), ('getint',), ('getuint',)],
            'float': [('setfloat', r.choice(['0x1p0', '-0x0p+0', '0x1.8p-3', '0x1p1023', '0x1p-1074', 'inf', '-inf', 'nan', '-0x1.999999999999ap-4'])), ('getfloat',)],
            'string': [('getstr',)] + seq, 'symbol': [('symname',), ('symid',)], 'type': [('gettype',)], 'composite': [('comptype',), ('compval',), ('compfn',)],
            'list': seq, 'vector': seq, 'closure': [('cloarity',), ('clovar',), ('cloname',), ('clobc',)] + seq, 'function': [('typeof',)], 'user': [('typeof',)]}[k])

    def allowed(self, st, op):
        """Leaves out what the interface does not define."""
        if not st: return op[0] not in ('is',) or True
        t = st[-1]
        if isinstance(t, Fn) and t.ups is None and (op[0] in ('length', 'first', 'car', 'elem') or op == ('is', 'empty')): return False
        if op[0] == 'is' and op[1] == 'empty' and isinstance(t, Fn) and t.ups is None: return False
        if op[0] in ('setcar', 'setfirst', 'setelem', 'setcdr', 'setrest'):
            try: q = st[self.index(st, op[-1])]
            except Err: return True
            if isinstance(q, Fn) and (q.ups is None or q.name == 'f-acc' and not (type(t) is int and abs(t) < 1000)) and op[0] not in ('setcdr', 'setrest'): return False
        if op[0] in ('setcar', 'setfirst', 'setcdr', 'setrest', 'setelem', 'setcompval', 'setcompfn', 'cft') and self.level and isinstance(op[-1], int) and op[-1] < -len(st): return False
        if op[0] in ('pop', 'cft', 'is', 'typeof') and not st and self.level: return False
        return True

    def safe(self, st, op):
        """Inside a callback the callers' part of the stack is not the script's to touch."""
        if not self.level: return True
        if op[0] in ('push', 'cft', 'setcar', 'setfirst', 'setcdr', 'setrest', 'setelem', 'setcompval', 'setcompfn') and isinstance(op[-1], int) and op[-1] < -len(st): return False
        if not st and op[0] not in ('bool', 'int', 'float', 'str', 'sym', 'csym', 'newtype', 'type', 'comp', 'nil', 'cons', 'vec', 'gpush', 'len', 'gc'): return False
        if op[0] == 'popn' and op[1] > len(st): return False
        return True

    def steps(self, lines, st, n, inside=False):
        """False if a called function failed."""
        r = self.r
        for _ in range(n):
            if self.budget <= 0: break
            op = self.pick(st)
            if op[0] == 'CALL':
                if not self.call(lines, st): return False
                continue
            if not self.allowed(st, op) or not self.safe(st, op): continue
            if not self.do(lines, st, *op): return False
            if inside and self.depth < 3 and r.random() < .02: return False
        return True

    def call(self, lines, st):
        r = self.r
        fs = [g for g in self.globals if isinstance(self.globals[g], (Fn, Comp, Cb)) or r.random() < .05]
        k = r.random()
        if k < .5 or not fs: cand = [i for i in range(len(st)) if isinstance(st[i], (Fn, Comp))]
        else: cand = []
        if cand: self.do(lines, st, 'push', '@%d' % r.choice(cand))
        else: self.do(lines, st, 'gpush', r.choice(fs))
        f = st[-1]
        for _ in range(20):
            if isinstance(f, Comp): f = f.fn
        n = f.arity + (r.choice([0, 0, 1, 3, 40]) if f.rest else 0) if isinstance(f, Fn) else 1
        if r.random() < .06 and isinstance(f, Fn): n = max(0, n + r.choice([-1, 1]))
        base = len(st) - 1
        for j in range(n):
            if isinstance(f, Fn) and f.name in ('f-call', 'f-back', 'f-apply') and j == 0:
                self.do(lines, st, 'gpush', r.choice([g for g in self.globals if isinstance(self.globals[g], Fn)]))
            elif isinstance(f, Fn) and f.name == 'f-apply':
                self.do(lines, st, 'cons')
                if r.random() < .5:
                    self.do(lines, st, 'int')
                    self.do(lines, st, 'setcar', -2)
                    self.do(lines, st, 'pop')
            elif isinstance(f, Fn) and f.name == 'f-setcdr' and j == 0 and any(isinstance(v, Vec) for v in st[:base]):
                self.do(lines, st, 'push', '@%d' % r.choice([i for i in range(base) if isinstance(st[i], Vec)]))
            elif isinstance(f, Fn) and f.name == 'f-setcdr' and j == 1: self.do(lines, st, 'nil')
            elif isinstance(f, Fn) and f.name in ('f-deep', 'f-acc'):
                self.do(lines, st, 'int')
                self.do(lines, st, 'setint', r.randrange(60))
            elif base > 0 and r.random() < .6: self.do(lines, st, 'push', '@%d' % r.randrange(base))
            else: self.do(lines, st, r.choice(['int', 'nil', 'cons', 'bool']))
        args = st[len(st) - n:] if n else []
        if not self.callable(st[base], args): return True
        if self.nestedDemand(st[base], args) and (self.depth <= 1 or self.budget < 40): return True
        ok = self.do(lines, st, 'call', r.choice(['@%d' % base, base - len(st)]), n)
        if ok and r.random() < .7 and len(st) > base + 1 and r.random() < .8:
            # as in the documentation: replace the function with the result
            self.do(lines, st, 'cft', '@%d' % base)
            self.do(lines, st, 'popn', len(st) - base - 1)
        return ok

    def nestedDemand(self, f, args):
        seen = 0
        while isinstance(f, Comp) and seen < 20: f, seen = f.fn, seen + 1
        if isinstance(f, Cb): return True
        if not isinstance(f, Fn): return False
        if f.name in ('f-api', 'f-api2'): return True
        if f.name in ('f-call', 'f-back', 'f-apply') and args: return self.nestedDemand(args[0], [])
        return False

    def history(self, scripts, n):
        r = self.r
        st = []
        self.globals['cb-api'] = Cb('cb-api')
        for _ in range(scripts):
            lines = []
            ok = self.steps(lines, st, n)
            if not ok or r.random() < .1: self.do(lines, st, 'reset')
            self.script(lines)
            if st:
                # The script language executes on an empty stack here: what it shows would include the host's values otherwise.
                lines = []
                self.do(lines, st, 'popn', len(st))
                self.script(lines)
            k = r.randrange(4)
            if k == 0 and 'g0' in self.globals and show(self.globals['g0']) is not None:
                self.source('(() (emit g0) g0)', None)
                self.expect[-1:] = [('T', show(self.globals['g0'])), ('R', show(self.globals['g0']))]
            elif k == 1 and show(self.globals['g1']) is not None: self.source('(() g1)', show(self.globals['g1']))
            elif k == 2:
                v = r.randrange(100)
                self.source('(() (setq g1 (list %d "s")) g1)' % v, '(i%d "s")' % v)
                self.globals['g1'] = mklist([v, S(b's')])
        return self

    def case(self):
        return [('Q', q) for q in self.queue] + self.ops


class Err(Exception):
    """The operation fails and changes nothing."""


def fixed(r, ops):
    """A history of given operations."""
    g = Gen(r, 0)
    g.globals['cb-api'] = Cb('cb-api')
    lines, st = [], []
    for op in ops:
        if not g.do(lines, st, *op): break
    g.script(lines)
    return g


VEC3 = [('vec', 3)] + [y for k in range(3) for y in (('int',), ('setint', 10 + k), ('setelem', k, '@0'), ('pop',))]
PROBE = [('length',), ('is', 'empty'), ('first',), ('pop',), ('elem', 0), ('elem', 1), ('elem', -1), ('rest',)]
FIXED = [
    # a vector that is cut off before its tail
    VEC3 + [('rest',), ('rest',), ('gpush', 'f-setcdr'), ('push', '@0'), ('nil',), ('call', '@3', 2), ('popn', 2), ('is', 'empty'), ('length',), ('elem', 0), ('push', '@1'), ('is', 'empty'), ('length',), ('first',), ('push', '@0'), ('length',), ('first',)],
    VEC3 + [('gpush', 'f-setcdr'), ('push', '@0'), ('nil',), ('call', '@1', 2)] + PROBE,
    # circular lists
    [('cons',), ('push', '@0'), ('setcdr', '@0'), ('length',), ('elem', 0), ('elem', 1000), ('elem', -1), ('rest',), ('rest',), ('first',)],
    [('cons',), ('setcar', '@0'), ('is', 'cons'), ('first',), ('rest',), ('is', 'nil'), ('int',), ('setelem', -1, '@0'), ('setelem', 1, '@0'), ('setelem', 0, '@0'), ('push', '@0'), ('first',)],
    [('cons',), ('cons',), ('setcdr', '@0'), ('setcdr', '@1'), ('length',), ('elem', -5), ('int',), ('setelem', -5, '@0'), ('setelem', 999, '@0')],
    # improper lists
    [('cons',), ('int',), ('setint', 5), ('setcdr', '@0'), ('pop',), ('length',), ('elem', 0), ('elem', 1), ('elem', 2), ('rest',), ('rest',), ('is', 'cons')],
] + [[o] + PROBE for o in (('nil',), ('cons',), ('vec', 0), ('vec', 1), ('vec', 2), ('str', ''), ('str', '41'), ('str', '4142'), ('int',), ('gpush', 'f-get'), ('gpush', 'f-id'), ('sym', 3, '41'), ('csym', 4), ('comp', 100), ('gpush', 'cb-api'))]


def make(r, calls, scripts, n):
    for _ in range(50):
        g = Gen(r, calls)
        try: return g.history(scripts, n)
        except (Discard, RecursionError): continue
    raise AssertionError('no history')


def compare(expect, obs):
    """None, or where the log first differs from the model."""
    k = 0
    last = ''
    for tag, rest in obs:
        if tag not in ('O', 'O=', 'K', 'R', 'T', 'C', 'SOFTRESET'): continue
        if k >= len(expect): return 'more events than expected: %s %s' % (tag, rest[:200])
        etag, want = expect[k]
        where = 'event %d (after %s)' % (k, last[:120])
        if tag == 'O': last = rest
        if tag != etag: return '%s: %s %s, the model has %s %s' % (where, tag, rest[:200], etag, str(want)[:200])
        if tag == 'K':
            if want is not None:
                have = rest.split(' ') if rest else []
                if not agree(want, rest): return '%s: the stack is [%s], the model has %s' % (where, rest[:300], [w if w is not None else '(large)' for w in want])
        elif tag == 'R':
            f = rest.split(' ', 2)
            if f[0] != '0' or (want is not None and f[2] != want): return '%s: the source ends with %s, the model has %s' % (where, rest[:200], want)
        elif want is not None and rest.rstrip() != want.rstrip(): return '%s: %s %s, the model has %s' % (where, tag, rest[:200], want)
        k += 1
    if k != len(expect): return 'the log ends after event %d of %d' % (k, len(expect))
    return None


def agree(want, line):
    if all(w is not None for w in want): return line == ' '.join(want)
    # Values that are too large to print are skipped, so only the parts before and after them are compared.
    i = 0
    while i < len(want) and want[i] is not None: i += 1
    j = len(want)
    while j > i and want[j - 1] is not None: j -= 1
    return line.startswith(' '.join(want[:i])) and line.endswith(' '.join(want[j:]))
