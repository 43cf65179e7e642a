"""Reference evaluator for duck-lisp, written from docs/language.md and docs/language-reference.md.

It works on syntax trees (see syntax.py) and shares no code with the implementation under test."""
import copy
import math
import sys
from syntax import Id, Flt, Int, Str


sys.setrecursionlimit(20000)


class DLError(Exception):
    """The program performs an operation that the language defines as a runtime error."""


# Longest list or vector, and longest string, that a program may make.
SIZE = [5000, 20000]


class Discard(Exception):
    """The program leaves the specified part of the language (for instance integer overflow)."""


class Nil:
    __slots__ = ()
    def __deepcopy__(self, memo): return self
NIL = Nil()


class Cons:
    # shared: whether the &rest list of an APPLY shares structure with the list that was passed is not specified.
    __slots__ = ('car', 'cdr', 'shared')
    def __init__(self, a, d, shared=False): self.car, self.cdr, self.shared = a, d, shared


class S:
    """String value (immutable bytes)."""
    __slots__ = ('b',)
    def __init__(self, b): self.b = b


class Base:
    __slots__ = ('v',)
    def __init__(self, v): self.v = v


class Vec:
    __slots__ = ('base', 'off')
    def __init__(self, base, off=0): self.base, self.off = base, off
    def length(self): return 0 if self.base is None else max(0, len(self.base.v) - self.off)


class Sym:
    __slots__ = ('name',)
    def __init__(self, name): self.name = name


class Clo:
    __slots__ = ('params', 'rest', 'body', 'env', 'comptime')
    def __init__(self, params, rest, body, env): self.params, self.rest, self.body, self.env = params, rest, body, env
    def __deepcopy__(self, memo):
        c = Clo(self.params, self.rest, self.body, None)
        memo[id(self)] = c
        c.env = copy.deepcopy(self.env, memo)
        return c


class Cb:
    __slots__ = ('name',)
    def __init__(self, name): self.name = name


class Ty:
    __slots__ = ('n',)
    def __init__(self, n): self.n = n


class Comp:
    __slots__ = ('ty', 'val', 'fn')
    def __init__(self, t, v, f): self.ty, self.val, self.fn = t, v, f


class User:
    __slots__ = ()


class Cell:
    __slots__ = ('v',)
    def __init__(self, v): self.v = v


class Scope:
    __slots__ = ('up', 'vars', 'funs')
    def __init__(self, up): self.up, self.vars, self.funs = up, {}, {}


LIMIT = 1 << 60


def is_num(x): return isinstance(x, (bool, int, float))


def fhex(x):
    if x != x: return 'fnan'
    if x in (math.inf, -math.inf): return 'f' + ('-' if x < 0 else '') + 'inf'
    h = x.hex()
    m, e = h.split('p')
    if '.' in m: m = m.rstrip('0').rstrip('.')
    return 'f' + m + 'p' + e


def esc(b):
    if isinstance(b, str): b = b.encode('latin-1')
    return ''.join('\\x%02x' % c if (c < 33 or c > 126 or c in b'"\\') else chr(c) for c in b)


class Printer:
    def __init__(self, nodes): self.n = nodes; self.o = []
    def show(self, v, depth=0):
        o = self.o
        self.n -= 1
        if self.n < 0: raise Discard('value too large to print')
        if depth > 140: raise Discard('value too deep to print')
        if v is True: o.append('#t')
        elif v is False: o.append('#f')
        elif isinstance(v, int): o.append('i%d' % v)
        elif isinstance(v, float): o.append(fhex(v))
        elif isinstance(v, S): o.append('"' + esc(v.b) + '"')
        elif isinstance(v, Sym): o.append("'" + esc(v.name))
        elif isinstance(v, Cb): o.append('#fn')
        elif isinstance(v, Clo): o.append('#clo(%d%s)' % (len(v.params), '?' if v.rest else ''))
        elif v is NIL: o.append('()')
        elif isinstance(v, Cons):
            o.append('(')
            first = True
            while isinstance(v, Cons):
                self.n -= 1
                if self.n < 0: raise Discard('value too large to print')
                if not first: o.append(' ')
                first = False
                self.show(v.car, depth + 1)
                v = v.cdr
            if v is not NIL:
                o.append(' . ')
                self.show(v, depth + 1)
            o.append(')')
        elif isinstance(v, Vec):
            o.append('[')
            if v.base:
                for i in range(v.off, len(v.base.v)):
                    if i != v.off: o.append(' ')
                    self.show(v.base.v[i], depth + 1)
            o.append(']')
        elif isinstance(v, Ty): o.append('T%d' % v.n)
        elif isinstance(v, Comp):
            o.append('#C(T%d ' % v.ty)
            self.show(v.val, depth + 1)
            o.append(' ')
            self.show(v.fn, depth + 1)
            o.append(')')
        elif isinstance(v, User): o.append('#user')
        else: raise AssertionError(v)


def show(v, nodes=1400):
    p = Printer(nodes)
    p.show(v)
    return ''.join(p.o)


FIRST_USER_TYPE = 20
CALLBACKS = {'emit': 1, 'cb-fail': 1, 'cb-gc': 0, 'cb-call0': 1, 'cb-call1': 2, 'cb-call2': 3, 'cb-call3': 4,
             'cb-sub': 2, 'cb-seven': 0, 'cb-user': 1}


class Machine:
    """One VM (run time or compile time): globals, type counter, trace."""
    def __init__(self, fuel=200000):
        self.globals = {n: Cell(Cb(n)) for n in CALLBACKS}
        self.nextType = FIRST_USER_TYPE
        self.trace = []
        self.fuel = fuel
        self.depth = self.left = 0

    # -------------------------------------------------------------- helpers
    def truthy(self, v):
        if v is True or v is False: return v
        if isinstance(v, int): return v != 0
        if isinstance(v, float): return v != 0.0
        if v is NIL: return False
        if isinstance(v, (Cons, Sym, Clo, Cb)): return True
        if isinstance(v, S): return len(v.b) > 0
        if isinstance(v, Vec): return v.length() > 0
        raise Discard('truth value of this type is not specified')

    def wrap(self, n):
        if not -LIMIT < n < LIMIT: raise Discard('integer range')
        return n

    def arith(self, op, a, b):
        if not (is_num(a) and is_num(b)): raise DLError('arith type')
        if isinstance(a, bool) and isinstance(b, bool): raise Discard('bool arithmetic')
        if isinstance(a, float) or isinstance(b, float):
            x, y = float(a), float(b)
            try:
                if op == '+': return x + y
                if op == '-': return x - y
                if op == '*': return x * y
                if y == 0.0: raise Discard('float division by zero')
                return x / y
            except OverflowError:
                raise Discard('float range')
        a, b = int(a), int(b)
        if op == '+': return self.wrap(a + b)
        if op == '-': return self.wrap(a - b)
        if op == '*': return self.wrap(a * b)
        if b == 0: raise DLError('division by zero')
        q = abs(a) // abs(b)
        return q if (a < 0) == (b < 0) else -q

    def compare(self, op, a, b):
        if not (is_num(a) and is_num(b)): raise DLError('compare type')
        if isinstance(a, float) or isinstance(b, float): a, b = float(a), float(b)
        return (a < b) if op == '<' else (a > b)

    def equal(self, a, b):
        if isinstance(a, (Clo, Cb, Comp, User)) or isinstance(b, (Clo, Cb, Comp, User)):
            raise Discard('equality of functions')
        ta, tb = self.typenum(a), self.typenum(b)
        if ta != tb: return False
        if isinstance(a, S): return a.b == b.b
        if isinstance(a, Sym): return a.name == b.name
        if isinstance(a, Vec):
            if a.length() == 0 or b.length() == 0: raise Discard('identity of empty vectors')
            return a.base is b.base and a.off == b.off
        if isinstance(a, Ty): return a.n == b.n
        if isinstance(a, (Cons, Nil)):
            if a is not b and isinstance(a, Cons) and isinstance(b, Cons) and a.shared and b.shared: raise Discard('sharing of rest lists')
            return a is b
        return a == b

    def typenum(self, v):
        if isinstance(v, bool): return 1
        if isinstance(v, int): return 2
        if isinstance(v, float): return 3
        if isinstance(v, S): return 4
        if isinstance(v, (Cons, Nil)): return 5
        if isinstance(v, Sym): return 6
        if isinstance(v, Cb): return 7
        if isinstance(v, Clo): return 8
        if isinstance(v, Vec): return 9
        if isinstance(v, Ty): return 10
        if isinstance(v, Comp): return v.ty
        if isinstance(v, User): return 12
        raise AssertionError(v)

    # -------------------------------------------------------------- environments
    def lookup(self, name, env):
        s = env
        while s is not None:
            c = s.vars.get(name)
            if c is not None: return c
            s = s.up
        return self.globals.get(name)

    def lookup_fun(self, name, env):
        s = env
        while s is not None:
            c = s.funs.get(name)
            if c is not None: return c
            s = s.up
        return None

    # -------------------------------------------------------------- calls
    def call(self, f, args, shared=False):
        self.fuel -= 1
        if self.fuel < 0: raise Discard('fuel')
        hops = 0
        while isinstance(f, Comp):
            f = f.fn
            hops += 1
            if hops > 100: raise Discard('composite cycle')
        if isinstance(f, Cb): return self.callback(f.name, args)
        if not isinstance(f, Clo): raise DLError('not a function')
        n = len(f.params)
        if f.rest is None:
            if len(args) != n: raise DLError('arity')
        elif len(args) < n: raise DLError('arity')
        s = Scope(f.env)
        for p, a in zip(f.params, args): s.vars[p] = Cell(a)
        if f.rest is not None:
            l = NIL
            for a in reversed(args[n:]): l = Cons(a, l, shared)
            s.vars[f.rest] = Cell(l)
        s.vars['self'] = s.funs['self'] = Cell(f)
        self.depth += 1
        if self.depth > 180: raise Discard('depth')
        try:
            return self.body(f.body, s)
        finally:
            self.depth -= 1

    def callback(self, name, args):
        try: return self.called(name, args)
        except DLError:
            self.left += 1
            raise

    def called(self, name, args):
        if len(args) != CALLBACKS[name]: raise Discard('callback arity is the caller\'s duty')
        if name == 'emit':
            if len(self.trace) >= 1500: raise Discard('trace too long')
            self.trace.append(show(args[0], 150))
            return args[0]
        if name == 'cb-fail': raise DLError('callback error')
        if name == 'cb-gc': return NIL
        if name in ('cb-call0', 'cb-call1', 'cb-call2', 'cb-call3'): return self.call(args[0], list(args[1:]))
        if name == 'cb-sub':
            a, b = args
            if type(a) is not int or type(b) is not int: raise DLError('cb-sub type')
            return self.wrap(a - b)
        if name == 'cb-seven': return 7
        if name == 'cb-user': return User()
        raise AssertionError(name)

    # -------------------------------------------------------------- evaluation
    def body(self, forms, scope):
        r = NIL
        for f in forms: r = self.ev(f, scope)
        return r

    def quote(self, a):
        if isinstance(a, Id): return Sym(a.name)
        if isinstance(a, list):
            l = NIL
            for x in reversed(a): l = Cons(self.quote(x), l)
            return l
        return self.literal(a)

    def literal(self, a):
        if isinstance(a, (Flt, Int)): return a.value
        if isinstance(a, Str): return S(a.b)
        return a

    def ev(self, a, env):
        self.fuel -= 1
        if self.fuel < 0: raise Discard('fuel')
        if isinstance(a, Id):
            c = self.lookup(a.name, env)
            if c is None: raise DLError('unbound variable')
            return c.v
        if not isinstance(a, list): return self.literal(a)
        if not a: return NIL
        h = a[0]
        if not isinstance(h, Id):
            return self.body(a, Scope(env))
        name = h.name
        c = self.lookup_fun(name, env)
        if c is not None:
            args = [self.ev(x, env) for x in a[1:]]
            return self.call(c.v, args)
        m = KEYWORDS.get(name)
        if m is not None: return m(self, a, env)
        g = self.globals.get(name)
        args = [self.ev(x, env) for x in a[1:]]
        g = self.globals.get(name)
        if g is None: raise DLError('undefined function')
        return self.call(g.v, args)


def kw(*names):
    def deco(f):
        for n in names:
            KEYWORDS[n] = f
            KEYWORDS['__' + n] = f
        return f
    return deco


KEYWORDS = {}


@kw('+', '-', '*', '/')
def k_arith(m, a, env):
    op = a[0].name[-1]
    x = m.ev(a[1], env)
    y = m.ev(a[2], env)
    return m.arith(op, x, y)


@kw('<', '>')
def k_cmp(m, a, env):
    x = m.ev(a[1], env)
    y = m.ev(a[2], env)
    return m.compare(a[0].name[-1], x, y)


@kw('=')
def k_eq(m, a, env):
    x = m.ev(a[1], env)
    y = m.ev(a[2], env)
    return m.equal(x, y)


@kw('not')
def k_not(m, a, env):
    x = m.ev(a[1], env)
    if isinstance(x, bool): return not x
    if isinstance(x, int): return int(not x)
    if isinstance(x, float): return float(not x)
    if isinstance(x, (Nil, Cons)): return x is NIL
    if isinstance(x, Vec): return x.length() == 0
    if isinstance(x, S): return len(x.b) == 0
    raise DLError('not type')


@kw('var')
def k_var(m, a, env):
    v = m.ev(a[2], env)
    env.vars[a[1].name] = Cell(v)
    return v


@kw('global')
def k_global(m, a, env):
    v = m.ev(a[2], env)
    m.globals[a[1].name] = Cell(v)
    return v


@kw('setq')
def k_setq(m, a, env):
    v = m.ev(a[2], env)
    c = m.lookup(a[1].name, env)
    if c is None: m.globals[a[1].name] = Cell(v)
    else: c.v = v
    return v


@kw('if')
def k_if(m, a, env):
    c = m.truthy(m.ev(a[1], env))
    return m.ev(a[2] if c else a[3], Scope(env))


@kw('when')
def k_when(m, a, env):
    if m.truthy(m.ev(a[1], env)): return m.body(a[2:], Scope(env))
    return NIL


@kw('unless')
def k_unless(m, a, env):
    if m.truthy(m.ev(a[1], env)): return NIL
    return m.body(a[2:], Scope(env))


@kw('while')
def k_while(m, a, env):
    while m.truthy(m.ev(a[1], env)): m.body(a[2:], Scope(env))
    return NIL


def _freeze(env):
    """The bindings visible where a function is written. Later definitions in the same scopes are invisible to its body;
    assignments to existing ones are shared through the cells."""
    if env is None: return None
    s = Scope(_freeze(env.up))
    s.vars = dict(env.vars)
    s.funs = dict(env.funs)
    return s


def make(m, params, body, env):
    ps, rest, i = [], None, 0
    while i < len(params):
        if params[i].name == '&rest':
            rest = params[i + 1].name
            i += 2
        else:
            ps.append(params[i].name)
            i += 1
    return Clo(ps, rest, body, _freeze(env))


@kw('lambda')
def k_lambda(m, a, env): return make(m, a[1], a[2:], env)


@kw('defun')
def k_defun(m, a, env):
    f = make(m, a[2], a[3:], env)
    cell = Cell(f)
    env.vars[a[1].name] = cell
    env.funs[a[1].name] = cell
    return f


@kw('noscope')
def k_noscope(m, a, env): return m.body(a[1:], env)


@kw('quote')
def k_quote(m, a, env): return m.quote(a[1])


@kw('list')
def k_list(m, a, env):
    vals = [m.ev(x, env) for x in reversed(a[1:])]
    l = NIL
    for v in vals: l = Cons(v, l)
    return l


@kw('vector')
def k_vector(m, a, env):
    vals = [m.ev(x, env) for x in reversed(a[1:])]
    return Vec(Base(vals[::-1]))


@kw('make-vector')
def k_make_vector(m, a, env):
    n = m.ev(a[1], env)
    v = m.ev(a[2], env)
    if type(n) is not int or n < 0: raise DLError('make-vector length')
    if n > SIZE[0]: raise Discard('size')
    return Vec(Base([v] * n))


@kw('get-vector-element')
def k_gve(m, a, env):
    v = m.ev(a[1], env)
    i = m.ev(a[2], env)
    if not isinstance(v, (Vec, S)) or type(i) is not int: raise DLError('get-vector-element type')
    n = v.length() if isinstance(v, Vec) else len(v.b)
    if not 0 <= i < n: raise DLError('get index')
    return v.base.v[v.off + i] if isinstance(v, Vec) else v.b[i]


@kw('set-vector-element')
def k_sve(m, a, env):
    v = m.ev(a[1], env)
    i = m.ev(a[2], env)
    x = m.ev(a[3], env)
    if isinstance(v, S): raise Discard('string mutation')
    if not isinstance(v, Vec) or type(i) is not int: raise DLError('set-vector-element type')
    if not 0 <= i < v.length(): raise DLError('index')
    v.base.v[v.off + i] = x
    return x


@kw('cons')
def k_cons(m, a, env):
    x = m.ev(a[1], env)
    y = m.ev(a[2], env)
    return Cons(x, y)


@kw('car')
def k_car(m, a, env):
    x = m.ev(a[1], env)
    if x is NIL: return NIL
    if isinstance(x, Cons): return x.car
    if isinstance(x, Vec): return x.base.v[x.off] if x.length() else Vec(None)
    if isinstance(x, S): return x.b[0] if x.b else S(b'')
    raise DLError('car type')


@kw('cdr')
def k_cdr(m, a, env):
    x = m.ev(a[1], env)
    if x is NIL: return NIL
    if isinstance(x, Cons): return x.cdr
    if isinstance(x, Vec): return Vec(x.base, x.off + 1) if x.length() > 1 else Vec(None)
    if isinstance(x, S): return S(x.b[1:])
    raise DLError('cdr type')


@kw('set-car')
def k_setcar(m, a, env):
    x = m.ev(a[1], env)
    y = m.ev(a[2], env)
    if isinstance(x, S): raise Discard('string mutation')
    if isinstance(x, Cons):
        if x.shared: raise Discard('sharing of rest lists')
        x.car = y
    elif isinstance(x, Vec) and x.length(): x.base.v[x.off] = y
    else: raise DLError('set-car')
    return x


@kw('set-cdr')
def k_setcdr(m, a, env):
    x = m.ev(a[1], env)
    y = m.ev(a[2], env)
    if isinstance(x, S): raise Discard('string mutation')
    if isinstance(x, Cons):
        if x.shared: raise Discard('sharing of rest lists')
        x.cdr = y
    elif isinstance(x, Vec) and x.length() and (y is NIL or (isinstance(y, Vec) and y.length() == 0)):
        if isinstance(y, Vec) and y.base is not None: raise Discard('empty but not null vector')
        del x.base.v[x.off + 1:]
    else: raise DLError('set-cdr')
    return x


@kw('null?')
def k_null(m, a, env):
    x = m.ev(a[1], env)
    if x is NIL: return True
    if isinstance(x, Vec): return x.length() == 0
    if isinstance(x, S): return len(x.b) == 0
    return False


@kw('type-of')
def k_typeof(m, a, env): return Ty(m.typenum(m.ev(a[1], env)))


@kw('make-type')
def k_maketype(m, a, env):
    m.nextType += 1
    return Ty(m.nextType - 1)


@kw('make-instance')
def k_makeinstance(m, a, env):
    t = m.ev(a[1], env)
    v = m.ev(a[2], env)
    f = m.ev(a[3], env)
    if not isinstance(t, Ty) or t.n < FIRST_USER_TYPE: raise DLError('make-instance type')
    return Comp(t.n, v, f)


@kw('composite-value')
def k_cv(m, a, env):
    x = m.ev(a[1], env)
    if not isinstance(x, Comp): raise DLError('composite')
    return x.val


@kw('composite-function')
def k_cf(m, a, env):
    x = m.ev(a[1], env)
    if not isinstance(x, Comp): raise DLError('composite')
    return x.fn


@kw('set-composite-value')
def k_scv(m, a, env):
    x = m.ev(a[1], env)
    y = m.ev(a[2], env)
    if not isinstance(x, Comp): raise DLError('composite')
    x.val = y
    return x


@kw('set-composite-function')
def k_scf(m, a, env):
    x = m.ev(a[1], env)
    y = m.ev(a[2], env)
    if not isinstance(x, Comp): raise DLError('composite')
    x.fn = y
    return x


@kw('make-string')
def k_makestring(m, a, env):
    x = m.ev(a[1], env)
    if isinstance(x, Vec): l = list(x.base.v[x.off:]) if x.base else []
    elif isinstance(x, (Cons, Nil)):
        l = []
        while isinstance(x, Cons):
            l.append(x.car)
            x = x.cdr
            if len(l) > SIZE[0]: raise Discard('cycle')
        if x is not NIL: raise DLError('improper list')
    else: raise DLError('make-string type')
    for c in l:
        if type(c) is not int: raise DLError('make-string element')
    return S(bytes(c & 255 for c in l))


def _bytes(x):
    if isinstance(x, S): return x.b
    if isinstance(x, Sym): return x.name if isinstance(x.name, bytes) else x.name.encode('latin-1')
    raise DLError('string or symbol expected')


@kw('concatenate')
def k_concat(m, a, env):
    x = m.ev(a[1], env)
    y = m.ev(a[2], env)
    r = _bytes(x) + _bytes(y)
    if len(r) > SIZE[1]: raise Discard('size')
    return S(r)


@kw('substring')
def k_substring(m, a, env):
    x = m.ev(a[1], env)
    i = m.ev(a[2], env)
    j = m.ev(a[3], env)
    if not isinstance(x, S) or type(i) is not int or type(j) is not int: raise DLError('substring type')
    if not (0 <= i <= j <= len(x.b)): raise DLError('substring range')
    return S(x.b[i:j])


@kw('length')
def k_length(m, a, env):
    x = m.ev(a[1], env)
    if isinstance(x, (Cons, Nil)):
        n = 0
        seen = set()
        while isinstance(x, Cons):
            if id(x) in seen: raise DLError('circular list')
            seen.add(id(x))
            n += 1
            x = x.cdr
        return n
    if isinstance(x, Vec): return x.length()
    if isinstance(x, S): return len(x.b)
    raise DLError('length type')


@kw('symbol-string')
def k_symstr(m, a, env):
    x = m.ev(a[1], env)
    if not isinstance(x, Sym): raise DLError('symbol expected')
    return S(_bytes(x))


@kw('funcall')
def k_funcall(m, a, env):
    f = m.ev(a[1], env)
    args = [m.ev(x, env) for x in a[2:]]
    return m.call(f, args)


@kw('apply')
def k_apply(m, a, env):
    f = m.ev(a[1], env)
    args = [m.ev(x, env) for x in a[2:-1]]
    l = m.ev(a[-1], env)
    if not isinstance(l, (Cons, Nil)): raise DLError('apply list')
    g, hops = f, 0
    while isinstance(g, Comp) and hops < 100: g, hops = g.fn, hops + 1
    rest = isinstance(g, Clo) and g.rest is not None
    n = 0
    while isinstance(l, Cons):
        args.append(l.car)
        if rest: l.shared = True
        l = l.cdr
        n += 1
        if n > 5000: raise Discard('cycle')
    if l is not NIL: raise Discard('improper apply list')
    if len(args) > 255: raise Discard('too many arguments')
    return m.call(f, args, rest)


def run_program(forms_ast, machine):
    """Evaluate one compilation unit. Returns ('V', value) or ('E', reason)."""
    machine.depth = machine.left = 0
    try:
        return ('V', machine.ev(forms_ast, Scope(None)))
    except DLError as e:
        return ('E', str(e))
    except RecursionError:
        raise Discard('recursion')
