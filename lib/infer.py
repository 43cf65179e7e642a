"""Writes a program for the parenthesis inferrer: the same tree, with parentheses left out and `#` put where the declared
types call for it. Follows docs/parenthesis-inference.md."""
from syntax import Id, Int, Flt, Str, text

L = 'L'


def F(pos, rest=None, script=None): return ('F', pos, rest, script)   # rest: (default count, kind)


BUILTIN = {'declare': F('LL', (0, 'I')), 'nop': F(''), 'funcall': F('I', (1, 'I')), 'apply': F('I', (1, 'I')), 'var': F('LI'), 'global': F('LI'), 'setq': F('LI'), 'not': F('I'),
           '*': F('II'), '/': F('II'), '+': F('II'), '-': F('II'), 'while': F('I', (1, 'I')), 'if': F('III'), 'when': F('I', (1, 'I')), 'unless': F('I', (1, 'I')), '=': F('II'), '<': F('II'), '>': F('II'),
           'defun': F('LL', (1, 'I')), 'lambda': F('L', (1, 'I')), 'defmacro': F('LL', (1, 'I')), 'noscope': F('', (0, 'I')), 'comptime': F('', (1, 'I')), 'quote': F('I'), 'list': F('', (0, 'I')), 'vector': F('', (0, 'I')),
           'make-vector': F('II'), 'get-vector-element': F('II'), 'set-vector-element': F('III'), 'cons': F('II'), 'car': F('I'), 'cdr': F('I'), 'set-car': F('II'), 'set-cdr': F('II'), 'null?': F('I'), 'type-of': F('I'),
           'make-type': F(''), 'make-instance': F('III'), 'composite-value': F('I'), 'composite-function': F('I'), 'set-composite-value': F('II'), 'set-composite-function': F('II'), 'make-string': F('I'), 'concatenate': F('II'),
           'substring': F('III'), 'length': F('I'), 'symbol-string': F('I'), 'symbol-id': F('I'), 'error': F('I')}
for k in list(BUILTIN): BUILTIN['__' + k] = BUILTIN[k]
BUILTIN.update({'gensym': F(''), 'intern': F('I'), 'read': F('II')})
SPECIAL = {'var', 'global', 'defun', 'lambda', 'defmacro', 'quote'}




class Bad(Exception): pass


def signature(t):
    """A type as it is written."""
    if isinstance(t, str): return t
    o = list(t[1])
    if t[2]: o += ['&rest', str(t[2][0]), t[2][1]]
    return '(' + ' '.join(o) + ')'


# Macros that stand for forms which declare names: (definition, type, script) of each.
_PARAMS = """(var parameters (infer-and-get-next-argument)) (var type ())
 (() (var p parameters) (while p (if (= (quote #&rest) (car p)) (setq type (cons 0 (cons (quote #&rest) type))) (setq type (cons (quote #I) type))) (setq p (cdr p))))
 (() (var q type) (setq type ()) (while q (setq type (cons (car q) type)) (setq q (cdr q))))
 (declaration-scope (while parameters (unless (= (quote #&rest) (car parameters)) (declare-identifier (car parameters) (quote #L))) (setq parameters (cdr parameters)))
  (declare-identifier (quote #self) type) (infer-and-get-next-argument))"""
ALIASES = {'var': ('mac-var', '(n v) (list (quote #var) n v)', F('LI'), '(declare-identifier (infer-and-get-next-argument) (quote #L))'),
           'lambda': ('mac-lambda', '(p &rest b) (cons (quote #lambda) (cons p b))', F('L', (1, 'I')), '(() ' + _PARAMS + ')'),
           'defun': ('mac-defun', '(n p &rest b) (cons (quote #defun) (cons n (cons p b)))', F('LL', (1, 'I')), '(() (var name (infer-and-get-next-argument)) ' + _PARAMS + ' (declare-identifier name type))'),
           'list': ('mac-list', '(&rest b) (cons (quote #list) b)', F('', (2, 'I')), None), 'if': ('mac-if', '(a b c) (list (quote #if) a b c)', F('III'), None)}
STANDS = {v[0]: k for k, v in ALIASES.items()}
MACROS = {v[0]: v for v in ALIASES.values()}


class Inferred:
    """drop: how likely parentheses are left out where they may be; declare: how likely a declaration follows a definition."""
    def __init__(self, r, callbacks, drop=.7, literal=.03, extra=.05, declare=0, fault=None):
        self.r, self.drop, self.literal, self.extra, self.declares, self.fault, self.items = r, drop, literal, extra, declare, fault, 0
        self.scopes = [dict(BUILTIN, **callbacks), {}]
        self.dropped = self.hashes = self.lit = self.declared = self.scripts = 0

    def lookup(self, n):
        for s in reversed(self.scopes):
            if n in s: return s[n]
        return None

    def declare(self, n, t): self.scopes[-1][n] = t

    def ws(self):
        r = self.r.random()
        return b' ' if r < .8 else b'\n' if r < .9 else b'  ; x ) ( \n'

    def seq(self, xs): return self.ws().join(self.item(x) for x in xs)

    def body(self, xs):
        """Expressions in a row, with declarations between them."""
        o = []
        for i, x in enumerate(xs):
            o.append(self.item(x))
            if i + 1 < len(xs) and self.r.random() < self.declares:
                d = self.declaration(x)
                if d: o.append(d)
        return self.ws().join(o)

    # ------------------------------------------------------------ declarations
    def declaration(self, x):
        r = self.r
        names = list(self.scopes[-1])
        n = None
        if isinstance(x, list) and len(x) > 2 and isinstance(x[0], Id) and self.base(x[0].name) in ('var', 'global', 'defun') and isinstance(x[1], Id): n = x[1].name
        elif names and r.random() < .3: n = r.choice(names)
        if n is None or n == 'self' or n in MACROS: return None
        t = self.lookup(n)
        new = r.choice(['L', 'I', 'L', F('I')]) if t in ('L', 'I') else self.signatureof(t) if t else None
        if new is None: return None
        self.declared += 1
        w = b'__declare ' if r.random() < .3 else b'declare '
        s = w + n.encode('latin-1') + self.ws() + signature(new).encode()
        if isinstance(new, tuple) and r.random() < .5:
            acts = self.script(len(new[1]) + (1 if new[2] else 0), n)
            new = new[:3] + (acts,)
            self.scripts += 1
            s = b'(' + s + self.ws() + b'(() ' + self.scripttext(acts) + b'))'
        elif r.random() < .5: s = b'(' + s + b')'
        self.declare(n, new)
        return s

    def signatureof(self, t):
        """Another type under which calls like those before are possible."""
        r = self.r
        pos, rest = t[1], t[2]
        if rest and r.random() < .3:
            pos, rest = pos + 'I' * r.choice([0, 1, 2]), None
        elif rest and r.random() < .3: pos += 'I'
        elif not rest and pos and r.random() < .2: pos, rest = pos[:-1], (1, 'I')
        pos = ''.join(r.choice('IIIL') for _ in pos)
        if rest: rest = (r.choice([0, 1, 2, 3, -1]), r.choice('IIIL'))
        return F(pos, rest)

    def script(self, n, name):
        """n arguments can be inferred."""
        r = self.r
        left = [r.randint(0, n)]
        def acts(depth):
            o = []
            for _ in range(r.choice([1, 2, 3])):
                k = r.randrange(4)
                if k < 2 and left[0]:
                    left[0] -= 1
                    o.append(('arg',))
                elif k == 2:
                    m = r.choice(sorted(set(k for s in self.scopes[1:] for k in s) - set(MACROS) - {'self'}) or ['unused-name'])
                    if m != name: o.append(('decl', m, r.choice(['L', 'L', 'I', F('I'), F(''), F('II'), F('', (1, 'I'))])))
                elif depth and r.random() < .5: o.append(('scope', acts(depth - 1)))
            return o
        return acts(2) + ([('arg',)] * left[0] if r.random() < .5 else [])

    def scripttext(self, acts):
        o = []
        r = self.r
        for a in acts:
            if a[0] == 'arg': o.append(r.choice(['(infer-and-get-next-argument)', 'infer-and-get-next-argument', '(__infer-and-get-next-argument)']))
            elif a[0] == 'decl': o.append(r.choice(['(declare-identifier %s (quote #%s))', '__declare-identifier %s quote #%s']) % (r.choice(['quote #' + a[1], '"' + a[1] + '"']), signature(a[2])))
            else: o.append('(declaration-scope ' + self.scripttext(a[1]).decode('latin-1') + ')')
        return ' '.join(o + ['()']).encode('latin-1')

    # ------------------------------------------------------------ expressions
    def base(self, n):
        n = n[2:] if n.startswith('__') and n[2:] in BUILTIN else n
        return STANDS.get(n, n)

    def item(self, x):
        r = self.r
        self.items += 1
        if self.items == self.fault:
            self.fault = r.choice(FAULTS)
            return self.fault.encode()
        if isinstance(x, Id):
            n = x.name.encode('latin-1') if isinstance(x.name, str) else x.name
            if isinstance(self.lookup(x.name), str) and r.random() >= self.extra: return n
            self.hashes += 1
            return b'#' + n
        if not isinstance(x, list): return text(x)
        if not x: return b'()'
        h = x[0]
        if not isinstance(h, Id):
            self.scopes.append({})
            first = self.item_kept(h)
            rest = self.body(x[1:])
            self.scopes.pop()
            return b'(' + first + (self.ws() + rest if x[1:] else b'') + b')'
        if r.random() < self.literal:
            # Taken as it is. Declarations in it are not seen.
            self.lit += 1
            return b'#' + text(x)
        return self.call(x, r.random() < self.drop)

    def item_kept(self, x):
        """The same, where a form without parentheses would be taken for the head of the expression."""
        if isinstance(x, list) and x and isinstance(x[0], Id): return self.call(x, False)
        if isinstance(x, Id): raise Bad
        return self.item(x)

    def call(self, x, drop):
        n = x[0].name
        t = self.lookup(n)
        b = n.encode('latin-1')
        args = x[1:]
        if t is None or isinstance(t, str) or not self.fits(t, len(args)):
            if self.base(n) in SPECIAL: raise Bad
            if t == L and self.r.random() < .8: return b'(' + b + (self.ws() + self.seq(args) if args else b'') + b')'
            self.hashes += 1
            return b'(#' + b + (self.ws() + self.seq(args) if args else b'') + b')'
        a = self.args(n, t, args)
        s = b + (self.ws() + self.ws().join(a) if a else b'')
        if drop and len(args) == len(t[1]) + (t[2][0] if t[2] else 0):
            self.dropped += 1
            return s
        return b'(' + s + b')'

    def fits(self, t, n): return n == len(t[1]) if t[2] is None else n >= len(t[1])

    def params(self, ps):
        pos, rest = '', None
        names = []
        for p in ps:
            if not isinstance(p, Id): raise Bad
            if p.name == '&rest': rest = (0, 'I')
            else:
                names.append(p.name)
                if rest is None: pos += 'I'
        return names, F(pos, rest)

    def args(self, n, t, args):
        n = self.base(n)
        out = []
        if n in ('var', 'global', 'h-let'):
            out.append(text(args[0]))
            self.declare(args[0].name, L)
            return out + [self.item(a) for a in args[1:]]
        if n in ('defun', 'lambda', 'defmacro'):
            k = 0 if n == 'lambda' else 1
            out = [text(a) for a in args[:k + 1]]
            names, ty = self.params(args[k])
            self.scopes.append({})
            for p in names: self.declare(p, L)
            self.declare('self', ty)
            for i, a in enumerate(args[k + 1:]):
                out.append(self.item(a))
            self.scopes.pop()
            if k: self.declare(args[0].name, ty)
            return out
        if n == 'quote':
            a = args[0]
            if isinstance(a, list) and a:
                self.lit += 1
                return [b'#' + text(a)]
            return [self.item(a)]
        left = list(enumerate(args))
        def take(k):
            for _ in range(k):
                if not left: return
                i, a = left.pop(0)
                kind = t[1][i] if i < len(t[1]) else t[2][1]
                out.append(self.item(a) if kind == 'I' else text(a))
        done = [0]
        def run(acts):
            for a in acts:
                if a[0] == 'arg':
                    take(1 if done[0] < len(t[1]) else len(left))
                    done[0] += 1
                elif a[0] == 'decl': self.declare(a[1], a[2])
                else:
                    self.scopes.append({})
                    run(a[1])
                    self.scopes.pop()
        if t[3]: run(t[3])
        take(len(left))
        return out


# What has to be refused wherever an argument is inferred.
FAULTS = ['undeclared-name', '(undeclared-name 1)', '(list undeclared-name)', '(cons 1)', '(cons 1 2 3)', '(null?)', '(if true 1)', '(if true 1 2 3)', '(while)', '(emit)', '(emit 1 2)', '(cb-seven 1)', '(() (var q-q 1) declare q-q I (q-q))', '(() (defun q-q (&rest a) a) declare q-q (&rest -1 I) q-q)',
          '(() + 1)', '(() cons)', '(list car)', '(() if true 1)', '(() (defun q-q (a b) a) q-q 1)', '(() (defun q-q (a) a) (q-q))', '(() (defun q-q (a) a) (q-q 1 2))', '(() (defun q-q (a &rest b) a) (q-q))', '(() (defun q-q (a) a) declare q-q ((I)) q-q 5)', '(() (var q-q 1) (declare q-q L (list)) #q-q)',
          '(() (defun q-q (a) a) (declare q-q (I) (() infer-and-get-next-argument infer-and-get-next-argument infer-and-get-next-argument)) (q-q 1))', '(() (defun q-q (a) a) (declare q-q (I) (car 5)) (q-q 1))', '(() (var q-q 1) (declare q-q (Q)) 1)', '(() (var q-q 1) declare q-q 5 1)',
          '(() (var q-q 1) (declare q-q (&rest I)) 1)', '(() (var q-q 1) (declare q-q (I &rest 1)) 1)', '(() (var q-q 1) declare q-q "I" 1)', '(() (var q-q 1) (declare q-q Q) 1)', '(() (var q-q 1) (declare q-q (&rest Q I)) 1)', '(() (defun q-q (a) a) (declare q-q (I) (declare-identifier 5 (quote #L))) q-q 1)',
          '(() (defun q-q (a) a) (declare q-q (I) (declare-identifier "x" 5)) (q-q 1))', '(() (defun q-q (a) a) (declare q-q (I) (undeclared-name)) (q-q 1))', '(list (() (var q-q 1) q-q) q-q)', '(() (defun q-q (q-r) q-r) q-r)', '(lambda (q-q) q-r)', '(() declare)', '(() (declare q-q))',
          '(() (defun q-q (a) (q-r)) 1)', '(() (defun q-q (a) (q-q 1)) 1)', '(() (defmacro q-m (a b) a) (q-m 1))', '(lambda (a b) (self 1))', '(lambda (a) (self))', '(() (setq q-q 5) q-q)', '(() (defun q-q (a) a) (declare q-q (I) (declaration-scope (declare-identifier "q-r" (quote #L)))) q-q 1 q-r)']

CALLBACKS = {'emit': F('I'), 'cb-fail': F('I'), 'cb-gc': F(''), 'cb-call0': F('I'), 'cb-call1': F('II'), 'cb-call2': F('III'), 'cb-call3': F('IIII'), 'cb-sub': F('II'), 'cb-seven': F('')}


def alias(r, x, names):
    """The tree with macros in the place of the forms they stand for."""
    if not isinstance(x, list) or not x: return x
    h = x[0]
    if isinstance(h, Id):
        b = h.name[2:] if h.name.startswith('__') else h.name
        if b in ('quote', 'defmacro', 'comptime', 'macro') or b.startswith('m-'): return x
        if b in names and r.random() < .5: h = Id(ALIASES[b][0])
        k = 2 if b in ('var', 'global', 'setq', 'lambda') else 3 if b == 'defun' else 1
        return [h] + x[1:k] + [alias(r, y, names) for y in x[k:]]
    return [alias(r, y, names) for y in x]


def rewrite(r, prog, macros=(), more={}, **kw):
    """(text, counts), or None. macros: forms that macros are to stand for; prog is then a scope."""
    w = Inferred(r, dict(CALLBACKS, **more), **kw)
    try:
        if macros:
            if isinstance(prog[0], Id): return None
            pre = []
            for m in macros:
                n, d, t, s = ALIASES[m]
                pre.append('(defmacro %s %s) (declare %s %s %s)' % (n, d, n, signature(t), s or ''))
                w.scopes[-1][n] = t
            body = [alias(r, x, macros) for x in prog]
            s = b'(' + w.item_kept(body[0]) + b' ' + '\n'.join(pre).encode() + b'\n' + w.body(body[1:]) + b')'
        else: s = w.call(prog, False) if isinstance(prog[0], Id) else w.item(prog)
    except Bad: return None
    if isinstance(w.fault, int): return None
    return s, dict(dropped=w.dropped, hashes=w.hashes, literal=w.lit, declared=w.declared, scripts=w.scripts, items=w.items)


def literals(r):
    """(text, value): functions with literal and inferred parameters, called with names of functions, with and without parentheses."""
    gs = []
    pre = []
    for i in range(r.randint(2, 4)):
        p, rest = r.randrange(3), r.choice([None, None, 0, 1, 2])
        n = 'g%d' % i
        ps = ['a%d' % k for k in range(p)]
        pre.append('(defun %s (%s) %s)' % (n, ' '.join(ps + (['&rest', 'b'] if rest is not None else [])), '(cons %d %s)' % (i, ''.join('(cons %s ' % a for a in ps) + ('b' if rest is not None else '()') + ')' * p)))
        if p or rest is not None or r.random() < .5: pre.append(r.choice(['declare %s %s', '(declare %s %s)']) % (n, signature(F('I' * p, None if rest is None else (rest, 'I')))))
        gs.append((n, i, p, rest))
    for i in range(3): pre.append(r.choice(['var v%d %d', '(var v%d %d)']) % (i, 70 + i))
    def lst(i, vs): return '(' + ' '.join(['i%d' % i] + vs) + ')'
    def plain(d):
        """An argument that stands as it is: (text, value, function or None)."""
        k = r.randrange(6)
        if k < 3:
            g = r.choice(gs)
            return g[0], None, g
        if k == 3: x = r.randrange(3); return 'v%d' % x, 'i%d' % (70 + x), None
        if k == 4 and d:
            n, i, p, rest = r.choice(gs)
            c = p + (r.randrange(3) if rest is not None else 0)
            xs = [simple() for _ in range(c)]
            return '(%s%s)' % (n, ''.join(' ' + x for x, _ in xs)), lst(i, [v for _, v in xs]), None
        return simple() + (None,)
    def simple():
        x = r.randrange(-50, 60)
        return str(x), 'i%d' % x
    def inferred(d):
        k = r.randrange(7)
        if k < 4 and d:
            n, i, p, rest = r.choice(gs)
            bare = r.random() < .6
            c = p + (0 if rest is None else rest if bare else r.randrange(4))
            xs = [inferred(d - 1) for _ in range(c)]
            if any(g for _, _, g in xs): xs = [(t, v, g) if not g else simple() + (None,) for t, v, g in xs]
            s = n + ''.join(' ' + x[0] for x in xs)
            return s if bare else '(%s)' % s, lst(i, [v for _, v, _ in xs]), None
        if k == 4:
            g = r.choice(gs)
            return '#' + g[0], None, g
        if k == 5: x = r.randrange(3); return 'v%d' % x, 'i%d' % (70 + x), None
        return simple() + (None,)
    outs, vals = [], []
    n = r.randint(1, 4)
    for j in range(n):
        pos = [r.choice('LLI') for _ in range(r.randrange(4))]
        rest = (r.choice([0, 1, 2, 3]), r.choice('LLI')) if r.random() < .6 or not pos else None
        bare = r.random() < .5
        kinds = pos + ([] if rest is None else [rest[1]] * (rest[0] if bare else r.randrange(5)))
        args = [plain(2) if k == 'L' else inferred(2) for k in kinds]
        parts, ev = [], []
        for k, (_, v, g) in enumerate(args):
            e = 'p%d' % k
            if k >= len(pos):
                e = 'q'
                for _ in range(k - len(pos)): e = '(cdr %s)' % e
                e = '(car %s)' % e
            if g:
                xs = [simple() for _ in range(g[2] + (r.randrange(3) if g[3] is not None else 0))]
                parts.append('(funcall %s%s)' % (e, ''.join(' ' + x for x, _ in xs)))
                ev.append(lst(g[1], [x for _, x in xs]))
            else:
                parts.append(e)
                ev.append(v)
        ps = ['p%d' % k for k in range(len(pos))] + (['&rest', 'q'] if rest else [])
        pre.append('(defun f%d (%s) (list 8%s))' % (j, ' '.join(ps), ''.join(' ' + p for p in parts)))
        pre.append(r.choice(['declare f%d %s', '(declare f%d %s)']) % (j, signature(F(''.join(pos), rest))))
        s = ' '.join(['f%d' % j] + [a[0] for a in args])
        outs.append(s if bare else '(%s)' % s)
        vals.append(lst(8, ev))
    return ('(() %s (list %s))' % ('\n '.join(pre), ' '.join(outs))).encode(), '(' + ' '.join(vals) + ')'
