"""Rewrites a program into one that uses macros and compile-time evaluation and means the same."""
import copy
import ref
from syntax import Flt, Id, Int, Str

PURE = {'+', '-', '*', '<', '>', 'not', 'list', 'cons', 'car', 'cdr', 'length', 'concatenate', 'substring', 'null?', 'if', 'quote'}
STRICT = {'+', '-', '*', '<', '>', '=', 'cons', 'car', 'cdr', 'length', 'concatenate', 'substring', 'null?', 'get-vector-element', 'not', 'type-of', 'emit'}
SHADOW = ['+', '-', '*', 'car', 'cdr', 'cons', 'list', 'vector', 'length', 'not', '=', 'if', 'when', 'unless', '<', 'concatenate', 'setq', 'null?']


def I(n): return Id(n)
def q(x): return [Id('quote'), x]
def name(x): return x.name[2:] if isinstance(x, Id) and x.name.startswith('__') and len(x.name) > 2 else x.name if isinstance(x, Id) else None


def unshare(x): return [unshare(y) for y in x] if isinstance(x, list) else Id(x.name) if isinstance(x, Id) else x


class Rewriter:
    def __init__(self, rng, program):
        self.r, self.p, self.n = rng, unshare(program), 0
        self.opaque = set()   # macros whose arguments are data
        self.used = 0
        self.kinds = set()

    # ------------------------------------------------------------ positions
    def walk(self, x, chain, out):
        """out: (list, index, chain) of every expression position; chain: enclosing (body list, index of the statement in it)."""
        if not isinstance(x, list) or not x: return
        h = x[0]
        if not isinstance(h, Id): idx, body = range(len(x)), True
        else:
            n = name(h)
            if n in ('quote', 'defmacro', 'comptime') or h.name in self.opaque: return
            if n in ('var', 'global', 'setq'): idx, body = [2], False
            elif n == 'defun': idx, body = range(3, len(x)), True
            elif n == 'lambda': idx, body = range(2, len(x)), True
            elif n in ('when', 'unless', 'while'): idx, body = range(1, len(x)), True
            else: idx, body = range(1, len(x)), False
        for i in idx:
            if i >= len(x): continue
            if x[i] == [] and i == 0: continue
            ok = body and not (isinstance(h, Id) and name(h) in ('when', 'unless', 'while') and i == 1)
            c = chain + [(x, i)] if ok else chain
            out.append((x, i, c))
            self.walk(x[i], c, out)

    def positions(self):
        out = []
        self.walk(self.p, [], out)
        return out

    # ------------------------------------------------------------ macros
    def fresh(self):
        self.n += 1
        return 'm-%d' % self.n

    def define(self, chain, name, params, body):
        """Puts the definition in front of the statement, in one of the enclosing bodies."""
        body_list, i = self.r.choice(chain) if self.r.random() < .4 else chain[0]
        # The position may have moved since the chain was computed; find the outermost list's insertion point again.
        at = 1 if body_list is self.p else i
        body_list.insert(at, [I(self.r.choice(['defmacro', '__defmacro'])), I(name), params] + body)

    def build(self, e, holes):
        """Expression that evaluates to the tree e at compile time; holes: {id of node: parameter}."""
        r = self.r
        if id(e) in holes: return I(holes[id(e)])
        if isinstance(e, list) and e and (self.has(e, holes) or r.random() < .6):
            parts = [self.build(x, holes) for x in e]
            if r.random() < .2:
                t = []
                for x in reversed(parts): t = [I('cons'), x, t]
                return t
            return [I('list')] + parts
        if isinstance(e, list) and not e: return [] if r.random() < .5 else q([])
        if isinstance(e, (list, Id)): return q(e)
        return e if r.random() < .7 else q(e)

    def has(self, e, holes): return id(e) in holes or isinstance(e, list) and any(self.has(x, holes) for x in e)

    def size(self, e): return 1 + sum(map(self.size, e)) if isinstance(e, list) else 1

    def pure(self, e):
        if isinstance(e, Id): return False
        if not isinstance(e, list): return True
        if not e: return True
        if not isinstance(e[0], Id) or name(e[0]) not in PURE: return False
        if name(e[0]) == 'quote': return len(e) == 2
        return all(self.pure(x) for x in e[1:])

    def constant(self, e):
        """Value of a closed expression, if compile-time evaluation can hand it over."""
        if not self.pure(e): return False
        try: k, v = ref.run_program(copy.deepcopy(e), ref.Machine())
        except ref.Discard: return False
        return k == 'V' and self.literal(v)

    def literal(self, v, d=0):
        if d > 6: return False
        while isinstance(v, ref.Cons):
            if not self.literal(v.car, d + 1): return False
            v = v.cdr
        if isinstance(v, int) and not isinstance(v, bool): return abs(v) < 2 ** 62
        return isinstance(v, (ref.Nil, bool, float, ref.S, ref.Sym))

    def step(self):
        pos = [p for p in self.positions() if p[2]]
        if not pos: return False
        l, i, chain = self.r.choice(pos)
        e = l[i]
        r = self.r
        kind = r.choice(['template', 'template', 'template', 'rest', 'compute', 'identity', 'gensym', 'comptime', 'comptime', 'group', 'split'])
        nm = self.fresh()
        if kind == 'template':
            if self.size(e) > 60: return False
            subs = []
            self.walk2(e, subs)
            r.shuffle(subs)
            holes, args, params = {}, [], []
            for s in subs[:r.choice([0, 1, 1, 2, 3])]:
                if any(self.inside(s, a) or self.inside(a, s) for a in args): continue
                holes[id(s)] = 'p%d' % len(args)
                params.append(I('p%d' % len(args)))
                args.append(s)
            body = [self.build(e, holes)]
            if r.random() < .2: body = [[I('var'), I('t'), body[0]], I('t')]
            l[i] = [I(nm)] + args
            self.define(chain, nm, params, body)
        elif kind == 'rest':
            if not (isinstance(e, list) and len(e) >= 2 and isinstance(e[0], Id) and name(e[0]) not in ('var', 'defun', 'quote', 'lambda', 'global', 'setq', 'defmacro', 'comptime', 'noscope')): return False
            if e[0].name in self.opaque: return False
            k = r.randint(1, len(e) - 1) if r.random() < .5 else 1
            ps = [I('p%d' % j) for j in range(k - 1)]
            t = I('more')
            for p in reversed(ps): t = [I('cons'), p, t]
            l[i] = [I(nm)] + e[1:]
            self.define(chain, nm, ps + [I('&rest'), I('more')], [[I('cons'), q(e[0]), t]])
        elif kind == 'compute':
            if type(e) is not int or abs(e) > 10 ** 9: return False
            d = r.randint(-50, 50)
            self.opaque.add(nm)
            l[i] = [I(nm), e - d, d]
            body = r.choice([[[I('+'), I('a'), I('b')]], [[I('var'), I('c'), [I('lambda'), [], [I('+'), I('b'), I('a')]]], [I('funcall'), I('c')]],
                             [[I('if'), [I('<'), I('b'), 0], [I('-'), I('a'), [I('-'), 0, I('b')]], [I('+'), I('a'), I('b')]]]])
            self.define(chain, nm, [I('a'), I('b')], body)
        elif kind == 'identity':
            if isinstance(e, Id): return False
            l[i] = [I(nm), e]
            self.define(chain, nm, [I('x')], [I('x')])
        elif kind == 'gensym':
            if not (isinstance(e, list) and 2 <= len(e) <= 4 and isinstance(e[0], Id) and name(e[0]) in STRICT): return False
            n = len(e) - 1
            ps = [I('p%d' % j) for j in range(n)]
            gs = [I('g%d' % j) for j in range(n)]
            fresh = lambda: r.choice([[I('gensym')], [I('gensym')], [I('intern'), [I('concatenate'), Str(b'tmp:'), [I('gensym')]]]])
            body = [[I('var'), g, fresh()] for g in gs]
            body.append([I('list')] + [[I('list'), q(I('var')), g, p] for g, p in zip(gs, ps)] + [[I('list'), q(e[0])] + gs])
            l[i] = [I(nm)] + e[1:]
            self.define(chain, nm, ps, body)
        elif kind == 'comptime':
            if not self.constant(e): return False
            c = [I(r.choice(['comptime', '__comptime']))]
            l[i] = c + r.choice([[e], [[I('var'), I('z%d' % self.n), e], I('z%d' % self.n)], [[], [[], e]]])
        elif kind == 'group':
            # Two statements of a body as one expansion.
            b, k = chain[-1]
            if b is not l or i != k or k + 1 >= len(b) or k == 0: return False
            if isinstance(b[0], Id) and name(b[0]) in ('when', 'unless', 'while') and k < 2: return False
            two = [b[k], b[k + 1]]
            if self.size(two) > 60: return False
            b[k:k + 2] = [[I(nm)]]
            self.define(chain, nm, [], [q([I('noscope')] + two)] if r.random() < .5 else [[I('list'), q(I('__noscope'))] + [self.build(x, {}) for x in two]])
        elif kind == 'split':
            # A macro whose expansion calls another macro.
            if self.size(e) > 40 or isinstance(e, Id): return False
            n2 = self.fresh()
            l[i] = [I(nm), e]
            b = [[I('list'), q(I(n2)), I('x'), 0]]
            # Both in the same body; expansion happens at the use, so the order does not matter.
            body_list, at = chain[0]
            at = 1 if body_list is self.p else at
            body_list.insert(at, [I('defmacro'), I(nm), [I('x')], b[0]])
            body_list.insert(at, [I('defmacro'), I(n2), [I('x'), I('unused')], I('x')])
        self.used += 1
        self.kinds.add(kind)
        return True

    def walk2(self, e, out):
        tmp = []
        self.walk(e, [], tmp)
        for l, i, _ in tmp:
            if isinstance(l[i], (list, Flt, Int, Str)): out.append(l[i])

    def inside(self, a, b): return a is b or isinstance(b, list) and any(self.inside(a, x) for x in b)

    def run(self, steps):
        for _ in range(4 * steps):
            if self.used >= steps: break
            self.step()
        if self.r.random() < .35:
            k = self.r.choice(SHADOW)
            self.p.insert(1, [I('defmacro'), I(k), [I('&rest'), I('args')], [I('__cons'), [I('__quote'), I('__' + k)], I('args')]])
            self.used += 1
            self.kinds.add('shadow')
        return self.p
