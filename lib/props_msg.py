"""The property of the messages for sources that are wrong or doubtful."""
import re
import closgen, gen, judge, macrogen, ref, runner
from collections import Counter
from engine import Job, Prop
from props_lang import MON, drv, evaluate, retry
from syntax import Flt, Id, Str, text

I = Id
CONF = ['default', 'noopt', 'portable', 'inference']
HEAD = re.compile(rb'<case>:(\d+):(\d+)\n([^\n]*)\n')
UNKNOWN = re.compile(rb'.*Could not find (function|variable) "(.*)"( in lexical scope)?\. Assuming global scope\.')
# Least and greatest number of operands (None: any) of the forms that check them.
ARITY = {'funcall': (1, None), 'apply': (2, None), 'setq': (2, 2), 'var': (2, 2), 'global': (2, 2), 'not': (1, 1), '*': (2, 2), '/': (2, 2), '+': (2, 2), '-': (2, 2), '=': (2, 2), '<': (2, 2), '>': (2, 2), 'while': (2, None), 'when': (2, None),
         'unless': (2, None), 'if': (3, 3), 'defun': (3, None), 'lambda': (2, None), 'defmacro': (3, None), 'quote': (1, 1), 'make-vector': (2, 2), 'get-vector-element': (2, 2), 'set-vector-element': (3, 3), 'cons': (2, 2), 'car': (1, 1), 'cdr': (1, 1),
         'set-car': (2, 2), 'set-cdr': (2, 2), 'null?': (1, 1), 'type-of': (1, 1), 'make-type': (0, 0), 'make-instance': (3, 3), 'composite-value': (1, 1), 'composite-function': (1, 1), 'set-composite-value': (2, 2), 'set-composite-function': (2, 2),
         'make-string': (1, 1), 'concatenate': (2, 2), 'substring': (3, 3), 'length': (1, 1), 'symbol-string': (1, 1), 'symbol-id': (1, 1)}
PARTIAL = {'var', 'global', 'setq', 'defun', 'lambda', 'defmacro'}   # What they are given has to make sense as well.


# What a run-time error may say, after the name of the instruction, and whether it has to be reported.
REASON = {'arith type': (0, '(add|subtract|multiply|divide): .*'), 'division by zero': (1, r'divide: Division by zero\.'), 'compare type': (0, '(less|greater): .*'), 'not type': (1, 'not: .*'),
          'get index': (1, r'get-vector-element: (Vector|String) index out of bounds\.'), 'index': (0, 'set-vector-element: .*'), 'get-vector-element type': (1, 'get-vector-element: .*'), 'set-vector-element type': (0, 'set-vector-element: .*'),
          'make-vector length': (0, 'make-vector: .*'), 'car type': (0, 'car: .*'), 'cdr type': (1, 'cdr: .*'), 'set-car': (0, 'set-car: .*'), 'set-cdr': (0, 'set-cdr: .*'), 'make-instance type': (1, 'make-instance: .*'),
          'composite': (1, r'(set-)?composite-(value|function): (A|First a)rgument must be a composite type\.'), 'make-string type': (1, 'make-string: .*'), 'make-string element': (1, 'make-string: All .* must be integers.'),
          'improper list': (1, 'make-string: Not a proper list.'), 'string or symbol expected': (1, r'concatenate: (First|Second) argument must be a string or symbol\.'), 'substring type': (1, 'substring: .*'),
          'substring range': (1, 'substring: (First|Second) integer .*'), 'length type': (1, 'length: Argument .*'), 'circular list': (1, 'length: List must not be circular.'), 'symbol expected': (1, r'symbol-(string|id): Argument must be a symbol\.'),
          'not a function': (1, '(funcall|apply): .*not a callback or closure.'), 'arity': (0, '(funcall|apply): (Incorrect number of arguments|Too (few|many) arguments).'), 'apply list': (1, 'apply: (Last argument is not a list|Applied object is not a callback or closure).'),
          'unbound variable': (1, 'push-global: Could not find dynamic variable.'), 'undefined function': (1, 'push-global: Could not find dynamic variable.')}
PLAIN = {'callback error': b'cb-fail', 'cb-sub type': b'duckVM_copySignedInteger: Not an integer.'}
THROUGH = re.compile(rb'duckVM_execute->(c-call|funcall|apply): C callback returned error\.')


def runtime(case, res):
    """What is reported after executions, against what the reference says."""
    v = judge.broken(res)
    if v: return v
    got = [[None, b'']]
    for tag, rest in res.obs:
        if tag == 'G': got.append([None, b''])
        elif tag == 'R': got[-1][0] = rest.split()[0] != '0'
        elif tag == 'E' and got[-1][0] is not None: got[-1][1] += unprint(rest)
    if len(got) != len(case.exp) + 1: return 'ran %d of %d sources' % (len(got) - 1, len(case.exp))
    for k, ((failed, msg), want) in enumerate(zip(got, case.exp)):
        if failed is None or failed != (want is not None): return 'inconclusive'     # P01, P04
        if want is None:
            if msg: return 'source %d: succeeded with messages: %s' % (k, msg[:500])
            continue
        want, left = want
        lines, n = msg.split(b'\n') if msg else [], 0
        while lines and THROUGH.fullmatch(lines[-1]): lines, n = lines[:-1], n + 1
        if n != left: return 'source %d: %d callbacks were left, reported: %s' % (k, left, msg[:500])
        said = b'\n'.join(lines)
        if want in PLAIN:
            if said != PLAIN[want]: return 'source %d: the error is %s, reported: %s' % (k, want, msg[:500])
            continue
        needed, rx = REASON[want]
        if not (re.fullmatch(b'duckVM_execute->' + rx.encode(), said) if said else not needed): return 'source %d: the error is %s, reported: %s' % (k, want, msg[:500])
    return None


def unprint(s): return re.sub(rb'\\x([0-9a-f]{2})', lambda m: bytes([int(m.group(1), 16)]), s.encode('latin-1'))


def outcomes(res):
    """[(refused, messages)] of the sources that were compiled."""
    out = []
    for tag, rest in res.obs:
        if tag in 'CKR': out.append([tag == 'C' and rest != '0', b''])
        elif tag == 'E' and out: out[-1][1] = unprint(rest)
    return out


def place(src, i):
    """Line, column, and text of the line."""
    a = src.rfind(b'\n', 0, i) + 1
    b = src.find(b'\n', i)
    return src.count(b'\n', 0, i) + 1, i - a, src[a:len(src) if b < 0 else b]


def located(src, msg):
    """The messages with a place, [(line, column, message)], or what is wrong with one of them."""
    found, at, lines = [], 0, src.split(b'\n')
    while True:
        m = HEAD.search(msg, at)
        if not m: return found, None
        l, c, t = int(m.group(1)), int(m.group(2)), m.group(3)
        if not 1 <= l <= len(lines): return found, 'line %d of a text with %d lines' % (l, len(lines))
        if c > len(lines[l - 1]): return found, 'column %d of a line of %d characters' % (c, len(lines[l - 1]))
        if not re.match(re.escape(lines[l - 1]) + b'\n' + b' ' * c + rb'\^*(\n|$)', msg[m.end():]): return found, 'line %d is not what is shown' % l
        found.append((l, c, t))
        at = m.end() + len(lines[l - 1]) + 1 + c


def lex(src):
    """How reading a text ends: ('ok'), or (message, index)."""
    i, depth, n = 0, 0, len(src)
    while i < n:
        c = src[i:i + 1]
        if c == b';':
            while i < n and src[i] not in b'\r\n': i += 1
            continue
        if c.isspace(): i += 1
        elif c == b'(': depth, i = depth + 1, i + 1
        elif c == b')':
            if not depth: return b'Unbalanced parenthesis.', i
            depth, i = depth - 1, i + 1
            if not depth: return b'ok', i
        elif c == b'"':
            a, i = i, i + 1
            while i < n and src[i] != 34: i += 2 if src[i] == 92 else 1
            if i > n: return b'Expected character in string escape sequence.', a
            if i >= n: return b'String missing closing quote.', a
            i += 1
            if not depth: return b'ok', i
        else:
            while i < n and src[i] not in b'()" \t\n\r\f\v;': i += 1
            if not depth: return b'ok', i
    return (b'Unmatched parenthesis.', n) if depth else (b'empty', n)


def syntax(case, res):
    v = judge.broken(res)
    if v: return v
    got = outcomes(res)
    if len(got) != len(case.exp): return 'compiled %d of %d sources' % (len(got), len(case.exp))
    for k, ((refused, msg), want) in enumerate(zip(got, case.exp)):
        src = case.ops[k][1]
        found, bad = located(src, msg)
        if bad: return 'source %d: a message is about %s: %s' % (k, bad, msg[:500])
        if want is None:
            # It may be refused for its meaning.
            if found: return 'source %d: the text is well-formed; messages: %s' % (k, msg[:500])
            continue
        if not refused: return 'source %d: compiled, the text is not well-formed: expected %s; the end is %r' % (k, want, src[-80:])
        if not found: return 'source %d: refused without a message that says where: %s; expected %s; the end is %r' % (k, msg[:300], (place(src, want[1])[:2], want[0]), src[-80:])
        l, c, _ = place(src, want[1])
        if found[0] != (l, c, want[0]): return 'source %d: the message is %s, the text has %s' % (k, found[0], (l, c, want[0]))
    return None


def warnings(msg):
    """(kind, name) of each unknown name, and the other lines."""
    w, rest = Counter(), []
    for ln in msg.split(b'\n') if msg else []:
        m = UNKNOWN.fullmatch(ln)
        if m: w[m.group(1), m.group(2)] += 1
        else: rest.append(ln)
    return w, rest


def names(case, res):
    """Pairs of sources: a program, and the same with further names."""
    v = judge.broken(res)
    if v: return v
    got = outcomes(res)
    if len(got) != 2: return 'compiled %d of 2 sources' % len(got)
    (ra, a), (rb, b) = got
    if ra: return 'inconclusive'
    (wa, oa), (wb, ob) = warnings(a), warnings(b)
    want, end = case.exp
    if end is None and rb: return 'the program was refused when these were added: %s: %s' % (dict(want), b[:500])
    if end is not None:
        if not rb: return 'compiled, with a form that has to be refused: %s' % end
        if ob != oa + [end]: return 'the messages are %s, expected %s' % (ob, end)
        if wb - wa: return 'names are unknown that are not in the program without the form: %s' % dict(wb - wa)
        return None
    if oa != ob: return 'other messages: %s, without the added names %s' % (ob, oa)
    if wb - wa != want or wa - wb: return 'unknown names: %s, of which were added %s; the source added %s' % (dict(wb), dict(wb - wa), dict(want))
    return None


class P26(Prop):
    id = 'P26'
    targets = [drv(c) for c in CONF]
    quick, thorough = 200, 5000
    rule = ('Programs with varied layout, comments and strings are cut, get stray parentheses or quotes: the first message must name what an independent scanner finds, at its line and column, and each message with a place must show that line of '
            'the text. Names that are defined nowhere, no longer, or only as the other kind of thing are put in random places of programs: exactly these must be reported, each once. Forms with too few or too many operands must be refused with '
            'their name and nothing else must be reported. Sequences of programs with failing operations: what is reported after each run must be about the operation that fails according to the reference. Four builds, with and without inference. Non-trivial: a message was predicted.')
    assumptions = ['The scanner knows the syntax.', 'The reference evaluator knows which operation fails first.']

    def tree(self, r):
        if r.randrange(4) == 0: return [[]] + closgen.ClosGen(r, r.choice([5, 20])).program()
        return [[]] + gen.Gen(r, size=r.choice([5, 10, 30, 60]), errors=r.choice([0, 0, .05])).program()

    def options(self, r):
        c = r.choice(CONF)
        return c, dict(MON, objs=6000, cobjs=8000, msg=1, infer=int(c == 'inference' and r.random() < .5))

    def cut(self, r):
        ops, exp = [], []
        for _ in range(4):
            p = self.tree(r)
            if r.random() < .5:
                rw = macrogen.Rewriter(r, p)
                p = rw.p
                for x, i, _ in rw.positions():
                    if r.random() < .2: x[i] = [[], Str(bytes(r.choice(b'ab (;)\n"\\') for _ in range(r.randrange(9)))), x[i]]
            t = text(p, r if r.random() < .8 else None)
            if r.randrange(6) == 0: t = t.replace(b'\n', r.choice([b'\r\n', b'\r', b'\n\n', b'\n\r']))
            k = r.randrange(6)
            if k < 2: t = t[:r.randrange(1, len(t) + 1)]
            elif k == 2: t = b''.join(r.choice([b' ', b'\n', b'\t', b'; ( " \n']) for _ in range(r.randrange(6))) + b')' + r.choice([b'', t])
            elif k == 3:
                at = [m.start() for m in re.finditer(rb'(?<=[ \n\t(])(?=[^ \n\t])', t)]
                i = r.choice(at or [0])
                t = t[:i] + b'"' + t[i:].replace(b'"', b'') + r.choice([b'', b'', b'\\', b'\\\\', b'\n', b'\\"'])
            elif k == 4:
                at = [m.start() for m in re.finditer(rb'[()]', t)]
                i = r.choice(at)
                t = t[:i] + r.choice([b'', b'((', b'))', b'()']) + t[i + 1:]
            else: t += r.choice([b'', b'\n', b' ; x', b')', b' (', b' "'])
            e = lex(t)
            if e[0] == b'empty': continue
            ops.append(('l', t))
            exp.append(None if e[0] == b'ok' else e)
        if not ops: return None
        c, o = self.options(r)
        return Job([('drv_' + c, runner.Case(ops, o, exp))], syntax, 'syntax', lambda rs: any(e for e in exp), ends=True)

    def unknown(self, r, n):
        k = r.randrange(19)
        v = I('unk%d' % n if r.random() < .8 else r.choice(['no-such-%d', 'unk-%d*', '?%d?', 'undefined%d']) % n)
        b = v.name.encode()
        V, F = (b'variable', b), (b'function', b)
        if k == 0: return v, [V]
        if k == 1: return [v, r.randint(0, 9)], [F]
        if k == 2: return [I('setq'), v, 1], [V]
        if k == 3: return [[], [[], [I('var'), v, 1], v], v], [V]
        if k == 4: return [[], [[], [I('defun'), v, [], 1], [v]], [v]], [F]
        if k == 5: return [[], [I('var'), v, 1], [v, v]], [F]
        if k == 6: return [[I('lambda'), [v], v], v], [V]
        if k == 7: return [[], [I('defun'), v, [I('unk-p')], I('unk-p')], [v, [I('funcall'), v, 1]]], []
        if k == 8: return [I('quote'), [v, [v]]], []
        if k == 9: return [[], [I('defmacro'), v, [], [I('quote'), [I('list'), I('unk-m'), [v.name and I('unk-g')]]]], [v]], [(b'variable', b'unk-m'), (b'function', b'unk-g')]
        if k == 10: return [I('if'), [I('emit'), 1], v, [v, v, [I('lambda'), [v], v]]], [V, V, F]
        if k == 11: return [[], [I('defmacro'), I('unk-c'), [], [[], [I('lambda'), [], v, [v]], [I('setq'), v, 1], 1]], [I('unk-c')], [I('unk-c')]], [V, V, F]
        if k == 12: return [I('lambda'), [I('unk-q')], [I('setq'), v, I('unk-q')], [I('lambda'), [], [I('setq'), v, v]]], [V, V, V]
        if k == 13: return [I('funcall'), v, [I('apply'), v, I('unk-l'), [I('list')]]], [V, V, (b'variable', b'unk-l')]
        if k == 14: return [[], [I('defun'), I('unk-d'), [], [v, 1]], [I('defun'), v, [I('unk-q')], I('unk-q')], [I('unk-d')], [v, 2]], [F]
        if k == 15: return [[], [I('global'), v, 1], v, [I('lambda'), [], [I('setq'), v, [I('+'), v, 1]]], [I('funcall'), v]], []
        if k == 16: return [[], [I('global'), v, 1], [v]], [F]
        if k == 17: return [I('while'), [I('emit'), v], [[], [I('var'), v, 1], v], v, [v]], [V, V, F]
        return [[], [I('var'), v, v], [I('lambda'), [], [I('lambda'), [], v]]], [V]

    def spots(self, r, p):
        rw, dead = macrogen.Rewriter(r, p), set()
        p = rw.p
        def walk(x, d):
            if not isinstance(x, list): return
            # Of what depends on a constant, only one branch is compiled.
            d = d or len(x) > 1 and isinstance(x[0], Id) and macrogen.name(x[0]) in ('if', 'when', 'unless', 'while') and not isinstance(x[1], (Id, list))
            if d: dead.add(id(x))
            for y in x: walk(y, d)
        walk(p, False)
        return p, [(x, i) for x, i, _ in rw.positions()
                if id(x) not in dead and not (isinstance(x[i], list) and x[i] and isinstance(x[i][0], Id) and macrogen.name(x[i][0]) in ('var', 'defun', 'noscope', 'defmacro', 'global')) and not (x[i] == [] and i == 0)]

    def name(self, r):
        p = self.tree(r)
        if evaluate([p]) is None: return None
        a = text(p)
        p, s = self.spots(r, p)
        if not s: return None
        want = Counter()
        for n, (x, i) in enumerate(r.sample(s, min(len(s), r.choice([1, 1, 2, 4])))):
            u, w = self.unknown(r, n)
            x[i] = r.choice([lambda: [[], [I('lambda'), [], u], x[i]], lambda: [I('car'), [I('list'), x[i], [I('lambda'), [], u]]], lambda: [[], u, x[i]], lambda: [[], [I('emit'), u], x[i]]])()
            want.update(w)
        c, o = self.options(r)
        o['infer'] = 0
        return Job([('drv_' + c, runner.Case([('l', a), ('l', text(p, r if r.random() < .3 else None))], o, (want, None)))], names, 'names', lambda rs: True, ends=True)

    def operands(self, f, n):
        """Operands that make sense as far as there are any."""
        if f in ('var', 'global', 'setq'): return [I('opx'), 1, 2, 3][:n] + [4] * (n - 4)
        if f in ('defun', 'defmacro'): return [I('opf'), [I('opa')], 1][:n]
        if f == 'lambda': return [[I('opa')], 1][:n]
        if f in ('funcall', 'apply'): return [[I('lambda'), [I('&rest'), I('opa')], 1], [I('list')]][:n]
        return [1, 2, Str(b'x'), 4, [], 6][:n]

    def arity(self, r):
        p = self.tree(r)
        if evaluate([p]) is None: return None
        a = text(p)
        p, s = self.spots(r, p)
        if not s: return None
        f = r.choice(list(ARITY))
        lo, hi = ARITY[f]
        n = r.randrange(lo) if lo and (hi is None or r.random() < .5) else None if hi is None else hi + r.randint(1, 3)
        if n is None or n > 6: return None
        few = n < lo
        g = ('__' if r.random() < .3 else '') + f
        form = [I(g)] + self.operands(f, n)
        x, i = r.choice(s)
        x[i] = r.choice([lambda: [[], form, x[i]], lambda: [[], x[i], form], lambda: [I('lambda'), [], form], lambda: [I('list'), x[i], form], lambda: [[], [I('defun'), I('opd'), [], [I('emit'), form]], x[i]]])()
        c, o = self.options(r)
        o['infer'] = 0
        return Job([('drv_' + c, runner.Case([('l', a), ('l', text(p, r if r.random() < .3 else None))], o, (Counter(), b'Too %s arguments for function "%s".' % (b'few' if few else b'many', g.encode()))))],
                   names, 'arity', lambda rs: True, ends=True)

    def fails(self, r):
        e = lambda: r.choice([7, Flt('-1.5'), Str(b'abc'), [I('quote'), I('sym')], [I('quote'), [1, 2]], [], [I('vector'), 1, 2], [I('lambda'), [I('a')], I('a')], [I('cons'), 97, 98], r.choice([0, 1, 5, -1])])
        f = r.choice([f for f in ARITY if f not in PARTIAL and f not in ('while', 'when', 'unless', 'if', 'make-type', 'type-of', 'quote', 'symbol-id')] + ['funcall', 'apply'] * 3 + ['substring', 'make-instance', 'undefined', 'cb-fail', 'cb-sub', 'cb-call2'])
        if f == 'undefined': return r.choice([[I('list'), I('undefined-v')], [I('undefined-f'), e()]])    # The optimiser may drop what is not used.
        if f == 'cb-fail': return [I(f)]
        if f == 'cb-sub': return [I(f), e(), e()]
        if f == 'cb-call2': return [I(f), [I('lambda'), [I('a'), I('b')], self.fails(r)], e(), e()]
        if f == 'substring': return [I(f), r.choice([Str(b'abc'), e()]), r.choice([-1, 0, 2, 4, e()]), r.choice([0, 3, 4, e()])]
        if f == 'make-instance': return [I(f), r.choice([[I('make-type')], [I('type-of'), e()], e()]), e(), e()]
        lo, hi = ARITY[f]
        if f == 'apply' or f == 'funcall':
            ps = r.choice([[], [I('a')], [I('a'), I('b')], [I('&rest'), I('a')], [I('a'), I('&rest'), I('b')]])
            l = [r.choice([[I('lambda'), ps, 1], e()])] + [e() for _ in range(r.randrange(3))]
            return [I(f)] + l + ([r.choice([[I('list')] + [1] * r.randrange(3), e()])] if f == 'apply' else [])
        return [I(f)] + [e() for _ in range(lo if hi is None else r.randint(lo, hi))]

    def run(self, r):
        ops, exp, m = [], [], ref.Machine()
        for _ in range(r.choice([1, 2, 4])):
            p = [[]] + (gen.Gen(r, size=r.choice([5, 10, 20]), errors=r.choice([0, .1, .4])).program() if r.random() < .7 else closgen.ClosGen(r, 5).program())
            p, s = self.spots(r, p)
            if s and r.random() < .8:
                for x, i in r.sample(s, min(len(s), r.choice([1, 1, 3]))): x[i] = [[], self.fails(r), x[i]]
            try: v = ref.run_program(p, m)
            except ref.Discard: break
            ops += [('L', text(p)), ('G', None)]
            exp.append((v[1], m.left) if v[0] == 'E' else None)
        if not ops: return None
        c, o = self.options(r)
        o['infer'] = 0
        return Job([('drv_' + c, runner.Case(ops, o, exp))], runtime, 'run', lambda rs: any(exp), ends=True)

    def batch(self, k, r, tier):
        return retry(12, lambda: self.run(r)) + retry(12, lambda: self.cut(r)) + retry(10, lambda: self.name(r)) + retry(10, lambda: self.arity(r))

    def directed_jobs(self):
        out = []
        for c in CONF:
            for f, (lo, hi) in ARITY.items():
                for n in range(7):
                    if lo <= n and (hi is None or n <= hi): continue
                    for g in (f, '__' + f):
                        form = text([I(g)] + self.operands(f, n))
                        if len(self.operands(f, n)) < n: continue
                        out.append(Job([('drv_' + c, runner.Case([('l', b'(() (emit 1) 2)'), ('l', b'(() (emit 1) %s)' % form)], dict(MON, objs=3000, cobjs=8000, msg=1),
                                                                 (Counter(), b'Too %s arguments for function "%s".' % (b'few' if n < lo else b'many', g.encode()))))], names, 'arity', lambda rs: True, ends=True))
            texts = [b'(', b'((', b'(\n', b'\n\n(a\n', b'(a ; b', b'(a ; b\n', b'(() (emit 1\n  (emit 2)\n', b')', b'\n)', b' ; (\n  )', b'"', b'"abc', b'\n "a\nb', b'(a "b)\n c', b'(a\n\n   "b', b'(a "b" "c)', b'("\\"', b'(a\tb\n\t"c', b'(' + b'a ' * 300, b'(\n' * 50 + b'"', b'(' * 40 + b')' * 39, b'("abc\\', b'(a\n "b\\', b'"\\', b'("a\\\\', b'(a ;b\r)', b'(a ;b\r "', b'(a\n(', b'(a\n  ( ', b'(a (\n)']
            out.append(Job([('drv_' + c, runner.Case([('l', t) for t in texts], dict(MON, objs=3000, cobjs=8000, msg=1), [None if lex(t)[0] == b'ok' else lex(t) for t in texts]))], syntax, 'directed', lambda rs: True, ends=True))
        return out

