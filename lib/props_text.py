"""Properties of the way from text to bytecode: robustness, determinism, inference of parentheses, disassembly."""
import random
import gen, infer, judge, macrogen, runner, sess, closgen
from engine import Job, Prop
from props_lang import ASSUME_REF, MON, directed, drv, evaluate, expjob, retry
from props_lang2 import KEYWORDS, P10, mutate
from syntax import Id as I, Flt, Str, read, text

CONFIGS = ['default', 'noopt', 'portable', 'inference']

# Sources whose meaning nothing that was said before can change.
PROBES = [(b'(+ 40 2)', 'i42'), (b'(list 1 "ab" 2.5 true ())', None), (b'(funcall (lambda (a b) (- a b)) 50 8)', 'i42'),
          (b'(() (var i 0) (while (< i 10) (setq i (+ i 3))) i)', 'i12'), (b'(() (defmacro p-m (a) (list (quote +) a a)) (p-m 21))', 'i42'),
          (b'(comptime (* 6 7))', 'i42'), (b'(() (defun p-f (n) (if (< n 2) n (+ (self (- n 1)) (self (- n 2))))) (p-f 10))', 'i55'),
          (b'(() (var x 1) (defun p-f () (setq x (+ x 1))) (p-f) (p-f) x)', 'i3'), (b'(length (concatenate "abc" "de"))', 'i5'),
          (b'(car (cdr (list 1 42 3)))', 'i42'), (b'(get-vector-element (vector 1 42) 1)', 'i42'), (b'(= (quote p-a) (quote p-a))', None),
          (b'(composite-value (make-instance (make-type) 42 (lambda () 1)))', 'i42'), (b'(if (= 1 2) 1 42)', 'i42'), (b'(symbol-string (quote p-z))', None)]


def probes():
    if all(v for _, v in PROBES): return PROBES
    for k, (s, v) in enumerate(PROBES):
        if v is None: PROBES[k] = (s, evaluate([read(s)])[0][0][1])
    return PROBES


TOKENS = ['(', ')', '()', '(())', '#', '#(', '#x', '"', '"a"', '"\\', '";"', ';', ';\n', "'", '`', ',', '.', '..', '...', '-', '--', '-1', '+1', '0', '1', '007', '1.', '.5', '-.5', '1.5.5', '1e', '1e5', '1e-5', '1E+5', '1e99999', '1e-99999',
          '0x', '0x1', '0xg', '-0x1f', '0xffffffffffffffff', '9223372036854775807', '-9223372036854775808', '9223372036854775808', '99999999999999999999999', '1a', 'a1', 'nil', 'true', 'false', 'truex', 'true.', '\0', '\t', '\r', '\n', '\x7f', '\x80', '\xff',
          '&rest', '&', '&rest 1 I', 'self', '#self', '__', '__x', 'x', 'y', 'f', '_', '\\', '{', '}', '[', ']', '|', '@', '%', '1_000', '\x00\x00', 'a"b"c', '(x', 'x)', '")', '("', '__declare', 'declare', '(I I)', 'L', 'I']


def soup(r):
    """Tokens in any order."""
    words = r.choice([TOKENS, KEYWORDS, TOKENS + KEYWORDS, ['(', ')'] * 20 + KEYWORDS + ['x', 'y', '1', '"s"', '1.5', '()', 'f']])
    n, o, depth = r.choice([1, 2, 3, 5, 10, 30, 100, 300]), [], 0
    balanced = r.random() < .5
    for _ in range(n):
        t = r.choice(words)
        if balanced:
            if t.endswith('(') and t.count('(') == 1: depth += 1
            elif t == ')':
                if not depth: continue
                depth -= 1
        o.append(t)
    s = (' ' if r.random() < .8 else '').join(o)
    if balanced: s += ')' * depth
    if r.random() < .6: s = '(' + s + ')'
    return s.encode('latin-1')


def bytewise(r, s, t):
    """A text with some changes of single bytes or of pieces."""
    s = bytearray(s)
    for _ in range(r.choice([1, 1, 1, 2, 3, 8, 30])):
        k = r.randrange(10)
        if not s: s += b'('
        i = r.randrange(len(s))
        j = min(len(s), i + r.choice([1, 1, 2, 3, 5, 20, 100]))
        if k == 0: s[i] ^= 1 << r.randrange(8)
        elif k == 1: s[i] = r.choice(b'()"#;\\ .-0x1\0\n\xff_')
        elif k == 2: del s[i:j]
        elif k == 3: s[i:i] = s[i:j]
        elif k == 4: s[i:i] = bytes([r.choice(b'()()"#;\\ .-0xe\0\n\xff')])
        elif k == 5 and r.random() < .3: del s[i:]
        elif k == 6:
            a = r.randrange(len(t) or 1)
            s[i:j] = t[a:a + r.choice([1, 5, 30])]
        elif k == 7: s[i:i] = r.choice(TOKENS).encode('latin-1')
        elif k == 8: s[i:i] = b' ' + r.choice(KEYWORDS).encode() + b' '
        else: s[i:j] = s[i:j][::-1]
        if len(s) > 20000: break
    return bytes(s)


def large(r):
    """Texts that are long or deep in one respect."""
    n = r.choice([100, 300, 900, 1000, 1100, 3000, 20000, 70000])
    k = r.randrange(14)
    if k == 0: return b'(' * n
    if k == 1: return b'(' * n + b')' * r.choice([n, n - 1, n + 1, n // 2])
    if k == 2:
        h = r.choice(['list', 'if', 'lambda', 'quote', '', 'setq x', 'var x', 'while', 'not', '+ 1', 'comptime', 'noscope', 'emit', 'defun f', 'defmacro m', '#', 'macro', '&rest'])
        return (('(' + h + ' ') * n + '1' + ')' * n).encode()
    if k == 3: return b'"' + b'a' * n + r.choice([b'"', b''])
    if k == 4: return b'(quote ' + b'z' * n + b')'
    if k == 5: return b'-' * n
    if k == 6: return r.choice([b'', b'-', b'0.', b'0x', b'1e']) + b'9' * n
    if k == 7: return b';' * n + r.choice([b'', b'\n1'])
    if k == 8: return b' ' * n
    if k == 9: return b'(list ' + b'1 ' * min(n, 3000) + b')'
    if k == 10: return b'(' + b' ()' * min(n, 3000) + b')'
    if k == 11: return b'#' * n
    if k == 12: return b'(() ' + b' '.join(b'(var v%d %d)' % (i, i) for i in range(min(n, 1500))) + b')'
    return b'"' + b'\\' * n + b'"'


def base(r):
    a = P10.asts(None, r)
    return text(r.choice(a), r if r.random() < .3 else None)


def hostile(r):
    k = r.randrange(12)
    if k < 3: return soup(r)
    if k < 7: return bytewise(r, base(r), base(r))
    if k < 8: return bytewise(r, soup(r), base(r))
    if k < 11: return text(mutate(r, r.choice(P10.asts(None, r)), r.choice([1, 2, 4, 10])), r if r.random() < .3 else None)
    return large(r)


def wrapped(r, s):
    """A text that reaches the parser at compile time."""
    q = text(Str(s)).decode('latin-1')
    k = r.randrange(4)
    f = ('(() (defmacro m () (car (read %s %s))) (m))', '(comptime (read %s %s))', '(() (defmacro m () (quote (emit 1)) (cdr (read %s %s))) (m))', '(comptime (() (var a (read %s %s)) (null? a)))')[k]
    return (f % (q, r.choice(['false', 'false', 'true']))).encode('latin-1')


def robust(cases, results):
    """Hostile sources, then probes: no memory error, and the probes are right."""
    for c, res in zip(cases, results):
        b = judge.broken(res)
        if b: return c.meta[1] + ': ' + b
        first = c.meta[0]
        ends = []
        for tag, rest in res.obs:
            if tag in 'CR': ends.append((tag, rest))
        if len(ends) != len(c.ops) - c.meta[2]: return '%s: ran %d of %d sources' % (c.meta[1], len(ends), len(c.ops) - c.meta[2])
        for i, (kind, rest) in enumerate(ends):
            if i >= first:
                if kind == 'R' and ' BUDGET' in rest: return 'inconclusive'
                want = c.exp[i - first]
                got = rest.split(' ', 2)
                if kind == 'C' and rest == '6' or kind == 'R' and got[0] == '6': continue
                if kind == 'C' or got[0] != '0' or got[2] != want: return '%s: the source after it (%s) ends with %s %s, not with %s' % (c.meta[1], c.ops[i + c.meta[2]][1].decode('latin-1'), kind, rest[:200], want)
    return None


def unfinished(case, res):
    b = judge.broken(res)
    if b: return b
    if len(res.get('C')) != len(case.ops): return '%d of %d unfinished sources were refused' % (len(res.get('C')), len(case.ops))
    if res.get('LEAK'): return 'refused sources leave %s allocations' % res.get('LEAK')[0]


def hostilejob(r, srcs, drivers, label, infer=0, **o):
    ps = r.sample(probes(), 4)
    big = any(len(s) > 3000 for s in srcs)
    ops = [('I 1', None)] * infer + [('L', s) for s in srcs] + [('I 0', None)] * infer + [('L', s) for s, _ in ps]
    runs = [(d, runner.Case(ops, dict(MON, objs=8000, cobjs=12000, gc=r.choice([0, 50] if big else [0, 0, 1, 3]), budget=50000, unbal=1, cpu=10, pool=64 << 20, **o), [v for _, v in ps], (len(srcs), d, 2 * infer))) for d in drivers]
    return Job(runs, lambda c, x: robust(c if isinstance(c, list) else [c], x if isinstance(x, list) else [x]), label, nontrivial=lambda rs: True)


class P16(Prop):
    id = 'P16'
    targets = [drv(c) for c in CONFIGS]
    quick, thorough = 48, 4000
    rule = ('Texts that need not be programs (tokens in any order, programs with bytes or pieces changed, cut off, spliced, or with arbitrary changes of the tree, very long tokens and very deep nests) are compiled, and run if they compile, in four '
            'builds, as sources, through `read` at compile time and with inference of parentheses, under ASan/UBSan and the monitors of the heap; sources of known meaning that follow on the '
            'same instance must have their value.')
    assumptions = ['C callbacks of the driver accept any number of arguments or are balanced by the driver.']

    def batch(self, k, r, tier):
        jobs = []
        for _ in range(30):
            n = r.choice([1, 1, 2, 5])
            d = ['drv_' + r.choice(CONFIGS)]
            kind = r.randrange(10)
            srcs = [hostile(r) for _ in range(n)]
            o = {}
            if r.random() < .1: o = dict(pdepth=r.choice([1, 2, 10, 50]), gdepth=r.choice([1, 2, 10, 50]))
            if kind < 2: jobs.append(hostilejob(r, [wrapped(r, s[:3000]) for s in srcs], d, 'through read'))
            elif kind < 5: jobs.append(hostilejob(r, srcs, ['drv_inference'], 'with inference', infer=1))
            else: jobs.append(hostilejob(r, srcs, d, 'as sources'))
        for _ in range(3): jobs.append(self.unfinished(r))
        return jobs

    def unfinished(self, r):
        """Texts that end too early are refused and leave nothing behind."""
        srcs = []
        for _ in range(r.choice([1, 3, 8])):
            s = base(r)
            t = s[:r.randrange(1, len(s))]
            if r.random() < .3: t += r.choice([b' 0x', b' -', b' 1.', b' 1e', b' #', b' "', b' "\\', b' ;', b' \0', b' 5.5.5', b' ()', b' (a "b" 1.5'])
            srcs.append(t)
        return Job([('drv_' + r.choice(CONFIGS), runner.Case([('L', s) for s in srcs], dict(leak=1, objs=500, cobjs=500, gc=r.choice([0, 1]))))], unfinished, 'cut off', nontrivial=lambda rs: True)

    def directed_jobs(self):
        r = random.Random(1)
        jobs = [hostilejob(r, [s.encode('latin-1')], ['drv_' + c for c in CONFIGS], 'directed') for s in DIRECTED]
        jobs += [hostilejob(r, [s.encode('latin-1')], ['drv_inference'], 'directed, inference', infer=1) for s in DIRECTED + INFERRED]
        # Scripts of the inferrer run inside each other while the collector frees what it can.
        jobs.append(Job([('drv_inference', runner.Case([('I 1', None), ('L', s)], dict(MON, objs=8000, gc=g), [(('V', v), [])])) for g in (1, 3) for s, v in ((b'(() (var f (lambda (x) var v + x 1 v)) (funcall f 3))', 'i4'),)],
                        lambda c, x: next(filter(None, map(fixed, c, x)), None), 'directed, inference', nontrivial=lambda rs: True))
        return jobs


def fixed(case, res):
    b = judge.broken(res)
    if b: return b
    got = res.runs()
    if len(got) != 1 or got[0][0] != '0' or got[0][2] != case.exp[0][0][1]: return 'ends with %s, not with %s' % (got, case.exp[0][0][1])


INFERRED = ['(quote #(1 2 3))', '(quote #((a) 2 3))', '(quote #("x" b))', '(() #(() 1 2))', '(list #1 #"a")', '(lambda(x x)var v"")', '(() defun f (x &rest y) (setq))', '(declare', '(__declare a)', '(__declare a b)', '(__declare a ())', '(__declare a (I (I)))', '(__declare a (&rest))',
            '(__declare a (&rest I))', '(__declare a (&rest 1))', '(__declare a (&rest 1 I I))', '(__declare a (&rest -1 I))', '(__declare a (I) (5))', '(() (__declare a (I) (infer-and-get-next-argument)) a 5)', '(() (__declare a (I) (list (infer-and-get-next-argument) (infer-and-get-next-argument) (infer-and-get-next-argument))) (a 5))',
            '(() (__declare a (I I) (declare-identifier 5 5)) (a 1 2))', '(() (__declare a (I I) (declare-identifier "b" (quote #(I I I)))) (a 1 2) b 1 2 3)', '(() (__declare a (I) (error "x")) a 5)', '(() (__declare a (I) (while true 1)) 5)', '(() (__declare a L (infer-and-get-next-argument)) a)', '(infer-and-get-next-argument)', '(declaration-scope)',
            '(() (__declare a (L) (declaration-scope)) a b)', '(() (__declare a (I) (() (() (infer-and-get-next-argument)))) a a a a 5)']

DIRECTED = ['(emit (var x 5))', '(() (var x 7) (comptime x))', '((defmacro m-3 (unused) 0) (lambda () (defmacro m-7 (p0) p0) (m-7 ()) (m-3)))', '(defun v4 () (__defmacro m-3 (p0) p0) (m-3 ()) (__comptime z6))', '(global g (__var 0 0))',
            '', ' ', ';', '"', '(', ')', '#', '#(', '(()', '(() (lambda (a', '(list 1 "ab', '\\', '"\\', '0x', '-', '-0x', '1e', '1.', '.', '(comptime (cdr 5))', '(() (defmacro m () (cdr 5)) (m))', '(list (defun f () 1) (noscope 1) (var y 2))',
            '(() (defun f () (defmacro g () 1) (undefined-variable-name) (g) (var)))', '(setq)', '(var)', '(lambda)', '(lambda 5 5)', '(defmacro)', '(defmacro m)', '(defmacro 5 5 5)', '(comptime)', '(quote)', '(if)', '(while)', '(while 1)', '(funcall)', '(apply)', '(global)', '(global 5 5)',
            '(setq 5 5)', '(self)', '(include)', '(include 5)', '(include "/nonexistent")', '(error 5)', '(error)', '(error "x")', '(read)', '(comptime (read 5 5))', '(comptime (read "(" false))', '(comptime (intern 5))', '(comptime (gensym 5))', '(__declare)', '(defun)', '(defun f)', '(defun f (a a) a)',
            '(lambda (&rest))', '(lambda (&rest a b) a)', '(lambda (a &rest) a)', '(lambda (1) 1)', '(lambda ("a") 1)', '(noscope)', '(make-instance)', '(+)', '(+ 1)', '(+ 1 2 3)', '(-)', '(not)', '(cons 1)', '(vector)', '(make-vector)', '(() (var x 1) (var x 2) x)', '(macro)', '(macro (a) a)']


class P17(Prop):
    id = 'P17'
    targets = [drv('inference'), drv('default')]
    quick, thorough = 40, 3000
    rule = ('Programs (random programs, closures, macros, sessions of sources) are written for the inferrer: parentheses are left out where the declared types allow it, identifiers and forms are marked with # where the types call for it, '
            'declarations with other types, rest counts and scripts are put between definitions, and macros with scripts take the place of var, lambda, defun, list and if. Under ASan/UBSan and heap monitors every emitted value and the result '
            'must be what the reference has for the program with all its parentheses. Sources with one error of arity, scope, type or script in them must be refused without effect. Non-trivial: at least 8 VM instructions.')
    assumptions = [ASSUME_REF, 'What a declaration inside a literal expression declares, and forms of the defining keywords in literal expressions, are not judged.']

    def batch(self, k, r, tier):
        return retry(24, lambda: self.program(r)) + retry(3, lambda: self.session(r)) + retry(8, lambda: self.fault(r)) + retry(4, lambda: self.plain(r)) + [self.literals(r) for _ in range(6)]

    def literals(self, r):
        s, v = infer.literals(r)
        return Job([('drv_inference', runner.Case([('L', s)], self.opts(r), [(('V', v), [])], [True]))], judge.units, 'literal arguments', ends=True)

    def tree(self, r):
        k = r.randrange(4)
        if k == 0: p = q = [[]] + closgen.ClosGen(r, r.choice([8, 20, 40])).program()
        else:
            p = q = [[]] + gen.Gen(r, size=r.choice([10, 30, 60, 100]), errors=r.choice([0, 0, 0, .01])).program()
            if k == 1: q = macrogen.Rewriter(r, p).run(r.choice([1, 3, 6]))
        return p, q

    def style(self, r):
        return dict(drop=r.choice([0, .3, .7, .9, 1]), declare=r.choice([0, 0, .2, .5]), literal=r.choice([0, .03, .1]), macros=r.choice([(), (), tuple(r.sample(sorted(infer.ALIASES), 2)), tuple(infer.ALIASES)]))

    def opts(self, r): return dict(MON, infer=1, objs=r.choice([3000, 6000]), cobjs=8000, gc=r.choice([0, 0, 1, 3, 50]))

    def program(self, r):
        p, q = self.tree(r)
        exp = evaluate([p])
        w = exp and infer.rewrite(r, q, **self.style(r))
        if not w: return None
        return Job([('drv_inference', runner.Case([('L', w[0])], self.opts(r), exp, [True]))], judge.units, 'inferred', ends=True)

    def session(self, r):
        u = sess.Sess(r, r.sample(list(sess.OPS), 3), .1).build(r.choice([5, 20]))
        ops = []
        for a, _, _ in u:
            w = infer.rewrite(r, a, drop=r.choice([0, .5, 1])) if isinstance(a, list) and a else (text(a) if not isinstance(a, I) else None, None)
            if not w or w[0] is None: return None
            ops.append(('L', w[0]))
        return Job([('drv_inference', runner.Case(ops, self.opts(r), [(e, t) for _, e, t in u], [False] * len(u)))], judge.units, 'session', ends=True)

    def fault(self, r):
        """Good sources around one with an error."""
        ops, exp = [], []
        bad = r.randrange(3)
        for i in range(3):
            p, q = self.tree(r)
            e = evaluate([p])
            if not e or e[0][0][0] != 'V': return None
            st = self.style(r)
            if i == bad:
                w = infer.rewrite(random.Random(r.random()), q, **st)
                w = w and infer.rewrite(r, q, fault=r.randint(2, max(3, w[1]['items'] * 2 // 3)), **st)
                e = [(('C', ''), [])]
            else: w = infer.rewrite(r, q, **st)
            if not w: return None
            ops.append(('L', w[0]))
            exp += e
        return Job([('drv_inference', runner.Case(ops, self.opts(r), exp, [True] * 3))], judge.units, 'refused', ends=True)

    def plain(self, r):
        """Without inference the marks mean nothing."""
        p, q = self.tree(r)
        exp = evaluate([p])
        w = exp and infer.rewrite(r, q, drop=0, literal=.1, extra=.3)
        if not w: return None
        return Job([('drv_' + r.choice(['default', 'inference']), runner.Case([('L', w[0])], dict(self.opts(r), infer=0), exp, [True]))], judge.units, 'inference off', ends=True)

    @classmethod
    def inferred_text(cls, r):
        p = cls()
        _, q = p.tree(r)
        w = infer.rewrite(r, q, **p.style(r))
        return w and w[0]

    def directed_jobs(self):
        jobs = []
        for s, v in DOCS:
            exp = [(('V', v) if v is not None else ('C', ''), [])]
            jobs.append(Job([('drv_inference', runner.Case([('L', s.encode())], dict(MON, infer=1, objs=5000, cobjs=8000, gc=1), exp, [False]))], judge.units, 'directed', ends=True))
        for f in infer.FAULTS:
            exp = [(('C', ''), []), (('V', 'i42'), [])]
            jobs.append(Job([('drv_inference', runner.Case([('L', b'(() ' + f.encode() + b')'), ('L', b'(() (defun q-q () 42) q-q)')], dict(MON, infer=1, objs=5000, cobjs=8000, gc=1), exp, [False] * 2))], judge.units, 'directed', ends=True))
        return jobs


# From docs/parenthesis-inference.md, for a language with separate names of functions.
DOCS = [('(() (defun add (a &rest b) if b + a apply #self b a) declare add (I &rest 1 I) (add add add 1 2 add 3 4))', 'i10'), ('(() (defun add (a &rest b) if b + a apply #self b a) declare add (I &rest 1 I) (add 1 2 3 4))', 'i10'),
        ('(() (defun f (a b) (list a b)) (list f f 1 2 f 3 4))', '(((i1 i2) (i3 i4)))'), ('(() (defun f (a b) (list a b)) (list f 1 2 3))', '((i1 i2) i3)'), ('(() (defun double (v) (* 2 v)) declare double (I) double double 5)', 'i20'),
        ('(() (defmacro glob (name value) (list (quote #__global) name value)) declare glob (L I) glob x lambda (y) - y 1 declare x (I) (funcall #x 4))', 'i3'),
        ('(() (defmacro glob (name value) (list (quote #__global) name value)) (declare glob (L I)) (defun double (v) (* 2 v)) glob x double 5 declare x I (+ x 1))', 'i11'), ('(() (global y (lambda (a b) (* a b))) declare y L (apply y (list 3 4)))', 'i12'),
        ('(() (var x 7) declare x I (x))', None), ('(apply #(lambda (a b) (+ a b)) (list 1 2))', 'i3'), ('(() (defun add (a &rest b) if b + a apply #self b a) declare add (I &rest 1 I) (apply #add (list 1 2 3 4)))', 'i10'), ('(() #(list 1 (+ 2 3)))', '(i1 i5)'),
        ('(() (defun f (a) (declare a ()) (+ 1 #a)) f 5)', 'i6'), ('(() var x "Llama comma" x)', '"Llama\\x20comma"'), ('(() defun x () "Llama comma" x)', '"Llama\\x20comma"'), ('(() defmacro x () "Llama comma" x)', '"Llama\\x20comma"'), ('(() (defmacro nil () ()) (list nil nil))', '(() ())'),
        ('(() (defun f () #()) (declare f () (() (declare-identifier "z" (quote #())) ())) (f))', '()'), ('(() (defun f () 5) (declare f () #(() (quote #(1 #(2) #x)) ())) f)', 'i5'), ('(apply lambda (x) * 2 x (list 4))', 'i8')]

ALL = [P16, P17]
