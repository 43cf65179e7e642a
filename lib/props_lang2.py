"""Properties of the language and of the compiler as a whole: literals, macros, symbols, sessions, configurations, sizes."""
import random, re
import closgen, gen, judge, ref, runner, sess, syntax
from engine import Job, Prop
from props_lang import (ASSUME_REF, MON, closure_job, directed, drv, evaluate, expjob, gcopts, program_job, retry, session_job)
from syntax import Flt, Id, Int, Str, read, text

CONF = ['default', 'portable', 'noopt', 'inference']
I64 = 2 ** 63


# ------------------------------------------------------------------------------------------------ P06
_TOK = re.compile(r'f-?(?:0x[0-9a-f.]+p[-+]?\d+|inf)')


def near(a, b):
    """Equal up to a few units in the last place of each float."""
    if a == b: return True
    if _TOK.sub('F', a) != _TOK.sub('F', b): return False
    for x, y in zip(_TOK.findall(a), _TOK.findall(b)):
        p, q = float.fromhex(x[1:]), float.fromhex(y[1:])
        if p == q: continue
        if abs(p - q) > 1e-13 * max(abs(p), abs(q)): return False
    return True


def literal_judge(case, res):
    b = judge.broken(res)
    if b: return b
    want = [v for _, t in case.exp for v in t]
    got = [x for x in res.trace()] + [x for x in res.get('c')]
    if len(res.runs()) != len(case.exp): return 'ran %d of %d sources; %s' % (len(res.runs()), len(case.exp), ' '.join(res.get('E'))[:300])
    for r in res.runs():
        if r[0] != '0': return 'a program of literals failed: ' + ' '.join(r) + ' ' + ' '.join(res.get('E'))[:300]
    if len(want) != len(got): return '%d values, expected %d' % (len(got), len(want))
    for a, b in zip(want, got):
        if not near(a, b): return 'literal has the value %s, written was %s' % (b[:300], a[:300])
    return None


def refused(case, res):
    b = judge.broken(res)
    if b: return b
    n = len([1 for t, _ in res.obs if t in 'CR'])
    for t, x in res.obs:
        # Inside quote, what is not a number is an identifier.
        if t == 'R' and x.split()[0] == '0' and "'" + case.meta not in x: return 'a literal that has no value was accepted: %s' % x
    if n != len(case.ops): return 'ran %d of %d sources' % (n, len(case.ops))
    return None


class P06(Prop):
    id = 'P06'
    targets = [drv('default'), drv('portable')]
    quick, thorough = 64, 4000
    rule = ('Random literals (integers over the whole range in decimal and hexadecimal, floats in every notation, strings of arbitrary bytes with escapes, identifiers of '
            'unusual characters, nested quoted lists) written with varied whitespace and comments in 10 syntactic positions; every value is compared with what was '
            'written (floats within 1e-13 relative), and integers that do not fit must never become another number. Non-trivial: at least 8 VM instructions or a refusal.')
    assumptions = ['The reader\'s grammar is the one in docs/language.md; numerals that are followed by other characters, and # forms, are not written.']

    def int_lit(self, r):
        k = r.randrange(6)
        if k == 0: n = r.choice([0, 1, -1, 9, 10, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, 2**31 - 1, 2**31, -2**31, -2**31 - 1, 2**32 - 1, 2**32, I64 - 1, -I64, I64 - 2])
        elif k == 1: n = r.randint(-I64, I64 - 1)
        elif k == 2: n = r.choice([-1, 1]) * (2 ** r.randint(0, 62) + r.randint(-2, 2))
        elif k == 3: n = r.choice([-1, 1]) * r.randint(0, 10 ** r.randint(1, 18))
        else: n = r.randint(-300, 300)
        s = '-' if n < 0 else ''
        k = r.randrange(5)
        if k == 0: t = s + r.choice(['0x', '0X']) + r.choice(['%x', '%X'])  % abs(n)
        elif k == 1: t = s + '0' * r.randint(1, 4) + str(abs(n))
        else: t = str(n)
        return Int(t, n)

    def flt_lit(self, r):
        for _ in range(20):
            s = r.choice(['', '', '-'])
            a = ''.join(r.choice('0123456789') for _ in range(r.choice([0, 1, 1, 2, 3, 8, 15])))
            b = ''.join(r.choice('0123456789') for _ in range(r.choice([0, 1, 2, 3, 8, 18, 30])))
            if not a and not b: continue
            dot = b or r.random() < .8
            t = s + a + ('.' + b if dot else '')
            if a and r.random() < .4 or not dot: t += r.choice('eE') + r.choice(['', '-']) + str(r.choice([0, 1, 2, 3, 5, 10, 22, 40, 100, 250]))
            try: v = float(t)
            except ValueError: continue
            if v == 0 or 1e-290 < abs(v) < 1e290: return Flt(t)
        return Flt('1.5')

    def str_lit(self, r):
        n = r.choice([0, 0, 1, 2, 5, 20, 100])
        k = r.randrange(3)
        if k == 0: return Str(bytes(r.randrange(256) for _ in range(n)))
        if k == 1: return Str(bytes(r.choice(b'\\"n\n;()') for _ in range(n)))
        return Str(bytes(r.choice(b'abc XYZ 0 true 1.5 quote') for _ in range(n)))

    def ident(self, r):
        while True:
            n = r.choice([1, 2, 3, 6, 20, 60])
            s = ''.join(chr(r.choice(b"abcxyzABC_-+*/<>=!?.,:'`~@$%^&|{}[]0123456789\x80\xe9\xff")) for _ in range(n))
            if r.random() < .15: s = r.choice(['true', 'false', 'nil', 'if', 'self', 'quote', 'e', 'x0', '-', '--', '+', 'a.b', 'truely', 'false-1', 'true?', 'falsetrue']) + (s if r.random() < .5 else '')
            if s in ('true', 'false') or s[0].isdigit() or s[0] == '.' or (s[0] == '-' and len(s) > 1 and (s[1].isdigit() or s[1] == '.')): continue
            return Id(s)

    def datum(self, r, d=0):
        k = r.randrange(8)
        if k < 2 and d < 5: return [self.datum(r, d + 1) for _ in range(r.choice([0, 1, 2, 3, 5]))]
        return [self.int_lit, self.flt_lit, self.str_lit, self.ident, lambda r: r.random() < .5][r.randrange(5)](r)

    def atom(self, r): return [self.int_lit, self.flt_lit, self.str_lit, lambda r: r.random() < .5][r.randrange(4)](r)

    def place(self, r, e, s):
        """The value of an expression, shown from various positions."""
        emit = Id('emit')
        k = r.randrange(10)
        if k < 3: return [emit, e]
        if k == 3: return [[], [Id('var'), Id('v%d' % s), e], [emit, Id('v%d' % s)]]
        if k == 4: return [[], [Id('global'), Id('g%d' % s), e], [emit, Id('g%d' % s)]]
        if k == 5: return [emit, [Id('funcall'), [Id('lambda'), [Id('p')], Id('p')], e]]
        if k == 6: return [emit, [Id('funcall'), [Id('lambda'), [], e]]]
        if k == 7: return [emit, [Id('car'), [Id('list'), e, 1]]]
        if k == 8: return [[], [Id('var'), Id('v%d' % s), 0], [Id('setq'), Id('v%d' % s), e], [emit, Id('v%d' % s)]]
        return [emit, [Id('if'), True, e, 0]]

    def job(self, r):
        body = [[]]
        for s in range(r.randint(5, 25)):
            k = r.randrange(4)
            if k == 0: e = self.atom(r)
            elif k == 1: e = [Id(r.choice(['quote', '__quote'])), self.datum(r)]
            elif k == 2: e = [Id('quote'), self.datum(r, 2)]
            else: e = [Id('list')] + [self.atom(r) for _ in range(r.randint(1, 6))]
            body.append(self.place(r, e, s))
        exp = evaluate([body + [0]])
        if exp is None: return None
        t = text(body + [0], r)
        if r.random() < .5: t = r.choice([b' ', b'\n; first ( line\n', b'\t\r\n']) + t + r.choice([b'', b'\n', b' ; end', b' ; end\n'])
        return Job([('drv_' + r.choice(['default', 'default', 'portable']), runner.Case([('L', t)], dict(MON, objs=4000, gc=r.choice([0, 1, 5])), exp))], literal_judge, 'literals')

    def too_big(self, r):
        """Numerals that no integer can hold."""
        n = r.choice([I64, I64 + 1, -I64 - 1, 2 ** 64, 2 ** 64 + 5, -2 ** 64, 2 ** 65, 10 ** 19, 10 ** 25, -10 ** 30, 18446744073709551615, 2**63 + r.randint(0, 2**62), -2**63 - r.randint(1, 2**62)])
        t = str(n) if r.random() < .6 else ('-' if n < 0 else '') + '0x%x' % abs(n)
        src = r.choice(['(() %s)', '(() (quote %s))', '(() (quote (a (%s))))', '(() (list 1 %s))', '(() (var x %s) x)']) % t
        return Job([('drv_default', runner.Case([('L', src.encode())], dict(MON, objs=1000), meta=t))], refused, 'integers that do not fit', nontrivial=lambda rs: True)

    def whole(self, r):
        """A source that is only one atom, with and without anything around it."""
        a = self.atom(r)
        exp = evaluate([a])
        t = r.choice([b'', b' ', b'; c\n']) + text(a) + r.choice([b'', b'', b' ', b'\n', b';', b' ; c'])
        def j(case, res):
            b = judge.broken(res)
            if b: return b
            x = res.runs()
            if len(x) != 1 or x[0][0] != '0': return 'the source %r failed: %s' % (t, res.summary()[:300])
            if not near(x[0][2], case.exp[0][0][1]): return 'the source %r has the value %s, expected %s' % (t, x[0][2], case.exp[0][0][1])
        return Job([('drv_default', runner.Case([('L', t)], dict(MON, objs=1000), exp))], j, 'single atoms', nontrivial=lambda rs: True)

    def batch(self, k, r, tier):
        return retry(36, lambda: self.job(r)) + [self.too_big(r) for _ in range(8)] + [self.whole(r) for _ in range(10)]

    def directed_jobs(self):
        return directed(['(() (emit 9223372036854775807) -9223372036854775808)', '(() (emit 4294967296) (emit -4294967297) 0x7fffffffffffffff)', '(() (quote (true1 falsely true)))',
                         '(; c\n)', '( )', '(() (emit ()) (emit ( )) (list ( ; c\n) 1))', 'true', '5', '"ab"', '0.5', '-1', '(() (quote truth))',
                         '(() (quote ()))', '(() (quote (quote a)))', '(() (emit "") "a\\"b\\\\c\\nd")'])


# ------------------------------------------------------------------------------------------------ P07
import macrogen


class P07(Prop):
    id = 'P07'
    targets = [drv('default')]
    quick, thorough = 64, 4000
    rule = ('Random programs are rewritten into equivalent ones in which subexpressions, statements and whole keywords come from macros (templates with holes, &rest, computed '
            'numbers, gensym bindings, nested macros, noscope groups, redefined keywords) or from comptime, with definitions in various enclosing bodies; what they show '
            'is compared with the reference on the program before rewriting. Sources with compile-time counters check that every use expands once, in order, and that state '
            'stays. Non-trivial: at least 8 VM instructions at run time.')
    assumptions = [ASSUME_REF]

    def rewritten(self, r):
        if r.random() < .7: p = [[]] + gen.Gen(r, size=r.choice([10, 30, 60]), stmts=dict(comp=0)).program()
        else: p = [[]] + closgen.ClosGen(r, r.choice([10, 20, 40])).program()
        exp = evaluate([p])
        if exp is None: return None
        w = macrogen.Rewriter(r, p)
        t = text(w.run(r.choice([1, 2, 4, 8, 15])))
        return Job([('drv_default', runner.Case([('L', t)], gcopts(r, cobjs=r.choice([4000, 8000])), exp))], judge.units, 'rewritten')

    def counters(self, r):
        """Compile-time state: every use of a macro runs its body once, in the order of the text, also across sources and after compile errors."""
        n, units, exp, ctrace = 0, [], [], []
        def use():
            nonlocal n
            n += 1
            ctrace.append('i%d' % n)
            return n
        start = r.randint(-5, 300)
        n = start
        tick = '(defmacro tick (&rest x) (setq count (+ count 1)) (emit count) (list (quote list) count (cons (quote list) x)))'
        units.append('(() (comptime (global count %d) ()) 0)' % start)
        exp.append((('V', 'i0'), []))
        for _ in range(r.randint(1, 5)):
            body, want = [], []
            if r.random() < .25:
                # A source that does not compile, perhaps after some expansions.
                before = [use() for _ in range(r.randint(0, 2))]
                bad = r.choice(['(defmacro oops () (car 5)) (oops)', '(defmacro oops () (cons (quote list) 5)) (oops)', '(comptime (car 5))', '(var)', '(error "x")', '(defmacro oops (a) a) (oops)',
                                '(defmacro oops (f) (funcall f)) (oops 5)', '(() (defmacro oops () (self)) (comptime (funcall 5)))', '(defmacro oops () (vector 1)) (oops)'])
                units.append('(() %s %s %s)' % (tick, ' '.join('(tick)' for _ in before), bad))
                exp.append((('X', ''), []))
                continue
            loop = 0
            for s in range(r.randint(1, 6)):
                a = r.choice(['', '1', '"s"', 'x', '(+ x 1)'])
                av = {'': '()', '1': '(i1)', '"s"': '("s")', 'x': '(i7)', '(+ x 1)': '(i8)'}[a]
                k = r.randrange(6)
                v = '(i%d %s)' % (use(), av)
                if k == 0: body.append('(emit (tick %s))' % a); want.append(v)
                elif k == 1: body.append('(() (emit (tick %s)))' % a); want.append(v)
                elif k == 2: body.append('(() (var i 0) (while (< i 3) (emit (tick %s)) (setq i (+ i 1))))' % a); want += [v] * 3
                elif k == 3: body.append('(() (defun f%d () (emit (tick %s))) (f%d) (f%d))' % (s, a, s, s)); want += [v] * 2
                elif k == 4: body.append('(if x (emit (tick %s)) 0)' % a); want.append(v)
                else: body.append('(emit (comptime (list %s)))' % ' '.join('%d' % d for d in range(3))); ctrace.pop(); n -= 1; want.append('(i0 i1 i2)')
            units.append('(() (var x 7) %s %s 0)' % (tick, ' '.join(body)))
            exp.append((('V', 'i0'), want))
        def j(case, res):
            b = judge.broken(res)
            if b: return b
            if res.get('c') != ctrace: return 'macro bodies ran in the order %s, the text has %s' % (res.get('c'), ctrace)
            k, tr = 0, []
            for tag, x in res.obs:
                if tag == 'T': tr.append(x)
                elif tag in 'CR':
                    e, et = case.exp[k]
                    if e[0] == 'X':
                        if tag == 'R' and x.startswith('0 '): return 'source %d compiled and ran, it has an error' % k
                    else:
                        if tag == 'C': return 'source %d was rejected: %s' % (k, ' '.join(res.get('E'))[:500])
                        if tr != et: return 'source %d showed %s, expected %s; %s' % (k, tr, et, x)
                        if x.split(' ', 2)[2] != e[1]: return 'source %d ended with %s' % (k, x)
                    k, tr = k + 1, []
            if k != len(case.exp): return 'ran %d of %d sources' % (k, len(case.exp))
        return Job([('drv_default', runner.Case([('L', u.encode()) for u in units], gcopts(r, cobjs=4000), exp))], j, 'compile-time state')

    def across(self, r):
        """Macros of one source are unknown to the next; equal names do not collide."""
        units, exp = [], []
        for s in range(r.randint(2, 5)):
            ms = ['m%d' % i for i in range(r.randint(1, 4))]
            r.shuffle(ms)
            vals = {m: r.randint(0, 999) for m in ms}
            defs = ' '.join('(defmacro %s (x) (list (quote list) %d x))' % (m, vals[m]) for m in ms)
            uses = [r.choice(ms) for _ in range(r.randint(1, 5))]
            inner = r.choice(ms)
            units.append('(() %s %s (() (defmacro %s (x) (list (quote list) -1 x)) (emit (%s 1))) %s 0)' % (
                r.choice(['', '(comptime (var q 5) ())', '(comptime 5)']), defs, inner, inner, ' '.join('(emit (%s %d))' % (m, i) for i, m in enumerate(uses))))
            exp.append((('V', 'i0'), ['(i-1 i1)'] + ['(i%d i%d)' % (vals[m], i) for i, m in enumerate(uses)]))
        return Job([('drv_default', runner.Case([('L', u.encode()) for u in units], gcopts(r, cobjs=4000), exp))], judge.units, 'macros across sources')

    def batch(self, k, r, tier):
        return retry(40, lambda: self.rewritten(r)) + retry(10, lambda: self.counters(r)) + retry(6, lambda: self.across(r))

    def directed_jobs(self):
        T = [('(() (emit (comptime (quote a))) (comptime (quote (b (c) 1))))', ["'a"], "('b ('c) i1)"), ('(() (defmacro m () (cons (quote list) ())) (m))', [], '()'),
             ('(() (defmacro m (&rest a) (if a (list (quote if) (car a) (apply self (cdr a)) false) true)) (emit (m)) (emit (m 1 2)) (m 1 ()))', ['#t', '#t'], '#f'),
             ('(() (comptime (defun h (x) (* x 2)) ()) (defmacro dbl (x) (h x)) (dbl 21))', [], 'i42'), ('(() (defmacro decl (&rest n) (cons (quote noscope) (cons (list (quote var) (car n) 1) (cons (list (quote var) (car (cdr n)) 2) ())))) (decl a b) (list a b))', [], '(i1 i2)'),
             ('(() (defmacro m () (car (read "(list 1 (quote z))" false))) (m))', [], "(i1 'z)"), ('(() (defmacro f (x) (list (quote defun) x () 5)) (f g) (g))', [], 'i5'),
             ('(() (defmacro v (x) (list (quote var) x 9)) (v g) (+ g 1))', [], 'i10'), ('(() (comptime (list 1 (list) "" 2.5 true)))', [], '(i1 () "" f0x1.4p+1 #t)')]
        jobs = [Job([('drv_default', runner.Case([('L', s.encode())], dict(MON, objs=2000, cobjs=2000, gc=1), [(('V', v), t)]))], judge.units, 'directed') for s, t, v in T]
        for s in ['(() (defmacro m () (cons (quote list) 5)) (m))', '(() (defmacro m () (list (quote list) (cons 1 2))) (m))', '(() (error "x"))', '(() (__error "x"))', '(() (defmacro m () (car 1)) (m))', '(() (defmacro m () (vector 1)) (m))', '(() (comptime (lambda () 1)))']:
            def rej(case, res):
                b = judge.broken(res)
                if b: return b
                if res.get('C') != ['1']: return 'the source was not rejected'
                if [x[2] for x in res.runs()] != ['i4']: return 'the next source failed: ' + res.summary()[:300]
            jobs.append(Job([('drv_default', runner.Case([('L', s.encode()), ('L', b'(() (defmacro k (x) (list (quote +) x 1)) (k 3))')], dict(MON, objs=2000, cobjs=2000)))], rej, 'compile errors', nontrivial=lambda rs: True))
        return jobs


# ------------------------------------------------------------------------------------------------ P08
def esc(b):
    return ''.join(chr(c) if 33 <= c <= 126 and c not in b'"\\' else '\\x%02x' % c for c in b)


class P08(Prop):
    id = 'P08'
    targets = [drv('default'), drv('portable')]
    quick, thorough = 48, 3000
    rule = ('Sequences of sources that name the same and similar symbols (prefixes of each other, one byte apart, long, bytes above 127, keywords, numerals-like) by quoting, inside quoted '
            'data, from macros, by intern and gensym, at compile time and run time, across sources, failed sources and new VMs; the number, the string and the name of every symbol shown are recorded and '
            'must form one bijection. Non-trivial: at least 8 VM instructions.')
    assumptions = ['Names that are written in sources are identifiers; arbitrary bytes come from intern.']

    def names(self, r):
        base = ''.join(chr(r.choice(b'abcxyz-*<>?!+\x80\xff')) for _ in range(r.choice([1, 2, 4, 9])))
        if base[0] == '-': base = 'q' + base
        out = [base]
        for _ in range(r.randint(2, 14)):
            b = r.choice(out)
            k = r.randrange(7)
            if k == 0: n = b + chr(r.choice(b'abz-0\xfe'))
            elif k == 1 and len(b) > 1: n = b[:-1]
            elif k == 2: n = b[:-1] + chr((ord(b[-1]) ^ (1 << r.randrange(8))))
            elif k == 3: n = chr(r.choice(b'abm')) + b
            elif k == 4: n = r.choice(['emit', 'car', '__car', 'self', 'if', 'quote', 'gensym', 'nil', 'truth', 'a', 'aa', 'aaa', 'x0', 'x00', '&rest', 'self:'])
            elif k == 5: n = b * r.choice([2, 3, 20])
            else: n = b.swapcase() if b.isascii() else b + 'x'
            if n and len(n) < 400: out.append(n)
        return out

    def writable(self, n):
        if n in ('true', 'false') or not n: return False
        if any(ord(c) < 33 or c in '()[];"\\#' or ord(c) == 127 for c in n): return False
        return not (n[0].isdigit() or n[0] == '.' or (n[0] == '-' and len(n) > 1 and (n[1].isdigit() or n[1] == '.')))

    def job(self, r):
        pool = self.names(r)
        wr = [n for n in pool if self.writable(n)]
        if len(wr) < 2: return None
        raw = [''.join(chr(r.randrange(256)) for _ in range(r.choice([1, 1, 2, 5]))) for _ in range(r.randint(0, 3))]
        raw = [n for n in raw if not any(c in "()@' " for c in n)]
        units, exp = [], []
        alln = wr + raw
        saved = None
        for _ in range(r.randint(1, 6)):
            if r.random() < .15:
                units.append(None)
                continue
            body, want = [], []
            for s in range(r.randint(1, 12)):
                n, m = r.choice(wr), r.choice(wr)
                a = r.choice(alln)
                lit = text(Str(a.encode('latin-1'))).decode('latin-1')
                S, Q = ('sym', n), lambda x: ('str', x)
                k = r.randrange(12)
                if k == 0: body.append('(emit (quote %s))' % n); want.append(('T', [S]))
                elif k == 1: body.append('(emit (list (quote %s) (symbol-id (quote %s)) (symbol-string (quote %s))))' % (n, n, n)); want.append(('T', ['(', S, ' ', ('id', n), ' ', Q(n), ')']))
                elif k == 2: body.append('(emit (list (= (quote %s) (quote %s)) (= (symbol-id (quote %s)) (symbol-id (quote %s)))))' % (n, m, n, m)); b = '#t' if n == m else '#f'; want.append(('T', ['(%s %s)' % (b, b)]))
                elif k == 3: body.append('(comptime (emit (intern %s)) ())' % lit); want.append(('c', [('sym', a)]))
                elif k == 4: body.append('(emit (comptime (intern %s)))' % lit); want.append(('T', [('sym', a)]))
                elif k == 5: body.append('(emit (quote (%s (%s 5) %s)))' % (n, m, n)); want.append(('T', ['(', S, ' (', ('sym', m), ' i5) ', S, ')']))
                elif k == 6: body.append('(comptime (emit (gensym)) ())'); want.append(('c', [('gensym', '')]))
                elif k == 7: body.append('(emit (comptime (gensym)))'); want.append(('T', [('gensym', '')]))
                elif k == 8: body.append('(() (defmacro qq (x) (list (quote quote) x)) (emit (qq %s)))' % n); want.append(('T', [S]))
                elif k == 9: body.append('(comptime (emit (= (intern %s) (quote %s))) ())' % (lit, n)); want.append(('c', ['#t' if a == n else '#f']))
                elif k == 10:
                    if saved is None or r.random() < .3: body.append('(comptime (global saved (quote %s)) ())' % n); saved = n
                    else: body.append('(comptime (emit (list saved (= saved (intern %s)))) ())' % lit); want.append(('c', ['(', ('sym', saved), ' ', '#t' if a == saved else '#f', ')']))
                else: body.append('(global gs (quote %s)) (emit gs)' % n); want.append(('T', [S]))
            bad = r.random() < .1
            # What a source that does not compile shows at compile time stays shown.
            src = '(() %s%s)' % (' '.join(body), r.choice([' (var)', ' (comptime (car 5))', ' (defmacro z () (car 5)) (z)']) if bad else ' 0')
            units.append(src)
            exp += [w for w in want if not bad or w[0] == 'c']
        ops = [('L', u.encode('latin-1')) if u else ('V', None) for u in units]
        def j(case, res):
            b = judge.broken(res)
            if b: return b
            lines = [(t, x) for t, x in res.obs if t in 'Tc']
            ids, back = {}, {}
            for _, x in lines:
                for n in alln + ['']:
                    pat = re.escape(esc(n.encode('latin-1'))) if n else r'\\x00[0-9A-Fa-f]{16}'
                    for mm in re.finditer(r"(?:^|[ (])'(%s)@(\d+)(?=[ )]|$)" % pat, x):
                        nm, i = mm.group(1), int(mm.group(2))
                        if ids.setdefault(nm, i) != i: return 'symbol %s has the numbers %d and %d' % (nm, ids[nm], i)
                        if back.setdefault(i, nm) != nm: return 'symbols %s and %s have the number %d' % (nm, back[i], i)
            if len([1 for t, x in res.obs if t in 'CR']) != len([u for u in units if u]): return 'not all sources ran'
            for t in ('c', 'T'):
                got, want = [x for g, x in lines if g == t], [w for g, w in case.exp if g == t]
                if len(got) != len(want): return '%d observations, expected %d; %s' % (len(got), len(want), res.summary()[:400])
                gens = set()
                for x, w in zip(got, want):
                    if w[0][0] == 'gensym':
                        if not re.match(r"'\\x00[0-9A-Fa-f]{16}@\d+$", x): return 'gensym made %s' % x
                        if x in gens: return 'gensym made %s twice' % x
                        gens.add(x)
                        continue
                    y = ''
                    for p in w:
                        if isinstance(p, str): y += p; continue
                        e = esc(p[1].encode('latin-1'))
                        y += "'%s@%s" % (e, ids.get(e)) if p[0] == 'sym' else 'i%s' % ids.get(e) if p[0] == 'id' else '"%s"' % e
                    if x != y: return 'shown %s, expected %s' % (x[:300], y[:300])
        return Job([('drv_' + r.choice(['default', 'default', 'portable']), runner.Case(ops, gcopts(r, ids=1, cobjs=r.choice([2000, 5000])), exp))], j, 'symbols', nontrivial=lambda rs: len(rs[0].obs) > 4)

    def many(self, r):
        """Symbol numbers pass 255 and more; names share long prefixes."""
        n = r.choice([300, 600, 1500])
        nm = lambda i: r'%s%d' % (pre, i) if style else 'k%05d%s' % (i, pre)
        pre, style = r.choice(['p', 'some-long-prefix-', 'z' * 60]), r.random() < .5
        idx = list(range(n))
        r.shuffle(idx)
        units, per = [], r.choice([100, 200])
        for a in range(0, n, per): units.append('(() %s 0)' % ' '.join('(emit (quote %s))' % nm(i) for i in idx[a:a + per]))
        probe = [r.randrange(n) for _ in range(150)]
        units.append('(() %s 0)' % ' '.join('(emit (comptime (intern "%s")))' % nm(i) for i in probe))
        order = [nm(i) for i in idx] + [nm(i) for i in probe]
        def j(case, res):
            b = judge.broken(res)
            if b: return b
            t = res.trace()
            if len(t) != len(order): return '%d observations of %d; %s' % (len(t), len(order), res.summary()[:300])
            ids, back = {}, {}
            for x, n in zip(t, order):
                a, _, i = x.rpartition('@')
                if a != "'" + n: return 'shown %s for %s' % (x, n)
                if ids.setdefault(n, i) != i: return 'symbol %s has the numbers %s and %s' % (n, ids[n], i)
                if back.setdefault(i, n) != n: return 'symbols %s and %s have the number %s' % (n, back[i], i)
        return Job([('drv_default', runner.Case([('L', u.encode()) for u in units], dict(MON, ids=1, objs=5000, cobjs=5000)))], j, 'many symbols')

    def fresh(self, r, n):
        """Very many generated symbols, from compilation (labels, closures) and from gensym, none of which was there before."""
        room = n + 4000
        src = ['(comptime (global seen (make-vector %d false)) ())' % room,
               '(comptime (() (defun fresh (n) (var k 0) (var old 0) (while (< k n) (var i (symbol-id (gensym))) (if (get-vector-element seen i) (setq old (+ old 1)) (set-vector-element seen i true)) (setq k (+ k 1))) old)'
               ' (global fresh fresh) ()))']
        left = n
        while left:
            q = min(left, r.choice([1, 7, 100, 1000, 30000]))
            if r.random() < .4: src.append('(() (defun f (x) (if (< x 1) (while false (when x (funcall (lambda (y) (and x y)) 1))) (unless x 2))) (f 0))')
            src.append('(() (comptime (emit (funcall fresh %d)) ()) 0)' % q)
            left -= q
        want = len([1 for x in src if 'emit' in x])
        def j(case, res):
            b = judge.broken(res)
            if b: return b
            c = [x for t, x in res.obs if t == 'c']
            if len(c) != want: return '%d observations of %d; %s' % (len(c), want, res.summary()[:300])
            for k, x in enumerate(c):
                if x != 'i0': return 'gensym returned %s symbols that it had returned before (%d calls)' % (x[1:], n)
        return Job([('drv_default', runner.Case([('L', u.encode()) for u in src], dict(MON, gc=0, objs=3000, cobjs=3 * n + 20000, pool=0)))], j, 'generated symbols')

    def directed_jobs(self):
        return [self.fresh(random.Random(n), n) for n in (300, 5000, 70000)]

    def batch(self, k, r, tier):
        n = r.choice([10, 100, 260, 300, 600, 1100])
        return retry(50, lambda: self.job(r)) + ([self.many(r)] if k % 8 == 0 else []) + ([self.fresh(r, n)] if k % 4 == 1 else [])


# ------------------------------------------------------------------------------------------------ P09
def schedule(r, asts, drivers='drv_default', opts=None, label='schedule', fresh=.06, late=.5, extra=.5):
    """Sources compiled in order and executed at other times, again, or on other VMs. None if an execution leaves the specified language."""
    ops, events, m = [], [], ref.Machine()
    exp, wrapped = [], []
    def execute(k):
        t = len(m.trace)
        res = ref.run_program(asts[k], m)
        if res[0] == 'V': res = ('V', ref.show(res[1]))
        exp.append((res, m.trace[t:]))
        wrapped.append(text(asts[k]).startswith(b'(('))
    slot, pending = {}, []
    try:
        for k, a in enumerate(asts):
            src = text(a)
            if r.random() < late and len(slot) < 60:
                slot[k] = len(slot)
                ops.append(('K %d' % slot[k], src))
                pending.append(k)
            else:
                ops.append(('L', src))
                execute(k)
            while pending and r.random() < .45:
                x = pending.pop(r.choice([0, 0, -1]))
                ops.append(('X %d' % slot[x], None))
                execute(x)
            if slot and r.random() < extra * .5:
                x = r.choice(list(slot))
                ops.append(('X %d' % slot[x], None))
                execute(x)
            if r.random() < fresh:
                ops.append(('V', None))
                m = ref.Machine()
            if r.random() < .03: ops.append((r.choice('GS'), None))
        for x in pending:
            ops.append(('X %d' % slot[x], None))
            execute(x)
    except ref.Discard:
        return None
    if not exp: return None
    ds = [drivers] if isinstance(drivers, str) else drivers
    runs = [(d, runner.Case(ops, opts or gcopts(r), exp, wrapped)) for d in ds]
    return Job(runs, judge.units if len(runs) == 1 else all_units_of(judge.units), label)


def all_units_of(f):
    def j(cases, results):
        for k, (c, x) in enumerate(zip(cases, results)):
            v = f(c, x)
            if v: return 'execution %d: %s' % (k, v)
    return j


class P09(Prop):
    id = 'P09'
    targets = [drv('default')]
    quick, thorough = 48, 3000
    rule = ('Histories of up to 60 sources on one compiler: definitions, redefinitions, assignments and uses of globals (also before they exist), late-bound recursive global functions, closures '
            'with state, failing sources; sources are executed at once, later, again, out of order, and on new VMs, with collections and resets between; every observation is compared with the '
            'reference. Non-trivial: at least 8 VM instructions.')
    assumptions = [ASSUME_REF]

    def late(self, r):
        """Global functions that call each other through their globals, redefined while in use."""
        fs = ['f%d' % i for i in range(r.randint(1, 5))]
        vs = ['v%d' % i for i in range(r.randint(1, 4))]
        n = [0]
        def expr(d, loc):
            k = r.randrange(8)
            if d > 2 or k == 0: return r.choice([r.randint(-3, 40), Id(r.choice(vs)), Id(r.choice(loc)) if loc else 7])
            if k == 1 and loc: return [Id('if'), [Id('<'), Id('n'), 1], expr(d + 1, loc), [Id(r.choice(fs)), [Id('-'), Id('n'), r.randint(1, 3)]]]
            if k == 2: return [Id('setq'), Id(r.choice(vs)), expr(d + 1, loc)]
            if k == 3 and loc: return [Id('if'), [Id('<'), Id('n'), 1], 0, [Id('funcall'), Id(r.choice(fs)), [Id('-'), Id('n'), r.randint(1, 4)]]]
            if k == 4: return [Id('emit'), expr(d + 1, loc)]
            if k == 5: return [Id('list'), expr(d + 1, loc), expr(d + 1, loc)]
            if k == 6: return [[], [Id('var'), Id('t'), expr(d + 1, loc)], [Id('emit'), Id('t')], Id('t')]
            return [Id(r.choice('+-')), expr(d + 1, loc), r.randint(0, 9)]
        asts = []
        for _ in range(r.choice([5, 12, 25])):
            k = r.randrange(10)
            if k < 3: a = [Id('global'), Id(r.choice(fs)), [Id('lambda'), [Id('n')], expr(0, ['n'])]]
            elif k < 4: a = [Id('global'), Id(r.choice(fs)), [[], [Id('var'), Id('c'), r.randint(0, 9)], [Id('lambda'), [Id('n')], [Id('setq'), Id('c'), [Id('+'), Id('c'), 1]], [Id('list'), Id('c'), expr(1, ['n'])]]]]
            elif k < 6: a = [Id('global'), Id(r.choice(vs)), expr(1, [])]
            elif k < 7: a = [Id('setq'), Id(r.choice(vs)), expr(1, [])]
            elif k < 8: a = [Id('emit'), expr(0, [])]
            else: a = [Id(r.choice(fs)), r.randint(0, 9)]
            asts.append([[], a] if r.random() < .6 or k == 4 else a)
        return schedule(r, asts)

    def sessions(self, r):
        s = sess.Sess(r, r.choice([['arith', 'list'], ['vector', 'string'], ['call'], ['type', 'list', 'call'], list(sess.OPS)]), r.choice([0, .1, .3]))
        u = s.build(r.choice([5, 15, 30]))
        return schedule(r, [a for a, _, _ in u], fresh=r.choice([0, 0, .05]))

    def programs(self, r):
        """Whole programs one after the other; what one leaves must not matter to the next."""
        asts = [[[]] + gen.Gen(r, size=r.choice([10, 30])).program() if r.random() < .6 else [[]] + closgen.ClosGen(r, 15).program() for _ in range(r.randint(2, 6))]
        return schedule(r, asts, extra=1, fresh=.15)

    def batch(self, k, r, tier):
        return retry(20, lambda: self.late(r)) + retry(14, lambda: self.sessions(r)) + retry(12, lambda: self.programs(r))

    def directed_jobs(self):
        out = []
        T = [['(global x 1)', '(() (setq x (+ x 1)))', 'x', 'V', 'x'], ['(setq q 5)', 'q', '(() (var q 1) (setq q 2) q)', 'q', '(global q 9)', 'q'],
             ['(global f (lambda (n) (g n)))', '(f 1)', '(global g (lambda (n) (+ n 1)))', '(f 1)', '(global g (lambda (n) (+ n 2)))', '(f 1)'],
             ['(() (car 5))', '(() (var x (list 1)) (global keep (lambda () x)) (car 7))', '(keep)', '(() (keep))', 'V', '(() (keep))'], ['(var z 5)', 'z'], ['(() (defun h () 5) (h))', '(h)']]
        for t in T:
            m, exp = ref.Machine(), []
            for s in t:
                if s == 'V': m = ref.Machine(); continue
                n = len(m.trace)
                v = ref.run_program(read(s), m)
                exp.append((('V', ref.show(v[1])) if v[0] == 'V' else v, m.trace[n:]))
            out.append((t, exp))
        return [Job([('drv_default', runner.Case([('V', None) if s == 'V' else ('L', s.encode()) for s in t], dict(MON, gc=1, objs=2000), e, [s.startswith('((') for s in t if s != 'V']))], judge.units, 'directed')
                for t, e in out if t != ['(var z 5)', 'z']]


# ------------------------------------------------------------------------------------------------ P10
KEYWORDS = ['if', 'when', 'unless', 'while', 'var', 'global', 'setq', 'lambda', 'defun', 'funcall', 'apply', 'list', 'vector', 'cons', 'car', 'cdr', '+', '-', '*', '/', '=', '<', '>', 'not', 'and', 'or', 'quote',
            'noscope', 'self', 'make-vector', 'get-vector-element', 'set-vector-element', 'set-car', 'set-cdr', 'null?', 'type-of', 'make-type', 'make-instance', 'composite-value', 'composite-function',
            'set-composite-value', 'set-composite-function', 'make-string', 'concatenate', 'substring', 'length', 'symbol-string', 'symbol-id', 'error', 'defmacro', 'macro', 'comptime', 'emit', 'cb-sub', 'cb-seven',
            'cb-fail', 'cb-gc', 'cb-call0', 'cb-call1', 'cb-user', '&rest', 'include', 'intern', 'gensym', 'read', '__if', '__var', '__quote', '__lambda']


def mutate(r, prog, n):
    """A program like the given one, with n changes that need not make sense."""
    def copy(x): return [copy(y) for y in x] if isinstance(x, list) else x
    prog = copy(prog)
    for _ in range(n):
        nodes, ids = [], []
        def walk(x):
            for i, y in enumerate(x):
                nodes.append((x, i))
                if isinstance(y, Id): ids.append(y)
                if isinstance(y, list): walk(y)
        walk(prog)
        if not nodes: return prog
        x, i = r.choice(nodes)
        k = r.randrange(10)
        if k == 0:
            y, j = r.choice(nodes)
            x[i] = copy(y[j])
        elif k == 1: del x[i]
        elif k == 2: x.insert(i, copy(x[i]))
        elif k == 3:
            j = r.randrange(len(x))
            x[i], x[j] = x[j], x[i]
        elif k == 4 and ids: x[i] = r.choice(ids)
        elif k == 5: x[i] = Id(r.choice(KEYWORDS))
        elif k == 6: x[i] = r.choice([0, 1, -1, 3, 255, 256, True, False, Flt('1.5'), Str(b''), Str(b'ab'), [], [Id('list'), 1, 2], [Id('vector'), 1, 2], [Id('lambda'), [Id('a')], Id('a')]])
        elif k == 7: x[i] = [Id(r.choice(KEYWORDS)), copy(x[i])]
        elif k == 8: x[i] = [Id(r.choice(KEYWORDS)), copy(x[i]), copy(r.choice(nodes)[0][0])]
        elif isinstance(x[i], list): x[i:i + 1] = x[i]
        if len(nodes) > 1500: break
    return prog


def seen(res):
    """What a user can see of an execution: values, and where sources failed. Not the wording of errors."""
    out = []
    for t, x in res.obs:
        if t in 'Tc': out.append(t + ' ' + x)
        elif t == 'C': out.append('C')
        elif t == 'R':
            f = x.split(' ', 2)
            out.append('R %s %s %s' % (('0', f[1], f[2]) if f[0] == '0' else ('error', '', '')))
    return out


def agree(cases, results):
    for k, x in enumerate(results):
        b = judge.broken(x)
        if b: return 'execution %d: %s' % (k, b)
    if any(' BUDGET' in y or (t == 'R' and y.startswith('6 ')) or (t == 'C' and y == '6') for x in results for t, y in x.obs): return 'inconclusive'
    # The optimiser drops a read of a global whose value is not used, and with it the error if there is no such global.
    def dropped(k): return cases[k].meta == 'drv_noopt' and any('push-global:' in y for y in results[k].get('E'))
    ks = [k for k in range(len(results)) if not dropped(k)]
    if len(ks) < 2: return None
    a = seen(results[ks[0]])
    for k in ks[1:]:
        x = results[k]
        b = seen(x)
        if a != b:
            for i in range(max(len(a), len(b))):
                p, q = (a[i] if i < len(a) else '(nothing)'), (b[i] if i < len(b) else '(nothing)')
                if p != q: return 'executions %d and %d disagree in observation %d: %s and %s; %s' % (ks[0], k, i, p[:250], q[:250], ' / '.join(x.get('E') + results[ks[0]].get('E'))[:300])


def variants(r, n=4, objs=(4000, 9000, 30000)):
    """Executions in different configurations and with different resources."""
    ds = ['drv_' + c for c in CONF]
    r.shuffle(ds)
    if n <= len(ds): ds = ds[:n]
    else: ds += [r.choice(ds) for _ in range(n - len(ds))]
    return [(d, dict(MON, objs=r.choice(objs), cobjs=r.choice([8000, 20000]), gc=r.choice([0, 0, 1, 3, 17]), fit=r.randrange(4), pool=r.choice([8, 32]) << 20)) for d in ds]


class P10(Prop):
    id = 'P10'
    targets = [drv(c) for c in CONF]
    quick, thorough = 40, 3000
    rule = ('Random programs, closure programs, sessions, macro-rewritten programs and schedules of sources, and programs made from these by arbitrary changes of the tree, run in four builds (C library and bundled allocator with '
            'four placement policies, without jump and push-pop optimisation, with parenthesis inference compiled in but off), with and without names of symbols in the code, with different heap sizes and collection periods; what is seen must be the '
            'same in all, and what the reference has where it applies. Non-trivial: at least 8 VM instructions.')
    assumptions = [ASSUME_REF, 'Executions that exhaust the instruction budget or memory in one configuration are not compared.']

    VALUES = ['3', '-1', '2.5', 'true', 'false', '"ab"', '""', '(quote s)', '()', '(list 1 2)', '(cons 1 2)', '(vector 1 2)', '(lambda (x) x)', '(type-of 1)', '(make-instance (make-type) 1 (lambda (x) x))', '0', 'v', 'g']

    def unwanted(self, r):
        """Operations on values of all types whose results nobody wants."""
        ops = sorted({(o, len(k)) for g in sess.OPS.values() for o, k in g if k})
        out = [read('(() (global g 2))')]
        for _ in range(r.choice([5, 20])):
            f = [read('(%s %s)' % (o, ' '.join(r.choice(self.VALUES) for _ in range(n)))) for o, n in (r.choice(ops) for _ in range(r.choice([1, 1, 2])))]
            out.append([[], [Id('var'), Id('v'), read(r.choice(self.VALUES[:-2]))], r.choice([[[]] + f, [Id('when'), True] + f, [[Id('lambda'), []] + f], [Id('noscope')] + f, f[0]]), [Id('emit'), 1]])
            if isinstance(out[-1][2][0], list) and out[-1][2][0]: out[-1][2] = [Id('funcall'), out[-1][2][0] + f]
        return out

    def asts(self, r, macros=True):
        k = r.choice([0, 1, 2, 3, 4, 5] if macros else [0, 1, 3, 4, 5])
        if k == 5: return P10.unwanted(P10, r)
        if k == 0: return [[[]] + gen.Gen(r, size=r.choice([20, 50, 90]), errors=r.choice([0, .02])).program()]
        if k == 1: return [[[]] + closgen.ClosGen(r, r.choice([15, 40])).program()]
        if k == 2:
            p = [[]] + gen.Gen(r, size=r.choice([20, 50])).program()
            return [macrogen.Rewriter(r, p).run(r.choice([2, 5, 10]))]
        if k == 3: return [[[]] + gen.Gen(r, size=20).program() for _ in range(r.randint(2, 4))]
        s = sess.Sess(r, list(sess.OPS), r.choice([.1, .3]))
        return [a for a, _, _ in s.build(r.choice([10, 30]))]

    def known(self, r):
        v = variants(r, 4)
        j = expjob(self.asts(r, False), [d for d, _ in v], [o for _, o in v], r if r.random() < .2 else None, 'specified')
        if j:
            for _, c in j.runs: c.meta = [x.startswith(b'((') for _, x in c.ops]
        return j

    def mutated(self, r):
        a = [mutate(r, x, r.choice([1, 1, 2, 4, 10])) for x in self.asts(r)]
        ops = [('L', text(x)) for x in a]
        return Job([(d, runner.Case(ops, dict(o, budget=50000, cpu=3, unbal=1), meta=d)) for d, o in variants(r, 4)], agree, 'changed')

    def rewritten(self, r):
        p = [[]] + gen.Gen(r, size=r.choice([20, 50])).program()
        exp = evaluate([p])
        if exp is None: return None
        t = text(macrogen.Rewriter(r, p).run(r.choice([2, 5, 10])))
        return Job([(d, runner.Case([('L', t)], o, exp)) for d, o in variants(r, 4)], all_units_of(judge.units), 'macros')

    def nameless(self, r):
        """Compiled without the names of symbols: nothing else changes."""
        a = self.asts(r, False)
        ops = [('L', text(x)) for x in a]
        if any(w in t for _, t in ops for w in (b'symbol-string', b'concatenate', b'intern', b'gensym')): return None  # These show names.
        exp = evaluate(a)
        if exp is None: return None
        bare = lambda v: re.sub(r'"[^"]*"|\'[^ ()\[\]]+', lambda m: m.group() if m.group()[0] == '"' else "'#stripped", v)
        exp = [((k, bare(v) if k == 'V' else v), [bare(x) for x in tr]) for (k, v), tr in exp]
        return Job([(d, runner.Case(ops, dict(o, strip=1), exp)) for d, o in variants(r, 2)], all_units_of(judge.units), 'symbol names left out', ends=True)

    def scheduled(self, r):
        s = sess.Sess(r, list(sess.OPS), .1)
        j = schedule(r, [a for a, _, _ in s.build(12)], label='schedules')
        if j is None: return None
        c = j.runs[0][1]
        return Job([(d, runner.Case(c.ops, o, c.exp, c.meta)) for d, o in variants(r, 4)], all_units_of(judge.units), 'schedules')

    def batch(self, k, r, tier):
        return retry(4, lambda: self.known(r)) + retry(2, lambda: self.rewritten(r)) + retry(2, lambda: self.scheduled(r)) + retry(2, lambda: self.nameless(r)) + retry(10, lambda: self.mutated(r))


# ------------------------------------------------------------------------------------------------ P11
NEAR8 = list(range(240, 262)) + [126, 127, 128, 129]
NEAR16 = list(range(65525, 65541)) + [32760, 32766, 32767, 32768, 32769, 40000]


def deepen(r, prog, ns, k):
    """The same program with k of its expressions evaluated on top of many temporaries."""
    rw = macrogen.Rewriter(r, prog)
    pos = [(x, i) for x, i, _ in rw.positions()
           if not (isinstance(x[i], list) and x[i] and isinstance(x[i][0], Id) and macrogen.name(x[i][0]) in ('var', 'defun', 'noscope', 'defmacro', 'global'))
           and not (isinstance(x[0], Id) and macrogen.name(x[0]) in ('defmacro', 'macro', 'comptime'))]
    r.shuffle(pos)
    for x, i in pos[:k]: x[i] = [Id('get-vector-element'), [Id('vector'), x[i]] + [0] * r.choice(ns), 0]
    return rw.p


class P11(Prop):
    id = 'P11'
    targets = [drv('default'), ('plain_default', 'drv.c', 'default', 'plain', True, True), ('plain_noopt', 'drv.c', 'noopt', 'plain', True, True), drv('noopt')]
    quick, thorough = 24, 700
    rule = ('Programs whose size is swept across the boundaries of the instruction encodings (127/128, 255/256, 32767/32768, 65535/65536): numbers of locals, globals, captured variables, functions, arguments, symbols, callbacks, '
            'elements, nested scopes, lengths of strings, distances of branches and of functions, and depths of the stack under every operation; values are compared with the reference or with what the sizes imply. '
            'Sizes around 2^16 run in an uninstrumented build. Non-trivial: at least 8 VM instructions.')
    assumptions = [ASSUME_REF, 'String literals are at most 65535 bytes long, functions have at most 255 parameters and arguments: beyond that the compiler reports an error.']

    def opts(self, big, **kw): return dict(MON if not big else {}, objs=400000 if big else 20000, cobjs=400000 if big else 20000, gc=0, budget=20000000, pool=(1 << 30) if big else (256 << 20), cpu=60, **kw)

    def n(self, r, big): return r.choice(NEAR16 if big else NEAR8) if r.random() < .8 else r.randint(1, 66000 if big else 600)

    def driver(self, r, big): return r.choice(['plain_default', 'plain_default', 'plain_noopt'] if big else ['drv_default', 'drv_default', 'drv_noopt'])

    def shape(self, r, big):
        """A program with a size and what it must show: list of (text, value)."""
        n = max(3, self.n(r, big))
        k = r.randrange(20)
        i, j = r.randrange(n), r.randrange(n)
        V = lambda a: ' '.join('(var a%d %d)' % (x, x) for x in range(a))
        A = lambda a: ' '.join('a%d' % x for x in range(a))
        X = lambda v: [v if x == j else x for x in (i, j, 0, n - 1)]
        if k == 0: return 'locals', [('(() %s (setq a%d 7) (list a%d a%d a0 a%d))' % (V(n), j, i, j, n - 1), X(7))]
        if k == 1: return 'captured', [('(() (var g (() %s (lambda () (setq a%d -5) (list a%d a%d %s)))) (funcall g))' % (V(n), j, i, j, 'a0 a%d' % (n - 1)), X(-5))]
        if k == 2:
            m = min(n, 4000)
            return 'captured all', [('(() (var g (() %s (lambda () (var v (vector %s)) (setq a%d (- 0 a%d)) (list (length v) (get-vector-element v %d) a%d)))) (funcall g) (funcall g))' % (V(m), A(m), i % m, i % m, j % m, i % m), [m, j % m if i % m != j % m else -(i % m), i % m])]
        if k == 3:
            m = min(n, 3000)
            return 'captured twice', [('(() (var g (() %s (lambda () (lambda () (setq a%d (+ 1 a%d)) (list %s))))) (var h (funcall g)) (funcall h) (length (funcall h)))' % (V(m), i % m, j % m, A(m)), m)]
        if k == 4:
            return 'globals', [('(() %s (setq g%d -3) (list g%d g%d g0 g%d))' % (' '.join('(global g%d %d)' % (x, x) for x in range(n)), j, i, j, n - 1), X(-3)),
                               ('(() (list g%d g%d))' % (i, n - 1), [-3 if i == j else i, -3 if j == n - 1 else n - 1])]
        if k == 5:
            b = r.choice(['%d', '(+ %d 0)', '(() (var q %d) (defun f () q) (f))'])
            if 'q' in b and n > 4000: n, i, j = 4000, i % 4000, j % 4000
            return 'functions', [('(() %s (list (f%d) (f%d) (f0) (f%d)))' % (' '.join('(defun f%d () %s)' % (x, b % x) for x in range(n)), i, j, n - 1), [i, j, 0, n - 1])]
        if k == 6:
            m = min(n, 255)
            return 'arguments', [('(() (defun f (%s) (list a%d a%d a0)) (f %s))' % (A(m), i % m, m - 1, ' '.join(map(str, range(m)))), [i % m, m - 1, 0]),
                                 ('(() (defun f (&rest x) (cons (length x) (car (cdr x)))) (f %s))' % ' '.join(map(str, range(m))), [m, '.', 1]),
                                 ('(() (defun f (%s) (list a%d a%d)) (apply f (list %s)))' % (A(m), i % m, m - 1, ' '.join(map(str, range(m)))), [i % m, m - 1]),
                                 ('(() (defun f (%s &rest x) (list a%d (length x))) (f %s))' % (A(m // 2), j % (m // 2 or 1), ' '.join(map(str, range(m)))), [j % (m // 2 or 1), m - m // 2])] if m > 3 else None
        if k == 7: return 'elements', [('(() (var l (list %s)) (var v (vector %s)) (list (length l) (length v) (get-vector-element v %d) (car l)))' % (' '.join(map(str, range(n))), ' '.join(map(str, range(n))), j), [n, n, j, 0])]
        if k == 8:
            m = min(n, 65535)
            s = ''.join(r.choice('abcdef') for _ in range(m))
            return 'strings', [('(() (var s "%s") (list (length s) (get-vector-element s %d) (= s (concatenate "%s" "%s"))))' % (s, i % m, s[:j % m], s[j % m:]), [m, ord(s[i % m]), '#t'])]
        if k == 9: return 'symbols', [('(() %s (list (quote s%d) (quote s%d) (= (quote s%d) (quote s%d)) (= (quote s0) (quote s%d))))' % (' '.join('(quote s%d)' % x for x in range(n)), i, n - 1, i, i, n - 1), ["'s%d" % i, "'s%d" % (n - 1), '#t', '#f'])]
        if k == 10: return 'quoted', [('(() (var l (quote (%s))) (var k 0) (while (< k %d) (setq k (+ k 1)) (setq l (cdr l))) (list (length l) (car l)))' % (' '.join('s%d' % (x % 9 if x != i else 11) for x in range(n)), i), [n - i, "'s11"])]
        if k in (11, 12, 13):
            # Branches over a distance. The body is made of statements of various sizes.
            if not big: m = r.randrange(5, 75) if r.random() < .7 else n
            else: m = r.choice([4000, 6500, 8100, 10900, 13000, 16300, 21800]) + r.randrange(-40, 700)
            st = r.choice(['(setq x (+ x 1))', '(setq x 1)', '(emitter)', '(setq x (setq y 3))'])
            if st == '(emitter)': st = '(setq x (+ x y))'
            body = ' '.join([st] * m) + ' (setq y 4)' * r.randrange(3) + ' (setq z 300)' * r.randrange(4)
            c = r.choice(['true', 'false', 't', 'f'])
            tv = c[0] == 't'
            pre = '(() (var x 0) (var y 1) (var z 0) (var t true) (var f false) '
            f = {'(setq x (+ x 1))': lambda: m, '(setq x 1)': lambda: 1, '(setq x (setq y 3))': lambda: 3, '(setq x (+ x y))': lambda: m}[st]()
            kk = r.randrange(7)
            if kk == 0: return 'if', [(pre + '(var w (if %s (() %s 5) 6)) (list w x))' % (c, body), [5, f] if tv else [6, 0])]
            if kk == 1: return 'if', [(pre + '(var w (if %s 5 (() %s 6))) (list w x))' % (c, body), [5, 0] if tv else [6, f])]
            if kk == 2: return 'when', [(pre + '(var w (when %s %s 5)) (list w x))' % (c, body), [5, f] if tv else ['()', 0])]
            if kk == 3: return 'unless', [(pre + '(var w (unless %s %s 5)) (list w x))' % (c, body), ['()', 0] if tv else [5, f])]
            if kk == 4:
                it = 1 if big else 3
                g = f if st[9:10] != '+' and '+' not in st else None
                if '+ x y' in st and 'setq y' in body.replace('(setq x (setq y 3))', ''): return None
                e = f * it if '+' in st else f
                return 'while', [(pre + '(var i 0) (while (< i %d) (setq i (+ i 1)) %s) (list i x))' % (it, body), [it, e])]
            if kk == 5: return 'function', [(pre + '(defun g () %s x) (defun h () 9) (list (g) (h) x))' % body, [f, 9, 0])]
            return 'function', [(pre + '(defun a () 8) (defun g (n) %s (if (< n 1) (list (a) n x) (self (- n 1)))) (var w (lambda () (a))) (g 0))' % body.replace('(setq x (+ x y))', '(setq x (+ x 1))').replace('(setq y 4)', ''), [8, 0, f])]
        if k == 14:
            # Scopes that leave values below them, closures released deep in the stack.
            return 'release', [('(() (var l (list 0)) (() %s (set-car l (lambda () (setq a%d (+ a%d 1)) a%d))) (() (var q 99) (var r 98)) (funcall (car l)) (funcall (car l)))' % (V(n), i, i, i), i + 2)]
        if k == 15:
            return 'release several', [('(() (var l ()) (() %s (setq l (list %s))) (list (funcall (car l)) (funcall (car (cdr l))) (funcall (car (cdr (cdr l))))))' % (V(n), ' '.join('(lambda () (setq a%d (- 0 a%d)) a%d)' % (x, x, x) for x in (i, j, n - 1))), None)] if i != j and n - 1 not in (i, j) else None
        if k == 16:
            return 'return', [('(() (defun f (p) %s (list p a%d a0)) (var u 4) (list u (car (f 3)) u))' % (V(n), i), [4, 3, 4])]
        if k == 17:
            d = r.randrange(20, 130)
            return 'nesting', [('(() (var x 1) ' + '(() (var x (+ x 1)) ' * d + 'x' + ')' * d + ')', d + 1), ('(() (var x 1) ' + '(funcall (lambda (y) (setq x (+ x y)) ' * d + 'x' + ') 1)' * d + ')', d + 1),
                               ('(+ 1 ' * d + '0' + ')' * d, d), ('(() (var l (quote ' + '(' * d + ')' * d + ')) (var k 0) (while (not (null? l)) (setq k (+ k 1)) (setq l (car l))) k)', d - 1)]
        if k == 18:
            m = min(n, 3000)
            return 'macro', [('(() (defmacro m (x) (var l (list x)) (var i 0) (while (< i %d) (setq l (cons (list (quote setq) x (list (quote +) x 1)) l)) (setq i (+ i 1))) (cons (quote __noscope) l)) (var v 0) (m v) v)' % m, m)]
        return 'sources', [('(global g%d %d)' % (x, x), x) for x in range(min(n, 700))] + [('(() (list g%d g%d g0))' % (i % 700, min(n, 700) - 1), [i % 700, min(n, 700) - 1, 0])]

    def show(self, v):
        if not isinstance(v, list): return v if isinstance(v, str) else 'i%d' % v
        return '(' + ' '.join(x if isinstance(x, str) else 'i%d' % x for x in v) + ')'

    def sized(self, r, big):
        s = self.shape(r, big)
        if s is None: return None
        label, us = s
        if us is None: return None
        if label == 'release several':
            t = us[0][0]
            import re as _re
            idx = [int(x) for x in _re.findall(r'lambda \(\) \(setq a(\d+)', t)]
            us = [(t, [-x for x in idx])]
        exp = [(('V', self.show(v)), []) for _, v in us]
        ops = [('L', t.encode()) for t, _ in us]
        return Job([(self.driver(r, big), runner.Case(ops, self.opts(big), exp))], judge.units, label + (' 2^16' if big else ''))

    def program(self, r, big):
        ncb = self.n(r, big) if r.random() < .5 else 0
        k = r.randrange(3)
        if k == 0: p = [[]] + gen.Gen(r, size=r.choice([20, 50]), **({'stmts': dict(loop=0)} if big else {})).program()
        elif k == 1: p = [[]] + closgen.ClosGen(r, r.choice([15, 30])).program()
        else:
            s = sess.Sess(r, list(sess.OPS), .05)
            us = s.build(8 if big else 25)
            asts = [deepen(r, a, NEAR16 if big else NEAR8, 1) if i > 11 else a for i, (a, _, _) in enumerate(us)]
            return Job([(self.driver(r, big), runner.Case([('L', text(a)) for a in asts], self.opts(big, ncb=ncb), [(e, t) for _, e, t in us], [isinstance(x[0], list) for x in asts]))], judge.units, 'operations on a deep stack' + (' 2^16' if big else ''))
        exp = evaluate([p])
        if exp is None: return None
        p = deepen(r, p, NEAR16 if big else NEAR8, r.choice([1, 2, 4, 12]) if not big else 2)
        return Job([(self.driver(r, big), runner.Case([('L', text(p))], self.opts(big, ncb=ncb), exp))], judge.units, 'programs on a deep stack' + (' 2^16' if big else ''))

    def batch(self, k, r, tier):
        return ((self.distances(self.SPANS[k], False) + self.distances(self.SPANS[k], True) if k < len(self.SPANS) else []) + retry(26, lambda: self.sized(r, False)) + retry(8, lambda: self.sized(r, True)) + retry(14, lambda: self.program(r, False)) + retry(20, lambda: self.nested(r)) + retry(4, lambda: self.program(r, True)))

    def sweep(self, r, big):
        """Every operation, with operands near and far, at each depth around a boundary."""
        out = []
        ops = sorted(set(o for g in sess.OPS.values() for o in g if o[1]))
        depths = [65531, 65533, 65534, 65535, 65536] if big else [126, 250, 251, 252, 253, 254, 255, 256, 257]
        for op, kinds in ops:
            s = sess.Sess(r, list(sess.OPS), 0, 0)
            s.unit([Id('global'), Id('gk'), 0])
            us = []
            for n in depths:
                f = [Id(op)] + [s.lit(k) for k in kinds]
                # Every operand alone has to be able to decide the width.
                every = [[bool(m >> i & 1) for i in range(len(kinds))] for m in range(1 << len(kinds))]
                far = every if not big and n > 251 or big and n == 65536 else [r.choice(every), every[-1]]
                for fr in far:
                    f = [Id(op)] + [s.lit(k) for k in kinds]
                    names = [Id('l%d' % i) for i in range(len(kinds))]
                    binds = [[Id('var'), names[i], f[i + 1]] for i in range(len(kinds)) if fr[i]]
                    nears = [[Id('var'), names[i], f[i + 1]] for i in range(len(kinds)) if not fr[i]]
                    form = [Id(op)] + names
                    small = [[]] + binds + [[[]] + nears + [form]]
                    n0 = len(s.units)
                    # The reference sees the small program; the temporaries do not matter.
                    if s.unit(small) is False or len(s.units) == n0: continue
                    e, t = s.units[-1][1:]
                    deep = [[]] + binds + [[Id('get-vector-element'), [Id('vector'), [[]] + nears + [form]] + [0] * n, 0]]
                    us.append((deep, e, t))
            us = [(a, e, t) for a, e, t in us]
            asts = [[Id('global'), Id('gk'), 0]] + [a for a, _, _ in us]
            exp = [(('V', 'i0'), [])] + [(e, t) for _, e, t in us]
            out.append(Job([('plain_default' if big else 'drv_default', runner.Case([('L', text(a)) for a in asts], self.opts(big), exp, [False] + [True] * len(us)))], judge.units, 'operands' + (' 2^16' if big else '')))
        return out

    # Control flow over K; each ends with what it must show. Every kind of link is crossed in both directions.
    SPANS = ['(() (if t K (setq r 9)) (list r (length s)))', '(() (if f (setq r 9) K) (list r (length s)))', '(() (if f K (setq r 0)) (list r 0 (setq s "") (length s)))', '(() (if t (setq r 0) K) (list r (length s)))',
             '(() (var i 0) (while (< i 2) (setq i (+ i 1)) K) (list i (length s)))', '(() (var i 0) (while (() K (< i 2)) (setq i (+ i 1))) (list i (length s)))',
             '(() (when f K (setq r 9)) (unless t K (setq r 9)) (list r (length s)))', '(() (unless f K) (when t K) (list r (length s)))',
             '(() (defun g () K r) (list (g) (length s)))', '(() (defun g (n) K (if (< n 1) 5 (self (- n 1)))) (list (g 2) (length s)))',
             '(() (defun g () 3) (defun h () K (g)) (list (h) (g) (length s)))', '(() (var g (lambda (&rest x) (if (null? x) K (length x)))) (g) (list (g 1 2) (length s)))'.replace('(g)', '(funcall g)').replace('(g 1 2)', '(funcall g 1 2)'),
             '(() (var i 0) (while (< i 2) (if (< i 1) K (setq r i)) (setq i (+ i 1))) (list i r (length s)))', '(() (if (if t K f) (if f K (setq r 2)) K) (list r (length s)))']

    def distances(self, form, big):
        """Distances of every number of bytes around what an address of 8 or 16 bits can hold."""
        out = []
        ks = range(32767 - 70, 32767 + 6) if big else range(40, 140)
        pre = '(() (var s "") (var r 0) (var t true) (var f false) '
        def at(k): return pre + form.replace('K', '(setq s "%s")' % ('k' * k)) + ')'
        # The reference is asked twice; the length is all that differs.
        e = [evaluate([read(at(k))]) for k in (40, 41)]
        assert e[0] and e[1], form
        a, b = e[0][0][0][1], e[1][0][0][1]
        assert a == b or a.replace('i40', 'i41') == b, (a, b)
        exp = [(('V', a.replace('i40', 'i%d' % k) if a != b else a), []) for k in ks]
        for d in (['plain_default'] if big else ['drv_default', 'plain_noopt']):
            out.append(Job([(d, runner.Case([('L', at(k).encode()) for k in ks], self.opts(big), exp))], judge.units, 'distances' + (' 2^16' if big else '')))
        return out

    def nested(self, r):
        """Branches within branches, most of them about as long as a short address reaches."""
        n = [0]
        def fill(k): return [Id('setq'), Id('s'), Str(b'k' * max(0, k))]
        def cond(): return [Id(r.choice('tf'))][0]
        def block(d, room):
            out = []
            while room > 8 and len(out) < 5:
                k = min(room, r.choice([r.randint(1, 20), r.randint(100, 130), r.randint(30, 90)]))
                n[0] += 1
                c = r.randrange(7) if d else 6
                if c == 0: x = [Id('if'), cond(), [[]] + block(d - 1, k), [[]] + block(d - 1, r.randint(9, 60))]
                elif c == 1: x = [Id(r.choice(['when', 'unless'])), cond()] + block(d - 1, k)
                elif c == 2:
                    i = Id('i%d' % n[0])
                    x = [[], [Id('var'), i, 0], [Id('while'), [Id('<'), i, r.randrange(3)], [Id('setq'), i, [Id('+'), i, 1]]] + block(d - 1, k)]
                elif c == 3:
                    g = Id('g%d' % n[0])
                    x = [[], [Id('defun'), g, []] + block(d - 1, k) + [Id('r')], [g]]
                elif c == 4: x = [Id('setq'), Id('r'), [Id('+'), Id('r'), n[0]]]
                elif c == 5: x = [Id('setq'), cond(), [Id('not'), cond()]]
                else: x = fill(k - 8)
                out.append(x)
                room -= k
            return out or [[Id('setq'), Id('r'), n[0]]]
        p = [[], [Id('var'), Id('s'), Str(b'')], [Id('var'), Id('r'), 0], [Id('var'), Id('t'), True], [Id('var'), Id('f'), False]] + block(4, r.choice([120, 300, 700])) + [[Id('list'), Id('s'), Id('r'), Id('t'), Id('f')]]
        return expjob([p], ['drv_default'] if r.random() < .8 else ['drv_noopt'], self.opts(False), label='nested distances')

    def directed_jobs(self):
        out = []
        for n in (254, 255, 256, 257, 600):
            bind = ' '.join('(var a%d %d)' % (i, i) for i in range(n))
            a = ' '.join('a%d' % i for i in range(n))
            out += directed(['(() (var g (() %s (lambda () (lambda () (list %s) (setq a%d 1) (setq a0 a%d) a0)))) (funcall (funcall g)))' % (bind, a, n - 1, n - 1), '(() (var g (() %s (lambda () (setq a0 5) (list a%d a1 a0 )))) (funcall g))' % (bind, n - 1)], opts=dict(MON, objs=8000))
        for n in (252, 255, 256, 300):
            z = ' 0' * n
            out += directed(['(() (var i 0) (while (not (get-vector-element (vector (> i 2)%s) 0)) (setq i (+ i 1))) i)' % z, '(funcall (lambda (a b) (substring (get-vector-element (vector a%s) 0) 1 b)) "abcd" 3)' % z,
                             '(funcall (lambda (l2) (get-vector-element (vector (vector true l2 7)%s) 0)) true)' % z])
        r = random.Random(11)
        return out + self.sweep(r, False) + self.sweep(r, True)
