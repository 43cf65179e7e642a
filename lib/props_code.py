"""Properties of the bytecode: it is a function of the texts, it is well-formed, and its disassembly is faithful."""
import random, re
import gen, infer, judge, macrogen, runner, sess, closgen
from engine import Job, Prop
from props_lang import ASSUME_REF, MON, directed, drv, evaluate, expjob, retry
from props_lang2 import KEYWORDS, P10, P11, mutate
from props_text import DIRECTED, DOCS, INFERRED, P17, hostile, wrapped
from syntax import Id as I, Flt, Str, read, text

MSAN = ('drv_msan', 'drv.c', 'inference', 'msan', True, True)


def compiled(res):
    """What the compilation of each source gave: (tag, rest, messages, what it showed at compile time)."""
    out, shown = [], []
    last = None
    for tag, rest in res.obs:
        if tag == 'c': shown.append(rest)
        elif tag in 'KC':
            last = [tag, rest, '', shown]
            out.append(last)
            shown = []
        elif tag == 'R': last = None
        elif tag == 'E' and last is not None and last[0] == 'C': last[2] += rest
    return out


def memory(c): return c[0] == 'C' and c[1] == '6'


def same(cases, results):
    """Every run compiles the sources to the same bytecode, or refuses them in the same way."""
    for c, r in zip(cases, results):
        b = judge.broken(r)
        if b: return b
    all_ = [compiled(r) for r in results]
    n = len(cases[0].ops) - 2 * len([1 for l, b in cases[0].ops if b is None])
    for k in range(len(all_[0])):
        for i, a in enumerate(all_):
            if len(a) <= k: return '%d of %d sources were compiled' % (len(a), len(all_[0]))
            if memory(a[k]) or memory(all_[0][k]): return None if k else 'inconclusive'
            if a[k] != all_[0][k]: return 'source %d is compiled to %s by one instance and to %s by another (%s %s, %s %s)' % (k, all_[0][k], a[k], cases[0].meta, sorted(cases[0].opts.items()), cases[i].meta, sorted(cases[i].opts.items()))
    return None


def again(case, res):
    """case.meta: indices of the compilations that must be equal."""
    b = judge.broken(res)
    if b: return b
    a = compiled(res)
    if any(memory(x) for x in a): return 'inconclusive'
    if len(a) != len(case.ops): return 'ran %d of %d sources' % (len(a), len(case.ops))
    for g in case.meta:
        for i in g[1:]:
            if a[i][:3] != a[g[0]][:3]: return 'source %d was compiled to %s and later, as source %d, to %s' % (g[0], a[g[0]], i, a[i])
    return None


def clean(case, res): return judge.broken(res)


def something(rs): return any(t in 'KC' for r in rs for t, _ in r.obs)


def resources(r):
    return dict(objs=r.choice([3000, 20000, 50000]), cobjs=r.choice([12000, 20000]), gc=r.choice([0, 0, 1, 7]), poison=r.choice([0, 1]), check=r.choice([0, 1]), pool=r.choice([64, 100, 256]) << 20, fit=r.choice([0, 1, 2]),
                budget=50000, unbal=1, cpu=10, khash=1)


class P22(Prop):
    id = 'P22'
    targets = [drv(c) for c in ('default', 'portable', 'inference')] + [MSAN]
    quick, thorough = 28, 3000
    rule = ('Sequences of sources (programs, closures, macros, sessions, arbitrarily changed programs, hostile texts) are compiled by several instances that differ in heap sizes, collection periods, allocator, allocation policy, fill of fresh memory '
            'and in whether the code is run between compilations; the bytecode of every source, its error and its messages must be equal. Sources are compiled again in the same instance after other sources, failing ones included, and must give the same bytes. '
            'The same kinds of sources are compiled and run under MemorySanitizer, which stops at the first decision that depends on memory that was never written. Non-trivial: something was compiled.')
    assumptions = ['A source compiled for the second time is compared from the second time on if it uses gensym or defines compile-time state.', 'MemorySanitizer runs use the C library\'s allocator.']

    def texts(self, r):
        k = r.randrange(8)
        if k < 4: return [text(x) for x in P10.asts(None, r)]
        if k < 6: return [text(mutate(r, x, r.choice([1, 2, 4]))) for x in P10.asts(None, r)]
        if k == 6: return [hostile(r)[:5000] for _ in range(r.choice([1, 3, 6]))]
        return [wrapped(r, hostile(r)[:2000]) for _ in range(2)]

    def across(self, r):
        srcs = self.texts(r)
        runs = []
        inferred = r.random() < .2
        # Only one of the configurations can infer what `read` reads.
        srcs = [s.replace(b'" true)', b'" false)') for s in srcs]
        if inferred:
            w = P17.inferred_text(r)
            if w: srcs = srcs[:2] + [w]
        for i in range(3):
            d = 'inference' if inferred else r.choice(['default', 'portable', 'inference'])
            o = resources(r)
            if inferred: o['infer'] = 1
            op = r.choice(['L', 'l'])
            runs.append(('drv_' + d, runner.Case([(op if r.random() < .9 else 'L', s) for s in srcs], o, meta=d)))
        return [Job(runs, same, 'inference' if inferred else 'across instances', nontrivial=something)]

    def repeated(self, r):
        srcs = self.texts(r)
        srcs = [s for s in srcs if b'gensym' not in s and b'global' not in s and b'read' not in s and b'intern' not in s][:4]
        if not srcs: return None
        bad = [hostile(r)[:3000] for _ in range(3)] + self.texts(r)[:2]
        r.shuffle(bad)
        ops, groups = [], [[] for _ in srcs]
        for k in range(r.choice([2, 2, 3])):
            for i, s in enumerate(srcs):
                groups[i].append(len(ops))
                ops.append((r.choice('lL'), s))
            for s in r.sample(bad, r.randint(1, len(bad))): ops.append((r.choice('lL'), s))
        d = r.choice(['default', 'portable', 'inference'])
        return [Job([('drv_' + d, runner.Case(ops, resources(r), meta=groups))], again, 'again', nontrivial=something)]

    def written(self, r):
        o = dict(gc=r.choice([0, 3, 50]), objs=5000, cobjs=8000, budget=50000, unbal=1, cpu=10)
        k = r.randrange(4)
        ops = [('L', s) for s in self.texts(r)]
        if k == 0: ops = [('D', s) for _, s in ops]
        if k == 1:
            o['infer'] = 1
            w = P17.inferred_text(r)
            if w: ops = ops[:1] + [('L', w)]
        return [Job([('drv_msan', runner.Case(ops, o))], clean, 'memory that was written', nontrivial=something)]

    def batch(self, k, r, tier):
        jobs = []
        for n, f in ((14, self.across), (10, self.repeated), (25, self.written)):
            for _ in range(n): jobs += f(r) or []
        return jobs

    def directed_jobs(self):
        r = random.Random(1)
        jobs = []
        D = [s.encode('latin-1') for s in DIRECTED]
        for s in D: jobs.append(Job([('drv_msan', runner.Case([('L', s), ('D', s)], dict(objs=2000, cobjs=4000, budget=50000, unbal=1)))], clean, 'directed', nontrivial=something))
        for s in D + [s.encode('latin-1') for s in INFERRED] + [s.encode() for s, _ in DOCS]:
            jobs.append(Job([('drv_msan', runner.Case([('L', s)], dict(objs=2000, cobjs=4000, budget=50000, unbal=1, infer=1)))], clean, 'directed', nontrivial=something))
        for i in range(0, len(D), 5):
            jobs.append(Job([('drv_' + d, runner.Case([(op, s) for s in D[i:i + 5]], dict(resources(r), gc=g, poison=0, check=0), meta=d)) for d, op, g in (('default', 'L', 0), ('portable', 'l', 0), ('inference', 'l', 1), ('default', 'l', 3))], same, 'directed', nontrivial=something))
        return jobs


def unescape(s): return re.sub(rb'\\x([0-9a-f]{2})', lambda m: bytes([int(m.group(1), 16)]), s.encode('latin-1'))


def spaced(b): return b.translate(bytes(32 if c < 33 else c for c in range(256)))


def listing(text, instrs):
    """The disassembly lists exactly these instructions, in this order, with these operands."""
    pos = 0
    head, tail = b'DISASSEMBLY START\n', b'DISASSEMBLY END\n'
    if not text.startswith(head): return 'the disassembly does not begin with its header'
    pos = len(head)
    for k, i in enumerate(instrs):
        for j, w in enumerate(i):
            if j:
                while text[pos:pos + 1] == b' ': pos += 1
            if w == 'F': # Floats are left out.
                e = text.find(b'\n', pos)
                pos = e if e >= 0 else len(text)
                continue
            want = b'"' + spaced(bytes.fromhex(w[1:])) + b'"' if w.startswith('S') else w.encode()
            got = text[pos:pos + len(want)]
            if (spaced(got) != want) if w.startswith('S') else (got.lower() != want.lower()):
                return 'instruction %d is %s; the disassembly has %r' % (k, ' '.join(i)[:200], text[max(0, pos - 40):pos + len(want) + 20])
            pos += len(want)
        while text[pos:pos + 1] == b' ': pos += 1
        if text[pos:pos + 1] != b'\n': return 'instruction %d is %s; the disassembly has %r' % (k, ' '.join(i)[:200], text[max(0, pos - 40):pos + 40])
        pos += 1
    if text[pos:].rstrip(b'\0') != tail: return 'after %d instructions the disassembly goes on with %r' % (len(instrs), text[pos:pos + 60])


def disassembled(case, res):
    b = judge.broken(res)
    if b: return b
    text, instrs, n = None, [], 0
    for tag, rest in res.obs:
        if tag == 'D':
            e, _, t = rest.partition(' ')
            if e == '6': return 'inconclusive'
            if e != '0': return 'disassembly failed with %s' % e
            text, instrs = unescape(t), []
        elif tag == 'J': instrs.append(rest.split(' '))
        elif tag == 'B':
            v = listing(text, instrs)
            if v: return 'source %d: %s' % (n, v)
        elif tag == 'C': n += 1
    return None


class P23(Prop):
    id = 'P23'
    targets = [drv(c) for c in ('default', 'portable', 'noopt', 'inference')] + [('plain_default', 'drv.c', 'default', 'plain', True, True), ('plain_noopt', 'drv.c', 'noopt', 'plain', True, True)]
    quick, thorough = 80, 5000
    rule = ('A decoder written from the instruction set is compared with everything that is compiled for run time and for compile time and with every executed instruction: bytecode consists of whole instructions, jumps, branches and functions lead to '
            'instructions, execution goes from an instruction to the next one or to its target, operands lie in the frame of the function and captures in its array, the height of the stack at an instruction is always the same, and a call leaves one value. '
            'Disassemblies must list the decoded instructions. Workloads: programs, closures, macros, sessions, inferred programs, programs of sizes around the encoding boundaries, arbitrarily changed programs. Non-trivial: at least 3 instructions.')
    assumptions = [ASSUME_REF, 'The stack is not judged in programs that give C callbacks another number of arguments than they take.', 'The disassembler leaves out the value of floats.']

    def finish(self, cov): pass

    def opts(self, r, code=1, **o):
        return dict(MON, objs=r.choice([4000, 9000]), cobjs=9000, gc=r.choice([0, 0, 3, 20]), pool=64 << 20, budget=100000, code=code, **o)

    def known(self, r):
        exp = None
        if r.random() < .7:
            asts = P10.asts(None, r, False)
            exp = evaluate(asts)
        else: asts = P10.asts(None, r)
        ops = [('L', text(a)) for a in asts]
        d = 'drv_' + r.choice(['default', 'portable', 'noopt', 'inference'])
        if exp: return Job([(d, runner.Case(ops, self.opts(r), exp, [x.startswith(b'((') for _, x in ops]))], judge.units, 'executed')
        return Job([(d, runner.Case(ops, self.opts(r)))], clean, 'executed')

    def mutated(self, r):
        ops = [('L', text(mutate(r, a, r.choice([1, 2, 4])))) for a in P10.asts(None, r)]
        return Job([('drv_' + r.choice(['default', 'portable', 'noopt', 'inference']), runner.Case(ops, dict(self.opts(r, 2), unbal=1, cpu=10)))], clean, 'changed', nontrivial=something2)

    def inferred(self, r):
        w = P17.inferred_text(r)
        return w and Job([('drv_inference', runner.Case([('L', w)], self.opts(r, 1, infer=1)))], clean, 'inferred')

    def sized(self, r, big):
        j = P11().sized(r, big) if r.random() < .7 else P11().program(r, big)
        if j is None: return None
        for _, c in j.runs: c.opts['code'] = 1
        j.label = 'sizes' + (' 2^16' if big else '')
        return j

    def listed(self, r):
        k, big = r.randrange(6), False
        if k < 2: srcs = [text(a) for a in P10.asts(None, r)]
        elif k == 2: srcs = [text(mutate(r, a, r.choice([1, 3]))) for a in P10.asts(None, r)]
        elif k == 3:
            big = r.random() < .05
            s = P11().shape(r, big)
            srcs = [t.encode() for t, _ in s[1]][:3] if s and s[1] else [b'1']
        elif k == 4: srcs = [hostile(r)[:3000] for _ in range(5)]
        else: srcs = [text([[]] + gen.Gen(r, size=100).program())]
        o = self.opts(r, 2, strip=r.choice([0, 0, 1]), unbal=1)
        o.update(objs=400, cobjs=60000, gc=0, ncb=r.choice([0, 0, 60, 250, 300]))
        return Job([('plain_default' if big else 'drv_' + r.choice(['default', 'portable', 'noopt', 'inference']), runner.Case([('D', s) for s in srcs], o))], disassembled, 'disassembled', nontrivial=something2)

    def batch(self, k, r, tier):
        return (retry(16, lambda: self.known(r)) + retry(8, lambda: self.mutated(r)) + retry(3, lambda: self.inferred(r)) + retry(5, lambda: self.sized(r, False)) + (retry(1, lambda: self.sized(r, True)) if k % 4 == 0 else [])
                + retry(14, lambda: self.listed(r)))

    def directed_jobs(self):
        jobs = []
        o = dict(objs=3000, cobjs=9000, code=2, unbal=1)
        for strip in (0, 1):
            for n in (1, 300, 66000 if not strip else 1):
                ops = [('D', ('(() %s %s)' % (' '.join('(quote z%d)' % i for i in range(n)) if n > 1 else '', s)).encode()) for s in LISTED]
                jobs.append(Job([('plain_default' if n > 1000 else 'drv_default', runner.Case(ops if n < 1000 else ops[:3], dict(o, strip=strip, cobjs=200000, cpu=60)))], disassembled, 'directed', nontrivial=something2))
        for n in (1, 250, 260):
            pre = ' '.join('(var v%d (lambda () %d))' % (i, i) for i in range(n))
            ops = [('D', ('(() %s (() %s))' % (pre, s)).encode()) for s in LISTED]
            jobs.append(Job([('drv_default', runner.Case(ops, dict(o)))], disassembled, 'directed', nontrivial=something2))
        for s in DIRECTED: jobs.append(Job([('drv_default', runner.Case([('L', s.encode('latin-1')), ('D', s.encode('latin-1'))], dict(o, budget=50000)))], disassembled, 'directed', nontrivial=something2))
        return jobs


def something2(rs): return any(int(r.stat.get('instructions', 0)) >= 3 for r in rs) or any(t == 'J' for r in rs for t, _ in r.obs)


LISTED = ['(quote (a "b" 1.5 true () 300 70000 -5 5000000000))', '(vector 1 2 3)', '(() (var l (list 1)) (vector l l l))', '(() (var x 1) (lambda (a &rest b) (setq x (+ a x)) (list x a b)))', '(() (global g 5) (setq g 300) g)', '(() (var v (vector 1)) (set-vector-element v 0 5) (set-car v 3) (set-cdr v ()) (cdr v) (car v) (length v))',
          '(() (var i 0) (while (< i 10) (if (= i 5) (emit i) (emit (* i i))) (setq i (+ i 1))))', '(apply (lambda (x y) (- (/ x y) y)) 5 (list 3))', '(() (var t (make-type)) (var o (make-instance t 1 (lambda () 1))) (set-composite-value o 1) (set-composite-function o (lambda () 2)) (composite-value o) (composite-function o) (type-of o))',
          '(() (concatenate "a\nb" "c") (substring "a;b c" 0 1) (make-string (list 1)) (symbol-string (quote a)) (symbol-id (quote a)) (make-vector 3 0))', '(() (var a 1) (var f (lambda () a)) (funcall f) (emit (not (> a 2))) (null? a) (cons 1 2) (cb-call0 f) (unless a 1))', '"' + 'x' * 300 + '"', '"' + 'y ' * 33000 + '"']

ALL = [P22, P23]
