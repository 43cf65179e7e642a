"""Runs batches of cases through a driver and collects what the monitors observed."""
import os, re, subprocess, tempfile

ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0:max_allocation_size_mb=3000',
           UBSAN_OPTIONS='print_stacktrace=1', TSAN_OPTIONS='exitcode=98:halt_on_error=1', MSAN_OPTIONS='exitcode=97:halt_on_error=1')


class Case:
    """ops: list of (line, blob or None). A blob is announced by the runner."""
    __slots__ = ('id', 'opts', 'ops', 'exp', 'meta')
    def __init__(self, ops, opts=None, exp=None, meta=None):
        self.ops, self.opts, self.exp, self.meta, self.id = ops, dict(opts or {}), exp, meta, None

    def encode(self, ident, extra=None):
        o = dict(self.opts)
        if extra: o.update(extra)
        out = [('CASE %s %s\n' % (ident, ' '.join('%s=%s' % kv for kv in sorted(o.items())))).encode()]
        for line, blob in self.ops:
            if blob is None: out.append(line.encode() + b'\n')
            else: out.append(line.encode() + b' #%d\n' % len(blob) + blob + b'\n')
        out.append(b'END\n')
        return b''.join(out)


class Result:
    """status: ok, crash, timeout. obs: list of (tag, rest)."""
    __slots__ = ('status', 'obs', 'stderr', 'stat', 'monitors', 'hang')
    def __init__(self): self.status, self.obs, self.stderr, self.stat, self.monitors, self.hang = 'crash', [], '', {}, [], False

    def get(self, tag): return [r for t, r in self.obs if t == tag]
    def trace(self): return self.get('T')
    def runs(self): return [r.split(' ', 2) for r in self.get('R')]

    def summary(self):
        return self.status + ' ' + ' | '.join(('%s %s' % x)[:200] for x in self.obs[-12:]) + (' ' + self.stderr[:1500] if self.stderr else '')


def _parse(text, results, order):
    cur = None
    for ln in text.split('\n'):
        if not ln: continue
        tag, _, rest = ln.partition(' ')
        if tag == 'BEGIN':
            cur = Result()
            results[int(rest)] = cur
            order.append(int(rest))
        elif cur is None: continue
        elif tag == 'END':
            cur.status = 'ok'
            cur = None
        elif tag == 'TIMEOUT': cur.status = 'timeout'
        elif tag == 'STAT': cur.stat = dict(x.split('=', 1) for x in rest.split())
        elif tag == 'MONITOR': cur.monitors.append(rest)
        else: cur.obs.append((tag, rest))


def run_batch(drv, cases, extra=None, wall=600, retry=True, hangs=2):
    """Results in the order of the cases. Every case gets one, whatever happens. A case that exceeds its CPU time is run again
    with four times as much; after some that exceed this too the rest of the batch is left out."""
    results = {}
    confirmed = 0
    todo = list(range(len(cases)))
    extra = dict(extra or {}, stats=1)
    while todo:
        with tempfile.NamedTemporaryFile(suffix='.cases', delete=False) as f:
            for i in todo: f.write(cases[i].encode(i, extra))
            name = f.name
        order = []
        try:
            p = subprocess.run([drv, name], capture_output=True, env=ENV, timeout=wall)
            out, err, rc = p.stdout, p.stderr, p.returncode
        except subprocess.TimeoutExpired as e:
            out, err, rc = e.stdout or b'', b'WALL TIMEOUT', 77
        finally:
            os.unlink(name)
        _parse(out.decode('latin-1'), results, order)
        done = [i for i in todo if i in results and results[i].status == 'ok']
        left = [i for i in todo if i not in set(done)]
        if not left: break
        bad = left[0]
        r = results.setdefault(bad, Result())
        if rc == 77: r.status = 'timeout'
        elif r.status != 'timeout': r.status = 'crash'
        r.stderr = err.decode('latin-1')[:6000] or 'exit status %s' % rc
        if r.status == 'timeout' and retry and err != b'WALL TIMEOUT':
            e2 = dict(extra)
            e2['cpu'] = 4 * int(cases[bad].opts.get('cpu', 20))
            again = run_batch(drv, [cases[bad]], e2, wall, retry=False)[0]
            results[bad] = again
            if again.status == 'timeout':
                again.hang = again.stderr != 'WALL TIMEOUT'
                confirmed += 1
        if confirmed >= hangs:
            for i in left[1:]:
                results[i] = Result()
                results[i].status, results[i].stderr = 'timeout', 'left out'
            break
        if rc not in (77,) and not order: r.stderr = 'driver did not start (exit %d) ' % rc + r.stderr
        todo = left[1:]
    return [results[i] for i in range(len(cases))]


_FRAME = re.compile(r'#\d+ 0x[0-9a-f]+ in (\S+) (\S+)')


def crash_signature(stderr):
    """What failed and in which function of the library, without addresses or line numbers."""
    kind = 'crash'
    m = re.search(r'ERROR: AddressSanitizer: (\S+)', stderr) or re.search(r'WARNING: (?:Thread|Memory)Sanitizer: ([^(\n]+)', stderr)
    if m: kind = m.group(1).strip()
    else:
        m = re.search(r'runtime error: ([^\n]{0,60})', stderr)
        if m: kind = 'ubsan ' + re.sub(r'0x[0-9a-f]+|-?\d+', 'N', m.group(1))
    fn = '?'
    for f, where in _FRAME.findall(stderr):
        if '/harness/' in where or 'libsanitizer' in where or f in ('memmove', 'memcpy', 'malloc', 'realloc', 'free', 'abort', '__interceptor_memcpy'): continue
        fn = f
        break
    return '%s in %s' % (kind, fn)
