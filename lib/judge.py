"""Verdicts: what a result has to look like, given what the reference expects."""


def broken(res):
    """Violations that no workload may show: memory errors, broken invariants."""
    if res.status == 'crash': return 'the process died: ' + res.stderr[:1200]
    if res.monitors: return 'monitor: ' + '; '.join(res.monitors)
    if res.get('SOFTRESET'): return 'soft reset failed: ' + res.get('SOFTRESET')[0]
    if res.get('START'): return 'the instance did not start: ' + res.get('START')[0]
    return None


def units(case, res):
    """case.exp: list of (expectation, trace) per source. None if the result agrees."""
    b = broken(res)
    if b: return b
    n = -1
    trace = []
    runs = []
    # T* (C? E*) R ... in order
    cur = []
    ended = []
    for tag, rest in res.obs:
        if tag == 'T': cur.append(rest)
        elif tag == 'R':
            ended.append((rest.split(' ', 2), cur))
            cur = []
        elif tag == 'C':
            ended.append((['C' + rest, '0', 'COMPILE'], cur))
            cur = []
    if len(ended) != len(case.exp): return 'ran %d of %d sources' % (len(ended), len(case.exp))
    for k, ((r, tr), (exp, etr)) in enumerate(zip(ended, case.exp)):
        if r[2] == 'BUDGET': return 'source %d did not end within the instruction budget' % k
        if tr != etr:
            for i in range(max(len(tr), len(etr))):
                a = tr[i] if i < len(tr) else '(nothing)'
                b = etr[i] if i < len(etr) else '(nothing)'
                if a != b: return 'source %d: observation %d is %s, the reference has %s (ends with %s)' % (k, i, a[:200], b[:200], ' '.join(r)[:100])
        if exp[0] == 'V':
            if r[0] != '0': return 'source %d: failed with %s, the reference has the value %s; %s' % (k, ' '.join(r), exp[1][:200], ' / '.join(res.get('E'))[:400])
            if r[2] != exp[1]: return 'source %d: value %s, the reference has %s' % (k, r[2][:300], exp[1][:300])
            if r[1] != '1' and (case.meta[k] if case.meta else case.ops[k][1].startswith(b'((')): return 'source %d: the stack holds %s values, one was expected' % (k, r[1])
        elif exp[0] == 'C':
            if not r[0].startswith('C'): return 'source %d: was compiled, it has to be refused; ends with %s' % (k, ' '.join(r)[:300])
        elif exp[0] == 'E':
            if r[0] == '0': return 'source %d: value %s, the reference has a runtime error (%s)' % (k, r[2][:300], exp[1])
            if r[0].startswith('C') : return 'source %d: rejected by the compiler, the reference has a runtime error (%s)' % (k, exp[1])
    return None
