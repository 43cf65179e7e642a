"""Syntax trees and their textual forms."""


class Id:
    __slots__ = ('name',)
    def __init__(self, name): self.name = name
    def __repr__(self): return 'Id(%r)' % self.name


class Flt:
    """Float literal: the text that is written and the value that text denotes."""
    __slots__ = ('text', 'value')
    def __init__(self, text): self.text, self.value = text, float(text)


class Str:
    __slots__ = ('b',)
    def __init__(self, b): self.b = b


class Int:
    """Integer literal with a chosen spelling."""
    __slots__ = ('text', 'value')
    def __init__(self, text, value): self.text, self.value = text, value


def str_text(b):
    out = bytearray(b'"')
    for c in b:
        if c in b'"\\': out += b'\\' + bytes([c])
        elif c == 10: out += b'\\n'
        else: out.append(c)
    return bytes(out + b'"')


def text(a, rng=None):
    """Source text (bytes). With a generator, whitespace and comments vary."""
    if isinstance(a, bool): return b'true' if a else b'false'
    if isinstance(a, int): return str(a).encode()
    if isinstance(a, (Flt, Int)): return a.text.encode()
    if isinstance(a, Str): return str_text(a.b)
    if isinstance(a, Id): return a.name.encode('latin-1') if isinstance(a.name, str) else a.name
    sep = b' '
    parts = [text(x, rng) for x in a]
    if rng is None: return b'(' + sep.join(parts) + b')'
    def ws(least):
        k = rng.random()
        if k < 0.75: return b' ' * least
        if k < 0.85: return b'\n'
        if k < 0.93: return b'\t  '
        return b' ; comment ) ( " \n'
    out = b'(' + ws(0)
    for i, p in enumerate(parts):
        if i: out += ws(1)
        out += p
    return out + ws(0) + b')'


def read(s):
    """AST of one form. For sources written in this framework: plain literals, identifiers, expressions."""
    import re
    tok = re.compile(rb'\s*(?:;[^\n]*\n\s*)*(\(|\)|"(?:\\.|[^"\\])*"|[^\s()"]+)', re.S)
    if isinstance(s, str): s = s.encode('latin-1')
    pos, stack = 0, [[]]
    while True:
        m = tok.match(s, pos)
        if not m: break
        pos = m.end()
        t = m.group(1)
        if t == b'(': stack.append([])
        elif t == b')':
            x = stack.pop()
            stack[-1].append(x)
        else: stack[-1].append(atom(t))
    assert len(stack) == 1 and len(stack[0]) == 1, (s, stack)
    return stack[0][0]


def atom(t):
    import re
    if t[:1] == b'"':
        o, i, b = bytearray(), 0, t[1:-1]
        while i < len(b):
            if b[i] == 92:
                i += 1
                o.append(10 if b[i] == 110 else b[i])
            else: o.append(b[i])
            i += 1
        return Str(bytes(o))
    if t in (b'true', b'false'): return t == b'true'
    u = t.decode('latin-1')
    if re.fullmatch(r'-?\d+', u): return int(u)
    if re.fullmatch(r'-?0[xX][0-9a-fA-F]+', u): return Int(u, int(u, 16))
    if re.fullmatch(r'-?(\d+\.\d*|\.\d+|\d+)([eE][-+]?\d+)?', u): return Flt(u)
    return Id(u)
