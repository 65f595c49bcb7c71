"""Store definitions: an independent reading of the definition language, and random definitions."""
import re, struct, math

FIX = {'bool': (0x20, 1, '?'), 'int8': (0x38, 1, 'b'), 'uint8': (0x30, 1, 'B'), 'int16': (0x39, 2, 'h'), 'uint16': (0x31, 2, 'H'),
    'int32': (0x3b, 4, 'i'), 'uint32': (0x33, 4, 'I'), 'int64': (0x3f, 8, 'q'), 'uint64': (0x37, 8, 'Q'),
    'float': (0x2b, 4, 'f'), 'double': (0x2f, 8, 'd'), 'ptr32': (0x23, 4, 'I'), 'ptr64': (0x27, 8, 'Q')}

class Obj:
    """name (full, without leading /), type byte, size, init bytes (memory order; strings: the content)."""
    def __init__(self, name, t, size, init=b'', func=False, base=''):
        self.name, self.t, self.size, self.init, self.func, self.base = name, t + (0x40 if func else 0), size, init, func, base
    def __repr__(self):
        return '%s:%02x:%d=%s' % (self.name, self.t, self.size, self.init.hex())

def number(s):
    if s.lower() in ('true', 'false'): return s.lower() == 'true'
    l = s.lower()
    if l in ('nan',): return math.nan
    if l.lstrip('-') in ('inf', 'infinity'): return -math.inf if l[0] == '-' else math.inf
    try: return int(s, 0)
    except ValueError: return float(s)

def enc(base, v):
    t, n, f = FIX[base]
    if base == 'bool': return struct.pack('<?', bool(v))
    if base in ('float', 'double'): return struct.pack('<' + f, float(v))
    return struct.pack('<' + f, int(v))

LINE = re.compile(r'^(?P<f>\()?(?P<t>[a-z0-9]+)(:(?P<sz>\d+))?(\[(?P<n>\d+)\])?(?(f)\)|)(\[(?P<fn>\d+)\])?(=(?P<i>"(?:[^"\\]|\\.)*"|\S+))?\s+(?P<name>.*\S)\s*$')

def parse(text):
    """The objects of a definition, in order of definition."""
    def exp(name, n): return ['%s[%d]' % (name, i) for i in range(n)] if n > 1 else [name]
    stack = [[]]
    for ln in text.split('\n'):
        if ln.strip().startswith('//') or not ln.strip(): continue
        ln = ln.strip()
        if ln == '{': stack.append([]); continue
        m = re.match(r'^\}(\[(\d+)\])?\s+(.*\S)$', ln)
        if m:
            sub = stack.pop()
            for p in exp(re.sub(r'\s+', ' ', m.group(3)), int(m.group(2) or 1)):
                stack[-1] += [Obj(p + '/' + o.name, o.t & ~0x40, o.size, o.init, o.func, o.base) for o in sub]
            continue
        m = LINE.match(ln)
        assert m, ln
        t, name = m.group('t'), re.sub(r'\s+', ' ', m.group('name'))
        n = int((m.group('fn') if m.group('f') else m.group('n')) or 1)
        if t in FIX:
            tb, size = FIX[t][:2]
            init = enc(t, number(m.group('i'))) if m.group('i') else bytes(size)
        else:
            tb, size = (1 if t == 'blob' else 2), int(m.group('sz'))
            init = bytes(size) if t == 'blob' else b''
            if m.group('i'): init = m.group('i')[1:-1].encode('latin-1').decode('unicode_escape').encode()
        for p in exp(name, n):
            stack[-1].append(Obj(p, tb, size, init, bool(m.group('f')), t))
    assert len(stack) == 1
    return stack[0]

def table(objs):
    """As used by the specifications: sc: the scopes of the name, t: type, n: size, v: value."""
    return [dict(sc=[list(s.encode()) for s in o.name.split('/')], t=o.t, n=o.size, v=list(o.init)) for o in objs]
