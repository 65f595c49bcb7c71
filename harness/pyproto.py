#!/usr/bin/env python3
# C21: the protocol stack of the Python client, connected to the C++ one (interop).
import sys, json, importlib.util, types, subprocess
def mkCrcFun(poly, initCrc, rev, xorOut):
    # as crcmod does, which is not available here
    assert not rev
    bits = poly.bit_length() - 1
    mask = (1 << bits) - 1
    table = []
    for i in range(256):
        c = i << (bits - 8)
        for _ in range(8): c = ((c << 1) ^ (poly & mask if c >> (bits - 1) else 0)) & mask
        table.append(c)
    def f(data, crc=initCrc):
        c = crc ^ xorOut
        for b in data: c = table[(c >> (bits - 8)) ^ b] ^ ((c << 8) & mask)
        return c ^ xorOut
    return f
sys.modules['crcmod'] = types.SimpleNamespace(mkCrcFun=mkCrcFun)
sys.modules['zmq'] = types.SimpleNamespace()
sys.dont_write_bytecode = True
spec = importlib.util.spec_from_file_location('protocol', sys.argv[1])
m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)

out = []
logging = True
def ev(x):
    if logging: out.append(json.dumps(x))
def flush():
    sys.stdout.write(''.join(x + '\n' for x in out)); out.clear(); sys.stdout.flush()
class Cpp:
    def __init__(self): self.p = subprocess.Popen([sys.argv[2]], stdin=subprocess.PIPE, stdout=subprocess.PIPE)
    def do(self, *a):
        self.p.stdin.write((' '.join(map(str, a)) + '\n').encode()); self.p.stdin.flush()
        r = []
        while True:
            l = self.p.stdout.readline().decode()
            if not l:
                ev({'e': 'crash'}); flush()
                sys.stderr.write('exit of the C++ side: %s' % self.p.wait()); sys.exit(1)
            if l == '.\n': return r
            r.append(l.split())
def un(x): return b'' if x == '-' else bytes.fromhex(x)
def hx(b): return bytes(b).hex() if len(b) else '-'
class Sink(m.ProtocolLayer):
    name = 'sink'
    def __init__(self, w):
        super().__init__()
        self.w = w
    def encode(self, data): self.w.tx(bytes(data))
    @property
    def mtu(self): return self.w.mtu
NAMES = {'asc': 'ascii', 'seg': 'segment'}
class World:
    """One direction, or requests and responses, over a channel that is under control of the script."""
    def __init__(self, kind, mtu, layers):
        self.kind, self.mtu, self.layers = kind, mtu, layers
        self.c2t, self.t2c, self.part = [], [], b''
        self.pending, self.k, self.good = False, 0, 0
        self.names = [l.split(':')[0] for l in layers]
        self.inject = False
        self.build()
        r = cpp.do('init', mtu, int(kind == 'arq'), *layers)
        if kind == 'arq': ev({'e': 'new', 'mtu': mtu})
        else:
            seg = 0
            if 'seg' in self.names:
                i = self.names.index('seg')
                a = layers[i].split(':')
                seg = (int(a[1]) or self.py[i + 1].mtu) if kind == 'py' else int(r[0][1])
            ev({'e': 'init', 'layers': ['ASC' if kind == 'py' and n == 'asc' else n for n in self.names], 'mtu': mtu, 'loop': False, 'up': self.stack.mtu, 'segmtu': seg})
    def build(self):
        self.py = []
        for l in self.layers:
            a = l.split(':')
            t = [t for t in m.layer_types if t.name == NAMES.get(a[0], a[0])][0]
            if a[0] == 'term': x = self.term = t(fdout=self.nd, ignoreEscapesTillFirstEncode=False)
            elif a[0] == 'seg' and int(a[1]): x = t(a[1])
            else: x = t()
            if self.py: x.wrap(self.py[-1])
            self.py.append(x)
        s = Sink(self)
        s.wrap(self.py[-1])
        self.py.append(s)
        self.stack = m.ProtocolStack(self.py)
        self.stack.up = self.recv
    # what comes from the Python side
    def nd(self, data): ev({'e': 'nd', 'b': list(data)})
    def tx(self, b):
        if not self.inject: ev({'e': 'frame', 'b': list(b)} if self.kind != 'arq' else {'e': 'frame', 'n': len(b)})
        self.c2t.append(b)
    def recv(self, b):
        if self.kind == 'arq':
            ev({'e': 'resp', 'b': list(b)})
            self.good += self.pending and bytes(b) == self.answer
            self.pending = False
        else: ev({'e': 'recv', 'b': list(b)})
    # what comes from the C++ side
    def cpp(self, *a):
        for r in cpp.do(*a):
            x = un(r[1]) if r[0] != 'segmtu' else None
            if r[0] == 'tx':
                if not self.inject: ev({'e': 'frame', 'b': list(x)} if self.kind != 'arq' else {'e': 'frame', 'n': len(x)})
                self.t2c.append(x)
            elif r[0] == 'up': ev({'e': 'recv', 'b': list(x)})
            elif r[0] == 'nd': ev({'e': 'nd', 'b': list(x)})
            elif r[0] == 'exec':
                self.answer = un(r[2])
                ev({'e': 'exec', 'b': list(x), 'r': list(self.answer)})
    def chunks(self, b, sizes):
        if 'term' not in self.names or not sizes: return [b]
        i = k = 0
        r = []
        while i < len(b):
            n = max(1, sizes[k % len(sizes)]); k += 1
            r.append(b[i:i + n]); i += n
        return r
    def toC(self, b, sizes=()):
        for x in self.chunks(b, sizes): self.cpp('rx', hx(x))
    def toPy(self, b, sizes=()):
        for x in self.chunks(b, sizes): self.stack.decode(x)
    def go(self, sizes=()):
        join = 'term' in self.names and self.kind != 'arq'
        while self.c2t or self.t2c:
            if self.c2t:
                q, self.c2t = self.c2t, []
                for b in ([b''.join(q)] if join else q): self.toC(b, sizes)
            if self.t2c:
                q, self.t2c = self.t2c, []
                for b in ([b''.join(q)] if join else q): self.toPy(b, sizes)
    def request(self, b):
        self.pending = True
        ev({'e': 'req', 'b': list(b)})
        self.stack.encode(b)
    def fair(self, sizes=()):
        for _ in range(8):
            self.go(sizes)
            if not self.pending: break
            self.stack.timeout()
    def line(self, a):
        global logging
        c, ints = a[0], [int(x) for x in a[1:]] if a[0] not in ('msg', 'nd', 'req') else []
        if c == 'msg':
            b = un(a[1])
            ev({'e': 'send', 'b': list(b)})
            if self.kind == 'py': self.stack.encode(b)
            else: self.cpp('enc', hx(b))
        elif c == 'nd':
            b = un(a[1])
            ev({'e': 'ndsend', 'b': list(b)})
            self.inject = True
            if self.kind == 'py': self.term.inject(b)
            else:
                for r in cpp.do('nd', hx(b)): self.t2c.append(un(r[1]))
                if not self.t2c: self.t2c.append(b'')
            self.inject = False
        elif c == 'go':
            self.go(ints); ev({'e': 'end'})
        elif c == 'req':
            if not self.pending: self.request(un(a[1]))
        elif c == 'd':      # deliver one frame
            if ints[0] == 0 and self.c2t: self.toC(self.c2t.pop(0), ints[1:])
            if ints[0] == 1 and self.t2c: self.toPy(self.t2c.pop(0), ints[1:])
        elif c == 'lose':
            q = self.t2c if ints[0] else self.c2t
            if q: q.pop(0)
        elif c == 'dup':
            q = self.t2c if ints[0] else self.c2t
            if q: q.insert(0, q[0])
        elif c == 'timeout':
            if self.pending: self.stack.timeout()
        elif c == 'restart':
            self.build(); self.pending = False; self.c2t, self.t2c = [], []
            ev({'e': 'restart'})
        elif c == 'fair':
            self.fair(ints); ev({'e': 'fair'})
        elif c == 'many':
            logging = False
            g, f = self.good, 0
            for i in range(ints[0]):
                self.request(bytes([5, i & 255, i >> 8 & 255]))
                if i % 97 == 50: self.c2t.pop(0)
                self.fair()
            logging = True
            ev({'e': 'many', 'n': ints[0], 'ok': self.good - g})
        elif c == 'seq':
            x = [l for l in self.py if l.name == 'arq'][0]
            b = x.encode_seq(ints[0])
            ev({'e': 'seq', 'n': ints[0], 'b': list(b), 'd': x.decode_seq(b + b'\x01')[0], 'rest': len(x.decode_seq(b + b'\x01')[1])})
cpp = Cpp()
w = None
for l in sys.stdin:
    a = l.split()
    if not a: continue
    if a[0] == '@':
        ev({'seg': int(a[1])}); flush()
        w = None
        if a[1] == '-1': break
        continue
    try:
        if a[0] == 'new': w = World(a[1], int(a[2]), a[3:])
        elif w: w.line(a)
    except Exception as e:
        logging = True
        ev({'e': 'exception', 'x': repr(e)})
        w = None
    if len(out) > 500: flush()
flush()
cpp.do('quit') if False else cpp.p.stdin.close()
if cpp.p.wait(): sys.exit(1)
