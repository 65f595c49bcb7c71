import vlib, os
from checks import storelib
KINDS = {k: storelib.parse(open(os.path.join(vlib.VERIF, 'stores', 'Dbg%s.st' % k)).read()) for k in 'ABC'}
STORES = [os.path.join(vlib.VERIF, 'stores', 'Dbg%s.st' % k) for k in 'ABC']
def exe(cfg): return vlib.build('dbg', stores=STORES, cfg=cfg)
def post(s):
    """Adds what the store definitions say to the recorded events."""
    for e in s.events:
        if e['e'] == 'map':
            for x in e['st']:
                x['objs'] = storelib.table(KINDS[x['kind']])
        elif e['e'] == 'dump':
            for x in e['v']:
                if 'named' in x:
                    nm = x.pop('named')
                    x['v'] = [nm.get(o.name) if o.name in nm else [999] for o in KINDS[x['kind']]]
BIGW = lambda R: R.choice([33, 40, 64, 65, 90])
H = lambda b: (b.encode('latin-1') if isinstance(b, str) else bytes(b)).hex()
def q(b): return 'q ' + H(b)

class Gen:
    """Random requests, with some knowledge of what exists."""
    def __init__(self, R, maps, seps=';\n|\t', limits='small'):
        self.R, self.maps = R, maps           # maps: list of (kind, prefix)
        self.al, self.ma = set('1'), set('Z')
        self.last = []
        self.seps = seps
    def full(self):
        R = self.R
        k, p = R.choice(self.maps)
        o = R.choice(KINDS[k])
        self.o = o
        return (p if len(self.maps) > 1 else '') + '/' + o.name
    def name(self, bad=.15):
        R = self.R
        n = self.full()
        c = R.random()
        if c < .45: return n
        if c < .7:      # abbreviated scopes
            return '/'.join(x[:R.randint(1, len(x))] if x else '' for x in n.split('/'))
        if c < .7 + bad:
            m = R.randint(0, 6)
            if m == 0: return n[:R.randint(0, len(n))]
            if m == 1: i = R.randrange(len(n)); return n[:i] + R.choice('abcxyz/ 01[]~') + n[i + 1:]
            if m == 2: return n + R.choice(['x', '/', '/x', '[0]', ' '])
            if m == 3: return n[1:]
            if m == 4: return ''.join(R.choice('/abst0[]') for _ in range(R.randint(0, 8)))
            if m == 5: return R.choice(self.maps)[1] + n
            return n.replace('/', '//', 1)
        if self.al: return R.choice(sorted(self.al))
        return n
    def alias(self): return self.R.choice(['1', '1', '2', 'a', 'b', '~', ' ', 'f', 'Z'])
    def value(self):
        R, o = self.R, getattr(self, 'o', None)
        c = R.random()
        n = o.size if o else 4
        if c < .5: s = bytes(R.randint(0, 255) for _ in range(n)).hex()
        elif c < .6: s = '%x' % R.randint(0, 300)
        elif c < .68: s = bytes(R.choice([0x61, 0x62, 0]) for _ in range(R.randint(0, n + 3))).hex()
        elif c < .76: s = bytes(R.randint(0, 255) for _ in range(R.randint(0, n + 2))).hex()
        elif c < .84: s = '0' * R.randint(0, 2 * n) + '%x' % R.choice([0, 1, 15, 16, 255])
        elif c < .9: s = bytes(R.randint(0, 255) for _ in range(n)).hex()[1:]
        elif c < .95: s = R.choice(['g', '0x1', '1g', '-1', ' 1', '1 ', 'zz', ':;', '@A', '`a', 'G0'])
        else: s = ''
        return s.upper() if R.random() < .3 else s
    def cmd(self, depth=0):
        R = self.R
        c = R.random()
        if c < .25: return 'r' + self.name()
        if c < .47: return 'w' + self.val_name()
        if c < .53: return 'e' + ''.join(R.choice('abc ,:') for _ in range(R.choice([0, 1, 3, 9])))
        if c < .6:
            x = self.alias()
            if R.random() < .3: self.al.discard(x); return 'a' + x
            self.al.add(x); return 'a' + x + self.name(.1)
        if c < .7 and depth < 2:
            return self.macro(depth)
        if c < .8: return R.choice(sorted(self.ma)) if R.random() < .9 else R.choice('xyzXY')
        if c < .83: return 's' + R.choice(['', 'A', 'A/', 'B', 'C', 'B;', 'T', '?'])
        if c < .9 and depth == 0: return self.mem()
        return R.choice(['i', 'v', '?', 'i', 'v', 'ix', 'r', 'w', 'a', 'm', 'a/' + '/int8', 'a\x01/int8', 'f', 'fA', 'x', 'Q', 't', 'tM'])
    def val_name(self):
        n = self.name()
        return self.value() + n
    def macro(self, depth=0):
        R = self.R
        x = R.choice('ZZYMX1 ~')
        if R.random() < .2: return 'm' + x
        self.ma.add(x)
        sep = R.choice(self.seps)
        if R.random() < .08: return 'm' + x + sep
        n = R.choice([1, 1, 2, 2, 3, 4])
        L = [self.cmd(depth + 1) for _ in range(n)]
        if R.random() < .15: L[R.randrange(n)] = R.choice(['', x, 'Z', 'Y', 'm' + x, 'm' + x + sep.replace(';', '|') + 'e1'])
        L = [y for y in L if sep not in y and '?' != y[:1] and y[:1] != 'l'] or ['e1']
        return 'm' + x + sep + sep.join(L)
    def mem(self):
        R = self.R
        c = R.random()
        off = R.choice([128, 129, 131, 136, 150])
        A = '\xfe' + chr(off)
        if c < .35: return 'R' + A + R.choice(['', ' ', ' 1', ' 2', ' 8', ' 40', ' 3f', ' 41', ' 20', ' 00000005', ' 64', ' 0', ' g', ' 000000001', ' 7'])
        if c < .8: return 'W' + A + R.choice([' ', ' ', ' ', ' ', ' ', '']) + bytes(R.randint(0, 255) for _ in range(R.choice([0, 1, 2, 8, 31, 32, BIGW(R)]))).hex()
        if c < .9: return 'W' + A + ' ' + R.choice(['0', '012', 'g0', '0g', ' ', '00 '])
        return R.choice(['R', 'W', 'Rg', 'Rxyz 4', 'W ', 'W  00', 'Rfffffffffffffffff 1', 'Wg 00', 'R-1 1'])

def prefixes(R):
    c = R.random()
    if c < .3: return [('A', '/DbgA')]
    if c < .4: return [(R.choice('BC'), '/x')]
    n = R.choice([2, 3, 3, 4])
    P = R.sample(['/aa', '/ab', '/b', '/b2', '/caa', '/cb', '/dd', '/DbgA', '/DbgB', '/a', '/aab'], n)
    return [(R.choice('ABC'), p) for p in P]
def head(R, maps):
    L = ['init %s %s' % (R.choice(['-', H('verif'), H('a b')]), R.choice(['-', H('1.0'), H('r2 x')]))]
    return L + ['map %s %s' % (k, H(p)) for k, p in maps]
def history(R, n=40):
    """C09: requests of all kinds."""
    maps = prefixes(R)
    g = Gen(R, maps)
    L = head(R, maps)
    for i in range(n):
        c = R.random()
        if c < .02 and len(maps) > 1:
            k, p = maps.pop(R.randrange(len(maps))); L.append('unmap ' + H(p)); g.al.clear()
        elif c < .03:
            k, p = R.choice('ABC'), R.choice(['/zz', '/aa', '/ba']); maps[:] = [x for x in maps if x[1] != p] + [(k, p)]; L.append('map %s %s' % (k, H(p))); g.al.clear()
        elif c < .06: L.append(q('l'))
        elif c < .09: L.append(q(bytes(R.choice([0, 1, 32, 47, 48, 63, 97, 100, 114, 119, 127, 128, 255, R.randint(0, 253)]) for _ in range(R.randint(0, 6))).replace(b'R', b'Q').replace(b'W', b'Q').replace(b'l', b'Q').replace(b's', b'Q').replace(b'm', b'Q').replace(b'\xfe', b'Q')))
        elif c < .14: L.append('dump')
        else: L.append(q(g.cmd()))
    L += [q('l'), 'dump']
    return L
def deftests(R, n=60):
    """C10: aliases and macros up to the limits."""
    maps = prefixes(R)
    if R.random() < .5: maps = [('A', '/DbgA')]
    g = Gen(R, maps)
    L = head(R, maps)
    for i in range(n):
        c = R.random()
        if c < .25:
            x = g.alias()
            if R.random() < .25: L.append(q('a' + x)); g.al.discard(x)
            else: L.append(q('a' + x + g.name(.1))); g.al.add(x)
        elif c < .5: L.append(q(g.macro()))
        elif c < .75: L.append(q(R.choice(sorted(g.ma))))
        elif c < .9:
            x = R.choice(sorted(g.al) or ['1'])
            L.append(q(R.choice(['r' + x, 'w' + g.value() + x])))
        elif c < .95: L.append(q('r' + g.name()))
        else: L.append('dump')
    return L + ['dump']
def streams(R, n=60):
    """C11: streams and tracing (not compressed)."""
    maps = [('A', '/DbgA')]
    L = head(R, maps)
    S = 'AABTTC'
    for x in ('M', 'N'):
        if R.random() < .9: L.append(q('m' + x + ';' + R.choice(['r/int8;e,', 'e0123456789', 'e1', 'r/uint64;e ;r/uint16', 'wff/uint8;r/uint8', 'e' + 'x' * 15, 'x', 'i', 'e;e', 'e' + 'y' * 30])))
    for i in range(n):
        c = R.random()
        s = R.choice(S)
        if c < .3: L.append('w %d %s' % (ord(R.choice(S + '?')), bytes(R.randint(0, 255) for _ in range(R.choice([0, 1, 2, 5, 15, 16, 17, 23, 24, 25, 40]))).hex()))
        elif c < .5: L.append(q('s' + s + R.choice(['', '', '/', 'xy'])))
        elif c < .56: L.append(q('s'))
        elif c < .68: L.append(q('t' + R.choice('MMNZ') + R.choice('TTTAB?') + R.choice(['', '', '1', '2', '3', '5', '0', '0000002', '00000003', 'g', '1g', '000000021'])))
        elif c < .71: L.append(q('t'))
        elif c < .9: L.append('t %d' % R.choice([1, 1, 2, 3, 7]))
        elif c < .93: L.append(q(R.choice(['w%02x/int8' % R.randint(0, 255), 'mM;e' + 'z' * R.randint(0, 9), 'mN;r/uint8', 'mM', 'M'])))
        elif c < .96: L.append('tracing')
        else: L.append(q(R.choice(['tM', 'f', 'fA', 's?', 'r/int8'])))
    return L + ['dump']
def zstreams(R, n=80):
    """C11: streams and tracing, compressed."""
    L = head(R, [('A', '/DbgA')])
    S = R.choice(['A', 'AB', 'ABTTC', 'ABT'])
    for x in ('M', 'N'):
        if R.random() < .9: L.append(q('m' + x + ';' + R.choice(['r/int8;e,', 'e0123456789', 'e1', 'r/uint64;e ;r/uint16', 'wff/uint8;r/uint8', 'e' + 'x' * 15, 'x', 'i', 'e;e', 'e' + 'y' * 30])))
    def data():
        k = R.choice([0, 1, 2, 5, 15, 16, 17, 40, 60, 64, 65, 90, 130])
        c = R.random()
        if c < .3: return bytes(R.randint(0, 255) for _ in range(k))
        if c < .6: return bytes(R.choice(b'ab') for _ in range(k))
        if c < .8: return (bytes(R.choice(b'abc') for _ in range(R.randint(1, 20))) * 130)[:k]
        return bytes([R.choice([0, 255, 97])]) * k
    for i in range(n):
        c = R.random()
        s = R.choice(S)
        if c < .36: L.append('w %d %s' % (ord(R.choice(S + ('?' if R.random() < .1 else ''))), data().hex()))
        elif c < .6: L.append(q('s' + s + R.choice(['', '', '/', 'xy'])))
        elif c < .64: L.append(q('s'))
        elif c < .74: L.append(q('f' + s))
        elif c < .76: L.append(q('f' + R.choice(['', '', 'Q', 'AB'])))
        elif c < .82: L.append(q('t' + R.choice('MMNZ') + R.choice(S) + R.choice(['', '', '1', '2', '3', '0', '0000002', 'g'])))
        elif c < .84: L.append(q('t'))
        elif c < .96: L.append('t %d' % R.choice([1, 1, 2, 3, 7]))
        elif c < .98: L.append(q(R.choice(['w%02x/int8' % R.randint(0, 255), 'mM;e' + 'z' * R.randint(0, 9), 'mN;r/uint8', 'mM', 'M'])))
        else: L.append('tracing')
    for s in sorted(set(S)): L += [q('f' + s), q('s' + s), q('s' + s)]
    return L + [q('s'), 'dump']
def beh(b):
    """Behaviour of DebuggerMC (store C, mapped as /S) as script. The objects a and b/c are /int8 and /pos/x, or so."""
    L = []
    for x in b:
        if 'q' in x: L.append(q(bytes(x['q']).replace(b'/a', b'/only').replace(b'/b/c', b'/pos/y').replace(b'/b', b'/pos')))
        elif 'w' in x: L.append('w %d %s' % (x['w'], bytes(x['b']).hex()))
        else: L.append('t')
    return L
