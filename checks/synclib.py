import vlib, os
STORES = [os.path.join(vlib.VERIF, 'stores', s) for s in ('SyncA.st', 'SyncB.st', 'SyncC.st')]
def exe(): return vlib.build('sync', stores=STORES)
TOPO = {'2': [(1, 2)], '3': [(1, 2), (2, 3)], 'F': [(1, 2), (1, 3)], '4': [(1, 2), (1, 3), (2, 4)], '5': [(1, 2), (2, 3), (3, 4), (2, 5)]}
NN = {'2': 2, '3': 3, 'F': 3, '4': 4, '5': 5}
STACKS = ['', '', '', 'asc term', 'seg:20 asc term', 'seg:32 crc16', 'seg:16', 'crc16 asc', 'buf:7', 'seg:24 crc16 asc term buf:0']
NOBJ = {'A': 14, 'B': 15, 'C': 5}

def head(R, topo, kinds='A', stacks=True):
    L = ['init %d %s %d' % (NN[topo], kinds, len(TOPO[topo]) + 1)]
    for a, b in TOPO[topo]:
        st = R.choice(STACKS) if stacks else ''
        if 'crc16' in st and 'seg' not in st and kinds != 'A': st = 'seg:40 crc16'
        L.append('link %d %d %s' % (a, b, st))
    return L
def connect(topo, k, kinds):
    a, b = TOPO[topo][k - 1]
    return ['conn %d %d' % (a, k), 'conn %d %d' % (b, k)] + ['src %d %d %d' % (b, k, s + 1) for s in range(len(kinds))]
def val(R):
    k = R.random()
    if k < .25: return '%02x' % R.choice([0, 1, 2])
    if k < .6: return bytes(R.choice([0x61, 0x62, 0, 1]) for _ in range(R.randint(1, 8))).hex()
    return bytes(R.randint(0, 255) for _ in range(R.choice([1, 2, 4, 8, 8, 20, 100]))).hex()
def write(R, n, kinds, nobj=None):
    s = R.randrange(len(kinds))
    m = NOBJ[kinds[s]]
    o = R.randrange(min(m, nobj) if nobj else m)
    if kinds[s] == 'C' and o == 0: o = 1
    return 'w %d %d %d %s' % (n, s + 1, o, val(R))

def from_behaviour(R, b, topo, kinds='A'):
    """A behaviour of Sync.tla as script; objects of the specification are some objects of the store."""
    objs = R.sample(range(NOBJ[kinds]), 3)
    L = head(R, topo, kinds)
    up = set()
    for x in b:
        if x[0] == 'w': L.append('w %d 1 %d %s' % (x[1], objs[x[2] - 1], (bytes([x[3] + 64]) * R.choice([1, 4, 8])).hex()))
        elif x[0] == 'proc1': L.append('proc1 %d %d 1' % (x[1], x[2]))
        elif x[0] == 'dl': L.append('dl %d %d' % (x[1], x[2]))
        elif x[0] == 'reset': L.append('reset %d %d %d %d' % tuple(x[1:]))
        elif x[0] == 'connect': L += connect(topo, x[1], kinds); up.add(x[1])
        else: L += disconnect(topo, x[1]); up.discard(x[1])
    L.append('settle'); L.append('end ' + ' '.join(map(str, sorted(up))))
    return L
def disconnect(topo, k):
    a, b = TOPO[topo][k - 1]
    return ['disc %d %d' % (a, k), 'disc %d %d' % (b, k)]

def history(R, n=60, topo=None, kinds=None, stacks=True, lossy=True, hot=None):
    """Random schedules with (re)connects and resets at any moment."""
    topo = topo or R.choice(['2', '2', '3', '3', 'F', '4', '5'])
    kinds = kinds or R.choice(['A', 'A', 'A', 'AB', 'AA'[:1], 'B'])
    L = head(R, topo, kinds, stacks)
    nl, nn = len(TOPO[topo]), NN[topo]
    up, order = set(), list(range(1, nl + 1))
    R.shuffle(order)
    hot = hot if hot is not None else R.choice([None, 3, 2])
    for k in order:
        for _ in range(R.choice([0, 0, 1, 3])): L.append(write(R, R.randint(1, nn), kinds, hot))
        L += connect(topo, k, kinds); up.add(k)
        if R.random() < .5: L.append('settle')
    for _ in range(n):
        c = R.random()
        k = R.randint(1, nl); a, b = TOPO[topo][k - 1]; e = R.choice([a, b])
        if c < .3: L.append(write(R, R.randint(1, nn), kinds, hot))
        elif c < .45: L.append('proc %d' % R.randint(1, nn))
        elif c < .55: L.append('proc1 %d %d %d' % (e, k, R.randint(0, len(kinds))))
        elif c < .9: L.append('dl %d %d' % (e, k))
        elif c < .92: L.append('clean %d %d' % (R.randint(1, nn), R.randint(1, len(kinds))))
        elif c < .96 and lossy:
            L.append('reset %d %d %d %d' % (e, k, R.choice([0, 0, 1, 9]), R.choice([0, 0, 1, 9])))
        elif c < .975 and lossy:
            if k in up: L += disconnect(topo, k) if R.random() < .5 else disconnect(topo, k)[::-1]; up.discard(k)
            else: L += connect(topo, k, kinds); up.add(k)
        elif c < .985 and lossy and k in up:
            # one side is restarted: new connection (and ids); the other side is reset afterwards, at some moment
            x = a if R.random() < .5 else b
            L += ['disc %d %d' % (x, k)]
            for _ in range(R.randint(0, 2)): L.append(R.choice([write(R, R.randint(1, nn), kinds, hot), 'proc %d' % R.randint(1, nn)]))
            L += ['conn %d %d' % (x, k)]
            if x == b: L += ['src %d %d %d' % (b, k, s + 1) for s in range(len(kinds))]
            else: L += ['reset %d %d 9 9' % (b, k)]
        elif c < .99: L.append('settle')
        else: L.append(write(R, R.randint(1, nn), kinds, hot))
    for k in order:
        if k not in up and R.random() < .8: L += connect(topo, k, kinds); up.add(k)
    L.append('settle'); L.append('end ' + ' '.join(map(str, sorted(up))))
    return L

def changes(R, n=40):
    """One or two links, precise process calls."""
    kinds = R.choice(['A', 'A', 'B', 'AB'])
    topo = R.choice(['2', '3', 'F'])
    L = head(R, topo, kinds, False)
    for k in range(1, len(TOPO[topo]) + 1): L += connect(topo, k, kinds) + ['settle']
    nn, nl = NN[topo], len(TOPO[topo])
    last = {}
    for _ in range(n):
        c = R.random()
        k = R.randint(1, nl); e = R.choice(TOPO[topo][k - 1])
        if c < .35:
            w = write(R, R.randint(1, nn), kinds); last[R.randint(0, 3)] = w; L.append(w)
            if R.random() < .2: L.append(w)
        elif c < .42 and last: L.append(R.choice(list(last.values())))
        elif c < .7: L.append('proc1 %d %d %d' % (e, k, R.choice([0, 0, 1, len(kinds)])))
        elif c < .75: L.append('proc %d' % R.randint(1, nn))
        elif c < .95: L.append('dl %d %d' % (e, k))
        elif c < .98: L.append('clean %d %d' % (R.randint(1, nn), R.randint(1, len(kinds))))
        else: L.append('settle')
    L.append('settle')
    if R.random() < .3: L += ['clean %d 1 1' % R.randint(1, nn), write(R, 1, kinds), write(R, nn, kinds), 'settle']
    L.append('end ' + ' '.join(str(k) for k in range(1, nl + 1)))
    return L
