import vlib
from checks import synclib as s
SIZES = {'A': None, 'B': None, 'C': None}
def le(x, k): return (x % (1 << (8 * k))).to_bytes(k, 'little').hex()
def hello(R, kinds):
    return '68 #%d %s' % (R.randint(1, len(kinds)), R.choice(['0100', '0200', '0700', 'ffff', '0300']))
def entry(R, info, si):
    ks, size, objs = info[si]
    o, n = R.choice(objs)
    return le(o, ks) + le(n, ks) + bytes(R.choice([R.randint(0, 255), 0x61]) for _ in range(n)).hex()
def bad_entry(R, info, si, leaf):
    ks, size, objs = info[si]
    o, n = R.choice(objs)
    top = (1 << (8 * ks)) - 1
    k = R.choice([0, 1, size - 1, size, size + 1, top, top - 1, top - 7, o, size // 2, R.randint(0, top)])
    l = R.choice([0, 1, 2, size - 1, size, size + 1, top, top - 1, n, max(0, top - k), top - k + 1, R.randint(0, top)])
    d = R.choice([l, max(0, l - 1), l + 1, 0, 3]) if l < 2000 else R.choice([0, 3, 60])
    if not leaf and k + l <= size and d >= l:
        return le(k, ks) + le(max(l, 2), ks) # truncated
    return le(k, ks) + le(l, ks) + bytes(R.randint(0, 255) for _ in range(d)).hex()
def message(R, info, kinds, leaf):
    """leaf: the node forwards to nobody; then anything goes as entry of an update"""
    si = R.randrange(len(kinds)); S = si + 1
    c = R.random()
    ref = '@%d' % S if R.random() < .85 else R.choice(['0000', '0100', '0200', 'ffff', '0300'])
    if c < .16: m = hello(R, kinds)
    elif c < .30: m = '77 %s %s !=%d' % (ref, R.choice(['0500', '0100', '0000', 'ffff']), S)
    elif c < .62:
        m = '75 ' + ref
        for _ in range(R.choice([0, 1, 1, 2, 4])): m += ' ' + entry(R, info, si)
        if R.random() < .6: m += ' ' + bad_entry(R, info, si, leaf)
        if R.random() < .2: m += ' ' + entry(R, info, si)
    elif c < .68: m = '62'
    elif c < .74: m = '62 ' + R.choice(['0100', '0200', '0700', 'ffff', '0000', '0500', ref])
    elif c < .80: m = '62 #%d' % S
    elif c < .88: m = bytes(R.randint(0, 255) for _ in range(R.choice([0, 1, 2, 3, 5, 50]))).hex() or '00'
    elif c < .92: m = '%02x ' % R.choice([0x68, 0x77, 0x75, 0x62, 0x48, 0x00]) + bytes(R.choice([0, 1, 255, 0x41]) for _ in range(R.choice([0, 1, 2, 3, 4, 6, 41, 60]))).hex()
    elif c < .96: m = '68 ' + bytes(R.randint(65, 70) for _ in range(40)).hex() + R.choice(['', '00', '000100', '0001', '000000'])
    else: m = '62 ' + bytes(R.randint(65, 70) for _ in range(R.choice([3, 4, 20, 40]))).hex() + R.choice(['', '00'])
    m = m.replace('!=', '=')
    m = ' '.join(x for x in m.split(' ') if x)
    c = R.random()
    if c < .12: m += ' <%d' % R.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 20, 44, 45, 46, 100])
    elif c < .24: m += ' -%d' % R.choice([1, 1, 2, 3, 8])
    elif c < .3: m += ' ' + R.choice(['00', 'ff', '0000', '010203'])
    return m
def script(R, info, n=30):
    topo = R.choice(['2', '2', '3', 'F', 'F', '4'])
    kinds = R.choice(['A', 'A', 'AB', 'B'])
    inf = [info[k] for k in kinds]
    L = s.head(R, topo, kinds)
    nl, nn = len(s.TOPO[topo]), s.NN[topo]
    v = R.randint(1, nn)
    if R.random() < .2: # nothing but the attacked node
        L = s.head(R, topo, kinds); up = []
        L = [x for x in L if not x.startswith('link')]; L[0] = 'init %d %s %d' % (nn, kinds, 1); nl = 0
    L.append('link %d 0' % v); k = nl + 1
    up = []
    for i in range(1, nl + 1): L += s.connect(topo, i, kinds); up.append(i)
    if R.random() < .7: L.append('settle')
    leaf = nl == 0
    L.append('conn %d %d' % (v, k))
    if R.random() < .4: L += ['src %d %d %d' % (v, k, i + 1) for i in range(len(kinds))]
    else: L.append('raw %d %d %s' % (v, k, hello(R, kinds)))
    for _ in range(n):
        c = R.random()
        if c < .55: L.append('raw %d %d %s' % (v, k, message(R, inf, kinds, leaf)))
        elif c < .65: L.append('raw %d %d %s' % (v, k, hello(R, kinds)))
        elif c < .75: L.append(s.write(R, R.randint(1, nn), kinds))
        elif c < .8: L.append('proc1 %d %d 0' % (v, k))
        elif c < .85: L.append('src %d %d %d' % (v, k, R.randint(1, len(kinds))))
        elif c < .87 and len(kinds) == 1: L.append('disc %d %d' % (v, k)); L.append('conn %d %d' % (v, k))
        elif c < .9: L.append('reset %d %d 0 0' % (v, k))
        elif nl and c < .98:
            j = R.randint(1, nl); L.append('dl %d %d' % (R.choice(s.TOPO[topo][j - 1]), j))
        else: L.append('settle')
    # recovers
    L.append('reset %d %d 0 0' % (v, k))
    L += ['raw %d %d 62' % (v, k), 'raw %d %d 68 #1 1100' % (v, k), 'raw %d %d 75 @1 %s' % (v, k, entry(R, inf, 0))]
    L += ['settle', s.write(R, v, kinds), 'proc1 %d %d 0' % (v, k), 'settle', 'end ' + ' '.join(map(str, up))]
    return L
def spoof(R, info, n=30):
    """Messages that do not belong there on a link with an actual peer, which is reset afterwards"""
    topo = R.choice(['2', '3', 'F'])
    kinds = R.choice(['A', 'B'])
    inf = [info[k] for k in kinds]
    L = s.head(R, topo, kinds)
    nl, nn = len(s.TOPO[topo]), s.NN[topo]
    for i in range(1, nl + 1): L += s.connect(topo, i, kinds)
    L.append('settle')
    for _ in range(n):
        c = R.random(); j = R.randint(1, nl); e = R.choice(s.TOPO[topo][j - 1])
        if c < .3: L.append('raw %d %d %s' % (e, j, message(R, inf, kinds, False)))
        elif c < .5: L.append(s.write(R, R.randint(1, nn), kinds))
        elif c < .6: L.append('proc %d' % R.randint(1, nn))
        elif c < .95: L.append('dl %d %d' % (e, j))
    for i in range(1, nl + 1): L += ['reset %d %d 0 0' % (s.TOPO[topo][i - 1][R.randint(0, 1)], i)]
    L.append('settle')
    for i in range(1, nl + 1): L += s.disconnect(topo, i) # start over
    for i in range(1, nl + 1): L += s.connect(topo, i, kinds)
    L.append('settle'); L.append('end ' + ' '.join(str(i) for i in range(1, nl + 1)))
    return L
def info(exe):
    r = {}
    for k in 'ABC':
        segs = vlib.run_segs(exe, [vlib.Seg(['init 1 %s 1' % k])])
        st = segs[0].events[0]['stores'][0]
        n = len(st['buf'])
        r[k] = (1 if n < 256 else 2 if n < 65536 else 4, n, [tuple(o) for o in st['objs']])
    return r
def run(ck):
    exe = s.exe(); t = ck.thorough; R = ck.rng
    ck.model('SyncAtk', 'SyncAtk', heap='12g')
    ck.model('SyncAtk', 'SyncAtkUp', heap='12g')
    if t: ck.model('SyncAtk', 'SyncAtk2', heap='16g', timeout=2400)
    I = info(exe)
    ck.conform(exe, 'SyncTrace', 'SyncTrace', [vlib.Seg(script(R, I)) for _ in range(8000 if t else 1000)], name='malformed messages', key=lambda s, i, why: 'malformed messages: ' + why)
    ck.conform(exe, 'SyncTrace', 'SyncTrace', [vlib.Seg(spoof(R, I)) for _ in range(3000 if t else 200)], name='spoofed messages', key=lambda s, i, why: 'spoofed messages: ' + why)
    # entries that do not match the objects, to a node that forwards these: see known_findings.json
    L = ['init 2 B 2', 'link 1 2', 'link 1 0'] + s.connect('2', 1, 'B') + ['settle', 'conn 1 2', 'raw 1 2 68 #1 0100']
    ks, size, objs = I['B']
    L += ['raw 1 2 75 @1 ' + ''.join(le(i, ks) + le(1, ks) + '77' for i in range(size)), 'proc 1', 'settle', 'end 1']
    ck.conform(exe, 'SyncTrace', 'SyncTrace', [vlib.Seg(L, 'relay-entry-per-byte')], name='an entry per byte', key=lambda s, i, why: ('script=%s ' % s.meta if s.meta else '') + why)
