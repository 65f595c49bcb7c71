import itertools
import vlib
M = 0x8000000
def nxt(q): return (q + 1) % M or 1
def vlq(q, rst=False):
    s = [q & 0x7f]
    q >>= 7
    while q:
        s.insert(0, q & 0x7f); q >>= 7
    if s[0] & 0x40:
        s.insert(0, 0)
    b = [(s[0] & 0x3f) | (0x40 if len(s) > 1 else 0) | (0x80 if rst else 0)]
    b += [x | (0x80 if i + 2 < len(s) else 0) for i, x in enumerate(s[1:])]
    return bytes(b)

def plan(R):
    k = R.randint(0, 9)
    if k < 4: p = R.choice(['C', 'A', 'bD', 'aaB', 'O'])
    elif k < 6: p = ''.join(R.choice(['C', 'cD', 'E', 'A']) for _ in range(R.randint(1, 4)))
    elif k < 8: p = 'P' + ''.join(R.choice(['C', 'cD', 'E']) for _ in range(R.randint(1, 3)))
    else: p = ''.join(R.choice('PQPabcdABCD') for _ in range(R.randint(1, 6))) + 'B'
    return p if R.random() < .97 else 'Z'

SEQS = [0, 1, 5, 62, 63, 64, 126, 127, 128, 8190, 8191, 8192, 1048574, 1048575, 1048576, 0x7fffffd, 0x7fffffe, 0x7ffffff, 0x1234567, 300]
def frames_script(R, n):
    """Frames of a more or less well behaving client, at the frame level."""
    seg = R.randint(0, 1)
    L = ['init %d %d %d %d 0' % (R.choice([0, 0, 6, 10, 12, 40]), seg, R.choice([0, 3, 6, 20]) if seg else 0, R.choice([0, 0, 0, 3, 5, 12]) if seg else 0)]
    q, cur = 1, []
    if R.random() < .6:
        q = R.choice(SEQS)
        L.append('in ' + vlq(q, True).hex()); q = nxt(q)
    for _ in range(n):
        L.append('plan ' + plan(R))
        k = R.random()
        if k < .45 or not cur:
            nf = R.choice([1, 1, 1, 2, 3])
            cur = []
            for i in range(nf):
                cur.append(vlq(q) + bytes(R.choice([0, 69, 67, R.randint(0, 255)]) for _ in range(R.choice([0, 1, 3, 6]))) + (b'E' if i == nf - 1 else b'C'))
                q = nxt(q)
            send = cur if R.random() < .7 else [f for f in cur if R.random() < .6]
        elif k < .75:
            send = cur if R.random() < .6 else [f for f in cur if R.random() < .7]
        elif k < .82:
            send = [R.choice(cur)]
        elif k < .88:
            send = [vlq(R.choice([q, nxt(q), max(1, q - 2), R.choice(SEQS)])) + b'xE']
            if R.random() < .5: send = [vlq(nxt(nxt(q))) + b'yE']
        elif k < .93:
            q = R.choice(SEQS)
            send = [vlq(q, True)] * R.randint(1, 2); q = nxt(q); cur = []
        elif k < .96:
            send = [R.choice([b'', b'\x40', b'\x41\x80', b'\x7f\xff\xff', b'\xc0', b'\x80E', b'\x00'])]
            if send[0][:1] in (b'\xc0', b'\x80'): q = 1; cur = []
        else:
            L.append('reset'); q = 1; cur = []; send = []
        for f in send:
            L.append('in ' + f.hex() if f else 'in -')
            if R.random() < .1: L.append('in ' + f.hex() if f else 'in -')
    return L

def exhaustive(n):
    """All frame sequences over a small alphabet: two requests (of 2 and 1 frames), a reset."""
    a, b, c, z = vlq(1) + b'aC', vlq(2) + b'bE', vlq(3) + b'cE', vlq(0, True)
    segs = []
    for pl in ('C', 'PC'):
        for s in itertools.product([a, b, c, z], repeat=n):
            segs.append(vlib.Seg(['init 0 0 0 0 0', 'plan ' + pl] + ['in ' + f.hex() for f in s]))
    return segs

def beh(h, once, R):
    L = ['init 0 0 0 0 1 %d %d' % (once, R.choice([0, 0, 0, 62, 0x7fffffd]))]
    for x in h:
        if x[0] == 'q': L.append('q %d' % x[1])
        elif x[0] == 't': L.append('t')
        elif x[0] == 'z': L.append('z %d' % R.choice([0, 0, 63, 0x7ffffff, 8190]))
        elif x[0] in 'x2': L.append('%s %d' % (x[0], x[1]))
        elif x[0] == 'd' and x[1] == 1: L.append('d 1')
        elif x[0] == 'd': L.append('d 0 %d %d' % (x[2], 1 if x[3] else 0))
    return L + ['w', 'q 2', 'w']

def client_script(R, n):
    L = ['init 0 0 0 0 1 1 0', 'w']
    ops = R.choice(['q tx2dde', 'qqtdddeee', 'qtx2dddeeez', 'qttddeeex'])
    k = 0
    for _ in range(n):
        o = R.choice(ops.replace(' ', ''))
        if o == 'q':
            k += 1
            if k > 90: break
            L.append('q %d' % R.randint(1, 3))
        elif o in 'tz': L.append(o)
        elif o in 'x2': L.append('%s %d' % (o, R.randint(0, 1)))
        elif o == 'd': L.append('d 0 %d 0' % R.randint(1, 3))
        else: L.append('d 1')
    return L + ['w', 'q 1', 'w']

def run(ck):
    exe = vlib.build('dbgarq')
    t = ck.thorough
    R = ck.rng
    for c in ['DebugArq2', 'DebugArqP2', 'DebugArqLive2', 'DebugArqLiveP', 'DebugArqLive'] if t else ['DebugArq', 'DebugArqP', 'DebugArqLive']:
        ck.model('DebugArq', c, heap='8g')
    segs = []
    for cfg, once in (('DebugArqSim', 1), ('DebugArqSimP', 0)):
        seen = set()
        for h in ck.simulate('DebugArq', cfg, 2500 if t else 250, 60):
            if str(h) not in seen:
                seen.add(str(h)); segs.append(vlib.Seg(beh(h, once, R)))
    ck.conform(exe, 'DebugArqTrace', 'DebugArqTrace', segs, name='behaviours of DebugArq.tla')
    ck.conform(exe, 'DebugArqTrace', 'DebugArqTrace', exhaustive(6 if t else 5), name='exhaustive frame sequences')
    ck.conform(exe, 'DebugArqTrace', 'DebugArqTrace', [vlib.Seg(client_script(R, R.choice([20, 60, 150]))) for _ in range(6000 if t else 600)], name='random client schedules')
    ck.conform(exe, 'DebugArqTrace', 'DebugArqTrace', [vlib.Seg(frames_script(R, R.choice([6, 15, 40]))) for _ in range(12000 if t else 900)], name='random frames')
    big = []
    for q0 in [0, 0x7ffffff - 40, 0x7fffffe - 8000, 0x7fffffe]:
        for n in [62, 63, 64, 8126, 8127, 8128] + ([] if q0 else [1040384, 1040385, 1048575] + ([0x7ffffff - 8129] if t else [])):
            q = q0
            L = ['init 0 0 0 0 0', 'in ' + vlq(q, True).hex(), 'bulk 40 %d' % nxt(q)]
            for _ in range(41): q = nxt(q)
            L += ['bulk %d %d' % (n, q)]
            q = (q - 1 + n) % (M - 1) + 1
            L += ['plan cD', 'in ' + (vlq(q) + b'E').hex(), 'in ' + (vlq(q) + b'E').hex()]
            for _ in range(70):
                q = nxt(q); L += ['in ' + (vlq(q) + b'aE').hex()]
            big.append(vlib.Seg(L))
    ck.conform(exe, 'DebugArqTrace', 'DebugArqTrace', big, name='sequence number ranges', seg_timeout=200)
    ck.assumptions += ['frames keep their order; with purgeable responses, a client does not retransmit while frames are in flight and frames are not duplicated (with precious responses, both are covered)',
        'an application finishes its response while it handles the request']
