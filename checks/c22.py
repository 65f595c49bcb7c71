"""C22: compression."""
import os
import vlib
def text(R, n):
    k = R.random()
    if k < .25: return bytes(R.randrange(256) for _ in range(n))
    if k < .5: return bytes(R.choice(b'ab') for _ in range(n))
    if k < .6: return bytes([R.randrange(256)]) * n
    w = [bytes(R.randrange(97, 123) for _ in range(R.randint(1, 20))) for _ in range(R.randint(1, 6))]
    o = b''
    while len(o) < n:
        if R.random() < .15 and o: # a repetition of some distance
            d = R.choice([1, 2, 15, 16, 17, 254, 255, 256, 257]); o += (o[-d:] * 20)[:R.randint(1, 40)]
        else: o += R.choice(w)
    return o[:n]
def size(R, big): return R.choice([0, 1, 2, 3, 8, 15, 16, 17, 31, 32, 33, 100, 255, 256, 257] + ([300, 511, 512, 513, 700] if big else []))
def script(R):
    L = ['new']
    for _ in range(R.randint(1, 5)):
        m = text(R, size(R, R.random() < .3))
        while m and R.random() < .8:
            n = R.choice([1, 1, 2, 7, 16, 100]); x, m = m[:n], m[n:]
            L.append('enc ' + x.hex())
            if R.random() < .1: L.append('enc')
        L.append('end ' + m.hex())
    return L
def seqs(ev):
    """Compressed messages of a trace."""
    o, L = [], []
    for e in ev:
        if e['e'] == 'enc':
            for x in e['out']: o += x['d']
            if e['last']: L.append(bytes(o)); o = []
    return L
def split(R, m, f):
    L = []
    one = R.random() < .3
    while m:
        n = R.choice([1, 1, 2, 3] if one and len(m) < 80 else [1, 2, 30, 31, 32, 33, 64, 300]); L.append(m[:n]); m = m[n:]
    return ['fill ' + x.hex() for x in L[:-1]] + ['fin ' + (L[-1] if L else b'').hex()] if R.random() < .5 else ['fill ' + x.hex() for x in L] + ['fin']
def run(ck):
    R, t = ck.rng, ck.thorough
    ck.model('HeatshrinkMC', 'HeatshrinkMC2' if t else 'HeatshrinkMC')
    exe = vlib.build('compress')
    N = 6000 if t else 700
    segs = [vlib.Seg(script(R)) for _ in range(N)]
    ck.conform(exe, 'CompressTrace', 'CompressTrace', segs, name='encode')
    msgs = [m for s in segs for m in seqs(s.events)]
    # messages of one or several encoders are received by one layer, while it encodes something else
    D = []
    for _ in range(N):
        L = ['new']
        for _ in range(R.randint(1, 6)):
            c = R.random()
            m = R.choice(msgs) if c < .75 else text(R, R.randint(0, 60))
            L.append('dec ' + m.hex())
            while R.random() < .3: L.append('%s %s' % (R.choice(['enc', 'end']), text(R, R.randint(0, 30)).hex()))
        D.append(vlib.Seg(L))
    ck.conform(exe, 'CompressTrace', 'CompressTrace', D, name='decode')
    P = []
    for _ in range(N):
        L = ['new']
        for _ in range(R.randint(1, 4)): L += split(R, R.choice(msgs) if R.random() < .75 else text(R, R.randint(0, 100)), None)
        P.append(vlib.Seg(L))
    py = os.path.join(vlib.VERIF, 'harness', 'pyhs.py')
    ck.conform(py, 'CompressTrace', 'CompressTrace', P, name='Python decoder', args=[os.path.join(vlib.REPO, 'python', 'libstored', 'heatshrink.py')])
    ck.assumptions += ['empty messages may be dropped by the receiving layer']
