"""Scripts for the two-endpoint ARQ harness."""
import vlib

def beh_to_script(h, tail):
    return ['init 0 1'] + ['%s %d%s' % (x[0], x[1], ' %d %d' % (3 + i % 5, 1 + i % 2) if x[0] == 's' else '') for i, x in enumerate(h)] + tail

def rand_script(R, n, ops, mtu=0, maxbuf=0):
    L = ['init %d 1 %d' % (maxbuf, mtu), 'm 0', 'm 1']
    up = mtu - 2 if mtu > 4 else 40
    for _ in range(n):
        o = R.choice(ops); s = R.randint(0, 1)
        if o == 's':
            L.append('s %d %d %d' % (s, R.choice([2, 3, 5, R.randint(2, max(2, up))]) if mtu else R.choice([2, 3, 8, 70]), R.randint(1, 3)))
        elif o == 'b':
            L.append('b %d %d' % (s, R.choice([2, 3, 5, R.randint(2, max(2, up))]) if mtu else R.choice([2, 3, 8, 70])))
        elif o == 'e':
            L.append('e %d %d' % (s, R.randint(1, 3)))
        elif o == 'd':
            L.append('d %d %d' % (s, R.choice([1, 1, 1, 2, 5])))
        else:
            L.append('%s %d' % (o, s))
    return L

def tail(R):
    t = ['q %d' % R.randint(1, 10**6)]
    if R.random() < .3:
        t += ['s %d 6 1' % R.randint(0, 1), 'h %d %d' % (R.randint(0, 1), R.choice([3, 9, 20, 20, 300])), 'q %d' % R.randint(1, 10**6)]
    if R.random() < .3:
        t += ['r %d' % R.randint(0, 1), 's 0', 's 1', 'q %d' % R.randint(1, 10**6)]
    return t

def wrap_script(R):
    """Long runs: the sequence numbers wrap several times, with sparse faults."""
    L = ['init 0 1', 'q 1']
    for _ in range(R.randint(130, 260)):
        s = R.randint(0, 1)
        L.append('s %d %d' % (s, R.choice([2, 4, 9])))
        for _ in range(R.randint(0, 4)):
            L.append(R.choice(['d 0', 'd 1', 'd 0 2', 'd 1 2', 'd 0', 'd 1', 'd 0', 'd 1', 'f 0', 'f 1', 'x 0', 'x 1', '2 0', '2 1', 'k 0', 'k 1', 'c 0']))
    return L + ['q %d' % R.randint(1, 10**6)]

OPS = ['sddfx', 'sdddfx', 'sddf2kx', 'sddfr2kx', 'sdddddfr2kxe', 'sddddddddddddfr2kxc', 'sssdddeex', 'sddddddx2', 'sfdxr', 'sdrrf', 'bnddf', 'sbnddfkx', 'bdddkr', 'bnsddddkr2', 'bnsdddkkxf']

def segments(ck, n):
    R = ck.rng
    segs = []
    for i in range(n):
        segs.append(vlib.Seg(rand_script(R, R.choice([8, 20, 60, 120]), R.choice(OPS),
            mtu=R.choice([0, 0, 0, 3, 5, 8, 32]), maxbuf=R.choice([0, 0, 0, 16, 64])) + tail(R)))
    for i in range(n // 40 + 4):
        segs.append(vlib.Seg(wrap_script(R)))
    return segs

def exhaustive(ck, depth):
    """All sequences of the given length over a small alphabet after a completed handshake."""
    import itertools
    segs = []
    for seq in itertools.product(['s 0', 'd 0', 'd 1', 'x 0', 'x 1', 'f 0', 's 1', '2 0'], repeat=depth):
        segs.append(vlib.Seg(['init 0 1', 'q 1'] + list(seq) + ['q 3']))
    return segs

def pieces(ck, depth):
    import itertools
    segs = []
    for seq in itertools.product(['b 0', 'n 0', 'd 0', 'd 1', 'k 0', 'x 0', 'r 1', 's 1'], repeat=depth):
        if 'b 0' in seq[:-1]: segs.append(vlib.Seg(['init 0 1', 'q 1', 's 0'] + list(seq) + ['q 3']))
    return segs

def handshakes(ck, depth):
    import itertools
    segs = []
    for seq in itertools.product(['s 0', 'd 0', 'd 1', 'x 0', 'x 1', 'f 0', 'f 1', 'r 0'], repeat=depth):
        segs.append(vlib.Seg(['init 0 1'] + list(seq) + ['q 7']))
    return segs

KNOWN = [
    # found by the free (undisciplined) model: crossing handshakes feed on each other
    (['init 0 0', 'r 1', 'x 1', 's 0', 'd 0', 'd 1', 'x 0', 'f 0', 'f 1', 'q'], 'handshake-cross'),
]

def run(ck, live):
    exe = vlib.build('arq')
    if live:
        ck.model('Arq', 'ArqLive2' if ck.thorough else 'ArqLive', heap='8g')
    else:
        ck.model('Arq', 'Arq2' if ck.thorough else 'Arq', heap='16g', timeout=3000)
    R = ck.rng
    beh = ck.simulate('Arq', 'ArqSim', 4000 if ck.thorough else 400, 60)
    seen, segs = set(), []
    for h in beh:
        k = str(h)
        if k not in seen:
            seen.add(k)
            segs.append(vlib.Seg(beh_to_script(h, tail(R))))
            if R.random() < .3: # messages in pieces
                L = []
                for x in segs[-1].lines:
                    L.append('b' + x[1:] if x[0] == 's' else x)
                segs.append(vlib.Seg(L[:1] + [y for x in L[1:] for y in ([x, 'n ' + x.split()[1]] if x[0] == 'b' and R.random() < .5 else ['n %d' % R.randint(0, 1), x] if R.random() < .2 else [x])]))
    ck.conform(exe, 'ArqTrace', 'ArqTrace', segs, name='behaviours of Arq.tla', key=key)
    ck.conform(exe, 'ArqTrace', 'ArqTrace', segments(ck, 8000 if ck.thorough else 1200), name='random schedules', key=key)
    ck.conform(exe, 'ArqTrace', 'ArqTrace', exhaustive(ck, 5 if ck.thorough else 4) + handshakes(ck, 5 if ck.thorough else 3) + pieces(ck, 5 if ck.thorough else 4), name='exhaustive short schedules', key=key)
    if live:
        ck.conform(exe, 'ArqTrace', 'ArqTrace', [vlib.Seg(k[0], k[1]) for k in KNOWN], name='undisciplined handshake', key=key)
    else:
        # safety only: transmissions at any moment, also during handshakes
        ck.conform(exe, 'ArqTrace', 'ArqTrace', [vlib.Seg(['init 0 0'] + ['%s %d' % (R.choice('sddfxkbn'), R.randint(0, 1)) for _ in range(R.choice([15, 25, 60]))])
            for i in range(20000 if ck.thorough else 1500)], name='free schedules', key=key)
    ck.assumptions += ['channels keep the order of frames', 'while connecting, endpoints (re)transmit only when nothing is in flight (liveness part)',
        'a reset endpoint starts after the frames in flight have died out']

def key(s, i, why):
    return ('script=%s ' % s.meta if s.meta else '') + why
