"""C21: protocol layers of the Python client and those of C++."""
import os
import vlib
from checks import framelib as f
STACKS = [s for s in f.STACKS if all(f.name(x) in ('asc', 'term', 'seg', 'crc8', 'crc16') for x in s)]
def frames(R):
    st = R.choice(STACKS)
    if R.random() < .3:
        st = (['seg:%d' % R.choice([0, 2, 3, 9, 40])] if R.random() < .6 else []) + ([R.choice(['crc8', 'crc16'])] if R.random() < .6 else []) + (['asc', 'term'] if R.random() < .6 else [])
        st = st or ['asc']
    names = [f.name(x) for x in st]
    mtu = R.choice([0, 0, 16, 20, 33, 64, 300])
    who = R.choice(['py', 'c'])
    if who == 'py' and any(x[:4] == 'seg:' and x != 'seg:0' for x in st): mtu = 0  # a size that is set, also beyond the MTU, is used as is
    mx = f.up_mtu(st, mtu) or 60
    L = ['new %s %d %s' % (who, mtu, ' '.join(st))]
    for _ in range(R.choice([1, 3, 6])):
        n = max(0, min(mx, R.choice([0, 1, 2, 3, mx, mx - 1, R.randint(0, mx), R.randint(0, mx)])))
        if 'term' in names and R.random() < .4:
            L.append('nd %s' % (bytes(R.choice([65, 10, 92, 95, 200]) for _ in range(R.randint(1, 6))) + b'x').hex())
        L.append('msg %s' % f.hx(f.payload(R, n)))
        if R.random() < .4: L.append('go ' + R.choice(['', '1', '2', '1 2 3', '5 1', '64', '3 1 1']))
    return L + ['go ' + R.choice(['', '1', '2', '4 1'])]
ARQ = ['seg:0 arq', 'seg:0 arq crc16', 'seg:0 arq crc8 asc term', 'seg:0 arq asc term', 'seg:8 arq', 'seg:0 arq crc16 asc term', 'seg:20 arq crc8']
def arq(R, n):
    L = ['new arq %d %s' % (R.choice([0, 0, 24, 24, 40, 100]), R.choice(ARQ))]
    if 'seg:20' in L[0] or 'seg:8' in L[0]: L[0] = L[0].replace(L[0].split()[2], '0', 1)
    def req():
        k = R.choice([0, 1, 2, 10, 40, 63, 130, 255])
        return 'req ' + f.hx(bytes([k]) + f.payload(R, R.choice([0, 1, 3, 10, 30, 60])))
    calm = R.random() < .3
    for _ in range(n):
        c = R.random()
        if c < .25: L.append(req())
        elif c < .6: L.append('d %d %s' % (R.randint(0, 1), R.choice(['', '', '1', '3 1'])))
        elif c < .7 and not calm: L.append('lose %d' % R.randint(0, 1))
        elif c < .75 and not calm: L.append('dup %d' % R.randint(0, 1))
        elif c < .83: L.append('timeout')
        elif c < .85: L.append('restart')
        elif c < .92: L.append('fair')
        elif c < .93: L.append('seq %d' % R.choice([0, 1, 63, 64, 127, 128, 8191, 8192, 16383, 1048575, 1048576, 134217727, 134217728, R.randint(0, 134217727)]))
        else: L += [req(), 'd 0', 'd 0', 'd 1']
    return L + ['fair', req(), 'fair', req(), 'fair']
def short(depth):
    """All schedules of a handshake and two requests."""
    ops = ['d 0', 'd 1', 'lose 0', 'lose 1', 'dup 0', 'timeout']
    segs = []
    def go(p):
        if len(p) == depth:
            segs.append(vlib.Seg(['new arq 24 seg:0 arq crc16', 'req 4001020304050607080910111213141516171819202122232425'] + list(p) + ['fair', 'req 0a0b0c', 'd 0', 'lose 1', 'fair', 'req 0a0d', 'fair']))
            return
        for o in ops: go(p + (o,))
    go(())
    return segs
def run(ck):
    R = ck.rng
    t = ck.thorough
    exe = vlib.build('interop')
    py = os.path.join(vlib.VERIF, 'harness', 'pyproto.py')
    args = [os.path.join(vlib.REPO, 'python', 'libstored', 'protocol.py'), exe]
    ck.model('FramingCheck', 'FramingCheck', heap='8g', timeout=1500)
    ck.model('DebugArq', 'DebugArq')
    ck.conform(py, 'FramingTrace', 'FramingTrace', [vlib.Seg(frames(R)) for _ in range(10000 if t else 1500)], name='messages between Python and C++', args=args)
    ck.conform(py, 'InteropTrace', 'InteropTrace', [vlib.Seg(arq(R, R.choice([10, 30, 60]))) for _ in range(8000 if t else 1200)], name='requests of Python to C++', args=args)
    ck.conform(py, 'InteropTrace', 'InteropTrace', short(6 if t else 4), name='short schedules', args=args)
    ck.conform(py, 'InteropTrace', 'InteropTrace', [vlib.Seg(['new arq %d %s' % (m, s), 'many %d' % n]) for m, s, n in [(0, 'seg:0 arq', 8500), (40, 'seg:0 arq crc16', 300), (0, 'seg:0 arq asc term', 300)]], name='many requests', args=args)
    ck.assumptions += ['crcmod and zmq are not installed: the CRC function of crcmod is a stand-in in the harness, the polynomials are those of the code', 'channels do not reorder frames; clients wait for a response before the next request']
