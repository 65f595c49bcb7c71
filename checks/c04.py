import itertools
import vlib
from checks import framelib as f
def asc(b, all=False):
    o = bytearray()
    for c in b:
        if c in (0, 17, 19, 27, 13) or (all and c < 32): o += bytes([127, c | 64])
        elif c == 127: o += b'\x7f\x7f'
        else: o.append(c)
    return bytes(o)

def exhaustive(t):
    segs = []
    A = [0, 10, 13, 27, 67, 69, 92, 95, 127, 200] if t else [0, 13, 27, 69, 92, 127, 65]
    n = 4 if t else 3
    for st, mtu in (('asc', 0), ('ASC', 0), ('seg:2', 0), ('seg:3', 0), ('seg:0', 4), ('asc term', 0), ('seg:4 asc term', 0), ('buf:2', 0), ('seg:3 buf:2', 0), ('crc8', 5), ('crc16', 6)):
        L = []
        k = 0
        for m in itertools.chain.from_iterable(itertools.product(A, repeat=i) for i in range(n + 1)):
            if not L: L = ['init %d 0 %s' % (mtu, st)]
            k += 1
            L.append('msg %s %s' % (f.hx(bytes(m)), ['', '1', '1 1', '2', '1 0 1'][k % 5]))
            L.append('go %s' % ['', '1', '2', '3 1'][k % 4])
            if len(L) > 120:
                segs.append(vlib.Seg(L)); L = []
        if L: segs.append(vlib.Seg(L))
    return segs

def peer(R):
    """Streams as the specification allows a peer to send them: other choices in what is escaped, CRs inserted, split anywhere."""
    k = R.randint(0, 3)
    if k == 0:
        L = ['init 0 0 %s' % R.choice(['asc', 'ASC'])]
        for _ in range(6):
            b = bytearray()
            for c in f.payload(R, R.randint(0, 20)):
                if c < 32 and (c in (0, 13, 17, 19, 27) or R.random() < .5): b += bytes([127, c | 64])
                elif c == 127: b += b'\x7f\x7f'
                else: b.append(c)
            if R.random() < .4 and b:
                # CRs may be inserted between characters
                i = R.randint(0, len(b) - 1)
                if b[max(0, i - 1)] != 127 and b[:i].count(127) == 0: b[i:i] = b'\r'
            L.append('raw ' + f.hx(bytes(b)))
        return L
    if k == 1:
        L = ['init 0 0 asc term']
        for _ in range(4):
            s = b''
            for _ in range(R.randint(1, 4)):
                if R.random() < .5: s += bytes(R.choice([65, 10, 95, 92]) for _ in range(R.randint(1, 5)))
                if R.random() < .15: s += b'\x1b' + bytes([R.choice([65, 92])])
                s += b'\x1b_' + asc(f.payload(R, R.randint(0, 12)), R.random() < .5) + b'\x1b\\'
            L.append('raw %s %s' % (s.hex(), R.choice(['1', '2', '3', '1 2', '100', '5 1'])))
        return L
    if k == 2:
        L = ['init 0 0 seg:0']
        for _ in range(3):
            n = R.randint(1, 5)
            for i in range(n):
                L.append('raw ' + f.hx(f.payload(R, R.choice([0, 0, 1, 2, 5])) + (b'E' if i == n - 1 else b'C')))
                if R.random() < .1: L.append('raw -')
        return L
    L = ['init 0 0 seg:0 %s' % R.choice(['asc', 'buf:3', 'print'])]
    L.append('msg %s' % f.hx(f.payload(R, 5))); L.append('go'); 
    return L

def run(ck):
    exe = vlib.build('frame')
    t = ck.thorough
    R = ck.rng
    ck.model('FramingCheck', 'FramingCheck2' if t else 'FramingCheck', heap='8g', timeout=1500)
    ck.conform(exe, 'FramingTrace', 'FramingTrace', exhaustive(t), name='exhaustive short messages')
    ck.conform(exe, 'FramingTrace', 'FramingTrace', [vlib.Seg(f.script(R)) for _ in range(20000 if t else 2500)], name='random stacks and messages')
    ck.conform(exe, 'FramingTrace', 'FramingTrace', [vlib.Seg(f.script(R, True)) for _ in range(1500 if t else 150)], name='large messages')
    ck.conform(exe, 'FramingTrace', 'FramingTrace', [vlib.Seg(peer(R)) for _ in range(5000 if t else 500)], name='streams of the specification')
    ck.assumptions += ['messages respect the MTU reported by the stack', 'the payload of the terminal layer is escaped', 'no frame is lost (see C01, C03, C05)']
