import vlib
from checks import framelib as f

def corrupt(R):
    """Frames of the real encoder or the specification, damaged in all kinds of ways; the trace spec knows which are still valid."""
    st = R.choice([['crc8'], ['crc16'], ['crc8'], ['crc16'], ['seg:6', 'crc8'], ['seg:0', 'crc16'], ['crc8', 'buf:3'], ['asc', 'crc16'], ['crc16', 'seg:5']])
    L = ['init %d 0 %s' % (R.choice([0, 20, 64]), ' '.join(st))]
    for _ in range(R.randint(2, 8)):
        k = R.random()
        if st[0][:3] != 'seg' and 'seg:5' not in st and R.random() < .15: L.append('part ' + f.hx(f.payload(R, R.choice([1, 1, 2, 7]))))
        if k < .5:
            L.append('msg %s %s' % (f.hx(f.payload(R, R.choice([0, 1, 2, 5, 9]))), R.choice(['', '1', '1 1', '2'])))
            L.append('go')
        elif st[-1] == 'crc8' or st[-1] == 'crc16':
            n = len(st) > 1
            p = f.payload(R, R.choice([0, 0, 1, 2, 5, 20, 100])) + (b'E' if st[0][:3] == 'seg' else b'')
            c = crc8(p) if st[-1] == 'crc8' else crc16(p)
            fr = bytearray(p + c)
            w = R.random()
            if w < .25: pass
            elif w < .5: fr[R.randrange(len(fr))] ^= 1 << R.randint(0, 7)
            elif w < .6:
                for _ in range(R.randint(2, 6)): fr[R.randrange(len(fr))] ^= R.randint(1, 255)
            elif w < .7: fr = fr[:R.randint(0, len(fr) - 1)]
            elif w < .8: fr += bytes([R.randint(0, 255)])
            elif w < .85: fr = fr[::-1]
            elif w < .9: fr = bytearray([0] * R.randint(0, 6))
            else: fr = bytearray(f.payload(R, R.randint(0, 3)))
            L.append('raw ' + f.hx(bytes(fr)))
    return L
def crc8(m):
    c = 255
    for b in m:
        c ^= b
        for _ in range(8): c = ((c << 1) ^ (0x1a6 if c & 128 else 0)) & 255
    return bytes([c])
def crc16(m):
    c = 0xffff
    for b in m:
        c ^= b << 8
        for _ in range(8): c = ((c << 1) ^ (0x1baad if c & 0x8000 else 0)) & 0xffff
    return bytes([c >> 8, c & 255])

def key(s, i, why): return ('script=%s ' % s.meta if s.meta else '') + why

def run(ck):
    exe = vlib.build('frame')
    t = ck.thorough
    R = ck.rng
    ck.model('FramingCheck', 'CrcCheck2' if t else 'CrcCheck', heap='8g', timeout=3000)
    ck.conform(exe, 'FramingTrace', 'FramingTrace', [vlib.Seg(corrupt(R)) for _ in range(20000 if t else 3000)], name='damaged frames')
    I = ['init 0 0 crc8']
    segs = []
    for n in (0, 1, 2, 7, 31, 100, 255, 256): segs.append(vlib.Seg(I + ['burst 8 %d %d 8' % (n, ck.rng.randint(1, 999))]))
    for n in (0, 1, 2, 5): segs.append(vlib.Seg(I + ['burst 16 %d %d 16' % (n, R.randint(1, 999))]))
    for n in (20, 254, 256): segs.append(vlib.Seg(I + ['burst 16 %d %d %d' % (n, R.randint(1, 999), 12 if n < 50 else 13 if t else 8)]))
    for n in (0, 3, 14, 60, 150) + ((256,) if t else ()): segs.append(vlib.Seg(I + ['double 8 %d %d' % (n, R.randint(1, 999)), 'double 16 %d %d' % (n, R.randint(1, 999))]))
    ck.conform(exe, 'FramingTrace', 'FramingTrace', segs, name='bursts and pairs of flipped bits', seg_timeout=120)
    ck.conform(exe, 'FramingTrace', 'FramingTrace', [vlib.Seg(I + ['burst 8 40 5 8 1'], 'crc8-weak-burst'), vlib.Seg(I + ['double 8 40 5 0 1'], 'crc8-weak-double')], name='known weakness of the polynomial', key=key)
    ck.assumptions += ['frames up to 256 bytes of payload']
