import vlib
SPECIAL = [0, 10, 13, 17, 19, 27, 67, 69, 92, 95, 127, 31, 32, 255]
def payload(R, n):
    k = R.random()
    if k < .4: return bytes(R.choice(SPECIAL) for _ in range(n))
    if k < .7: return bytes(R.randint(0, 255) for _ in range(n))
    if k < .8: return bytes([R.choice(SPECIAL)]) * n
    return bytes(R.choice([R.randint(0, 255), R.choice(SPECIAL)]) for _ in range(n))
def hx(b): return b.hex() if b else '-'

STACKS = [['asc'], ['ASC'], ['seg:0'], ['seg:2'], ['seg:3'], ['seg:7'], ['seg:16'], ['crc8'], ['crc16'], ['buf:0'], ['buf:4'], ['buf:1'], ['print'],
    ['asc', 'term'], ['ASC', 'term'], ['seg:0', 'asc', 'term'], ['seg:5', 'ASC', 'term'], ['seg:9', 'crc8', 'asc', 'term'], ['crc16', 'asc', 'term', 'buf:8'],
    ['seg:0', 'crc16', 'asc', 'term'], ['seg:0', 'crc8'], ['seg:20', 'crc16', 'buf:6'], ['asc', 'seg:6', 'crc8', 'print'], ['buf:5', 'seg:4'], ['seg:0', 'crc16', 'ASC', 'term', 'print'],
    ['asc', 'crc8'], ['asc', 'crc16'], ['seg:12', 'buf:3', 'crc8', 'buf:2', 'asc', 'term', 'buf:0'], ['crc8', 'crc16'], ['asc', 'ASC']]
def rand_stack(R):
    if R.random() < .6: return R.choice(STACKS)
    st = []
    if R.random() < .6: st.append('seg:%d' % R.choice([0, 2, 3, 5, 8, 30, 254]))
    for x in ('buf:%d' % R.choice([0, 1, 3, 10]), R.choice(['crc8', 'crc16']), 'print', 'buf:%d' % R.choice([0, 2, 7])):
        if R.random() < .4: st.append(x)
    if R.random() < .6: st += [R.choice(['asc', 'ASC'])] + (['term'] if R.random() < .7 else [])
    if R.random() < .2: st.append('buf:%d' % R.choice([0, 5]))
    return st or ['asc']
def name(x): return x.split(':')[0]

def up_mtu(st, m):
    """The documented MTUs (only used to know the size of messages that may be sent)."""
    for x in reversed(st):
        n = name(x)
        if n in ('asc', 'ASC'): m = 0 if m == 0 else max(1, m // 2)
        elif n == 'term': m = 0 if m == 0 else max(1, m - 4)
        elif n == 'crc8': m = 256 if m == 0 or m > 256 else max(1, m - 1)
        elif n == 'crc16': m = 256 if m == 0 or m > 256 else max(1, m - 2)
        elif n == 'seg': m = 0
    return m

def script(R, big=False):
    st = rand_stack(R)
    names = [name(x) for x in st]
    mtu = R.choice([0, 0, 0, 2, 3, 5, 7, 16, 16, 20, 33, 64, 300])
    minm = sum({'asc': 0, 'ASC': 0, 'term': 4, 'crc8': 1, 'crc16': 2}.get(n, 0) for n in names)
    for n in names:
        if n in ('asc', 'ASC'): minm = max(2, minm * 2)
    if 'seg' in names: minm = max(16, minm * 2) if len(names) > 1 else 2
    if mtu and mtu < minm + 1: mtu = R.choice([0, 64])
    if mtu and len([n for n in names if n in ('crc8', 'crc16', 'asc', 'ASC', 'term')]) > 1 and mtu < 33: mtu = 64
    loop = 0 if 'term' in names else R.choice([0, 0, 0, 1])
    L = ['init %d %d %s' % (0 if loop else mtu, loop, ' '.join(st))]
    if loop: mtu = 0
    mx = up_mtu(st, mtu)
    if mx == 0: mx = 600 if big else 60
    for _ in range(R.choice([1, 2, 4, 8]) if not big else 2):
        if not loop and R.random() < .08: L.append('part %s %d' % (hx(payload(R, min(mx, R.choice([1, 2, 7])))), R.randint(0, 1)))
        n = R.choice([0, 1, 2, 3, mx, mx - 1, R.randint(0, mx), R.randint(0, mx)])
        n = max(0, min(n, mx))
        if not big: n = min(n, 70) if R.random() < .9 else n
        parts = []
        for _ in range(R.choice([0, 0, 1, 2, 5])):
            parts.append(R.choice([0, 1, 1, 2, 3, 7, n]))
        if 'term' in names and R.random() < .4:
            L.append('nd %s' % (bytes(R.choice([65, 10, 92, 95, 13, 27, 200]) for _ in range(R.randint(1, 6))) + b'x').replace(b'\x1b', b'\x1bA').hex())
        L.append('msg %s %s' % (hx(payload(R, n)), ' '.join(map(str, parts))))
        if R.random() < .5:
            L.append(go(R, names))
    L.append(go(R, names))
    return L
def go(R, names):
    c = R.choice(['', '1', '2', '1 2 3', '5 1', '64', '3 1 1'])
    ok = 'term' in names and 'ASC' not in names and not any(n in ('crc8', 'crc16', 'seg') for n in names[names.index('asc'):] if 'asc' in names)
    return ('crlf ' if ok and R.random() < .3 else 'go ') + c
