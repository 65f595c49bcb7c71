import vlib
FIFO = [0, 1, 2, 3, 8, 127, 130, 254, 255, 300]
SAFE = {1, 2, 8, 127, 130, 254, 300}
MSG = [(0, 0, 0), (0, 3, 0), (16, 0, 0), (2, 2, 1), (3, 1, 1), (8, 2, 1), (10, 4, 1), (16, 16, 0), (64, 8, 1), (128, 40, 1), (200, 5, 1), (255, 40, 1), (256, 300, 1), (300, 200, 1)]
LOOP = [(4, 2), (10, 4), (64, 8), (255, 40)]
def fifo(R, n):
    c = R.choice(FIFO)
    L = ['new fifo %s %d %d' % (R.choice(['u8', 'int', 'string', 'pod', 'vector']), c, c in SAFE)]
    big = (c or R.choice([3, 80, 150])) + 1
    if big > 100: n //= 4
    x, way = 0, R.choice([.5, .5, .7])
    for _ in range(n):
        r = R.random()
        if R.random() < .03: way = R.choice([.3, .5, .7])
        m = R.choice([0, 1, 1, 2, 3, big // 2, R.randint(0, big), big])
        if r < .8:
            if R.random() < way: L.append('put %d %d %d' % (R.randint(0, 4), x, m)); x += m
            else:
                L.append(R.choice(['pop', 'pop %d' % m, 'pop %d' % m, 'iter %d %d' % (m, R.choice([0, 0, 2])), 'iter 0 1' if R.random() < .2 else 'pop 1']))
        elif r < .95: L.append('view %d %d %d' % (R.randint(0, 4), R.choice([0, 1, R.randint(0, big)]), R.choice([0, 1, R.randint(0, big), big])))
        elif r < .98: L.append('poke %d %d %d' % (R.randint(0, big), x, R.randint(0, 2))); x += 1
        elif R.random() < .3: L.append('clear')
    return vlib.Seg(L)
def length(R, cap):
    return R.choice([0, 0, 1, 1, 2, R.randint(0, cap), R.randint(0, max(1, cap // 2)), R.randint(0, max(1, cap // 3)), max(0, cap - 1), max(0, cap - 2), cap, cap + 1])
def msg(R, n):
    c, m, s = R.choice(MSG)
    L = ['new msg %d %d %d' % (c, m, s)]
    cap = c or R.choice([3, 20, 100])
    if cap > 100: n //= 2
    way = .5
    small = R.random() < .5
    for i in range(n):
        r = R.random()
        if R.random() < .05: way = R.choice([.3, .5, .7])
        k = length(R, max(1, cap // R.choice([2, 3])) if small and R.random() < .8 else cap)
        if r < .9:
            if R.random() < way:
                L.append(R.choice(['push %d %d %d' % (i, k, i % 2), 'push %d %d %d' % (i, k, i % 2), 'app %d %d %d' % (i, k // 2, i % 2), 'app %d %d %d' % (i, k, i % 2), 'done', 'reset %d' % (i % 2) if R.random() < .4 else 'done',
                    'pushn %d %d %s' % (i, i % 2, ' '.join(str(length(R, max(1, cap // 3)) % cap if c else length(R, 20)) for _ in range(R.randint(1, 3)))) if R.random() < .3 else 'push %d %d 0' % (i, k)]))
            else: L.append(R.choice(['pop', 'pop', 'pop', 'iter %d 0' % R.randint(0, 3) if R.random() < .5 else 'pop']))
        elif r < .93: L.append('iter 0 1')
        elif r < .95: L.append('clear')
    return vlib.Seg(L)
def nothrow(seg):
    """Lists of messages are only pushed when nothing is in progress: a message that is too long is an exception, of which the count gets lost."""
    out, partial = [], False
    for x in seg.lines:
        w = x.split()[0]
        if w == 'app': partial = True
        if w in ('reset', 'clear'): partial = False
        if w == 'pushn':
            if partial: out.append('reset 0')
            partial = False
        out.append(x)
    return vlib.Seg(out)
def loop(R, n):
    c, m = R.choice(LOOP)
    L = ['new loop %d %d' % (c, m), 'mtu']
    left = 0
    for i in range(n):
        r = R.random()
        if r < .65:
            if left == 0: left = R.choice([0, 1, R.randint(0, c), R.randint(0, max(1, c // 3)), c - 1, c])
            k = R.choice([0, left, left, R.randint(0, left)])
            last = R.random() < (.8 if k == left else .1)
            L.append('enc %d %d %d' % (i, k, last))
            left = 0 if last else left - k
            if not last and left == 0: L.append('enc %d 0 1' % i)
        elif r < .92: L.append('recv %d' % (R.random() < .1))
        elif r < .94: L.append('lreset')
        elif r < .95: L.append('mtu')
        elif r < .97: L.append('handler %d' % R.randint(0, 1))
    return vlib.Seg(L)
def sane(t, cap):
    """No message that can never fit, which is an exception."""
    n = 0
    for x in t:
        w = x.split()
        if w[0] == 'enc':
            n += int(w[2])
            if n > cap: return False
            if w[3] == '1': n = 0
    return True
def exhaustive(R, cap, key, depth, ops):
    """All sequences of depth operations."""
    segs = []
    import itertools
    for t in itertools.product(ops, repeat=depth):
        if not sane(t, cap): continue
        segs.append(vlib.Seg(['new ' + key] + list(t)))
    return segs
def run(ck):
    R = ck.rng
    ck.model('FifoCheck', 'FifoCheck')
    if ck.thorough: ck.model('FifoCheck', 'FifoCheck2')
    exe = vlib.build('fifo')
    k = 6 if ck.thorough else 1
    segs = [fifo(R, R.choice([30, 60, 120])) for _ in range(400 * k)]
    segs += [nothrow(msg(R, R.choice([30, 60, 150]))) for _ in range(900 * k)]
    segs += [loop(R, R.choice([30, 60, 120])) for _ in range(300 * k)]
    ck.conform(exe, 'FifoTrace', 'FifoTrace', segs, name='random')
    ex = exhaustive(R, 2, 'fifo int 2 1', 5 if ck.thorough else 4, ['put 0 1 1', 'put 4 5 2', 'pop', 'pop 2', 'view 2 1 1'])
    ex += exhaustive(R, 8, 'msg 8 2 1', 5 if ck.thorough else 4, ['push 1 0', 'push 2 3', 'push 3 4', 'app 4 2', 'done', 'pop'] + (['reset'] if ck.thorough else []))
    ex += exhaustive(R, 4, 'loop 4 2', 5 if ck.thorough else 4, ['enc 1 1 1', 'enc 2 2 0', 'enc 3 3 1', 'enc 4 0 1', 'recv'])
    ck.conform(exe, 'FifoTrace', 'FifoTrace', ex, name='exhaustive')
    ck.assumptions += ['used by one context here (two threads: C16); elements are put in a Fifo only when there is room, as is required']
