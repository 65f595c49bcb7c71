"""C17: scratch pad."""
import os, itertools
import vlib
H = os.path.join(vlib.VERIF, 'harness')
def rank(seg):
    A = sorted({int(e[k]) for e in seg.events if e['e'] == 'alloc' for k in 'pq'})
    ix = {a: i for i, a in enumerate(A)}
    for e in seg.events:
        if e['e'] == 'alloc': e['p'], e['q'] = ix[int(e['p'])], ix[int(e['q'])]
def alloc(R, m):
    t = R.choice('c c c h w q q 3 6 24'.split())
    n = R.choice([0, 1, 1, 1, 2, 3, 5, 8, 9, R.randint(0, 40), R.randint(0, 300)])
    if R.random() < .04: n = R.choice([m // 2, m // 2 + 1, m - 1, m, m + 1, 65536, 70000, 40000]) // {'c': 1, 'h': 2, 'w': 4, 'q': 8, '3': 3, '6': 6, '24': 24}[t] % 200000
    if R.random() < .01: return 'alloc huge %d' % R.randint(1, 4)
    return 'alloc %s %d %d' % (t, n, R.choice([0, 0, 0, 1, 2, 4, 8, 16]) if t in 'chwq' else 0)
def script(R, n):
    m = R.choice([65535, 65535, 0x7fffffff, 255, 100])
    L = ['new %d %d' % (m, R.choice([0, 0, 8, 16, 64, 100, 1000, m // 2 % 100000]))]
    period = None
    for _ in range(n):
        c = R.random()
        if c < .45: L.append(alloc(R, m))
        elif c < .6: L.append('fill %d' % R.choice([0, 0, 0, -1, 1, -8, -9, -3, 5, 100]))
        elif c < .73: L.append('snap')
        elif c < .83: L.append('roll %d' % R.randint(0, 4))
        elif c < .86: L.append('drop %d' % R.randint(0, 4))
        elif c < .88: L.append(R.choice(['move %d %d', 'move %d %d', 'mctor %d', 'cctor %d']).replace('%d', '{}').format(R.randint(0, 4), R.randint(0, 4)))
        elif c < .92: L.append('reset')
        elif c < .97: L.append('reserve %d' % R.choice([0, 1, 8, 60, 100, 500, 70000]))
        else: L.append('shrink')
    if R.random() < .3: # the same again
        P = [alloc(R, m) for _ in range(R.randint(1, 6))]
        for _ in range(3): L += P + ['reset']
    return L
OPS = ['alloc c 1', 'alloc q 1', 'alloc c 90', 'fill 0', 'fill -1', 'fill 1', 'snap', 'roll 0', 'roll 1', 'drop 0', 'reset', 'reserve 40', 'shrink', 'move 1 0', 'move 0 1', 'mctor 0']
def run(ck):
    R = ck.rng
    ck.model('Spm', 'Spm')
    if ck.thorough: ck.model('Spm', 'Spm2', timeout=3000)
    for name, cfg in (('debug', ()), ('without assertions', ('-DNDEBUG',))) if ck.thorough else (('debug', ()),):
        exe = vlib.build('spm', srcs=[H + '/spm.cpp'], extra=cfg)
        segs = [vlib.Seg(script(R, R.choice([4, 8, 15, 30, 60]))) for _ in range(6000 if ck.thorough else 1200)]
        ck.conform(exe, 'SpmTrace', 'SpmTrace', segs, name='random, ' + name, post=rank)
        E = [list(x) for k in (1, 2, 3) for x in itertools.product(OPS, repeat=k)]
        if ck.thorough: E += [list(x) for x in itertools.product(OPS, repeat=4)]
        else: E = R.sample(E, 1400)
        segs = []
        for x in E:
            p = ['new 65535 %d' % R.choice([0, 8, 100])] + R.choice([['alloc q 1'], ['alloc c 3'], ['alloc q 1', 'fill 0'], ['alloc q 1', 'reserve 100']]) + ['snap']
            segs.append(vlib.Seg(p + x + ['alloc c 3', 'roll 0', 'alloc q 2', 'reset', 'alloc c 9']))
        ck.conform(exe, 'SpmTrace', 'SpmTrace', segs, name='short histories, ' + name, post=rank)
    ck.assumptions += ['64-bit target', 'failing memory allocation of the system is not injected']
