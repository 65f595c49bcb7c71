"""C19: pollers."""
import os, itertools
import vlib
H = os.path.join(vlib.VERIF, 'harness')
EV = ['I', 'O', 'IO', 'IOP', 'IOEPH', '', 'IH', 'P', 'OE']
def script(R, n, b=None):
    b = b or R.choice(['poll', 'zmq', 'zmq', 'loop', 'old', 'old'])
    L = ['new ' + b]
    kinds = 'cccccccceEa' if b == 'loop' and R.random() < .3 else 'c' if b == 'loop' else 'aaaabb' if b == 'poll' else 'aaabbzzl'
    if b in ('poll', 'zmq') and R.random() < .2: kinds += 'cz'
    N = R.randint(1, 7)
    K, T, live, ready = {}, {}, {}, {}
    for r in range(N):
        K[r] = R.choice(kinds); live[r] = True
        L.append('res %d %s' % (r, K[r]))
    P = {}
    for p in range(R.randint(1, 9)):
        r = R.randrange(N)
        t = R.choice(['fd', 'fl']) if K[r] in 'ab' else 'fd'
        if b == 'old' and any(v == (r, t) for v in P.values()): continue
        P[p] = (r, t)
        e = R.choice(EV)
        if K[r] in 'zl': e = R.choice(['I', 'I', 'IO', 'O', ''])
        L.append('p %d %d %s %s' % (p, r, e or '-', t))
    ps = list(P)
    reg, old = set(), set()
    # the kind of failing pollables is known to the specification only
    for _ in range(n):
        c = R.random(); p = R.choice(ps); r = R.randrange(N)
        useold = b == 'old' and R.random() < .7
        if c < .12:
            if p not in reg and p not in old:
                if useold: L.append('oadd %d %s' % (p, R.choice(EV) or '-')); old.add(p)
                else: L.append('add %d' % p); reg.add(p)
        elif c < .2:
            S = [x for x in ps if x not in reg and x not in old]
            R.shuffle(S); S = S[:R.randint(1, 4)]
            if S:
                L.append('addl ' + ' '.join(map(str, S))); 
                # all or none
                if b == 'loop' or (b == 'poll' and all(K[P[x][0]] not in 'zlc' for x in S)) or (b in ('zmq', 'old') and all(K[P[x][0]] != 'c' for x in S)): reg |= set(S)
        elif c < .28:
            if p in old or (useold and p not in reg): L.append('orem %d' % p); old.discard(p)
            elif p not in old: L.append('rem %d' % p); reg.discard(p)
        elif c < .33 and b == 'old' and p not in reg: L.append('omod %d %s' % (p, R.choice(EV) or '-'))
        elif c < .345: L.append('clr'); reg.clear(); old.clear()
        elif c < .36:
            S = R.sample(ps, min(len(ps), R.randint(0, 4)))
            L.append('ctor ' + ' '.join(map(str, S))); old.clear(); reg.clear()
            if b == 'loop' or (b == 'poll' and all(K[P[x][0]] not in 'zlc' for x in S)) or (b in ('zmq', 'old') and all(K[P[x][0]] != 'c' for x in S)): reg |= set(S)
        elif c < .37: L.append('empty')
        elif c < .38: L.append('resv %d' % R.randint(0, 9))
        elif c < .65:
            k = K[r]
            if k == 'c': L.append('cb %d %s' % (r, R.choice(['I', 'O', 'IO', '-', '-', 'IOEPH', 'x', 'H'])))
            elif k == 'a':
                o = R.choice(['w', 'w', 'w', 'r', 'r', 'c'])
                if o == 'c' and (R.random() < .7 or not live[r]) or o == 'w' and not live[r]: continue
                if o == 'c': live[r] = False
                L.append('%s %d' % (o, r))
            elif k == 'b':
                o = R.choice(['f', 'f', 'r', 'r', 'c'])
                if not live[r] or o == 'c' and R.random() < .6: continue
                if o == 'c': live[r] = False
                L.append('%s %d' % (o, r))
            elif k in 'zl': L.append('%s %d' % (R.choice(['w', 'r']), r))
        else: L.append('poll %d%s' % (R.choice([0, 0, 0, 0, 1]), ' old' if b == 'old' and R.random() < .3 else ''))
    return L + ['poll 0']
def run(ck):
    R = ck.rng
    ck.model('PollerMC', 'PollerMC')
    exe = vlib.build('poll')
    ck.conform(exe, 'PollerTrace', 'PollerTrace', [vlib.Seg(script(R, R.choice([10, 30, 80]))) for _ in range(8000 if ck.thorough else 1600)], name='random')
    # every order of adding and removing some, followed by all combinations of what is pending
    segs = []
    ops = ['add 0', 'add 1', 'add 2', 'rem 0', 'rem 1', 'rem 2', 'clr']
    for b in ('poll', 'zmq', 'loop', 'old'):
        E = [x for k in range(1, 5 if ck.thorough else 4) for x in itertools.product(ops, repeat=k)]
        if not ck.thorough: E += [tuple(R.choice(ops) for _ in range(6)) for _ in range(100)]
        for x in E:
            reg, L = set(), []
            for o in x:
                if o == 'clr': reg.clear()
                elif o.startswith('add'):
                    if o[4] in reg: break
                    reg.add(o[4])
                else: reg.discard(o[4])
                L.append(o)
            else:
                k = 'c' if b == 'loop' else 'a' if b == 'poll' else 'aaz'
                S = ['new ' + b] + ['res %d %s' % (r, k[r % len(k)]) for r in range(3)] + ['p %d %d I fd' % (r, r) for r in range(3)] + L
                for m in R.sample(range(8), 4):
                    for r in range(3):
                        S.append(('cb %d %s' % (r, 'I' if m >> r & 1 else '-')) if b == 'loop' else ('w %d' if m >> r & 1 else 'r %d') % r)
                    S.append('poll 0')
                segs.append(vlib.Seg(S))
    ck.conform(exe, 'PollerTrace', 'PollerTrace', segs, name='short histories')
    ck.assumptions += ['a pollable is registered at most once', 'no invalid file descriptors', 'urgent (PollPri) data is not generated']
