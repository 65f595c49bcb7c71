import os
import vlib
def value(R, n, last):
    """A value: of every kind of length, with strings that resemble each other."""
    c = R.random()
    if c < .15 and last: return R.choice(last)
    if c < .3 and last: # differs a little
        b = bytearray.fromhex(R.choice(last))
        if b: b[R.randrange(len(b))] = R.choice([0, 1, 0x61, 0x80, 0xff])
        if R.random() < .4: b = b[:R.randint(0, len(b))]
        elif R.random() < .4: b += bytes(R.choice([[0x61], [0], [0x62, 0x63]]))
        v = bytes(b).hex()
    elif c < .5: v = bytes(R.choice([0x61, 0x62, 0, 0x80]) for _ in range(R.choice([0, 1, 2, 3, 5, 6, 7, 8, 9, 19, 20, 21, 25]))).hex()
    elif c < .7: # special values
        v = R.choice(['00000000', '00000080', '0000c07f', '0100c07f', '0000c0ff', '0000807f', '000080ff', '0000000000000000', '0000000000000080', '000000000000f87f', '010000000000f87f', '000000000000f8ff', '01', 'ff', '00', '80', '0100', '0001', 'ffff', '0080', 'ffffffff', '0000000000000001', '0100000000000000', '0000000001000000', 'ffffffffffffffff', '0000000000000000ff'])
    else: v = bytes(R.randint(0, 255) for _ in range(R.choice([1, 2, 4, 8, 8, 16, 20]))).hex()
    last.append(v)
    del last[:-4]
    return v
def script(R, n, nobj):
    L, src, sync, hist = [], R.randint(0, 1), False, {}
    hot = [R.randrange(nobj) for _ in range(R.choice([1, 2, 3, 6]))]
    for _ in range(n):
        o = R.choice(hot) if R.random() < .7 else R.randrange(nobj)
        acc = R.choice(['typed', 'op', 'free', 'buf', 'tvar', 'member', 'member', 'variant', 'variant', 'variant', 'vec', 'cstr', 'dbg'])
        c = R.random()
        s = R.randint(0, 1)
        v = value(R, 0, hist.setdefault(o, []))
        if c < .5: L.append('set %d %d %s %d %s' % (s, o, acc, R.choice([0, 0, 0, 1, 2, 3, 4, 5, 7]), v or '-'))
        elif c < .72: L.append('get %d %d %s %d %s' % (s, o, acc, R.choice([0, 0, 1, 2, 3, 4, 6]), v or '-'))
        elif c < .84: L.append('copy %d %d' % (s, o))
        elif c < .92: L.append('dcmd %d %d %s' % (s, o, R.choice([v or '-', '-'])))
        elif c < .96 or not sync:
            if R.random() < .5 or not sync: L.append('sync %d' % src); sync = True
        else: L.append('proc %d' % s)
        if sync and R.random() < .1: L.append('proc %d' % R.randint(0, 1))
    return L
def exhaustive(R, objs):
    """Every object, every accessor, a fixed list of values of every length."""
    segs = []
    for o in range(objs):
        for acc in ['typed', 'op', 'free', 'buf', 'tvar', 'member', 'variant', 'vec', 'cstr', 'dbg']:
            L = []
            for v in ['-', '61', '6162', '61620063', '6162', '6163', '00', '616263646566', '6162636465666768', '61626364656667686970', '61' * 19, '61' * 20, '61' * 21, '80ff', 'ffffffffffffffff', '00' * 8, '00' * 20, '0000c07f', '0000000000000080', '01' * 8, '01' * 7 + '02', '02' + '01' * 7]:
                for k in (0, 1):
                    L.append('set 0 %d %s %d %s' % (o, acc, k, v))
                    L.append('get 0 %d %s %d %s' % (o, acc, k, v))
                L.append('copy 0 %d' % o)
            segs.append(vlib.Seg(L))
    return segs
def run(ck):
    R = ck.rng
    st = [os.path.join(vlib.VERIF, 'stores', 'Hooks.st')]
    for name, cfg, ga in (('native byte order', 'config', ()), ('swapped byte order, no unaligned access', 'config_be', ('-b',))):
        exe = vlib.build('hooks', stores=st, cfg=cfg, genargs=ga)
        segs = [vlib.Seg(script(R, R.choice([15, 40, 80]), 36)) for _ in range(3000 if ck.thorough else 250)]
        ck.conform(exe, 'HooksTrace', 'HooksTrace', exhaustive(R, 36) + segs, name=name)
    ck.assumptions += ['writes through a synchronizer do not call the entry and exit hooks: the store does not get exclusive access (documented in the code); objects received run their change callback even when the content happens to be the same']
