"""C18: signals."""
import os, itertools
import vlib
H = os.path.join(vlib.VERIF, 'harness')
def script(R, n):
    T = R.choice(['int', 'ptr', 'arg', 'var', 'slot'])
    L = ['new ' + T]
    nk = 4 if T == 'var' else R.choice([1, 2, 3, 20])
    for _ in range(n):
        c = R.random()
        k, t = R.randint(1, nk), R.choice([0, 0, 1, 2, 3])
        if T == 'slot':
            L.append('%s %d %d %d' % (R.choice(['set', 'set', 'ctor', 'copy', 'cctor', 'move', 'mctor', 'null']), R.randint(0, 2), R.randint(0, 2), R.randint(0, 7)))
        elif c < .4: L.append('conn %d %d %d' % (R.choice([0, k, k, k]), t, R.randint(0, 7)))
        elif c < .43 and T != 'var': L.append('disc')
        elif c < .5: L.append('disck %d' % k)
        elif c < .6: L.append('disct %d %d' % (k, t))
        elif c < .93: L.append('call %d %s %d' % (R.choice([0, k, k]), R.choice(['a', 'abc', 'x' * 40]), R.randint(0, 5)))
        elif c < .97 and T != 'var': L.append('connd %d' % R.choice([0, k]))
        elif T != 'var': L.append('res %d' % R.choice([1, 10, 100]))
    return L
def run(ck):
    R = ck.rng
    ck.model('SignalMC', 'SignalMC')
    st = os.path.join(vlib.VERIF, 'stores', 'Hooks.st')
    exe = vlib.build('signal', srcs=[H + '/signal.cpp'], stores=[st])
    ck.conform(exe, 'SignalTrace', 'SignalTrace', [vlib.Seg(script(R, R.choice([5, 10, 20, 60]))) for _ in range(8000 if ck.thorough else 1500)], name='random')
    # every short history; afterwards all keys are called
    ops = ['conn 0 0 %d', 'conn 1 0 %d', 'conn 1 1 %d', 'conn 2 1 %d', 'disck 1', 'disct 1 0', 'disct 1 1', 'disct 2 1', 'disc']
    E = [x for k in range(1, 5 if ck.thorough else 4) for x in itertools.product(ops, repeat=k)]
    if not ck.thorough: E += [tuple(R.choice(ops) for _ in range(5)) for _ in range(600)]
    segs = [vlib.Seg(['new ' + R.choice(['int', 'ptr', 'arg'])] + [o % R.randint(0, 7) if '%' in o else o for o in x] + ['call %d s 1' % k for k in (0, 1, 2, 3)] + ['connd %d' % k for k in (0, 1, 2)]) for x in E]
    ck.conform(exe, 'SignalTrace', 'SignalTrace', segs, name='short histories')
    ck.assumptions += ['callbacks do not (dis)connect the signal that calls them']
