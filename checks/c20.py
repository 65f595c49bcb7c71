"""C20: pipes."""
import os, json, tempfile, shutil
import vlib
from checks import pipegen
H = os.path.join(vlib.VERIF, 'harness')
INT = [0, 1, -1, 2, 126, 127, 128, 129, -127, -128, -129, 254, 255, 256, 32766, 32767, 32768, -32767, -32768, -32769, 65534, 65535, 65536, 2**31 - 1, 2**31, -2**31, -2**31 - 1, 2**32 - 1, 2**32, 2**63 - 1, 2**63 - 2, -2**63, -2**63 + 1, 2**64 - 1]
FLT = ['0.5', '-0.5', '0.49', '1.5', '-1.5', '2.5', '-2.5', '126.5', '127.4', '127.5', '-128.5', '-128.4', '255.4', '255.5', '1e5', '-1e5', '2147483647.5', '2147483646.5', '-2147483648.5', '4294967295.5', '4294967294.5', '1e15', '-1e15', '9e18', '-9e18', '9.3e18', '-9.3e18', '1.8e19', '1.9e19', '1e30', '-1e30', '3e38', '-3e38', '8388607.5', '16777215', '1e-30', '9223372036854775807', '18446744073709549568', '0.99999997']
RNG = {'i8': (-128, 127), 'u8': (0, 255), 'i16': (-32768, 32767), 'u16': (0, 65535), 'i32': (-2**31, 2**31 - 1), 'u32': (0, 2**32 - 1), 'i64': (-2**63, 2**63 - 1), 'll': (-2**63, 2**63 - 1), 'u64': (0, 2**64 - 1)}
def tval(R, t): return R.randint(0, 1) if t == 'b' else R.choice([0, 1, 1, 2, 3, 9]) if t == 'z' else R.choice([0, 1, -1, 127, -128, R.randint(-128, 127)]) if t == 'c' else pipegen.val(R)
def script(R, D, n):
    N = len(D)
    L = []
    for _ in range(n):
        c = R.random(); p = R.randint(1, N); q = R.randint(1, N); d = D[p - 1]
        if c < .45: L.append('inj %d %d %d' % (p, tval(R, d['tin']), R.randint(0, 8)))
        elif c < .55: L.append('ext %d %d' % (p, R.randint(0, 3)))
        elif c < .67: L.append('trg %d %d' % (p, R.randint(0, 3)))
        elif c < .75: L.append('con %d %d %d' % (min(p, q), max(p, q), R.randint(0, 1)))
        elif c < .78: L.append('extend %d %d' % (min(p, q), max(p, q)))
        elif c < .79: L.append('dis %d' % p)
        elif c < .81: L.append('conn %d' % p)
        elif c < .83: L.append('xc %d %d' % (p, tval(R, d['tin'])))
        elif c < .85: L.append('ec %d %d' % (p, tval(R, d['tout'])))
        elif c < .88: L.append('cmp %d %d %d' % (p, tval(R, d['tin']), tval(R, d['tout'])))
        elif c < .92: L.append('obj %d %d' % (R.randint(1, 3), pipegen.val(R)))
        elif c < .97: L.append('tick %d' % R.choice([1, 1, 2, 4, 5, 6, 11]))
        elif c < .98: L.append('gt')
        else: L.append('%s %d %d' % (R.choice(['ga', 'gr']), p, R.randint(0, 1)))
    return L
def run(ck):
    R = ck.rng
    ck.model('PipesMC', 'PipesMC')
    n, tus = (160, 16) if ck.thorough else (48, 8)
    d = tempfile.mkdtemp(prefix='pipes', dir=vlib.BUILD)
    try:
        nets, srcs = [], [H + '/pipes.cpp']
        for t in range(tus):
            body = '#include "pipes.h"\nusing namespace stored::pipes;\n'
            mine = range(t, n, tus)
            for k in mine:
                b, D = pipegen.network(R, k)
                body += b
                nets.append((k, D))
            body += 'void net_%d(int n, std::string const& d)\n{\n\tswitch(n) {\n%s\t}\n}\n' % (t, ''.join('\tcase %d: net%d(d); break;\n' % (k, k) for k in mine))
            if t == 0:
                body += ''.join('void net_%d(int n, std::string const& d);\n' % i for i in range(1, tus))
                body += 'void net(int n, std::string const& d)\n{\n\tswitch(n %% %d) {\n%s\t}\n}\n' % (tus, ''.join('\tcase %d: net_%d(n, d); break;\n' % (i, i) for i in range(tus)))
            f = os.path.join(d, 'net%d.cpp' % t)
            open(f, 'w').write(body)
            srcs.append(f)
        exe = vlib.build('pipes', srcs=srcs, stores=[os.path.join(vlib.VERIF, 'stores', 'PipeStore.st')])
        segs = []
        per = 60 if ck.thorough else 25
        for k, D in nets:
            j = json.dumps(D, separators=(',', ':'))
            for _ in range(per):
                segs.append(vlib.Seg(['net %d %s' % (k, j)] + script(R, D, R.choice([5, 15, 40]))))
        R.shuffle(segs)
        ck.conform(exe, 'PipesTrace', 'PipesTrace', segs, name='networks')
        L = []
        for t, (lo, hi) in RNG.items():
            vs = [v for v in INT if lo <= v <= hi] + [R.randint(lo, hi) for _ in range(20)]
            L += ['sat %s %d' % (t, v) for v in vs]
        L += ['sat %s %s' % (t, v) for t in ('f', 'd', 'ld') for v in FLT + [str(v) for v in INT] + ['%.3f' % R.uniform(-70000, 70000) for _ in range(20)]]
        L += ['sat bool 0', 'sat bool 1']
        ck.conform(exe, 'PipesTrace', 'PipesTrace', [vlib.Seg(['satinit'] + L[i:i + 20]) for i in range(0, len(L), 20)], name='saturated casts')
    finally:
        shutil.rmtree(d)
    ck.assumptions += ['networks without loops', 'scaling by factors of which the result is exact before rounding']
