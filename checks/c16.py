import os
import vlib
H = os.path.join(vlib.VERIF, 'harness')
FIFO = ['fifo u8 1', 'fifo u8 3', 'fifo u32 2', 'fifo pod 2', 'fifo u32 4']
MSG = [('msg 6 2', 6), ('msg 8 3', 8), ('msg 10 4', 10)]
def put(R, kind, cap):
    if kind == 'fifo':
        n = R.choice([1, 1, 1, 2, R.randint(1, cap)])
        return ['put %d %d' % (n, R.randint(0, 4))]
    if kind == 'msg':
        n = R.choice([0, 1, 2, 3, R.randint(0, cap - 1), cap - 1])
        c = R.random()
        if c < .6: return ['push %d' % n]
        if c < .7: return ['full']
        if c < .9: return ['app %d' % (n // 2), 'app %d' % ((n + 1) // 2), 'done']
        return ['app %d' % n, 'reset']
    n = R.choice([0, 1, 2, 3, R.randint(0, cap - 1)])
    return ['enc %d 1' % n] if R.random() < .6 else ['enc %d 0' % (n // 2), 'enc %d 1' % ((n + 1) // 2)]
def take(R, kind): return 'pop %d' % R.randint(0, {'fifo': 6, 'msg': 2, 'loop': 1}[kind])
def scenario(R, np, nc):
    kind = R.choice(['fifo', 'fifo', 'msg', 'msg', 'msg', 'loop'])
    key, cap = (lambda k: (k, int(k.split()[-1])))(R.choice(FIFO)) if kind == 'fifo' else R.choice(MSG) if kind == 'msg' else ('loop 8 3', 8)
    P = [x for _ in range(np) for x in put(R, kind, cap)]
    C = [take(R, kind) for _ in range(nc)]
    return ['new ' + key] + ['P ' + x for x in P] + ['C ' + x for x in C]
def run(ck):
    R = ck.rng
    ck.model('SpscMC', 'SpscMC')
    ck.model('SpscMsg', 'SpscMsg')
    if ck.thorough:
        ck.model('SpscMC', 'SpscMC2')
        ck.model('SpscMsg', 'SpscMsg2')
    k = 8 if ck.thorough else 1
    for name, cfg in (('with assertions', []), ('without assertions', ['-DNDEBUG'])):
        exe = vlib.build('spsc', srcs=[H + '/spsc.cpp', H + '/tsanrt.cpp'], san='plain', extra=('-Wl,--wrap=memcpy', '-Wl,--wrap=memmove', '-Wl,--wrap=memset'),
            srcflags={'spsc.cpp': ['-fsanitize=thread', '-U_FORTIFY_SOURCE'] + cfg})
        segs = []
        for _ in range(500 * k):
            s = scenario(R, R.choice([2, 4, 8, 14]), R.choice([2, 4, 8, 14]))
            segs.append(vlib.Seg(s + ['go %d %d %d %d' % (R.randint(1, 1 << 30), R.choice([5, 20, 50]), R.choice([0, 20, 50, 80]), R.randint(1, 2))]))
        # few deviations from running to completion, systematically
        for _ in range(6 * k):
            s = scenario(R, 3, 3)
            first = R.randint(1, 2)
            segs += [vlib.Seg(s + ['go 0 0 0 %d %d' % (first, i)]) for i in range(24)]
            segs += [vlib.Seg(s + ['go 0 0 0 %d %s' % (first, ' '.join(str(x) for x in sorted(R.sample(range(30), R.choice([2, 3, 3, 4])))))]) for i in range(30)]
        ck.conform(exe, 'FifoRace', 'FifoRace', segs, name=name)
    ck.assumptions += ['the memory model is that of C++11 without dependency ordering (consume is acquire, as compilers do); a load may return an older value of the modification order, but no thin-air values; one thread only uses the producer operations and the other only those of the consumer']
