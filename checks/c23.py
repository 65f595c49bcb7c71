"""C23: OS-level channels."""
import os
import vlib
H = os.path.join(vlib.VERIF, 'harness')
KINDS = ['fd', 'sock', 'file', 'fifo', 'dpipe', 'xsim', 'lo', 'zmq', 'stdio', 'req']
def script(R, n, kind):
    buf = 128 if kind in ('fifo', 'dpipe', 'xsim') else R.choice([1, 2, 7, 16, 128])
    L = ['new %s %d' % (kind, buf)]
    if kind == 'req':
        for _ in range(n // 4):
            if R.random() < .1: L.append('zfail')
            P = [R.choice([0, 1, 5, 40]) for _ in range(R.choice([1, 1, 2, 3]))]
            Q = [R.choice([0, 1, 2, 50]) for _ in range(R.choice([0, 1, 1, 1, 2, 4]))]
            L.append('req %d %s %s' % (len(P), ' '.join(map(str, P)), ' '.join(map(str, Q))))
        return L
    if kind == 'stdio':
        for _ in range(n // 5):
            k = R.choice([0, 1, 10, 128, 129, 1000, 5000])
            k = R.choice([k, R.randint(0, 300), 70000]) or 3
            L.append(('big 1 %d 1' if k > 5000 or R.random() < .5 else 'drain 1 %d 1') % k)
        return L
    drops = R.random() < .5
    alive, av, tot, part, opened = [1, 1], [0, 0], [0, 0], [0, 0], [0, 0]
    fifo = kind in ('fifo', 'dpipe', 'xsim')
    def amount(s):
        k = R.choice([0, 1, 1, 2, 3, 5, 8, buf - 1, buf, buf + 1, R.randint(0, 30)] if drops else [0, 1, 2, 9, buf - 1, buf, buf + 1, 2 * buf + R.randint(-1, 1), 3 * buf, R.randint(0, 500), 2000])
        k = max(0, k)
        return min(k, 230 - tot[s]) if drops else k if av[s] + k < 20000 else 0
    def enc(s, k):
        tot[s] += k
        if alive[1 - s]: av[s] += k; opened[s] = 1
        else: opened[s] = 0
    for _ in range(n):
        c = R.random()
        s = R.randrange(2)
        if kind == 'fifo' and c < .5: s = 0
        if not alive[s]:
            if kind in ('file', 'fifo', 'dpipe', 'xsim') and R.random() < .5:
                L.append('make %d' % (s + 1)); alive[s] = 1; opened[s] = 0
                if kind == 'file': av[1 - s] = tot[1 - s]
                continue
            s = 1 - s
        if c < .5:
            if kind == 'fifo' and s == 1: continue
            k = amount(s)
            last = 1
            if kind in ('lo', 'zmq') and alive[1 - s]: last = int(R.random() < .6)
            if kind == 'fd' and R.random() < .5 or fifo or kind in ('sock', 'file'):
                if R.random() < .1: L.append('again %d' % R.randint(1, 2))
                if R.random() < .2: L.append('short %d' % R.randint(1, 9))
                if kind in ('fd', 'sock', 'file', 'fifo', 'dpipe') and alive[1 - s] and drops and R.random() < .06: L.append('wfail')
            if kind == 'zmq' and R.random() < .1 and alive[1 - s]: L.append('zfail')
            L.append('enc %d %d %d' % (s + 1, k, last))
            part[s] = not last
            enc(s, k)
            if 'wfail' in L[-2:-1]: opened[s] = 0
            if kind == 'lo': continue
        elif c < .8:
            if kind == 'lo' or kind == 'fifo' and s == 0: continue
            if kind in ('fd', 'sock', 'file') and R.random() < .02: L.append('rfail')
            L.append('rcv %d %d' % (s + 1, R.choice([0, 0, 0, 0, 0, 0, 1, 1500]) if kind != 'zmq' else 0))
            av[1 - s] = 0 if kind == 'zmq' else max(0, av[1 - s] - buf)
        elif c < .82 and kind != 'lo':
            # a timeout, or somebody sends in the mean time
            f = 'wfail' in L or 'rfail' in L
            if kind == 'file' or f or not alive[1 - s] or kind == 'fifo' and s == 0 or fifo and not opened[1 - s] or kind == 'xsim' or drops or part[1 - s]: continue
            k = R.choice([1, 2, 5, buf])
            L.append('wait %d %d %d %d' % (s + 1, k, R.choice([0, 2, 10]), R.choice([-1, -1, 60000000])))
            enc(1 - s, k); av[1 - s] = max(0, av[1 - s] - buf) if kind != 'zmq' else 0
        elif c < .84:
            if drops and kind in ('fd', 'sock', 'file', 'fifo', 'dpipe', 'xsim', 'zmq'):
                if kind == 'zmq' and any(part): continue
                if kind in ('xsim', 'zmq'): s = 1
                if alive[0] and alive[1]: L.append('drop %d' % (s + 1)); alive[s] = 0; opened[s] = 0
        elif c < .86:
            if fifo and alive[s] and (kind != 'fifo' or s == 0): L.append('reopen %d' % (s + 1))
        elif c < .87:
            if kind == 'lo' and drops or kind == 'xsim': L.append('reset %d' % (1 if kind == 'xsim' else s + 1)); part[s] = 0
        elif kind == 'xsim' and alive[1]: L += ['ack %d' % R.choice([1, 2, 3, 10, 130]), 'rcv 1 0']
        elif kind == 'lo': L.append('enc %d %d 1' % (s + 1, amount(s)))
    return L
def bigs(R, kind):
    L = ['new %s %d' % (kind, R.choice([16, 128, 1000]))]
    if kind != 'fifo' and R.random() < .5: L += ['enc 1 10', 'rcv 2 0', 'enc 2 5', 'rcv 1 0']
    for _ in range(2):
        s = 1 if kind == 'fifo' else R.randint(1, 2)
        if R.random() < .5: L.append('short %d' % R.randint(1, 5000))
        L.append('big %d %d %d 0' % (s, R.choice([70000, 65536, 65537, 250000, R.randint(60000, 400000)]), R.choice([1, 500, 5000])))
    return L
def run(ck):
    R = ck.rng
    ck.model('ChannelMC', 'ChannelMC')
    ck.model('ChannelBlk', 'ChannelBlk')
    exe = vlib.build('chan', extra=['-Wl,--wrap=' + x for x in ('write', 'read', 'zmq_send')])
    k = 8 if ck.thorough else 1
    segs = [vlib.Seg(script(R, R.choice([12, 25, 50]), kind)) for kind in KINDS for _ in range({'stdio': 25, 'req': 60, 'zmq': 200}.get(kind, 300) * k)]
    ck.conform(exe, 'ChannelTrace', 'ChannelTrace', segs, name='random')
    segs = [vlib.Seg(bigs(R, kind)) for kind in ('fd', 'sock', 'fifo', 'dpipe') for _ in range(8 * k)]
    ck.conform(exe, 'ChannelTrace', 'ChannelTrace', segs, name='more than the channel can hold')
    ck.assumptions += ['POSIX only; the ZeroMQ sockets use inproc and TCP over the loop back device; write errors and short writes are injected at the system call']
