import vlib
from checks import synclib as s
def run(ck):
    exe = s.exe(); t = ck.thorough; R = ck.rng
    ck.model('SyncMC', 'SyncMCO', heap='8g')
    ck.conform(exe, 'SyncTrace', 'SyncTrace', [vlib.Seg(s.changes(R)) for _ in range(8000 if t else 900)], name='changes')
    ck.conform(exe, 'SyncTrace', 'SyncTrace', [vlib.Seg(s.history(R, 40, lossy=False)) for _ in range(3000 if t else 250)], name='histories')
    segs = []
    for i in range(16 if t else 6):
        # many generations of changes: the short sequence numbers wrap
        topo = R.choice(['2', '3', 'F'])
        L = s.head(R, topo, 'A', False)
        for k in range(1, len(s.TOPO[topo]) + 1): L += s.connect(topo, k, 'A')
        L.append('settle')
        for j in range(R.choice([3, 6])):
            for _ in range(R.randint(0, 6)): L.append(s.write(R, R.randint(1, s.NN[topo]), 'A'))
            if R.random() < .7: L.append('settle')
            else: L += ['proc1 1 1 1', 'dl 2 1', 'proc1 2 1 1', 'dl 1 1', 'dl 1 1', 'dl 2 1', 'dl 2 1', 'proc1 2 1 1', 'dl 1 1', 'proc1 1 1 1', 'dl 2 1']
            L.append('churn %d 1 1 %d %d' % (R.choice([1, 2]), R.choice([2, 3, 4]) , R.choice([100, 16380, 16390, 20000, 32768, 33000, 49000, 49160, 65530, 70000])))
            if R.random() < .3: L.append('clean 1 1')
            for _ in range(R.randint(0, 4)): L.append(s.write(R, R.randint(1, s.NN[topo]), 'A'))
            L += ['proc 1', 'proc 2', 'settle']
        L += ['end ' + ' '.join(str(k) for k in range(1, len(s.TOPO[topo]) + 1))]
        segs.append(vlib.Seg(L))
    ck.conform(exe, 'SyncTrace', 'SyncTrace', segs, name='many generations', seg_timeout=60)
