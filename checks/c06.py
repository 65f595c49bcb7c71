import vlib
from checks import synclib as s
def run(ck):
    exe = s.exe(); t = ck.thorough; R = ck.rng
    for c in ['SyncMC', 'SyncMCF', 'SyncMCO', 'SyncMCLive'] + (['SyncMC3', 'SyncMC4'] if t else []):
        ck.model('SyncMC', c, heap='12g', timeout=1500)
    segs = []
    for topo, d in (('2', 31), ('3', 41), ('F', 41), ('4', 51)):
        for b in ck.simulate('SyncSim', 'SyncSim' + topo, 4000 if t else 300, d):
            segs.append(vlib.Seg(s.from_behaviour(R, b, topo, R.choice('AAB'))))
    ck.conform(exe, 'SyncTrace', 'SyncTrace', segs, name='behaviours of the specification')
    ck.conform(exe, 'SyncTrace', 'SyncTrace', [vlib.Seg(s.history(R)) for _ in range(6000 if t else 700)], name='random histories')
    ck.conform(exe, 'SyncTrace', 'SyncTrace', [vlib.Seg(s.history(R, 250, hot=14)) for _ in range(600 if t else 40)], name='long histories')
    ck.conform(exe, 'SyncTrace', 'SyncTrace', [vlib.Seg(s.history(R, 12, '3', 'C', False)) for _ in range(20 if t else 4)], name='large store')
    ck.assumptions += ['channels keep the order, and do not lose messages without a reset of the connection', 'positions of which changes pass each other in opposite directions on a link are excluded (documented race)']
