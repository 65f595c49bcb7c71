import vlib
from checks import dbglib as d
def sim(ck, exe, n):
    segs, seen = [], set()
    for b in ck.simulate('DebuggerMC', 'DebuggerSim', n, 32):
        L = ['init %s %s' % (d.H('id'), d.H('v')), 'map C ' + d.H('/S')]
        segs.append(vlib.Seg(L + d.beh(b) + ['dump']))
    ck.conform(exe, 'DebuggerTrace', 'DebuggerTrace', segs, name='behaviours of DebuggerMC.tla', post=d.post)
def run(ck):
    t, R = ck.thorough, ck.rng
    for c in ('DebuggerMC1', 'DebuggerMC2'): ck.model('DebuggerMC', c, heap='8g')
    sim(ck, d.exe('config_dbg'), 2000 if t else 200)
    for cfg, n in (('config_dbg', 300), ('config_dbgo', 150), ('config', 300)):
        ck.conform(d.exe(cfg), 'DebuggerTrace', 'DebuggerTrace', [vlib.Seg(d.history(R)) for _ in range(n * 15 if t else n)], name='requests, ' + cfg, post=d.post)
    ck.assumptions += ['memory requests address memory of the test only', 'no response is longer than the transport can take']
