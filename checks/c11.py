import vlib
from checks import dbglib as d
from checks.c09 import sim
def run(ck):
    t, R = ck.thorough, ck.rng
    ck.model('DebuggerMC', 'DebuggerMC2', heap='8g')
    sim(ck, d.exe('config_dbg'), 2000 if t else 200)
    for cfg, n in (('config_dbg', 400), ('config_dbgo', 300)):
        ck.conform(d.exe(cfg), 'DebuggerTrace', 'DebuggerTrace', [vlib.Seg(d.streams(R)) for _ in range(n * 15 if t else n)], name='streams, ' + cfg, post=d.post)
    for cfg, n in (('config_dbgz', 250), ('config', 60)):
        ck.conform(d.exe(cfg), 'StreamZTrace', 'StreamZTrace', [vlib.Seg(d.zstreams(R)) for _ in range(n * 15 if t else n)], name='compressed streams, ' + cfg, post=d.post)
    ck.assumptions += ['a stream is read by one client']
