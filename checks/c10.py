import vlib
from checks import dbglib as d
def run(ck):
    t, R = ck.thorough, ck.rng
    ck.model('DebuggerMC', 'DebuggerMC1', heap='8g')
    for cfg, n in (('config_dbg', 500), ('config_dbgo', 200), ('config', 200)):
        ck.conform(d.exe(cfg), 'DebuggerTrace', 'DebuggerTrace', [vlib.Seg(d.deftests(R)) for _ in range(n * 15 if t else n)], name='aliases and macros, ' + cfg, post=d.post)
    ck.assumptions += ['aliases are removed when a store is unmapped']
