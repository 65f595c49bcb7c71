"""C12: name lookup and listing."""
import vlib
from checks import storechk
def run(c):
    R = c.rng
    c.model('Directory', 'DirectoryCheck')
    c.model('Directory', 'DirectoryCheck2')
    if c.thorough:
        c.model('Directory', 'DirectoryCheck3', timeout=3000)
        c.model('Directory', 'DirectoryCheck4', timeout=3000)
    for rnd in range(6 if c.thorough else 1):
        S = storechk.make(R, 64, .1)
        exe, gen = storechk.build(c, 'c12-%d' % rnd, S)
        segs = []
        for s in S:
            for k in range(3 if c.thorough else 1):
                segs.append(vlib.Seg(['store ' + s.name, 'list'] + storechk.lookups(R, s, 150), s.text))
        c.conform(exe, 'StoreTrace', 'StoreTrace', segs, name='lookup', post=storechk.post_for(S))
    c.assumptions += ['names without comment delimiters or backslashes', 'lookup by Store::find; lookup by the debugger is part of C09']
