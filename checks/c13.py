"""C13: a generated store matches its definition."""
import vlib
from checks import storechk, storegen
def run(c):
    R = c.rng
    for rnd in range(6 if c.thorough else 1):
        S = storechk.make(R, 64, .75)
        # more objects than fit in a byte
        n = R.choice([254, 255, 256, 300])
        S.append(storegen.Store('SF', ''.join('(%s) fun%d\n' % (R.choice(['int8', 'uint16']), i) for i in range(n)), True))
        S.append(storegen.Store('SV', ''.join('%s%s v%d\n' % (R.choice(['int8', 'uint16']), R.choice(['', '=%d' % i if i < 128 else '']), i) for i in range(n)), True))
        exe, gen = storechk.build(c, 'c13-%d' % rnd, S)
        hs = [storechk.regenerate(S, gen, k) for k in (0, 7)]
        mt = {s.name: storechk.docs(gen, s) for s in S}
        text = {s.name: s.text for s in S}
        def extra(seg, k):
            ev = []
            for e in seg.events:
                if e['e'] == 'hash':
                    e['w'] = [h[k] for h in hs] + [mt[k][0]]
                    e['o'] = [hs[0][x] for x in hs[0] if text[x] != text[k]]
                ev.append(e)
                if e['e'] == 'init':
                    ev += [dict(e='doc', d=d, m=True) for d in mt[k][1]]
            seg.events = ev
        segs = [vlib.Seg(['store ' + s.name] + storechk.usage(R, s, 60 if c.thorough else 30), s.text) for s in S]
        c.conform(exe, 'StoreTrace', 'StoreTrace', segs, name='use', post=storechk.post_for(S, extra))
    c.assumptions += ['64-bit little endian target; no ptr32 functions', 'names without comment delimiters or backslashes']
